//! What must hold after every step: refinement against the reference model, and
//! invariants stated independently of it.

use {
    crate::{
        bank::{Executed, Ledger, Verdict},
        model::{self, SPL, T22},
        native::CrashPoint,
        ops::tag,
        svm::{self, Engine},
        trace::TxEvent,
        world::{self, Pair, World},
    },
    solana_account::Account,
    solana_pubkey::Pubkey,
    spl_token_2022_interface::{
        extension::{self, BaseStateWithExtensions, ExtensionType, StateWithExtensions},
        state::Mint,
    },
    spl_token_metadata_interface::state::TokenMetadata,
    std::collections::BTreeMap,
};

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable identity used by the minimiser.
    pub class: String,
    /// Properties this violation breaks.
    pub props: Vec<&'static str>,
    pub detail: String,
}

pub const OP_NAMES: [&str; 7] = ["create", "wrap", "unwrap", "close-stuck", "sync-t22", "sync-spl", "set-pointer"];
pub fn op_prop(op: u8) -> &'static str {
    match op {
        1 => "C02",
        2 => "C03",
        3 => "C09",
        4 => "C10",
        5 => "C11",
        6 => "C13",
        _ => "C08",
    }
}

/// Facts about a pair that may never change once true.
#[derive(Clone, Debug, PartialEq)]
struct Fixed {
    decimals: u8,
    mint_authority: Option<Pubkey>,
    freeze: Option<Pubkey>,
    program: Pubkey,
    exts: Vec<u16>,
    pointer: Option<(Option<Pubkey>, Option<Pubkey>)>,
    ct: Option<Vec<u8>>,
}

#[derive(Default, Clone)]
pub struct Oracle {
    fixed: BTreeMap<usize, Fixed>,
    pub seized: BTreeMap<usize, u64>,
    pub comparisons: u64,
    pub invariants: u64,
}

fn fixed_of(a: &Account) -> Option<Fixed> {
    let s = StateWithExtensions::<Mint>::unpack(&a.data).ok()?;
    let mut exts: Vec<u16> = s
        .get_extension_types()
        .ok()?
        .into_iter()
        .filter(|e| *e != ExtensionType::TokenMetadata)
        .map(|e| e as u16)
        .collect();
    exts.sort();
    let ptr = s
        .get_extension::<extension::metadata_pointer::MetadataPointer>()
        .ok()
        .map(|p| (p.authority.into(), p.metadata_address.into()));
    let ct = s
        .get_extension::<extension::confidential_transfer::ConfidentialTransferMint>()
        .ok()
        .map(|c| bytemuck::bytes_of(c).to_vec());
    Some(Fixed {
        decimals: s.base.decimals,
        mint_authority: s.base.mint_authority.into(),
        freeze: s.base.freeze_authority.into(),
        program: a.owner,
        exts,
        pointer: ptr,
        ct,
    })
}

pub fn token_metadata(a: &Account) -> Option<TokenMetadata> {
    StateWithExtensions::<Mint>::unpack(&a.data)
        .ok()?
        .get_variable_len_extension::<TokenMetadata>()
        .ok()
}

/// Metadata equality as an observer sees it: additional fields are a set, and
/// Metaplex pads its strings with NULs.
fn same_metadata(a: &TokenMetadata, b: &TokenMetadata) -> bool {
    let t = |s: &str| s.trim_end_matches('\0').to_string();
    let f = |m: &TokenMetadata| {
        let mut v = m.additional_metadata.clone();
        v.sort();
        v
    };
    a.update_authority == b.update_authority
        && a.mint == b.mint
        && t(&a.name) == t(&b.name)
        && t(&a.symbol) == t(&b.symbol)
        && t(&a.uri) == t(&b.uri)
        && f(a) == f(b)
}

/// Account equality, where the layout of metadata inside a mint is free.
pub fn same_account(a: &Account, b: &Account) -> bool {
    if a == b || (a.lamports == 0 && b.lamports == 0) {
        return true;
    }
    if a.lamports != b.lamports || a.owner != b.owner || a.executable != b.executable {
        return false;
    }
    if a.owner == T22 && a.data.len() > 166 && a.data != b.data {
        if let (Some(x), Some(y)) = (token_metadata(a), token_metadata(b)) {
            let ty = |m: &Account| {
                StateWithExtensions::<Mint>::unpack(&m.data).ok().map(|s| {
                    let mut v: Vec<u16> = s
                        .get_extension_types()
                        .unwrap_or_default()
                        .into_iter()
                        .map(|e| e as u16)
                        .collect();
                    v.sort();
                    (s.base, v)
                })
            };
            return same_metadata(&x, &y) && ty(a) == ty(b) && fixed_of(a) == fixed_of(b);
        }
    }
    a.data == b.data
}

fn fields_differ(a: &Account, b: &Account) -> bool {
    if let (Some(x), Some(y)) = (token_metadata(a), token_metadata(b)) {
        let t = |s: &str| s.trim_end_matches('\0').to_string();
        return t(&x.name) != t(&y.name) || t(&x.symbol) != t(&y.symbol) || t(&x.uri) != t(&y.uri);
    }
    true
}

fn verdict_name(v: &Verdict) -> String {
    match v {
        Verdict::Ok => "succeeded".into(),
        Verdict::Failed { ix, err } => format!("failed at instruction {ix}: {err}"),
        Verdict::Rejected(e) => format!("rejected: {e}"),
    }
}

/// Properties concerned by a mismatch between program and model.
fn concern(op: u8, tags: u32, kind: &str, w: &World, controls: bool) -> Vec<&'static str> {
    let mut p = vec![];
    let mut add = |x| {
        if !p.contains(&x) {
            p.push(x)
        }
    };
    match op {
        0 => {
            add("C08");
            add("C07");
            if w.variant != model::Variant::Default {
                add("C22");
            }
        }
        1 | 2 => {
            add(op_prop(op));
            if kind != "reject" {
                add("C01");
            }
            if controls {
                add("C15");
            }
            if w.variant != model::Variant::Default {
                add("C22");
            }
        }
        4 | 5 => {
            add(op_prop(op));
            if kind == "accept" || kind == "source" || tags & tag::META != 0 {
                add("C12");
            }
        }
        _ => add(op_prop(op)),
    }
    if kind != "reject" {
        if tags & tag::SUB != 0 {
            add("C06");
            if op == 4 || op == 5 {
                add("C12");
            }
            if op == 1 || op == 2 {
                add("C05");
            }
        }
        if tags & tag::AUTH != 0 {
            add("C05");
        }
        if tags & tag::DATA != 0 {
            add("C14");
        }
    }
    if tags & tag::LIB != 0 {
        add("C14");
    }
    p
}

impl Oracle {
    fn amounts(&self, l: &dyn Fn(&Pubkey) -> Option<Account>, p: &Pair) -> (u64, u64) {
        let mut e = 0u64;
        for (k, prog) in [(p.escrow_spl, SPL), (p.escrow_t22, T22)] {
            if let Some(a) = l(&k) {
                if a.owner == prog {
                    if let Some(t) = world::tok(&a.data) {
                        if t.mint == p.unwrapped {
                            e = e.saturating_add(t.amount);
                        }
                    }
                }
            }
        }
        let s = l(&p.wrapped)
            .filter(|a| a.owner == p.wprog)
            .and_then(|a| world::mint_of(&a.data))
            .map_or(0, |m| m.supply);
        (e, s)
    }

    /// Takes note of what exists before the first event.
    pub fn start(&mut self, w: &World) {
        for (i, p) in w.pairs.iter().enumerate() {
            if let Some(a) = w.ledger.get(&p.wrapped) {
                if let Some(f) = fixed_of(a) {
                    self.fixed.insert(i, f);
                }
            }
        }
    }

    /// Judges one executed transaction; `pre` is the ledger before it.
    pub fn judge(
        &mut self,
        w: &World,
        pre: &Ledger,
        ev: &TxEvent,
        ex: &Executed,
        model_engine: &mut Engine,
    ) -> Option<Violation> {
        if let (Verdict::Rejected(e), Some(c)) = (&ex.verdict, &ev.canon) {
            // the library asked for a signature the request does not need
            let tx = crate::bank::Tx { ixs: c.clone(), crash: CrashPoint::None, cu_limit: 1_400_000, ..ev.tx.clone() };
            if pre.admissible(&tx).is_ok() && pre.run(model_engine, &tx).verdict == Verdict::Ok {
                let op = if ev.op < 7 { OP_NAMES[ev.op as usize] } else { "other" };
                return Some(Violation {
                    class: format!("refine/{op}/rejected"),
                    props: vec!["C14"],
                    detail: format!("{} [{}]: {e}, but the reference succeeded", ev.label, tag_names(ev.tags)),
                });
            }
        }
        let o = ex.outcome.as_ref()?;
        if ev.touches_program() || o.trace.iter().any(|f| f.program == model::PROGRAM) {
            if let Some(v) = self.refine(w, pre, ev, ex, model_engine) {
                return Some(v);
            }
        }
        if let (Verdict::Ok, Some(c)) = (&ex.verdict, &ev.canon) {
            // no more than the documentation lists, signed or writable
            let asks = |ixs: &[solana_instruction::Instruction]| -> std::collections::BTreeSet<(Pubkey, bool)> {
                let metas = ixs.iter().flat_map(|i| &i.accounts).filter(|m| m.pubkey != ev.tx.payer);
                metas.flat_map(|m| [m.is_writable.then_some((m.pubkey, true)), m.is_signer.then_some((m.pubkey, false))]).flatten().collect()
            };
            if let Some((k, w2)) = asks(&ev.tx.ixs).difference(&asks(c)).next() {
                let op = if ev.op < 7 { OP_NAMES[ev.op as usize] } else { "other" };
                return Some(Violation {
                    class: format!("library/{op}/privileges"),
                    props: vec!["C14"],
                    detail: format!("{} [{}]: {} need not be {}", ev.label, tag_names(ev.tags), w.name(k), if *w2 { "writable" } else { "a signer" }),
                });
            }
        }
        if ex.verdict == Verdict::Ok {
            return self.invariants(w, pre, ev, ex);
        }
        None
    }

    fn refine(
        &mut self,
        w: &World,
        pre: &Ledger,
        ev: &TxEvent,
        ex: &Executed,
        model_engine: &mut Engine,
    ) -> Option<Violation> {
        let o = ex.outcome.as_ref()?;
        let faulted = o.crashed || ev.tx.cu_limit < 1_400_000;
        if faulted && ex.verdict != Verdict::Ok {
            return None; // atomicity is the bank's; nothing to compare
        }
        self.comparisons += 1;
        let mut tx = ev.tx.clone();
        tx.crash = CrashPoint::None;
        tx.cu_limit = 1_400_000;
        if let Some(c) = &ev.canon {
            tx.ixs = c.clone();
        }
        let mx = pre.run(model_engine, &tx);
        let op = if ev.op < 7 { OP_NAMES[ev.op as usize] } else { "other" };
        let mk = |kind: &str, detail: String| {
            let controls = has_controls(w, pre, ev);
            let mut props = concern(ev.op, ev.tags, kind, w, controls);
            if kind == "diff" && ev.op != 1 && ev.op != 2 && detail.contains("supply") {
                props.push("C01");
            }
            Violation {
                class: format!("refine/{op}/{kind}"),
                props,
                detail: format!("{} [{}]: {detail}", ev.label, tag_names(ev.tags)),
            }
        };
        match (&ex.verdict, &mx.verdict) {
            (Verdict::Ok, Verdict::Ok) => {
                let mo = mx.outcome.as_ref().unwrap();
                let find = |v: &svm::Outcome, k: &Pubkey| -> Account {
                    v.accounts
                        .iter()
                        .find(|a| a.0 == *k && a.2)
                        .map(|a| a.1.clone())
                        .or_else(|| pre.get(k).cloned())
                        .unwrap_or_default()
                };
                let keys: std::collections::BTreeSet<Pubkey> = o
                    .accounts
                    .iter()
                    .chain(&mo.accounts)
                    .filter(|a| a.2)
                    .map(|a| a.0)
                    .collect();
                for k in keys {
                    let (a, b) = (find(o, &k), find(mo, &k));
                    if !same_account(&a, &b) {
                        let src = (ev.op == 4 || ev.op == 5) && fields_differ(&a, &b);
                        return Some(mk(
                            if src { "source" } else { "diff" },
                            format!(
                                "account {} differs from the reference: {}",
                                w.name(&k),
                                describe(&a, &b)
                            ),
                        ));
                    }
                }
                None
            }
            (Verdict::Ok, m) => Some(mk(
                "accept",
                format!("succeeded, but the reference {}", verdict_name(m)),
            )),
            (_, Verdict::Ok) if ev.tags & (tag::SUB | tag::DATA) != 0 => {
                // a damaged request may be refused even where it would have
                // been harmless
                None
            }
            (v, Verdict::Ok) => Some(mk(
                "reject",
                format!("{}, but the reference succeeded", verdict_name(v)),
            )),
            _ => None,
        }
    }

    fn invariants(
        &mut self,
        w: &World,
        pre: &Ledger,
        ev: &TxEvent,
        ex: &Executed,
    ) -> Option<Violation> {
        self.invariants += 1;
        let o = ex.outcome.as_ref()?;
        let before = |k: &Pubkey| pre.get(k).cloned();
        let after = |k: &Pubkey| {
            match o.accounts.iter().find(|a| a.0 == *k && a.2) {
                Some(a) => (a.1.lamports > 0).then(|| a.1.clone()),
                None => pre.get(k).cloned(),
            }
        };
        let changed = |k: &Pubkey| o.accounts.iter().any(|a| a.0 == *k && a.2);
        let tw: Vec<&svm::Frame> = o.trace.iter().filter(|f| f.program == model::PROGRAM).collect();
        let fail = |class: &str, props: &[&'static str], detail: String| {
            Some(Violation {
                class: format!("invariant/{class}"),
                props: props.to_vec(),
                detail: format!("{}: {detail}", ev.label),
            })
        };
        let mut moved = vec![];
        for (i, p) in w.pairs.iter().enumerate() {
            let watched = [p.wrapped, p.escrow_spl, p.escrow_t22, p.backptr, p.pointer, p.metaplex];
            if !watched.iter().any(changed) {
                continue;
            }
            let n = w.name(&p.wrapped);
            let (e0, s0) = self.amounts(&before, p);
            let (e1, s1) = self.amounts(&after, p);
            let (de, ds) = (e1 as i128 - e0 as i128, s1 as i128 - s0 as i128);
            // backing
            if ds > de {
                if seizure(pre, ev, p) {
                    *self.seized.entry(i).or_default() += (ds - de) as u64;
                } else {
                    return fail("backing", &["C01", "C02", "C03"], format!(
                        "pair {n}: wrapped supply moved by {ds} but escrow by {de} (supply {s1}, escrow {e1})"));
                }
            }
            if s1 as u128 > e1 as u128 + *self.seized.get(&i).unwrap_or(&0) as u128 {
                return fail("backing", &["C01"], format!("pair {n}: supply {s1} exceeds escrow {e1}"));
            }
            if ds > 0 && !tw.iter().any(|f| f.data.first() == Some(&1)) {
                return fail("minted-without-wrap", &["C01", "C05"], format!("pair {n}: supply grew by {ds} without a wrap"));
            }
            if de < 0 && !tw.iter().any(|f| f.data.first() == Some(&2)) && !seizure(pre, ev, p) {
                return fail("escrow-left-without-unwrap", &["C01", "C05"], format!("pair {n}: escrow fell by {} without an unwrap", -de));
            }
            if ds != 0 || de < 0 {
                moved.push(n.clone());
            }
            // escrows
            for (k, prog) in [(p.escrow_spl, SPL), (p.escrow_t22, T22)] {
                if !changed(&k) {
                    continue;
                }
                let (b, a) = (before(&k), after(&k));
                let tb = b.as_ref().filter(|x| x.owner == prog).and_then(|x| world::tok(&x.data));
                let ta = a.as_ref().filter(|x| x.owner == prog).and_then(|x| world::tok(&x.data));
                match (&tb, &ta) {
                    (Some(t), None) => {
                        let stuck = tw.iter().any(|f| f.data.first() == Some(&3)
                            && f.accounts.first().map(|x| x.0) == Some(k));
                        if !stuck || t.amount != 0 || prog != T22 {
                            return fail("escrow-vanished", &["C09", "C01"], format!("escrow of {n} closed with {}", t.amount));
                        }
                        let good = world_matches(b.as_ref().unwrap(), pre.get(&p.unwrapped));
                        if good {
                            return fail("good-escrow-closed", &["C09"], format!("escrow of {n} was in good state"));
                        }
                    }
                    (_, Some(t)) => {
                        let del: Option<Pubkey> = t.delegate.into();
                        let close: Option<Pubkey> = t.close_authority.into();
                        if t.owner != p.auth || del.is_some() || close.is_some() {
                            return fail("escrow-control", &["C05"], format!(
                                "escrow of {n}: owner {} delegate {del:?} close authority {close:?}", w.name(&t.owner)));
                        }
                    }
                    _ => {}
                }
            }
            // the wrapped mint
            if changed(&p.wrapped) {
                let a = after(&p.wrapped);
                let f = a.as_ref().and_then(fixed_of).filter(|f| f.program == p.wprog);
                match (self.fixed.get(&i), f) {
                    (Some(old), Some(new)) => {
                        if *old != new {
                            return fail("wrapped-mint-changed", &["C07", "C05", "C08"], format!("{n}: {old:?} became {new:?}"));
                        }
                    }
                    (Some(_), None) => {
                        return fail("wrapped-mint-vanished", &["C07", "C08"], n);
                    }
                    (None, Some(new)) => {
                        if new.mint_authority != Some(p.auth) {
                            return fail("wrapped-mint-authority", &["C07", "C05"], format!("{n}: mint authority {:?}", new.mint_authority));
                        }
                        if s1 != 0 && !tw.iter().any(|f| f.data.first() == Some(&1)) {
                            return fail("born-with-supply", &["C07", "C01"], format!("{n}: supply {s1}"));
                        }
                        self.fixed.insert(i, new);
                    }
                    _ => {}
                }
                if let Some(m) = a.as_ref().and_then(token_metadata) {
                    let ua: Option<Pubkey> = m.update_authority.into();
                    if ua != Some(p.auth) || m.mint != p.wrapped {
                        return fail("metadata-authority", &["C10", "C05"], format!("{n}: update authority {ua:?}"));
                    }
                }
            }
            if changed(&p.backptr) {
                let a = after(&p.backptr);
                let b = before(&p.backptr);
                let ok = |x: &Account| x.owner == model::PROGRAM && x.data == p.unwrapped.as_ref();
                match (b, a) {
                    (Some(b), a) if b.owner == model::PROGRAM => {
                        if !a.is_some_and(|a| ok(&a)) {
                            return fail("backpointer-changed", &["C07", "C08"], n);
                        }
                    }
                    (_, Some(a)) if !a.data.is_empty() => {
                        if !ok(&a) {
                            return fail("backpointer-wrong", &["C07"], n);
                        }
                    }
                    _ => {}
                }
            }
            if changed(&p.pointer) {
                let (b, a) = (before(&p.pointer), after(&p.pointer));
                let d = |x: &Option<Account>| x.as_ref().map_or(vec![], |a| a.data.clone());
                if d(&a) != d(&b) {
                    let auth: Option<Pubkey> = pre.get(&p.unwrapped).filter(|m| world::is_tp(&m.owner))
                        .and_then(|m| world::mint_of(&m.data)).and_then(|m| m.mint_authority.into());
                    let signed = auth.is_some_and(|k| ev.tx.signers.contains(&k));
                    if !signed {
                        return fail("pointer-authority", &["C13", "C05"], format!("pointer of {} changed without its mint authority", w.name(&p.unwrapped)));
                    }
                    if let [f] = tw[..] {
                        if f.data.len() != 33 || f.data[0] != 6 || d(&a) != f.data[1..] {
                            return fail("pointer-value", &["C13"], format!("pointer of {} does not hold the requested value", w.name(&p.unwrapped)));
                        }
                    }
                }
            }
            if changed(&p.metaplex) {
                if let Some(a) = after(&p.metaplex).filter(|a| a.owner == svm::METAPLEX) {
                    if let Ok(m) = mpl_token_metadata::accounts::Metadata::safe_deserialize(&a.data) {
                        if m.update_authority != p.auth || m.mint != p.wrapped {
                            return fail("metaplex-authority", &["C11", "C05"], n);
                        }
                        // nobody vouches for the wrapped mint but themselves
                        let signed = |k: &Pubkey| ev.tx.signers.contains(k);
                        let old = before(&p.metaplex).and_then(|b| mpl_token_metadata::accounts::Metadata::safe_deserialize(&b.data).ok());
                        let (oc, ocol) = old.map_or((vec![], None), |o| (o.creators.unwrap_or_default(), o.collection));
                        if m.creators.iter().flatten().any(|c| c.verified && !signed(&c.address)
                            && !oc.iter().any(|o| o.verified && o.address == c.address)) {
                            return fail("metaplex-verified-creator", &["C11"], n);
                        }
                        if m.collection.as_ref().is_some_and(|c| c.verified && !signed(&world::collection_authority())
                            && !ocol.is_some_and(|o| o.verified && o.key == c.key)) {
                            return fail("metaplex-verified-collection", &["C11"], n);
                        }
                    }
                }
            }
        }
        let direct_tokens = o.trace.iter().any(|f| f.depth == 0 && world::is_tp(&f.program));
        if tw.len() == 1 && moved.len() > 1 && !direct_tokens {
            return fail("cross-pair", &["C06", "C01"], format!("one request moved pairs {}", moved.join(", ")));
        }
        if let [f] = tw[..] {
            if let Some(v) = self.hooks(w, pre, ev, o, f) {
                return Some(v);
            }
            if let Some(v) = self.spending(w, pre, ev, o, f) {
                return Some(v);
            }
        }
        None
    }

    /// The transfer hook of the unwrapped mint ran exactly once, with the
    /// amount that moved.
    fn hooks(&self, w: &World, pre: &Ledger, ev: &TxEvent, o: &svm::Outcome, f: &svm::Frame) -> Option<Violation> {
        let (mint, amount) = match (f.data.first(), f.data.len()) {
            (Some(1), 9) => (f.accounts.get(6)?.0, u64::from_le_bytes(f.data[1..].try_into().unwrap())),
            (Some(2), 9) => (f.accounts.get(3)?.0, u64::from_le_bytes(f.data[1..].try_into().unwrap())),
            _ => return None,
        };
        let m = pre.get(&mint)?;
        if m.owner != T22 {
            return None;
        }
        let s = StateWithExtensions::<Mint>::unpack(&m.data).ok()?;
        let hook = extension::transfer_hook::get_program_id(&s)?;
        if o.trace.iter().any(|x| x.depth == 0 && world::is_tp(&x.program)) {
            return None;
        }
        // a transfer of an account to itself (redeeming into the escrow) moves
        // nothing, and Token-2022 calls no hook for it
        if f.data[0] == 2 && f.accounts[0].0 == f.accounts[1].0 {
            return None;
        }
        let calls: Vec<u64> = o.trace.iter().filter(|x| x.program == hook && x.depth > 0)
            .map(|x| x.data.get(8..16).map_or(0, |b| u64::from_le_bytes(b.try_into().unwrap()))).collect();
        if calls != [amount] {
            return Some(Violation {
                class: "invariant/hook".into(),
                props: vec!["C15"],
                detail: format!("{}: hook of {} ran with {calls:?}, expected [{amount}]", ev.label, w.name(&mint)),
            });
        }
        None
    }

    /// Every account that lost tokens had its spender's consent.
    fn spending(&self, w: &World, pre: &Ledger, ev: &TxEvent, o: &svm::Outcome, f: &svm::Frame) -> Option<Violation> {
        if o.trace.iter().any(|x| x.depth == 0 && world::is_tp(&x.program)) {
            return None;
        }
        for (k, a, wr) in &o.accounts {
            if !wr || !world::is_tp(&a.owner) {
                continue;
            }
            let Some(b) = pre.get(k).filter(|b| b.owner == a.owner) else { continue };
            let (Some(t0), Some(t1)) = (world::tok(&b.data), world::tok(&a.data)) else { continue };
            if t1.amount >= t0.amount {
                continue;
            }
            let lost = t0.amount - t1.amount;
            let consent = |who: &Pubkey| -> bool {
                if ev.tx.signers.contains(who) && f.accounts.iter().any(|x| x.0 == *who && x.1) {
                    return true;
                }
                match w.multi(who) {
                    Some(m) if m.program == a.owner || a.owner == SPL => {
                        let n = m.members.iter().filter(|s| f.accounts.iter().any(|x| x.0 == **s && x.1)
                            && ev.tx.signers.contains(s)).count();
                        n >= m.m as usize
                    }
                    _ => false,
                }
            };
            let delegate: Option<Pubkey> = t0.delegate.into();
            let ok = consent(&t0.owner)
                || delegate.is_some_and(|d| consent(&d) && t0.delegated_amount >= lost)
                || permanent_delegate(pre, &t0.mint).is_some_and(|d| consent(&d))
                || (f.data.first() == Some(&2) && f.accounts.first().map(|x| x.0) == Some(*k)
                    && w.pairs.iter().any(|p| p.auth == t0.owner && (p.escrow_spl == *k || p.escrow_t22 == *k)));
            if !ok {
                return Some(Violation {
                    class: "invariant/consent".into(),
                    props: vec!["C05"],
                    detail: format!("{}: {} lost {lost} without its owner's, delegate's or members' signatures", ev.label, w.name(k)),
                });
            }
        }
        None
    }
}

fn world_matches(escrow: &Account, mint: Option<&Account>) -> bool {
    use spl_token_2022_interface::state::Account as T;
    let Some(m) = mint else { return false };
    let (Ok(e), Ok(m)) = (StateWithExtensions::<T>::unpack(&escrow.data), StateWithExtensions::<Mint>::unpack(&m.data)) else {
        return false;
    };
    let need = |e: ExtensionType| match e {
        ExtensionType::TransferFeeConfig => Some(ExtensionType::TransferFeeAmount),
        ExtensionType::NonTransferable => Some(ExtensionType::NonTransferableAccount),
        ExtensionType::TransferHook => Some(ExtensionType::TransferHookAccount),
        ExtensionType::Pausable => Some(ExtensionType::PausableAccount),
        _ => None,
    };
    let mut want: Vec<u16> = m.get_extension_types().unwrap_or_default().into_iter().filter_map(need).map(|e| e as u16).collect();
    want.push(ExtensionType::ImmutableOwner as u16);
    let mut have: Vec<u16> = e.get_extension_types().unwrap_or_default().into_iter().map(|e| e as u16).collect();
    want.sort();
    have.sort();
    want == have
}

fn permanent_delegate(l: &Ledger, mint: &Pubkey) -> Option<Pubkey> {
    let m = l.get(mint)?;
    if m.owner != T22 {
        return None;
    }
    let s = StateWithExtensions::<Mint>::unpack(&m.data).ok()?;
    extension::permanent_delegate::get_permanent_delegate(&s)
}

/// The issuer took tokens out of the escrow with its own permanent delegate.
fn seizure(pre: &Ledger, ev: &TxEvent, p: &Pair) -> bool {
    permanent_delegate(pre, &p.unwrapped).is_some_and(|d| ev.tx.signers.contains(&d))
        && ev.tx.ixs.iter().any(|i| i.program_id == T22)
}

fn has_controls(w: &World, l: &Ledger, ev: &TxEvent) -> bool {
    let Some(ix) = ev.tx.ixs.iter().find(|i| i.program_id == model::PROGRAM) else {
        return false;
    };
    ix.accounts.iter().any(|m| {
        w.multi(&m.pubkey).is_some()
            || l.get(&m.pubkey).is_some_and(|a| {
                world::is_tp(&a.owner)
                    && (a.data.len() > 166
                        || world::tok(&a.data).is_some_and(|t| {
                            t.state == spl_token_2022_interface::state::AccountState::Frozen
                        })
                        || world::mint_of(&a.data).is_some_and(|m| m.freeze_authority.is_some()))
            })
    })
}

pub fn tag_names(t: u32) -> String {
    let mut v = vec![];
    for (b, n) in [(tag::SUB, "substituted"), (tag::AUTH, "authority"), (tag::DATA, "damaged"), (tag::LIB, "library"), (tag::META, "source"), (tag::BUNDLE, "bundle")] {
        if t & b != 0 {
            v.push(n);
        }
    }
    v.join(",")
}

fn describe(a: &Account, b: &Account) -> String {
    if a.lamports != b.lamports {
        return format!("lamports {} instead of {}", a.lamports, b.lamports);
    }
    if a.owner != b.owner {
        return format!("owner {} instead of {}", a.owner, b.owner);
    }
    if let (Some(x), Some(y)) = (world::tok(&a.data), world::tok(&b.data)) {
        if x.amount != y.amount {
            return format!("amount {} instead of {}", x.amount, y.amount);
        }
        if x != y {
            return format!("{x:?} instead of {y:?}");
        }
    }
    if let (Some(x), Some(y)) = (token_metadata(a), token_metadata(b)) {
        if !same_metadata(&x, &y) {
            return format!("metadata {x:?} instead of {y:?}");
        }
    }
    if let (Some(x), Some(y)) = (world::mint_of(&a.data), world::mint_of(&b.data)) {
        if x.supply != y.supply {
            return format!("supply {} instead of {}", x.supply, y.supply);
        }
        if x != y {
            return format!("{x:?} instead of {y:?}");
        }
    }
    if a.owner == svm::METAPLEX {
        use mpl_token_metadata::accounts::Metadata;
        if let (Ok(x), Ok(y)) = (Metadata::safe_deserialize(&a.data), Metadata::safe_deserialize(&b.data)) {
            return format!("{x:?} instead of {y:?}");
        }
    }
    format!("data ({} bytes) instead of ({} bytes)", a.data.len(), b.data.len())
}

impl TxEvent {
    pub fn touches_program(&self) -> bool {
        self.tx.ixs.iter().any(|i| i.program_id == model::PROGRAM)
    }
}
