//! One simulated deployment: clients, issuers and an attacker send requests over
//! an unreliable network to a ledger running the real program. A seeded
//! scheduler decides every delay, loss, repetition, crash and clock jump.

use {
    crate::{
        bank::{Ledger, Tx, Verdict},
        model::{self, Variant},
        native::{self, CrashPoint},
        ops::{self, tag, Op, OpCfg, Request, Step, ALL_OPS, OPS},
        oracle::{tag_names, Oracle, Violation},
        profile::Profile,
        rng::Rng,
        svm::{Engine, Outcome},
        thirdparty,
        trace::{self, Event, TxEvent},
        world::{self, key, World},
    },
    solana_account_info::AccountInfo,
    solana_program_error::ProgramResult,
    solana_program_runtime::{declare_process_instruction, invoke_context::BuiltinFunctionWithContext},
    serde_json::Value,
    solana_pubkey::Pubkey,
    spl_token_wrap as sut,
    std::{
        cmp::Reverse,
        collections::{BTreeMap, BTreeSet, BinaryHeap},
        hash::{Hash, Hasher},
    },
};

// ---- the programs under test ----

fn sut_with<C: sut::mint_customizer::interface::MintCustomizer>(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    use sut::instruction::TokenWrapInstruction as I;
    if d.first() == Some(&0) {
        if let Ok(I::CreateMint { idempotent }) = I::unpack(d) {
            return sut::processor::process_create_mint::<C>(p, a, idempotent);
        }
    }
    sut::processor::process_instruction(p, a, d)
}
fn sut_noext(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    sut_with::<sut::mint_customizer::no_extensions::NoExtensionCustomizer>(p, a, d)
}
fn sut_compliance(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    sut_with::<sut::mint_customizer::compliance::ComplianceMintCustomizer>(p, a, d)
}
declare_process_instruction!(SutDefault, 1, |ic| { native::run(sut::processor::process_instruction, ic) });
declare_process_instruction!(SutNoExt, 1, |ic| { native::run(sut_noext, ic) });
declare_process_instruction!(SutCompliance, 1, |ic| { native::run(sut_compliance, ic) });
declare_process_instruction!(ModelDefault, 1, |ic| { native::run(model::process_default, ic) });
declare_process_instruction!(ModelNoExt, 1, |ic| { native::run(model::process_noext, ic) });
declare_process_instruction!(ModelCompliance, 1, |ic| { native::run(model::process_compliance, ic) });
declare_process_instruction!(Memo, 1, |_ic| { Ok(()) });

pub fn engines(v: Variant) -> (Engine, Engine) {
    let (s, m): (BuiltinFunctionWithContext, BuiltinFunctionWithContext) = match v {
        Variant::Default => (SutDefault::vm, ModelDefault::vm),
        Variant::NoExtension => (SutNoExt::vm, ModelNoExt::vm),
        Variant::Compliance => (SutCompliance::vm, ModelCompliance::vm),
    };
    let mk = |f| {
        Engine::new(&[
            (model::PROGRAM, f),
            (thirdparty::HOOK, thirdparty::HookProgram::vm),
            (thirdparty::META1, thirdparty::MetaProgram::vm),
            (thirdparty::META2, thirdparty::MetaProgram::vm),
            (ops::MEMO, Memo::vm),
        ])
    };
    (mk(s), mk(m))
}

/// Reads the program's build for the Solana VM.
pub fn load_vm() {
    let path = std::env::var("TWSBF").unwrap_or("/verif/target/spl_token_wrap.so".into());
    let elf = std::fs::read(&path).unwrap_or_else(|e| {
        eprintln!("{path}: {e}");
        std::process::exit(2)
    });
    VM_BUILD.set(elf).ok();
}
/// The program built for the Solana VM, when the property needs it.
pub static VM_BUILD: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();

pub fn vm_engine(v: Variant) -> Option<Engine> {
    let elf = VM_BUILD.get()?;
    (v == Variant::Default).then(|| engines(v).0.with_elf(model::PROGRAM, elf).expect("the VM loads the program"))
}

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub events: u64,
    pub ok: u64,
    pub failed: u64,
    pub rejected: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub ops: BTreeMap<&'static str, (u64, u64)>, // attempts, successes
    pub states: BTreeSet<u64>,
    pub slots: u64,
    pub comparisons: u64,
    pub invariants: u64,
    pub vm_runs: u64,
    pub vm_cu: [u64; 2], // most compute used: other requests, syncs
    pub drained: u64,
    pub redeemed: u64,
    pub schedule: u64, // hash of the executed schedule
}
impl Stats {
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_default() += 1;
    }
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.events += o.events;
        self.ok += o.ok;
        self.failed += o.failed;
        self.rejected += o.rejected;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.ops {
            let e = self.ops.entry(k).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        self.vm_runs += o.vm_runs;
        for i in 0..2 {
            self.vm_cu[i] = self.vm_cu[i].max(o.vm_cu[i]);
        }
        self.states.extend(o.states);
        self.slots += o.slots;
        self.comparisons += o.comparisons;
        self.invariants += o.invariants;
        self.drained += o.drained;
        self.redeemed += o.redeemed;
        self.schedule ^= o.schedule.wrapping_mul(0x9e3779b97f4a7c15);
    }
}

pub struct Sim {
    pub vm: Option<Engine>,
    pub w: World,
    sut: Engine,
    model: Engine,
    oracle: Oracle,
    pub stats: Stats,
}

/// Everything that happened in one run.
pub struct Run {
    pub events: Vec<Event>,
    pub violation: Option<Violation>,
    /// A violation that does not concern the property under check.
    pub other: Option<Violation>,
    pub stats: Stats,
    pub names: BTreeMap<Pubkey, String>,
}

/// More metadata than C24 speaks of: 30 additional fields, or the profile's limit.
fn oversized(mint: &[u8], large: usize) -> bool {
    use spl_token_2022_interface::{extension::{BaseStateWithExtensions, StateWithExtensions}, state::Mint};
    StateWithExtensions::<Mint>::unpack(mint).ok()
        .and_then(|m| m.get_variable_len_extension::<spl_token_metadata_interface::state::TokenMetadata>().ok())
        .is_some_and(|t| t.additional_metadata.len() > 30 || world::weight(&t) > large + 200)
}

fn hash64(x: &impl Hash) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new_with_keys(1, 2);
    x.hash(&mut h);
    h.finish()
}

impl Sim {
    pub fn new(p: &Profile, seed: u64) -> (Sim, Rng) {
        let mut r = Rng::new(seed);
        if p.large && r.pct(70) {
            world::LARGE.with(|l| l.set(world::largest()));
        }
        let variant = *r.pick(&p.variants);
        let (sut, mut model) = engines(variant);
        let cfg = p.world(&mut r);
        let w = world::build(&mut r, &cfg, variant, &mut model);
        let mut oracle = Oracle::default();
        oracle.start(&w);
        (Sim { w, vm: vm_engine(variant), sut, model, oracle, stats: Stats::default() }, r)
    }

    /// Continues from a recorded world.
    pub fn resume(start: &Value) -> Option<Sim> {
        let (sut, model) = engines(trace::world_variant(start)?);
        let w = trace::world_from_json(start, model.program_accounts().into_iter().collect())?;
        let mut oracle = Oracle::default();
        oracle.start(&w);
        Some(Sim { w, vm: vm_engine(trace::world_variant(start)?), sut, model, oracle, stats: Stats::default() })
    }

    /// The world of a seed, as recorded in replay files.
    pub fn start(p: &Profile, seed: u64) -> Value {
        let s = Sim::new(p, seed).0;
        trace::world_to_json(&s.w, &s.model.program_accounts().into_iter().collect())
    }

    /// Applies one event; returns the verdict of the bank and a violation.
    pub fn apply(&mut self, e: &Event) -> (Option<Verdict>, Option<Violation>) {
        match e {
            Event::Rent(n) => {
                self.w.ledger.set_rate(*n);
                (None, None)
            }
            Event::Put(k, a) => {
                // a third-party program can only write accounts it could own
                let o = self.w.ledger.owner(k);
                if !world::is_tp(&o) && o != model::PROGRAM {
                    self.w.ledger.put(*k, a.clone());
                }
                (None, None)
            }
            Event::Tx(t) => {
                self.w.ledger.slot = self.w.ledger.slot.max(t.slot);
                let ex = self.w.ledger.run(&mut self.sut, &t.tx);
                let v = self.oracle.judge(&self.w, &self.w.ledger, t, &ex, &mut self.model);
                let v = v.or_else(|| self.vm_check(t, &ex));
                self.w.ledger.commit(&ex);
                if ex.verdict == Verdict::Ok {
                    for (k, m) in &t.opens {
                        if !self.w.names.contains_key(k) {
                            let o = self.w.tok(k).map(|a| self.w.name(&a.owner)).unwrap_or_default();
                            let n = format!("{o}:{}", self.w.name(m));
                            self.w.names.insert(*k, n);
                        }
                        self.w.add_tok(*k, *m);
                    }
                }
                self.note(t, &ex.verdict, ex.outcome.as_ref());
                (Some(ex.verdict), v)
            }
        }
    }

    /// The same request from the same state, against the program as deployed:
    /// built for the VM, with its heap, stack and compute limits.
    fn vm_check(&mut self, t: &TxEvent, ex: &crate::bank::Executed) -> Option<Violation> {
        let vm = self.vm.as_mut()?;
        let o = ex.outcome.as_ref()?;
        let large = world::largest();
        if !o.trace.iter().any(|f| f.program == model::PROGRAM) {
            return None;
        }
        let native_ok = ex.verdict == Verdict::Ok;
        let starved = t.tx.cu_limit < 1_400_000;
        if o.crashed || (starved && !native_ok) {
            return None;
        }
        let mut tx = t.tx.clone();
        tx.crash = CrashPoint::None;
        // a sync may ask for all a transaction can have, the rest has to do
        // with what a transaction gets without asking
        let own: Vec<u8> = tx.ixs.iter().filter(|i| i.program_id == model::PROGRAM)
            .filter_map(|i| i.data.first().copied()).collect();
        let sync = own.iter().any(|d| *d == 4 || *d == 5);
        let nested = o.trace.iter().any(|f| f.depth > 1 && f.program == model::PROGRAM);
        let ordinary = !starved && !sync && !nested && t.tags & (tag::SUB | tag::DATA | tag::META) == 0;
        if ordinary {
            tx.cu_limit = 200_000 * tx.ixs.len() as u64;
        }
        let vx = self.w.ledger.run(vm, &tx);
        let vo = vx.outcome.as_ref()?;
        self.stats.vm_runs += 1;
        let vm_ok = vx.verdict == Verdict::Ok;
        let class = if sync { 1 } else { 0 };
        if vm_ok {
            self.stats.vm_cu[class] = self.stats.vm_cu[class].max(vo.cu);
        }
        let op = if t.op < 7 { crate::oracle::OP_NAMES[t.op as usize] } else { "other" };
        let mk = |kind: &str, detail: String| Some(Violation {
            class: format!("vm/{op}/{kind}"),
            props: vec!["C24"],
            detail: format!("{} [{}]: {detail}", t.label, tag_names(t.tags)),
        });
        match (vm_ok, native_ok) {
            (false, true) if starved || t.tags & (tag::SUB | tag::DATA) != 0 => None,
            // more metadata than the property speaks of
            (false, true) if sync && (o.accounts.iter().any(|a| oversized(&a.1.data, large))
                || tx.ixs.iter().flat_map(|i| &i.accounts).any(|m| oversized(self.w.ledger.data(&m.pubkey), large))) => None,
            (false, true) => mk("fails", format!("{:?} on the VM after {} compute units, but the same code succeeds without its limits", vx.verdict, vo.cu)),
            (true, false) => mk("accepts", format!("succeeds on the VM, but not as its source says: {:?}", ex.verdict)),
            (true, true) => {
                for (a, b) in vo.accounts.iter().zip(&o.accounts) {
                    if a.0 == b.0 && a.0 != model::PROGRAM && a.1 != b.1 {
                        return mk("diff", format!("account {} differs between the VM build and the host build", self.w.name(&a.0)));
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn note(&mut self, t: &TxEvent, v: &Verdict, o: Option<&Outcome>) {
        self.stats.events += 1;
        match v {
            Verdict::Ok => self.stats.ok += 1,
            Verdict::Failed { .. } => self.stats.failed += 1,
            Verdict::Rejected(_) => self.stats.rejected += 1,
        }
        if let Some(o) = o {
            if o.crashed {
                self.stats.fault("crash at a CPI boundary");
            }
            if t.tx.cu_limit < 1_400_000 && *v != Verdict::Ok {
                self.stats.fault("compute budget exhausted");
            }
        }
        let name = if t.op < 7 { crate::oracle::OP_NAMES[t.op as usize] } else { "third-party" };
        let e = self.stats.ops.entry(name).or_default();
        e.0 += 1;
        e.1 += (*v == Verdict::Ok) as u64;
        let h = self.fingerprint();
        let kind = match v {
            Verdict::Ok => 0u8,
            Verdict::Failed { ix, .. } => 1 + ix.min(&5),
            Verdict::Rejected(_) => 9,
        };
        self.stats.states.insert(hash64(&(h, t.op, kind, t.tags)));
        self.stats.schedule = hash64(&(self.stats.schedule, &t.label, t.slot, kind));
    }

    /// Abstract state: per pair, what exists and how it stands.
    fn fingerprint(&self) -> u64 {
        let w = &self.w;
        let mut v: Vec<u64> = vec![];
        for p in &w.pairs {
            let uprog = w.ledger.owner(&p.unwrapped);
            let esc = w.tok(&p.escrow(&uprog));
            let sup = w.mint(&p.wrapped).map(|m| m.supply);
            let uex = w.exts(&p.unwrapped).into_iter().map(|e| e as u64).fold(0u64, |a, e| a ^ (1 << (e % 64)));
            let cls = |x: u64| match x {
                0 => 0u64,
                1 => 1,
                2..=1_000_000 => 2,
                _ => 3,
            };
            v.push(uex);
            v.push(
                (uprog == model::T22) as u64
                    | (world::is_tp(&uprog) as u64) << 1
                    | sup.map_or(7, cls) << 2
                    | esc.as_ref().map_or(7, |e| cls(e.amount)) << 5
                    | (esc.as_ref().zip(sup).map_or(2, |(e, s)| (e.amount > s) as u64)) << 8
                    | esc.as_ref().map_or(0, |e| e.state as u64) << 10
                    | (!w.ledger.data(&p.backptr).is_empty() as u64) << 12
                    | (!w.ledger.data(&p.pointer).is_empty() as u64) << 13
                    | (!w.ledger.data(&p.metaplex).is_empty() as u64) << 14
                    | (w.exts(&p.wrapped).len() as u64) << 15
                    | (p.depth as u64) << 20,
            );
            let h = world::hook_state(&p.unwrapped);
            v.push(w.ledger.data(&h).first().copied().unwrap_or(9) as u64);
        }
        hash64(&v)
    }

    fn exec_heal(&mut self, ixs: Vec<solana_instruction::Instruction>, signers: &[Pubkey]) -> Verdict {
        let payer = self.w.faucet;
        let mut s = signers.to_vec();
        s.push(payer);
        let tx = Tx { ixs, payer, signers: s, crash: CrashPoint::None, cu_limit: 1_400_000 };
        let x = self.w.ledger.run(&mut self.sut, &tx);
        self.w.ledger.commit(&x);
        if std::env::var("TWSIM_DEBUG").is_ok() {
            eprintln!("heal {:?} {:?}", tx, x.verdict);
            for f in &x.outcome.as_ref().unwrap().trace { eprintln!("   {f:?}"); }
        }
        x.verdict
    }

    /// Faults and restrictions stop; every holder redeems everything.
    pub fn drain(&mut self) -> Option<Violation> {
        use spl_token_2022_interface::{
            extension::{self, BaseStateWithExtensions, StateWithExtensions},
            instruction as ti,
            state::{Account as T, AccountState, Mint},
        };
        self.stats.drained += 1;
        if let Some(a) = self.w.ledger.accounts.get_mut(&self.w.faucet) {
            a.lamports = 1 << 50;
        }
        // issuers lift their restrictions
        let mints: Vec<Pubkey> = self.w.mints.iter().map(|m| m.key)
            .chain(self.w.pairs.iter().map(|p| p.wrapped)).collect();
        for m in &mints {
            if self.w.ledger.owner(m) != model::T22 {
                continue;
            }
            let auth = {
                let Ok(s) = StateWithExtensions::<Mint>::unpack(self.w.ledger.data(m)) else { continue };
                s.get_extension::<extension::pausable::PausableConfig>().ok()
                    .filter(|c| bool::from(c.paused)).and_then(|c| Option::<Pubkey>::from(c.authority))
            };
            if let Some(a) = auth {
                let ix = extension::pausable::instruction::resume(&model::T22, m, &a, &[]).unwrap();
                self.exec_heal(vec![ix], &[a]);
            }
            let h = world::hook_state(m);
            if let Some(a) = self.w.ledger.accounts.get_mut(&h) {
                a.data[0] = 0;
            }
        }
        let toks: Vec<(Pubkey, T, Pubkey)> = self.w.ledger.accounts.iter()
            .filter(|(_, a)| world::is_tp(&a.owner))
            .filter_map(|(k, a)| Some((*k, world::tok(&a.data)?, a.owner))).collect();
        for (k, t, prog) in &toks {
            if t.state == AccountState::Frozen {
                let fa: Option<Pubkey> = self.w.mint(&t.mint).and_then(|m| m.freeze_authority.into());
                if let Some(f) = fa {
                    let ix = ti::thaw_account(prog, k, &t.mint, &f, &[]).unwrap();
                    self.exec_heal(vec![ix], &[f]);
                }
            }
        }
        let mut order: Vec<usize> = (0..self.w.pairs.len()).collect();
        order.sort_by_key(|i| Reverse(self.w.pairs[*i].depth));
        for i in order {
            let p = self.w.pairs[i].clone();
            if self.oracle.seized.get(&i).copied().unwrap_or(0) > 0 {
                continue; // the issuer itself took part of the backing
            }
            let Some(wm) = self.w.mint(&p.wrapped) else { continue };
            if wm.supply == 0 {
                continue;
            }
            let uprog = self.w.ledger.owner(&p.unwrapped);
            let fail = |w: &World, what: String| {
                let mut props = vec!["C04", "C15"];
                if w.variant != Variant::Default {
                    props.push("C22");
                }
                Some(Violation {
                    class: "drain".into(),
                    props,
                    detail: format!("pair {}: {what}", w.name(&p.wrapped)),
                })
            };
            if !world::is_tp(&uprog) {
                return fail(&self.w, format!("supply {} but the unwrapped mint is gone", wm.supply));
            }
            let heir = key("heir", 0);
            let dst = model::ata(&heir, &p.unwrapped, &uprog);
            let f = self.w.faucet;
            self.exec_heal(vec![world::ata_ix(&f, &heir, &p.unwrapped, &uprog, true)], &[]);
            if self.w.tok(&dst).is_some_and(|t| t.state == AccountState::Frozen) {
                if let Some(fa) = self.w.mint(&p.unwrapped).and_then(|m| Option::<Pubkey>::from(m.freeze_authority)) {
                    let ix = ti::thaw_account(&uprog, &dst, &p.unwrapped, &fa, &[]).unwrap();
                    self.exec_heal(vec![ix], &[fa]);
                }
            }
            let mut locked = 0u64;
            let holders: Vec<(Pubkey, T)> = self.w.ledger.accounts.iter()
                .filter(|(_, a)| a.owner == p.wprog)
                .filter_map(|(k, a)| Some((*k, world::tok(&a.data)?)))
                .filter(|(_, t)| t.mint == p.wrapped && t.amount > 0).collect();
            for (k, t) in holders {
                // (p-token honours multisigs of either token program)
                let multi = self.w.multi(&t.owner)
                    .filter(|m| m.program == p.wprog || p.wprog == model::SPL).cloned();
                // tokens sent to program addresses, or to a multisig of the
                // other token program, have no holder who could sign
                let program_owned = self.w.pairs.iter().any(|q| q.auth == t.owner)
                    || (multi.is_none() && self.w.multi(&t.owner).is_some());
                if program_owned {
                    locked += t.amount;
                    continue;
                }
                let (members, signers) = match &multi {
                    Some(m) => (m.members[..m.m as usize].to_vec(), m.members.clone()),
                    None => (vec![], vec![t.owner]),
                };
                // the holder switches off its own guards and delegations
                {
                    let refs: Vec<&Pubkey> = members.iter().collect();
                    let ix = ti::revoke(&p.wprog, &k, &t.owner, &refs).unwrap();
                    self.exec_heal(vec![ix], &signers);
                }
                if p.wprog == model::T22 {
                    if let Ok(s) = StateWithExtensions::<T>::unpack(self.w.ledger.data(&k)) {
                        if s.get_extension::<extension::cpi_guard::CpiGuard>().is_ok_and(|g| bool::from(g.lock_cpi)) {
                            let refs: Vec<&Pubkey> = members.iter().collect();
                            let ix = extension::cpi_guard::instruction::disable_cpi_guard(&model::T22, &k, &t.owner, &refs).unwrap();
                            self.exec_heal(vec![ix], &signers);
                        }
                    }
                }
                let ex = self.w.hook_extras(&p.unwrapped);
                let before = (self.w.amount(&dst).unwrap_or(0), self.w.amount(&p.escrow(&uprog)).unwrap_or(0));
                let ix = ops::libix::unwrap(&p, &uprog, &k, &dst, &t.owner, &members, &ex, t.amount);
                let v = self.exec_heal(vec![ix], &signers);
                if v != Verdict::Ok {
                    // A recipient whose balance would overflow is not the program's fault.
                    if before.0.checked_add(t.amount).is_none() {
                        locked += t.amount;
                        continue;
                    }
                    return fail(&self.w, format!("{} cannot redeem {} from {}: {v:?}", self.w.name(&t.owner), t.amount, self.w.name(&k)));
                }
                self.stats.redeemed += 1;
                let left = self.w.amount(&k).unwrap_or(0);
                let esc = self.w.amount(&p.escrow(&uprog)).unwrap_or(0);
                if left != 0 || before.1 - esc != t.amount {
                    return fail(&self.w, format!("redeeming {} left {left} and took {} from the escrow", t.amount, before.1 as i128 - esc as i128));
                }
            }
            let s = self.w.mint(&p.wrapped).map_or(0, |m| m.supply);
            if s != locked {
                return fail(&self.w, format!("supply {s} remains after everybody redeemed ({locked} held by programs)"));
            }
        }
        None
    }
}

#[derive(Debug)]
enum Sched {
    Wake(usize),
    Deliver(Box<TxEvent>, u32),
    Retry(Box<TxEvent>, u32),
    Put(Pubkey, solana_account::Account),
    Rent(u64),
}

struct Actor {
    key: Pubkey,
    pause: u64,
    director: bool,
}

pub fn op_tag(ixs: &[solana_instruction::Instruction]) -> u8 {
    ixs.iter()
        .find(|i| i.program_id == model::PROGRAM)
        .and_then(|i| i.data.first().copied())
        .unwrap_or(255)
}

/// Generates and executes one run from its seed.
pub fn run(p: &Profile, seed: u64) -> Run {
    let (mut s, mut r) = Sim::new(p, seed);
    let mut weights: Vec<u32> = p.weights.to_vec();
    assert_eq!(weights.len(), OPS);
    // swarm: switch some operations off for this run
    for x in weights.iter_mut() {
        if r.pct(p.swarm_off) {
            *x = 0;
        }
    }
    for o in p.keep {
        let i = *o as usize;
        weights[i] = weights[i].max(p.weights[i]);
    }
    let opcfg = OpCfg {
        mutate_sub: if r.pct(40) { 0 } else { p.ops.mutate_sub },
        mutate_auth: if r.pct(40) { 0 } else { p.ops.mutate_auth },
        mutate_data: if r.pct(40) { 0 } else { p.ops.mutate_data },
        bundle: p.ops.bundle,
        odd_amount: p.ops.odd_amount,
    };
    let f = p.faults(&mut r);
    let target = r.range(p.events.0 as u64, p.events.1 as u64) as usize;
    let mut actors: Vec<Actor> = s.w.users.iter().chain([&s.w.attacker]).map(|k| Actor {
        key: *k, pause: 400, director: false }).collect();
    for m in &s.w.mints {
        if !actors.iter().any(|a| a.key == m.issuer) {
            actors.push(Actor { key: m.issuer, pause: 1500, director: false });
        }
    }
    let mut directed: Option<usize> = None;
    if let Some(i) = s.w.mints.iter().position(|m| m.recyclable) {
        if r.pct(p.director) {
            directed = Some(i);
            actors.push(Actor { key: s.w.mints[i].issuer, pause: 900, director: true });
        }
    }
    let mut q: BinaryHeap<Reverse<(u64, u64, usize)>> = BinaryHeap::new();
    let mut store: BTreeMap<usize, Sched> = BTreeMap::new();
    let mut seq = 0u64;
    let mut push = |q: &mut BinaryHeap<Reverse<(u64, u64, usize)>>, store: &mut BTreeMap<usize, Sched>, t: u64, e: Sched| {
        seq += 1;
        store.insert(seq as usize, e);
        q.push(Reverse((t, seq, seq as usize)));
    };
    for i in 0..actors.len() {
        let t = r.below(actors[i].pause * 2);
        push(&mut q, &mut store, t, Sched::Wake(i));
    }
    let slot0 = s.w.ledger.slot;
    let mut jump = 0u64;
    let mut events: Vec<Event> = vec![];
    let mut violation = None;
    let mut other = None;
    let mut partitioned_until = 0u64;
    let mut idle = 0;
    while let Some(Reverse((now, _, id))) = q.pop() {
        if events.len() >= target || idle > 4000 {
            break;
        }
        let e = store.remove(&id).unwrap();
        match e {
            Sched::Wake(i) => {
                idle += 1;
                let a = &actors[i];
                let pause = r.range(1, a.pause * 2);
                let next = now + if r.pct(f.stall) { s.stats.fault("client stalled"); pause * 50 } else { pause };
                push(&mut q, &mut store, next, Sched::Wake(i));
                let op = if a.director {
                    match direct(&s.w, directed.unwrap(), &mut r) {
                        Some(o) => o,
                        None => continue,
                    }
                } else {
                    ALL_OPS[r.weighted(&weights)]
                };
                let actor = a.key;
                let variant = s.w.variant;
                let steps = ops::build(&mut ops::Ctx { w: &s.w, rng: &mut r, cfg: &opcfg, actor, variant }, op);
                let Some(steps) = steps else { continue };
                if r.pct(f.partition) && partitioned_until <= now {
                    partitioned_until = now + r.range(500, 5_000);
                    s.stats.fault("network partition");
                }
                let mut at = now;
                for st in steps {
                    match st {
                        Step::Advance(n) => {
                            jump += n;
                            s.stats.fault("clock jump");
                        }
                        Step::Rent(n) => {
                            s.stats.fault("rent lowered");
                            push(&mut q, &mut store, at + 1, Sched::Rent(n))
                        }
                        Step::Put(k, acct) => {
                            s.stats.fault("third-party state change");
                            push(&mut q, &mut store, at + 1, Sched::Put(k, acct))
                        }
                        Step::Send(req) => {
                            let ev = to_event(req, &mut r, &f, &mut s.stats);
                            at += r.range(1, 40);
                            send(&mut r, &f, &mut s.stats, at, partitioned_until, ev, 0, &mut |t, e| {
                                push(&mut q, &mut store, t, e)
                            });
                        }
                    }
                }
            }
            Sched::Retry(ev, n) => {
                // no acknowledgement seen: the client signs and sends again
                s.stats.fault("client retry after lost acknowledgement");
                send(&mut r, &f, &mut s.stats, now, partitioned_until, *ev, n, &mut |t, e| {
                    push(&mut q, &mut store, t, e)
                });
            }
            Sched::Rent(n) => {
                if n < s.w.ledger.rate() {
                    let e = Event::Rent(n);
                    s.apply(&e);
                    events.push(e);
                }
            }
            Sched::Put(k, a) => {
                let e = Event::Put(k, a);
                s.apply(&e);
                events.push(e);
            }
            Sched::Deliver(mut ev, n) => {
                idle = 0;
                ev.slot = slot0 + jump + now / 400;
                let label = ev.label.clone();
                let e = Event::Tx(ev.clone());
                let (verdict, v) = s.apply(&e);
                events.push(e);
                if let Some(v) = v {
                    if v.props.contains(&p.id) {
                        violation = Some(v);
                        break;
                    }
                    if other.is_none() {
                        other = Some(v);
                    }
                }
                let _ = label;
                // acknowledgement lost: the client tries again
                if n < 2 && r.pct(f.ack_loss) && verdict.is_some() {
                    push(&mut q, &mut store, now + r.range(1_000, 60_000), Sched::Retry(ev, n + 1));
                }
            }
        }
    }
    s.stats.slots = s.w.ledger.slot - slot0;
    if violation.is_none() {
        if let Some(v) = s.drain() {
            if v.props.contains(&p.id) {
                violation = Some(v);
            } else if other.is_none() {
                other = Some(v);
            }
        }
    }
    s.stats.schedule = hash64(&(s.stats.schedule, ledger_hash(&s.w.ledger)));
    s.stats.runs = 1;
    s.stats.comparisons = s.oracle.comparisons;
    s.stats.invariants = s.oracle.invariants;
    Run { events, violation, other, stats: s.stats, names: s.w.names }
}

fn to_event(req: Request, r: &mut Rng, f: &Faults, st: &mut Stats) -> TxEvent {
    let op = match &req.canon {
        Some(c) => op_tag(c),
        None => op_tag(&req.tx.ixs),
    };
    let mut tx = req.tx;
    if op != 255 {
        if r.pct(f.crash) {
            let n = r.below(5) as u32;
            tx.crash = if r.pct(50) { CrashPoint::BeforeCpi(n) } else { CrashPoint::AfterCpi(n) };
        }
        if r.pct(f.cu) {
            tx.cu_limit = r.range(200, 200_000);
        }
    }
    let _ = st;
    TxEvent { slot: 0, tx, canon: req.canon, tags: req.tags, op, label: req.label, opens: req.opens }
}

#[derive(Clone, Debug)]
pub struct Faults {
    pub drop: u64,
    pub dup: u64,
    pub delay: u64,
    pub ack_loss: u64,
    pub crash: u64,
    pub cu: u64,
    pub stall: u64,
    pub partition: u64,
}

#[allow(clippy::too_many_arguments)]
fn send(r: &mut Rng, f: &Faults, st: &mut Stats, now: u64, cut: u64, ev: TxEvent, n: u32, push: &mut dyn FnMut(u64, Sched)) {
    let mut t = now + r.range(5, 60);
    if now < cut {
        // the message waits for the partition to heal, or is lost with it
        if r.pct(50) {
            st.fault("message lost in partition");
            return;
        }
        t = cut + r.range(5, 400);
    }
    if r.pct(f.drop) {
        st.fault("message lost");
        if n < 2 {
            push(t + r.range(1_000, 30_000), Sched::Retry(Box::new(ev), n + 1));
        }
        return;
    }
    if r.pct(f.delay) {
        // overtaken by whatever others do meanwhile
        st.fault("message delayed");
        t += r.range(500, 20_000);
    }
    if r.pct(f.dup) {
        // the same signed message arrives again: the bank's status cache drops
        // exact duplicates, so only a re-signed copy executes twice
        st.fault("request duplicated");
        push(t + r.range(1, 2_000), Sched::Deliver(Box::new(ev.clone()), 9));
    }
    push(t, Sched::Deliver(Box::new(ev), n));
}

/// Drives a recyclable mint through close and re-creation.
pub fn direct(w: &World, m: usize, r: &mut Rng) -> Option<Op> {
    let mi = &w.mints[m];
    let pairs: Vec<_> = w.pairs.iter().filter(|p| p.mint == m).collect();
    let Some(mint) = w.mint(&mi.key) else {
        return Some(Op::Recreate);
    };
    if r.pct(25) {
        return Some(*r.pick(&[Op::CloseStuck, Op::Escrow, Op::Create, Op::CloseStuck]));
    }
    let wrapped: u64 = pairs.iter().filter_map(|p| w.mint(&p.wrapped)).map(|m| m.supply).fold(0, |a, b| a.saturating_add(b));
    Some(if wrapped > 0 {
        Op::UnwrapAll
    } else if mint.supply > 0 {
        if r.pct(60) { Op::BurnAll } else { Op::Harvest }
    } else if r.pct(50) {
        *r.pick(&[Op::MintMore, Op::OpenUnwrapped, Op::Setup, Op::Escrow])
    } else {
        *r.pick(&[Op::CloseMint, Op::CloseMint, Op::Harvest, Op::CloseStuck])
    })
}

/// Replays a concrete schedule; stops at the first violation concerning the
/// property.
pub fn replay(p: &Profile, start: &Value, events: &[Event], mut on: impl FnMut(usize, &Event, &Option<Verdict>, &World)) -> Option<(usize, Violation)> {
    let mut s = Sim::resume(start).expect("recorded world");
    for (i, e) in events.iter().enumerate() {
        let (verdict, v) = s.apply(e);
        on(i, e, &verdict, &s.w);
        if let Some(v) = v {
            if v.props.contains(&p.id) {
                return Some((i, v));
            }
        }
    }
    let v = s.drain()?;
    v.props.contains(&p.id).then_some((events.len(), v))
}

/// Removes events, then faults, while the same violation persists.
pub fn minimise(p: &Profile, world: &Value, events: &[Event], v: &Violation, budget: std::time::Duration) -> (Vec<Event>, Violation) {
    let start = std::time::Instant::now();
    let mut cur: Vec<Event> = events.to_vec();
    let mut best = v.clone();
    let test = |c: &[Event]| -> Option<(usize, Violation)> {
        replay(p, world, c, |_, _, _, _| {}).filter(|(_, x)| x.class == v.class)
    };
    if let Some((i, x)) = test(&cur) {
        best = x;
        cur.truncate(i + 1);
    }
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < cur.len() {
            if start.elapsed() > budget {
                return (cur, best);
            }
            let mut c = cur.clone();
            c.drain(i..(i + chunk).min(c.len()));
            if let Some((n, x)) = test(&c) {
                c.truncate(n + 1);
                cur = c;
                best = x;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
    // drop faults that play no part
    for i in 0..cur.len() {
        if start.elapsed() > budget {
            break;
        }
        let mut c = cur.clone();
        if let Event::Tx(t) = &mut c[i] {
            if t.tx.crash == CrashPoint::None && t.tx.cu_limit == 1_400_000 {
                continue;
            }
            t.tx.crash = CrashPoint::None;
            t.tx.cu_limit = 1_400_000;
        }
        if let Some((_, x)) = test(&c) {
            cur = c;
            best = x;
        }
    }
    (cur, best)
}

pub fn ledger_hash(l: &Ledger) -> u64 {
    let mut v = 0u64;
    for (k, a) in &l.accounts {
        v = hash64(&(v, k.to_bytes(), a.lamports, &a.data, a.owner.to_bytes()));
    }
    v
}
