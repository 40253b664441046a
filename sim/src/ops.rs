//! What clients, issuers and attackers do: every operation is turned into
//! concrete instructions from what its actor can see at that moment.

use {
    crate::{
        bank::Tx,
        model::{self, Variant, SPL, T22},
        native::CrashPoint,
        rng::Rng,
        svm,
        thirdparty::{HOOK, META1, META2},
        world::{self, ext, key, MetaKind, Pair, World},
    },
    solana_account::Account,
    solana_instruction::{AccountMeta, Instruction},
    solana_pubkey::Pubkey,
    spl_token_2022_interface::{
        extension::{self, BaseStateWithExtensions, ExtensionType, StateWithExtensions},
        instruction as ti,
        state::{AccountState, Mint},
    },
    spl_token_metadata_interface::{instruction as tmi, state::{Field, TokenMetadata}},
    spl_token_wrap as lib,
};

/// What kind of request this is; decides which properties a divergence concerns.
pub mod tag {
    pub const SUB: u32 = 1; // some account was substituted
    pub const AUTH: u32 = 2; // unusual or missing authority / signers
    pub const DATA: u32 = 4; // instruction data or account list corrupted
    pub const LIB: u32 = 8; // built by the client library
    pub const META: u32 = 16; // metadata source manipulated
    pub const BUNDLE: u32 = 32;
    pub const DRAIN: u32 = 64;
}

#[derive(Clone, Debug)]
pub struct Request {
    pub label: String,
    /// As sent (built by the client library when LIB is set).
    pub tx: Tx,
    /// The same request as the documentation spells it, if different.
    pub canon: Option<Vec<Instruction>>,
    pub tags: u32,
    /// token accounts that will exist if this succeeds
    pub opens: Vec<(Pubkey, Pubkey)>,
}

#[derive(Clone, Debug)]
pub enum Step {
    Send(Request),
    Put(Pubkey, Account),
    Advance(u64),
    Rent(u64),
}

fn r(k: &Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(*k, false)
}
fn wr(k: &Pubkey) -> AccountMeta {
    AccountMeta::new(*k, false)
}
fn tw(accounts: Vec<AccountMeta>, data: Vec<u8>) -> Instruction {
    Instruction { program_id: model::PROGRAM, accounts, data }
}
fn with_amount(tag: u8, amount: u64) -> Vec<u8> {
    let mut d = vec![tag];
    d.extend(amount.to_le_bytes());
    d
}
const SYS: Pubkey = solana_system_interface::program::ID;

pub fn canon_create(p: &Pair, idempotent: bool) -> Instruction {
    tw(
        vec![wr(&p.wrapped), wr(&p.backptr), r(&p.unwrapped), r(&SYS), r(&p.wprog)],
        vec![0, idempotent as u8],
    )
}
fn authority_metas(who: &Pubkey, multi: &[Pubkey], extras: &[Pubkey]) -> Vec<AccountMeta> {
    let mut v = vec![AccountMeta::new_readonly(*who, multi.is_empty())];
    v.extend(multi.iter().map(|k| AccountMeta::new_readonly(*k, true)));
    v.extend(extras.iter().enumerate().map(|(i, k)| {
        // the hook's state account comes first and is writable
        if i == 0 && extras.len() == 3 { wr(k) } else { r(k) }
    }));
    v
}
#[allow(clippy::too_many_arguments)]
pub fn canon_wrap(p: &Pair, uprog: &Pubkey, src: &Pubkey, dst: &Pubkey, who: &Pubkey, multi: &[Pubkey], extras: &[Pubkey], amount: u64) -> Instruction {
    let mut v = vec![wr(dst), wr(&p.wrapped), r(&p.auth), r(uprog), r(&p.wprog), wr(src), r(&p.unwrapped), wr(&p.escrow(uprog))];
    v.extend(authority_metas(who, multi, extras));
    tw(v, with_amount(1, amount))
}
#[allow(clippy::too_many_arguments)]
pub fn canon_unwrap(p: &Pair, uprog: &Pubkey, holder: &Pubkey, recipient: &Pubkey, who: &Pubkey, multi: &[Pubkey], extras: &[Pubkey], amount: u64) -> Instruction {
    let mut v = vec![wr(&p.escrow(uprog)), wr(recipient), r(&p.auth), r(&p.unwrapped), r(&p.wprog), r(uprog), wr(holder), wr(&p.wrapped)];
    v.extend(authority_metas(who, multi, extras));
    tw(v, with_amount(2, amount))
}
pub fn canon_close(p: &Pair, uprog: &Pubkey, dest: &Pubkey) -> Instruction {
    tw(vec![wr(&p.escrow(uprog)), wr(dest), r(&p.unwrapped), r(&p.wrapped), r(&p.auth), r(&T22)], vec![3])
}
pub fn canon_sync_t22(p: &Pair, src: Option<&Pubkey>, owner: Option<&Pubkey>) -> Instruction {
    let mut v = vec![wr(&p.wrapped), r(&p.auth), r(&p.unwrapped), r(&T22)];
    v.extend(src.map(r));
    v.extend(owner.map(r));
    tw(v, vec![4])
}
pub fn canon_sync_spl(p: &Pair, src: Option<&Pubkey>, owner: Option<&Pubkey>) -> Instruction {
    let mut v = vec![wr(&p.metaplex), wr(&p.auth), r(&p.wrapped), r(&p.unwrapped), r(&svm::METAPLEX), r(&SYS), r(&solana_sdk_ids::sysvar::rent::ID)];
    v.extend(src.map(r));
    v.extend(owner.map(r));
    tw(v, vec![5])
}
pub fn canon_pointer(unwrapped: &Pubkey, who: &Pubkey, value: &Pubkey) -> Instruction {
    let mut d = vec![6];
    d.extend(value.as_ref());
    tw(vec![AccountMeta::new_readonly(*who, true), wr(&model::pointer(unwrapped).0), r(unwrapped), r(&SYS)], d)
}

/// The same requests through the published client library.
pub mod libix {
    use super::*;
    pub fn create(p: &Pair, idempotent: bool) -> Instruction {
        let wm = lib::get_wrapped_mint_address(&p.unwrapped, &p.wprog);
        let bp = lib::get_wrapped_mint_backpointer_address(&wm);
        lib::instruction::create_mint(&lib::ID, &wm, &bp, &p.unwrapped, &p.wprog, idempotent)
    }
    fn push_extras(mut ix: Instruction, extras: &[Pubkey]) -> Instruction {
        for (i, k) in extras.iter().enumerate() {
            ix.accounts.push(if i == 0 && extras.len() == 3 { wr(k) } else { r(k) });
        }
        ix
    }
    #[allow(clippy::too_many_arguments)]
    pub fn wrap(p: &Pair, uprog: &Pubkey, src: &Pubkey, dst: &Pubkey, who: &Pubkey, multi: &[Pubkey], extras: &[Pubkey], amount: u64) -> Instruction {
        let wm = lib::get_wrapped_mint_address(&p.unwrapped, &p.wprog);
        let auth = lib::get_wrapped_mint_authority(&wm);
        let escrow = lib::get_escrow_address(&p.unwrapped, uprog, &p.wprog);
        let m: Vec<&Pubkey> = multi.iter().collect();
        push_extras(lib::instruction::wrap(&lib::ID, dst, &wm, &auth, uprog, &p.wprog, src, &p.unwrapped, &escrow, who, &m, amount), extras)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn unwrap(p: &Pair, uprog: &Pubkey, holder: &Pubkey, recipient: &Pubkey, who: &Pubkey, multi: &[Pubkey], extras: &[Pubkey], amount: u64) -> Instruction {
        let wm = lib::get_wrapped_mint_address(&p.unwrapped, &p.wprog);
        let auth = lib::get_wrapped_mint_authority(&wm);
        let escrow = lib::get_escrow_address(&p.unwrapped, uprog, &p.wprog);
        let m: Vec<&Pubkey> = multi.iter().collect();
        push_extras(lib::instruction::unwrap(&lib::ID, &escrow, recipient, &auth, &p.unwrapped, &p.wprog, uprog, holder, &wm, who, &m, amount), extras)
    }
    pub fn close(p: &Pair, uprog: &Pubkey, dest: &Pubkey) -> Instruction {
        let wm = lib::get_wrapped_mint_address(&p.unwrapped, &p.wprog);
        let auth = lib::get_wrapped_mint_authority(&wm);
        let escrow = lib::get_escrow_address(&p.unwrapped, uprog, &p.wprog);
        lib::instruction::close_stuck_escrow(&lib::ID, &escrow, dest, &p.unwrapped, &wm, &auth)
    }
    pub fn sync_t22(p: &Pair, src: Option<&Pubkey>, owner: Option<&Pubkey>) -> Instruction {
        let wm = lib::get_wrapped_mint_address(&p.unwrapped, &p.wprog);
        let auth = lib::get_wrapped_mint_authority(&wm);
        lib::instruction::sync_metadata_to_token_2022(&lib::ID, &wm, &auth, &p.unwrapped, src, owner)
    }
    pub fn sync_spl(p: &Pair, src: Option<&Pubkey>, owner: Option<&Pubkey>) -> Instruction {
        let wm = lib::get_wrapped_mint_address(&p.unwrapped, &p.wprog);
        let auth = lib::get_wrapped_mint_authority(&wm);
        lib::instruction::sync_metadata_to_spl_token(&lib::ID, &p.metaplex, &auth, &wm, &p.unwrapped, src, owner)
    }
    pub fn pointer(unwrapped: &Pubkey, who: &Pubkey, value: &Pubkey) -> Instruction {
        lib::instruction::set_canonical_pointer(&lib::ID, who, &lib::get_canonical_pointer_address(unwrapped), unwrapped, value)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(usize)]
pub enum Op {
    Create,
    Escrow,
    OpenWrapped,
    OpenUnwrapped,
    Wrap,
    Unwrap,
    CloseStuck,
    SyncT22,
    SyncSpl,
    Pointer,
    Transfer,
    Burn,
    Approve,
    Freeze,
    Thaw,
    Pause,
    SetFee,
    HookMode,
    MintMore,
    CloseMint,
    Recreate,
    Harvest,
    BurnAll,
    UnwrapAll,
    EditMeta,
    MovePointer,
    Dust,
    RotateAuth,
    Memo,
    CpiGuard,
    Advance,
    CloseTok,
    Forge,
    SetOwner,
    Seize,
    FundMint,
    Setup, // create + escrow + wrapped account in one bundle
    Verify, // a creator or collection authority vouches for wrapped Metaplex metadata
}
pub const OPS: usize = 38;
pub const ALL_OPS: [Op; OPS] = [
    Op::Create, Op::Escrow, Op::OpenWrapped, Op::OpenUnwrapped, Op::Wrap, Op::Unwrap,
    Op::CloseStuck, Op::SyncT22, Op::SyncSpl, Op::Pointer, Op::Transfer, Op::Burn, Op::Approve,
    Op::Freeze, Op::Thaw, Op::Pause, Op::SetFee, Op::HookMode, Op::MintMore, Op::CloseMint,
    Op::Recreate, Op::Harvest, Op::BurnAll, Op::UnwrapAll, Op::EditMeta, Op::MovePointer,
    Op::Dust, Op::RotateAuth, Op::Memo, Op::CpiGuard, Op::Advance, Op::CloseTok, Op::Forge,
    Op::SetOwner, Op::Seize, Op::FundMint, Op::Setup, Op::Verify,
];

#[derive(Clone, Debug)]
pub struct OpCfg {
    pub mutate_sub: u64,  // pct of token-wrap requests with substituted accounts
    pub mutate_auth: u64,
    pub mutate_data: u64,
    pub bundle: u64,
    pub odd_amount: u64,
}

pub struct Ctx<'a> {
    pub w: &'a World,
    pub rng: &'a mut Rng,
    pub cfg: &'a OpCfg,
    pub actor: Pubkey,
    pub variant: Variant,
}

impl Ctx<'_> {
    fn req(&self, label: String, ixs: Vec<Instruction>, extra_signers: &[Pubkey]) -> Request {
        let mut signers = vec![self.actor];
        for s in extra_signers {
            if !signers.contains(s) {
                signers.push(*s);
            }
        }
        Request {
            label,
            tx: Tx { ixs, payer: self.actor, signers, crash: CrashPoint::None, cu_limit: 1_400_000 },
            canon: None,
            tags: 0,
            opens: vec![],
        }
    }
    /// A request that goes through the client library.
    fn req_lib(&self, label: String, before: Vec<Instruction>, libi: Instruction, canon: Instruction, after: Vec<Instruction>, signers: &[Pubkey]) -> Request {
        let mut a = before.clone();
        a.push(libi.clone());
        a.extend(after.clone());
        let mut q = self.req(label, a, signers);
        q.tags |= tag::LIB;
        if libi != canon {
            let mut b = before;
            b.push(canon);
            b.extend(after);
            q.canon = Some(b);
        }
        q
    }
    fn pair(&mut self) -> Option<Pair> {
        if self.w.pairs.is_empty() {
            return None;
        }
        let i = self.rng.usize(self.w.pairs.len());
        Some(self.w.pairs[i].clone())
    }
    fn live_pair(&mut self) -> Option<Pair> {
        let v: Vec<usize> = (0..self.w.pairs.len())
            .filter(|i| self.w.mint(&self.w.pairs[*i].wrapped).is_some())
            .collect();
        if v.is_empty() || self.rng.pct(6) {
            return self.pair();
        }
        let i = *self.rng.pick(&v);
        Some(self.w.pairs[i].clone())
    }
    /// A token account of `mint`, preferring usable ones.
    fn tok_of(&mut self, mint: &Pubkey, nonzero: bool) -> Option<Pubkey> {
        let own = self.actor;
        let cands: Vec<Pubkey> = self.w.toks.iter().filter(|t| t.mint == *mint).map(|t| t.key)
            .filter(|k| self.w.tok(k).is_some_and(|a| (!nonzero || a.amount > 0)
                && (self.w.is_wallet(&a.owner) || self.w.multi(&a.owner).is_some())))
            .collect();
        let mine: Vec<Pubkey> = cands.iter().copied()
            .filter(|k| self.w.tok(k).is_some_and(|a| a.owner == own)).collect();
        if !mine.is_empty() && self.rng.pct(60) {
            return Some(*self.rng.pick(&mine));
        }
        if cands.is_empty() { None } else { Some(*self.rng.pick(&cands)) }
    }
    fn any_mint(&mut self) -> usize {
        self.rng.usize(self.w.mints.len())
    }
    fn t22_mint(&mut self, bit: ExtensionType) -> Option<usize> {
        let v: Vec<usize> = (0..self.w.mints.len())
            .filter(|i| self.w.mints[*i].nested_of.is_none() && self.w.exts(&self.w.mints[*i].key).contains(&bit))
            .collect();
        if v.is_empty() { None } else { Some(*self.rng.pick(&v)) }
    }
    fn amount(&mut self, bal: u64) -> u64 {
        if self.rng.pct(self.cfg.odd_amount) {
            return match self.rng.below(6) {
                0 => 0,
                1 => bal.saturating_add(1),
                2 => u64::MAX,
                3 => u64::MAX - bal,
                4 => self.rng.next(),
                _ => 1,
            };
        }
        match self.rng.below(8) {
            0 => bal,
            1 => 1,
            2 => bal / 2,
            3 => self.rng.range(1, bal.clamp(1, 100)),
            _ => self.rng.range(0, bal).max(1),
        }
    }
    /// Who will authorise spending from `acct`: (authority, multisig members,
    /// extra signers, tags).
    fn authoriser(&mut self, acct: &Pubkey) -> (Pubkey, Vec<Pubkey>, Vec<Pubkey>, u32) {
        let Some(a) = self.w.tok(acct) else {
            return (self.actor, vec![], vec![], 0);
        };
        let delegate: Option<Pubkey> = a.delegate.into();
        // (nobody can sign for a program address)
        let delegate = delegate.filter(|d| self.w.is_wallet(d) || self.w.multi(d).is_some());
        let mut t = 0;
        let mut who = a.owner;
        if let Some(d) = delegate {
            if self.rng.pct(45) {
                who = d;
                t |= tag::AUTH;
            }
        }
        if self.rng.pct(self.cfg.mutate_auth) {
            t |= tag::AUTH;
            match self.rng.below(4) {
                // somebody else tries to spend
                0 => who = self.w.attacker,
                1 => who = self.actor,
                2 => who = *self.rng.pick(&self.w.users),
                _ => {
                    if let Some(m) = self.w.multis.first() {
                        who = m.key
                    }
                }
            }
        }
        if let Some(m) = self.w.multi(&who).cloned() {
            t |= tag::AUTH;
            let mut pool = m.members.clone();
            self.rng.shuffle(&mut pool);
            let k = match self.rng.below(10) {
                0 => (m.m as usize).saturating_sub(1),
                1 => pool.len(),
                _ => (m.m as usize).min(pool.len()),
            };
            let mut s: Vec<Pubkey> = pool[..k].to_vec();
            if self.rng.pct(8) {
                s.push(key("stranger", 0));
            }
            if self.rng.pct(5) && !s.is_empty() {
                s.push(s[0]);
            }
            return (who, s.clone(), s, t);
        }
        (who, vec![], vec![who], t)
    }
}

fn name_amount(a: u64) -> String {
    if a == u64::MAX { "MAX".into() } else { a.to_string() }
}

/// Turns an operation into steps; `None` when the actor sees no way to do it.
pub fn build(c: &mut Ctx, op: Op) -> Option<Vec<Step>> {
    let q = build_inner(c, op)?;
    Some(match q {
        Built::One(mut q) => {
            mutate(c, &mut q);
            vec![Step::Send(q)]
        }
        Built::Many(v) => v,
    })
}

enum Built {
    One(Request),
    Many(Vec<Step>),
}
use Built::*;

fn build_inner(c: &mut Ctx, op: Op) -> Option<Built> {
    use solana_system_interface::instruction::transfer;
    let w = c.w;
    Some(match op {
        Op::Create => {
            let missing: Vec<usize> = (0..w.pairs.len()).filter(|i| w.ledger.data(&w.pairs[*i].wrapped).is_empty()).collect();
            let p = if !missing.is_empty() && c.rng.pct(75) {
                w.pairs[*c.rng.pick(&missing)].clone()
            } else {
                c.pair()?
            };
            let fake = w.ledger.get(&world::impostor()).is_some() && c.rng.pct(7);
            let p = if fake { Pair::new(p.mint, world::impostor(), p.wprog, 0) } else { p };
            let idem = c.rng.pct(50);
            let space = wrapped_space(&p.wprog, c.variant);
            let need = w.ledger.rent.minimum_balance(space);
            let need_bp = w.ledger.rent.minimum_balance(32);
            let mut before = vec![];
            let mode = c.rng.below(12);
            let actor = c.actor;
            for (k, n) in [(p.wrapped, need), (p.backptr, need_bp)] {
                let have = w.ledger.lamports(&k);
                let short = n.saturating_sub(have);
                let send = match mode {
                    0 => 0,
                    1 => short.saturating_sub(1),
                    2 => short + c.rng.below(1_000_000),
                    3 if k == p.wrapped => 0,
                    4 if k == p.backptr => short.saturating_sub(1 + c.rng.below(100_000)),
                    // far more than is needed, on either side
                    5 if k == p.backptr => short + c.rng.range(1_000_000, 60_000_000),
                    6 if k == p.wrapped => short + c.rng.range(1_000_000, 60_000_000),
                    _ => short,
                };
                if send > 0 {
                    before.push(transfer(&actor, &k, send));
                }
            }
            let mut after = vec![];
            let uprog = w.ledger.owner(&p.unwrapped);
            let mut opens = vec![];
            if c.rng.pct(c.cfg.bundle) && world::is_tp(&uprog) {
                after.push(world::ata_ix(&actor, &p.auth, &p.unwrapped, &uprog, true));
                opens.push((p.escrow(&uprog), p.unwrapped));
            }
            let mut q = c.req_lib(format!("create {} idem={idem} fund={mode}", w.name(&p.wrapped)),
                before, libix::create(&p, idem), canon_create(&p, idem), after, &[]);
            q.opens = opens;
            One(q)
        }
        Op::Setup => {
            let p = c.pair()?;
            let actor = c.actor;
            let uprog = w.ledger.owner(&p.unwrapped);
            if !world::is_tp(&uprog) {
                return None;
            }
            let n = w.ledger.rent.minimum_balance(wrapped_space(&p.wprog, c.variant)).saturating_sub(w.ledger.lamports(&p.wrapped));
            let nb = w.ledger.rent.minimum_balance(32).saturating_sub(w.ledger.lamports(&p.backptr));
            let before = vec![transfer(&actor, &p.wrapped, n), transfer(&actor, &p.backptr, nb)];
            let mine = model::ata(&actor, &p.wrapped, &p.wprog);
            let after = vec![
                world::ata_ix(&actor, &p.auth, &p.unwrapped, &uprog, true),
                world::ata_ix(&actor, &actor, &p.wrapped, &p.wprog, true),
            ];
            let mut q = c.req_lib(format!("setup {}", w.name(&p.wrapped)), before, libix::create(&p, true), canon_create(&p, true), after, &[]);
            q.opens = vec![(p.escrow(&uprog), p.unwrapped), (mine, p.wrapped)];
            q.tags |= tag::BUNDLE;
            One(q)
        }
        Op::Escrow => {
            let p = c.pair()?;
            let uprog = w.ledger.owner(&p.unwrapped);
            if !world::is_tp(&uprog) {
                return None;
            }
            let idem = c.rng.pct(60);
            let mut q = c.req(format!("create-escrow {}", w.name(&p.escrow(&uprog))),
                vec![world::ata_ix(&c.actor, &p.auth, &p.unwrapped, &uprog, idem)], &[]);
            q.opens = vec![(p.escrow(&uprog), p.unwrapped)];
            One(q)
        }
        Op::OpenWrapped => {
            let p = c.live_pair()?;
            let mut owners = w.users.clone();
            owners.push(w.attacker);
            owners.extend(w.multis.iter().map(|m| m.key));
            let o = if c.rng.pct(60) { c.actor } else { *c.rng.pick(&owners) };
            let k = model::ata(&o, &p.wrapped, &p.wprog);
            let mut q = c.req(format!("open {}:{}", w.name(&o), w.name(&p.wrapped)),
                vec![world::ata_ix(&c.actor, &o, &p.wrapped, &p.wprog, true)], &[]);
            q.opens = vec![(k, p.wrapped)];
            One(q)
        }
        Op::OpenUnwrapped => {
            let m = c.any_mint();
            let mk = w.mints[m].key;
            let prog = w.ledger.owner(&mk);
            if !world::is_tp(&prog) {
                return None;
            }
            let o = if c.rng.pct(60) { c.actor } else { *c.rng.pick(&w.users) };
            let k = model::ata(&o, &mk, &prog);
            let mut q = c.req(format!("open {}:{}", w.name(&o), w.name(&mk)),
                vec![world::ata_ix(&c.actor, &o, &mk, &prog, true)], &[]);
            q.opens = vec![(k, mk)];
            One(q)
        }
        Op::Wrap => {
            let p = c.live_pair()?;
            let uprog = w.ledger.owner(&p.unwrapped);
            let src = c.tok_of(&p.unwrapped, true)?;
            let dst = c.tok_of(&p.wrapped, false)?;
            let bal = w.amount(&src).unwrap_or(0);
            let amount = c.amount(bal);
            let (who, multi, signers, t) = c.authoriser(&src);
            let ex = w.hook_extras(&p.unwrapped);
            let mut before = vec![];
            if c.rng.pct(35) && memo_wanted(w, &src, &p) {
                before.push(memo());
            }
            let mut after = vec![];
            if c.rng.pct(c.cfg.bundle / 2) {
                // a wallet bundles the unwrap of what it just wrapped, or a
                // doomed follow-up
                after.push(if c.rng.pct(50) {
                    canon_unwrap(&p, &uprog, &dst, &src, &w.tok(&dst).map_or(who, |a| a.owner), &[], &ex, amount)
                } else {
                    transfer(&c.actor, &c.w.attacker, u64::MAX)
                });
            }
            let mut signers = signers;
            if !after.is_empty() {
                if let Some(a) = w.tok(&dst) {
                    if w.is_wallet(&a.owner) {
                        signers.push(a.owner);
                    }
                }
            }
            let bundle = !after.is_empty();
            let mut q = c.req_lib(format!("wrap {} {} {}->{} by {}", w.name(&p.wrapped), name_amount(amount), w.name(&src), w.name(&dst), w.name(&who)),
                before,
                libix::wrap(&p, &uprog, &src, &dst, &who, &multi, &ex, amount),
                canon_wrap(&p, &uprog, &src, &dst, &who, &multi, &ex, amount), after, &signers);
            q.tags |= t;
            if bundle {
                q.tags |= tag::BUNDLE;
            }
            One(q)
        }
        Op::Unwrap => {
            let p = c.live_pair()?;
            let uprog = w.ledger.owner(&p.unwrapped);
            let src = c.tok_of(&p.wrapped, true)?;
            let dst = c.tok_of(&p.unwrapped, false)?;
            let dst = if c.rng.pct(2) { p.escrow(&uprog) } else { dst };
            let bal = w.amount(&src).unwrap_or(0);
            let amount = c.amount(bal);
            let (who, multi, signers, t) = c.authoriser(&src);
            let ex = w.hook_extras(&p.unwrapped);
            let mut before = vec![];
            if c.rng.pct(50) && memo_wanted(w, &dst, &p) {
                before.push(memo());
            }
            let mut q = c.req_lib(format!("unwrap {} {} {}->{} by {}", w.name(&p.wrapped), name_amount(amount), w.name(&src), w.name(&dst), w.name(&who)),
                before,
                libix::unwrap(&p, &uprog, &src, &dst, &who, &multi, &ex, amount),
                canon_unwrap(&p, &uprog, &src, &dst, &who, &multi, &ex, amount), vec![], &signers);
            q.tags |= t;
            One(q)
        }
        Op::UnwrapAll => {
            // the coordinated exit that precedes a mint re-creation
            let p = c.live_pair()?;
            let uprog = w.ledger.owner(&p.unwrapped);
            let mut v = vec![];
            for t in w.toks.iter().filter(|t| t.mint == p.wrapped) {
                let Some(a) = w.tok(&t.key) else { continue };
                if a.amount == 0 || !w.is_wallet(&a.owner) {
                    continue;
                }
                let dst = c.tok_of(&p.unwrapped, false)?;
                let ex = w.hook_extras(&p.unwrapped);
                let q = c.req_lib(format!("exit {} {}", w.name(&t.key), a.amount), vec![],
                    libix::unwrap(&p, &uprog, &t.key, &dst, &a.owner, &[], &ex, a.amount),
                    canon_unwrap(&p, &uprog, &t.key, &dst, &a.owner, &[], &ex, a.amount), vec![], &[a.owner]);
                v.push(Step::Send(q));
            }
            Many(v)
        }
        Op::BurnAll => {
            let v: Vec<usize> = (0..w.mints.len()).filter(|i| w.mints[*i].recyclable).collect();
            if v.is_empty() {
                return None;
            }
            let m = &w.mints[*c.rng.pick(&v)];
            let prog = w.ledger.owner(&m.key);
            let mut out = vec![];
            for t in w.toks.iter().filter(|t| t.mint == m.key) {
                let Some(a) = w.tok(&t.key) else { continue };
                if a.amount == 0 || !w.is_wallet(&a.owner) {
                    continue;
                }
                let ix = ti::burn(&prog, &t.key, &m.key, &a.owner, &[], a.amount).ok()?;
                out.push(Step::Send(c.req(format!("burn-out {}", w.name(&t.key)), vec![ix], &[a.owner])));
            }
            Many(out)
        }
        Op::CloseStuck => {
            let v: Vec<usize> = (0..w.pairs.len()).filter(|i| w.mints[w.pairs[*i].mint].recyclable).collect();
            let p = if !v.is_empty() && c.rng.pct(75) { w.pairs[*c.rng.pick(&v)].clone() } else { c.pair()? };
            let uprog = w.ledger.owner(&p.unwrapped);
            let uprog = if world::is_tp(&uprog) { uprog } else { T22 };
            let dest = match c.rng.below(8) {
                0 => p.auth,
                1 => p.wrapped,
                2 => key("fresh", c.rng.below(4)),
                _ => c.actor,
            };
            let (l, mut k) = (libix::close(&p, &uprog, &dest), canon_close(&p, &uprog, &dest));
            // the close-destination may coincide with a read-only account
            k.accounts.iter_mut().for_each(|_| {});
            let mut after = vec![];
            let mut opens = vec![];
            if c.rng.pct(c.cfg.bundle) && world::is_tp(&uprog) {
                after.push(world::ata_ix(&c.actor, &p.auth, &p.unwrapped, &uprog, true));
                opens.push((p.escrow(&uprog), p.unwrapped));
            }
            let mut q = c.req_lib(format!("close-stuck {} -> {}", w.name(&p.escrow(&uprog)), w.name(&dest)), vec![], l, k, after, &[]);
            q.opens = opens;
            One(q)
        }
        Op::SyncT22 | Op::SyncSpl => {
            let want = if op == Op::SyncT22 { T22 } else { SPL };
            let v: Vec<usize> = (0..w.pairs.len()).filter(|i| w.pairs[*i].wprog == want && w.mint(&w.pairs[*i].wrapped).is_some()
                && w.mints[w.pairs[*i].mint].meta != MetaKind::None).collect();
            let p = if v.is_empty() || c.rng.pct(4) { c.pair()? } else { w.pairs[*c.rng.pick(&v)].clone() };
            let (mut src, mut owner) = designated_source(w, &p.unwrapped);
            let mut t = 0;
            if c.rng.pct(c.cfg.mutate_sub) {
                t |= tag::META;
                match c.rng.below(5) {
                    0 => src = None,
                    1 => owner = None,
                    2 => src = Some(*c.rng.pick(&meta_pool(w))),
                    3 => owner = Some(*c.rng.pick(&[META1, META2, HOOK, svm::METAPLEX, T22])),
                    _ => {
                        src = Some(*c.rng.pick(&meta_pool(w)));
                        owner = src.map(|s| w.ledger.owner(&s)).filter(|_| c.rng.pct(70)).or(Some(META1));
                    }
                }
                if src.is_none() {
                    owner = None;
                }
            }
            let mut before = vec![];
            let actor = c.actor;
            if c.rng.pct(80) {
                let k = if op == Op::SyncT22 { p.wrapped } else { p.auth };
                before.push(transfer(&actor, &k, if c.rng.pct(85) { 40_000_000 } else { 1_000_000 }));
            }
            let (l, k) = if op == Op::SyncT22 {
                (libix::sync_t22(&p, src.as_ref(), owner.as_ref()), canon_sync_t22(&p, src.as_ref(), owner.as_ref()))
            } else {
                (libix::sync_spl(&p, src.as_ref(), owner.as_ref()), canon_sync_spl(&p, src.as_ref(), owner.as_ref()))
            };
            let mut q = c.req_lib(format!("{} {} from {}", if op == Op::SyncT22 { "sync-t22" } else { "sync-spl" }, w.name(&p.wrapped),
                src.map_or("-".into(), |s| w.name(&s))), before, l, k, vec![], &[]);
            q.tags |= t;
            One(q)
        }
        Op::Pointer => {
            let m = c.any_mint();
            let mut mk = w.mints[m].key;
            let mut auth: Option<Pubkey> = w.mint(&mk).and_then(|m| m.mint_authority.into());
            if let Some(a) = w.ledger.get(&world::impostor()).filter(|_| c.rng.pct(7)) {
                mk = world::impostor();
                auth = a.data[4..36].try_into().ok();
            }
            let mut t = 0;
            let who = if c.rng.pct(c.cfg.mutate_auth) {
                t |= tag::AUTH;
                *c.rng.pick(&[c.w.attacker, c.actor, w.mints[m].issuer, key("newauth", 0)])
            } else {
                auth.unwrap_or(w.mints[m].issuer)
            };
            let value = key("fork", c.rng.below(5));
            let mut before = vec![];
            let k = model::pointer(&mk).0;
            let short = w.ledger.rent.minimum_balance(32).saturating_sub(w.ledger.lamports(&k));
            let actor = c.actor;
            let f = match c.rng.below(10) { 0 => 0, 1 => short.saturating_sub(1), _ => short };
            if f > 0 {
                before.push(transfer(&actor, &k, f));
            }
            let mut q = c.req_lib(format!("set-pointer {} by {}", w.name(&mk), w.name(&who)), before,
                libix::pointer(&mk, &who, &value), canon_pointer(&mk, &who, &value), vec![], &[]);
            // a wallet can only sign for keys that exist
            if w.is_wallet(&who) || who == key("newauth", 0) {
                q.tx.signers.push(who);
            }
            q.tags |= t;
            One(q)
        }
        Op::Transfer => {
            // plain token transfer, sometimes a donation to an escrow or to a PDA
            let mints: Vec<Pubkey> = w.toks.iter().map(|t| t.mint).collect();
            if mints.is_empty() {
                return None;
            }
            let mk = *c.rng.pick(&mints);
            let src = c.tok_of(&mk, true)?;
            let dsts: Vec<Pubkey> = w.toks.iter().filter(|t| t.mint == mk).map(|t| t.key).collect();
            let dst = *c.rng.pick(&dsts);
            let prog = w.ledger.owner(&mk);
            let a = w.tok(&src)?;
            let amt = c.rng.range(1, a.amount.max(1));
            let dec = w.mint(&mk)?.decimals;
            let mut ix = ti::transfer_checked(&prog, &src, &mk, &dst, &a.owner, &[], amt, dec).ok()?;
            let mut signers = vec![a.owner];
            if let Some(m) = w.multi(&a.owner) {
                ix.accounts[3].is_signer = false;
                for s in m.members.iter().take(m.m as usize) {
                    ix.accounts.push(AccountMeta::new_readonly(*s, true));
                }
                signers = m.members.clone();
            }
            for (i, k) in hook_transfer_extras(w, &mk).iter().enumerate() {
                ix.accounts.push(if i == 0 { wr(k) } else { r(k) });
            }
            One(c.req(format!("transfer {} {}->{}", amt, w.name(&src), w.name(&dst)), vec![ix], &signers))
        }
        Op::Burn => {
            let p = c.live_pair()?;
            let mk = if c.rng.pct(70) { p.wrapped } else { p.unwrapped };
            let src = c.tok_of(&mk, true)?;
            let a = w.tok(&src)?;
            let prog = w.ledger.owner(&mk);
            let amt = c.rng.range(1, a.amount.max(1));
            let ix = ti::burn(&prog, &src, &mk, &a.owner, &[], amt).ok()?;
            One(c.req(format!("burn {} {}", amt, w.name(&src)), vec![ix], &[a.owner]))
        }
        Op::Approve => {
            let mints: Vec<Pubkey> = w.toks.iter().map(|t| t.mint).collect();
            if mints.is_empty() {
                return None;
            }
            let mk = *c.rng.pick(&mints);
            let src = c.tok_of(&mk, true)?;
            let a = w.tok(&src)?;
            let prog = w.ledger.owner(&mk);
            let ix = if c.rng.pct(75) {
                let mut del = w.users.clone();
                del.push(w.attacker);
                del.extend(w.multis.iter().map(|m| m.key));
                del.extend(w.pairs.iter().filter(|p| p.unwrapped == mk || p.wrapped == mk).map(|p| p.auth));
                let d = *c.rng.pick(&del);
                let amt = c.rng.range(1, a.amount.max(1));
                ti::approve(&prog, &src, &d, &a.owner, &[], amt).ok()?
            } else {
                ti::revoke(&prog, &src, &a.owner, &[]).ok()?
            };
            One(c.req(format!("approve/revoke {}", w.name(&src)), vec![ix], &[a.owner]))
        }
        Op::Freeze | Op::Thaw => {
            let mints: Vec<Pubkey> = w.toks.iter().map(|t| t.mint).collect();
            if mints.is_empty() {
                return None;
            }
            let mk = *c.rng.pick(&mints);
            let fa: Pubkey = Option::<Pubkey>::from(w.mint(&mk)?.freeze_authority)?;
            let prog = w.ledger.owner(&mk);
            let accts: Vec<Pubkey> = w.toks.iter().filter(|t| t.mint == mk).map(|t| t.key)
                .filter(|k| w.tok(k).is_some_and(|a| (a.state == AccountState::Frozen) == (op == Op::Thaw))).collect();
            if accts.is_empty() {
                return None;
            }
            let a = *c.rng.pick(&accts);
            let ix = if op == Op::Freeze {
                ti::freeze_account(&prog, &a, &mk, &fa, &[]).ok()?
            } else {
                ti::thaw_account(&prog, &a, &mk, &fa, &[]).ok()?
            };
            One(c.req(format!("{op:?} {}", w.name(&a)), vec![ix], &[fa]))
        }
        Op::Pause => {
            let m = c.t22_mint(ExtensionType::Pausable)?;
            let m = &w.mints[m];
            let d = w.ledger.data(&m.key);
            let st = StateWithExtensions::<Mint>::unpack(d).ok()?;
            let paused: bool = st.get_extension::<extension::pausable::PausableConfig>().ok()?.paused.into();
            let ix = if paused {
                extension::pausable::instruction::resume(&T22, &m.key, &m.issuer, &[]).ok()?
            } else {
                extension::pausable::instruction::pause(&T22, &m.key, &m.issuer, &[]).ok()?
            };
            One(c.req(format!("{} {}", if paused { "resume" } else { "pause" }, w.name(&m.key)), vec![ix], &[m.issuer]))
        }
        Op::SetFee => {
            let m = c.t22_mint(ExtensionType::TransferFeeConfig)?;
            let m = &w.mints[m];
            let (bps, max) = world::rand_fee(c.rng);
            let ix = extension::transfer_fee::instruction::set_transfer_fee(&T22, &m.key, &m.issuer, &[], bps, max).ok()?;
            One(c.req(format!("set-fee {} {bps}bps max {max}", w.name(&m.key)), vec![ix], &[m.issuer]))
        }
        Op::HookMode => {
            let m = c.t22_mint(ExtensionType::TransferHook)?;
            let k = world::hook_state(&w.mints[m].key);
            let mut a = w.ledger.get(&k)?.clone();
            a.data[0] = *c.rng.pick(&[0, 0, 1, 2]);
            Many(vec![Step::Put(k, a)])
        }
        Op::MintMore => {
            let v: Vec<usize> = (0..w.mints.len()).filter(|i| w.mints[*i].nested_of.is_none() && !w.mints[*i].native).collect();
            if v.is_empty() {
                return None;
            }
            let m = &w.mints[*c.rng.pick(&v)];
            let prog = w.ledger.owner(&m.key);
            let ma: Pubkey = Option::<Pubkey>::from(w.mint(&m.key)?.mint_authority)?;
            let accts: Vec<Pubkey> = w.toks.iter().filter(|t| t.mint == m.key).map(|t| t.key).collect();
            if accts.is_empty() {
                return None;
            }
            let a = *c.rng.pick(&accts);
            let amt = world::rand_balance(c.rng);
            let ix = ti::mint_to(&prog, &m.key, &a, &ma, &[], amt).ok()?;
            One(c.req(format!("mint {} {}", amt, w.name(&a)), vec![ix], &[ma]))
        }
        Op::Harvest => {
            let m = c.t22_mint(ExtensionType::TransferFeeConfig)?;
            let m = &w.mints[m];
            let accts: Vec<Pubkey> = w.toks.iter().filter(|t| t.mint == m.key).map(|t| t.key).take(12).collect();
            let refs: Vec<&Pubkey> = accts.iter().collect();
            use extension::transfer_fee::instruction as f;
            let mut ixs = vec![f::harvest_withheld_tokens_to_mint(&T22, &m.key, &refs).ok()?];
            let mut s = vec![];
            if c.rng.pct(70) {
                let dst = accts.iter().copied().find(|k| w.tok(k).is_some_and(|a| w.is_wallet(&a.owner)))?;
                ixs.push(f::withdraw_withheld_tokens_from_mint(&T22, &m.key, &dst, &m.issuer, &[]).ok()?);
                s.push(m.issuer);
            }
            One(c.req(format!("harvest {}", w.name(&m.key)), ixs, &s))
        }
        Op::CloseMint => {
            let m = c.t22_mint(ExtensionType::MintCloseAuthority)?;
            let m = &w.mints[m];
            let ix = ti::close_account(&T22, &m.key, &m.issuer, &m.issuer, &[]).ok()?;
            One(c.req(format!("close-mint {}", w.name(&m.key)), vec![ix], &[m.issuer]))
        }
        Op::Recreate => {
            // an allocated mint that was never initialised
            let blank: Vec<usize> = (0..w.mints.len()).filter(|i| {
                let a = w.ledger.get(&w.mints[*i].key);
                a.is_some_and(|a| world::is_tp(&a.owner) && a.data.len() == 82 && a.data.iter().all(|b| *b == 0))
            }).collect();
            if !blank.is_empty() && c.rng.pct(50) {
                let m = w.mints[*c.rng.pick(&blank)].clone();
                let prog = w.ledger.owner(&m.key);
                let ix = ti::initialize_mint2(&prog, &m.key, &m.issuer, c.rng.pct(60).then_some(&m.issuer), *c.rng.pick(&[0u8, 6, 9])).ok()?;
                return Some(One(c.req(format!("initialise {}", w.name(&m.key)), vec![ix], &[])));
            }
            let v: Vec<usize> = (0..w.mints.len()).filter(|i| w.mints[*i].recyclable && w.ledger.get(&w.mints[*i].key).is_none()).collect();
            if v.is_empty() {
                return None;
            }
            let m = w.mints[*c.rng.pick(&v)].clone();
            let cfg = world::WorldCfg { ext_pct: 35, ..Default::default() };
            let mut bits = world::rand_bits(c.rng, &cfg) | ext::CLOSE;
            let prog = if c.rng.pct(6) { SPL } else { T22 };
            if prog == SPL {
                bits = 0;
            }
            let fee = world::rand_fee(c.rng);
            let pointer = (c.rng.pct(40)).then(|| world::pointer_target(m.meta, &m.key, &key("mint", 99)));
            let dec = *c.rng.pick(&[0u8, 6, 9]);
            let freeze = c.rng.pct(85) || bits & ext::DEFSTATE != 0;
            let rent = w.ledger.rent.clone();
            let ixs = world::create_mint_ixs(&rent, &c.actor, &m.key, &m.issuer, &m.issuer, &prog, bits, dec, freeze, pointer, fee);
            let mut v = vec![];
            if bits & ext::HOOK != 0 {
                for (k, a) in world::hook_accounts(&rent, &m.key, bits & ext::HOOK_NOLIST == 0) {
                    v.push(Step::Put(k, a));
                }
            }
            v.push(Step::Send(c.req(format!("recreate {} ext={bits:#x} {}", w.name(&m.key), w.name(&prog)), ixs, &[m.key])));
            // a holder makes a fresh account and gets tokens of the new mint
            if c.rng.pct(60) {
                let u = *c.rng.pick(&w.users);
                let a = model::ata(&u, &m.key, &prog);
                let mut ixs = vec![];
                if w.tok(&a).is_some_and(|t| t.amount == 0) {
                    ixs.push(ti::close_account(&prog, &a, &u, &u, &[]).ok()?);
                }
                ixs.push(world::ata_ix(&c.actor, &u, &m.key, &prog, true));
                ixs.push(ti::mint_to(&prog, &m.key, &a, &m.issuer, &[], world::rand_balance(c.rng)).ok()?);
                let mut q = c.req(format!("airdrop {} {}", w.name(&m.key), w.name(&u)), ixs, &[u, m.issuer]);
                q.opens = vec![(a, m.key)];
                v.push(Step::Send(q));
            }
            Many(v)
        }
        Op::EditMeta => {
            let v: Vec<usize> = (0..w.mints.len()).filter(|i| w.mints[*i].meta != MetaKind::None).collect();
            if v.is_empty() {
                return None;
            }
            let m = w.mints[*c.rng.pick(&v)].clone();
            let has_self = w.exts(&m.key).contains(&ExtensionType::TokenMetadata);
            if m.meta == MetaKind::SelfT22 || (has_self && c.rng.pct(50)) {
                let t = world::rand_token_metadata(c.rng, &m.key, Some(m.issuer));
                let mut ixs = vec![transfer(&c.actor, &m.key, 20_000_000)];
                if !has_self {
                    ixs.push(tmi::initialize(&T22, &m.key, &m.issuer, &m.key, &m.issuer, t.name, t.symbol, t.uri));
                } else {
                    let cur = StateWithExtensions::<Mint>::unpack(w.ledger.data(&m.key)).ok()?
                        .get_variable_len_extension::<TokenMetadata>().ok()?;
                    for _ in 0..c.rng.range(1, 3) {
                        match c.rng.below(6) {
                            0 => ixs.push(tmi::update_field(&T22, &m.key, &m.issuer, Field::Name, t.name.clone())),
                            1 => ixs.push(tmi::update_field(&T22, &m.key, &m.issuer, Field::Symbol, t.symbol.clone())),
                            2 => ixs.push(tmi::update_field(&T22, &m.key, &m.issuer, Field::Uri, t.uri.clone())),
                            3 | 4 => {
                                for (k, v) in t.additional_metadata.iter().take(3) {
                                    ixs.push(tmi::update_field(&T22, &m.key, &m.issuer, Field::Key(k.clone()), v.clone()));
                                }
                            }
                            _ => {
                                if !cur.additional_metadata.is_empty() {
                                    let k = c.rng.pick(&cur.additional_metadata).0.clone();
                                    ixs.push(tmi::remove_key(&T22, &m.key, &m.issuer, k, true));
                                }
                            }
                        }
                    }
                }
                One(c.req(format!("edit-metadata {}", w.name(&m.key)), ixs, &[m.issuer]))
            } else {
                let all = world::metadata_accounts(c.rng, &w.ledger.rent, &m.key, &m.issuer);
                let i = c.rng.usize(all.len());
                let mut v = vec![];
                for (j, (k, a)) in all.into_iter().enumerate() {
                    // usually edit what the mint designates
                    let d = designated_source(w, &m.key).0;
                    if j == i || d == Some(k) {
                        v.push(Step::Put(k, a));
                    }
                }
                Many(v)
            }
        }
        Op::MovePointer => {
            let m = c.t22_mint(ExtensionType::MetadataPointer)?;
            let m = &w.mints[m];
            let kind = *c.rng.pick(&[MetaKind::Unset, MetaKind::SelfT22, MetaKind::PtrMetaplex, MetaKind::PtrOtherMetaplex,
                MetaKind::PtrExternal, MetaKind::PtrForeignMint, MetaKind::PtrNowhere]);
            let foreign = w.mints.iter().find(|x| x.key != m.key && w.ledger.owner(&x.key) == T22).map_or(key("mint", 99), |x| x.key);
            let target = world::pointer_target(kind, &m.key, &foreign);
            let ix = extension::metadata_pointer::instruction::update(&T22, &m.key, &m.issuer, &[], target).ok()?;
            let mut v = vec![Step::Send(c.req(format!("move-metadata-pointer {} {kind:?}", w.name(&m.key)), vec![ix], &[m.issuer]))];
            if w.ledger.get(&model::metaplex_pda(&m.key)).is_none() {
                for (k, a) in world::metadata_accounts(c.rng, &w.ledger.rent, &m.key, &m.issuer) {
                    v.push(Step::Put(k, a));
                }
            }
            Many(v)
        }
        Op::Dust => {
            let p = c.pair()?;
            let k = *c.rng.pick(&[p.wrapped, p.backptr, p.auth, p.escrow_spl, p.escrow_t22, p.pointer, p.metaplex]);
            let amt = *c.rng.pick(&[1, 890_880, 1_000_000, 1_113_600, 1_461_600, 10_000_000, 40_000_000]);
            One(c.req(format!("dust {} {amt}", w.name(&k)), vec![transfer(&c.actor, &k, amt)], &[]))
        }
        Op::FundMint => {
            let p = c.live_pair()?;
            let k = *c.rng.pick(&[p.wrapped, p.auth]);
            One(c.req(format!("fund {}", w.name(&k)), vec![transfer(&c.actor, &k, 60_000_000)], &[]))
        }
        Op::RotateAuth => {
            let v: Vec<usize> = (0..w.mints.len()).filter(|i| w.mints[*i].nested_of.is_none() && !w.mints[*i].native).collect();
            if v.is_empty() {
                return None;
            }
            let m = &w.mints[*c.rng.pick(&v)];
            let ma: Pubkey = Option::<Pubkey>::from(w.mint(&m.key)?.mint_authority)?;
            let new = match c.rng.below(6) {
                0 if !m.recyclable => None,
                1 => Some(key("newauth", 0)),
                2 => Some(w.attacker),
                _ => Some(m.issuer),
            };
            let prog = w.ledger.owner(&m.key);
            let ix = ti::set_authority(&prog, &m.key, new.as_ref(), ti::AuthorityType::MintTokens, &ma, &[]).ok()?;
            One(c.req(format!("rotate-mint-authority {} -> {}", w.name(&m.key), new.map_or("none".into(), |k| w.name(&k))), vec![ix], &[ma]))
        }
        Op::Memo | Op::CpiGuard => {
            let accts: Vec<Pubkey> = w.toks.iter().map(|t| t.key)
                .filter(|k| w.ledger.owner(k) == T22 && w.tok(k).is_some_and(|a| w.is_wallet(&a.owner))).collect();
            if accts.is_empty() {
                return None;
            }
            let a = *c.rng.pick(&accts);
            let o = w.tok(&a)?.owner;
            let e = if op == Op::Memo { ExtensionType::MemoTransfer } else { ExtensionType::CpiGuard };
            let mut ixs = vec![ti::reallocate(&T22, &a, &c.actor, &o, &[], &[e]).ok()?];
            let on = c.rng.pct(60);
            use extension::{cpi_guard::instruction as g, memo_transfer::instruction as m};
            ixs.push(match (op, on) {
                (Op::Memo, true) => m::enable_required_transfer_memos(&T22, &a, &o, &[]).ok()?,
                (Op::Memo, false) => m::disable_required_transfer_memos(&T22, &a, &o, &[]).ok()?,
                (_, true) => g::enable_cpi_guard(&T22, &a, &o, &[]).ok()?,
                (_, false) => g::disable_cpi_guard(&T22, &a, &o, &[]).ok()?,
            });
            One(c.req(format!("{op:?} {on} {}", w.name(&a)), ixs, &[o]))
        }
        Op::Advance => {
            if c.rng.pct(12) && w.ledger.rate() > 1 {
                return Some(Many(vec![Step::Rent(w.ledger.rate() / *c.rng.pick(&[2, 10]))]));
            }
            let s = match c.rng.below(4) {
                0 => c.rng.range(1, 200),
                1 => crate::bank::SLOTS_PER_EPOCH - (w.ledger.slot % crate::bank::SLOTS_PER_EPOCH), // exactly the boundary
                2 => crate::bank::SLOTS_PER_EPOCH,
                _ => crate::bank::SLOTS_PER_EPOCH * c.rng.range(1, 3) + c.rng.below(1000),
            };
            Many(vec![Step::Advance(s)])
        }
        Op::CloseTok => {
            let accts: Vec<(Pubkey, Pubkey)> = w.toks.iter()
                .filter(|t| w.tok(&t.key).is_some_and(|a| w.is_wallet(&a.owner) && a.amount == 0))
                .map(|t| (t.key, t.mint)).collect();
            if accts.is_empty() {
                return None;
            }
            let (a, mk) = *c.rng.pick(&accts);
            let o = w.tok(&a)?.owner;
            let prog = w.ledger.owner(&a);
            let mut ixs = vec![ti::close_account(&prog, &a, &o, &o, &[]).ok()?];
            if c.rng.pct(75) {
                let mp = w.ledger.owner(&mk);
                if world::is_tp(&mp) && model::ata(&o, &mk, &mp) == a {
                    ixs.push(world::ata_ix(&c.actor, &o, &mk, &mp, false));
                }
            }
            One(c.req(format!("close/reopen {}", w.name(&a)), ixs, &[o]))
        }
        Op::SetOwner => {
            let accts: Vec<Pubkey> = w.toks.iter().map(|t| t.key)
                .filter(|k| w.tok(k).is_some_and(|a| w.is_wallet(&a.owner))).collect();
            if accts.is_empty() {
                return None;
            }
            let a = *c.rng.pick(&accts);
            let o = w.tok(&a)?.owner;
            let prog = w.ledger.owner(&a);
            let mut targets = w.users.clone();
            targets.extend(w.multis.iter().filter(|m| m.program == prog).map(|m| m.key));
            let n = *c.rng.pick(&targets);
            let ix = ti::set_authority(&prog, &a, Some(&n), ti::AuthorityType::AccountOwner, &o, &[]).ok()?;
            One(c.req(format!("set-owner {} {}", w.name(&a), w.name(&n)), vec![ix], &[o]))
        }
        Op::Seize => {
            let m = c.t22_mint(ExtensionType::PermanentDelegate)?;
            let m = &w.mints[m];
            let accts: Vec<Pubkey> = w.toks.iter().filter(|t| t.mint == m.key).map(|t| t.key).collect();
            if accts.len() < 2 {
                return None;
            }
            let (mut a, b) = (*c.rng.pick(&accts), *c.rng.pick(&accts));
            // an escrow more often than any other account
            if c.rng.pct(50) {
                let escrows: Vec<Pubkey> = accts.iter().copied().filter(|k| w.pairs.iter().any(|p| p.escrow_t22 == *k)).collect();
                if !escrows.is_empty() {
                    a = *c.rng.pick(&escrows);
                }
            }
            let st = w.tok(&a)?;
            let amt = c.rng.range(1, st.amount.max(1));
            let mut ix = ti::transfer_checked(&T22, &a, &m.key, &b, &m.issuer, &[], amt, w.mint(&m.key)?.decimals).ok()?;
            for (i, k) in hook_transfer_extras(w, &m.key).iter().enumerate() {
                ix.accounts.push(if i == 0 { wr(k) } else { r(k) });
            }
            One(c.req(format!("seize {}", w.name(&a)), vec![ix], &[m.issuer]))
        }
        Op::Verify => {
            let v: Vec<usize> = (0..w.pairs.len()).filter(|i| w.ledger.owner(&w.pairs[*i].metaplex) == svm::METAPLEX).collect();
            if v.is_empty() {
                return None;
            }
            let p = w.pairs[*c.rng.pick(&v)].clone();
            let m = mpl_token_metadata::accounts::Metadata::safe_deserialize(w.ledger.data(&p.metaplex)).ok()?;
            use mpl_token_metadata::instructions as mi;
            let creators = m.creators.unwrap_or_default();
            let (what, who, ix) = match m.collection {
                Some(col) if creators.is_empty() || c.rng.pct(50) => {
                    let (meta, edition) = world::collection_accounts(&col.key);
                    let a = world::collection_authority();
                    if col.verified {
                        ("unverify-collection", a, mi::UnverifyCollectionBuilder::new().metadata(p.metaplex).collection_authority(a)
                            .collection_mint(col.key).collection(meta).collection_master_edition_account(edition).instruction())
                    } else {
                        ("verify-collection", a, mi::VerifyCollectionBuilder::new().metadata(p.metaplex).collection_authority(a).payer(c.actor)
                            .collection_mint(col.key).collection(meta).collection_master_edition_account(edition).instruction())
                    }
                }
                _ if !creators.is_empty() => {
                    let k = c.rng.pick(&creators).clone();
                    if k.verified {
                        ("unsign-metadata", k.address, mi::RemoveCreatorVerificationBuilder::new().metadata(p.metaplex).creator(k.address).instruction())
                    } else {
                        ("sign-metadata", k.address, mi::SignMetadataBuilder::new().metadata(p.metaplex).creator(k.address).instruction())
                    }
                }
                _ => return None,
            };
            One(c.req(format!("{what} {}", w.name(&p.metaplex)), vec![ix], &[who]))
        }
        Op::Forge => Many(forge(c)?),
    })
}

pub fn wrapped_space(wprog: &Pubkey, v: Variant) -> usize {
    if *wprog != T22 {
        return 82;
    }
    let e: &[ExtensionType] = match v {
        Variant::NoExtension => &[],
        Variant::Default => &[ExtensionType::ConfidentialTransferMint, ExtensionType::MetadataPointer],
        Variant::Compliance => &[ExtensionType::PermanentDelegate, ExtensionType::DefaultAccountState,
            ExtensionType::ConfidentialTransferMint, ExtensionType::Pausable],
    };
    ExtensionType::try_calculate_account_len::<Mint>(e).unwrap()
}

/// Extra accounts a direct transfer of `mint` needs: state, program, validation.
fn hook_transfer_extras(w: &World, mint: &Pubkey) -> Vec<Pubkey> {
    w.hook_extras(mint)
}

fn memo_wanted(w: &World, k: &Pubkey, p: &Pair) -> bool {
    let _ = (w, k, p);
    true
}
pub const MEMO: Pubkey = Pubkey::from_str_const("MemoSq4gqABAXKb96qnH8TysNcWxMyWCqXgDLGmfcHr");
pub fn memo() -> Instruction {
    Instruction { program_id: MEMO, accounts: vec![], data: b"hi".to_vec() }
}

/// Source account and owner program an honest client passes for a sync.
pub fn designated_source(w: &World, mint: &Pubkey) -> (Option<Pubkey>, Option<Pubkey>) {
    let o = w.ledger.owner(mint);
    let own = model::metaplex_pda(mint);
    if o != T22 {
        return (Some(own), None);
    }
    let Ok(s) = StateWithExtensions::<Mint>::unpack(w.ledger.data(mint)) else {
        return (Some(own), None);
    };
    match s.get_extension::<extension::metadata_pointer::MetadataPointer>() {
        Err(_) => (Some(own), None),
        Ok(p) => match Option::<Pubkey>::from(p.metadata_address) {
            None => (None, None),
            Some(a) if a == *mint => (None, None),
            Some(a) => {
                let o = w.ledger.owner(&a);
                if o == META1 || o == META2 {
                    (Some(a), Some(o))
                } else {
                    (Some(a), None)
                }
            }
        },
    }
}

fn meta_pool(w: &World) -> Vec<Pubkey> {
    let mut v = vec![];
    for m in &w.mints {
        v.push(model::metaplex_pda(&m.key));
        v.push(world::other_metaplex_key(&m.key));
        v.push(world::external_key(&m.key));
        v.push(m.key);
    }
    for p in &w.pairs {
        v.push(p.metaplex);
        v.push(p.wrapped);
    }
    for i in 0..4 {
        v.push(key("forge", i));
    }
    v
}

/// Attacker-made accounts: look-alikes of program state.
fn forge(c: &mut Ctx) -> Option<Vec<Step>> {
    let w = c.w;
    let p = c.pair()?;
    let m = w.mints[p.mint].clone();
    let k = key("forge", c.rng.below(4));
    let rent = w.ledger.rent.clone();
    Some(match c.rng.below(7) {
        0 => {
            // a clone of a genuine account under an attacker program
            let src = *c.rng.pick(&[p.wrapped, p.escrow(&w.ledger.owner(&p.unwrapped)), p.unwrapped, p.backptr]);
            let mut a = w.ledger.get(&src)?.clone();
            a.owner = *c.rng.pick(&[META1, HOOK, META2]);
            vec![Step::Put(k, a)]
        }
        1 => {
            // a real token account of the pair's authority that is not the escrow
            let mint = if c.rng.pct(50) { p.unwrapped } else { p.wrapped };
            let prog = w.ledger.owner(&mint);
            if !world::is_tp(&prog) || w.ledger.get(&k).is_some() {
                return None;
            }
            let len = if prog == T22 { account_len(w, &mint) } else { 165 };
            let mut v = vec![];
            let ixs = vec![
                solana_system_interface::instruction::create_account(&c.actor, &k, rent.minimum_balance(len),
                    len as u64, &prog),
                ti::initialize_account3(&prog, &k, &mint, &p.auth).ok()?,
            ];
            let mut q = c.req(format!("forge-escrow {}", w.name(&p.auth)), ixs, &[k]);
            q.opens = vec![(k, mint)];
            v.push(Step::Send(q));
            v
        }
        2 => {
            // forged Metaplex-looking metadata
            let mp = world::rand_metaplex(c.rng, &m.key, &w.attacker);
            let owner = *c.rng.pick(&[svm::METAPLEX, META1, SYS]);
            let data = world::metaplex_bytes(&mp);
            vec![Step::Put(k, Account { lamports: rent.minimum_balance(data.len()), data, owner, executable: false, rent_epoch: u64::MAX })]
        }
        3 => {
            // external metadata under another program, or with odd return data
            let t = world::rand_token_metadata(c.rng, &m.key, Some(w.attacker));
            let data = world::external_bytes(c.rng.below(5) as u8, &t);
            let owner = *c.rng.pick(&[META1, META2]);
            let target = if c.rng.pct(50) { k } else { world::external_key(&m.key) };
            vec![Step::Put(target, Account { lamports: rent.minimum_balance(data.len()), data, owner, executable: false, rent_epoch: u64::MAX })]
        }
        6 => vec![world::decoy_account(c.rng, &rent, &p.auth)].into_iter().map(|(k, a)| Step::Put(k, a)).collect(),
        4 => {
            // an attacker mint whose mint authority is the pair's PDA
            if w.ledger.get(&k).is_some() {
                return None;
            }
            let prog = *c.rng.pick(&[SPL, T22]);
            let ixs = world::create_mint_ixs(&rent, &c.actor, &k, &c.w.attacker, &p.auth, &prog, 0, 6, true, None, (0, 0));
            vec![Step::Send(c.req("forge-mint".into(), ixs, &[k]))]
        }
        _ => {
            // a wrapped-token account of the attacker outside the ATA
            if w.ledger.get(&k).is_some() || w.mint(&p.wrapped).is_none() {
                return None;
            }
            let len = if p.wprog == T22 { account_len(w, &p.wrapped) } else { 165 };
            let ixs = vec![
                solana_system_interface::instruction::create_account(&c.actor, &k, rent.minimum_balance(len), len as u64, &p.wprog),
                ti::initialize_account3(&p.wprog, &k, &p.wrapped, &c.actor).ok()?,
            ];
            let mut q = c.req("aux-account".into(), ixs, &[k]);
            q.opens = vec![(k, p.wrapped)];
            vec![Step::Send(q)]
        }
    })
}
fn account_len(w: &World, mint: &Pubkey) -> usize {
    extension::account_len::try_calculate_account_len_from_mint_data(w.ledger.data(mint), &[]).unwrap_or(165)
}

/// Keys an adversary may put anywhere.
fn pool(w: &World) -> Vec<Pubkey> {
    let mut v = vec![SPL, T22, SYS, svm::METAPLEX, META1, HOOK, w.attacker, model::PROGRAM];
    for p in &w.pairs {
        v.extend([p.unwrapped, p.wrapped, p.auth, p.backptr, p.pointer, p.escrow_spl, p.escrow_t22, p.metaplex, world::decoy(&p.auth)]);
    }
    v.extend(w.toks.iter().map(|t| t.key));
    v.extend(w.users.iter());
    for i in 0..4 {
        v.push(key("forge", i));
    }
    v.push(key("nothing", 0));
    v
}

fn fix_signers(w: &World, q: &mut Request) {
    for ix in &mut q.tx.ixs {
        for m in &mut ix.accounts {
            if m.is_signer && !q.tx.signers.contains(&m.pubkey) {
                if w.is_wallet(&m.pubkey) && m.pubkey == w.attacker {
                    q.tx.signers.push(m.pubkey);
                } else if !q.tx.signers.contains(&m.pubkey) {
                    m.is_signer = false;
                }
            }
        }
    }
}

/// Tokens of an account the program could sign for, moved without its owner:
/// the authority is a program address, which nobody can sign for outside.
fn deputy(c: &mut Ctx, ix: &mut Instruction) -> bool {
    let (from, mint) = match ix.data.first() {
        Some(1) => (5, 6),
        Some(2) => (6, 7),
        _ => return false,
    };
    if ix.accounts.len() < 9 || ix.data.len() < 9 {
        return false;
    }
    let w = c.w;
    let mint = ix.accounts[mint].pubkey;
    let mut v = vec![];
    for t in w.toks.iter().filter(|t| t.mint == mint) {
        let Some(a) = w.tok(&t.key) else { continue };
        let d = Option::<Pubkey>::from(a.delegate).filter(|_| a.delegated_amount > 0);
        for p in &w.pairs {
            if a.amount > 0 && (a.owner == p.auth || d == Some(p.auth)) {
                v.push((t.key, p.auth, if a.owner == p.auth { a.amount } else { a.amount.min(a.delegated_amount) }));
            }
        }
    }
    if v.is_empty() {
        return false;
    }
    let (k, who, max) = *c.rng.pick(&v);
    ix.accounts[from].pubkey = k;
    ix.accounts[8].pubkey = who;
    ix.accounts[8].is_signer = false;
    let keep: Vec<_> = ix.accounts.iter().enumerate().filter(|(i, m)| *i < 9 || !m.is_signer).map(|(_, m)| m.clone()).collect();
    ix.accounts = keep;
    let amt = c.rng.range(1, max);
    ix.data[1..9].copy_from_slice(&amt.to_le_bytes());
    true
}

/// Turns some honest requests into adversarial or damaged ones.
fn mutate(c: &mut Ctx, q: &mut Request) {
    let Some(i) = q.tx.ixs.iter().position(|i| i.program_id == model::PROGRAM) else {
        return;
    };
    let mut changed = false;
    if c.rng.pct(c.cfg.mutate_sub) {
        changed = true;
        q.tags |= tag::SUB;
        let pool = pool(c.w);
        let n = q.tx.ixs[i].accounts.len();
        match c.rng.below(7) {
            // consistent swap towards another pair
            0 | 1 if c.w.pairs.len() > 1 => {
                let a = c.w.pairs[c.rng.usize(c.w.pairs.len())].clone();
                let accts = &mut q.tx.ixs[i].accounts;
                if let Some(b) = c.w.pairs.iter().find(|p| accts.iter().any(|m| m.pubkey == p.auth || m.pubkey == p.wrapped)) {
                    let from = [b.unwrapped, b.wrapped, b.auth, b.backptr, b.pointer, b.escrow_spl, b.escrow_t22, b.metaplex, b.wprog];
                    let to = [a.unwrapped, a.wrapped, a.auth, a.backptr, a.pointer, a.escrow_spl, a.escrow_t22, a.metaplex, a.wprog];
                    let mask = if c.rng.pct(50) { 1 << c.rng.below(9) } else { c.rng.next() };
                    for m in accts.iter_mut() {
                        for (j, f) in from.iter().enumerate() {
                            if mask >> j & 1 == 1 && m.pubkey == *f {
                                m.pubkey = to[j];
                                break;
                            }
                        }
                    }
                }
            }
            5 | 6 if q.tx.ixs[i].data.first() == Some(&3) && n > 4 => {
                let (mint, auth) = (q.tx.ixs[i].accounts[2].pubkey, q.tx.ixs[i].accounts[4].pubkey);
                let a = &mut q.tx.ixs[i].accounts;
                if c.rng.pct(50) {
                    // some other account of the same authority
                    let v: Vec<_> = pool.iter().filter(|k| c.w.ledger.owner(k) == T22 && c.w.tok(k).is_some_and(|t| t.owner == auth)).collect();
                    if !v.is_empty() {
                        a[0].pubkey = **c.rng.pick(&v);
                    }
                } else {
                    // the sender's own account, as if it were the escrow
                    a[0].pubkey = model::ata(&c.actor, &mint, &T22);
                    a[4] = AccountMeta::new(c.actor, true);
                }
            }
            6 if q.tx.ixs[i].data.first() == Some(&5) && n > 1 => {
                q.tx.ixs[i].accounts[0].pubkey = world::decoy(&q.tx.ixs[i].accounts[1].pubkey);
            }
            2 => {
                // the same account twice
                let (x, y) = (c.rng.usize(n), c.rng.usize(n));
                q.tx.ixs[i].accounts[x].pubkey = q.tx.ixs[i].accounts[y].pubkey;
            }
            3 => {
                // writable flag dropped
                let x = c.rng.usize(n);
                q.tx.ixs[i].accounts[x].is_writable = false;
            }
            _ => {
                for _ in 0..c.rng.range(1, 2) {
                    let x = c.rng.usize(n);
                    q.tx.ixs[i].accounts[x].pubkey = *c.rng.pick(&pool);
                }
            }
        }
    }
    if c.rng.pct(c.cfg.mutate_auth / 2) && deputy(c, &mut q.tx.ixs[i]) {
        changed = true;
        q.tags |= tag::AUTH;
    } else if c.rng.pct(c.cfg.mutate_auth) {
        // signature flag stripped: the owner did not sign
        let ix = &mut q.tx.ixs[i];
        let s: Vec<usize> = (0..ix.accounts.len()).filter(|j| ix.accounts[*j].is_signer).collect();
        if !s.is_empty() {
            changed = true;
            q.tags |= tag::AUTH;
            let j = *c.rng.pick(&s);
            let who = ix.accounts[j].pubkey;
            ix.accounts[j].is_signer = false;
            // ... and really has not, unless it pays
            if who != q.tx.payer {
                q.tx.signers.retain(|k| *k != who);
            }
        }
    }
    if c.rng.pct(c.cfg.mutate_data) {
        changed = true;
        q.tags |= tag::DATA;
        let ix = &mut q.tx.ixs[i];
        match c.rng.below(8) {
            0 => ix.data.clear(),
            1 => {
                let n = c.rng.usize(ix.data.len());
                ix.data.truncate(n);
            }
            2 => {
                for _ in 0..c.rng.range(1, 3) {
                    ix.data.push(c.rng.next() as u8);
                }
            }
            3 => ix.data[0] = *c.rng.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 255]),
            4 => {
                let j = c.rng.usize(ix.data.len());
                ix.data[j] ^= 1 << c.rng.below(8);
            }
            5 => {
                let n = c.rng.usize(ix.accounts.len());
                ix.accounts.truncate(n);
            }
            6 => {
                let extra = *c.rng.pick(&pool(c.w));
                ix.accounts.push(r(&extra));
            }
            _ => {
                let n = c.rng.usize(40);
                ix.data = (0..n).map(|_| c.rng.next() as u8).collect();
                if !ix.data.is_empty() {
                    ix.data[0] %= 9;
                }
            }
        }
    }
    if changed {
        q.tags &= !tag::LIB;
        q.canon = None;
        fix_signers(c.w, q);
    }
}
