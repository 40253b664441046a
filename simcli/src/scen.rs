//! Scenarios: who runs which command when, what the world does meanwhile, and
//! what the history must then look like.

use {
    crate::{
        chain::{self, blockhash, Chain, Fault, Landing},
        clock,
        cmd::{self, mint_program, Cmd, Inv, KeyFiles, Presigned, Signing, Want, Who, SPL, T22},
        host::{self, Faults, Outcome, Req, State},
        js,
    },
    serde_json::{json, Value},
    solana_message::Message,
    solana_pubkey::Pubkey,
    std::{
        collections::{BTreeMap, BTreeSet},
        rc::Rc,
        sync::Arc,
        time::Duration,
    },
    twsim::{
        bank::{Ledger, Tx, Verdict},
        model::{self, Variant},
        native::CrashPoint,
        ops::{self, Ctx, Op, OpCfg},
        rng::Rng,
        sim,
        svm::Engine,
        trace::{self, Event, TxEvent},
        world::{self, ext, is_tp, key, Pair, World, WorldCfg},
    },
};

pub const PROPS: [&str; 8] = ["C16", "C17", "C18", "C19", "C20", "C21", "C23", "C25"];

/// One thing that happens.
#[derive(Clone, Debug)]
pub enum Act {
    Cli(Inv),
    World(Box<Event>),
    /// Faults stop here.
    Quiet,
}
#[derive(Clone, Debug)]
pub struct Step {
    pub id: usize,
    pub ms: u64,
    pub act: Act,
}
impl Step {
    pub fn to_json(&self) -> Value {
        match &self.act {
            Act::Cli(i) => json!({"id": self.id, "ms": self.ms, "cli": i}),
            Act::World(e) => json!({"id": self.id, "ms": self.ms, "world": e.to_json()}),
            Act::Quiet => json!({"id": self.id, "ms": self.ms, "quiet": true}),
        }
    }
    pub fn from_json(v: &Value) -> Option<Step> {
        let act = if let Some(c) = v.get("cli") {
            Act::Cli(serde_json::from_value(c.clone()).ok()?)
        } else if let Some(w) = v.get("world") {
            Act::World(Box::new(Event::from_json(w)?))
        } else {
            Act::Quiet
        };
        Some(Step { id: v["id"].as_u64()? as usize, ms: v["ms"].as_u64()?, act })
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
    pub props: Vec<&'static str>,
}

#[derive(Clone, Default)]
pub struct Stats {
    pub runs: u64,
    pub invocations: u64,
    pub ok: u64,
    pub err: u64,
    pub killed: u64,
    pub panicked: u64,
    pub requests: u64,
    pub landings: u64,
    pub landed_ok: u64,
    pub world_txs: u64,
    pub sim_ms: u64,
    pub exact: u64,
    pub exact_ok: u64,
    pub raced: u64,
    pub raced_ok: u64,
    pub offline: u64,
    pub offline_ok: u64,
    pub reruns: u64,
    pub missing: u64,
    pub named: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub commands: BTreeMap<&'static str, (u64, u64)>,
    pub states: BTreeSet<u64>,
    pub orders: BTreeSet<u64>,
    pub digest: u64,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.invocations += o.invocations;
        self.ok += o.ok;
        self.err += o.err;
        self.killed += o.killed;
        self.panicked += o.panicked;
        self.requests += o.requests;
        self.landings += o.landings;
        self.landed_ok += o.landed_ok;
        self.world_txs += o.world_txs;
        self.sim_ms += o.sim_ms;
        self.exact += o.exact;
        self.exact_ok += o.exact_ok;
        self.raced += o.raced;
        self.raced_ok += o.raced_ok;
        self.offline += o.offline;
        self.offline_ok += o.offline_ok;
        self.reruns += o.reruns;
        self.missing += o.missing;
        self.named += o.named;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.commands {
            let e = self.commands.entry(k).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        self.states.extend(o.states);
        self.orders.extend(o.orders);
        self.digest = self.digest.wrapping_add(o.digest);
    }
}

pub struct Run {
    pub steps: Vec<Step>,
    pub faults: BTreeMap<(usize, usize), Fault>,
    pub violation: Option<Violation>,
    pub other: Option<Violation>,
    pub stats: Stats,
    pub log: Vec<String>,
    /// World and network the run started from.
    pub start: Start,
}

#[derive(Clone)]
pub struct Start {
    pub world: World,
    pub lag: u64,
    pub latency: u64,
}
impl Start {
    pub fn to_json(&self) -> Value {
        let (_, e) = sim::engines(Variant::Default);
        json!({"world": trace::world_to_json(&self.world, &e.program_accounts().into_iter().collect()), "lag": self.lag, "latency": self.latency})
    }
    pub fn from_json(v: &Value) -> Option<Start> {
        let (_, e) = sim::engines(Variant::Default);
        Some(Start {
            world: trace::world_from_json(&v["world"], e.program_accounts().into_iter().collect())?,
            lag: v["lag"].as_u64()?,
            latency: v["latency"].as_u64()?,
        })
    }
}

fn hash64(x: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new_with_keys(1, 2);
    x.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- the world

fn world_cfg(prop: &str, r: &mut Rng) -> WorldCfg {
    let mut c = WorldCfg { nested: 8, native: 6, ext_pct: 8, multis: 2, noauth_pct: 4, ..WorldCfg::default() };
    match prop {
        "C17" | "C19" => c.precreate = *r.pick(&[0, 30, 60]),
        "C16" | "C21" => c.precreate = 97,
        _ => c.precreate = 75,
    }
    if matches!(prop, "C18" | "C20" | "C23" | "C25") {
        c.meta = 85;
        c.recyclable = 45;
        c.precreate = 85;
    }
    if r.pct(60) {
        c.ext_mask &= !(ext::HOOK | ext::HOOK_NOLIST);
    }
    c
}
const OPS: OpCfg = OpCfg { mutate_sub: 0, mutate_auth: 0, mutate_data: 0, bundle: 0, odd_amount: 0 };

fn event_of(slot: u64, s: ops::Step) -> Option<Event> {
    match s {
        ops::Step::Put(k, a) => Some(Event::Put(k, a)),
        ops::Step::Advance(_) => None,
        ops::Step::Rent(n) => Some(Event::Rent(n)),
        ops::Step::Send(q) => Some(Event::Tx(Box::new(TxEvent {
            slot, op: 255, tags: q.tags, label: q.label, opens: q.opens, canon: None, tx: q.tx,
        }))),
    }
}

/// History before the clients appear, run through the reference program.
fn prehistory(prop: &str, w: &mut World, e: &mut Engine, r: &mut Rng) {
    // new Metaplex metadata is paid for by the wrapped mint authority
    if matches!(prop, "C18" | "C20" | "C23" | "C25") && r.pct(70) {
        for p in w.pairs.clone() {
            if w.ledger.get(&p.auth).is_none() {
                w.ledger.put(p.auth, solana_account::Account { lamports: 40_000_000, rent_epoch: u64::MAX, ..Default::default() });
            }
        }
    }
    let mut todo: Vec<Op> = vec![];
    let n = r.below(10);
    for _ in 0..n {
        todo.push(*r.pick(&[Op::Wrap, Op::Wrap, Op::Unwrap, Op::Approve, Op::SetFee, Op::MintMore, Op::EditMeta,
            Op::MovePointer, Op::SyncT22, Op::SyncSpl, Op::Dust, Op::Transfer, Op::Setup, Op::Escrow, Op::Create, Op::OpenWrapped]));
    }
    let direct = matches!(prop, "C18" | "C20" | "C23" | "C25").then(|| w.mints.iter().position(|m| m.recyclable)).flatten().filter(|_| r.pct(70));
    let rounds = todo.len() + if direct.is_some() { 14 } else { 0 };
    for i in 0..rounds {
        let op = match (todo.get(i), direct) {
            (Some(o), _) => *o,
            (None, Some(m)) => match sim::direct(w, m, r) {
                Some(o) => o,
                None => continue,
            },
            _ => break,
        };
        let actor = match direct {
            Some(m) if i >= todo.len() => w.mints[m].issuer,
            _ => *r.pick(&w.users),
        };
        apply_op(w, e, r, op, actor);
    }
}
fn apply_op(w: &mut World, e: &mut Engine, r: &mut Rng, op: Op, actor: Pubkey) {
    let steps = {
        let mut c = Ctx { w, rng: r, cfg: &OPS, actor, variant: Variant::Default };
        ops::build(&mut c, op)
    };
    for s in steps.unwrap_or_default() {
        match s {
            ops::Step::Advance(n) => w.ledger.slot += n,
            ops::Step::Rent(n) => w.ledger.set_rate(n),
            ops::Step::Put(k, a) => {
                let o = w.ledger.owner(&k);
                if !is_tp(&o) && o != model::PROGRAM {
                    w.ledger.put(k, a)
                }
            }
            ops::Step::Send(q) => {
                let x = w.ledger.run(e, &q.tx);
                w.ledger.commit(&x);
                if x.verdict == Verdict::Ok {
                    for (k, m) in q.opens {
                        w.add_tok(k, m);
                    }
                }
                w.ledger.slot += 1;
            }
        }
    }
}

// ------------------------------------------------------------- generation

/// Writes scenario steps while the simulation runs.
struct Gen<'a> {
    prop: &'static str,
    r: Rng,
    w: World,
    keys: &'a KeyFiles,
    next: usize,
    steps: Vec<Step>,
    handles: Vec<tokio::task::JoinHandle<()>>,
    odd: u64,
    kill: u64,
    model: Engine,
}

/// Bytes of the transaction on the wire.
fn wire_size(ixs: &[solana_instruction::Instruction], payer: &Pubkey) -> usize {
    let m = Message::new(ixs, Some(payer));
    1 + 64 * m.header.num_required_signatures as usize + m.serialize().len()
}

fn launch(id: usize, inv: &Inv, keys: &KeyFiles) -> tokio::task::JoinHandle<()> {
    if inv.js {
        return js::spawn(id, inv);
    }
    let args = inv.args(&cmd::url(id), keys, &|p: &Presigned| {
        host::with(|s| s.out.get(&p.step).and_then(|o| {
            let t = o.result.as_ref()?.as_ref().ok()?;
            printed_signatures(t).into_iter().find(|(k, _)| *k == p.key).map(|(k, g)| format!("{k}={g}"))
        }))
        .unwrap_or_else(|| format!("{}={}", p.key, "1".repeat(64)))
    });
    host::spawn(id, args, inv.kill)
}

fn world_event(s: &mut State, w: &mut World, e: &Event) -> bool {
    match e {
        Event::Rent(n) => {
            if *n < s.chain.head().rate() {
                s.chain.mutate(|l| l.set_rate(*n));
            }
            true
        }
        Event::Put(k, a) => {
            let l = s.chain.head();
            let o = l.owner(k);
            if !is_tp(&o) && o != model::PROGRAM {
                s.chain.mutate(|l| l.put(*k, a.clone()));
            }
            true
        }
        Event::Tx(t) => {
            let v = s.chain.world(&t.tx);
            if v == Verdict::Ok {
                for (k, m) in &t.opens {
                    w.add_tok(*k, *m);
                }
            }
            v == Verdict::Ok
        }
    }
}

impl Gen<'_> {
    fn refresh(&mut self) {
        self.w.ledger = host::with(|s| {
            let mut l = (*s.chain.head()).clone();
            l.slot = s.chain.slot();
            l
        });
    }
    fn id(&mut self) -> usize {
        self.next += 1;
        self.next - 1
    }
    fn cli(&mut self, inv: Inv) -> usize {
        let id = self.id();
        let ms = host::with(|s| s.now());
        let inv = inv.coherent();
        self.handles.push(launch(id, &inv, self.keys));
        self.steps.push(Step { id, ms, act: Act::Cli(inv) });
        id
    }
    async fn settle(&mut self) {
        for h in self.handles.drain(..) {
            h.await.unwrap();
        }
    }
    async fn gap(&mut self, ms: u64) {
        tokio::time::sleep(Duration::from_millis(ms)).await;
        host::with(|_| ());
    }
    fn world_tx(&mut self, label: &str, ixs: Vec<solana_instruction::Instruction>, payer: Pubkey, signers: Vec<Pubkey>) {
        let e = Event::Tx(Box::new(TxEvent {
            slot: 0, op: 255, tags: 0, label: label.into(), opens: vec![], canon: None,
            tx: Tx { ixs, payer, signers, crash: CrashPoint::None, cu_limit: 1_400_000 },
        }));
        self.world(e);
    }
    fn world(&mut self, e: Event) {
        let id = self.id();
        let ms = host::with(|s| s.now());
        let w = &mut self.w;
        host::with(|s| world_event(s, w, &e));
        self.steps.push(Step { id, ms, act: Act::World(Box::new(e)) });
    }
    fn world_op(&mut self, op: Op) {
        self.refresh();
        let actor = *self.r.pick(&self.w.users);
        let steps = {
            let mut c = Ctx { w: &self.w, rng: &mut self.r, cfg: &OPS, actor, variant: Variant::Default };
            ops::build(&mut c, op)
        };
        for s in steps.unwrap_or_default() {
            if let Some(e) = event_of(self.w.ledger.slot, s) {
                self.world(e);
            }
        }
    }
    fn quiet(&mut self) {
        let id = self.id();
        let ms = host::with(|s| {
            s.quiet = true;
            s.now()
        });
        self.steps.push(Step { id, ms, act: Act::Quiet });
    }

    fn user(&mut self) -> Pubkey {
        *self.r.pick(&self.w.users)
    }
    fn inv(&mut self, cmd: Cmd, payer: Pubkey) -> Inv {
        let kill = self.r.pct(self.kill).then(|| self.r.range(20, 6_000));
        Inv {
            cmd,
            payer: Who { key: payer, held: true },
            payer_from_config: self.r.pct(40),
            dry: false,
            output: self.r.pick(&["", "", "-v", "json", "json", "json-compact", "quiet", "display", "verbose"]).to_string(),
            kill,
            js: false,
            form: if self.r.pct(40) { 1 + self.r.below(1 << 40) } else { 0 },
        }
    }
    /// The same request for the JavaScript client, where that can express it.
    fn in_js(&mut self, mut inv: Inv) -> Option<Inv> {
        inv.js = true;
        inv.dry = false;
        inv.output = "json".into();
        let off = js::offline(&inv);
        let l = &self.w.ledger;
        let mint_of = |k: &Pubkey| world::tok(l.data(k)).map(|t| t.mint);
        match &mut inv.cmd {
            Cmd::Wrap { account, wprog, mint, recipient, uprog, sign, .. } if off => {
                let m = mint.or_else(|| mint_of(account))?;
                *mint = Some(m);
                *uprog = Some(uprog.unwrap_or(l.owner(account)));
                let wm = model::wrapped_mint(&m, wprog).0;
                *recipient = Some(recipient.unwrap_or_else(|| model::ata(&inv.payer.key, &wm, wprog)));
                sign.blockhash?;
            }
            Cmd::Unwrap { account, recipient, mint, wprog, uprog, sign, .. } if off => {
                *mint = Some(mint.or_else(|| mint_of(recipient))?);
                *wprog = Some(wprog.unwrap_or(l.owner(account)));
                *uprog = Some(uprog.unwrap_or(l.owner(recipient)));
                sign.blockhash?;
            }
            Cmd::CreateEscrow { idempotent, .. } => *idempotent = false,
            Cmd::SyncT22 { source: None, owner, .. } | Cmd::SyncSpl { source: None, owner, .. } => *owner = None,
            _ => {}
        }
        Some(inv)
    }
    /// An address with nothing to do with the request.
    fn stray(&mut self) -> Pubkey {
        let mut pool = self.w.users.clone();
        pool.push(key("nobody", 0));
        pool.push(self.w.attacker);
        pool.extend(self.w.mints.iter().map(|m| m.key));
        pool.extend(self.w.pairs.iter().flat_map(|p| [p.wrapped, p.backptr, p.auth, p.escrow_spl, p.escrow_t22]));
        pool.extend(self.w.toks.iter().map(|t| t.key));
        pool.extend(self.w.multis.iter().map(|m| m.key));
        pool.push(model::PROGRAM);
        *self.r.pick(&pool)
    }
    fn pair(&mut self, live: bool) -> Option<Pair> {
        let l = &self.w.ledger;
        let v: Vec<Pair> = self.w.pairs.iter().filter(|p| !live || mint_program(l, &p.wrapped).is_some()).cloned().collect();
        if v.is_empty() { None } else { Some(self.r.pick(&v).clone()) }
    }
    /// A token account of `mint` and its owner, which the keys at hand can spend.
    fn holding(&mut self, mint: &Pubkey, multi: bool) -> Option<(Pubkey, Pubkey, u64)> {
        let mut v = vec![];
        for t in &self.w.toks {
            if t.mint != *mint {
                continue;
            }
            let Some(a) = self.w.tok(&t.key) else { continue };
            let m = self.w.multi(&a.owner).is_some();
            if a.amount > 0 && if multi { m } else { m || self.keys.is_person(&a.owner) } {
                v.push((t.key, a.owner, a.amount));
            }
        }
        if v.is_empty() { None } else { Some(*self.r.pick(&v)) }
    }
    fn recipient(&mut self, mint: &Pubkey) -> Option<Pubkey> {
        let v: Vec<Pubkey> = self.w.toks.iter().filter(|t| t.mint == *mint && self.w.tok(&t.key).is_some()).map(|t| t.key).collect();
        if v.is_empty() { None } else { Some(*self.r.pick(&v)) }
    }
    fn amount(&mut self, bal: u64) -> u64 {
        match self.r.below(12) {
            0 => bal,
            1 => bal.saturating_add(1),
            2 => 1,
            3 => 0,
            4 => u64::MAX,
            5 => bal / 2 + 1,
            _ => self.r.range(1, bal.clamp(1, 1000)),
        }
    }
    fn signing(&mut self, owner: Pubkey, payer: Pubkey) -> Signing {
        let mut s = Signing::default();
        if let Some(m) = self.w.multi(&owner).cloned() {
            let mut pool = m.members.clone();
            self.r.shuffle(&mut pool);
            let n = if self.r.pct(88) { m.m as usize } else { self.r.range(1, pool.len() as u64) as usize };
            s.auth = Some(Who { key: owner, held: false });
            s.multi = pool[..n.min(pool.len())].iter().map(|k| Who { key: *k, held: true }).collect();
            s.blockhash = Some(self.hash());
        } else if owner != payer || self.r.pct(25) {
            s.auth = Some(Who { key: owner, held: true });
        }
        if s.blockhash.is_none() && self.r.pct(12) {
            s.blockhash = Some(self.hash());
        }
        s
    }
    fn hash(&mut self) -> u64 {
        let now = self.w.ledger.slot;
        let back = if self.r.pct(92) { self.r.range(4, 60) } else { self.r.range(500, 2_000) };
        now.saturating_sub(back)
    }
    fn wrap(&mut self, multi: bool) -> Option<Inv> {
        self.refresh();
        let live = self.r.pct(90);
        let p = self.pair(live)?;
        let (account, owner, bal) = self.holding(&p.unwrapped, multi)?;
        let mut payer = if self.keys.is_person(&owner) && self.r.pct(70) { owner } else { self.user() };
        let has = |g: &Self, u: &Pubkey| g.w.tok(&model::ata(u, &p.wrapped, &p.wprog)).is_some();
        if multi && !has(self, &payer) {
            payer = self.user();
        }
        let mut recipient = if has(self, &payer) && self.r.pct(70) { None } else { self.recipient(&p.wrapped) };
        let uprog = self.w.ledger.owner(&p.unwrapped);
        let amount = self.amount(bal);
        let mut sign = self.signing(owner, payer);
        let mut cmd_mint = self.r.pct(30).then_some(p.unwrapped);
        let mut cmd_uprog = self.r.pct(30).then_some(uprog);
        let (mut account, mut wprog) = (account, p.wprog);
        if self.r.pct(self.odd) {
            match self.r.below(7) {
                0 => account = self.stray(),
                1 => cmd_mint = Some(self.stray()),
                2 => recipient = Some(self.stray()),
                3 => cmd_uprog = Some(*self.r.pick(&[SPL, T22, model::PROGRAM])),
                4 => wprog = *self.r.pick(&[SPL, T22, uprog, key("nobody", 1)]),
                5 => sign.auth = Some(Who { key: self.user(), held: true }),
                _ => {
                    sign.auth = Some(Who { key: owner, held: false });
                }
            }
        }
        let mut inv = self.inv(Cmd::Wrap { account, wprog, amount, mint: cmd_mint, recipient, uprog: cmd_uprog, sign }, payer);
        if self.r.pct(self.odd / 6) {
            inv.payer.held = false;
        }
        Some(inv)
    }
    fn unwrap(&mut self, multi: bool) -> Option<Inv> {
        self.refresh();
        let live = self.r.pct(95);
        let p = self.pair(live)?;
        let (account, owner, bal) = self.holding(&p.wrapped, multi)?;
        let payer = if self.keys.is_person(&owner) && self.r.pct(70) { owner } else { self.user() };
        let mut recipient = self.recipient(&p.unwrapped)?;
        let uprog = self.w.ledger.owner(&p.unwrapped);
        let amount = self.amount(bal);
        let mut sign = self.signing(owner, payer);
        let mut mint = self.r.pct(30).then_some(p.unwrapped);
        let mut wprog = self.r.pct(30).then_some(p.wprog);
        let mut cu = self.r.pct(30).then_some(uprog);
        let mut account = account;
        if self.r.pct(self.odd) {
            match self.r.below(7) {
                0 => account = self.stray(),
                1 => mint = Some(self.stray()),
                2 => recipient = self.stray(),
                3 => cu = Some(*self.r.pick(&[SPL, T22, model::PROGRAM])),
                4 => wprog = Some(*self.r.pick(&[SPL, T22, key("nobody", 1)])),
                5 => sign.auth = Some(Who { key: self.user(), held: true }),
                _ => {
                    sign.auth = Some(Who { key: owner, held: false });
                }
            }
        }
        Some(self.inv(Cmd::Unwrap { account, recipient, amount, mint, wprog, uprog: cu, sign }, payer))
    }
    fn some_mint(&mut self) -> (Pubkey, Pubkey) {
        match self.pair(false) {
            Some(p) if !self.r.pct(10) => (p.unwrapped, p.wprog),
            _ => (self.w.mints[self.r.usize(self.w.mints.len())].key, *self.r.pick(&[SPL, T22])),
        }
    }
    /// A mint wrapped under `wprog`, rather one that has metadata.
    fn synced_mint(&mut self, wprog: Pubkey) -> Pubkey {
        let l = &self.w.ledger;
        let live: Vec<Pubkey> = self.w.pairs.iter().filter(|p| p.wprog == wprog && mint_program(l, &p.wrapped).is_some()).map(|p| p.unwrapped).collect();
        let rich: Vec<Pubkey> = live.iter().copied().filter(|m| match ops::designated_source(&self.w, m).0 {
            None => true,
            Some(s) => l.get(&s).is_some(),
        }).collect();
        if !rich.is_empty() && self.r.pct(75) {
            *self.r.pick(&rich)
        } else if !live.is_empty() && self.r.pct(75) {
            *self.r.pick(&live)
        } else {
            self.some_mint().0
        }
    }
    fn creation(&mut self) -> Inv {
        self.refresh();
        let (mut mint, mut wprog) = self.some_mint();
        let idempotent = self.r.pct(50);
        if self.r.pct(self.odd) {
            if self.r.pct(70) {
                mint = self.stray();
            } else {
                wprog = *self.r.pick(&[key("nobody", 1), SPL, T22]);
            }
        }
        let escrow = match self.prop {
            "C17" => false,
            _ => self.r.pct(50),
        };
        let payer = self.user();
        self.inv(if escrow { Cmd::CreateEscrow { mint, wprog, idempotent } } else { Cmd::CreateMint { mint, wprog, idempotent } }, payer)
    }
    /// A sync that finds the rent it needs.
    async fn sync(&mut self) -> Inv {
        self.refresh();
        let payer = self.user();
        let t22 = self.r.pct(70);
        let wprog = if t22 { T22 } else { SPL };
        let mint = self.synced_mint(wprog);
        let (mut source, owner) = ops::designated_source(&self.w, &mint);
        if t22 && owner.is_none() && self.r.pct(70) {
            source = None;
        }
        let p = Pair::new(0, mint, wprog, 0);
        let (needy, least) = if t22 { (p.wrapped, 150_000_000) } else { (p.auth, 20_000_000) };
        if self.w.ledger.lamports(&needy) < least && self.r.pct(90) {
            self.world_tx("fund the account that grows", vec![solana_system_interface::instruction::transfer(&payer, &needy, least)], payer, vec![payer]);
            self.gap(4_000).await;
        }
        let cmd = if t22 { Cmd::SyncT22 { mint, source, owner } } else { Cmd::SyncSpl { mint, source, owner } };
        let mut i = self.inv(cmd, payer);
        i.dry = self.r.pct(15);
        i
    }
    fn any(&mut self) -> Option<Inv> {
        self.refresh();
        let payer = self.user();
        Some(match self.r.below(14) {
            0..=2 => self.wrap(false)?,
            3..=5 => self.unwrap(false)?,
            6 | 7 => self.creation(),
            8 | 9 => {
                let (mut mint, mut wprog) = self.some_mint();
                let l = &self.w.ledger;
                let stuck = self.w.pairs.iter().find(|p| world::tok(l.data(&p.escrow_t22)).is_some_and(|t| t.amount == 0)
                    && self.w.mints.iter().any(|m| m.key == p.unwrapped && m.recyclable)).map(|p| (p.unwrapped, p.wprog));
                let t22: Vec<(Pubkey, Pubkey)> = self.w.pairs.iter().filter(|p| l.owner(&p.unwrapped) == T22).map(|p| (p.unwrapped, p.wprog)).collect();
                if let (Some(x), true) = (stuck, self.r.pct(60)) {
                    (mint, wprog) = x;
                } else if !t22.is_empty() && self.r.pct(60) {
                    (mint, wprog) = *self.r.pick(&t22);
                }
                if self.r.pct(self.odd / 2) {
                    mint = self.stray();
                }
                let dest = if self.r.pct(85) { self.user() } else { self.stray() };
                self.inv(Cmd::CloseStuck { mint, dest, wprog }, payer)
            }
            10 | 11 => {
                let mut mint = self.synced_mint(T22);
                let (mut source, mut owner) = ops::designated_source(&self.w, &mint);
                if owner.is_none() && self.prop != "C23" && self.r.pct(70) {
                    source = None;
                }
                if self.r.pct(self.odd) {
                    match self.r.below(4) {
                        0 => mint = self.stray(),
                        1 => source = Some(self.stray()),
                        2 => owner = Some(self.stray()),
                        _ => source = None,
                    }
                }
                self.inv(Cmd::SyncT22 { mint, source, owner }, payer)
            }
            12 => {
                let mut mint = self.synced_mint(SPL);
                let (mut source, mut owner) = ops::designated_source(&self.w, &mint);
                if self.r.pct(self.odd) {
                    match self.r.below(4) {
                        0 => mint = self.stray(),
                        1 => source = Some(self.stray()),
                        2 => owner = Some(self.stray()),
                        _ => source = None,
                    }
                }
                // the new metadata account's rent is the wrapped mint authority's
                let p = Pair::new(0, mint, SPL, 0);
                if self.w.ledger.lamports(&p.auth) < 20_000_000 && self.r.pct(80) {
                    self.world_tx("fund the wrapped mint authority", vec![solana_system_interface::instruction::transfer(&payer, &p.auth, 40_000_000)], payer, vec![payer]);
                }
                self.inv(Cmd::SyncSpl { mint, source, owner }, payer)
            }
            _ => {
                let (mut mint, wprog) = self.some_mint();
                if self.r.pct(self.odd) {
                    mint = self.stray();
                }
                self.inv(Cmd::FindPdas { mint, wprog }, payer)
            }
        })
    }

    /// Signing without a network: every signer on its own, then one broadcast.
    async fn offline(&mut self) {
        let mut found = None;
        for _ in 0..5 {
            let unwrap = self.r.pct(45);
            let multi = self.r.pct(75);
            found = if unwrap { self.unwrap(multi) } else { self.wrap(multi) };
            if found.is_some() {
                break;
            }
        }
        let Some(mut base) = found else { return };
        base.kill = None;
        let hash = self.hash();
        let js = self.prop == "C23";
        let payer = base.payer.key;
        let fix = |base: &mut Inv, f: &mut dyn FnMut(&mut Signing)| match &mut base.cmd {
            Cmd::Wrap { sign, .. } | Cmd::Unwrap { sign, .. } => f(sign),
            _ => {}
        };
        // all addresses given, so that every run describes the same transaction
        if let Cmd::Wrap { account, recipient, mint, uprog, wprog, .. } = &mut base.cmd {
            if let Some(t) = self.w.tok(account) {
                if self.r.pct(80) {
                    *mint = Some(t.mint);
                    *uprog = Some(self.w.ledger.owner(account));
                }
                if recipient.is_none() {
                    let wm = model::wrapped_mint(&t.mint, wprog).0;
                    *recipient = Some(model::ata(&payer, &wm, wprog));
                }
            }
        }
        if js {
            fix(&mut base, &mut |s| {
                s.blockhash = Some(hash);
                s.sign_only = true;
            });
            let Some(b) = self.in_js(base) else { return };
            base = b;
            fix(&mut base, &mut |s| s.sign_only = false);
        }
        let mut signers: Vec<Pubkey> = vec![];
        fix(&mut base, &mut |s| {
            s.blockhash = Some(hash);
            for m in &mut s.multi {
                m.held = false;
                signers.push(m.key);
            }
            if s.multi.is_empty() {
                if let Some(a) = &mut s.auth {
                    a.held = false;
                    if a.key != payer {
                        signers.push(a.key);
                    }
                }
            }
        });
        if signers.is_empty() || signers.iter().any(|k| !self.keys.is_person(k)) {
            return;
        }
        // the fee payer may be offline, too
        let away = self.r.pct(30);
        if away {
            signers.push(payer);
        }
        signers.sort();
        signers.dedup();
        self.r.shuffle(&mut signers);
        let mut pre = vec![];
        let tamper = self.r.pct(12).then(|| self.r.usize(signers.len()));
        let skip = self.r.pct(20).then(|| self.r.usize(signers.len()));
        let last = self.r.pct(30).then(|| self.r.usize(signers.len()));
        for (i, k) in signers.iter().enumerate() {
            if skip == Some(i) || last == Some(i) {
                continue;
            }
            let mut one = base.clone();
            one.payer.held = payer == *k || self.r.pct(15);
            if !js {
                one.output = self.r.pick(&["", "json", "json-compact", "-v"]).to_string();
            }
            fix(&mut one, &mut |s| {
                s.sign_only = true;
                for m in &mut s.multi {
                    m.held |= m.key == *k;
                }
                if let Some(a) = &mut s.auth {
                    a.held |= a.key == *k;
                }
            });
            if tamper == Some(i) {
                let x = self.r.below(3);
                let other = self.stray();
                match &mut one.cmd {
                    Cmd::Wrap { amount, recipient, .. } => {
                        if x == 0 { *recipient = Some(other) } else { *amount = amount.wrapping_add(1) }
                    }
                    Cmd::Unwrap { amount, .. } => *amount = amount.wrapping_add(1),
                    _ => {}
                }
                if x == 2 {
                    fix(&mut one, &mut |s| s.blockhash = Some(hash + 1));
                }
            }
            let id = self.cli(one);
            if self.r.pct(50) {
                self.settle().await;
            }
            pre.push(Presigned { step: id, key: *k });
        }
        self.settle().await;
        let g = self.r.range(0, 9_000);
        self.gap(g).await;
        let mut fin = base.clone();
        fin.payer.held = !away || last.is_some_and(|i| signers[i] == payer) || self.r.pct(20);
        self.r.shuffle(&mut pre);
        if self.r.pct(6) && !pre.is_empty() {
            let x = pre[0];
            pre.push(x);
        }
        fix(&mut fin, &mut |s| {
            s.presigned = pre.clone();
            if let Some(i) = last {
                for m in &mut s.multi {
                    m.held |= m.key == signers[i];
                }
                if let Some(a) = &mut s.auth {
                    a.held |= a.key == signers[i];
                }
            }
        });
        let times = if self.r.pct(25) { 2 } else { 1 };
        for _ in 0..times {
            let mut f = fin.clone();
            f.kill = self.r.pct(self.kill).then(|| self.r.range(20, 5_000));
            self.cli(f);
            if self.r.pct(50) {
                self.settle().await;
            } else {
                let g = self.r.range(0, 1_500);
                self.gap(g).await;
            }
        }
    }

    /// Lamports somebody sends to an address the command will use.
    fn dust(&mut self, p: &Pair) {
        let u = self.w.ledger.owner(&p.unwrapped);
        let (a, b) = Inv::create_mint_rent(&self.w.ledger, &p.wprog);
        let x = self.r.below(3);
        let (k, need) = match x {
            0 => (p.wrapped, a),
            1 => (p.backptr, b),
            _ => (p.escrow(&u), 2_039_280),
        };
        if x == 2 && self.prop == "C17" {
            return;
        }
        // the balance stays rent exempt
        let have = self.w.ledger.lamports(&k);
        let want = *self.r.pick(&[890_880, need - 1, need, need + 1, 890_880 + (need - 890_880) / 2, need * 2]);
        if want <= have {
            return;
        }
        let f = self.user();
        self.world_tx(&format!("dust {}", self.w.name(&k)), vec![solana_system_interface::instruction::transfer(&f, &k, want - have)], f, vec![f]);
    }
    fn rival(&mut self, p: &Pair, escrow: bool) {
        let f = self.user();
        let u = self.w.ledger.owner(&p.unwrapped);
        let rent = Inv::create_mint_rent(&self.w.ledger, &p.wprog);
        if escrow {
            self.world_tx("somebody creates the escrow", vec![world::ata_ix(&f, &p.auth, &p.unwrapped, &u, true)], f, vec![f]);
        } else {
            use solana_system_interface::instruction::transfer;
            self.world_tx("somebody creates the pair", vec![
                transfer(&f, &p.wrapped, rent.0), transfer(&f, &p.backptr, rent.1), ops::canon_create(p, true)], f, vec![f]);
        }
    }

    /// The owner burns what a running command wants to move.
    fn spend(&mut self, i: &Inv) {
        let (Cmd::Wrap { account, amount, .. } | Cmd::Unwrap { account, amount, .. }) = &i.cmd else { return };
        self.refresh();
        let Some(t) = self.w.tok(account) else { return };
        let prog = self.w.ledger.owner(account);
        if !self.keys.is_person(&t.owner) || t.amount < *amount || *amount == 0 {
            return;
        }
        let ix = spl_token_2022_interface::instruction::burn(&prog, account, &t.mint, &t.owner, &[], t.amount - amount + 1);
        if let Ok(ix) = ix {
            self.world_tx("the owner burns tokens", vec![ix], t.owner, vec![t.owner]);
        }
    }

    async fn script(&mut self) {
        match self.prop {
            "C16" => {
                let n = self.r.range(1, 4);
                for _ in 0..n {
                    let inv = if self.r.pct(55) { self.wrap(false) } else { self.unwrap(false) };
                    if let Some(i) = inv {
                        let spend = self.r.pct(12).then(|| i.clone());
                        self.cli(i);
                        if let Some(i) = spend {
                            let g = self.r.range(0, 2_500);
                            self.gap(g).await;
                            self.spend(&i);
                        }
                    }
                    self.churn(&[Op::Wrap, Op::Unwrap, Op::Transfer, Op::Approve, Op::Burn, Op::SetFee, Op::Freeze, Op::Thaw, Op::Pause, Op::MintMore]).await;
                }
            }
            "C17" => {
                let n = self.r.range(1, 4);
                for _ in 0..n {
                    let i = self.creation();
                    let p = i.cmd.pair().unwrap();
                    for _ in 0..2 {
                        if self.r.pct(45) {
                            self.dust(&p);
                        }
                    }
                    if self.r.pct(60) {
                        self.gap(3_000).await;
                    }
                    self.cli(i);
                    let g = self.r.range(0, 1_500);
                    self.gap(g).await;
                    if self.r.pct(20) {
                        self.dust(&p);
                    }
                    if self.r.pct(4) {
                        self.cheaper_rent();
                    }
                    if self.r.pct(15) {
                        self.rival(&p, false);
                    }
                    if self.r.pct(60) {
                        self.settle().await;
                    }
                }
            }
            "C18" => {
                let n = self.r.range(1, 4);
                for _ in 0..n {
                    if let Some(mut i) = self.any() {
                        i.dry = self.r.pct(85);
                        self.cli(i);
                    }
                    self.churn(&[Op::Wrap, Op::Transfer, Op::Freeze, Op::Create, Op::Dust]).await;
                }
            }
            "C19" => {
                self.refresh();
                let Some(p) = self.pair(false) else { return };
                let escrow = self.r.pct(50);
                let n = self.r.range(1, 3);
                for _ in 0..n {
                    if self.r.pct(35) {
                        self.dust(&p);
                    }
                    if self.r.pct(20) {
                        self.gap(3_000).await;
                    }
                    let idempotent = self.r.pct(75);
                    let (mint, wprog) = (p.unwrapped, p.wprog);
                    let payer = self.user();
                    let i = self.inv(if escrow { Cmd::CreateEscrow { mint, wprog, idempotent } } else { Cmd::CreateMint { mint, wprog, idempotent } }, payer);
                    self.cli(i);
                    let g = self.r.range(0, 900);
                    self.gap(g).await;
                    if self.r.pct(25) {
                        self.rival(&p, escrow);
                    }
                    if self.r.pct(30) {
                        self.settle().await;
                    }
                }
                self.settle().await;
                self.quiet();
                self.gap(200_000).await;
                let (mint, wprog) = (p.unwrapped, p.wprog);
                let payer = self.user();
                let mut i = self.inv(if escrow { Cmd::CreateEscrow { mint, wprog, idempotent: true } } else { Cmd::CreateMint { mint, wprog, idempotent: true } }, payer);
                i.kill = None;
                self.cli(i);
                self.settle().await;
            }
            "C20" => {
                let n = self.r.range(1, 5);
                for _ in 0..n {
                    if let Some(i) = self.any() {
                        self.cli(i);
                    }
                    self.settle().await;
                    if self.r.pct(40) {
                        let op = *self.r.pick(&[Op::Wrap, Op::EditMeta, Op::MovePointer, Op::SetFee, Op::Escrow, Op::Create]);
                        self.world_op(op);
                    }
                    self.gap(3_000).await;
                }
            }
            "C25" => {
                let n = self.r.range(1, 5);
                for _ in 0..n {
                    let i = if self.r.pct(70) { Some(self.sync().await) } else { self.any() };
                    if let Some(i) = i {
                        self.cli(i);
                    }
                    self.settle().await;
                    if self.r.pct(50) {
                        let op = *self.r.pick(&[Op::EditMeta, Op::EditMeta, Op::EditMeta, Op::MovePointer, Op::SetFee, Op::Create]);
                        self.world_op(op);
                    }
                    self.gap(3_000).await;
                }
            }
            "C23" => {
                let n = self.r.range(1, 4);
                for _ in 0..n {
                    if self.r.pct(22) {
                        self.offline().await;
                    } else {
                        let i = if self.r.pct(20) { Some(self.creation()) } else { self.any() };
                        let Some(i) = i else { continue };
                        let Some(i) = self.in_js(i) else { continue };
                        if let (true, Some(p)) = (self.r.pct(25), i.cmd.pair()) {
                            self.dust(&p);
                            if self.r.pct(70) {
                                self.gap(3_000).await;
                            }
                        }
                        self.cli(i);
                    }
                    self.churn(&[Op::Wrap, Op::Transfer, Op::Freeze, Op::Create, Op::Dust, Op::Escrow, Op::EditMeta, Op::SetFee]).await;
                }
            }
            _ => {
                let n = self.r.range(1, 2);
                for _ in 0..n {
                    self.offline().await;
                    self.churn(&[Op::Wrap, Op::Transfer]).await;
                }
            }
        }
        self.settle().await;
        self.quiet();
        // everything still on its way arrives or expires
        self.gap(200_000).await;
    }
    /// The world moves on between commands.
    /// The cluster lowers its rent while commands are under way.
    fn cheaper_rent(&mut self) {
        self.refresh();
        let rate = self.w.ledger.rate();
        if rate > 10 {
            let by = *self.r.pick(&[2, 10]);
            self.world(Event::Rent(rate / by));
        }
    }
    async fn churn(&mut self, list: &[Op]) {
        match self.r.below(4) {
            0 => {}
            1 => {
                let g = self.r.range(0, 2_000);
                self.gap(g).await;
                if self.r.pct(6) {
                    self.cheaper_rent();
                } else {
                    let op = *self.r.pick(list);
                    self.world_op(op);
                }
            }
            2 => {
                let g = self.r.range(0, 3_000);
                self.gap(g).await;
            }
            _ => {
                self.settle().await;
                let g = self.r.range(0, 5_000);
                self.gap(g).await;
            }
        }
    }
}

// ------------------------------------------------------------- oracles

/// `PUBKEY=SIGNATURE` words in a text.
pub fn printed_signatures(t: &str) -> Vec<(Pubkey, String)> {
    t.split(|c: char| !(c.is_ascii_alphanumeric() || c == '='))
        .filter_map(|w| {
            let (a, b) = w.split_once('=')?;
            let k: Pubkey = a.parse().ok()?;
            b.parse::<solana_signature::Signature>().ok()?;
            Some((k, b.to_string()))
        })
        .collect()
}
fn printed_message(t: &str) -> Option<Message> {
    use base64::Engine as _;
    t.split(|c: char| !(c.is_ascii_alphanumeric() || "+/=".contains(c)))
        .filter(|w| w.len() > 120)
        .filter_map(|w| base64::engine::general_purpose::STANDARD.decode(w).ok())
        .find_map(|b| bincode::deserialize::<Message>(&b).ok())
}

struct Judge<'a> {
    st: &'a State,
    steps: &'a [Step],
    model: &'a mut Engine,
    real: &'a mut Engine,
    metered: bool,
    names: &'a BTreeMap<Pubkey, String>,
    stats: Stats,
    log: Vec<String>,
}

fn tags(inv: &Inv) -> Vec<&'static str> {
    if inv.dry {
        return vec!["C18"];
    }
    let mut v = match &inv.cmd {
        Cmd::Wrap { .. } | Cmd::Unwrap { .. } => vec!["C16", "C20"],
        Cmd::CreateMint { .. } => vec!["C17", "C19", "C20"],
        Cmd::CreateEscrow { .. } => vec!["C19", "C20"],
        _ => vec!["C20"],
    };
    if inv.cmd.sign().is_some_and(|s| s.sign_only || !s.presigned.is_empty() || !s.multi.is_empty()) {
        v.push("C21");
    }
    v
}

impl Judge<'_> {
    fn run_model(&mut self, on: &Ledger, slot: u64, inv: &Inv, ixs: &[solana_instruction::Instruction], signers: Vec<Pubkey>) -> (bool, Ledger) {
        self.run_on(false, on, slot, inv, ixs, signers)
    }
    /// Executes `ixs` with the reference program, or with the real one.
    fn run_on(&mut self, real: bool, on: &Ledger, slot: u64, inv: &Inv, ixs: &[solana_instruction::Instruction], signers: Vec<Pubkey>) -> (bool, Ledger) {
        let mut l = on.clone();
        l.slot = slot;
        let tx = Tx { ixs: ixs.to_vec(), payer: inv.payer.key, signers, crash: CrashPoint::None, cu_limit: 1_400_000 };
        let x = l.run(if real { &mut *self.real } else { &mut *self.model }, &tx);
        l.commit(&x);
        (x.verdict == Verdict::Ok, l)
    }
    fn inv(&self, id: usize) -> Option<&Inv> {
        self.steps.iter().find(|s| s.id == id).and_then(|s| match &s.act {
            Act::Cli(i) => Some(i),
            _ => None,
        })
    }
    /// Signatures an invocation can muster.
    fn effective(&self, inv: &Inv) -> (Vec<Pubkey>, bool) {
        let mut v = inv.held();
        let mut sound = true;
        if let Some(s) = inv.cmd.sign() {
            for p in &s.presigned {
                let printed = self.st.out.get(&p.step).and_then(|o| o.result.as_ref()?.as_ref().ok()).map(|t| printed_signatures(t));
                if inv.js {
                    // a whole partially signed transaction is handed over
                    let Some(all) = printed else { continue };
                    if self.inv(p.step).is_some_and(|o| o.same_request(inv)) {
                        v.extend(all.iter().map(|(k, _)| *k));
                    } else {
                        sound = false;
                    }
                    continue;
                }
                let ok = self.inv(p.step).is_some_and(|o| o.same_request(inv) && o.cmd.sign_only())
                    && self.st.out.get(&p.step).is_some_and(|o| {
                        o.result.as_ref().and_then(|r| r.as_ref().ok()).is_some_and(|t| printed_signatures(t).iter().any(|(k, _)| *k == p.key))
                    });
                if ok && inv.required().contains(&p.key) {
                    v.push(p.key);
                } else {
                    sound = false;
                }
            }
        }
        v.sort();
        v.dedup();
        (v, sound)
    }
    fn diff(&self, a: &Ledger, b: &Ledger) -> String {
        let keys: BTreeSet<&Pubkey> = a.accounts.keys().chain(b.accounts.keys()).collect();
        let mut v = vec![];
        for k in keys {
            let (x, y) = (a.get(k), b.get(k));
            if x != y {
                let n = self.names.get(k).cloned().unwrap_or_else(|| k.to_string()[..8].to_string());
                let what = match (x, y) {
                    (Some(x), Some(y)) if x.lamports != y.lamports => format!("{} lamports instead of {}", x.lamports, y.lamports),
                    (Some(_), Some(_)) => "different content".into(),
                    (None, _) => "missing".into(),
                    _ => "should not exist".into(),
                };
                v.push(format!("{n}: {what}"));
            }
        }
        v.join("; ")
    }

    fn judge(&mut self) -> Vec<Violation> {
        let mut out = vec![];
        for s in self.steps {
            let Act::Cli(inv) = &s.act else { continue };
            let Some(o) = self.st.out.get(&s.id) else { continue };
            let before = out.len();
            self.one(s.id, inv, o, &mut out);
            if inv.js {
                for v in &mut out[before..] {
                    v.props = vec!["C23"];
                }
            }
            if self.metered {
                for v in &mut out[before..] {
                    v.props.push("C25");
                }
            }
            let note = match &o.result {
                Some(Ok(_)) => "ok".to_string(),
                Some(Err(e)) => format!("error: {}", e.lines().next().unwrap_or("").chars().take(160).collect::<String>()),
                None => "killed".into(),
            };
            self.log.push(format!("{:>7} ms  #{} {} -> {}", o.start, s.id, inv.show(self.names), note));
            for q in &o.reqs {
                if q.fault != Fault::None {
                    self.log.push(format!("{:>7} ms      request {} {}: {}", q.ms, q.n, q.method, q.fault.name()));
                }
            }
            if out.len() > before {
                self.log.push(format!("            ^^ {}", out[before].class));
            }
        }
        out
    }

    fn one(&mut self, id: usize, inv: &Inv, o: &Outcome, out: &mut Vec<Violation>) {
        let st = self.st;
        let mut bad = |props: Vec<&'static str>, class: &str, detail: String| {
            out.push(Violation { class: class.into(), detail: format!("#{id} {}: {detail}", inv.cmd.kind()), props })
        };
        let sent: Vec<&Req> = o.reqs.iter().filter(|r| r.method == "sendTransaction").collect();
        let ok = matches!(o.result, Some(Ok(_)));
        let text = match &o.result {
            Some(Ok(t)) => t.clone(),
            _ => String::new(),
        };
        let errtext = match &o.result {
            Some(Err(e)) => e.clone(),
            _ => String::new(),
        };
        let excuse = o.killed
            || o.end.saturating_sub(o.start) > 45_000
            || o.reqs.iter().any(|r| r.fault.excuses_failure());
        let excuse = excuse || inv.js && o.reqs.iter().any(|r| !matches!(r.fault, Fault::None | Fault::Slow(_) | Fault::Twice | Fault::Retried(_)));
        // --- bookkeeping
        self.stats.invocations += 1;
        self.stats.requests += o.reqs.len() as u64;
        if o.killed {
            self.stats.killed += 1;
        } else if ok {
            self.stats.ok += 1;
        } else {
            self.stats.err += 1;
        }
        self.stats.panicked += o.panicked as u64;
        let c = self.stats.commands.entry(inv.cmd.kind()).or_default();
        c.0 += 1;
        c.1 += ok as u64;

        if let Some(d) = &o.js {
            if d.get("missing").is_some() {
                // the client uses a library function the stand-in lacks: no verdict
                self.stats.missing += 1;
                return;
            }
            if let Some(b) = d["ok"]["bad"].as_str() {
                bad(vec!["C23"], "an instruction or account does not read back", b.into());
                return;
            }
            if let (Some(c), Some(n)) = (d["err"]["code"].as_u64(), d["err"]["name"].as_str()) {
                let e = u32::try_from(c).ok().and_then(|c| spl_token_wrap::error::TokenWrapError::try_from(c).ok());
                let e = e.map(|e| shout(&format!("{e:?}")));
                if e.as_deref() != Some(n) {
                    bad(vec!["C23"], "the client misnames an error", format!("{c} is {e:?}, not {n}"));
                    return;
                }
                self.stats.named += 1;
            }
            for (n, c) in d["ok"]["errors"].as_object().into_iter().flatten() {
                let real = (0..64).find(|i| spl_token_wrap::error::TokenWrapError::try_from(*i).is_ok_and(|e| shout(&format!("{e:?}")) == *n));
                if real.is_some_and(|i| Some(i as u64) != c.as_u64()) {
                    bad(vec!["C23"], "the client misnames an error", format!("{n} is {real:?}, not {c}"));
                    return;
                }
            }
        }

        // two invocations may submit the very same signed transaction, which lands once
        let mine: BTreeSet<_> = sent.iter().filter_map(|r| r.tx.as_ref()).filter_map(|t| t.signatures.first().copied()).collect();
        let landed: Vec<&Landing> = st.chain.landings.iter().filter(|l| mine.contains(&l.sig)).collect();
        let good: Vec<&&Landing> = landed.iter().filter(|l| l.verdict == Verdict::Ok).collect();

        // --- commands that must not touch the chain
        if inv.dry || inv.cmd.sign_only() {
            let p = if inv.cmd.sign_only() { vec!["C21"] } else { vec!["C18"] };
            if !sent.is_empty() || !landed.is_empty() {
                bad(p, if inv.dry { "a dry run submitted a transaction" } else { "a sign-only run submitted a transaction" }, String::new());
                return;
            }
        }
        // --- at most once
        if good.len() > 1 {
            bad(tags(inv), "one invocation took effect twice", format!("{} transactions succeeded", good.len()));
            return;
        }
        // --- truthful success
        let served: Vec<Rc<Ledger>> = {
            let mut v: Vec<Rc<Ledger>> = vec![];
            for r in o.reqs.iter().filter(|r| !r.balances.is_empty()) {
                if let Some(s) = &r.state {
                    if !v.iter().any(|x| Rc::ptr_eq(x, s)) {
                        v.push(s.clone());
                    }
                }
            }
            v
        };
        let idle = |w: &Want| matches!(w, Want::Done | Want::Sign(_));
        let mut states = served.clone();
        states.push(st.chain.at(st.chain.slot_at(o.start)));
        if ok && !inv.dry && !inv.cmd.sign_only() && good.is_empty() {
            let noop = states.iter().any(|s| idle(&inv.want(s)));
            // solana-rpc-client counts a transaction that succeeded in an abandoned
            // fork and failed when it landed again as a success
            let relanded = mine.iter().any(|s| st.chain.was_forked(s));
            if !noop && !relanded {
                bad(tags(inv), "success reported without effect", format!("{} transactions landed, none succeeded", landed.len()));
                return;
            }
        }
        if let Some(l) = good.first() {
            if ok && l.ms > o.end {
                bad(tags(inv), "success reported before it happened", format!("landed at {} ms, reported at {} ms", l.ms, o.end));
                return;
            }
            // the effect is the one asked for
            let mut cands: Vec<Vec<solana_instruction::Instruction>> = vec![];
            let mut all = served.clone();
            all.push(l.before.clone());
            if let Cmd::CreateMint { .. } = inv.cmd {
                let p = inv.cmd.pair().unwrap();
                let told = |k: &Pubkey| -> BTreeSet<u64> {
                    o.reqs.iter().filter(|r| r.delivered && !r.errored).flat_map(|r| r.balances.iter()).filter(|(x, _)| x == k).map(|(_, b)| *b).collect()
                };
                // the rent, too, is what the client was told
                let rents = |len: usize, own: u64| -> BTreeSet<u64> {
                    o.reqs.iter().filter(|r| r.delivered && !r.errored).filter_map(|r| r.rent).filter(|(n, _)| *n == len).map(|(_, b)| b)
                        .chain([own]).collect()
                };
                let own = Inv::create_mint_rent(&l.before, &p.wprog);
                let space = ops::wrapped_space(&p.wprog, Variant::Default);
                for a in told(&p.wrapped) {
                    for b in told(&p.backptr) {
                        for x in rents(space, own.0) {
                            for y in rents(32, own.1) {
                                cands.push(inv.create_mint_ixs((x, y), (a, b)));
                            }
                        }
                    }
                }
            } else {
                for s in &all {
                    if let Want::Tx(ixs) = inv.want(s) {
                        if !cands.contains(&ixs) {
                            cands.push(ixs);
                        }
                    }
                }
            }
            self.stats.raced_ok += 1;
            let mut why = String::from("the command should have refused");
            let mut fine = false;
            for ixs in &cands {
                let (v, after) = self.run_model(&l.before, l.slot, inv, ixs, l.tx.signers.clone());
                if v && after.accounts == l.after.accounts {
                    fine = true;
                    break;
                }
                why = if v { self.diff(&l.after, &after) } else { "the request should have failed on this ledger".into() };
            }
            if !fine {
                bad(tags(inv), "effect differs from the request", why);
                return;
            }
            // refused as a duplicate: an identical earlier invocation's success
            let accepted = sent.iter().any(|r| r.delivered && !r.errored);
            if !ok && !excuse && accepted {
                bad(tags(inv), "failure reported although the request succeeded", errtext);
                return;
            }
            if ok && !inv.output.eq("quiet") && !shows_signature(&text, &l.sig) {
                bad(tags(inv), "output lacks the signature of the transaction", String::new());
                return;
            }
        }
        // --- balances learned before money moves
        if let Cmd::CreateMint { .. } = inv.cmd {
            let p = inv.cmd.pair().unwrap();
            let act = o.reqs.iter().find(|r| r.tx.is_some());
            if let Some(a) = act {
                for (k, n) in [(p.wrapped, "wrapped mint"), (p.backptr, "back pointer")] {
                    let known = o.reqs.iter().filter(|r| r.n < a.n && r.delivered && !r.errored && r.balances.iter().any(|(x, _)| *x == k)).count();
                    if known == 0 {
                        bad(vec!["C17"], "funded on a guess", format!("sent a transaction without having learned the balance of the {n} address"));
                        return;
                    }
                }
            }
        }
        // --- dry runs tell the truth
        if inv.dry && !inv.cmd.sign_only() {
            let sim = o.reqs.iter().rev().find(|r| r.sim_err.is_some() && r.delivered);
            let said = o.stdout.to_lowercase().contains("simulation succeeded");
            match sim.map(|r| r.sim_err.unwrap()) {
                Some(true) if ok || said => {
                    bad(vec!["C18"], "dry run reports success of a failing transaction", o.stdout.lines().last().unwrap_or("").to_string());
                    return;
                }
                Some(false) if !ok && !excuse => {
                    bad(vec!["C18"], "dry run reports failure of a working transaction", errtext);
                    return;
                }
                None if ok && !states.iter().any(|s| idle(&inv.want(s))) => {
                    bad(vec!["C18"], "dry run reports success without simulating", String::new());
                    return;
                }
                _ => {}
            }
        }
        if o.panicked && inv.dry {
            bad(vec!["C18"], "dry run crashed", errtext);
            return;
        }
        // --- offline signing
        if inv.cmd.sign_only() && ok {
            self.stats.offline += 1;
            let vague = states.iter().any(|s| matches!(inv.want(s), Want::Unspecified));
            if let Some((class, detail)) = if vague { None } else { self.signed_output(inv, &states, &text) } {
                bad(vec!["C21"], class, detail);
                return;
            }
        }
        // --- existing accounts and idempotent creation
        // (the cluster refuses a transaction it has seen: same payer, same request,
        // same blockhash as an earlier invocation)
        let duplicate = !sent.is_empty() && !landed.is_empty() && sent.iter().all(|r| r.errored);
        let lag = st.chain.confirm_lag + 70;
        let window = st.chain.states(st.chain.slot_at(o.start), st.chain.slot_at(o.end));
        if inv.cmd.idempotent() && !inv.dry && !o.killed && !ok {
            let harmless = o.reqs.iter().all(|r| match r.fault {
                Fault::None | Fault::Slow(_) | Fault::Twice | Fault::Retried(_) => true,
                Fault::Stale(_) => matches!(r.method.as_str(), "getAccountInfo" | "getMultipleAccounts" | "getBalance"),
                _ => false,
            })
                && o.end - o.start < 45_000;
            if harmless && !duplicate && inv.payer.held {
                let mut all = st.chain.states(st.chain.slot_at(o.start).saturating_sub(lag), st.chain.slot_at(o.end));
                all.extend(served.iter().cloned());
                let slot = st.chain.slot_at(o.end);
                let fine = all.iter().all(|s| match inv.want(s) {
                    Want::Done => true,
                    Want::Tx(ixs) => self.run_model(s, slot, inv, &ixs, inv.required()).0,
                    _ => false,
                });
                if fine {
                    bad(vec!["C19"], "idempotent command failed although it only met a race", errtext);
                    return;
                }
            }
        }
        // --- nothing else going on: the result is fully determined
        let s0 = st.chain.slot_at(o.start);
        let s1 = st.chain.slot_at(o.end);
        let still = st.chain.snaps.iter().skip(1).all(|(s, l)| {
            *s + st.chain.confirm_lag + 2 < s0 || *s > s1
                || landed.iter().any(|x| Rc::ptr_eq(&x.after, l))
        });
        // (the rent is asked at the finalized commitment, further back)
        let still = still && st.chain.states(s0.saturating_sub(lag), s1).iter().all(|l| l.rate() == window[0].rate());
        if excuse || !still || duplicate {
            self.stats.raced += 1;
            return;
        }
        let start = window[0].clone();
        // taken before anything of this invocation
        let start = landed.first().map_or(start, |l| l.before.clone());
        self.stats.exact += 1;
        let (eff, sound) = self.effective(inv);
        let required = inv.required();
        let sign = inv.cmd.sign();
        let sent_ok = match sign {
            Some(s) if (!s.multi.is_empty() || !s.presigned.is_empty()) && s.blockhash.is_none() => Some("options need a blockhash"),
            Some(_) if !sound => Some("a signature does not belong to this transaction"),
            _ => None,
        };
        let want = inv.want(&start);
        let slot = landed.first().map_or(s1, |l| l.slot);
        let fresh = sign.and_then(|s| s.blockhash).is_none_or(|b| st.chain.hash_valid(&blockhash(b), s0) && st.chain.hash_valid(&blockhash(b), slot));
        let expect: Result<Option<Ledger>, &'static str> = match (&want, sent_ok) {
            (_, Some(e)) => Err(e),
            (Want::Refuse(e), _) => Err(e),
            (Want::Done | Want::Sign(_), _) => Ok(None),
            (Want::Unspecified, _) => return,
            (Want::Tx(ixs), _) => {
                if !fresh {
                    Err("the blockhash has expired")
                } else if inv.dry {
                    let (v, _) = self.run_model(&start, slot, inv, ixs, required.clone());
                    if v { Ok(None) } else { Err("the transaction fails") }
                } else if required.iter().any(|k| !eff.contains(k)) {
                    Err("signatures are missing")
                } else {
                    let (v, l) = self.run_model(&start, slot, inv, ixs, required.clone());
                    if v { Ok(Some(l)) } else { Err("the transaction fails") }
                }
            }
        };
        // a key whose signature cannot be made may be refused early, even dry
        // (nor is the command to blame when the program itself refuses)
        let strict = match &want {
            // (with room for what a client may add)
            Want::Tx(ixs) | Want::Sign(ixs) if wire_size(ixs, &inv.payer.key) + 64 > host::PACKET => false,
            Want::Tx(ixs) if expect.is_ok() => self.run_on(true, &start, slot, inv, ixs, required.clone()).0,
            _ => true,
        } && !(inv.dry && required.iter().any(|k| !eff.contains(k)));
        match expect {
            Err(e) => {
                if ok {
                    bad(tags(inv), "accepted what it should refuse", e.into());
                } else if !good.is_empty() {
                    bad(tags(inv), "took effect although it should refuse", e.into());
                }
            }
            Ok(after) => {
                if !ok {
                    if strict {
                        bad(tags(inv), "refused a valid request", errtext);
                    }
                    return;
                }
                self.stats.exact_ok += 1;
                if sign.is_some_and(|s| !s.presigned.is_empty()) {
                    self.stats.offline_ok += 1;
                }
                if after.is_some() && good.is_empty() {
                    bad(tags(inv), "success reported without effect", String::new());
                    return;
                }
                if after.is_none() && !landed.is_empty() {
                    bad(tags(inv), "changed the chain although there was nothing to do", String::new());
                    return;
                }
                if let Some((f, e)) = wrong_output(inv, &start, &text) {
                    bad(vec!["C20", "C17"], "wrong output", format!("{f} should be {e}"));
                }
            }
        }
    }

    fn signed_output(&mut self, inv: &Inv, states: &[Rc<Ledger>], text: &str) -> Option<(&'static str, String)> {
        let Some(m) = printed_message(text) else {
            return Some(("sign-only output lacks the transaction", String::new()));
        };
        let n = m.header.num_required_signatures as usize;
        let signers: BTreeSet<Pubkey> = m.account_keys[..n].iter().copied().collect();
        let need: BTreeSet<Pubkey> = inv.required().into_iter().collect();
        if signers != need {
            return Some(("signed transaction needs other signatures than the request", String::new()));
        }
        let ixs: Vec<(Pubkey, Vec<Pubkey>, Vec<u8>)> = m.instructions.iter().map(|c| (
            m.account_keys[c.program_id_index as usize],
            c.accounts.iter().map(|i| m.account_keys[*i as usize]).collect(),
            c.data.clone(),
        )).collect();
        let same = states.iter().any(|s| match inv.want(s) {
            Want::Sign(w) => w.iter().map(|i| (i.program_id, i.accounts.iter().map(|a| a.pubkey).collect(), i.data.clone())).collect::<Vec<_>>() == ixs,
            _ => false,
        });
        if !same {
            return Some(("signed transaction differs from the request", String::new()));
        }
        let b = inv.cmd.sign().and_then(|s| s.blockhash);
        if b.is_some_and(|b| blockhash(b) != m.recent_blockhash) {
            return Some(("signed transaction names another blockhash", String::new()));
        }
        let bytes = m.serialize();
        let (have, _) = self.effective(inv);
        let printed = printed_signatures(text);
        for k in &have {
            if !printed.iter().any(|(p, s)| p == k && s.parse::<solana_signature::Signature>().is_ok_and(|s| s.verify(k.as_ref(), &bytes))) {
                return Some(("a signature is missing from the output", k.to_string()));
            }
        }
        for (k, s) in &printed {
            let s: solana_signature::Signature = s.parse().unwrap();
            if !need.contains(k) || !s.verify(k.as_ref(), &bytes) {
                return Some(("the output shows an invalid signature", k.to_string()));
            }
        }
        for k in &need {
            if !have.contains(k) && !text.contains(&k.to_string()) {
                return Some(("an absent signer is not listed", k.to_string()));
            }
        }
        None
    }

    /// Accounts after everything settled, against one lone run at the start.
    fn creation_result(&mut self, first: &Ledger) -> Option<Violation> {
        let inv = self.steps.iter().rev().find_map(|s| match &s.act {
            Act::Cli(i) if i.cmd.idempotent() && !i.dry => Some(i.clone()),
            _ => None,
        })?;
        // somebody has to have got through
        let done = |s: &Step| matches!(&s.act, Act::Cli(i) if i.cmd == inv.cmd && !i.dry)
            && self.st.out.get(&s.id).is_some_and(|o| matches!(o.result, Some(Ok(_))));
        if !self.steps.iter().any(done) {
            return None;
        }
        let p = inv.cmd.pair()?;
        let u = mint_program(first, &p.unwrapped)?;
        self.stats.reruns += 1;
        let one = match inv.want(first) {
            Want::Done => first.clone(),
            Want::Tx(ixs) => {
                let (v, l) = self.run_model(first, first.slot, &inv, &ixs, inv.required());
                if !v {
                    return None;
                }
                l
            }
            _ => return None,
        };
        let head = self.st.chain.head();
        let ks = match inv.cmd {
            Cmd::CreateMint { .. } => vec![p.wrapped, p.backptr],
            _ => vec![p.escrow(&u)],
        };
        for k in ks {
            let (a, b) = (one.get(&k), head.get(&k));
            let same = match (a, b) {
                // (surplus lamports of a native escrow are tokens)
                (Some(a), Some(b)) => a.owner == b.owner && (a.data == b.data || p.unwrapped == world::NATIVE && a.data.len() == b.data.len()) && b.lamports >= a.lamports.min(one.rent.minimum_balance(a.data.len())),
                (None, None) => true,
                _ => false,
            };
            if !same {
                let n = self.names.get(&k).cloned().unwrap_or_else(|| k.to_string());
                return Some(Violation {
                    class: "retried creation ended differently from a single run".into(),
                    detail: n,
                    props: vec!["C19"],
                });
            }
        }
        None
    }
}

/// Addresses a successful command must print.
fn wrong_output(inv: &Inv, l: &Ledger, text: &str) -> Option<(String, String)> {
    if inv.output == "quiet" {
        return None;
    }
    let mut f: Vec<(&str, String)> = vec![];
    match &inv.cmd {
        Cmd::Wrap { account, wprog, amount, mint, recipient, uprog, .. } => {
            let t = world::tok(l.data(account));
            let m = mint.or(t.map(|t| t.mint))?;
            let u = uprog.unwrap_or(l.owner(account));
            let p = Pair::new(0, m, *wprog, 0);
            let dst = recipient.unwrap_or_else(|| model::ata(&inv.payer.key, &p.wrapped, wprog));
            f.push(("unwrappedMintAddress", m.to_string()));
            f.push(("wrappedMintAddress", p.wrapped.to_string()));
            f.push(("unwrappedTokenAccount", account.to_string()));
            f.push(("recipientTokenAccount", dst.to_string()));
            f.push(("escrowAccount", p.escrow(&u).to_string()));
            f.push(("amount", amount.to_string()));
        }
        Cmd::Unwrap { account, recipient, amount, .. } => {
            let m = world::tok(l.data(recipient))?.mint;
            let p = Pair::new(0, m, l.owner(account), 0);
            let u = l.owner(&m);
            f.push(("unwrappedMintAddress", m.to_string()));
            f.push(("wrappedMintAddress", p.wrapped.to_string()));
            f.push(("unwrappedTokenProgram", u.to_string()));
            f.push(("wrappedTokenAccount", account.to_string()));
            f.push(("recipientTokenAccount", recipient.to_string()));
            f.push(("escrowAccount", p.escrow(&u).to_string()));
            f.push(("amount", amount.to_string()));
        }
        c => {
            let p = c.pair()?;
            let u = l.owner(&p.unwrapped);
            match c {
                Cmd::CreateMint { .. } => {
                    let (a, b) = Inv::create_mint_rent(l, &p.wprog);
                    f.push(("unwrappedMintAddress", p.unwrapped.to_string()));
                    f.push(("wrappedMintAddress", p.wrapped.to_string()));
                    f.push(("wrappedBackpointerAddress", p.backptr.to_string()));
                    f.push(("fundedWrappedMintLamports", a.saturating_sub(l.lamports(&p.wrapped)).to_string()));
                    f.push(("fundedBackpointerLamports", b.saturating_sub(l.lamports(&p.backptr)).to_string()));
                }
                Cmd::CreateEscrow { .. } => {
                    f.push(("escrowAccountAddress", p.escrow(&u).to_string()));
                    f.push(("escrowAccountOwner", p.auth.to_string()));
                    f.push(("unwrappedTokenProgramId", u.to_string()));
                }
                Cmd::CloseStuck { .. } => {
                    f.push(("unwrappedMint", p.unwrapped.to_string()));
                    f.push(("escrowAccount", p.escrow(&u).to_string()));
                }
                Cmd::SyncT22 { .. } => {
                    f.push(("unwrappedMint", p.unwrapped.to_string()));
                    f.push(("wrappedMint", p.wrapped.to_string()));
                    f.push(("wrappedMintAuthority", p.auth.to_string()));
                    if let Want::Tx(i) = inv.want(l) {
                        if let Some(s) = i[0].accounts.get(4) {
                            f.push(("sourceMetadata", s.pubkey.to_string()));
                        }
                    }
                }
                Cmd::SyncSpl { source, .. } => {
                    f.push(("unwrappedMint", p.unwrapped.to_string()));
                    f.push(("wrappedMint", p.wrapped.to_string()));
                    f.push(("wrappedMintAuthority", p.auth.to_string()));
                    f.push(("metaplexMetadata", p.metaplex.to_string()));
                    if let Some(s) = source {
                        f.push(("sourceMetadata", s.to_string()));
                    }
                }
                Cmd::FindPdas { .. } => {
                    f.push(("wrappedMintAddress", p.wrapped.to_string()));
                    f.push(("wrappedMintAuthority", p.auth.to_string()));
                    f.push(("wrappedBackpointerAddress", p.backptr.to_string()));
                    if inv.js && l.owner(&p.backptr) == model::PROGRAM {
                        f.push(("unwrappedMint", p.unwrapped.to_string()));
                    } else if is_tp(&u) {
                        f.push(("unwrappedEscrow", p.escrow(&u).to_string()));
                    }
                }
                _ => {}
            }
        }
    }
    if inv.output.starts_with("json") {
        let Ok(v) = serde_json::from_str::<Value>(text) else {
            return Some(("output".into(), "JSON".into()));
        };
        for (k, e) in f {
            let got = match &v[k] {
                Value::String(s) => s.clone(),
                x => x.to_string(),
            };
            if inv.js && v[k].is_null() {
                continue;
            }
            if got != e {
                return Some((k.into(), format!("{e}, not {got}")));
            }
        }
    } else {
        for (k, e) in f {
            if !text.contains(&e) {
                return Some((k.into(), e));
            }
        }
    }
    None
}

// ------------------------------------------------------------- running

/// What a replay fixes.
pub struct Given {
    pub start: Option<Start>,
    pub steps: Vec<Step>,
    pub faults: BTreeMap<(usize, usize), Fault>,
}

pub fn run(prop: &'static str, seed: u64, keys: &Arc<KeyFiles>, given: Option<Given>) -> Run {
    let mut r = Rng::new(seed);
    let (sut, mut model) = sim::engines(Variant::Default);
    // a cluster with the limits real ones have, and metadata that gets near them
    let metered = prop == "C25";
    chain::METERED.with(|m| m.set(metered));
    let sut = if metered { sim::vm_engine(Variant::Default).unwrap() } else { sut };
    world::LARGE.with(|l| l.set(if metered && r.pct(60) { world::largest() } else { 0 }));
    let cfg = world_cfg(prop, &mut r);
    let mut w = world::build(&mut r, &cfg, Variant::Default, &mut model);
    w.ledger.slot += 5_000;
    prehistory(prop, &mut w, &mut model, &mut r);
    for (k, n) in &keys.names {
        w.names.entry(*k).or_insert_with(|| n.clone());
        if w.ledger.get(k).is_none() {
            w.ledger.put(*k, solana_account::Account { lamports: 1 << 40, rent_epoch: u64::MAX, ..Default::default() });
        }
    }
    let (rate, kinds) = if match prop {
        "C20" | "C25" => r.pct(12),
        "C21" | "C23" => r.pct(45),
        _ => r.pct(70),
    } {
        let mut k: Vec<u32> = (0..15).map(|_| if r.pct(45) { 0 } else { r.range(1, 4) as u32 }).collect();
        k[10] *= 2;
        k[11] *= 2;
        k[12] *= 2;
        (*r.pick(&[2, 6, 15, 30]), k)
    } else {
        (0, vec![1; 15])
    };
    let faults = match &given {
        Some(g) => Faults::Given(g.faults.clone()),
        None => Faults::Drawn { seed, rate, kinds },
    };
    let lag = r.range(1, 3);
    let latency = *r.pick(&[5, 60, 300]);
    let odd = match prop {
        "C20" => 40,
        "C18" => 30,
        "C16" => 6,
        "C23" => 15,
        _ => 5,
    };
    let mut start = Start { world: w, lag, latency };
    if let Some(s) = given.as_ref().and_then(|g| g.start.clone()) {
        start = s;
    }
    let (lag, latency, mut w) = (start.lag, start.latency, start.world.clone());
    let first = w.ledger.clone();
    let names = w.names.clone();
    let kill = if r.pct(40) { *r.pick(&[5, 20]) } else { 0 };
    let script_rng = Rng::derive(seed, "script");
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let local = tokio::task::LocalSet::new();
    let keys2 = keys.clone();
    let (steps, st, mut model) = local.block_on(&rt, async move {
        clock::enter();
        host::install(Chain::new(sut, w.ledger.clone(), lag), seed, faults, latency);
        let (steps, model) = match given {
            None => {
                let mut g = Gen {
                    prop, r: script_rng, w, keys: &keys2, next: 0, steps: vec![], handles: vec![],
                    odd, kill: if prop == "C20" { 0 } else { kill }, model,
                };
                g.script().await;
                (g.steps, g.model)
            }
            Some(g) => {
                let t0 = tokio::time::Instant::now();
                let mut handles = vec![];
                for s in &g.steps {
                    tokio::time::sleep_until(t0 + Duration::from_millis(s.ms)).await;
                    match &s.act {
                        Act::Cli(i) => handles.push(launch(s.id, i, &keys2)),
                        Act::World(e) => {
                            host::with(|st| world_event(st, &mut w, e));
                        }
                        Act::Quiet => {}
                    }
                }
                for h in handles {
                    h.await.unwrap();
                }
                tokio::time::sleep(Duration::from_millis(200_000)).await;
                host::with(|_| ());
                (g.steps, model)
            }
        };
        js::release();
        (steps, host::uninstall(), model)
    });
    drop(local);
    drop(rt);
    let mut real = if metered { sim::vm_engine(Variant::Default).unwrap() } else { sim::engines(Variant::Default).0 };
    let mut j = Judge { st: &st, steps: &steps, model: &mut model, real: &mut real, metered, names: &names, stats: Stats::default(), log: vec![] };
    let mut found = j.judge();
    if prop == "C19" && found.is_empty() {
        found.extend(j.creation_result(&first));
    }
    let mut stats = std::mem::take(&mut j.stats);
    let mut log = std::mem::take(&mut j.log);
    for s in &steps {
        if let Act::World(e) = &s.act {
            log.push(format!("{:>7} ms  #{} {}", s.ms, s.id, match &**e {
                Event::Tx(t) => t.label.clone(),
                Event::Rent(n) => format!("rent lowered to {n}"),
                Event::Put(k, _) => format!("third party rewrites {}", names.get(k).cloned().unwrap_or_default()),
            }));
            stats.world_txs += 1;
        }
    }
    log.sort_by_key(|l| l.trim_start().split(' ').next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(u64::MAX));
    stats.runs = 1;
    stats.sim_ms = st.now();
    stats.landings = st.chain.landings.len() as u64;
    stats.landed_ok = st.chain.landings.iter().filter(|l| l.verdict == Verdict::Ok).count() as u64;
    let mut digest = seed;
    for o in st.out.values() {
        for q in &o.reqs {
            if q.fault != Fault::None {
                *stats.faults.entry(q.fault.name()).or_default() += 1;
            }
        }
        if o.killed {
            *stats.faults.entry("client killed").or_default() += 1;
        }
        let h = hash64(&(o.start, o.end, o.result.as_ref().map(|r| r.is_ok()), o.result.clone().map(|r| r.unwrap_or_else(|e| e)), o.reqs.len()));
        digest = digest.rotate_left(7) ^ h;
    }
    for s in &steps {
        let Act::Cli(i) = &s.act else { continue };
        let Some(o) = st.out.get(&s.id) else { continue };
        let mut shape = vec![];
        for q in &o.reqs {
            let x = (q.method.as_str(), q.fault.name());
            if shape.last() != Some(&x) {
                shape.push(x);
            }
        }
        let land: Vec<bool> = st.chain.landings.iter().filter(|l| l.who == s.id).map(|l| l.verdict == Verdict::Ok).collect();
        stats.states.insert(hash64(&(i.cmd.kind(), i.dry, &i.output, i.cmd.sign_only(), shape, o.killed, o.result.as_ref().map(|r| r.is_ok()), land)));
    }
    stats.orders.insert(st.order);
    stats.digest = digest;
    let (mine, others): (Vec<Violation>, Vec<Violation>) = found.into_iter().partition(|v| v.props.contains(&prop));
    Run { steps, faults: st.used.clone(), violation: mine.into_iter().next(), other: others.into_iter().next(), stats, log, start }
}

/// Drops steps and faults while the same violation remains.
pub fn minimise(prop: &'static str, seed: u64, run0: &Run, keys: &Arc<KeyFiles>, mut again: impl FnMut(Given) -> Run) -> (Vec<Step>, BTreeMap<(usize, usize), Fault>, Violation) {
    let _ = (prop, seed, keys);
    let v0 = run0.violation.clone().unwrap();
    let mut steps = run0.steps.clone();
    let mut faults = run0.faults.clone();
    let mut v = v0.clone();
    let t = std::time::Instant::now();
    let mut test = |s: &Vec<Step>, f: &BTreeMap<(usize, usize), Fault>| -> Option<Violation> {
        let r = again(Given { start: Some(run0.start.clone()), steps: s.clone(), faults: f.clone() });
        r.violation.filter(|x| x.class == v0.class)
    };
    let mut changed = true;
    while changed && t.elapsed() < Duration::from_secs(60) {
        changed = false;
        let mut i = steps.len();
        while i > 0 {
            i -= 1;
            let mut s = steps.clone();
            s.remove(i);
            if let Some(x) = test(&s, &faults) {
                steps = s;
                v = x;
                changed = true;
            }
        }
        for k in faults.keys().cloned().collect::<Vec<_>>() {
            let mut f = faults.clone();
            f.remove(&k);
            if let Some(x) = test(&steps, &f) {
                faults = f;
                v = x;
                changed = true;
            }
        }
        for i in 0..steps.len() {
            if let Act::Cli(inv) = &steps[i].act {
                if inv.kill.is_some() {
                    let mut s = steps.clone();
                    if let Act::Cli(x) = &mut s[i].act {
                        x.kill = None;
                    }
                    if let Some(x) = test(&s, &faults) {
                        steps = s;
                        v = x;
                        changed = true;
                    }
                }
            }
        }
    }
    (steps, faults, v)
}

/// `TwoWords` as `TWO_WORDS`.
fn shout(s: &str) -> String {
    let mut t = String::new();
    for c in s.chars() {
        if c.is_uppercase() && !t.is_empty() {
            t.push('_');
        }
        t.push(c.to_ascii_uppercase());
    }
    t
}

/// Base58 in the readable formats and in some of the JSON ones, bytes in others.
fn shows_signature(text: &str, sig: &solana_signature::Signature) -> bool {
    if text.contains(&sig.to_string()) {
        return true;
    }
    let bare: String = text.chars().filter(|c| !c.is_whitespace()).collect();
    bare.contains(&serde_json::to_string(sig.as_ref()).unwrap())
}
