//! The simulated cluster behind the command line client: a ledger that advances
//! in slots of simulated time, transactions that are lost, delayed, abandoned
//! with a fork or delivered twice, blockhashes that expire, and RPC nodes that
//! lag, fail and lose answers.

use solana_sanitize::Sanitize;
use {
    base64::Engine as _,
    serde_json::{json, Value},
    sha2::{Digest, Sha256},
    solana_hash::Hash,
    solana_pubkey::Pubkey,
    solana_signature::Signature,
    solana_transaction::Transaction,
    solana_transaction_error::TransactionError,
    std::{collections::BTreeMap, rc::Rc, str::FromStr},
    twsim::{
        bank::{Executed, Ledger, Tx, Verdict},
        native::{self, CrashPoint},
        svm::Engine,
    },
};

pub const SLOT_MS: u64 = 400;
/// Slots a blockhash stays usable.
pub const HASH_AGE: u64 = 150;

/// What happens to one RPC request.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    /// The connection fails before the node sees the request.
    Refused,
    /// The node handles the request, the answer never arrives (time-out).
    LostReply,
    /// Too many requests; the client library backs off and retries.
    Limited,
    /// The proxy in front of the node answers 502/503.
    Unavailable,
    /// JSON-RPC error "node is behind".
    Unhealthy,
    /// JSON-RPC internal error.
    Internal,
    /// An answer that is not JSON-RPC.
    Garbage,
    /// The request reaches the node twice.
    Twice,
    /// A proxy hands the request on, hears nothing for this many milliseconds and
    /// asks again; the client gets the second answer.
    Retried(u32),
    /// Served by a node lagging this many slots.
    Stale(u16),
    /// Answered after this many milliseconds.
    Slow(u32),
    /// (sendTransaction) accepted, then lost on the way to the leaders.
    TxLost,
    /// (sendTransaction) reaches a block only after this many milliseconds.
    TxLate(u32),
    /// (sendTransaction) first lands in a fork that is abandoned; the flag says
    /// whether it lands again afterwards.
    TxForked(bool),
}

impl Fault {
    pub fn name(&self) -> &'static str {
        match self {
            Fault::None => "none",
            Fault::Refused => "connection refused",
            Fault::LostReply => "reply lost",
            Fault::Limited => "rate limited",
            Fault::Unavailable => "proxy unavailable",
            Fault::Unhealthy => "node behind error",
            Fault::Internal => "internal error",
            Fault::Garbage => "garbage reply",
            Fault::Twice => "request duplicated",
            Fault::Retried(_) => "request retried by a proxy",
            Fault::Stale(_) => "stale node",
            Fault::Slow(_) => "slow reply",
            Fault::TxLost => "transaction lost",
            Fault::TxLate(_) => "transaction delayed",
            Fault::TxForked(_) => "fork abandoned",
        }
    }
    pub fn code(&self) -> String {
        match self {
            Fault::Retried(n) => format!("retried {n}"),
            Fault::Stale(n) => format!("stale {n}"),
            Fault::Slow(n) => format!("slow {n}"),
            Fault::TxLate(n) => format!("txlate {n}"),
            Fault::TxForked(b) => format!("txforked {}", *b as u8),
            f => match f {
                Fault::None => "none",
                Fault::Refused => "refused",
                Fault::LostReply => "lostreply",
                Fault::Limited => "limited",
                Fault::Unavailable => "unavailable",
                Fault::Unhealthy => "unhealthy",
                Fault::Internal => "internal",
                Fault::Garbage => "garbage",
                Fault::Twice => "twice",
                _ => "txlost",
            }
            .into(),
        }
    }
    pub fn parse(s: &str) -> Option<Fault> {
        let mut w = s.split(' ');
        let n = w.next()?;
        let v: Option<u32> = w.next().and_then(|x| x.parse().ok());
        Some(match n {
            "none" => Fault::None,
            "refused" => Fault::Refused,
            "lostreply" => Fault::LostReply,
            "limited" => Fault::Limited,
            "unavailable" => Fault::Unavailable,
            "unhealthy" => Fault::Unhealthy,
            "internal" => Fault::Internal,
            "garbage" => Fault::Garbage,
            "twice" => Fault::Twice,
            "retried" => Fault::Retried(v?),
            "stale" => Fault::Stale(v? as u16),
            "slow" => Fault::Slow(v?),
            "txlost" => Fault::TxLost,
            "txlate" => Fault::TxLate(v?),
            "txforked" => Fault::TxForked(v? != 0),
            _ => return None,
        })
    }
    /// Can this fault keep the command from learning the truth or finishing?
    pub fn excuses_failure(&self) -> bool {
        !matches!(self, Fault::None | Fault::Slow(_) | Fault::Twice | Fault::Retried(_))
    }
}

#[derive(Clone)]
pub struct Pending {
    pub at_ms: u64,
    pub tx: Transaction,
    /// The invocation that submitted it.
    pub who: usize,
}

/// A transaction that reached the main chain.
pub struct Landing {
    pub slot: u64,
    pub ms: u64,
    /// The invocation that submitted it.
    pub who: usize,
    pub sig: Signature,
    pub tx: Tx,
    pub verdict: Verdict,
    pub before: Rc<Ledger>,
    pub after: Rc<Ledger>,
}

#[derive(Clone)]
struct Status {
    slot: u64,
    err: Option<TransactionError>,
    /// Not on the main chain; gone after this slot.
    abandoned: Option<u64>,
}

pub struct Chain {
    pub engine: Engine,
    pub base_slot: u64,
    pub now_ms: u64,
    /// State after a slot, oldest first.
    pub snaps: Vec<(u64, Rc<Ledger>)>,
    pub pending: Vec<Pending>,
    statuses: BTreeMap<Signature, Status>,
    forked: BTreeMap<Signature, Status>,
    pub landings: Vec<Landing>,
    pub confirm_lag: u64,
}

pub fn blockhash(slot: u64) -> Hash {
    let mut h = Sha256::new();
    h.update(b"blockhash");
    h.update(slot.to_le_bytes());
    Hash::new_from_array(h.finalize().into())
}

/// The instructions of a wire transaction and who really signed it.
pub fn decompile(tx: &Transaction, ignore_signatures: bool) -> Option<Tx> {
    tx.sanitize().ok()?;
    let m = &tx.message;
    let n = m.header.num_required_signatures as usize;
    let ok = tx.verify_with_results();
    let signers: Vec<Pubkey> = m.account_keys[..n]
        .iter()
        .enumerate()
        .filter(|(i, _)| ignore_signatures || ok.get(*i).copied().unwrap_or(false))
        .map(|(_, k)| *k)
        .collect();
    let mut ixs = vec![];
    let mut asked = None;
    let mut cheap = 0;
    for c in &m.instructions {
        let program = *m.account_keys.get(c.program_id_index as usize)?;
        if program == COMPUTE_BUDGET {
            match (c.data.first()?, c.data.get(1..5)) {
                (2, Some(n)) if asked.is_none() => asked = Some(u32::from_le_bytes(n.try_into().unwrap()) as u64),
                (2, _) => return None,
                _ => {}
            }
            cheap += 150;
            continue;
        }
        ixs.push(solana_instruction::Instruction {
            program_id: program,
            accounts: c
                .accounts
                .iter()
                .map(|i| {
                    let i = *i as usize;
                    solana_instruction::AccountMeta {
                        pubkey: m.account_keys[i],
                        is_signer: m.is_signer(i),
                        is_writable: is_writable(m, i),
                    }
                })
                .collect(),
            data: c.data.clone(),
        });
    }
    // what a transaction gets without asking
    let usual = ixs.iter().map(|i| if i.program_id == Pubkey::default() { 3_000 } else { 200_000 }).sum::<u64>() + cheap;
    let cu_limit = if METERED.with(|m| m.get()) { asked.unwrap_or(usual).min(1_400_000).saturating_sub(cheap) } else { 1_400_000 };
    Some(Tx { ixs, payer: m.account_keys[0], signers, crash: CrashPoint::None, cu_limit })
}
thread_local! {
    /// Does the cluster limit the compute units of a transaction?
    pub static METERED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
const COMPUTE_BUDGET: Pubkey = solana_pubkey::pubkey!("ComputeBudget111111111111111111111111111111");
fn is_writable(m: &solana_message::Message, i: usize) -> bool {
    let h = &m.header;
    let signed = h.num_required_signatures as usize;
    let n = m.account_keys.len();
    if i < signed {
        i < signed - h.num_readonly_signed_accounts as usize
    } else {
        i < n - h.num_readonly_unsigned_accounts as usize
    }
}
/// Every required signature present and valid?
pub fn fully_signed(tx: &Transaction) -> bool {
    tx.sanitize().is_ok() && tx.verify_with_results().iter().all(|b| *b)
}

pub struct Run {
    pub ex: Option<Executed>,
    pub err: Option<TransactionError>,
    pub logs: Vec<String>,
    pub cu: u64,
}

impl Chain {
    pub fn new(engine: Engine, ledger: Ledger, confirm_lag: u64) -> Self {
        let base = ledger.slot;
        Chain {
            engine,
            base_slot: base,
            now_ms: 0,
            snaps: vec![(base, Rc::new(ledger))],
            pending: vec![],
            statuses: BTreeMap::new(),
            forked: BTreeMap::new(),
            landings: vec![],
            confirm_lag,
        }
    }
    pub fn slot_at(&self, ms: u64) -> u64 {
        self.base_slot + ms / SLOT_MS
    }
    pub fn slot(&self) -> u64 {
        self.slot_at(self.now_ms)
    }
    /// State as of the end of `slot`.
    pub fn at(&self, slot: u64) -> Rc<Ledger> {
        let i = self.snaps.partition_point(|(s, _)| *s <= slot);
        self.snaps[i.max(1) - 1].1.clone()
    }
    pub fn head(&self) -> Rc<Ledger> {
        self.snaps.last().unwrap().1.clone()
    }
    /// Every state that existed in slots `from..=to`.
    pub fn states(&self, from: u64, to: u64) -> Vec<Rc<Ledger>> {
        let mut v = vec![self.at(from)];
        v.extend(self.snaps.iter().filter(|(s, _)| *s > from && *s <= to).map(|(_, l)| l.clone()));
        v
    }

    fn hash_slot(&self, h: &Hash, newest: u64) -> Option<u64> {
        let oldest = newest.saturating_sub(HASH_AGE);
        (oldest..=newest).rev().find(|s| blockhash(*s) == *h)
    }

    /// Executes a transaction on a state without committing.
    pub fn dry(&mut self, tx: &Transaction, on: &Ledger, slot: u64, ignore_signatures: bool) -> Run {
        let none = |e| Run { ex: None, err: Some(e), logs: vec![], cu: 0 };
        let Some(t) = decompile(tx, ignore_signatures) else {
            return none(TransactionError::SanitizeFailure);
        };
        if !ignore_signatures && !fully_signed(tx) {
            return none(TransactionError::SignatureFailure);
        }
        if self.hash_slot(&tx.message.recent_blockhash, slot).is_none() {
            return none(TransactionError::BlockhashNotFound);
        }
        let mut l = on.clone();
        l.slot = slot;
        match l.get(&t.payer) {
            None => return none(TransactionError::AccountNotFound),
            Some(a) if a.owner != Pubkey::default() => return none(TransactionError::InvalidAccountForFee),
            _ => {}
        }
        native::start_logs();
        let ex = l.run(&mut self.engine, &t);
        let logs = native::take_logs();
        let err = match &ex.verdict {
            Verdict::Ok => None,
            Verdict::Rejected(r) => Some(if *r == "payer cannot pay" {
                TransactionError::InsufficientFundsForFee
            } else {
                TransactionError::SignatureFailure
            }),
            Verdict::Failed { ix: 255, .. } => Some(TransactionError::InsufficientFundsForRent { account_index: 0 }),
            Verdict::Failed { .. } => match &ex.outcome.as_ref().unwrap().result {
                Err((i, e)) => Some(TransactionError::InstructionError(*i, e.clone())),
                Ok(()) => unreachable!(),
            },
        };
        let cu = ex.outcome.as_ref().map_or(0, |o| o.cu);
        Run { ex: Some(ex), err, logs, cu }
    }

    /// A transaction reaches the current leader.
    fn land(&mut self, p: Pending) {
        let slot = self.slot_at(p.at_ms);
        let Some(sig) = p.tx.signatures.first().copied() else { return };
        if self.statuses.contains_key(&sig) {
            return; // already processed: the cluster drops the duplicate
        }
        let head = self.head();
        let run = self.dry(&p.tx, &head, slot, false);
        let Some(ex) = run.ex else { return };
        if matches!(ex.verdict, Verdict::Rejected(_)) {
            return;
        }
        let mut after = (*head).clone();
        after.slot = slot;
        after.commit(&ex);
        let after = Rc::new(after);
        self.snaps.push((slot, after.clone()));
        self.statuses.insert(sig, Status { slot, err: run.err, abandoned: None });
        self.landings.push(Landing {
            slot,
            ms: p.at_ms,
            who: p.who,
            sig,
            tx: decompile(&p.tx, false).unwrap(),
            verdict: ex.verdict,
            before: head,
            after,
        });
    }

    /// A third party changes accounts directly (state the simulator owns).
    pub fn mutate(&mut self, f: impl FnOnce(&mut Ledger)) {
        let mut l = (*self.head()).clone();
        l.slot = self.slot();
        f(&mut l);
        let s = self.slot();
        self.snaps.push((s, Rc::new(l)));
    }

    /// Lets simulated time pass.
    pub fn advance(&mut self, ms: u64) {
        self.now_ms = self.now_ms.max(ms);
        loop {
            let due = self
                .pending
                .iter()
                .enumerate()
                .filter(|(_, p)| p.at_ms <= self.now_ms)
                .min_by_key(|(i, p)| (p.at_ms, *i))
                .map(|(i, _)| i);
            let Some(i) = due else { return };
            let p = self.pending.remove(i);
            self.land(p);
        }
    }

    pub fn submit(&mut self, tx: Transaction, who: usize, delay_ms: u64, fault: Fault) {
        let at = self.now_ms + delay_ms;
        match fault {
            Fault::TxLost => {}
            Fault::TxLate(ms) => self.pending.push(Pending { at_ms: self.now_ms + ms as u64, tx, who }),
            Fault::TxForked(again) => {
                let head = self.head();
                let slot = self.slot_at(at);
                let run = self.dry(&tx, &head, slot, false);
                if run.ex.as_ref().is_some_and(|e| e.verdict == Verdict::Ok) {
                    self.forked.insert(tx.signatures[0], Status { slot, err: None, abandoned: Some(slot + 6) });
                }
                if again {
                    self.pending.push(Pending { at_ms: at + 7 * SLOT_MS, tx, who });
                }
            }
            Fault::Twice => {
                self.pending.push(Pending { at_ms: at, tx: tx.clone(), who });
                self.pending.push(Pending { at_ms: at + 900, tx, who });
            }
            _ => self.pending.push(Pending { at_ms: at, tx, who }),
        }
    }

    /// The bank a request at some commitment level is answered from.
    pub fn view(&self, commitment: &str, stale: u64) -> u64 {
        let back = match commitment {
            "processed" | "recent" => 0,
            "finalized" | "max" | "root" => 32,
            _ => self.confirm_lag,
        };
        self.slot().saturating_sub(stale + back).max(self.base_slot)
    }

    fn status_json(&self, s: &Status, slot: u64) -> Value {
        let depth = slot.saturating_sub(s.slot);
        let level = if s.abandoned.is_some() {
            "processed"
        } else if depth >= 32 {
            "finalized"
        } else if depth >= self.confirm_lag {
            "confirmed"
        } else {
            "processed"
        };
        let status = match &s.err {
            None => json!({"Ok": null}),
            Some(e) => json!({"Err": serde_json::to_value(e).unwrap()}),
        };
        json!({
            "slot": s.slot,
            "confirmations": if level == "finalized" { Value::Null } else { json!(depth) },
            "err": s.err.as_ref().map(|e| serde_json::to_value(e).unwrap()),
            "status": status,
            "confirmationStatus": level,
        })
    }

    pub fn status(&self, sig: &Signature, stale: u64) -> Value {
        let slot = self.slot().saturating_sub(stale);
        match self.statuses.get(sig) {
            Some(s) if s.slot <= slot => return self.status_json(s, slot),
            _ => {}
        }
        match self.forked.get(sig) {
            Some(s) if s.slot <= slot && slot < s.abandoned.unwrap() => self.status_json(s, slot),
            _ => Value::Null,
        }
    }
    /// A transaction of the surrounding world reaches the leader now.
    pub fn world(&mut self, tx: &Tx) -> Verdict {
        let slot = self.slot();
        let head = self.head();
        let mut l = (*head).clone();
        l.slot = slot;
        let ex = l.run(&mut self.engine, tx);
        l.commit(&ex);
        self.snaps.push((slot, Rc::new(l)));
        ex.verdict
    }
    pub fn known(&self, sig: &Signature) -> bool {
        self.statuses.contains_key(sig)
    }
    pub fn hash_valid(&self, h: &Hash, slot: u64) -> bool {
        self.hash_slot(h, slot).is_some()
    }
    /// Was this transaction in a fork that was abandoned?
    pub fn was_forked(&self, sig: &Signature) -> bool {
        self.forked.contains_key(sig)
    }
}

pub fn account_json(l: &Ledger, k: &Pubkey, params: &Value) -> Value {
    match l.get(k) {
        None => Value::Null,
        Some(a) => {
            let mut data = &a.data[..];
            if let (Some(o), Some(n)) = (params["dataSlice"]["offset"].as_u64(), params["dataSlice"]["length"].as_u64()) {
                let o = (o as usize).min(data.len());
                data = &data[o..(o + n as usize).min(data.len())];
            }
            json!({
                "data": [base64::engine::general_purpose::STANDARD.encode(data), "base64"],
                "executable": a.executable,
                "lamports": a.lamports,
                "owner": a.owner.to_string(),
                "rentEpoch": a.rent_epoch,
                "space": a.data.len(),
            })
        }
    }
}

pub fn decode_tx(v: &Value, cfg: &Value) -> Option<Transaction> {
    let s = v.as_str()?;
    let b = match cfg["encoding"].as_str() {
        Some("base64") => base64::engine::general_purpose::STANDARD.decode(s).ok()?,
        _ => bs58::decode(s).into_vec().ok()?,
    };
    bincode::deserialize(&b).ok()
}

pub fn pubkey(v: &Value) -> Option<Pubkey> {
    Pubkey::from_str(v.as_str()?).ok()
}
