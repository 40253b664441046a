//! Runs client invocations as tasks of one simulated process world: virtual
//! time, captured output, kills, and the RPC node they talk to.

use solana_sanitize::Sanitize;
use {
    crate::{
        chain::{account_json, blockhash, decode_tx, pubkey, Chain, Fault, SLOT_MS},
        clock,
    },
    serde_json::{json, Value},
    solana_pubkey::Pubkey,
    solana_transaction::Transaction,
    std::{
        cell::RefCell,
        collections::BTreeMap,
        future::Future,
        panic::AssertUnwindSafe,
        pin::Pin,
        rc::Rc,
        sync::{Arc, Mutex},
        task::{Context, Poll},
        time::Duration,
    },
    twsim::{bank::Ledger, rng::Rng},
};

/// One request a client made.
pub struct Req {
    pub n: usize,
    pub method: String,
    pub ms: u64,
    pub fault: Fault,
    /// The answer reached the client.
    pub delivered: bool,
    /// State the answer was taken from.
    pub state: Option<Rc<Ledger>>,
    /// Balances the answer told.
    pub balances: Vec<(Pubkey, u64)>,
    /// (simulateTransaction) the verdict told.
    pub sim_err: Option<bool>,
    pub tx: Option<Transaction>,
    /// The answer was an RPC error the node gave for its own reasons.
    pub errored: bool,
    /// Rent-exempt minimum the answer named, for a length.
    pub rent: Option<(usize, u64)>,
}

#[derive(Default)]
pub struct Outcome {
    pub start: u64,
    pub end: u64,
    pub done: bool,
    pub killed: bool,
    pub panicked: bool,
    pub result: Option<Result<String, String>>,
    pub stdout: String,
    /// (JavaScript client) parts of the answer beside the result.
    pub js: Option<serde_json::Value>,
    pub reqs: Vec<Req>,
}

pub enum Faults {
    /// Decided by the seed.
    Drawn { seed: u64, rate: u64, kinds: Vec<u32> },
    /// Given.
    Given(BTreeMap<(usize, usize), Fault>),
}

pub struct State {
    pub chain: Chain,
    pub out: BTreeMap<usize, Outcome>,
    pub faults: Faults,
    pub quiet: bool,
    pub seed: u64,
    pub latency: u64,
    pub used: BTreeMap<(usize, usize), Fault>,
    start: tokio::time::Instant,
    /// order in which requests of different invocations met, hashed
    pub order: u64,
}

thread_local! {
    static S: RefCell<Option<State>> = const { RefCell::new(None) };
}

pub fn with<T>(f: impl FnOnce(&mut State) -> T) -> T {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let st = s.as_mut().expect("simulation");
        st.sync();
        f(st)
    })
}
pub fn install(chain: Chain, seed: u64, faults: Faults, latency: u64) {
    let st = State {
        chain,
        out: BTreeMap::new(),
        faults,
        quiet: false,
        seed,
        latency,
        used: BTreeMap::new(),
        start: tokio::time::Instant::now(),
        order: 0,
    };
    S.with(|s| *s.borrow_mut() = Some(st));
    solana_rpc_client::http_sender::seam::install(Some(Arc::new(|url, body| Box::pin(serve(url, body)))));
}
pub fn uninstall() -> State {
    solana_rpc_client::http_sender::seam::install(None);
    S.with(|s| s.borrow_mut().take()).expect("simulation")
}

impl State {
    fn sync(&mut self) {
        let d = tokio::time::Instant::now() - self.start;
        clock::set(d.as_nanos() as u64);
        self.chain.advance(d.as_millis() as u64);
    }
    pub fn now(&self) -> u64 {
        self.chain.now_ms
    }
    fn fault(&mut self, inv: usize, n: usize, method: &str) -> Fault {
        let f = match &self.faults {
            Faults::Given(m) => m.get(&(inv, n)).copied().unwrap_or(Fault::None),
            Faults::Drawn { seed, rate, kinds } => {
                let mut r = Rng::derive(*seed ^ (inv as u64) << 32 ^ n as u64, "fault");
                // the node asked for confirmations may be far behind all along
                let behind = kinds[8] > 0 && method == "getSignatureStatuses" && Rng::derive(*seed ^ (inv as u64) << 32, "behind").pct(*rate / 2);
                // sending is where it hurts
                let rate = if method == "sendTransaction" { rate * 3 } else { *rate };
                if behind && !self.quiet {
                    Fault::Stale(220)
                } else if self.quiet || !r.pct(rate.min(90)) {
                    Fault::None
                } else {
                    let send = method == "sendTransaction";
                    let mut k = kinds.clone();
                    if !send {
                        for x in &mut k[10..13] {
                            *x = 0;
                        }
                    }
                    if k.iter().all(|x| *x == 0) {
                        k[1] = 1;
                    }
                    match r.weighted(&k) {
                        0 => Fault::Refused,
                        1 => Fault::LostReply,
                        2 => Fault::Limited,
                        3 => Fault::Unavailable,
                        4 => Fault::Unhealthy,
                        5 => Fault::Internal,
                        6 => Fault::Garbage,
                        7 => Fault::Twice,
                        8 => Fault::Stale(r.range(1, 60) as u16),
                        9 => Fault::Slow(*r.pick(&[800, 4_000, 15_000, 28_000])),
                        10 => Fault::TxLost,
                        11 => Fault::TxLate(*r.pick(&[2_000, 10_000, 30_000, 58_000, 75_000, 120_000])),
                        12 => Fault::TxForked(r.pct(50)),
                        13 => Fault::Retried(*r.pick(&[700, 2_000, 6_000, 20_000])),
                        _ => Fault::Limited,
                    }
                }
            }
        };
        if f != Fault::None {
            self.used.insert((inv, n), f);
        }
        f
    }
}

fn reply(status: u16, body: String) -> http::Response<String> {
    http::Response::builder().status(status).body(body).unwrap()
}

async fn pause(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await
}

/// The most bytes a transaction can have on the wire.
pub const PACKET: usize = 1232;

pub async fn serve(url: String, body: String) -> Result<http::Response<String>, std::io::Error> {
    // (there is no other cluster)
    let Some(inv) = url.strip_prefix("http://sim.local/").and_then(|s| s.parse::<usize>().ok()) else {
        return Err(std::io::Error::other("no such host"));
    };
    let v: Value = serde_json::from_str(&body).expect("json request");
    let method = v["method"].as_str().unwrap_or_default().to_string();
    let (n, fault, l1, l2) = with(|s| {
        let n = s.out.get(&inv).map_or(0, |o| o.reqs.len());
        let fault = s.fault(inv, n, &method);
        let mut r = Rng::derive(s.seed ^ (inv as u64) << 32 ^ n as u64, "latency");
        let l = s.latency;
        let ms = s.now();
        s.order = s.order.wrapping_mul(0x100000001b3) ^ (inv as u64 + 1) ^ ((method.len() as u64) << 8);
        s.out.entry(inv).or_default().reqs.push(Req {
            n,
            method: method.clone(),
            ms,
            fault,
            delivered: false,
            state: None,
            balances: vec![],
            rent: None,
            sim_err: None,
            tx: None,
            errored: false,
        });
        (n, fault, r.range(1, l), r.range(1, l))
    });
    pause(l1).await;
    match fault {
        Fault::Refused => return Err(std::io::Error::new(std::io::ErrorKind::ConnectionRefused, "connection refused")),
        Fault::Limited => return Ok(reply(429, "slow down".into())),
        Fault::Unavailable => return Ok(reply(503, "unavailable".into())),
        Fault::Garbage => return Ok(reply(200, "<html>gateway</html>".into())),
        _ => {}
    }
    let id = v["id"].clone();
    let err = |code: i64, m: &str, d: Value| json!({"jsonrpc": "2.0", "id": id, "error": {"code": code, "message": m, "data": d}}).to_string();
    match fault {
        Fault::Unhealthy => return Ok(reply(200, err(-32005, "Node is behind by 60 slots", json!({"numSlotsBehind": 60})))),
        Fault::Internal => return Ok(reply(200, err(-32603, "Internal error", Value::Null))),
        _ => {}
    }
    let mut ans = with(|s| s.answer(inv, n, &method, &v["params"], fault));
    if let Fault::Retried(ms) = fault {
        pause(ms as u64).await;
        ans = with(|s| s.answer(inv, n, &method, &v["params"], fault));
    }
    if fault == Fault::Twice && method == "sendTransaction" {
        pause(60).await;
        let _ = with(|s| s.answer(inv, n, &method, &v["params"], Fault::None));
    }
    pause(l2).await;
    match fault {
        Fault::LostReply => {
            pause(30_000).await;
            return Err(std::io::Error::new(std::io::ErrorKind::TimedOut, "operation timed out"));
        }
        Fault::Slow(ms) => pause(ms as u64).await,
        _ => {}
    }
    with(|s| {
        let r = &mut s.out.get_mut(&inv).unwrap().reqs[n];
        r.delivered = true;
        r.errored = ans.is_err();
    });
    Ok(reply(200, match ans {
        Ok(r) => json!({"jsonrpc": "2.0", "id": id, "result": r}).to_string(),
        Err((c, m, d)) => err(c, &m, d),
    }))
}

type Answer = Result<Value, (i64, String, Value)>;

impl State {
    fn answer(&mut self, inv: usize, n: usize, method: &str, p: &Value, fault: Fault) -> Answer {
        let stale = match fault {
            Fault::Stale(k) => k as u64,
            _ => 0,
        };
        let cfg = match method {
            "getSlot" | "getBlockHeight" | "getLatestBlockhash" | "getEpochInfo" | "getVersion" => &p[0],
            _ => &p[1],
        };
        let level = cfg["commitment"].as_str().unwrap_or("finalized").to_string();
        let slot = self.chain.view(&level, stale);
        let state = self.chain.at(slot);
        let ctx = json!({"slot": slot, "apiVersion": "4.1.0"});
        let val = |v: Value| Ok(json!({"context": ctx.clone(), "value": v}));
        let bad = |m: &str| Err((-32602, format!("Invalid param: {m}"), Value::Null));
        let req = &mut self.out.get_mut(&inv).unwrap().reqs[n];
        match method {
            "getAccountInfo" | "getBalance" => {
                let Some(k) = pubkey(&p[0]) else { return bad("pubkey") };
                req.state = Some(state.clone());
                req.balances = vec![(k, state.lamports(&k))];
                if method == "getBalance" {
                    return val(json!(state.lamports(&k)));
                }
                val(account_json(&state, &k, cfg))
            }
            "getMultipleAccounts" => {
                let Some(ks) = p[0].as_array().and_then(|a| a.iter().map(pubkey).collect::<Option<Vec<_>>>()) else {
                    return bad("pubkeys");
                };
                req.state = Some(state.clone());
                req.balances = ks.iter().map(|k| (*k, state.lamports(k))).collect();
                val(ks.iter().map(|k| account_json(&state, k, cfg)).collect())
            }
            "getMinimumBalanceForRentExemption" => {
                let Some(len) = p[0].as_u64() else { return bad("length") };
                let n = state.rent.minimum_balance(len as usize);
                req.rent = Some((len as usize, n));
                Ok(json!(n))
            }
            "getLatestBlockhash" => val(json!({
                "blockhash": blockhash(slot).to_string(),
                "lastValidBlockHeight": slot + crate::chain::HASH_AGE,
            })),
            "isBlockhashValid" => {
                let Some(h) = p[0].as_str().and_then(|s| s.parse().ok()) else { return bad("blockhash") };
                let ok = self.chain.hash_valid(&h, slot);
                val(json!(ok))
            }
            "getSignatureStatuses" => {
                let Some(ks) = p[0].as_array() else { return bad("signatures") };
                let v: Vec<Value> = ks.iter().map(|k| k.as_str().and_then(|s| s.parse().ok()).map_or(Value::Null, |s| self.chain.status(&s, stale))).collect();
                val(json!(v))
            }
            "getSlot" | "getBlockHeight" => Ok(json!(slot)),
            "getVersion" => Ok(json!({"solana-core": "4.1.0", "feature-set": 1})),
            "getHealth" => Ok(json!("ok")),
            "getEpochInfo" => Ok(json!({"absoluteSlot": slot, "blockHeight": slot, "epoch": slot / 432_000, "slotIndex": slot % 432_000, "slotsInEpoch": 432_000, "transactionCount": 0})),
            "getFeeForMessage" => val(json!(5000)),
            "sendTransaction" | "simulateTransaction" => {
                let Some(tx) = decode_tx(&p[0], cfg) else { return bad("transaction") };
                // what does not fit in a packet goes nowhere
                let size = bincode::serialize(&tx).map_or(usize::MAX, |b| b.len());
                if size > PACKET {
                    return Err((-32602, format!("base64 encoded too large: {size} bytes (max: encoded/raw 1644/{PACKET})"), Value::Null));
                }
                req.tx = Some(tx.clone());
                let sim = method == "simulateTransaction";
                let level = cfg[if sim { "commitment" } else { "preflightCommitment" }].as_str().unwrap_or("finalized").to_string();
                let slot = self.chain.view(&level, stale);
                let state = self.chain.at(slot);
                let ctx = json!({"slot": slot, "apiVersion": "4.1.0"});
                let show = |run: &crate::chain::Run| json!({
                    "err": run.err.as_ref().map(|e| serde_json::to_value(e).unwrap()),
                    "logs": run.logs, "accounts": null, "unitsConsumed": run.cu,
                    "returnData": null, "innerInstructions": null,
                });
                if sim {
                    let verify = cfg["sigVerify"].as_bool().unwrap_or(false);
                    let mut tx = tx;
                    if cfg["replaceRecentBlockhash"].as_bool().unwrap_or(false) {
                        tx.message.recent_blockhash = blockhash(slot);
                    }
                    let run = self.chain.dry(&tx, &state, slot, !verify);
                    let req = &mut self.out.get_mut(&inv).unwrap().reqs[n];
                    req.sim_err = Some(run.err.is_some());
                    req.state = Some(state);
                    return Ok(json!({"context": ctx, "value": show(&run)}));
                }
                if tx.sanitize().is_err() {
                    return bad("transaction");
                }
                let sig = tx.signatures[0];
                if !cfg["skipPreflight"].as_bool().unwrap_or(false) {
                    if !crate::chain::fully_signed(&tx) {
                        return Err((-32003, "Transaction signature verification failure".into(), Value::Null));
                    }
                    let mut run = self.chain.dry(&tx, &state, slot, false);
                    if self.chain.known(&sig) {
                        run.err = Some(solana_transaction_error::TransactionError::AlreadyProcessed);
                    }
                    if let Some(e) = &run.err {
                        return Err((-32002, format!("Transaction simulation failed: {e}"), show(&run)));
                    }
                }
                let mut r = Rng::derive(self.seed ^ (inv as u64) << 32 ^ n as u64, "inclusion");
                let delay = r.range(50, 4 * SLOT_MS);
                self.chain.submit(tx, inv, delay, fault);
                Ok(json!(sig.to_string()))
            }
            _ => Err((-32601, "Method not found".into(), Value::Null)),
        }
    }
}

/// Polls a client with its output captured and its panics contained.
struct Process<F> {
    inner: Pin<Box<F>>,
    out: Arc<Mutex<Vec<u8>>>,
}
impl<F: Future<Output = Result<String, String>>> Future for Process<F> {
    type Output = (Result<String, String>, bool);
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        with(|_| ());
        let old = std::io::set_output_capture(Some(self.out.clone()));
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| self.inner.as_mut().poll(cx)));
        std::io::set_output_capture(old);
        match r {
            Ok(Poll::Ready(r)) => Poll::Ready((r, false)),
            Ok(Poll::Pending) => Poll::Pending,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Poll::Ready((Err(format!("panicked: {m}")), true))
            }
        }
    }
}

/// Longest a person waits for a command.
pub const PATIENCE: u64 = 900_000;

/// A client starts.
pub fn begin(inv: usize) {
    with(|s| {
        let now = s.now();
        s.out.entry(inv).or_default().start = now;
    });
}
/// The JavaScript client's answer, if it was not killed.
pub fn end(inv: usize, r: Option<Value>) {
    with(|s| {
        let now = s.now();
        let o = s.out.get_mut(&inv).unwrap();
        o.end = now;
        o.done = true;
        match &r {
            None => o.killed = true,
            Some(d) => {
                o.result = Some(match d.get("ok") {
                    Some(v) => Ok(v.to_string()),
                    None => Err(d["err"]["error"].as_str().unwrap_or_default().to_string()),
                })
            }
        }
        o.js = r;
    });
}

/// Starts a client process; it ends by itself or is killed.
pub fn spawn(inv: usize, args: Vec<String>, kill: Option<u64>) -> tokio::task::JoinHandle<()> {
    begin(inv);
    tokio::task::spawn_local(async move {
        let out = Arc::new(Mutex::new(vec![]));
        let p = Process { inner: Box::pin(simcli::invoke(args)), out: out.clone() };
        let r = tokio::time::timeout(Duration::from_millis(kill.unwrap_or(PATIENCE)), p).await;
        with(|s| {
            let now = s.now();
            let o = s.out.get_mut(&inv).unwrap();
            o.end = now;
            o.done = true;
            o.stdout = String::from_utf8_lossy(&out.lock().unwrap()).into_owned();
            match r {
                Ok((res, panicked)) => {
                    o.result = Some(res);
                    o.panicked = panicked;
                }
                Err(_) => o.killed = true,
            }
        });
    })
}
