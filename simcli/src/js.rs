//! Invocations of the JavaScript client: its own sources, bundled with a
//! simulated user's program, run in a Node process that does nothing unless it
//! is handed a line. Requests it makes are served like those of every client.

use {
    crate::{
        chain::{blockhash, HASH_AGE},
        cmd::{Cmd, Inv, Who},
        host::{self, PATIENCE},
    },
    serde_json::{json, Value},
    solana_pubkey::Pubkey,
    std::{
        cell::RefCell,
        collections::BTreeMap,
        io::{BufRead, BufReader, Write},
        process::{Child, ChildStdin, ChildStdout, Command, Stdio},
        sync::Mutex,
        time::Duration,
    },
    tokio::{sync::oneshot, task::AbortHandle},
    twsim::{
        model,
        world::{wallet_seed, Pair},
    },
};

struct Node {
    _child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}
impl Node {
    fn start() -> Node {
        let bundle = std::env::var("TWJS").unwrap_or_else(|_| "/verif/target/client.js".into());
        let mut child = Command::new("node")
            .arg(&bundle)
            .env_clear()
            .env("PATH", std::env::var("PATH").unwrap_or_default())
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("node");
        let tx = child.stdin.take().unwrap();
        let rx = BufReader::new(child.stdout.take().unwrap());
        Node { _child: child, tx, rx }
    }
    fn line(&mut self, v: &Value) -> Option<Vec<Value>> {
        let mut s = v.to_string();
        s.push('\n');
        self.tx.write_all(s.as_bytes()).ok()?;
        let mut l = String::new();
        self.rx.read_line(&mut l).ok()?;
        serde_json::from_str(&l).ok()
    }
}
/// Idle processes; every run begins with a clean slate in one.
static POOL: Mutex<Vec<Node>> = Mutex::new(vec![]);

#[derive(Default)]
struct Here {
    node: Option<Node>,
    done: BTreeMap<usize, oneshot::Sender<Value>>,
    tasks: BTreeMap<usize, Vec<AbortHandle>>,
}
thread_local! {
    static H: RefCell<Here> = RefCell::default();
}
/// Ends this thread's use of its process.
pub fn release() {
    H.with(|h| {
        let h = std::mem::take(&mut *h.borrow_mut());
        POOL.lock().unwrap().extend(h.node);
    });
}

fn send(v: Value) {
    let items = H.with(|h| {
        let mut h = h.borrow_mut();
        if h.node.is_none() {
            let mut n = POOL.lock().unwrap().pop().unwrap_or_else(Node::start);
            n.line(&json!({"reset": true}));
            h.node = Some(n);
        }
        h.node.as_mut().unwrap().line(&v).unwrap_or_else(|| {
            eprintln!("harness: the node process of the JavaScript client died");
            std::process::exit(3)
        })
    });
    for x in items {
        let inv = x["inv"].as_u64().unwrap() as usize;
        if let Some(d) = x.get("done") {
            if let Some(t) = H.with(|h| h.borrow_mut().done.remove(&inv)) {
                let _ = t.send(d.clone());
            }
            continue;
        }
        let t = tokio::task::spawn_local(async move {
            let a = request(inv, &x["method"], &x["params"]).await;
            send(match a {
                Ok(v) => json!({"inv": inv, "n": x["n"], "ok": v}),
                Err(e) => json!({"inv": inv, "n": x["n"], "err": e}),
            });
        });
        H.with(|h| h.borrow_mut().tasks.entry(inv).or_default().push(t.abort_handle()));
    }
}

async fn request(inv: usize, method: &Value, params: &Value) -> Result<Value, Value> {
    if method == "sleep" {
        tokio::time::sleep(Duration::from_millis(params[0].as_u64().unwrap_or(0))).await;
        return Ok(Value::Null);
    }
    let body = json!({"jsonrpc": "2.0", "id": 1, "method": method, "params": params}).to_string();
    match host::serve(format!("http://sim.local/{inv}"), body).await {
        Err(e) => Err(json!({"message": format!("fetch failed: {e}")})),
        Ok(r) if r.status() != 200 => Err(json!({"message": format!("HTTP error ({}): {}", r.status().as_u16(), r.body())})),
        Ok(r) => match serde_json::from_str::<Value>(r.body()) {
            Err(e) => Err(json!({"message": format!("not JSON: {e}")})),
            Ok(v) if v.get("error").is_some() => Err(v["error"].clone()),
            Ok(v) => Ok(v["result"].clone()),
        },
    }
}

/// Starts an invocation; it ends by itself or is killed.
pub fn spawn(id: usize, inv: &Inv) -> tokio::task::JoinHandle<()> {
    let q = ask(id, inv);
    let kill = inv.kill;
    host::begin(id);
    tokio::task::spawn_local(async move {
        let (tx, rx) = oneshot::channel();
        H.with(|h| h.borrow_mut().done.insert(id, tx));
        send(json!({"inv": id, "start": q}));
        let r = tokio::time::timeout(Duration::from_millis(kill.unwrap_or(PATIENCE)), rx).await;
        let r = match r {
            Ok(Ok(d)) => Some(d),
            _ => {
                for t in H.with(|h| h.borrow_mut().tasks.remove(&id)).unwrap_or_default() {
                    t.abort();
                }
                H.with(|h| h.borrow_mut().done.remove(&id));
                send(json!({"inv": id, "drop": true}));
                None
            }
        };
        host::end(id, r);
    })
}

/// Key pairs by address.
fn seed(k: &Pubkey) -> Option<String> {
    crate::cmd::people().into_iter().find(|(l, i)| twsim::world::key(l, *i) == *k)
        .map(|(l, i)| wallet_seed(l, i).iter().map(|b| format!("{b:02x}")).collect())
}
fn who(w: &Who) -> Value {
    json!({"key": w.key.to_string(), "seed": if w.held { seed(&w.key) } else { None }})
}

/// Is the request made by signers on their own, over a transaction passed around?
pub fn offline(inv: &Inv) -> bool {
    inv.cmd.sign().is_some_and(|s| s.sign_only || !s.multi.is_empty() || !s.presigned.is_empty())
}

fn ask(id: usize, inv: &Inv) -> Value {
    let s = |k: &Option<Pubkey>| k.map(|k| k.to_string());
    let mut q = json!({
        "cmd": inv.cmd.kind(),
        "payer": who(&inv.payer),
        "number": inv.payer_from_config,
        "plugin": inv.payer_from_config,
        "multi": [],
        "offline": offline(inv),
        "place": id,
    });
    let o = q.as_object_mut().unwrap();
    let mut put = |k: &str, v: Value| {
        o.insert(k.into(), v);
    };
    if let Some(p) = inv.cmd.pair() {
        put("mint", json!(p.unwrapped.to_string()));
        put("wprog", json!(p.wprog.to_string()));
    }
    match &inv.cmd {
        Cmd::Wrap { account, wprog, amount, mint, recipient, uprog, .. } => {
            put("account", json!(account.to_string()));
            put("wprog", json!(wprog.to_string()));
            put("amount", json!(amount.to_string()));
            put("mint", json!(s(mint)));
            put("recipient", json!(s(recipient)));
            put("uprog", json!(s(uprog)));
        }
        Cmd::Unwrap { account, recipient, amount, mint, wprog, uprog, .. } => {
            put("account", json!(account.to_string()));
            put("recipient", json!(recipient.to_string()));
            put("amount", json!(amount.to_string()));
            put("mint", json!(s(mint)));
            put("wprog", json!(s(wprog)));
            put("uprog", json!(s(uprog)));
        }
        Cmd::CreateMint { idempotent, .. } | Cmd::CreateEscrow { idempotent, .. } => put("idempotent", json!(idempotent)),
        Cmd::CloseStuck { dest, .. } => put("dest", json!(dest.to_string())),
        Cmd::SyncT22 { source, owner, .. } => {
            put("source", json!(s(source)));
            put("owner", json!(s(owner)));
        }
        Cmd::SyncSpl { mint, source, owner } => {
            put("source", json!(s(source)));
            put("owner", json!(s(owner)));
            put("metaplex", json!(model::metaplex_pda(&Pair::new(0, *mint, crate::cmd::SPL, 0).wrapped).to_string()));
        }
        Cmd::FindPdas { .. } => {}
    }
    if let Some(s) = inv.cmd.sign() {
        put("auth", s.auth.as_ref().map_or(Value::Null, who));
        put("multi", s.multi.iter().map(who).collect());
        put("signOnly", json!(s.sign_only));
        if let Some(b) = s.blockhash {
            put("blockhash", json!(blockhash(b).to_string()));
            put("lastValid", json!((b + HASH_AGE).to_string()));
        }
        let mut steps: Vec<usize> = vec![];
        for p in &s.presigned {
            if !steps.contains(&p.step) {
                steps.push(p.step);
            }
        }
        put("parts", steps.iter().filter_map(|i| host::with(|s| {
            let t = s.out.get(i)?.result.as_ref()?.as_ref().ok()?;
            serde_json::from_str::<Value>(t).ok()?.get("tx").cloned()
        })).collect());
    }
    q
}
