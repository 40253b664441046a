#![recursion_limit = "256"]
#![feature(internal_output_capture)]
//! twcli: simulates the command line client against a faulty cluster.

mod chain;
mod clock;
mod cmd;
mod host;
mod js;
mod scen;

use {
    chain::Fault,
    cmd::KeyFiles,
    scen::{Act, Given, Run, Stats, Step},
    serde_json::{json, Value},
    std::{
        collections::BTreeMap,
        io::Write,
        sync::{
            atomic::{AtomicBool, AtomicU64, Ordering},
            Arc, Mutex,
        },
        time::{Duration, Instant},
    },
    twsim::{det, rng::Rng},
};

fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    Rng::derive(base.wrapping_mul(0x9e3779b97f4a7c15) ^ i, prop).next()
}

fn isolated<T: Send + 'static>(seed: u64, f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            det::seed(seed);
            clock::enter();
            f()
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| {
            eprintln!("harness: a run panicked (seed {seed})");
            std::process::exit(3)
        })
}
/// A run carries no reference counted state out of its thread.
struct Sendable(Run);
unsafe impl Send for Sendable {}

fn run_one(prop: &'static str, seed: u64, keys: &Arc<KeyFiles>, given: Option<Given>) -> Run {
    let k = keys.clone();
    let f = move || Sendable(scen::run(prop, seed, &k, given));
    let s = isolated(seed, f);
    s.0
}

fn known(prop: &str) -> &'static str {
    let prop = scen::PROPS.iter().find(|p| **p == prop).unwrap_or_else(|| {
        eprintln!("unknown property {prop}");
        std::process::exit(2)
    });
    if *prop == "C25" {
        twsim::sim::load_vm();
    }
    prop
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let keys = Arc::new(KeyFiles::create());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(known(&a[2]), &a[3], &keys),
        Some("replay") => replay(&a[2], &keys),
        Some("run") => {
            let r = run_one(known(&a[2]), a[3].parse().unwrap(), &keys, None);
            for l in &r.log {
                println!("{l}");
            }
            println!("{:?}\n{:?}", r.violation, r.other);
            0
        }
        Some("scan") => {
            // first run that violates, in one thread
            let prop = known(&a[2]);
            let n: u64 = a[3].parse().unwrap();
            match (0..n).find_map(|i| run_one(prop, seed_of(1, prop, i), &keys, None).violation.map(|v| (i, v))) {
                Some((i, v)) => {
                    println!("{i} {}: {}", v.class, v.detail);
                    1
                }
                None => 0,
            }
        }
        Some("hash") => {
            let prop = known(&a[2]);
            let mut h = Stats::default();
            for i in 0..a[3].parse().unwrap() {
                h.merge(run_one(prop, seed_of(1, prop, i), &keys, None).stats);
            }
            println!("{:016x} {} {} {}", h.digest, h.requests, h.states.len(), h.orders.len());
            0
        }
        _ => {
            eprintln!("usage: twcli check PROP quick|thorough | replay FILE");
            2
        }
    };
    keys.remove();
    std::process::exit(code)
}

fn quota(prop: &str) -> (u64, u64) {
    match prop {
        "C16" => (24_000, 2_000_000),
        "C23" => (15_000, 1_000_000),
        "C25" => (10_000, 1_000_000),
        _ => (18_000, 2_000_000),
    }
}

fn faults_json(f: &BTreeMap<(usize, usize), Fault>) -> Value {
    f.iter().map(|((i, n), f)| json!([i, n, f.code()])).collect()
}

fn check(prop: &'static str, tier: &str, keys: &Arc<KeyFiles>) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let env = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let q = quota(prop);
    let want = env("TWSIM_RUNS").unwrap_or(if thorough { q.1 } else { q.0 });
    let cap = Duration::from_secs(env("TWSIM_SECS").unwrap_or(if thorough { 3600 } else { 200 }));
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let found: Mutex<BTreeMap<u64, (u64, Sendable)>> = Mutex::new(BTreeMap::new());
    let others: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let samples: Mutex<BTreeMap<u64, Value>> = Mutex::new(BTreeMap::new());
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get());
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= want || stop.load(Ordering::SeqCst) || start.elapsed() > cap {
                    break;
                }
                let s = seed_of(seed, prop, i);
                let mut r = run_one(prop, s, keys, None);
                let st = std::mem::take(&mut r.stats);
                if i < 3 {
                    samples.lock().unwrap().insert(i, json!({"seed": s.to_string(), "history": r.log}));
                }
                total.lock().unwrap().merge(st);
                if let Some(o) = &r.other {
                    *others.lock().unwrap().entry(format!("{} ({})", o.class, o.props.join("/"))).or_default() += 1;
                }
                if r.violation.is_some() {
                    found.lock().unwrap().insert(i, (s, Sendable(r)));
                    stop.store(true, Ordering::SeqCst);
                }
            });
        }
    });
    let st = total.into_inner().unwrap();
    let wall = start.elapsed().as_secs_f64();
    let mut violation = Value::Null;
    let mut code = 0;
    if let Some((i, (s, r))) = found.into_inner().unwrap().into_iter().next() {
        let r = r.0;
        let (steps, faults, v) = scen::minimise(prop, s, &r, keys, |g| run_one(prop, s, keys, Some(g)));
        std::fs::create_dir_all("/verif/replays").ok();
        let path = format!("/verif/replays/{prop}-{s:016x}.json");
        let j = json!({
            "kind": "cli", "property": prop, "seed": s.to_string(), "violation": v.class, "detail": v.detail,
            "steps_before_minimising": r.steps.len(), "faults_before_minimising": r.faults.len(),
            "steps": steps.iter().map(|s| s.to_json()).collect::<Vec<_>>(),
            "faults": faults_json(&faults),
            "start": r.start.to_json(),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        println!("{}: {} ({} steps, {} faults; {} and {} before minimising; run {i}, seed {s})", v.class, v.detail, steps.len(), faults.len(), r.steps.len(), r.faults.len());
        let again = run_one(prop, s, keys, Some(Given { start: Some(r.start), steps, faults }));
        for l in &again.log {
            println!("  {l}");
        }
        println!("VIOLATION property={prop} replay={path}");
        violation = json!({"class": v.class, "detail": v.detail, "replay": path});
        code = 1;
    }
    evidence(prop, tier, seed, &st, wall, threads, violation, others.into_inner().unwrap(), samples.into_inner().unwrap());
    println!(
        "{prop} {tier}: {} runs, {} invocations ({} ok, {} failed, {} killed), {} fully determined, {} raced, {} requests, {} distinct states, {:.1} s",
        st.runs, st.invocations, st.ok, st.err, st.killed, st.exact, st.raced, st.requests, st.states.len(), wall
    );
    std::io::stdout().flush().ok();
    code
}

fn js_real() -> Value {
    json!(["JavaScript client: clients/js/src with its generated part, bundled from /repo and run by Node", "Token Wrap processor (native build of /repo/program)", "SPL Token, Token-2022, Associated Token Account and Metaplex programs (their SBF binaries)"])
}
fn js_stub() -> Value {
    json!(["@solana/kit, program-client-core and the system, token and token-2022 clients: stand-ins of what the client uses (/verif/js/stub.js; the libraries are not installed here)", "the program around the client that sends and confirms (/verif/js/app.js)", "transactions travel in the legacy encoding, whatever version is asked for", "RPC node and cluster: ledger, leader, forks, blockhash expiry (simulated)", "time (simulated)"])
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, seed: u64, st: &Stats, wall: f64, threads: usize, violation: Value, others: BTreeMap<String, u64>, samples: BTreeMap<u64, Value>) {
    let per_hour = if wall > 0.0 { (st.runs as f64 * 3600.0 / wall) as u64 } else { 0 };
    let j = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": wall,
        "coverage": {
            "evidence_kind": "seeded deterministic simulation with fault injection",
            "runs": st.runs,
            "seeds": st.runs,
            "seeds_per_hour": per_hour,
            "runs_per_hour": per_hour,
            "threads": threads,
            "invocations": st.invocations, "succeeded": st.ok, "failed": st.err, "killed": st.killed, "panicked": st.panicked,
            "rpc_requests": st.requests,
            "client_transactions_on_chain": st.landings, "of_them_successful": st.landed_ok,
            "other_transactions": st.world_txs,
            "simulated_seconds": st.sim_ms / 1000,
            "fault_kinds": st.faults,
            "commands_attempted_succeeded": st.commands.iter().map(|(k, v)| (k.to_string(), json!([v.0, v.1]))).collect::<BTreeMap<_, _>>(),
            "fully_determined_invocations": st.exact, "of_them_expected_to_succeed": st.exact_ok,
            "racing_or_faulted_invocations": st.raced, "landings_compared_with_reference": st.raced_ok,
            "sign_only_outputs_checked": st.offline, "offline_signed_broadcasts_succeeded": st.offline_ok,
            "retried_creations_compared": st.reruns,
            "skipped_for_missing_stand_ins": st.missing, "error_names_compared": st.named,
            "distinct_states": st.states.len(),
            "state_measure": "hash of (command, dry-run, output format, sign-only, sequence of request methods with the fault each met, killed, result, landings)",
            "distinct_interleavings": st.orders.len(),
            "interleaving_measure": "order in which the requests of the invocations of a run reached the node",
            "schedule_digest": format!("{:016x}", st.digest),
            "real_components": if prop == "C23" { js_real() } else { json!(["command line client: argument parsing, configuration, key files, commands, output (compiled from /repo/clients/cli/src)", "solana-rpc-client 4.1 (requests, retries, confirmation loop) above its transport", "Token Wrap processor and client library (native build of /repo/program)", "SPL Token, Token-2022, Associated Token Account and Metaplex programs (their SBF binaries)"]) },
            "stub_components": if prop == "C23" { js_stub() } else { json!(["HTTP transport, RPC node and cluster: ledger, leader, forks, blockhash expiry (simulated)", "time: tokio's clock and clock_gettime (simulated)", "hardware wallets (absent)"]) },
            "violations_of_other_properties_seen": others,
            "samples": samples.into_values().collect::<Vec<_>>(),
        },
        "violation": violation,
    });
    std::fs::create_dir_all("/verif/evidence").ok();
    std::fs::write(format!("/verif/evidence/{prop}.json"), serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

fn replay(path: &str, keys: &Arc<KeyFiles>) -> i32 {
    let j: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let prop = known(j["property"].as_str().unwrap());
    let seed: u64 = j["seed"].as_str().unwrap().parse().unwrap();
    let steps: Vec<Step> = j["steps"].as_array().unwrap().iter().map(|e| Step::from_json(e).expect("step")).collect();
    let faults = j["faults"].as_array().unwrap().iter().map(|f| {
        ((f[0].as_u64().unwrap() as usize, f[1].as_u64().unwrap() as usize), Fault::parse(f[2].as_str().unwrap()).expect("fault"))
    }).collect();
    // (files of older versions hold no world: it was derived from the seed)
    let start = j.get("start").map(|s| scen::Start::from_json(s).expect("start"));
    let n = steps.iter().filter(|s| matches!(s.act, Act::Cli(_))).count();
    let r = run_one(prop, seed, keys, Some(Given { start, steps, faults }));
    println!("{n} invocations");
    for l in &r.log {
        println!("{l}");
    }
    match r.violation {
        Some(v) => {
            println!("{}: {}", v.class, v.detail);
            println!("{}", if j["violation"] == v.class { "reproduced" } else { "a different violation" });
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}
