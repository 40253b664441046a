use {
    serde_json::{json, Value},
    std::{
        collections::BTreeMap,
        io::Write,
        sync::{
            atomic::{AtomicBool, AtomicU64, Ordering},
            Mutex,
        },
        time::{Duration, Instant},
    },
    twsim::{
        det,
        oracle::Violation,
        profile::{self, Profile},
        rng::Rng,
        sim::{self, Run, Stats},
        trace::Event,
    },
};

fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let mut r = Rng::derive(base.wrapping_mul(0x9e3779b97f4a7c15) ^ i, prop);
    r.next()
}

/// One run on a thread of its own, so that thread-local state is fresh.
fn isolated<T: Send + 'static>(seed: u64, f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            det::seed(seed);
            f()
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| {
            eprintln!("harness: a run panicked (seed {seed})");
            std::process::exit(3)
        })
}

fn run_one(prop: &'static str, seed: u64) -> Run {
    isolated(seed, move || {
        let p = profile::profile(prop).unwrap();
        sim::run(&p, seed)
    })
}

fn known(prop: &str) -> &'static str {
    profile::PROGRAM_PROPS.iter().find(|p| **p == prop).unwrap_or_else(|| {
        eprintln!("unknown property {prop}");
        std::process::exit(2)
    })
}

/// C24 runs the program's VM build too.
fn load_vm(prop: &str) {
    if prop == "C24" {
        sim::load_vm();
    }
}

fn replay_json(prop: &str, seed: u64, world: &Value, events: &[Event], v: &Violation, original: usize) -> Value {
    json!({
        "kind": "program",
        "property": prop,
        "seed": seed.to_string(),
        "violation": v.class,
        "detail": v.detail,
        "events_before_minimising": original,
        "world": world,
        "events": events.iter().map(|e| e.to_json()).collect::<Vec<_>>(),
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], &a[3]),
        Some("replay") => replay(&a[2]),
        Some("run") => {
            let prop = known(&a[2]);
            let r = run_one(prop, a[3].parse().unwrap());
            println!("{} events, schedule {:016x}, ok {} failed {} rejected {}", r.events.len(), r.stats.schedule, r.stats.ok, r.stats.failed, r.stats.rejected);
            println!("{:?}\n{:?}", r.violation, r.other);
        }
        Some("hash") => {
            // determinism probe: a digest of n runs
            let prop = known(&a[2]);
            let n: u64 = a[3].parse().unwrap();
            let mut h = Stats::default();
            for i in 0..n {
                h.merge(run_one(prop, seed_of(1, prop, i)).stats);
            }
            println!("{:016x} {} {}", h.schedule, h.events, h.states.len());
        }
        _ => {
            eprintln!("usage: twsim check PROP quick|thorough | replay FILE");
            std::process::exit(2)
        }
    }
}

fn check(prop: &str, tier: &str) {
    let prop = known(prop);
    load_vm(prop);
    let p = profile::profile(prop).unwrap();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let env = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let want = env("TWSIM_RUNS").unwrap_or(if thorough { p.thorough } else { p.quick });
    let cap = Duration::from_secs(env("TWSIM_SECS").unwrap_or(if thorough { 3600 } else { 240 }));
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    // the violation with the lowest run index wins, so the result does not
    // depend on thread timing
    let found: Mutex<BTreeMap<u64, (u64, Run)>> = Mutex::new(BTreeMap::new());
    let others: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let samples: Mutex<BTreeMap<u64, Value>> = Mutex::new(BTreeMap::new());
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get());
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= want || stop.load(Ordering::SeqCst) || start.elapsed() > cap {
                    break;
                }
                let s = seed_of(seed, prop, i);
                let mut r = run_one(prop, s);
                let st = std::mem::take(&mut r.stats);
                if i < 3 {
                    samples.lock().unwrap().insert(i, sample(&r, s));
                }
                total.lock().unwrap().merge(st);
                if let Some(o) = &r.other {
                    *others.lock().unwrap().entry(format!("{} ({})", o.class, o.props.join("/"))).or_default() += 1;
                }
                if r.violation.is_some() {
                    found.lock().unwrap().insert(i, (s, r));
                    stop.store(true, Ordering::SeqCst);
                }
            });
        }
    });
    let st = total.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    let wall = start.elapsed().as_secs_f64();
    let mut violation = Value::Null;
    let mut code = 0;
    if let Some((i, (s, r))) = found.into_iter().next() {
        let v = r.violation.clone().unwrap();
        let n = r.events.len();
        let ev = r.events.clone();
        let v0 = v.clone();
        let world = isolated(s, move || sim::Sim::start(&profile::profile(prop).unwrap(), s));
        let w0 = world.clone();
        let (mut min, mut mv) = isolated(s, move || {
            let p = profile::profile(prop).unwrap();
            sim::minimise(&p, &w0, &ev, &v0, Duration::from_secs(60))
        });
        // the file must reproduce it from scratch
        let (w0, m0) = (world.clone(), min.clone());
        let again = isolated(s, move || sim::replay(&profile::profile(prop).unwrap(), &w0, &m0, |_, _, _, _| {}));
        if again.is_none_or(|(_, x)| x.class != mv.class) {
            (min, mv) = (r.events.clone(), v.clone());
        }
        std::fs::create_dir_all("/verif/replays").ok();
        let path = format!("/verif/replays/{prop}-{s:016x}.json");
        let j = replay_json(prop, s, &world, &min, &mv, n);
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        println!("{}: {} ({} events, {} before minimising, run {i}, seed {s})", mv.class, mv.detail, min.len(), n);
        for e in &min {
            if let Event::Tx(t) = e {
                println!("  slot {} {}{}", t.slot, t.label, match t.tx.crash {
                    twsim::native::CrashPoint::None => String::new(),
                    c => format!("  [{c:?}]"),
                });
            }
        }
        println!("VIOLATION property={prop} replay={path}");
        violation = json!({"class": mv.class, "detail": mv.detail, "replay": path});
        code = 1;
    }
    evidence(&p, tier, seed, &st, wall, threads, violation, others.into_inner().unwrap(), samples.into_inner().unwrap());
    println!(
        "{prop} {tier}: {} runs, {} transactions ({} ok), {} model comparisons, {} distinct states, {} redemptions, {:.1} s",
        st.runs, st.events, st.ok, st.comparisons, st.states.len(), st.redeemed, wall
    );
    std::io::stdout().flush().ok();
    std::process::exit(code)
}

fn sample(r: &Run, seed: u64) -> Value {
    let t: Vec<String> = r.events.iter().take(14).map(|e| match e {
        Event::Tx(t) => format!("slot {}: {}", t.slot, t.label),
        Event::Rent(n) => format!("rent lowered to {n}"),
        Event::Put(k, _) => format!("third party rewrites {}", r.names.get(k).cloned().unwrap_or_else(|| k.to_string())),
    }).collect();
    json!({"seed": seed.to_string(), "events": r.events.len(), "first": t})
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &Profile, tier: &str, seed: u64, st: &Stats, wall: f64, threads: usize, violation: Value, others: BTreeMap<String, u64>, samples: BTreeMap<u64, Value>) {
    let hours = wall / 3600.0;
    let per_hour = if hours > 0.0 { (st.runs as f64 / hours) as u64 } else { 0 };
    let j = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": wall,
        "coverage": {
            "evidence_kind": "seeded deterministic simulation with fault injection",
            "runs": st.runs,
            "seeds": st.runs,
            "seeds_per_hour": per_hour,
            "runs_per_hour": per_hour,
            "threads": threads,
            "transactions": st.events,
            "succeeded": st.ok, "failed": st.failed, "rejected": st.rejected,
            "simulated_seconds": st.slots * 2 / 5,
            "fault_kinds": st.faults,
            "operations_attempted_succeeded": st.ops.iter().map(|(k, v)| (k.to_string(), json!([v.0, v.1]))).collect::<BTreeMap<_, _>>(),
            "model_comparisons": st.comparisons,
            "invariant_evaluations": st.invariants,
            "vm_executions": st.vm_runs,
            "most_compute_units": {"sync requests": st.vm_cu[1], "other requests": st.vm_cu[0]},
            "final_drains": st.drained,
            "redemptions_in_drains": st.redeemed,
            "distinct_states": st.states.len(),
            "state_measure": "hash of (per pair: mint program and extensions, supply class, escrow class/state/surplus, back pointer, pointer, metadata presence, hook mode) with the request kind, its tags and the outcome",
            "schedule_digest": format!("{:016x}", st.schedule),
            "real_components": ["Token Wrap processor, instructions and customizers (native build of /repo/program)", "Token Wrap client library instruction builders", "SPL Token, Token-2022, Associated Token Account and Metaplex programs (their SBF binaries)", "System program and Solana program runtime 3.1 (CPI privileges, account ownership, balance rules, compute metering of callees)"],
            "stub_components": ["network and clients (simulated)", "ledger: fees, signatures, rent states, clock (simulated)", "transfer-hook, external-metadata and memo programs (stand-ins)", "syscall boundary of Token Wrap (seam in vendored solana-cpi/solana-msg)"],
            "violations_of_other_properties_seen": others,
            "samples": samples.into_values().collect::<Vec<_>>(),
        },
        "violation": violation,
    });
    std::fs::create_dir_all("/verif/evidence").ok();
    std::fs::write(format!("/verif/evidence/{}.json", p.id), serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

fn replay(path: &str) {
    let j: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let prop = known(j["property"].as_str().unwrap());
    load_vm(prop);
    let seed: u64 = j["seed"].as_str().unwrap().parse().unwrap();
    let events: Vec<Event> = j["events"].as_array().unwrap().iter().map(|e| Event::from_json(e).expect("event")).collect();
    let class = j["violation"].as_str().unwrap().to_string();
    let path = path.to_string();
    // (files of older versions hold no world: it was derived from the seed)
    let world = match j.get("world") {
        Some(w) => w.clone(),
        None => isolated(seed, move || sim::Sim::start(&profile::profile(prop).unwrap(), seed)),
    };
    let r = isolated(seed, move || {
        let p = profile::profile(prop).unwrap();
        sim::replay(&p, &world, &events, |i, e, v, _| {
            if let Event::Tx(t) = e {
                println!("{i:4} slot {} {} -> {:?}", t.slot, t.label, v.as_ref().unwrap());
            } else {
                println!("{i:4} third-party state change");
            }
        })
    });
    match r {
        Some((i, v)) => {
            println!("{} at event {i}: {}", v.class, v.detail);
            println!("{}", if v.class == class { "reproduced" } else { "a different violation" });
            println!("VIOLATION property={prop} replay={path}");
            std::process::exit(1)
        }
        None => println!("no violation"),
    }
}
