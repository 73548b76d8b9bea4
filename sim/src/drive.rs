//! The search: cases from one seed on all cores, alarms confirmed, minimised and written down.
use crate::case::{self, Case, Stats, Violation};
use crate::json::{self, i, obj, s, J};
use crate::lab::{Lab, Paths, COMPILE_T, RUN_T};
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Found {
    k: u64,
    case: Case,
    v: Violation,
}

fn patient(lab: &mut Lab) {
    lab.compile_t = COMPILE_T;
    lab.run_t = RUN_T;
    lab.world_t = Duration::from_secs(60);
}
fn normal(lab: &mut Lab) {
    lab.compile_t = Duration::from_secs(20);
    lab.run_t = Duration::from_secs(10);
    lab.world_t = Duration::from_secs(20);
}

/// the same case again, in a laboratory of its own
fn again(paths: &Paths, c: &Case, v: &Violation) -> Option<Violation> {
    let mut lab = Lab::new(paths);
    if v.wall {
        patient(&mut lab);
    }
    let mut st = Stats::default();
    c.eval(&mut lab, &mut st)
}

/// findings that are recorded, not repaired: (property, class, text in the message)
fn known(paths: &Paths) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(paths.verif.join("KNOWN-FINDINGS")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let mut w = l.splitn(2, ' ');
            let p = w.next()?.to_string();
            let rest = w.next()?;
            // class="…" text="…"
            let g = |k: &str| rest.split(&format!("{}=\"", k)).nth(1).and_then(|x| x.split('"').next()).map(|x| x.to_string());
            Some((p, g("class")?, g("text")?))
        })
        .collect()
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "seeded generator of well-defined C programs (swarm configuration per program), library-dense programs and a hand-written corpus, each compiled under one or two simulated hash orders and run in the simulated runtime against the reference interpreter; non-trivial: distinct source and hash order that print something or return a value computed by the program",
        "C02" => "one generated program compiled under several of the 16 switch settings, each with its own simulated hash order; distinct source and set of settings",
        "C03" => "size templates (one dimension grown to around the places where encodings change) and large generated programs; distinct source and settings",
        "C04" => "generated and template programs with stack profiling, the module instrumented so that every store of the stack pointer is seen; distinct source and settings",
        "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" => "simulated worlds: compilers and preprocessors whose every system call waits for the seeded scheduler, with faults put at chosen operations; distinct by the hash of the whole event trace and the fault list",
        "C12" => "programs around the size of the runtime's memory, and runs whose memory or execution stack is refused; distinct source and run",
        "C13" => "histories of profiled runs with seeded clocks, clock jumps and log device faults; distinct source, clocks and faults",
        "C14" => "argument vectors up to and past the size of memory, and module files that do not arrive; distinct source, arguments and faults",
        _ => "",
    }
}

fn components(prop: &str) -> J {
    let cc = "real: the compiler binary built from /repo's working tree (its own code and std), the bundled headers";
    let rt = "real: /repo/runtime's modules, run by node's V8";
    let v = match prop {
        "C01" | "C02" | "C03" | "C04" | "C12" | "C13" | "C14" => vec![
            cc,
            rt,
            "real, not scheduled: the system's C preprocessor (its interleavings are the business of C06, C10 and C11)",
            "simulated: random numbers behind hash order, the runtime's clock, timers, process.exit, stdout/stderr, log and module files' faults, WebAssembly memory and compilation refusal",
            "reference: the interpreter of the simulator for what C prescribes",
        ],
        _ => vec![
            cc,
            "simulated: process scheduling, pipes, exits and signals, every file operation's result and errors, random numbers, allocation failure",
            "stub: the preprocessor process's own timing and failure are the simulator's; its output for a given input is the real preprocessor's (cached)",
            rt,
        ],
    };
    J::A(v.into_iter().map(s).collect())
}

fn same_run(a: &Stats, b: &Stats) -> bool {
    let strip = |m: &BTreeMap<String, u64>| -> Vec<(String, u64)> { m.iter().filter(|x| !x.0.ends_with(" ms")).map(|x| (x.0.clone(), *x.1)).collect() };
    a.ops == b.ops && a.sim_ms == b.sim_ms && a.schedules == b.schedules && a.faults == b.faults && strip(&a.by) == strip(&b.by)
}

pub fn check(prop: &str, tier: &str) -> i32 {
    let paths = Paths::get();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse().ok()).unwrap_or(1);
    let secs: u64 = std::env::var("SIM_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 1500 } else { 45 });
    let jobs: usize = std::env::var("SIM_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let first: u64 = std::env::var("SIM_FIRST").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    let max: u64 = std::env::var("SIM_MAX").ok().and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
    let all = std::env::var("SIM_ALL").is_ok(); // development: keep going after a violation
    println!("property {} tier {} seed {} for {} s on {} threads", prop, tier, seed, secs, jobs);
    let start = Instant::now();
    let end = start + Duration::from_secs(secs);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Stats::default());
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let known = known(&paths);
    let known_seen = Mutex::new(BTreeMap::<usize, String>::new());
    let (det, det_bad, gone, panics) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let seeds = AtomicU64::new(0);
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::scope(|sc| {
        for t in 0..jobs {
            let (paths, stop, total, found, known, known_seen) = (&paths, &stop, &total, &found, &known, &known_seen);
            let (det, det_bad, gone, panics, seeds) = (&det, &det_bad, &gone, &panics, &seeds);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let mut lab = Lab::new(paths);
                    normal(&mut lab);
                    let mut st = Stats::default();
                    let mut k = t as u64 + first;
                    while k < max && Instant::now() < end && !stop.load(SeqCst) {
                        let kk = k;
                        k += jobs as u64;
                        seeds.fetch_add(1, SeqCst);
                        let t0 = Instant::now();
                        let res = catch_unwind(AssertUnwindSafe(|| {
                            let mut one = Stats::default();
                            let c = case::make(prop, &mut lab, &mut Rng::stream(seed, prop, kk), kk);
                            let v = c.eval(&mut lab, &mut one);
                            if v.is_none() && kk % 40 == 7 {
                                let mut two = Stats::default();
                                let w = c.eval(&mut lab, &mut two);
                                det.fetch_add(1, SeqCst);
                                if w.is_some() || !same_run(&one, &two) {
                                    if std::env::var("SIM_DEBUG").is_ok() {
                                        eprintln!("case {} not deterministic: {:?} {:?} {:?} {:?} / {:?} {:?} {:?}", kk, w, one.ops, one.sim_ms, one.by, two.ops, two.sim_ms, two.by);
                                    }
                                    det_bad.fetch_add(1, SeqCst);
                                }
                            }
                            (c, v, one)
                        }));
                        if std::env::var("SIM_SLOW").is_ok() && t0.elapsed().as_millis() > 1000 {
                            eprintln!("case {}: {} ms", kk, t0.elapsed().as_millis());
                        }
                        match res {
                            Err(e) => {
                                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                                eprintln!("case {}: the simulator failed: {}", kk, m);
                                panics.fetch_add(1, SeqCst);
                                lab = Lab::new(paths);
                                normal(&mut lab);
                            }
                            Ok((c, v, one)) => {
                                let fresh = one.samples.clone();
                                st.merge(one);
                                let _ = fresh;
                                if let Some(v) = v {
                                    if let Some(n) = known.iter().position(|(p, cl, tx)| p == prop && *cl == v.class && v.msg.contains(tx.as_str())) {
                                        known_seen.lock().unwrap().entry(n).or_insert(v.msg.clone());
                                        continue;
                                    }
                                    // an alarm counts only if it comes again
                                    match catch_unwind(AssertUnwindSafe(|| again(paths, &c, &v))) {
                                        Ok(Some(w)) => {
                                            if std::env::var("SIM_DEBUG").is_ok() {
                                                eprintln!("case {}: {} {}", kk, w.class, w.msg);
                                            }
                                            found.lock().unwrap().push(Found { k: kk, case: c, v: w });
                                            if !all {
                                                stop.store(true, SeqCst);
                                            }
                                        }
                                        _ => {
                                            eprintln!("case {}: not repeated: {} {}", kk, v.class, v.msg);
                                            gone.fetch_add(1, SeqCst);
                                        }
                                    }
                                }
                            }
                        }
                    }
                    total.lock().unwrap().merge(st);
                })
                .expect("thread");
        }
    });
    let explored = start.elapsed().as_secs_f64();
    let st = total.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.k);
    let mut seen = vec![];
    found.retain(|f| {
        let new = !seen.contains(&f.v.class);
        seen.push(f.v.class.clone());
        new
    });
    let mut code = 0;
    let dir = paths.verif.join("build/replay");
    let _ = std::fs::create_dir_all(&dir);
    let keep = if all { 6 } else { 1 };
    let n_found = found.len();
    for f in found.into_iter().take(keep) {
        let file = dir.join(format!("{}-{}-{}.json", prop, seed, f.k));
        let mut lab = Lab::new(&paths);
        if f.v.wall {
            lab.compile_t = Duration::from_secs(20);
            lab.run_t = Duration::from_secs(10);
        }
        let until = Instant::now() + Duration::from_secs(if f.v.wall { 90 } else { 60 });
        let small = catch_unwind(AssertUnwindSafe(|| f.case.shrink(&mut lab, &f.v, until))).unwrap_or(f.case.clone());
        let (case, v) = match catch_unwind(AssertUnwindSafe(|| again(&paths, &Case::from(&json::parse(&small.json().dump()).unwrap()), &f.v))) {
            Ok(Some(w)) if w.class == f.v.class => (small, w),
            _ => (f.case, f.v),
        };
        let j = case.json();
        let mut j = match j {
            J::O(v) => J::O(v),
            x => x,
        };
        j.push("seed", i(seed));
        j.push("case_number", i(f.k));
        j.push("violation", obj(vec![("class", s(&v.class)), ("message", s(&v.msg))]));
        std::fs::write(&file, j.pretty()).expect("replay file");
        println!("{}: {}", v.class, v.msg);
        println!("VIOLATION property={} replay={}", prop, file.display());
        code = 1;
    }
    for (n, (p, cl, tx)) in known.iter().enumerate() {
        if p == prop {
            println!("KNOWN-FINDING: property={} {} {}{}", p, cl, tx, if known_seen.lock().unwrap().contains_key(&n) { "" } else { " (not met in this run)" });
        }
    }
    let (det, det_bad, gone, panics, seeds) = (det.into_inner(), det_bad.into_inner(), gone.into_inner(), panics.into_inner(), seeds.into_inner());
    let hours = explored / 3600.0;
    let nums = |m: &BTreeMap<String, u64>| J::O(m.iter().map(|(k, v)| (k.clone(), i(*v))).collect());
    let runs = st.by.get("simulated worlds").copied().unwrap_or(0) + st.by.get("program runs").copied().unwrap_or(0) + st.by.get("compilations").copied().unwrap_or(0);
    let cov = obj(vec![
        ("evaluations", i(st.evals)),
        ("distinct_nontrivial", i(st.distinct.len() as u64)),
        ("rule", s(rule(prop))),
        ("samples", J::A(st.samples.clone())),
        ("seeds", i(seeds)),
        ("seeds_per_hour", i((seeds as f64 / hours) as u64)),
        ("simulated_runs", i(runs)),
        ("simulated_runs_per_hour", i((runs as f64 / hours) as u64)),
        ("simulated_clock_ms_covered", i(st.sim_ms)),
        ("simulated_operations_scheduled", i(st.ops)),
        ("distinct_event_traces", i(st.schedules.len() as u64)),
        ("faults_fired", nums(&st.faults)),
        ("counts", nums(&st.by)),
        ("determinism_rechecks", i(det)),
        ("determinism_mismatches", i(det_bad)),
        ("alarms_that_did_not_repeat", i(gone)),
        ("simulator_failures", i(panics)),
        ("components", components(prop)),
    ]);
    let ev = obj(vec![
        ("property", s(prop)),
        ("tier", s(if tier == "thorough" { "thorough" } else { "quick" })),
        ("seed", i(seed)),
        ("level", s("exploration")),
        ("coverage", cov),
        (
            "assumptions",
            J::A(vec![
                s("sampling: a clean run is evidence, not proof"),
                s("the reference interpreter and size templates state what C prescribes for the generated subset"),
                s("system calls of the compiler go through libc symbols the simulator interposes"),
            ]),
        ),
        ("wall_s", J::N((start.elapsed().as_secs_f64() * 10.0).round() / 10.0)),
        ("violations", i(n_found as u64)),
    ]);
    let _ = std::fs::create_dir_all(paths.verif.join("evidence"));
    std::fs::write(paths.verif.join(format!("evidence/{}.json", prop)), ev.pretty()).expect("evidence");
    println!(
        "{} cases ({} distinct), {} simulated runs, {} operations, {} faults fired, {} event traces, {:.1} s; {} rechecked for determinism, {} differed",
        st.evals,
        st.distinct.len(),
        runs,
        st.ops,
        st.faults.values().sum::<u64>(),
        st.schedules.len(),
        explored,
        det,
        det_bad
    );
    if code == 0 && (st.evals == 0 || panics * 20 > seeds) {
        eprintln!("the simulator could not do its work");
        return 2;
    }
    code
}

pub fn replay(file: &str) -> i32 {
    let paths = Paths::get();
    let j = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|t| json::parse(&t)) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let c = Case::from(&j);
    let mut lab = Lab::new(&paths);
    let mut st = Stats::default();
    match c.eval(&mut lab, &mut st) {
        Some(v) => {
            println!("{}: {}", v.class, v.msg);
            println!("VIOLATION property={} replay={}", c.prop(), file);
            1
        }
        None => {
            println!("property {} holds on {}", c.prop(), file);
            0
        }
    }
}
