#![allow(dead_code)]
mod case;
mod cprog;
mod drive;
mod gen;
mod interp;
mod json;
mod lab;
mod cgraph;
mod corp;
mod libs;
mod prog;
mod rng;
mod rt;
mod scale;
mod scen;
mod shrink;
mod sys;
mod world;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |k: usize, d: u64| a.get(k).map_or(d, |s| s.parse().unwrap());
    match a.get(1).map(|s| s.as_str()) {
        Some("gen") => {
            let dir = &a[2];
            for i in 0..num(3, 1) {
                let mut r = rng::Rng::stream(num(4, 1), "gen", i);
                let (p, o) = gen::valid(&mut r, &|r| gen::Cfg::swarm(r), 20000);
                std::fs::write(format!("{}/{}.c", dir, i), cprog::text(&p)).unwrap();
                std::fs::write(format!("{}/{}.exp", dir, i), [&o.out[..], format!("\n[exit {}]\n", o.code).as_bytes()].concat()).unwrap();
            }
        }
        Some("check") => std::process::exit(drive::check(&a[2], a.get(3).map_or("quick", |x| x))),
        Some("tmpl") => print!("{}", scale::build(&a[2], num(3, 10) as i64, num(4, 0) as i64, num(5, 1)).text),
        Some("kinds") => {
            for k in scale::KINDS {
                println!("{} {} {} {}", k.0, k.1, k.2, k.3);
            }
        }
        Some("show") => {
            let mut lab = lab::Lab::new(&lab::Paths::get());
            let k = num(4, 0);
            println!("{}", case::make(&a[2], &mut lab, &mut rng::Rng::stream(num(3, 1), &a[2], k), k).json().pretty());
        }
        Some("replay") => std::process::exit(drive::replay(&a[2])),
        Some("hunt") => hunt(num(2, 1), num(3, 100), num(4, 8) as usize),
        Some("world") => {
            let paths = lab::Paths::get();
            let sc = sys::Scratch::new("w");
            let root = sc.0.clone();
            sys::copy_dir(&paths.repo.join("headers"), &root.join("headers"));
            for d in ["bin", "cache", "tmp"] {
                std::fs::create_dir_all(root.join(d)).unwrap();
            }
            std::os::unix::fs::symlink(&paths.simcpp, root.join("bin/cpp")).unwrap();
            std::fs::copy(&a[2], root.join("p.c")).unwrap();
            for k in 0..3 {
                let t = std::time::Instant::now();
                let st = world::Setup {
                    root: &root, shim: &paths.shim, cc: &paths.cc, cache: &root.join("cache"), bin: &root.join("bin"),
                    procs: vec![world::Proc { args: vec!["p.c".into(), "-o".into(), "o.wasm".into()], cwd: root.clone(), seed: 5, ..Default::default() }],
                    faults: vec![], sched: world::Sched::seeded(num(3, 1) + k, 30), pipe_cap: 0, max_steps: 100000, wall: std::time::Duration::from_secs(20),
                };
                let d = world::run(&st);
                if k == 2 { for l in d.text() { println!("{}", l); } }
                println!("{:?} {:?} {:?} {:?} {:x} {:?} {:?}", d.status, d.err, d.stuck, d.allocs, d.hash(), t.elapsed(), d.choices);
            }
        }
        _ => {}
    }
}

/// development aid: explore generated programs and print shrunk failures
fn hunt(seed: u64, n: u64, jobs: usize) {
    use lab::*;
    let paths = Paths::get();
    let fails = std::sync::Mutex::new(0);
    std::thread::scope(|sc| {
        for t in 0..jobs {
            let (paths, fails) = (&paths, &fails);
            sc.spawn(move || {
                let mut lab = Lab::new(paths);
                lab.run_t = std::time::Duration::from_secs(2);
                let mut k = t as u64;
                while k < n {
                    let mut r = rng::Rng::stream(seed, "gen", k);
                    let (p, o) = gen::valid(&mut r, &|r| gen::Cfg::swarm(r), 20000);
                    let fl = Flags::from_bits(if r.pct(40) { 0 } else { r.below(8) });
                    let hs = r.next();
                    let check = |lab: &mut Lab, p: &cprog::Program, o: &interp::Outcome| -> Option<String> {
                        let t0 = std::time::Instant::now();
                        let c = lab.compile(&cprog::text(p), fl, hs);
                        if t0.elapsed().as_secs_f64() > 2.0 {
                            println!("slow {} {:?}", k, t0.elapsed());
                        }
                        if !c.ok() {
                            let l = c.err.lines().filter(|l| l.contains("error") || l.contains("panicked") || l.contains("Error")).next().unwrap_or("").to_string();
                            return Some(format!("compile {} {} {}", c.status.text(), l, c.err.lines().nth(1).unwrap_or("")));
                        }
                        let x = lab.run(&c.wasm.unwrap(), &RunSpec::default());
                        if x.timeout || x.died {
                            return Some("run timeout".into());
                        }
                        if x.code != o.code || x.out != o.out {
                            return Some(format!("diff {} {} vs {} {}: {}", x.code, show(&x.out), o.code, show(&o.out), x.uncaught));
                        }
                        None
                    };
                    if let Some(m) = check(&mut lab, &p, &o) {
                        let class = |m: &str| m.split(' ').take(3).collect::<Vec<_>>().join(" ");
                        let cl = |m: &str| if m.starts_with("diff") { "diff".to_string() } else { class(m) };
                        let c0 = cl(&m);
                        let mut test = |q: &cprog::Program, o: &interp::Outcome| check(&mut lab, q, o).map_or(false, |m| cl(&m) == c0);
                        let q = shrink::Shrinker { test: &mut test, trials: 600, limit: 20000, until: std::time::Instant::now() + std::time::Duration::from_secs(40) }.run(&p);
                        let o2 = interp::run(&q, 20000).unwrap();
                        let m2 = check(&mut lab, &q, &o2).unwrap_or(m);
                        let mut f = fails.lock().unwrap();
                        *f += 1;
                        println!("=== {} flags {} seed {:x}: {}\n{}", k, fl.text(), hs, m2, cprog::text(&q));
                    }
                    k += jobs as u64;
                }
            });
        }
    });
    println!("{} failures of {}", fails.lock().unwrap(), n);
}
