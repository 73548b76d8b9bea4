//! Program cases: simulated compilations (hash orders, switches) and simulated runs of one program.
use crate::case::{bj, jb, viol, Stats, Violation};
use crate::cprog::{self, Program};
use crate::gen::{self, Cfg};
use crate::interp::{self, Outcome};
use crate::json::{i, obj, s, J};
use crate::lab::{show, Flags, Lab, Ran, RunSpec, Trace};
use crate::rng::{hash_str, Rng};
use crate::scale::{self, PRun};
use crate::shrink::Shrinker;
use crate::sys::Status;
use std::collections::HashMap;
use std::time::Instant;

#[derive(Clone)]
pub struct ProgCase {
    pub prop: String,
    pub mode: String, // exact, agree, stack, flat, ends
    pub src: String,
    pub variants: Vec<(u64, u64)>, // switches, hash seed
    pub runs: Vec<PRun>,
    pub events: Vec<(usize, u64)>, // first byte and call path of each print
    pub note: String,
    pub prog: Option<Program>,
    pub tmpl: Option<(String, i64, i64, u64)>,
}

const LIMIT: u64 = 20000;

fn from_prog(prop: &str, mode: &str, p: Program, o: &Outcome, variants: Vec<(u64, u64)>, note: &str) -> ProgCase {
    ProgCase {
        prop: prop.into(),
        mode: mode.into(),
        src: cprog::text(&p),
        variants,
        runs: vec![PRun { args: vec![], code: o.code, out: o.out.clone() }],
        events: o.events.iter().map(|(a, s, p)| (*a, crate::rng::mix(p ^ ((*s as u64) << 20)))).collect(),
        note: note.into(),
        prog: Some(p),
        tmpl: None,
    }
}
fn from_tmpl(prop: &str, mode: &str, k: (String, i64, i64, u64), variants: Vec<(u64, u64)>) -> ProgCase {
    let t = scale::build(&k.0, k.1, k.2, k.3);
    ProgCase {
        prop: prop.into(),
        mode: mode.into(),
        src: t.text,
        variants,
        runs: t.runs,
        events: vec![],
        note: format!("template {} n={} m={} seed={:x}", k.0, k.1, k.2, k.3),
        prog: None,
        tmpl: Some(k),
    }
}

/// hand-written programs with outputs recorded from a reference compiler
pub fn corpus() -> &'static Vec<(String, String, PRun)> {
    use std::sync::OnceLock;
    static C: OnceLock<Vec<(String, String, PRun)>> = OnceLock::new();
    C.get_or_init(|| {
        let d = crate::lab::Paths::get().verif.join("corpus");
        let mut v = vec![];
        let mut names: Vec<_> = std::fs::read_dir(&d).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        names.sort();
        for p in names {
            if p.extension().map_or(true, |e| e != "c") {
                continue;
            }
            let src = std::fs::read_to_string(&p).unwrap_or_default();
            let exp = std::fs::read(p.with_extension("exp")).unwrap_or_default();
            // first line: exit status and arguments; the rest: output
            let Some(nl) = exp.iter().position(|b| *b == b'\n') else { continue };
            let head = String::from_utf8_lossy(&exp[..nl]).into_owned();
            let mut w = head.split('\t');
            let code = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            let args = w.map(|x| x.to_string()).collect();
            v.push((p.file_stem().unwrap().to_string_lossy().into_owned(), src, PRun { args, code, out: exp[nl + 1..].to_vec() }));
        }
        v
    })
}

fn lib_cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::swarm(r);
    c.libs = true;
    c.strings = true;
    c.arrays = true;
    c.ptrs = true;
    c.stmts = [8, 14, 20][r.idx(3)];
    c.depth = 1 + r.idx(3) as u32;
    c
}
fn big_cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::swarm(r);
    c.funcs = 4 + r.idx(8);
    c.stmts = [25, 40, 60][r.idx(3)];
    c.depth = 2 + r.idx(4) as u32;
    c.wild = true;
    c
}
fn stack_cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::swarm(r);
    c.funcs = 1 + r.idx(5);
    c.recursion = r.pct(80);
    c.loops = true;
    c
}
/// shapes where the optimisers have the most to do: deep control flow, many temporaries, recursion
fn opt_cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::swarm(r);
    c.funcs = 1 + r.idx(4);
    c.recursion = r.pct(75);
    c.depth = 2 + r.idx(3) as u32;
    c.loops = true;
    c.switches = r.pct(70);
    c
}

pub fn make(prop: &str, r: &mut Rng, k: u64) -> ProgCase {
    match prop {
        "C01" => {
            let mut vs = vec![(0, r.next())];
            if r.pct(30) {
                vs.push((if r.pct(50) { 16 } else { 0 }, r.next()));
            }
            let pick = r.idx(100);
            if pick < 10 && !corpus().is_empty() {
                let (n, src, run) = &corpus()[r.idx(corpus().len())];
                return ProgCase {
                    prop: prop.into(),
                    mode: "exact".into(),
                    src: src.clone(),
                    variants: vs,
                    runs: vec![run.clone()],
                    events: vec![],
                    note: format!("corpus program {}", n),
                    prog: None,
                    tmpl: None,
                };
            }
            if pick < 22 {
                return from_tmpl(prop, "exact", ("corp".into(), r.range(1, 7), r.range(0, 3), r.next()), vs);
            }
            if pick < 48 {
                let k = [("lib", 40), ("lib", 40), ("ops", 24), ("ops", 24), ("cexpr", 24), ("cgraph", 8), ("incl", 40)][r.idx(7)];
                return from_tmpl(prop, "exact", (k.0.into(), r.range(k.1 / 4, k.1), r.range(0, 9), r.next()), vs);
            }
            let lib = pick < 57;
            let (p, o) = gen::valid(r, &|r| if lib { lib_cfg(r) } else { Cfg::swarm(r) }, LIMIT);
            from_prog(prop, "exact", p, &o, vs, if lib { "library-dense program" } else { "swarm program" })
        }
        "C02" => {
            // everything off, everything on, and some of the other combinations
            let mut vs = vec![(7, r.next()), (0, r.next())];
            if r.pct(12) {
                for f in 1..16 {
                    if f != 7 {
                        vs.push((f, r.next()));
                    }
                }
            } else {
                for _ in 0..3 {
                    vs.push((r.below(16) | (r.below(2) << 4), r.next()));
                }
            }
            let pick = r.idx(100);
            if pick < 8 && !corpus().is_empty() {
                let (n, src, run) = &corpus()[r.idx(corpus().len())];
                return ProgCase {
                    prop: prop.into(),
                    mode: "agree".into(),
                    src: src.clone(),
                    variants: vs,
                    runs: vec![run.clone()],
                    events: vec![],
                    note: format!("corpus program {}", n),
                    prog: None,
                    tmpl: None,
                };
            }
            if pick < 40 {
                let k = match r.idx(7) {
                    4 | 5 | 6 => ("cgraph".to_string(), r.range(1, 12), r.range(0, 7), r.next()),
                    3 => ("corp".to_string(), r.range(1, 7), r.range(0, 3), r.next()),
                    0 => ("tail".to_string(), r.range(20, 90), r.range(0, 20), r.next()),
                    1 => ("leak".to_string(), r.range(30, 300), r.range(0, 20), r.next()),
                    _ => {
                        let (a, b, c, d) = scale::pick(r, vs.iter().any(|v| v.0 & 4 == 0));
                        (a, b.min(120), c, d)
                    }
                };
                return from_tmpl(prop, "agree", k, vs);
            }
            let (p, o) = gen::valid(r, &|r| if pick < 82 { opt_cfg(r) } else { Cfg::swarm(r) }, LIMIT);
            from_prog(prop, "agree", p, &o, vs, "swarm program under several switch settings")
        }
        "C03" => {
            let vs = vec![([0, 0, 0, 4, 4, 12, 15, r.below(16)][r.idx(8)], r.next())];
            if r.pct(80) {
                return from_tmpl(prop, "exact", scale::pick(r, vs.iter().any(|v| v.0 & 4 == 0)), vs);
            }
            let (p, o) = gen::valid(r, &|r| big_cfg(r), 60000);
            from_prog(prop, "exact", p, &o, vs, "large swarm program")
        }
        "C04" => {
            let on = 8 | r.below(4);
            let vs = vec![(on, r.next()), (on | 4, r.next())];
            if k % 97 == 5 {
                return from_tmpl(prop, "flat", ("vlaloop".into(), 500, r.range(0, 2), r.next()), vs);
            }
            match r.idx(13) {
                12 => from_tmpl(prop, "stack", ("cgraph".into(), r.range(1, 9), r.range(0, 7), r.next()), vs),
                11 => from_tmpl(prop, "stack", ("corp".into(), r.range(1, 7), r.range(0, 3), r.next()), vs),
                10 => from_tmpl(prop, "stack", ("frames".into(), [1, 2, 5, 9, 30][r.idx(5)], r.range(0, 4), r.next()), vs),
                0 | 1 => from_tmpl(prop, "flat", ("leak".into(), r.range(100, 1500), r.range(0, 30), r.next()), vs),
                2 | 3 => {
                    let vs = vec![(8 | (r.below(2) << 1), r.next()), (8 | 4 | (r.below(2) << 1), r.next())];
                    from_tmpl(prop, "flat", ("tail".into(), r.range(300, 3000), r.range(0, 30), r.next()), vs)
                }
                _ => {
                    let (p, o) = gen::valid(r, &|r| stack_cfg(r), 6000);
                    from_prog(prop, "stack", p, &o, vs, "swarm program with its stack pointer traced")
                }
            }
        }
        "C11" => {
            let n = 1 + r.idx(3);
            let vs: Vec<(u64, u64)> = (0..n).map(|_| (if r.pct(50) { 0 } else { r.below(16) }, r.next())).collect();
            if r.pct(35) {
                let (a, b, c, d) = scale::pick(r, vs.iter().any(|v| v.0 & 4 == 0));
                let mut c = from_tmpl(prop, "ends", (a, b, c, d), vs);
                c.runs.clear();
                return c;
            }
            let mut c = {
                let (p, o) = gen::valid(r, &|r| if k % 3 == 0 { big_cfg(r) } else { Cfg::swarm(r) }, LIMIT);
                from_prog(prop, "ends", p, &o, vs, "swarm program")
            };
            c.runs.clear();
            c.prog = None;
            if r.pct(50) {
                c.src = crate::scen::mangle(r, &c.src);
                c.note = "mangled program".into();
            }
            c
        }
        p => panic!("{}", p),
    }
}

fn first_error(e: &str) -> String {
    let l: Vec<&str> = e.lines().filter(|l| !l.trim().is_empty()).collect();
    let hit = l.iter().position(|l| l.contains("panicked") || l.to_lowercase().contains("error"));
    match hit {
        Some(k) => l[k..(k + 3).min(l.len())].join(" / "),
        None => l.last().map_or(String::new(), |x| x.to_string()),
    }
}
fn class_of(e: &str) -> String {
    // where it failed, without the numbers in it
    first_error(e).chars().filter(|c| !c.is_ascii_digit()).take(60).collect()
}

enum Beh {
    NoCompile(String, String),
    NoEnd,
    Died,
    Did(i32, Vec<u8>, String),
}
impl Beh {
    fn text(&self) -> String {
        match self {
            Beh::NoCompile(a, b) => format!("rejected ({}): {}", a, b),
            Beh::NoEnd => "did not finish".into(),
            Beh::Died => "took the runtime down".into(),
            Beh::Did(c, o, e) => format!("exit {} output \"{}\"{}", c, show(o), if e.is_empty() { String::new() } else { format!(" ({})", e) }),
        }
    }
}
fn beh(x: &Ran) -> Beh {
    if x.timeout {
        Beh::NoEnd
    } else if x.died {
        Beh::Died
    } else {
        Beh::Did(x.code, x.out.clone(), x.uncaught.clone())
    }
}
fn is(x: &Ran, w: &PRun) -> bool {
    !x.timeout && !x.died && x.code == w.code && x.out == w.out
}
fn same(a: &Beh, b: &Beh) -> bool {
    match (a, b) {
        (Beh::NoCompile(..), Beh::NoCompile(..)) | (Beh::NoEnd, Beh::NoEnd) | (Beh::Died, Beh::Died) => true,
        (Beh::Did(a, x, _), Beh::Did(b, y, _)) => a == b && x == y,
        _ => false,
    }
}

fn collapse(v: impl Iterator<Item = u64>) -> Vec<u64> {
    let mut o: Vec<u64> = vec![];
    for x in v {
        if o.last() != Some(&x) {
            o.push(x);
        }
    }
    o
}

impl ProgCase {
    pub fn eval(&self, lab: &mut Lab, st: &mut Stats) -> Option<Violation> {
        st.evals += 1;
        if st.distinct.insert(hash_str(&self.src) ^ hash_str(&format!("{:?}", self.variants))) {
            st.inc(&format!("programs: {}", self.note.split(|c| c == '=' || c == ' ').take(2).collect::<Vec<_>>().join(" ").trim_end_matches(" n")));
        }
        st.max("source bytes", self.src.len() as u64);
        let r = match self.mode.as_str() {
            "exact" => self.exact(lab, st),
            "agree" => self.agree(lab, st),
            "stack" => self.stack(lab, st),
            "flat" => self.flat(lab, st),
            "ends" => self.ends(lab, st),
            m => panic!("mode {}", m),
        };
        if st.samples.is_empty() {
            st.samples.push(obj(vec![("note", s(&self.note)), ("variants", self.vj()), ("source", s(&self.src.chars().take(900).collect::<String>()))]));
        }
        r
    }
    fn vname(v: &(u64, u64)) -> String {
        format!("switches {} hash seed {:x}", Flags::from_bits(v.0).text(), v.1)
    }
    /// one variant's behaviour; a surprising one is looked at again without the simulator in between
    fn behave(&self, lab: &mut Lab, st: &mut Stats, v: &(u64, u64), want: Option<&[PRun]>) -> Result<Vec<Beh>, Violation> {
        let c = lab.compile(&self.src, Flags::from_bits(v.0), v.1);
        st.inc("compilations");
        if c.status == Status::Timeout {
            return Err(Violation { class: "compiler hangs".into(), msg: format!("the compiler does not finish: {}", Self::vname(v)), wall: true });
        }
        if !c.ok() {
            return Ok(self.runs.iter().map(|_| Beh::NoCompile(c.status.text(), first_error(&c.err))).collect());
        }
        let w = c.wasm.unwrap();
        st.max("module bytes", w.len() as u64);
        let mut o = vec![];
        for (k, run) in self.runs.iter().enumerate() {
            let spec = RunSpec { args: run.args.clone(), ..Default::default() };
            st.inc("program runs");
            let mut x = lab.run(&w, &spec);
            st.sim_ms += x.sim_ms;
            st.max("memory bytes", x.mem_len);
            if want.map_or(false, |w| !is(&x, &w[k])) && !x.timeout {
                let y = lab.run_real(&w, &run.args);
                if want.map_or(false, |w| is(&y, &w[k])) {
                    st.inc("alarms withdrawn after an unsimulated run");
                    x = y;
                }
            }
            o.push(beh(&x));
        }
        if v.0 & 8 != 0 {
            clear_logs(lab);
        }
        Ok(o)
    }
    fn exact(&self, lab: &mut Lab, st: &mut Stats) -> Option<Violation> {
        for v in &self.variants {
            let b = match self.behave(lab, st, v, Some(&self.runs)) {
                Ok(b) => b,
                Err(e) => return Some(e),
            };
            for (b, w) in b.iter().zip(&self.runs) {
                let exp = format!("C prescribes exit {} output \"{}\"", w.code, show(&w.out));
                match b {
                    Beh::NoCompile(c, e) => return viol(&format!("rejected {}", class_of(e)), format!("a valid program is {}; {}", b.text(), Self::vname(v)).replace(&format!("({})", c), &format!("({})", c))),
                    Beh::NoEnd => return Some(Violation { class: "no end".into(), msg: format!("the program does not finish; {}; {}", exp, Self::vname(v)), wall: true }),
                    Beh::Died => return viol("died", format!("{}; {}; {}", b.text(), exp, Self::vname(v))),
                    Beh::Did(c, o, _) => {
                        if *c != w.code || *o != w.out {
                            return viol("wrong result", format!("{}; {}; {}", b.text(), exp, Self::vname(v)));
                        }
                    }
                }
            }
        }
        None
    }
    fn agree(&self, lab: &mut Lab, st: &mut Stats) -> Option<Violation> {
        let mut first: Option<Vec<Beh>> = None;
        for v in &self.variants {
            let b = match self.behave(lab, st, v, Some(&self.runs)) {
                Ok(b) => b,
                Err(e) => return Some(e),
            };
            if let Some(f) = &first {
                for (k, (x, y)) in f.iter().zip(&b).enumerate() {
                    if !same(x, y) {
                        let args = if self.runs[k].args.is_empty() { String::new() } else { format!(" (arguments {:?})", self.runs[k].args) };
                        let class = match (x, y) {
                            (Beh::NoCompile(..), _) | (_, Beh::NoCompile(..)) => "accepted and rejected",
                            _ => "different results",
                        };
                        return Some(Violation {
                            class: class.into(),
                            msg: format!("switches change the program{}: {} gives {}; {} gives {}", args, Self::vname(&self.variants[0]), x.text(), Self::vname(v), y.text()),
                            wall: matches!(x, Beh::NoEnd) || matches!(y, Beh::NoEnd),
                        });
                    }
                }
            } else {
                st.inc(match b.first() {
                    Some(Beh::Did(c, o, _)) if *c == self.runs[0].code && *o == self.runs[0].out => "reference behaviour as C prescribes",
                    _ => "reference behaviour not as C prescribes",
                });
                first = Some(b);
            }
        }
        None
    }
    fn ends(&self, lab: &mut Lab, st: &mut Stats) -> Option<Violation> {
        for v in &self.variants {
            let t = Instant::now();
            let c = lab.compile(&self.src, Flags::from_bits(v.0), v.1);
            st.max("compilation ms", t.elapsed().as_millis() as u64);
            st.inc(match c.status {
                Status::Exit(0) => "compilations accepted",
                Status::Timeout => "compilations without end",
                _ => "compilations rejected",
            });
            if c.status == Status::Timeout {
                return Some(Violation { class: "compiler hangs".into(), msg: format!("the compiler does not finish within {} s: {}", lab.compile_t.as_secs(), Self::vname(v)), wall: true });
            }
        }
        None
    }

    fn traced(&self, lab: &mut Lab, st: &mut Stats, v: &(u64, u64), run: &PRun) -> Result<(Ran, Trace, Option<Vec<u64>>), Option<Violation>> {
        let c = lab.compile(&self.src, Flags::from_bits(v.0), v.1);
        st.inc("compilations");
        if c.status == Status::Timeout {
            return Err(Some(Violation { class: "compiler hangs".into(), msg: format!("the compiler does not finish: {}", Self::vname(v)), wall: true }));
        }
        if !c.ok() {
            return Err(viol(&format!("rejected {}", class_of(&c.err)), format!("a valid program is rejected ({}): {}; {}", c.status.text(), first_error(&c.err), Self::vname(v))));
        }
        let w = c.wasm.unwrap();
        clear_logs(lab);
        let x = lab.run(&w, &RunSpec { args: run.args.clone(), trace: true, ..Default::default() });
        st.inc("program runs");
        st.sim_ms += x.sim_ms;
        let log = read_log(lab);
        clear_logs(lab);
        if x.timeout {
            return Err(Some(Violation { class: "no end".into(), msg: format!("the program does not finish; {}", Self::vname(v)), wall: true }));
        }
        let mut y = None;
        if !is(&x, run) {
            let real = lab.run_real(&w, &run.args);
            clear_logs(lab);
            if !is(&real, run) {
                return Err(viol(
                    "wrong result",
                    format!("with its stack profiled the program gives {}; C prescribes exit {} output \"{}\"; {}", beh(&real).text(), run.code, show(&run.out), Self::vname(v)),
                ));
            }
            st.inc("alarms withdrawn after an unsimulated run");
            y = Some(());
        }
        let t = x.trace.clone().unwrap_or_default();
        if !t.on || y.is_some() {
            st.inc("runs without a stack trace");
            return Err(None);
        }
        st.ops += t.stores.len() as u64;
        st.add("stack pointer changes seen", t.stores.len() as u64);
        Ok((x, t, log))
    }
    fn log_ok(&self, t: &Trace, log: &Option<Vec<u64>>, v: &(u64, u64)) -> Option<Violation> {
        let Some(log) = log else {
            return viol("no log", format!("a run with stack profiling wrote no log; {}", Self::vname(v)));
        };
        let want = collapse(std::iter::once(t.sp0).chain(t.stores.iter().cloned()));
        let got = collapse(std::iter::once(t.sp0).chain(log.iter().cloned()));
        if want != got {
            let k = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
            let cut = |x: &Vec<u64>| x[k.saturating_sub(3).min(x.len())..(k + 4).min(x.len())].to_vec();
            return viol(
                "log differs",
                format!("the stack log is not what the stack pointer did: {} changes, {} logged, first difference at entry {}: was {:?}, logged {:?}; {}", want.len(), got.len(), k, cut(&want), cut(&got), Self::vname(v)),
            );
        }
        None
    }
    fn stack(&self, lab: &mut Lab, st: &mut Stats) -> Option<Violation> {
        let run = &self.runs[0];
        let mut peaks: HashMap<u64, (u64, u64)> = HashMap::new();
        for v in &self.variants {
            let (_, t, log) = match self.traced(lab, st, v, run) {
                Ok(x) => x,
                Err(Some(e)) => return Some(e),
                Err(None) => continue,
            };
            if let Some(b) = t.stores.iter().find(|x| **x < t.sp0) {
                return viol("below base", format!("the stack pointer went to {}, below main's arguments at {}; {}", b, t.sp0, Self::vname(v)));
            }
            if let Some(e) = self.log_ok(&t, &log, v) {
                return Some(e);
            }
            // the same call site on the same call path always finds the same stack pointer
            let mut seen: HashMap<u64, (u64, u64)> = HashMap::new();
            for (off, sp, _) in &t.prints {
                let k = self.events.partition_point(|e| e.0 as u64 <= *off);
                if k == 0 {
                    continue;
                }
                let key = self.events[k - 1].1;
                match seen.get(&key) {
                    None => {
                        seen.insert(key, (*sp, *off));
                    }
                    Some((sp0, off0)) => {
                        st.inc("returns to a call path checked");
                        if sp0 != sp {
                            return viol(
                                "stack moved",
                                format!("the same print on the same call path had the stack pointer at {} (after {} bytes of output) and at {} (after {} bytes); {}", sp0, off0, sp, off, Self::vname(v)),
                            );
                        }
                    }
                }
            }
            let peak = t.stores.iter().cloned().max().unwrap_or(0);
            st.max("peak stack pointer", peak);
            peaks.insert(v.0, (peak, v.1));
        }
        for (f, (p, h)) in &peaks {
            if f & 4 == 0 {
                if let Some((q, _)) = peaks.get(&(f | 4)) {
                    st.inc("peak comparisons");
                    if p > q {
                        return viol("higher peak", format!("stack-allocation optimisation raises the peak of the stack pointer from {} to {}; {}", q, p, Self::vname(&(*f, *h))));
                    }
                }
            }
        }
        None
    }
    /// the same program with few and many rounds of completed (or tail) calls
    fn flat(&self, lab: &mut Lab, st: &mut Stats) -> Option<Violation> {
        for v in &self.variants {
            let mut peak: Option<u64> = None;
            for run in &self.runs {
                let (_, t, log) = match self.traced(lab, st, v, run) {
                    Ok(x) => x,
                    Err(Some(e)) => return Some(e),
                    Err(None) => continue,
                };
                if let Some(e) = self.log_ok(&t, &log, v) {
                    return Some(e);
                }
                let p = t.stores.iter().cloned().max().unwrap_or(0);
                st.max("peak stack pointer", p);
                if let Some(q) = peak {
                    st.inc("few-many comparisons");
                    if p > q {
                        let class = if self.tmpl.as_ref().map_or(false, |t| t.0 == "vlaloop") { "stack grows in a loop that declares a variable-length array" } else { "stack grows" };
                        return viol(class, format!("with argument {} the stack pointer reaches {}, with {} it reaches {}; {}", self.runs[0].args[0], q, run.args[0], p, Self::vname(v)));
                    }
                } else {
                    peak = Some(p);
                }
            }
        }
        None
    }

    pub fn shrink(&self, lab: &mut Lab, v: &Violation, until: Instant) -> ProgCase {
        let mut st = Stats::default();
        let mut cur = self.clone();
        let mut fails = |lab: &mut Lab, c: &ProgCase| c.eval(lab, &mut st).map_or(false, |x| x.class == v.class);
        // fewer variants
        let base = (cur.mode == "agree") as usize;
        for k in base..cur.variants.len() {
            let mut c = cur.clone();
            c.variants = cur.variants[..base].to_vec();
            c.variants.push(cur.variants[k]);
            if fails(lab, &c) {
                cur = c;
                break;
            }
        }
        // the plainest hash order that still shows it
        for h in [0u64, 1, 2] {
            let mut c = cur.clone();
            c.variants.iter_mut().for_each(|v| v.1 = h);
            if fails(lab, &c) {
                cur = c;
                break;
            }
        }
        if let Some(p) = cur.prog.clone() {
            let base = cur.clone();
            let limit = if cur.prop == "C03" { 60000 } else { LIMIT };
            let mut test = |q: &Program, o: &Outcome| {
                let mut c = from_prog(&base.prop, &base.mode, q.clone(), o, base.variants.clone(), &base.note);
                if c.mode == "ends" {
                    c.runs.clear();
                }
                fails(lab, &c)
            };
            let q = Shrinker { test: &mut test, trials: 900, limit, until }.run(&p);
            if let Ok(o) = interp::run(&q, limit) {
                let c = from_prog(&base.prop, &base.mode, q, &o, base.variants.clone(), &base.note);
                if fails(lab, &c) {
                    cur = c;
                }
            }
        } else if let Some(t) = cur.tmpl.clone() {
            let mut t = t;
            let mut step = t.1;
            while step > 0 && Instant::now() < until {
                let mut c2 = None;
                if t.1 > step {
                    let cand = (t.0.clone(), t.1 - step, t.2, t.3);
                    let mut c = from_tmpl(&cur.prop, &cur.mode, cand.clone(), cur.variants.clone());
                    if c.mode == "ends" {
                        c.runs.clear();
                    }
                    if fails(lab, &c) {
                        c2 = Some((cand, c));
                    }
                }
                match c2 {
                    Some((cand, c)) => {
                        t = cand;
                        cur = c;
                    }
                    None => step /= 2,
                }
            }
        } else if cur.note == "mangled program" || cur.mode == "ends" {
            // lines, then bytes in chunks
            let mut lines: Vec<String> = cur.src.lines().map(|x| x.to_string()).collect();
            let mut chunk = (lines.len() / 2).max(1);
            while Instant::now() < until {
                let mut k = 0;
                let mut any = false;
                while k < lines.len() && Instant::now() < until {
                    let mut l = lines.clone();
                    l.drain(k..(k + chunk).min(l.len()));
                    let mut c = cur.clone();
                    c.src = l.join("\n") + "\n";
                    if fails(lab, &c) {
                        cur = c;
                        lines = l;
                        any = true;
                    } else {
                        k += chunk;
                    }
                }
                if chunk == 1 && !any {
                    break;
                }
                chunk = (chunk / 2).max(1);
            }
        }
        cur
    }

    fn vj(&self) -> J {
        J::A(
            self.variants
                .iter()
                .map(|v| obj(vec![("switches", i(v.0)), ("args", s(&Flags::from_bits(v.0).text())), ("hash_seed", i(v.1))]))
                .collect(),
        )
    }
    pub fn json(&self) -> J {
        obj(vec![
            ("property", s(&self.prop)),
            ("mode", s(&self.mode)),
            ("note", s(&self.note)),
            ("variants", self.vj()),
            ("runs", J::A(self.runs.iter().map(|r| obj(vec![("args", J::A(r.args.iter().map(|a| s(a)).collect())), ("exit", i(r.code)), ("output", bj(&r.out))])).collect())),
            ("prints", J::A(self.events.iter().map(|e| J::A(vec![i(e.0 as u64), i(e.1)])).collect())),
            ("source", s(&self.src)),
        ])
    }
    pub fn from(j: &J) -> ProgCase {
        ProgCase {
            prop: j.get("property").str().into(),
            mode: j.get("mode").str().into(),
            note: j.get("note").str().into(),
            variants: j.get("variants").arr().iter().map(|v| (v.get("switches").u64(), v.get("hash_seed").u64())).collect(),
            runs: j
                .get("runs")
                .arr()
                .iter()
                .map(|r| PRun { args: r.get("args").arr().iter().map(|a| a.str().to_string()).collect(), code: r.get("exit").int() as i32, out: jb(r.get("output")) })
                .collect(),
            events: j.get("prints").arr().iter().map(|e| (e.arr()[0].u64() as usize, e.arr()[1].u64())).collect(),
            src: j.get("source").str().into(),
            prog: None,
            tmpl: None,
        }
    }
}

pub fn clear_logs(lab: &Lab) {
    if let Ok(d) = std::fs::read_dir(lab.path("logs")) {
        for e in d.flatten() {
            let _ = std::fs::remove_file(e.path());
        }
    }
}
/// the entries of the only log there is
fn read_log(lab: &Lab) -> Option<Vec<u64>> {
    let mut v: Vec<_> = std::fs::read_dir(lab.path("logs")).ok()?.flatten().map(|e| e.path()).collect();
    v.sort();
    let t = std::fs::read(v.first()?).ok()?;
    Some(entries(&t))
}
pub fn entries(t: &[u8]) -> Vec<u64> {
    String::from_utf8_lossy(t).split(|c: char| c.is_ascii_whitespace() || c == ',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(u64::MAX)).collect()
}
