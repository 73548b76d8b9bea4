//! World cases: one or more compilers and their preprocessors in a scratch directory tree, under a
//! seeded schedule and a list of faults; possibly several such steps after each other.
use crate::case::{bj, jb, viol, Stats, Violation};
use crate::cprog;
use crate::gen::{self, Cfg};
use crate::json::{i, obj, s, J};
use crate::lab::{show, Flags, Lab, RunSpec};
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::sys::{self, Status};
use crate::world::{self, cls_id, op_id, Done, Fault, Proc, Sched, Setup};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::Instant;

#[derive(Clone, Debug, Default)]
pub struct WProc {
    pub src: String,       // relative to cwd
    pub out: String,       // relative to cwd; empty: not given on the command line
    pub flags: u64,
    pub cwd: String,       // relative to the tree
    pub seed: u64,
    pub alloc_fail: i64,
    pub cpp: String,
    pub log: String,
    pub raw: Vec<String>,  // these arguments instead
}
impl WProc {
    fn args(&self) -> Vec<String> {
        if !self.raw.is_empty() {
            return self.raw.clone();
        }
        let mut v = vec![self.src.clone()];
        if !self.out.is_empty() {
            v.push("-o".into());
            v.push(self.out.clone());
        }
        v.extend(Flags::from_bits(self.flags).args());
        v
    }
    /// relative to the tree
    fn out_path(&self) -> String {
        let o = if !self.out.is_empty() {
            self.out.clone()
        } else if let Some(k) = self.raw.iter().position(|a| a == "-o" || a == "--output") {
            self.raw.get(k + 1).cloned().unwrap_or_default()
        } else if let Some(a) = self.raw.iter().find_map(|a| a.strip_prefix("--output=").or(a.strip_prefix("-o"))) {
            a.to_string()
        } else {
            "module.wasm".into()
        };
        join(&self.cwd, &o)
    }
}
fn join(a: &str, b: &str) -> String {
    let mut v: Vec<&str> = if b.starts_with('/') { vec![] } else { a.split('/').filter(|x| !x.is_empty() && *x != ".").collect() };
    for x in b.split('/') {
        match x {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            x => v.push(x),
        }
    }
    v.join("/")
}
#[derive(Clone, Debug)]
pub struct Step {
    pub procs: Vec<WProc>,
    pub faults: Vec<Fault>,
    pub sched: Sched,
    pub pipe_cap: i64,
}
#[derive(Clone)]
pub struct WorldCase {
    pub prop: String,
    pub files: Vec<(String, Vec<u8>)>, // ends in '/': a directory; "a -> b": a symbolic link
    pub steps: Vec<Step>,
    pub note: String,
    pub must_fail: bool, // the input cannot be read or is not text: no compilation may succeed
}

const MAX_STEPS: usize = 120_000;

// ---------------------------------------------------------------- evaluation

struct Tree {
    root: PathBuf,
}
fn bin_dir(lab: &Lab) -> PathBuf {
    let b = lab.path("bin");
    if !b.join("cpp").exists() {
        std::fs::create_dir_all(&b).expect("scratch");
        std::os::unix::fs::symlink(&lab.p.simcpp, b.join("cpp")).expect("scratch");
        std::fs::create_dir_all(lab.path("cache")).expect("scratch");
    }
    b
}
fn set_up(lab: &Lab, files: &[(String, Vec<u8>)]) -> Tree {
    let root = lab.path("w");
    if root.exists() {
        for e in std::fs::read_dir(&root).expect("scratch").flatten() {
            let p = e.path();
            if e.file_type().map_or(false, |t| t.is_dir()) {
                if e.file_name() != "headers" {
                    let _ = std::fs::remove_dir_all(&p);
                }
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    } else {
        std::fs::create_dir_all(&root).expect("scratch");
    }
    // the headers as shipped, exactly
    let h = root.join("headers");
    let keep: Vec<_> = std::fs::read_dir(lab.p.repo.join("headers")).expect("headers").flatten().map(|e| e.file_name()).collect();
    if h.exists() && std::fs::read_dir(&h).expect("scratch").flatten().any(|e| !keep.contains(&e.file_name())) {
        let _ = std::fs::remove_dir_all(&h);
    }
    sys::copy_dir(&lab.p.repo.join("headers"), &h);
    std::fs::create_dir_all(root.join("tmp")).expect("scratch");
    for (p, b) in files {
        if let Some((a, t)) = p.split_once(" -> ") {
            std::os::unix::fs::symlink(t, root.join(a)).expect("scratch link");
            continue;
        }
        let f = root.join(p);
        if p.ends_with('/') {
            let _ = std::fs::remove_file(p.trim_end_matches('/'));
            std::fs::create_dir_all(&f).expect("scratch");
            continue;
        }
        if let Some(d) = f.parent() {
            std::fs::create_dir_all(d).expect("scratch");
        }
        std::fs::write(&f, b).expect("scratch");
    }
    Tree { root }
}
fn snapshot(t: &Tree) -> BTreeMap<String, Vec<u8>> {
    fn walk(d: &Path, rel: &str, o: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if rel.is_empty() && (n == ".sim.sock" || n.starts_with(".out") || n.starts_with(".err")) {
                continue;
            }
            let r = if rel.is_empty() { n } else { format!("{}/{}", rel, n) };
            let ty = e.file_type();
            if ty.as_ref().map_or(false, |t| t.is_dir()) {
                walk(&e.path(), &r, o);
                o.insert(r + "/", vec![]);
            } else if ty.map_or(false, |t| t.is_symlink()) {
                let t = std::fs::read_link(e.path()).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
                o.insert(r, format!("-> {}", t).into_bytes());
            } else {
                o.insert(r, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    let mut o = BTreeMap::new();
    walk(&t.root, "", &mut o);
    o
}

fn run_step(lab: &Lab, t: &Tree, s: &Step, max_steps: usize) -> Done {
    let bin = bin_dir(lab);
    let cache = lab.path("cache");
    world::run(&Setup {
        root: &t.root,
        shim: &lab.p.shim,
        cc: &lab.p.cc,
        cache: &cache,
        bin: &bin,
        procs: s
            .procs
            .iter()
            .map(|p| Proc { args: p.args(), cwd: t.root.join(&p.cwd), seed: p.seed, alloc_fail: p.alloc_fail, cpp: p.cpp.clone(), log: p.log.clone() })
            .collect(),
        faults: s.faults.clone(),
        sched: s.sched.clone(),
        pipe_cap: s.pipe_cap,
        max_steps,
        wall: lab.world_t,
    })
}

/// what the preprocessor was told to do wrong
fn cpp_hard(c: &str) -> bool {
    c.split(';').any(|x| x == "sigterm=1" || x.strip_prefix("exit=").map_or(false, |v| v != "0" && v != "-1"))
}

struct Ref {
    ok: bool,
    wasm: Vec<u8>,
    status: Status,
    err: String,
}

impl WorldCase {
    fn reference(&self, lab: &mut Lab, t: &Tree, p: &WProc) -> Option<Ref> {
        let mut q = p.clone();
        let out = lab.path("ref.wasm").to_string_lossy().into_owned();
        if !q.raw.is_empty() {
            // only the output argument is replaced
            let Some(k) = q.raw.iter().position(|a| a == "-o") else { return None };
            if k + 1 >= q.raw.len() {
                return None;
            }
            q.raw[k + 1] = out;
        } else {
            q.out = out;
        }
        let c = lab.compile_at(&t.root.join(&p.cwd), &q.args(), p.seed);
        Some(Ref { ok: c.ok(), wasm: c.wasm.unwrap_or_default(), status: c.status, err: c.err })
    }
    /// the module in `got` is what the reference is, or at least behaves as it does
    fn equal(&self, lab: &mut Lab, st: &mut Stats, got: &[u8], r: &Ref) -> Result<(), String> {
        if got == &r.wasm[..] {
            return Ok(());
        }
        st.inc("modules compared by behaviour");
        if got.is_empty() {
            return Err("the output is empty".into());
        }
        let a = lab.run(&r.wasm, &RunSpec::default());
        let b = lab.run(got, &RunSpec::default());
        if a.code == b.code && a.out == b.out && !a.timeout && !b.timeout && b.uncaught == a.uncaught {
            return Ok(());
        }
        Err(format!(
            "the output has {} bytes (fault-free: {}), runs to exit {} output \"{}\"{} instead of exit {} output \"{}\"",
            got.len(),
            r.wasm.len(),
            b.code,
            show(&b.out),
            if b.uncaught.is_empty() { String::new() } else { format!(" ({})", b.uncaught) },
            a.code,
            show(&a.out)
        ))
    }

    pub fn eval(&self, lab: &mut Lab, st: &mut Stats) -> Option<Violation> {
        st.evals += 1;
        let t = set_up(lab, &self.files);
        let mut key = hash_str(&self.note);
        let mut res = None;
        for (k, step) in self.steps.iter().enumerate() {
            let refs: Vec<Option<Ref>> = step.procs.iter().map(|p| self.reference(lab, &t, p)).collect();
            if refs.iter().flatten().any(|r| r.status == Status::Timeout) {
                // C11's business, and the simulator has its own limits
                st.inc("references without end");
            }
            let before = snapshot(&t);
            let d = run_step(lab, &t, step, MAX_STEPS);
            let after = snapshot(&t);
            st.ops += d.trace.len() as u64;
            st.inc("simulated worlds");
            st.add("simulated processes", d.started);
            st.schedules.insert(d.hash());
            key = mix(key ^ d.hash() ^ hash_bytes(format!("{:?}", step.faults).as_bytes()));
            for f in &d.fired {
                st.fault(&step.faults[*f].kind());
            }
            for p in &step.procs {
                for c in p.cpp.split(';').filter(|c| !c.is_empty()) {
                    st.fault(&format!("preprocessor:{}", c.split('=').next().unwrap_or("")));
                }
                if p.alloc_fail > 0 {
                    st.fault("allocation refused");
                }
            }
            if step.pipe_cap > 0 {
                st.fault("small pipes");
            }
            for x in &d.status {
                st.inc(&match x {
                    None => "compilers that never ended".to_string(),
                    Some(Status::Exit(0)) => "compilers that succeeded".into(),
                    Some(Status::Exit(_)) => "compilers that failed".into(),
                    Some(_) => "compilers killed".into(),
                });
            }
            if st.samples.len() < 2 && k + 1 == self.steps.len() && !d.fired.is_empty() {
                st.samples.push(obj(vec![
                    ("note", s(&self.note)),
                    ("faults", J::A(step.faults.iter().map(|f| f.json()).collect())),
                    ("status", s(&format!("{:?}", d.status))),
                    ("trace", J::A(d.text().iter().take(60).map(|x| s(x)).collect())),
                ]));
            }
            res = self.judge(lab, st, k, step, &refs, &before, &d, &after);
            if res.is_some() {
                break;
            }
        }
        st.distinct.insert(key);
        res
    }

    #[allow(clippy::too_many_arguments)]
    fn judge(&self, lab: &mut Lab, st: &mut Stats, k: usize, step: &Step, refs: &[Option<Ref>], before: &BTreeMap<String, Vec<u8>>, d: &Done, after: &BTreeMap<String, Vec<u8>>) -> Option<Violation> {
        let at = if self.steps.len() > 1 { format!("step {}: ", k + 1) } else { String::new() };
        let p = self.prop.as_str();
        if let Some(w) = &d.stuck {
            // every property here talks about compilations that end
            return Some(Violation { class: if d.wall { "hang".into() } else { w.split(':').next().unwrap_or("stuck").into() }, msg: format!("{}{}", at, w), wall: d.wall });
        }
        let role_of = |f: &Fault| -> usize { f.role.trim_start_matches("cc").split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok()).unwrap_or(0) };
        for (n, w) in step.procs.iter().enumerate() {
            let who = if step.procs.len() > 1 { format!("{}compiler {}: ", at, n) } else { at.clone() };
            let status = d.status.get(n).cloned().flatten();
            let st_text = status.as_ref().map_or("no exit".into(), |s| s.text());
            let out = w.out_path();
            let got = after.get(&out);
            let mine: Vec<&Fault> = d.fired.iter().map(|f| &step.faults[*f]).filter(|f| role_of(f) == n).collect();
            let blame = || {
                let mut v: Vec<String> = mine.iter().map(|f| f.kind()).collect();
                v.dedup();
                if !w.cpp.is_empty() {
                    v.push(format!("preprocessor {}", w.cpp));
                }
                if w.alloc_fail > 0 {
                    v.push(format!("allocation {} refused", w.alloc_fail));
                }
                if v.is_empty() {
                    String::new()
                } else {
                    format!(" [{}]", v.join(", "))
                }
            };
            let success = status == Some(Status::Exit(0));
            let hard = mine.iter().any(|f| !f.benign()) || w.alloc_fail > 0 || cpp_hard(&w.cpp);
            // success means the module is there, whole
            if success && matches!(p, "C05" | "C06" | "C07" | "C09" | "C10" | "C11") {
                if self.must_fail {
                    return viol("success on bad input", format!("{}exit 0 although {}{}", who, self.note, blame()));
                }
                if let Some(r) = &refs[n] {
                    if !r.ok {
                        if r.status != Status::Timeout {
                            return viol("success without cause", format!("{}exit 0 where the fault-free compilation fails ({}){}", who, r.err.lines().last().unwrap_or(""), blame()));
                        }
                    } else if let Some(dev) = special(&w.out) {
                        if dev == "full" {
                            return viol("success without module", format!("{}exit 0 although the device is full{}", who, blame()));
                        }
                    } else {
                        match got {
                            None => return viol("success without module", format!("{}exit 0 but there is no output file {}{}", who, out, blame())),
                            Some(b) => {
                                let b = follow(b, &out, after);
                                if let Err(e) = self.equal(lab, st, b, r) {
                                    return viol("success with a wrong module", format!("{}exit 0 but {}{}", who, e, blame()));
                                }
                            }
                        }
                    }
                }
                // a fault that never went away on something every compilation needs
                if mine.iter().any(|f| f.every && !f.benign() && f.act == 1 && f.cls == cls_id("src") && f.role == format!("cc{}", n)) && p == "C05" {
                    return viol("fault ignored", format!("{}exit 0 although the fault never went away{}", who, blame()));
                }
                // killed, or made to leave with a failure status, before it was done
                let cpp_gone = d.fired.iter().map(|f| &step.faults[*f]).any(|f| f.role.starts_with(&format!("cc{}/", n)) && matches!(f.act, 3 | 4 | 5) && f.op != op_id("bye"));
                if p == "C06" && (cpp_hard(&w.cpp) || cpp_gone) {
                    return viol("preprocessor failure ignored", format!("{}exit 0 although the preprocessor failed{}", who, blame()));
                }
            }
            // nothing that was not an error may make it fail
            if !success && !hard && matches!(p, "C05" | "C06" | "C07" | "C09" | "C10" | "C11") {
                if let Some(r) = &refs[n] {
                    let blocked_out = special(&w.out).is_some() || before.contains_key(&format!("{}/", out)) || !parent_ok(&out, before);
                    // C11 is about ending, not about how
                    if r.ok && !self.must_fail && !blocked_out && p != "C11" {
                        return viol("failure without error", format!("{}{} although nothing failed{}: {}", who, st_text, blame(), d.err[n].lines().last().unwrap_or("")));
                    }
                }
            }
            if p == "C08" && !success {
                // did it fail before the module was ready?
                let wrote = mine.iter().any(|f| f.cls == cls_id("out") || ["rename", "unlink", "truncate", "sync", "link"].iter().any(|o| op_id(o) == f.op));
                let ready = wrote || w.alloc_fail > 0 || refs[n].as_ref().map_or(false, |r| r.ok) && !hard;
                if !ready && before.get(&out) != got {
                    let what = match (before.get(&out), got) {
                        (Some(a), Some(b)) => format!("its {} bytes became {}", a.len(), b.len()),
                        (Some(_), None) => "it was removed".into(),
                        (None, Some(b)) => format!("a file of {} bytes appeared", b.len()),
                        _ => String::new(),
                    };
                    return viol("previous output changed", format!("{}the compilation failed ({}) but {} did not stay as it was: {}{}", who, st_text, out, what, blame()));
                }
            }
            if p == "C09" && status.is_some() && !success {
                // whatever is there now
                if let Some(b) = got {
                    if before.get(&out) != Some(b) && refs[n].as_ref().map_or(true, |r| b != &r.wasm) {
                        st.inc("torn modules run");
                        let x = lab.run(b, &RunSpec::default());
                        if x.timeout || x.died || x.code == 0 || !x.out.is_empty() {
                            return viol(
                                "torn module runs",
                                format!(
                                    "{}after {} the output holds {} bytes that are neither the old content nor the module, and running them gives {} output \"{}\"{}",
                                    who,
                                    st_text,
                                    b.len(),
                                    if x.timeout { "no end,".into() } else { format!("exit {}", x.code) },
                                    show(&x.out),
                                    blame()
                                ),
                            );
                        }
                    }
                }
            }
        }
        // files that are nobody's output
        if matches!(p, "C08" | "C10") {
            let outs: Vec<String> = step.procs.iter().map(|w| w.out_path()).map(|o| before.get(&o).and_then(|b| std::str::from_utf8(b).ok()).and_then(|t| t.strip_prefix("-> ")).map_or(o.clone(), |t| join(&dir_of(&o), t))).collect();
            let killed = d.status.iter().any(|s| matches!(s, Some(Status::Signal(_)) | None));
            let mut names: Vec<&String> = before.keys().chain(after.keys()).collect();
            names.sort();
            names.dedup();
            for n in names {
                if outs.contains(n) {
                    continue;
                }
                if before.get(n) != after.get(n) {
                    let what = match (before.get(n), after.get(n)) {
                        (Some(_), Some(_)) => "was modified",
                        (Some(_), None) => "was removed",
                        _ => "appeared",
                    };
                    // a killed process cannot clean up after itself
                    if killed && what == "appeared" {
                        continue;
                    }
                    return viol("another file changed", format!("{}{} {} although it is no compilation's output ({})", at, n, what, d.status.iter().map(|s| s.as_ref().map_or("no exit".into(), |s| s.text())).collect::<Vec<_>>().join(", ")));
                }
            }
        }
        None
    }

    pub fn shrink(&self, lab: &mut Lab, v: &Violation, until: Instant) -> WorldCase {
        let mut st = Stats::default();
        let mut cur = self.clone();
        // the schedule as it was taken, so that it can be edited
        {
            let t = set_up(lab, &cur.files);
            let mut c = cur.clone();
            for s in &mut c.steps {
                let d = run_step(lab, &t, s, MAX_STEPS);
                s.sched = Sched { seed: 0, switch: 0, choices: d.choices, random: false };
            }
            if c.eval(lab, &mut st).map_or(false, |x| x.class == v.class) {
                cur = c;
            }
        }
        let mut fails = |lab: &mut Lab, c: &WorldCase| Instant::now() < until && c.eval(lab, &mut st).map_or(false, |x| x.class == v.class);
        for _ in 0..3 {
            let mut any = false;
            macro_rules! attempt {
                ($c:expr) => {{
                    let c = $c;
                    if fails(lab, &c) {
                        cur = c;
                        any = true;
                        true
                    } else {
                        false
                    }
                }};
            }
            let mut k = cur.steps.len();
            while k > 1 {
                k -= 1;
                let mut c = cur.clone();
                c.steps.remove(if k < c.steps.len() { k - 1 } else { 0 });
                if !attempt!(c) {
                    let mut c = cur.clone();
                    c.steps.pop();
                    attempt!(c);
                }
                k = k.min(cur.steps.len());
            }
            for j in 0..cur.steps.len() {
                let mut k = cur.steps[j].faults.len();
                while k > 0 {
                    k -= 1;
                    let mut c = cur.clone();
                    c.steps[j].faults.remove(k);
                    if !attempt!(c) {
                        let mut c = cur.clone();
                        if c.steps[j].faults[k].every {
                            c.steps[j].faults[k].every = false;
                            attempt!(c);
                        }
                    }
                }
                let mut k = cur.steps[j].procs.len();
                while k > 1 {
                    k -= 1;
                    let mut c = cur.clone();
                    c.steps[j].procs.remove(k);
                    c.steps[j].faults.retain(|f| !f.role.starts_with(&format!("cc{}", k)));
                    attempt!(c);
                }
                for k in 0..cur.steps[j].procs.len() {
                    for what in 0..5 {
                        let mut c = cur.clone();
                        let p = &mut c.steps[j].procs[k];
                        let changed = match what {
                            0 if !p.cpp.is_empty() => {
                                p.cpp.clear();
                                true
                            }
                            1 if p.alloc_fail > 0 => {
                                p.alloc_fail = 0;
                                true
                            }
                            2 if p.flags != 0 => {
                                p.flags = 0;
                                true
                            }
                            3 if !p.log.is_empty() => {
                                p.log.clear();
                                true
                            }
                            4 if p.seed != 1 => {
                                p.seed = 1;
                                true
                            }
                            _ => false,
                        };
                        if changed {
                            attempt!(c);
                        }
                    }
                }
                if cur.steps[j].pipe_cap != 0 {
                    let mut c = cur.clone();
                    c.steps[j].pipe_cap = 0;
                    attempt!(c);
                }
                // no switches at all, then fewer
                if cur.steps[j].sched.random || cur.steps[j].sched.choices.iter().any(|c| *c != 0) {
                    let mut c = cur.clone();
                    c.steps[j].sched = Sched::quiet();
                    if !attempt!(c) && !cur.steps[j].sched.random {
                        let mut chunk = (cur.steps[j].sched.choices.len() / 2).max(1);
                        loop {
                            let mut a = 0;
                            while a < cur.steps[j].sched.choices.len() {
                                let b = (a + chunk).min(cur.steps[j].sched.choices.len());
                                if cur.steps[j].sched.choices[a..b].iter().any(|c| *c != 0) {
                                    let mut c = cur.clone();
                                    c.steps[j].sched.choices[a..b].fill(0);
                                    attempt!(c);
                                }
                                a = b;
                            }
                            if chunk == 1 || Instant::now() > until {
                                break;
                            }
                            chunk /= 2;
                        }
                    }
                }
            }
            // files nobody needs
            let mut k = cur.files.len();
            while k > 0 {
                k -= 1;
                let mut c = cur.clone();
                c.files.remove(k);
                attempt!(c);
            }
            if !any {
                break;
            }
        }
        for s in &mut cur.steps {
            while s.sched.choices.last() == Some(&0) {
                s.sched.choices.pop();
            }
        }
        cur
    }

    pub fn json(&self) -> J {
        obj(vec![
            ("property", s(&self.prop)),
            ("note", s(&self.note)),
            ("input_must_be_rejected", J::B(self.must_fail)),
            ("files", J::A(self.files.iter().map(|(p, b)| obj(vec![("path", s(p)), ("content", bj(b))])).collect())),
            (
                "steps",
                J::A(
                    self.steps
                        .iter()
                        .map(|x| {
                            obj(vec![
                                (
                                    "processes",
                                    J::A(
                                        x.procs
                                            .iter()
                                            .map(|p| {
                                                obj(vec![
                                                    ("source", s(&p.src)),
                                                    ("output", s(&p.out)),
                                                    ("switches", i(p.flags)),
                                                    ("cwd", s(&p.cwd)),
                                                    ("hash_seed", i(p.seed)),
                                                    ("refused_allocation", i(p.alloc_fail)),
                                                    ("preprocessor", s(&p.cpp)),
                                                    ("log", s(&p.log)),
                                                    ("arguments", J::A(p.raw.iter().map(|a| s(a)).collect())),
                                                ])
                                            })
                                            .collect(),
                                    ),
                                ),
                                ("faults", J::A(x.faults.iter().map(|f| f.json()).collect())),
                                ("schedule_seed", i(x.sched.seed)),
                                ("schedule_switch_percent", i(x.sched.switch)),
                                ("schedule_random", J::B(x.sched.random)),
                                ("schedule", J::A(x.sched.choices.iter().map(|c| i(*c)).collect())),
                                ("pipe_capacity", i(x.pipe_cap)),
                            ])
                        })
                        .collect(),
                ),
            ),
        ])
    }
    pub fn from(j: &J) -> WorldCase {
        WorldCase {
            prop: j.get("property").str().into(),
            note: j.get("note").str().into(),
            must_fail: j.get("input_must_be_rejected").bool(),
            files: j.get("files").arr().iter().map(|f| (f.get("path").str().to_string(), jb(f.get("content")))).collect(),
            steps: j
                .get("steps")
                .arr()
                .iter()
                .map(|x| Step {
                    procs: x
                        .get("processes")
                        .arr()
                        .iter()
                        .map(|p| WProc {
                            src: p.get("source").str().into(),
                            out: p.get("output").str().into(),
                            flags: p.get("switches").u64(),
                            cwd: p.get("cwd").str().into(),
                            seed: p.get("hash_seed").u64(),
                            alloc_fail: p.get("refused_allocation").int(),
                            cpp: p.get("preprocessor").str().into(),
                            log: p.get("log").str().into(),
                            raw: p.get("arguments").arr().iter().map(|a| a.str().to_string()).collect(),
                        })
                        .collect(),
                    faults: x.get("faults").arr().iter().map(Fault::from).collect(),
                    sched: Sched {
                        seed: x.get("schedule_seed").u64(),
                        switch: x.get("schedule_switch_percent").u64(),
                        random: x.get("schedule_random").bool(),
                        choices: x.get("schedule").arr().iter().map(|c| c.u64() as u16).collect(),
                    },
                    pipe_cap: x.get("pipe_capacity").int(),
                })
                .collect(),
        }
    }
}
fn special(out: &str) -> Option<&str> {
    out.strip_prefix("/dev/")
}
fn dir_of(p: &str) -> String {
    p.rsplit_once('/').map_or(String::new(), |x| x.0.to_string())
}
fn parent_ok(p: &str, m: &BTreeMap<String, Vec<u8>>) -> bool {
    let d = dir_of(p);
    d.is_empty() || m.contains_key(&format!("{}/", d))
}
fn follow<'a>(b: &'a [u8], p: &str, m: &'a BTreeMap<String, Vec<u8>>) -> &'a [u8] {
    match std::str::from_utf8(b).ok().and_then(|t| t.strip_prefix("-> ")) {
        Some(t) => m.get(&join(&dir_of(p), t)).map_or(b"", |v| &v[..]),
        None => b,
    }
}

// ---------------------------------------------------------------- generation

/// a source (and perhaps its own header) whose meaning depends on its last byte
fn source(r: &mut Rng, stem: &str) -> (Vec<(String, Vec<u8>)>, String) {
    let name = format!("{}.c", stem);
    match r.idx(10) {
        0..=3 => {
            // every macro the header defines changes the output; the include is the source's last line
            let n = 1 + r.idx(30);
            let mut h = String::new();
            let mut c = String::from("#include <stdio.h>\nint main() {\n");
            for k in 0..n {
                h.push_str(&format!("#define M{} {}\n", k, r.range(1, 9999)));
                c.push_str(&format!("#ifdef M{}\n printf(\"%d\\n\", M{});\n#else\n printf(\"no {}\\n\");\n#endif\n", k, k, k));
                if r.pct(20) {
                    h.push_str("/* a remark, to fill the page */\n");
                }
            }
            c.push_str(" return 0;\n}\n");
            let at_end = r.pct(60);
            // before the functions, or in one of them, between the uses of its macros
            let inc = format!("#include \"{}.h\"\n", stem);
            match c.match_indices("#ifdef").map(|m| m.0).nth(r.idx(n as usize)) {
                Some(at) if at_end => c.insert_str(at, &inc),
                _ => c = format!("{}{}", inc, c),
            }
            if r.pct(30) {
                // several blocks of a file system
                let fill = r.range(4000, 40000) as usize;
                c.push_str(&"// padding\n".repeat(fill / 11));
                h = format!("{}{}", "// padding\n".repeat(r.range(0, 2000) as usize), h);
            }
            if r.pct(30) {
                c = format!("#include <limits.h>\n{}", c);
            }
            if r.pct(30) {
                // a guarded header may include others, and itself
                let inc = if r.pct(50) { format!("#include \"{}.h\"\n", stem) } else { "#include <limits.h>\n".to_string() };
                h = if r.pct(50) { format!("#ifndef P_H\n#define P_H\n{}{}#endif\n", inc, h) } else { format!("#ifndef P_H\n#define P_H\n{}{}#endif\n", h, inc) };
            }
            (vec![(name, c.into_bytes()), (format!("{}.h", stem), h.into_bytes())], "macros from its own header".into())
        }
        4 => {
            let c = format!("#include <stdio.h>\n#include <stdlib.h>\nint main() {{\n#include <limits.h>\n#ifdef INT_MAX\n printf(\"%d\\n\", INT_MAX);\n#else\n printf(\"none\\n\");\n#endif\n#ifdef NULL\n printf(\"N\\n\");\n#endif\n return {};\n}}\n", r.idx(100));
            (vec![(name, c.into_bytes())], "shipped headers".into())
        }
        5 => {
            let t = crate::scale::pick(r, true);
            let t = crate::scale::build(&t.0, t.1.min(60), t.2, t.3);
            (vec![(name, t.text.into_bytes())], "template program".into())
        }
        _ => {
            let (p, _) = gen::valid(r, &|r| if r.pct(50) { Cfg::small(r) } else { Cfg::swarm(r) }, 6000);
            (vec![(name, cprog::text(&p).into_bytes())], "swarm program".into())
        }
    }
}
fn simple(r: &mut Rng, stem: &str) -> Vec<(String, Vec<u8>)> {
    let t = format!("#include <stdio.h>\nint main() {{ printf(\"{}\\n\"); return {}; }}\n", r.range(0, 99999), r.idx(200));
    vec![(format!("{}.c", stem), t.into_bytes())]
}

/// token-level damage
pub fn mangle(r: &mut Rng, src: &str) -> String {
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    for ch in src.chars() {
        let word = ch.is_alphanumeric() || ch == '_';
        if word {
            cur.push(ch);
        } else {
            if !cur.is_empty() {
                toks.push(std::mem::take(&mut cur));
            }
            toks.push(ch.to_string());
        }
    }
    toks.push(cur);
    let junk = ["{", "}", "(", ")", ";", "int", "if", "else", "while", "do", "for", "switch", "case", "default", ":", "break", "continue", "goto", "return", "*", "&", "struct", "union", "enum", "typedef", "static", "double", "char", "[", "]", ",", "=", "==", "?", "0", "1", "99999999999999999999", "x", "\"", "'", "/*", "#", "\n#include \"nothere.h\"\n", "\n#if 1\n", "\n#error no\n", "sizeof", "->", ".", "...", "++", "--", "unsigned", "long", "void", "const", "volatile", "float", "\\", "@", "$", "é"];
    for _ in 0..1 + r.idx(4) {
        if toks.is_empty() {
            break;
        }
        let k = r.idx(toks.len());
        match r.idx(8) {
            0 => {
                toks.remove(k);
            }
            1 => {
                let t = toks[k].clone();
                toks.insert(k, t);
            }
            2 => {
                let j = r.idx(toks.len());
                toks.swap(k, j);
            }
            3 | 4 => toks.insert(k, junk[r.idx(junk.len())].to_string()),
            5 => toks[k] = junk[r.idx(junk.len())].to_string(),
            6 => {
                let e = (k + 1 + r.idx(40)).min(toks.len());
                toks.drain(k..e);
            }
            _ => {
                toks.truncate(k);
            }
        }
    }
    toks.concat()
}

/// programs a compiler has to turn down, or might
const BAD: &[&str] = &[
    "",
    "int main() { return x; }\n",
    "int main() { return f(1); }\n",
    "int main() { return 0 }\n",
    "int main() { if (1 { return 0; } }\n",
    "int main() { return 0; \n",
    "int main() { break; }\n",
    "int main() { continue; return 0; }\n",
    "int main() { goto nowhere; return 0; }\n",
    "int f(int a) { return a; }\nint main() { return f(); }\n",
    "int f(int a) { return a; }\nint main() { return f(1, 2); }\n",
    "int main() { int x; int x; return 0; }\n",
    "int main() { foo x; return 0; }\n",
    "struct s { int a; };\nint main() { struct s v; v.b = 1; return 0; }\n",
    "int main() { int x; x.a = 1; return 0; }\n",
    "int main() { int x = 3; return *x; }\n",
    "int main() { 5 = 6; return 0; }\n",
    "int main() { return &5; }\n",
    "#include \"missing.h\"\nint main() { return 0; }\n",
    "#include <missing.h>\nint main() { return 0; }\n",
    "#error stop\nint main() { return 0; }\n",
    "#if 1\nint main() { return 0; }\n",
    "#endif\nint main() { return 0; }\n",
    "int main() { return 0; } /* never closed\n",
    "#include <stdio.h>\nint main() { printf(\"open); return 0; }\n",
    "int main() { char c = 'ab; return 0; }\n",
    "int main() { switch (1) { case 1: case 1: return 0; } }\n",
    "int main() { case 1: return 0; }\n",
    "int main() { float f = 1.0; return 0; }\n",
    "int main() { int a[] ; return 0; }\n",
    "int main() { int a[n]; return 0; }\n",
    "union u { int a; char b; };\nint main() { union u x; x.a = 1; return x.b; }\n",
    "struct s { int a : 3; };\nint main() { return 0; }\n",
    "int f(void) { return 1; }\nint main() { return f(); }\n",
    "int (*fp)(int);\nint main() { return 0; }\n",
    "typedef int T;\nT T;\nint main() { return 0; }\n",
    "int main() { return 0; }\nint main() { return 1; }\n",
    "int x = y;\nint main() { return 0; }\n",
    "void main2() { return 1; }\nint main() { main2(); return 0; }\n",
    "int main() { int i; for (;;) { goto out; } out: return 0; }\n",
    "static int main() { static int x; return x++; }\n",
    "extern int e;\nint main() { return e; }\n",
    "int main() { return sizeof(int[3]); }\n",
    "int f();\nint main() { return f(); }\n",
    "int main() { struct undefined x; return 0; }\n",
    "int main() { return \"abc\" * 2; }\n",
    "int nomain() { return 0; }\n",
    "int a[3] = {1, 2, 3, 4};\nint main() { return 0; }\n",
    "int main() { int x = 99999999999999999999999; return 0; }\n",
    "}\n",
    "int\n",
    ";;;\n",
    "\u{1}\u{2}\n",
    "int main() { return 0; } #\n",
    "#define M(x x\nint main() { return M(1); }\n",
    "#define\nint main() { return 0; }\n",
    "int main() { return 08; }\n",
    "int main() { return '\\q'; }\n",
    "int main() { while return 0; }\n",
    "int main() { do { } while (1) return 0; }\n",
];

const HARD_OPEN: &[i32] = &[2, 13, 24, 23, 5, 12, 40];
const HARD_READ: &[i32] = &[5, 21, 116, 12];
const HARD_WRITE: &[i32] = &[28, 5, 122, 27];
const HARD_CREATE: &[i32] = &[13, 28, 30, 21, 24, 5, 36, 122];
const HARD_PIPE: &[i32] = &[24, 23, 12];
const HARD_SPAWN: &[i32] = &[2, 13, 12, 11, 7];

fn fault(role: &str, op: &str, cls: &str, nth: u64, act: u32, err: i32, n: i64) -> Fault {
    Fault { role: role.into(), op: op_id(op), cls: cls_id(cls), nth, every: false, act, err, n }
}

struct Probe {
    counts: Vec<((String, u32, u32), u64)>,
    allocs: u64,
    ok: bool,
    out_len: u64,
}
/// the same compilation with nothing going wrong: which operations there are to disturb
fn probe(lab: &Lab, files: &[(String, Vec<u8>)], p: &WProc, pipe_cap: i64) -> Probe {
    let t = set_up(lab, files);
    let mut q = p.clone();
    q.alloc_fail = 0;
    q.cpp = q.cpp.split(';').filter(|c| c.starts_with("chunk=") || c.starts_with("stderr=")).collect::<Vec<_>>().join(";");
    let d = run_step(lab, &t, &Step { procs: vec![q], faults: vec![], sched: Sched::quiet(), pipe_cap }, MAX_STEPS);
    let mut counts: Vec<_> = d.counts().into_iter().collect();
    counts.sort();
    let out_len = std::fs::metadata(t.root.join(p.out_path())).map_or(0, |m| m.len());
    Probe { counts, allocs: d.allocs.get("cc0").cloned().unwrap_or(0), ok: d.status.first().map_or(false, |s| *s == Some(Status::Exit(0))), out_len }
}
impl Probe {
    fn n(&self, role: &str, op: &str, cls: &str) -> u64 {
        self.counts.iter().filter(|c| c.0 .0 == role && c.0 .1 == op_id(op) && c.0 .2 == cls_id(cls)).map(|c| c.1).sum()
    }
    /// one of the operations counted, each as likely as the next
    fn any(&self, r: &mut Rng, f: impl Fn(&str, &str, &str) -> bool) -> Option<(String, u32, u32, u64)> {
        let v: Vec<_> = self.counts.iter().filter(|c| f(&c.0 .0, world::OPS[c.0 .1 as usize], world::CLS[c.0 .2 as usize])).collect();
        // kinds of operation first, so that the rare ones are reached
        if v.is_empty() {
            return None;
        }
        let c = v[r.idx(v.len())];
        Some((c.0 .0.clone(), c.0 .1, c.0 .2, 1 + r.below(c.1)))
    }
}
/// interruptions and partial transfers anywhere
fn benign(r: &mut Rng, pr: &Probe, role: &str, ops: &[(&str, &str)], n: usize, v: &mut Vec<Fault>) {
    for _ in 0..n {
        let (op, cls) = *r.pick(ops);
        let c = pr.n(role, op, cls);
        if c == 0 {
            continue;
        }
        let nth = 1 + r.below(c + 2);
        if (op == "read" || op == "write") && r.pct(60) {
            let n = match r.idx(4) {
                0 => 1,
                1 => r.range(1, 16),
                2 => r.range(1, 600),
                _ => r.range(1, 9000),
            };
            let mut f = fault(role, op, cls, nth, 2, 0, n);
            // not so small that a large file takes for ever
            f.every = r.pct(30) && n > 3 && c as i64 * 8192 / n < 15000;
            v.push(f);
        } else if op != "pipe" && op != "spawn" {
            // an interruption, or a run of them
            for k in 0..1 + r.below(3) {
                v.push(fault(role, op, cls, nth + k, 1, world::EINTR, 0));
            }
        }
    }
}
fn hard(r: &mut Rng, pr: &Probe, role: &str, op: &str, cls: &str, errs: &[i32], v: &mut Vec<Fault>) {
    let c = pr.n(role, op, cls).max(1);
    let mut f = fault(role, op, cls, 1 + r.below(c), 1, *r.pick(errs), 0);
    f.every = r.pct(50);
    v.push(f);
}
fn cpp_quirks(r: &mut Rng, heavy: bool) -> String {
    let mut v = vec![];
    if r.pct(50) {
        v.push(format!("chunk={}", [1, 7, 64, 512, 4096][if heavy { 2 + r.idx(3) } else { r.idx(5) }]));
    }
    if r.pct(40) {
        v.push(format!("stderr={}", [40, 3000, 70000, 200000][r.idx(if heavy { 4 } else { 3 })]));
    }
    // a byte at a time only for what is small
    if v.len() == 2 && v[0] == "chunk=1" {
        v[0] = "chunk=200".into();
    }
    v.join(";")
}
fn old_output(r: &mut Rng, lab: &mut Lab) -> Vec<u8> {
    match r.idx(5) {
        0 => b"not a module\n".to_vec(),
        1 => vec![0u8; r.range(0, 100000) as usize],
        2 => (0..r.range(1, 5000)).map(|_| r.below(256) as u8).collect(),
        _ => {
            // a real one: another program's
            let f = if r.pct(50) { simple(r, "p") } else { source(r, "p").0 };
            let t = String::from_utf8_lossy(&f[0].1).into_owned();
            let c = lab.compile(&t, Flags::DEFAULT, 3);
            let mut b = c.wasm.unwrap_or_else(|| b"old".to_vec());
            if r.pct(20) {
                let n = b.len();
                b.extend(std::iter::repeat(0).take(n + 3000));
            }
            b
        }
    }
}
fn sched(r: &mut Rng) -> Sched {
    if r.pct(15) {
        Sched::quiet()
    } else {
        Sched::seeded(r.next(), [5, 20, 50, 80][r.idx(4)])
    }
}
fn flagbits(r: &mut Rng) -> u64 {
    if r.pct(70) {
        0
    } else {
        r.below(16)
    }
}

pub fn make(prop: &str, lab: &mut Lab, r: &mut Rng, _k: u64) -> WorldCase {
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let mut case = |files: Vec<(String, Vec<u8>)>, steps: Vec<Step>, note: String| WorldCase { prop: prop.into(), files, steps, note, must_fail: false };
    let mut p = WProc { src: "p.c".into(), out: "o.wasm".into(), flags: flagbits(r), seed: r.next(), ..Default::default() };
    match prop {
        "C05" => {
            let (f, mut note) = source(r, "p");
            files.extend(f);
            let mut must = false;
            let pr0;
            if r.pct(22) {
                // inputs that are not text, or not there
                must = true;
                match r.idx(6) {
                    0 => {
                        let k = r.idx(files[0].1.len());
                        files[0].1.insert(k, *r.pick(&[0xffu8, 0xc0, 0x80, 0xfe, 0xf8]));
                        note = "the source is not text".into();
                    }
                    1 => {
                        files[0].1.extend_from_slice(b"\n// ");
                        files[0].1.push(*r.pick(&[0xffu8, 0xe2, 0x90]));
                        if r.pct(50) {
                            files[0].1.extend_from_slice(b"\n");
                        }
                        note = "the end of the source is not text".into();
                    }
                    2 => {
                        files.retain(|f| f.0 != "p.h");
                        let mut h = b"/* ".to_vec();
                        h.push(0xff);
                        h.extend_from_slice(b" */\n#define Q 1\n");
                        files.push(("p.h".into(), h));
                        files[0].1.extend_from_slice(b"\n#include \"p.h\"\n");
                        note = "a header is not text".into();
                    }
                    3 => {
                        files.retain(|f| f.0 != "p.h");
                        files[0].1.extend_from_slice(b"\n#include \"p.h\"\n");
                        note = "a header is missing".into();
                    }
                    4 => {
                        files.retain(|f| f.0 != "p.h");
                        files.push(("p.h/".into(), vec![]));
                        files[0].1.extend_from_slice(b"\n#include \"p.h\"\n");
                        note = "a header is a directory".into();
                    }
                    _ => {
                        p.src = if r.pct(50) { "gone.c".into() } else { "headers".into() };
                        note = "the source cannot be read".into();
                    }
                }
                if r.pct(60) {
                    let st = Step { procs: vec![p], faults: vec![], sched: Sched::quiet(), pipe_cap: 0 };
                    let mut c = case(files, vec![st], note);
                    c.must_fail = true;
                    return c;
                }
                pr0 = Probe { counts: vec![(("cc0".into(), op_id("read"), cls_id("src")), 6), (("cc0".into(), op_id("open"), cls_id("src")), 3)], allocs: 0, ok: true, out_len: 0 };
            } else {
                pr0 = probe(lab, &files, &p, 0);
            }
            let mut fs = vec![];
            if r.pct(65) && !must {
                match r.idx(5) {
                    0 | 1 => hard(r, &pr0, "cc0", "open", "src", HARD_OPEN, &mut fs),
                    2 | 3 => hard(r, &pr0, "cc0", "read", "src", HARD_READ, &mut fs),
                    _ => p.alloc_fail = 1 + r.below((pr0.allocs / 3).max(1)) as i64,
                }
            }
            let n = r.idx(5);
            benign(r, &pr0, "cc0", &[("read", "src"), ("read", "src"), ("open", "src")], n, &mut fs);
            let mut c = case(files, vec![Step { procs: vec![p], faults: fs, sched: sched(r), pipe_cap: 0 }], note);
            c.must_fail = must;
            c
        }
        "C06" => {
            let (f, note) = source(r, "p");
            files.extend(f);
            let cap = if r.pct(40) { *r.pick(&[4096, 8192]) } else { 0 };
            p.cpp = cpp_quirks(r, files[0].1.len() > 8000);
            let pr = probe(lab, &files, &p, cap);
            let mut fs = vec![];
            let cpp = pr.counts.iter().map(|c| c.0 .0.clone()).find(|x| x.contains('/')).unwrap_or("cc0/cpp".into());
            let add = |p: &mut WProc, x: String| {
                if !p.cpp.is_empty() {
                    p.cpp.push(';');
                }
                p.cpp.push_str(&x);
            };
            if r.pct(75) {
                match r.idx(12) {
                    0 => hard(r, &pr, "cc0", "spawn", "-", HARD_SPAWN, &mut fs),
                    1 => hard(r, &pr, "cc0", "pipe", "pipe", HARD_PIPE, &mut fs),
                    2 => hard(r, &pr, "cc0", "write", "pipe", &[32, 5], &mut fs),
                    3 => hard(r, &pr, "cc0", "read", "pipe", &[5, 12], &mut fs),
                    4 => hard(r, &pr, "cc0", "poll", "pipe", &[12, 22], &mut fs),
                    5 => hard(r, &pr, "cc0", "wait", "-", &[10], &mut fs),
                    6 | 7 => {
                        // killed, or gone with a failure status, at any of its operations
                        if let Some((role, op, cls, nth)) = pr.any(r, |ro, _, _| ro == cpp) {
                            let kill = r.pct(60);
                            fs.push(Fault { role, op, cls, nth, every: false, act: if kill { 3 } else { 4 }, err: 0, n: 1 + r.idx(3) as i64 });
                        }
                    }
                    8 => {
                        let x = format!("exit={}", 1 + r.idx(254));
                        add(&mut p, x);
                        if r.pct(60) {
                            let x = format!("trunc={}", r.idx(1001));
                            add(&mut p, x);
                            if r.pct(50) {
                                add(&mut p, "line=1".into());
                            }
                        }
                    }
                    9 => {
                        // killed half way, between two lines, or with everything printed
                        let x = match r.idx(3) {
                            0 => "sigterm=1".to_string(),
                            1 => format!("sigterm=1;trunc={}", r.idx(1001)),
                            _ => format!("sigterm=1;line=1;trunc={}", r.idx(1001)),
                        };
                        add(&mut p, x);
                    }
                    10 => {
                        add(&mut p, "noread=1".into());
                        let x = format!("exit={}", 1 + r.idx(5));
                        add(&mut p, x);
                    }
                    _ => {
                        // its own input or output fails under it, and it says so
                        let (op, cls) = *r.pick(&[("read", "pipe"), ("write", "pipe")]);
                        hard(r, &pr, &cpp, op, cls, &[5], &mut fs);
                    }
                }
            }
            let n = r.idx(4);
            benign(r, &pr, "cc0", &[("write", "pipe"), ("read", "pipe"), ("poll", "pipe"), ("wait", "-"), ("read", "src")], n, &mut fs);
            let n = r.idx(3);
            benign(r, &pr, &cpp, &[("write", "pipe"), ("read", "pipe")], n, &mut fs);
            case(files, vec![Step { procs: vec![p], faults: fs, sched: sched(r), pipe_cap: cap }], note)
        }
        "C07" => {
            let (f, note) = if r.pct(70) { source(r, "p") } else { (simple(r, "p"), "small program".into()) };
            files.extend(f);
            let mut note = note;
            if r.pct(18) {
                // diagnostics that cannot be printed do not turn failure into success
                files[0].1 = if r.pct(50) { r.pick(BAD).as_bytes().to_vec() } else { mangle(r, &String::from_utf8_lossy(&files[0].1)).into_bytes() };
                note = "rejected program".into();
            }
            if r.pct(50) {
                let o = old_output(r, lab);
                files.push(("o.wasm".into(), o));
            }
            match r.idx(14) {
                0 => {
                    p.out = "/dev/full".into();
                }
                1 => {
                    p.out = "no/such/dir/o.wasm".into();
                }
                2 => {
                    files.retain(|f| f.0 != "o.wasm");
                    files.push(("o.wasm/".into(), vec![]));
                }
                3 => {
                    files.push(("sub/x".into(), b"x".to_vec()));
                    p.out = "sub/o.wasm".into();
                }
                4 => {
                    files.push(("x/target.wasm".into(), b"old target".to_vec()));
                    files.retain(|f| f.0 != "o.wasm");
                    files.push(("o.wasm -> x/target.wasm".into(), vec![]));
                }
                5 => p.out = String::new(),
                _ => {}
            }
            if r.pct(15) {
                p.log = ["trace", "error", "info"][r.idx(3)].into();
            }
            let pr = probe(lab, &files, &p, 0);
            let mut fs = vec![];
            if r.pct(65) {
                match r.idx(10) {
                    0 | 1 => hard(r, &pr, "cc0", "open", "out", HARD_CREATE, &mut fs),
                    2 | 3 | 4 => {
                        // part of it, then the error
                        if r.pct(60) && pr.out_len > 1 {
                            fs.push(fault("cc0", "write", "out", 1, 2, 0, 1 + r.below(pr.out_len - 1) as i64));
                            let mut f = fault("cc0", "write", "out", 2, 1, *r.pick(HARD_WRITE), 0);
                            f.every = r.pct(50);
                            fs.push(f);
                        } else {
                            hard(r, &pr, "cc0", "write", "out", HARD_WRITE, &mut fs);
                        }
                    }
                    5 => {
                        if r.pct(50) && pr.out_len > 1 {
                            fs.push(fault("cc0", "write", "out", 1, 2, 0, 1 + r.below(pr.out_len - 1) as i64));
                        }
                        let mut f = fault("cc0", "write", "out", 1 + r.below(2), 5, 0, 0);
                        f.every = r.pct(70);
                        fs.push(f);
                    }
                    6 => {
                        let mut f = fault("cc0", "write", "stdio", 1 + r.below(3), 1, *r.pick(&[28, 5, 32]), 0);
                        f.every = r.pct(60);
                        fs.push(f);
                    }
                    7 => p.alloc_fail = (pr.allocs as i64 - r.range(0, 400)).max(1),
                    8 => {
                        // whatever else it does to files on the way
                        if let Some((role, op, cls, nth)) = pr.any(r, |ro, op, _| ro == "cc0" && ["rename", "truncate", "sync", "unlink", "link", "mkdir"].contains(&op)) {
                            fs.push(Fault { role, op, cls, nth, every: r.pct(50), act: 1, err: *r.pick(&[5, 28, 13, 30]), n: 0 });
                        } else {
                            hard(r, &pr, "cc0", "write", "out", HARD_WRITE, &mut fs);
                        }
                    }
                    _ => {
                        let mut f = fault("cc0", "read", "src", 1, 1, 5, 0);
                        f.every = true;
                        fs.push(f);
                        let mut f = fault("cc0", "write", "stdio", 1, 1, *r.pick(&[28, 5, 32]), 0);
                        f.every = true;
                        fs.push(f);
                    }
                }
            }
            let n = r.idx(5);
            benign(r, &pr, "cc0", &[("write", "out"), ("write", "out"), ("write", "out"), ("open", "out"), ("write", "stdio")], n, &mut fs);
            if r.pct(10) {
                // dribbled out
                let mut f = fault("cc0", "write", "out", 1, 2, 0, [1, 2, 50, 1000][r.idx(4)]);
                f.every = true;
                fs.push(f);
            }
            case(files, vec![Step { procs: vec![p], faults: fs, sched: sched(r), pipe_cap: 0 }], note)
        }
        "C08" => {
            let nsteps = 1 + r.idx(4);
            let stems: Vec<String> = (0..1 + r.idx(3)).map(|k| ["p", "q", "main"][k].to_string()).collect();
            for s in &stems {
                if r.pct(50) {
                    files.extend(source(r, s).0);
                } else {
                    files.extend(simple(r, s));
                }
            }
            // bystanders with names a compiler might be tempted by
            for n in ["a.out", "o.wasm.tmp", "o.wasm~", "o.wasm.bak", "o", "o.wat", "p.i", "p.wasm", "p.o", "module.wasm", "out.wasm", ".o.wasm.swp", "tmp.wasm", "tmp/x", "headers.bak", "notes.txt", "o.tmp"] {
                if r.pct(25) {
                    files.push((n.into(), format!("keep {}\n", r.below(1000)).into_bytes()));
                }
            }
            let nb = 1 + r.idx(3);
            for k in 0..nb {
                let t = match r.idx(3) {
                    0 => mangle(r, &String::from_utf8_lossy(&files[0].1.clone())),
                    _ => r.pick(BAD).to_string(),
                };
                files.push((format!("bad{}.c", k), t.into_bytes()));
            }
            let old = r.pct(85);
            if old {
                let o = old_output(r, lab);
                files.push(("o.wasm".into(), o));
            }
            let mut steps = vec![];
            for _ in 0..nsteps {
                let mut p = WProc { src: format!("{}.c", r.pick(&stems)), out: if r.pct(80) { "o.wasm".into() } else { String::new() }, flags: flagbits(r), seed: r.next(), ..Default::default() };
                let mut fs = vec![];
                match r.idx(10) {
                    0..=3 => p.src = format!("bad{}.c", r.idx(nb)),
                    4 => p.src = ["gone.c", "headers", ".", "p.h", ""][r.idx(5)].into(),
                    5 => {
                        p.raw = match r.idx(9) {
                            0 => vec![],
                            1 => vec![p.src.clone(), "--no-such-flag".into(), "-o".into(), "o.wasm".into()],
                            2 => vec![p.src.clone(), "-o".into()],
                            3 => vec!["-o".into(), "o.wasm".into()],
                            4 => vec![p.src.clone(), "extra".into(), "-o".into(), "o.wasm".into()],
                            5 => vec!["--help".into(), "-o".into(), "o.wasm".into()],
                            6 => vec![p.src.clone(), "-o".into(), "o.wasm".into(), "--opt-tailcall".into(), "--noopt-tailcall".into()],
                            7 => vec![p.src.clone(), "-o".into(), "o.wasm".into(), "--prof-stack".into(), "--noprof-stack".into()],
                            _ => vec![p.src.clone(), "-o".into(), "a".into(), "-o".into(), "o.wasm".into()],
                        };
                        if p.raw.is_empty() {
                            p.raw = vec!["--bogus".into()];
                        }
                    }
                    6 | 7 => {
                        // anything that fails before the module is ready
                        let pr = probe(lab, &files, &p, 0);
                        if let Some((role, op, cls, nth)) = pr.any(r, |_, op, cls| cls != "out" && !["close", "bye", "hello", "sleep", "join", "rename", "unlink", "truncate", "sync", "link", "mkdir"].contains(&op)) {
                            let act = if role == "cc0" && r.pct(75) { 1 } else { 3 };
                            fs.push(Fault { role, op, cls, nth, every: r.pct(40), act, err: *r.pick(&[5, 12, 24, 13]), n: 0 });
                        }
                    }
                    8 => p.cpp = format!("exit={};trunc={}", 1 + r.idx(3), r.idx(1001)),
                    _ => {}
                }
                steps.push(Step { procs: vec![p], faults: fs, sched: sched(r), pipe_cap: 0 });
            }
            case(files, steps, format!("history of {} compilations", nsteps))
        }
        "C09" => {
            let (f, note) = if r.pct(60) { source(r, "p") } else { (simple(r, "p"), "small program".into()) };
            files.extend(f);
            if r.pct(65) {
                let o = old_output(r, lab);
                files.push(("o.wasm".into(), o));
            }
            let pr = probe(lab, &files, &p, 0);
            let mut steps = vec![];
            for k in 0..1 + r.idx(2) {
                let mut fs = vec![];
                let mut q = p.clone();
                if k > 0 {
                    q.seed = r.next();
                }
                match r.idx(10) {
                    0..=5 if pr.out_len > 1 => {
                        // torn: so many bytes, then dead
                        let n = match r.idx(5) {
                            0 => 1 + r.below(40.min(pr.out_len - 1)),
                            1 => pr.out_len - 1 - r.below(60.min(pr.out_len - 1)),
                            2 => *r.pick(&[4u64, 8, 512, 1024, 4096]),
                            _ => 1 + r.below(pr.out_len - 1),
                        };
                        if r.pct(25) {
                            // after an earlier partial write went well
                            let a = 1 + r.below(n.max(2) - 1);
                            fs.push(fault("cc0", "write", "out", 1, 2, 0, a as i64));
                            fs.push(fault("cc0", "write", "out", 2, 2, 9, (n - a.min(n)).max(1) as i64));
                        } else {
                            fs.push(fault("cc0", "write", "out", 1, 2, 9, n as i64));
                        }
                    }
                    6 => q.alloc_fail = 1 + r.below(pr.allocs.max(1)) as i64,
                    _ => {
                        if let Some((role, op, cls, nth)) = pr.any(r, |ro, op, _| ro == "cc0" && op != "hello") {
                            fs.push(Fault { role, op, cls, nth, every: false, act: 3, err: 0, n: 0 });
                        }
                    }
                }
                steps.push(Step { procs: vec![q], faults: fs, sched: sched(r), pipe_cap: 0 });
            }
            let mut q = p.clone();
            q.seed = r.next();
            steps.push(Step { procs: vec![q], faults: vec![], sched: sched(r), pipe_cap: 0 });
            case(files, steps, note)
        }
        "C10" => {
            let n = 2 + r.idx(3);
            let mut procs = vec![];
            let share_src = r.pct(35);
            let dirs = r.pct(40);
            if dirs {
                for d in ["d0", "d1", "d2", "d3"] {
                    files.push((format!("{}/", d), vec![]));
                    files.push((format!("{}/headers -> ../headers", d), vec![]));
                }
            }
            for k in 0..n {
                let cwd = if dirs { format!("d{}", if r.pct(30) { 0 } else { k }) } else { String::new() };
                let stem = if share_src && k > 0 { "p0".to_string() } else { format!("p{}", k) };
                if !(share_src && k > 0) || dirs {
                    let f = if r.pct(60) { source(r, &stem).0 } else { simple(r, &stem) };
                    for (a, b) in f {
                        let path = join(&cwd, &a);
                        if !files.iter().any(|x| x.0 == path) {
                            files.push((path, b));
                        }
                    }
                }
                procs.push(WProc { src: format!("{}.c", stem), out: format!("o{}.wasm", k), flags: flagbits(r), cwd: cwd.clone(), seed: if r.pct(30) { 7 } else { r.next() }, cpp: if r.pct(25) { cpp_quirks(r, true) } else { String::new() }, ..Default::default() });
                if dirs && k == 0 && r.pct(40) {
                    procs[k].out = String::new();
                }
                if r.pct(40) {
                    let o = old_output(r, lab);
                    files.push((procs[k].out_path(), o));
                }
            }
            // the same names in different directories are different files
            if dirs && r.pct(50) {
                for (k, q) in procs.iter_mut().enumerate() {
                    if q.cwd == format!("d{}", k) && !q.out.is_empty() {
                        files.retain(|f| f.0 != q.out_path());
                        q.out = "o.wasm".into();
                    }
                }
                let mut seen = vec![];
                for (k, q) in procs.iter_mut().enumerate() {
                    if seen.contains(&q.out_path()) {
                        q.out = format!("o{}.wasm", k);
                    }
                    seen.push(q.out_path());
                }
            }
            // sources a process needs but that another directory's process did not bring
            for q in &procs {
                let path = join(&q.cwd, &q.src);
                if !files.iter().any(|f| f.0 == path) {
                    for (a, b) in simple(r, q.src.trim_end_matches(".c")) {
                        files.push((join(&q.cwd, &a), b));
                    }
                }
            }
            let mut fs = vec![];
            if r.pct(50) {
                let v = r.idx(n);
                let role = format!("cc{}", v);
                match r.idx(6) {
                    0 => fs.push(fault(&role, "write", "out", 1, 2, 9, 1 + r.range(0, 400))),
                    1 => fs.push(fault(&role, "read", "src", 1 + r.below(3), 1, 5, 0)),
                    2 => fs.push(fault(&role, "write", "out", 1, 1, 28, 0)),
                    3 => procs[v].cpp = "exit=1".into(),
                    4 => fs.push(fault(&role, r.clone().pick(&["open", "read", "close"]), "src", 1 + r.below(3), 3, 0, 0)),
                    _ => fs.push(fault(&format!("{}/cpp", role), "read", "pipe", 1, 3, 0, 0)),
                }
            }
            case(files, vec![Step { procs, faults: fs, sched: Sched::seeded(r.next(), [10, 30, 60, 85][r.idx(4)]), pipe_cap: if r.pct(25) { 4096 } else { 0 } }], format!("{} compilers at once", n))
        }
        "C11" => {
            let (f, note) = source(r, "p");
            files.extend(f);
            if r.pct(35) {
                // more than any pipe holds, in and out
                let n = r.range(6000, 20000) as usize;
                let body = String::from_utf8_lossy(&files[0].1).into_owned();
                let filler = if r.pct(50) { "// padding line\n".repeat(n) } else { (0..n / 8).map(|k| format!("int unused{}(int a) {{ return a; }}\n", k)).take(400).collect::<String>() + &"\n".repeat(n) };
                files[0].1 = format!("{}{}", body, filler).into_bytes();
            }
            let cap = if r.pct(60) { *r.pick(&[4096, 8192]) } else { 0 };
            p.cpp = cpp_quirks(r, true);
            if r.pct(30) {
                if !p.cpp.is_empty() {
                    p.cpp.push(';');
                }
                let x = match r.idx(5) {
                    0 => "noread=1".to_string(),
                    1 => format!("noread=1;exit={}", r.idx(3)),
                    2 => format!("trunc={};exit=1", r.idx(1000)),
                    3 => "badutf=1".into(),
                    _ => "sigterm=1".into(),
                };
                p.cpp.push_str(&x);
            }
            let pr = probe(lab, &files, &p, cap);
            let mut fs = vec![];
            for _ in 0..r.idx(3) {
                // anything may fail, once or for good
                if let Some((role, op, cls, nth)) = pr.any(r, |ro, op, _| ro.starts_with("cc0") && !["close", "bye", "hello", "sleep", "join", "thread"].contains(&op)) {
                    let cc = role == "cc0";
                    let act = match r.idx(10) {
                        0 => 3,
                        1 if world::OPS[op as usize] == "write" => 5,
                        _ => 1,
                    };
                    if !cc && act == 1 && r.pct(50) {
                        continue;
                    }
                    // a blocking pipe never says "try again"
                    let err = *r.pick(if world::CLS[cls as usize] == "pipe" { &[5, 12, 28, 32, 9] } else { &[5, 12, 28, 32, 11] });
                    fs.push(Fault { role, op, cls, nth, every: r.pct(50), act, err, n: 0 });
                }
            }
            let n = r.idx(6);
            benign(r, &pr, "cc0", &[("write", "pipe"), ("read", "pipe"), ("poll", "pipe"), ("wait", "-"), ("read", "src"), ("write", "out")], n, &mut fs);
            if r.pct(8) && pr.allocs > 0 {
                p.alloc_fail = 1 + r.below(pr.allocs) as i64;
            }
            let _ = pr.ok;
            case(files, vec![Step { procs: vec![p], faults: fs, sched: sched(r), pipe_cap: cap }], note)
        }
        p => panic!("{}", p),
    }
}
