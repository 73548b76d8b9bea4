//! Runtime cases: simulated runs of the shipped runtime with its memory, clock, log device, module
//! file and arguments under the simulator's control.
use crate::case::{bj, jb, viol, Stats, Violation};
use crate::cprog::{self, escape, Program, SK};
use crate::gen::{self, Cfg};
use crate::interp::{self, Outcome};
use crate::json::{i, obj, s, J};
use crate::lab::{show, Flags, Lab, NFault, Ran, RunSpec};
use crate::prog::entries;
use crate::rng::{hash_str, Rng};
use crate::shrink::Shrinker;
use crate::sys::{self, Status};
use std::collections::BTreeMap;
use std::fmt::Write;
use std::path::{Path, PathBuf};
use std::time::Instant;

/// what a run may do
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Want {
    Exact,  // exactly what C prescribes
    Prefix, // that, or a failure after a prefix of it
    Fail,   // a failure before any output
}
impl Want {
    fn text(self) -> &'static str {
        match self {
            Want::Exact => "exact",
            Want::Prefix => "exact-or-failure",
            Want::Fail => "failure-without-output",
        }
    }
    fn from(t: &str) -> Want {
        match t {
            "exact" => Want::Exact,
            "exact-or-failure" => Want::Prefix,
            _ => Want::Fail,
        }
    }
}

#[derive(Clone, Debug)]
pub struct RtRun {
    pub module: String, // file name the module is run under
    pub args: Vec<String>,
    pub code: i32,
    pub out: Vec<u8>,
    pub want: Want,
    pub clock: (i64, i64, Vec<(u64, i64)>),
    pub faults: Vec<NFault>,
    pub stack_kb: Option<u32>,
}
impl RtRun {
    fn new(code: i32, out: Vec<u8>, want: Want) -> RtRun {
        RtRun { module: "m.wasm".into(), args: vec![], code, out, want, clock: (0, 1, vec![]), faults: vec![], stack_kb: None }
    }
    /// the first values the run can read from the clock
    fn times(&self) -> Vec<i64> {
        let mut t = self.clock.0;
        (1..=3u64)
            .map(|n| {
                t += self.clock.1;
                t += self.clock.2.iter().filter(|j| j.0 == n).map(|j| j.1).sum::<i64>();
                t
            })
            .collect()
    }
}

#[derive(Clone)]
pub struct RtCase {
    pub prop: String,
    pub note: String,
    pub src: String,
    pub flags: u64,
    pub seed: u64,
    pub runs: Vec<RtRun>,
    pub logs: Vec<(String, Vec<u8>)>, // what is in the log directory beforehand
    pub no_log_dir: bool,
    pub must_accept: bool,
    pub spill: bool, // a rejection of the source is as good as a failing run
    pub prog: Option<(Program, Option<(i64, i64)>)>,
}

pub fn make(prop: &str, _lab: &mut Lab, r: &mut Rng, k: u64) -> RtCase {
    match prop {
        "C12" => memory(r, k),
        "C13" => logs(r),
        "C14" => args(r, k),
        p => panic!("{}", p),
    }
}

fn nf(op: &str, nth: u64, every: bool, action: &str, arg: J) -> NFault {
    NFault { op: op.into(), nth, every, action: action.into(), arg }
}

// ------------------------------------------------------------------------------------------ C12

/// the program, entered with most of the memory already used by live frames
fn pressed(p: &Program, pad: i64, n: i64) -> Option<String> {
    let mut p = p.clone();
    let m = p.funcs.last_mut()?;
    if m.name != "main" || m.nparams > 0 || !matches!(m.body.last().map(|x| &x.k), Some(SK::Return(Some(_)))) {
        return None;
    }
    m.name = "zz_inner".into();
    let t = cprog::text(&p);
    if t.contains("main") {
        return None;
    }
    Some(format!(
        "{}int zz_press(int n) {{\n  char pad[{}];\n  int r;\n  pad[0] = 90;\n  pad[{}] = 17;\n  if (n == 0) {{ r = zz_inner(); }} else {{ r = zz_press(n - 1); }}\n  if (pad[{}] != 17) {{ return 99; }}\n  if (pad[0] != {}) {{ return 98; }}\n  return r;\n}}\nint main() {{\n  return zz_press({});\n}}\n",
        t,
        pad,
        pad - 1,
        pad - 1,
        if pad == 1 { 17 } else { 90 },
        n
    ))
}

/// sizes around every place where a byte count changes width
fn huge(r: &mut Rng) -> i64 {
    let b = *r.pick(&[16u32, 17, 20, 24, 26, 27, 28, 29, 30, 31, 32, 33]);
    let d = *r.pick(&[-2i64, -1, 0, 0, 0, 1, 2, 3, 4, 16]);
    (1i64 << b) + d
}

fn memory_mix(r: &mut Rng) -> (String, i32, String) {
    let mut t = String::from("#include <stdio.h>\n");
    let mut o = String::new();
    let budget = *r.pick(&[20000i64, 50000, 60000, 64000, 65000, 66000, 70000, 90000, 200000]);
    let giant = r.pct(20);
    let tys = [("char", 1i64), ("short", 2), ("int", 4), ("long", 8), ("unsigned char", 1), ("double", 8)];
    let mut left = budget;
    // globals
    let ng = r.idx(4);
    let mut gs = vec![];
    for k in 0..ng {
        let (ty, w) = *r.pick(&tys);
        let n = if giant && r.pct(40) { huge(r) } else { (r.range(1, (left / 2).max(2)) / w).max(3) };
        left = (left - n.min(100000) * w).max(10);
        let init = r.pct(30);
        if init {
            let v = r.range(1, 9);
            if w > 1 || r.pct(50) {
                // only whole initialisers are supported
                let m = n.min(24).max(3);
                let _ = writeln!(t, "{} g{}[{}] = {{{}}};", ty, k, m, (0..m).map(|x| (v + x).to_string()).collect::<Vec<_>>().join(", "));
                gs.push((k, m, ty));
                continue;
            }
        }
        let _ = writeln!(t, "{} g{}[{}];", ty, k, n);
        gs.push((k, n, ty));
    }
    let _ = writeln!(t, "int guard = 4711;");
    if r.pct(25) {
        // one long string
        let n = if r.pct(50) { r.range(10, 3000) } else { r.range(20000, 70000) };
        let c = (b'a' + r.below(26) as u8) as char;
        let _ = writeln!(t, "char *text = \"{}\";", c.to_string().repeat(n as usize));
        let _ = writeln!(t, "int zlen() {{ int n = 0; while (text[n]) {{ n++; }} return n; }}");
        gs.push((1000, n, "text"));
        left = (left - n).max(10);
    }
    // recursion
    let (rty, rw) = *r.pick(&tys[..4]);
    let rn = if giant && r.pct(40) { huge(r) } else { [1i64, 2, 3, 8, 40, 100, 500, 3000][r.idx(8)] };
    let frame = (rn.min(1 << 20) * rw + 40).max(1);
    let depth = if r.pct(15) { r.range(0, 3) } else { (left / frame + r.range(-3, 6)).clamp(0, 3000) };
    let every = [1i64, 2, 5, 10, 50][r.idx(5)];
    let two = rn >= 2;
    let void_first = r.pct(50);
    let _ = writeln!(t, "int rec(int n, int acc) {{");
    let _ = writeln!(t, "  {} a[{}];", rty, rn);
    if void_first {
        let _ = writeln!(t, "  if (n % {} == 0) {{ printf(\"r%d\\n\", n); }}", every);
    }
    let _ = writeln!(t, "  a[0] = n % 100;");
    if two {
        let _ = writeln!(t, "  a[{}] = (n + 1) % 100;", rn - 1);
    }
    if !void_first {
        let _ = writeln!(t, "  if (n % {} == 0) {{ printf(\"r%d\\n\", n); }}", every);
    }
    let _ = writeln!(t, "  if (n == 0) {{ return acc; }}\n  int v = rec(n - 1, acc + n % 7);\n  if (a[0] != n % 100) {{ printf(\"bad first\\n\"); }}");
    if two {
        let _ = writeln!(t, "  if (a[{}] != (n + 1) % 100) {{ printf(\"bad last\\n\"); }}", rn - 1);
    }
    let _ = writeln!(t, "  return v + a[0];\n}}");
    // main
    let _ = writeln!(t, "int main() {{");
    let nl = r.idx(3);
    let mut ls = vec![];
    for k in 0..nl {
        let (ty, w) = *r.pick(&tys);
        let n = if giant && r.pct(40) { huge(r) } else { (r.range(1, (left / 2).max(2)) / w).max(3) };
        let _ = writeln!(t, "  {} l{}[{}];", ty, k, n);
        ls.push((k, n, ty));
    }
    let _ = writeln!(t, "  int i;");
    let _ = writeln!(t, "  printf(\"start\\n\");");
    o.push_str("start\n");
    let mut checks = vec![];
    let fill = |t: &mut String, name: String, n: i64, ty: &str, r: &mut Rng, checks: &mut Vec<(String, i64)>| {
        let lit = |v: i64| if ty == "double" { format!("{}.0", v) } else { v.to_string() };
        if n <= 70000 && r.pct(50) {
            let (a, m) = (r.range(1, 50), r.range(2, 100));
            if ty == "double" {
                return;
            }
            let _ = writeln!(t, "  for (i = 0; i < {}; i++) {{ {}[i] = (i + {}) % {}; }}", n, name, a, m);
            for x in [0, n / 2, n - 1] {
                checks.push((format!("{}[{}]", name, x), (x + a) % m));
            }
        } else {
            let mut at: Vec<i64> = vec![0, n - 1, n / 2];
            if n > 3 {
                at.push(n - 2);
            }
            at.sort();
            at.dedup();
            for (j, x) in at.iter().enumerate() {
                let v = r.range(1, 25) * 5 - j as i64;
                let _ = writeln!(t, "  {}[{}] = {};", name, x, lit(v));
                checks.push((format!("{}[{}]", name, x), v));
            }
        }
    };
    for (k, n, ty) in gs.iter().filter(|g| g.0 < 1000) {
        fill(&mut t, format!("g{}", k), *n, ty, r, &mut checks);
    }
    for (k, n, ty) in &ls {
        fill(&mut t, format!("l{}", k), *n, ty, r, &mut checks);
    }
    if let Some((_, n, _)) = gs.iter().find(|g| g.0 == 1000) {
        let _ = writeln!(t, "  printf(\"len %d\\n\", zlen());");
        let _ = writeln!(o, "len {}", n);
    }
    let _ = writeln!(t, "  printf(\"ready\\n\");");
    o.push_str("ready\n");
    let _ = writeln!(t, "  printf(\"rec %d\\n\", rec({}, 3));", depth);
    let mut acc = 3;
    for n in (0..=depth).rev() {
        if n % every == 0 {
            let _ = writeln!(o, "r{}", n);
        }
        if n > 0 {
            acc += n % 7 + n % 100;
        }
    }
    let _ = writeln!(o, "rec {}", acc);
    for (e, v) in &checks {
        let _ = writeln!(t, "  if ({} != {}) {{ printf(\"bad {}\\n\"); }}", e, v, e);
    }
    let _ = writeln!(t, "  printf(\"guard %d\\n\", guard);");
    o.push_str("guard 4711\n");
    let code = r.range(0, 120) as i32;
    let _ = writeln!(t, "  return {};\n}}", code);
    (t, code, o)
}

fn memory(r: &mut Rng, _k: u64) -> RtCase {
    let flags = if r.pct(60) { 0 } else { r.below(8) };
    let seed = r.next();
    let mut c = RtCase {
        prop: "C12".into(),
        note: String::new(),
        src: String::new(),
        flags,
        seed,
        runs: vec![],
        logs: vec![],
        no_log_dir: false,
        must_accept: false,
        spill: true,
        prog: None,
    };
    match r.idx(10) {
        0..=3 => loop {
            let (p, o) = gen::valid(r, &|r| Cfg::swarm(r), 20000);
            let pad = *r.pick(&[1i64, 16, 100, 200, 500, 1000, 4000]);
            let frame = pad + 24;
            let room = if r.pct(60) { 1500 } else { 6000 };
            let n = ((65536 - r.range(0, room)) / frame).clamp(0, 3000);
            let Some(src) = pressed(&p, pad, n) else { continue };
            c.src = src;
            c.note = "swarm program under memory pressure".into();
            c.runs = vec![RtRun::new(o.code, o.out.clone(), Want::Prefix)];
            c.prog = Some((p, Some((pad, n))));
            break;
        },
        4..=7 => {
            let (t, code, o) = memory_mix(r);
            c.src = t;
            c.note = "globals, frames and recursion around the size of memory".into();
            c.runs = vec![RtRun::new(code, o.into_bytes(), Want::Prefix)];
        }
        8 => {
            // small execution stack of the engine
            let (t, code, o) = {
                let d = r.range(10, 6000);
                let every = [10i64, 100, 500][r.idx(3)];
                let mut o = String::new();
                for n in (0..=d).rev() {
                    if n % every == 0 {
                        let _ = writeln!(o, "{}", n);
                    }
                }
                let _ = writeln!(o, "= {}", d);
                (
                    format!(
                        "#include <stdio.h>\nint down(int n) {{\n  int r;\n  if (n % {} == 0) {{ printf(\"%d\\n\", n); }}\n  if (n == 0) {{ return 0; }}\n  r = down(n - 1) + 1;\n  return r;\n}}\nint main() {{\n  printf(\"= %d\\n\", down({}));\n  return 5;\n}}\n",
                        every, d
                    ),
                    5,
                    o,
                )
            };
            c.src = t;
            c.note = "recursion on a small execution stack".into();
            let mut x = RtRun::new(code, o.into_bytes(), Want::Prefix);
            x.stack_kb = Some(*r.pick(&[120u32, 200, 400]));
            c.runs = vec![x];
        }
        _ => {
            let (p, o) = gen::valid(r, &|r| Cfg::swarm(r), 20000);
            c.src = cprog::text(&p);
            c.note = "runtime refused memory".into();
            c.must_accept = false;
            let mut x = RtRun::new(o.code, o.out.clone(), Want::Prefix);
            let op = *r.pick(&["memory", "compile", "instantiate"]);
            x.faults = vec![nf(op, 1, r.pct(30), "fail", J::Null)];
            if op == "memory" || op == "compile" {
                x.want = Want::Fail;
            }
            c.runs = vec![x];
            c.prog = Some((p, None));
        }
    }
    c
}

// ------------------------------------------------------------------------------------------ C13

fn logs(r: &mut Rng) -> RtCase {
    let (p, o) = gen::valid(
        r,
        &|r| {
            let mut c = Cfg::swarm(r);
            c.funcs = 1 + r.idx(4);
            c
        },
        2500,
    );
    let mut c = RtCase {
        prop: "C13".into(),
        note: "history of profiled runs".into(),
        src: cprog::text(&p),
        flags: 8 | r.below(8),
        seed: r.next(),
        runs: vec![],
        logs: vec![],
        no_log_dir: r.pct(4),
        must_accept: true,
        spill: false,
        prog: Some((p, None)),
    };
    let names: Vec<String> = ["m.wasm", "other.wasm", "my prog.wasm", "m"][..].iter().map(|x| x.to_string()).collect();
    let n = 1 + r.idx(5);
    let mut t = r.range(0, 2_000_000_000);
    for k in 0..n {
        let mut x = RtRun::new(o.code, o.out.clone(), Want::Exact);
        x.module = if r.pct(70) { names[0].clone() } else { r.pick(&names).clone() };
        let step = *r.pick(&[0i64, 1, 1, 1, 7, 1000]);
        if k > 0 {
            t += match r.idx(8) {
                0 => 0, // the same time again
                1 => -r.range(5, 100000),
                2 => 1_000_000 * r.range(1, 1000),
                3 => r.range(10, 60),
                4 => r.range(100, 999),
                5 => -r.range(5, 50),
                _ => r.range(1000, 100000),
            };
        }
        let mut jumps = vec![];
        for _ in 0..[0, 0, 1, 2][r.idx(4)] {
            let d = *r.pick(&[-86_400_000i64, -1000, -1, 1, 1000, 3_600_000, 31_536_000_000]);
            jumps.push((r.range(1, 12) as u64, d));
        }
        jumps.sort();
        jumps.dedup_by_key(|x| x.0);
        x.clock = (t, step, jumps);
        if r.pct(65) {
            for _ in 0..1 + r.idx(3) {
                let nth = match r.idx(4) {
                    0 => 1,
                    1 => r.range(1, 5) as u64,
                    2 => r.range(1, 40) as u64,
                    _ => r.range(1, 400) as u64,
                };
                let f = match r.idx(12) {
                    0..=5 => nf("append:log", nth, r.pct(25), "err", s(*r.pick(&["ENOSPC", "EIO", "EACCES", "EMFILE", "EROFS", "EDQUOT", "EINTR", "ENOENT", "EISDIR", "EPERM"]))),
                    6 | 7 => nf("append:log", nth, r.pct(15), "torn", i(r.range(0, 6))),
                    8 => nf("open:log", nth, r.pct(50), "err", s(*r.pick(&["ENOSPC", "EIO", "EACCES", "EMFILE", "EROFS"]))),
                    _ => nf("append:log", nth, false, "kill", i(r.range(0, 6))),
                };
                x.faults.push(f);
            }
        }
        c.runs.push(x);
    }
    // logs of earlier days, and some that are already where the next one goes
    for _ in 0..r.idx(4) {
        let name = match r.idx(3) {
            0 => format!("{}.{}.stackptrlog", r.pick(&names), 1_600_000_000_000 + r.range(0, 1_000_000)),
            1 => {
                let x = &c.runs[r.idx(c.runs.len())];
                format!("{}.{}.stackptrlog", x.module, 1_700_000_000_000 + x.times()[0])
            }
            _ => ["notes.txt", "m.wasm.stackptrlog", "old.stackptrlog"][r.idx(3)].to_string(),
        };
        let body: Vec<u8> = match r.idx(3) {
            0 => vec![],
            1 => (0..r.range(1, 30)).flat_map(|k| format!("{}\n", 16 + k * 4).into_bytes()).collect(),
            _ => b"16\n32\n4".to_vec(),
        };
        if !c.logs.iter().any(|l| l.0 == name) {
            c.logs.push((name, body));
        }
    }
    c
}

// ------------------------------------------------------------------------------------------ C14

fn some_arg(r: &mut Rng, max: usize) -> String {
    let n = match r.idx(10) {
        0 => 0,
        1 | 2 => 1,
        3..=6 => r.idx(12),
        7 => r.idx(80),
        8 => r.idx(300),
        _ => r.idx(max.max(1)),
    }
    .min(max);
    let mode = r.idx(6);
    (0..n)
        .map(|_| match mode {
            0 | 1 => (b'!' + r.below(94) as u8) as char,
            2 => *r.pick(&['a', ' ', '\t', '\n', '%', '\\', '"', '\'', '$', '\u{1}', '\u{7f}', '-', '0']),
            3 => *r.pick(&['é', 'ß', 'Ω', '中', '文', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '😀', '\u{10ffff}', 'x']),
            4 => *r.pick(&['0', '1', '9', '-', '+', '%', 'd', 's', '@', '~']),
            _ => char::from_u32(1 + r.below(0xd7fe) as u32).unwrap_or('?'),
        })
        .collect()
}

/// a program that says exactly what it was given, and then that nothing else was disturbed
struct Echo {
    src: String,
    head: String, // printed before the arguments
    tail: String, // printed after them
    verbatim: usize,
    code: i32,
    twice: bool,
    size: usize, // memory it needs besides the arguments, generously
}
fn echo(r: &mut Rng) -> Echo {
    let mut t = String::from("#include <stdio.h>\n#include <string.h>\n");
    let mut head = String::new();
    let mut tail = String::new();
    let ng = r.range(0, 40) as usize;
    let gi: Vec<i64> = (0..ng + 1).map(|_| r.range(-1000, 100000)).collect();
    let _ = writeln!(t, "int gi[{}] = {{{}}};", gi.len(), gi.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
    let word = |r: &mut Rng, n: usize| -> Vec<u8> { (0..1 + r.idx(n)).map(|_| b'a' + r.below(26) as u8).collect() };
    let (gs, gp) = (word(r, 40), word(r, 60));
    let _ = writeln!(t, "char gs[] = \"{}\";", escape(&gs, 0));
    let _ = writeln!(t, "char *gp = \"{}\";", escape(&gp, 0));
    let gl = r.next() as i64 >> 2;
    let _ = writeln!(t, "long gl = {};", gl);
    let big = if r.pct(30) { r.range(100, 3000) } else { r.range(1, 20) };
    let _ = writeln!(t, "int room[{}];", big);
    let verbatim = *r.pick(&[0usize, 8, 30, 100, 300]);
    let _ = writeln!(t, "int hash(char *s) {{\n  int h = 7;\n  int j = 0;\n  while (s[j] != 0) {{ h = (h * 33 + s[j] + 256) % 1000003; j++; }}\n  return h;\n}}");
    let fr = *r.pick(&[1i64, 4, 30, 200]);
    let _ = writeln!(t, "int deep(int n) {{\n  int a[{}];\n  int r;\n  a[0] = n;\n  a[{}] = n;\n  if (n == 0) {{ return 0; }}\n  r = deep(n - 1);\n  return r + a[0] + a[{}];\n}}", fr, fr - 1, fr - 1);
    let depth = r.range(0, 15);
    let by_string = r.pct(60);
    let _ = writeln!(t, "int main(int argc, char *argv[]) {{\n  int i;\n  int k;");
    let _ = writeln!(t, "  room[{}] = 5;\n  room[0] = 6;", big - 1);
    if r.pct(60) {
        let _ = writeln!(t, "  printf(\"begin\\n\");");
        head.push_str("begin\n");
    }
    let _ = writeln!(t, "  printf(\"argc %d\\n\", argc);");
    let _ = writeln!(t, "  for (i = 0; i < argc; i++) {{\n    char *p = argv[i];\n    int n = strlen(p);\n    printf(\"%d: %d %d\", i, n, hash(p));");
    if verbatim > 0 {
        if by_string {
            let _ = writeln!(t, "    if (n <= {}) {{ printf(\" [%s]\", p); }}", verbatim);
        } else {
            let _ = writeln!(t, "    if (n <= {}) {{ printf(\" [\"); for (k = 0; k < n; k++) {{ printf(\"%c\", p[k]); }} printf(\"]\"); }}", verbatim);
        }
    }
    let _ = writeln!(t, "    printf(\"\\n\");\n  }}");
    let _ = writeln!(t, "  printf(\"deep %d\\n\", deep({}));", depth);
    let _ = writeln!(tail, "deep {}", depth * (depth + 1));
    let twice = r.pct(60);
    if twice {
        let _ = writeln!(t, "  for (i = argc - 1; i >= 0; i--) {{ char *q = argv[i]; printf(\"%d \", hash(q)); }}\n  printf(\"\\n\");");
    }
    let _ = writeln!(t, "  k = 0;\n  for (i = 0; i < {}; i++) {{ k = k + gi[i]; }}", gi.len());
    let _ = writeln!(t, "  printf(\"%d %s %s %ld %d %d\\n\", k, gs, gp, gl, room[0], room[{}]);", big - 1);
    let _ = writeln!(tail, "{} {} {} {} {} {}", gi.iter().sum::<i64>(), String::from_utf8_lossy(&gs), String::from_utf8_lossy(&gp), gl, if big == 1 { 6 } else { 6 }, if big == 1 { 6 } else { 5 });
    let code = r.range(0, 120) as i32;
    let _ = writeln!(t, "  return {};\n}}", code);
    Echo { src: t, head, tail, verbatim, code, twice, size: 1200 + gi.len() * 4 + big as usize * 4 + (depth as usize + 1) * (fr as usize * 4 + 60) }
}
fn hash(b: &[u8]) -> i64 {
    let mut h = 7i64;
    for c in b {
        h = (h * 33 + (*c as i8) as i64 + 256) % 1000003;
    }
    h
}
impl Echo {
    fn expect(&self, argv: &[Vec<u8>]) -> Vec<u8> {
        let mut o = self.head.clone().into_bytes();
        o.extend(format!("argc {}\n", argv.len()).bytes());
        for (i, a) in argv.iter().enumerate() {
            o.extend(format!("{}: {} {}", i, a.len(), hash(a)).bytes());
            if self.verbatim > 0 && a.len() <= self.verbatim {
                o.extend(b" [");
                o.extend(a);
                o.extend(b"]");
            }
            o.push(b'\n');
        }
        let k = self.tail.find('\n').unwrap() + 1;
        o.extend(self.tail[..k].bytes());
        if self.twice {
            for a in argv.iter().rev() {
                o.extend(format!("{} ", hash(a)).bytes());
            }
            o.push(b'\n');
        }
        o.extend(self.tail[k..].bytes());
        o
    }
}

fn args(r: &mut Rng, _k: u64) -> RtCase {
    let e = echo(r);
    let mut c = RtCase {
        prop: "C14".into(),
        note: String::new(),
        src: e.src.clone(),
        flags: if r.pct(70) { 0 } else { r.below(16) },
        seed: r.next(),
        runs: vec![],
        logs: vec![],
        no_log_dir: false,
        must_accept: true,
        spill: false,
        prog: None,
    };
    let n = 1 + r.idx(4);
    for _ in 0..n {
        let mut a: Vec<String> = vec![];
        match r.idx(10) {
            0 => {}
            1..=4 => {
                for _ in 0..r.idx(8) {
                    a.push(some_arg(r, 900));
                }
            }
            5 => {
                for _ in 0..r.idx(1500) {
                    a.push(some_arg(r, 3));
                }
            }
            6 => {
                // one or a few long ones
                let total = r.range(1000, 50000) as usize;
                let k = 1 + r.idx(4);
                for _ in 0..k {
                    let mut x = String::new();
                    while x.len() < total / k {
                        x.push_str(&some_arg(r, 400));
                        x.push((b'a' + r.below(26) as u8) as char);
                    }
                    a.push(x);
                }
            }
            7 | 8 => {
                // to the brim
                let target = 65536 - r.range(-200, e.size as i64 + 400);
                let mut used = 4 + 7;
                if r.pct(40) {
                    for _ in 0..r.idx(50) {
                        let x = some_arg(r, 100);
                        used += x.len() as i64 + 5;
                        a.push(x);
                    }
                }
                let left = (target - used - 5).max(0) as usize;
                a.push("abcdefghij".repeat(left / 10 + 1)[..left].to_string());
                let k = r.idx(a.len());
                let last = a.len() - 1;
                a.swap(k, last);
            }
            _ => {
                // far too much
                let k = 1 + r.idx(3);
                for _ in 0..k {
                    a.push("z".repeat(70000 + r.idx(60000)));
                }
                if r.pct(50) {
                    a.push("1".into());
                }
            }
        }
        let mut x = RtRun::new(e.code, vec![], Want::Exact);
        x.module = if r.pct(80) { "m.wasm".into() } else { ["a longer name for a module.wasm", "x", "modulé.wasm"][r.idx(3)].to_string() };
        x.args = a;
        let argv: Vec<Vec<u8>> = std::iter::once(x.module.clone()).chain(x.args.iter().cloned()).map(|a| a.into_bytes()).collect();
        let need: usize = argv.iter().map(|a| a.len() + 5).sum();
        x.out = e.expect(&argv);
        x.want = if need > 65536 {
            Want::Fail
        } else if need + e.size + 2000 < 65536 {
            Want::Exact
        } else {
            Want::Prefix
        };
        if r.pct(35) {
            // the module does not arrive
            let f = match r.idx(8) {
                0 | 1 => nf("read:module", 1, r.pct(50), "err", s(*r.pick(&["EIO", "ENOENT", "EACCES", "EISDIR", "EMFILE", "EPERM"]))),
                2..=4 => nf("read:module", 1, true, "trunc", i(if r.pct(30) { r.range(0, 30) } else { r.range(0, 999) })),
                5 => nf("read:module", 1, true, "flip", i(r.range(0, 1 << 20))),
                6 => nf(*r.pick(&["memory", "compile"]), 1, true, "fail", J::Null),
                _ => nf("read:module", 1, false, "missing", J::Null),
            };
            x.faults = vec![f];
            x.want = Want::Fail;
        }
        c.runs.push(x);
    }
    c.note = "arguments and module bytes".into();
    c
}

// ------------------------------------------------------------------------------------- evaluation

fn home(lab: &Lab) -> PathBuf {
    lab.path("h")
}
fn setup(lab: &Lab, c: &RtCase) {
    let h = home(lab);
    if !h.join("runtime").exists() {
        sys::copy_dir(&lab.p.repo.join("runtime"), &h.join("runtime"));
        std::fs::create_dir_all(h.join("bin")).unwrap();
        std::fs::create_dir_all(h.join("doc")).unwrap();
        std::fs::write(h.join("doc/notes.stackptrlog"), b"not a log\n").unwrap();
        std::fs::write(h.join("bin/keep.txt"), b"keep\n").unwrap();
    }
    let _ = std::fs::remove_dir_all(h.join("logs"));
    for e in std::fs::read_dir(h.join("bin")).into_iter().flatten().flatten() {
        if e.file_name() != "keep.txt" {
            let _ = std::fs::remove_file(e.path());
        }
    }
    if !c.no_log_dir {
        std::fs::create_dir_all(h.join("logs")).unwrap();
        for (n, b) in &c.logs {
            std::fs::write(h.join("logs").join(n), b).unwrap();
        }
    }
}
fn snapshot(d: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(d: &Path, rel: &str, o: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let r = format!("{}{}", rel, e.file_name().to_string_lossy());
            if e.file_type().map_or(false, |t| t.is_dir()) {
                o.insert(format!("{}/", r), vec![]);
                walk(&e.path(), &format!("{}/", r), o);
            } else {
                o.insert(r, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    let mut o = BTreeMap::new();
    walk(d, "", &mut o);
    o
}
fn did(x: &Ran) -> String {
    if x.timeout {
        "did not finish".into()
    } else if x.died {
        "took the engine down".into()
    } else {
        format!("exit {} output \"{}\"{}", x.code, show(&x.out), if x.uncaught.is_empty() { String::new() } else { format!(" ({})", x.uncaught) })
    }
}
fn short(a: &[String]) -> String {
    let t = format!("{:?}", a);
    if t.len() > 200 {
        format!("{} arguments, {} bytes", a.len(), a.iter().map(|x| x.len()).sum::<usize>())
    } else {
        t
    }
}

impl RtCase {
    fn vname(&self) -> String {
        format!("switches {} hash seed {:x}", Flags::from_bits(self.flags).text(), self.seed)
    }
    pub fn eval(&self, lab: &mut Lab, st: &mut Stats) -> Option<Violation> {
        st.evals += 1;
        st.distinct.insert(hash_str(&self.src) ^ hash_str(&format!("{:?}{:?}", self.runs, self.flags)));
        if st.samples.is_empty() {
            st.samples.push(obj(vec![
                ("note", s(&self.note)),
                ("source", s(&self.src.chars().take(600).collect::<String>())),
                ("runs", J::A(self.runs.iter().take(3).map(|x| obj(vec![("args", s(&short(&x.args))), ("want", s(x.want.text())), ("faults", J::A(x.faults.iter().map(|f| f.json()).collect()))])).collect())),
            ]));
        }
        setup(lab, self);
        let comp = lab.compile(&self.src, Flags::from_bits(self.flags), self.seed);
        st.inc("compilations");
        if comp.status == Status::Timeout {
            return Some(Violation { class: "compiler hangs".into(), msg: format!("the compiler does not finish: {}", self.vname()), wall: true });
        }
        if !comp.ok() {
            if self.spill {
                st.inc("programs rejected");
                return None;
            }
            return if self.must_accept { viol("rejected", format!("a valid program is rejected ({}): {}; {}", comp.status.text(), comp.err.lines().take(4).collect::<Vec<_>>().join(" / "), self.vname())) } else { None };
        }
        let w = comp.wasm.unwrap();
        match self.prop.as_str() {
            "C13" => self.history(lab, st, &w),
            _ => self.runs.iter().enumerate().find_map(|(k, x)| self.one(lab, st, &w, k, x)),
        }
    }
    fn spec(&self, lab: &Lab, x: &RtRun) -> RunSpec {
        RunSpec {
            args: x.args.clone(),
            clock_start: x.clock.0,
            clock_step: x.clock.1,
            jumps: x.clock.2.clone(),
            faults: x.faults.clone(),
            root: Some(home(lab)),
            stack_kb: x.stack_kb,
            trace: false,
        }
    }
    fn one(&self, lab: &mut Lab, st: &mut Stats, w: &[u8], k: usize, x: &RtRun) -> Option<Violation> {
        let mut spec = self.spec(lab, x);
        let missing = x.faults.iter().any(|f| f.action == "missing");
        spec.faults.retain(|f| f.action != "missing");
        let path = lab.path(&x.module);
        let _ = std::fs::remove_file(&path);
        if !missing {
            std::fs::write(&path, w).expect("scratch write");
        }
        let y = lab.run_file(&x.module, &spec);
        let _ = std::fs::remove_file(&path);
        st.inc("program runs");
        st.sim_ms += y.sim_ms;
        st.ops += y.ops.iter().map(|o| o.1).sum::<u64>();
        let mut hit = missing;
        if missing {
            st.fault("module missing");
        }
        for f in &y.fired {
            hit = true;
            st.fault(&format!("{} {}", f.0, f.2));
        }
        if y.timeout {
            return Some(Violation { class: "no end".into(), msg: format!("run {} does not finish; {}", k, self.vname()), wall: true });
        }
        let mut want = x.want;
        if !x.faults.is_empty() {
            if !hit {
                // the runtime no longer does what was to fail
                st.inc("faults not reached");
                return None;
            }
            if y.valid == Some(true) && x.faults.iter().any(|f| f.action == "flip") {
                st.inc("flipped modules that are still WebAssembly");
                return None;
            }
        }
        let exact = !y.died && y.code == x.code && y.out == x.out;
        let failed = y.died || (y.code != 0 && (!y.uncaught.is_empty() || !y.err.is_empty()));
        if x.faults.is_empty() && !exact && want == Want::Prefix && failed && x.out.starts_with(&y.out) {
            st.inc("runs ended by lack of memory");
        } else if exact {
            st.inc("runs complete");
        } else {
            st.inc("runs failed as they must");
        }
        let bad = |class: &str, what: &str| viol(class, format!("{}: run {} with {} {}; C prescribes exit {} output \"{}\"; {}", what, k, short(&x.args), did(&y), x.code, show(&x.out), self.vname()));
        if want == Want::Exact && x.faults.is_empty() && x.stack_kb.is_none() && !exact {
            // no fault is involved: look once more without the simulator
            let z = lab.run_real(w, &x.args);
            if !z.timeout && z.code == x.code && z.out == x.out && x.module == "m.wasm" {
                st.inc("alarms withdrawn after an unsimulated run");
                want = Want::Prefix;
            }
        }
        match want {
            Want::Exact if !exact => bad("wrong result", "the run is not what it must be"),
            Want::Prefix if !exact => {
                if !x.out.starts_with(&y.out) {
                    bad("wrong output", "the output is not a prefix of what C prescribes")
                } else if !failed {
                    bad("quiet failure", "the run neither completed nor failed")
                } else {
                    None
                }
            }
            Want::Fail => {
                if !y.out.is_empty() {
                    bad("output", "the run had to fail before printing anything")
                } else if y.code == 0 && !y.died {
                    bad("success", "the run had to fail")
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    fn history(&self, lab: &mut Lab, st: &mut Stats, w: &[u8]) -> Option<Violation> {
        let h = home(lab);
        // the reference: the same program, undisturbed, with its stack pointer observed
        let mut refs: BTreeMap<(String, Vec<String>), (Vec<Vec<u8>>, Vec<u64>)> = BTreeMap::new();
        for x in &self.runs {
            let key = (x.module.clone(), x.args.clone());
            if refs.contains_key(&key) {
                continue;
            }
            let m = h.join("bin").join(&x.module);
            std::fs::write(&m, w).expect("scratch write");
            std::fs::create_dir_all(lab.path("logs")).unwrap();
            crate::prog::clear_logs(lab);
            let y = lab.run_file(&format!("h/bin/{}", x.module), &RunSpec { trace: true, args: x.args.clone(), ..Default::default() });
            let logs: Vec<Vec<u8>> = snapshot(&lab.path("logs")).into_values().collect();
            crate::prog::clear_logs(lab);
            let _ = std::fs::remove_file(&m);
            if y.timeout {
                return Some(Violation { class: "no end".into(), msg: format!("the program does not finish; {}", self.vname()), wall: true });
            }
            if y.code != x.code || y.out != x.out {
                let z = lab.run_real(w, &x.args);
                crate::prog::clear_logs(lab);
                if z.code == x.code && z.out == x.out {
                    st.inc("alarms withdrawn after an unsimulated run");
                    return None;
                }
                return viol("wrong result", format!("profiled and undisturbed, the program {}; C prescribes exit {} output \"{}\"; {}", did(&y), x.code, show(&x.out), self.vname()));
            }
            if logs.len() > 1 {
                return viol("several logs", format!("one run wrote {} logs; {}", logs.len(), self.vname()));
            }
            let t = y.trace.unwrap_or_default();
            let text = logs.into_iter().next().unwrap_or_default();
            let e = entries(&text);
            if t.on {
                let dedup = |first: u64, v: &[u64]| {
                    let mut o = vec![first];
                    for x in v {
                        if o.last() != Some(x) {
                            o.push(*x);
                        }
                    }
                    o
                };
                if dedup(t.sp0, &t.stores) != dedup(t.sp0, &e) {
                    return viol("log differs", format!("the stack log of an undisturbed run ({} entries) is not what the stack pointer did ({} changes); {}", e.len(), t.stores.len(), self.vname()));
                }
            }
            refs.insert(key, (text.split_inclusive(|b| *b == b'\n').map(|l| l.to_vec()).collect(), e));
        }
        let mut owner: BTreeMap<String, usize> = BTreeMap::new();
        for (k, x) in self.runs.iter().enumerate() {
            let (lines, rent) = &refs[&(x.module.clone(), x.args.clone())];
            std::fs::write(h.join("bin").join(&x.module), w).expect("scratch write");
            let before = snapshot(&h);
            let y = lab.run_file(&format!("h/bin/{}", x.module), &self.spec(lab, x));
            let after = snapshot(&h);
            st.inc("program runs");
            st.sim_ms += y.sim_ms.abs();
            st.ops += y.ops.iter().map(|o| o.1).sum::<u64>();
            let tell = |class: &str, what: String| viol(class, format!("run {} ({}, clock {:?}, {} faults fired): {}; {}", k, x.module, x.clock, y.fired.len(), what, self.vname()));
            let (mut killed, mut wf) = (false, vec![]);
            for f in &y.fired {
                st.fault(&format!("{} {}", f.0, f.2));
                killed |= f.2 == "kill";
                if f.0 == "append:log" {
                    wf.push((f.1, f.2.clone(), f.3));
                }
            }
            if y.timeout {
                return Some(Violation { class: "no end".into(), msg: format!("run {} does not finish; {}", k, self.vname()), wall: true });
            }
            // the program
            if killed {
                if !x.out.starts_with(&y.out) {
                    return tell("program disturbed", format!("killed, it had printed \"{}\"; C prescribes \"{}\"", show(&y.out), show(&x.out)));
                }
            } else if y.code != x.code || y.out != x.out {
                return tell("program disturbed", format!("{}; undisturbed it gives exit {} output \"{}\"", did(&y), x.code, show(&x.out)));
            }
            // the files
            let mut grown: Vec<(String, Vec<u8>)> = vec![];
            for (p, b) in &before {
                match after.get(p) {
                    None => return tell("file gone", format!("{} is gone", p)),
                    Some(a) if p.starts_with("logs/") && a.len() > b.len() && a.starts_with(b) => grown.push((p.clone(), a[b.len()..].to_vec())),
                    Some(a) if a != b => return tell(if p.starts_with("logs/") { "log altered" } else { "file altered" }, format!("{} had {} bytes and now has {}, which do not continue them", p, b.len(), a.len())),
                    _ => {}
                }
            }
            for (p, a) in &after {
                if !before.contains_key(p) {
                    if !p.starts_with("logs/") {
                        return tell("new file", format!("{} appeared", p));
                    }
                    if !p.ends_with('/') {
                        grown.push((p.clone(), a.clone()));
                    }
                }
            }
            if grown.len() > 1 {
                return tell("several logs", format!("it wrote to {:?}", grown.iter().map(|g| &g.0).collect::<Vec<_>>()));
            }
            let appends = y.ops.iter().find(|o| o.0 == "append:log").map_or(0, |o| o.1);
            let added = grown.first().map_or(vec![], |g| g.1.clone());
            st.add("log entries written", entries(&added).len() as u64);
            if !self.no_log_dir {
                let opened = y.fired.iter().any(|f| f.0 == "open:log");
                if y.fired.iter().all(|f| f.0 == "clock") {
                    if entries(&added) != *rent {
                        return tell("log differs", format!("without a fault it logged {} entries, {} are due", entries(&added).len(), rent.len()));
                    }
                } else if !opened && appends as usize <= lines.len() && (killed || appends as usize == lines.len()) {
                    // one write for each entry
                    let mut due: Vec<u8> = vec![];
                    for n in 1..=appends {
                        let l = &lines[n as usize - 1];
                        match wf.iter().find(|f| f.0 == n) {
                            None => due.extend(l),
                            Some((_, a, _)) if a == "err" => {}
                            Some((_, _, arg)) => due.extend(&l[..(*arg as usize) % (l.len() + 1)]),
                        }
                    }
                    st.inc("logs checked byte for byte");
                    if due != added {
                        return tell("log differs", format!("the log has {} bytes, the writes that succeeded were {} bytes", added.len(), due.len()));
                    }
                } else if !wf.iter().any(|f| f.1 != "err") {
                    // entries are grouped in some other way: in order, none invented
                    let mut it = rent.iter();
                    st.inc("logs checked for order");
                    if !entries(&added).iter().all(|e| it.any(|x| x == e)) {
                        return tell("log differs", "the log has entries that are not those of the run in order".into());
                    }
                }
            }
            if let Some((p, _)) = grown.first() {
                if let Some(o) = owner.get(p) {
                    let (a, b) = (self.runs[*o].times(), x.times());
                    if !a.iter().any(|t| b.contains(t)) && (a.iter().max() < b.iter().min() || b.iter().max() < a.iter().min()) {
                        return tell("log shared", format!("it wrote to {}, the log of run {} at another time", p, o));
                    }
                }
                owner.insert(p.clone(), k);
            }
        }
        None
    }

    pub fn shrink(&self, lab: &mut Lab, v: &Violation, until: Instant) -> RtCase {
        let mut st = Stats::default();
        let mut cur = self.clone();
        let mut fails = |lab: &mut Lab, c: &RtCase| Instant::now() < until && c.eval(lab, &mut st).map_or(false, |x| x.class == v.class);
        // fewer runs
        let mut k = 0;
        while k < cur.runs.len() && cur.runs.len() > 1 {
            let mut c = cur.clone();
            c.runs.remove(k);
            if fails(lab, &c) {
                cur = c;
            } else {
                k += 1;
            }
        }
        let mut k = 0;
        while k < cur.logs.len() {
            let mut c = cur.clone();
            c.logs.remove(k);
            if fails(lab, &c) {
                cur = c;
            } else {
                k += 1;
            }
        }
        for k in 0..cur.runs.len() {
            let mut f = 0;
            while f < cur.runs[k].faults.len() && cur.prop == "C13" {
                let mut c = cur.clone();
                c.runs[k].faults.remove(f);
                if fails(lab, &c) {
                    cur = c;
                } else {
                    f += 1;
                }
            }
            for z in 0..3 {
                let mut c = cur.clone();
                match z {
                    0 => c.runs[k].clock.2.clear(),
                    1 => c.runs[k].clock.1 = 1,
                    _ => c.runs[k].module = "m.wasm".into(),
                }
                // the module's name is part of what C14's program prints
                if (z < 2 || cur.prop == "C13") && fails(lab, &c) {
                    cur = c;
                }
            }
        }
        for f in [0u64, 8] {
            let mut c = cur.clone();
            c.flags = f | (cur.flags & 8);
            if c.flags != cur.flags && fails(lab, &c) {
                cur = c;
                break;
            }
        }
        for h in [0u64, 1, 2] {
            let mut c = cur.clone();
            c.seed = h;
            if fails(lab, &c) {
                cur = c;
                break;
            }
        }
        if let Some((p, press)) = cur.prog.clone() {
            let base = cur.clone();
            let mk = |q: &Program, o: &Outcome| -> Option<RtCase> {
                let mut c = base.clone();
                c.src = match press {
                    Some((pad, n)) => pressed(q, pad, n)?,
                    None => cprog::text(q),
                };
                for x in &mut c.runs {
                    x.code = o.code;
                    x.out = o.out.clone();
                }
                c.prog = Some((q.clone(), press));
                Some(c)
            };
            let mut test = |q: &Program, o: &Outcome| mk(q, o).map_or(false, |c| fails(lab, &c));
            let q = Shrinker { test: &mut test, trials: 700, limit: 20000, until }.run(&p);
            if let Ok(o) = interp::run(&q, 20000) {
                if let Some(c) = mk(&q, &o) {
                    if fails(lab, &c) {
                        cur = c;
                    }
                }
            }
        }
        cur
    }

    pub fn json(&self) -> J {
        let runs = self
            .runs
            .iter()
            .map(|x| {
                obj(vec![
                    ("module", s(&x.module)),
                    ("args", J::A(x.args.iter().map(|a| s(a)).collect())),
                    ("exit", i(x.code)),
                    ("output", bj(&x.out)),
                    ("want", s(x.want.text())),
                    ("clock_start", i(x.clock.0)),
                    ("clock_step", i(x.clock.1)),
                    ("clock_jumps", J::A(x.clock.2.iter().map(|(n, d)| J::A(vec![i(*n), i(*d)])).collect())),
                    ("faults", J::A(x.faults.iter().map(|f| f.json()).collect())),
                    ("stack_kb", x.stack_kb.map_or(J::Null, |k| i(k))),
                ])
            })
            .collect();
        obj(vec![
            ("property", s(&self.prop)),
            ("note", s(&self.note)),
            ("switches", i(self.flags)),
            ("hash_seed", i(self.seed)),
            ("runs", J::A(runs)),
            ("logs", J::A(self.logs.iter().map(|(n, b)| obj(vec![("name", s(n)), ("content", bj(b))])).collect())),
            ("no_log_dir", J::B(self.no_log_dir)),
            ("must_accept", J::B(self.must_accept)),
            ("may_reject", J::B(self.spill)),
            ("source", s(&self.src)),
        ])
    }
    pub fn from(j: &J) -> RtCase {
        RtCase {
            prop: j.get("property").str().into(),
            note: j.get("note").str().into(),
            src: j.get("source").str().into(),
            flags: j.get("switches").u64(),
            seed: j.get("hash_seed").u64(),
            runs: j
                .get("runs")
                .arr()
                .iter()
                .map(|x| RtRun {
                    module: x.get("module").str().into(),
                    args: x.get("args").arr().iter().map(|a| a.str().to_string()).collect(),
                    code: x.get("exit").int() as i32,
                    out: jb(x.get("output")),
                    want: Want::from(x.get("want").str()),
                    clock: (x.get("clock_start").int(), x.get("clock_step").int(), x.get("clock_jumps").arr().iter().map(|p| (p.arr()[0].u64(), p.arr()[1].int())).collect()),
                    faults: x.get("faults").arr().iter().map(NFault::from).collect(),
                    stack_kb: if x.get("stack_kb").is_null() { None } else { Some(x.get("stack_kb").u64() as u32) },
                })
                .collect(),
            logs: j.get("logs").arr().iter().map(|l| (l.get("name").str().to_string(), jb(l.get("content")))).collect(),
            no_log_dir: j.get("no_log_dir").bool(),
            must_accept: j.get("must_accept").bool(),
            spill: j.get("may_reject").bool(),
            prog: None,
        }
    }
}
