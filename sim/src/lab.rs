//! One shard's laboratory: a scratch tree with copies of the shipped headers and runtime, local
//! (single-process) compilations under the shim, and simulated program runs.
use crate::json::{self, i, obj, s, J};
use crate::sys::{self, Scratch, Status};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct Paths {
    pub repo: PathBuf,
    pub verif: PathBuf,
    pub cc: PathBuf,
    pub shim: PathBuf,
    pub simcpp: PathBuf,
}
impl Paths {
    pub fn get() -> Paths {
        let e = |k: &str, d: &str| PathBuf::from(std::env::var(k).unwrap_or_else(|_| d.into()));
        let verif = e("SIM_VERIF", "/verif");
        let build = verif.join("build");
        Paths {
            repo: e("SIM_REPO", "/repo"),
            cc: e("SIM_CC", build.join("cc/debug/c_to_wasm_compiler").to_str().unwrap()),
            shim: build.join("shim.so"),
            simcpp: build.join("simcpp"),
            verif,
        }
    }
}

/// compiler switches
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Flags {
    pub tail: bool,
    pub unreach: bool,
    pub stack: bool,
    pub prof: bool,
    pub explicit: bool, // say the defaults aloud
}
impl Flags {
    pub const DEFAULT: Flags = Flags { tail: true, unreach: true, stack: true, prof: false, explicit: false };
    pub fn from_bits(b: u64) -> Flags {
        Flags { tail: b & 1 == 0, unreach: b & 2 == 0, stack: b & 4 == 0, prof: b & 8 != 0, explicit: b & 16 != 0 }
    }
    pub fn bits(&self) -> u64 {
        (!self.tail) as u64 | ((!self.unreach) as u64) << 1 | ((!self.stack) as u64) << 2 | (self.prof as u64) << 3 | (self.explicit as u64) << 4
    }
    pub fn args(&self) -> Vec<String> {
        let mut v = vec![];
        for (on, name) in [(self.tail, "opt-tailcall"), (self.unreach, "opt-unreachable-procedure"), (self.stack, "opt-stack-allocation")] {
            if !on {
                v.push(format!("--noopt-{}", &name[4..]));
            } else if self.explicit {
                v.push(format!("--{}", name));
            }
        }
        if self.prof {
            v.push("--prof-stack".into());
        } else if self.explicit {
            v.push("--noprof-stack".into());
        }
        v
    }
    pub fn text(&self) -> String {
        let a = self.args();
        if a.is_empty() {
            "(default)".into()
        } else {
            a.join(" ")
        }
    }
}

#[derive(Clone, Debug)]
pub struct Compiled {
    pub status: Status,
    pub wasm: Option<Vec<u8>>,
    pub err: String,
    pub out: String,
}
impl Compiled {
    pub fn ok(&self) -> bool {
        self.status == Status::Exit(0) && self.wasm.is_some()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Ran {
    pub code: i32,
    pub out: Vec<u8>,
    pub err: String,
    pub timeout: bool,
    pub died: bool, // the whole engine went down
    pub sp: u64,
    pub mem_len: u64,
    pub fired: Vec<(String, u64, String, i64)>,
    pub ops: Vec<(String, u64)>,
    pub sim_ms: i64,
    pub uncaught: String,
    pub trace: Option<Trace>,
    pub valid: Option<bool>, // was the module, as it was read, still WebAssembly?
}
/// what the stack pointer did, as seen by the instrumented module
#[derive(Clone, Debug, Default)]
pub struct Trace {
    pub on: bool,
    pub sp0: u64,
    pub stores: Vec<u64>,
    pub prints: Vec<(u64, u64, u64)>, // bytes printed before, stack pointer, stores before
}

#[derive(Clone, Debug, Default)]
pub struct RunSpec {
    pub args: Vec<String>,
    pub clock_start: i64,
    pub clock_step: i64,
    pub jumps: Vec<(u64, i64)>,
    pub faults: Vec<NFault>,
    pub root: Option<PathBuf>,
    pub stack_kb: Option<u32>,
    pub trace: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct NFault {
    pub op: String,
    pub nth: u64,
    pub every: bool,
    pub action: String,
    pub arg: J,
}
impl NFault {
    pub fn json(&self) -> J {
        obj(vec![("op", s(&self.op)), ("nth", i(self.nth)), ("every", J::B(self.every)), ("action", s(&self.action)), ("arg", self.arg.clone())])
    }
    pub fn from(j: &J) -> NFault {
        NFault { op: j.get("op").str().into(), nth: j.get("nth").u64(), every: j.get("every").bool(), action: j.get("action").str().into(), arg: j.get("arg").clone() }
    }
}

struct Engine {
    ch: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    used: u32,
    stack_kb: Option<u32>,
}
impl Drop for Engine {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}

pub struct Lab {
    pub p: Paths,
    pub dir: Scratch,
    engine: Option<Engine>,
    ids: u64,
    pub compiles: u64,
    pub runs: u64,
    pub run_t: Duration,
    pub compile_t: Duration,
    pub world_t: Duration,
}

pub const COMPILE_T: Duration = Duration::from_secs(60);
pub const RUN_T: Duration = Duration::from_secs(30);

impl Lab {
    pub fn new(p: &Paths) -> Lab {
        let dir = Scratch::new("lab");
        sys::copy_dir(&p.repo.join("headers"), &dir.0.join("headers"));
        sys::copy_dir(&p.repo.join("runtime"), &dir.0.join("runtime"));
        std::fs::create_dir_all(dir.0.join("logs")).unwrap();
        Lab { p: p.clone(), dir, engine: None, ids: 0, compiles: 0, runs: 0, run_t: RUN_T, compile_t: COMPILE_T, world_t: Duration::from_secs(20) }
    }
    pub fn path(&self, n: &str) -> PathBuf {
        self.dir.0.join(n)
    }
    pub fn write(&self, n: &str, b: &[u8]) -> PathBuf {
        let p = self.path(n);
        if let Some(d) = p.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&p, b).expect("scratch write");
        p
    }
    /// compile `src` (already in the scratch tree) with the hash order chosen by `seed`
    pub fn compile_file(&mut self, src: &str, flags: Flags, seed: u64) -> Compiled {
        self.compiles += 1;
        let out = self.path("o.wasm");
        let _ = std::fs::remove_file(&out);
        let (o, e) = (self.path("cc.out"), self.path("cc.err"));
        let mut c = Command::new(&self.p.cc);
        c.arg(src).arg("-o").arg("o.wasm").args(flags.args());
        c.current_dir(&self.dir.0);
        c.env_clear()
            .env("PATH", "/usr/local/bin:/usr/bin:/bin")
            .env("HOME", &self.dir.0)
            .env("LD_PRELOAD", &self.p.shim)
            .env("SIM_MODE", "local")
            .env("SIM_SEED", format!("{:x}", seed));
        let status = sys::run(&mut c, &o, &e, self.compile_t);
        Compiled { status, wasm: std::fs::read(&out).ok(), err: sys::read_tail(&e, 1500), out: sys::read_tail(&o, 500) }
    }
    /// a fault-free compilation in another directory, with the module put where nothing else is
    pub fn compile_at(&mut self, cwd: &Path, args: &[String], seed: u64) -> Compiled {
        self.compiles += 1;
        let out = self.path("ref.wasm");
        let _ = std::fs::remove_file(&out);
        let (o, e) = (self.path("cc.out"), self.path("cc.err"));
        let mut c = Command::new(&self.p.cc);
        c.args(args).current_dir(cwd);
        c.env_clear()
            .env("PATH", "/usr/local/bin:/usr/bin:/bin")
            .env("HOME", &self.dir.0)
            .env("LD_PRELOAD", &self.p.shim)
            .env("SIM_MODE", "local")
            .env("SIM_SEED", format!("{:x}", seed));
        let status = sys::run(&mut c, &o, &e, self.compile_t);
        Compiled { status, wasm: std::fs::read(&out).ok(), err: sys::read_tail(&e, 1500), out: sys::read_tail(&o, 500) }
    }
    pub fn compile(&mut self, text: &str, flags: Flags, seed: u64) -> Compiled {
        self.write("p.c", text.as_bytes());
        self.compile_file("p.c", flags, seed)
    }
    fn engine(&mut self, stack_kb: Option<u32>) -> &mut Engine {
        if self.engine.as_ref().map_or(false, |e| e.used > 1500 || e.stack_kb != stack_kb) {
            self.engine = None;
        }
        if self.engine.is_none() {
            let mut c = Command::new("node");
            c.arg("--no-warnings").arg("--experimental-vm-modules");
            if let Some(k) = stack_kb {
                c.arg(format!("--stack-size={}", k));
            }
            c.arg(self.p.verif.join("exec/exec.mjs"));
            c.current_dir(&self.dir.0).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
            let mut ch = sys::tame(&mut c).spawn().expect("node");
            let inp = ch.stdin.take().unwrap();
            let out = BufReader::new(ch.stdout.take().unwrap());
            self.engine = Some(Engine { ch, inp, out, used: 0, stack_kb });
        }
        self.engine.as_mut().unwrap()
    }
    /// run a module in the simulated runtime
    pub fn run(&mut self, wasm: &[u8], spec: &RunSpec) -> Ran {
        std::fs::write(self.path("m.wasm"), wasm).expect("scratch write");
        self.run_file("m.wasm", spec)
    }
    pub fn run_file(&mut self, file: &str, spec: &RunSpec) -> Ran {
        self.runs += 1;
        self.ids += 1;
        let id = self.ids;
        let run_t = self.run_t;
        let root = spec.root.clone().unwrap_or(self.dir.0.clone());
        let mut argv = vec![s(file)];
        argv.extend(spec.args.iter().map(|a| s(a)));
        let job = obj(vec![
            ("id", i(id)),
            ("root", s(root.to_str().unwrap())),
            ("cwd", s(self.dir.0.to_str().unwrap())),
            ("argv", J::A(argv)),
            (
                "clock",
                obj(vec![
                    ("start", i(1_700_000_000_000 + spec.clock_start)),
                    ("step", i(spec.clock_step)),
                    ("jumps", J::A(spec.jumps.iter().map(|(n, d)| J::A(vec![i(*n), i(*d)])).collect())),
                ]),
            ),
            ("faults", J::A(spec.faults.iter().map(|f| f.json()).collect())),
            ("mem", J::B(true)),
            ("trace", J::B(spec.trace)),
        ]);
        let mut line = job.dump();
        line.push('\n');
        for attempt in 0..2 {
            let e = self.engine(spec.stack_kb);
            e.used += 1;
            let fresh = e.used == 1;
            if e.inp.write_all(line.as_bytes()).and_then(|_| e.inp.flush()).is_err() {
                self.engine = None;
                if fresh && attempt > 0 {
                    panic!("the execution engine does not start");
                }
                continue;
            }
            use std::os::fd::AsRawFd;
            let fd = e.out.get_ref().as_raw_fd();
            if e.out.buffer().is_empty() && !sys::wait_fd(fd, run_t) {
                self.engine = None;
                return Ran { timeout: true, code: -1, ..Default::default() };
            }
            let mut l = String::new();
            match e.out.read_line(&mut l) {
                Ok(n) if n > 0 && l.ends_with('\n') => {}
                _ => {
                    // the engine died: a fault of the program only if it happens to a fresh engine too
                    self.engine = None;
                    if attempt == 0 {
                        continue;
                    }
                    return Ran { died: true, code: -1, ..Default::default() };
                }
            }
            let j = json::parse(&l).expect("engine reply");
            assert_eq!(j.get("id").u64(), id, "engine reply order");
            return Ran {
                code: j.get("code").int() as i32,
                out: json::unhex(j.get("out").str()),
                err: j.get("err").str().to_string(),
                timeout: j.get("overflow").bool(),
                died: false,
                sp: j.get("sp").u64(),
                mem_len: j.get("memLen").u64(),
                fired: j
                    .get("fired")
                    .arr()
                    .iter()
                    .map(|f| (f.arr()[0].str().to_string(), f.arr()[1].u64(), f.arr()[2].str().to_string(), f.arr()[3].int()))
                    .collect(),
                ops: if let J::O(o) = j.get("ops") { o.iter().map(|(k, v)| (k.clone(), v.u64())).collect() } else { vec![] },
                sim_ms: j.get("simMs").int(),
                uncaught: j.get("uncaught").str().to_string(),
                valid: match j.get("valid") {
                    J::B(b) => Some(*b),
                    _ => None,
                },
                trace: if spec.trace {
                    let t = j.get("trace");
                    Some(Trace {
                        on: t.get("on").bool(),
                        sp0: t.get("sp0").u64(),
                        stores: t.get("stores").arr().iter().map(|x| x.u64()).collect(),
                        prints: t.get("prints").arr().iter().map(|x| (x.arr()[0].u64(), x.arr()[1].u64(), x.arr()[2].u64())).collect(),
                    })
                } else {
                    None
                },
            };
        }
        Ran { died: true, code: -1, ..Default::default() }
    }
    /// the same run with nothing simulated: used to confirm a fault-free alarm before it is raised
    pub fn run_real(&mut self, wasm: &[u8], args: &[String]) -> Ran {
        std::fs::write(self.path("m.wasm"), wasm).expect("scratch write");
        let (o, e) = (self.path("rt.out"), self.path("rt.err"));
        let mut c = Command::new("node");
        c.arg("runtime/run.mjs").arg("m.wasm").args(args).current_dir(&self.dir.0);
        let st = sys::run(&mut c, &o, &e, RUN_T * 2);
        let out = std::fs::read(&o).unwrap_or_default();
        let err = sys::read_tail(&e, 2000);
        match st {
            Status::Exit(c) => Ran { code: c, out, err, ..Default::default() },
            Status::Signal(_) => Ran { code: -1, out, err, died: true, ..Default::default() },
            Status::Timeout => Ran { code: -1, out, err, timeout: true, ..Default::default() },
        }
    }
}
pub fn show(b: &[u8]) -> String {
    let t: String = b.iter().flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect();
    if t.len() > 1500 {
        format!("{}…{} ({} bytes)", &t[..700], &t[t.len() - 700..], b.len())
    } else {
        t
    }
}
pub fn exists(p: &Path) -> bool {
    std::fs::symlink_metadata(p).is_ok()
}
