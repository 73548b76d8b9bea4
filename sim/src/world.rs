//! The multi-process simulator: compilers and their preprocessors run as real processes whose every
//! operation is parked at the shim until the seeded scheduler here lets it go, fails it, cuts it
//! short or kills the process. Exactly one process thread runs at a time.
use crate::json::{i, obj, s, J};
use crate::rng::Rng;
use crate::sys::{self, PollFd, Status};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const OPS: &[&str] = &[
    "?", "hello", "open", "read", "write", "poll", "pipe", "spawn", "wait", "rename", "unlink", "truncate", "sync", "sleep", "thread", "join", "bye", "close",
    "mkdir", "link",
];
pub const CLS: &[&str] = &["-", "src", "out", "pipe", "stdio"];
pub const ACTS: &[&str] = &["pass", "error", "short", "kill", "exit", "zero"];
pub fn op_id(n: &str) -> u32 {
    OPS.iter().position(|x| *x == n).unwrap_or(0) as u32
}
pub fn cls_id(n: &str) -> u32 {
    CLS.iter().position(|x| *x == n).unwrap_or(0) as u32
}

pub const EINTR: i32 = 4;
pub fn errno_name(e: i32) -> &'static str {
    match e {
        1 => "EPERM",
        2 => "ENOENT",
        3 => "ESRCH",
        4 => "EINTR",
        5 => "EIO",
        7 => "E2BIG",
        10 => "ECHILD",
        11 => "EAGAIN",
        12 => "ENOMEM",
        13 => "EACCES",
        17 => "EEXIST",
        20 => "ENOTDIR",
        21 => "EISDIR",
        23 => "ENFILE",
        24 => "EMFILE",
        27 => "EFBIG",
        28 => "ENOSPC",
        30 => "EROFS",
        32 => "EPIPE",
        36 => "ENAMETOOLONG",
        116 => "ESTALE",
        122 => "EDQUOT",
        _ => "E?",
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub role: String, // "cc0", "cc0/cpp"
    pub op: u32,
    pub cls: u32,
    pub nth: u64, // 1-based among that role's (op, class)
    pub every: bool,
    pub act: u32,
    pub err: i32,
    pub n: i64,
}
impl Fault {
    pub fn json(&self) -> J {
        obj(vec![
            ("role", s(&self.role)),
            ("op", s(OPS[self.op as usize])),
            ("class", s(CLS[self.cls as usize])),
            ("nth", i(self.nth)),
            ("every", J::B(self.every)),
            ("action", s(ACTS[self.act as usize])),
            ("errno", i(self.err)),
            ("n", i(self.n)),
        ])
    }
    pub fn from(j: &J) -> Fault {
        Fault {
            role: j.get("role").str().into(),
            op: op_id(j.get("op").str()),
            cls: cls_id(j.get("class").str()),
            nth: j.get("nth").u64(),
            every: j.get("every").bool(),
            act: ACTS.iter().position(|a| *a == j.get("action").str()).unwrap_or(0) as u32,
            err: j.get("errno").int() as i32,
            n: j.get("n").int(),
        }
    }
    pub fn kind(&self) -> String {
        let a = match self.act {
            1 => errno_name(self.err).to_string(),
            2 if self.err != 0 => "torn-then-killed".into(),
            a => ACTS[a as usize].to_string(),
        };
        format!("{}:{}:{}{}", OPS[self.op as usize], CLS[self.cls as usize], a, if self.every { ":repeated" } else { "" })
    }
    /// an interruption or a partial transfer: nothing a correct program may fail for
    pub fn benign(&self) -> bool {
        (self.act == 1 && self.err == EINTR) || (self.act == 2 && self.err == 0) || self.act == 0
    }
}

/// one process the scenario starts
#[derive(Clone, Debug, Default)]
pub struct Proc {
    pub args: Vec<String>,
    pub cwd: PathBuf,
    pub seed: u64,       // hash order
    pub alloc_fail: i64, // refuse this allocation (0: none)
    pub cpp: String,     // behaviour of its preprocessor, see simcpp.c
    pub log: String,     // RUST_LOG
}
#[derive(Clone, Debug)]
pub struct Sched {
    pub seed: u64,
    pub switch: u64,       // chance in percent to leave the default choice
    pub choices: Vec<u16>, // replayed first; 0 is the default choice
    pub random: bool,      // draw choices after those run out
}
impl Sched {
    pub fn quiet() -> Sched {
        Sched { seed: 0, switch: 0, choices: vec![], random: false }
    }
    pub fn seeded(seed: u64, switch: u64) -> Sched {
        Sched { seed, switch, choices: vec![], random: true }
    }
}
#[derive(Clone, Debug, Default)]
pub struct Step {
    pub role: String,
    pub op: u32,
    pub cls: u32,
    pub arg: i64,
    pub blocked: bool,
    pub fault: Option<usize>,
    pub path: String,
    pub ret: i64,
}
#[derive(Clone, Debug, Default)]
pub struct Done {
    pub status: Vec<Option<Status>>, // of the processes started by the scenario
    pub err: Vec<String>,
    pub trace: Vec<Step>,
    pub choices: Vec<u16>,
    pub fired: Vec<usize>, // indexes into the fault list, one entry per injection
    pub stuck: Option<String>, // deadlock, endless retry or a process that stopped making calls
    pub wall: bool,            // `stuck` was decided by the wall clock
    pub allocs: HashMap<String, u64>,
    pub kids: Vec<String>,
    pub started: u64,
}
impl Done {
    pub fn hash(&self) -> u64 {
        let mut h = 0u64;
        for t in &self.trace {
            h = crate::rng::mix(h ^ crate::rng::hash_str(&t.role) ^ ((t.op as u64) << 40) ^ ((t.cls as u64) << 48) ^ (t.blocked as u64) << 52 ^ t.fault.map_or(0, |f| f as u64 + 1) << 53)
                .wrapping_add(1);
        }
        h
    }
    /// the order in which the processes' operations interleaved, whatever the operations did
    pub fn counts(&self) -> HashMap<(String, u32, u32), u64> {
        let mut m = HashMap::new();
        for t in self.trace.iter().filter(|t| !t.blocked) {
            *m.entry((t.role.clone(), t.op, t.cls)).or_insert(0) += 1;
        }
        m
    }
    pub fn text(&self) -> Vec<String> {
        self.trace
            .iter()
            .map(|t| {
                format!(
                    "{} {}{}{} {}{}{}",
                    t.role,
                    OPS[t.op as usize],
                    if t.cls > 0 { format!(":{}", CLS[t.cls as usize]) } else { String::new() },
                    if t.blocked { " (would block)" } else { "" },
                    t.arg,
                    if t.path.is_empty() { String::new() } else { format!(" {}", t.path) },
                    t.fault.map_or(String::new(), |f| format!("  <- fault {}", f))
                )
            })
            .collect()
    }
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum St {
    Running,
    Parked,
    Dead,
}
struct Ent {
    role: String,
    sock: UnixStream,
    pid: i32,
    pidfd: i32,
    main: bool, // the process's first connection
    st: St,
    op: u32,
    cls: u32,
    arg: i64,
    path: String,
    blocked: bool,
    blocked_at: u64,
    last_op: u32,
    buf: Vec<u8>,
    bye: bool,
    tstep: usize,
}
impl Drop for Ent {
    fn drop(&mut self) {
        if self.pidfd >= 0 {
            sys::close_fd(self.pidfd);
        }
    }
}

const REQ: usize = 4 + 4 + 4 + 4 + 8 + 8 + 4 + 4 + 216;
const OP_HELLO: u32 = 1;
const OP_POLL: u32 = 5;
const OP_SPAWN: u32 = 7;
const OP_THREAD: u32 = 14;
const OP_JOIN: u32 = 15;
const OP_BYE: u32 = 16;
pub const BLOCKED: u32 = 0x100;

pub struct Setup<'a> {
    pub root: &'a Path,
    pub shim: &'a Path,
    pub cc: &'a Path,
    pub cache: &'a Path,
    pub bin: &'a Path, // holds the preprocessor
    pub procs: Vec<Proc>,
    pub faults: Vec<Fault>,
    pub sched: Sched,
    pub pipe_cap: i64,
    pub max_steps: usize,
    pub wall: Duration,
}

pub fn run(w: &Setup) -> Done {
    let sock_path = w.root.join(".sim.sock");
    let _ = std::fs::remove_file(&sock_path);
    let listener = UnixListener::bind(&sock_path).expect("simulator socket");
    let d = Run { w, listener, ents: vec![], pids: HashMap::new(), count: HashMap::new(), done: Done::default(), rng: Rng::new(w.sched.seed), clock: 0, kids: 0 }.go();
    let _ = std::fs::remove_file(&sock_path);
    d
}

struct Run<'a> {
    w: &'a Setup<'a>,
    listener: UnixListener,
    ents: Vec<Ent>,
    pids: HashMap<i32, (String, u32)>, // pid -> role, threads seen
    count: HashMap<(String, u32, u32), u64>,
    done: Done,
    rng: Rng,
    clock: u64, // steps that may have changed what others can do
    kids: u64,
}

impl<'a> Run<'a> {
    fn go(mut self) -> Done {
        let w = self.w;
        let mut kids: Vec<Child> = vec![];
        for (k, p) in w.procs.iter().enumerate() {
            let mut c = Command::new(w.cc);
            c.args(&p.args).current_dir(&p.cwd).env_clear();
            c.env("PATH", format!("{}:/usr/local/bin:/usr/bin:/bin", w.bin.display()))
                .env("HOME", w.root)
                .env("TMPDIR", w.root.join("tmp"))
                .env("LD_PRELOAD", w.shim)
                .env("SIM_MODE", "rpc")
                .env("SIM_ROLE", format!("cc{}", k))
                .env("SIM_ROOT", w.root)
                .env("SIM_CACHE", w.cache)
                .env("SIM_SOCK", w.root.join(".sim.sock"));
            if !p.log.is_empty() {
                c.env("RUST_LOG", &p.log);
            }
            let o = std::fs::File::create(w.root.join(format!(".out{}", k))).expect("scratch");
            let e = std::fs::File::create(w.root.join(format!(".err{}", k))).expect("scratch");
            c.stdin(Stdio::null()).stdout(o).stderr(e);
            let ch = sys::tame(&mut c).spawn().expect("start compiler");
            kids.push(ch);
            // one at a time, so that entity order is start order
            let n = self.ents.len();
            if !self.settle(n + 1) {
                self.done.stuck = Some(format!("process cc{} never reached its first operation", k));
                self.done.wall = true;
                break;
            }
        }
        let mut last: Option<usize> = None;
        while self.done.stuck.is_none() {
            // who may go
            let live: Vec<usize> = (0..self.ents.len()).filter(|k| self.ents[*k].st == St::Parked).collect();
            if live.is_empty() {
                break;
            }
            let can: Vec<usize> = live.iter().cloned().filter(|k| {
                let e = &self.ents[*k];
                !e.blocked || e.blocked_at < self.clock || (e.op == OP_POLL && e.arg >= 0) || (e.op == OP_JOIN && e.arg == 1)
            }).collect();
            if can.is_empty() {
                let roots_alive = live.iter().any(|k| !self.ents[*k].role.contains('/'));
                let who: Vec<String> = live.iter().map(|k| format!("{} waits in {}", self.ents[*k].role, OPS[self.ents[*k].op as usize])).collect();
                if roots_alive {
                    self.done.stuck = Some(format!("deadlock: {}", who.join(", ")));
                }
                break;
            }
            if self.done.trace.len() >= w.max_steps {
                self.done.stuck = Some(format!("no end after {} operations", self.done.trace.len()));
                break;
            }
            let k = self.choose(&can, last);
            last = Some(k);
            self.step(k);
            if !self.settle(0) {
                let who: Vec<String> = self.ents.iter().filter(|e| e.st == St::Running).map(|e| format!("{} after {}", e.role, OPS[e.last_op as usize])).collect();
                self.done.stuck = Some(format!("no further operation and no exit: {}", who.join(", ")));
                self.done.wall = true;
            }
        }
        for (k, mut ch) in kids.into_iter().enumerate() {
            let pid = ch.id() as i32;
            let over = if self.done.stuck.is_some() {
                matches!(ch.try_wait(), Ok(Some(_)))
            } else {
                let fd = sys::pidfd(pid);
                let ok = sys::wait_fd(fd, w.wall);
                sys::close_fd(fd);
                ok
            };
            unsafe {
                sys::kill(-pid, 9);
            }
            let st = ch.wait().expect("wait");
            use std::os::unix::process::ExitStatusExt;
            self.done.status.push(if !over {
                None
            } else {
                Some(match st.code() {
                    Some(c) => Status::Exit(c),
                    None => Status::Signal(st.signal().unwrap_or(0)),
                })
            });
            self.done.err.push(sys::read_tail(&w.root.join(format!(".err{}", k)), 1200));
            let _ = std::fs::remove_file(w.root.join(format!(".err{}", k)));
            let _ = std::fs::remove_file(w.root.join(format!(".out{}", k)));
        }
        self.done.started = self.ents.iter().filter(|e| e.main).count() as u64;
        self.done
    }

    fn choose(&mut self, can: &[usize], last: Option<usize>) -> usize {
        let default = match last {
            Some(l) if can.contains(&l) && !self.ents[l].blocked => l,
            _ => *can.iter().find(|k| !self.ents[**k].blocked).unwrap_or(&can[0]),
        };
        let at = self.done.choices.len();
        let c: u16 = if can.len() == 1 {
            return can[0];
        } else if at < self.w.sched.choices.len() {
            self.w.sched.choices[at]
        } else if self.w.sched.random && self.rng.pct(self.w.sched.switch) {
            1 + self.rng.idx(can.len() - 1) as u16
        } else {
            0
        };
        let others: Vec<usize> = can.iter().cloned().filter(|k| *k != default).collect();
        if c == 0 {
            self.done.choices.push(0);
            default
        } else {
            let k = (c as usize - 1) % others.len();
            self.done.choices.push(k as u16 + 1);
            others[k]
        }
    }

    /// let entity k go on with the operation it is parked at
    fn step(&mut self, k: usize) {
        let (role, op, cls, blocked) = (self.ents[k].role.clone(), self.ents[k].op, self.ents[k].cls, self.ents[k].blocked);
        let mut fault = None;
        let mut rep = (0u32, 0i32, 0i64);
        if !blocked {
            let n = self.count.entry((role.clone(), op, cls)).or_insert(0);
            *n += 1;
            let n = *n;
            for (j, f) in self.w.faults.iter().enumerate() {
                if f.role == role && f.op == op && f.cls == cls && (f.nth == n || (f.every && n >= f.nth)) {
                    fault = Some(j);
                    rep = (f.act, f.err, f.n);
                    self.done.fired.push(j);
                    break;
                }
            }
            if op == 6 && fault.is_none() {
                rep.2 = self.w.pipe_cap;
            }
            if op == OP_BYE {
                self.done.allocs.insert(role.clone(), self.ents[k].arg as u64);
                self.ents[k].bye = true;
                rep = (0, 0, 0);
            }
        }
        self.done.trace.push(Step { role, op, cls, arg: self.ents[k].arg, blocked, fault, path: self.ents[k].path.clone(), ret: 0 });
        if !blocked {
            self.clock += 1;
        }
        let e = &mut self.ents[k];
        e.tstep = self.done.trace.len() - 1;
        e.last_op = if rep.0 == 1 { 0 } else { op };
        e.st = St::Running;
        let was_blocked = blocked;
        e.blocked = false;
        e.blocked_at = if was_blocked { self.clock } else { 0 };
        let mut b = vec![];
        b.extend_from_slice(&rep.0.to_le_bytes());
        b.extend_from_slice(&rep.1.to_le_bytes());
        b.extend_from_slice(&rep.2.to_le_bytes());
        let _ = e.sock.write_all(&b);
    }

    /// wait until nobody runs and every expected process and thread has arrived
    fn settle(&mut self, want: usize) -> bool {
        let end = Instant::now() + self.w.wall;
        // below zero: a child was here before its parent told of it
        let mut expect: i64 = if want > 0 { want as i64 - self.ents.len() as i64 } else { 0 };
        loop {
            let running: Vec<usize> = (0..self.ents.len()).filter(|k| self.ents[*k].st == St::Running).collect();
            if running.is_empty() && expect <= 0 {
                return true;
            }
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return false;
            }
            let mut fds = vec![PollFd { fd: self.listener.as_raw_fd(), events: 1, revents: 0 }];
            for k in &running {
                fds.push(PollFd { fd: self.ents[*k].sock.as_raw_fd(), events: 1, revents: 0 });
            }
            let r = unsafe { sys::poll(fds.as_mut_ptr(), fds.len() as u64, left.as_millis().min(1000) as i32) };
            if r <= 0 {
                continue;
            }
            // requests first, in entity order, then arrivals: the order never matters to the outcome
            for (j, k) in running.iter().enumerate() {
                if fds[j + 1].revents != 0 {
                    expect += self.receive(*k) as i64;
                }
            }
            if fds[0].revents != 0 {
                if let Ok((sock, _)) = self.listener.accept() {
                    self.arrive(sock);
                    expect -= 1;
                }
            }
        }
    }

    /// a message or the end of entity k; returns how many new arrivals it announces
    fn receive(&mut self, k: usize) -> usize {
        let mut t = [0u8; REQ];
        let need = REQ - self.ents[k].buf.len();
        let n = self.ents[k].sock.read(&mut t[..need]).unwrap_or(0);
        if n == 0 {
            let e = &mut self.ents[k];
            e.st = St::Dead;
            self.clock += 1;
            if e.main && e.pidfd >= 0 {
                sys::wait_fd(e.pidfd, self.w.wall);
            }
            return 0;
        }
        self.ents[k].buf.extend_from_slice(&t[..n]);
        if self.ents[k].buf.len() < REQ {
            return 0;
        }
        let b = std::mem::take(&mut self.ents[k].buf);
        let u32_ = |o: usize| u32::from_le_bytes(b[o..o + 4].try_into().unwrap());
        let i64_ = |o: usize| i64::from_le_bytes(b[o..o + 8].try_into().unwrap());
        let op = u32_(0);
        let path: Vec<u8> = b[40..256].iter().cloned().take_while(|c| *c != 0).collect();
        let path = String::from_utf8_lossy(&path).replace(self.w.root.to_str().unwrap_or("?"), "");
        let prev_ret = i64_(24);
        let e = &mut self.ents[k];
        let blocked = op & BLOCKED != 0;
        e.op = op & 0xff;
        e.cls = u32_(4);
        // part of a blocking write went through before it blocked again
        if blocked && e.arg != i64_(16) {
            self.clock += 1;
        }
        e.arg = i64_(16);
        e.path = path;
        e.st = St::Parked;
        e.blocked = blocked;
        if blocked {
            // the attempt was made just now; a step of somebody else makes another worth while
            e.blocked_at = self.clock;
        } else {
            // whatever it waited for has happened: that is a change for the others
            if e.blocked_at > 0 {
                self.clock += 1;
                e.blocked_at = 0;
            }
            if e.tstep < self.done.trace.len() {
                self.done.trace[e.tstep].ret = prev_ret;
            }
        }
        let last = e.last_op;
        e.last_op = 0;
        if (last == OP_SPAWN || last == OP_THREAD) && prev_ret == 1 {
            return 1;
        }
        0
    }

    fn arrive(&mut self, mut sock: UnixStream) {
        let mut b = [0u8; REQ];
        let _ = sock.set_read_timeout(Some(self.w.wall));
        if sock.read_exact(&mut b).is_err() {
            return;
        }
        let _ = sock.set_read_timeout(None);
        let op = u32::from_le_bytes(b[0..4].try_into().unwrap());
        let pid = i32::from_le_bytes(b[8..12].try_into().unwrap());
        let path: Vec<u8> = b[40..256].iter().cloned().take_while(|c| *c != 0).collect();
        let path = String::from_utf8_lossy(&path).into_owned();
        if op != OP_HELLO {
            return;
        }
        let (base, prog) = path.split_once('|').unwrap_or(("?", "?"));
        let cc_name = self.w.cc.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
        // the kernel keeps 15 characters in some places, the shim sees the full name
        let is_cc = !prog.is_empty() && cc_name.starts_with(prog) || prog == cc_name;
        let main = !self.pids.contains_key(&pid);
        let role = if main {
            let mut r = if is_cc { base.to_string() } else { format!("{}/{}", base, prog) };
            if !is_cc || self.ents.iter().any(|e| e.main && e.role == r) {
                let n = self.ents.iter().filter(|e| e.main && (e.role == r || e.role.starts_with(&format!("{}~", r)))).count();
                if n > 0 {
                    r = format!("{}~{}", r, n + 1);
                }
            }
            self.pids.insert(pid, (r.clone(), 0));
            r
        } else {
            let p = self.pids.get_mut(&pid).unwrap();
            p.1 += 1;
            format!("{}#{}", p.0, p.1)
        };
        let root: usize = base.trim_start_matches("cc").parse().unwrap_or(0);
        let proc_ = self.w.procs.get(root).cloned().unwrap_or_default();
        let mut rep = vec![];
        rep.extend_from_slice(&(if is_cc { proc_.seed } else { 77 }).to_le_bytes());
        rep.extend_from_slice(&(if is_cc && main { proc_.alloc_fail } else { 0 }).to_le_bytes());
        rep.extend_from_slice(&1_700_000_000_000_000_000i64.to_le_bytes());
        let mut conf = [0u8; 232];
        if !is_cc {
            let c = proc_.cpp.as_bytes();
            conf[..c.len().min(231)].copy_from_slice(&c[..c.len().min(231)]);
        }
        rep.extend_from_slice(&conf);
        let _ = sock.write_all(&rep);
        let pidfd = if main { sys::pidfd(pid) } else { -1 };
        if main && !is_cc {
            self.kids += 1;
            self.done.kids.push(role.clone());
        }
        self.ents.push(Ent {
            role,
            sock,
            pid,
            pidfd,
            main,
            st: St::Running,
            op: 0,
            cls: 0,
            arg: 0,
            path: String::new(),
            blocked: false,
            blocked_at: 0,
            last_op: 0,
            buf: vec![],
            bye: false,
            tstep: usize::MAX,
        });
    }
}
