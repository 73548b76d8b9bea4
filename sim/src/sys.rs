//! Processes and scratch directories.
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[repr(C)]
pub struct PollFd {
    pub fd: i32,
    pub events: i16,
    pub revents: i16,
}
extern "C" {
    pub fn poll(f: *mut PollFd, n: u64, t: i32) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    pub fn syscall(n: i64, ...) -> i64;
    fn close(fd: i32) -> i32;
    fn getppid() -> i32;
}
pub fn pidfd(pid: i32) -> i32 {
    unsafe { syscall(434, pid as i64, 0i64) as i32 }
}
pub fn close_fd(fd: i32) {
    unsafe {
        close(fd);
    }
}
/// waits until fd is readable (or a process of which it is the pidfd has ended)
pub fn wait_fd(fd: i32, t: Duration) -> bool {
    let end = Instant::now() + t;
    loop {
        let left = end.saturating_duration_since(Instant::now());
        let mut p = PollFd { fd, events: 1, revents: 0 };
        let r = unsafe { poll(&mut p, 1, left.as_millis().min(1 << 30) as i32) };
        if r > 0 {
            return true;
        }
        if r == 0 || left.is_zero() {
            return false;
        }
    }
}

/// ends with its parent, in a group of its own, without core files
pub fn tame(c: &mut Command) -> &mut Command {
    let me = std::process::id() as i32;
    unsafe {
        c.process_group(0).pre_exec(move || {
            prctl(1, 9, 0, 0, 0);
            if getppid() != me {
                return Err(std::io::Error::from_raw_os_error(3));
            }
            setrlimit(4, &[0, 0]);
            Ok(())
        })
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Status {
    Exit(i32),
    Signal(i32),
    Timeout,
}
impl Status {
    pub fn text(&self) -> String {
        match self {
            Status::Exit(c) => format!("exit {}", c),
            Status::Signal(s) => format!("signal {}", s),
            Status::Timeout => "timeout".into(),
        }
    }
}

/// runs a command to its end; stdout and stderr go to files, so no reader can be what blocks it
pub fn run(c: &mut Command, out: &Path, err: &Path, t: Duration) -> Status {
    let o = std::fs::File::create(out).expect("scratch file");
    let e = std::fs::File::create(err).expect("scratch file");
    c.stdin(Stdio::null()).stdout(o).stderr(e);
    let mut ch = match tame(c).spawn() {
        Ok(c) => c,
        Err(e) => panic!("cannot start {:?}: {}", c, e),
    };
    let pid = ch.id() as i32;
    let fd = pidfd(pid);
    let ok = wait_fd(fd, t);
    close_fd(fd);
    unsafe {
        // whatever of its group is left
        kill(-pid, 9);
    }
    let st = ch.wait().expect("wait");
    if !ok {
        return Status::Timeout;
    }
    match (st.code(), st.signal()) {
        (Some(c), _) => Status::Exit(c),
        (_, s) => Status::Signal(s.unwrap_or(0)),
    }
}

pub fn read_tail(p: &Path, n: usize) -> String {
    let mut b = vec![];
    if let Ok(mut f) = std::fs::File::open(p) {
        let _ = f.read_to_end(&mut b);
    }
    let k = b.len().saturating_sub(n);
    String::from_utf8_lossy(&b[k..]).into_owned()
}

/// a scratch directory that disappears with its owner
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let base = ["/dev/shm", "/tmp"]
            .iter()
            .map(PathBuf::from)
            .find(|p| {
                let t = p.join(format!(".vsim-probe-{}-{}", std::process::id(), n));
                let ok = std::fs::write(&t, vec![0u8; 4096]).is_ok();
                let _ = std::fs::remove_file(&t);
                ok
            })
            .unwrap_or_else(std::env::temp_dir);
        let p = base.join(format!("vsim-{}-{}-{}", tag, std::process::id(), n));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn copy_dir(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).expect("mkdir");
    for e in std::fs::read_dir(from).unwrap_or_else(|x| panic!("{:?}: {}", from, x)) {
        let e = e.unwrap();
        let (f, t) = (e.path(), to.join(e.file_name()));
        if f.is_dir() {
            copy_dir(&f, &t);
        } else {
            std::fs::copy(&f, &t).expect("copy");
        }
    }
}
