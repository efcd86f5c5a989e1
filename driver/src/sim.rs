//! One simulated process run: plan, spawn, outcome.
use crate::util::*;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub const CLASSES: [&str; 17] = [
    "openw", "openr", "wfile", "wout", "werr", "read", "close", "sync", "rename", "unlink", "trunc", "mkdir", "link",
    "stat", "seek", "lock", "misc",
];

/// A plan is a list of lines; everything the simulator decides is in it.
#[derive(Clone, Default, PartialEq, Debug)]
pub struct Plan {
    pub lines: Vec<String>,
}
impl Plan {
    pub fn add(&mut self, s: impl Into<String>) -> &mut Self {
        self.lines.push(s.into());
        self
    }
    pub fn get(&self, key: &str) -> Option<&str> {
        self.lines.iter().rev().find_map(|l| l.strip_prefix(key).and_then(|r| r.strip_prefix(' ')))
    }
    pub fn get_u64(&self, key: &str) -> Option<u64> {
        self.get(key).and_then(|s| s.split(' ').next()).and_then(|s| s.parse().ok())
    }
    pub fn faults(&self) -> Vec<&str> {
        self.lines.iter().filter_map(|l| l.strip_prefix("fault ")).collect()
    }
    pub fn has_faults(&self) -> bool {
        self.lines.iter().any(|l| {
            ["fault ", "alloc_fail ", "alloc_kill ", "alloc_limit ", "disk ", "pipe_out ", "pipe_err ", "stall "]
                .iter()
                .any(|p| l.starts_with(p))
        })
    }
    pub fn text(&self) -> String {
        let mut s = self.lines.join("\n");
        s.push('\n');
        s
    }
}

#[derive(Clone)]
pub struct Spec<'a> {
    pub exe: &'a Path,
    pub shim: &'a Path,
    pub args: Vec<Vec<u8>>,
    pub argv0: Option<Vec<u8>>,
    pub env: Vec<(Vec<u8>, Vec<u8>)>,
    pub cwd: PathBuf,
    pub plan: Plan,
    pub root: PathBuf,
    /// 0: default layout; others vary the stack limit, and so the position of the code
    pub layout: u64,
    pub scratch: PathBuf,
    pub timeout: Duration,
    pub preload: bool,
    /// file descriptor 3 is given to the process as a result channel
    pub fd3: bool,
    pub want_pre: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Pre {
    pub step: u64,
    pub tid: u32,
    pub site: u32,
}

#[derive(Clone, Default)]
pub struct Outcome {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timed_out: bool,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub fd3: Vec<u8>,
    pub allocs: u64,
    pub live: u64,
    pub simtime: u64,
    pub clockreads: u64,
    pub randreads: u64,
    pub steps: u64,
    pub switches: u64,
    pub verdict: u64,
    pub allocfail: u64,
    pub ops: Vec<u64>,
    pub fired: Vec<u64>,
    pub cover: u64,
    pub nguard: u64,
    pub stalled: u64,
    pub getenvs: u64,
    pub blocks: u64,
    pub schedhash: u64,
    pub diskfull: u64,
    pub pipefull: u64,
    pub first_damage: u64,
    pub statics: u64,
    pub solo_blocks: u64,
    pub solo_mem: u64,
    /// statics and thread-locals used while alone
    pub addrs: Vec<u64>,
    pub evhash: u64,
    pub events: String,
    pub pre: Vec<Pre>,
    pub prelost: u64,
    pub started: bool,
    pub wall: Duration,
}
impl Outcome {
    pub fn ok(&self) -> bool {
        self.code == Some(0) && !self.timed_out
    }
    pub fn killed_by_plan(&self) -> bool {
        self.verdict == 2
    }
    pub fn status(&self) -> String {
        if self.timed_out {
            "timed out".into()
        } else if let Some(c) = self.code {
            format!("exit {}", c)
        } else {
            format!("signal {}", self.signal.unwrap_or(0))
        }
    }
    /// everything that must be equal when the same plan is run again
    pub fn fingerprint(&self) -> u64 {
        let mut b = Vec::new();
        b.extend_from_slice(self.status().as_bytes());
        b.extend_from_slice(&self.out);
        b.extend_from_slice(&self.err);
        b.extend_from_slice(&self.fd3);
        for v in [self.allocs, self.live, self.simtime, self.steps, self.switches, self.verdict, self.evhash, self.schedhash] {
            b.extend_from_slice(&v.to_le_bytes());
        }
        for v in self.ops.iter().chain(self.fired.iter()) {
            b.extend_from_slice(&v.to_le_bytes());
        }
        fnv(&b)
    }
}

extern "C" {
    fn personality(p: u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

static SEQ: AtomicU64 = AtomicU64::new(0);

pub fn scratch_base() -> PathBuf {
    static BASE: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    BASE.get_or_init(|| {
        let probe = format!("/dev/shm/.simw{}", std::process::id());
        let d = if std::fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) && std::fs::write(&probe, b"x").is_ok() {
            let _ = std::fs::remove_file(&probe);
            PathBuf::from("/dev/shm")
        } else {
            std::env::temp_dir()
        };
        // another process may have the same number (in another namespace)
        let mut k = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|t| t.subsec_nanos()).unwrap_or(0) as u64;
        loop {
            let p = d.join(format!("sim-{:08}-{:08}", std::process::id() % 100_000_000, k % 100_000_000));
            match std::fs::create_dir(&p) {
                Ok(()) => return p,
                Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => k += 7919,
                Err(e) => {
                    eprintln!("HARNESS-ERROR: no scratch directory: {}", e);
                    std::process::exit(3)
                }
            }
        }
    })
    .clone()
}
pub fn cleanup() {
    let b = scratch_base();
    if b.file_name().map(|n| n.to_string_lossy().starts_with("sim-")).unwrap_or(false) {
        let _ = std::fs::remove_dir_all(&b);
    }
}
/// a fresh scratch directory; names have a fixed length so that they do not influence runs
pub fn fresh_dir() -> PathBuf {
    let n = SEQ.fetch_add(1, Ordering::SeqCst);
    let p = scratch_base().join(format!("r{:08}", n));
    std::fs::create_dir_all(&p).expect("scratch");
    p
}

pub fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {}", msg);
    cleanup();
    std::process::exit(3)
}

pub struct Child {
    pub child: std::process::Child,
    pub dir: PathBuf,
    pub start: Instant,
    pub want_pre: bool,
    pub fd3: bool,
    pub root: PathBuf,
}

pub fn spawn(s: &Spec, turn: Option<(i32, i32)>) -> Child {
    let dir = s.scratch.clone();
    let mut plan = s.plan.clone();
    plan.add(format!("root {}", s.root.display()));
    if turn.is_some() {
        plan.add(format!("turn 198 199 {}", s.plan.get_u64("turn_alloc").unwrap_or(0)));
        plan.lines.retain(|l| !l.starts_with("turn_alloc"));
    }
    let pp = dir.join("plan");
    let tp = dir.join("trace");
    let _ = std::fs::remove_file(&tp);
    let fo = std::fs::File::create(dir.join("out")).expect("out");
    let fe = std::fs::File::create(dir.join("err")).expect("err");
    let f3 = std::fs::File::create(dir.join("fd3")).expect("fd3");
    // the upper half of the layouts places the program itself elsewhere, by way of the dynamic loader
    let loader = Path::new("/lib64/ld-linux-x86-64.so.2");
    let moved = s.layout % 10 >= 5 && loader.exists();
    let mut c = Command::new(if moved { loader } else { s.exe });
    if moved {
        if let Some(a) = &s.argv0 {
            c.arg("--argv0").arg(OsStr::from_bytes(a));
        }
        c.arg(s.exe);
    } else if let Some(a) = &s.argv0 {
        c.arg0(OsStr::from_bytes(a));
    }
    for a in &s.args {
        c.arg(OsStr::from_bytes(a));
    }
    c.env_clear();
    // std walks the stack under a lock, allocating, before it reports a failed allocation: with backtraces on and
    // memory exhausted it would wait for itself, whatever the program
    let oom = plan.get("alloc_fail").is_some();
    for (k, v) in &s.env {
        if oom && (k == b"RUST_BACKTRACE" || k == b"RUST_LIB_BACKTRACE") {
            continue;
        }
        c.env(OsString::from_vec(k.clone()), OsString::from_vec(v.clone()));
    }
    if s.preload {
        c.env("LD_PRELOAD", s.shim);
    }
    c.env("SIM_PLAN", &pp).env("SIM_TRACE", &tp);
    c.current_dir(&s.cwd);
    match plan.get("stdin").map(unpct) {
        Some(b) => {
            plan.lines.retain(|l| !l.starts_with("stdin "));
            let ip = dir.join("in");
            std::fs::write(&ip, b).expect("in");
            c.stdin(std::fs::File::open(&ip).expect("in"));
        }
        None => {
            c.stdin(Stdio::null());
        }
    }
    let pp = dir.join("plan");
    std::fs::write(&pp, plan.text()).expect("plan");
    c.stdout(fo).stderr(fe);
    let layout = s.layout;
    use std::os::fd::AsRawFd;
    let f3raw = if s.fd3 { f3.as_raw_fd() } else { -1 };
    unsafe {
        c.pre_exec(move || {
            personality(0x0040000);
            let z = [0u64, 0u64];
            setrlimit(4, &z);
            let st: u64 = match layout % 5 {
                0 => 8 << 20,
                1 => 64 << 20,
                2 => 1 << 30,
                3 => 16 << 20,
                _ => 200 << 20,
            };
            let l = [st, u64::MAX];
            setrlimit(3, &l);
            if f3raw >= 0 {
                if f3raw == 3 {
                    // clear close-on-exec
                    let d = dup2(3, 197);
                    dup2(d, 3);
                } else {
                    dup2(f3raw, 3);
                }
            }
            if let Some((w, r)) = turn {
                dup2(w, 198);
                dup2(r, 199);
            }
            Ok(())
        });
    }
    let start = Instant::now();
    let child = match c.spawn() {
        Ok(c) => c,
        Err(e) => harness_error(&format!("cannot start {}: {}", s.exe.display(), e)),
    };
    Child { child, dir, start, want_pre: s.want_pre, fd3: s.fd3, root: s.root.clone() }
}

fn u64at(b: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap())
}

const MAXFAULT: usize = 64;
const MAXPRE: usize = 65536;

pub fn finish(mut c: Child, timeout: Duration) -> Outcome {
    let mut o = Outcome::default();
    // wait with a real-time limit, only a guard against real hangs
    let mut nap = Duration::from_micros(200);
    loop {
        match c.child.try_wait() {
            Ok(Some(st)) => {
                o.code = st.code();
                o.signal = st.signal();
                break;
            }
            Ok(None) => {
                if c.start.elapsed() > timeout {
                    let _ = c.child.kill();
                    let _ = c.child.wait();
                    o.timed_out = true;
                    break;
                }
                std::thread::sleep(nap);
                if nap < Duration::from_millis(2) {
                    nap = nap * 5 / 4;
                }
            }
            Err(e) => harness_error(&format!("wait: {}", e)),
        }
    }
    o.wall = c.start.elapsed();
    o.out = std::fs::read(c.dir.join("out")).unwrap_or_default();
    // absolute names contain the scratch directory, which differs from run to run
    let here = c.dir.as_os_str().as_bytes();
    o.err = std::fs::read(c.dir.join("err")).unwrap_or_default();
    if let Some(p) = c.root.parent().filter(|p| p.starts_with(scratch_base())) {
        o.err = replace_all(&o.err, p.as_os_str().as_bytes(), b"<scratch>");
    }
    o.err = replace_all(&o.err, here, b"<scratch>");
    if c.fd3 {
        o.fd3 = std::fs::read(c.dir.join("fd3")).unwrap_or_default();
    }
    read_trace(&c.dir.join("trace"), &mut o, c.want_pre);
    o
}

fn read_trace(p: &Path, o: &mut Outcome, want_pre: bool) {
    use std::io::{Read, Seek, SeekFrom};
    let mut f = match std::fs::File::open(p) {
        Ok(f) => f,
        Err(_) => return,
    };
    let nhdr = 127 + 64; // u64 words before `pre`
    let mut h = vec![0u8; nhdr * 8];
    if f.read_exact(&mut h).is_err() {
        return;
    }
    let g = |i: usize| u64at(&h, i);
    if g(0) != 0x53494d31 {
        return;
    }
    o.started = true;
    o.allocs = g(1);
    o.live = g(3);
    o.simtime = g(5);
    o.clockreads = g(6);
    o.randreads = g(7);
    o.steps = g(8);
    o.switches = g(9);
    let npre = g(10);
    o.prelost = g(11);
    let evlen = g(12) as usize;
    o.evhash = g(14);
    o.verdict = g(15);
    o.allocfail = g(16);
    let b = 17;
    o.ops = (0..17).map(|i| g(b + i)).collect();
    let b = b + 17;
    o.fired = (0..MAXFAULT).map(|i| g(b + i)).collect();
    let b = b + MAXFAULT;
    o.cover = g(b);
    o.nguard = g(b + 1);
    o.stalled = g(b + 2);
    o.getenvs = g(b + 4);
    o.blocks = g(b + 5);
    o.schedhash = g(b + 7);
    o.diskfull = g(b + 8);
    o.pipefull = g(b + 9);
    o.first_damage = g(b + 10);
    o.statics = g(b + 12);
    o.solo_blocks = g(b + 13);
    o.solo_mem = g(b + 14);
    o.addrs = (127..127 + 64).map(g).filter(|x| *x != 0).collect();
    let pre_off = (b + 13 + 16) * 8;
    if want_pre && npre > 0 {
        let mut v = vec![0u8; npre as usize * 16];
        if f.seek(SeekFrom::Start(pre_off as u64)).is_ok() && f.read_exact(&mut v).is_ok() {
            for i in 0..npre as usize {
                let r = &v[i * 16..];
                o.pre.push(Pre {
                    step: u64::from_le_bytes(r[0..8].try_into().unwrap()),
                    tid: u32::from_le_bytes(r[8..12].try_into().unwrap()),
                    site: u32::from_le_bytes(r[12..16].try_into().unwrap()),
                });
            }
        }
    }
    let ev_off = pre_off + MAXPRE * 16;
    let mut e = vec![0u8; evlen];
    if f.seek(SeekFrom::Start(ev_off as u64)).is_ok() && f.read_exact(&mut e).is_ok() {
        o.events = String::from_utf8_lossy(&e).into_owned();
    }
}

pub fn run(s: &Spec) -> Outcome {
    let c = spawn(s, None);
    finish(c, s.timeout)
}
