//! Runs scripts of calls inside the simulator and reports every result on descriptor 3.
//!
//! usage: PROGRAM SCRIPT
//!   mode seq                 threads one after the other
//!   mode par                 threads at the same time
//!   mode rounds N main|fresh|par   the whole script N times; live memory after each round
//!   windows                  mark every call and compare the process-wide settings around it
//!   watch                    note which static data changes during calls
//!   thread                   begins the list of a thread
//!   op KIND ARG...           one call; arguments are percent-encoded
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, OnceLock};

extern "C" {
    fn sim_mark(what: *const u8, n: i64);
    fn sim_live() -> u64;
    fn sim_yield();
    fn sim_watch(on: i32);
    fn sim_call(on: i32);
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn umask(m: u32) -> u32;
    fn getcwd(p: *mut u8, n: usize) -> *mut u8;
    fn setlocale(c: i32, p: *const u8) -> *const i8;
    fn sigaction(s: i32, n: *const u8, o: *mut u8) -> i32;
    static environ: *const *const i8;
}

#[derive(Clone)]
pub struct Op {
    pub kind: String,
    pub a: Vec<String>,
}

fn unpct(s: &str) -> String {
    if s == "%%" {
        return String::new();
    }
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 1 && i + 3 <= b.len() {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}
fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &c in b {
        h = (h ^ c as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}
fn pct(b: &[u8]) -> String {
    let mut o = String::new();
    for &c in b {
        if c <= b' ' || c == b'%' || c >= 0x7f {
            o.push_str(&format!("%{:02x}", c));
        } else {
            o.push(c as char);
        }
    }
    if o.is_empty() {
        o.push_str("%%");
    }
    o
}

/// what a call of this program does
static CALL: OnceLock<fn(&Op) -> String> = OnceLock::new();

static HOOKED: AtomicU64 = AtomicU64::new(0);
static WATCH: AtomicU64 = AtomicU64::new(0);

/// what the standard library does to its own static data
fn noise() -> String {
    let _ = catch_unwind(|| panic!("noise"));
    let mut m = std::collections::HashMap::new();
    m.insert(1, format!("{} {:e} {:?}", 1.5f64, 2.5f32, "x"));
    let mut s = std::collections::HashSet::new();
    s.insert(m.len());
    let t = std::thread::current();
    let _ = (t.id(), t.name().map(|n| n.len()), std::env::var_os("NOISE"));
    m.remove(&1).unwrap_or_default()
}

fn dispatch(op: &Op) -> String {
    let a = &op.a;
    match op.kind.as_str() {
        // the same call many times; all results have to be equal
        "noise" => noise(),
        "rep" => {
            let inner = Op { kind: a[1].clone(), a: a[2..].to_vec() };
            let mut first = String::new();
            for k in 0..a[0].parse::<u64>().expect("script: integer") {
                let r = run_op(&inner);
                if k == 0 {
                    first = r;
                } else if r != first {
                    return format!("VARIED at call {}: {}", k, r);
                }
            }
            if let Some(m) = first.strip_prefix("PANIC ") {
                std::panic::resume_unwind(Box::new(m.to_string()));
            }
            first
        }
        _ => CALL.get().unwrap()(op),
    }
}

fn run_op(op: &Op) -> String {
    let w = WATCH.load(Ordering::Relaxed) != 0;
    if w {
        unsafe { sim_watch(1) };
    }
    unsafe { sim_call(1) };
    let r = catch_unwind(AssertUnwindSafe(|| dispatch(op)));
    unsafe { sim_call(0) };
    if w {
        unsafe { sim_watch(0) };
    }
    match r {
        Ok(s) => s,
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            format!("PANIC {}", m)
        }
    }
}

fn send(s: &str) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let n = unsafe { write(3, b[i..].as_ptr(), b.len() - i) };
        if n <= 0 {
            std::process::exit(90);
        }
        i += n as usize;
    }
}

fn report(t: usize, i: usize, r: &str) {
    let b = r.as_bytes();
    send(&format!("r {} {} {} {:016x} {}\n", t, i, b.len(), fnv(b), pct(&b[..b.len().min(160)])));
}

/// everything that belongs to the whole process and can be changed from library code
fn settings() -> String {
    let mut h: Vec<u8> = vec![];
    unsafe {
        let mut p = environ;
        while !(*p).is_null() {
            h.extend_from_slice(std::ffi::CStr::from_ptr(*p as *const _).to_bytes());
            h.push(0);
            p = p.add(1);
        }
        let e = fnv(&h);
        let mut cwd = [0u8; 4096];
        getcwd(cwd.as_mut_ptr(), 4096);
        let m = umask(0o22);
        umask(m);
        let loc = setlocale(6, std::ptr::null());
        let l = if loc.is_null() { 0 } else { fnv(std::ffi::CStr::from_ptr(loc as *const _).to_bytes()) };
        let mut sg = 0u64;
        for s in 1..32 {
            let mut o = [0u8; 256];
            if sigaction(s, std::ptr::null(), o.as_mut_ptr()) == 0 {
                sg = sg.wrapping_mul(31).wrapping_add(fnv(&o[..8]));
            }
        }
        let mut mx: u32 = 0;
        let mut cw: u16 = 0;
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut mx);
        std::arch::asm!("fnstcw [{}]", in(reg) &mut cw);
        format!("env {:016x} cwd {:016x} umask {:o} locale {:016x} signals {:016x} fp {:x} {:x}", e, fnv(&cwd), m, l, sg, mx & 0xffc0, cw)
    }
}

fn mark(s: &str, n: usize) {
    let mut z = s.as_bytes().to_vec();
    z.push(0);
    unsafe { sim_mark(z.as_ptr(), n as i64) };
}

/// calls one by one, each between marks and with a look at the settings of the process
fn windowed(threads: &Arc<Vec<Vec<Op>>>, t: usize, lo: usize, hi: usize) {
    for i in lo..hi {
        let op = &threads[t][i];
        let s0 = settings();
        let h0 = HOOKED.load(Ordering::SeqCst);
        mark("begin", i);
        let r = run_op(op);
        mark("end", i);
        let s1 = settings();
        let h1 = HOOKED.load(Ordering::SeqCst);
        report(t, i, &r);
        if s0 != s1 {
            send(&format!("settings {} {} was {} now {}\n", t, i, s0, s1));
        }
        // our panic hook must still be there
        let k = HOOKED.load(Ordering::SeqCst);
        let _ = catch_unwind(|| panic!("probe"));
        if HOOKED.load(Ordering::SeqCst) != k + 1 || (!r.starts_with("PANIC") && h0 != h1) {
            send(&format!("hook {} {}\n", t, i));
        }
    }
}

struct AtEnd(Option<Box<dyn FnOnce()>>);
impl Drop for AtEnd {
    fn drop(&mut self) {
        if let Some(f) = self.0.take() {
            f();
        }
    }
}
thread_local! {
    static AT_EXIT: std::cell::RefCell<AtEnd> = const { std::cell::RefCell::new(AtEnd(None)) };
}
#[inline(never)]
fn deep(kb: usize, f: &mut dyn FnMut()) {
    let pad = std::hint::black_box([1u8; 1024]);
    if kb == 0 {
        f();
    } else {
        deep(kb - 1, f);
    }
    std::hint::black_box(&pad);
}

/// the calls from some place in a program where library code is not often called from
fn within(kind: &str, a: &[String], n: usize, f: Box<dyn Fn(usize, usize) + Send>) {
    let num = |i: usize| a.get(i).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
    let join = |h: std::io::Result<std::thread::JoinHandle<()>>| match h {
        Ok(h) => drop(h.join()),
        Err(_) => std::process::exit(92),
    };
    match kind {
        // a thread with a name (or none) and a stack of its own
        "thread" => {
            let mut b = std::thread::Builder::new().stack_size(num(1).max(2048) << 10);
            if a[0] != "-" {
                b = b.name(a[0].clone());
            }
            join(b.spawn(move || f(0, n)))
        }
        // while another panic unwinds the stack
        "unwind" => {
            let k = num(0).min(n);
            f(0, k);
            let _ = catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _d = AtEnd(Some(Box::new(move || f(k, n))));
                panic!("unwinding");
            }));
        }
        // when the thread's local data are being destroyed
        "exit" => {
            let k = num(0).min(n);
            join(std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                AT_EXIT.with(|d| d.borrow_mut().0 = None);
                f(0, k);
                AT_EXIT.with(|d| d.borrow_mut().0 = Some(Box::new(move || f(k, n))));
            }))
        }
        // far down the stack
        "deep" => deep(num(0).min(4000), &mut || f(0, n)),
        _ => std::process::exit(93),
    }
}

pub fn drive(call: fn(&Op) -> String) {
    let _ = CALL.set(call);
    let path = std::env::args().nth(1).unwrap_or_default();
    let text = match std::fs::read_to_string(&path) {
        Ok(t) => t,
        Err(_) => std::process::exit(91),
    };
    let mut mode: Vec<String> = vec!["seq".into()];
    let mut windows = false;
    let mut ctx: Option<(String, Vec<String>)> = None;
    let mut threads: Vec<Vec<Op>> = vec![];
    for l in text.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "mode" => mode = w[1..].iter().map(|s| s.to_string()).collect(),
            "windows" => windows = true,
            "ctx" => ctx = Some((w[1].to_string(), w[2..].iter().map(|s| unpct(s)).collect())),
            "watch" => WATCH.store(1, Ordering::Relaxed),
            "thread" => threads.push(vec![]),
            "op" => {
                let o = Op { kind: w[1].into(), a: w[2..].iter().map(|s| unpct(s)).collect() };
                if threads.is_empty() {
                    threads.push(vec![]);
                }
                threads.last_mut().unwrap().push(o);
            }
            _ => {}
        }
    }
    drop(text);
    std::panic::set_hook(Box::new(|_| {
        HOOKED.fetch_add(1, Ordering::SeqCst);
    }));
    let threads = Arc::new(threads);
    match mode[0].as_str() {
        "par" | "seq" => {
            let par = mode[0] == "par";
            let mut hs = vec![];
            for t in 0..threads.len() {
                let th = threads.clone();
                let th2 = threads.clone();
                let body = move || {
                    for (i, op) in th[t].iter().enumerate() {
                        unsafe { sim_yield() };
                        let r = run_op(op);
                        report(t, i, &r);
                    }
                };
                let special: Option<(String, Vec<String>, Box<dyn Fn(usize, usize) + Send>)> = ctx.clone().map(|(k, a)| {
                    let f: Box<dyn Fn(usize, usize) + Send> = if windows {
                        Box::new(move |lo, hi| windowed(&th2, t, lo, hi))
                    } else {
                        Box::new(move |lo, hi| {
                            for i in lo..hi {
                                unsafe { sim_yield() };
                                let r = run_op(&th2[t][i]);
                                report(t, i, &r);
                            }
                        })
                    };
                    (k, a, f)
                });
                if let (Some((k, a, f)), false) = (special, par) {
                    within(&k, &a, threads[t].len(), f);
                } else if threads.len() == 1 && mode.len() == 1 && !windows {
                    body();
                } else if windows {
                    windowed(&threads, t, 0, threads[t].len());
                } else {
                    let h = match std::thread::Builder::new().stack_size(8 << 20).spawn(body) {
                        Ok(h) => h,
                        Err(_) => std::process::exit(92),
                    };
                    if par {
                        hs.push(h);
                    } else {
                        let _ = h.join();
                    }
                }
            }
            for h in hs {
                let _ = h.join();
            }
            send("done\n");
        }
        "rounds" => {
            let n: usize = mode[1].parse().unwrap();
            let how = mode[2].clone();
            for k in 0..n {
                match how.as_str() {
                    "main" => {
                        for l in threads.iter() {
                            for op in l {
                                drop(run_op(op));
                            }
                        }
                    }
                    "fresh" => {
                        for t in 0..threads.len() {
                            let th = threads.clone();
                            let h = std::thread::spawn(move || {
                                for op in &th[t] {
                                    drop(run_op(op));
                                }
                            });
                            let _ = h.join();
                        }
                    }
                    _ => {
                        let mut hs = Vec::with_capacity(8);
                        for t in 0..threads.len() {
                            let th = threads.clone();
                            hs.push(std::thread::spawn(move || {
                                for op in &th[t] {
                                    drop(run_op(op));
                                }
                            }));
                        }
                        for h in hs {
                            let _ = h.join();
                        }
                    }
                }
                let live = unsafe { sim_live() };
                send(&format!("live {} {}\n", k, live));
            }
            send("done\n");
        }
        _ => std::process::exit(93),
    }
}
