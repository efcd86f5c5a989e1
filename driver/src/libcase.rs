//! C08, C09, C10, C13, C14: doctor_syn itself, called from scripts inside the simulator.
use crate::mgen::{ambient, Step, Viol};
use crate::sim::*;
use crate::util::*;
use crate::Ctx;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

/// what a call yields alone in a fresh process
#[derive(Clone, Default, PartialEq, Debug)]
pub struct Res {
    pub len: u64,
    pub hash: u64,
    pub prefix: String,
}
impl Res {
    pub fn panicked(&self) -> bool {
        self.prefix.starts_with("PANIC%20")
    }
    pub fn show(&self) -> String {
        let b = unpct(&self.prefix);
        format!("{} [{} bytes, {:016x}]", show(&b), self.len, self.hash)
    }
}
#[derive(Clone, Default)]
pub struct OpRef {
    pub res: Option<Res>,
    pub allocs: u64,
    pub blocks: u64,
    pub mem: u64,
    pub wall: Duration,
    pub status: String,
    pub addrs: Vec<u64>,
    /// waits for ever, although it is alone
    pub stuck: bool,
    /// environment variables and files it asks for
    pub asks_env: Vec<Vec<u8>>,
    pub asks_file: Vec<Vec<u8>>,
}

impl OpRef {
    /// what a call costs, in simulated terms so that the same seed gives the same pool everywhere
    pub fn cost(&self) -> Duration {
        Duration::from_micros(4000 + self.allocs / 2 + self.blocks / 20)
    }
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct LibCase {
    pub prop: String,
    pub mode: String,
    pub windows: bool,
    /// the place in the program where the calls are made, if it is a special one
    pub place: String,
    /// note which static data changes (references)
    pub watch: bool,
    pub threads: Vec<Vec<String>>,
    pub plan: Plan,
    pub env: Vec<(Vec<u8>, Vec<u8>)>,
    pub layout: u64,
    /// files that are there beforehand
    pub setup: Vec<crate::mgen::Init>,
}

pub struct Parsed {
    pub res: HashMap<(usize, usize), Res>,
    pub other: Vec<String>,
    pub live: Vec<u64>,
    pub done: bool,
}
pub fn parse_fd3(o: &Outcome) -> Parsed {
    let mut p = Parsed { res: HashMap::new(), other: vec![], live: vec![], done: false };
    for l in String::from_utf8_lossy(&o.fd3).lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "r" if w.len() == 6 => {
                p.res.insert(
                    (w[1].parse().unwrap_or(999), w[2].parse().unwrap_or(999)),
                    Res { len: w[3].parse().unwrap_or(0), hash: u64::from_str_radix(w[4], 16).unwrap_or(0), prefix: w[5].to_string() },
                );
            }
            "live" => p.live.push(w[2].parse().unwrap_or(0)),
            "done" => p.done = true,
            _ => p.other.push(l.to_string()),
        }
    }
    p
}

pub fn exec_lib(ctx: &Ctx, c: &LibCase, want_pre: bool) -> Outcome {
    exec_lib_t(ctx, c, want_pre, Duration::from_secs(100))
}
fn exec_lib_t(ctx: &Ctx, c: &LibCase, want_pre: bool, timeout: Duration) -> Outcome {
    let dir = fresh_dir();
    let root = dir.join("root");
    std::fs::create_dir_all(&root).expect("root");
    crate::mgen::setup_root(&root, &c.setup);
    let mut s = format!("mode {}\n", c.mode);
    if c.windows {
        s.push_str("windows\n");
    }
    if !c.place.is_empty() {
        s.push_str(&format!("ctx {}\n", c.place));
    }
    if c.watch {
        s.push_str("watch\n");
    }
    for t in &c.threads {
        s.push_str("thread\n");
        for o in t {
            s.push_str("op ");
            s.push_str(o);
            s.push('\n');
        }
    }
    std::fs::write(dir.join("simscript"), s).expect("script");
    let mut plan = c.plan.clone();
    plan.lines.insert(0, "stall_in_calls 1".into());
    let exe = ctx.art.join(if c.prop == "C11" { "gendrv/debug/gendrv" } else { "libdrv/debug/libdrv" });
    let sp = Spec {
        exe: &exe,
        shim: &ctx.shim,
        args: vec![b"../simscript".to_vec()],
        argv0: Some(b"libdrv".to_vec()),
        env: c.env.clone(),
        cwd: root.clone(),
        plan,
        root: root.clone(),
        layout: c.layout,
        scratch: dir.clone(),
        timeout,
        preload: false,
        fd3: true,
        want_pre,
    };
    let mut o = run(&sp);
    // files that appeared in the working directory
    let mut snap = crate::mgen::snapshot(&root);
    for i in &c.setup {
        if let crate::mgen::Init::File(n, _) = i {
            snap.remove(n);
            // directories made for it
            for (k, x) in n.iter().enumerate() {
                if *x == b'/' && k > 0 {
                    snap.remove(&n[..k]);
                }
            }
        }
    }
    if !snap.is_empty() {
        let names: Vec<String> = snap.keys().map(|k| show(k)).collect();
        o.events.push_str(&format!("LEFT {}\n", names.join(" ")));
    }
    let _ = std::fs::remove_dir_all(&dir);
    o
}

/// where time went and whether the process ended as it should
pub fn abnormal(o: &Outcome) -> Option<Viol> {
    let v = |c: &str, d: String| Some(Viol { class: c.into(), detail: d });
    if !o.started {
        harness_error(&format!("the simulator did not start: {} {}", o.status(), show(&o.err)));
    }
    if (90..=93).contains(&o.code.unwrap_or(0)) || o.code == Some(87) {
        harness_error(&format!("libdrv: {} {}", o.status(), show(&o.err)));
    }
    match o.verdict {
        3 => return v("deadlock", "every thread waits and nobody can continue".into()),
        4 => return v("no-progress", format!("no end after {} steps", o.steps)),
        5 => return v("blocked-by-stalled", "a thread waits for the suspended one".into()),
        _ => {}
    }
    if o.timed_out {
        return v("hang", "no end and no scheduling point within the time limit".into());
    }
    if o.code != Some(0) {
        return v("crash", format!("the process ended with {}: {}", o.status(), show(&o.err)));
    }
    None
}

pub struct LibRefs<'a> {
    pub ctx: &'a Ctx,
    pub prop: String,
    map: Mutex<HashMap<String, Arc<OnceLock<OpRef>>>>,
}
impl<'a> LibRefs<'a> {
    pub fn new(ctx: &'a Ctx, prop: &str) -> Self {
        LibRefs { ctx, prop: prop.into(), map: Default::default() }
    }
    pub fn get(&self, op: &str) -> OpRef {
        // a repeated call has to give what one call gives
        let op = match op.strip_prefix("rep ") {
            Some(r) => r.split_once(' ').map(|x| x.1).unwrap_or(""),
            None => op,
        };
        let c = self.map.lock().unwrap().entry(op.to_string()).or_default().clone();
        c.get_or_init(|| {
            let mut case = LibCase { prop: self.prop.clone(), mode: "seq".into(), threads: vec![vec![op.to_string()]], ..Default::default() };
            case.plan.add(format!("alloc_kill {}", 3_000_000));
            case.windows = self.prop == "C10";
            case.watch = true;
            let o = exec_lib_t(self.ctx, &case, false, Duration::from_secs(20));
            if !o.started || (90..=93).contains(&o.code.unwrap_or(0)) || o.code == Some(87) {
                harness_error(&format!("libdrv: {} {} {}", op, o.status(), show(&o.err)));
            }
            let p = parse_fd3(&o);
            let (asks_env, asks_file) = if case.windows { asked(&o.events) } else { Default::default() };
            OpRef { asks_env, asks_file, res: if o.ok() && p.done { p.res.get(&(0, 0)).cloned() } else { None }, allocs: o.allocs, blocks: o.solo_blocks, mem: o.solo_mem, wall: o.wall, status: o.status(), addrs: o.addrs.clone(), stuck: o.verdict == 3 }
        })
        .clone()
    }
}

/// what the marked calls asked their surroundings for
fn asked(events: &str) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    let (mut envs, mut files) = (vec![], vec![]);
    let mut inside = false;
    for l in events.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        if w.len() < 4 {
            continue;
        }
        if w[2] == "mark" {
            inside = w[3] == "begin";
            continue;
        }
        if !inside {
            continue;
        }
        let n = unpct(w[3]);
        match w[2] {
            "getenv" if !n.starts_with(b"RUST") && !n.starts_with(b"SIM_") && !crate::mgen::USUAL_ENV.iter().any(|u| u.as_bytes() == n) => envs.push(n),
            "openr" | "stat" | "statx" | "access" | "open" => {
                let rel = match n.strip_prefix(b"$R/") {
                    Some(r) => r.strip_prefix(b"./").unwrap_or(r).to_vec(),
                    None => n,
                };
                let system = [&b"/dev/"[..], b"/proc/self/", b"/lib", b"/usr/lib", b"$R"].iter().any(|p| rel.starts_with(p));
                if !system && !rel.is_empty() && rel != b"." {
                    files.push(rel);
                }
            }
            _ => {}
        }
    }
    for v in [&mut envs, &mut files] {
        v.sort();
        v.dedup();
        v.truncate(20);
    }
    (envs, files)
}
/// content for a file that a call asks for
fn planted(r: &mut Rng) -> Vec<u8> {
    r.pick(&[
        &b""[..],
        b"1\n",
        b"3",
        b"3.2\n",
        b"2.5 0.5 1\n0 1 2\n",
        b"3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651\n",
        b"digits = 3\nprecision = 3\nDIGITS=3\nscale: 2\n",
        b"{\"digits\": 3, \"precision\": 3, \"width\": 40}",
        b"max_width = 60\ntab_spaces = 2\nhard_tabs = true\n",
        b"[package]\nname = \"x\"\nversion = \"9.9.9\"\n",
        b"MemTotal: 100 kB\nprocessor : 0\n",
        b"\xff\xfe\0\0\x01garbage",
        b"true",
        b"x\n",
    ])
    .to_vec()
}

// ---------------------------------------------------------------------
// calls

fn e(s: &str) -> String {
    pct(s.as_bytes())
}
const DIGITS: [i64; 18] = [0, 1, 3, 5, 10, 15, 19, 20, 21, 30, 38, 40, 41, 60, 99, 100, 101, 120];
const BASES: [&str; 16] =
    ["0.1", "0.5", "0.7", "1", "1.5", "2", "3", "0.25", "10", "0.333333", "0.9", "0.01", "4", "0.6", "1.25", "7"];

fn near(r: &mut Rng, base: &str) -> String {
    let dotted = if base.contains('.') { base.to_string() } else { format!("{}.", base) };
    match r.below(9) {
        0 | 1 | 2 => base.to_string(),
        3 => format!("{}0", dotted),
        4 => format!("{}000000", dotted),
        5 => format!("{}{}1", dotted, "0".repeat(19)),
        6 => format!("{}{}1", dotted, "0".repeat(38)),
        7 => format!("{}{}2", dotted, "0".repeat(19)),
        _ => format!("{}1", dotted),
    }
}
/// pieces of source with every construct that the translators know
fn constructs() -> Vec<String> {
    let mut v: Vec<String> = [
        "enum E { A, B = 3, C(u32), D { x: f32 } }",
        "static S: f32 = 1.5; static mut M: u32 = 2;",
        "mod m { const A: f32 = 1.0; fn f(x: f32) -> f32 { x } }",
        "mod n;",
        "impl A { fn f(&self, x: f32) -> f32 { x + self.y } const K: u32 = 4; type T = u32; }",
        "impl<T: Copy + 'static> B for A<T> where T: Default { fn g(mut self) { } }",
        "trait T: Sized + Clone { const K: u32; type X: Copy; fn f(&self) -> u32; fn g(x: u32) -> u32 { x } }",
        "union U { a: u32, b: f32 }",
        "extern \"C\" { fn sin(x: f64) -> f64; static errno: i32; type Opaque; }",
        "extern { fn cos(x: f64, ...) -> f64; }",
        "extern crate alloc;",
        "macro_rules! m { ($x:expr) => { $x + 1 } }",
        "fn f(x: f32) -> f32 { m!(x); vec![1, 2]; x }",
        "#[inline] #[allow(dead_code)] pub(crate) fn f<T, const N: usize>(x: T, y: [f32; 4]) -> T where T: Copy { x }",
        "struct L<'a, T: 'a> { pub x: &'a T, y: &'a mut [u32], z: *const u8, w: *mut u8 }",
        "struct P(pub u32, f32); struct Q;",
        "type F = fn(f32, f32) -> f32; type G<T> = Option<Vec<T>>; type H = dyn Fn(u32) -> u32 + Send; type N = !;",
        "fn f() -> impl Fn(f32) -> f32 { |x| x + 1.0 }",
        "fn f(x: u32) -> u32 { let g = move |a: u32, b| -> u32 { a + b }; g(x, 2) }",
        "fn f(x: i32) -> i32 { match x { 1 | 2 => 3, 4..=6 if x > 4 => 5, -1 => 0, y @ 7 => y, _ => { 9 } } }",
        "fn f(p: (u32, f32)) -> u32 { let (a, b) = p; let [c, .., d] = [1, 2, 3]; let P { x, y: 3, .. } = q; let P(z, ..) = r; let &w = &a; let ref mut k = a; a }",
        "fn f(x: u32) { let a = [1, 2, 3]; let b = [0u8; 16]; let c = (1, 2.0, true); let d = a[1]; let e = c.0; let g = s.field; }",
        "fn f(mut x: u32) { x = 1; x += 1; x -= 1; x *= 2; x /= 2; x %= 3; x ^= 1; x &= 7; x |= 8; x <<= 1; x >>= 1; }",
        "fn f(x: u32, y: u32) -> u32 { x + y - x * y / x % y ^ x & y | x << 1 >> 2 }",
        "fn f(x: bool, y: bool) -> bool { x && y || !x == y != x }",
        "fn f(x: f32, y: f32) -> bool { x < y; x <= y; x > y; x >= y; x == y; x != y }",
        "fn f() -> u32 { loop { break; } 'a: loop { continue 'a; } return 3; }",
        "fn f(n: u32) -> u32 { let mut i = 0; while i < n { i += 1; } for k in 0..n { i += k; } for k in 0..=n { } i }",
        "fn f() { let r = 0..3; let s = ..3; let t = 3..; let u = ..; let v = 1..=2; }",
        "fn f(x: &u32, y: &mut u32) -> u32 { let a = &x; let b = &mut *y; *x }",
        "fn f() -> S { S { a: 1, b: 2.0, ..d } }",
        "fn f(p: *const u32) -> u32 { unsafe { *p } }",
        "async fn f() -> u32 { let a = async { 1 }; g().await; async move { 2 } }",
        "fn f() -> Result<u32, E> { let a = g()?; Ok(a) }",
        "fn f() { let b = b'a'; let c = 'c'; let s = \"text\"; let t = b\"bytes\"; let u = true; let v = 0xffu8; let w = 1_000; let x = 1e10f64; let y = r\"raw\"; }",
        "fn f(x: f32) -> f32 { if x < 0.0 { return -x; } if let Some(y) = z { y } else if x > 3.0 { 1.0 } else { 2.0 } }",
        "fn f(x: f32) { if x < 0.0 { g(x); } while let Some(y) = z { } }",
        "fn f(x: f32) -> f32 { x.round() + x.floor() + x.ceil() + x.trunc() + f32::round(x) }",
        "fn f(x: f32) -> f32 { x.mul_add(2.0, 3.0).sqrt().abs().powi(2).powf(1.5).max(1.0).min(2.0).copysign(x).exp2().log2().to_bits() as f32 }",
        "fn f(x: f64) -> f64 { f64::from_bits(x.to_bits() >> 1) * f64::NAN + f64::INFINITY - f64::MIN_POSITIVE + f32::NAN + f32::INFINITY + f32::MIN_POSITIVE }",
        "fn f(x: fty) -> fty { let a = x as uty; let b = a as ity; let c = b as fty; let d: uty = a; (x as u8 as fty) + c }",
        "fn f(x: fty) -> fty { sin(x) + cos(x) * tan(x) - exp2(x) / powf(x, 2.0) + log2(x) + ln(x) + other(x) }",
        "fn f(x: fty) -> fty { 1u32; 2u64; 3i32; 4i64; 5f32; 6f64; 7; 8.0; 9.0f32; 1e3; 0x10u32 }",
        "fn f(x: fty) -> fty { if x <= 1.0 { if x > 0.5 { x } else { 2.0 } } else { 3.0 } }",
        "fn f(x: fty) -> fty { if x <= 1.0 { let y = x; y } else { 3.0 } }",
        "fn f(x: fty) -> fty { if x >= 1.0 { x } else if x != 0.0 { 1.0 } else { 0.0 } }",
        "fn f((a, b): (u32, u32)) -> u32 { a }",
        "fn f(_: u32) -> u32 { 1 }",
        "fn f(&self) -> u32 { 1 }",
        "const A: fty = 1.0; const B: fty = A * 2.0; fn f(x: fty) -> fty { x * A + B } fn g(x: fty) -> fty { x * B }",
        "const T: [f32; 3] = [1.0, 2.0, 3.0]; fn f(x: usize) -> f32 { T[x] }",
        "pub use std::f32::consts::{PI, E as EULER}; use a::*; use ::b;",
        "fn f<F>(g: F) where F: Fn(f32) -> f32, for<'a> &'a F: Copy { g(1.0); <F as Fn>::call(1); Vec::<u32>::new(); x.collect::<Vec<_>>() }",
        "fn f() { ; ; 1; {} ; struct I { } fn inner() { } let x; let _ = 3; }",
        "#![allow(unused)] #![doc = \"x\"] /// doc\n fn f() { } //! no",
        "fn f(x: Box<dyn Fn(&str) -> String>, y: (), z: (u32,)) { () }",
        "fn f() { 'l: { break 'l; } box_it(|| { yield_it() }); try_it!{ a b c } }",
        "pub trait Alias = Copy + Send;",
        "fn f(x: fty) -> fty { -x + !y - *z }",
        "fn f() { g(); }",
        "fn f(x: fty) -> fty { x.powi(-2) + (x) + ((x)) + { x } + unsafe { x } }",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    // several of them in one file
    let n = v.len();
    for i in 0..6 {
        let k = i * 7 % n;
        v.push(format!("{}\n{}\n{}", v[k], v[(k + 11) % n], v[(k + 23) % n]));
    }
    v
}
fn sources() -> Vec<String> {
    let mut v: Vec<String> = [
        "fn sin(x: fty) -> fty { const A: fty = 0.5; let y = x * A; y.mul_add(x, 1.0) }",
        "fn sin(x: fty) -> fty { const A: fty = 0.25; let y = x * A; y.mul_add(x, 1.0) }",
        "fn f(x: fty) -> fty { if x < 0.0 { -x } else { x } }",
        "fn f(x: fty) -> fty { let b = if x < 1.0 { 2.0 } else { 3.0 }; b + x }",
        "const PI: fty = 3.1415; fn f(x: fty) -> fty { x * PI }",
        "const PI: fty = 3.14; fn g(y: fty) -> fty { y * PI }",
        "fn g(x: fty, y: fty) -> fty { (x + y).sqrt() * x.abs() - y / 2.0 }",
        "fn h(x: fty) -> fty { let i = x.to_bits() as ity; fty::from_bits((i & 255) as uty) }",
        "fn h(x: fty) -> fty { f32::from_bits(0x3f800000_u32) * x }",
        "fn select(a: bool, b: fty, c: fty) -> fty { if a { b } else { c } }",
        "fn bad(x: fty) -> fty { while x < 1.0 { } x }",
        "fn bad() -> fty { 1.0 }",
        "fn bad(x: [f32; 4]) -> fty { x[0] }",
        "struct A { b: u32 }",
        "fn m(x: u32) -> u32 { match x { 1 => 2, _ => 3 } }",
        "#[test] fn t() { assert!(true); }",
        "fn v(x: fty) -> fty { let a = (x * 2.0) as i32; let b = a as fty; b }",
        "fn t(x: fty) -> (fty, fty) { (x, x) }",
        "",
        "fn s(x: fty) -> fty { let y: fty = x.floor(); !y; y }",
        "use std::f32; type fty = f32; type uty = u32; fn z(x: fty) -> fty { x.mul_add(1.5, 2.5e10).max(3.0) }",
        "fn r(n: usize) -> fty { for i in 0..n { } 0.0 }",
        "fn long(x: fty) -> fty { x }\nfn longer(x: fty) -> fty { long(x) * long(x) }\nfn longest(x: fty) -> fty { longer(x) + long(2.0) }",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    // same text, another number or name: nearly equal inputs
    for i in 0..6 {
        v.push(format!("fn f{}(x: fty) -> fty {{ let a = {}.0; a * x + {}.5 }}", i % 2, i, i / 2));
    }
    v
}

pub struct LibPool {
    pub ops: Vec<(String, OpRef)>,
    /// indices by family
    pub fams: Vec<Vec<usize>>,
    /// calls that touch the same uncommon writable global, and calls almost equal to those
    pub focus: Vec<Vec<usize>>,
    /// calls that wait for ever, although they are alone
    pub stuck: Vec<String>,
    /// calls that ask their surroundings for something, and for what
    pub asking: Vec<usize>,
    pub asks_env: Vec<Vec<u8>>,
    pub asks_file: Vec<Vec<u8>>,
}

/// almost the same call
fn vary(r: &mut Rng, op: &str) -> String {
    let mut w: Vec<String> = op.split(' ').map(|s| s.to_string()).collect();
    let first = match w[0].as_str() {
        "gen" => 3,
        "bd" => 2,
        _ => 1,
    };
    if w.len() <= first {
        return op.to_string();
    }
    let times = r.range(1, 2);
    for _ in 0..times {
        let k = r.range(first as u64, w.len() as u64 - 1) as usize;
        if w[0] == "gen" {
            let x = u64::from_str_radix(&w[k], 16).unwrap_or(0);
            let other = r.range(3, w.len() as u64 - 1) as usize;
            w[k] = match r.below(9) {
                0 => format!("{:x}", x ^ 1),
                1 => format!("{:x}", x.wrapping_add(1)),
                2 => format!("{:x}", x ^ (1 << r.below(if x >> 32 != 0 { 64 } else { 32 }))),
                3 => format!("{:x}", x ^ if x >> 32 != 0 { 1 << 63 } else { 1 << 31 }),
                4 => w[other].clone(),
                5 => format!("{:x}", x >> 1),
                6 => format!("{:x}", x.wrapping_add(1 << r.below(24))),
                7 => format!("{:x}", if x >> 32 != 0 { x & !0xff_ffff } else { x & !0xfff }),
                _ => format!("{:x}", x ^ r.below(256)),
            };
            continue;
        }
        if let Ok(x) = w[k].parse::<i64>() {
            // numbers of digits: the first argument of these
            let digits = k == first && matches!(w[0].as_str(), "bd" | "eval" | "evalsubst");
            w[k] = match r.below(if digits { 9 } else { 6 }) {
                6 | 7 if w[0] == "bd" => x + *r.pick(&[8i64, 16, 32, 64, 128, 256]),
                6..=8 => (x + *r.pick(&[8i64, -8, 16, -16, -32, 64])).clamp(0, 130),
                0 => x + 1,
                1 => (x - 1).max(0),
                2 => x / 2,
                3 => (x + 7).min(120),
                4 => r.range(0, 60) as i64,
                _ => *r.pick(&DIGITS),
            }
            .to_string();
            continue;
        }
        // one of the numbers in an expression
        let t = String::from_utf8_lossy(&unpct(&w[k])).into_owned();
        let b: Vec<char> = t.chars().collect();
        let mut runs: Vec<(usize, usize)> = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i].is_ascii_digit() && (i == 0 || !is_word(b[i - 1])) {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_digit() || (b[j] == '.' && j + 1 < b.len() && b[j + 1].is_ascii_digit() && !b[i..j].contains(&'.'))) {
                    j += 1;
                }
                if j == b.len() || !is_word(b[j]) {
                    runs.push((i, j));
                }
                i = j;
            }
            i += 1;
        }
        if runs.is_empty() {
            continue;
        }
        let (i, j) = *r.pick(&runs);
        let num: String = b[i..j].iter().collect();
        let new = match r.below(4) {
            0 => r.pick(&BASES).to_string(),
            1 => {
                // another digit somewhere
                let mut c: Vec<char> = num.chars().collect();
                let q = r.below(c.len() as u64) as usize;
                if c[q].is_ascii_digit() {
                    c[q] = (b'0' + r.below(10) as u8) as char;
                }
                c.into_iter().collect()
            }
            _ => near(r, &num).trim_end_matches('.').to_string(),
        };
        let head: String = b[..i].iter().collect();
        let tail: String = b[j..].iter().collect();
        w[k] = e(&format!("{}{}{}", head, new, tail));
    }
    w.join(" ")
}
fn is_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

/// `nth`: how many families of this kind there were; their functions take turns
fn gen_family(r: &mut Rng, kind: u64, nth: usize, out: &mut Vec<String>) {
    let d = |r: &mut Rng| -> String { r.pick(&DIGITS).to_string() };
    let d2 = |r: &mut Rng| -> String { r.pick(&[5i64, 10, 15, 20, 21, 40]).to_string() };
    let polys = [
        "x * x + 2 * x + 1",
        "(x + 1) * (x + 2)",
        "(x + 1) * (x - 1) * (x + y)",
        "(a + b) * (c + d)",
        "-(x + y)",
        "x * (y + z) * 3",
        "2 * x * 3 * y",
        "(1 + x) * (1 + x) * (1 + x)",
        "x - (y - z)",
        "x / (y / z)",
        "(x + y).sin() * 2.0",
        "-x * -y",
        "((x))",
        "x + 1 + 1 + 1",
        "(x + 1) * (x + 2) * (x + 3) * (x + 4)",
        "f(x, y + 1)",
        "if x { 1 } else { 2 }",
        "x as f32",
        "\"text\"",
        "a::b::c * a",
    ];
    match kind {
        // evaluate one function at several precisions and almost equal arguments
        0 | 1 => {
            let fs = [
                "sin()", "cos()", "tan()", "exp()", "ln()", "sqrt()", "asin()", "acos()", "atan()", "erf()", "erfc()", "log2()", "log10()",
                "exp2()", "recip()", "abs()", "signum()", "powf(1.5)", "powi(3)", "powf(0.5)", "log(3)", "dnorm(0, 1)", "pnorm(0, 1)",
                "qnorm(0, 1)", "dnorm(1, 2)", "round_ieee(24)", "round_ieee(53)",
            ];
            let turn = |k: usize| fs[(nth * 2 + k + kind as usize * 13) % fs.len()];
            let b = *r.pick(&BASES);
            let b2 = *r.pick(&BASES);
            for k in 0..16 {
                let f = turn(k / 8);
                let x = if r.chance(3, 4) { near(r, b) } else { near(r, b2) };
                let x = if r.chance(1, 6) { format!("(-{})", x) } else { x };
                let g = if r.chance(1, 7) { *r.pick(&fs) } else { f };
                let x = if x.ends_with('.') { format!("({})", x) } else { x };
                out.push(format!("eval {} {}", d(r), e(&format!("({}).{}", x, g))));
            }
        }
        // very large and very small arguments
        23 => {
            let small = ["0.000001", "0.00000000000000000001", "0.0000000000000000000000000000000000000001", "0.00001", "0.001"];
            let mid = ["20", "50", "33.3", "12.5", "20.0000000000000000000000001"];
            let large = ["200", "1500", "1001", "999.5", "1000.0000000000000000001"];
            let huge = ["1000000", "1000001", "65536", "4294967296.5", "18446744073709551616", "123456789012345678901234567890", "1000000000000000000000000000000000000000000"];
            // how far each goes without taking long
            let fs = [
                ("sin", 2), ("cos", 2), ("tan", 2), ("exp", 2), ("asin", 0), ("acos", 0), ("atan", 3), ("ln", 3), ("erf", 1), ("erfc", 1), ("sqrt", 3), ("round", 3), ("recip", 3),
            ];
            for k in 0..3 {
                let (f, far) = fs[(nth * 3 + k) % fs.len()];
                for _ in 0..6 {
                    let x = match if r.chance(1, 2) { far } else { r.below(far + 1) } {
                        0 => *r.pick(&small),
                        1 => *r.pick(&mid),
                        2 => *r.pick(&large),
                        _ => *r.pick(&huge),
                    };
                    let x = if r.chance(1, 5) && f != "ln" && f != "sqrt" { format!("-{}", x) } else { x.to_string() };
                    let n = *r.pick(&[5i64, 10, 15, 20, 40]);
                    if f == "recip" || r.chance(1, 3) {
                        out.push(format!("eval {} {}", n, e(&format!("({}).{}()", x, if f == "round" { "abs" } else { f }))));
                    } else {
                        out.push(format!("bd {} {} {}", f, n, e(&x)));
                    }
                }
            }
        }
        // constants and compound expressions
        2 => {
            let ex = [
                "PI", "PI * 2", "PI / 4", "(PI / 4).sin()", "(PI / 6).cos()", "PI * PI", "-PI", "(PI).sqrt()", "1 / 3", "2 / 7 * PI", "PI.ln()",
                "1 + 2 * 3", "(1.5 - 2.5) * 3", "1 < 2", "2 <= 1", "PI == 3", "1.0 != 1.00", "(2).exp()", "2 * (1).exp()",
            ];
            let a = *r.pick(&ex);
            for _ in 0..12 {
                let x = if r.chance(1, 2) { a } else { *r.pick(&ex) };
                out.push(format!("eval {} {}", d(r), e(x)));
            }
        }
        // BigDecimal functions
        3 | 4 => {
            let fs = ["sqrt", "sin", "cos", "tan", "exp", "asin", "acos", "atan", "ln", "erf", "erfc", "round"];
            let turn = |k: usize| fs[(nth * 2 + k + (kind as usize - 3) * 6) % fs.len()];
            let b = *r.pick(&BASES);
            for k in 0..14 {
                let f = turn(k / 7);
                let g = if r.chance(1, 6) { *r.pick(&fs) } else { f };
                let mut x = near(r, b);
                if r.chance(1, 6) {
                    x = format!("-{}", x);
                }
                if x.ends_with('.') {
                    x.push('0');
                }
                out.push(format!("bd {} {} {}", g, d(r), e(&x)));
            }
            match r.below(4) {
                0 => {
                    for _ in 0..6 {
                        out.push(format!("bd {} {}", r.pick(&["pi", "sqrt_two", "oor2pi", "pi"]), d(r)));
                        if r.chance(1, 4) {
                            // numbers of digits that look alike when truncated
                            let k = *r.pick(&[40i64, 100, 101, 120]);
                            for n in [k, k + *r.pick(&[32i64, 64, 128, 256, 256])] {
                                out.push(format!("bd {} {}", "pi", n));
                            }
                        }
                    }
                }
                1 => {
                    let y = *r.pick(&BASES);
                    for _ in 0..6 {
                        out.push(format!("bd {} {} {} {}", r.pick(&["log", "pow", "pow", "round_ieee"]), d(r), near(r, b).trim_end_matches('.'), near(r, y).trim_end_matches('.')));
                    }
                }
                2 => {
                    for _ in 0..6 {
                        let n = near(r, b);
                        out.push(format!("bd {} {} {} {} {}", r.pick(&["dnorm", "pnorm", "qnorm"]), d2(r), n.trim_end_matches('.'), r.pick(&["0", "1", "0.5"]), r.pick(&["1", "2"])));
                    }
                }
                _ => {
                    for _ in 0..4 {
                        out.push(format!("bd bigd {}", r.below(1000)));
                        out.push(format!("bd bigdf 0 {:x}", (r.below(1000) as f64 / 8.0).to_bits()));
                    }
                    out.push("bd consts 0".into());
                }
            }
        }
        // approximations
        5 => {
            let ex = ["x.sin()", "x.cos()", "x.exp()", "x * x", "(x + 1.5).ln()", "y.sin()", "x", "(x * PI).sin()", "x.sin() + z", "1 / x"];
            let a = *r.pick(&ex);
            for _ in 0..8 {
                let x = if r.chance(3, 4) { a } else { *r.pick(&ex) };
                out.push(format!(
                    "approx {} {} {} {} {} {} {}",
                    r.range(2, 7),
                    r.pick(&["0", "-1", "0.25"]),
                    r.pick(&["1", "0.5", "2"]),
                    r.pick(&["x", "x", "x", "y"]),
                    r.pick(&["odd", "even", "neither", "neither"]),
                    d2(r),
                    e(x)
                ));
            }
        }
        6 => {
            let p = *r.pick(&polys);
            let names = ["x", "y", "z", "w", "x1"];
            for _ in 0..10 {
                let q = if r.chance(1, 2) { p } else { *r.pick(&polys) };
                let q = if r.chance(1, 2) { q.to_string() } else { q.replace('x', *r.pick(&names)) };
                let k = *r.pick(&["expand", "paren", "expand", "collect", "visit", "display", "debug", "kind"]);
                if k == "collect" {
                    out.push(format!("collect {} {}", r.pick(&names), e(&q)));
                } else {
                    out.push(format!("{} {}", k, e(&q)));
                }
            }
        }
        7 => {
            let p = *r.pick(&polys);
            for _ in 0..10 {
                let q = if r.chance(2, 3) { p } else { *r.pick(&polys) };
                let n = r.range(0, 3);
                let mut vs = String::new();
                for _ in 0..n {
                    vs.push_str(&format!(" {} {}", r.pick(&["x", "y", "z", "x", "a"]), e(*r.pick(&["1", "2", "1.0", "y", "x", "x + 1", "PI", "0.5", "z * 2", "-3"]))));
                }
                match r.below(4) {
                    0 => out.push(format!("evalsubst {} {}{}", d2(r), e(q), vs)),
                    1 => out.push(format!("vars {}{}", r.pick(&["x", "y", "a::b"]), vs)),
                    _ => out.push(format!("subst {}{}", e(q), vs)),
                }
            }
        }
        8 => {
            let ex = ["1.5 * x + 2", "0.1", "3", "1e30", "0.1 + 0.2 * x", "1.00000001", "\"s\"", "123456789.125", "1e-50"];
            for _ in 0..10 {
                out.push(format!("unt {} {} {}", r.pick(&["decimal", "hex", "octal"]), r.pick(&[32, 64, 16]), e(*r.pick(&ex))));
            }
        }
        9 => {
            let s = sources();
            let a = r.pick(&s).clone();
            for _ in 0..10 {
                let x = if r.chance(1, 3) { a.clone() } else { r.pick(&s).clone() };
                out.push(format!("toc {} {} {}", e(*r.pick(&["", "my_", "crate_", "p"])), e(*r.pick(&["", "f", "f"])), e(&x)));
            }
        }
        10 => {
            let s = sources();
            let a = r.pick(&s).clone();
            for _ in 0..8 {
                let x = if r.chance(1, 3) { a.clone() } else { r.pick(&s).clone() };
                out.push(format!("tosimd {} {}", r.pick(&[32, 64, 32, 16]), e(&x)));
                if r.chance(1, 2) {
                    out.push(format!("fmt {}", e(&x)));
                }
            }
            out.push(format!("fmt {}", e(&"{ a; ".repeat(r.range(1, 29) as usize).chars().chain("} ".repeat(29).chars()).collect::<String>())));
            let k = r.range(1, 34) as usize;
            out.push(format!("fmt {}", e(&format!("{}{}", "{ a; ".repeat(k), "}".repeat(k)))));
        }
        11 => {
            for _ in 0..8 {
                let n = r.range(2, 6);
                let xs: Vec<String> = (0..n).map(|i| format!("{}", i + r.below(2))).collect();
                let ys: Vec<String> = (0..n).map(|_| r.pick(&["1", "2.5", "-3", "0.125", "9", "0"]).to_string()).collect();
                out.push(format!("poly {} {} {} {}", d(r), r.pick(&["0.5", "2", "-1"]), xs.join(" "), ys.join(" ")));
            }
        }
        // errors and panics
        12 => {
            let evals = [
                "q", "x + 1", "f(1)", "(1).nosuch()", "a::b", "1 % 2", "!1", "\"s\"", "(1).sin(2)", "1 / 0", "(2).asin()", "(-1).sqrt()", "(0).ln()",
                "(-1).ln()", "(0).recip()", "(1.5).powf(0.3)", "1 + PI * q", "if 1 { 2 } else { 3 }", "(-2).powf(0.5)",
            ];
            for _ in 0..8 {
                match r.below(8) {
                    0 => out.push(format!("parse {}", e(*r.pick(&["", "(", "1 +", "x y", "1..", "fn", "\u{e9}\u{e9}", "0x", "'", "a b c"])))),
                    1 => out.push(format!("bomb {} {}", r.below(4), e("1 + 2 * (3 + 4)"))),
                    2 => out.push("mark-panic".into()),
                    3 => out.push(format!("fromf64 {:x}", r.pick(&[f64::NAN, f64::INFINITY, 0.0, -0.0, 1.5, f64::MIN_POSITIVE, 1e300]).to_bits_())),
                    _ => out.push(format!("eval {} {}", d2(r), e(*r.pick(&evals)))),
                }
            }
        }
        // long series and many digits
        14 => {
            let long = [
                ("exp", 10, 380), ("exp", 20, 300), ("exp", 30, 250), ("exp", 5, 430), ("exp", 0, 150), ("sin", 10, 350), ("sin", 20, 200),
                ("cos", 10, 300), ("cos", 30, 180), ("tan", 10, 120), ("erf", 20, 9), ("erf", 40, 6), ("erfc", 30, 7), ("erf", 10, 11),
            ];
            for _ in 0..8 {
                let (f, dg, x) = *r.pick(&long);
                let x = if r.chance(1, 2) { x } else { r.range(x as u64 / 8, x as u64) as i64 };
                let x = if r.chance(1, 4) { format!("-{}", x) } else if r.chance(1, 3) { format!("{}.5", x) } else { x.to_string() };
                if r.chance(1, 3) {
                    out.push(format!("eval {} {}", dg, e(&format!("({}).{}()", x, f))));
                } else {
                    out.push(format!("bd {} {} {}", f, dg, e(&x)));
                }
            }
            let deep = ["0.5", "0.9", "-0.5", "0.7", "0.99", "0.3", "0.999"];
            for _ in 0..8 {
                let dg = *r.pick(&[150i64, 200, 256, 300, 333, 400, 500]);
                let f = *r.pick(&["asin", "acos", "atan", "ln", "sqrt", "exp", "sin", "cos", "tan", "pi", "sqrt_two", "oor2pi", "erf"]);
                if matches!(f, "pi" | "sqrt_two" | "oor2pi") {
                    out.push(format!("bd {} {}", f, dg + r.below(2) as i64));
                } else {
                    let x = r.pick(&deep).to_string();
                    let x = if f == "ln" || f == "sqrt" { x.trim_start_matches('-').to_string() } else { x };
                    out.push(format!("bd {} {} {}", f, dg, e(&x)));
                }
            }
        }
        // any size of argument, any number of digits
        15 => {
            let fs = [
                "sqrt", "sin", "cos", "tan", "exp", "asin", "acos", "atan", "ln", "erf", "erfc", "round", "log", "pow", "round_ieee", "dnorm", "pnorm",
                "qnorm",
            ];
            let f = *r.pick(&fs);
            for _ in 0..16 {
                let g = if r.chance(1, 4) { *r.pick(&fs) } else { f };
                let n = *r.pick(&[1u64, 2, 3, 8, 17, 30, 60]);
                let mut m: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
                if m.trim_matches('0').is_empty() {
                    m = "1".into();
                }
                let m = m.trim_start_matches('0');
                // around one most of the time
                let top = match r.below(8) {
                    0 => r.range(0, 60) as i64 - 40,
                    1 => 2,
                    2 | 3 => 1,
                    _ => 0,
                };
                let x = format!("{}{}e{}", if r.chance(1, 4) { "-" } else { "" }, m, top - m.len() as i64);
                let dg = match r.below(6) {
                    0 => r.range(0, 6),
                    1 => r.range(60, 260),
                    _ => r.range(7, 60),
                };
                match g {
                    "log" | "pow" => out.push(format!("bd {} {} {} {}", g, dg.min(60), x, r.pick(&["2", "3", "0.5", "-1", "10", "2.5", "17", "-3", "100"]))),
                    "round_ieee" => out.push(format!("bd {} {} {} {}", g, dg, x, r.pick(&["24", "53", "11", "1"]))),
                    "dnorm" | "pnorm" | "qnorm" => out.push(format!("bd {} {} {} {} {}", g, dg.min(40), x, r.pick(&["0", "1", "-2.5"]), r.pick(&["1", "2", "0.1"]))),
                    _ if r.chance(1, 3) && !matches!(g, "round") => out.push(format!("eval {} {}", dg, e(&format!("({}).{}()", x, g)))),
                    _ => out.push(format!("bd {} {} {}", g, dg, e(&x))),
                }
            }
        }
        // deep and wide expressions
        16 => {
            let leaf = ["1", "2.5", "x", "y", "PI", "0.125", "-3", "z"];
            let d = r.range(1, 6);
            fn tree(r: &mut Rng, d: u64, leaf: &[&str]) -> String {
                if d == 0 || r.chance(1, 8) {
                    return leaf[r.below(leaf.len() as u64) as usize].to_string();
                }
                match r.below(9) {
                    0 | 1 => format!("{} + {}", tree(r, d - 1, leaf), tree(r, d - 1, leaf)),
                    2 => format!("{} - ({})", tree(r, d - 1, leaf), tree(r, d - 1, leaf)),
                    3 | 4 => format!("({}) * ({})", tree(r, d - 1, leaf), tree(r, d - 1, leaf)),
                    5 => format!("-({})", tree(r, d - 1, leaf)),
                    6 => format!("({}) / 7", tree(r, d - 1, leaf)),
                    7 => format!("({}).{}()", tree(r, d - 1, leaf), ["sin", "abs", "cos", "exp"][r.below(4) as usize]),
                    _ => format!("(({}))", tree(r, d - 1, leaf)),
                }
            }
            for _ in 0..10 {
                let t = tree(r, d, &leaf);
                match r.below(7) {
                    0 => out.push(format!("expand {}", e(&t))),
                    1 => out.push(format!("paren {}", e(&t))),
                    2 => out.push(format!("collect {} {}", r.pick(&["x", "y"]), e(&t))),
                    3 => out.push(format!("visit {}", e(&t))),
                    4 => out.push(format!("subst {} x {} y {}", e(&t), e("z * 2"), e("x + 1"))),
                    5 => out.push(format!("evalsubst {} {} x {} y {} z {}", r.pick(&["10", "20", "50"]), e(&t), e("0.5"), e("1.25"), e("2"))),
                    _ => out.push(format!("eval {} {}", d2(r), e(&t.replace(['x', 'y', 'z'], "1.5")))),
                }
            }
        }
        // wide algebra: many terms, many factors, many variables
        17 => {
            let names = ["x", "y", "z", "a", "b", "c", "d", "f", "g", "h"];
            let sum = |r: &mut Rng, n: u64| -> String {
                let mut t = String::new();
                for i in 0..n {
                    if i > 0 {
                        t.push_str(if r.chance(1, 3) { " - " } else { " + " });
                    }
                    let v = *r.pick(&names);
                    match r.below(4) {
                        0 => t.push_str(v),
                        1 => t.push_str(&format!("{} * {}", i + 1, v)),
                        2 => t.push_str(&format!("{} * {}", v, r.pick(&names))),
                        _ => t.push_str(&format!("{}", i)),
                    }
                }
                t
            };
            for _ in 0..8 {
                let t = match r.below(5) {
                    // a product of binomials: two to the power k terms
                    0 => {
                        let k = r.range(2, 8) as usize;
                        (0..k).map(|i| format!("({} + {})", names[i], i + 1)).collect::<Vec<_>>().join(" * ")
                    }
                    1 => {
                        let (n, m) = (r.range(2, 16), r.range(2, 16));
                        format!("({}) * ({})", sum(r, n), sum(r, m))
                    }
                    2 => {
                        let n = *r.pick(&[33u64, 65, 70, 100, 130, 150]);
                        sum(r, n)
                    }
                    3 => {
                        // one variable to a high power
                        let k = r.range(2, 12) as usize;
                        vec!["x"; k].join(" * ") + " + (x + 1) * 2"
                    }
                    _ => {
                        let n = r.range(2, 6);
                        format!("-({}) * 2", sum(r, n))
                    }
                };
                match r.below(8) {
                    0..=3 => out.push(format!("expand {}", e(&t))),
                    4 => out.push(format!("collect {} {}", r.pick(&names), e(&t))),
                    5 => out.push(format!("paren {}", e(&t))),
                    6 => {
                        let n = r.range(1, 10) as usize;
                        let vs: String = (0..n).map(|i| format!(" {} {}", names[i], e(*r.pick(&["1", "2.5", "y", "x + 1", "PI"])))).collect();
                        out.push(format!("subst {}{}", e(&t), vs));
                    }
                    _ => {
                        let vs: String = names.iter().map(|n| format!(" {} {}", n, r.range(1, 9))).collect();
                        out.push(format!("evalsubst 20 {}{}", e(&t), vs));
                    }
                }
            }
            for s in ["(x + 1) * 2", "x - (y - z)", "(a + b) * c"] {
                out.push(format!("expand {}", e(s)));
            }
        }
        // long inputs: sources with many functions, deep blocks, many points, many terms
        18 => {
            let s = sources();
            for _ in 0..4 {
                let n = r.range(2, 25) as usize;
                let text: String = (0..n).map(|_| r.pick(&s).clone()).filter(|x| !x.contains("bad") && !x.contains("use ")).collect::<Vec<_>>().join("\n");
                out.push(format!("toc {} f {}", r.pick(&["p", "my_"]), e(&text)));
                out.push(format!("tosimd {} {}", r.pick(&[32, 64]), e(&text)));
                out.push(format!("fmt {}", e(&text)));
            }
            for _ in 0..3 {
                let k = r.range(20, 70) as usize;
                out.push(format!("fmt {}", e(&format!("{}{}", "{ a; ".repeat(k), "}".repeat(k)))));
                let k = r.range(2, 40) as usize;
                out.push(format!("fmt {}", e(&format!("fn f() {}{}{}", "{".repeat(k), " let a = b;".repeat(k), "}".repeat(k)))));
            }
            for _ in 0..3 {
                let n = r.range(7, 24);
                let xs: Vec<String> = (0..n).map(|i| i.to_string()).collect();
                let ys: Vec<String> = (0..n).map(|_| r.pick(&["1", "2.5", "-3", "0.125", "9", "0"]).to_string()).collect();
                out.push(format!("poly {} {} {} {}", d(r), r.pick(&["0.5", "2", "-1"]), xs.join(" "), ys.join(" ")));
            }
            for _ in 0..2 {
                out.push(format!("approx {} 0 1 x {} {} {}", r.range(8, 16), r.pick(&["odd", "even", "neither"]), r.pick(&[10, 20]), e(*r.pick(&["x", "x * x", "1 / (x + 2)", "x.sin()"]))));
            }
        }
        // every construct of the language, through each translator
        19 | 21 | 22 => {
            let s = constructs();
            let part = [19, 21, 22].iter().position(|k| *k == kind).unwrap();
            for x in s.iter().skip(part).step_by(3) {
                match r.below(8) {
                    0 => out.push(format!("toc0 {}", e(&x))),
                    1 => out.push(format!("tosimd0 {}", e(&x))),
                    2 => out.push(format!("tosimd {} {}", r.pick(&[32, 64]), e(&x))),
                    3 => out.push(format!("fmt {}", e(&x))),
                    _ => out.push(format!("toc {} {} {}", e(*r.pick(&["", "my_", "p"])), e(*r.pick(&["", "f"])), e(&x))),
                }
            }
        }
        // conversions, names, variable lists, visitors, comparisons, rounding
        20 => {
            let xs = [
                "1", "1.5", "x.y.z + 1", "f(x).g", "-x.y * !a", "x.m(1, 2 + y, z.w)", "\"s\"", "1e39", "*x", "!x + (y)", "a[1]", "(1.5).m(2, x)", "-3", "x.0.1",
                "(a - b.c) * d.e()", "1 > 2", "2 >= 2.0", "[1, 2]", "x as u8 + 1",
            ];
            let evs = [
                "(2.5).round()", "(2.5).round(1)", "(10).log(2)", "(8).log(x)", "(0.5).pnorm(0, 1)", "(0.5).qnorm(0, 1)", "(1.5).qnorm(0, 1)", "1 > 2", "2 >= 2.0",
                "1.5 >= 0.5", "3 > 2.5", "(1.1).round_ieee(32)", "(1.1).round_ieee(64)", "(0.1).round_ieee(32)", "(1e39).round_ieee(32)", "(1.1).round_ieee(16)",
                "PI.round_ieee(32)", "PI.round_ieee(64)", "(4).erf()", "(8).erf()", "(-6).erf()", "(12).erfc()", "dnorm(1, 0, 1)", "pnorm(1, 0, 1)", "qnorm(0.5, 0, 1)",
                "(x.y)", "1 && 2", "true", "\"a\"", "1u32", "0x10", "1_000", "5f32", "(1).max(2)", "-(-1)", "E", "std::f64::consts::PI", "f64::PI", "*3", "1 == 1.0",
            ];
            for _ in 0..14 {
                let x = *r.pick(&xs);
                match r.below(14) {
                    0 => out.push(format!("tof64r {}", e(x))),
                    1 => out.push(format!("tof32v {}", e(x))),
                    2 => out.push(format!("tobdv {}", e(x))),
                    3 => out.push(format!("asref {}", e(x))),
                    4 => out.push(format!("synerr {}", e(*r.pick(&["1 +", "x", "", ")", "a b", "1 + 2"])))),
                    5 | 6 => out.push(format!("record {} {}", r.pick(&["none", "lit", "fail", "path"]), e(x))),
                    7 => out.push(format!(
                        "{} {}{}",
                        r.pick(&["varsfrom", "varsfrom", "vars x"]),
                        r.pick(&["x 1", "y x", "a::b 2.5"]),
                        r.pick(&["", " z 3", " x 4 w PI", " x 1 y 2 z 3 w 4"])
                    )),
                    8 => out.push(format!("name {} {}", r.pick(&["x", "a::b", "::c"]), r.pick(&["x", "a::b", "y"]))),
                    9 => out.push(format!("visit {}", e(x))),
                    10 => out.push(format!("bd {} {} {} {}", "round_ieee", d2(r), r.pick(&["1.1", "0.1", "3", "1e39", "-2.75", "1e-46", "123456789.125"]), r.pick(&["32", "64", "16"]))),
                    11 => out.push(format!("bd bigdf32 0 {:x}", (r.below(4096) as f32 / 64.0 - 8.0).to_bits())),
                    12 => out.push(format!("bd {} {} {}", r.pick(&["erf", "erfc"]), d2(r), r.pick(&["3", "5", "7", "9", "12", "-10"]))),
                    _ => out.push(format!("{} {}", r.pick(&["expand", "paren", "unt decimal 32", "unt decimal 64", "unt hex 64", "collect x", "kind", "debug"]), e(x))),
                }
                out.push(format!("eval {} {}", d2(r), e(*r.pick(&evs))));
            }
        }
        _ => {
            let xs = ["1", "1.0", "1.5", "x", "x + 1", "\"s\"", "1e400", "0.1", "123456789012345678901234567890", "-1", "true"];
            let a = *r.pick(&xs);
            for _ in 0..12 {
                let x = if r.chance(1, 2) { a } else { *r.pick(&xs) };
                let y = *r.pick(&xs);
                match r.below(13) {
                    0 => out.push(format!("parse {}", e(x))),
                    1 => out.push(format!("kind {}", e(x))),
                    2 => out.push(format!("tof64 {}", e(x))),
                    3 => out.push(format!("tof32 {}", e(x))),
                    4 => out.push(format!("tobd {}", e(x))),
                    5 => out.push(format!("fromf32 {:x}", (r.below(64) as f32 / 16.0).to_bits())),
                    6 => out.push(format!("frombd {}", r.pick(&["1", "1.50", "0.0000001", "-3", "1e10"]))),
                    7 => out.push(format!("frombool {}", r.pick(&["true", "false"]))),
                    8 | 9 => out.push(format!("arith {} {} {}", r.pick(&["+", "-", "*", "/"]), e(x), e(y))),
                    10 => out.push(format!("eq {} {}", e(x), e(y))),
                    11 => out.push(format!("ndf {}", r.pick(&[16, 32, 64]))),
                    _ => out.push(format!("fromf64 {:x}", (r.below(64) as f64 / 16.0).to_bits_())),
                }
            }
        }
    }
}
trait Bits {
    fn to_bits_(&self) -> u64;
}
impl Bits for f64 {
    fn to_bits_(&self) -> u64 {
        self.to_bits()
    }
}

pub fn build_lib_pool(refs: &LibRefs, seed: u64, nfam: usize, limit: Duration) -> LibPool {
    let mut r = Rng::new(mix2(seed, 0x11b));
    let mut fams: Vec<Vec<String>> = vec![];
    let weights: [u64; 38] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 2, 12, 9, 14, 15, 16, 14, 15, 15, 17, 17, 18, 16, 19, 20, 21, 20, 22, 20, 23, 23, 23, 23, 23];
    let mut seen: HashMap<u64, usize> = HashMap::new();
    for i in 0..nfam {
        let k = if i < weights.len() { weights[i] } else { *r.pick(&weights) };
        let mut v = vec![];
        let nth = seen.entry(k).or_insert(0usize);
        gen_family(&mut r, k, *nth, &mut v);
        *nth += 1;
        v.sort();
        v.dedup();
        fams.push(v);
    }
    finish_pool(refs, fams, limit)
}

pub fn finish_pool(refs: &LibRefs, fams: Vec<Vec<String>>, limit: Duration) -> LibPool {
    let mut ops: Vec<(String, OpRef)> = vec![];
    let mut index: HashMap<String, usize> = HashMap::new();
    let stuck = std::cell::RefCell::new(vec![]);
    let load = |ops: &mut Vec<(String, OpRef)>, index: &mut HashMap<String, usize>, fams: &[Vec<String>], check: bool| -> Vec<Vec<usize>> {
        let mut all: Vec<String> = fams.iter().flatten().filter(|o| !index.contains_key(*o)).cloned().collect();
        all.sort();
        all.dedup();
        let got = par(workers(), all.len(), &|| false, &|i| refs.get(&all[i]));
        // a call that kills its process proves nothing about the simulator; many of them would
        let dead: Vec<&str> = got.iter().filter(|(_, r)| ["signal 4", "signal 7", "signal 11", "signal 31"].contains(&r.status.as_str())).map(|(i, _)| all[*i].as_str()).collect();
        if check && dead.len() * 10 > all.len() {
            harness_error(&format!("{} of {} calls die of a signal when alone, such as {:?}", dead.len(), all.len(), dead[0]));
        }
        for (i, rf) in got {
            if rf.stuck {
                stuck.borrow_mut().push(all[i].clone());
            }
            if rf.res.is_some() && rf.cost() < limit {
                index.insert(all[i].clone(), ops.len());
                ops.push((all[i].clone(), rf));
            }
        }
        fams.iter().map(|f| f.iter().filter_map(|o| index.get(o).copied()).collect::<Vec<_>>()).filter(|f| f.len() > 1).collect()
    };
    let fams = load(&mut ops, &mut index, &fams, true);
    // writable globals that only some of the calls touch: state that deserves attention
    let base = ops.len();
    let mut by: std::collections::BTreeMap<u64, Vec<usize>> = Default::default();
    let usual: std::collections::HashSet<u64> = if refs.prop == "C11" { vec!["noise"] } else { vec!["noise", "noise2"] }.into_iter().flat_map(|o| refs.get(o).addrs).collect();
    for (i, (_, rf)) in ops.iter().enumerate() {
        for a in rf.addrs.iter().filter(|a| !usual.contains(a)) {
            by.entry(*a).or_default().push(i);
        }
    }
    let mut sets: Vec<Vec<usize>> = by.into_values().collect();
    sets.sort();
    sets.dedup();
    sets.sort_by_key(|v| v.len());
    sets.truncate(24);
    let mut r = Rng::new(0xf0c05 + base as u64);
    let mut want = vec![];
    for s in &sets {
        let mut v: Vec<String> = vec![];
        for _ in 0..24 {
            let o = ops[*r.pick(s)].0.clone();
            for _ in 0..3 {
                v.push(vary(&mut r, &o));
            }
            v.push(o);
        }
        v.sort();
        v.dedup();
        want.push(v);
    }
    let mut focus = load(&mut ops, &mut index, &want, false);
    // and those of them that do touch it, by themselves
    for k in 0..focus.len() {
        let v: Vec<usize> = focus[k].iter().copied().filter(|i| ops[*i].1.addrs.iter().any(|a| !usual.contains(a))).collect();
        if v.len() > 1 && v.len() < focus[k].len() {
            focus.push(v);
        }
    }
    let stuck = stuck.take();
    let asking = (0..ops.len()).filter(|i| !ops[*i].1.asks_env.is_empty() || !ops[*i].1.asks_file.is_empty()).collect();
    let all = |f: &dyn Fn(&OpRef) -> &Vec<Vec<u8>>| -> Vec<Vec<u8>> {
        let s: std::collections::BTreeSet<Vec<u8>> = ops.iter().flat_map(|o| f(&o.1).iter().cloned()).collect();
        s.into_iter().take(40).collect()
    };
    let (asks_env, asks_file) = (all(&|o| &o.asks_env), all(&|o| &o.asks_file));
    LibPool { ops, fams, focus, stuck, asking, asks_env, asks_file }
}

impl LibPool {
    /// a small set of related calls
    pub fn draw(&self, r: &mut Rng, n: usize, budget: u64) -> Vec<usize> {
        let mut from: Vec<usize> = vec![];
        let focused = !self.focus.is_empty() && r.chance(1, 2);
        match r.below(20) {
            _ if focused => {
                from.extend(r.pick(&self.focus).iter());
                if r.chance(1, 4) {
                    from.extend(r.pick(&self.fams).iter());
                }
            }
            0..=10 => from.extend(r.pick(&self.fams).iter()),
            11..=15 => {
                from.extend(r.pick(&self.fams).iter());
                from.extend(r.pick(&self.fams).iter());
            }
            _ => from.extend(0..self.ops.len()),
        }
        let mut f2: Vec<usize> = from.iter().copied().filter(|i| self.ops[*i].1.allocs <= budget).collect();
        if f2.len() < 2 && focused {
            let mut by: Vec<usize> = from.clone();
            by.sort_by_key(|i| self.ops[*i].1.allocs);
            f2 = by.into_iter().take(6).collect();
        }
        if f2.is_empty() {
            f2 = (0..self.ops.len()).filter(|i| self.ops[*i].1.allocs <= budget).collect();
        }
        // few distinct ones, so that they meet again
        let k = r.range(1, 12) as usize;
        let sub: Vec<usize> = (0..k).map(|_| *r.pick(&f2)).collect();
        (0..n).map(|_| *r.pick(&sub)).collect()
    }
    fn allocs(&self, v: &[usize]) -> u64 {
        v.iter().map(|i| self.ops[*i].1.allocs).sum()
    }
    /// scheduling points: allocations and blocks, memory accesses
    pub fn cost(&self, v: &[usize]) -> (u64, u64) {
        let base = 400; // what starting the process takes is in every reference
        (
            v.iter().map(|i| self.ops[*i].1.allocs + self.ops[*i].1.blocks + base).sum(),
            v.iter().map(|i| self.ops[*i].1.mem + base).sum(),
        )
    }
}

pub fn add_sched(r: &mut Rng, p: &mut Plan, cost: (u64, u64)) {
    // scheduling points: allocations, system calls, basic blocks, synchronisation; now and then every memory access
    let g = match r.below(6) {
        0 => 4 | 2 | 32,
        1 if cost.1 < 20_000_000 => 63,
        2 if cost.1 < 20_000_000 => 4 | 2 | 16 | 32,
        _ => 1 | 2 | 4 | 32,
    };
    let est = cost.0 + if g & 24 != 0 { cost.1 } else { 0 };
    p.add(format!("seed {}", r.next() >> 1));
    let want = *r.pick(&[20u64, 60, 200, 200, 800]);
    let den = (est / want).max(2);
    match r.below(10) {
        0..=3 => p.add(format!("sched rand 1 {}", den)),
        4 | 5 => p.add(format!("sched hot 1 {}", den * 2)),
        6 | 7 => p.add(format!("sched pct {} {}", r.range(1, 12), est.max(10))),
        8 => p.add(format!("sched rr {}", den)),
        _ => p.add(format!("sched rand 1 {}", r.range(2, 8).max(est / 4000))),
    };
    p.add(format!("gran {}", g));
    p.add(format!("max_steps {}", est * 20 + 5_000_000));
}

/// streams and files that fail
pub fn hostile(r: &mut Rng, plan: &mut Plan) {
    for cls in ["wout", "werr", "wfile", "openw", "openr", "read", "stat", "close", "unlink", "rename", "mkdir", "misc"] {
        if r.chance(1, 3) {
            let errs: &[u64] = match cls {
                "wout" | "werr" => &[32, 28, 5, 11, 9],
                "read" | "close" => &[5],
                _ => &[13, 2, 28, 5, 24, 30],
            };
            let x = r.pick(errs);
            if cls == "misc" {
                continue;
            }
            plan.add(format!("fault {} {} err:{}", cls, if r.chance(2, 3) { "1+".into() } else { format!("{}+", r.range(1, 4)) }, x));
        }
    }
}

/// number of threads, allocations a call may take, calls of each
fn many_threads(r: &mut Rng, pool: &LibPool) -> (usize, u64, usize) {
    let state = !pool.focus.is_empty();
    if r.chance(1, if state { 5 } else { 25 }) {
        // a crowd: there may be room for some number of callers only
        let n = *r.pick(&[6usize, 8, 9, 10, 16, 17, 18, 32, 33, 36]);
        return (n, if n < 16 { 2000 } else { 400 }, r.range(1, 2) as usize);
    }
    (r.range(2, 4) as usize, *r.pick(&[300u64, 2000, 2000, 10_000, 60_000]), r.range(1, 5) as usize)
}
/// a call of a stateful tree that is made so often that every counter gets there
fn very_often(r: &mut Rng, pool: &LibPool) -> Option<String> {
    let set = r.pick(&pool.focus).clone();
    let i = *r.pick(&set);
    let (o, rf) = &pool.ops[i];
    let cost = rf.allocs.saturating_sub(15) + rf.blocks / 10 + 5;
    let k = (*r.pick(&[4200u64, 10_300, 33_000, 66_000, 131_100])).min(25_000_000 / cost);
    if k > 1000 {
        Some(format!("rep {} {}", k, o))
    } else {
        None
    }
}

/// somewhere in a program where a library is not often called from
pub fn place(r: &mut Rng, n: usize) -> String {
    match r.below(5) {
        0 | 1 => {
            let names = [
                "-", "", "main", "worker", "worker-1", "tokio-runtime-worker", "rayon-0", "pool-1-thread-2", "test", "bench", "build", "render", "ui", "gui", "audio", "io", "io-thread", "bg",
                "background", "helper", "eval", "doctor-syn", "libmgen", "rt", "realtime", "fast", "slow", "debug", "batch", "bulk", "async-std/runtime", "blocking-1", "actix-rt|system:0|arbiter:0", "server", "client", "x",
                "a thread with quite a long name for a thread",
            ];
            format!("thread {} {}", pct(r.pick(&names).as_bytes()), *r.pick(&[2048u64, 4096, 8192, 65536]))
        }
        2 => format!("unwind {}", r.below(n as u64 + 1)),
        3 => format!("exit {}", r.below(n as u64 + 1)),
        _ => format!("deep {}", r.range(1, 4000)),
    }
}

pub fn gen_lib(ctx: &Ctx, refs: &LibRefs, pool: &LibPool, prop: &str, seed: u64, idx: u64) -> LibCase {
    let _ = refs;
    let h = prop.bytes().fold(0u64, |a, b| a * 131 + b as u64);
    let mut r = Rng::new(mix2(seed ^ h, idx));
    let r = &mut r;
    let mut c = LibCase { prop: prop.into(), ..Default::default() };
    let name = |v: &[usize]| -> Vec<String> { v.iter().map(|i| pool.ops[*i].0.clone()).collect() };
    match prop {
        "C08" | "C14" => {
            c.mode = "par".into();
            let (n, budget, per) = many_threads(r, pool);
            let sel = pool.draw(r, n * per, budget);
            let est = pool.cost(&sel);
            c.threads = (0..n).map(|t| name(&sel[t * per..(t + 1) * per])).collect();
            if r.chance(1, 4) {
                // identical work everywhere
                let t0 = c.threads[0].clone();
                for t in c.threads.iter_mut() {
                    *t = t0.clone();
                }
            }
            add_sched(r, &mut c.plan, est);
            if prop == "C14" {
                // how long is it when nobody is suspended?
                let o = exec_lib(ctx, &c, false);
                let s = o.steps.max(10);
                c.plan.lines.retain(|l| !l.starts_with("max_steps"));
                c.plan.add(format!("max_steps {}", s * 10 + 200_000));
                let k = if n > 2 && r.chance(2, 3) { r.range(2, n as u64 - 1) } else { 1 };
                let mut ts: Vec<u64> = (1..=n as u64).collect();
                for _ in 0..k {
                    let t = ts.remove(r.below(ts.len() as u64) as usize);
                    let span = (s / n as u64).max(2);
                    let at = match r.below(4) {
                        // somewhere in the first call
                        _ if n > 4 && r.chance(2, 3) => r.range(1, (span / per as u64).max(2)),
                        0 => r.range(1, span.min(40)),
                        1 => r.range(1, (span / 10).max(2)),
                        _ => r.range(1, span),
                    };
                    c.plan.add(format!("stall {} {}", t, at));
                }
            }
        }
        "C09" => {
            c.mode = "seq".into();
            let mut s = Step::default();
            let strong = r.chance(1, 8);
            ambient(r, &mut s, strong);
            s.plan.lines.retain(|l| !l.starts_with("hostile_env"));
            c.plan = s.plan;
            c.plan.add("gran 2");
            c.env = s.env;
            c.layout = s.layout;
            let n = match r.below(8) {
                0..=2 => r.range(2, 12),
                3..=5 => r.range(10, 60),
                6 => r.range(60, 200),
                _ => r.range(200, 400),
            } as usize;
            let budget = 4_000_000 / n as u64;
            let mut sel = vec![];
            while sel.len() < n {
                let k = (r.range(1, 60) as usize).min(n - sel.len());
                sel.extend(pool.draw(r, k, budget.min(400_000)));
            }
            if n > 250 {
                // many different arguments
                for x in sel.iter_mut() {
                    if r.chance(1, 2) {
                        let i = r.below(pool.ops.len() as u64) as usize;
                        if pool.ops[i].1.allocs <= budget {
                            *x = i;
                        }
                    }
                }
            }
            let mut l = name(&sel);
            if r.chance(1, 5) {
                // one cheap call very often
                let cheap: Vec<usize> = (0..pool.ops.len()).filter(|i| pool.ops[*i].1.allocs < 400).collect();
                if !cheap.is_empty() {
                    let i = *r.pick(&cheap);
                    let k = *r.pick(&[130u64, 260, 520, 1030, if ctx.thorough { 66_000 } else { 2100 }]);
                    let at = r.below(l.len() as u64 + 1) as usize;
                    l.insert(at, format!("rep {} {}", k, pool.ops[i].0));
                }
            }
            if !pool.focus.is_empty() && r.chance(1, 25) {
                if let Some(o) = very_often(r, pool) {
                    let at = r.below(l.len() as u64 + 1) as usize;
                    l.insert(at, o);
                }
            }
            if r.chance(1, 3) {
                // several threads, one after the other
                let k = r.range(2, 4) as usize;
                let m = l.len().div_ceil(k);
                c.threads = l.chunks(m.max(1)).map(|x| x.to_vec()).collect();
            } else {
                c.threads = vec![l];
            }
            if r.chance(1, 6) {
                let n = c.threads.iter().map(|t| t.len()).max().unwrap_or(0);
                c.place = place(r, n);
            }
        }
        "C10" => {
            c.mode = "seq".into();
            c.windows = true;
            let mut s = Step::default();
            ambient(r, &mut s, true);
            c.plan = s.plan;
            c.env = s.env;
            c.layout = s.layout;
            hostile(r, &mut c.plan);
            let n = r.range(1, 16) as usize;
            let mut sel = if r.chance(1, 6) { pool.draw(r, n.min(5), 400_000) } else { pool.draw(r, n, 60_000) };
            if !pool.asking.is_empty() && r.chance(2, 3) {
                // what the calls ask for is there, with some other content
                for _ in 0..r.range(1, 4) {
                    sel.push(*r.pick(&pool.asking));
                }
                for f in &pool.asks_file {
                    if r.chance(2, 3) {
                        let b = planted(r);
                        c.setup.push(crate::mgen::Init::File(f.clone(), b));
                    }
                }
                for e in &pool.asks_env {
                    if r.chance(2, 3) && !c.env.iter().any(|x| x.0 == *e) {
                        c.env.push((e.clone(), r.pick(&crate::mgen::ENV_VALUES).to_vec()));
                    }
                }
            }
            c.threads = vec![name(&sel)];
            if r.chance(1, 3) {
                c.place = place(r, c.threads[0].len());
            }
        }
        "C13" => {
            let (how, nt) = match r.below(5) {
                0 | 1 => ("main", 1),
                2 | 3 => ("fresh", r.range(1, 3)),
                _ => ("par", r.range(2, 3)),
            };
            let k = r.range(1, 10) as usize;
            let mut rounds = *r.pick(&[6u64, 6, 6, 12, 40, 150]);
            let sel = if r.chance(1, 8) { pool.draw(r, k.min(3) * nt as usize, 200_000) } else { pool.draw(r, k * nt as usize, 60_000) };
            while rounds > 6 && pool.allocs(&sel) * rounds > 1_500_000 {
                rounds /= 2;
            }
            let rounds = rounds.max(6);
            c.mode = format!("rounds {} {}", rounds, how);
            c.threads = sel.chunks(k).map(|x| name(x)).collect();
            let mut more = (0, 0);
            if r.chance(1, 8) {
                // one call many times within each round
                let cheap: Vec<usize> = sel.iter().copied().filter(|i| pool.ops[*i].1.allocs < 1500).collect();
                if !cheap.is_empty() {
                    let i = *r.pick(&cheap);
                    let k = (*r.pick(&[20u64, 70, 130, 270, 1030])).min(1_500_000 / (rounds * (pool.ops[i].1.allocs + 20)));
                    if k > 1 {
                        c.threads[0].push(format!("rep {} {}", k, pool.ops[i].0));
                        let one = pool.cost(&[i]);
                        more = (one.0 * k, one.1 * k);
                    }
                }
            }
            c.plan.add(format!("heap_seed {}", r.next() >> 1));
            c.plan.add(format!("heap_fill {}", r.pick(&[0u64, 2, 0xa5])));
            c.plan.add(format!("heap_reuse {}", r.below(3)));
            if how == "par" {
                let k = pool.cost(&sel);
                add_sched(r, &mut c.plan, ((k.0 + more.0) * rounds, (k.1 + more.1) * rounds));
            } else {
                c.plan.add("gran 2");
            }
        }
        _ => harness_error("gen_lib"),
    }
    c
}

const QUIET: [&str; 16] = [
    "openr", "open", "read", "close", "getenv", "getpid", "getrandom", "clock", "affinity", "isatty", "stat", "statx", "sleep", "thread-create",
    "thread-end", "mark",
];

pub fn judge_lib(refs: &LibRefs, c: &LibCase, o: &Outcome) -> Option<Viol> {
    let v = |class: &str, detail: String| Some(Viol { class: class.into(), detail });
    if let Some(mut x) = abnormal(o) {
        x.detail = format!("{}; {}", x.detail, describe_lib(c));
        return Some(x);
    }
    let p = parse_fd3(o);
    let stalled_end = o.verdict == 6;
    if !p.done && !stalled_end {
        return v("crash", format!("the program ended early ({}); {}", o.status(), describe_lib(c)));
    }
    if c.mode.starts_with("rounds") {
        let l = &p.live;
        for k in 2..l.len() {
            if l[k] != l[1] {
                return v("memory-grows", format!("live bytes after each round: {:?}; {}", &l[..(k + 4).min(l.len())], describe_lib(c)));
            }
        }
        return None;
    }
    let stalls: Vec<usize> = c
        .plan
        .lines
        .iter()
        .filter_map(|l| l.strip_prefix("stall "))
        .filter_map(|l| l.split(' ').next().and_then(|t| t.parse::<usize>().ok()))
        .collect();
    for (t, ops) in c.threads.iter().enumerate() {
        // threads are numbered from 1 inside the simulator
        let may_miss = stalled_end && stalls.contains(&(t + 1));
        for (i, op) in ops.iter().enumerate() {
            let want = match refs.get(op).res {
                Some(w) => w,
                None => continue,
            };
            match p.res.get(&(t, i)) {
                Some(g) if *g == want => {}
                Some(g) => {
                    return v(
                        "result-differs",
                        format!("thread {} call {} ({}) gave {} but alone it gives {}; {}", t, i, show(&unpct(op)), g.show(), want.show(), describe_lib(c)),
                    )
                }
                None if may_miss => {}
                None => return v("result-missing", format!("thread {} call {} ({}) has no result; {}", t, i, show(&unpct(op)), describe_lib(c))),
            }
        }
    }
    if c.windows {
        let mut inside: Option<usize> = None;
        for l in o.events.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            if w[0] == "LEFT" {
                return v("file-left", format!("files appeared: {}; {}", l, describe_lib(c)));
            }
            if w.len() < 5 {
                continue;
            }
            if w[2] == "mark" {
                inside = if w[3] == "begin" { w[4].parse().ok() } else { None };
                continue;
            }
            if let Some(i) = inside {
                let panics = refs.get(&c.threads[0][i]).res.map(|r| r.panicked()).unwrap_or(true);
                if !panics && !QUIET.contains(&w[2]) {
                    return v("ambient-effect", format!("call {} ({}) did: {}; {}", i, show(&unpct(&c.threads[0][i])), l, describe_lib(c)));
                }
            }
        }
        if !o.out.is_empty() || !o.err.is_empty() {
            return v("output", format!("stdout {:?} stderr {:?}; {}", show(&o.out), show(&o.err), describe_lib(c)));
        }
        for l in &p.other {
            let i: usize = l.split(' ').nth(2).and_then(|s| s.parse().ok()).unwrap_or(0);
            let panics = c.threads[0].get(i).map(|op| refs.get(op).res.map(|r| r.panicked()).unwrap_or(true)).unwrap_or(false);
            if l.starts_with("settings ") && !panics {
                return v("setting-changed", format!("{}; {}", l, describe_lib(c)));
            }
            if l.starts_with("hook ") {
                return v("panic-hook-changed", format!("{}; {}", l, describe_lib(c)));
            }
        }
    }
    None
}

pub fn describe_lib(c: &LibCase) -> String {
    let t: Vec<String> = c.threads.iter().map(|t| t.iter().map(|o| String::from_utf8_lossy(&unpct(o)).into_owned()).collect::<Vec<_>>().join(" ; ")).collect();
    let at = if c.place.is_empty() { String::new() } else { format!(" within [{}]", c.place) };
    let mut s = format!("mode {}{} threads {{{}}} plan [{}]", c.mode, at, t.join("} {"), c.plan.lines.join("; "));
    if s.len() > 1500 {
        let mut k = 1500;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push_str("...");
    }
    s
}

pub fn lib_text(c: &LibCase) -> String {
    let mut s = format!("mode {}\n", c.mode);
    if c.windows {
        s.push_str("windows\n");
    }
    if !c.place.is_empty() {
        s.push_str(&format!("ctx {}\n", c.place));
    }
    for t in &c.threads {
        s.push_str("thread\n");
        for o in t {
            s.push_str(&format!("op {}\n", o));
        }
    }
    for (k, v) in &c.env {
        s.push_str(&format!("env {} {}\n", pct(k), pct(v)));
    }
    if c.layout != 0 {
        s.push_str(&format!("layout {}\n", c.layout));
    }
    for i in &c.setup {
        if let crate::mgen::Init::File(n, b) = i {
            s.push_str(&format!("file {} {}\n", pct(n), pct(b)));
        }
    }
    for l in &c.plan.lines {
        s.push_str(&format!("plan {}\n", l));
    }
    s
}
pub fn lib_from(prop: &str, t: &str) -> LibCase {
    let mut c = LibCase { prop: prop.into(), ..Default::default() };
    for l in t.lines() {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        let f: Vec<&str> = rest.split(' ').collect();
        match k {
            "mode" => c.mode = rest.into(),
            "windows" => c.windows = true,
            "ctx" => c.place = rest.into(),
            "thread" => c.threads.push(vec![]),
            "op" => c.threads.last_mut().unwrap().push(rest.into()),
            "env" => c.env.push((unpct(f[0]), unpct(f[1]))),
            "layout" => c.layout = f[0].parse().unwrap_or(0),
            "file" => c.setup.push(crate::mgen::Init::File(unpct(f[0]), unpct(f.get(1).unwrap_or(&"")))),
            "plan" => c.plan.lines.push(rest.into()),
            _ => {}
        }
    }
    c
}

/// the same run with the switches written down instead of drawn
pub fn explicit_plan(plan: &Plan, o: &Outcome) -> Option<Plan> {
    if o.prelost > 0 || o.pre.len() > 60_000 {
        return None;
    }
    let mut p = plan.clone();
    p.lines.retain(|l| !l.starts_with("sched ") && !l.starts_with("pre "));
    p.add("sched list");
    for x in &o.pre {
        p.add(format!("pre {} {}", x.step, x.tid));
    }
    Some(p)
}

/// remove switches from an explicit plan (delta debugging); `bad` says whether the violation is still there
pub fn thin_plan(plan: &Plan, deadline: Instant, bad: &dyn Fn(&Plan) -> bool) -> Plan {
    let mut cur = plan.clone();
    let mut chunk = cur.lines.iter().filter(|l| l.starts_with("pre ")).count().div_ceil(2).max(1);
    loop {
        let idx: Vec<usize> = cur.lines.iter().enumerate().filter(|(_, l)| l.starts_with("pre ")).map(|(i, _)| i).collect();
        let mut k = 0;
        let mut changed = false;
        let mut idx = idx;
        while k < idx.len() {
            if Instant::now() > deadline {
                return cur;
            }
            let cut: std::collections::HashSet<usize> = idx[k..(k + chunk).min(idx.len())].iter().copied().collect();
            let mut x = cur.clone();
            x.lines = cur.lines.iter().enumerate().filter(|(i, _)| !cut.contains(i)).map(|(_, l)| l.clone()).collect();
            if bad(&x) {
                cur = x;
                changed = true;
                idx = cur.lines.iter().enumerate().filter(|(_, l)| l.starts_with("pre ")).map(|(i, _)| i).collect();
            } else {
                k += chunk;
            }
        }
        if chunk == 1 && !changed {
            return cur;
        }
        if !changed || chunk > 1 {
            chunk = (chunk / 2).max(1);
        }
    }
}

pub fn minimise_lib(refs: &LibRefs, c: &LibCase, class: &str, deadline: Instant) -> LibCase {
    let ctx = refs.ctx;
    let bad = |x: &LibCase| -> bool {
        if Instant::now() > deadline || x.threads.iter().all(|t| t.is_empty()) {
            return false;
        }
        let o = exec_lib(ctx, x, false);
        matches!(judge_lib(refs, x, &o), Some(v) if v.class == class)
    };
    let scheduled = c.mode == "par" || c.mode.ends_with(" par");
    // other calls mean another schedule: try several seeds
    let find = |x: &LibCase| -> Option<LibCase> {
        if bad(x) {
            return Some(x.clone());
        }
        if !scheduled {
            return None;
        }
        let got = Mutex::new(None);
        let stop = || got.lock().unwrap().is_some() || Instant::now() > deadline;
        par(workers(), 24, &stop, &|k| {
            let mut y = x.clone();
            y.plan.lines.retain(|l| !l.starts_with("seed "));
            y.plan.lines.insert(0, format!("seed {}", 1000 + k));
            if bad(&y) {
                let mut g = got.lock().unwrap();
                if g.as_ref().map(|(j, _)| k < *j).unwrap_or(true) {
                    *g = Some((k, y));
                }
            }
        });
        got.into_inner().unwrap().map(|x: (usize, LibCase)| x.1)
    };
    let mut cur = c.clone();
    if !cur.place.is_empty() {
        let mut x = cur.clone();
        x.place.clear();
        if let Some(y) = find(&x) {
            cur = y;
        }
    }
    loop {
        let mut changed = false;
        // whole threads (suspensions name threads, so keep the numbers there)
        let has_stall = cur.plan.lines.iter().any(|l| l.starts_with("stall "));
        let mut t = 0;
        while t < cur.threads.len() && cur.threads.len() > 1 {
            let mut x = cur.clone();
            if has_stall {
                if x.threads[t].is_empty() {
                    t += 1;
                    continue;
                }
                x.threads[t].clear();
            } else {
                x.threads.remove(t);
            }
            if let Some(y) = find(&x) {
                cur = y;
                changed = true;
                if has_stall {
                    t += 1;
                }
            } else {
                t += 1;
            }
        }
        for t in 0..cur.threads.len() {
            let mut chunk = (cur.threads[t].len() / 2).max(1);
            loop {
                let mut k = 0;
                while k < cur.threads[t].len() {
                    let mut x = cur.clone();
                    let end = (k + chunk).min(x.threads[t].len());
                    x.threads[t].drain(k..end);
                    if x.threads.iter().all(|t| t.is_empty()) {
                        k += chunk;
                        continue;
                    }
                    if let Some(y) = find(&x) {
                        cur = y;
                        changed = true;
                    } else {
                        k += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
        let mut k = 0;
        while k < cur.plan.lines.len() {
            let l = &cur.plan.lines[k];
            if ["sched ", "gran ", "seed ", "max_steps "].iter().any(|p| l.starts_with(p)) {
                k += 1;
                continue;
            }
            let mut x = cur.clone();
            x.plan.lines.remove(k);
            if bad(&x) {
                cur = x;
                changed = true;
            } else {
                k += 1;
            }
        }
        for k in (0..cur.setup.len()).rev() {
            let mut x = cur.clone();
            x.setup.remove(k);
            if bad(&x) {
                cur = x;
                changed = true;
            }
        }
        if !cur.env.is_empty() || cur.layout != 0 {
            let mut x = cur.clone();
            x.env.clear();
            x.layout = 0;
            if bad(&x) {
                cur = x;
                changed = true;
            }
        }
        if !changed || Instant::now() > deadline {
            break;
        }
    }
    if scheduled {
        let o = exec_lib(ctx, &cur, true);
        if let Some(p) = explicit_plan(&cur.plan, &o) {
            let mut x = cur.clone();
            x.plan = p;
            if bad(&x) {
                let thin = thin_plan(&x.plan, deadline, &|p| {
                    let mut y = x.clone();
                    y.plan = p.clone();
                    bad(&y)
                });
                x.plan = thin;
                cur = x;
            }
        }
    }
    cur
}
