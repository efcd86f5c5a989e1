//! Small helpers: PRNG, JSON, hashing, encoding, parallel map.
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    /// inclusive
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &c in b {
        h = (h ^ c as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}
pub fn mix2(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.rotate_left(32).wrapping_mul(0x9e37_79b9_7f4a_7c15));
    r.next();
    r.next()
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn pct(b: &[u8]) -> String {
    let mut o = String::new();
    for &c in b {
        if c <= b' ' || c == b'%' || c >= 0x7f {
            o.push_str(&format!("%{:02x}", c));
        } else {
            o.push(c as char);
        }
    }
    if o.is_empty() {
        o.push_str("%%");
    }
    o
}
pub fn unpct(s: &str) -> Vec<u8> {
    if s == "%%" {
        return vec![];
    }
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut t: String = s.chars().take(300).collect();
    if s.len() > t.len() {
        t.push_str("...");
    }
    t
}

/// Counters kept per check.
#[derive(Default, Clone)]
pub struct Counts(pub BTreeMap<String, u64>);
impl Counts {
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.0.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn merge(&mut self, o: &Counts) {
        for (k, v) in &o.0 {
            *self.0.entry(k.clone()).or_insert(0) += v;
        }
    }
    pub fn json(&self) -> String {
        let v: Vec<String> = self.0.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
        format!("{{{}}}", v.join(", "))
    }
}

/// Run f(0..n) on `workers` threads; stop early when `stop` says so.
pub fn par<R: Send>(workers: usize, n: usize, stop: &(dyn Fn() -> bool + Sync), f: &(dyn Fn(usize) -> R + Sync)) -> Vec<(usize, R)> {
    let next = AtomicUsize::new(0);
    let out = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                if stop() {
                    return;
                }
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    return;
                }
                let r = f(i);
                out.lock().unwrap().push((i, r));
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v
}

pub fn workers() -> usize {
    std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    })
}

pub fn replace_all(t: &[u8], from: &[u8], to: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(t.len());
    let mut i = 0;
    while i < t.len() {
        if !from.is_empty() && t[i..].starts_with(from) {
            v.extend_from_slice(to);
            i += from.len();
        } else {
            v.push(t[i]);
            i += 1;
        }
    }
    v
}
