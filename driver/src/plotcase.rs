//! C12: generated tests with plots (--generate-tests --generate-plots), compiled and run inside the simulator.
use crate::libcase::{explicit_plan, thin_plan};
use crate::mgen::{ambient, near_name, near_pattern, setup_root, Step, ENV_VALUES, USUAL_ENV, snapshot, Entry, Init, Snap, Viol};
use crate::sim::*;
use crate::util::*;
use crate::Ctx;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

pub const BINS: [&str; 4] = ["plot32", "plot64", "plot32hex", "plot64hex"];

#[derive(Clone, Default, PartialEq, Debug)]
pub struct PlotStep {
    pub bin: String,
    pub tests: Vec<String>,
    pub threads: u64,
    pub plan: Plan,
    pub env: Vec<(Vec<u8>, Vec<u8>)>,
    pub layout: u64,
}
#[derive(Clone, Default, PartialEq, Debug)]
pub struct PlotCase {
    pub setup: Vec<Init>,
    pub steps: Vec<PlotStep>,
}
pub struct PlotRun {
    pub before: Snap,
    pub after: Snap,
    pub out: Outcome,
}

pub fn not_built(ctx: &Ctx) -> Option<Viol> {
    let t = std::fs::read_to_string(ctx.art.join("plot/status")).unwrap_or_default();
    if t.trim() == "ok" {
        return None;
    }
    if let Some(r) = t.strip_prefix("violation ") {
        return Some(Viol { class: "does-not-compile".into(), detail: r.trim().to_string() });
    }
    harness_error(&format!("the generated tests were not built: {}", t))
}

pub fn exec_plot(ctx: &Ctx, c: &PlotCase, want_pre: bool) -> Vec<PlotRun> {
    let dir = fresh_dir();
    let root = dir.join("root");
    std::fs::create_dir_all(&root).expect("root");
    setup_root(&root, &c.setup);
    let mut before = snapshot(&root);
    let mut v = vec![];
    for s in &c.steps {
        let exe = ctx.art.join("plot").join(&s.bin);
        let mut args: Vec<Vec<u8>> = vec![b"--color".to_vec(), b"never".to_vec(), b"--test-threads".to_vec(), s.threads.to_string().into_bytes(), b"--exact".to_vec()];
        args.extend(s.tests.iter().map(|t| t.as_bytes().to_vec()));
        let sp = Spec {
            exe: &exe,
            shim: &ctx.shim,
            args,
            argv0: Some(b"plot".to_vec()),
            env: s.env.clone(),
            cwd: root.clone(),
            plan: s.plan.clone(),
            root: root.clone(),
            layout: s.layout,
            scratch: dir.clone(),
            timeout: Duration::from_secs(100),
            preload: false,
            fd3: false,
            want_pre,
        };
        let out = run(&sp);
        let after = snapshot(&root);
        v.push(PlotRun { before: before.clone(), after: after.clone(), out });
        before = after;
    }
    let _ = std::fs::remove_dir_all(&dir);
    v
}

/// verdicts the test program printed
pub fn verdicts(o: &Outcome) -> BTreeMap<String, bool> {
    let mut m = BTreeMap::new();
    for l in String::from_utf8_lossy(&o.out).lines() {
        if let Some((name, v)) = l.strip_prefix("test ").and_then(|r| r.split_once(" ... ")) {
            match v.trim() {
                "ok" => m.insert(name.to_string(), true),
                v if v.starts_with("FAILED") => m.insert(name.to_string(), false),
                _ => None,
            };
        }
    }
    m
}

#[derive(Clone, Default)]
pub struct PlotRef {
    pub pass: bool,
    pub csv: Option<Vec<u8>>,
    pub steps: u64,
    pub writes: u64,
    pub allocs: u64,
    pub problem: Option<String>,
    pub seen: Seen,
}
/// what a test asks for, besides its own CSV file
#[derive(Clone, Default)]
pub struct Seen {
    pub envs: Vec<Vec<u8>>,
    pub files: Vec<Vec<u8>>,
    pub near: Vec<Vec<u8>>,
}
impl Seen {
    fn of(test: &str, events: &str) -> Seen {
        let mut s = Seen::default();
        let own = csv_name(test);
        for l in events.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            if w.len() < 4 {
                continue;
            }
            let name = unpct(w[3]);
            if w[2] == "getenv" {
                let usual = [&b"RUST"[..], b"TERM", b"__RUST"].iter().any(|p| name.starts_with(p)) || USUAL_ENV.iter().any(|u| u.as_bytes() == name);
                if !usual {
                    s.envs.push(name);
                }
                continue;
            }
            if !matches!(w[2], "openw" | "rename" | "mkdir" | "link" | "symlink" | "openr" | "stat" | "statx" | "access" | "open") {
                continue;
            }
            let rel = match name.strip_prefix(b"$R/") {
                Some(r) => r.strip_prefix(b"./").unwrap_or(r).to_vec(),
                None => name.clone(),
            };
            if rel == own || rel.is_empty() || rel == b"." || rel.starts_with(b"$R") {
                continue;
            }
            if let Some(n) = near_pattern(&rel, &own, test.as_bytes()) {
                s.near.push(n);
            } else if ![&b"/dev/"[..], b"/proc/", b"/sys/", b"/usr/", b"/etc/", b"/lib"].iter().any(|p| rel.starts_with(p)) && !rel.windows(8).any(|w| w == b"terminfo") {
                s.files.push(rel);
            }
        }
        s
    }
    fn merge(&mut self, o: Seen) {
        self.envs.extend(o.envs);
        self.files.extend(o.files);
        self.near.extend(o.near);
        for v in [&mut self.envs, &mut self.files, &mut self.near] {
            v.sort();
            v.dedup();
            v.truncate(40);
        }
    }
}
pub struct PlotRefs<'a> {
    pub ctx: &'a Ctx,
    map: Mutex<HashMap<(String, String), Arc<OnceLock<PlotRef>>>>,
    source: HashMap<String, String>,
}
pub fn csv_name(t: &str) -> Vec<u8> {
    format!("{}.csv", t).into_bytes()
}
impl<'a> PlotRefs<'a> {
    pub fn new(ctx: &'a Ctx) -> Self {
        let source = BINS
            .iter()
            .map(|b| {
                let t = std::fs::read_to_string(ctx.art.join("plot").join(format!("{}.rs", b))).unwrap_or_default();
                (b.to_string(), t.split_whitespace().collect::<Vec<_>>().join(" "))
            })
            .collect();
        PlotRefs { ctx, map: Default::default(), source }
    }
    pub fn tests(&self, bin: &str) -> Vec<String> {
        let t = &self.source[bin];
        let mut v: Vec<String> = vec![];
        for p in t.split("#[test]").skip(1) {
            if let Some(r) = p.split_once("fn ") {
                v.push(r.1.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect());
            }
        }
        v.sort();
        v.dedup();
        v
    }
    /// the sample points, as far as the source shows them
    fn rows(&self, bin: &str, test: &str) -> Option<Vec<[String; 3]>> {
        let t = &self.source[bin];
        let b = t.split("#[test]").find(|p| p.split_once("fn ").map(|r| r.1.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>() == test).unwrap_or(false))?;
        let a = b.split_once("accurate_values")?.1.split_once('=')?.1;
        let a: String = a.split_once('[')?.1.split_once(']')?.0.chars().filter(|c| !c.is_whitespace()).collect();
        let mut v = vec![];
        for row in a.split('(').skip(1) {
            let f: Vec<String> = row.split(')').next()?.split(',').filter(|s| !s.is_empty()).map(|s| s.trim_end_matches("f32").trim_end_matches("f64").trim_end_matches('_').to_string()).collect();
            if f.len() != 3 {
                return None;
            }
            v.push([f[0].clone(), f[1].clone(), f[2].clone()]);
        }
        Some(v)
    }
    /// is the CSV of an undisturbed run what the sample points demand?
    fn examine(&self, bin: &str, test: &str, csv: &[u8]) -> Option<String> {
        let rows = self.rows(bin, test)?;
        let t = String::from_utf8_lossy(csv).into_owned();
        let l: Vec<&str> = t.lines().collect();
        if !t.ends_with('\n') || l.len() != rows.len() + 1 {
            return Some(format!("{}: {} lines for {} sample points", test, l.len(), rows.len()));
        }
        fn show_row<F: std::str::FromStr + std::fmt::Display + Copy>(r: &[String; 3], line: &str, err: fn(F, F, F) -> F) -> Option<(String, String)> {
            let p = |s: &str| s.parse::<F>().ok();
            let (x, y, e) = (p(&r[0])?, p(&r[1])?, p(&r[2])?);
            let w: Vec<&str> = line.split(", ").collect();
            if w.len() != 4 {
                return Some((line.to_string(), "four columns".into()));
            }
            let c = p(w[2])?;
            let want = format!("{}, {}, {}, {}", x, y, c, err(c, y, e));
            Some((line.to_string(), want))
        }
        for (r, line) in rows.iter().zip(&l[1..]) {
            let got = if bin.contains("32") { show_row::<f32>(r, line, |c, y, e| (c - y - e).abs()) } else { show_row::<f64>(r, line, |c, y, e| (c - y - e).abs()) };
            if let Some((a, b)) = got {
                if a != b {
                    return Some(format!("{}: the line is {:?} but the sample point demands {:?}", test, a, b));
                }
            }
        }
        None
    }
    pub fn get(&self, bin: &str, test: &str) -> PlotRef {
        let c = self.map.lock().unwrap().entry((bin.to_string(), test.to_string())).or_default().clone();
        c.get_or_init(|| {
            let s = PlotStep { bin: bin.into(), tests: vec![test.into()], threads: 1, plan: Plan::default(), ..Default::default() };
            let r = exec_plot(self.ctx, &PlotCase { setup: vec![], steps: vec![s] }, false).remove(0);
            if !r.out.started {
                harness_error(&format!("the simulator did not start: {} {}", r.out.status(), show(&r.out.err)));
            }
            let v = verdicts(&r.out);
            let pass = r.out.ok() && v.get(test) == Some(&true);
            let csv = match r.after.get(&csv_name(test)) {
                Some(Entry::File(b)) => Some(b.clone()),
                _ => None,
            };
            let mut problem = None;
            if pass {
                problem = match &csv {
                    None => Some(format!("{} passes without {}.csv; files: {:?}", test, test, r.after.keys().map(|k| show(k)).collect::<Vec<_>>())),
                    Some(b) => self.examine(bin, test, b),
                };
                if r.after.len() != 1 && problem.is_none() {
                    problem = Some(format!("{} leaves other files: {:?}", test, r.after.keys().map(|k| show(k)).collect::<Vec<_>>()));
                }
            }
            PlotRef { pass, csv, steps: r.out.steps, writes: r.out.ops.get(2).copied().unwrap_or(0), allocs: r.out.allocs, problem, seen: Seen::of(test, &r.out.events) }
        })
        .clone()
    }
}

pub fn judge_plot(refs: &PlotRefs, c: &PlotCase, runs: &[PlotRun]) -> Option<Viol> {
    for (s, r) in c.steps.iter().zip(runs) {
        if let Some(v) = judge_step(refs, s, r) {
            return Some(Viol { class: v.class, detail: format!("{}; {}", v.detail, describe_plot(c)) });
        }
    }
    None
}
fn judge_step(refs: &PlotRefs, s: &PlotStep, r: &PlotRun) -> Option<Viol> {
    let v = |class: &str, detail: String| Some(Viol { class: class.into(), detail });
    let o = &r.out;
    for t in &s.tests {
        if let Some(p) = refs.get(&s.bin, t).problem {
            return v("incomplete-csv", p);
        }
    }
    match o.verdict {
        3 => return v("deadlock", "every thread waits and nobody can continue".into()),
        4 => return v("no-progress", format!("no end after {} steps", o.steps)),
        _ => {}
    }
    if o.timed_out {
        return v("hang", "no end and no scheduling point within the time limit".into());
    }
    let soft = s.plan.faults().iter().all(|f| f.ends_with(" err:4") || f.contains(" short:")) && !s.plan.lines.iter().any(|l| l.starts_with("disk ") || l.starts_with("alloc_"));
    if o.code.is_none() && !o.killed_by_plan() && o.allocfail == 0 {
        return v("crash", format!("the tests ended with {}", o.status()));
    }
    let got = verdicts(o);
    for t in &s.tests {
        let rf = refs.get(&s.bin, t);
        if soft && rf.pass && got.get(t) != Some(&true) {
            return v("test-fails", format!("{} does not pass: {}", t, show(&o.out)));
        }
        if got.get(t) == Some(&true) {
            let name = csv_name(t);
            let have = match r.after.get(&name) {
                Some(Entry::File(b)) => Some(b.clone()),
                Some(Entry::Link(l)) => match r.after.get(l) {
                    Some(Entry::File(b)) => Some(b.clone()),
                    _ => None,
                },
                _ => None,
            };
            match (&rf.csv, have) {
                (Some(w), Some(h)) if *w == h => {}
                (_, None) => return v("csv-missing", format!("{} passed but {} is not there", t, show(&name))),
                (w, Some(h)) => {
                    let w = w.clone().unwrap_or_default();
                    let k = w.iter().zip(&h).take_while(|(a, b)| a == b).count();
                    return v("csv-differs", format!("{} passed but its file has {} bytes instead of {}, first difference at {}", t, h.len(), w.len(), k));
                }
            }
        }
    }
    // other files stay as they are
    for (k, e) in &r.before {
        let mine = s.tests.iter().any(|t| csv_name(t) == *k || r.before.get(&csv_name(t)) == Some(&Entry::Link(k.clone())));
        if !mine && r.after.get(k) != Some(e) {
            return v("other-file-changed", show(k));
        }
    }
    if soft {
        for k in r.after.keys() {
            if !r.before.contains_key(k) && !s.tests.iter().any(|t| csv_name(t) == *k) {
                return v("file-left", show(k));
            }
        }
    }
    None
}

pub fn describe_plot(c: &PlotCase) -> String {
    let st: Vec<String> = c.steps.iter().map(|s| format!("{} {} on {} threads{}, plan [{}]", s.bin, s.tests.join(" "), s.threads, s.env.iter().filter(|e| e.1.len() < 99).map(|(k, v)| format!(" {}={}", show(k), show(v))).collect::<String>(), s.plan.lines.iter().filter(|l| !l.starts_with("pre ")).cloned().collect::<Vec<_>>().join("; "))).collect();
    let f: Vec<String> = c
        .setup
        .iter()
        .map(|i| match i {
            Init::File(n, b) => format!("{} ({} bytes)", show(n), b.len()),
            Init::Dir(n) => format!("{}/", show(n)),
            Init::Link(n, t) => format!("{} -> {}", show(n), show(t)),
        })
        .collect();
    format!("before: [{}] runs: {}", f.join(", "), st.join(" then "))
}

pub struct PlotPool {
    /// (binary, test)
    pub pass: Vec<(String, String)>,
    pub fail: Vec<(String, String)>,
    pub seen: Seen,
}
pub fn build_plot_pool(refs: &PlotRefs) -> PlotPool {
    let all: Vec<(String, String)> = BINS.iter().flat_map(|b| refs.tests(b).into_iter().map(|t| (b.to_string(), t))).collect();
    let got = par(workers(), all.len(), &|| false, &|i| refs.get(&all[i].0, &all[i].1));
    let mut p = PlotPool { pass: vec![], fail: vec![], seen: Seen::default() };
    for (i, rf) in got {
        p.seen.merge(rf.seen);
        if rf.pass {
            p.pass.push(all[i].clone());
        } else {
            p.fail.push(all[i].clone());
        }
    }
    p
}

pub fn gen_plot(refs: &PlotRefs, pool: &PlotPool, seed: u64, idx: u64) -> PlotCase {
    let mut r = Rng::new(mix2(seed ^ 0xc12, idx));
    let r = &mut r;
    let mut c = PlotCase::default();
    let bin = *r.pick(&[BINS[0], BINS[0], BINS[0], BINS[0], BINS[0], BINS[0], BINS[1], BINS[1], BINS[2], BINS[3]]);
    let mut mine: Vec<String> = pool.pass.iter().filter(|x| x.0 == bin).map(|x| x.1.clone()).collect();
    // short ones more often
    mine.sort_by_key(|t| refs.get(bin, t).writes);
    if mine.is_empty() {
        mine = refs.tests(bin);
    }
    let fails: Vec<String> = pool.fail.iter().filter(|x| x.0 == bin).map(|x| x.1.clone()).collect();
    let nsteps = if r.chance(1, 4) { 2 } else { 1 };
    let mut named: Vec<String> = vec![];
    for k in 0..nsteps {
        let mut s = PlotStep { bin: bin.into(), ..Default::default() };
        let nt = *r.pick(&[1usize, 1, 2, 2, 3, 4]);
        if k > 0 && r.chance(2, 3) {
            s.tests = c.steps[0].tests.clone();
        } else {
            let span = if r.chance(4, 5) { (mine.len() * 3 / 4).max(1) } else { mine.len() };
            for _ in 0..nt {
                s.tests.push(mine[r.below(span as u64) as usize].clone());
            }
            if !fails.is_empty() && r.chance(1, 8) {
                s.tests.push(r.pick(&fails).clone());
            }
            s.tests.sort();
            s.tests.dedup();
        }
        named.extend(s.tests.iter().cloned());
        s.threads = *r.pick(&[1u64, 1, 2, 2, 3, 4]);
        if r.chance(1, 3) {
            // another machine, another environment
            let mut m = Step::default();
            ambient(r, &mut m, true);
            s.plan = m.plan;
            s.plan.lines.retain(|l| !l.starts_with("tty ") && !l.starts_with("sched "));
            s.env = m.env;
            s.layout = m.layout;
        } else {
            s.plan.add(format!("seed {}", r.next() >> 1));
        }
        for e in &pool.seen.envs {
            if r.chance(1, 2) && !s.env.iter().any(|(k, _)| k == e) {
                let v = if r.chance(1, 3) { b"/home/user".to_vec() } else { r.pick(&ENV_VALUES).to_vec() };
                s.env.push((e.clone(), v));
            }
        }
        let (mut steps, mut writes, mut allocs, mut bytes) = (0, 0, 0, 0);
        for t in &s.tests {
            let x = refs.get(bin, t);
            steps += x.steps;
            writes += x.writes;
            allocs += x.allocs;
            bytes += x.csv.as_ref().map(|c| c.len() as u64).unwrap_or(0);
        }
        let (writes, allocs, steps, bytes) = (writes.max(4), allocs.max(10), steps.max(10), bytes.max(10));
        let p = &mut s.plan;
        // which write is hit
        let at = |r: &mut Rng| match r.below(5) {
            0 => r.range(1, 12.min(writes)),
            1 => writes - r.below(12.min(writes)),
            _ => r.range(1, writes),
        };
        match r.below(16) {
            // nothing but the schedule
            0..=2 => {}
            3 | 4 => {
                let k = at(r);
                let w = if r.chance(1, 2) { format!("{}-{}", k, k + r.below(200)) } else { format!("{}", k) };
                p.add(format!("fault wfile {} short:{}", w, r.range(1, 12)));
            }
            5 => {
                let k = at(r);
                // an attempt has to get through in the end
                p.add(format!("fault wfile {} err:4", if r.chance(1, 2) { "1%2".to_string() } else { format!("{}-{}", k, k + r.below(9)) }));
                if r.chance(1, 3) {
                    p.add("fault openw 1 err:4");
                }
            }
            6 | 7 => {
                let k = at(r);
                let e = *r.pick(&[28, 5, 122, 27]);
                let w = match r.below(3) {
                    0 => format!("{}+", k),
                    1 => format!("{}-{}", k, k + r.below(30)),
                    _ => format!("{}", k),
                };
                p.add(format!("fault wfile {} err:{}", w, e));
                if r.chance(1, 4) {
                    let k = at(r);
                    p.add(format!("fault wfile {} short:{}", k, r.range(1, 5)));
                }
            }
            8..=10 => {
                let n = match r.below(4) {
                    0 => r.below(30),
                    1 => bytes - r.below(30.min(bytes)),
                    _ => r.below(bytes + 1),
                };
                p.add(format!("disk {}", n));
            }
            11 | 12 => {
                let e = *r.pick(&[13, 24, 30, 28, 5]);
                p.add(format!("fault openw {} err:{}", r.range(1, s.tests.len() as u64 + 1), e));
            }
            13 => {
                let k = at(r);
                p.add(format!("fault wfile {} {}", k, *r.pick(&["kill", "killafter", "killmid:1", "killmid:3"])));
            }
            14 => {
                let k = r.range(1, allocs);
                if r.chance(1, 2) {
                    p.add(format!("alloc_kill {}", k));
                } else {
                    p.add(format!("alloc_fail {} {}", k, r.pick(&[1u64, 2, 100_000_000])));
                }
            }
            _ => {
                let cls = *r.pick(&["close", "seek", "sync", "trunc", "rename", "unlink", "stat"]);
                p.add(format!("fault {} {} err:{}", cls, r.range(1, 4), *r.pick(&[5, 28])));
            }
        }
        // EINTR on close and the like says nothing about delivery, but a failing close is not reported by anybody
        if s.threads > 1 {
            let want = *r.pick(&[20u64, 100, 400, 1500]);
            let den = (steps / want).max(2);
            match r.below(5) {
                0 => p.add(format!("sched pct {} {}", r.range(1, 12), steps)),
                1 => p.add(format!("sched rr {}", den)),
                _ => p.add(format!("sched rand 1 {}", den)),
            };
            p.add(format!("gran {}", *r.pick(&[1u64 | 2 | 32, 1 | 2 | 4 | 32, 1 | 2 | 4 | 32])));
            p.add(format!("max_steps {}", steps * 60 + 20_000_000));
        } else {
            p.add("gran 2");
        }
        c.steps.push(s);
    }
    // what earlier runs left
    named.sort();
    named.dedup();
    for t in &named {
        if r.chance(1, 2) {
            continue;
        }
        let full = refs.get(bin, t).csv.unwrap_or_else(|| b"x, yref, ycalc, eref\n".to_vec());
        let other = refs.get(bin, r.pick(&mine)).csv.unwrap_or_default();
        let b = match r.below(7) {
            0 => vec![],
            1 => full.clone(),
            2 => [full.clone(), other.clone()].concat(),
            3 => full[..full.len() / 2].to_vec(),
            4 => other,
            5 => vec![b'#'; full.len()],
            _ => full.iter().map(|b| if b.is_ascii_digit() { b'7' } else { *b }).collect(),
        };
        if r.chance(1, 10) {
            let real = format!("real_{}", t).into_bytes();
            c.setup.push(Init::File(real.clone(), b));
            c.setup.push(Init::Link(csv_name(t), real));
        } else {
            c.setup.push(Init::File(csv_name(t), b));
        }
    }
    if r.chance(1, 3) {
        let t = r.pick(&mine).clone();
        if !named.contains(&t) {
            c.setup.push(Init::File(csv_name(&t), b"of another run\n".to_vec()));
        }
        c.setup.push(Init::File(b"plot.csv".to_vec(), b"notes\n".to_vec()));
    }
    // neighbours, and files this program is known to look at
    let all: [&[u8]; 16] = [
        b"\x01.tmp", b"\x02.tmp", b"\x01.bak", b"\x01~", b"\x01.lock", b"\x02.lock", b"\x02", b"\x02.txt", b".\x01.tmp", b"\x01.part", b"\x01.old", b"\x01.new", b"\x02.png",
        b"\x02.dat", b"plots", b"\x01.orig",
    ];
    let mut extra: Vec<Vec<u8>> = vec![];
    for t in &named {
        let own = csv_name(t);
        for _ in 0..r.below(3) {
            let pat = if !pool.seen.near.is_empty() && r.chance(1, 2) { r.pick(&pool.seen.near).clone() } else { r.pick(&all).to_vec() };
            extra.push(near_name(&pat, &own));
        }
    }
    for f in &pool.seen.files {
        if r.chance(1, 2) {
            extra.push(f.clone());
        }
    }
    for n in extra {
        if n.ends_with(b"/") || c.setup.iter().any(|i| matches!(i, Init::File(x, _) | Init::Link(x, _) | Init::Dir(x) if *x == n)) || named.iter().any(|t| csv_name(t) == n) {
            continue;
        }
        let b = if r.chance(1, 2) { b"1\n".to_vec() } else { (0..r.below(100)).map(|_| b'a' + r.below(26) as u8).collect() };
        c.setup.push(Init::File(n, b));
    }
    c
}

pub fn plot_text(c: &PlotCase) -> String {
    let mut s = String::new();
    for i in &c.setup {
        match i {
            Init::File(n, b) => s.push_str(&format!("file {} {}\n", pct(n), pct(b))),
            Init::Dir(n) => s.push_str(&format!("dir {}\n", pct(n))),
            Init::Link(n, t) => s.push_str(&format!("link {} {}\n", pct(n), pct(t))),
        }
    }
    for st in &c.steps {
        s.push_str(&format!("run {} {} {}\n", st.bin, st.threads, st.tests.join(" ")));
        if st.layout > 0 {
            s.push_str(&format!("layout {}\n", st.layout));
        }
        for (k, v) in &st.env {
            s.push_str(&format!("env {} {}\n", pct(k), pct(v)));
        }
        for l in &st.plan.lines {
            s.push_str(&format!("plan {}\n", l));
        }
    }
    s
}
pub fn plot_from(t: &str) -> PlotCase {
    let mut c = PlotCase::default();
    for l in t.lines() {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        let f: Vec<&str> = rest.split(' ').collect();
        match k {
            "file" => c.setup.push(Init::File(unpct(f[0]), unpct(f.get(1).unwrap_or(&"")))),
            "dir" => c.setup.push(Init::Dir(unpct(f[0]))),
            "link" => c.setup.push(Init::Link(unpct(f[0]), unpct(f[1]))),
            "run" if f.len() >= 2 => c.steps.push(PlotStep {
                bin: f[0].into(),
                threads: f[1].parse().unwrap_or(1),
                tests: f[2..].iter().map(|s| s.to_string()).collect(),
                ..Default::default()
            }),
            "layout" | "env" => {
                if let Some(s) = c.steps.last_mut() {
                    if k == "layout" {
                        s.layout = f[0].parse().unwrap_or(0);
                    } else {
                        s.env.push((unpct(f[0]), unpct(f.get(1).unwrap_or(&""))));
                    }
                }
            }
            "plan" => {
                if let Some(s) = c.steps.last_mut() {
                    s.plan.lines.push(rest.into());
                }
            }
            _ => {}
        }
    }
    c
}

pub fn minimise_plot(refs: &PlotRefs, c: &PlotCase, class: &str, deadline: Instant) -> PlotCase {
    let ctx = refs.ctx;
    let bad = |x: &PlotCase| -> bool {
        if Instant::now() > deadline || x.steps.is_empty() || x.steps.iter().any(|s| s.tests.is_empty()) {
            return false;
        }
        matches!(judge_plot(refs, x, &exec_plot(ctx, x, false)), Some(v) if v.class == class)
    };
    let mut cur = c.clone();
    loop {
        let mut changed = false;
        let mut k = 0;
        while k < cur.steps.len() {
            let mut x = cur.clone();
            x.steps.remove(k);
            if bad(&x) {
                cur = x;
                changed = true;
            } else {
                k += 1;
            }
        }
        let mut k = 0;
        while k < cur.setup.len() {
            let mut x = cur.clone();
            x.setup.remove(k);
            if bad(&x) {
                cur = x;
                changed = true;
            } else {
                k += 1;
            }
        }
        for i in 0..cur.steps.len() {
            let mut k = 0;
            while k < cur.steps[i].tests.len() {
                let mut x = cur.clone();
                x.steps[i].tests.remove(k);
                if bad(&x) {
                    cur = x;
                    changed = true;
                } else {
                    k += 1;
                }
            }
            let mut k = 0;
            while k < cur.steps[i].plan.lines.len() {
                let mut x = cur.clone();
                x.steps[i].plan.lines.remove(k);
                if bad(&x) {
                    cur = x;
                    changed = true;
                } else {
                    k += 1;
                }
            }
            let mut k = 0;
            while k < cur.steps[i].env.len() {
                let mut x = cur.clone();
                x.steps[i].env.remove(k);
                if bad(&x) {
                    cur = x;
                    changed = true;
                } else {
                    k += 1;
                }
            }
            if cur.steps[i].layout > 0 {
                let mut x = cur.clone();
                x.steps[i].layout = 0;
                if bad(&x) {
                    cur = x;
                    changed = true;
                }
            }
            if cur.steps[i].threads > 1 {
                let mut x = cur.clone();
                x.steps[i].threads = 1;
                if bad(&x) {
                    cur = x;
                    changed = true;
                }
            }
        }
        if !changed || Instant::now() > deadline {
            break;
        }
    }
    // the schedule as a list of switches
    for i in 0..cur.steps.len() {
        if cur.steps[i].threads < 2 {
            continue;
        }
        let o = exec_plot(ctx, &cur, true);
        if let Some(p) = o.get(i).and_then(|r| explicit_plan(&cur.steps[i].plan, &r.out)) {
            let mut x = cur.clone();
            x.steps[i].plan = p;
            if bad(&x) {
                let thin = thin_plan(&x.steps[i].plan, deadline, &|p| {
                    let mut y = x.clone();
                    y.steps[i].plan = p.clone();
                    bad(&y)
                });
                x.steps[i].plan = thin;
                cur = x;
            }
        }
    }
    cur
}
