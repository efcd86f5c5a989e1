//! C07: several libmgen processes at the same time, turn by turn.
//!
//! Every process stops at each of its system calls (and at every n-th allocation) and asks for a turn;
//! this coordinator lets exactly one run at a time and decides which one, who is killed and who stays suspended.
use crate::mgen::*;
use crate::sim::*;
use crate::util::*;
use crate::Ctx;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Order {
    /// switch with probability num/den after each turn
    Rand(u64, u64, u64),
    /// process, number of turns
    List(Vec<(usize, u64)>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Multi {
    pub setup: Vec<Init>,
    pub procs: Vec<Step>,
    pub order: Order,
    /// process, turn
    pub kill: Vec<(usize, u64)>,
    pub stall: Vec<(usize, u64)>,
    /// suspended at this turn until all others are done
    pub park: Vec<(usize, u64)>,
    /// processes of the second wave start when all of the first are done
    pub late: Vec<usize>,
}

pub struct MultiRun {
    pub before: Snap,
    pub after: Snap,
    pub outs: Vec<Outcome>,
    pub turns: Vec<u64>,
    pub order: Vec<(usize, u64)>,
    pub killed: Vec<bool>,
    pub stalled: Vec<bool>,
    pub no_progress: Option<String>,
    pub switches: u64,
}
impl MultiRun {
    pub fn fingerprint(&self) -> u64 {
        let mut b = vec![];
        for o in &self.outs {
            b.extend_from_slice(&o.fingerprint().to_le_bytes());
        }
        b.extend_from_slice(format!("{:?} {:?} {:?} {:?} {:?}", self.after, self.turns, self.order, self.killed, self.stalled).as_bytes());
        fnv(&b)
    }
}

extern "C" {
    fn poll(p: *mut [i32; 2], n: u64, ms: i32) -> i32;
}
fn readable(fd: i32, ms: i32) -> bool {
    let mut p = [fd, 1]; // events=POLLIN, revents=0 (little endian)
    unsafe { poll(&mut p, 1, ms) > 0 }
}

const LIMIT: u64 = 60_000;

pub fn exec_multi(ctx: &Ctx, m: &Multi) -> MultiRun {
    let dir = fresh_dir();
    let root = dir.join("root");
    std::fs::create_dir_all(&root).expect("root");
    setup_root(&root, &m.setup);
    let before = snapshot(&root);
    let n = m.procs.len();
    struct P {
        child: Option<Child>,
        req: std::io::PipeReader,
        grant: std::io::PipeWriter,
        pending: Option<u8>,
        out: Option<Outcome>,
        turns: u64,
        killed: bool,
        stalled: bool,
        parked: bool,
        waiting: u64,
        closed: bool,
    }
    let start = |i: usize| -> P {
        let d = dir.join(format!("p{}", i));
        std::fs::create_dir_all(&d).expect("dir");
        let s = &m.procs[i];
        let (rr, rw) = std::io::pipe().expect("pipe");
        let (gr, gw) = std::io::pipe().expect("pipe");
        let sp = spec(ctx, s, &root, &d);
        let child = spawn(&sp, Some((rw.as_raw_fd(), gr.as_raw_fd())));
        P {
            child: Some(child),
            req: rr,
            grant: gw,
            pending: None,
            out: None,
            turns: 0,
            killed: false,
            stalled: false,
            parked: false,
            waiting: 0,
            closed: false,
        }
    };
    let mut ps: Vec<Option<P>> = (0..n).map(|i| if m.late.contains(&i) { None } else { Some(start(i)) }).collect();
    let mut no_progress: Option<String> = None;
    // wait until process i asks for a turn or ends
    let settle = |p: &mut P| -> Result<(), ()> {
        if p.pending.is_some() || p.out.is_some() {
            return Ok(());
        }
        if !readable(p.req.as_raw_fd(), 60_000) {
            return Err(());
        }
        let mut b = [0u8; 1];
        match p.req.read(&mut b) {
            Ok(1) => p.pending = Some(b[0]),
            _ => {
                p.closed = true;
                let c = p.child.take().unwrap();
                p.out = Some(finish(c, Duration::from_secs(60)));
            }
        }
        Ok(())
    };
    let mut rng = Rng::new(if let Order::Rand(s, _, _) = m.order { s } else { 0 });
    let mut list: std::collections::VecDeque<(usize, u64)> = if let Order::List(l) = &m.order { l.iter().cloned().collect() } else { Default::default() };
    let mut order: Vec<(usize, u64)> = vec![];
    let mut switches = 0;
    let mut total = 0u64;
    let mut cur: Option<usize> = None;
    'run: loop {
        for i in 0..n {
            if let Some(p) = &mut ps[i] {
                if settle(p).is_err() {
                    no_progress = Some(format!("process {} neither ends nor makes a system call", i));
                    break 'run;
                }
            }
        }
        // apply suspensions
        for i in 0..n {
            if let Some(p) = &mut ps[i] {
                if p.out.is_none() && !p.stalled && m.stall.iter().any(|(q, t)| *q == i && p.turns >= *t) {
                    p.stalled = true;
                }
            }
        }
        let live = |ps: &Vec<Option<P>>, i: usize| ps[i].as_ref().map(|p| p.out.is_none() && !p.stalled).unwrap_or(false);
        let mut can: Vec<usize> = (0..n).filter(|i| live(&ps, *i)).collect();
        if can.is_empty() {
            let waiting: Vec<usize> = (0..n).filter(|i| ps[*i].is_none()).collect();
            if waiting.is_empty() {
                break;
            }
            for i in waiting {
                ps[i] = Some(start(i));
            }
            cur = None;
            continue;
        }
        let free: Vec<usize> = can
            .iter()
            .cloned()
            .filter(|i| {
                let p = ps[*i].as_ref().unwrap();
                !(m.park.iter().any(|(q, t)| q == i && p.turns == *t) && !p.parked)
            })
            .collect();
        if free.is_empty() {
            for i in &can {
                ps[*i].as_mut().unwrap().parked = true;
            }
        } else {
            can = free;
        }
        let i = match &m.order {
            Order::Rand(_, num, den) => match cur {
                Some(c) if can.contains(&c) && !rng.chance(*num, *den) => c,
                _ => *rng.pick(&can),
            },
            Order::List(_) => loop {
                match list.front_mut() {
                    None => break if cur.map(|c| can.contains(&c)).unwrap_or(false) { cur.unwrap() } else { can[0] },
                    Some((q, k)) => {
                        if *k == 0 || !can.contains(q) {
                            list.pop_front();
                            continue;
                        }
                        *k -= 1;
                        break *q;
                    }
                }
            },
        };
        // a waiting process gives way
        if cur.is_some() && cur != Some(i) {
            switches += 1;
        }
        cur = Some(i);
        match order.last_mut() {
            Some((q, k)) if *q == i => *k += 1,
            _ => order.push((i, 1)),
        }
        let p = ps[i].as_mut().unwrap();
        let kind = p.pending.take().unwrap_or(b'?');
        let kill = m.kill.iter().any(|(q, t)| *q == i && p.turns == *t);
        p.turns += 1;
        p.parked = false;
        total += 1;
        if kind == b'l' || kind == b'z' || kind == b'y' {
            p.waiting += 1;
            cur = if can.len() > 1 { None } else { cur };
        }
        if p.grant.write_all(if kill { b"k" } else { b"g" }).is_err() {
            // it died meanwhile; settle will see it
        }
        if kill {
            p.killed = true;
        }
        if settle(p).is_err() {
            no_progress = Some(format!("process {} neither ends nor makes a system call", i));
            break;
        }
        if total > LIMIT || p.waiting > LIMIT / 3 {
            no_progress = Some(format!("process {} waits for ever", i));
            break;
        }
    }
    let mut r = MultiRun {
        before,
        after: Snap::new(),
        outs: vec![],
        turns: vec![],
        order,
        killed: vec![],
        stalled: vec![],
        no_progress,
        switches,
    };
    for p in ps.into_iter() {
        match p {
            None => {
                r.outs.push(Outcome::default());
                r.turns.push(0);
                r.killed.push(false);
                r.stalled.push(false);
            }
            Some(mut p) => {
                r.turns.push(p.turns);
                r.killed.push(p.killed);
                r.stalled.push(p.stalled || p.out.is_none());
                if p.out.is_none() {
                    // suspended for ever: ended here, without having run any further
                    let mut c = p.child.take().unwrap();
                    let _ = c.child.kill();
                    let o = finish(c, Duration::from_secs(20));
                    r.outs.push(o);
                } else {
                    r.outs.push(p.out.take().unwrap());
                }
            }
        }
    }
    r.after = snapshot(&root);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

/// number of turns a request takes when it runs alone
pub struct Solo<'a> {
    ctx: &'a Ctx,
    map: Mutex<HashMap<(Args, bool, u64), Arc<OnceLock<u64>>>>,
}
impl<'a> Solo<'a> {
    pub fn new(ctx: &'a Ctx) -> Self {
        Solo { ctx, map: Default::default() }
    }
    pub fn turns(&self, args: &Args, to_file: bool, every: u64) -> u64 {
        let c = self.map.lock().unwrap().entry((args.clone(), to_file, every)).or_default().clone();
        *c.get_or_init(|| {
            let mut s = Step { args: args.clone(), dest: to_file.then(|| b"out.rs".to_vec()), ..Default::default() };
            s.plan.add(format!("turn_alloc {}", every));
            let m = Multi { setup: vec![], procs: vec![s], order: Order::List(vec![]), kill: vec![], stall: vec![], park: vec![], late: vec![] };
            exec_multi(self.ctx, &m).turns[0]
        })
    }
}

pub fn judge_multi(refs: &Refs, m: &Multi, r: &MultiRun) -> Option<Viol> {
    let v = |class: &str, detail: String| Some(Viol { class: class.into(), detail });
    let d: Vec<String> = m.procs.iter().map(describe).collect();
    let all = format!(
        "processes: {}; kills {:?} suspended {:?} parked {:?}; turns {:?}",
        d.join(" & "),
        m.kill,
        m.stall,
        m.park,
        r.order
    );
    if let Some(w) = &r.no_progress {
        return v("no-progress", format!("{}; {}", w, all));
    }
    let n = m.procs.len();
    let dest: Vec<Option<Vec<u8>>> = m.procs.iter().map(|s| s.dest.as_ref().map(|d| resolve(&r.before, d))).collect();
    let disturbed = |i: usize| r.killed[i] || r.stalled[i] || m.procs[i].plan.has_faults();
    let mut errs = String::new();
    for (i, o) in r.outs.iter().enumerate() {
        errs.push_str(&format!(" [{}] {} {}", i, o.status(), show(&o.err)));
    }
    for i in 0..n {
        if disturbed(i) {
            continue;
        }
        let s = &m.procs[i];
        let o = &r.outs[i];
        let rf = refs.get(&s.args, s.dest.is_some());
        if o.verdict == 4 || o.verdict == 3 || o.timed_out {
            return v("no-progress", format!("process {} never finishes; {};{}", i, all, errs));
        }
        if o.code != rf.code {
            return v("status-disturbed", format!("process {}: {} instead of exit {:?}; {};{}", i, o.status(), rf.code, all, errs));
        }
        if s.dest.is_none() {
            if o.out != rf.text {
                return v("stdout-disturbed", format!("process {}: stdout is not what it is alone; {};{}", i, all, errs));
            }
            continue;
        }
        if !rf.ok || !rf.has_dest {
            continue;
        }
        // others that write to the same file
        let same: Vec<usize> = (0..n).filter(|j| *j != i && dest[*j].is_some() && dest[*j] == dest[i]).collect();
        let comparable = same.iter().all(|j| !disturbed(*j) && refs.get(&m.procs[*j].args, true).text == rf.text);
        // a later wave overwrites
        if !comparable {
            continue;
        }
        match r.after.get(dest[i].as_ref().unwrap()) {
            Some(Entry::File(b)) if *b == rf.text => {}
            Some(Entry::File(b)) => {
                return v(
                    if same.is_empty() { "file-disturbed" } else { "same-text-damaged" },
                    format!("process {}: its destination is not its text: lengths {} and {}; {};{}", i, b.len(), rf.text.len(), all, errs),
                )
            }
            _ => return v("file-missing", format!("process {}: its destination is missing; {};{}", i, all, errs)),
        }
    }
    // other files
    for (k, e) in &r.before {
        if dest.iter().any(|d| d.as_ref() == Some(k)) {
            continue;
        }
        if r.after.get(k) != Some(e) {
            return v("other-file-changed", format!("{} was changed or removed; {}", show(k), all));
        }
    }
    if (0..n).all(|i| !disturbed(i)) {
        for k in r.after.keys() {
            if !r.before.contains_key(k) && !dest.iter().any(|d| d.as_ref() == Some(k)) {
                return v("extra-file", format!("{} was left behind; {}", show(k), all));
            }
        }
    }
    None
}

pub fn gen_multi(refs: &Refs, solo: &Solo, pool: &Pool, seed: u64, idx: u64) -> Multi {
    let mut r = Rng::new(mix2(seed ^ 0xc07, idx));
    let r = &mut r;
    let n = match r.below(10) {
        0..=5 => 2,
        6..=8 => 3,
        _ => 4,
    };
    let mut m = Multi { setup: vec![], procs: vec![], order: Order::List(vec![]), kill: vec![], stall: vec![], park: vec![], late: vec![] };
    // what they share
    let same_text = r.chance(1, 3);
    let same_dest = same_text && r.chance(3, 4);
    let twins = r.below(4); // 0: same pid, clock and random numbers; 1: same pid; else different
    let req = if r.chance(1, 4) { pool.pick_big(r, 4096) } else { pool.pick(r) };
    let every = *r.pick(&[0u64, 0, 0, 1000, 5000, 20_000]);
    let pid = r.range(2, 4_000_000);
    let seed0 = r.next() >> 1;
    let home = r.chance(1, 2);
    // one machine has one clock (processes in different time namespaces do not)
    let clock: Option<(String, String)> = r.chance(2, 3).then(|| {
        let mut s = Step::default();
        ambient(r, &mut s, true);
        let line = |k: &str| s.plan.lines.iter().find(|l| l.starts_with(k)).cloned().unwrap_or_default();
        (line("clock_start "), format!("clock_step {}", *r.pick(&[0u64, 1, 1, 1000, 1_000_000])))
    });
    let mut d0: Option<(Option<Vec<u8>>, bool, Vec<u8>)> = None;
    let names: [&[u8]; 9] = [b"out.rs", b"out.c", b"out", b"sub/out.rs", b"other.rs", b"OUT.rs", b"a b.rs", b"out.rs.rs", b"x"];
    for i in 0..n {
        let mut s = Step::default();
        s.args = if same_text || r.chance(1, 4) { req.clone() } else { pool.pick(r) };
        let strong = r.chance(1, 6);
        if home {
            at_home(pool, &mut s);
        }
        ambient(r, &mut s, strong);
        s.plan.lines.retain(|l| !l.starts_with("pid ") && !l.starts_with("hostile_env"));
        s.plan.add(format!("pid {}", if twins < 2 { pid } else { r.range(2, 4_000_000) }));
        if let Some((a, b)) = &clock {
            s.plan.lines.retain(|l| !l.starts_with("clock_"));
            s.plan.add(a);
            s.plan.add(b);
        }
        if twins == 0 {
            s.plan.lines.retain(|l| !l.starts_with("seed ") && !l.starts_with("clock_"));
            s.plan.add(format!("seed {}", seed0));
        }
        if r.chance(5, 6) || same_dest {
            if same_dest && d0.is_some() {
                let d = d0.clone().unwrap();
                s.abs = r.chance(1, 2) || d.0.as_ref().map(|x| x.starts_with(b"-")).unwrap_or(false);
                s.dest = d.0;
            } else if r.chance(1, 6) && i == 0 {
                let d = gen_dest(r, &mut s, &mut m.setup);
                // whether a link stays a link is not this property's business
                s.dest = Some(d.clone());
                m.setup.retain(|x| !matches!(x, Init::Link(..)));
                d0 = Some((s.dest.clone(), s.abs, d));
            } else {
                // another name for everyone
                let mut k = r.below(names.len() as u64) as usize;
                while m.procs.iter().any(|q: &Step| q.dest.as_deref() == Some(names[k])) || d0.as_ref().map(|d| d.2 == names[k]).unwrap_or(false) {
                    k = (k + 1) % names.len();
                }
                if names[k].starts_with(b"sub/") && !m.setup.contains(&Init::Dir(b"sub".to_vec())) {
                    m.setup.push(Init::Dir(b"sub".to_vec()));
                }
                s.dest = Some(names[k].to_vec());
                s.abs = r.chance(1, 4);
                if d0.is_none() {
                    d0 = Some((s.dest.clone(), s.abs, names[k].to_vec()));
                }
            }
            if r.chance(1, 4) {
                let dn = s.dest.clone().unwrap();
                if !m.setup.iter().any(|x| matches!(x, Init::File(q, _) | Init::Link(q, _) if *q == dn)) {
                    let pr = prior(r, refs, pool, &s.args);
                    m.setup.push(Init::File(dn, pr));
                }
            }
        }
        let len = refs.get(&s.args, s.dest.is_some()).text.len() as u64;
        let to_file = s.dest.is_some();
        if r.chance(1, 3) {
            add_short(r, &mut s.plan, if to_file { "wfile" } else { "wout" }, len);
            // many tiny pieces only make runs long
            let last = s.plan.lines.pop().unwrap();
            let w: Vec<&str> = last.split(' ').collect();
            let small = w[3].strip_prefix("short:").and_then(|x| x.parse::<u64>().ok()).map(|x| x < len / 40).unwrap_or(false);
            s.plan.add(if small { format!("fault {} 1-3 {}", w[1], w[3]) } else { last.clone() });
        }
        if r.chance(1, 8) {
            let allocs = refs.get(&s.args, to_file).allocs;
            if r.chance(1, 2) {
                add_hard(r, &mut s.plan, len, to_file, allocs);
            } else {
                add_kill(r, &mut s.plan, len, to_file, allocs);
            }
        }
        if every > 0 {
            // (no more than some thousand allocation turns a process)
            let e = every.max(refs.get(&s.args, to_file).allocs / 3000);
            s.plan.add(format!("turn_alloc {}", e));
        }
        m.procs.push(s);
    }
    pids_alive(r, &m.procs, &mut m.setup);
    let nturns: Vec<u64> =
        m.procs.iter().map(|s| solo.turns(&s.args, s.dest.is_some(), s.plan.get_u64("turn_alloc").unwrap_or(0))).collect();
    let point = |r: &mut Rng, i: usize| -> u64 {
        let t = nturns[i] + 1;
        if r.chance(2, 3) {
            t.saturating_sub(r.below(5))
        } else {
            r.below(t + 3)
        }
    };
    let (num, den) = *r.pick(&[(1u64, 1u64), (1, 2), (1, 2), (1, 4), (1, 10)]);
    m.order = Order::Rand(r.next() >> 1, num, den);
    for i in 0..n {
        match r.below(16) {
            0 | 1 => {
                let t = point(r, i);
                m.kill.push((i, t));
            }
            2 | 3 => {
                let t = point(r, i);
                m.stall.push((i, t));
            }
            4..=7 => {
                let t = point(r, i);
                m.park.push((i, t));
            }
            _ => {}
        }
    }
    // somebody should remain undisturbed
    if (0..n).all(|i| m.kill.iter().chain(&m.stall).any(|x| x.0 == i)) {
        m.kill.retain(|x| x.0 != 0);
        m.stall.retain(|x| x.0 != 0);
    }
    if n > 2 && r.chance(1, 5) {
        let d = dest_of(&m, n - 1);
        if !(0..n - 1).any(|i| dest_of(&m, i) == d) {
            m.late.push(n - 1);
        }
    }
    m
}
fn dest_of(m: &Multi, i: usize) -> Option<Vec<u8>> {
    m.procs[i].dest.clone()
}

pub fn multi_text(m: &Multi) -> String {
    let c = Case { prop: "C07".into(), setup: m.setup.clone(), steps: m.procs.clone() };
    let mut s = to_text(&c);
    let l = |v: &Vec<(usize, u64)>| v.iter().map(|(a, b)| format!("{}:{}", a, b)).collect::<Vec<_>>().join(" ");
    s.push_str("schedule\n");
    match &m.order {
        Order::Rand(a, b, c) => s.push_str(&format!("order-rand {} {} {}\n", a, b, c)),
        Order::List(v) => s.push_str(&format!("order-list {}\n", l(v))),
    }
    s.push_str(&format!("kill {}\nstall {}\npark {}\n", l(&m.kill), l(&m.stall), l(&m.park)));
    s.push_str(&format!("late {}\n", m.late.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    s
}
pub fn multi_from(t: &str) -> Multi {
    let c = from_text("C07", t.split("\nschedule\n").next().unwrap_or(t));
    let mut m = Multi { setup: c.setup, procs: c.steps, order: Order::List(vec![]), kill: vec![], stall: vec![], park: vec![], late: vec![] };
    let pairs = |s: &str| -> Vec<(usize, u64)> {
        s.split(' ').filter_map(|x| x.split_once(':')).filter_map(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))).collect()
    };
    for l in t.split("\nschedule\n").nth(1).unwrap_or("").lines() {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "order-rand" => {
                let f: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
                m.order = Order::Rand(f[0], f[1], f[2]);
            }
            "order-list" => m.order = Order::List(pairs(rest)),
            "kill" => m.kill = pairs(rest),
            "stall" => m.stall = pairs(rest),
            "park" => m.park = pairs(rest),
            "late" => m.late = rest.split(' ').filter_map(|x| x.parse().ok()).collect(),
            _ => {}
        }
    }
    m
}

fn drop_proc(m: &Multi, k: usize) -> Multi {
    let mut x = m.clone();
    x.procs.remove(k);
    let f = |v: &mut Vec<(usize, u64)>| {
        v.retain(|p| p.0 != k);
        for p in v.iter_mut() {
            if p.0 > k {
                p.0 -= 1;
            }
        }
    };
    f(&mut x.kill);
    f(&mut x.stall);
    f(&mut x.park);
    x.late.retain(|p| *p != k);
    for p in x.late.iter_mut() {
        if *p > k {
            *p -= 1;
        }
    }
    if let Order::List(l) = &mut x.order {
        f(l);
    }
    x
}

pub fn minimise_multi(refs: &Refs, m: &Multi, class: &str, deadline: Instant) -> Multi {
    let run = |x: &Multi| -> Option<MultiRun> {
        if Instant::now() > deadline {
            return None;
        }
        let r = exec_multi(refs.ctx, x);
        match judge_multi(refs, x, &r) {
            Some(v) if v.class == class => Some(r),
            _ => None,
        }
    };
    let mut cur = m.clone();
    // an explicit schedule first
    if let Some(r) = run(&cur) {
        let mut x = cur.clone();
        x.order = Order::List(r.order.clone());
        if run(&x).is_some() {
            cur = x;
        }
    }
    loop {
        let mut changed = false;
        let attempt = |x: Multi, cur: &mut Multi| -> bool {
            if x != *cur && run(&x).is_some() {
                *cur = x;
                true
            } else {
                false
            }
        };
        let mut k = 0;
        while k < cur.procs.len() && cur.procs.len() > 1 {
            if attempt(drop_proc(&cur, k), &mut cur) {
                changed = true;
            } else {
                k += 1;
            }
        }
        macro_rules! drop_each {
            ($f:ident) => {
                let mut k = 0;
                while k < cur.$f.len() {
                    let mut x = cur.clone();
                    x.$f.remove(k);
                    if attempt(x, &mut cur) {
                        changed = true;
                    } else {
                        k += 1;
                    }
                }
            };
        }
        drop_each!(kill);
        drop_each!(stall);
        drop_each!(park);
        drop_each!(late);
        drop_each!(setup);
        for i in 0..cur.procs.len() {
            let mut k = 0;
            while k < cur.procs[i].plan.lines.len() {
                let mut x = cur.clone();
                x.procs[i].plan.lines.remove(k);
                if attempt(x, &mut cur) {
                    changed = true;
                } else {
                    k += 1;
                }
            }
            let mut x = cur.clone();
            x.procs[i].env.clear();
            x.procs[i].argv0 = None;
            x.procs[i].layout = 0;
            changed |= attempt(x, &mut cur);
            let simple = a(&["-f", "sin", "--num-bits", "32"]);
            if cur.procs[i].args.len() > simple.len() {
                let mut x = cur.clone();
                x.procs[i].args = simple;
                changed |= attempt(x, &mut cur);
            }
        }
        if let Order::List(_) = &cur.order {
            loop {
                let l = if let Order::List(l) = &cur.order { l.clone() } else { vec![] };
                let mut done = true;
                for k in (0..l.len()).rev() {
                    let mut l2 = l.clone();
                    l2.remove(k);
                    // join equal neighbours
                    let mut l3: Vec<(usize, u64)> = vec![];
                    for (q, c) in l2 {
                        match l3.last_mut() {
                            Some((q2, c2)) if *q2 == q => *c2 += c,
                            _ => l3.push((q, c)),
                        }
                    }
                    let mut x = cur.clone();
                    x.order = Order::List(l3);
                    if attempt(x, &mut cur) {
                        changed = true;
                        done = false;
                        break;
                    }
                }
                if done || Instant::now() > deadline {
                    break;
                }
            }
        }
        if !changed || Instant::now() > deadline {
            return cur;
        }
    }
}
