//! simdrive: seeded search over simulated executions of libmgen and doctor_syn.
#![allow(dead_code)]

mod gencase;
mod libcase;
mod mgen;
mod multi;
mod plotcase;
mod sim;
mod util;

use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use util::*;

pub struct Ctx {
    pub verif: PathBuf,
    pub shim: PathBuf,
    pub libmgen: PathBuf,
    pub art: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub start: Instant,
    pub deadline: Instant,
}
impl Ctx {
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        let n = if self.thorough { thorough } else { quick };
        match std::env::var("SIM_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(f) => ((n as f64) * f) as usize,
            None => n,
        }
    }
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: u64,
    pub rule: String,
    pub samples: Vec<String>,
    pub faults: Counts,
    pub probes: Counts,
    pub simtime_ns: u64,
    pub measure: String,
    pub real: Vec<String>,
    pub stub: Vec<String>,
    pub assumptions: Vec<String>,
    pub divergences: u64,
    pub rechecked: u64,
    pub stopped_early: bool,
    pub violation: Option<(mgen::Viol, String)>,
    pub known: Vec<String>,
}

pub struct Known {
    prop: String,
    class: String,
    needle: String,
    text: String,
}
pub fn known_findings(ctx: &Ctx) -> Vec<Known> {
    // finding: property=<id> class=<class> match=<percent-encoded text> <what fails>
    let t = std::fs::read_to_string(ctx.verif.join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let w: Vec<&str> = r.splitn(4, ' ').collect();
            if w.len() == 4 {
                let val = |s: &str, k: &str| s.strip_prefix(k).unwrap_or("").to_string();
                v.push(Known {
                    prop: val(w[0], "property="),
                    class: val(w[1], "class="),
                    needle: String::from_utf8_lossy(&unpct(&val(w[2], "match="))).into_owned(),
                    text: w[3].to_string(),
                });
            }
        }
    }
    v
}
impl Known {
    pub fn matches(&self, prop: &str, v: &mgen::Viol) -> bool {
        self.prop == prop && self.class == v.class && v.detail.contains(&self.needle)
    }
}

fn write_evidence(ctx: &Ctx, prop: &str, r: &Report) {
    let wall = ctx.start.elapsed().as_secs_f64();
    let per_hour = if wall > 0.0 { (r.evaluations as f64 / wall * 3600.0) as u64 } else { 0 };
    let list = |v: &Vec<String>| format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"simulated_runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"simulated_time_ns\": {},\n  \"faults_fired\": {},\n  \"probes\": {},\n  \"interleaving_or_state_measure\": {},\n  \"ran_real_code\": {},\n  \"ran_stub\": {},\n  \"runs_repeated_to_check_determinism\": {},\n  \"divergences\": {},\n  \"stopped_early_by_time_limit\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jstr(prop),
        if ctx.thorough { "\"thorough\"" } else { "\"quick\"" },
        ctx.seed,
        r.evaluations,
        r.distinct,
        jstr(&r.rule),
        list(&r.samples),
        per_hour,
        per_hour,
        r.simtime_ns,
        r.faults.json(),
        r.probes.json(),
        jstr(&r.measure),
        list(&r.real),
        list(&r.stub),
        r.rechecked,
        r.divergences,
        r.stopped_early,
        list(&r.assumptions),
        wall,
        r.violation.is_some() as u32,
    );
    let d = ctx.verif.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    if std::fs::write(d.join(format!("{}.json", prop)), s).is_err() {
        sim::harness_error("cannot write evidence");
    }
}

fn check(ctx: &Ctx, prop: &str) -> i32 {
    let rep = match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" => check_mgen(ctx, prop),
        "C07" => check_multi(ctx),
        "C12" => check_plot(ctx),
        "C08" | "C09" | "C10" | "C11" | "C13" | "C14" => check_lib(ctx, prop),
        _ => sim::harness_error("unknown property"),
    };
    write_evidence(ctx, prop, &rep);
    for k in &rep.known {
        println!("KNOWN-FINDING: property={} {}", prop, k);
    }
    println!(
        "{}: {} runs, {} distinct, faults fired: {}, probes: {}, {:.1} s{}",
        prop,
        rep.evaluations,
        rep.distinct,
        rep.faults.json(),
        rep.probes.json(),
        ctx.start.elapsed().as_secs_f64(),
        if rep.stopped_early { " (stopped early)" } else { "" }
    );
    if let Some((v, text)) = &rep.violation {
        let d = ctx.verif.join("replays");
        let _ = std::fs::create_dir_all(&d);
        let f = d.join(format!("{}-{:016x}.txt", prop, fnv(text.as_bytes())));
        let body = format!("simreplay 1\nproperty {}\nseed {}\nclass {}\n{}", prop, ctx.seed, v.class, text);
        if std::fs::write(&f, body).is_err() {
            sim::harness_error("cannot write replay");
        }
        println!("{}: {}: {}", prop, v.class, v.detail);
        println!("VIOLATION property={} replay={}", prop, f.display());
        return 1;
    }
    0
}

fn check_mgen(ctx: &Ctx, prop: &str) -> Report {
    use mgen::*;
    let refs = Refs::new(ctx);
    let mut rep = Report::default();
    let npool = ctx.scale(if prop == "C04" { 260 } else { 160 }, 600);
    let limit = if ctx.thorough { Duration::from_millis(1500) } else { Duration::from_millis(350) };
    let pool = build_pool(&refs, ctx.seed, npool, limit);
    rep.real = vec!["libmgen binary built from /repo (option parsing, generation, delivery)".into(), "Rust standard library".into(), "kernel file system in a scratch directory".into()];
    rep.stub = vec!["libsim.so: system-call results, faults, kill points, allocator, clocks, randomness, identity, environment".into()];
    rep.rule = "one case = setup of a directory + a history of libmgen runs, each under its own plan, all derived from (VERIF_SEED, index); non-trivial: some fault, kill or ambient change took effect; distinct: by hash of arguments, event log and exit status".into();
    rep.measure = "distinct hashes of (arguments, complete event log of operations with results, exit status)".into();
    rep.assumptions = vec![
        "a write the operating system accepted is not lost afterwards".into(),
        "the fault-free run of the same build defines the complete text; its brackets are checked to balance".into(),
        "processes are killed at system calls and allocations, which are the only points with an outside effect".into(),
    ];
    if prop == "C01" {
        if let Some((args, what)) = sanity(&refs, &pool) {
            let c = Case { prop: prop.into(), setup: vec![], steps: vec![Step { args, ..Default::default() }] };
            rep.violation = Some((Viol { class: "reference-incomplete".into(), detail: what }, to_text(&c)));
            rep.evaluations = 1;
            return rep;
        }
    }
    let n = match prop {
        "C01" => ctx.scale(9000, 200_000),
        "C02" => ctx.scale(9000, 200_000),
        "C03" => ctx.scale(2500, 60_000),
        "C04" => ctx.scale(6000, 120_000),
        "C05" => ctx.scale(6000, 120_000),
        _ => ctx.scale(6000, 120_000),
    };
    let found = std::sync::atomic::AtomicBool::new(false);
    let stop = || found.load(std::sync::atomic::Ordering::SeqCst) || Instant::now() > ctx.deadline;
    struct R {
        runs: u64,
        hashes: Vec<u64>,
        counts: Counts,
        probes: Counts,
        simtime: u64,
        viol: Option<Viol>,
        diverged: u64,
        rechecked: u64,
        sample: Option<String>,
    }
    let known = known_findings(ctx);
    let knownhits = std::sync::Mutex::new(std::collections::BTreeSet::new());
    let res = par(workers(), n, &stop, &|i| {
        let c = generate(prop, &refs, &pool, ctx.seed, i as u64);
        let runs = exec(ctx, &c);
        let mut counts = Counts::default();
        count(&c, &runs, &mut counts);
        let mut probes = Counts::default();
        let mut hashes = vec![];
        for (s, r) in c.steps.iter().zip(&runs) {
            let o = &r.out;
            if !o.started && !o.timed_out {
                sim::harness_error(&format!("the simulator did not start: {} {}", o.status(), show(&o.err)));
            }
            let fired = o.fired.iter().any(|x| *x > 0) || o.allocfail > 0 || o.verdict == 2 || o.diskfull + o.pipefull > 0;
            if fired || prop == "C04" || !s.env.is_empty() {
                let mut b = s.args.join(&0u8);
                b.extend_from_slice(&o.evhash.to_le_bytes());
                b.extend_from_slice(o.status().as_bytes());
                if prop == "C04" {
                    b.extend_from_slice(s.plan.text().as_bytes());
                }
                hashes.push(fnv(&b));
            }
            probes.add("runs that delivered to a file", (o.ok() && s.dest.is_some()) as u64);
            probes.add("runs that delivered to stdout", (o.ok() && s.dest.is_none()) as u64);
            probes.add("runs that failed cleanly", (o.code.unwrap_or(0) != 0) as u64);
            probes.add("runs killed", o.killed_by_plan() as u64);
            probes.add("runs aborted", (o.signal.is_some() && !o.killed_by_plan()) as u64);
            probes.add("runs whose destination existed before", s.dest.as_ref().map(|d| file_at_pub(&r.before, d)).unwrap_or(false) as u64);
            probes.add("killed with a damaged destination", (o.killed_by_plan() && o.first_damage > 0) as u64);
            probes.add("clock readings", o.clockreads);
            probes.add("random readings", o.randreads);
            probes.add("environment readings", o.getenvs);
        }
        let simtime = runs.iter().map(|r| r.out.simtime).sum();
        let mut viol = judge(&refs, &c, &runs);
        if let Some(v) = &viol {
            if let Some(k) = known.iter().find(|k| k.matches(prop, v)) {
                knownhits.lock().unwrap().insert(k.text.clone());
                viol = None;
            }
        }
        if viol.is_some() {
            found.store(true, std::sync::atomic::Ordering::SeqCst);
        }
        let (mut diverged, mut rechecked) = (0, 0);
        if i % 40 == 7 {
            let again = exec(ctx, &c);
            for (x, y) in runs.iter().zip(&again) {
                rechecked += 1;
                if x.out.fingerprint() != y.out.fingerprint() || x.after != y.after {
                    diverged += 1;
                }
            }
        }
        let sample = if i % (n / 6 + 1) == 3 {
            Some(c.steps.iter().zip(&runs).map(|(s, r)| format!("{} -> {}", describe(s), r.out.status())).collect::<Vec<_>>().join(" | "))
        } else {
            None
        };
        R { runs: runs.len() as u64, hashes, counts, probes, simtime, viol, diverged, rechecked, sample }
    });
    let mut set = std::collections::HashSet::new();
    let mut first: Option<(usize, Viol)> = None;
    rep.stopped_early = res.len() < n;
    for (i, r) in res {
        rep.evaluations += r.runs;
        set.extend(r.hashes);
        rep.faults.merge(&r.counts);
        rep.probes.merge(&r.probes);
        rep.simtime_ns += r.simtime;
        rep.divergences += r.diverged;
        rep.rechecked += r.rechecked;
        if let Some(s) = r.sample {
            rep.samples.push(s);
        }
        if first.is_none() {
            if let Some(v) = r.viol {
                first = Some((i, v));
            }
        }
    }
    if rep.samples.is_empty() {
        let c = generate(prop, &refs, &pool, ctx.seed, 0);
        rep.samples.push(c.steps.iter().map(describe).collect::<Vec<_>>().join(" | "));
    }
    rep.distinct = set.len() as u64;
    rep.known = knownhits.into_inner().unwrap().into_iter().collect();
    if let Some((i, v)) = first {
        let c = generate(prop, &refs, &pool, ctx.seed, i as u64);
        let m = minimise(&refs, &c, &v.class, Instant::now() + Duration::from_secs(60));
        let runs = exec(ctx, &m);
        let v2 = judge(&refs, &m, &runs).unwrap_or(v);
        rep.violation = Some((v2, to_text(&m)));
    }
    rep
}

fn mgen_parts(rep: &mut Report) {
    rep.real = vec!["libmgen binary built from /repo (option parsing, generation, delivery)".into(), "Rust standard library".into(), "kernel file system in a scratch directory".into()];
    rep.stub = vec!["libsim.so: system-call results, faults, kill points, allocator, clocks, randomness, identity, environment".into()];
}

fn check_multi(ctx: &Ctx) -> Report {
    use mgen::*;
    use multi::*;
    let refs = Refs::new(ctx);
    let solo = Solo::new(ctx);
    let mut rep = Report::default();
    mgen_parts(&mut rep);
    rep.stub.push("coordinator: decides which process makes its next system call".into());
    rep.rule = "one case = 2 to 4 processes in one directory, each under its own plan, and a seeded turn order with kills, suspensions and parking; non-trivial: at least one switch between processes; distinct: by hash of arguments, executed turn order and event logs".into();
    rep.measure = "distinct hashes of (arguments, executed order of turns, event logs, exit statuses)".into();
    rep.assumptions = vec![
        "processes interact only through the file system; interleaving at system calls is complete for that".into(),
        "several texts for one destination at once are outside the property".into(),
    ];
    let limit = if ctx.thorough { Duration::from_millis(800) } else { Duration::from_millis(150) };
    let pool = build_pool(&refs, ctx.seed, ctx.scale(120, 500), limit);
    let n = ctx.scale(4000, 100_000);
    let found = std::sync::atomic::AtomicBool::new(false);
    let stop = || found.load(std::sync::atomic::Ordering::SeqCst) || Instant::now() > ctx.deadline;
    let known = known_findings(ctx);
    let knownhits = std::sync::Mutex::new(std::collections::BTreeSet::new());
    struct R {
        runs: u64,
        hash: Option<u64>,
        counts: Counts,
        probes: Counts,
        simtime: u64,
        viol: Option<Viol>,
        diverged: u64,
        rechecked: u64,
        sample: Option<String>,
    }
    let res = par(workers(), n, &stop, &|i| {
        let m = gen_multi(&refs, &solo, &pool, ctx.seed, i as u64);
        let r = exec_multi(ctx, &m);
        let mut counts = Counts::default();
        let mut probes = Counts::default();
        for (s, o) in m.procs.iter().zip(&r.outs) {
            // a process that was to start after the others may never get there
            if !o.started && r.no_progress.is_none() {
                sim::harness_error("the simulator did not start");
            }
            count_run(&s.plan, o, &mut counts);
        }
        counts.add("process killed between system calls", r.killed.iter().filter(|x| **x).count() as u64);
        counts.add("process suspended for ever", r.stalled.iter().filter(|x| **x).count() as u64);
        counts.add("process parked until the others were done", m.park.len() as u64);
        probes.add("switches between processes", r.switches);
        probes.add("turns", r.turns.iter().sum());
        probes.add("cases with a shared destination", (0..m.procs.len()).any(|i| (0..i).any(|j| m.procs[i].dest.is_some() && m.procs[i].dest == m.procs[j].dest)) as u64);
        probes.add("cases where all processes were undisturbed", r.killed.iter().chain(&r.stalled).all(|x| !x) as u64);
        let mut viol = judge_multi(&refs, &m, &r);
        if let Some(v) = &viol {
            if let Some(k) = known.iter().find(|k| k.matches("C07", v)) {
                knownhits.lock().unwrap().insert(k.text.clone());
                viol = None;
            }
        }
        if viol.is_some() {
            found.store(true, std::sync::atomic::Ordering::SeqCst);
        }
        let (mut diverged, mut rechecked) = (0, 0);
        if i % 40 == 7 {
            rechecked = 1;
            diverged = (exec_multi(ctx, &m).fingerprint() != r.fingerprint()) as u64;
        }
        let mut b = format!("{:?}", r.order).into_bytes();
        for (s, o) in m.procs.iter().zip(&r.outs) {
            b.extend_from_slice(&s.args.concat());
            b.extend_from_slice(&o.evhash.to_le_bytes());
            b.extend_from_slice(o.status().as_bytes());
        }
        let sample = (i % (n / 6 + 1) == 3).then(|| format!("{} | turns {:?} kills {:?} suspended {:?}", m.procs.iter().map(describe).collect::<Vec<_>>().join(" & "), r.order, m.kill, m.stall));
        R {
            runs: 1,
            hash: (r.switches > 0).then(|| fnv(&b)),
            counts,
            probes,
            simtime: r.outs.iter().map(|o| o.simtime).sum(),
            viol,
            diverged,
            rechecked,
            sample,
        }
    });
    let mut set = std::collections::HashSet::new();
    let mut first = None;
    rep.stopped_early = res.len() < n;
    for (i, r) in res {
        rep.evaluations += r.runs;
        set.extend(r.hash);
        rep.faults.merge(&r.counts);
        rep.probes.merge(&r.probes);
        rep.simtime_ns += r.simtime;
        rep.divergences += r.diverged;
        rep.rechecked += r.rechecked;
        rep.samples.extend(r.sample);
        if first.is_none() {
            first = r.viol.map(|v| (i, v));
        }
    }
    if rep.samples.is_empty() {
        rep.samples.push("none".into());
    }
    rep.distinct = set.len() as u64;
    rep.known = knownhits.into_inner().unwrap().into_iter().collect();
    if let Some((i, v)) = first {
        let m = gen_multi(&refs, &solo, &pool, ctx.seed, i as u64);
        let x = minimise_multi(&refs, &m, &v.class, Instant::now() + Duration::from_secs(90));
        let r = exec_multi(ctx, &x);
        rep.violation = Some((judge_multi(&refs, &x, &r).unwrap_or(v), multi_text(&x)));
    }
    rep
}

fn check_lib(ctx: &Ctx, prop: &str) -> Report {
    use libcase::*;
    let refs = LibRefs::new(ctx, prop);
    let mut rep = Report::default();
    rep.real = vec![
        "doctor_syn built from /repo, with coverage callbacks as scheduling points".into(),
        "syn, quote, proc-macro2, bigdecimal, num-bigint".into(),
        "Rust standard library with its own mutexes, thread-locals and unwinding on simulated futexes".into(),
    ];
    if prop == "C11" {
        rep.real = vec![
            "libmgen built from /repo, which generated the functions (32 and 64 bits, decimal and hexadecimal)".into(),
            "the generated functions, compiled with coverage callbacks as scheduling points".into(),
            "Rust standard library".into(),
        ];
    }
    rep.stub = vec!["libsim.so: thread scheduler, futexes, allocator, clocks, randomness, environment, system-call results".into()];
    rep.rule = match prop {
        "C08" => "one case = 2 to 4 threads with 1 to 5 calls each and a seeded schedule; non-trivial: at least one switch between threads while calls were in progress; distinct: by hash of the calls and of the schedule taken",
        "C09" => "one case = a history of up to 400 calls (some repeated up to thousands of times) in one process; non-trivial: at least two calls; distinct: by hash of the calls and the machine",
        "C10" => "one case = up to 16 marked calls on a random machine with failing streams and files; distinct: by hash of the calls and the plan",
        "C11" => "one case = scripts of calls of generated functions: 2 to 4 threads under a seeded schedule (some with a thread suspended for ever), or a history of up to 400 calls on a random machine, or marked calls on a hostile machine, or a script repeated up to 150 times; distinct: by hash of calls, mode, plan and schedule",
        "C13" => "one case = a script run 6 to 150 times in one process; distinct: by hash of calls, mode and schedule",
        _ => "one case = 2 to 4 threads of calls and one or two threads suspended for ever at a seeded point inside a call; non-trivial: a thread was really suspended; distinct: by hash of the calls and the schedule taken",
    }
    .into();
    rep.measure = "distinct hashes of (script, schedule hash, suspension points); schedule hash covers every switch with its step, thread and code location".into();
    rep.assumptions = vec![
        "scheduling points are basic blocks and (on part of the runs) loads and stores of doctor_syn code, all accesses to its writable statics, allocations, futex operations and system calls of everything; memory is sequentially consistent".into(),
        "the result of a call is its returned text, error text or panic message".into(),
    ];
    let limit = Duration::from_millis(if ctx.thorough { 900 } else { 300 });
    let pool = if prop == "C11" {
        if let Some(v) = gencase::not_built(ctx) {
            rep.evaluations = 1;
            rep.samples.push(v.detail.clone());
            rep.violation = Some((v, "compile\n".into()));
            return rep;
        }
        gencase::build_gen_pool(&refs, ctx.seed, ctx.scale(14, 60))
    } else {
        build_lib_pool(&refs, ctx.seed, ctx.scale(if matches!(prop, "C08" | "C14") { 160 } else { 400 }, 1200), limit)
    };
    println!("{}: {} calls in {} families, {} sets of calls that share state", prop, pool.ops.len(), pool.fams.len(), pool.focus.len());
    let generate = |i: u64| if i == 0 && !pool.stuck.is_empty() && matches!(prop, "C08" | "C11" | "C14") {
        // a call that waits for ever although it is alone
        LibCase { prop: prop.into(), mode: "seq".into(), threads: vec![vec![pool.stuck[0].clone()]], ..Default::default() }
    } else if prop == "C11" { gencase::gen_gen(ctx, &pool, ctx.seed, i) } else { gen_lib(ctx, &refs, &pool, prop, ctx.seed, i) };
    if pool.ops.len() < 100 {
        sim::harness_error("too few usable calls");
    }
    let n = match prop {
        "C08" => ctx.scale(22_000, 1_000_000),
        "C09" => ctx.scale(4000, 120_000),
        "C10" => ctx.scale(14_000, 500_000),
        "C11" => ctx.scale(24_000, 1_000_000),
        "C13" => ctx.scale(2400, 80_000),
        _ => ctx.scale(16_000, 800_000),
    };
    let found = std::sync::atomic::AtomicBool::new(false);
    let stop = || found.load(std::sync::atomic::Ordering::SeqCst) || Instant::now() > ctx.deadline;
    let known = known_findings(ctx);
    let knownhits = std::sync::Mutex::new(std::collections::BTreeSet::new());
    struct R {
        hash: Option<u64>,
        counts: Counts,
        probes: Counts,
        simtime: u64,
        viol: Option<mgen::Viol>,
        diverged: u64,
        rechecked: u64,
        sample: Option<String>,
    }
    let res = par(workers(), n, &stop, &|i| {
        let c = generate(i as u64);
        let o = exec_lib(ctx, &c, false);
        let mut counts = Counts::default();
        mgen::count_run(&c.plan, &o, &mut counts);
        counts.add("thread suspended for ever", o.stalled);
        let calls: usize = c.threads.iter().map(|t| t.len()).sum();
        let mut probes = Counts::default();
        probes.add("calls", calls as u64);
        probes.add("thread switches", o.switches);
        probes.add("scheduling points", o.steps);
        probes.add("accesses to writable statics", o.statics);
        probes.add("times a thread waited", o.blocks);
        probes.add("calls that panicked", c.threads.iter().flatten().filter(|x| refs.get(x).res.map(|r| r.panicked()).unwrap_or(false)).count() as u64);
        probes.add("clock readings", o.clockreads);
        probes.add("random readings", o.randreads);
        probes.add("environment readings", o.getenvs);
        probes.add("rounds", parse_fd3(&o).live.len() as u64);
        if matches!(prop, "C10" | "C09") || (prop == "C11" && c.mode == "seq") {
            counts.add("machine drawn from the seed", 1);
        }
        match c.place.split(' ').next().unwrap_or("") {
            "" => {}
            "thread" => counts.add("calls on a named thread", 1),
            "unwind" => counts.add("calls while a panic unwinds", 1),
            "exit" => counts.add("calls while a thread's data are destroyed", 1),
            _ => counts.add("calls far down the stack", 1),
        }
        if o.switches > 0 {
            counts.add(&format!("schedule: {}", c.plan.get("sched").unwrap_or("").split(' ').next().unwrap_or("")), 1);
        }
        let mut viol = judge_lib(&refs, &c, &o);
        if let Some(v) = &viol {
            if let Some(k) = known.iter().find(|k| k.matches(prop, v)) {
                knownhits.lock().unwrap().insert(k.text.clone());
                viol = None;
            }
        }
        if viol.is_some() {
            found.store(true, std::sync::atomic::Ordering::SeqCst);
        }
        let nontrivial = match prop {
            "C08" => o.switches > c.threads.len() as u64 + 2,
            "C14" => o.stalled > 0,
            "C09" => calls > 1,
            _ => true,
        };
        let mut b = format!("{:?} {} {} {:?}", c.threads, c.mode, o.schedhash, c.plan.lines.iter().filter(|l| l.starts_with("stall")).collect::<Vec<_>>());
        if matches!(prop, "C09" | "C10" | "C11") {
            b.push_str(&c.plan.text());
        }
        let (mut diverged, mut rechecked) = (0, 0);
        if i % 40 == 7 {
            rechecked = 1;
            let x = exec_lib(ctx, &c, false);
            diverged = (x.fingerprint() != o.fingerprint()) as u64;
        }
        let sample = (i % (n / 6 + 1) == 3).then(|| format!("{} -> {} after {} steps, {} switches", describe_lib(&c), o.status(), o.steps, o.switches));
        R { hash: nontrivial.then(|| fnv(b.as_bytes())), counts, probes, simtime: o.simtime, viol, diverged, rechecked, sample }
    });
    let mut set = std::collections::HashSet::new();
    let mut first = None;
    rep.stopped_early = res.len() < n;
    for (i, r) in res {
        rep.evaluations += 1;
        set.extend(r.hash);
        rep.faults.merge(&r.counts);
        rep.probes.merge(&r.probes);
        rep.simtime_ns += r.simtime;
        rep.divergences += r.diverged;
        rep.rechecked += r.rechecked;
        rep.samples.extend(r.sample);
        if first.is_none() {
            first = r.viol.map(|v| (i, v));
        }
    }
    if rep.samples.is_empty() {
        rep.samples.push(describe_lib(&generate(0)));
    }
    rep.distinct = set.len() as u64;
    rep.known = knownhits.into_inner().unwrap().into_iter().collect();
    if let Some((i, v)) = first {
        let c = generate(i as u64);
        let m = minimise_lib(&refs, &c, &v.class, Instant::now() + Duration::from_secs(90));
        let o = exec_lib(ctx, &m, false);
        rep.violation = Some((judge_lib(&refs, &m, &o).unwrap_or(v), lib_text(&m)));
    }
    rep
}

fn check_plot(ctx: &Ctx) -> Report {
    use plotcase::*;
    let mut rep = Report::default();
    rep.real = vec![
        "libmgen built from /repo, which generated the test files (32 and 64 bits, every function with sampled tests)".into(),
        "the generated tests and plot_function, compiled with coverage callbacks as scheduling points".into(),
        "the standard test harness (libtest) and library, kernel file system in a scratch directory".into(),
    ];
    rep.stub = vec!["libsim.so: thread scheduler, futexes, clocks, allocator, faults of system calls, full disk, kill points".into()];
    rep.rule = "one case = one or two runs of some generated tests on one to four threads in a directory with earlier files, each under its own plan; non-trivial: a fault fired, a thread switch happened or an old CSV existed; distinct: by hash of the tests, the earlier files, the event log and the verdicts".into();
    rep.measure = "distinct hashes of (tests, earlier files, complete event log with results, schedule, verdicts)".into();
    rep.assumptions = vec![
        "a write the operating system accepted is not lost afterwards; errors reported by close are not seen by Rust programs".into(),
        "the undisturbed run of one test alone defines its complete CSV; sample points, reference values and error column are recomputed from the generated source".into(),
    ];
    if let Some(v) = not_built(ctx) {
        rep.evaluations = 1;
        rep.samples.push(v.detail.clone());
        rep.violation = Some((v, "compile\n".into()));
        return rep;
    }
    let refs = PlotRefs::new(ctx);
    let pool = build_plot_pool(&refs);
    if pool.pass.is_empty() {
        sim::harness_error("no generated test passes");
    }
    let n = ctx.scale(7000, 200_000);
    let found = std::sync::atomic::AtomicBool::new(false);
    let stop = || found.load(std::sync::atomic::Ordering::SeqCst) || Instant::now() > ctx.deadline;
    let known = known_findings(ctx);
    let knownhits = std::sync::Mutex::new(std::collections::BTreeSet::new());
    struct R {
        runs: u64,
        hash: Option<u64>,
        counts: Counts,
        probes: Counts,
        simtime: u64,
        viol: Option<mgen::Viol>,
        diverged: u64,
        rechecked: u64,
        sample: Option<String>,
    }
    let res = par(workers(), n, &stop, &|i| {
        let c = gen_plot(&refs, &pool, ctx.seed, i as u64);
        let runs = exec_plot(ctx, &c, false);
        let mut counts = Counts::default();
        let mut probes = Counts::default();
        let mut b = format!("{:?}", c.setup).into_bytes();
        let mut nontrivial = !c.setup.is_empty();
        for (s, r) in c.steps.iter().zip(&runs) {
            if !r.out.started {
                sim::harness_error("the simulator did not start");
            }
            mgen::count_run(&s.plan, &r.out, &mut counts);
            let v = verdicts(&r.out);
            probes.add("tests that passed", v.values().filter(|x| **x).count() as u64);
            probes.add("tests that failed", v.values().filter(|x| !**x).count() as u64);
            probes.add("thread switches", r.out.switches);
            probes.add("writes to files", r.out.ops[2]);
            probes.add("earlier files", r.before.len() as u64);
            probes.add("runs killed", r.out.killed_by_plan() as u64);
            if r.out.switches > 0 {
                counts.add(&format!("schedule: {}", s.plan.get("sched").unwrap_or("").split(' ').next().unwrap_or("")), 1);
            }
            nontrivial |= r.out.switches > 0 || r.out.fired.iter().any(|x| *x > 0) || r.out.diskfull > 0 || r.out.killed_by_plan();
            b.extend_from_slice(s.tests.join(" ").as_bytes());
            b.extend_from_slice(&r.out.evhash.to_le_bytes());
            b.extend_from_slice(&r.out.schedhash.to_le_bytes());
            b.extend_from_slice(format!("{:?}", v).as_bytes());
        }
        let mut viol = judge_plot(&refs, &c, &runs);
        if let Some(v) = &viol {
            if let Some(k) = known.iter().find(|k| k.matches("C12", v)) {
                knownhits.lock().unwrap().insert(k.text.clone());
                viol = None;
            }
        }
        if viol.is_some() {
            found.store(true, std::sync::atomic::Ordering::SeqCst);
        }
        let (mut diverged, mut rechecked) = (0, 0);
        if i % 40 == 7 {
            rechecked = 1;
            let x = exec_plot(ctx, &c, false);
            diverged = x.iter().zip(&runs).any(|(a, b)| a.out.fingerprint() != b.out.fingerprint() || a.after != b.after) as u64;
        }
        let sample = (i % (n / 6 + 1) == 3).then(|| format!("{} -> {}", describe_plot(&c), runs.iter().map(|r| format!("{} {:?}", r.out.status(), verdicts(&r.out))).collect::<Vec<_>>().join(" then ")));
        R { runs: runs.len() as u64, hash: nontrivial.then(|| fnv(&b)), counts, probes, simtime: runs.iter().map(|r| r.out.simtime).sum(), viol, diverged, rechecked, sample }
    });
    let mut set = std::collections::HashSet::new();
    let mut first = None;
    rep.stopped_early = res.len() < n;
    for (i, r) in res {
        rep.evaluations += r.runs;
        set.extend(r.hash);
        rep.faults.merge(&r.counts);
        rep.probes.merge(&r.probes);
        rep.simtime_ns += r.simtime;
        rep.divergences += r.diverged;
        rep.rechecked += r.rechecked;
        rep.samples.extend(r.sample);
        if first.is_none() {
            first = r.viol.map(|v| (i, v));
        }
    }
    if rep.samples.is_empty() {
        rep.samples.push(describe_plot(&gen_plot(&refs, &pool, ctx.seed, 0)));
    }
    rep.distinct = set.len() as u64;
    rep.known = knownhits.into_inner().unwrap().into_iter().collect();
    if let Some((i, v)) = first {
        let c = gen_plot(&refs, &pool, ctx.seed, i as u64);
        let m = minimise_plot(&refs, &c, &v.class, Instant::now() + Duration::from_secs(90));
        let runs = exec_plot(ctx, &m, false);
        rep.violation = Some((judge_plot(&refs, &m, &runs).unwrap_or(v), plot_text(&m)));
    }
    rep
}

fn replay(ctx: &Ctx, file: &Path) -> i32 {
    let t = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => sim::harness_error(&format!("{}: {}", file.display(), e)),
    };
    let head = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' '))).unwrap_or("").to_string();
    let prop = head("property");
    let v = match prop.as_str() {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" => {
            let refs = mgen::Refs::new(ctx);
            let c = mgen::from_text(&prop, &t);
            if head("class") == "reference-incomplete" {
                let pool = mgen::build_pool_single(&refs, &c.steps[0].args);
                mgen::sanity(&refs, &pool).map(|(_, w)| mgen::Viol { class: "reference-incomplete".into(), detail: w })
            } else {
                let runs = mgen::exec(ctx, &c);
                for r in &runs {
                    print!("{}", r.out.events);
                    println!("-> {}", r.out.status());
                }
                mgen::judge(&refs, &c, &runs)
            }
        }
        "C12" if head("class") == "does-not-compile" => plotcase::not_built(ctx),
        "C12" => {
            if let Some(v) = plotcase::not_built(ctx) {
                sim::harness_error(&v.detail);
            }
            let refs = plotcase::PlotRefs::new(ctx);
            let c = plotcase::plot_from(&t);
            let runs = plotcase::exec_plot(ctx, &c, false);
            for r in &runs {
                let ev: Vec<&str> = r.out.events.lines().collect();
                if ev.len() > 400 {
                    println!("{}\n... {} events ...\n{}", ev[..200].join("\n"), ev.len() - 400, ev[ev.len() - 200..].join("\n"));
                } else {
                    println!("{}", ev.join("\n"));
                }
                println!("{}-> {}", String::from_utf8_lossy(&r.out.out), r.out.status());
            }
            plotcase::judge_plot(&refs, &c, &runs)
        }
        "C07" => {
            let refs = mgen::Refs::new(ctx);
            let m = multi::multi_from(&t);
            let r = multi::exec_multi(ctx, &m);
            for (i, o) in r.outs.iter().enumerate() {
                print!("process {}\n{}", i, o.events);
                println!("-> {}", o.status());
            }
            multi::judge_multi(&refs, &m, &r)
        }
        "C11" if head("class") == "does-not-compile" => gencase::not_built(ctx),
        "C08" | "C09" | "C10" | "C11" | "C13" | "C14" => {
            let refs = libcase::LibRefs::new(ctx, &prop);
            let c = libcase::lib_from(&prop, &t);
            let o = libcase::exec_lib(ctx, &c, false);
            print!("{}{}", o.events, String::from_utf8_lossy(&o.fd3));
            println!("-> {} after {} steps, {} switches", o.status(), o.steps, o.switches);
            libcase::judge_lib(&refs, &c, &o)
        }
        _ => sim::harness_error("unknown property in replay file"),
    };
    match v {
        Some(v) => {
            println!("{}: {}: {}", prop, v.class, v.detail);
            println!("VIOLATION property={} replay={}", prop, file.display());
            1
        }
        None => {
            println!("{}: the replay does not violate the property", prop);
            0
        }
    }
}

/// run many cases twice, at two worker counts, and compare everything that was recorded
fn selftest(ctx: &Ctx) -> i32 {
    use mgen::*;
    let refs = Refs::new(ctx);
    let pool = build_pool(&refs, ctx.seed, 60, Duration::from_millis(200));
    let n = ctx.scale(400, 4000);
    let mut bad = 0;
    for prop in ["C01", "C02", "C03", "C04", "C05", "C06"] {
        let f = |i: usize| -> Vec<u64> {
            let c = generate(prop, &refs, &pool, ctx.seed, i as u64);
            exec(ctx, &c).iter().map(|r| r.out.fingerprint()).collect()
        };
        let x = par(workers(), n, &|| false, &f);
        let y = par(3, n, &|| false, &f);
        let d = x.iter().zip(&y).filter(|(a, b)| a != b).count();
        println!("selftest {}: {} cases twice, {} differ", prop, n, d);
        for (a, b) in x.iter().zip(&y) {
            if a != b {
                println!("  case {}", a.0);
            }
        }
        bad += d;
    }
    {
        let solo = multi::Solo::new(ctx);
        let f = |i: usize| -> u64 { multi::exec_multi(ctx, &multi::gen_multi(&refs, &solo, &pool, ctx.seed, i as u64)).fingerprint() };
        let x = par(workers(), n, &|| false, &f);
        let y = par(3, n, &|| false, &f);
        let d = x.iter().zip(&y).filter(|(a, b)| a != b).count();
        println!("selftest C07: {} cases twice, {} differ", n, d);
        bad += d;
    }
    {
        use libcase::*;
        let lrefs = LibRefs::new(ctx, "C08");
        let lpool = build_lib_pool(&lrefs, ctx.seed, 130, Duration::from_millis(120));
        for prop in ["C08", "C09", "C10", "C13", "C14"] {
            let f = |i: usize| -> u64 { exec_lib(ctx, &gen_lib(ctx, &lrefs, &lpool, prop, ctx.seed, i as u64), false).fingerprint() };
            let x = par(workers(), n, &|| false, &f);
            let y = par(3, n, &|| false, &f);
            let d = x.iter().zip(&y).filter(|(a, b)| a != b).count();
            println!("selftest {}: {} cases twice, {} differ", prop, n, d);
            bad += d;
        }
        let grefs = LibRefs::new(ctx, "C11");
        let gpool = gencase::build_gen_pool(&grefs, ctx.seed, 14);
        let f = |i: usize| -> u64 { exec_lib(ctx, &gencase::gen_gen(ctx, &gpool, ctx.seed, i as u64), false).fingerprint() };
        let x = par(workers(), n, &|| false, &f);
        let y = par(3, n, &|| false, &f);
        let d = x.iter().zip(&y).filter(|(a, b)| a != b).count();
        println!("selftest C11: {} cases twice, {} differ", n, d);
        bad += d;
    }
    {
        use plotcase::*;
        let prefs = PlotRefs::new(ctx);
        let ppool = build_plot_pool(&prefs);
        let f = |i: usize| -> Vec<u64> { exec_plot(ctx, &gen_plot(&prefs, &ppool, ctx.seed, i as u64), false).iter().map(|r| r.out.fingerprint()).collect() };
        let x = par(workers(), n, &|| false, &f);
        let y = par(3, n, &|| false, &f);
        let d = x.iter().zip(&y).filter(|(a, b)| a != b).count();
        println!("selftest C12: {} cases twice, {} differ", n, d);
        bad += d;
    }
    (bad > 0) as i32
}

fn diffcase(ctx: &Ctx, prop: &str, i: u64) {
    use mgen::*;
    let refs = Refs::new(ctx);
    let pool = build_pool(&refs, ctx.seed, 60, Duration::from_millis(200));
    let c = generate(prop, &refs, &pool, ctx.seed, i);
    println!("{}", to_text(&c));
    let x = exec(ctx, &c);
    for _ in 0..20 {
        let y = exec(ctx, &c);
        for (a, b) in x.iter().zip(&y) {
            let (a, b) = (&a.out, &b.out);
            if a.fingerprint() != b.fingerprint() {
                println!("status {} {}", a.status(), b.status());
                println!("allocs {} {} live {} {} simtime {} {} steps {} {} sw {} {} ev {} {} sched {} {}", a.allocs, b.allocs, a.live, b.live, a.simtime, b.simtime, a.steps, b.steps, a.switches, b.switches, a.evhash, b.evhash, a.schedhash, b.schedhash);
                println!("{:?} {:?}\n{:?} {:?}", a.ops, b.ops, &a.fired[..8], &b.fired[..8]);
                println!("out {} err {}", a.out == b.out, a.err == b.err);
                println!("--- events a\n{}--- events b\n{}", a.events, b.events);
                return;
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let verif = PathBuf::from(get("--verif").unwrap_or_else(|| "/verif".into()));
    let thorough = args.iter().any(|a| a == "--thorough") || std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let art = PathBuf::from(get("--art").unwrap_or_else(|| verif.join("target").display().to_string()));
    let start = Instant::now();
    let limit = std::env::var("SIM_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 4 * 3600 } else { 300 });
    let ctx = Ctx {
        shim: art.join("sim/libsim.so"),
        libmgen: art.join("repo/debug/libmgen"),
        art,
        verif,
        seed,
        thorough,
        start,
        deadline: start + Duration::from_secs(limit),
    };
    println!("VERIF_SEED={} tier={}", ctx.seed, if thorough { "thorough" } else { "quick" });
    let cmd = args.get(1).cloned().unwrap_or_default();
    let rc = match cmd.as_str() {
        "check" => {
            if let Some(f) = get("--replay") {
                replay(&ctx, Path::new(&f))
            } else {
                check(&ctx, &args[2])
            }
        }
        "diffmulti" => {
            use mgen::*;
            let refs = Refs::new(&ctx);
            let solo = multi::Solo::new(&ctx);
            let pool = build_pool(&refs, ctx.seed, 60, Duration::from_millis(200));
            let n: usize = args[2].parse().unwrap_or(100);
            par(workers(), n, &|| false, &|i| {
                let m = multi::gen_multi(&refs, &solo, &pool, ctx.seed, i as u64);
                let x = multi::exec_multi(&ctx, &m);
                let y = multi::exec_multi(&ctx, &m);
                if x.fingerprint() != y.fingerprint() {
                    let mut s = format!("case {} after {} turns {:?} {:?} order {} killed {} stalled {}\n", i, x.after == y.after, x.turns, y.turns, x.order == y.order, x.killed == y.killed, x.stalled == y.stalled);
                    for (a, b) in x.outs.iter().zip(&y.outs) {
                        if a.fingerprint() != b.fingerprint() {
                            s += &format!("status {} {} allocs {} {} live {} {} simtime {} {} steps {} {} sw {} {} verdict {} {} ev {} {} fired {} ops {:?} {:?} out {} err {} started {} {}\n", a.status(), b.status(), a.allocs, b.allocs, a.live, b.live, a.simtime, b.simtime, a.steps, b.steps, a.switches, b.switches, a.verdict, b.verdict, a.evhash, b.evhash, a.fired == b.fired, a.ops, b.ops, a.out == b.out, a.err == b.err, a.started, b.started);
                        }
                    }
                    print!("{}", s);
                }
            });
            0
        }
        "diffcase" => {
            diffcase(&ctx, &args[2], args[3].parse().unwrap_or(0));
            0
        }
        "selftest" => selftest(&ctx),
        "seen" => {
            let refs = mgen::Refs::new(&ctx);
            let p = mgen::build_pool(&refs, ctx.seed, 30, Duration::from_millis(300));
            println!("env {:?}", p.seen.envs.iter().map(|e| show(e)).collect::<Vec<_>>());
            println!("files {:?}", p.seen.files.iter().map(|e| show(e)).collect::<Vec<_>>());
            println!("near {:?}", p.seen.near.iter().map(|e| show(e)).collect::<Vec<_>>());
            0
        }
        "poolstat" => {
            let refs = mgen::Refs::new(&ctx);
            let p = mgen::build_pool(&refs, ctx.seed, 160, Duration::from_secs(100));
            for q in &p.reqs {
                let f = refs.get(&q.0, true);
                println!("{:?} {} {} {}", f.wall.as_micros(), f.allocs, f.text.len(), show(&q.0.join(&b' ')));
            }
            let lrefs = libcase::LibRefs::new(&ctx, "C09");
            let p = libcase::build_lib_pool(&lrefs, ctx.seed, 130, Duration::from_millis(5000));
            println!("focus {:?}", p.focus.iter().map(|f| f.len()).collect::<Vec<_>>());
            for (o, r) in &p.ops {
                let res = r.res.as_ref().map(|x| x.prefix.clone()).unwrap_or_else(|| format!("?{}", r.status.replace(' ', "_")));
                println!("{:?} {} {} {} {} {:x?} = {}", r.wall.as_millis(), r.allocs, r.blocks, r.mem, o, r.addrs, res);
            }
            0
        }
        "glue" => gencase::glue(Path::new(&args[2])),
        _ => {
            eprintln!("usage: simdrive check <ID> [--thorough] [--replay FILE] | selftest");
            2
        }
    };
    sim::cleanup();
    std::process::exit(rc);
}
