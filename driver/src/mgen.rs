//! C01-C06: one libmgen process at a time, alone or in histories.
use crate::sim::*;
use crate::util::*;
use crate::Ctx;
use std::collections::{BTreeMap, HashMap};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

pub type Args = Vec<Vec<u8>>;
pub type Snap = BTreeMap<Vec<u8>, Entry>;
#[derive(Clone, PartialEq, Debug)]
pub enum Entry {
    File(Vec<u8>),
    Dir,
    Link(Vec<u8>),
}

/// What a request yields when nothing goes wrong.
#[derive(Clone, Default)]
pub struct Ref {
    pub ok: bool,
    pub text: Vec<u8>,
    pub stdout: Vec<u8>,
    pub code: Option<i32>,
    pub allocs: u64,
    pub wall: Duration,
    pub fingerprint: u64,
    pub has_dest: bool,
}
impl Ref {
    /// what a run costs, in simulated terms so that the same seed gives the same pool everywhere
    pub fn cost(&self) -> Duration {
        Duration::from_micros(4000 + self.allocs / 15)
    }
}
/// the number of allocations a run may make to cost no more than this
fn allocs_for(limit: Duration) -> u64 {
    limit.as_micros() as u64 * 15
}

pub struct Refs<'a> {
    pub ctx: &'a Ctx,
    map: Mutex<HashMap<(Args, bool), Arc<OnceLock<Ref>>>>,
}
impl<'a> Refs<'a> {
    pub fn new(ctx: &'a Ctx) -> Self {
        find_words(&ctx.libmgen);
        Refs { ctx, map: Mutex::new(HashMap::new()) }
    }
    /// fault-free run in the default environment; to a file or to stdout
    pub fn get(&self, args: &Args, to_file: bool) -> Ref {
        let cell = self.map.lock().unwrap().entry((args.clone(), to_file)).or_default().clone();
        cell.get_or_init(|| self.compute(args, to_file)).clone()
    }
    /// does the request end within this many allocations?
    fn within(&self, args: &Args, allocs: u64) -> bool {
        let mut s = Step { args: args.clone(), dest: Some(b"out.txt".to_vec()), ..Default::default() };
        s.plan.add(format!("alloc_kill {}", allocs));
        let r = exec(self.ctx, &Case { prop: "ref".into(), setup: vec![], steps: vec![s] }).remove(0);
        !r.out.killed_by_plan() && !r.out.timed_out
    }
    fn compute(&self, args: &Args, to_file: bool) -> Ref {
        let case = Case {
            prop: "ref".into(),
            setup: vec![],
            steps: vec![Step {
                args: args.clone(),
                dest: if to_file { Some(b"out.txt".to_vec()) } else { None },
                ..Default::default()
            }],
        };
        let mut runs = exec(self.ctx, &case);
        let r = runs.remove(0);
        if matches!(r.out.signal, Some(4 | 7 | 11 | 31)) {
            // a crash: libmgen's own, or the simulator's?
            let dir = fresh_dir();
            let mut c = std::process::Command::new(&self.ctx.libmgen);
            c.args(args.iter().map(|a| std::ffi::OsStr::from_bytes(a))).env_clear().current_dir(std::fs::create_dir_all(&dir).map(|_| &dir).unwrap());
            if to_file {
                c.arg("-o").arg("out.txt");
            }
            let plain = c.stdin(std::process::Stdio::null()).output();
            let _ = std::fs::remove_dir_all(&dir);
            if plain.map(|p| p.status.code().is_some()).unwrap_or(false) {
                harness_error(&format!("{} only under the simulator: libmgen {}", r.out.status(), args.iter().map(|a| show(a)).collect::<Vec<_>>().join(" ")));
            }
        }
        let text = if to_file {
            match r.after.get(b"out.txt".as_slice()) {
                Some(Entry::File(b)) => b.clone(),
                _ => vec![],
            }
        } else {
            r.out.out.clone()
        };
        Ref {
            ok: r.out.ok(),
            has_dest: to_file && r.after.contains_key(b"out.txt".as_slice()),
            text,
            stdout: r.out.out.clone(),
            code: r.out.code,
            allocs: r.out.allocs,
            wall: r.out.wall,
            fingerprint: r.out.fingerprint(),
        }
    }
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct Step {
    pub args: Args,
    /// as given to -o, relative names are relative to the root directory
    pub dest: Option<Vec<u8>>,
    pub abs: bool,
    pub plan: Plan,
    pub env: Vec<(Vec<u8>, Vec<u8>)>,
    pub argv0: Option<Vec<u8>>,
    pub cwd: Vec<u8>,
    pub layout: u64,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Init {
    File(Vec<u8>, Vec<u8>),
    Dir(Vec<u8>),
    Link(Vec<u8>, Vec<u8>),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Case {
    pub prop: String,
    pub setup: Vec<Init>,
    pub steps: Vec<Step>,
}

pub struct StepRun {
    pub before: Snap,
    pub after: Snap,
    pub out: Outcome,
}

pub fn snapshot(root: &Path) -> Snap {
    fn walk(root: &Path, rel: &Path, s: &mut Snap) {
        let d = root.join(rel);
        let mut ents: Vec<_> = match std::fs::read_dir(&d) {
            Ok(r) => r.filter_map(|e| e.ok()).collect(),
            Err(_) => return,
        };
        ents.sort_by_key(|e| e.file_name());
        for e in ents {
            let r = rel.join(e.file_name());
            let p = root.join(&r);
            let k = r.as_os_str().as_bytes().to_vec();
            if let Ok(m) = std::fs::symlink_metadata(&p) {
                if m.file_type().is_symlink() {
                    let t = std::fs::read_link(&p).map(|t| t.as_os_str().as_bytes().to_vec()).unwrap_or_default();
                    s.insert(k, Entry::Link(t));
                } else if m.is_dir() {
                    s.insert(k, Entry::Dir);
                    walk(root, &r, s);
                } else if m.is_file() {
                    s.insert(k, Entry::File(std::fs::read(&p).unwrap_or_default()));
                }
            }
        }
    }
    let mut s = Snap::new();
    walk(root, Path::new(""), &mut s);
    // what the program left outside its directory
    let mut o = Snap::new();
    walk(&root.parent().unwrap_or(root).join("over"), Path::new(""), &mut o);
    for (k, v) in o {
        let k: Vec<u8> = k.iter().map(|c| if *c == b'%' { b'/' } else { *c }).collect();
        if k != b"/home/user" {
            s.insert(k, v);
        }
    }
    s
}

fn p(root: &Path, rel: &[u8]) -> PathBuf {
    root.join(std::ffi::OsStr::from_bytes(rel))
}

/// the file (relative to root) that a destination finally names
pub fn resolve(snap: &Snap, dest: &[u8]) -> Vec<u8> {
    let mut d = dest.to_vec();
    for _ in 0..5 {
        // follow a symlinked directory prefix or the file itself
        let mut done = true;
        for (k, v) in snap {
            if let Entry::Link(t) = v {
                if &d == k {
                    let parent: Vec<u8> = match k.iter().rposition(|c| *c == b'/') {
                        Some(i) => k[..=i].to_vec(),
                        None => vec![],
                    };
                    d = [parent, t.clone()].concat();
                    done = false;
                    break;
                }
                if d.starts_with(k) && d.get(k.len()) == Some(&b'/') {
                    d = [t.clone(), d[k.len()..].to_vec()].concat();
                    done = false;
                    break;
                }
            }
        }
        if done {
            break;
        }
    }
    d
}

/// where the simulator keeps what lies outside the root (see `over` in libsim.c)
fn over_path(root: &Path, abs: &[u8]) -> PathBuf {
    let mut m: Vec<u8> = abs.iter().map(|c| if *c == b'/' { b'%' } else { *c }).collect();
    m.truncate(250);
    root.parent().unwrap_or(root).join("over").join(std::ffi::OsStr::from_bytes(&m))
}
pub fn setup_root(root: &Path, setup: &[Init]) {
    let _ = std::fs::create_dir_all(over_path(root, b"/home/user"));
    for i in setup {
        match i {
            Init::File(n, b) if n.starts_with(b"/") => {
                let mut up = Path::new(std::ffi::OsStr::from_bytes(n));
                while let Some(u) = up.parent() {
                    if !u.exists() {
                        let _ = std::fs::create_dir(over_path(root, u.as_os_str().as_bytes()));
                    }
                    up = u;
                }
                let _ = std::fs::write(over_path(root, n), b);
            }
            Init::File(n, b) => {
                let f = p(root, n);
                if let Some(u) = f.parent() {
                    let _ = std::fs::create_dir_all(u);
                }
                let _ = std::fs::write(f, b);
            }
            Init::Dir(n) if n.starts_with(b"/") => {
                let _ = std::fs::create_dir(over_path(root, n));
            }
            Init::Dir(n) => {
                let _ = std::fs::create_dir_all(p(root, n));
            }
            Init::Link(n, t) => {
                let _ = std::os::unix::fs::symlink(std::ffi::OsStr::from_bytes(t), p(root, n));
            }
        }
    }
}

pub fn step_args(s: &Step, root: &Path) -> Args {
    let mut a = s.args.clone();
    if let Some(d) = &s.dest {
        a.push(b"-o".to_vec());
        if s.abs && !d.starts_with(b"/") {
            a.push(p(root, d).as_os_str().as_bytes().to_vec());
        } else if !s.cwd.is_empty() && !d.starts_with(b"/") {
            // relative to another working directory inside the root
            let ups = s.cwd.iter().filter(|c| **c == b'/').count() + 1;
            let mut v = b"../".repeat(ups);
            v.extend_from_slice(d);
            a.push(v);
        } else {
            a.push(d.clone());
        }
    }
    a
}

pub fn spec<'a>(ctx: &'a Ctx, s: &Step, root: &Path, dir: &Path) -> Spec<'a> {
    Spec {
        exe: &ctx.libmgen,
        shim: &ctx.shim,
        args: step_args(s, root),
        argv0: Some(s.argv0.clone().unwrap_or_else(|| b"libmgen".to_vec())),
        env: s.env.clone(),
        cwd: p(root, &s.cwd),
        plan: s.plan.clone(),
        root: root.to_path_buf(),
        layout: s.layout,
        scratch: dir.to_path_buf(),
        timeout: Duration::from_secs(120),
        preload: true,
        fd3: false,
        want_pre: false,
    }
}

pub fn exec(ctx: &Ctx, c: &Case) -> Vec<StepRun> {
    let dir = fresh_dir();
    let root = dir.join("root");
    std::fs::create_dir_all(&root).expect("root");
    setup_root(&root, &c.setup);
    for s in &c.steps {
        // the working directory is always there (a minimised case may lack its setup line)
        let _ = std::fs::create_dir_all(p(&root, &s.cwd));
    }
    let mut v = vec![];
    let mut before = snapshot(&root);
    for s in &c.steps {
        let out = run(&spec(ctx, s, &root, &dir));
        let after = snapshot(&root);
        v.push(StepRun { before: before.clone(), after: after.clone(), out });
        before = after;
    }
    let _ = std::fs::remove_dir_all(&dir);
    v
}

#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}
fn viol<T>(class: &str, detail: String) -> Option<T>
where
    T: From<Viol>,
{
    Some(T::from(Viol { class: class.into(), detail }))
}

fn fnarg(args: &Args) -> Vec<u8> {
    arg_value(args, &["-f", "--functions"]).unwrap_or_default()
}
pub fn arg_value(args: &Args, names: &[&str]) -> Option<Vec<u8>> {
    for i in 0..args.len() {
        if names.iter().any(|n| n.as_bytes() == args[i].as_slice()) {
            return args.get(i + 1).cloned();
        }
    }
    None
}
fn is_listing(args: &Args) -> bool {
    fnarg(args) == b"help"
}
fn has_flag(args: &Args, names: &[&str]) -> bool {
    args.iter().any(|a| names.iter().any(|n| n.as_bytes() == a.as_slice()))
}
/// asks for generated code (and nothing else)
fn asks_code(args: &Args) -> bool {
    !is_listing(args)
        && !fnarg(args).is_empty()
        && !has_flag(args, &["-h", "--help", "-V", "--version"])
        && arg_value(args, &["--language"]).map(|l| l != b"help").unwrap_or(true)
}
fn known_language(args: &Args) -> bool {
    match arg_value(args, &["--language"]) {
        None => true,
        Some(l) => [&b"rust"[..], b"c", b"portable-simd"].contains(&l.as_slice()),
    }
}

pub fn describe(s: &Step) -> String {
    let a: Vec<String> = s.args.iter().map(|a| show(a)).collect();
    format!(
        "libmgen {}{} under [{}]",
        a.join(" "),
        s.dest.as_ref().map(|d| format!(" -o {}", show(d))).unwrap_or_default(),
        s.plan.lines.join("; ")
    )
}

fn diff_at(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    format!("lengths {} and {}, first difference at byte {}", a.len(), b.len(), i)
}

fn file_at<'s>(s: &'s Snap, d: &[u8]) -> Option<&'s Entry> {
    s.get(&resolve(s, d))
}

/// The oracle: the first violation of `c.prop` in this history, if any.
pub fn judge(refs: &Refs, c: &Case, runs: &[StepRun]) -> Option<Viol> {
    let prop = c.prop.as_str();
    for (i, (s, r)) in c.steps.iter().zip(runs).enumerate() {
        let o = &r.out;
        let last = i + 1 == c.steps.len();
        let v = match prop {
            "C01" => judge_c01(refs, s, r),
            "C02" => judge_c02(refs, s, r),
            "C03" => judge_c03(refs, c, i, last, s, r, runs),
            "C04" => judge_c04(refs, s, r),
            "C05" => judge_c05(refs, s, r),
            "C06" => judge_c06(refs, s, r),
            _ => None,
        };
        if let Some(mut v) = v {
            v.detail = format!(
                "step {} of {}: {} -> {}: {} (stderr: {})",
                i + 1,
                c.steps.len(),
                describe(s),
                o.status(),
                v.detail,
                show(&o.err)
            );
            return Some(v);
        }
    }
    None
}

fn judge_c01(refs: &Refs, s: &Step, r: &StepRun) -> Option<Viol> {
    let o = &r.out;
    if !o.ok() {
        return None;
    }
    if is_listing(&s.args) {
        let rf = refs.get(&s.args, false);
        if rf.ok && o.out != rf.text {
            return viol("listing-incomplete", format!("exit 0 but the listing on stdout is not complete: {}", diff_at(&o.out, &rf.text)));
        }
        return None;
    }
    if !asks_code(&s.args) {
        return None;
    }
    if !known_language(&s.args) {
        return viol("success-without-text", "exit 0 although the language is not supported and nothing was delivered".into());
    }
    if let Some(d) = &s.dest {
        let rf = refs.get(&s.args, true);
        if d.starts_with(b"/") {
            // a device outside the root: /dev/full refuses every byte
            if d.as_slice() == b"/dev/full" && !rf.text.is_empty() {
                return viol("success-without-text", "exit 0 although the device refused every byte".into());
            }
            if (d.as_slice() == b"/dev/stdout" || d.as_slice() == b"/dev/fd/1") && o.out != rf.text {
                return viol("success-with-wrong-file", format!("exit 0 but {} is not the complete text: {}", show(d), diff_at(&o.out, &rf.text)));
            }
            return None;
        }
        match file_at(&r.after, d) {
            Some(Entry::File(b)) => {
                if *b != rf.text {
                    return viol("success-with-wrong-file", format!("exit 0 but the file is not the complete text: {}", diff_at(b, &rf.text)));
                }
            }
            _ => return viol("success-without-file", "exit 0 but the destination does not exist".into()),
        }
    } else {
        let rf = refs.get(&s.args, false);
        if o.out != rf.text {
            return viol("success-with-wrong-stdout", format!("exit 0 but stdout is not the complete text: {}", diff_at(&o.out, &rf.text)));
        }
    }
    None
}

/// allocations that may follow the moment the text is complete
fn slack(text: &[u8]) -> u64 {
    64 + 2 * text.iter().filter(|c| **c == b'\n').count() as u64
}

fn judge_c02(refs: &Refs, s: &Step, r: &StepRun) -> Option<Viol> {
    let o = &r.out;
    if is_listing(&s.args) || o.timed_out {
        return None;
    }
    let rf = refs.get(&s.args, s.dest.is_some());
    // did the run end while still generating?
    let mut generating = !rf.ok;
    if (o.killed_by_plan() || o.allocfail > 0) && !o.ok() && o.allocs + slack(&rf.text) < rf.allocs {
        generating = true;
    }
    let dest = s.dest.as_ref().map(|d| resolve(&r.before, d));
    // other files
    for (k, v) in &r.before {
        if Some(k) == dest.as_ref() {
            continue;
        }
        if r.after.get(k) != Some(v) {
            return viol("other-file-changed", format!("{} was changed or removed", show(k)));
        }
    }
    if o.ok() {
        for k in r.after.keys() {
            if !r.before.contains_key(k) && Some(k) != dest.as_ref() {
                return viol("extra-file", format!("a successful run left {} behind", show(k)));
            }
        }
    }
    if generating && !o.out.is_empty() {
        return viol("stdout-before-complete", format!("{} bytes were written to stdout before the text was complete", o.out.len()));
    }
    if s.dest.is_none() && !rf.text.starts_with(&o.out) && asks_code(&s.args) {
        return viol("stdout-mixture", format!("stdout is not an initial part of the text: {}", diff_at(&o.out, &rf.text)));
    }
    if let Some(d) = dest {
        if d.starts_with(b"/") {
            return None;
        }
        let old = r.before.get(&d);
        let new = r.after.get(&d);
        if old == new {
            return None;
        }
        if generating {
            let what = match new {
                None => "was removed".to_string(),
                Some(Entry::File(b)) => format!("now has {} bytes", b.len()),
                _ => "changed its kind".into(),
            };
            return viol(
                "damaged-before-complete",
                format!("the destination {} although the run ended while generating (allocation {} of {})", what, o.allocs, rf.allocs),
            );
        }
        match new {
            None => return viol("destination-lost", "the destination was removed".into()),
            Some(Entry::File(b)) => {
                if !rf.text.starts_with(b) {
                    return viol("mixture", format!("the destination is neither the old content nor an initial part of the new text: {}", diff_at(b, &rf.text)));
                }
            }
            Some(_) => return viol("destination-kind", "the destination changed its kind".into()),
        }
    }
    None
}

fn judge_c03(refs: &Refs, c: &Case, i: usize, last: bool, s: &Step, r: &StepRun, runs: &[StepRun]) -> Option<Viol> {
    let o = &r.out;
    if s.plan.has_faults() || !asks_code(&s.args) || !known_language(&s.args) {
        return None;
    }
    let _ = last;
    // a fault-free run
    let d = s.dest.as_ref()?;
    let rf = refs.get(&s.args, true);
    if !rf.ok {
        return None;
    }
    if !o.ok() {
        return viol("blocked-by-history", format!("a fault-free run fails after {} earlier runs", i));
    }
    let rd = resolve(&r.before, d);
    match r.after.get(&rd) {
        Some(Entry::File(b)) if *b == rf.text => {}
        Some(Entry::File(b)) => {
            return viol("not-replaced", format!("the destination is not exactly the new text: {}", diff_at(b, &rf.text)))
        }
        _ => return viol("not-delivered", "the destination is missing".into()),
    }
    // everything else: as before, or a leftover of a dead run cleaned away
    let initial: Vec<Vec<u8>> = c
        .setup
        .iter()
        .map(|x| match x {
            Init::File(n, _) | Init::Dir(n) | Init::Link(n, _) => n.clone(),
        })
        .collect();
    let mut dests: Vec<Vec<u8>> = initial;
    for (j, s2) in c.steps.iter().enumerate().take(i) {
        if let Some(d2) = &s2.dest {
            dests.push(resolve(&runs[j].before, d2));
        }
    }
    for (k, v) in &r.before {
        if *k == rd {
            continue;
        }
        match r.after.get(k) {
            Some(w) if w == v => {}
            None if !dests.contains(k) => {}
            _ => return viol("other-file-changed", format!("{} was changed or removed by a successful run", show(k))),
        }
    }
    for k in r.after.keys() {
        if !r.before.contains_key(k) && *k != rd {
            return viol("extra-file", format!("a successful run left {} behind", show(k)));
        }
    }
    None
}

fn judge_c04(refs: &Refs, s: &Step, r: &StepRun) -> Option<Viol> {
    let o = &r.out;
    let rf = refs.get(&s.args, s.dest.is_some());
    let rs = refs.get(&s.args, false);
    if o.code != rf.code || o.timed_out {
        return viol("status-depends-on-environment", format!("{} instead of exit {:?}", o.status(), rf.code));
    }
    if let Some(d) = &s.dest {
        let b = match file_at(&r.after, d) {
            Some(Entry::File(b)) => b.clone(),
            _ => {
                if rf.has_dest {
                    return viol("text-depends-on-environment", "no destination file".into());
                }
                return None;
            }
        };
        if rf.ok && rf.has_dest && b != rf.text {
            return viol("text-depends-on-environment", diff_at(&b, &rf.text));
        }
        if asks_code(&s.args) && rf.ok && rs.ok && b != rs.text {
            return viol("file-differs-from-stdout", diff_at(&b, &rs.text));
        }
    } else if o.out != rf.text {
        return viol("text-depends-on-environment", diff_at(&o.out, &rf.text));
    }
    None
}

fn judge_c05(refs: &Refs, s: &Step, r: &StepRun) -> Option<Viol> {
    let o = &r.out;
    let rf = refs.get(&s.args, s.dest.is_some());
    if !rf.ok {
        return None;
    }
    if !o.ok() {
        return viol("transient-fault-fails-run", format!("{} although only transient conditions occurred", o.status()));
    }
    if let Some(d) = &s.dest {
        match file_at(&r.after, d) {
            Some(Entry::File(b)) if *b == rf.text => {}
            Some(Entry::File(b)) => return viol("transient-fault-damages-file", diff_at(b, &rf.text)),
            _ if rf.has_dest => return viol("transient-fault-damages-file", "no file".into()),
            _ => {}
        }
        if o.out != rf.stdout {
            return viol("transient-fault-damages-stdout", diff_at(&o.out, &rf.stdout));
        }
    } else if o.out != rf.text {
        return viol("transient-fault-damages-stdout", diff_at(&o.out, &rf.text));
    }
    None
}

fn judge_c06(refs: &Refs, s: &Step, r: &StepRun) -> Option<Viol> {
    let o = &r.out;
    if is_listing(&s.args) || has_flag(&s.args, &["-h", "--help", "-V", "--version"]) {
        return None;
    }
    if s.dest.is_some() {
        if !o.out.is_empty() {
            return viol("stdout-not-empty", format!("with -o, stdout carries {:?}", show(&o.out)));
        }
        return None;
    }
    let code = asks_code(&s.args) && known_language(&s.args);
    let rf = if code { refs.get(&s.args, true) } else { Ref::default() };
    if !rf.text.starts_with(&o.out) {
        return viol("stdout-foreign-bytes", format!("stdout carries something else than the generated text: {} ({:?})", diff_at(&o.out, &rf.text), show(&o.out)));
    }
    if o.ok() && code && o.out != rf.text {
        return viol("stdout-differs-from-file", diff_at(&o.out, &rf.text));
    }
    None
}

// ---------------------------------------------------------------------
// request pool

pub struct Pool {
    pub reqs: Vec<(Args, f64, u64, usize)>, // args, weight, allocs, text length
    total: f64,
    pub names: Vec<String>,
    pub seen: Seen,
}
/// what the program looked at outside its request
#[derive(Clone, Default, Debug)]
pub struct Seen {
    pub envs: Vec<Vec<u8>>,
    /// relative to the root, or absolute
    pub files: Vec<Vec<u8>>,
    /// names next to the destination: \x01 stands for its file name, \x02 for its file name without extension
    pub near: Vec<Vec<u8>>,
}
/// turn a name that contains the destination's into a pattern
pub fn near_pattern(rel: &[u8], file: &[u8], stem: &[u8]) -> Option<Vec<u8>> {
    let base = rel.rsplit(|c| *c == b'/').next().unwrap_or(rel);
    for (what, mark) in [(file, 1u8), (stem, 2u8)] {
        if let Some(i) = base.windows(what.len()).position(|w| w == what) {
            return Some([&base[..i], &[mark], &base[i + what.len()..]].concat());
        }
    }
    None
}
pub fn near_name(pattern: &[u8], dest: &[u8]) -> Vec<u8> {
    let (dir, base) = match dest.iter().rposition(|c| *c == b'/') {
        Some(i) => dest.split_at(i + 1),
        None => (&dest[..0], dest),
    };
    let stem = match base.iter().rposition(|c| *c == b'.') {
        Some(i) if i > 0 => &base[..i],
        _ => base,
    };
    let mut v = dir.to_vec();
    for c in pattern {
        match c {
            1 => v.extend_from_slice(base),
            2 => v.extend_from_slice(stem),
            c => v.push(*c),
        }
    }
    v
}
/// names that the standard library and its run time ask for by themselves
pub const USUAL_ENV: [&str; 4] = ["RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RUST_MIN_STACK", "NO_COLOR"];
pub fn discover(refs: &Refs, reqs: &[Args]) -> Seen {
    let mut seen = Seen::default();
    for round in 0..3 {
        // to stdout, to a new file, over an old file
        let jobs: Vec<(usize, u32)> = (0..reqs.len()).flat_map(|i| [(i, 0), (i, 1), (i, 2)]).collect();
        let now = seen.clone();
        let got = par(workers(), jobs.len(), &|| false, &|k| {
            let (i, file) = jobs[k];
            let mut s = Step { args: reqs[i].clone(), dest: if file > 0 { Some(b"target.txt".to_vec()) } else { None }, ..Default::default() };
            let setup = if file > 1 { vec![Init::File(b"target.txt".to_vec(), b"fn old() {}\n".to_vec())] } else { vec![] };
            if round > 0 {
                for e in &now.envs {
                    s.env.push((e.clone(), if round == 1 { b"/home/user".to_vec() } else { b"1".to_vec() }));
                }
            }
            exec(refs.ctx, &Case { prop: "ref".into(), setup, steps: vec![s] }).remove(0).out.events
        });
        for (_, ev) in got {
            let mut wrote: Vec<Vec<u8>> = vec![];
            for l in ev.lines() {
                let w: Vec<&str> = l.split(' ').collect();
                if w.len() < 4 {
                    continue;
                }
                let name = unpct(w[3]);
                let rel = match name.strip_prefix(b"$R/") {
                    Some(r) => r.strip_prefix(b"./").unwrap_or(r).to_vec(),
                    None => name.clone(),
                };
                if w[2] != "getenv" && rel != b"target.txt" && !rel.starts_with(b"/") {
                    if let Some(n) = near_pattern(&rel, b"target.txt", b"target") {
                        if !seen.near.contains(&n) && seen.near.len() < 40 {
                            seen.near.push(n);
                        }
                    }
                }
                match w[2] {
                    "getenv" => {
                        if !USUAL_ENV.iter().any(|u| u.as_bytes() == name) && !seen.envs.contains(&name) && seen.envs.len() < 40 {
                            seen.envs.push(name);
                        }
                    }
                    "openw" | "rename" | "mkdir" | "link" | "symlink" => wrote.push(rel),
                    "openr" | "stat" | "statx" | "access" | "open" => {
                        let own = rel == b"target.txt" || rel.is_empty() || rel == b"." || wrote.contains(&rel) || rel.starts_with(b"$R");
                        let system = rel.starts_with(b"/dev/") || rel.starts_with(b"/proc/self/fd") || rel.starts_with(b"/proc/self/task") || rel == b"/proc/self/maps";
                        if !own && !system && !seen.files.contains(&rel) && seen.files.len() < 40 {
                            seen.files.push(rel);
                        }
                    }
                    _ => {}
                }
            }
        }
        if seen.envs.is_empty() && round == 0 && seen.files.is_empty() && seen.near.is_empty() {
            break;
        }
    }
    seen.envs.sort();
    seen.files.sort();
    seen.near.sort();
    seen
}
pub const ENV_VALUES: [&[u8]; 18] = [
    b"", b"1", b"0", b"true", b"full", b"C", b"de_DE.UTF-8", b"tr_TR", b"80", b"3", b"/nonexistent", b"/home/user", b"hex", b"32", b"c", b"debug", b"trace",
    b"\xff\xfe",
];
/// content for a file the program asked for
fn strange(r: &mut Rng, refs: &Refs, pool: &Pool, args: &Args) -> Vec<u8> {
    let fixed: [&[u8]; 16] = [
        b"",
        b"1\n",
        b"0",
        b"3",
        b"32\n",
        b"c\n",
        b"hex",
        b"num_bits = 32\nnum-bits = 32\nlanguage = \"c\"\nnumber_type = \"hex\"\nnumber-type = \"hex\"\nfunctions = \"cos\"\nprecision = 3\ndigits = 3\nindent = 2\nheader = true\n",
        b"num_bits=32\nlanguage=c\nnumber_type=hex\nprecision=3\ndigits=3\nindent=2\nNUM_BITS=32\nDIGITS=3\nPRECISION=3\n",
        b"{\"num_bits\": 32, \"language\": \"c\", \"number_type\": \"hex\", \"precision\": 3, \"digits\": 3, \"indent\": 2}\n",
        b"--num-bits 32 --language c --number-type hex\n",
        b"[package]\nname = \"mine\"\nversion = \"9.9.9\"\nedition = \"2018\"\n[package.metadata.libmgen]\nnum-bits = 32\n",
        b"max_width = 60\ntab_spaces = 2\nhard_tabs = true\n",
        b"MemTotal:  100 kB\nMemAvailable:  10 kB\nprocessor : 0\nmodel name : x\n0.9 0.8 0.7 3/99 4242\n",
        b"// my header\n",
        b"\xff\xfe\0\0\x01garbage",
    ];
    if r.chance(1, 4) {
        prior(r, refs, pool, args)
    } else {
        r.pick(&fixed).to_vec()
    }
}
/// an ordinary user's environment, with a home directory that can be written
pub fn at_home(pool: &Pool, s: &mut Step) {
    s.env.push((b"HOME".to_vec(), b"/home/user".to_vec()));
    for e in &pool.seen.envs {
        if e != b"HOME" {
            s.env.push((e.clone(), if e.starts_with(b"XDG_") || e.ends_with(b"DIR") || e.ends_with(b"HOME") { b"/home/user".to_vec() } else { b"1".to_vec() }));
        }
    }
}
/// environment and files that this program is known to look at
fn tempt(r: &mut Rng, refs: &Refs, pool: &Pool, s: &mut Step, setup: &mut Vec<Init>, files: bool) {
    for e in &pool.seen.envs {
        if r.chance(1, 2) && !s.env.iter().any(|(k, _)| k == e) {
            let v = if r.chance(1, 3) { b"/home/user".to_vec() } else { r.pick(&ENV_VALUES).to_vec() };
            s.env.push((e.clone(), v));
        }
    }
    if !files {
        return;
    }
    for f in &pool.seen.files {
        if r.chance(1, 2) {
            let at = if f.starts_with(b"/") || s.cwd.is_empty() { f.clone() } else { [s.cwd.clone(), b"/".to_vec(), f.clone()].concat() };
            if !setup.iter().any(|i| matches!(i, Init::File(x, _) if *x == at)) {
                let b = strange(r, refs, pool, &s.args);
                setup.push(Init::File(at, b));
            }
        }
    }
}
impl Pool {
    pub fn pick(&self, r: &mut Rng) -> Args {
        let mut x = (r.below(1 << 30) as f64) / ((1u64 << 30) as f64) * self.total;
        for q in &self.reqs {
            x -= q.1;
            if x <= 0.0 {
                return q.0.clone();
            }
        }
        self.reqs[self.reqs.len() - 1].0.clone()
    }
    /// a request whose text has at least n bytes
    pub fn pick_big(&self, r: &mut Rng, n: usize) -> Args {
        // the longest texts are slow to make
        let n = if n > 20_000 && !r.chance(1, 15) { 9_000 } else { n };
        let v: Vec<_> = self.reqs.iter().filter(|q| q.3 >= n && (n > 20_000 || q.3 < 60_000)).collect();
        if v.is_empty() {
            return self.pick(r);
        }
        v[r.below(v.len() as u64) as usize].0.clone()
    }
    pub fn pick_distinct_len(&self, r: &mut Rng) -> (Args, Args) {
        (self.pick(r), self.pick(r))
    }
}

pub fn a(v: &[&str]) -> Args {
    v.iter().map(|s| s.as_bytes().to_vec()).collect()
}

pub fn gen_request(r: &mut Rng, names: &[String], cheap: &[String]) -> Args {
    let mut v: Vec<String> = vec![];
    let n = match r.below(10) {
        0..=5 => 1,
        6..=7 => 2,
        8 => 3,
        _ => r.range(4, 8),
    };
    let mut fs = vec![];
    for _ in 0..n {
        if r.chance(7, 10) && !cheap.is_empty() {
            fs.push(r.pick(cheap).clone());
        } else {
            fs.push(r.pick(names).clone());
        }
    }
    if r.chance(1, 12) {
        fs.push(r.pick(&["nosuch".to_string(), "".into(), "Sin".into(), "sin ".into()]).clone());
    }
    if r.chance(1, 12) {
        let x = fs[0].clone();
        fs.push(x);
    }
    let long = r.chance(1, 4);
    v.push(if long { "--functions" } else { "-f" }.into());
    v.push(fs.join(","));
    if r.chance(1, 2) {
        v.push("--num-bits".into());
        v.push(if r.chance(1, 30) { "16" } else { *r.pick(&["32", "64"]) }.into());
    }
    match r.below(10) {
        0..=4 => {}
        5..=7 => v.extend(["--language".into(), "c".into()]),
        _ => v.extend(["--language".into(), r.pick(&["rust", "portable-simd"]).to_string()]),
    }
    if r.chance(1, 4) {
        v.push("--number-type".into());
        v.push(r.pick(&["hex", "hex", "decimal", "octal"]).to_string());
    }
    if r.chance(1, 5) {
        v.push(if r.chance(1, 2) { "-x" } else { "--exclude" }.into());
        let mut xs = vec![r.pick(names).clone()];
        if r.chance(1, 2) {
            xs.push(r.pick(&["fty", "ity", "uty", "PI", "NAN", "select"]).to_string());
        }
        v.push(xs.join(","));
    }
    if r.chance(1, 10) {
        v.push(r.pick(&["-d", "--debug"]).to_string());
    }
    if r.chance(1, 15) {
        v.extend(["--function-prefix".into(), "my_".into()]);
    }
    if r.chance(1, 8) {
        v.push("--generate-tests".into());
        if r.chance(1, 2) {
            v.push("--generate-plots".into());
        }
    }
    v.into_iter().map(|s| s.into_bytes()).collect()
}

pub fn function_names(refs: &Refs) -> Vec<String> {
    let l = refs.get(&a(&["-f", "help"]), false);
    let mut v: Vec<String> = String::from_utf8_lossy(&l.text)
        .lines()
        .map(|s| s.trim().to_string())
        .filter(|s| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_'))
        .collect();
    if v.len() < 5 {
        v = ["fty", "PI", "sin", "cos", "exp", "log2", "qnorm", "negate_on_odd"].iter().map(|s| s.to_string()).collect();
    }
    v
}

/// Build a pool of requests from the seed; drop the expensive ones.
pub fn build_pool(refs: &Refs, seed: u64, n: usize, limit: Duration) -> Pool {
    let names = function_names(refs);
    // cost of each single function
    let w = workers();
    let single = par(w, names.len(), &|| false, &|i| {
        refs.within(&a(&["-f", &names[i], "--num-bits", "32"]), allocs_for(Duration::from_millis(21)))
    });
    let cheap: Vec<String> = single.iter().filter(|(_, t)| *t).map(|(i, _)| names[*i].clone()).collect();
    let mut rng = Rng::new(mix2(seed, 0x9001));
    let mut reqs: Vec<Args> = vec![
        a(&["-f", "PI"]),
        a(&["-f", "fty"]),
        a(&["-f", "negate_on_odd", "--num-bits", "32"]),
        a(&["-f", "sin", "--num-bits", "32"]),
        a(&["-f", "sin", "--num-bits", "32", "--language", "c"]),
        a(&["-f", "exp", "--num-bits", "64"]),
        a(&["-f", "trig,logexp", "--num-bits", "32"]),
        a(&["-f", "all", "--num-bits", "32"]),
        a(&["-f", "all", "--num-bits", "32", "--language", "c"]),
        a(&["-f", "nextafter", "--generate-tests", "--num-bits", "32"]),
        a(&["-f", "recip_sqrt", "--generate-tests", "--num-bits", "32"]),
        a(&["-f", "nextafter", "--generate-tests"]),
        a(&["-f", "sqrt,recip_sqrt,nextafter,cbrt", "--generate-tests", "--generate-plots", "--num-bits", "32"]),
        a(&["-f", "sin_cos,nextafter", "--generate-tests", "--generate-plots", "--number-type", "hex", "-x", "sin,cos"]),
        a(&["-f", "hypot,nextafter,runif,tanh", "--generate-tests", "--num-bits", "64"]),
        a(&["-f", "exp", "--generate-tests", "--num-bits", "32"]),
        a(&["-f", "sin,-x"]),
    ];
    while reqs.len() < n {
        reqs.push(gen_request(&mut rng, &names, &cheap));
    }
    // one long text is worth its price, a little
    let long = a(&["-f", "exp", "--generate-tests", "--num-bits", "32"]);
    let info = par(w, reqs.len(), &|| false, &|i| {
        let cap = allocs_for(if reqs[i] == long { Duration::from_secs(4) } else { limit });
        refs.within(&reqs[i], cap).then(|| (refs.get(&reqs[i], true), refs.get(&reqs[i], false)))
    });
    let mut out = vec![];
    for (i, x) in info {
        let Some((f, s)) = x else { continue };
        let ms = f.cost().max(s.cost()).as_secs_f64() * 1000.0;
        let mut weight = 1.0 / (ms + 8.0);
        if f.text.len() > 60_000 {
            weight *= 40.0;
        }
        out.push((reqs[i].clone(), weight, f.allocs, f.text.len()));
    }
    if out.is_empty() {
        harness_error("no usable request");
    }
    let total = out.iter().map(|x| x.1).sum();
    let mut few: Vec<Args> = out.iter().filter(|q| asks_code(&q.0)).map(|q| q.0.clone()).take(10).collect();
    few.push(a(&["-f", "help"]));
    few.push(a(&["-f", "nosuch"]));
    let seen = discover(refs, &few);
    Pool { reqs: out, total, names, seen }
}

/// Independent look at reference texts: nothing obviously cut off.
pub fn sanity(refs: &Refs, pool: &Pool) -> Option<(Args, String)> {
    for q in &pool.reqs {
        if !asks_code(&q.0) || !known_language(&q.0) {
            continue;
        }
        let f = refs.get(&q.0, true);
        if !f.ok {
            continue;
        }
        let mut depth = [0i64; 3];
        for c in &f.text {
            match c {
                b'{' => depth[0] += 1,
                b'}' => depth[0] -= 1,
                b'(' => depth[1] += 1,
                b')' => depth[1] -= 1,
                b'[' => depth[2] += 1,
                b']' => depth[2] -= 1,
                _ => {}
            }
        }
        // braces in string literals of the generated tests are balanced as well
        if depth != [0, 0, 0] {
            return Some((q.0.clone(), format!("brackets do not balance: {:?}", depth)));
        }
    }
    None
}

// ---------------------------------------------------------------------
// plans

const WERR: [(&str, u32); 7] =
    [("EIO", 5), ("ENOSPC", 28), ("EPIPE", 32), ("EDQUOT", 122), ("EFBIG", 27), ("EAGAIN", 11), ("EINVAL", 22)];
const OERR: [(&str, u32); 8] = [
    ("EACCES", 13), ("ENOENT", 2), ("EMFILE", 24), ("EROFS", 30), ("EISDIR", 21), ("ENOSPC", 28), ("EIO", 5), ("ENFILE", 23),
];

pub fn when(r: &mut Rng, max: u64) -> String {
    let n = r.range(1, max);
    match r.below(6) {
        0 => format!("{}+", n),
        1 => format!("{}-{}", n, n + r.below(4)),
        2 => format!("{}%{}", r.below(2), r.range(2, 4)),
        _ => format!("{}", n),
    }
}
fn exactly(r: &mut Rng, max: u64) -> String {
    format!("{}", r.range(1, max))
}

pub fn add_short(r: &mut Rng, p: &mut Plan, cls: &str, len: u64) {
    let n = match r.below(6) {
        0 => 1,
        1 => r.range(1, 8),
        2 => r.range(1, len.max(2)),
        3 => 4096,
        4 => len.max(2) - 1,
        _ => r.range(len.max(4) / 4, len.max(4)),
    };
    // many tiny writes are slow and explore little: limit their number
    let w = if n < 64 && len > 4096 {
        let f = r.range(1, 3);
        format!("{}-{}", f, f + r.below(12))
    } else {
        when(r, 4)
    };
    p.add(format!("fault {} {} short:{}", cls, w, n));
}
pub fn add_eintr(r: &mut Rng, p: &mut Plan, cls: &str) {
    let w = match r.below(4) {
        // only odd occurrences, so that some attempt always gets through
        0 => "1%2".into(),
        1 => {
            let f = r.range(1, 3);
            format!("{}-{}", f, f + r.range(1, 60))
        }
        _ => exactly(r, 4),
    };
    p.add(format!("fault {} {} err:4", cls, w));
}
pub fn add_hard(r: &mut Rng, p: &mut Plan, len: u64, to_file: bool, allocs: u64) {
    let w = if to_file { "wfile" } else { "wout" };
    match r.below(15) {
        14 => {
            // a write that accepts nothing
            if r.chance(1, 2) {
                add_short(r, p, w, len);
            }
            p.add(format!("fault {} {}{} zero", w, r.range(1, 4), if r.chance(1, 2) { "+" } else { "" }));
        }
        0..=3 => {
            let e = r.pick(&WERR).1;
            let k = when(r, 4);
            p.add(format!("fault {} {} err:{}", w, k, e));
        }
        4 | 5 => {
            // a failure in the middle of the delivery
            add_short(r, p, w, len);
            let e = r.pick(&WERR).1;
            p.add(format!("fault {} {} err:{}", w, format!("{}+", r.range(2, 5)), e));
        }
        6 | 7 if to_file => {
            let n = r.below(len + 2);
            p.add(format!("disk {}", n));
        }
        6 | 7 => {
            let n = r.below(len + 2);
            let e = *r.pick(&[32, 28, 5]);
            p.add(format!("pipe_out {} {}", n, e));
        }
        8 if to_file => {
            let e = r.pick(&OERR).1;
            let k = when(r, 2);
            p.add(format!("fault openw {} err:{}", k, e));
        }
        8 => {
            let n = len.saturating_sub(r.below(40));
            p.add(format!("pipe_out {} 32", n));
        }
        9 | 10 => {
            let k = if r.chance(1, 2) { r.range(1, allocs.max(1)) } else { allocs.saturating_sub(r.below(60)).max(1) };
            let n = *r.pick(&[1u64, 1, 3, 1000000000]);
            p.add(format!("alloc_fail {} {}", k, n));
        }
        11 => {
            let k = when(r, 3);
            p.add(format!("fault werr {} err:{}", k, *r.pick(&[5, 28, 32])));
        }
        12 => {
            let cls = *r.pick(&["rename", "unlink", "trunc", "stat", "mkdir", "link", "lock"]);
            let k = when(r, 2);
            p.add(format!("fault {} {} err:{}", cls, k, *r.pick(&[5, 28, 13, 1])));
        }
        _ => {
            let k = when(r, 3);
            p.add(format!("fault {} {} err:{}", w, k, *r.pick(&[28, 5])));
            add_eintr(r, p, w);
        }
    }
}
/// other processes have (or took over) the process ids of some of these runs: /proc has directories for them, and
/// they can be signalled
pub fn pids_alive(r: &mut Rng, steps: &[Step], setup: &mut Vec<Init>) {
    if !r.chance(1, 3) {
        return;
    }
    let mut seen = vec![];
    for s in steps {
        let Some(pid) = s.plan.get_u64("pid") else { continue };
        if seen.contains(&pid) || r.chance(1, 4) {
            continue;
        }
        seen.push(pid);
        let name = *r.pick(&["libmgen", "bash", "init"]);
        let d = format!("/proc/{}", pid).into_bytes();
        setup.push(Init::Dir(d.clone()));
        setup.push(Init::File([&d[..], b"/comm"].concat(), format!("{}\n", name).into_bytes()));
        setup.push(Init::File([&d[..], b"/cmdline"].concat(), format!("{}\0-f\0sin\0", name).into_bytes()));
        setup.push(Init::File([&d[..], b"/stat"].concat(), format!("{} ({}) S 1 1 1 0 -1 4194304 1 0 0 0 1 1 0 0 20 0 1 0 100 1 1\n", pid, name).into_bytes()));
    }
}

pub fn add_kill(r: &mut Rng, p: &mut Plan, len: u64, to_file: bool, allocs: u64) {
    let w = if to_file { "wfile" } else { "wout" };
    match r.below(12) {
        0..=4 => {
            // while generating
            let k = match r.below(4) {
                0 => r.range(1, allocs.max(1)),
                1 => r.range(1, allocs.max(8) / 8),
                2 => allocs.saturating_sub(r.below(400)).max(1),
                _ => allocs.saturating_sub(r.below(allocs / 4 + 1)).max(1),
            };
            p.add(format!("alloc_kill {}", k));
        }
        5 => {
            let k = exactly(r, 2);
            p.add(format!("fault {} {} {}", if to_file { "openw" } else { "wout" }, k, *r.pick(&["kill", "killafter"])));
        }
        6..=8 => {
            let n = match r.below(3) {
                0 => r.below(4),
                1 => r.below(len + 1),
                _ => len.saturating_sub(r.below(4)),
            };
            let k = exactly(r, 2);
            p.add(format!("fault {} {} killmid:{}", w, k, n));
        }
        9 => {
            add_short(r, p, w, len);
            let k = r.range(2, 4);
            p.add(format!("fault {} {} {}", w, k, *r.pick(&["kill", "killafter"])));
        }
        10 => {
            let cls = *r.pick(&["close", "rename", "unlink", "trunc", "sync", "link", "stat", "openr", "lock", "mkdir"]);
            let k = exactly(r, 2);
            p.add(format!("fault {} {} {}", cls, k, *r.pick(&["kill", "killafter"])));
        }
        _ => {
            let k = exactly(r, 2);
            p.add(format!("fault {} {} {}", w, k, *r.pick(&["kill", "killafter"])));
        }
    }
}

/// names under which the program under test may expect to be started: what follows its own name in its constants
static WORDS: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
pub fn find_words(exe: &Path) {
    let _ = WORDS.set(std::fs::read(exe).map(|b| words_of(&b).unwrap_or_default()).unwrap_or_default());
}
fn words_of(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let num = |o: usize, n: usize| -> Option<usize> { Some(b.get(o..o + n)?.iter().rev().fold(0usize, |a, x| a << 8 | *x as usize)) };
    let (tab, size, count, names) = (num(0x28, 8)?, num(0x3a, 2)?, num(0x3c, 2)?, num(0x3e, 2)?);
    let strs = num(tab + names * size + 0x18, 8)?;
    let mut out = std::collections::BTreeSet::new();
    for i in 0..count {
        let h = tab + i * size;
        let name = strs + num(h, 4)?;
        if !b.get(name..)?.starts_with(b".rodata\0") {
            continue;
        }
        let at = num(h + 0x18, 8)?;
        let text = b.get(at..at + num(h + 0x20, 8)?)?;
        let me = b"libmgen";
        for k in 0..text.len().saturating_sub(me.len()) {
            if text[k..].starts_with(me) {
                let n = text[k..].iter().take(15).take_while(|c| c.is_ascii_alphanumeric() || **c == b'-' || **c == b'_').count();
                for m in me.len()..=n {
                    out.insert(text[k..k + m].to_vec());
                }
            }
        }
    }
    Some(out.into_iter().take(400).collect())
}

/// a random simulated machine
pub fn ambient(r: &mut Rng, s: &mut Step, strong: bool) {
    let p = &mut s.plan;
    p.add(format!("seed {}", r.next() >> 1));
    p.add(format!("heap_seed {}", r.next() >> 1));
    if strong || r.chance(1, 3) {
        p.add(format!("heap_fill {}", *r.pick(&[0u64, 1, 2, 0xff, 0xa5, 0x7f])));
        p.add(format!("heap_reuse {}", r.below(4)));
        p.add(format!("heap_pad {}", *r.pick(&[0u64, 1, 7, 40])));
        p.add(format!("heap_base {}", 0x1000_0000_0000u64 + (r.below(0x3000) << 28)));
    }
    if strong || r.chance(1, 3) {
        let start: i64 = match r.below(6) {
            0 => 0,
            1 => 1_000_000_000,
            2 => 4_102_444_800,
            3 => -86400 * 365,
            _ => 1_500_000_000 + r.below(400_000_000) as i64,
        };
        p.add(format!("clock_start {}", start * 1_000_000_000 + r.below(1_000_000_000) as i64));
        p.add(format!("clock_step {}", *r.pick(&[0u64, 1, 1000, 1_000_000, 5_000_000_000, 3_600_000_000_000])));
        for _ in 0..r.below(3) {
            let k = r.range(1, 6);
            let d = (r.below(2_000_000_000_000) as i64 - 1_000_000_000_000) * *r.pick(&[1i64, 1000, 100_000]);
            p.add(format!("clock_jump {} {}", k, d));
        }
    }
    p.add(format!("pid {}", r.range(2, 4_194_303)));
    if strong || r.chance(1, 3) {
        p.add(format!("cpus {}", *r.pick(&[1u64, 2, 3, 4, 7, 8, 16, 64, 128])));
        p.add(format!("tty {}", r.below(8)));
        p.add(format!("mtime {}", r.below(4_000_000_000)));
        p.add(format!("uid {}", r.below(4)));
        p.add(format!("umask {}", *r.pick(&[0u64, 0o002, 0o022, 0o027, 0o077])));
    }
    if strong {
        // who goes on, should the program ever have threads
        match r.below(6) {
            0 => {}
            1 => {
                p.add(format!("sched pct {} {}", r.range(1, 8), 1u64 << r.range(6, 20)));
            }
            2 => {
                p.add(format!("sched rr {}", 1u64 << r.range(0, 12)));
            }
            _ => {
                p.add(format!("sched rand 1 {}", 1u64 << r.range(1, 14)));
            }
        }
        p.add(format!("hostile_env {}", if r.chance(2, 3) { 2 } else { 0 }));
        s.layout = r.below(10);
        let input: Option<Vec<u8>> = match r.below(5) {
            0 => Some(b"sin\ncos\n".to_vec()),
            1 => Some((0..r.below(300)).map(|_| r.next() as u8).collect()),
            2 => Some(r.pick(&[&b"\n"[..], b"y\n", b"fn f() {}\n", b"32\n", b"{}", b"--language c\n"]).to_vec()),
            _ => None,
        };
        if let Some(b) = input {
            p.add(format!("stdin {}", pct(&b)));
        }
        let keys: [&str; 34] = [
            "HOME", "USER", "LANG", "LC_ALL", "LC_NUMERIC", "TZ", "TERM", "COLUMNS", "LINES", "PATH", "PWD", "TMPDIR", "NO_COLOR",
            "CLICOLOR_FORCE", "SOURCE_DATE_EPOCH", "RUST_BACKTRACE", "RUST_LOG", "DEBUG", "SEED", "LIBMGEN_DEBUG", "LIBMGEN_PRECISION",
            "DOCTOR_SYN_DEBUG", "NUM_DIGITS", "DIGITS", "OUT_DIR", "CARGO", "CARGO_MANIFEST_DIR", "RUSTFLAGS", "LANGUAGE", "EDITOR",
            "XDG_CACHE_HOME", "RAYON_NUM_THREADS", "OMP_NUM_THREADS", "CI",
        ];
        let vals: [&[u8]; 14] = [
            b"", b"1", b"0", b"full", b"C", b"de_DE.UTF-8", b"tr_TR", b"80", b"3", b"/nonexistent", b"UTC+13", b"hex", b"\xff\xfe", b"trace",
        ];
        for _ in 0..r.below(10) {
            let k = r.pick(&keys).as_bytes().to_vec();
            if s.env.iter().any(|(a, _)| *a == k) {
                continue;
            }
            s.env.push((k, r.pick(&vals).to_vec()));
        }
        if r.chance(1, 4) {
            // environment of another size
            s.env.push((b"FILLER".to_vec(), vec![b'x'; r.below(60_000) as usize]));
        }
        if r.chance(1, 3) {
            let usual = ["libmgen", "./libmgen", "/usr/bin/libmgen", "", "mgen32", "libmgen-c", "libmgen32", "libmgen64", "libmgen-simd", "libmgen-rust", "cargo-libmgen"];
            let words = WORDS.get().map(|w| &w[..]).unwrap_or(&[]);
            s.argv0 = Some(match words {
                [] => r.pick(&usual).as_bytes().to_vec(),
                _ if r.chance(1, 2) => r.pick(&usual).as_bytes().to_vec(),
                _ => {
                    let w = r.pick(words);
                    let at = *r.pick(&["", "", "./", "/usr/local/bin/"]);
                    [at.as_bytes(), w].concat()
                }
            });
        }
    }
}

const NAMES: [&[u8]; 9] = [
    b"out.rs", b"a b.rs", b"lib.c", b"-strange", b"x", b"caf\xc3\xa9.rs", b"bad\xff\xfename.rs", b"sub/out.rs", b"a.very.long.name.with.many.dots.and-more_of_it.generated.rs",
];

/// content that may lie at the destination before the run
pub fn prior(r: &mut Rng, refs: &Refs, pool: &Pool, args: &Args) -> Vec<u8> {
    let rf = refs.get(args, true);
    let t = rf.text;
    match r.below(18) {
        0 => vec![],
        // what people put into such files by hand or other tools do
        12..=14 => {
            let heads: [&[u8]; 12] = [
                b"// notes of my own\n// second line\n",
                b"// @generated by libmgen, do not edit\n",
                b"#![allow(dead_code)]\n",
                b"/* licence\n * text\n */\n",
                b"\xef\xbb\xbf",
                b"//! Module documentation\n\n",
                b"\n\n\n",
                b"# comment\n",
                b"mod user { pub fn f() {} }\n",
                b"// BEGIN GENERATED\n",
                b"#!/bin/sh\n",
                b"use std::f64;\r\n",
            ];
            let mut v = r.pick(&heads).to_vec();
            if r.chance(1, 3) {
                v.extend_from_slice(*r.pick(&heads));
            }
            if r.chance(2, 3) {
                v.extend_from_slice(&t);
            }
            if r.chance(1, 3) {
                let tails: [&[u8]; 4] = [b"\n// END GENERATED\nfn mine() {}\n", b"#[cfg(test)]\nmod tests {}\n", b"// trailing notes\n", b"\0\0\0\0"];
                v.extend_from_slice(*r.pick(&tails));
            }
            v
        }
        // another case of line ends, missing or doubled last line
        15 => match r.below(4) {
            0 => String::from_utf8_lossy(&t).replace('\n', "\r\n").into_bytes(),
            1 => [t.clone(), b"\n".to_vec()].concat(),
            2 => String::from_utf8_lossy(&t).trim_end().as_bytes().to_vec(),
            _ => [t.clone(), t.clone()].concat(),
        },
        // damage after a crash: zeroed blocks, a block of old data
        16 => {
            let mut v = t.clone();
            let n = v.len() as u64;
            let a = r.below(n + 1) as usize;
            let b = (a as u64 + r.range(1, 4096)).min(n) as usize;
            v[a..b].fill(0);
            v
        }
        1 => t.clone(),
        2 => [t.clone(), b"// tail of an older, longer file\n".to_vec()].concat(),
        3 => {
            // same length, one byte different
            let mut v = t.clone();
            if !v.is_empty() {
                let i = if r.chance(1, 2) { r.below(v.len() as u64) as usize } else { v.len() - 1 - r.below(v.len().min(8) as u64) as usize };
                v[i] ^= 1 << r.below(7);
            }
            v
        }
        4 => t[..r.below(t.len() as u64 + 1) as usize].to_vec(),
        5 => {
            let mut v: Vec<u8> = (0..t.len()).map(|_| r.next() as u8).collect();
            v.truncate(t.len());
            v
        }
        6 => vec![b'Z'; t.len() + r.below(5000) as usize],
        7 | 8 => refs.get(&pool.pick(r), true).text,
        9 => {
            // same first line(s), other rest
            let cut = t.iter().position(|c| *c == b'\n').map(|i| i + 1).unwrap_or(0);
            let mut v = t[..cut].to_vec();
            v.extend_from_slice(b"// something else entirely\n");
            v
        }
        10 => {
            // same first and last bytes and same length
            let mut v = t.clone();
            let n = v.len();
            if n > 40 {
                for x in &mut v[16..n - 16] {
                    *x = b'#';
                }
            }
            v
        }
        _ => (0..r.below(3000)).map(|_| r.next() as u8).collect(),
    }
}

pub fn gen_dest(r: &mut Rng, s: &mut Step, setup: &mut Vec<Init>) -> Vec<u8> {
    let n = if r.chance(1, 2) { b"out.rs".to_vec() } else { r.pick(&NAMES).to_vec() };
    if n.starts_with(b"sub/") && !setup.contains(&Init::Dir(b"sub".to_vec())) {
        setup.push(Init::Dir(b"sub".to_vec()));
    }
    s.abs = r.chance(1, 3) || n.starts_with(b"-");
    if r.chance(1, 6) && !n.starts_with(b"sub/") {
        // through a symbolic link
        let l = b"link.rs".to_vec();
        if !setup.iter().any(|i| matches!(i, Init::Link(x, _) if *x == l)) {
            setup.push(Init::Link(l.clone(), n.clone()));
        }
        s.dest = Some(l);
    } else {
        s.dest = Some(n.clone());
    }
    n
}

/// another file lying around that nobody may touch
fn bystanders(r: &mut Rng, seen: &Seen, setup: &mut Vec<Init>, dest: &[u8]) {
    let all: [&[u8]; 22] = [
        b"notes.txt", b"x.csv", b"lib.rs", b"\x01.tmp", b"\x01.bak", b"\x01~", b".\x01.swp", b"\x01.lock", b"\x02", b"\x01.orig", b"\x02.tmp", b"\x02.bak", b"\x01.old",
        b"\x02.old", b"\x01.new", b"\x02.new", b".\x01.tmp", b"\x01.part", b"\x01.partial", b"\x02.lock", b"#\x01#", b"\x02.c",
    ];
    for _ in 0..r.below(4) {
        let pat = if !seen.near.is_empty() && r.chance(1, 2) { r.pick(&seen.near).clone() } else { r.pick(&all).to_vec() };
        let n = near_name(&pat, dest);
        if n == dest || n.ends_with(b"/") || setup.iter().any(|i| matches!(i, Init::File(x, _) | Init::Link(x, _) | Init::Dir(x) if *x == n)) {
            continue;
        }
        let len = r.below(200);
        setup.push(Init::File(n, (0..len).map(|_| b'a' + r.below(26) as u8).collect()));
    }
}

pub fn generate(prop: &str, refs: &Refs, pool: &Pool, seed: u64, idx: u64) -> Case {
    let mut r = Rng::new(mix2(seed, idx));
    let r = &mut r;
    let mut c = Case { prop: prop.into(), setup: vec![], steps: vec![] };
    match prop {
        "C01" => {
            let mut s = Step::default();
            s.args = match r.below(20) {
                0 => a(&["-f", "help"]),
                1 => a(&["-f", "sin", "--language", *r.pick(&["fortran", "C", "", "c++"])]),
                2..=6 => pool.pick_big(r, 8192),
                7..=8 => pool.pick_big(r, 60_000),
                _ => pool.pick(r),
            };
            let to_file = r.chance(1, 2) && !is_listing(&s.args);
            if to_file {
                if r.chance(1, 20) {
                    s.dest = Some(r.pick(&[&b"/dev/full"[..], b"/dev/stdout", b"/dev/fd/1"]).to_vec());
                } else {
                    let n = gen_dest(r, &mut s, &mut c.setup);
                    match r.below(12) {
                        0 => c.setup.push(Init::Dir(n.clone())),
                        1 => s.dest = Some(b"missing/dir/out.rs".to_vec()),
                        2 => {
                            c.setup.push(Init::Link(b"loop".to_vec(), b"loop".to_vec()));
                            s.dest = Some(b"loop".to_vec());
                        }
                        3..=6 => {
                            let pr = prior(r, refs, pool, &s.args);
                            c.setup.push(Init::File(n.clone(), pr));
                        }
                        _ => {}
                    }
                }
            }
            let rf = refs.get(&s.args, to_file);
            ambient(r, &mut s, false);
            let n = match r.below(8) {
                0 => 0,
                1..=5 => 1,
                6 => 2,
                _ => 3,
            };
            for _ in 0..n {
                add_hard(r, &mut s.plan, rf.text.len() as u64, to_file, rf.allocs);
            }
            if r.chance(1, 3) {
                let w = if to_file { "wfile" } else { "wout" };
                add_short(r, &mut s.plan, w, rf.text.len() as u64);
            }
            if r.chance(1, 6) {
                add_eintr(r, &mut s.plan, if to_file { "wfile" } else { "wout" });
            }
            if r.chance(1, 3) {
                let files = r.chance(1, 2);
                tempt(r, refs, pool, &mut s, &mut c.setup, files);
            }
            c.steps.push(s);
        }
        "C02" => {
            let mut s = Step::default();
            s.args = match r.below(12) {
                0..=2 => pool.pick_big(r, 4096),
                3 => pool.pick_big(r, 8192),
                4 => pool.pick_big(r, 60_000),
                _ => pool.pick(r),
            };
            let to_file = r.chance(5, 6);
            if to_file {
                let n = gen_dest(r, &mut s, &mut c.setup);
                if r.chance(4, 5) {
                    let pr = prior(r, refs, pool, &s.args);
                    c.setup.push(Init::File(n.clone(), pr));
                }
                bystanders(r, &pool.seen, &mut c.setup, &n);
            }
            let rf = refs.get(&s.args, to_file);
            ambient(r, &mut s, false);
            let len = rf.text.len() as u64;
            if r.chance(1, 4) {
                if to_file {
                    add_short(r, &mut s.plan, "wfile", len);
                }
            }
            match r.below(10) {
                0..=5 => add_kill(r, &mut s.plan, len, to_file, rf.allocs),
                6..=7 => {
                    let k = match r.below(3) {
                        0 => r.range(1, rf.allocs.max(1)),
                        1 => rf.allocs.saturating_sub(r.below(rf.allocs / 3 + 1)).max(1),
                        _ => rf.allocs.saturating_sub(r.below(300)).max(1),
                    };
                    s.plan.add(format!("alloc_fail {} {}", k, *r.pick(&[1u64, 2, 1000000000])));
                }
                8 => add_hard(r, &mut s.plan, len, to_file, rf.allocs),
                _ => {
                    add_hard(r, &mut s.plan, len, to_file, rf.allocs);
                    add_kill(r, &mut s.plan, len, to_file, rf.allocs);
                }
            }
            if r.chance(1, 3) {
                let files = r.chance(1, 2);
                tempt(r, refs, pool, &mut s, &mut c.setup, files);
            }
            c.steps.push(s);
        }
        "C03" => {
            // a small set of requests and destinations, mixed
            let reqs: Vec<Args> = (0..r.range(1, 3)).map(|_| if r.chance(1, 5) { pool.pick_big(r, 4096) } else { pool.pick(r) }).collect();
            let nd = r.range(1, 2);
            let mut dests = vec![];
            for _ in 0..nd {
                let mut s = Step::default();
                let n = gen_dest(r, &mut s, &mut c.setup);
                dests.push((s.dest.clone(), s.abs, n));
            }
            if r.chance(2, 3) {
                let q = r.pick(&reqs).clone();
                let pr = prior(r, refs, pool, &q);
                let n = dests[0].2.clone();
                c.setup.push(Init::File(n.clone(), pr));
            }
            let n0 = dests[0].2.clone();
            bystanders(r, &pool.seen, &mut c.setup, &n0);
            let samepid = r.chance(1, 2);
            let pid = r.range(2, 4_000_000);
            let n = r.range(1, 7);
            let home = r.chance(1, 2);
            for k in 0..=n {
                let mut s = Step::default();
                if home {
                    at_home(pool, &mut s);
                }
                s.args = r.pick(&reqs).clone();
                let d = r.pick(&dests).clone();
                s.dest = d.0;
                s.abs = d.1;
                let rf = refs.get(&s.args, true);
                ambient(r, &mut s, false);
                if samepid {
                    s.plan.lines.retain(|l| !l.starts_with("pid "));
                    s.plan.add(format!("pid {}", pid));
                }
                if k < n {
                    let len = rf.text.len() as u64;
                    match r.below(10) {
                        0..=4 => add_kill(r, &mut s.plan, len, true, rf.allocs),
                        5..=7 => add_hard(r, &mut s.plan, len, true, rf.allocs),
                        8 => add_short(r, &mut s.plan, "wfile", len),
                        _ => {}
                    }
                }
                c.steps.push(s);
            }
            // process ids of dead runs are in use again
            pids_alive(r, &c.steps, &mut c.setup);
        }
        "C04" => {
            let mut s = Step::default();
            s.args = match r.below(12) {
                0..=2 => pool.pick_big(r, 3000),
                3..=4 => pool.pick_big(r, 8192),
                5 => pool.pick_big(r, 60_000),
                _ => pool.pick(r),
            };
            ambient(r, &mut s, true);
            if r.chance(1, 2) {
                let n = gen_dest(r, &mut s, &mut c.setup);
                if r.chance(1, 2) {
                    let pr = prior(r, refs, pool, &s.args);
                    c.setup.push(Init::File(n, pr));
                }
            }
            if r.chance(1, 3) {
                s.cwd = r.pick(&[&b"w"[..], b"w/deep/er", b"zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"]).to_vec();
                c.setup.push(Init::Dir(s.cwd.clone()));
            }
            if r.chance(1, 4) {
                // things a program might look for
                let names: [&[u8]; 6] = [b"Cargo.toml", b"libmgen.toml", b".libmgen", b"rustfmt.toml", b".cache", b"build.rs"];
                let n = r.pick(&names).to_vec();
                let at = if s.cwd.is_empty() { n } else { [s.cwd.clone(), b"/".to_vec(), n].concat() };
                c.setup.push(Init::File(at, b"num_bits = 32\nlanguage = \"c\"\n".to_vec()));
            }
            tempt(r, refs, pool, &mut s, &mut c.setup, true);
            c.steps.push(s);
        }
        "C05" => {
            let mut s = Step::default();
            s.args = match r.below(8) {
                0 => a(&["-f", "help"]),
                1..=3 => pool.pick_big(r, 8192),
                4 => pool.pick_big(r, 60_000),
                _ => pool.pick(r),
            };
            let to_file = r.chance(1, 2) && !is_listing(&s.args);
            if to_file {
                let n = gen_dest(r, &mut s, &mut c.setup);
                if r.chance(1, 2) {
                    let pr = prior(r, refs, pool, &s.args);
                    c.setup.push(Init::File(n, pr));
                }
            }
            let rf = refs.get(&s.args, to_file);
            ambient(r, &mut s, false);
            let w = if to_file { "wfile" } else { "wout" };
            let len = rf.text.len() as u64;
            for _ in 0..r.range(1, 4) {
                match r.below(8) {
                    0..=2 => add_short(r, &mut s.plan, w, len),
                    3..=4 => add_eintr(r, &mut s.plan, w),
                    5 if to_file => add_eintr(r, &mut s.plan, "openw"),
                    5 => {
                        // a slow reader: every write accepts a small part
                        let n = r.range(len / 40 + 1, len / 4 + 2);
                        s.plan.add(format!("fault wout 1+ short:{}", n));
                    }
                    6 => {
                        let cls = *r.pick(&["read", "openr", "trunc", "lock", "werr", "shortread"]);
                        if cls == "shortread" {
                            let n = *r.pick(&[1, 7, 512, 4096, len / 2 + 1]);
                            s.plan.add(format!("fault read 1+ short:{}", n.max(len / 200 + 1)));
                        } else {
                            add_eintr(r, &mut s.plan, cls)
                        }
                    }
                    _ => {
                        // interruptions between pieces
                        let n = r.range(len / 30 + 1, len / 2 + 2);
                        s.plan.add(format!("fault {} 1%2 err:4", w));
                        s.plan.add(format!("fault {} 0%2 short:{}", w, n));
                    }
                }
            }
            if r.chance(1, 3) {
                let files = r.chance(1, 2);
                tempt(r, refs, pool, &mut s, &mut c.setup, files);
            }
            c.steps.push(s);
        }
        "C06" => {
            let mut s = Step::default();
            s.args = match r.below(12) {
                0 => a(&["-f", "sin", "--language", *r.pick(&["fortran", "help", ""])]),
                1 => a(&["--num-bits", "32"]),
                2 => a(&["-f", "cos", "--num-bits", "abc"]),
                3 => a(&["-f", "cos", "--frobnicate"]),
                _ => {
                    let mut q = match r.below(12) {
                        0..=1 => pool.pick_big(r, 8192),
                        2 => pool.pick_big(r, 60_000),
                        3..=4 => pool.pick_big(r, 2000),
                        _ => pool.pick(r),
                    };
                    if r.chance(1, 3) && !has_flag(&q, &["-d", "--debug"]) {
                        q.push(b"-d".to_vec());
                    }
                    if r.chance(1, 3) && !has_flag(&q, &["-x", "--exclude"]) {
                        q.extend(a(&["-x", *r.pick(&["fty", "sin,fty", "nosuch", "PI,NAN,fty", ""])]));
                    }
                    q
                }
            };
            if r.chance(1, 2) {
                gen_dest(r, &mut s, &mut c.setup);
            }
            let rf = refs.get(&s.args, s.dest.is_some());
            let strong = r.chance(1, 4);
            ambient(r, &mut s, strong);
            s.plan.lines.retain(|l| !l.starts_with("hostile_env 2"));
            let len = rf.text.len() as u64;
            match r.below(8) {
                0..=2 => {}
                3 => {
                    let k = when(r, 3);
                    s.plan.add(format!("fault werr {} err:{}", k, *r.pick(&[32, 5, 28, 11])));
                }
                4 => add_kill(r, &mut s.plan, len, s.dest.is_some(), rf.allocs),
                5 => add_eintr(r, &mut s.plan, "wout"),
                _ => add_hard(r, &mut s.plan, len, s.dest.is_some(), rf.allocs),
            }
            if r.chance(1, 3) {
                let files = r.chance(1, 2);
                tempt(r, refs, pool, &mut s, &mut c.setup, files);
            }
            c.steps.push(s);
        }
        _ => unreachable!(),
    }
    // what is expected of a process is independent of what comes after it
    c
}

// ---------------------------------------------------------------------
// text form of a case

pub fn to_text(c: &Case) -> String {
    let mut o = String::new();
    for i in &c.setup {
        match i {
            Init::File(n, b) => o.push_str(&format!("setup-file {} {}\n", pct(n), pct(b))),
            Init::Dir(n) => o.push_str(&format!("setup-dir {}\n", pct(n))),
            Init::Link(n, t) => o.push_str(&format!("setup-link {} {}\n", pct(n), pct(t))),
        }
    }
    for s in &c.steps {
        o.push_str("step\n");
        for x in &s.args {
            o.push_str(&format!("arg {}\n", pct(x)));
        }
        if let Some(d) = &s.dest {
            o.push_str(&format!("dest {} {}\n", pct(d), s.abs as u8));
        }
        for (k, v) in &s.env {
            o.push_str(&format!("env {} {}\n", pct(k), pct(v)));
        }
        if let Some(x) = &s.argv0 {
            o.push_str(&format!("argv0 {}\n", pct(x)));
        }
        if !s.cwd.is_empty() {
            o.push_str(&format!("cwd {}\n", pct(&s.cwd)));
        }
        if s.layout != 0 {
            o.push_str(&format!("layout {}\n", s.layout));
        }
        for l in &s.plan.lines {
            o.push_str(&format!("plan {}\n", l));
        }
    }
    o
}
pub fn from_text(prop: &str, t: &str) -> Case {
    let mut c = Case { prop: prop.into(), setup: vec![], steps: vec![] };
    for l in t.lines() {
        let mut w = l.splitn(2, ' ');
        let k = w.next().unwrap_or("");
        let rest = w.next().unwrap_or("");
        let f: Vec<&str> = rest.split(' ').collect();
        match k {
            "setup-file" => c.setup.push(Init::File(unpct(f[0]), unpct(f[1]))),
            "setup-dir" => c.setup.push(Init::Dir(unpct(f[0]))),
            "setup-link" => c.setup.push(Init::Link(unpct(f[0]), unpct(f[1]))),
            "step" => c.steps.push(Step::default()),
            _ => {
                if let Some(s) = c.steps.last_mut() {
                    match k {
                        "arg" => s.args.push(unpct(f[0])),
                        "dest" => {
                            s.dest = Some(unpct(f[0]));
                            s.abs = f.get(1) == Some(&"1");
                        }
                        "env" => s.env.push((unpct(f[0]), unpct(f[1]))),
                        "argv0" => s.argv0 = Some(unpct(f[0])),
                        "cwd" => s.cwd = unpct(f[0]),
                        "layout" => s.layout = f[0].parse().unwrap_or(0),
                        "plan" => s.plan.lines.push(rest.to_string()),
                        _ => {}
                    }
                }
            }
        }
    }
    c
}

// ---------------------------------------------------------------------
// minimisation

pub fn minimise(refs: &Refs, c: &Case, class: &str, deadline: std::time::Instant) -> Case {
    let fails = |x: &Case| -> bool {
        if std::time::Instant::now() > deadline {
            return false;
        }
        let runs = exec(refs.ctx, x);
        judge(refs, x, &runs).map(|v| v.class == class).unwrap_or(false)
    };
    let mut cur = c.clone();
    loop {
        let mut changed = false;
        let attempt = |cand: Case, cur: &mut Case| -> bool {
            if cand != *cur && fails(&cand) {
                *cur = cand;
                true
            } else {
                false
            }
        };
        // drop steps
        let mut i = 0;
        while i < cur.steps.len() && cur.steps.len() > 1 {
            let mut x = cur.clone();
            x.steps.remove(i);
            if attempt(x, &mut cur) {
                changed = true;
            } else {
                i += 1;
            }
        }
        // drop setup
        let mut i = 0;
        while i < cur.setup.len() {
            let mut x = cur.clone();
            x.setup.remove(i);
            if attempt(x, &mut cur) {
                changed = true;
            } else {
                i += 1;
            }
        }
        for si in 0..cur.steps.len() {
            // all at once, then one by one
            let mut x = cur.clone();
            x.steps[si].env.clear();
            x.steps[si].argv0 = None;
            x.steps[si].layout = 0;
            changed |= attempt(x, &mut cur);
            let mut x = cur.clone();
            x.steps[si].plan.lines.retain(|l| l.starts_with("fault") || l.starts_with("alloc") || l.starts_with("disk") || l.starts_with("pipe"));
            changed |= attempt(x, &mut cur);
            let mut k = 0;
            while k < cur.steps[si].plan.lines.len() {
                let mut x = cur.clone();
                x.steps[si].plan.lines.remove(k);
                if attempt(x, &mut cur) {
                    changed = true;
                } else {
                    k += 1;
                }
            }
            let mut k = 0;
            while k < cur.steps[si].env.len() {
                let mut x = cur.clone();
                x.steps[si].env.remove(k);
                if attempt(x, &mut cur) {
                    changed = true;
                } else {
                    k += 1;
                }
            }
            for f in 0..4 {
                let mut x = cur.clone();
                let s = &mut x.steps[si];
                match f {
                    0 => s.argv0 = None,
                    1 => s.layout = 0,
                    2 => s.cwd.clear(),
                    _ => {
                        if s.dest.is_some() && s.dest.as_deref() != Some(b"out.rs") && !s.dest.as_ref().unwrap().starts_with(b"/") {
                            s.dest = Some(b"out.rs".to_vec());
                            s.abs = false;
                        }
                    }
                }
                changed |= attempt(x, &mut cur);
            }
            // simpler requests
            for simple in [a(&["-f", "PI"]), a(&["-f", "sin", "--num-bits", "32"])] {
                if cur.steps[si].args.len() > simple.len() || (cur.steps[si].args != simple && simple.len() == 2) {
                    let mut x = cur.clone();
                    x.steps[si].args = simple;
                    if attempt(x, &mut cur) {
                        changed = true;
                        break;
                    }
                }
            }
            let mut k = cur.steps[si].args.len();
            while k > 2 {
                k -= 1;
                for n in [1usize, 2] {
                    if k + n <= cur.steps[si].args.len() {
                        let mut x = cur.clone();
                        x.steps[si].args.drain(k..k + n);
                        if attempt(x, &mut cur) {
                            changed = true;
                            k = k.min(cur.steps[si].args.len());
                            break;
                        }
                    }
                }
            }
        }
        if !changed || std::time::Instant::now() > deadline {
            return cur;
        }
    }
}

pub fn count(c: &Case, runs: &[StepRun], n: &mut Counts) {
    for (s, r) in c.steps.iter().zip(runs) {
        count_run(&s.plan, &r.out, n);
    }
}
pub fn count_run(plan: &Plan, o: &Outcome, n: &mut Counts) {
    for (i, f) in plan.faults().iter().enumerate() {
        let k = o.fired.get(i).copied().unwrap_or(0);
        if k > 0 {
            let w: Vec<&str> = f.split(' ').collect();
            let act = match w[2] {
                "err:4" => "EINTR".to_string(),
                x if x.starts_with("short") => "short count".into(),
                "zero" => "nothing accepted".into(),
                x if x.starts_with("killmid") => "kill in the middle".into(),
                "kill" => "kill before".into(),
                "killafter" => "kill after".into(),
                x => format!("errno {}", &x[4..]),
            };
            n.add(&format!("{} {}", w[0], act), k);
        }
    }
    if o.allocfail > 0 {
        n.add("allocation failure", o.allocfail.min(1));
    }
    if o.killed_by_plan() && plan.get("alloc_kill").is_some() {
        n.add("kill at an allocation", 1);
    }
    n.add("disk full", o.diskfull);
    n.add("pipe closed or full", o.pipefull);
}

pub fn file_at_pub(s: &Snap, d: &[u8]) -> bool {
    file_at(s, d).is_some()
}
pub fn build_pool_single(_refs: &Refs, args: &Args) -> Pool {
    Pool { reqs: vec![(args.clone(), 1.0, 0, 0)], total: 1.0, names: vec![], seen: Default::default() }
}
