//! C11: the Rust code that libmgen generates, compiled and called from scripts inside the simulator.
use crate::libcase::*;
use crate::mgen::{ambient, Step, Viol};
use crate::util::*;
use crate::Ctx;
use std::collections::HashMap;
use std::path::Path;
use std::time::Duration;

/// the functions that are asked for
pub const LIBS: [(&str, &str, &str); 4] = [("f32d", "32", "decimal"), ("f64d", "64", "decimal"), ("f32h", "32", "hex"), ("f64h", "64", "hex")];

pub struct Fun {
    pub lib: String,
    pub name: String,
    pub args: Vec<String>,
}

fn squeeze(t: &str) -> String {
    // comments away, one blank between words
    let mut o = String::new();
    for l in t.lines() {
        let l = l.split("//").next().unwrap_or("");
        for w in l.split_whitespace() {
            o.push_str(w);
            o.push(' ');
        }
    }
    o
}
const KNOWN: [&str; 16] = ["fty", "ity", "uty", "f32", "f64", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "bool"];
fn is_id(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}
/// functions at the top level of generated code: name, argument types
fn functions(t: &str) -> Vec<(String, Vec<String>)> {
    let t: Vec<char> = squeeze(t).chars().collect();
    let mut v: Vec<(String, Vec<String>)> = vec![];
    let mut depth = 0;
    let mut i = 0;
    while i < t.len() {
        match t[i] {
            '{' => depth += 1,
            '}' => depth -= 1,
            'f' if depth == 0 && i + 2 < t.len() && !(i >= 7 && t[i - 7..i].iter().collect::<String>() == "unsafe ") && t[i + 1] == 'n' && t[i + 2] == ' ' && (i == 0 || !is_id(t[i - 1])) => {
                let mut j = i + 3;
                let mut name = String::new();
                while j < t.len() && is_id(t[j]) {
                    name.push(t[j]);
                    j += 1;
                }
                while j < t.len() && t[j] == ' ' {
                    j += 1;
                }
                if j < t.len() && t[j] == '(' {
                    let mut args = vec![];
                    let mut a = String::new();
                    let mut plain = true;
                    j += 1;
                    while j < t.len() && t[j] != ')' {
                        if t[j] == ',' {
                            args.push(std::mem::take(&mut a));
                        } else {
                            plain &= t[j] != '(' && t[j] != '<' && t[j] != '[' && t[j] != '&';
                            a.push(t[j]);
                        }
                        j += 1;
                    }
                    if !a.trim().is_empty() {
                        args.push(a);
                    }
                    let types: Vec<String> = args.iter().filter_map(|a| a.split_once(':').map(|x| x.1.trim().to_string())).collect();
                    // only what the driver can pass and print; a helper with other types is reached through its callers
                    let ret: String = t[j..].iter().take_while(|c| **c != '{').collect();
                    let known = |w: &str| KNOWN.contains(&w) || w.chars().all(|c| c.is_ascii_digit());
                    let ret_ok = !ret.contains('&') && !ret.contains('*') && ret.split(|c| !is_id(c)).all(|w| w.is_empty() || w == "Option" || known(w));
                    if plain && ret_ok && types.len() == args.len() && types.iter().all(|t| known(t)) && !v.iter().any(|x| x.0 == name) {
                        v.push((name, types));
                    }
                }
                i = j;
                continue;
            }
            _ => {}
        }
        i += 1;
    }
    v
}

/// write glue.rs and functions.txt for the generated files in `dir`
pub fn glue(dir: &Path) -> i32 {
    let mut s = String::new();
    let mut list = String::new();
    let mut arms = String::new();
    for (lib, _, _) in LIBS {
        let f = dir.join(format!("{}.rs", lib));
        let t = match std::fs::read_to_string(&f) {
            Ok(t) => t,
            Err(_) => continue,
        };
        s.push_str(&format!("#[allow(warnings)]\nmod {} {{\n    include!(concat!(env!(\"GEN_DIR\"), \"/{}.rs\"));\n", lib, lib));
        s.push_str("    pub fn glue_call(name: &str, a: &[u64], o: &mut String) -> bool {\n        match name {\n");
        for (name, types) in functions(&t) {
            let n = types.len();
            let args: Vec<String> = (0..n).map(|k| format!("<{} as crate::Raw>::get(c[{}])", types[k], k)).collect();
            if n == 0 {
                continue;
            }
            s.push_str(&format!(
                "            \"{}\" => for c in a.chunks({}) {{ if c.len() == {} {{ let r = std::hint::black_box({}({})); crate::Raw::put(&r, o); }} }},\n",
                name,
                n,
                n,
                name,
                args.join(", ")
            ));
            list.push_str(&format!("{} {} {}\n", lib, name, types.join(" ")));
        }
        s.push_str("            _ => return false,\n        }\n        true\n    }\n}\n");
        arms.push_str(&format!("        \"{}\" => {}::glue_call(name, a, o),\n", lib, lib));
    }
    s.push_str(&format!("fn glue(lib: &str, name: &str, a: &[u64], o: &mut String) -> bool {{\n    match lib {{\n{}        _ => false,\n    }}\n}}\n", arms));
    if std::fs::write(dir.join("glue.rs"), s).is_err() || std::fs::write(dir.join("functions.txt"), list).is_err() {
        return 3;
    }
    0
}

/// the generated code has to exist and to compile; bin/build writes down what happened
pub fn not_built(ctx: &Ctx) -> Option<Viol> {
    let t = std::fs::read_to_string(ctx.art.join("gen/status")).unwrap_or_default();
    if t.trim() == "ok" {
        return None;
    }
    if let Some(r) = t.strip_prefix("violation ") {
        return Some(Viol { class: "does-not-compile".into(), detail: r.trim().to_string() });
    }
    crate::sim::harness_error(&format!("gendrv was not built: {}", t))
}

pub fn load(ctx: &Ctx) -> Vec<Fun> {
    let t = std::fs::read_to_string(ctx.art.join("gen/functions.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let mut w = l.split(' ').map(|s| s.to_string());
            Some(Fun { lib: w.next()?, name: w.next()?, args: w.collect() })
        })
        .collect()
}

fn arg(r: &mut Rng, ty: &str, wide: bool, near: u64) -> u64 {
    let f = match r.below(12) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0]),
        1 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e30, -1e30, 1e300, 3.0e38, f64::MAX]),
        2 => *r.pick(&[f64::MIN_POSITIVE, 1e-45, -1e-45, 1e-40, 5e-324, 1.1754944e-38, 1e-310]),
        3 => *r.pick(&[1u64, 2, 3, 4, 6, 8]) as f64 * std::f64::consts::PI / *r.pick(&[1.0, 2.0, 3.0, 4.0, 8.0]),
        4 | 5 => (near % 97) as f64 / 97.0 + (r.below(5) as f64) * 1e-3,
        6 => (r.below(2_000_001) as f64 - 1e6) / 1000.0,
        7 => (r.below(2001) as f64 - 1000.0) * 1e-9,
        8 => r.below(1 << 30) as f64,
        _ => (r.below(4_000_001) as f64 - 2e6) / 1e6,
    };
    match ty {
        "fty" | "f32" | "f64" => {
            if wide {
                if r.chance(1, 40) {
                    // another kind of NaN
                    return *r.pick(&[0x7ff0_0000_0000_0001, 0xfff8_0000_0000_1234]);
                }
                f.to_bits()
            } else {
                if r.chance(1, 40) {
                    return *r.pick(&[0x7f80_0001, 0xffc0_1234]);
                }
                (f as f32).to_bits() as u64
            }
        }
        "ity" | "i32" | "i64" => (r.below(41) as i64 - 20) as u64,
        "bool" => r.below(2),
        _ => match r.below(5) {
            0 => near % 1000,
            1 => near % 1000 + 1,
            2 => r.next(),
            3 => r.below(100_000),
            _ => r.below(8),
        },
    }
}

pub fn build_gen_pool(refs: &LibRefs, seed: u64, per: usize) -> LibPool {
    let funs = load(refs.ctx);
    let mut r = Rng::new(mix2(seed, 0x9e11));
    let mut fams: Vec<Vec<String>> = vec![];
    let mut byname: HashMap<String, Vec<String>> = HashMap::new();
    for f in &funs {
        let wide = f.lib.contains("64");
        let mut v = vec![];
        let near = r.next();
        for _ in 0..per {
            let calls = *r.pick(&[1usize, 1, 2, 4, 8, 16]);
            let mut s = format!("gen {} {}", f.lib, f.name);
            for _ in 0..calls {
                for t in &f.args {
                    s.push_str(&format!(" {:x}", arg(&mut r, t, wide, near)));
                }
            }
            v.push(s);
        }
        v.sort();
        v.dedup();
        byname.entry(f.name.clone()).or_default().extend(v.iter().cloned());
        fams.push(v);
    }
    // the same function in all libraries is a family, too
    let mut names: Vec<_> = byname.into_iter().collect();
    names.sort();
    fams.extend(names.into_iter().map(|x| x.1));
    finish_pool(refs, fams, Duration::from_millis(300))
}

pub fn gen_gen(ctx: &Ctx, pool: &LibPool, seed: u64, idx: u64) -> LibCase {
    let mut r = Rng::new(mix2(seed ^ 0xc11, idx));
    let r = &mut r;
    let mut c = LibCase { prop: "C11".into(), ..Default::default() };
    let name = |v: &[usize]| -> Vec<String> { v.iter().map(|i| pool.ops[*i].0.clone()).collect() };
    let machine = |r: &mut Rng, c: &mut LibCase, strong: bool| {
        let mut s = Step::default();
        ambient(r, &mut s, strong);
        if !c.windows {
            s.plan.lines.retain(|l| !l.starts_with("hostile_env"));
        }
        c.plan = s.plan;
        c.env = s.env;
        c.layout = s.layout;
    };
    match r.below(12) {
        // at the same time
        0..=5 => {
            c.mode = "par".into();
            let (n, per) = if r.chance(1, 20) { (*r.pick(&[6usize, 9, 17, 33]), 1) } else { (r.range(2, 4) as usize, *r.pick(&[1usize, 2, 3, 6, 12, 30])) };
            let sel = pool.draw(r, n * per, u64::MAX);
            c.threads = (0..n).map(|t| name(&sel[t * per..(t + 1) * per])).collect();
            if r.chance(1, 4) {
                let t0 = c.threads[0].clone();
                for t in c.threads.iter_mut() {
                    *t = t0.clone();
                }
            }
            add_sched(r, &mut c.plan, pool.cost(&sel));
            if r.chance(1, 5) {
                // a thread that never comes back
                let o = exec_lib(ctx, &c, false);
                let s = o.steps.max(10);
                c.plan.lines.retain(|l| !l.starts_with("max_steps"));
                c.plan.add(format!("max_steps {}", s * 10 + 200_000));
                let k = if n > 2 { r.range(1, n as u64 - 1) } else { 1 };
                let mut ts: Vec<u64> = (1..=n as u64).collect();
                for _ in 0..k {
                    let t = ts.remove(r.below(ts.len() as u64) as usize);
                    c.plan.add(format!("stall {} {}", t, r.range(1, (s / n as u64).max(2))));
                }
            }
        }
        // one after the other, on random machines
        6..=8 => {
            c.mode = "seq".into();
            let strong = r.chance(1, 8);
            machine(r, &mut c, strong);
            c.plan.add("gran 2");
            let n = *r.pick(&[2u64, 6, 20, 60, 200, 400]) as usize;
            let mut sel = vec![];
            while sel.len() < n {
                let k = (r.range(1, 60) as usize).min(n - sel.len());
                sel.extend(pool.draw(r, k, u64::MAX));
            }
            let mut l = name(&sel);
            if r.chance(1, 3) {
                let i = r.below(pool.ops.len() as u64) as usize;
                let k = *r.pick(&[130u64, 300, 1030, 5000, if ctx.thorough || !pool.focus.is_empty() { 70_000 } else { 5000 }]);
                let at = r.below(l.len() as u64 + 1) as usize;
                l.insert(at, format!("rep {} {}", k, pool.ops[i].0));
            }
            if r.chance(1, 3) {
                let k = r.range(2, 4) as usize;
                let m = l.len().div_ceil(k);
                c.threads = l.chunks(m.max(1)).map(|x| x.to_vec()).collect();
            } else {
                c.threads = vec![l];
            }
            if r.chance(1, 5) {
                c.place = place(r, c.threads[0].len());
            }
        }
        // marked calls on hostile machines
        9 | 10 => {
            c.mode = "seq".into();
            c.windows = true;
            machine(r, &mut c, true);
            hostile(r, &mut c.plan);
            let n = r.range(1, 16) as usize;
            let sel = pool.draw(r, n, u64::MAX);
            c.threads = vec![name(&sel)];
            if r.chance(1, 3) {
                c.place = place(r, c.threads[0].len());
            }
        }
        // over and over
        _ => {
            let (how, nt) = *r.pick(&[("main", 1usize), ("fresh", 2), ("par", 2)]);
            let k = r.range(1, 10) as usize;
            let sel = pool.draw(r, k * nt, u64::MAX);
            let rounds = *r.pick(&[6u64, 12, 40, 150]);
            c.mode = format!("rounds {} {}", rounds, how);
            c.threads = sel.chunks(k).map(&name).collect();
            if how == "par" {
                let k = pool.cost(&sel);
                add_sched(r, &mut c.plan, (k.0 * rounds, k.1 * rounds));
            } else {
                c.plan.add("gran 2");
            }
        }
    }
    c
}
