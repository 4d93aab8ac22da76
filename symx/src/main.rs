//! symx: bounded symbolic execution of LLVM IR harnesses, with Z3 as the decision procedure.
mod exec;
mod parse;
mod refs;
mod shm;
mod solve;
mod term;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::Ordering::SeqCst;
use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32;
}

#[derive(Default)]
struct Report {
    sums: BTreeMap<String, f64>,
    maxs: BTreeMap<String, f64>,
    reached: BTreeMap<u64, u64>,
    errors: Vec<String>,
    functions: BTreeSet<String>,
    violations: Vec<String>,
    samples: Vec<String>,
}

impl Report {
    fn of(e: &Engine) -> Report {
        let mut r = Report::default();
        let s = &e.stats;
        let d = &e.ctx.stats;
        let z = &e.ctx.z3;
        for (k, v) in [
            ("paths", s.paths),
            ("pruned", s.pruned),
            ("forks", s.forks),
            ("instructions", s.instrs),
            ("checks", s.checks),
            ("checks_const", s.checks_const),
            ("decided_filter", d.decided_filter),
            ("decided_solver", d.decided_solver),
            ("decided_model", d.decided_model),
            ("solver_cache_hits", d.cache_hits),
            ("solver_shared_hits", d.shared_hits),
            ("confirms", d.confirms),
            ("confirm_cached", d.confirm_cached),
            ("confirm_skipped", d.confirm_skipped),
            ("splits", d.splits),
            ("split_confirms", d.split_confirms),
            ("split_skipped", d.split_skipped),
            ("unknown", d.unknown),
            ("decided_product", d.decided_product),
            ("relations", d.rels_made),
            ("queries", z.queries),
            ("sat", z.sat),
            ("unsat", z.unsat),
            ("evaluations", e.ctx.doms.tab_evals),
            ("inversions", e.ctx.pool.inversions),
        ] {
            r.sums.insert(k.into(), v as f64);
        }
        r.sums.insert("solver_seconds".into(), z.nanos as f64 / 1e9);
        for (k, v) in [
            ("max_decisions", s.max_decisions as f64),
            ("max_query_seconds", z.max_nanos as f64 / 1e9),
            ("terms", e.ctx.pool.nodes.len() as f64),
            ("domains", e.ctx.doms.doms.len() as f64),
        ] {
            r.maxs.insert(k.into(), v);
        }
        r.reached = e.reached.iter().map(|(k, v)| (*k, *v)).collect();
        r.errors = e.errors.clone();
        r.functions = e.funcs_run.iter().map(|f| e.m.funcs[*f as usize].name.clone()).collect();
        r.samples = e
            .samples
            .iter()
            .map(|(m, s)| {
                let m: Vec<String> = m.iter().map(|(a, b)| format!("\"{}\": {}", a, b)).collect();
                let s: Vec<String> = s.iter().map(|x| x.to_string()).collect();
                format!("{{\"model\": {{{}}}, \"reach\": [{}]}}", m.join(", "), s.join(", "))
            })
            .collect();
        r.violations = e
            .violations
            .iter()
            .map(|v| {
                let m: Vec<String> = v.model.iter().map(|(a, b)| format!("\"{}\": {}", a, b)).collect();
                let d: Vec<String> = v.path_vars.iter().map(|(a, b)| format!("\"{}\": {}", a, js(b))).collect();
                format!(
                    "{{\"kind\": {}, \"detail\": {}, \"model\": {{{}}}, \"domains\": {{{}}}}}",
                    js(&v.kind),
                    js(&v.detail),
                    m.join(", "),
                    d.join(", ")
                )
            })
            .collect();
        r
    }
    fn write(&self, p: &str) {
        let mut o = String::new();
        for (k, v) in &self.sums {
            o.push_str(&format!("s {} {}\n", k, v));
        }
        for (k, v) in &self.maxs {
            o.push_str(&format!("m {} {}\n", k, v));
        }
        for (k, v) in &self.reached {
            o.push_str(&format!("r {} {}\n", k, v));
        }
        for x in &self.errors {
            o.push_str(&format!("e {}\n", x.replace('\n', " ")));
        }
        for x in &self.functions {
            o.push_str(&format!("f {}\n", x));
        }
        for x in &self.violations {
            o.push_str(&format!("v {}\n", x));
        }
        for x in &self.samples {
            o.push_str(&format!("p {}\n", x));
        }
        o.push_str("end\n");
        std::fs::write(p, o).unwrap();
    }
    /// false when the worker did not finish its report
    fn merge(&mut self, p: &str) -> bool {
        let t = match std::fs::read_to_string(p) {
            Ok(t) => t,
            Err(_) => return false,
        };
        let mut end = false;
        for l in t.lines() {
            if l == "end" {
                end = true;
                break;
            }
            let (k, rest) = l.split_at(1);
            let rest = &rest[1..];
            let kv = || rest.split_once(' ').unwrap();
            match k {
                "s" => *self.sums.entry(kv().0.into()).or_insert(0.0) += kv().1.parse::<f64>().unwrap(),
                "m" => {
                    let e = self.maxs.entry(kv().0.into()).or_insert(0.0);
                    *e = e.max(kv().1.parse::<f64>().unwrap());
                }
                "r" => *self.reached.entry(kv().0.parse().unwrap()).or_insert(0) += kv().1.parse::<u64>().unwrap(),
                "e" => self.errors.push(rest.into()),
                "f" => {
                    self.functions.insert(rest.into());
                }
                "p" => self.samples.push(rest.into()),
                _ => self.violations.push(rest.into()),
            }
        }
        end
    }
}

/// Depth-first exploration. When a worker slot is free, the process forks and the new
/// process takes every other open state, oldest first.
fn explore(e: &mut Engine, work: &mut VecDeque<State>, t0: &Instant, deadline: f64, jobs: usize, sh: shm::Shared, id: &mut usize) {
    let mut last = Instant::now();
    let mut n = 0u32;
    while let Some(s) = work.pop_back() {
        if let Some(s) = e.run_path(s, work) {
            work.push_back(s);
        }
        n += 1;
        if t0.elapsed().as_secs_f64() > deadline {
            if !work.is_empty() {
                sh.counter(TIMED_OUT).store(1, SeqCst);
            }
            break;
        }
        if e.violations.len() >= e.max_viol {
            work.clear();
            sh.counter(STOP).store(1, SeqCst);
            break;
        }
        if n % 8 == 0 && sh.counter(STOP).load(SeqCst) != 0 {
            work.clear();
            break;
        }
        if jobs > 1 && work.len() >= 2 && last.elapsed().as_millis() > 40 {
            let a = sh.counter(ACTIVE).load(SeqCst);
            if (a as usize) < jobs && sh.counter(ACTIVE).compare_exchange(a, a + 1, SeqCst, SeqCst).is_ok() {
                let pid = unsafe { fork() };
                assert!(pid >= 0, "fork failed");
                let mine = if pid == 0 { 0 } else { 1 };
                let all: Vec<State> = work.drain(..).collect();
                for (i, s) in all.into_iter().enumerate() {
                    if i % 2 == mine {
                        work.push_back(s);
                    }
                }
                if pid == 0 {
                    *id = sh.counter(IDS).fetch_add(1, SeqCst) as usize;
                    e.reset_counters();
                }
                last = Instant::now();
            }
        }
    }
    sh.counter(OPEN).fetch_add(work.len() as u64, SeqCst);
    sh.counter(ACTIVE).fetch_sub(1, SeqCst);
}
const IDS: usize = 0;
const STOP: usize = 1;
const OPEN: usize = 2;
const TIMED_OUT: usize = 3;
const ACTIVE: usize = 4;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| -> Option<String> { args.iter().position(|a| a == n).map(|i| args[i + 1].clone()) };
    let t0 = Instant::now();
    let ll = opt("--ll").expect("--ll");
    let refp = opt("--ref").expect("--ref");
    let harness = opt("--harness").expect("--harness");
    let deadline: f64 = opt("--deadline").map(|s| s.parse().unwrap()).unwrap_or(1e9);
    let jobs: usize = opt("--jobs").map(|s| s.parse().unwrap()).unwrap_or(1);
    let out = opt("--out");
    let m = parse::Module::load(&ll);
    let t_load = t0.elapsed().as_secs_f64();
    let mut e = Engine::new(m, refs::Refs::load(&refp));
    e.trace = args.iter().any(|a| a == "--trace");
    e.do_confirm = !args.iter().any(|a| a == "--no-confirm");
    e.ctx.do_confirm = e.do_confirm;
    e.ctx.dump = opt("--dump");
    if let Some(x) = opt("--rlimit") {
        e.ctx.rlimit = x.parse().unwrap();
    }
    if let Some(x) = opt("--max-viol") {
        e.max_viol = x.parse().unwrap();
    }
    if let Some(f) = opt("--fix") {
        for (i, x) in f.split(',').enumerate() {
            if !x.is_empty() {
                e.fix.insert(i as u32, u64::from_str_radix(x, 16).unwrap());
            }
        }
    }
    let mut work: VecDeque<State> = VecDeque::new();
    let st = e.initial(&harness);
    work.push_back(st);
    let sh = shm::Shared::new(opt("--cache").as_deref());
    sh.clear_counters();
    e.ctx.shared = Some(sh);
    let base = out.clone().unwrap_or_else(|| format!("/tmp/symx.{}", std::process::id()));
    let mut rep = Report::default();
    unsafe { prctl(36, 1, 0, 0, 0) };
    sh.counter(ACTIVE).store(1, SeqCst);
    sh.counter(IDS).store(1, SeqCst);
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        let mut id = 0;
        explore(&mut e, &mut work, &t0, deadline, jobs, sh, &mut id);
        Report::of(&e).write(&format!("{}.w{}", base, id));
        unsafe { _exit(0) };
    }
    loop {
        let mut st = 0;
        let p = unsafe { waitpid(-1, &mut st, 0) };
        if p < 0 {
            break;
        }
        if st != 0 {
            rep.errors.push(format!("worker ended with status {}", st));
        }
    }
    let workers = sh.counter(IDS).load(SeqCst) as usize;
    for k in 0..workers {
        let f = format!("{}.w{}", base, k);
        if !rep.merge(&f) {
            rep.errors.push(format!("worker {} left no report", k));
        }
        let _ = std::fs::remove_file(&f);
    }
    let timed_out = sh.counter(TIMED_OUT).load(SeqCst) == 1;
    let open = sh.counter(OPEN).load(SeqCst) as usize;
    let mut o = String::new();
    o.push_str("{\n");
    o.push_str(&format!(" \"harness\": {},\n", js(&harness)));
    o.push_str(&format!(
        " \"complete\": {}, \"timed_out\": {}, \"open_states\": {},\n",
        !timed_out && rep.errors.is_empty() && (open == 0),
        timed_out,
        open
    ));
    let num = |x: f64| if x.fract() == 0.0 { format!("{}", x as u64) } else { format!("{:.3}", x) };
    for (k, v) in rep.sums.iter().chain(rep.maxs.iter()) {
        o.push_str(&format!(" \"{}\": {},\n", k, num(*v)));
    }
    o.push_str(&format!(
        " \"solver\": {}, \"load_seconds\": {:.2}, \"seconds\": {:.2}, \"jobs\": {}, \"workers\": {},\n",
        js(&z3::Z3::version()),
        t_load,
        t0.elapsed().as_secs_f64(),
        jobs,
        workers
    ));
    let r: Vec<String> = rep.reached.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect();
    o.push_str(&format!(" \"reached\": {{{}}},\n", r.join(", ")));
    let er: Vec<String> = rep.errors.iter().take(20).map(|x| js(x)).collect();
    o.push_str(&format!(" \"error_count\": {}, \"errors\": [{}],\n", rep.errors.len(), er.join(", ")));
    let fr: Vec<String> = rep.functions.iter().map(|f| js(f)).collect();
    o.push_str(&format!(" \"functions\": [{}],\n", fr.join(", ")));
    let n = rep.samples.len();
    let keep: Vec<String> = (0..n.min(12)).map(|i| rep.samples[i * n / n.min(12)].clone()).collect();
    o.push_str(&format!(" \"samples\": [{}],\n", keep.join(",\n  ")));
    o.push_str(&format!(" \"violations\": [{}]\n}}\n", rep.violations.join(",\n  ")));
    match out {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => print!("{}", o),
    }
}
