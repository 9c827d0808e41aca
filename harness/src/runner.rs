//! Drives exploration of a property's cases over all cores, confirms counterexamples, and writes evidence.
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

use crate::engine::{with, Abort, Item, Stats, Violation};

pub struct Case {
    pub name: &'static str,
    pub thorough_only: bool,
    pub quick_only: bool,
    /// The bounds within which the case decides its assertion.
    pub bounds: String,
    /// The functions of the repository that the case executes symbolically.
    pub encodes: &'static [&'static str],
    /// Situations that exploration must reach, else the case is vacuous.
    pub witnesses: &'static [&'static str],
    pub run: Box<dyn Fn() + Send + Sync>,
}

impl Case {
    pub fn new(name: &'static str, bounds: impl Into<String>, encodes: &'static [&'static str], witnesses: &'static [&'static str], run: impl Fn() + Send + Sync + 'static) -> Case {
        Case { name, thorough_only: false, quick_only: false, bounds: bounds.into(), encodes, witnesses, run: Box::new(run) }
    }
    pub fn thorough(mut self) -> Case { self.thorough_only = true; self }
    pub fn quick(mut self) -> Case { self.quick_only = true; self }
}

pub struct Prop { pub id: &'static str, pub title: &'static str, pub outside: &'static str, pub assumptions: &'static [&'static str], pub cases: Vec<Case> }

struct Shared { queue: Mutex<(Vec<Item>, usize)>, cv: Condvar, hungry: AtomicUsize, stop: AtomicBool, threads: usize, done: AtomicU64 }

#[derive(Default)]
struct Outcome { stats: Stats, violations: Vec<Violation>, witnesses: HashSet<&'static str>, exhausted: bool, left: usize, wall: f64, diverged: Option<String>, samples: Vec<String> }

thread_local! { static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }

fn install_hook() {
    let verbose = std::env::var("DDV_VERBOSE").is_ok();
    std::panic::set_hook(Box::new(move |info| {
        let p = info.payload();
        if p.is::<Abort>() { return; }
        let msg = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "panic".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panic at {}: {}", loc, msg);
        if verbose { eprintln!("{}\n{}", text, std::backtrace::Backtrace::force_capture()); }
        PANIC.with(|c| { let mut c = c.borrow_mut(); if c.is_none() { *c = Some(text); } });
    }));
}

fn run_path(run: &(dyn Fn() + Send + Sync)) -> bool {
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| run()));
    match r {
        Ok(()) => true,
        Err(p) => {
            let text = PANIC.with(|c| c.borrow_mut().take());
            let mut complete = false;
            if !p.is::<Abort>() || text.is_some() {
                let text = text.unwrap_or_else(|| "panic".into());
                with(|e| if e.violation.is_none() && e.diverged.is_none() { e.record_violation(text) });
                complete = true;
            }
            complete || with(|e| e.violation.is_some())
        }
    }
}

fn worker(sh: &Shared, case: &Case, out: &Mutex<Outcome>, deadline: Instant, sample: bool) {
    let mut local: Vec<Item> = vec![];
    let mut last = Stats::default();
    loop {
        if sh.stop.load(Ordering::Relaxed) { break; }
        if Instant::now() > deadline { sh.stop.store(true, Ordering::Relaxed); sh.cv.notify_all(); break; }
        let item = match local.pop() {
            Some(i) => i,
            None => {
                let mut q = sh.queue.lock().unwrap();
                loop {
                    if sh.stop.load(Ordering::Relaxed) { break; }
                    if let Some(i) = q.0.pop() { local.push(i); break; }
                    q.1 += 1;
                    sh.hungry.store(q.1, Ordering::Relaxed);
                    if q.1 == sh.threads { sh.stop.store(true, Ordering::Relaxed); sh.done.store(1, Ordering::Relaxed); sh.cv.notify_all(); break; }
                    q = sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
                    q.1 -= 1;
                    sh.hungry.store(q.1, Ordering::Relaxed);
                    if Instant::now() > deadline { sh.stop.store(true, Ordering::Relaxed); sh.cv.notify_all(); break; }
                }
                match local.pop() { Some(i) => i, None => break }
            }
        };
        with(|e| e.begin(item));
        let completed = run_path(&*case.run);
        let (items, viol, wit, div, text) = with(|e| {
            if completed { e.stats.paths += 1 } else { e.stats.aborted += 1 }
            let d = e.decisions() as u64;
            e.stats.max_decisions = e.stats.max_decisions.max(d);
            let text = if sample { Some(e.notes.join("; ")) } else { None };
            (std::mem::take(&mut e.new_items), e.violation.take(), std::mem::take(&mut e.witnesses), e.diverged.take(), text)
        });
        local.extend(items);
        {
            let wit_new = !wit.is_empty();
            if viol.is_some() || wit_new || div.is_some() || text.as_ref().map_or(false, |t| !t.is_empty()) {
                let mut o = out.lock().unwrap();
                for w in wit.iter() { o.witnesses.insert(*w); }
                if let Some(v) = viol { o.violations.push(v); sh.stop.store(true, Ordering::Relaxed); sh.cv.notify_all(); }
                if let Some(d) = div { if o.diverged.is_none() { o.diverged = Some(d); } sh.stop.store(true, Ordering::Relaxed); sh.cv.notify_all(); }
                if let Some(t) = text { if !t.is_empty() && o.samples.len() < 5 { o.samples.push(t); } }
            }
            if wit_new { with(|e| for w in wit { e.global_witnessed.insert(w.to_string()); }); }
        }
        if local.len() > 1 && sh.hungry.load(Ordering::Relaxed) > 0 {
            let give = local.len() / 2;
            let mut q = sh.queue.lock().unwrap();
            if q.0.len() < 64 { for i in local.drain(..give.min(16)) { q.0.push(i); } sh.cv.notify_all(); }
        }
    }
    let mut o = out.lock().unwrap();
    o.left += local.len();
    with(|e| { let s = std::mem::take(&mut e.stats); last.add(&s); });
    o.stats.add(&last);
}

fn explore(case: &Arc<Case>, threads: usize, budget: Duration) -> Outcome {
    let start = Instant::now();
    let deadline = start + budget;
    let sh = Arc::new(Shared { queue: Mutex::new((vec![Item::default()], 0)), cv: Condvar::new(), hungry: AtomicUsize::new(0), stop: AtomicBool::new(false), threads, done: AtomicU64::new(0) });
    let out = Arc::new(Mutex::new(Outcome::default()));
    let mut hs = vec![];
    for _ in 0..threads {
        let (sh, out, case) = (sh.clone(), out.clone(), case.clone());
        hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || worker(&sh, &case, &out, deadline, true)).unwrap());
    }
    let mut crashed = false;
    for h in hs { if h.join().is_err() { crashed = true; } }
    let mut o = std::mem::take(&mut *out.lock().unwrap());
    o.left += sh.queue.lock().unwrap().0.len();
    o.exhausted = sh.done.load(Ordering::Relaxed) == 1 && o.left == 0;
    o.wall = start.elapsed().as_secs_f64();
    if crashed { o.diverged = Some("an exploration thread panicked".into()); }
    o
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o
}

/// Re-runs a case on concrete values, without any solver; yields the failure observed.
fn replay(case: &Case, values: Vec<i64>) -> Option<String> {
    with(|e| e.begin_concrete(values));
    run_path(&*case.run);
    with(|e| e.violation.take()).map(|v| v.message)
}

pub fn run(prop: Prop) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let start = Instant::now();
    let tier = get("--tier").unwrap_or("quick".into());
    let only = get("--case");
    let budget: f64 = get("--budget").and_then(|b| b.parse().ok()).unwrap_or(600.0);
    let threads: usize = std::env::var("DDV_THREADS").ok().and_then(|t| t.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8));
    let out_dir = get("--out").unwrap_or("/verif/evidence".into());
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);

    if let Some(path) = get("--replay") {
        let text = std::fs::read_to_string(&path).expect("replay file");
        let field = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{} ", k)).map(|s| s.to_string()));
        let name = field("case").expect("case");
        let values: Vec<i64> = text.lines().filter_map(|l| l.strip_prefix("value ")).map(|l| l.rsplit(' ').next().unwrap().parse().unwrap()).collect();
        let case = prop.cases.iter().find(|c| c.name == name).expect("unknown case");
        match std::thread::Builder::new().stack_size(256 << 20).spawn({ let c: &'static Case = unsafe { &*(case as *const Case) }; move || replay(c, values) }).unwrap().join().unwrap() {
            Some(m) => { println!("reproduced: {}", m); std::process::exit(1) },
            None => { println!("not reproduced"); std::process::exit(0) },
        }
    }

    let cases: Vec<Arc<Case>> = prop.cases.into_iter().map(Arc::new).collect();
    let mut rows = vec![];
    let mut total = Stats::default();
    let mut inconclusive: Vec<String> = vec![];
    let mut violation: Option<(String, Violation)> = None;
    let mut encodes: BTreeMap<&'static str, ()> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut all_exhausted = true;
    let (mut obligations, mut discharged) = (0u64, 0u64);
    let selected: Vec<Arc<Case>> = cases.iter().filter(|c| (tier == "thorough" || !c.thorough_only) && (tier == "quick" || !c.quick_only) && only.as_ref().map_or(true, |o| c.name.contains(o.as_str()))).cloned().collect();
    for (ix, case) in selected.iter().enumerate() {
        let left = budget - start.elapsed().as_secs_f64();
        let remaining = (selected.len() - ix) as f64;
        // Leave later cases a share of what remains, and let one case use at most most of it.
        let share = (left / remaining).max(left * 0.5 / remaining.sqrt()).max(5.0);
        let o = explore(case, threads, Duration::from_secs_f64(share));
        eprintln!("[{}] {}: {} paths ({} aborted), {} forks, {} implied, {} asserts (+{} const), {} unknown, solver {:.1}s, {:.1}s wall, max {} decisions{}{}",
            prop.id, case.name, o.stats.paths, o.stats.aborted, o.stats.forks, o.stats.implied, o.stats.asserts, o.stats.asserts_const, o.stats.unknown,
            o.stats.solver_ns as f64 / 1e9, o.wall, o.stats.max_decisions, if o.exhausted { "" } else { " NOT EXHAUSTED" },
            if let Some(v) = o.violations.first() { format!(" VIOLATED: {}", v.message) } else { String::new() });
        for e in case.encodes { encodes.insert(e, ()); }
        total.add(&o.stats);
        if let Some(d) = &o.diverged { inconclusive.push(format!("{}: {}", case.name, d)); }
        if let Some(v) = o.violations.into_iter().next() { violation = Some((case.name.to_string(), v)); }
        if o.stats.unknown > 0 { inconclusive.push(format!("{}: {} solver queries undecided", case.name, o.stats.unknown)); }
        obligations += 1;
        if o.exhausted && o.stats.unknown == 0 { discharged += 1; } else { all_exhausted = false; }
        let mut missing = vec![];
        if violation.is_none() && o.exhausted {
            for w in case.witnesses { if !o.witnesses.contains(w) { missing.push(*w); } }
            if !missing.is_empty() { inconclusive.push(format!("{}: vacuous, never reached {:?}", case.name, missing)); }
        }
        for s in o.samples.iter().take(2) { samples.push(format!("{}: {}", case.name, s)); }
        rows.push(format!("{{\"case\":\"{}\",\"bounds\":\"{}\",\"exhausted\":{},\"paths\":{},\"aborted_paths\":{},\"branch_forks\":{},\"branches_implied\":{},\"assertion_queries\":{},\"assertions_constant\":{},\"solver_unknown\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"witnesses_reached\":{},\"witnesses_required\":{}}}",
            esc(case.name), esc(&case.bounds), o.exhausted, o.stats.paths, o.stats.aborted, o.stats.forks, o.stats.implied, o.stats.asserts, o.stats.asserts_const, o.stats.unknown, o.stats.solver_ns as f64 / 1e9, o.wall, o.witnesses.len(), case.witnesses.len()));
        if violation.is_some() || !inconclusive.is_empty() { break; }
    }

    let mut code = 0;
    let mut confirmed = 0;
    if let Some((name, v)) = &violation {
        // Confirm on concrete values, in a fresh process that uses no solver.
        let dir = format!("{}/replay", out_dir);
        std::fs::create_dir_all(&dir).ok();
        let path = format!("{}/{}-{}.txt", dir, prop.id, name.replace(|c: char| !c.is_alphanumeric(), "_"));
        let mut text = format!("property {}\ncase {}\nmessage {}\ndecisions {}\n", prop.id, name, v.message.replace('\n', " "), v.flips);
        for (n, x) in v.values.iter() { text.push_str(&format!("value {} {}\n", n.replace(' ', "_"), x)); }
        std::fs::write(&path, text).expect("write replay");
        let st = std::process::Command::new(std::env::current_exe().unwrap()).arg("--replay").arg(&path).output();
        match st {
            Ok(o) if o.status.code() == Some(1) => {
                println!("counterexample in case {}: {}", name, v.message);
                for (n, x) in v.values.iter() { println!("  {} = {}", n, x); }
                println!("{}", String::from_utf8_lossy(&o.stdout).trim());
                println!("VIOLATION property={} replay={}", prop.id, path);
                code = 1; confirmed = 1;
            },
            Ok(o) if o.status.code().is_none() => {
                println!("counterexample in case {} aborts the process: {}", name, v.message);
                println!("VIOLATION property={} replay={}", prop.id, path);
                code = 1; confirmed = 1;
            },
            o => { println!("ERROR: counterexample did not reproduce on concrete values: {} ({:?})", v.message, o.map(|o| o.status)); code = 3; }
        }
    } else if !inconclusive.is_empty() {
        for i in &inconclusive { println!("INCONCLUSIVE: {}", i); }
        code = 3;
    }
    if samples.is_empty() { samples.push("(no path notes recorded)".into()); }
    let json = format!("{{\n\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"wall_s\":{:.2},\"violations\":{},\n\"assumptions\":[{}],\n\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhausted_within_bounds\":{},\"outside_bounds\":\"{}\",\"cases\":{},\"cases_exhausted\":{},\n\"queries\":{{\"feasibility\":{},\"assertions\":{},\"witness\":{},\"undecided\":{}}},\"solver\":\"z3 4.8.12 (libz3)\",\"solver_s\":{:.3},\"counterexamples_replayed\":{},\n\"functions_encoded\":[{}],\n\"samples\":[{}],\n\"per_case\":[{}]}}\n}}\n",
        prop.id, if tier == "thorough" { "thorough" } else { "quick" }, seed, start.elapsed().as_secs_f64(), confirmed,
        prop.assumptions.iter().map(|a| format!("\"{}\"", esc(a))).collect::<Vec<_>>().join(","),
        total.paths + total.aborted, total.forks + total.implied, total.paths, all_exhausted, esc(prop.outside), obligations, discharged,
        total.feas, total.asserts, total.witness_q, total.unknown, total.solver_ns as f64 / 1e9, confirmed,
        encodes.keys().map(|e| format!("\"{}\"", esc(e))).collect::<Vec<_>>().join(","),
        samples.iter().take(12).map(|e| format!("\"{}\"", esc(e))).collect::<Vec<_>>().join(","),
        rows.join(",\n"));
    std::fs::create_dir_all(&out_dir).ok();
    std::fs::write(format!("{}/{}.json", out_dir, prop.id), json).expect("write evidence");
    println!("{} {}: {} paths, {} branch decisions, {} assertion queries, {:.1}s solver, {:.1}s wall{}", prop.id, if code == 0 { "held" } else { "NOT held or undecided" },
        total.paths, total.forks + total.implied, total.asserts, total.solver_ns as f64 / 1e9, start.elapsed().as_secs_f64(), if all_exhausted { ", exhaustive within bounds" } else { ", NOT exhaustive" });
    std::process::exit(code);
}

pub fn note(s: impl FnOnce() -> String) { let s = s(); with(|e| if e.notes.len() < 8 { e.notes.push(s) }) }
