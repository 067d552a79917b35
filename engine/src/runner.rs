//! Runs the plan of one property, prints the verdict and writes the evidence.
use crate::interp::*;
use crate::plan::*;
use crate::{ir, run_root};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct JobResult {
    pub job: usize,
    pub held: u64,
    pub obls: Vec<Obl>, // not held
    pub err: Option<String>,
    pub steps: u64,
    pub terms: u64,
    pub loops: u64,
    pub funcs: BTreeSet<String>,
    pub skipped: bool,
    pub ms: u64,
}
fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            c if (c as u32) < 32 => r += &format!("\\u{:04x}", c as u32),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().map(|s| esc(&s)).collect::<Vec<_>>().join(", "))
}
fn label(j: &Job) -> String {
    let mut s = j.root.to_string();
    for (k, v) in &j.params {
        s += &format!(" {k}={v}");
    }
    s
}
/// stable identity of a violation: harness root, obligation, repository function; no line numbers
fn key(j: &Job, o: &Obl) -> String {
    format!("{}|{}|{}", j.root, o.what, o.site)
}

pub fn check(p: &'static ir::Program, prop: &str, tier: &str, evidence: &str, replay: &str, known: &str, dump: &str) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let Some(plan) = plan(prop, thorough) else {
        eprintln!("no plan for {prop}");
        return 2;
    };
    let budget = Duration::from_secs(std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3600 } else { 480 }));
    let deadline = t0 + budget;
    let nthreads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let jobs = Arc::new(plan.jobs.clone());
    let next = Arc::new(AtomicUsize::new(0));
    let results: Arc<Mutex<Vec<JobResult>>> = Default::default();
    let mut hs = vec![];
    std::panic::set_hook(Box::new(|_| {}));
    for _ in 0..nthreads.min(jobs.len()) {
        let (jobs, next, results) = (jobs.clone(), next.clone(), results.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(4 << 30)
                .spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= jobs.len() {
                        return;
                    }
                    let j = &jobs[i];
                    let mut r = JobResult { job: i, held: 0, obls: vec![], err: None, steps: 0, terms: 0, loops: 0, funcs: Default::default(), skipped: false, ms: 0 };
                    if Instant::now() > deadline {
                        r.skipped = true;
                        results.lock().unwrap().push(r);
                        continue;
                    }
                    let js = Instant::now();
                    let x = std::panic::catch_unwind(|| {
                        let mut it = Interp::new(p);
                        it.deadline = Some(deadline + Duration::from_secs(30));
                        for (k, v) in &j.params {
                            it.params.insert(k.to_string(), *v);
                        }
                        let e = run_root(&mut it, j.root);
                        let funcs = it.seen.iter().map(|f| it.func(*f)).filter(|f| f.krate == "cryptography").map(|f| f.name.clone()).collect();
                        (e, it.obls, it.steps, it.cx.terms.len() as u64, it.loops_done as u64, funcs)
                    });
                    match x {
                        Ok((e, obls, steps, terms, loops, funcs)) => {
                            r.held = obls.iter().filter(|o| o.status == Status::Held).count() as u64;
                            r.obls = obls.into_iter().filter(|o| o.status != Status::Held).collect();
                            r.err = e.err();
                            if r.err.is_none() && r.held == 0 && r.obls.is_empty() {
                                r.err = Some("no obligation reached".into());
                            }
                            r.steps = steps;
                            r.terms = terms;
                            r.loops = loops;
                            r.funcs = funcs;
                        }
                        Err(e) => {
                            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            r.err = Some(format!("analyser: {m}"));
                        }
                    }
                    r.ms = js.elapsed().as_millis() as u64;
                    results.lock().unwrap().push(r);
                })
                .unwrap(),
        );
    }
    let known: BTreeMap<String, String> = std::fs::read_to_string(known)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("finding: property={prop} key=")).map(|x| x.to_string()))
        .filter_map(|x| x.split_once(" :: ").map(|(a, b)| (a.trim().to_string(), b.trim().to_string())))
        .collect();
    // wait for the workers; a confirmed violation that is not a listed finding ends the run early
    let mut found: Option<Instant> = None;
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        let pages = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0);
        MEM_HIGH.store(pages > 5 << 20, Ordering::Relaxed);
        if found.is_none() && results.lock().unwrap().iter().any(|r| r.obls.iter().any(|o| o.status == Status::Refuted && !known.contains_key(&key(&jobs[r.job], o)))) {
            found = Some(Instant::now());
        }
        if found.is_some_and(|t| t.elapsed() > Duration::from_secs(10)) {
            break;
        }
    }
    let mut rs = std::mem::take(&mut *results.lock().unwrap());
    rs.sort_by_key(|r| r.job);
    let structural = crate::graph::check(p, prop);

    let mut viols: Vec<String> = vec![];
    let mut seen_known: BTreeSet<String> = Default::default();
    let mut undecided: Vec<String> = vec![];
    let (mut held, mut open, mut skipped, mut errs) = (0u64, 0u64, 0u64, 0u64);
    let (mut steps, mut terms, mut loops) = (0u64, 0u64, 0u64);
    let mut funcs: BTreeSet<String> = Default::default();
    let mut samples = vec![];
    let mut seen_keys: BTreeSet<String> = Default::default();
    for r in &rs {
        let j = &jobs[r.job];
        held += r.held;
        steps += r.steps;
        terms += r.terms;
        loops += r.loops;
        funcs.extend(r.funcs.iter().cloned());
        skipped += r.skipped as u64;
        if let Some(e) = &r.err {
            errs += 1;
            undecided.push(format!("{}: {}", label(j), e.chars().take(400).collect::<String>()));
        }
        for o in &r.obls {
            open += 1;
            if o.status == Status::Undecided {
                undecided.push(format!("{}: {} -- {}", label(j), o.what, o.detail.chars().take(400).collect::<String>()));
            } else {
                let k = key(j, o);
                if known.contains_key(&k) {
                    seen_known.insert(k);
                } else if seen_keys.insert(k.clone()) {
                    viols.push(format!("[{k}] {}: {} -- {}", label(j), o.what, o.detail));
                }
            }
        }
        if r.err.is_none() && !r.skipped && samples.len() < 5 {
            samples.push(format!("{}: {} obligations held, {} value-graph nodes, {} MIR statements, {} ms", label(j), r.held, r.terms, r.steps, r.ms));
        }
    }
    let mut extra = String::new();
    if let Some(s) = &structural {
        held += s.held;
        open += s.violations.len() as u64 + s.open.len() as u64;
        for (k, d) in &s.violations {
            if known.contains_key(k) {
                seen_known.insert(k.clone());
            } else {
                viols.push(format!("[{k}] {d}"));
            }
        }
        undecided.extend(s.open.iter().cloned());
        for (k, v) in &s.counts {
            extra += &format!(",\n    {}: {}", esc(k), v);
        }
        samples.extend(s.samples.iter().take(8).cloned());
    }
    for k in &seen_known {
        println!("KNOWN-FINDING: property={prop} {} [{k}]", known[k]);
    }
    let total = held + open + errs;
    let ndec = undecided.len() as u64;
    let ev = format!(
        "{{\n  \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n  \"coverage\": {{\n    \"explanation\": {},\n    \"rule\": {},\n    \"jobs\": {}, \"jobs_completed\": {}, \"jobs_skipped_for_time\": {}, \"ended_early_on_violation\": {},\n    \"obligations\": {}, \"discharged\": {}, \"undecided\": {}, \"known_findings\": {},\n    \"mir_statements_interpreted\": {}, \"value_graph_nodes\": {}, \"loops_summarised\": {}, \"repository_functions_analysed\": {},\n    \"functions\": {},\n    \"undecided_items\": {},\n    \"samples\": {},\n    \"checker_cmd\": {},\n    \"trusted_base\": {}{}\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        esc(prop),
        esc(if thorough { "thorough" } else { "quick" }),
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
        esc(plan.level),
        esc(plan.text),
        esc(plan.rule),
        jobs.len(),
        rs.iter().filter(|r| !r.skipped && r.err.is_none()).count(),
        skipped,
        found.is_some(),
        total,
        held,
        ndec,
        seen_known.len(),
        steps,
        terms,
        loops,
        funcs.len(),
        list(funcs.iter().cloned()),
        list(undecided.iter().take(40).cloned()),
        list(samples),
        esc(&format!("/verif/check.sh {prop} {tier}")),
        list(["rustc nightly front end and MIR lowering (driver/)", "the analyser's transfer functions and normalisation rules (engine/)", "the std models (harness/src/models.rs, engine builtins)", "the reference definitions in harness/src/spec and harness/src/props"].map(|s| s.to_string())),
        extra,
        list(plan.assumptions.iter().map(|s| s.to_string())),
        t0.elapsed().as_secs_f64(),
        viols.len()
    );
    if let Err(e) = std::fs::write(evidence, ev) {
        eprintln!("cannot write {evidence}: {e}");
        return 2;
    }
    println!("{prop} {tier}: {} jobs, {held}/{total} obligations discharged, {ndec} undecided, {skipped} skipped, {} violations, {:.1} s", jobs.len(), viols.len(), t0.elapsed().as_secs_f64());
    for u in undecided.iter().take(8) {
        println!("UNDECIDED {u}");
    }
    if !viols.is_empty() {
        let mut s = format!("property {prop}\n");
        for v in &viols {
            s += &format!("{v}\n");
        }
        s += &format!("re-run one job: /verif/engine/target/release/engine {dump} run <root> <param=value>...\n");
        let _ = std::fs::write(replay, s);
        for v in viols.iter().take(6) {
            println!("  {}", v.chars().take(700).collect::<String>());
        }
        println!("VIOLATION property={prop} replay={replay}");
        return 1;
    }
    0
}
