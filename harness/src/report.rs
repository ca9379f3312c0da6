//! Running many cases of one check in parallel, judging and reporting.
use crate::rng::mix;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct CaseOut {
    pub violations: Vec<String>,
    /// did the monitor see what it is there to judge?
    pub nontrivial: bool,
    /// signature of the observed execution (distinct executions are counted)
    pub sig: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub desc: Option<String>,
    pub inconclusive: Option<String>,
    pub trace: Vec<String>,
}
impl CaseOut {
    pub fn viol(&mut self, s: impl Into<String>) {
        self.violations.push(s.into());
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
}

pub struct Ctx {
    pub seed: u64,
    pub index: u64,
    pub thorough: bool,
    /// record a full event trace
    pub trace: bool,
}

pub type CaseFn = fn(&Ctx) -> CaseOut;

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
    pub assumptions: &'static [&'static str],
}

thread_local!(static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) });

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// the last panic of this thread, to hand it to the thread that runs the case
pub fn take_panic() -> Option<(String, String)> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}
pub fn set_panic(p: Option<(String, String)>) {
    LAST_PANIC.with(|l| *l.borrow_mut() = p);
}

pub enum Ran {
    Out(CaseOut),
    HarnessPanic(String),
}

pub fn run_case(c: &Check, ctx: &Ctx) -> Ran {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| (c.run)(ctx)));
    match r {
        Ok(o) => Ran::Out(o),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // a panic raised by this harness itself is not a verdict about hyper
            if loc.starts_with("src/") || loc.contains("/verif/") {
                Ran::HarnessPanic(format!("{loc}: {msg}"))
            } else {
                let mut o = CaseOut::default();
                o.nontrivial = true;
                o.sig = ctx.seed;
                o.viol(format!("panic at {loc}: {msg}"));
                o.trace = crate::sim::last_log();
                Ran::Out(o)
            }
        }
    }
}

pub fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

/// Lines of known-findings.txt that suppress: (property, needle)
pub fn known_findings(root: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{root}/known-findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("known: property=") {
                if let Some((id, needle)) = rest.split_once(' ') {
                    // needle up to " :: " (then free text)
                    let n = needle.split(" :: ").next().unwrap_or("").trim().to_string();
                    if !n.is_empty() {
                        v.push((id.to_string(), n));
                    }
                }
            }
        }
    }
    v
}

/// Where this run's evidence goes: a check made of several builds writes a part for each.
pub fn evidence_path(root: &str, id: &str) -> String {
    std::env::var("HV_EVIDENCE").unwrap_or_else(|_| format!("{root}/evidence/{id}.json"))
}
/// how to run one case again
pub fn replay_cmd(root: &str, id: &str, seed: u64) -> String {
    let f = std::env::var("HV_FLAVOUR").map(|f| format!("HV_FLAVOUR={f} ")).unwrap_or_default();
    format!("cd {root} && {f}./run.sh replay {id} {seed}")
}

pub fn run_check(c: &Check, root: &str) -> i32 {
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let n = env_u64("HV_CASES", if thorough { c.thorough } else { c.quick });
    let budget = Duration::from_secs(env_u64("HV_BUDGET", if thorough { 3000 } else { 240 }));
    if !cfg!(miri) {
        crate::guard::child_init();
    }
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    struct Agg {
        evals: u64,
        nontrivial: HashSet<u64>,
        counts: BTreeMap<&'static str, u64>,
        violations: Vec<(u64, u64, String)>,
        seen_known: BTreeMap<String, u64>,
        harness: Vec<String>,
        inconclusive: BTreeMap<String, u64>,
        samples: Vec<(u64, String)>,
    }
    let agg = Mutex::new(Agg { evals: 0, nontrivial: HashSet::new(), counts: BTreeMap::new(), violations: vec![], seen_known: BTreeMap::new(), harness: vec![], inconclusive: BTreeMap::new(), samples: vec![] });
    let known = known_findings(root);
    let is_known = |v: &str| known.iter().find(|(id, n)| id == c.id && v.contains(n.as_str())).map(|x| x.1.clone());
    let is_known = &is_known;
    let nthreads = env_u64("HV_THREADS", 8) as usize;
    std::thread::scope(|s| {
        for slot in 0..nthreads.min(64) {
            let (stop, next, agg) = (&stop, &next, &agg);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                  crate::guard::thread(slot);
                  loop {
                    if stop.load(Ordering::Relaxed) || start.elapsed() > budget {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    let cs = mix(mix(seed, crate::util::fnv(c.id.as_bytes())), i);
                    let ctx = Ctx { seed: cs, index: i, thorough, trace: false };
                    crate::guard::begin(slot, cs);
                    let r = run_case(c, &ctx);
                    crate::guard::end(slot);
                    let mut a = agg.lock().unwrap();
                    a.evals += 1;
                    match r {
                        Ran::HarnessPanic(m) => {
                            a.harness.push(format!("case {cs}: {m}"));
                            if a.harness.len() > 200 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        Ran::Out(o) => {
                            if o.nontrivial {
                                a.nontrivial.insert(o.sig);
                            }
                            for (k, v) in &o.counts {
                                *a.counts.entry(k).or_insert(0) += v;
                            }
                            if let Some(m) = o.inconclusive {
                                if a.inconclusive.values().sum::<u64>() < 6 {
                                    println!("inconclusive case {cs}: {m}");
                                }
                                *a.inconclusive.entry(m).or_insert(0) += 1;
                            }
                            if a.samples.len() < 3 || (i < 40 && a.samples.len() < 6) {
                                if let Some(d) = o.desc {
                                    a.samples.push((cs, d));
                                }
                            }
                            for v in o.violations {
                                if let Some(k) = is_known(&v) {
                                    *a.seen_known.entry(k).or_insert(0) += 1;
                                    continue;
                                }
                                if a.violations.len() < 200 {
                                    a.violations.push((i, cs, v));
                                }
                                if a.violations.len() >= 200 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                  }
                  crate::guard::gone(slot);
                })
                .unwrap();
        }
    });
    let mut a = agg.into_inner().unwrap();
    a.violations.sort();
    let seen_known = a.seen_known;
    let fresh = a.violations;
    for (id, k) in known.iter().filter(|(id, _)| id == c.id) {
        println!("KNOWN-FINDING: property={id} {k} (seen {} times in this run)", seen_known.get(k).copied().unwrap_or(0));
    }
    let wall = start.elapsed().as_secs_f64();
    let counts: serde_json::Map<String, serde_json::Value> =
        a.counts.iter().map(|(k, v)| (k.to_string(), serde_json::json!(v))).collect();
    let ev = serde_json::json!({
        "property": c.id,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed,
        "level": c.level,
        "coverage": {
            "evaluations": a.evals,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": c.rule,
            "samples": a.samples.iter().map(|(s, d)| serde_json::json!({"case_seed": s, "case": d})).collect::<Vec<_>>(),
            "observed": counts,
            "inconclusive": a.inconclusive,
            "planned_cases": n,
        },
        "assumptions": c.assumptions,
        "wall_s": wall,
        "violations": fresh.len(),
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    if let Err(e) = std::fs::write(evidence_path(root, c.id), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!(
        "{}: {} cases in {:.1}s, {} distinct non-trivial executions, {} violations; observed: {}",
        c.id,
        a.evals,
        wall,
        a.nontrivial.len(),
        fresh.len(),
        a.counts.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
    );
    if !a.inconclusive.is_empty() {
        println!("inconclusive: {:?}", a.inconclusive);
    }
    if !fresh.is_empty() {
        let (_, cs, _) = &fresh[0];
        let _ = std::fs::create_dir_all(format!("{root}/replays"));
        let path = format!("{root}/replays/{}-{}.txt", c.id, cs);
        let mut txt = format!("property {}\nreplay: {}\n\n", c.id, replay_cmd(root, c.id, *cs));
        for (_, s, v) in fresh.iter().take(20) {
            txt.push_str(&format!("case {s}: {v}\n"));
        }
        let ctx = Ctx { seed: *cs, index: 0, thorough, trace: true };
        if let Ran::Out(o) = run_case(c, &ctx) {
            if let Some(d) = o.desc {
                txt.push_str(&format!("\ncase: {d}\n"));
            }
            txt.push_str("\ntrace of the first case:\n");
            for l in o.trace.iter().take(5000) {
                txt.push_str(l);
                txt.push('\n');
            }
        }
        let _ = std::fs::write(&path, txt);
        for (_, s, v) in fresh.iter().take(10) {
            println!("  case {s}: {v}");
        }
        println!("VIOLATION property={} replay={}", c.id, path);
        return 1;
    }
    if !a.harness.is_empty() {
        eprintln!("harness error (no verdict): {}", a.harness.iter().take(5).cloned().collect::<Vec<_>>().join("; "));
        return 2;
    }
    if a.nontrivial.is_empty() {
        eprintln!("the monitors observed nothing: no verdict");
        return 2;
    }
    0
}
