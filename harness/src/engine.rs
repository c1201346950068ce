//! Case runner: deterministic parallel generation, shrinking, replay, evidence.
use crate::tape::{mix, Tape};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// What one case reported.
#[derive(Default, Clone)]
pub struct Outcome {
    /// None: held. Some: signature + details.
    pub violation: Option<Violation>,
    pub nontrivial: bool,
    pub labels: BTreeSet<String>,
    /// Canonical description of the case (distinctness is counted on it).
    pub desc: String,
    pub skipped: bool,
}
#[derive(Clone, Debug)]
pub struct Violation {
    /// short stable signature: what oracle failed
    pub sig: String,
    pub detail: String,
}
#[derive(Default)]
pub struct Case {
    pub out: Outcome,
    pub verbose: bool,
}
impl Case {
    pub fn label(&mut self, l: impl Into<String>) {
        let _ = self.out.labels.insert(l.into());
    }
    pub fn desc(&mut self, d: impl Into<String>) {
        self.out.desc = d.into();
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.out.nontrivial |= b;
    }
    pub fn skip(&mut self) {
        self.out.skipped = true;
    }
}
/// Err = property violated on this case.
pub type CaseResult = Result<(), Violation>;
pub fn fail<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { sig: sig.into(), detail: detail.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !($c) { return Err($crate::engine::Violation { sig: ($sig).into(), detail: format!($($arg)*) }); }
    };
}

pub struct Suite {
    /// name of the sub-check
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub parallel: bool,
    pub run: fn(&mut Tape, &mut Case) -> CaseResult,
    /// budget of shrink executions
    pub shrink: u32,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub suites: Vec<Suite>,
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
static QUIET: AtomicBool = AtomicBool::new(true);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| {
            let f = l.file();
            let f = f.rsplit_once("/src/").map(|(a, b)| format!("{}/src/{b}", a.rsplit('/').next().unwrap_or(""))).unwrap_or_else(|| f.to_owned());
            (f, l.line())
        });
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { (*s).to_owned() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let s = format!("panic in {}: {msg}", loc.as_ref().map(|l| format!("{}:{}", l.0, l.1)).unwrap_or_default());
        if !QUIET.load(Ordering::Relaxed) { eprintln!("{s}"); }
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}
/// Runs code under test; a panic becomes Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let p = LAST_PANIC.with(|p| p.borrow().clone());
        if p.is_empty() {
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned())).unwrap_or_else(|| "panic".into())
        } else { p }
    })
}

fn exec(s: &Suite, tape: &mut Tape, verbose: bool) -> Outcome {
    let mut case = Case { verbose, ..Default::default() };
    let r = guarded(|| (s.run)(tape, &mut case));
    let mut out = case.out;
    match r {
        Ok(Ok(())) => {}
        Ok(Err(v)) => out.violation = Some(v),
        Err(p) => {
            // strip line numbers from the signature
            let sig: String = p.chars().take(160).collect();
            let sig = sig.split(": ").next().unwrap_or("panic").rsplit_once(':').map(|x| x.0.to_owned()).unwrap_or(sig.clone());
            out.violation = Some(Violation { sig, detail: p });
        }
    }
    out
}

fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.as_bytes() { h ^= u64::from(*b); h = h.wrapping_mul(0x100000001b3); }
    mix(h)
}

#[derive(serde::Deserialize, Clone, Debug)]
pub struct Known { pub property: String, pub suite: String, pub sig: String, pub detail_contains: String, pub what: String }

pub fn load_known(root: &Path) -> Vec<Known> {
    // known_findings.jsonl: one JSON object per line; objects with "fixed" are records only
    let Ok(t) = std::fs::read_to_string(root.join("known_findings.jsonl")) else { return vec![] };
    t.lines().filter(|l| l.trim_start().starts_with('{'))
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v.get("fixed").is_none())
        .filter_map(|v| serde_json::from_value(v).ok()).collect()
}

struct SuiteStats { evals: u64, nontrivial: HashSet<u64>, skipped: u64, labels: BTreeMap<String, u64>, samples: Vec<String> }

pub struct RunCfg { pub root: PathBuf, pub seed: u64, pub tier: String, pub only: Option<String>, pub scale: f64 }

/// Returns process exit code.
pub fn run_prop(p: &Prop, cfg: &RunCfg) -> i32 {
    let t0 = Instant::now();
    let known = load_known(&cfg.root);
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_suite = serde_json::Map::new();
    let (mut evals, mut nontriv) = (0u64, 0u64);
    let mut samples: Vec<Value> = vec![];
    let mut violations: Vec<(String, PathBuf)> = vec![];
    for s in &p.suites {
        if cfg.only.as_deref().is_some_and(|o| o != s.name) { continue; }
        let base = if cfg.tier == "thorough" { s.thorough } else { s.quick };
        let n = ((base as f64) * cfg.scale).max(1.0) as u64;
        let next = AtomicU64::new(0);
        let failed: Mutex<BTreeMap<u64, (Vec<u64>, Violation)>> = Mutex::new(BTreeMap::new());
        let stop_at = AtomicU64::new(u64::MAX);
        let stats = Mutex::new(SuiteStats { evals: 0, nontrivial: HashSet::new(), skipped: 0, labels: BTreeMap::new(), samples: vec![] });
        let hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        let t1 = Instant::now();
        let sseed = mix(cfg.seed ^ hash_str(p.id) ^ hash_str(s.name).rotate_left(17));
        let work = || loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= n || i > stop_at.load(Ordering::SeqCst) { break; }
            let mut tape = Tape::fresh(mix(sseed.wrapping_add(i.wrapping_mul(0x2545F4914F6CDD1D))));
            let out = exec(s, &mut tape, false);
            if let Some(v) = &out.violation {
                if let Some(k) = known.iter().find(|k| matches(k, p.id, s.name, v)) {
                    *hits.lock().unwrap().entry(k.what.clone()).or_default() += 1;
                } else {
                    let mut f = failed.lock().unwrap();
                    let _ = f.insert(i, (tape.used(), v.clone()));
                    let lo = *f.keys().next().unwrap();
                    stop_at.store(lo, Ordering::SeqCst);
                }
            }
            let mut st = stats.lock().unwrap();
            st.evals += 1;
            if out.skipped { st.skipped += 1; }
            if out.nontrivial && !out.skipped {
                let h = hash_str(&out.desc);
                let new = st.nontrivial.insert(h);
                if new && st.samples.len() < 2 && i < 64 { st.samples.push(clip(&out.desc, 1500)); }
            }
            for l in out.labels { *st.labels.entry(l).or_default() += 1; }
        };
        let threads = if s.parallel { std::thread::available_parallelism().map_or(4, |x| x.get()).min(8) } else { 1 };
        std::thread::scope(|sc| {
            for _ in 0..threads {
                let _ = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, work).expect("spawn");
            }
        });
        for (k, c) in hits.into_inner().unwrap() { *known_hit.entry(k).or_default() += c; }
        let st = stats.into_inner().unwrap();
        evals += st.evals;
        nontriv += st.nontrivial.len() as u64;
        for x in &st.samples { samples.push(json!({"suite": s.name, "case": x})); }
        let _ = per_suite.insert(s.name.into(), json!({
            "evaluations": st.evals, "distinct_nontrivial": st.nontrivial.len(), "skipped": st.skipped,
            "labels": st.labels, "wall_s": t1.elapsed().as_secs_f64()}));
        eprintln!("[{}] {}: {} cases, {} nontrivial distinct, {} skipped, {:.1}s", p.id, s.name, st.evals, st.nontrivial.len(), st.skipped, t1.elapsed().as_secs_f64());
        if std::env::var("VH_LABELS").is_ok() { for (l, c) in &st.labels { eprintln!("    {l}: {c}"); } }
        if let Some((i, (words, v))) = failed.into_inner().unwrap().into_iter().next() {
            let t2 = Instant::now();
            let (w, v2) = shrink(s, words, v, |v| known.iter().any(|k| matches(k, p.id, s.name, v)));
            eprintln!("[{}] {} case {i}: {} (shrunk in {:.1}s)\n{}", p.id, s.name, v2.sig, t2.elapsed().as_secs_f64(), clip(&v2.detail, 6000));
            let mut t = Tape::replay(w.clone());
            let out = exec(s, &mut t, false);
            let dir = cfg.root.join("evidence").join("replay");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}.json", p.id, s.name));
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({
                "property": p.id, "suite": s.name, "seed": cfg.seed, "case_index": i, "signature": v2.sig,
                "detail": v2.detail, "case": out.desc, "tape": w })).unwrap());
            println!("VIOLATION property={} replay={}", p.id, path.display());
            violations.push((v2.sig, path));
        }
    }
    for (k, c) in &known_hit { println!("KNOWN-FINDING: property={} {k} ({c} generated cases)", p.id); }
    let ev = json!({
        "property": p.id, "tier": cfg.tier, "seed": cfg.seed, "level": "exploration",
        "coverage": { "evaluations": evals, "distinct_nontrivial": nontriv, "rule": p.rule, "samples": samples,
            "suites": per_suite, "known_findings_hit": known_hit },
        "assumptions": p.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": violations.len() });
    let dir = cfg.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    if violations.is_empty() { 0 } else { 1 }
}
fn matches(k: &Known, prop: &str, suite: &str, v: &Violation) -> bool {
    k.property == prop && k.suite == suite && k.sig == v.sig && v.detail.contains(&k.detail_contains)
}
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { return s.to_owned(); }
    let mut e = n; while !s.is_char_boundary(e) { e -= 1; }
    format!("{}…", &s[..e])
}

fn shrink(s: &Suite, words: Vec<u64>, v: Violation, is_known: impl Fn(&Violation) -> bool) -> (Vec<u64>, Violation) {
    let mut best = words; let mut bv = v;
    let mut budget = s.shrink as i64;
    let deadline = Instant::now() + std::time::Duration::from_secs(60);
    let attempt = |cand: Vec<u64>, bv: &Violation, budget: &mut i64| -> Option<(Vec<u64>, Violation)> {
        if *budget <= 0 || Instant::now() > deadline { return None; }
        *budget -= 1;
        let mut t = Tape::replay(cand);
        let out = std::thread::scope(|sc| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || exec(s, &mut t, false)).expect("spawn").join().expect("join"));
        match out.violation { Some(v) if v.sig == bv.sig && !is_known(&v) => Some((t.used(), v)), _ => None }
    };
    let mut progress = true;
    while progress && budget > 0 {
        progress = false;
        // delete chunks
        let mut k = best.len() / 2;
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.len() {
                let mut c = best.clone(); let _ = c.drain(i..i + k);
                if let Some((w, v)) = attempt(c, &bv, &mut budget) {
                    if w.len() < best.len() || (w.len() == best.len() && w < best) { best = w; bv = v; progress = true; continue; }
                }
                i += k.max(1);
            }
            k /= 2;
        }
        // zero chunks
        for k in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|x| *x != 0) {
                    let mut c = best.clone(); c[i..i + k].iter_mut().for_each(|x| *x = 0);
                    if let Some((w, v)) = attempt(c, &bv, &mut budget) { if w.len() <= best.len() { if w != best { progress = true; } best = w; bv = v; } }
                }
                i += k;
            }
        }
        // decrease words
        let mut i = 0;
        while i < best.len() {
            let x = best[i];
            for y in [x / 2, x.saturating_sub(1)] {
                if i < best.len() && y < best[i] {
                    let mut c = best.clone(); c[i] = y;
                    if let Some((w, v)) = attempt(c, &bv, &mut budget) { if w.len() <= best.len() { progress = true; best = w; bv = v; } }
                }
            }
            i += 1;
        }
    }
    (best, bv)
}

pub fn replay(props: &[Prop], file: &Path) -> i32 {
    QUIET.store(false, Ordering::Relaxed);
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("read replay")).expect("json");
    let tape: Vec<u64> = serde_json::from_value(v["tape"].clone()).expect("tape");
    for p in props { if v["property"] == p.id { for s in &p.suites { if v["suite"] == s.name {
        let out = exec(s, &mut Tape::replay(tape.clone()), true);
        println!("case: {}", out.desc);
        return match out.violation { Some(x) => { println!("REPRODUCED {}: {}", x.sig, x.detail); 1 } None => { println!("no violation"); 0 } };
    }}}}
    eprintln!("unknown property/suite"); 2
}
