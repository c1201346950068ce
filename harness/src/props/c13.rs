//! C13..C16: live check findings, statistics and finding filters.
use crate::engine::*;
use crate::ensure;
use crate::live::*;
use crate::reg::*;
use crate::reg2::*;
use crate::tape::Tape;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use weaver_checker::FindingLevel;
use weaver_live_check::finding_modifier::FindingModifier;
use weaver_live_check::{CumulativeStatistics, DisabledStatistics, LiveCheckStatistics};

pub fn c13() -> Prop {
    Prop { id: "C13", rule: "a generated registry (given to the checker in its v1 or v2 view) and 1-8 generated telemetry samples of every kind (attributes, spans with events and links, metrics with number/histogram/exponential data points and exemplars, logs/events, resources, scopes, profiles) with the built-in advisors and default policies; the findings on every sample in the tree must be exactly those an independent model lists (id, level, context, signal). Non-trivial: at least two findings expected and at least one sample matches a registry item.",
        assumptions: &["finding messages are not compared", "v1 view: references do not override stability or deprecation (the v1 view has several copies of an attribute and which one lookups use is unspecified)"],
        suites: vec![Suite { name: "findings", quick: 25_000, thorough: 600_000, parallel: true, run: findings, shrink: 900 }] }
}
pub fn setup(t: &mut Tape, c: &mut Case, hi: usize) -> Result<(LiveReg, Vec<Tele>, BTreeMap<String, G2>), Violation> {
    let mut d = Map::new();
    let l = match live_registry(t, &mut d) { Ok(l) => l, Err(e) => { c.desc(Value::Object(d).to_string()); return fail("registry rejected", e); } };
    let m = model(&l.reg);
    let n = t.size(1, hi);
    let xs: Vec<Tele> = (0..n).map(|_| telemetry(t, &l.reg, &m)).collect();
    let _ = d.insert("samples".into(), json!(xs.iter().map(|x| json!({"sample": x.json, "resource": x.resource, "exponential": x.exp})).collect::<Vec<_>>()));
    c.desc(Value::Object(d).to_string());
    for x in &xs { c.label(x.json.as_object().unwrap().keys().next().unwrap().clone()); }
    c.label(if l.v2 { "v2" } else { "v1" });
    Ok((l, xs, m))
}
fn findings(t: &mut Tape, c: &mut Case) -> CaseResult {
    let (l, xs, m) = setup(t, c, 8)?;
    let mut lc = match checker(&l) { Ok(x) => x, Err(e) => return fail("checker rejected", e) };
    let mut stats = LiveCheckStatistics::Cumulative(CumulativeStatistics::new(&l.versioned));
    let out = match run(&mut lc, &mut stats, &xs) { Ok(o) => o, Err(e) => return fail("live check failed", e) };
    let mut n = 0;
    for (x, s) in xs.iter().zip(&out) {
        n += check_findings(c, &l.reg, &m, x, s)?;
    }
    c.nontrivial(n >= 2);
    Ok(())
}

pub fn c15() -> Prop {
    Prop { id: "C15", rule: "generated registry, telemetry stream and (half of the time) finding filters; the statistics of the report must be the tallies of the findings and samples of that report (counts per entity type, level, id and message, highest level, samples without advice, seen registry and non-registry items, coverage), the fail threshold must be met exactly when some reported finding reaches it, and disabled statistics must never fail. Non-trivial: at least three findings reported.",
        assumptions: &["v1 view: references do not override stability or deprecation"],
        suites: vec![Suite { name: "stats", quick: 25_000, thorough: 600_000, parallel: true, run: stats, shrink: 900 }] }
}
fn count(m: &Value) -> BTreeMap<String, u64> { m.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap())).filter(|x| x.1 > 0).collect() }
fn stats(t: &mut Tape, c: &mut Case) -> CaseResult {
    let (l, xs, _m) = setup(t, c, 10)?;
    let mut lc = match checker(&l) { Ok(x) => x, Err(e) => return fail("checker rejected", e) };
    if t.bool() { let (fs, os, desc) = rules(t); c.out.desc.push_str(&desc.to_string()); lc.finding_modifier = FindingModifier::from_rules(&fs, &os).unwrap(); }
    let mut st = LiveCheckStatistics::Cumulative(CumulativeStatistics::new(&l.versioned));
    let out = match run(&mut lc, &mut st, &xs) { Ok(o) => o, Err(e) => return fail("live check failed", e) };
    let j = serde_json::to_value(&st).unwrap();
    let mut by_type: BTreeMap<String, u64> = BTreeMap::new(); let (mut levels, mut ids, mut msgs, mut high) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
    let (mut total, mut none) = (0u64, 0u64);
    let inc = |m: &mut BTreeMap<String, u64>, k: &str| *m.entry(k.to_owned()).or_default() += 1;
    let mut seen: BTreeMap<&str, BTreeMap<String, u64>> = BTreeMap::new();
    let live = |sec: &str, k: &str| -> BTreeSet<String> { l.reg.sec(sec).iter().filter(|x| !x.contains_key("deprecated")).map(|x| x[k].as_str().unwrap().to_owned()).collect() };
    let (ra, rm, re) = (live("attributes", "key"), live("metrics", "name"), live("events", "name"));
    for s in &out {
        for (p, r) in actual_findings(s) {
            inc(&mut by_type, kind_of(&p));
            let fs = r["all_advice"].as_array().unwrap();
            for f in fs { total += 1; inc(&mut levels, f["level"].as_str().unwrap()); inc(&mut ids, f["id"].as_str().unwrap()); inc(&mut msgs, f["message"].as_str().unwrap()); }
            if fs.is_empty() { none += 1; } else { inc(&mut high, max_level(fs.iter()).as_str().unwrap()); }
            if kind_of(&p) == "attribute" {
                let n = s.pointer(&p).unwrap()["name"].as_str().unwrap();
                let n = match lookup(&l.reg, n) { Some(d) if is_template(d) => d["key"].as_str().unwrap(), _ => n };
                inc(seen.entry(if ra.contains(n) { "seen_registry_attributes" } else { "seen_non_registry_attributes" }).or_default(), n);
            }
        }
        if let Some(n) = s.pointer("/metric/name").and_then(|n| n.as_str()) { inc(seen.entry(if rm.contains(n) { "seen_registry_metrics" } else { "seen_non_registry_metrics" }).or_default(), n); }
        if let Some(n) = s.pointer("/log/event_name").and_then(|n| n.as_str()) { if !n.is_empty() { inc(seen.entry(if re.contains(n) { "seen_registry_events" } else { "seen_non_registry_events" }).or_default(), n); } }
    }
    c.nontrivial(total >= 3);
    for (k, v) in [("total_entities_by_type", &by_type), ("advice_level_counts", &levels), ("advice_type_counts", &ids), ("advice_message_counts", &msgs), ("highest_advice_level_counts", &high)] {
        ensure!(count(&j[k]) == *v, k, "expected {v:?}\ngot {}", j[k]);
    }
    for (k, v) in [("total_entities", by_type.values().sum()), ("total_advisories", total), ("no_advice_count", none)] { ensure!(j[k] == v, k, "expected {v} got {}", j[k]); }
    for k in ["seen_registry_attributes", "seen_non_registry_attributes", "seen_registry_metrics", "seen_non_registry_metrics", "seen_registry_events", "seen_non_registry_events"] {
        let e = seen.get(k).cloned().unwrap_or_default();
        ensure!(count(&j[k]) == e, k, "expected {e:?}\ngot {}", j[k]);
    }
    for (k, s) in [("seen_registry_attributes", &ra), ("seen_registry_metrics", &rm), ("seen_registry_events", &re)] {
        let have: BTreeSet<String> = j[k].as_object().unwrap().keys().cloned().collect();
        ensure!(have == *s, format!("{k}: universe"), "expected {s:?}\ngot {have:?}");
    }
    let tot = ra.len() + rm.len() + re.len();
    let hit = ["seen_registry_attributes", "seen_registry_metrics", "seen_registry_events"].iter().map(|k| seen.get(k).map(|m| m.len()).unwrap_or(0)).sum::<usize>();
    let cov = if tot == 0 { 0.0 } else { hit as f64 / tot as f64 };
    ensure!((j["registry_coverage"].as_f64().unwrap() - cov).abs() < 1e-5, "registry_coverage", "expected {cov} got {}", j["registry_coverage"]);
    for (n, lv) in [("information", FindingLevel::Information), ("improvement", FindingLevel::Improvement), ("violation", FindingLevel::Violation)] {
        let want = levels.keys().any(|k| rank(k) >= rank(n));
        ensure!(st.should_fail(lv) == want, "fail threshold", "threshold {n}: expected {want}");
        ensure!(!LiveCheckStatistics::Disabled(DisabledStatistics).should_fail(lv), "fail threshold of disabled statistics", "");
    }
    Ok(())
}

pub fn c16() -> Prop {
    Prop { id: "C16", rule: "generated registry, telemetry and rule sets (1-3 filters, 0-3 level overrides with signal-type and sample-name scopes); each sample must report exactly the unmodified findings after: first matching override sets the level, then any matching filter drops it; coverage and entity counts must not change. Non-trivial: a rule changed or dropped a finding.",
        assumptions: &["globs over `*`, `?`, `[..]` and `{a,b}`"],
        suites: vec![Suite { name: "rules", quick: 25_000, thorough: 600_000, parallel: true, run: modifier, shrink: 900 }] }
}
const IDS: [&str; 12] = ["missing_attribute", "template_attribute", "deprecated", "not_stable", "type_mismatch", "undefined_enum_variant", "missing_namespace", "extends_namespace", "required_attribute_not_present", "recommended_attribute_not_present", "missing_metric", "invalid_format"];
const GLOBS: [&str; 12] = ["*", "a*", "a.*", "*.b", "met.m0", "met.?0", "evt.*", "http.*", "svc.{name,id}", "[a-m]*", "GET*", "unknown.event"];
fn glob_match(p: &str, s: &str) -> bool {
    fn go(p: &[char], s: &[char]) -> bool {
        match p.first() {
            None => s.is_empty(),
            Some('*') => (0..=s.len()).any(|i| go(&p[1..], &s[i..])),
            Some('?') => !s.is_empty() && go(&p[1..], &s[1..]),
            Some('[') => { let e = p.iter().position(|c| *c == ']').unwrap(); !s.is_empty() && p[1] <= s[0] && s[0] <= p[3] && go(&p[e + 1..], &s[1..]) }
            Some('{') => { let e = p.iter().position(|c| *c == '}').unwrap(); let alts: String = p[1..e].iter().collect(); alts.split(',').any(|a| { let q: Vec<char> = a.chars().chain(p[e + 1..].iter().copied()).collect(); go(&q, s) }) }
            Some(c) => s.first() == Some(c) && go(&p[1..], &s[1..]),
        }
    }
    go(&p.chars().collect::<Vec<_>>(), &s.chars().collect::<Vec<_>>())
}
type Rules = (Vec<weaver_config::FindingFilter>, Vec<weaver_config::FindingLevelOverride>, Value);
fn rules(t: &mut Tape) -> Rules {
    let lv = ["information", "improvement", "violation"];
    let scope = |t: &mut Tape, m: &mut Map<String, Value>| {
        if t.chance(1, 3) { let _ = m.insert("signal_type".into(), json!(*t.pick(&["metric", "log", "span", "resource", "profile"]))); }
        if t.chance(1, 3) { let n = t.size(1, 2); let _ = m.insert("sample_names".into(), json!((0..n).map(|_| *t.pick(&GLOBS)).collect::<Vec<_>>())); }
    };
    let ids = |t: &mut Tape| { let n = t.size(1, 4); json!((0..n).map(|_| *t.pick(&IDS)).collect::<Vec<_>>()) };
    let mut fs = vec![]; let mut os = vec![];
    for _ in 0..t.size(0, 3) {
        let mut m = Map::new(); scope(t, &mut m);
        if t.bool() { let _ = m.insert("exclude".into(), ids(t)); }
        if t.chance(1, 4) { let _ = m.insert("min_level".into(), json!(*t.pick(&lv))); }
        if t.chance(1, 4) { let n = t.size(1, 2); let _ = m.insert("exclude_samples".into(), json!((0..n).map(|_| *t.pick(&GLOBS)).collect::<Vec<_>>())); }
        if !m.keys().any(|k| k != "signal_type" && k != "sample_names") { let _ = m.insert("exclude".into(), ids(t)); }
        fs.push(Value::Object(m));
    }
    for _ in 0..t.size(0, 3) {
        let mut m = Map::new(); scope(t, &mut m);
        if t.chance(3, 4) { let _ = m.insert("ids".into(), ids(t)); }
        let _ = m.insert("level".into(), json!(*t.pick(&lv)));
        os.push(Value::Object(m));
    }
    let d = json!({"filters": fs, "overrides": os});
    // through the configuration file, as users write them
    let mut toml = String::new();
    for (n, l) in [("finding_filters", &fs), ("finding_level_overrides", &os)] { for x in l { toml.push_str(&format!("[[live-check.{n}]]\n")); for (k, v) in x.as_object().unwrap() { toml.push_str(&format!("{k} = {v}\n")); } } }
    let sc = Scratch::new();
    let p = sc.path().join(".weaver.toml");
    std::fs::write(&p, &toml).unwrap();
    let cfg = weaver_config::load(&p).unwrap_or_else(|e| panic!("config rejected {e:?}\n{toml}"));
    let lc: weaver_config::LiveCheckConfig = cfg.command_config("live-check");
    (lc.finding_filters, lc.finding_level_overrides, d)
}
fn modifier(t: &mut Tape, c: &mut Case) -> CaseResult {
    let (l, xs, m) = setup(t, c, 6)?;
    let (fs, os, desc) = rules(t);
    c.out.desc.push_str(&desc.to_string());
    let mut lc = match checker(&l) { Ok(x) => x, Err(e) => return fail("checker rejected", e) };
    lc.finding_modifier = match FindingModifier::from_rules(&fs, &os) { Ok(m) => m, Err(e) => return fail("rules rejected", format!("{e:?}")) };
    let mut st = LiveCheckStatistics::Cumulative(CumulativeStatistics::new(&l.versioned));
    let out = match run(&mut lc, &mut st, &xs) { Ok(o) => o, Err(e) => return fail("live check failed", e) };
    let in_scope = |r: &Value, f: &Value, name: Option<&str>| -> bool {
        r.get("signal_type").is_none_or(|s| &f["signal_type"] == s) && r.get("sample_names").is_none_or(|g| name.is_some_and(|n| g.as_array().unwrap().iter().any(|p| glob_match(p.as_str().unwrap(), n))))
    };
    let has = |l: &Value, k: &str, id: &Value| l.get(k).map(|x| x.as_array().unwrap().contains(id));
    for (x, s) in xs.iter().zip(&out) {
        let act = actual_findings(s);
        for (p, e) in expected_findings(&l.reg, &m, x) {
            let o = s.pointer(&p).unwrap();
            let name = match kind_of(&p) { "attribute" | "span" | "span_event" | "instrumentation_scope" | "metric" => o["name"].as_str(), "log" => o["event_name"].as_str(), _ => None };
            let mut want = vec![];
            for f in &e {
                let mut f = f.clone(); let before = f.clone();
                if let Some(r) = desc["overrides"].as_array().unwrap().iter().find(|r| in_scope(r, &f, name) && has(r, "ids", &f["id"]).unwrap_or(true)) { f["level"] = r["level"].clone(); }
                let drop = desc["filters"].as_array().unwrap().iter().any(|r| in_scope(r, &f, name) && (has(r, "exclude", &f["id"]).unwrap_or(false) || r.get("min_level").is_some_and(|m| rank(f["level"].as_str().unwrap()) < rank(m.as_str().unwrap())) || r.get("exclude_samples").is_some_and(|g| name.is_some_and(|n| g.as_array().unwrap().iter().any(|p| glob_match(p.as_str().unwrap(), n))))));
                if drop || f != before { c.nontrivial(true); }
                if !drop { want.push(f); }
            }
            let r = &act[&p];
            let got: Vec<Value> = r["all_advice"].as_array().unwrap().iter().map(strip_msg).collect();
            ensure!(multiset(&want) == multiset(&got), format!("findings of {} after rules", kind_of(&p)), "{p}\nexpected {:#?}\ngot {:#?}", multiset(&want), multiset(&got));
            ensure!(r["highest_advice_level"] == max_level(got.iter()), "highest level after rules", "{p}");
        }
    }
    // what was received does not depend on the rules
    let mut st0 = LiveCheckStatistics::Cumulative(CumulativeStatistics::new(&l.versioned));
    let mut lc0 = match checker(&l) { Ok(x) => x, Err(e) => return fail("checker rejected", e) };
    let _ = run(&mut lc0, &mut st0, &xs);
    let (a, b) = (serde_json::to_value(&st0).unwrap(), serde_json::to_value(&st).unwrap());
    for k in ["total_entities", "total_entities_by_type", "seen_registry_attributes", "seen_non_registry_attributes", "seen_registry_metrics", "seen_non_registry_metrics", "seen_registry_events", "seen_non_registry_events", "registry_coverage"] {
        ensure!(a[k] == b[k], format!("{k} depends on the rules"), "{}\n{}", a[k], b[k]);
    }
    let _ = BTreeMap::<u8, u8>::new();
    Ok(())
}
