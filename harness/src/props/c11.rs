//! C11: schema version histories: ordering, effective renames, inheritance.
use crate::engine::*;
use crate::ensure;
use crate::tape::Tape;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use weaver_version::{VersionAttributeChanges, Versions};

pub fn prop() -> Prop {
    Prop { id: "C11", rule: "one or two random version histories (0-6 versions from a small pool, incl. pre-releases; per version any subset of resources/metrics/logs/spans sections with 0-3 changes each, overlapping old names; metric sections rename metrics and attributes, some with apply_to_metrics), loaded from YAML or from an OpenTelemetry schema file, optionally one extended by the other. Every query is compared with a fold over the generated history. Non-trivial: at least two versions and one name renamed twice, or an extension where a version is in both.",
        assumptions: &["the `all` section is documented as unsupported and only round-trips", "within one version each old name is renamed by one change per section"],
        suites: vec![Suite { name: "history", quick: 40_000, thorough: 800_000, parallel: true, run: history, shrink: 800 }] }
}
const VERS: [&str; 9] = ["1.0.0", "1.2.0", "1.10.0", "1.9.1", "2.0.0-rc.1", "2.0.0", "0.9.0", "1.2.1", "10.0.0"];
const KEYS: [&str; 4] = ["resources", "metrics", "logs", "spans"];
/// section -> kind (0 attributes, 1 metrics) -> old -> new
type Spec = BTreeMap<(String, u8), BTreeMap<String, String>>;
type Hist = BTreeMap<semver::Version, Spec>;

fn gen(t: &mut Tape, tag: &str) -> (Hist, Value) {
    let mut vs: Vec<&str> = VERS.to_vec(); t.shuffle(&mut vs);
    let n = t.size(0, 6);
    let mut h = Hist::new(); let mut y = Map::new();
    for v in &vs[..n] {
        let mut spec = Spec::new(); let mut ym = Map::new();
        for k in KEYS {
            if !t.chance(1, 2) { if t.chance(1, 6) { let _ = ym.insert(k.into(), Value::Null); } continue; }
            let mut changes = vec![];
            for _ in 0..t.size(0, 3) {
                let mut attr = Map::new(); let mut met = Map::new();
                for _ in 0..t.size(0, 3) {
                    let old = *t.pick(&["a.x", "b.x", "c.y", "d"]);
                    let new = format!("{}.{tag}{v}", t.pick(&["n", "m"]));
                    let kind = u8::from(k == "metrics" && t.bool());
                    let e = spec.entry((k.into(), kind)).or_default();
                    if e.contains_key(old) { continue; }
                    let _ = e.insert(old.into(), new.clone());
                    let _ = if kind == 1 { met.insert(old.into(), json!(new)) } else { attr.insert(old.into(), json!(new)) };
                }
                let mut c = json!({"rename_attributes": {"attribute_map": attr}});
                if k == "metrics" {
                    if t.chance(1, 4) { c["rename_attributes"]["apply_to_metrics"] = json!(["some.metric"]); }
                    if !met.is_empty() || t.bool() { c["rename_metrics"] = Value::Object(met); }
                    if c["rename_attributes"]["attribute_map"] == json!({}) && t.bool() { let _ = c.as_object_mut().unwrap().remove("rename_attributes"); }
                }
                changes.push(c);
            }
            let _ = ym.insert(k.into(), json!({"changes": changes}));
        }
        if t.chance(1, 6) { let _ = ym.insert("all".into(), json!({"changes": [{"rename_attributes": {"attribute_map": {"a.x": "all"}}}]})); }
        let _ = h.insert(semver::Version::parse(v).unwrap(), spec);
        let _ = y.insert((*v).into(), Value::Object(ym));
    }
    (h, Value::Object(y))
}
fn load(y: &Value, schema: bool, name: &str) -> Result<Option<Versions>, Violation> {
    let s = crate::reg::Scratch::new();
    let p = s.path().join(format!("{name}.yaml"));
    let mut doc = json!({"versions": y});
    if schema { doc["file_format"] = json!("1.1.0"); doc["schema_url"] = json!("https://x/1"); }
    std::fs::write(&p, serde_yaml::to_string(&doc).unwrap()).unwrap();
    if schema {
        match weaver_otel_schema::TelemetrySchema::try_from_file(&p) { Ok(s) => Ok(s.versions), Err(e) => fail("load/otel-schema", format!("{e:?}\n{doc}")) }
    } else {
        match Versions::load_from_file(&p) { Ok(v) => Ok(Some(v)), Err(e) => fail("load/versions", format!("{e:?}\n{doc}")) }
    }
}
fn history(t: &mut Tape, c: &mut Case) -> CaseResult {
    let schema = t.bool();
    let (mut h, y) = gen(t, "c");
    let Some(mut v) = load(&y, schema, "a")? else { return fail("load/none", y.to_string()) };
    let mut desc = json!({"schema_file": schema, "versions": y});
    if t.chance(1, 2) {
        let (p, py) = gen(t, "p");
        let Some(pv) = load(&py, !schema, "p")? else { return fail("load/none", py.to_string()) };
        v.extend(pv);
        for (ver, spec) in p {
            if h.contains_key(&ver) { c.nontrivial(true); c.label("extend/common-version"); }
            let e = h.entry(ver).or_default();
            for (k, m) in spec { let l = e.entry(k).or_default(); for (o, n) in m { let _ = l.entry(o).or_insert(n); } }
        }
        desc["parent"] = py; c.label("extend");
    }
    c.desc(desc.to_string());
    let ctx = || desc.to_string();
    // ordering
    let keys: Vec<&semver::Version> = h.keys().collect();
    ensure!(v.len() == h.len() && v.is_empty() == h.is_empty(), "len", "len {} expected {}: {}", v.len(), h.len(), ctx());
    // Version wraps a private semver; observe through JSON of the spec order and comparisons
    let asc = v.versions_asc(); let desc_ = v.versions_desc();
    ensure!(asc.len() == h.len() && desc_.len() == h.len(), "order/len", "{}", ctx());
    ensure!(asc.windows(2).all(|w| w[0].0 < w[1].0), "order/asc", "{}", ctx());
    ensure!(desc_.windows(2).all(|w| w[0].0 > w[1].0), "order/desc", "{}", ctx());
    ensure!(asc.iter().zip(desc_.iter().rev()).all(|(a, b)| a.0 == b.0 && serde_json::to_value(a.1).unwrap() == serde_json::to_value(b.1).unwrap()), "order/mirror", "{}", ctx());
    match (v.latest_version(), asc.last()) { (Some(l), Some(a)) => ensure!(l == a.0, "latest", "{}", ctx()), (None, None) => {}, _ => return fail("latest", ctx()) }
    let twice = h.values().flat_map(|s| s.iter().flat_map(|(k, m)| m.keys().map(move |o| (k.clone(), o.clone())))).fold(BTreeMap::<_, u32>::new(), |mut a, k| { *a.entry(k).or_default() += 1; a });
    if h.len() >= 2 && twice.values().any(|n| *n >= 2) { c.nontrivial(true); c.label("renamed-twice"); }
    for (i, ver) in v.versions_asc().into_iter().map(|x| x.0).enumerate() {
        let upto = v.versions_desc_from(&ver);
        ensure!(upto.len() == i + 1 && upto.first().is_some_and(|f| f.0 == ver) && upto.windows(2).all(|w| w[0].0 > w[1].0), "desc_from", "version #{i}: {}", ctx());
        let ch = v.version_changes_for(&ver);
        for ((sec, kind), old) in KEYS.iter().flat_map(|k| [0u8, 1].map(|m| (k.to_string(), m))).filter(|(k, m)| *m == 0 || k == "metrics").flat_map(|k| ["a.x", "b.x", "c.y", "d", "zz"].map(|o| (k.clone(), o))) {
            // latest rename of that name among the versions up to this one
            let want = keys[..=i].iter().rev().find_map(|k| h[*k].get(&(sec.clone(), kind)).and_then(|m| m.get(old))).cloned().unwrap_or_else(|| old.to_owned());
            let (got, got2) = match (sec.as_str(), kind) {
                ("resources", _) => (ch.get_resource_attribute_name(old), Some(ch.resource_attribute_changes().get_attribute_name(old))),
                ("logs", _) => (ch.get_log_attribute_name(old), Some(ch.log_attribute_changes().get_attribute_name(old))),
                ("spans", _) => (ch.get_span_attribute_name(old), Some(ch.span_attribute_changes().get_attribute_name(old))),
                (_, 0) => (ch.get_metric_attribute_name(old), Some(ch.metric_attribute_changes().get_attribute_name(old))),
                _ => (ch.get_metric_name(old), None),
            };
            ensure!(got == want, format!("rename/{sec}/{kind}"), "{sec} kind {kind} `{old}` at version {}: got {got}, expected {want}\n{}", keys[i], ctx());
            if let Some(g) = got2 { ensure!(g == want, format!("rename-view/{sec}"), "{sec} `{old}`: {g} vs {want}\n{}", ctx()); }
        }
        let from = v.versions_asc_from(ver);
        ensure!(from.len() == h.len() - i && from.windows(2).all(|w| w[0].0 < w[1].0), "asc_from", "version #{i}: {}", ctx());
    }
    // serialization round trip
    let s = serde_yaml::to_string(&v).unwrap();
    let back: Versions = match serde_yaml::from_str(&s) { Ok(b) => b, Err(e) => return fail("roundtrip/parse", format!("{e}\n{s}")) };
    ensure!(serde_json::to_value(&back).unwrap() == serde_json::to_value(&v).unwrap(), "roundtrip", "{}", ctx());
    Ok(())
}
