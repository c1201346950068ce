//! C23: an inferred registry describes the observed telemetry.
use crate::engine::*;
use crate::ensure;
use crate::live::*;
use crate::otlp::{request, send, Req, Server};
use crate::reg::*;
use crate::reg2::*;
use crate::tape::Tape;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use weaver_infer::AccumulatedSamples;
use weaver_live_check::*;

pub fn prop() -> Prop {
    Prop { id: "C23", rule: "infer: random sequences of 1-14 samples (spans with events and links, metrics of every instrument and data point kind, logs, resources, scopes, profiles, single attributes) over a small pool of signal and attribute names, attribute values mostly of one type per name, sometimes missing or of another type; otlp: random OTLP requests sent to a running `registry infer`. Non-trivial: at least two samples observed.",
        assumptions: &["where one attribute is observed with several types, any observed type may be declared"],
        suites: vec![
            Suite { name: "infer", quick: 40_000, thorough: 800_000, parallel: true, run: infer_lib, shrink: 900 },
            Suite { name: "otlp", quick: 2_000, thorough: 40_000, parallel: true, run: infer_cli, shrink: 60 },
        ] }
}

// ---------------------------------------------------------------- model
#[derive(Default)]
struct Model {
    /// attribute name -> observed (type, value)
    attrs: BTreeMap<String, Vec<(Option<String>, Option<Value>)>>,
    spans: BTreeMap<String, (Value, BTreeSet<String>)>,
    metrics: BTreeMap<String, (Value, Value, BTreeSet<String>)>,
    events: BTreeMap<String, BTreeSet<String>>,
    any: bool,
}
impl Model {
    fn see(&mut self, l: Option<&Value>) -> BTreeSet<String> {
        l.and_then(|l| l.as_array()).into_iter().flatten().map(|a| {
            let n = a["name"].as_str().unwrap().to_owned();
            self.attrs.entry(n.clone()).or_default().push((a.get("type").and_then(|t| t.as_str()).map(str::to_owned), a.get("value").filter(|v| !v.is_null()).cloned()));
            n
        }).collect()
    }
    fn add(&mut self, j: &Value) {
        if let Some(a) = j.get("attribute") { let _ = self.see(Some(&json!([a]))); self.any = true; }
        if let Some(r) = j.get("resource") { let n = self.see(r.get("attributes")); self.any |= !n.is_empty(); }
        if let Some(s) = j.get("span") {
            self.any = true;
            let n = self.see(s.get("attributes"));
            self.spans.entry(s["name"].as_str().unwrap().into()).or_insert((s["kind"].clone(), BTreeSet::new())).1.extend(n);
            for e in s.get("span_events").and_then(|e| e.as_array()).into_iter().flatten() {
                let n = self.see(e.get("attributes"));
                self.events.entry(e["name"].as_str().unwrap().into()).or_default().extend(n);
            }
        }
        if let Some(m) = j.get("metric") {
            if ["counter", "gauge", "histogram", "updowncounter"].contains(&m["instrument"].as_str().unwrap()) {
                self.any = true;
                let mut n = BTreeSet::new();
                for d in m.get("data_points").and_then(|d| d.as_array()).into_iter().flatten() { n.extend(self.see(d.get("attributes"))); }
                self.metrics.entry(m["name"].as_str().unwrap().into()).or_insert((m["instrument"].clone(), m["unit"].clone(), BTreeSet::new())).2.extend(n);
            }
        }
        if let Some(l) = j.get("log") { let e = l["event_name"].as_str().unwrap(); if !e.is_empty() {
            self.any = true;
            let n = self.see(l.get("attributes"));
            self.events.entry(e.into()).or_default().extend(n);
        } }
    }
    fn check(&self, doc: &Value) -> CaseResult {
        ensure!(doc["file_format"] == "definition/2", "file format", "{}", doc["file_format"]);
        let refs = |o: &Value| -> Vec<String> { o.get("attributes").and_then(|a| a.as_array()).into_iter().flatten().map(|a| a["ref"].as_str().unwrap_or("?").to_owned()).collect() };
        let list = |k: &str| doc.get(k).and_then(|a| a.as_array()).cloned().unwrap_or_default();
        let sorted = |b: &BTreeSet<String>| b.iter().cloned().collect::<Vec<_>>();
        let want: Vec<Value> = self.spans.iter().map(|(n, (k, a))| json!([n, k, sorted(a)])).collect();
        let got: Vec<Value> = list("spans").iter().map(|s| json!([s["type"], s["kind"], refs(s)])).collect();
        ensure!(want == got, "spans", "{}", diff_str(&json!(want), &json!(got)));
        ensure!(list("spans").iter().all(|s| s["name"]["note"] == s["type"]), "span name note", "{:?}", list("spans"));
        let want: Vec<Value> = self.metrics.iter().map(|(n, (i, u, a))| json!([n, i, u, sorted(a)])).collect();
        let got: Vec<Value> = list("metrics").iter().map(|s| json!([s["name"], s["instrument"], s["unit"], refs(s)])).collect();
        ensure!(want == got, "metrics", "{}", diff_str(&json!(want), &json!(got)));
        let want: Vec<Value> = self.events.iter().map(|(n, a)| json!([n, sorted(a)])).collect();
        let got: Vec<Value> = list("events").iter().map(|s| json!([s["name"], refs(s)])).collect();
        ensure!(want == got, "events", "{}", diff_str(&json!(want), &json!(got)));
        for k in doc.as_object().unwrap().keys() { ensure!(["file_format", "attributes", "spans", "metrics", "events"].contains(&k.as_str()) || doc[k].as_array().is_some_and(|a| a.is_empty()) || doc[k].is_null() || doc[k].as_object().is_some_and(|o| o.values().all(|v| v.is_null() || v.as_array().is_some_and(|a| a.is_empty()))), "unexpected section", "{k}: {}", doc[k]); }
        let got: Vec<String> = list("attributes").iter().map(|a| a["key"].as_str().unwrap_or("?").to_owned()).collect();
        ensure!(got == self.attrs.keys().cloned().collect::<Vec<_>>(), "attribute definitions", "want {:?}\n got {got:?}", self.attrs.keys());
        for a in list("attributes") {
            let k = a["key"].as_str().unwrap();
            let obs = &self.attrs[k];
            let types: BTreeSet<&str> = obs.iter().filter_map(|o| o.0.as_deref()).collect();
            let ty = a["type"].as_str().unwrap_or("?");
            ensure!(if types.is_empty() { ty == "string" } else { types.contains(ty) }, "attribute type", "{k}: declared {ty}, observed {types:?}");
            let ex: Vec<Value> = match a.get("examples") { None | Some(Value::Null) => vec![], Some(Value::Array(l)) => l.clone(), Some(v) => vec![v.clone()] };
            let same = |x: &Value, y: &Value| x == y || (x.is_number() && y.is_number() && x.as_f64() == y.as_f64() && x.is_f64() == y.is_f64());
            let mut seen: Vec<&Value> = vec![];
            for o in obs { if let Some(v) = &o.1 { if o.0.as_deref() == Some(ty) && (v.is_string() || v.is_number() || v.is_boolean()) && !seen.iter().any(|s| same(s, v)) { seen.push(v); } } }
            if types.len() < 2 {
                ensure!(ex.len() == seen.len().min(5), "number of examples", "{k}: {} distinct values observed ({seen:?}), examples {ex:?}", seen.len());
                ensure!(ex.iter().all(|e| seen.iter().any(|s| same(s, e))), "example never observed", "{k}: {seen:?}, examples {ex:?}");
            } else {
                let fits = |e: &Value| match ty { "string" => e.is_string(), "int" => e.is_i64() || e.is_u64(), "double" => e.is_number(), "boolean" => e.is_boolean(), _ => false };
                ensure!(ex.len() <= 5 && ex.iter().all(fits), "example of another type", "{k}: {ty}, examples {ex:?}");
                ensure!(ex.iter().all(|e| obs.iter().any(|o| o.1.as_ref().is_some_and(|v| v == e || (v.is_number() && v.as_f64() == e.as_f64())))), "example never observed", "{k}: {obs:?}, examples {ex:?}");
            }
            ensure!((1..ex.len()).all(|i| !ex[..i].contains(&ex[i])), "duplicate example", "{k}: {ex:?}");
        }
        Ok(())
    }
    fn consistent(&self) -> bool { self.attrs.values().all(|o| o.iter().filter_map(|o| o.0.as_deref()).collect::<BTreeSet<_>>().len() < 2) }
    fn few(&self) -> bool { self.attrs.values().all(|o| o.iter().filter_map(|o| o.1.as_ref()).map(|v| v.to_string()).collect::<BTreeSet<_>>().len() <= 5) }
}
fn spec(xs: &[&Tele]) -> Result<(String, bool, (usize, usize, usize, usize)), String> {
    let mut acc = AccumulatedSamples::new();
    for x in xs { acc.add_sample(to_sample(x)?); }
    let y = serde_yaml::to_string(&weaver_semconv::semconv::Versioned::V2(acc.to_semconv_spec())).map_err(|e| e.to_string())?;
    Ok((y, acc.is_empty(), acc.stats()))
}

// ---------------------------------------------------------------- samples
const NAMES: [&str; 7] = ["svc.name", "http.status", "http.route", "flag", "load.avg", "tags", "user.id"];
const TYS: [&str; 7] = ["string", "int", "string", "boolean", "double", "string[]", "int"];
fn val(t: &mut Tape, ty: &str) -> Value {
    match ty { "string" => json!(*t.pick(&["a", "b", "c", "d", "e", "f", "", "12", "true", "x: y", "é\n"])), "int" => json!(t.range(-3, 6)), "boolean" => json!(t.bool()), "double" => json!(*t.pick(&[0.5, 1.0, 2.0, -3.5, 1e300, 7.25, 0.1])), "string[]" => json!(["p", "q"]), _ => json!([1, 2]) }
}
fn sattr(t: &mut Tape, mixed: bool) -> Value {
    let i = t.below(NAMES.len() as u64) as usize;
    let ty = if mixed && t.chance(1, 4) { *t.pick(&["string", "int", "boolean", "double", "string[]", "int[]"]) } else { TYS[i] };
    if t.chance(1, 8) { return match t.below(3) { 0 => json!({"name": NAMES[i], "value": null}), 1 => json!({"name": NAMES[i], "value": []}), _ => json!({"name": NAMES[i]}) }; }
    let v = val(t, ty);
    json!({"name": NAMES[i], "type": ty, "value": v})
}
fn sattrs(t: &mut Tape, mixed: bool, hi: usize) -> Value { let n = t.size(0, hi); json!((0..n).map(|_| sattr(t, mixed)).collect::<Vec<_>>()) }
fn ename(t: &mut Tape) -> &'static str { *t.pick(&["cart.add", "login", "exception", "cart.add", ""]) }
fn sample(t: &mut Tape, mixed: bool) -> Tele {
    let mut exp = false;
    let json = match t.below(12) {
        0 => json!({"attribute": sattr(t, mixed)}),
        1 => json!({"resource": {"attributes": sattrs(t, mixed, 3)}}),
        2 => json!({"instrumentation_scope": {"name": "lib", "attributes": sattrs(t, mixed, 2)}}),
        3 => json!({"profile": {"original_payload_format": "pprof", "attributes": sattrs(t, mixed, 2)}}),
        4 | 5 => json!({"log": {"event_name": ename(t), "severity_number": 9, "body": "b", "attributes": sattrs(t, mixed, 3)}}),
        6..=8 => { let ne = t.size(0, 2); let nl = t.size(0, 1);
            let ev: Vec<Value> = (0..ne).map(|_| json!({"name": ename(t), "attributes": sattrs(t, mixed, 2)})).collect();
            let li: Vec<Value> = (0..nl).map(|_| json!({"attributes": sattrs(t, mixed, 2)})).collect();
            json!({"span": {"name": *t.pick(&["GET /users", "query", "cart.add", "query"]), "kind": *t.pick(&["client", "server", "internal", "producer", "consumer"]), "attributes": sattrs(t, mixed, 3), "span_events": ev, "span_links": li}}) }
        _ => { let kind = t.below(4); exp = kind == 3; let n = t.size(0, 2);
            let dps: Vec<Value> = (0..n).map(|_| { let a = sattrs(t, mixed, 3); let ex = if t.chance(1, 4) { json!([{"filtered_attributes": sattrs(t, mixed, 2), "value": 1.0, "timestamp": "t", "span_id": "", "trace_id": ""}]) } else { json!([]) };
                match kind { 1 => json!({"attributes": a, "value": 3, "exemplars": ex}), _ => json!({"attributes": a, "count": 3, "sum": 1.0, "bucket_counts": [1, 2], "explicit_bounds": [1.0], "exemplars": ex}) } }).collect();
            let mut j = json!({"metric": {"name": *t.pick(&["req.count", "latency", "cart.add", "latency"]), "instrument": *t.pick(&["counter", "gauge", "histogram", "updowncounter", "summary", ""]), "unit": *t.pick(&["s", "By", "", "{req}"])}});
            if kind > 0 { j["metric"]["data_points"] = json!(dps); }
            j }
    };
    Tele { json, resource: None, exp }
}

fn infer_lib(t: &mut Tape, c: &mut Case) -> CaseResult {
    let mixed = t.chance(1, 3);
    let n = t.size(1, 14);
    let xs: Vec<Tele> = (0..n).map(|_| sample(t, mixed)).collect();
    c.desc(json!(xs.iter().map(|x| &x.json).collect::<Vec<_>>()).to_string());
    c.nontrivial(n > 1);
    let mut m = Model::default();
    for x in &xs { m.add(&x.json); for k in x.json.as_object().unwrap().keys() { c.label(k.clone()); } }
    let all: Vec<&Tele> = xs.iter().collect();
    let (y, empty, stats) = match spec(&all) { Ok(x) => x, Err(e) => return fail("cannot infer", e) };
    ensure!(empty == !m.any, "is_empty", "{empty}");
    ensure!((stats.1, stats.2) == (m.spans.len(), m.metrics.len()), "stats", "{stats:?}");
    let doc: Value = match serde_yaml::from_str(&y) { Ok(d) => d, Err(e) => return fail("unreadable YAML", format!("{e}\n{y}")) };
    m.check(&doc)?;
    // deterministic
    for _ in 0..3 { let (y2, ..) = spec(&all).unwrap(); ensure!(y2 == y, "same telemetry, another registry", "{}", diff_str(&doc, &serde_yaml::from_str::<Value>(&y2).unwrap())); }
    // what one attribute is inferred to be does not depend on the order of arrival
    if m.consistent() {
        c.label("consistent");
        let mut p = all.clone(); t.shuffle(&mut p);
        let (y2, ..) = spec(&p).unwrap();
        let d2: Value = serde_yaml::from_str(&y2).unwrap();
        let norm = |d: &Value| { let mut l = d["attributes"].as_array().cloned().unwrap_or_default(); for a in &mut l { if let Some(e) = a.get_mut("examples") { if let Some(e) = e.as_array_mut() { e.sort_by_key(|v| v.to_string()); } if !m.few() { *e = Value::Null; } } } json!(l) };
        ensure!(norm(&doc) == norm(&d2), "depends on the order of arrival", "{}", diff_str(&norm(&doc), &norm(&d2)));
    }
    // the registry loads, and the telemetry conforms to it
    if t.chance(1, 12) && !m.events.contains_key("") {
        c.label("checked against itself");
        let s = Scratch::new();
        std::fs::write(s.path().join("registry.yaml"), &y).unwrap();
        manifest(s.path(), "https://inferred.example/schemas/1.0.0", &[]);
        let r = match resolve2(s.path()) { Ok(r) => r, Err(e) => return fail("inferred registry does not resolve", format!("{e}\n{y}")) };
        let l = LiveReg { reg: Reg2::default(), v2: true, versioned: std::sync::Arc::new(VersionedRegistry::V2(Box::new(r.forge))) };
        let mut lc = match checker(&l) { Ok(x) => x, Err(e) => return fail("checker", e) };
        let mut stats = LiveCheckStatistics::Cumulative(CumulativeStatistics::new(&l.versioned));
        let out = match run(&mut lc, &mut stats, &xs) { Ok(o) => o, Err(e) => return fail("live check", e) };
        for (x, o) in xs.iter().zip(&out) {
            if ["instrumentation_scope", "profile"].iter().any(|k| x.json.get(k).is_some()) { continue; }
            if x.json.get("log").is_some_and(|l| l["event_name"] == "") { continue; }
            if x.json.get("metric").is_some_and(|m| ["summary", ""].contains(&m["instrument"].as_str().unwrap())) { continue; }
            for (p, r) in actual_findings(o) {
                for f in r["all_advice"].as_array().into_iter().flatten() {
                    let id = f["id"].as_str().unwrap_or("");
                    let bad = match id {
                        "missing_attribute" => !p.contains("filtered_attributes") && !p.contains("span_links"),
                        "missing_metric" | "missing_event" => true,
                        "type_mismatch" => m.consistent() && !p.contains("filtered_attributes") && !p.contains("span_links"),
                        "unexpected_instrument" => m.metrics[x.json["metric"]["name"].as_str().unwrap()].0 == x.json["metric"]["instrument"],
                        "unit_mismatch" => m.metrics[x.json["metric"]["name"].as_str().unwrap()].1 == x.json["metric"]["unit"],
                        "required_attribute_not_present" | "deprecated" | "undefined_enum_variant" | "template_attribute" => true,
                        _ => false,
                    };
                    ensure!(!bad, "telemetry does not conform to the registry inferred from it", "{p}: {f}\n{}", x.json);
                }
            }
        }
    }
    Ok(())
}

fn infer_cli(t: &mut Tape, c: &mut Case) -> CaseResult {
    let reg = gen2(t, Opts2 { max_attrs: 5, max_sig: 2, groups: 0, refinements: 0, assoc: true, prefix: "" });
    let m = model(&reg);
    let n = t.size(0, 4);
    let reqs: Vec<Req> = (0..n).map(|_| request(t, &reg, &m)).collect();
    c.desc(json!(reqs.iter().map(|r| json!({r.kind: r.samples.iter().map(|x| &x.json).collect::<Vec<_>>()})).collect::<Vec<_>>()).to_string());
    for r in &reqs { c.label(r.kind); }
    let s = Scratch::new();
    let stop = *t.pick(&["stop", "stop", "INT", "HUP"]);
    let out = *t.pick(&["inferred", "a/b/c", "existing"]);
    c.label(stop);
    if out == "existing" { std::fs::create_dir_all(s.path().join(out)).unwrap(); std::fs::write(s.path().join("existing/registry.yaml"), "old: true\n").unwrap(); std::fs::write(s.path().join("existing/keep.txt"), "k").unwrap(); }
    let mut a: Vec<String> = ["--quiet", "registry", "infer", "--inactivity-timeout", "100"].iter().map(|x| x.to_string()).collect();
    if t.bool() { a.extend(["-o".into(), out.into()]); } else { std::fs::write(s.path().join(".weaver.toml"), format!("[infer]\noutput = \"{out}\"\n")).unwrap(); }
    let mut srv = Server::start(&a, s.path(), None, "");
    let mut tries = 0;
    while !srv.ready() {
        let o = srv.wait(1);
        tries += 1;
        if tries < 4 && o.as_ref().is_some_and(|o| o.stderr.contains("Address already in use") || o.stdout.contains("Address already in use")) { srv = Server::start(&a, s.path(), None, ""); continue; }
        return fail("receiver does not start", o.map(|o| o.show()).unwrap_or_default());
    }
    let _ = srv.http("GET", "/health");
    if let Err(e) = send(srv.grpc, &[reqs.iter().map(|r| r.export.clone()).collect()]) { return fail("export refused", format!("{e}\n{}", srv.wait(1).map(|o| o.show()).unwrap_or_default())); }
    match stop { "stop" => { let _ = srv.http("POST", "/stop"); } x => srv.signal(&format!("-{x}")) }
    let Some(o) = srv.wait(120) else { return fail(format!("does not stop on {stop}"), "still running after 120 s") };
    ensure!(o.code == Some(0), "exit status", "{}", o.show());
    let mut md = Model::default();
    let xs: Vec<&Tele> = reqs.iter().flat_map(|r| r.samples.iter()).collect();
    for x in &xs { md.add(&x.json); }
    c.nontrivial(xs.len() > 1);
    let f = s.path().join(out).join("registry.yaml");
    if !md.any {
        c.label("nothing to infer");
        if out == "existing" { ensure!(std::fs::read_to_string(&f).is_ok_and(|x| x == "old: true\n"), "file rewritten without telemetry", ""); } else { ensure!(!f.exists(), "file without telemetry", ""); }
        return Ok(());
    }
    let Ok(y) = std::fs::read_to_string(&f) else { return fail("no registry file", o.show()) };
    let doc: Value = match serde_yaml::from_str(&y) { Ok(d) => d, Err(e) => return fail("unreadable YAML", format!("{e}\n{y}")) };
    md.check(&doc)?;
    let mut files = tree(&s.path().join(out)); files.sort();
    ensure!(files == if out == "existing" { vec!["keep.txt".to_owned(), "registry.yaml".into()] } else { vec!["registry.yaml".to_owned()] }, "files", "{files:?}");
    Ok(())
}
fn tree(p: &std::path::Path) -> Vec<String> { std::fs::read_dir(p).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default() }
