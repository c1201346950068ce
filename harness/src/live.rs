//! Live check: generated registries and telemetry, and an independent model of the findings.
use crate::reg::*;
use crate::reg2::*;
use crate::tape::Tape;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;
use weaver_live_check::advice::*;
use weaver_live_check::live_checker::LiveChecker;
use weaver_live_check::sample_metric::*;
use weaver_live_check::sample_resource::SampleResource;
use weaver_live_check::*;

pub struct LiveReg { pub reg: Reg2, pub v2: bool, pub versioned: Arc<VersionedRegistry> }

/// Registry for live check; `v2` selects the view the checker is given.
pub fn live_registry(t: &mut Tape, c_desc: &mut Map<String, Value>) -> Result<LiveReg, String> {
    let v2 = t.bool();
    let mut r = gen2(t, Opts2 { max_attrs: 6, max_sig: 3, groups: 1, refinements: if v2 { 1 } else { 0 }, assoc: true, prefix: "" });
    // templates whose names are prefixes of each other within one segment
    if t.chance(1, 6) { let mut two = vec!["tpl.lab", "tpl.label"]; t.shuffle(&mut two); for k in two { let ty = format!("template[{}]", *t.pick(&["string", "int", "string[]"])); r.add("attributes", json!({"key": k, "type": ty, "brief": "b", "stability": stability(t)})); } }
    // denser requirement levels and associations than the general generator draws
    let ents = r.entity_types();
    for k in ["metrics", "events", "entities"] { if let Some(v) = r.s.get_mut(k) { for o in v {
        for l in ["attributes", "identity", "description"] { if let Some(a) = o.get_mut(l).and_then(|a| a.as_array_mut()) { for x in a { if x.get("ref").is_some() && t.chance(1, 2) { x["requirement_level"] = requirement_level(t); } } } }
        if k != "entities" && !ents.is_empty() && t.chance(1, 2) { let n = t.size(1, 3); let _ = o.insert("entity_associations".into(), json!((0..n).map(|_| assoc(t, &ents, 2)).collect::<Vec<_>>())); }
    } } }
    if !v2 {
        // the v1 view has one copy of an attribute per group; keep what lookups use identical
        for (k, v) in r.s.iter_mut() { if *k != "attributes" { for o in v { for l in ["attributes", "identity", "description"] { if let Some(a) = o.get_mut(l).and_then(|a| a.as_array_mut()) { for x in a { let x = x.as_object_mut().unwrap(); let _ = x.remove("stability"); let _ = x.remove("deprecated"); } } } } } }
    }
    let _ = c_desc.insert("registry".into(), r.to_doc());
    let _ = c_desc.insert("v2".into(), json!(v2));
    let s = Scratch::new();
    write_yaml(&s.path().join("r.yaml"), &r.to_doc());
    manifest(s.path(), "https://live.example/schemas/1.0.0", &[]);
    let versioned = if v2 { VersionedRegistry::V2(Box::new(resolve2(s.path())?.forge)) } else {
        let x = resolve_dir(s.path())?;
        VersionedRegistry::V1(Box::new(weaver_forge::registry::ResolvedRegistry::try_from_resolved_registry(&x.schema.registry, x.schema.catalog()).map_err(|e| format!("{e:?}"))?))
    };
    Ok(LiveReg { reg: r, v2, versioned: Arc::new(versioned) })
}
pub fn checker(l: &LiveReg) -> Result<LiveChecker, String> {
    let mut lc = LiveChecker::new(l.versioned.clone(), vec![Box::new(DeprecatedAdvisor), Box::new(StabilityAdvisor), Box::new(TypeAdvisor), Box::new(EnumAdvisor)]);
    let r = RegoAdvisor::new(&lc, &None, &None, &None).map_err(|e| format!("{e:?}"))?;
    lc.add_advisor(Box::new(r));
    Ok(lc)
}

// ------------------------------------------------------------------ telemetry
#[derive(Clone, Debug)]
pub struct Tele { pub json: Value, pub resource: Option<Value>, pub exp: bool }

pub fn value(t: &mut Tape, ty: Option<&Value>) -> Option<Value> {
    if t.chance(1, 10) { return None; }
    if let (Some(ty), true) = (ty, t.chance(2, 3)) {
        if let Some(ms) = ty.get("members").and_then(|m| m.as_array()) { return Some(match t.below(5) { 0 => json!("v9"), 1 => json!(77), _ => t.pick(ms)["value"].clone() }); }
        let s = ty.as_str().unwrap_or("string").trim_start_matches("template[").to_owned();
        let s = if ty.as_str().unwrap_or("").starts_with("template[") { s.strip_suffix(']').unwrap().to_owned() } else { s };
        let k = t.size(0, 3);
        return Some(match s.as_str() {
            "int" => json!(t.range(-3, 9)), "double" => if t.bool() { json!(1.5) } else { json!(t.range(0, 9)) }, "boolean" => json!(t.bool()),
            "string[]" => json!(vec!["x"; k]), "int[]" => json!(vec![4; k]), "double[]" => if t.bool() { json!(vec![0.5; k]) } else { json!([1, 2]) }, "boolean[]" => json!(vec![true; k]),
            "any" => any_json(t), _ => json!("text"),
        });
    }
    Some(any_json(t))
}
pub fn any_json(t: &mut Tape) -> Value {
    match t.below(14) {
        0 => json!("v1"), 1 => json!(1), 2 => json!(0), 3 => json!(2.5), 4 => json!(true), 5 => json!(["a", "b"]), 6 => json!([1, 2, null]), 7 => json!([1, 2.5]), 8 => json!([true]), 9 => Value::Null, 10 => json!([]), 11 => json!({"k": 1}), 12 => json!(["a", 1]), _ => json!(u64::MAX),
    }
}
pub fn name(t: &mut Tape, reg: &Reg2) -> String {
    let keys = reg.attr_keys();
    let k = t.pick(&keys).clone();
    match t.below(12) {
        0..=4 => k,
        5 => format!("{k}.{}", t.pick(&["x", "x.y", "X-Custom", "a_b"])),
        6 => format!("{k}{}", t.pick(&["s", "_x", "", "."])),
        7 => { let mut p: Vec<&str> = k.split('.').collect(); let _ = p.pop(); p.push("other"); p.join(".") }
        8 => t.pick(&["unknown", "un.known", "a.b.c.d", "a.q", "net.host.name", "http.header.x", "svc", "x.y.z"]).to_string(),
        9 => t.pick(&["Bad.Name", "1a.b", "a..b", "a.b_", "_a", "a-b.c", "é.b", "a b", "http.status__code"]).to_string(),
        10 => k.to_uppercase(),
        _ => t.pick(&KEYS).to_string(),
    }
}
pub fn attr(t: &mut Tape, reg: &Reg2) -> Value {
    let n = name(t, reg);
    let ty = lookup(reg, &n).map(|a| a["type"].clone());
    let mut m = Map::new();
    let v = value(t, ty.as_ref());
    let _ = m.insert("name".into(), json!(n));
    if let Some(v) = v { let _ = m.insert("value".into(), v); }
    if t.chance(1, 12) { let _ = m.insert("type".into(), json!(*t.pick(&PRIMS))); }
    Value::Object(m)
}
pub fn attrs(t: &mut Tape, reg: &Reg2, hi: usize) -> Vec<Value> { let n = t.size(0, hi); (0..n).map(|_| attr(t, reg)).collect() }
/// attributes that tend to satisfy the given signal
fn attrs_for(t: &mut Tape, reg: &Reg2, wanted: Option<&G2>) -> Vec<Value> {
    let mut v = attrs(t, reg, 2);
    if let Some(g) = wanted { for k in g.attrs.keys() { if t.chance(2, 3) {
        let a = reg.sec("attributes").iter().find(|a| a["key"] == k.as_str()).unwrap();
        let tmpl = a["type"].as_str().is_some_and(|s| s.starts_with("template"));
        let n = if tmpl && t.chance(3, 4) { format!("{k}.inst") } else { k.clone() };
        let val = value(t, Some(&a["type"]));
        v.push(match val { Some(x) => json!({"name": n, "value": x}), None => json!({"name": n}) });
    } } }
    t.shuffle(&mut v);
    v
}
pub fn resource(t: &mut Tape, reg: &Reg2, m: &BTreeMap<String, G2>) -> Value {
    let ents = reg.entity_types();
    let mut a = attrs(t, reg, 1);
    for e in &ents { if t.chance(2, 3) { a.extend(attrs_for(t, reg, m.get(&format!("entity.{e}")))); } }
    json!({"attributes": a})
}
fn pick_name(t: &mut Tape, names: Vec<String>, other: &[&str]) -> String { if names.is_empty() || t.chance(1, 4) { t.pick(other).to_string() } else { t.pick(&names).clone() } }
pub fn telemetry(t: &mut Tape, reg: &Reg2, m: &BTreeMap<String, G2>) -> Tele { let k = t.below(12); telemetry_kind(t, reg, m, k) }
/// 0,1 attribute 2 span 3 span event 4 span link 5 resource 6 scope 7 profile 8,9 log else metric
pub fn telemetry_kind(t: &mut Tape, reg: &Reg2, m: &BTreeMap<String, G2>, k: u64) -> Tele {
    let names = |sec: &str, k: &str| reg.sec(sec).iter().map(|x| x[k].as_str().unwrap().to_owned()).collect::<Vec<_>>();
    let exemplars = |t: &mut Tape| -> Vec<Value> { if t.chance(1, 4) { vec![json!({"filtered_attributes": attrs(t, reg, 2), "value": 1.0, "timestamp": "t", "span_id": "", "trace_id": ""})] } else { vec![] } };
    let mut exp = false;
    let json = match k {
        0 | 1 => json!({"attribute": attr(t, reg)}),
        2 => { let ev: Vec<Value> = (0..t.size(0, 2)).map(|_| json!({"name": pick_name(t, names("events", "name"), &["span.ev", ""]), "attributes": attrs(t, reg, 2)})).collect();
            let li: Vec<Value> = (0..t.size(0, 2)).map(|_| json!({"attributes": attrs(t, reg, 2)})).collect();
            json!({"span": {"name": pick_name(t, names("spans", "type"), &["GET /x", ""]), "kind": *t.pick(&["client", "server", "internal"]), "attributes": attrs(t, reg, 3), "span_events": ev, "span_links": li}}) }
        3 => json!({"span_event": {"name": "ev", "attributes": attrs(t, reg, 2)}}),
        4 => json!({"span_link": {"attributes": attrs(t, reg, 2)}}),
        5 => json!({"resource": {"attributes": attrs(t, reg, 3)}}),
        6 => json!({"instrumentation_scope": {"name": "lib", "attributes": attrs(t, reg, 2)}}),
        7 => json!({"profile": {"original_payload_format": "pprof", "attributes": attrs(t, reg, 2)}}),
        8 | 9 => { let n = pick_name(t, names("events", "name"), &["", "unknown.event"]);
            json!({"log": {"event_name": n, "severity_number": 9, "body": "b", "attributes": attrs_for(t, reg, m.get(&format!("event.{n}")))}}) }
        _ => { let n = pick_name(t, names("metrics", "name"), &["unknown.metric", "Bad.Metric", "met.", "m--x"]);
            let g = m.get(&format!("metric.{n}"));
            let (ui, uu) = match g { Some(g) => (g.fields["instrument"].as_str().unwrap().to_owned(), g.fields["unit"].as_str().unwrap().to_owned()), None => ("gauge".into(), "1".into()) };
            let inst = if t.chance(2, 3) { ui } else { t.pick(&["counter", "gauge", "histogram", "updowncounter", "summary", ""]).to_string() };
            let unit = if t.chance(2, 3) { uu } else { t.pick(&["s", "By", "", "1"]).to_string() };
            let kind = t.below(4); exp = kind == 3;
            let k = t.size(0, 2);
            let dps: Vec<Value> = (0..k).map(|_| { let a = attrs_for(t, reg, g); let ex = exemplars(t); match kind {
                1 => json!({"attributes": a, "value": t.range(0, 9), "exemplars": ex}),
                _ => json!({"attributes": a, "count": 3, "sum": 1.0, "bucket_counts": [1, 2], "explicit_bounds": [1.0], "exemplars": ex}) } }).collect();
            let mut j = json!({"metric": {"name": n, "instrument": inst, "unit": unit}});
            if kind > 0 { j["metric"]["data_points"] = json!(dps); }
            j }
    };
    let has_res = ["span", "log", "metric", "profile"].iter().any(|k| json.get(k).is_some());
    let resource = if has_res && t.chance(3, 4) { Some(resource(t, reg, m)) } else { None };
    Tele { json, resource, exp }
}
/// Builds the sample the way the ingesters do (serde), then attaches what OTLP ingestion attaches.
pub fn to_sample(x: &Tele) -> Result<Sample, String> {
    let mut j = x.json.clone();
    let dps = if x.exp { j["metric"].as_object_mut().unwrap().remove("data_points") } else { None };
    let mut s: Sample = serde_json::from_value(j).map_err(|e| e.to_string())?;
    let r = match &x.resource { Some(r) => Some(Rc::new(serde_json::from_value::<SampleResource>(r.clone()).map_err(|e| e.to_string())?)), None => None };
    match &mut s {
        Sample::Metric(m) => { m.resource = r; if let Some(d) = dps { m.data_points = Some(DataPoints::ExponentialHistogram(serde_json::from_value(d).map_err(|e| e.to_string())?)); } }
        Sample::Span(m) => m.resource = r, Sample::Log(m) => m.resource = r, Sample::Profile(m) => m.resource = r, _ => {}
    }
    Ok(s)
}

// ------------------------------------------------------------------ model
pub fn is_template(a: &Obj) -> bool { a["type"].as_str().is_some_and(|s| s.starts_with("template[")) }
/// The registry attribute a telemetry attribute name stands for: the exact one, else the longest template.
pub fn lookup<'a>(reg: &'a Reg2, n: &str) -> Option<&'a Obj> {
    reg.sec("attributes").iter().find(|a| !is_template(a) && a["key"] == n)
        .or_else(|| reg.sec("attributes").iter().filter(|a| is_template(a) && n.starts_with(a["key"].as_str().unwrap())).max_by_key(|a| a["key"].as_str().unwrap().len()))
}
fn well_formed(n: &str) -> bool {
    let b = n.as_bytes();
    if b.is_empty() || !b[0].is_ascii_lowercase() { return false; }
    let mut prev_sep = false;
    for c in b { let sep = *c == b'.' || *c == b'_'; if sep && prev_sep { return false; } if !sep && !(c.is_ascii_lowercase() || c.is_ascii_digit()) { return false; } prev_sep = sep; }
    !prev_sep
}
fn prefixes(n: &str) -> Vec<String> { let p: Vec<&str> = n.split('.').collect(); (1..p.len()).map(|i| p[..i].join(".")).collect() }
pub fn infer(v: &Value) -> Option<&'static str> {
    fn prim(v: &Value) -> Option<&'static str> { match v { Value::Bool(_) => Some("boolean"), Value::Number(n) => Some(if n.is_f64() { "double" } else { "int" }), Value::String(_) => Some("string"), _ => None } }
    match v {
        Value::Array(a) => {
            let ks: Vec<Option<&str>> = a.iter().filter(|x| !x.is_null()).map(prim).collect();
            if ks.is_empty() || ks.iter().any(|k| k.is_none()) { return None; }
            let set: BTreeSet<&str> = ks.into_iter().flatten().collect();
            match set.iter().copied().collect::<Vec<_>>()[..] { ["boolean"] => Some("boolean[]"), ["int"] => Some("int[]"), ["string"] => Some("string[]"), ["double"] | ["double", "int"] => Some("double[]"), _ => None }
        }
        _ => prim(v),
    }
}
fn norm_dep(d: &Value) -> (String, String) { let n = norm_deprecated(d); let r = n["reason"].as_str().unwrap(); (if r == "unspecified" { "uncategorized" } else { r }.into(), n["note"].as_str().unwrap().into()) }
pub struct Ctx<'a> { pub reg: &'a Reg2, pub m: &'a BTreeMap<String, G2>, pub st: Value, pub sn: Value, pub resource: Option<&'a Value> }
impl Ctx<'_> {
    fn f(&self, id: &str, level: &str, ctx: Value) -> Value { json!({"id": id, "level": level, "context": ctx, "signal_type": self.st, "signal_name": self.sn}) }
}
pub fn attr_findings(c: &Ctx<'_>, a: &Value) -> Vec<Value> {
    let n = a["name"].as_str().unwrap();
    let mut out = vec![];
    let d = lookup(c.reg, n);
    match d {
        None => out.push(c.f("missing_attribute", "violation", json!({"attribute_key": n}))),
        Some(d) if is_template(d) => out.push(c.f("template_attribute", "information", json!({"attribute_key": n, "template_name": d["key"]}))),
        _ => {}
    }
    let declared = a.get("type").and_then(|t| t.as_str());
    let v = a.get("value").filter(|v| !v.is_null());
    let ty = declared.or_else(|| v.and_then(infer));
    if let Some(d) = d {
        if let Some(x) = d.get("deprecated") { let (r, note) = norm_dep(x); out.push(c.f("deprecated", "violation", json!({"attribute_key": n, "deprecation_reason": r, "deprecation_note": note}))); }
        if d["stability"] != "stable" { out.push(c.f("not_stable", "improvement", json!({"attribute_key": n, "stability": d["stability"]}))); }
        if let Some(ty) = ty {
            if let Some(ms) = d["type"].get("members").and_then(|m| m.as_array()) {
                if ty != "string" && ty != "int" { out.push(c.f("type_mismatch", "violation", json!({"attribute_key": n, "attribute_type": ty}))); }
                else if let Some(v) = v {
                    let ok = if ty == "int" { v.as_i64().is_some_and(|i| ms.iter().any(|m| m["value"].as_i64() == Some(i))) } else { v.as_str().is_some_and(|s| ms.iter().any(|m| m["value"] == s)) };
                    if !ok { out.push(c.f("undefined_enum_variant", "information", json!({"attribute_key": n, "attribute_value": v}))); }
                }
            } else {
                let e = d["type"].as_str().unwrap(); let e = if is_template(d) { &e["template[".len()..e.len() - 1] } else { e };
                let ok = ty == "any" || e == "any" || ty == e || (ty, e) == ("int", "double") || (ty, e) == ("int[]", "double[]");
                if !ok { out.push(c.f("type_mismatch", "violation", json!({"attribute_key": n, "attribute_type": ty, "expected": e}))); }
            }
        }
    }
    // the default policies
    let plain: Vec<&Obj> = c.reg.sec("attributes").iter().filter(|a| !is_template(a)).collect();
    let tmpl = c.reg.sec("attributes").iter().any(|a| is_template(a) && n.starts_with(a["key"].as_str().unwrap()));
    if !n.contains('.') { out.push(c.f("missing_namespace", "improvement", json!({"attribute_key": n}))); }
    if !tmpl && !well_formed(n) { out.push(c.f("invalid_format", "violation", json!({"attribute_key": n}))); }
    for p in prefixes(n) { if plain.iter().any(|a| a["key"] == p.as_str() && !a.contains_key("deprecated")) { out.push(c.f("illegal_namespace", "violation", json!({"attribute_key": n, "namespace": p}))); } }
    if !tmpl && !plain.iter().any(|a| a["key"] == n) {
        let spaces: BTreeSet<String> = plain.iter().flat_map(|a| prefixes(a["key"].as_str().unwrap())).collect();
        if let Some(p) = prefixes(n).into_iter().rev().find(|p| spaces.contains(p)) { out.push(c.f("extends_namespace", "information", json!({"attribute_key": n, "namespace": p}))); }
    }
    out
}
fn level_of(rl: &Value) -> (&'static str, &'static str) {
    match rl { Value::String(s) if s == "required" => ("required", "violation"), Value::String(s) if s == "opt_in" => ("opt_in", "information"), Value::String(_) => ("recommended", "improvement"),
        o if o.get("conditionally_required").is_some() => ("conditionally_required", "information"), o if o.get("opt_in").is_some() => ("opt_in", "information"), _ => ("recommended", "improvement") }
}
fn present(reg: &Reg2, k: &str, have: &[Value]) -> bool {
    let d = reg.sec("attributes").iter().find(|a| a["key"] == k).unwrap();
    have.iter().any(|a| { let n = a["name"].as_str().unwrap(); if is_template(d) { n.starts_with(k) } else { n == k } })
}
fn presence(c: &Ctx<'_>, g: &G2, have: &[Value]) -> Vec<Value> {
    g.attrs.iter().filter(|(k, _)| !present(c.reg, k, have)).map(|(k, ls)| { let e = effective(c.reg, k, ls, &["requirement_level"]); let (n, l) = level_of(&e["requirement_level"]); c.f(&format!("{n}_attribute_not_present"), l, json!({"attribute_key": k})) }).collect()
}
fn leaves(v: &Value, out: &mut Vec<String>) { match v { Value::String(s) => if !out.contains(s) { out.push(s.clone()) }, Value::Array(a) => a.iter().for_each(|x| leaves(x, out)), Value::Object(m) => m.values().for_each(|x| leaves(x, out)), _ => {} } }
fn assoc_eval(c: &Ctx<'_>, v: &Value, have: &[Value]) -> (bool, Vec<Value>) {
    if let Some(s) = v.as_str() {
        let g = &c.m[&format!("entity.{s}")];
        let fs: Vec<Value> = presence(c, g, have).into_iter().map(|f| json!({"id": format!("entity_{}", f["id"].as_str().unwrap()), "level": f["level"], "context": {"attribute_key": f["context"]["attribute_key"], "entity_type": s}, "signal_type": f["signal_type"], "signal_name": f["signal_name"]})).collect();
        return (!fs.iter().any(|f| f["level"] == "violation"), fs);
    }
    if let Some(a) = v.get("all_of").and_then(|a| a.as_array()) { let r: Vec<_> = a.iter().map(|x| assoc_eval(c, x, have)).collect(); return (r.iter().all(|x| x.0), r.into_iter().flat_map(|x| x.1).collect()); }
    one_of(c, v["one_of"].as_array().unwrap(), have)
}
fn one_of(c: &Ctx<'_>, a: &[Value], have: &[Value]) -> (bool, Vec<Value>) {
    let r: Vec<_> = a.iter().map(|x| assoc_eval(c, x, have)).filter(|x| x.0).collect();
    if !r.is_empty() { return (true, r.into_iter().flat_map(|x| x.1).collect()); }
    let mut l = vec![]; leaves(&json!(a), &mut l);
    (false, vec![c.f("entity_association_not_satisfied", "violation", json!({"entity_type": l}))])
}
fn associations(c: &Ctx<'_>, g: &G2) -> Vec<Value> {
    let empty = vec![];
    let have = c.resource.and_then(|r| r["attributes"].as_array()).unwrap_or(&empty);
    match g.fields.get("entity_associations").and_then(|a| a.as_array()).map(|a| a.as_slice()) { None | Some([]) => vec![], Some([x]) => assoc_eval(c, x, have).1, Some(a) => one_of(c, a, have).1 }
}
fn status(c: &Ctx<'_>, g: &G2, key: &str, n: &str) -> Vec<Value> {
    let mut out = vec![];
    if let Some(d) = g.fields.get("deprecated") { let (r, note) = norm_dep(d); out.push(c.f("deprecated", "violation", json!({key: n, "deprecation_reason": r, "deprecation_note": note}))); }
    if g.fields["stability"] != "stable" { out.push(c.f("not_stable", "improvement", json!({key: n, "stability": g.fields["stability"]}))); }
    out
}
/// path -> expected findings, for every sample in the tree
pub fn expected_findings(reg: &Reg2, m: &BTreeMap<String, G2>, x: &Tele) -> BTreeMap<String, Vec<Value>> {
    let (kind, o) = x.json.as_object().unwrap().iter().next().unwrap();
    let (st, sn) = match kind.as_str() { "span" => (json!("span"), o["name"].clone()), "metric" => (json!("metric"), o["name"].clone()), "log" => (json!("log"), o["event_name"].clone()), "resource" => (json!("resource"), Value::Null), "profile" => (json!("profile"), Value::Null), _ => (Value::Null, Value::Null) };
    let c = Ctx { reg, m, st, sn, resource: x.resource.as_ref() };
    let mut out = BTreeMap::new();
    fn list(c: &Ctx<'_>, out: &mut BTreeMap<String, Vec<Value>>, path: &str, v: Option<&Value>) { if let Some(a) = v.and_then(|v| v.as_array()) { for (i, x) in a.iter().enumerate() { let _ = out.insert(format!("{path}/{i}"), attr_findings(c, x)); } } }
    let root = format!("/{kind}");
    match kind.as_str() {
        "attribute" => { let _ = out.insert(root, attr_findings(&c, o)); }
        "log" => {
            let n = o["event_name"].as_str().unwrap();
            let mut f = vec![];
            if !n.is_empty() { match m.get(&format!("event.{n}")) { None => f.push(c.f("missing_event", "violation", Value::Null)), Some(g) => { f.extend(status(&c, g, "event_name", n)); f.extend(presence(&c, g, o["attributes"].as_array().unwrap())); f.extend(associations(&c, g)); } } }
            let _ = out.insert(root.clone(), f);
            list(&c, &mut out, &format!("{root}/attributes"), o.get("attributes"));
        }
        "metric" => {
            let n = o["name"].as_str().unwrap();
            let g = m.get(&format!("metric.{n}"));
            let mut f = vec![];
            match g { None => f.push(c.f("missing_metric", "violation", Value::Null)), Some(g) => {
                f.extend(status(&c, g, "metric_name", n));
                let inst = o["instrument"].as_str().unwrap(); let want = g.fields["instrument"].as_str().unwrap();
                if !["counter", "gauge", "histogram", "updowncounter"].contains(&inst) { f.push(c.f("unexpected_instrument", "violation", json!({"instrument": inst}))); }
                else if inst != want { f.push(c.f("unexpected_instrument", "violation", json!({"instrument": inst, "expected": want}))); }
                if o["unit"] != g.fields["unit"] { f.push(c.f("unit_mismatch", "violation", json!({"unit": o["unit"], "expected": g.fields["unit"]}))); }
                f.extend(associations(&c, g));
            } }
            if !well_formed(n) { f.push(c.f("invalid_format", "violation", json!({"metric_name": n}))); }
            let _ = out.insert(root.clone(), f);
            if let Some(d) = o.get("data_points").and_then(|d| d.as_array()) { for (i, p) in d.iter().enumerate() {
                let pp = format!("{root}/data_points/{i}");
                let _ = out.insert(pp.clone(), g.map(|g| presence(&c, g, p["attributes"].as_array().unwrap())).unwrap_or_default());
                list(&c, &mut out, &format!("{pp}/attributes"), p.get("attributes"));
                for (j, e) in p["exemplars"].as_array().into_iter().flatten().enumerate() { let ep = format!("{pp}/exemplars/{j}"); let _ = out.insert(ep.clone(), vec![]); list(&c, &mut out, &format!("{ep}/filtered_attributes"), e.get("filtered_attributes")); }
            } }
        }
        _ => {
            let _ = out.insert(root.clone(), vec![]);
            list(&c, &mut out, &format!("{root}/attributes"), o.get("attributes"));
            for l in ["span_events", "span_links"] { for (i, e) in o.get(l).and_then(|l| l.as_array()).into_iter().flatten().enumerate() { let p = format!("{root}/{l}/{i}"); let _ = out.insert(p.clone(), vec![]); list(&c, &mut out, &format!("{p}/attributes"), e.get("attributes")); } }
        }
    }
    out
}
/// path -> findings reported in a checked sample
pub fn actual_findings(s: &Value) -> BTreeMap<String, Value> {
    fn go(v: &Value, p: &str, out: &mut BTreeMap<String, Value>) {
        match v {
            Value::Object(m) => { if let Some(r) = m.get("live_check_result") { let _ = out.insert(p.into(), r.clone()); } for (k, x) in m { if k != "live_check_result" && k != "value" { go(x, &format!("{p}/{k}"), out); } } }
            Value::Array(a) => for (i, x) in a.iter().enumerate() { go(x, &format!("{p}/{i}"), out); },
            _ => {}
        }
    }
    let mut out = BTreeMap::new(); go(s, "", &mut out); out
}
pub fn strip_msg(f: &Value) -> Value { let mut f = f.clone(); for k in ["message", "type"] { let _ = f.as_object_mut().unwrap().remove(k); } f }
pub fn multiset(fs: &[Value]) -> BTreeMap<String, usize> { let mut m = BTreeMap::new(); for f in fs { let mut o = obj(f.clone()); for k in ["signal_type", "signal_name", "context"] { let _ = o.entry(k).or_insert(Value::Null); } *m.entry(Value::Object(o).to_string()).or_default() += 1; } m }
pub fn max_level<'a>(fs: impl Iterator<Item = &'a Value>) -> Value { fs.map(|f| f["level"].as_str().unwrap()).max_by_key(|l| rank(l)).map(|l| json!(l)).unwrap_or(Value::Null) }
pub fn rank(l: &str) -> u8 { match l { "violation" => 3, "improvement" => 2, "information" => 1, _ => 0 } }
pub fn kind_of(path: &str) -> &'static str {
    let p: Vec<&str> = path.split('/').skip(1).collect();
    match p[..] { ["attribute"] => "attribute", [.., "attributes" | "filtered_attributes", _] => "attribute", [.., "data_points", _] => "data_point", [.., "exemplars", _] => "exemplar", [.., "span_events", _] => "span_event", [.., "span_links", _] => "span_link",
        ["span"] => "span", ["span_event"] => "span_event", ["span_link"] => "span_link", ["resource"] => "resource", ["instrumentation_scope"] => "instrumentation_scope", ["metric"] => "metric", ["log"] => "log", ["profile"] => "profile", _ => "?" }
}
/// Runs samples through one checker.
pub fn run(lc: &mut LiveChecker, stats: &mut LiveCheckStatistics, xs: &[Tele]) -> Result<Vec<Value>, String> {
    let mut out = vec![];
    for x in xs {
        let mut s = to_sample(x)?;
        let parent = s.clone();
        s.run_live_check(lc, stats, None, &parent).map_err(|e| format!("{e:?}"))?;
        out.push(serde_json::to_value(&s).map_err(|e| e.to_string())?);
    }
    stats.finalize();
    Ok(out)
}

/// Findings of one checked sample against the model; returns how many were expected.
pub fn check_findings(c: &mut crate::engine::Case, reg: &Reg2, m: &BTreeMap<String, G2>, x: &Tele, s: &Value) -> Result<usize, crate::engine::Violation> {
    let exp = expected_findings(reg, m, x);
    let act = actual_findings(s);
    let mut n = 0;
    crate::ensure!(exp.keys().collect::<Vec<_>>() == act.keys().collect::<Vec<_>>(), "samples checked", "expected results for {:?}\ngot {:?}", exp.keys(), act.keys());
    for (p, e) in &exp {
        n += e.len();
        let r = &act[p];
        crate::ensure!(r.is_object(), "sample without a result", "{p} in {}", x.json);
        let fs: Vec<Value> = r["all_advice"].as_array().unwrap().iter().map(strip_msg).collect();
        for f in &fs { c.label(f["id"].as_str().unwrap().to_owned()); }
        let (em, am) = (multiset(e), multiset(&fs));
        if em != am {
            let miss: Vec<_> = em.iter().filter(|(k, n)| am.get(*k) != Some(n)).collect(); let extra: Vec<_> = am.iter().filter(|(k, n)| em.get(*k) != Some(n)).collect();
            let kind = |v: &[(&String, &usize)]| v.first().map(|x| serde_json::from_str::<Value>(x.0).unwrap()["id"].as_str().unwrap().to_owned()).unwrap_or_default();
            return Err(crate::engine::fail::<()>(format!("findings of {}: missing [{}] unexpected [{}]", kind_of(p), kind(&miss), kind(&extra)), format!("{p}\nmissing {miss:#?}\nunexpected {extra:#?}")).unwrap_err());
        }
        crate::ensure!(r["highest_advice_level"] == max_level(fs.iter()), "highest level", "{p}: {}", r["highest_advice_level"]);
    }
    Ok(n)
}
