//! C24: emitted telemetry is one conforming example of every signal of the registry.
use crate::cli;
use crate::engine::*;
use crate::ensure;
use crate::live::*;
use crate::otlp::{port, Server};
use crate::reg::*;
use crate::reg2::*;
use crate::tape::Tape;
use serde_json::{json, Map, Value};
use std::collections::BTreeSet;

pub fn prop() -> Prop {
    Prop { id: "C24", rule: "emit: generated registry, with and without --v2, emitted over OTLP to a running `registry live-check` of the same registry; the report must hold one example of every span, metric and event definition, its attributes being those of the definition with values of the declared types taken from the examples, and no finding that the telemetry breaks the registry; also --stdout, and an endpoint where nobody listens. Non-trivial: at least one signal with an attribute.",
        assumptions: &["the receiver is weaver's own live-check, decided by C13 and C14"],
        suites: vec![Suite { name: "emit", quick: 1_000, thorough: 20_000, parallel: true, run: emit, shrink: 60 },
            Suite { name: "large", quick: 6, thorough: 60, parallel: true, run: large, shrink: 4 }] }
}
fn typed(ty: &Value, v: &Value) -> bool {
    if let Some(ms) = ty.get("members").and_then(|m| m.as_array()) { return ms.iter().any(|m| m["value"] == *v || (v.is_number() && m["value"].as_f64() == v.as_f64() && m["value"].is_f64() == v.is_f64())); }
    let s = ty.as_str().unwrap_or("");
    let s = s.strip_prefix("template[").and_then(|s| s.strip_suffix(']')).unwrap_or(s);
    if s == "any" { return !v.is_null(); }
    let one = |s: &str, v: &Value| match s { "string" => v.is_string(), "int" => v.is_i64() || v.is_u64(), "double" => v.is_f64(), "boolean" => v.is_boolean(), _ => false };
    match s.strip_suffix("[]") { Some(b) => v.as_array().is_some_and(|a| !a.is_empty() && a.iter().all(|x| one(b, x))), None => one(s, v) }
}
/// The attributes of an emitted signal against the definition.
fn check(reg: &Reg2, g: &G2, at: &str, got: &[Value]) -> CaseResult {
    let mut names = BTreeSet::new();
    for a in got {
        let n = a["name"].as_str().unwrap_or("?");
        let tmpl = |k: &str| is_template(reg.sec("attributes").iter().find(|a| a["key"] == k).unwrap());
        let Some((k, _)) = g.attrs.iter().find(|(k, _)| n == k.as_str() && !tmpl(k)).or_else(|| g.attrs.iter().filter(|(k, _)| tmpl(k) && n.strip_prefix(k.as_str()).is_some_and(|r| r.len() > 1 && r.starts_with('.'))).max_by_key(|(k, _)| k.len())) else { return fail("attribute the definition does not have", format!("{at}: {n} {:?}", g.attrs.keys())) };
        ensure!(names.insert(k.clone()), "attribute emitted twice", "{at}: {n}");
        let d = reg.sec("attributes").iter().find(|a| a["key"] == k.as_str()).unwrap();
        ensure!(typed(&d["type"], &a["value"]), "value of another type", "{at}: {n}: {} is not a {}", a["value"], d["type"]);
        let ex = g.attrs[k].iter().rev().find_map(|l| l.get("examples")).or(d.get("examples"));
        if let (Some(ex), Some(ty @ ("string" | "int" | "double" | "string[]" | "int[]" | "double[]"))) = (ex, d["type"].as_str()) {
            let l = match ex { Value::Array(l) => l.clone(), x => vec![x.clone()] };
            let same = |x: &Value, y: &Value| x == y || (x.is_number() && x.as_f64() == y.as_f64());
            let ok = match &a["value"] { Value::Array(v) => l.iter().any(|e| e.as_array().is_some_and(|e| e.len() == v.len() && e.iter().zip(v).all(|(x, y)| same(x, y)))), v => l.iter().any(|e| same(e, v)) };
            ensure!(ok, "value is not one of the examples", "{at}: {n}: {ty} {} examples {ex}", a["value"]);
        }
    }
    ensure!(names.len() == g.attrs.len(), "attribute not emitted", "{at}: {names:?} of {:?}", g.attrs.keys());
    Ok(())
}
/// More signals and attributes than the default queues and limits of an OpenTelemetry SDK hold.
fn large(t: &mut Tape, c: &mut Case) -> CaseResult {
    let (ns, ne, nm, na) = (t.size(2_040, 3_000), t.size(2_040, 4_000), t.size(0, 2_100), t.size(120, 200));
    let v2 = t.bool();
    let mut r = Reg2::default();
    for i in 0..na { r.add("attributes", json!({"key": format!("a.k{i}"), "type": "int", "brief": "b", "stability": "stable"})); }
    let refs = |n: usize| json!((0..n).map(|i| json!({"ref": format!("a.k{i}")})).collect::<Vec<_>>());
    let of = |i: usize| if i == 7 { na } else { 1 };
    for i in 0..ns { r.add("spans", json!({"type": format!("s.x{i}"), "kind": "client", "name": {"note": "n"}, "brief": "b", "stability": "stable", "attributes": refs(of(i))})); }
    for i in 0..nm { r.add("metrics", json!({"name": format!("m.x{i}"), "instrument": "counter", "unit": "1", "brief": "b", "stability": "stable", "attributes": refs(of(i))})); }
    for i in 0..ne { r.add("events", json!({"name": format!("e.x{i}"), "brief": "b", "stability": "stable", "attributes": refs(of(i))})); }
    c.desc(json!({"spans": ns, "events": ne, "metrics": nm, "attributes of one": na, "v2": v2}).to_string());
    emit_of(t, c, &r, v2, "otlp")
}
fn emit(t: &mut Tape, c: &mut Case) -> CaseResult {
    let mut d = Map::new();
    let l = match live_registry(t, &mut d) { Ok(l) => l, Err(e) => { c.desc(Value::Object(d).to_string()); return fail("registry rejected", e) } };
    let mode = match t.below(16) { 0 => "stdout", 1 => "nobody", _ => "otlp" };
    let _ = d.insert("mode".into(), json!(mode));
    c.desc(Value::Object(d).to_string());
    c.label(if l.v2 { "v2" } else { "v1" });
    emit_of(t, c, &l.reg, l.v2, mode)
}
fn emit_of(t: &mut Tape, c: &mut Case, reg: &Reg2, v2: bool, mode: &str) -> CaseResult {
    c.label(mode);
    let s = Scratch::new();
    let p = s.sub("reg");
    write_yaml(&p.join("r.yaml"), &reg.to_doc());
    manifest(&p, "https://live.example/schemas/1.0.0", &[]);
    let m = model(reg);
    let sigs = |sec: &str, k: &str| reg.sec(sec).iter().map(|x| x[k].as_str().unwrap().to_owned()).collect::<Vec<_>>();
    let (spans, metrics, events) = (sigs("spans", "type"), sigs("metrics", "name"), sigs("events", "name"));
    c.nontrivial([("span", &spans), ("metric", &metrics), ("event", &events)].iter().any(|(k, l)| l.iter().any(|n| !m[&format!("{k}.{n}")].attrs.is_empty())));
    let mut a: Vec<String> = ["registry", "emit", "-r", "reg", "--quiet", "--skip-policies"].map(String::from).to_vec();
    if v2 { a.push("--v2".into()); }
    match mode {
        "stdout" => {
            a.push("--stdout".into());
            let o = cli::run(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>(), s.path(), None);
            ensure!(o.code == Some(0), "exit status", "{}", o.show());
            for n in spans.iter().chain(&metrics).chain(&events) { ensure!(o.stdout.contains(n.as_str()), "signal missing from the standard output", "{n}\n{}", clip(&o.stdout, 3000)); }
            return Ok(());
        }
        "nobody" => {
            a.push(format!("--endpoint=http://127.0.0.1:{}", port()));
            let o = cli::run(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>(), s.path(), None);
            ensure!(o.code == Some(1), "success without a receiver", "{}", o.show());
            return Ok(());
        }
        _ => {}
    }
    let mut la: Vec<String> = ["registry", "live-check", "-r", "reg", "--quiet", "--input-source", "otlp", "--fail-on", "none", "--inactivity-timeout", "100", "--format", "json", "-o", "out"].map(String::from).to_vec();
    if v2 { la.push("--v2".into()); }
    let mut srv = Server::start(&la, s.path(), None, "otlp-");
    let mut tries = 0;
    while !srv.ready() {
        let o = srv.wait(1);
        tries += 1;
        if tries < 4 && o.as_ref().is_some_and(|o| o.stderr.contains("Address already in use") || o.stdout.contains("Address already in use")) { srv = Server::start(&la, s.path(), None, "otlp-"); continue; }
        return fail("receiver does not start", o.map(|o| o.show()).unwrap_or_default());
    }
    let _ = srv.http("GET", "/health");
    if t.bool() { a.push(format!("--endpoint=http://127.0.0.1:{}", srv.grpc)); } else { std::fs::write(s.path().join(".weaver.toml"), format!("[emit]\nendpoint = \"http://127.0.0.1:{}\"\n", srv.grpc)).unwrap(); }
    let o = cli::run(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>(), s.path(), None);
    let _ = srv.http("POST", "/stop");
    let Some(lo) = srv.wait(120) else { return fail("receiver does not stop", "still running after 120 s") };
    ensure!(o.code == Some(0), "exit status", "{}", o.show());
    let Ok(text) = std::fs::read_to_string(s.path().join("out/live_check.json")) else { return fail("no report", lo.show()) };
    let report: Value = match serde_json::from_str(&text) { Ok(v) => v, Err(e) => return fail("unreadable report", format!("{e}\n{}", clip(&text, 600))) };
    let samples = report["samples"].as_array().cloned().unwrap_or_default();
    let none = vec![];
    let list = |v: &Value| v.as_array().unwrap_or(&none).clone();
    let (mut gs, mut gm, mut ge) = (vec![], vec![], vec![]);
    let mut parent = 0;
    for x in &samples {
        let findings = |skip: bool| -> CaseResult {
            if skip { return Ok(()); }
            for (p, r) in actual_findings(x) { if p.starts_with("/resource") { continue; } for f in r["all_advice"].as_array().into_iter().flatten() {
                let bad = ["missing_attribute", "missing_metric", "missing_event", "type_mismatch", "unit_mismatch", "unexpected_instrument", "undefined_enum_variant", "required_attribute_not_present", "recommended_attribute_not_present", "opt_in_attribute_not_present", "conditionally_required_attribute_not_present"];
                ensure!(!bad.contains(&f["id"].as_str().unwrap_or("")), "emitted telemetry does not conform to its registry", "{p}: {f}\n{x}");
            } }
            Ok(())
        };
        if let Some(sp) = x.get("span") {
            let n = sp["name"].as_str().unwrap_or("?").to_owned();
            if n == "otel.weaver.emit" { parent += 1; continue; }
            findings(false)?;
            let id = if v2 { n.clone() } else { match n.strip_prefix("span.") { Some(x) => x.to_owned(), None => return fail("unknown span", n) } };
            let Some(g) = m.get(&format!("span.{id}")) else { return fail("unknown span", n) };
            ensure!(sp["kind"] == g.fields["kind"], "span kind", "{n}: {} instead of {}", sp["kind"], g.fields["kind"]);
            check(reg, g, &n, &list(&sp["attributes"]))?;
            gs.push(id);
        } else if let Some(me) = x.get("metric") {
            findings(false)?;
            let n = me["name"].as_str().unwrap_or("?").to_owned();
            let Some(g) = m.get(&format!("metric.{n}")) else { return fail("unknown metric", n) };
            ensure!(me["unit"] == g.fields["unit"] && me["instrument"] == g.fields["instrument"], "unit or instrument", "{n}: {} {} instead of {} {}", me["unit"], me["instrument"], g.fields["unit"], g.fields["instrument"]);
            let dps = list(&me["data_points"]);
            ensure!(dps.len() == 1, "data points", "{n}: {dps:?}");
            check(reg, g, &n, &list(&dps[0]["attributes"]))?;
            gm.push(n);
        } else if let Some(lg) = x.get("log") {
            findings(false)?;
            let n = lg["event_name"].as_str().unwrap_or("?").to_owned();
            let Some(g) = m.get(&format!("event.{n}")) else { return fail("unknown event", n) };
            check(reg, g, &n, &list(&lg["attributes"]))?;
            ge.push(n);
        }
    }
    let sort = |mut v: Vec<String>| { v.sort(); v };
    for (what, want, got) in [("spans", spans, gs), ("metrics", metrics, gm), ("events", events, ge)] { let (w, g) = (sort(want), sort(got)); ensure!(w == g, format!("emitted {what}"), "defined {w:?}\nreceived {g:?}"); }
    ensure!(parent == 1, "parent span", "{parent}");
    Ok(())
}
