//! C02: resolution is a function of the set of definitions, not of files, order or scheduling.
use crate::engine::*;
use crate::ensure;
use crate::reg::*;
use crate::tape::Tape;
use serde_json::{json, Value};

pub fn prop() -> Prop {
    Prop { id: "C02", rule: "one generated registry (valid, or with duplicate ids / duplicate names / several mistakes) is written in two random file layouts (group order, file split, nested directories, .yml/.yaml, hidden and unrelated files mixed in) and resolved under thread pools of different sizes; outcome, resolved schema (minus source paths) and the multiset of diagnostics must be identical. Non-trivial: the two layouts differ and the registry has a reference or an extends.",
        assumptions: &["provenance paths are expected to differ and are removed before comparing"],
        suites: vec![
            Suite { name: "layout", quick: 3000, thorough: 80_000, parallel: true, run: layouts, shrink: 800 },
            Suite { name: "schedule", quick: 400, thorough: 8_000, parallel: false, run: schedule, shrink: 300 },
        ] }
}
/// Removes source locations.
pub fn strip(v: &mut Value) {
    match v {
        Value::Object(m) => { let _ = m.remove("provenance"); let _ = m.remove("registry_url"); for (_, x) in m.iter_mut() { strip(x); } }
        Value::Array(a) => a.iter_mut().for_each(strip),
        _ => {}
    }
}
pub fn observe(dir: &std::path::Path) -> Value {
    match resolve_dir(dir) {
        Err(_) => json!({"fatal": true}),
        Ok(r) => {
            let mut s = v1_json(&r.schema);
            strip(&mut s);
            let msgs = |es: &[weaver_resolver::Error]| { let mut x: Vec<String> = es.iter().map(|e| canon(e)).collect(); x.sort(); x };
            json!({"schema": s, "errors": msgs(&r.errors), "warnings": msgs(&r.warnings)})
        }
    }
}
/// Error as data with locations removed.
fn canon(e: &weaver_resolver::Error) -> String {
    let mut v = serde_json::to_value(e).unwrap_or(Value::Null);
    fn go(v: &mut Value) {
        match v {
            Value::Object(m) => { for k in ["provenance", "provenances", "path_or_url"] { let _ = m.remove(k); } for (_, x) in m.iter_mut() { go(x); } }
            Value::Array(a) => a.iter_mut().for_each(go),
            _ => {}
        }
    }
    go(&mut v);
    v.to_string()
}
fn noise(t: &mut Tape, dir: &std::path::Path) {
    let w = |p: &str, s: &str| { let p = dir.join(p); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, s).unwrap(); };
    if t.chance(1, 3) { w("README.md", "# nothing\n"); }
    if t.chance(1, 3) { w(".hidden/x.yaml", "groups: [{id: registry.hidden, type: attribute_group, brief: h, attributes: [{id: hid.den, type: int, brief: b, stability: stable}]}]\n"); }
    if t.chance(1, 3) { w(".x.yaml", "not: [valid"); }
    if t.chance(1, 4) { w("schema-next.yaml", "file_format: 1.1.0\n"); }
    if t.chance(1, 4) { w("notes.txt", "groups: 3"); }
}
fn build(t: &mut Tape) -> Reg {
    let mut reg = gen_registry(t, RegOpts { max_groups: 8, ..Default::default() });
    // registries with mistakes, too: the report must not depend on the layout either
    if t.chance(1, 4) && reg.groups.len() > 1 {
        let k = t.size(1, 2);
        for _ in 0..k {
            let i = t.below(reg.groups.len() as u64) as usize;
            match t.below(3) {
                0 => { // the same group id again, as a group with only references
                    let mut g = reg.groups[i].clone();
                    let _ = g.remove("extends");
                    // same content: which of the two is kept must not be observable
                    let _ = g.insert("brief".into(), reg.groups[i]["brief"].clone());
                    if g.get("attributes").and_then(|a| a.as_array()).is_some_and(|a| a.iter().all(|x| x.get("ref").is_some())) && !reg.groups[i].contains_key("extends") { reg.groups.push(g); }
                }
                1 => { // second metric with the same name
                    if let Some(m) = reg.groups.iter().find(|g| g["type"] == "metric").cloned() {
                        let mut m2 = m.clone();
                        let _ = m2.insert("id".into(), json!(format!("{}_dup{}", m["id"].as_str().unwrap(), reg.groups.len())));
                        if let Some(a) = m2.get_mut("attributes").and_then(|a| a.as_array_mut()) { a.retain(|x| x.get("ref").is_some()); }
                        reg.groups.push(m2);
                    }
                }
                _ => { // dangling reference
                    let a = reg.groups[i].entry("attributes").or_insert(json!([]));
                    a.as_array_mut().unwrap().push(json!({"ref": "no.such.attr"}));
                }
            }
        }
    }
    reg
}
fn layouts(t: &mut Tape, c: &mut Case) -> CaseResult {
    let reg = build(t);
    let (l1, l2) = (layout(t, &reg), layout(t, &reg));
    c.desc(serde_json::to_string(&json!([l1.files, l2.files])).unwrap());
    let dep = reg.groups.iter().any(|g| g.contains_key("extends") || g.get("attributes").is_some_and(|a| a.as_array().unwrap().iter().any(|x| x.get("ref").is_some())));
    c.nontrivial(l1.files != l2.files && dep);
    let s = Scratch::new();
    let (d1, d2) = (s.sub("one"), s.sub("two"));
    write_layout(&d1, &l1); write_layout(&d2, &l2);
    noise(t, &d1); noise(t, &d2);
    // where the registry lies is not observable either: a hidden directory, below one, behind a link
    let d2 = match t.below(6) {
        0 => { let n = s.path().join(".hid"); std::fs::rename(&d2, &n).unwrap(); n }
        1 => { let _ = s.sub(".h"); let n = s.path().join(".h/in.ner"); std::fs::rename(&d2, &n).unwrap(); n }
        2 => { let n = s.path().join("link"); std::os::unix::fs::symlink(&d2, &n).unwrap(); n }
        3 => d2.join("."),
        4 => { let _ = s.sub("x"); s.path().join("x/../two") }
        _ => d2,
    };
    let (a, b) = (observe(&d1), observe(&d2));
    if a.get("fatal").is_some() { c.label("fatal"); } else { c.label("resolved"); }
    ensure!(a == b, "layout dependent", "{}", first_diff(&a, &b));
    Ok(())
}
pub fn first_diff(a: &Value, b: &Value) -> String {
    fn go(p: &str, a: &Value, b: &Value, out: &mut Vec<String>) {
        if a == b || out.len() > 6 { return; }
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for k in x.keys().chain(y.keys()).collect::<std::collections::BTreeSet<_>>() { go(&format!("{p}/{k}"), x.get(k).unwrap_or(&Value::Null), y.get(k).unwrap_or(&Value::Null), out); }
            }
            (Value::Array(x), Value::Array(y)) if x.len() == y.len() => { for i in 0..x.len() { go(&format!("{p}/{i}"), &x[i], &y[i], out); } }
            _ => out.push(format!("{p}: {} != {}", clip(&a.to_string(), 700), clip(&b.to_string(), 700))),
        }
    }
    let mut o = vec![]; go("", a, b, &mut o); o.join("\n")
}
/// Everything a user sees, with locations, in order.
fn observe_exact(dir: &std::path::Path) -> Value {
    let full = |e: &weaver_resolver::Error| json!(e.to_string());
    match resolve_dir(dir) {
        Err(e) => json!({"fatal": e.to_string()}),
        Ok(r) => {
            let v2 = V2Schema::try_from(r.schema.clone()).map(|s| serde_json::to_value(&s).unwrap()).map_err(|e| e.to_string());
            json!({"schema": v1_json(&r.schema), "v2": match v2 { Ok(v) => v, Err(e) => json!(e) }, "errors": r.errors.iter().map(full).collect::<Vec<_>>(), "warnings": r.warnings.iter().map(full).collect::<Vec<_>>()})
        }
    }
}
fn schedule(t: &mut Tape, c: &mut Case) -> CaseResult {
    let mut reg = build(t);
    if t.bool() { for j in 0..t.size(1, 3) { let mut r2 = reg.clone(); if let Some(p) = crate::props::c04::plant(t, &mut r2, j > 0) { c.label(format!("mistake/{}", p.kind)); reg = r2; } } }
    let l = layout(t, &reg);
    c.desc(serde_json::to_string(&l.files).unwrap());
    c.nontrivial(l.files.len() > 1);
    let s = Scratch::new();
    write_layout(s.path(), &l);
    thread_local! { static POOLS: Vec<rayon::ThreadPool> = [1usize, 2, 7].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).stack_size(16 << 20).build().unwrap()).collect(); }
    let base = POOLS.with(|p| p[0].install(|| observe_exact(s.path())));
    for i in 0..4usize {
        let o = POOLS.with(|p| p[1 + i % 2].install(|| observe_exact(s.path())));
        ensure!(base == o, "schedule dependent", "{}", first_diff(&base, &o));
    }
    Ok(())
}
