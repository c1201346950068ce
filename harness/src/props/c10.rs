//! C10: the diff of two registries is exactly what changed.
use crate::engine::*;
use crate::ensure;
use crate::reg::*;
use crate::reg2::*;
use crate::tape::Tape;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub fn prop() -> Prop {
    Prop { id: "C10", rule: "one generated registry (v1 or v2 definitions) yields a baseline and a head: two dependency-closed subsets of its items with independently added, altered and removed deprecations and unrelated edits, each in its own file layout; the reported changes per item kind must be exactly: added (only in head), removed (only in baseline), renamed / obsoleted / uncategorized (deprecation in head that differs from the baseline's), nothing else; a registry compared with itself has no changes. Non-trivial: at least one deprecation change and one added or removed item.",
        assumptions: &["order within one list of changes is not compared", "v1 diff: spans are not compared (they have no stable name)"],
        suites: vec![
            Suite { name: "v1", quick: 12_000, thorough: 200_000, parallel: true, run: v1, shrink: 900 },
            Suite { name: "v2", quick: 12_000, thorough: 200_000, parallel: true, run: v2, shrink: 900 },
        ] }
}
type Side = BTreeMap<&'static str, BTreeMap<String, Option<Value>>>;
/// what must be reported for one kind of items
fn changes(head: &BTreeMap<String, Option<Value>>, base: &BTreeMap<String, Option<Value>>) -> Vec<String> {
    let mut v = vec![];
    for (n, d) in head {
        match (base.get(n), d) {
            (None, _) => v.push(json!({"type": "added", "name": n})),
            (Some(_), None) => {}
            (Some(b), Some(d)) => {
                let d = norm_deprecated(d);
                if b.as_ref().map(norm_deprecated).as_ref() == Some(&d) { continue; }
                v.push(match d["reason"].as_str() {
                    Some("renamed") => json!({"type": "renamed", "old_name": n, "new_name": d["renamed_to"], "note": d["note"]}),
                    Some(r) => json!({"type": if r == "unspecified" { "uncategorized" } else { r }, "name": n, "note": d["note"]}),
                    None => json!(null) });
            }
        }
    }
    for n in base.keys() { if !head.contains_key(n) { v.push(json!({"type": "removed", "name": n})); } }
    let mut v: Vec<String> = v.iter().map(|x| x.to_string()).collect(); v.sort(); v
}
fn check(c: &mut Case, kind: &str, actual: &Value, head: &BTreeMap<String, Option<Value>>, base: &BTreeMap<String, Option<Value>>) -> Result<(usize, usize), Violation> {
    let e = changes(head, base);
    let mut a: Vec<String> = actual.as_array().map(|x| x.iter().map(|y| y.to_string()).collect()).unwrap_or_default(); a.sort();
    for x in &e { for k in ["added", "removed", "renamed", "obsoleted", "uncategorized"] { if x.contains(&format!("\"type\":\"{k}\"")) { c.label(k); } } }
    ensure!(a == e, format!("changes of {kind} differ"), "{kind}\nexpected {e:#?}\nreported {a:#?}");
    let ar = e.iter().filter(|x| x.contains("\"added\"") || x.contains("\"removed\"")).count();
    Ok((ar, e.len() - ar))
}
/// Random edits of deprecations (and of fields a diff must ignore).
fn edit(t: &mut Tape, o: &mut Obj) {
    match t.below(6) {
        0 | 1 => { let d = deprecated(t); let _ = o.insert("deprecated".into(), d); }
        2 => { let _ = o.remove("deprecated"); }
        3 => { if let Some(d) = o.get_mut("deprecated") { d["note"] = json!(text(t)); } }
        _ => {}
    }
    if t.chance(1, 4) { let _ = o.insert("brief".into(), json!(text(t))); }
    if t.chance(1, 5) { let _ = o.insert("note".into(), json!(text(t))); }
    if o.contains_key("stability") && t.chance(1, 5) { let _ = o.insert("stability".into(), stability(t)); }
    // v2 syntax requires a note on structured deprecations other than renames
}
fn assoc_names(v: &Value, out: &mut BTreeSet<String>) {
    match v { Value::String(s) => { let _ = out.insert(s.clone()); } Value::Array(a) => a.iter().for_each(|x| assoc_names(x, out)), Value::Object(m) => m.values().for_each(|x| assoc_names(x, out)), _ => {} }
}
fn subset1(t: &mut Tape, reg: &Reg) -> Reg {
    let n = reg.groups.len();
    let mut keep: BTreeSet<usize> = (0..n).filter(|_| t.chance(3, 4)).collect();
    if keep.is_empty() { let _ = keep.insert(0); }
    loop {
        let mut more = BTreeSet::new();
        for i in &keep {
            let g = &reg.groups[*i];
            if let Some(e) = g.get("extends") { more.extend((0..n).filter(|k| &reg.groups[*k]["id"] == e)); }
            for a in g.get("attributes").and_then(|a| a.as_array()).unwrap_or(&vec![]) { if let Some(r) = a.get("ref") { more.extend((0..n).filter(|k| reg.groups[*k].get("attributes").and_then(|a| a.as_array()).is_some_and(|l| l.iter().any(|x| x.get("id") == Some(r))))); } }
            let mut es = BTreeSet::new(); if let Some(x) = g.get("entity_associations") { assoc_names(x, &mut es); }
            more.extend((0..n).filter(|k| reg.groups[*k]["type"] == "entity" && es.contains(reg.groups[*k]["name"].as_str().unwrap())));
        }
        if more.is_subset(&keep) { break; }
        keep.extend(more);
    }
    let mut groups: Vec<Obj> = keep.iter().map(|i| reg.groups[*i].clone()).collect();
    for g in groups.iter_mut() {
        if t.chance(1, 2) { edit(t, g); }
        if let Some(l) = g.get_mut("attributes").and_then(|a| a.as_array_mut()) { for a in l { if a.get("id").is_some() && t.chance(1, 2) { edit(t, a.as_object_mut().unwrap()); } } }
    }
    Reg { groups }
}
fn side1(r: &Reg) -> Side {
    let mut s = Side::new();
    for k in ["registry_attributes", "metrics", "events", "entities", "spans"] { let _ = s.insert(k, BTreeMap::new()); }
    for g in &r.groups {
        for a in g.get("attributes").and_then(|a| a.as_array()).unwrap_or(&vec![]) { if let Some(i) = a.get("id") { let _ = s.get_mut("registry_attributes").unwrap().insert(i.as_str().unwrap().into(), a.get("deprecated").cloned()); } }
        let (k, f) = match g["type"].as_str().unwrap() { "metric" => ("metrics", "metric_name"), "event" => ("events", "name"), "entity" => ("entities", "name"), _ => continue };
        let _ = s.get_mut(k).unwrap().insert(g[f].as_str().unwrap().into(), g.get("deprecated").cloned());
    }
    s
}
const KINDS2: [(&str, &str, &str); 6] = [("attribute_changes", "attributes", "key"), ("attribute_group_changes", "attribute_groups", "id"), ("entity_changes", "entities", "type"), ("event_changes", "events", "name"), ("metric_changes", "metrics", "name"), ("span_changes", "spans", "type")];
fn v1(t: &mut Tape, c: &mut Case) -> CaseResult {
    let reg = gen_registry(t, RegOpts { max_groups: 9, ..Default::default() });
    let (b, h) = (subset1(t, &reg), subset1(t, &reg));
    let (lb, lh) = (layout(t, &b), layout(t, &h));
    c.desc(json!([lb.files, lh.files]).to_string());
    let s = Scratch::new();
    let (db, dh) = (s.sub("b"), s.sub("h"));
    write_layout(&db, &lb); write_layout(&dh, &lh);
    let with_manifest = t.bool();
    if with_manifest { manifest(&db, "https://x.example/schemas/1.0.0", &[]); manifest(&dh, "https://x.example/schemas/1.1.0", &[]); }
    let (rb, rh) = match (resolve_dir(&db), resolve_dir(&dh)) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => return fail("valid registry rejected", e) };
    let d = rh.schema.diff(&rb.schema);
    let j = serde_json::to_value(&d).unwrap();
    if with_manifest { ensure!(j["head"]["semconv_version"] == "1.1.0" && j["baseline"]["semconv_version"] == "1.0.0", "versions", "{} {}", j["head"], j["baseline"]); }
    let (sb, sh) = (side1(&b), side1(&h));
    let (mut ar, mut dep) = (0, 0);
    for (k, m) in &sh { let (x, y) = check(c, k, &j["changes"][*k], m, &sb[k])?; ar += x; dep += y; }
    ensure!(d.is_empty() == (ar + dep == 0), "is_empty", "{j}");
    ensure!(d.count_changes() == ar + dep, "count_changes", "{j}");
    c.nontrivial(ar > 0 && dep > 0);
    let same = rh.schema.diff(&rh.schema);
    ensure!(same.is_empty(), "self diff", "{}", serde_json::to_value(&same).unwrap());
    // the v2 view of the same pair
    let (vb, vh) = match (resolve2(&db), resolve2(&dh)) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => return fail("valid registry rejected (v2 view)", e) };
    views(c, &vb, &vh)?;
    Ok(())
}
/// Diff of the v2 views against their materialized items.
fn views(c: &mut Case, b: &Resolved2, h: &Resolved2) -> Result<(usize, usize), Violation> {
    let d = serde_json::to_value(h.schema.diff(&b.schema)).unwrap();
    let items = |r: &Resolved2, sec: &str, key: &str| -> BTreeMap<String, Option<Value>> {
        serde_json::to_value(&r.forge).unwrap()["registry"][sec].as_array().map(|l| l.iter().map(|x| (x[key].as_str().unwrap().to_owned(), x.get("deprecated").filter(|d| !d.is_null()).cloned())).collect()).unwrap_or_default() };
    let (mut ar, mut dep) = (0, 0);
    for (f, sec, key) in KINDS2 { let (x, y) = check(c, f, &d["registry"][f], &items(h, sec, key), &items(b, sec, key))?; ar += x; dep += y; }
    ensure!(h.schema.diff(&b.schema).is_empty() == (ar + dep == 0), "is_empty", "{d}");
    ensure!(h.schema.diff(&h.schema).is_empty(), "self diff", "{}", serde_json::to_value(h.schema.diff(&h.schema)).unwrap());
    Ok((ar, dep))
}
fn subset2(t: &mut Tape, r: &Reg2) -> Reg2 {
    let all: Vec<(&'static str, Obj)> = r.s.iter().flat_map(|(k, v)| v.iter().map(move |x| (*k, x.clone()))).collect();
    let name = |k: &str, o: &Obj| -> String { let f = match k { "attributes" => "key", "entities" | "spans" => "type", "events" | "metrics" => "name", _ => "id" }; o[f].as_str().unwrap().to_owned() };
    let mut keep: BTreeSet<usize> = (0..all.len()).filter(|_| t.chance(3, 4)).collect();
    if keep.is_empty() { let _ = keep.insert(0); }
    loop {
        let mut more = BTreeSet::new();
        let mut need = |sec: &str, n: &str| { more.extend((0..all.len()).filter(|i| all[*i].0 == sec && name(sec, &all[*i].1) == n)); };
        for i in &keep {
            let (k, o) = &all[*i];
            for l in ["attributes", "identity", "description"] { for a in o.get(l).and_then(|a| a.as_array()).unwrap_or(&vec![]) {
                if let Some(x) = a.get("ref").and_then(|x| x.as_str()) { need("attributes", x); }
                if let Some(x) = a.get("ref_group").and_then(|x| x.as_str()) { need("attribute_groups", x); }
            } }
            let mut es = BTreeSet::new(); if let Some(x) = o.get("entity_associations") { assoc_names(x, &mut es); }
            for e in es { need("entities", &e); }
            if let (Some(p), Some(base)) = (o.get("ref").and_then(|x| x.as_str()), k.strip_suffix("_refinements")) {
                let sec = match base { "entity" => "entities", "event" => "events", "metric" => "metrics", _ => "spans" };
                need(sec, p); need(k, &format!("{base}.{p}")); need(k, p);
            }
        }
        if more.is_subset(&keep) { break; }
        keep.extend(more);
    }
    let mut out = Reg2::default();
    for i in keep {
        let (k, mut o) = all[i].clone();
        if t.chance(1, 2) && !(k == "attribute_groups" && o["visibility"] == "internal") { edit(t, &mut o); if let Some(d) = o.get_mut("deprecated") { if d.get("note").is_none() { d["note"] = json!("n"); } } }
        out.add(k, Value::Object(o));
    }
    out
}
fn v2(t: &mut Tape, c: &mut Case) -> CaseResult {
    let r = gen2(t, Opts2 { refinements: 1, max_attrs: 5, ..Default::default() });
    let (b, h) = (subset2(t, &r), subset2(t, &r));
    c.desc(json!([b.to_doc(), h.to_doc()]).to_string());
    let s = Scratch::new();
    let (db, dh) = (s.sub("b"), s.sub("h"));
    let _ = write2(t, &db, &b); let _ = write2(t, &dh, &h);
    let (xb, xh) = match (resolve2(&db), resolve2(&dh)) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => return fail("valid v2 registry rejected", e) };
    let side = |r: &Reg2| -> Side { KINDS2.iter().map(|(_, sec, key)| (*sec, r.sec(sec).iter().filter(|x| x.get("visibility") != Some(&json!("internal"))).map(|x| (x[*key].as_str().unwrap().to_owned(), x.get("deprecated").cloned())).collect())).collect() };
    let (sb, sh) = (side(&b), side(&h));
    let d = serde_json::to_value(xh.schema.diff(&xb.schema)).unwrap();
    let (mut ar, mut dep) = (0, 0);
    for (f, sec, _) in KINDS2 { let (x, y) = check(c, sec, &d["registry"][f], &sh[sec], &sb[sec])?; ar += x; dep += y; }
    c.nontrivial(ar > 0 && dep > 0);
    let _ = views(c, &xb, &xh)?;
    // a v2 registry looked at in the v1 view: the same items
    let (rb, rh) = match (resolve_dir(&db), resolve_dir(&dh)) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => return fail("valid v2 registry rejected", e) };
    let j = serde_json::to_value(rh.schema.diff(&rb.schema)).unwrap();
    for (k, sec) in [("registry_attributes", "attributes"), ("metrics", "metrics"), ("events", "events"), ("entities", "entities")] { let _ = check(c, &format!("{k} (v1 view)"), &j["changes"][k], &sh[sec], &sb[sec])?; }
    Ok(())
}
