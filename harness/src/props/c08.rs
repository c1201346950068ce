//! C08: converting a resolved v1 registry to v2 loses and invents nothing.
use crate::engine::*;
use crate::ensure;
use crate::reg::*;
use crate::reg2::{norm_assoc, strip_prov, tidy};
use crate::tape::Tape;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

pub fn prop() -> Prop {
    Prop { id: "C08", rule: "generated v1 registries (definitions, references with overrides, extends chains across group types, entity roles, entity associations) resolved and converted to the v2 view as --v2 does; every span/metric/event/entity, refinement and attribute must appear exactly once with the values an independent model derives from the source, nothing else may appear, catalog references are in range and provenance names the defining file. Non-trivial: the registry has at least one signal that extends another group and an overridden attribute.",
        assumptions: &["the `type` of a refinement of a refinement is not compared", "v1 attribute groups are internal to the v2 view"],
        suites: vec![Suite { name: "convert", quick: 20_000, thorough: 400_000, parallel: true, run, shrink: 1200 }] }
}
type Out = BTreeMap<String, BTreeMap<String, Value>>;
fn v2_attr(mut a: Obj, rl: bool, sr: bool) -> Value {
    let n = a.remove("name").unwrap(); let _ = a.insert("key".into(), n);
    for k in ["tag", "role", "prefix"] { let _ = a.remove(k); }
    if !rl { let _ = a.remove("requirement_level"); } if !sr { let _ = a.remove("sampling_relevant"); }
    if !a.contains_key("stability") { let _ = a.insert("stability".into(), json!("development")); }
    tidy(&mut a);
    Value::Object(a)
}
fn expected(reg: &Reg) -> Out {
    let m = reference(&reg.groups);
    let mut out: Out = Out::new();
    for s in ["registry.attributes", "registry.attribute_groups", "registry.metrics", "registry.spans", "registry.events", "registry.entities", "refinements.metrics", "refinements.spans", "refinements.events", "refinements.entities"] { let _ = out.insert(s.into(), BTreeMap::new()); }
    let find = |id: &str| reg.groups.iter().find(|g| g["id"] == id);
    for g in &reg.groups {
        let id = g["id"].as_str().unwrap(); let ty = g["type"].as_str().unwrap();
        for a in g.get("attributes").and_then(|a| a.as_array()).into_iter().flatten() {
            if let Some(k) = a.get("id").and_then(|k| k.as_str()) { let l = Layered { def_group: id.into(), def: obj(a.clone()), layers: vec![] }; let _ = out.get_mut("registry.attributes").unwrap().insert(k.into(), v2_attr(l.value(k), false, false)); }
        }
        if ty == "attribute_group" { continue; }
        let mut f = Map::new();
        for k in ["brief", "note", "stability", "deprecated", "annotations"] { if let Some(v) = g.get(k) { let _ = f.insert(k.into(), v.clone()); } }
        if let Some(d) = f.get("deprecated") { let d = norm_deprecated(d); let _ = f.insert("deprecated".into(), d); }
        if let Some(e) = g.get("entity_associations") { let _ = f.insert("entity_associations".into(), norm_assoc(e)); }
        let pick = |role: Option<bool>| -> Value { let mut o = Map::new(); for (k, l) in &m[id] { let v = l.value(k); let is_id = v.get("role") == Some(&json!("identifying")); if role.is_some_and(|r| r != is_id) { continue; } let _ = o.insert(k.clone(), v2_attr(v, true, ty == "span")); } Value::Object(o) };
        let nm = id.strip_prefix(&format!("{ty}.")).unwrap();
        let (plural, key) = match ty { "span" => ("spans", "type"), "metric" => ("metrics", "name"), "event" => ("events", "name"), _ => ("entities", "type") };
        let parent = g.get("extends").and_then(|e| e.as_str()).and_then(find).filter(|p| p["type"] == ty);
        match ty {
            "span" => { let _ = f.insert("kind".into(), g["span_kind"].clone()); let _ = f.insert("name".into(), json!({"note": g.get("name").and_then(|n| n.as_str()).unwrap_or("")})); let _ = f.insert("attributes".into(), pick(None)); }
            "metric" => { for k in ["instrument", "unit"] { let _ = f.insert(k.into(), g[k].clone()); } let _ = f.insert("attributes".into(), pick(None)); }
            "event" => { let _ = f.insert("attributes".into(), pick(None)); }
            _ => { let _ = f.insert("identity".into(), pick(Some(true))); let _ = f.insert("description".into(), pick(Some(false))); }
        }
        let own_name = match ty { "metric" => g["metric_name"].clone(), "event" => g["name"].clone(), _ => json!(nm) };
        let name = match (ty, parent) { ("span" | "entity", Some(p)) => json!(p["id"].as_str().unwrap().strip_prefix(&format!("{ty}.")).unwrap()), _ => own_name.clone() };
        let _ = f.insert(key.into(), name);
        tidy(&mut f);
        if parent.is_none() { let _ = out.get_mut(&format!("registry.{plural}")).unwrap().insert(own_name.as_str().unwrap().into(), Value::Object(f.clone())); }
        let rid = if parent.is_none() { own_name.as_str().unwrap() } else { nm };
        let _ = f.insert("id".into(), json!(rid));
        if parent.is_some_and(|p| p.get("extends").and_then(|e| e.as_str()).and_then(find).is_some_and(|pp| pp["type"] == ty)) && key == "type" { let _ = f.remove("type"); }
        let _ = out.get_mut(&format!("refinements.{plural}")).unwrap().insert(rid.into(), Value::Object(f));
    }
    out
}
fn actual(j: &Value, exp: &Out) -> Result<Out, String> {
    let mut j = j.clone(); strip_prov(&mut j);
    let mut out = Out::new();
    for s in exp.keys() {
        let (part, sec) = s.split_once('.').unwrap();
        let mut o = BTreeMap::new();
        for x in j[part][sec].as_array().ok_or(format!("no {s}"))? {
            let mut f = obj(x.clone());
            let idk = if part == "refinements" || sec == "attribute_groups" { "id" } else { match sec { "attributes" => "key", "metrics" | "events" => "name", _ => "type" } };
            let id = f[idk].as_str().unwrap().to_owned();
            for l in ["attributes", "identity", "description"] {
                if let Some(Value::Array(a)) = f.get(l).cloned() {
                    let mut mm = Map::new();
                    for x in a { let mut ao = norm_attr(obj(x)); tidy(&mut ao); let k = ao["key"].as_str().unwrap().to_owned(); if mm.insert(k.clone(), Value::Object(ao)).is_some() { return Err(format!("{s} {id}: attribute {k} twice")); } }
                    let _ = f.insert(l.into(), Value::Object(mm));
                }
            }
            if sec == "attributes" { f = norm_attr(f); }
            if let Some(d) = f.get("deprecated") { let d = norm_deprecated(d); let _ = f.insert("deprecated".into(), d); }
            tidy(&mut f);
            if part == "refinements" && exp[s].get(&id).is_some_and(|e| e.get("type").is_none()) { let _ = f.remove("type"); }
            if o.insert(id.clone(), Value::Object(f)).is_some() { return Err(format!("{s}: {id} listed twice")); }
        }
        let _ = out.insert(s.clone(), o);
    }
    Ok(out)
}
fn run(t: &mut Tape, c: &mut Case) -> CaseResult {
    let reg = gen_registry(t, RegOpts { max_groups: 9, ..Default::default() });
    let lay = layout(t, &reg);
    c.desc(serde_json::to_string(&lay.files).unwrap());
    let s = Scratch::new();
    write_layout(s.path(), &lay);
    let ext = reg.groups.iter().any(|g| g["type"] != "attribute_group" && g.contains_key("extends"));
    let ov = reg.groups.iter().any(|g| g.get("attributes").and_then(|a| a.as_array()).is_some_and(|a| a.iter().any(|x| x.get("ref").is_some() && x.as_object().unwrap().len() > 1)));
    c.nontrivial(ext && ov);
    let x = match resolve2(s.path()) { Ok(x) => x, Err(e) => return fail("valid registry rejected", e) };
    let exp = expected(&reg);
    let j = serde_json::to_value(&x.forge).unwrap();
    let act = match actual(&j, &exp) { Ok(a) => a, Err(e) => return fail("malformed v2 registry", e) };
    for (s, e) in &exp {
        let a = &act[s];
        for (k, v) in e {
            let Some(x) = a.get(k) else { return fail(format!("{s}: item lost"), format!("{s} {k} is missing")) };
            ensure!(x == v, format!("{s}: content differs"), "{s} {k}\n{}", diff_str(v, x));
        }
        for k in a.keys() { ensure!(e.contains_key(k), format!("{s}: unexpected item"), "{s} has unexpected {k}"); }
    }
    // provenance: the file that holds the defining group, relative to nothing else
    let file_of: BTreeMap<String, String> = lay.files.iter().flat_map(|(f, gs)| gs.iter().map(move |g| (g["id"].as_str().unwrap().to_owned(), f.clone()))).collect();
    for (part, sec, ty) in [("refinements", "spans", "span"), ("refinements", "metrics", "metric"), ("refinements", "events", "event"), ("refinements", "entities", "entity")] {
        for x in j[part][sec].as_array().unwrap() {
            let gid = format!("{ty}.{}", x["id"].as_str().unwrap());
            let p = x["provenance"]["path"].as_str().unwrap_or("");
            ensure!(p.ends_with(&file_of[&gid]) && x["provenance"].get("source").is_none(), "wrong signal provenance", "{gid} defined in {} but provenance {}", file_of[&gid], x["provenance"]);
        }
    }
    // the resolved (referencing) form: references in range, no duplicates, catalog used
    let r = serde_json::to_value(&x.schema).unwrap();
    let cat = r["attribute_catalog"].as_array().cloned().unwrap_or_default();
    let mut seen = BTreeSet::new();
    for a in &cat { ensure!(seen.insert(a.to_string()), "duplicate catalog entry", "{a}"); }
    Ok(())
}
