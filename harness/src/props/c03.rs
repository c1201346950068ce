//! C03: a resolved schema is self-contained, canonical, and its lineage is truthful.
use crate::engine::*;
use crate::ensure;
use crate::reg::*;
use crate::tape::Tape;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

pub fn prop() -> Prop {
    Prop { id: "C03", rule: "generated registries as in C01; invariants over the resolved schema: every attribute reference in range, no duplicate and no unreferenced catalog entry, groups ordered by id and attribute references ordered, no extends left; lineage: source group exists and owns the attribute, overridden fields are exactly those set on the way from the source group, inherited fields hold the source group's value. Non-trivial: some attribute has a lineage entry with an overridden field.",
        assumptions: &[],
        suites: vec![Suite { name: "invariants", quick: 12_000, thorough: 200_000, parallel: true, run, shrink: 1000 }] }
}
fn run(t: &mut Tape, c: &mut Case) -> CaseResult {
    let reg = gen_registry(t, RegOpts { max_groups: 9, ..Default::default() });
    let lay = layout(t, &reg);
    c.desc(serde_json::to_string(&lay.files).unwrap());
    let s = Scratch::new();
    write_layout(s.path(), &lay);
    let r = match resolve_dir(s.path()) { Ok(r) => r, Err(e) => return fail("valid registry rejected", e) };
    let j = v1_json(&r.schema);
    canonical(&j)?;
    let m = reference(&reg.groups);
    let chain = |id: &str| -> Vec<String> { let mut v = vec![id.to_owned()]; let mut cur = id.to_owned();
        while let Some(p) = reg.groups.iter().find(|g| g["id"] == cur.as_str()).and_then(|g| g.get("extends")).and_then(|e| e.as_str()) { v.push(p.to_owned()); cur = p.to_owned(); } v };
    let cat = j["catalog"].as_array().unwrap();
    let attrs_of = |g: &Value| -> BTreeMap<String, Value> { g["attributes"].as_array().unwrap_or(&vec![]).iter().map(|r| { let a = &cat[r.as_u64().unwrap() as usize]; (a["name"].as_str().unwrap().to_owned(), a.clone()) }).collect() };
    let by_id: BTreeMap<&str, &Value> = j["registry"]["groups"].as_array().unwrap().iter().map(|g| (g["id"].as_str().unwrap(), g)).collect();
    for (id, g) in &by_id {
        let src = reg.groups.iter().find(|x| x["id"] == *id).unwrap();
        let lin = &g["lineage"];
        ensure!(lin["extends_group"].as_str() == src.get("extends").and_then(|e| e.as_str()), "lineage extends", "group {id}: {}", lin);
        let file = lin["provenance"]["path"].as_str().unwrap_or("").to_owned();
        let in_file = lay.files.iter().find(|f| f.1.iter().any(|x| x["id"] == *id)).map(|f| f.0.clone()).unwrap();
        ensure!(file.ends_with(&in_file), "provenance path", "group {id} is defined in {in_file} but provenance is {}", lin["provenance"]);
        let mine = attrs_of(g);
        let empty = serde_json::Map::new();
        let la = lin["attributes"].as_object().unwrap_or(&empty);
        for (n, l) in la {
            let Some(own) = mine.get(n) else { return fail("lineage of foreign attribute", format!("group {id} has lineage for {n} which it does not contain")) };
            let sg = l["source_group"].as_str().unwrap();
            let Some(sgroup) = by_id.get(sg) else { return fail("lineage source missing", format!("group {id} attribute {n} source {sg}")) };
            let sattrs = attrs_of(sgroup);
            let Some(sa) = sattrs.get(n) else { return fail("lineage source lacks attribute", format!("group {id} attribute {n} source {sg}")) };
            let set = |k: &str| -> BTreeSet<String> { l[k].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_owned()).collect()).unwrap_or_default() };
            let (inh, loc) = (set("inherited_fields"), set("locally_overridden_fields"));
            ensure!(inh.is_disjoint(&loc), "lineage sets overlap", "group {id} attribute {n}: {l}");
            let lay_def = &m[*id][n];
            ensure!(sg == lay_def.def_group || chain(id).contains(&sg.to_owned()), "lineage source unrelated", "group {id} attribute {n}: {l}");
            let ch = chain(id);
            let below: Vec<&String> = match ch.iter().position(|x| x == sg) { Some(p) => ch[..p].iter().collect(), None => ch.iter().collect() };
            let expect: BTreeSet<String> = lay_def.layers.iter().filter(|(g, _)| below.contains(&g)).flat_map(|(_, o)| o.keys().filter(|k| *k != "ref").cloned().collect::<Vec<_>>()).collect();
            c.nontrivial(!expect.is_empty());
            ensure!(expect == loc, "overridden fields", "group {id} attribute {n}: source {sg} expected overridden {expect:?} got {l}");
            for f in &inh { ensure!(sa.get(f) == own.get(f), "inherited field differs", "group {id} attribute {n} field {f} source {sg}: {:?} vs {:?}", sa.get(f), own.get(f)); }
            for f in OVERRIDABLE { if !loc.contains(f) { ensure!(sa.get(f) == own.get(f), "field differs but not overridden", "group {id} attribute {n} field {f}: {:?} vs {:?}; {l}", sa.get(f), own.get(f)); } }
        }
        for (n, lay_def) in &m[*id] {
            let own_def = lay_def.def_group == *id && lay_def.layers.is_empty();
            ensure!(own_def != la.contains_key(n), "lineage presence", "group {id} attribute {n}: own definition {own_def}, lineage {:?}", la.get(n));
        }
    }
    Ok(())
}
/// Invariants of every v1 resolved schema.
pub fn canonical(j: &Value) -> CaseResult {
    let cat = j["catalog"].as_array().unwrap();
    let mut used = BTreeSet::new();
    let mut prev: Option<&str> = None;
    for g in j["registry"]["groups"].as_array().unwrap() {
        let id = g["id"].as_str().unwrap();
        if let Some(p) = prev { ensure!(p <= id, "groups not sorted", "{p} before {id}"); }
        prev = Some(id);
        ensure!(g.get("extends").is_none(), "extends left", "{id}");
        let mut last = None;
        for r in g["attributes"].as_array().unwrap_or(&vec![]) {
            let r = r.as_u64().unwrap() as usize;
            ensure!(r < cat.len(), "reference out of range", "group {id} ref {r}");
            if let Some(l) = last { ensure!(l < r, "references not sorted/unique", "group {id}: {l} then {r}"); }
            last = Some(r);
            let _ = used.insert(r);
        }
    }
    let mut seen = BTreeSet::new();
    for (i, a) in cat.iter().enumerate() {
        ensure!(used.contains(&i), "unreferenced catalog entry", "{i}: {a}");
        ensure!(seen.insert(a.to_string()), "duplicate catalog entry", "{i}: {a}");
        if i > 0 { ensure!(cat[i - 1]["name"].as_str() <= a["name"].as_str(), "catalog not sorted", "{} then {}", cat[i - 1]["name"], a["name"]); }
    }
    Ok(())
}
