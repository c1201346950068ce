//! C01: resolution implements the documented override rules (reference resolver).
use crate::engine::*;
use crate::ensure;
use crate::reg::*;
use crate::tape::Tape;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop { id: "C01", rule: "generated registries (1-7 groups of all types, attribute definitions in any group, refs with random overrides, extends chains) written to YAML files and resolved by the real loader+resolver; every resolved group and attribute is compared field by field with an independent reference resolver. Non-trivial: at least one override layer takes effect.",
        assumptions: &["attribute ids are defined once per registry (duplicates belong to C04)"],
        suites: vec![Suite { name: "resolve_model", quick: 4000, thorough: 150_000, parallel: true, run: run, shrink: 1500 }] }
}
pub fn run(t: &mut Tape, c: &mut Case) -> CaseResult {
    let reg = gen_registry(t, RegOpts { max_groups: 9, ..Default::default() });
    let lay = layout(t, &reg);
    c.desc(serde_json::to_string(&lay.files).unwrap());
    let s = Scratch::new();
    write_layout(s.path(), &lay);
    let r = match resolve_dir(s.path()) { Ok(r) => r, Err(e) => return fail("valid registry rejected", e) };
    ensure!(r.errors.is_empty(), "valid registry reported errors", "{:?}", r.errors);
    let m = reference(&reg.groups);
    c.nontrivial(m.values().any(|g| g.values().any(|a| a.layers.iter().any(|l| l.1.len() > 1))));
    compare(&reg, &m, &v1_json(&r.schema))
}
pub fn compare(reg: &Reg, m: &BTreeMap<String, BTreeMap<String, Layered>>, schema: &Value) -> CaseResult {
    let cat = schema["catalog"].as_array().or_else(|| schema["catalog"]["attributes"].as_array()).expect("catalog");
    let groups = schema["registry"]["groups"].as_array().expect("groups");
    let got: Vec<&str> = groups.iter().map(|g| g["id"].as_str().unwrap()).collect();
    let mut want: Vec<&str> = reg.groups.iter().map(|g| g["id"].as_str().unwrap()).collect();
    want.sort_unstable();
    ensure!(got == want, "group set", "expected {want:?} got {got:?}");
    for g in groups {
        let id = g["id"].as_str().unwrap();
        let src = reg.groups.iter().find(|x| x["id"] == g["id"]).unwrap();
        let (e, a) = (Value::Object(expected_group(src)), Value::Object(actual_group(g)));
        ensure!(e == a, "group fields", "group {id}\n{}", diff_str(&e, &a));
        let mut actual: BTreeMap<String, Value> = BTreeMap::new();
        for r in g["attributes"].as_array().unwrap_or(&vec![]) {
            let a = &cat[r.as_u64().unwrap() as usize];
            let n = a["name"].as_str().unwrap().to_owned();
            let a = Value::Object(norm(a.as_object().unwrap().clone()));
            ensure!(actual.insert(n.clone(), a).is_none(), "attribute twice", "group {id} lists {n} twice");
        }
        let expected: BTreeMap<String, Value> = m[id].iter().map(|(n, l)| (n.clone(), Value::Object(l.value(n)))).collect();
        ensure!(expected.keys().collect::<Vec<_>>() == actual.keys().collect::<Vec<_>>(), "attribute set", "group {id}: expected {:?} got {:?}", expected.keys(), actual.keys());
        for (n, e) in &expected { ensure!(e == &actual[n], "attribute value", "group {id} attribute {n} layers {}\n{}", json!(m[id][n].layers), diff_str(e, &actual[n])); }
    }
    Ok(())
}
