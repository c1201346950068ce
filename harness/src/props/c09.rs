//! C09: v2 definitions, groups and refinements resolve to exactly what they declare.
use crate::engine::*;
use crate::ensure;
use crate::reg::*;
use crate::reg2::*;
use crate::tape::Tape;
use serde_json::json;

pub fn prop() -> Prop {
    Prop { id: "C09", rule: "generated v2 (definition/2) registries: attributes, nested internal/public attribute groups, entities with identity/description, events, metrics, spans, refinements and refinements of refinements with overrides at every layer, split over random files; the materialized v2 registry must equal an independent reference (base < ref_group < ref per field; refinement inherits unset fields; annotations deep-merge; internal groups invisible). Non-trivial: a refinement or a ref_group with at least one overridden attribute field.",
        assumptions: &["included groups do not share attributes (that is an error)", "an event refinement's `name` and the `type` of a refinement of a refinement are not compared (undocumented)"],
        suites: vec![Suite { name: "reference", quick: 20_000, thorough: 400_000, parallel: true, run, shrink: 1200 }] }
}
pub fn compare(c: &mut Case, r: &Reg2, f: &Forge2) -> CaseResult {
    let _ = c;
    let exp = expected2(r);
    let act = match actual2(&serde_json::to_value(f).unwrap(), r) { Ok(a) => a, Err(e) => return fail("malformed materialized registry", e) };
    for (s, e) in &exp {
        let a = &act[s];
        for (k, v) in e {
            let Some(x) = a.get(k) else { return fail(format!("{s}: item lost"), format!("{s} {k} is missing")) };
            ensure!(x == v, format!("{s}: content differs"), "{s} {k}\n{}", diff_str(v, x));
        }
        for k in a.keys() { ensure!(e.contains_key(k), format!("{s}: unexpected item"), "{s} has unexpected {k}"); }
    }
    Ok(())
}
fn run(t: &mut Tape, c: &mut Case) -> CaseResult {
    let r = gen2(t, Opts2 { refinements: 2, ..Default::default() });
    let s = Scratch::new();
    let files = write2(t, s.path(), &r);
    c.desc(serde_json::to_string(&files).unwrap());
    let refs = SECTIONS[6..].iter().any(|k| !r.sec(k).is_empty());
    let inc = r.to_doc().to_string().contains("ref_group");
    if refs { c.label("refinements"); } if inc { c.label("ref_group"); }
    if model(&r).values().any(|g| g.chained) { c.label("chained refinement"); }
    c.nontrivial((refs || inc) && model(&r).values().any(|g| g.attrs.values().any(|l| l.iter().any(|x| x.len() > 1))));
    let x = match resolve2(s.path()) { Ok(x) => x, Err(e) => return fail("valid v2 registry rejected", e) };
    ensure!(x.errors.is_empty(), "valid v2 registry reported errors", "{:?}", x.errors);
    // every missing requirement_level and nothing else is reported
    compare(c, &r, &x.forge)?;
    // the resolved schema round-trips through YAML and JSON unchanged
    let y = serde_yaml::to_string(&x.schema).unwrap();
    let back: V2Schema = match serde_yaml::from_str(&y) { Ok(b) => b, Err(e) => return fail("resolved schema does not re-load", format!("{e}\n{y}")) };
    ensure!(serde_json::to_value(&back).unwrap() == serde_json::to_value(&x.schema).unwrap(), "resolved schema changes on reload", "{y}");
    let _ = json!(null);
    Ok(())
}
