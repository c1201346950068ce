//! C04: every mistake planted in a registry is reported, naming the offender.
use crate::engine::*;
use crate::ensure;
use crate::reg::*;
use crate::tape::Tape;
use serde_json::{json, Value};

pub fn prop() -> Prop {
    Prop { id: "C04", rule: "a valid generated registry (accepted without any diagnostic other than warnings it is built to carry) gets 1-2 planted mistakes at random places; resolution must fail or report an error for hard mistakes and report a diagnostic naming the offender for every mistake. Non-trivial: every case (a mistake is planted).",
        assumptions: &["hard = error severity, soft = warning severity, as the CLI partitions them"],
        suites: vec![Suite { name: "mistakes", quick: 12_000, thorough: 200_000, parallel: true, run, shrink: 1000 }, Suite { name: "mistakes_v2", quick: 10_000, thorough: 150_000, parallel: true, run: run_v2, shrink: 1000 }] }
}
pub struct Planted { pub kind: &'static str, pub hard: bool, pub mentions: Vec<String> }
fn attrs(g: &mut Obj) -> &mut Vec<Value> { g.entry("attributes").or_insert(json!([])).as_array_mut().unwrap() }
pub fn plant(t: &mut Tape, reg: &mut Reg, independent: bool) -> Option<Planted> {
    let n = reg.groups.len() as u64;
    let i = t.below(n) as usize;
    let gid = reg.groups[i]["id"].as_str().unwrap().to_owned();
    let pick_type = |t: &mut Tape, reg: &Reg, ty: &str| -> Option<usize> { let v: Vec<usize> = (0..reg.groups.len()).filter(|k| reg.groups[*k]["type"] == ty).collect(); if v.is_empty() { None } else { Some(*t.pick(&v)) } };
    Some(match if independent { *t.pick(&[0u64, 17, 19, 20, 21]) } else { t.below(24) } {
        0 => { attrs(&mut reg.groups[i]).push(json!({"ref": "no.such.attr"})); Planted { kind: "dangling ref", hard: true, mentions: vec![gid, "no.such.attr".into()] } }
        1 => { let _ = reg.groups[i].insert("extends".into(), json!("no.such.group")); Planted { kind: "dangling extends", hard: true, mentions: vec![gid, "no.such.group".into()] } }
        2 => { // extends cycle through k groups
            let k = t.size(1, 3.min(n as usize));
            let idx: Vec<usize> = (0..k).map(|d| (i + d) % n as usize).collect();
            for d in 0..k { let p = reg.groups[idx[(d + 1) % k]]["id"].clone(); let _ = reg.groups[idx[d]].insert("extends".into(), p); }
            Planted { kind: "extends cycle", hard: true, mentions: vec![gid] }
        }
        3 => { let mut g = reg.groups[i].clone(); let _ = g.insert("attributes".into(), json!([])); let _ = g.remove("metric_name").map(|m| g.insert("metric_name".into(), json!(format!("{}_2", m.as_str().unwrap()))));
            let _ = g.remove("name").map(|m| g.insert("name".into(), json!(format!("{}_2", m.as_str().unwrap())))); let _ = g.remove("extends");
            reg.groups.push(g); Planted { kind: "duplicate group id", hard: false, mentions: vec![gid] } }
        4 => { let i = pick_type(t, reg, "metric")?; let mut g = reg.groups[i].clone(); let _ = g.insert("id".into(), json!("metric.dup.one")); let _ = g.insert("attributes".into(), json!([])); let _ = g.remove("extends"); let m = g["metric_name"].as_str().unwrap().to_owned(); reg.groups.push(g);
            Planted { kind: "duplicate metric name", hard: false, mentions: vec![m] } }
        5 => { let ty = *t.pick(&["event", "entity"]); let i = pick_type(t, reg, ty)?; let mut g = reg.groups[i].clone(); let _ = g.insert("id".into(), json!(format!("{ty}.dup.one"))); let _ = g.insert("attributes".into(), json!([])); let _ = g.remove("extends"); let m = g["name"].as_str().unwrap().to_owned(); reg.groups.push(g);
            Planted { kind: "duplicate name", hard: false, mentions: vec![m] } }
        6 => { // same attribute id defined in two attribute groups
            let all: Vec<(usize, Value)> = reg.groups.iter().enumerate().filter(|(_, g)| g["type"] == "attribute_group").flat_map(|(k, g)| g.get("attributes").and_then(|a| a.as_array()).cloned().unwrap_or_default().into_iter().filter(|a| a.get("id").is_some()).map(move |a| (k, a))).collect();
            let (_, a) = t.pick(&all).clone();
            let aid = a["id"].as_str().unwrap().to_owned();
            reg.groups.push(obj(json!({"id": "registry.dupattr", "type": "attribute_group", "brief": "b", "attributes": [a]})));
            Planted { kind: "duplicate attribute id", hard: true, mentions: vec![aid] } }
        7 => { if t.chance(1, 5) {
                for id in ["attribute_group.both.ways", "both.ways"] { reg.groups.push(obj(json!({"id": id, "type": "attribute_group", "brief": "b", "attributes": []}))); }
                return Some(Planted { kind: "colliding v2 id", hard: false, mentions: vec!["both.ways".into()] }); }
            let (ty, pre) = *t.pick(&[("entity", "entity."), ("metric", "metric."), ("event", "event."), ("span", "span.")]); let i = pick_type(t, reg, ty)?; let mut g = reg.groups[i].clone();
            let gid = g["id"].as_str().unwrap().to_owned(); let short = gid.strip_prefix(pre)?.to_owned();
            if ty == "metric" || ty == "event" { return None; } // keyed by their own names
            let _ = g.insert("id".into(), json!(short)); let _ = g.insert("attributes".into(), json!([])); let _ = g.remove("extends"); let _ = g.remove("name");
            reg.groups.push(g); Planted { kind: "colliding v2 id", hard: false, mentions: vec![short] } }
        8 => { let i = pick_type(t, reg, "metric")?; let f = *t.pick(&["metric_name", "instrument", "unit"]); let _ = reg.groups[i].remove(f); Planted { kind: "metric without required field", hard: true, mentions: vec![reg.groups[i]["id"].as_str().unwrap().to_owned(), f.into()] } }
        9 => { let i = pick_type(t, reg, "span")?; let _ = reg.groups[i].remove("span_kind"); Planted { kind: "span without kind", hard: false, mentions: vec![reg.groups[i]["id"].as_str().unwrap().to_owned(), "span_kind".into()] } }
        10 => { let ty = *t.pick(&["span", "event", "metric", "entity"]); let i = pick_type(t, reg, ty)?; let _ = reg.groups[i].remove("stability"); Planted { kind: "no stability", hard: false, mentions: vec![reg.groups[i]["id"].as_str().unwrap().to_owned(), "stability".into()] } }
        11 => { let i = pick_type(t, reg, "event")?; let _ = reg.groups[i].remove("name"); Planted { kind: "event without name", hard: true, mentions: vec![reg.groups[i]["id"].as_str().unwrap().to_owned()] } }
        12 => { let ty = *t.pick(&["attribute_group", "event", "metric", "entity"]); let i = pick_type(t, reg, ty)?; let (k, v) = if t.bool() { ("span_kind", json!("client")) } else { ("events", json!(["e"])) }; let _ = reg.groups[i].insert(k.into(), v); Planted { kind: "span-only field", hard: true, mentions: vec![reg.groups[i]["id"].as_str().unwrap().to_owned(), k.into()] } }
        13 => { let ty = *t.pick(&["attribute_group", "span", "metric", "entity"]); let i = pick_type(t, reg, ty)?; let _ = reg.groups[i].insert("body".into(), json!({"id": "b", "type": "int", "brief": "b", "stability": "stable", "requirement_level": "required"})); Planted { kind: "body on non-event", hard: true, mentions: vec![reg.groups[i]["id"].as_str().unwrap().to_owned()] } }
        14 => { let ty = *t.pick(&["span", "event", "metric"]); let i = pick_type(t, reg, ty)?; let a = reg.groups[i].entry("entity_associations").or_insert(json!([])).as_array_mut().unwrap();
            let e = json!("no.such.entity"); let e = match t.below(3) { 0 => e, 1 => json!({"one_of": [e]}), _ => json!({"all_of": [{"one_of": [e]}]}) }; a.push(e);
            Planted { kind: "unknown entity", hard: true, mentions: vec![reg.groups[i]["id"].as_str().unwrap().to_owned(), "no.such.entity".into()] } }
        15 => { let ty = *t.pick(&["attribute_group", "entity"]); let i = pick_type(t, reg, ty)?; let _ = reg.groups[i].insert("entity_associations".into(), json!(["x"])); Planted { kind: "association on wrong type", hard: true, mentions: vec![reg.groups[i]["id"].as_str().unwrap().to_owned()] } }
        16 => { let ty = *t.pick(&["span", "event", "metric"]); let i = pick_type(t, reg, ty)?; let k = *t.pick(&["one_of", "all_of"]); let _ = reg.groups[i].insert("entity_associations".into(), json!([{k: []}])); Planted { kind: "empty combinator", hard: true, mentions: vec![reg.groups[i]["id"].as_str().unwrap().to_owned(), k.into()] } }
        17 => { // wrong example type on a definition
            let (ty, ex) = t.pick(&[("int", json!(["notanint"])), ("boolean", json!([3])), ("string", json!([3])), ("double", json!(["x"])), ("int[]", json!([["a"]])), ("string[]", json!([[1]]))]).clone();
            attrs(&mut reg.groups[i]).push(json!({"id": "bad.example", "type": ty, "brief": "b", "stability": "stable", "examples": ex}));
            Planted { kind: "wrong example type", hard: true, mentions: vec![gid, "bad.example".into()] } }
        18 => { let a = attrs(&mut reg.groups[i]); let r = a.iter().find(|x| x.get("ref").is_some()).cloned()?; let rid = r["ref"].as_str().unwrap().to_owned(); a.push(json!({"ref": rid})); Planted { kind: "attribute referenced twice", hard: false, mentions: vec![gid, rid] } }
        19 => { attrs(&mut reg.groups[i]).push(json!({"id": "no.brief", "type": "int", "stability": "stable"})); Planted { kind: "attribute without brief", hard: true, mentions: vec![gid, "no.brief".into()] } }
        20 => { attrs(&mut reg.groups[i]).push(json!({"id": "no.stability", "type": "int", "brief": "b"})); Planted { kind: "attribute without stability", hard: false, mentions: vec![gid, "no.stability".into()] } }
        21 => { let ty = *t.pick(&["string", "string[]"]); attrs(&mut reg.groups[i]).push(json!({"id": "no.examples", "type": ty, "brief": "b", "stability": "stable"})); Planted { kind: "string without examples", hard: false, mentions: vec![gid, "no.examples".into()] } }
        22 => { if t.bool() { let _ = reg.groups[i].insert("deprecated".into(), json!("use other")); Planted { kind: "unstructured deprecation on group", hard: false, mentions: vec![gid] } }
            else { attrs(&mut reg.groups[i]).push(json!({"id": "old.dep", "type": "int", "brief": "b", "stability": "stable", "deprecated": "x"})); Planted { kind: "unstructured deprecation on attribute", hard: false, mentions: vec!["old.dep".into()] } } }
        _ => { let (k, v) = t.pick(&[("unknown_field", json!(1)), ("type", json!("no_such_type")), ("stability", json!("no_such_level")), ("brief", json!(["not", "text"]))]).clone(); let _ = reg.groups[i].insert(k.into(), v); Planted { kind: "malformed group", hard: true, mentions: vec![] } }
    })
}
fn run(t: &mut Tape, c: &mut Case) -> CaseResult {
    let mut reg = gen_registry(t, RegOpts { max_groups: 7, ..Default::default() });
    let k = t.size(1, 2);
    let mut planted = vec![];
    for j in 0..k { let mut r2 = reg.clone(); if let Some(p) = plant(t, &mut r2, j > 0) { if !planted.iter().any(|q: &Planted| q.kind == p.kind) { planted.push(p); reg = r2; } } }
    if planted.is_empty() { c.skip(); return Ok(()); }
    let lay = layout(t, &reg);
    let kinds: Vec<&str> = planted.iter().map(|p| p.kind).collect();
    c.desc(format!("{kinds:?} {}", serde_json::to_string(&lay.files).unwrap()));
    c.nontrivial(true);
    for k in &kinds { c.label(*k); }
    let s = Scratch::new();
    write_layout(s.path(), &lay);
    let (accepted, text) = match crate::engine::guarded(|| resolve_full(s.path())) {
        Err(p) => return fail("panic", p),
        Ok(Err(e)) => (false, e),
        Ok(Ok(r)) => (r.errors.is_empty(), r.errors.iter().chain(&r.warnings).map(|e| format!("{e}\n")).collect::<String>()),
    };
    if planted.iter().any(|p| p.hard) { ensure!(!accepted, "hard mistake accepted", "planted {kinds:?}, diagnostics: {text}"); c.label("hard"); }
    else { ensure!(accepted, "soft mistake rejected", "planted {kinds:?}, diagnostics: {text}"); }
    // with one mistake the diagnostic must name the offender
    if planted.len() == 1 {
        for w in &planted[0].mentions { ensure!(text.contains(w.as_str()), "offender not named", "planted {kinds:?} must mention {w:?}; diagnostics: {text}"); }
    }
    Ok(())
}
fn resolve_full(dir: &std::path::Path) -> Result<Resolved, String> {
    use weaver_common::result::WResult;
    use weaver_resolver::*;
    let rp = repo(dir)?;
    match WeaverResolver::new(WeaverResolverConfig::default()).load_and_resolve_schema(rp, DefaultSchemaVisitor) {
        WResult::FatalErr(e) => Err(format!("{e}")),
        WResult::Ok(WeaverResolvedSchema::V1(schema)) => Ok(Resolved { schema, errors: vec![], warnings: vec![] }),
        WResult::OkWithNFEs(WeaverResolvedSchema::V1(schema), n) => { let (errors, warnings) = split(n); Ok(Resolved { schema, errors, warnings }) }
        _ => Err("v2".into()),
    }
}

/// Mistakes of the v2 definition syntax.
fn plant2(t: &mut Tape, reg: &mut crate::reg2::Reg2) -> Option<Planted> {
    use crate::reg2::Reg2;
    let hard = |kind, m: &[&str]| Some(Planted { kind, hard: true, mentions: m.iter().map(|x| x.to_string()).collect() });
    let soft = |kind, m: &[&str]| Some(Planted { kind, hard: false, mentions: m.iter().map(|x| x.to_string()).collect() });
    let pick = |t: &mut Tape, reg: &Reg2, secs: &[&'static str]| -> Option<(&'static str, usize)> { let v: Vec<(&'static str, usize)> = secs.iter().flat_map(|s| (0..reg.sec(s).len()).map(move |i| (*s, i))).collect(); if v.is_empty() { None } else { Some(*t.pick(&v)) } };
    let idf = |s: &str| match s { "attributes" => "key", "entities" | "spans" => "type", "events" | "metrics" => "name", _ => "id" };
    let name = |reg: &Reg2, s: &'static str, i: usize| reg.sec(s)[i][idf(s)].as_str().unwrap().to_owned();
    const SIG: [&str; 6] = ["events", "metrics", "spans", "event_refinements", "metric_refinements", "span_refinements"];
    const DEFS: [&str; 4] = ["events", "metrics", "spans", "entities"];
    fn push(reg: &mut Reg2, s: &'static str, i: usize, k: &str, v: Value) { reg.s.get_mut(s).unwrap()[i].entry(k).or_insert(json!([])).as_array_mut().unwrap().push(v); }
    match t.below(27) {
        0 => { let all: Vec<&'static str> = SIG.iter().copied().chain(["attribute_groups"]).collect(); let (s, i) = pick(t, reg, &all)?; let n = name(reg, s, i); push(reg, s, i, "attributes", json!({"ref": "no.such.attr"})); hard("dangling ref", &[&n, "no.such.attr"]) }
        1 => { let (s, i) = pick(t, reg, &["entities", "entity_refinements"])?; let n = name(reg, s, i); push(reg, s, i, if s == "entities" && t.bool() { "identity" } else { "description" }, json!({"ref": "no.such.attr"})); hard("dangling entity ref", &[&n, "no.such.attr"]) }
        2 => { let all: Vec<&'static str> = SIG.iter().copied().chain(["attribute_groups"]).collect(); let (s, i) = pick(t, reg, &all)?; let n = name(reg, s, i); push(reg, s, i, "attributes", json!({"ref_group": "no.such.group"})); hard("dangling ref_group", &[&n, "no.such.group"]) }
        3 => { let (s, i) = pick(t, reg, &["entity_refinements", "event_refinements", "metric_refinements", "span_refinements"])?; let n = name(reg, s, i); let _ = reg.s.get_mut(s).unwrap()[i].insert("ref".into(), json!("no.such.signal")); hard("dangling refinement", &[&n, "no.such.signal"]) }
        4 => { // two included groups provide the same attribute
            let k = t.pick(&reg.attr_keys()).clone(); let (s, i) = pick(t, reg, &SIG)?;
            let mut names = vec![]; for j in 0..2 { let id = format!("over.lap{j}"); if t.bool() { reg.add("attribute_groups", json!({"id": id, "visibility": "internal", "attributes": [{"ref": k}]})); } else { reg.add("attribute_groups", json!({"id": id, "visibility": "public", "brief": "b", "stability": "stable", "attributes": [{"ref": k}]})); } names.push(id); }
            if t.bool() { for n in &names { push(reg, s, i, "attributes", json!({"ref_group": n})); } } else { reg.add("attribute_groups", json!({"id": "over.both", "visibility": "internal", "attributes": [{"ref_group": names[0]}, {"ref_group": names[1]}]})); if t.bool() { push(reg, s, i, "attributes", json!({"ref_group": "over.both"})); } }
            hard("overlapping groups", &[&k, &names[0], &names[1]]) }
        5 => { let (_, i) = pick(t, reg, &["attributes"])?; let a = reg.sec("attributes")[i].clone(); let k = name(reg, "attributes", i); reg.add("attributes", Value::Object(a)); hard("duplicate attribute key", &[&k]) }
        6 => { let (s, i) = pick(t, reg, &DEFS)?; let d = reg.sec(s)[i].clone(); let n = name(reg, s, i); reg.add(s, Value::Object(d)); soft("duplicate signal", &[&n]) }
        7 => { let (s, i) = pick(t, reg, &["entity_refinements", "event_refinements", "metric_refinements", "span_refinements"])?; let d = reg.sec(s)[i].clone(); let n = name(reg, s, i); reg.add(s, Value::Object(d)); soft("duplicate refinement id", &[&n]) }
        8 => { let (s, i) = pick(t, reg, &["entities"])?; let n = name(reg, s, i); let a = reg.sec(s)[i]["identity"][0]["ref"].as_str().unwrap().to_owned(); push(reg, s, i, "description", json!({"ref": a})); hard("identity and description", &[&n, &a]) }
        9 => { let (s, i) = pick(t, reg, &["entities"])?; let n = name(reg, s, i); let _ = reg.s.get_mut(s).unwrap()[i].insert("identity".into(), json!([])); hard("no identity", &[&n]) }
        10 | 11 => { // an entity refinement changes the identity of its base
            let (_, i) = pick(t, reg, &["entities"])?; let base = name(reg, "entities", i); let e = reg.sec("entities")[i].clone();
            let refs = |k: &str| e.get(k).and_then(|v| v.as_array()).map(|v| v.iter().map(|x| x["ref"].as_str().unwrap().to_owned()).collect::<Vec<_>>()).unwrap_or_default();
            let (idn, des) = (refs("identity"), refs("description"));
            let new: Vec<String> = reg.attr_keys().into_iter().filter(|k| !idn.contains(k) && !des.contains(k)).collect();
            let (k, a) = match t.below(3) { 0 if !new.is_empty() => ("identity", t.pick(&new).clone()), 1 if !des.is_empty() => ("identity", t.pick(&des).clone()), _ => ("description", t.pick(&idn).clone()) };
            let mut id = "chg.ident".to_owned();
            if t.bool() { reg.add("entity_refinements", json!({"id": id, "ref": base, k: [{"ref": a}]})); }
            else { reg.add("entity_refinements", json!({"id": "entity.chg.mid", "ref": base})); id = "chg.two".into(); reg.add("entity_refinements", json!({"id": id, "ref": "chg.mid", k: [{"ref": a}]})); }
            hard("refinement changes identity", &[&id, &a]) }
        12 => { let (s, i) = pick(t, reg, &SIG)?; let n = name(reg, s, i); let e = json!("no.such.entity"); let e = match t.below(3) { 0 => e, 1 => json!({"one_of": [e]}), _ => json!({"all_of": [{"one_of": [e]}]}) }; push(reg, s, i, "entity_associations", e); hard("unknown entity", &[&n, "no.such.entity"]) }
        13 => { let (s, i) = pick(t, reg, &["metrics", "events", "spans", "entities", "attributes"])?; let must: &[&str] = match s { "metrics" => &["instrument", "unit", "stability", "brief", "name"], "spans" => &["kind", "name", "stability", "brief", "type"], "entities" => &["identity", "stability", "brief", "type"], "attributes" => &["key", "type", "brief", "stability"], _ => &["name", "stability", "brief"] };
            let f = *t.pick(must); let _ = reg.s.get_mut(s).unwrap()[i].remove(f); hard("missing field", &[f]) }
        14 => { let (s, i) = pick(t, reg, &crate::reg2::SECTIONS)?; let _ = reg.s.get_mut(s).unwrap()[i].insert("unknown_field".into(), json!(1)); hard("unknown field", &[]) }
        15 => { let (s, i) = pick(t, reg, &DEFS)?; let n = name(reg, s, i); if reg.sec(s)[i].get("requirement_level").is_none() { return None; } let _ = reg.s.get_mut(s).unwrap()[i].remove("requirement_level"); soft("no requirement level", &[&n]) }
        16 => { let (sec, bs, ty) = *t.pick(&[("entity_refinements", "entities", "entity"), ("event_refinements", "events", "event"), ("metric_refinements", "metrics", "metric"), ("span_refinements", "spans", "span")]); let _ = bs;
            let k = t.size(1, 3); for j in 0..k { let mut m = obj(json!({"id": format!("{ty}.cyc.r{j}"), "ref": format!("cyc.r{}", (j + 1) % k)})); if ty != "entity" { let _ = m.insert("attributes".into(), json!([])); } reg.add(sec, Value::Object(m)); }
            hard("refinement cycle", &["cyc.r0"]) }
        17 => { let k = t.size(1, 3); for j in 0..k { reg.add("attribute_groups", json!({"id": format!("cyc.g{j}"), "visibility": "internal", "attributes": [{"ref_group": format!("cyc.g{}", (j + 1) % k)}]})); } if t.bool() { if let Some((s, i)) = pick(t, reg, &SIG) { push(reg, s, i, "attributes", json!({"ref_group": "cyc.g0"})); } } hard("group cycle", &["cyc.g0"]) }
        18 => { // a private attribute used by a signal that is not private
            reg.add("attributes", json!({"key": "priv.attr", "type": "int", "brief": "b", "stability": "stable", "annotations": {"dependency_resolution": {"exclude": true}}}));
            let (s, i) = pick(t, reg, &["events", "metrics", "spans"])?; let n = name(reg, s, i); push(reg, s, i, "attributes", json!({"ref": "priv.attr"})); hard("private attribute used", &[&n, "priv.attr"]) }
        19 => { reg.add("attributes", json!({"key": "bad.type", "type": *t.pick(&["strin", "template[enum]", "int[][]", ""]), "brief": "b", "stability": "stable"})); hard("unknown type", &[]) }
        20 => { let (ty, ex) = t.pick(&[("int", json!(["notanint"])), ("boolean", json!([3])), ("string", json!([3])), ("double", json!(["x"])), ("int[]", json!([["a"]])), ("string[]", json!([[1]]))]).clone();
            reg.add("attributes", json!({"key": "bad.example", "type": ty, "brief": "b", "stability": "stable", "examples": ex})); hard("wrong example type", &["bad.example"]) }
        21 => { let (s, i) = pick(t, reg, &["events", "metrics", "spans"])?; let n = name(reg, s, i); let r = reg.sec(s)[i].get("attributes").and_then(|a| a.as_array()).and_then(|a| a.iter().find_map(|x| x.get("ref").and_then(|r| r.as_str().map(str::to_owned))))?; push(reg, s, i, "attributes", json!({"ref": r})); soft("attribute referenced twice", &[&n, &r]) }
        22 => { let (s, i) = pick(t, reg, &DEFS)?; let f = *t.pick(&["stability", "requirement_level", "deprecated"]); let _ = reg.s.get_mut(s).unwrap()[i].insert(f.into(), json!("no_such_value")); hard("bad value", &[]) }
        23 => { reg.add("attribute_groups", json!({"id": "vis.none", "visibility": "hidden", "attributes": []})); hard("bad visibility", &[]) }
        24 => { let (s, i) = pick(t, reg, &["attribute_groups", "entities", "entity_refinements"])?; let _ = reg.s.get_mut(s).unwrap()[i].insert("entity_associations".into(), json!(["x"])); hard("association on wrong item", &[]) }
        25 => { let (s, i) = pick(t, reg, &SIG)?; let n = name(reg, s, i); let k = *t.pick(&["one_of", "all_of"]); let _ = reg.s.get_mut(s).unwrap()[i].insert("entity_associations".into(), json!([{k: []}])); hard("empty combinator", &[&n]) }
        _ => { let (s, i) = pick(t, reg, &["entity_refinements"])?; let n = name(reg, s, i); let a = t.pick(&reg.attr_keys()).clone(); for k in ["identity", "description"] { push(reg, s, i, k, json!({"ref": a})); } hard("refinement: identity and description", &[&n, &a]) }
    }
}
fn run_v2(t: &mut Tape, c: &mut Case) -> CaseResult {
    let mut reg = crate::reg2::gen2(t, crate::reg2::Opts2 { groups: 2, ..Default::default() });
    let Some(p) = plant2(t, &mut reg) else { c.skip(); return Ok(()); };
    c.desc(format!("{} {}", p.kind, reg.to_doc()));
    c.nontrivial(true);
    c.label(p.kind);
    let s = Scratch::new();
    crate::reg2::write2(t, s.path(), &reg);
    let (accepted, text) = match crate::engine::guarded(|| resolve_full(s.path())) {
        Err(p) => return fail("panic", p),
        Ok(Err(e)) => (false, e),
        Ok(Ok(r)) => (r.errors.is_empty(), r.errors.iter().chain(&r.warnings).map(|e| format!("{e}\n")).collect::<String>()),
    };
    if p.hard { ensure!(!accepted, "hard mistake accepted", "planted {}, diagnostics: {text}", p.kind); }
    else { ensure!(accepted, "soft mistake rejected", "planted {}, diagnostics: {text}", p.kind); }
    for w in &p.mentions { ensure!(text.contains(w.as_str()), "offender not named", "planted {} must mention {w:?}; diagnostics: {text}", p.kind); }
    Ok(())
}
