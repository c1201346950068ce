//! C07: a published package means the same as the definitions it was made from.
use crate::engine::*;
use crate::ensure;
use crate::reg::*;
use crate::reg2::*;
use crate::tape::Tape;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;

pub fn prop() -> Prop {
    Prop { id: "C07", rule: "a generated v2 registry D is packaged (resolved.yaml + publication manifest, as `registry package` writes them); loading the package must give the registry D resolves to, byte-stable when packaged again; a generated consumer C that references D's attributes, refines D's signals, associates D's entities and imports D's signals by random patterns must resolve to the same registry whether D is a definition or a package dependency, and to what an independent model says. Non-trivial: C uses at least one item of D.",
        assumptions: &["signals only: refinements are not part of the importable surface of a package", "provenance paths are not compared"],
        suites: vec![
            Suite { name: "reload", quick: 6_000, thorough: 100_000, parallel: true, run: reload, shrink: 800 },
            Suite { name: "dependency", quick: 10_000, thorough: 200_000, parallel: true, run: dependency, shrink: 1200 },
        ] }
}
pub const DURL: &str = "https://dep.example/schemas/1.2.0";
pub const CURL: &str = "https://cons.example/schemas/0.3.0";
pub fn publish(out: &Path, schema: &V2Schema, url: &str, deps: Value) {
    std::fs::create_dir_all(out).unwrap();
    std::fs::write(out.join("resolved.yaml"), serde_yaml::to_string(schema).unwrap()).unwrap();
    let mut m = json!({"file_format": "manifest/2.0", "stability": "stable", "schema_url": url, "resolved_registry_uri": "resolved.yaml", "description": "d"});
    if deps.as_array().is_some_and(|d| !d.is_empty()) { m["dependencies"] = deps; }
    write_yaml(&out.join("manifest.yaml"), &m);
}
fn reload(t: &mut Tape, c: &mut Case) -> CaseResult {
    let r = gen2(t, Opts2::default());
    let s = Scratch::new();
    let d = s.sub("d"); let p = s.sub("p");
    let files = write2(t, &d, &r);
    manifest(&d, DURL, &[]);
    c.desc(serde_json::to_string(&files).unwrap());
    c.nontrivial(r.items() > 3);
    let x = match resolve2(&d) { Ok(x) => x, Err(e) => return fail("valid v2 registry rejected", e) };
    publish(&p, &x.schema, DURL, json!([]));
    let y = match resolve2(&p) { Ok(x) => x, Err(e) => return fail("package does not load", e) };
    let (mut a, mut b) = (serde_json::to_value(&x.forge).unwrap(), serde_json::to_value(&y.forge).unwrap());
    strip_prov(&mut a); strip_prov(&mut b); // paths are local by design
    ensure!(a == b, "package differs from definitions", "{}", diff_str(&a, &b));
    ensure!(serde_yaml::to_string(&x.schema).unwrap() == serde_yaml::to_string(&y.schema).unwrap(), "resolved schema changes on reload", "");
    Ok(())
}
/// patterns over D's names and whether they match a name
fn patterns(t: &mut Tape, names: &[String]) -> Vec<String> {
    let mut v = vec![];
    for _ in 0..t.size(0, 2) {
        if names.is_empty() { break; }
        let n = t.pick(names).clone();
        v.push(match t.below(5) { 0 => "*".to_owned(), 1 => format!("{}*", &n[..n.len() - 1]), 2 => format!("{}.*", n.split('.').next().unwrap()), _ => n });
    }
    v
}
pub fn glob(p: &str, n: &str) -> bool { match p.strip_suffix('*') { Some(x) => n.starts_with(x), None => p == n } }

fn dependency(t: &mut Tape, c: &mut Case) -> CaseResult {
    let d = gen2(t, Opts2 { refinements: 0, groups: 2, max_attrs: 5, ..Default::default() });
    let own = gen2_on(t, Opts2 { refinements: 2, groups: 2, max_attrs: 3, max_sig: 1, prefix: "c.", ..Default::default() }, &d);
    let m = merged(&d, &own);
    let mut imports: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    for (sec, key) in [("metrics", "name"), ("events", "name"), ("spans", "type"), ("entities", "type"), ("attribute_groups", "id")] {
        let names: Vec<String> = d.sec(sec).iter().filter(|x| x.get("visibility") != Some(&json!("internal"))).map(|x| x[key].as_str().unwrap().to_owned()).collect();
        let mut p = patterns(t, &names);
        // `*` over attribute groups also names the synthetic group that holds a definition file's attributes
        if sec == "attribute_groups" { for x in p.iter_mut() { if x == "*" { *x = "grp.*".into(); } } }
        if !p.is_empty() { let _ = imports.insert(sec, p); }
    }
    let s = Scratch::new();
    let (dd, pd) = (s.sub("d"), s.sub("p"));
    let _ = write2(t, &dd, &d);
    manifest(&dd, DURL, &[]);
    let dj = match resolve2(&dd) { Ok(x) => x, Err(e) => return fail("valid v2 registry rejected", e) };
    publish(&pd, &dj.schema, DURL, json!([]));
    c.desc(json!({"dep": d.to_doc(), "own": own.to_doc(), "imports": imports}).to_string());
    let uses_d = !imports.is_empty() || { let txt = own.to_doc().to_string(); d.attr_keys().iter().chain(d.entity_types().iter()).any(|k| txt.contains(&format!("\"{k}\""))) };
    c.nontrivial(uses_d);
    if !imports.is_empty() { c.label("imports"); }
    let exp = expected2(&m);
    let mut res = vec![];
    let mm = model(&m);
    let (mut known, mut variants, mut dropped) = (false, false, false);
    let files = write2(t, &s.sub("tmp"), &own);
    for (kind, dep) in [("definition", &dd), ("package", &pd)] {
        let cd = s.sub(&format!("c_{kind}"));
        for (n, d) in &files { write_yaml(&cd.join(n), d); }
        if !imports.is_empty() { write_yaml(&cd.join("imports.yaml"), &json!({"file_format": "definition/2", "imports": imports})); }
        manifest(&cd, CURL, &[(DURL, Some(dep.to_string_lossy().into_owned()))]);
        let x = match resolve2(&cd) { Ok(x) => x, Err(e) => return fail(format!("consumer rejected ({kind} dependency)"), e) };
        ensure!(x.errors.is_empty(), format!("errors with {kind} dependency"), "{:?}", x.errors);
        let mut fj = serde_json::to_value(&x.forge).unwrap();
        if kind == "package" {
            // signals imported from a package bring their attributes along (pinned by the repository's tests)
            let brought: Vec<Value> = { let l = fj["registry"]["attributes"].as_array_mut().unwrap(); let (b, keep): (Vec<Value>, Vec<Value>) = l.drain(..).partition(|a| a["provenance"]["source"] == DURL && d.attr_keys().iter().any(|k| a["key"] == k.as_str())); *l = keep; b };
            if imports.is_empty() { ensure!(brought.is_empty(), "registry.attributes: unexpected item (package dependency)", "{brought:?}"); }
            let keys: std::collections::BTreeSet<&str> = brought.iter().map(|a| a["key"].as_str().unwrap()).collect();
            variants |= keys.len() != brought.len();
        }
        let a = match actual2(&fj, &m) { Ok(a) => a, Err(e) => return fail(format!("malformed registry ({kind} dependency)"), e) };
        for (sec, key) in [("metrics", "name"), ("events", "name"), ("spans", "type"), ("entities", "type"), ("attribute_groups", "id"), ("attributes", "key")] {
            let part = format!("registry.{sec}");
            let imported: Vec<String> = imports.get(sec).map(|ps| d.sec(sec).iter().filter(|x| x.get("visibility") != Some(&json!("internal"))).map(|x| x[key].as_str().unwrap().to_owned()).filter(|n| ps.iter().any(|p| glob(p, n))).collect()).unwrap_or_default();
            let owned: Vec<String> = own.sec(sec).iter().filter(|x| x.get("visibility") != Some(&json!("internal"))).map(|x| x[key].as_str().unwrap().to_owned()).collect();
            let want: Vec<&String> = imported.iter().chain(owned.iter()).collect();
            for n in &want {
                if kind == "package" && sec == "attribute_groups" && !a[&part].contains_key(*n) && !owned.contains(n) { dropped = true; continue; }
                let Some(x) = a[&part].get(*n) else { return fail(format!("{part}: item lost ({kind} dependency)"), format!("{n} is missing")) };
                let x = &known_default(kind, &d, &own, &mm, sec, n, false, x, &exp[&part][*n], &mut known);
                ensure!(*x == exp[&part][*n], format!("{part}: content differs ({kind} dependency)"), "{n}\n{}", diff_str(&exp[&part][*n], x));
            }
            for n in a[&part].keys() { ensure!(want.contains(&n), format!("{part}: unexpected item ({kind} dependency)"), "{n} is neither defined nor imported by the consumer"); }
        }
        for (sec, ty) in [("metrics", "metric"), ("events", "event"), ("spans", "span"), ("entities", "entity")] {
            let part = format!("refinements.{sec}");
            for r in own.sec(match ty { "metric" => "metric_refinements", "event" => "event_refinements", "span" => "span_refinements", _ => "entity_refinements" }) {
                let raw = r["id"].as_str().unwrap(); let id = raw.strip_prefix(&format!("{ty}.")).unwrap_or(raw);
                let Some(x) = a[&part].get(id) else { return fail(format!("{part}: item lost ({kind} dependency)"), format!("{id} is missing")) };
                let x = &known_default(kind, &d, &own, &mm, sec, raw, true, x, &exp[&part][id], &mut known);
                ensure!(*x == exp[&part][id], format!("{part}: content differs ({kind} dependency)"), "{id}\n{}", diff_str(&exp[&part][id], x));
            }
        }
        res.push(a);
    }
    if dropped { return fail("attribute group imported from a package is dropped", "a public attribute group imported from a published registry is missing from registry.attribute_groups"); }
    if variants { return fail("overridden variants of a package attribute registered", "registry.attributes lists one key of the package several times, once per overriding import"); }
    if known { return fail("default requirement level of a package attribute", "a bare `ref` to an attribute of a published registry resolves to `required`"); }
    ensure!(res[0] == res[1], "definition and package dependency disagree", "{}", diff_str(&json!(res[0]), &json!(res[1])));
    Ok(())
}

/// The one listed finding: a `ref` without a requirement level to an attribute that only a
/// package defines becomes `required` (pinned by the repository's own tests), `recommended`
/// everywhere else. Returns the item with exactly those occurrences put right.
#[allow(clippy::too_many_arguments)]
fn known_default(kind: &str, d: &Reg2, own: &Reg2, mm: &BTreeMap<String, G2>, sec: &str, id: &str, refinement: bool, x: &Value, e: &Value, known: &mut bool) -> Value {
    let mut x = x.clone();
    if kind != "package" || sec == "attributes" { return x; }
    let ty = match sec { "metrics" => "metric", "events" => "event", "spans" => "span", "entities" => "entity", _ => "" };
    let gid = if refinement || ty.is_empty() { id.to_owned() } else { format!("{ty}.{id}") };
    let Some(g) = mm.get(&gid) else { return x };
    // attributes inherited from a signal of the package carry that signal's level
    let mut cur = gid.clone(); let mut root_d: Option<String> = None;
    while let Some(r) = own.s.values().flatten().find(|r| r.get("id") == Some(&json!(cur)) && r.contains_key("ref")) { cur = format!("{ty}.{}", r["ref"].as_str().unwrap()); }
    let key = if matches!(sec, "metrics" | "events") { "name" } else { "type" };
    if d.sec(sec).iter().any(|s| s.get(key).is_some_and(|n| format!("{ty}.{}", n.as_str().unwrap()) == cur)) { root_d = Some(cur); }
    let dkeys = d.attr_keys();
    for l in ["attributes", "identity", "description"] {
        let Some(o) = x.get_mut(l).and_then(|o| o.as_object_mut()) else { continue };
        for (k, a) in o.iter_mut() {
            let bare = g.attrs.get(k).is_some_and(|ls| ls.iter().all(|l| !l.contains_key("requirement_level")));
            let inherited = root_d.as_ref().is_some_and(|r| mm[r].attrs.contains_key(k));
            if dkeys.contains(k) && bare && !inherited && a["requirement_level"] == "required" && e[l][k]["requirement_level"] == "recommended" { a["requirement_level"] = json!("recommended"); *known = true; }
        }
    }
    x
}
