//! C06: whatever the dependency graph, a registry resolves against one version of each registry.
use crate::engine::*;
use crate::ensure;
use crate::props::c07::{glob, publish};
use crate::reg::*;
use crate::reg2::*;
use crate::tape::Tape;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use weaver_resolver::{Error, WeaverResolver, WeaverResolverConfig};

pub fn prop() -> Prop {
    Prop { id: "C06", rule: "graph: generated dependency graphs of up to 12 registries (chains, diamonds, cycles, several versions of one registry, one registry twice in a manifest) against a model of which outcome each must have; world: generated v2 registries in up to two versions of one major each, importing, referencing, associating and refining each other's items over up to four levels; the root must resolve as if only the latest requested version of every registry existed, in every order of the manifests' dependencies and with a resolver that resolved other registries before. Non-trivial: (graph) more than one registry and a version conflict, cycle or depth of at least 8; (world) some registry is reached in two versions and the root uses one of its items.",
        assumptions: &["later versions keep every item of earlier ones", "a reference that overrides a field does so with a value that differs from the definition's in every version"],
        suites: vec![
            Suite { name: "graph", quick: 4_000, thorough: 60_000, parallel: true, run: graph, shrink: 400 },
            Suite { name: "world", quick: 3_000, thorough: 60_000, parallel: true, run: world, shrink: 1200 },
        ] }
}
const PAIRS: [(&str, &str); 6] = [("1.1.0", "1.2.0"), ("1.9.0", "1.10.0"), ("0.9.1", "0.10.0"), ("1.0.0-rc.1", "1.0.0"), ("2.3.4", "2.3.5"), ("1.2.9", "1.12.0")];
fn url(i: usize, v: &str) -> String { format!("https://r{i}.example/schemas/{v}") }
fn name(i: usize) -> String { format!("r{i}.example/schemas") }
fn semver(v: &str) -> (u64, u64, u64, bool) { let (core, pre) = v.split_once('-').map_or((v, true), |(c, _)| (c, false)); let p: Vec<u64> = core.split('.').map(|x| x.parse().unwrap()).collect(); (p[0], p[1], p[2], pre) }

// ---------- outcome of a graph ----------
type Id = (usize, String);
fn graph(t: &mut Tape, c: &mut Case) -> CaseResult {
    let n = if t.chance(1, 3) { t.size(8, 12) } else { t.size(2, 6) };
    let versions = ["1.0.0", "1.2.0", "1.10.0", "2.0.0", "0.9.0"];
    let mut deps: BTreeMap<Id, Vec<Id>> = BTreeMap::new();
    // versions that exist, per registry
    let vs: Vec<Vec<String>> = (0..n).map(|i| { if i == 0 { return vec!["1.0.0".into()]; } let major_mix = t.chance(1, 12); let k = t.size(1, 2); let mut v: BTreeSet<String> = (0..k).map(|_| versions[t.below(if major_mix { 5 } else { 3 }) as usize].to_owned()).collect(); if v.is_empty() { let _ = v.insert("1.0.0".into()); } v.into_iter().collect() }).collect();
    let chainy = t.chance(1, 2); let cyclic = t.chance(1, 4);
    for i in 0..n {
        for v in &vs[i] {
            let mut d: Vec<Id> = vec![];
            let pickv = |t: &mut Tape, j: usize| (j, t.pick(&vs[j]).clone());
            if i + 1 < n && (chainy || t.bool()) { let x = pickv(t, i + 1); d.push(x); }
            for j in i + 1..n { if t.chance(1, 5) && !d.iter().any(|x| x.0 == j) { let x = pickv(t, j); d.push(x); } }
            if cyclic && i > 0 && t.chance(1, 4) { let j = t.below(i as u64 + 1) as usize; if !d.iter().any(|x| x.0 == j) { let x = pickv(t, j); d.push(x); } }
            if !d.is_empty() && t.chance(1, 10) { let j = d[0].0; let x = pickv(t, j); if !d.contains(&x) { d.push(x); } }
            t.shuffle(&mut d);
            let _ = deps.insert((i, v.clone()), d);
        }
    }
    let root: Id = (0, "1.0.0".into());
    // model: everything that can go wrong anywhere below the root
    let mut reach: BTreeSet<Id> = BTreeSet::new(); let mut cycle = false; let mut depth = 0usize; let mut work = 0usize;
    fn walk(deps: &BTreeMap<Id, Vec<Id>>, x: &Id, path: &mut Vec<usize>, reach: &mut BTreeSet<Id>, cycle: &mut bool, depth: &mut usize, work: &mut usize) {
        *work += 1; if *work > 3000 { return; }
        *depth = (*depth).max(path.len() + 1);
        if path.contains(&x.0) { *cycle = true; return; }
        if path.len() >= 12 { return; }
        let _ = reach.insert(x.clone());
        path.push(x.0);
        for d in &deps[x] { walk(deps, d, path, reach, cycle, depth, work); }
        let _ = path.pop();
    }
    walk(&deps, &root, &mut vec![], &mut reach, &mut cycle, &mut depth, &mut work);
    if work > 300 { c.skip(); return Ok(()); }
    let mut majors: BTreeMap<usize, BTreeSet<u64>> = BTreeMap::new(); let mut by: BTreeMap<usize, BTreeSet<String>> = BTreeMap::new();
    for (i, v) in &reach { let _ = majors.entry(*i).or_default().insert(semver(v).0); let _ = by.entry(*i).or_default().insert(v.clone()); }
    let conflict = majors.values().any(|m| m.len() > 1);
    let upgraded = by.values().any(|m| m.len() > 1);
    let too_deep = depth > 10;
    let mut desc = json!(deps.iter().filter(|(k, _)| reach.contains(k)).map(|(k, v)| (url(k.0, &k.1), v.iter().map(|x| url(x.0, &x.1)).collect::<Vec<_>>())).collect::<BTreeMap<_, _>>());
    c.desc(desc.to_string());
    c.nontrivial(reach.len() > 1 && (conflict || upgraded || cycle || depth >= 8));
    for (l, b) in [("cycle", cycle), ("major conflict", conflict), ("upgrade", upgraded), ("too deep", too_deep), ("depth 10", depth == 10)] { if b { c.label(l); } }
    let s = Scratch::new();
    let put = |pre: &str, x: &Id| {
        let d = s.sub(&format!("{pre}{}-{}", x.0, x.1));
        let dl: Vec<(String, Option<String>)> = deps[x].iter().map(|y| { let _ = s.sub(&format!("{pre}{}-{}", y.0, y.1)); (url(y.0, &y.1), Some(s.path().join(format!("{pre}{}-{}", y.0, y.1)).to_string_lossy().into_owned())) }).collect();
        manifest(&d, &url(x.0, &x.1), &dl.iter().map(|(a, b)| (a.as_str(), b.clone())).collect::<Vec<_>>());
        write_yaml(&d.join("x.yaml"), &json!({"file_format": "definition/2", "attributes": [{"key": format!("r{}.a", x.0), "type": "int", "brief": x.1, "stability": "stable"}]}));
    };
    // registries published as packages take part like the definitions they were made from
    let mut packed = vec![];
    if t.chance(1, 3) { for x in &reach { if *x != root && t.chance(1, 3) { packed.push(x.clone()); } } }
    if !packed.is_empty() { for x in &reach { put("s", x); } }
    packed.retain(|x| match resolve2(&s.path().join(format!("s{}-{}", x.0, x.1))) { Ok(r) => { publish(&s.sub(&format!("{}-{}", x.0, x.1)), &r.schema, &url(x.0, &x.1), json!([])); true } Err(_) => false });
    for x in &reach { if !packed.contains(x) { put("", x); } }
    if !packed.is_empty() { c.label("package in graph"); desc["packages"] = json!(packed.iter().map(|x| url(x.0, &x.1)).collect::<Vec<_>>()); c.desc(desc.to_string()); }
    let dir = s.path().join("0-1.0.0");
    // a resolver that has already resolved other registries of the graph must come to the same outcome
    let mut wr = WeaverResolver::new(WeaverResolverConfig::default());
    let mut warm = vec![];
    if t.chance(1, 2) { for x in &reach { if *x != root && t.chance(1, 3) { warm.push(x.clone()); } } t.shuffle(&mut warm); }
    for x in &warm { let _ = resolve_with(&s.path().join(format!("{}-{}", x.0, x.1)), &mut wr); }
    if !warm.is_empty() { c.label("warm resolver"); desc["resolved before"] = json!(warm.iter().map(|x| url(x.0, &x.1)).collect::<Vec<_>>()); c.desc(desc.to_string()); }
    let r = resolve_with(&dir, &mut wr);
    let bad = cycle || conflict || too_deep;
    match r {
        Err(e) => {
            ensure!(bad, "valid graph rejected", "{e}");
            let why = [("CircularDependency", cycle), ("IncompatibleDependencyVersions", conflict), ("MaximumDependencyDepth", too_deep)];
            ensure!(why.iter().any(|(k, b)| *b && e.contains(k)), "wrong reason", "expected {:?}, got {e}", why);
        }
        Ok(r) => {
            ensure!(!cycle, "cyclic graph accepted", "");
            ensure!(!conflict, "two majors of one registry accepted", "{majors:?}");
            ensure!(!too_deep || !warm.is_empty() || !packed.is_empty(), "graph of more than 10 levels accepted", "depth {depth}");
            let want: BTreeSet<String> = reach.iter().filter(|x| **x != root).map(|x| url(x.0, &x.1)).collect();
            let got: BTreeSet<String> = r.schema.dependencies.iter().map(|u| u.to_string()).collect();
            ensure!(want == got, "dependencies differ", "expected {want:?}\ngot {got:?}");
            let latest = |i: usize| by[&i].iter().max_by_key(|v| semver(v)).unwrap().clone();
            // of a registry named twice the last entry counts as the requested one
            let direct: BTreeMap<usize, BTreeSet<String>> = { let mut m: BTreeMap<usize, BTreeSet<String>> = BTreeMap::new(); for (i, v) in &deps[&root] { let _ = m.entry(*i).or_default().insert(v.clone()); } m };
            let ups: BTreeMap<String, (String, String)> = r.warnings.iter().filter_map(|w| if let Error::DependencyVersionUpgradedWarning { dependency, requested_version, selected_version } = w { Some((dependency.clone(), (requested_version.clone(), selected_version.clone()))) } else { None }).collect();
            for (i, req) in &direct {
                let l = latest(*i);
                let u = ups.get(&name(*i));
                if req.iter().all(|v| *v != l) { ensure!(u.is_some_and(|(a, b)| req.contains(a) && *b == l), "upgrade not reported", "{} requested {req:?}, latest is {l}; reported {ups:?}", name(*i)); }
                else if req.len() == 1 { ensure!(u.is_none(), "upgrade reported without one", "{} requested {req:?}, latest is {l}; reported {ups:?}", name(*i)); }
            }
            for k in ups.keys() { ensure!(direct.keys().any(|i| name(*i) == *k), "upgrade of an indirect dependency reported", "{k}"); }
        }
    }
    Ok(())
}
fn resolve(dir: &std::path::Path) -> Result<Resolved, String> { resolve_with(dir, &mut WeaverResolver::new(WeaverResolverConfig::default())) }

// ---------- content ----------
const PFX: [&str; 5] = ["root.", "rb.", "rc.", "rd.", "re."];
#[derive(Clone)]
struct Node { ver: &'static str, own: Reg2, deps: Vec<(usize, usize)>, imports: BTreeMap<&'static str, Vec<String>> }
const SIG: [(&str, &str); 5] = [("metrics", "name"), ("events", "name"), ("spans", "type"), ("entities", "type"), ("attribute_groups", "id")];
fn names_of(r: &Reg2, sec: &str, key: &str) -> BTreeSet<String> { r.sec(sec).iter().filter(|x| x.get("visibility") != Some(&json!("internal"))).map(|x| x[key].as_str().unwrap().to_owned()).collect() }
/// every text becomes unique
fn uniq(r: &mut Reg2, tag: &str) {
    fn go(v: &mut Value, n: &mut u32, tag: &str) {
        match v {
            Value::Object(m) => for (k, x) in m.iter_mut() { if (k == "brief" || k == "note") && x.is_string() { *n += 1; *x = json!(format!("{} {tag}{n}", x.as_str().unwrap())); } else if k != "annotations" && k != "examples" { go(x, n, tag); } },
            Value::Array(a) => a.iter_mut().for_each(|x| go(x, n, tag)),
            _ => {}
        }
    }
    let mut n = 0;
    for items in r.s.values_mut() { for m in items.iter_mut() { let mut v = Value::Object(std::mem::take(m)); go(&mut v, &mut n, tag); *m = obj(v); } }
}
/// fields overridden by some reference, per attribute
fn overridden(rs: &[&Reg2]) -> BTreeSet<(String, String)> {
    fn go(v: &Value, out: &mut BTreeSet<(String, String)>) {
        match v { Value::Object(m) => { if let Some(k) = m.get("ref").and_then(|r| r.as_str()) { for f in m.keys() { let _ = out.insert((k.to_owned(), f.clone())); } } m.values().for_each(|x| go(x, out)); } Value::Array(a) => a.iter().for_each(|x| go(x, out)), _ => {} }
    }
    let mut out = BTreeSet::new(); for r in rs { go(&r.to_doc(), &mut out); } out
}
/// A later version: same items, new texts and other changes.
fn mutate(t: &mut Tape, r: &Reg2) -> Reg2 {
    let mut r = r.clone();
    for (sec, items) in r.s.iter_mut() {
        for m in items.iter_mut() {
            if *sec != "attributes" {
                if m.contains_key("stability") { if t.chance(1, 3) { let _ = m.insert("stability".into(), stability(t)); } if t.chance(1, 4) { let _ = m.insert("note".into(), json!(text(t))); } if t.chance(1, 4) { let _ = m.insert("annotations".into(), annotations(t)); } }
                if m.contains_key("unit") && t.bool() { let _ = m.insert("unit".into(), json!(*t.pick(&["ms", "By", "1"]))); }
                if m.contains_key("kind") && t.chance(1, 4) { let _ = m.insert("kind".into(), json!(*t.pick(&["client", "server"]))); }
                for l in ["attributes", "identity", "description"] {
                    if let Some(Value::Array(a)) = m.get_mut(l) {
                        for x in a.iter_mut() { if x.get("ref").is_some() { if t.chance(1, 3) { x["requirement_level"] = requirement_level(t); } if t.chance(1, 6) { x["note"] = json!(text(t)); } } }
                        if l == "attributes" && *sec != "attribute_groups" && a.len() > 1 && t.chance(1, 6) { let i = t.below(a.len() as u64) as usize; if a[i].get("ref").is_some() { let _ = a.remove(i); } }
                    }
                }
            } else if t.chance(1, 3) { let _ = m.insert("note".into(), json!(text(t))); }
        }
    }
    r
}
fn world(t: &mut Tape, c: &mut Case) -> CaseResult {
    let k = t.size(1, 4);
    let mut nodes: Vec<Vec<Node>> = vec![vec![]; k + 1];
    for i in (0..=k).rev() {
        let two = i > 0 && t.chance(2, 3);
        let mut dn: Vec<usize> = (i + 1..=k).filter(|_| t.chance(2, 3)).collect();
        if dn.is_empty() && i < k && (i == 0 || t.bool()) { dn.push(i + 1); }
        let pv = |t: &mut Tape, dn: &[usize], nodes: &Vec<Vec<Node>>| -> Vec<(usize, usize)> { let mut d: Vec<(usize, usize)> = dn.iter().map(|&j| (j, t.below(nodes[j].len() as u64) as usize)).collect(); t.shuffle(&mut d); d };
        let mut d0 = pv(t, &dn, &nodes);
        if i == 0 && !d0.is_empty() && t.chance(1, 8) { let (j, v) = d0[0]; if nodes[j].len() > 1 { d0.push((j, 1 - v)); } }
        let mut base = Reg2::default();
        for &j in &dn { let v = d0.iter().find(|x| x.0 == j).unwrap().1; base = merged(&base, &nodes[j][v].own); }
        let mut own = gen2_on(t, Opts2 { refinements: if i == 0 { 2 } else { 0 }, groups: 2, max_attrs: 3, max_sig: if i == 0 { 1 } else { 2 }, prefix: PFX[i], ..Default::default() }, &base);
        uniq(&mut own, &format!("{}v0 ", PFX[i]));
        // what the direct dependencies offer
        let mut imports: BTreeMap<&'static str, Vec<String>> = BTreeMap::new();
        let nd: Vec<usize> = dn.clone();
        for (sec, key) in SIG {
            let mut vis: BTreeSet<String> = BTreeSet::new();
            for &(j, v) in &d0 { vis.extend(visible(&nodes, j, v, sec, key)); }
            let names: Vec<String> = vis.into_iter().collect();
            let mut p = vec![];
            for _ in 0..t.size(0, 2) {
                if names.is_empty() { break; }
                let n = t.pick(&names).clone();
                p.push(match t.below(4) { 0 if sec != "attribute_groups" => "*".to_owned(), 1 => format!("{}*", &n[..n.len() - 1]), 2 => format!("{}.*", n.split('.').next().unwrap()), _ => n });
            }
            if sec == "attribute_groups" { p.retain(|x| x.contains("grp.")); }
            if !p.is_empty() { let _ = imports.insert(sec, p); }
        }
        let (a, b) = *t.pick(&PAIRS);
        nodes[i].push(Node { ver: if two || t.bool() { a } else { b }, own: own.clone(), deps: d0, imports: imports.clone() });
        if two {
            let mut o1 = mutate(t, &own);
            uniq(&mut o1, &format!("{}v1 ", PFX[i]));
            let d1 = pv(t, &nd, &nodes);
            // what the other version imports must still be on offer
            nodes[i].push(Node { ver: b, own: o1, deps: d1, imports });
        }
    }
    // definitions differ further between versions, where no reference overrides the field
    let all: Vec<Reg2> = nodes.iter().flatten().map(|n| n.own.clone()).collect();
    let ov = overridden(&all.iter().collect::<Vec<_>>());
    for vs in nodes.iter_mut() {
        if let [_, n1] = vs.as_mut_slice() {
            for m in n1.own.s.get_mut("attributes").into_iter().flatten() {
                let key = m["key"].as_str().unwrap().to_owned(); let free = |f: &str| !ov.contains(&(key.clone(), f.to_owned()));
                if free("stability") && t.bool() { let _ = m.insert("stability".into(), stability(t)); }
                if free("annotations") && t.chance(1, 3) { let _ = m.insert("annotations".into(), annotations(t)); }
                if free("deprecated") && t.chance(1, 4) { let _ = m.insert("deprecated".into(), json!({"reason": "obsoleted", "note": text(t)})); }
            }
        }
    }
    // which versions are reached, and the latest of each
    let mut reach: BTreeSet<(usize, usize)> = BTreeSet::new(); let mut todo = vec![(0, 0)];
    while let Some(x) = todo.pop() { if reach.insert(x) { todo.extend(nodes[x.0][x.1].deps.iter().copied()); } }
    let latest: BTreeMap<usize, usize> = { let mut m: BTreeMap<usize, usize> = BTreeMap::new(); for &(i, v) in &reach { let e = m.entry(i).or_insert(v); *e = (*e).max(v); } m };
    let split2 = latest.keys().filter(|i| reach.iter().filter(|x| x.0 == **i).count() > 1).count() > 0;
    let mut w = Reg2::default();
    for (&i, &v) in &latest { w = merged(&w, &nodes[i][v].own); }
    let own = &nodes[0][0].own; let imports = &nodes[0][0].imports;
    c.desc(json!(reach.iter().map(|&(i, v)| { let n = &nodes[i][v]; json!({"registry": url(i, n.ver), "deps": n.deps.iter().map(|&(j, u)| url(j, nodes[j][u].ver)).collect::<Vec<_>>(), "imports": n.imports, "own": n.own.to_doc()}) }).collect::<Vec<_>>()).to_string());
    let s = Scratch::new();
    let path = |s: &Scratch, set: &str, i: usize, v: usize| s.path().join(format!("{set}/{i}-{v}"));
    for set in ["one", "two"] {
        for &(i, v) in &reach {
            let n = &nodes[i][v]; let d = path(&s, set, i, v); std::fs::create_dir_all(&d).unwrap();
            let _ = write2(t, &d, &n.own);
            if !n.imports.is_empty() { write_yaml(&d.join("imports.yaml"), &json!({"file_format": "definition/2", "imports": n.imports})); }
            let mut ds = n.deps.clone();
            if set == "two" { t.shuffle(&mut ds); }
            let dl: Vec<(String, Option<String>)> = ds.iter().map(|&(j, u)| (url(j, nodes[j][u].ver), Some(path(&s, set, j, u).to_string_lossy().into_owned()))).collect();
            manifest(&d, &url(i, n.ver), &dl.iter().map(|(a, b)| (a.as_str(), b.clone())).collect::<Vec<_>>());
        }
    }
    // imports whose pattern matches nothing are only a warning; the model follows them exactly
    let exp = expected2(&w);
    let mut used = !imports.is_empty();
    let txt = own.to_doc().to_string();
    for &i in latest.keys() { if i > 0 && txt.contains(&format!("\"{}", PFX[i])) { used = true; } }
    c.nontrivial(split2 && used);
    if split2 { c.label("two versions"); } if k > 1 { c.label("several registries"); }
    let mut first: Option<Value> = None;
    for mode in ["plain", "reordered", "warm"] {
        let mut rs = WeaverResolver::new(WeaverResolverConfig::default());
        if mode == "warm" {
            let mut v: Vec<_> = reach.iter().filter(|x| x.0 > 0).collect(); t.shuffle(&mut v);
            for x in v.iter().take(3) { if let Err(e) = resolve2_with(&path(&s, "one", x.0, x.1), &mut rs) { return fail("valid dependency rejected", e); } }
        }
        let set = if mode == "reordered" { "two" } else { "one" };
        let x = match resolve2_with(&path(&s, set, 0, 0), &mut rs) { Ok(x) => x, Err(e) => return fail(format!("valid registry rejected ({mode})"), e) };
        ensure!(x.errors.is_empty(), format!("valid registry reported errors ({mode})"), "{:?}", x.errors);
        let want: BTreeSet<String> = reach.iter().filter(|x| x.0 > 0).map(|&(i, v)| url(i, nodes[i][v].ver)).collect();
        let got: BTreeSet<String> = x.schema.dependencies.iter().map(|u| u.to_string()).collect();
        ensure!(want == got, "dependencies differ", "{mode}: expected {want:?}\ngot {got:?}");
        let fj = serde_json::to_value(&x.forge).unwrap();
        let a = match actual2(&fj, &w) { Ok(a) => a, Err(e) => return fail("malformed materialized registry", e) };
        for (sec, key) in SIG.into_iter().chain([("attributes", "key")]) {
            let part = format!("registry.{sec}");
            let mut want: BTreeSet<String> = names_of(own, sec, key);
            for &(j, v) in &nodes[0][0].deps { want.extend(visible(&nodes, j, v, sec, key).into_iter().filter(|n| imports.get(sec).is_some_and(|ps| ps.iter().any(|p| glob(p, n))))); }
            for n in &want {
                let Some(x) = a[&part].get(n) else { return fail(format!("{part}: item lost"), format!("{mode}: {n} is missing")) };
                ensure!(*x == exp[&part][n], format!("{part}: content differs"), "{mode}: {n}\n{}", diff_str(&exp[&part][n], x));
            }
            for n in a[&part].keys() { ensure!(want.contains(n), format!("{part}: unexpected item"), "{mode}: {n} is neither defined nor imported by the root"); }
            // every item and attribute names the registry and version its content is from
            for x in fj["registry"][sec].as_array().unwrap() {
                let check = |x: &Value, key: &str| -> CaseResult {
                    let n = x[key].as_str().unwrap(); let i = PFX.iter().position(|p| n.starts_with(p)).unwrap();
                    let want = if i == 0 { Value::Null } else { json!(url(i, nodes[i][latest[&i]].ver)) };
                    ensure!(x["provenance"]["source"] == want, "provenance names another version", "{mode}: {part} {n}: expected source {want}, got {}", x["provenance"]);
                    Ok(())
                };
                check(x, key)?;
                let mut leaves = vec![]; assoc_leaves(&x["entity_associations"], &mut leaves);
                for y in leaves {
                    // a reference to an entity this registry holds, imported ones included, is local
                    if a["registry.entities"].contains_key(y["type"].as_str().unwrap()) { ensure!(y.get("provenance").is_none(), "reference to an imported entity names another registry", "{mode}: {part} {y}"); } else { check(y, "type")?; }
                }
                for l in ["attributes", "identity", "description"] { for y in x[l].as_array().unwrap_or(&vec![]) { check(y, "key")?; } }
            }
        }
        for (sec, ty, rsec) in [("metrics", "metric", "metric_refinements"), ("events", "event", "event_refinements"), ("spans", "span", "span_refinements"), ("entities", "entity", "entity_refinements")] {
            let part = format!("refinements.{sec}");
            for r in own.sec(rsec) {
                let raw = r["id"].as_str().unwrap(); let id = raw.strip_prefix(&format!("{ty}.")).unwrap_or(raw);
                let Some(x) = a[&part].get(id) else { return fail(format!("{part}: item lost"), format!("{mode}: {id} is missing")) };
                ensure!(*x == exp[&part][id], format!("{part}: content differs"), "{mode}: {id}\n{}", diff_str(&exp[&part][id], x));
            }
        }
        let mut fj = fj; strip_prov(&mut fj);
        let view = json!([fj["registry"], fj["refinements"]]);
        match &first { None => first = Some(view), Some(f) => ensure!(*f == view, format!("result differs ({mode})"), "{}", diff_str(f, &view)) }
    }
    let _ = Map::<String, Value>::new();
    Ok(())
}
/// Signals a dependent can import from version `v` of registry `i`.
fn visible(nodes: &[Vec<Node>], i: usize, v: usize, sec: &str, key: &str) -> BTreeSet<String> {
    let n = &nodes[i][v];
    let mut out = names_of(&n.own, sec, key);
    if let Some(ps) = n.imports.get(sec) { for &(j, u) in &n.deps { out.extend(visible(nodes, j, u, sec, key).into_iter().filter(|x| ps.iter().any(|p| glob(p, x)))); } }
    out
}

fn assoc_leaves<'a>(v: &'a Value, out: &mut Vec<&'a Value>) {
    match v { Value::Array(a) => a.iter().for_each(|x| assoc_leaves(x, out)), Value::Object(m) if m.contains_key("type") => out.push(v), Value::Object(m) => m.values().for_each(|x| assoc_leaves(x, out)), _ => {} }
}
