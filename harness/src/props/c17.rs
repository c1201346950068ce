//! C17: what custom live-check policies are given, and that everything they report is kept.
use super::c05::num_eq;
use super::c13::setup;
use crate::engine::*;
use crate::ensure;
use crate::live::*;
use crate::reg::*;
use crate::tape::Tape;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::Path;
use std::rc::Rc;
use weaver_live_check::advice::*;
use weaver_live_check::live_checker::LiveChecker;
use weaver_live_check::*;

pub fn prop() -> Prop {
    Prop { id: "C17", rule: "input: a generated registry (v1 or v2 view), 1-6 generated samples (with resources and instrumentation scopes) and a generated tree of custom Rego policies (one echoes its input, others report per sample kind, with helper packages, other stages, hidden files and non-Rego files); for every sample of the tree the custom findings must be exactly those the policies define for it, and the echoed input must be that sample, its resource and scope, and the registry attribute and group it matches. data: generated advice data (file, directory or glob; JSON and YAML; nested, hidden and other files) and the default, a pass-through or another preprocessor; every document read by the policy must be the configured one. faults: a missing or broken policy directory, policy, data file or preprocessor, or a policy result that is no finding, must be an error. Non-trivial: input: at least two samples echoed and one with a registry item; data: at least two data documents; faults: all.",
        assumptions: &["glob patterns are not ones where `*` could cross a directory boundary", "data files do not define the same key twice", "several v1 copies of one attribute: any of them is accepted as the registry attribute"],
        suites: vec![
            Suite { name: "input", quick: 5_000, thorough: 150_000, parallel: true, run: input, shrink: 600 },
            Suite { name: "data", quick: 4_000, thorough: 120_000, parallel: true, run: data, shrink: 600 },
            Suite { name: "faults", quick: 600, thorough: 10_000, parallel: true, run: faults, shrink: 300 },
        ] }
}
const HEAD: &str = "package live_check_advice\n\nimport rego.v1\n\n";
fn builtin(l: &LiveReg) -> LiveChecker { LiveChecker::new(l.versioned.clone(), vec![Box::new(DeprecatedAdvisor), Box::new(StabilityAdvisor), Box::new(TypeAdvisor), Box::new(EnumAdvisor)]) }
fn put(root: &Path, rel: &str, text: &[u8]) { let p = root.join(rel); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, text).unwrap(); }
fn strip(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(k, _)| *k != "live_check_result").map(|(k, v)| (k.clone(), strip(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
        _ => v.clone(),
    }
}
/// object fields that are null count as absent
fn no_null(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), no_null(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(no_null).collect()),
        _ => v.clone(),
    }
}
fn kind(path: &str, x: &Tele) -> String {
    match kind_of(path) {
        "data_point" => if x.exp { "exponential_histogram_data_point".into() } else if x.json["metric"]["data_points"].as_array().unwrap().iter().all(|p| p.get("count").is_some()) { "histogram_data_point".into() } else { "number_data_point".into() },
        k => k.to_owned(),
    }
}

/// One custom rule: applies to samples of `kind` whose `on` test holds.
#[derive(Clone)]
struct Rule { id: String, kind: &'static str, test: u64, level: &'static str, form: u64, st: Option<&'static str>, sn: Option<&'static str> }
const KINDS: [&str; 13] = ["attribute", "span", "span_event", "span_link", "resource", "instrumentation_scope", "metric", "number_data_point", "histogram_data_point", "exponential_histogram_data_point", "exemplar", "log", "profile"];
impl Rule {
    fn gen(t: &mut Tape, i: usize) -> Rule {
        Rule { id: format!("custom_{i}"), kind: if t.chance(1, 3) { "attribute" } else { *t.pick(&KINDS) }, test: t.below(5), level: *t.pick(&["violation", "improvement", "information"]), form: t.below(3), st: if t.chance(1, 5) { Some(*t.pick(&["span", "entity"])) } else { None }, sn: if t.chance(1, 5) { Some("given.name") } else { None } }
    }
    fn rego(&self) -> String {
        let s = format!("input.sample.{}", self.kind);
        let test = match self.test { 0 => "true".into(), 1 => "input.registry_attribute != null".into(), 2 => "input.registry_group == null".into(), 3 => "input.resource != null".into(), _ => "data.helpers.odd(count(object.keys(s)))".to_owned() };
        let sig = format!("{}{}", self.st.map(|x| format!(", \"signal_type\": \"{x}\"")).unwrap_or_default(), self.sn.map(|x| format!(", \"signal_name\": \"{x}\"")).unwrap_or_default());
        let f = match self.form {
            0 => format!("{{\"id\": \"{}\", \"level\": \"{}\", \"message\": sprintf(\"m-%v\", [count(s)]), \"context\": {{\"n\": count(s), \"x\": [1, \"é\", null, {{\"a\": 2.5}}]}}{sig}}}", self.id, self.level),
            1 => format!("{{\"type\": \"advice\", \"advice_type\": \"{}\", \"advice_level\": \"{}\", \"message\": \"legacy\", \"advice_context\": {{\"k\": true}}{sig}}}", self.id, self.level),
            // one rule, two findings
            _ => format!("{{\"id\": \"{}\", \"level\": \"{}\", \"message\": m, \"context\": {{\"m\": m}}{sig}}}", self.id, self.level),
        };
        let some = if self.form == 2 { "    some m in [\"one\", \"two\", \"two\"]\n" } else { "" };
        format!("deny contains f if {{\n    s := {s}\n    {test}\n{some}    f := {f}\n}}\n")
    }
    fn expect(&self, kind: &str, node: &Value, e: &Echo, st: &Value, sn: &Value) -> Vec<Value> {
        if kind != self.kind { return vec![]; }
        let n = node.as_object().unwrap().len();
        if !match self.test { 0 => true, 1 => !e.attr.is_empty(), 2 => e.group.is_none(), 3 => e.resource.is_some(), _ => n % 2 == 1 } { return vec![]; }
        let base = |m: &str, ctx: Value| json!({"id": self.id, "level": self.level, "message": m, "context": ctx, "signal_type": self.st.map(|x| json!(x)).unwrap_or(st.clone()), "signal_name": self.sn.map(|x| json!(x)).unwrap_or(sn.clone())});
        match self.form {
            0 => vec![base(&format!("m-{n}"), json!({"n": n, "x": [1, "é", null, {"a": 2.5}]}))],
            1 => vec![base("legacy", json!({"k": true}))],
            _ => vec![base("one", json!({"m": "one"})), base("two", json!({"m": "two"}))],
        }
    }
}
/// What the policy must be given for one sample. `attr`: accepted registry attributes (empty: null).
struct Echo { attr: Vec<Value>, group: Option<Value>, resource: Option<Value>, scope: Option<Value> }

fn registry_attr(l: &LiveReg, reg: &Value, name: &str) -> Vec<Value> {
    let Some(a) = lookup(&l.reg, name) else { return vec![] };
    let key = a["key"].as_str().unwrap();
    if l.v2 { reg["registry"]["attributes"].as_array().unwrap().iter().filter(|x| x["key"] == key).cloned().collect() }
    else { reg["groups"].as_array().unwrap().iter().flat_map(|g| g["attributes"].as_array().into_iter().flatten()).filter(|x| x["name"] == key).cloned().collect() }
}
fn registry_group(l: &LiveReg, reg: &Value, kind: &str, name: &str) -> Option<Value> {
    if l.v2 { reg["registry"][format!("{kind}s").as_str()].as_array().unwrap().iter().find(|x| x["name"] == name).cloned() }
    else { reg["groups"].as_array().unwrap().iter().find(|g| g["type"] == kind && (if kind == "metric" { g["metric_name"] == name } else { g["name"] == name })).cloned() }
}
fn at<'a>(s: &'a Value, path: &str) -> &'a Value { path.split('/').skip(1).fold(s, |v, k| match v { Value::Array(a) => &a[k.parse::<usize>().unwrap()], _ => &v[k] }) }

fn input(t: &mut Tape, c: &mut Case) -> CaseResult {
    let (l, xs, _m) = setup(t, c, 6)?;
    let sc = Scratch::new();
    let pd = sc.sub(*t.pick(&["policies", ".hidden", "p d"]));
    let rules: Vec<Rule> = (0..t.size(0, 5)).map(|i| Rule::gen(t, i)).collect();
    let mut files: BTreeMap<String, String> = BTreeMap::new();
    let echo = format!("{HEAD}deny contains f if {{\n    f := {{\"id\": \"echo\", \"level\": \"information\", \"message\": \"m\", \"context\": {{\"input\": input}}}}\n}}\n");
    let dirs = ["", "sub/", "sub/deep/", "a b/", "x.rego.d/"];
    let _ = files.insert(format!("{}echo.rego", t.pick(&dirs)), echo);
    let _ = files.insert(format!("{}helpers.rego", t.pick(&dirs)), "package helpers\n\nimport rego.v1\n\nodd(n) if n % 2 == 1\n".into());
    for (i, r) in rules.iter().enumerate() { files.entry(format!("{}r{}.rego", dirs[t.below(5) as usize], if t.bool() { 0 } else { i })).or_insert_with(|| HEAD.to_owned()).push_str(&r.rego()); }
    let bad = format!("{HEAD}deny contains {{\"id\": \"never\", \"level\": \"violation\", \"message\": \"m\", \"context\": {{}}}} if true\n");
    for f in [".hidden.rego", ".git/x.rego", "sub/.h/x.rego", "notes.txt", "x.rego.bak", "sub/regofile", "x.regox"] { if t.chance(1, 5) { let _ = files.insert(f.into(), bad.clone()); } }
    for st in ["before_resolution", "after_resolution", "comparison_after_resolution", "live_check_advice.more", "live_check"] { if t.chance(1, 8) { let _ = files.insert(format!("stage_{st}.rego"), bad.replace("package live_check_advice", &format!("package {st}"))); } }
    for (f, x) in &files { put(&pd, f, x.as_bytes()); }
    c.out.desc.push_str(&format!("\npolicies {files:#?}"));
    let mut lc = builtin(&l);
    let r = match RegoAdvisor::new(&lc, &Some(pd.clone()), &None, &None) { Ok(r) => r, Err(e) => return fail("policies rejected", format!("{e:?}")) };
    lc.add_advisor(Box::new(r));
    let mut stats = LiveCheckStatistics::Disabled(DisabledStatistics);
    let scopes: Vec<Option<Value>> = xs.iter().map(|_| if t.bool() { Some(json!({"name": *t.pick(&["lib", ""]), "version": "1.2", "schema_url": "https://s/1", "attributes": attrs(t, &l.reg, 2), "dropped_attributes_count": t.below(3)})) } else { None }).collect();
    let reg = serde_json::to_value(&*l.versioned).unwrap();
    let (mut echoed, mut matched) = (0, 0);
    for (x, scope) in xs.iter().zip(&scopes) {
        let mut s = match to_sample(x) { Ok(s) => s, Err(e) => return fail("sample", e) };
        if let Some(sc) = scope {
            let v = Some(Rc::new(serde_json::from_value(sc.clone()).unwrap()));
            match &mut s { Sample::Metric(m) => m.instrumentation_scope = v, Sample::Span(m) => m.instrumentation_scope = v, Sample::Log(m) => m.instrumentation_scope = v, Sample::Profile(m) => m.instrumentation_scope = v, _ => {} }
        }
        let signal = matches!(s, Sample::Metric(_) | Sample::Span(_) | Sample::Log(_) | Sample::Profile(_));
        let parent = s.clone();
        if let Err(e) = s.run_live_check(&mut lc, &mut stats, None, &parent) { return fail("live check failed", format!("{e:?}")); }
        let out = serde_json::to_value(&s).unwrap();
        let (root, o) = x.json.as_object().unwrap().iter().next().unwrap();
        let (st, sn) = match root.as_str() { "span" => (json!("span"), o["name"].clone()), "metric" => (json!("metric"), o["name"].clone()), "log" => (json!("log"), o["event_name"].clone()), "resource" => (json!("resource"), Value::Null), "profile" => (json!("profile"), Value::Null), _ => (Value::Null, Value::Null) };
        let group = match root.as_str() { "metric" => registry_group(&l, &reg, "metric", o["name"].as_str().unwrap()), "log" => registry_group(&l, &reg, "event", o["event_name"].as_str().unwrap()), _ => None };
        for (path, r) in actual_findings(&out) {
            let k = kind(&path, x);
            let node = strip(at(&out, &path));
            let all = r["all_advice"].as_array().unwrap();
            let mine: Vec<&Value> = all.iter().filter(|f| f["id"] == "echo" || f["id"].as_str().unwrap().starts_with("custom_")).collect();
            for f in all { let id = f["id"].as_str().unwrap(); ensure!(!["never", "invalid_format", "missing_namespace", "illegal_namespace", "extends_namespace"].contains(&id), "finding of a policy that is not configured", "{path}: {f}"); }
            let echoes: Vec<&&Value> = mine.iter().filter(|f| f["id"] == "echo").collect();
            ensure!(echoes.len() == 1, "echo findings", "{path} ({k}): {} echoes", echoes.len());
            ensure!(echoes[0]["signal_type"] == st && echoes[0]["signal_name"] == sn, "signal of a custom finding", "{path}: {} of {root} {sn}", echoes[0]);
            let inp = &echoes[0]["context"]["input"];
            let e = Echo { attr: if k == "attribute" { registry_attr(&l, &reg, node["name"].as_str().unwrap()) } else { vec![] }, group: group.clone(), resource: if signal { x.resource.clone() } else { None }, scope: if signal { scope.clone() } else { None } };
            // the sample
            let m = inp["sample"].as_object();
            ensure!(m.is_some_and(|m| m.len() == 1 && m.contains_key(k.as_str())), "kind of the sample given", "{path}: want {k}, got {:?}", m.map(|m| m.keys().cloned().collect::<Vec<_>>()));
            let got = strip(&inp["sample"][k.as_str()]);
            ensure!(num_eq(&got, &node), "sample given to the policy", "{path}\nwant {node}\ngot {got}");
            for (what, want, got) in [("resource", &e.resource, &inp["resource"]), ("instrumentation scope", &e.scope, &inp["instrumentation_scope"])] {
                let got = strip(got);
                match want { None => ensure!(got.is_null(), format!("{what} given to the policy"), "{path}: want none, got {got}"),
                    Some(w) => {
                        ensure!(got.is_object(), format!("{what} given to the policy"), "{path}: want {w}, got {got}");
                        let (mut g, mut w) = (no_null(&got), no_null(w));
                        // attributes: same names and values, in order (ingestion adds inferred types)
                        let na = |v: &mut Value| -> Vec<Value> { v.as_object_mut().unwrap().remove("attributes").map(|a| a.as_array().unwrap().iter().map(|a| json!([a["name"], a["value"]])).collect()).unwrap_or_default() };
                        let (ga, wa) = (na(&mut g), na(&mut w));
                        ensure!(num_eq(&json!(ga), &json!(wa)) && num_eq(&g, &w), format!("{what} given to the policy"), "{path}\nwant {wa:?} {w}\ngot {ga:?} {g}");
                    } }
            }
            let ga = &inp["registry_attribute"];
            if e.attr.is_empty() { ensure!(ga.is_null(), "registry attribute given to the policy", "{path}: want none, got {ga}"); }
            else { matched += 1; ensure!(e.attr.iter().any(|a| num_eq(&no_null(a), &no_null(ga))), "registry attribute given to the policy", "{path}: want {:?}\ngot {ga}", e.attr); }
            let gg = &inp["registry_group"];
            match &e.group { None => ensure!(gg.is_null(), "registry group given to the policy", "{path}: want none, got {gg}"), Some(g) => { matched += 1; ensure!(num_eq(&no_null(g), &no_null(gg)), "registry group given to the policy", "{path}\nwant {g}\ngot {gg}"); } }
            // the other rules
            let mut want: Vec<String> = rules.iter().flat_map(|r| r.expect(&k, &node_keys(inp, &k), &e, &st, &sn)).map(|f| no_null(&f).to_string()).collect();
            let mut got: Vec<String> = mine.iter().filter(|f| f["id"] != "echo").map(|f| { let mut f = f.as_object().unwrap().clone(); let _ = f.remove("type"); no_null(&Value::Object(f)).to_string() }).collect();
            want.sort(); got.sort();
            for f in &want { c.label(format!("custom {}", &f[f.len().saturating_sub(0)..])); }
            ensure!(want == got, format!("custom findings of {}", k), "{path}\nwant {want:#?}\ngot {got:#?}");
            let hi = max_level(all.iter());
            ensure!(r["highest_advice_level"] == hi, "highest level", "{path}: {} want {hi}", r["highest_advice_level"]);
            echoed += 1; c.label(k);
        }
    }
    c.nontrivial(echoed >= 2 && matched >= 1);
    Ok(())
}
/// the object the policy counted the fields of
fn node_keys(inp: &Value, k: &str) -> Value { inp["sample"][k].clone() }

fn doc(t: &mut Tape, d: u32) -> Value {
    match t.below(if d == 0 { 6 } else { 9 }) {
        0 => json!(t.range(-5, 5)), 1 => json!(2.5), 2 => json!(t.bool()), 3 => json!(*t.pick(&["v", "", "é", "a: b"])), 4 => Value::Null, 5 => json!("123"),
        6 => Value::Array((0..t.size(0, 3)).map(|_| doc(t, d - 1)).collect()),
        _ => { let mut m = Map::new(); for k in t.subset(&["a", "b c", "k.k", "1", "é"], 1, 2) { let _ = m.insert(k.into(), doc(t, d - 1)); } Value::Object(m) }
    }
}
fn nest(path: &[&str], v: Value) -> Value { path.iter().rev().fold(v, |v, k| { let mut m = Map::new(); let _ = m.insert((*k).into(), v); Value::Object(m) }) }
fn merge(a: &mut Value, b: Value) { match (a, b) { (Value::Object(x), Value::Object(y)) => for (k, v) in y { merge(x.entry(k).or_insert(json!({})), v) }, (a, b) => *a = b } }

fn data(t: &mut Tape, c: &mut Case) -> CaseResult {
    let (l, xs, _m) = setup(t, c, 1)?;
    let sc = Scratch::new();
    let reg = serde_json::to_value(&*l.versioned).unwrap();
    // ---- files
    let dd = sc.sub(*t.pick(&["data", ".data", "d.d", "d d"]));
    let all = ["one.json", "two.yaml", "three.yml", "dot.ted.json", "sub/four.json", "sub/five.yaml", "sub/deep/six.json", "two/seven.json", "other/eight.yml", "other/sub/nine.json", "UP.json"];
    let mut files: Vec<(String, Vec<u8>, Option<Value>)> = vec![];
    for f in t.subset(&all, 1, 2) {
        let v = if f == "two.yaml" { json!({"zz": doc(t, 1)}) } else { doc(t, 3) };
        let text = if f.ends_with(".json") { v.to_string().into_bytes() } else { serde_yaml::to_string(&v).unwrap().into_bytes() };
        files.push((f.into(), text, Some(v)));
    }
    for f in ["x.txt", "readme.md", "sub/x.toml", ".h.json", ".hid/y.json", "sub/.z.yaml", "one.json.bak", "json", "pic.png", "sub/JSON"] { if t.chance(1, 5) { files.push((f.into(), if f.ends_with("png") { vec![0xff, 0xfe, 0x00, 0x89] } else { b"{\"ignored\": true}".to_vec() }, None)); } }
    t.shuffle(&mut files);
    for (f, x, _) in &files { put(&dd, f, x); }
    // ---- pattern: which files, rooted where
    let base = dd.to_string_lossy().into_owned();
    type Sel = (String, Vec<String>, Box<dyn Fn(&str) -> bool>);
    let known: Vec<String> = files.iter().filter(|f| f.2.is_some()).map(|f| f.0.clone()).collect();
    let (pattern, root, sel): Sel = match t.below(8) {
        0 => (String::new(), vec![], Box::new(|_| false)),
        1 if !known.is_empty() => { let f = t.pick(&known).clone(); let root: Vec<String> = f.split('/').rev().skip(1).map(|s| s.to_owned()).collect::<Vec<_>>().into_iter().rev().collect(); (format!("{base}/{f}"), root, Box::new(move |x| x == f)) }
        2 => (format!("{base}/**/*.json"), vec![], Box::new(|x| x.ends_with(".json"))),
        3 => (format!("{base}/**/*.y*ml"), vec![], Box::new(|x| x.ends_with(".yaml") || x.ends_with(".yml"))),
        4 if known.iter().any(|f| f.starts_with("sub/")) => (format!("{base}/sub/**/*.json"), vec!["sub".into()], Box::new(|x| x.starts_with("sub/") && x.ends_with(".json"))),
        5 if known.iter().any(|f| f.starts_with("sub/")) => (format!("{base}/sub"), vec!["sub".into()], Box::new(|x| x.starts_with("sub/"))),
        6 => (format!("{base}/**/s?x.json"), vec![], Box::new(|x| x.ends_with("/six.json"))),
        _ => (base.clone(), vec![], Box::new(|_| true)),
    };
    let mut want = json!({}); let mut n_docs = 0;
    for (f, _, v) in &files { if let Some(v) = v { if sel(f) {
        n_docs += 1;
        let p: Vec<&str> = f.split('/').skip(root.len()).collect();
        let (stem, _) = p[p.len() - 1].rsplit_once('.').unwrap();
        let mut path: Vec<&str> = p[..p.len() - 1].to_vec(); path.push(stem);
        merge(&mut want, nest(&path, v.clone()));
    } } }
    let all_tops = ["one", "two", "three", "dot.ted", "dot", "sub", "four", "five", "deep", "other", "UP", "eight", "seven", "six", "x", "readme", ".h", ".hid", "json", "pic", "one.json", "ignored"];
    // ---- preprocessor
    let def = t.bool();
    let jq = t.below(3);
    let jq_path = if def { None } else {
        let text = match jq { 0 => ".", 1 => "{picked: [.semconv_metrics | keys[]], const: 5, text: \"$x\"}", _ => "# comment\n{n: (.semconv_attributes | length), m: (.semconv_events | keys | length)}" };
        put(sc.path(), "pre.jq", text.as_bytes()); Some(sc.path().join("pre.jq")) };
    let (plain, tmpl): (Vec<_>, Vec<_>) = l.reg.sec("attributes").iter().partition(|a| !is_template(a));
    let set = |ks: &[&str]| -> Value { Value::Object(ks.iter().map(|k| (k.to_string(), json!(true))).collect()) };
    let keys = |v: &[&Obj]| -> Vec<String> { v.iter().map(|a| a["key"].as_str().unwrap().to_owned()).collect() };
    let (pk, tk) = (keys(&plain), keys(&tmpl));
    fn refs(v: &[String]) -> Vec<&str> { v.iter().map(|s| s.as_str()).collect() }
    let lc0 = builtin(&l);
    let mut names = |k: &str| -> Vec<String> { let mut v: Vec<String> = l.reg.sec(k).iter().map(|x| x["name"].as_str().unwrap().to_owned()).collect(); v.sort(); v };
    let mut pre: Vec<(&str, Value)> = vec![];
    if def {
        pre.push(("attributes_set", set(&refs(&pk))));
        pre.push(("templates_set", set(&refs(&tk))));
        let dep: Vec<String> = plain.iter().filter(|a| a.get("deprecated").is_some_and(|d| !d.is_null())).map(|a| a["key"].as_str().unwrap().to_owned()).collect();
        pre.push(("deprecated_attributes_set", set(&refs(&dep))));
        let mut ns: Vec<String> = vec![];
        for k in &pk { let p: Vec<&str> = k.split('.').collect(); for i in 1..p.len() { ns.push(p[..i].join(".")); } }
        pre.push(("namespaces_to_check_set", set(&refs(&ns))));
        pre.push(("schema_url", if l.v2 { json!("https://live.example/schemas/1.0.0") } else { Value::Null }));
        let mut ents = json!({});
        if l.v2 { ents = json!({"https://live.example/schemas/1.0.0": {}}); let m = ents["https://live.example/schemas/1.0.0"].as_object_mut().unwrap();
            for e in reg["registry"]["entities"].as_array().unwrap() { let _ = m.insert(e["type"].as_str().unwrap().into(), e.clone()); }
            for e in reg["refinements"]["entities"].as_array().unwrap() { let _ = m.insert(e["id"].as_str().unwrap().into(), e.clone()); } }
        pre.push(("entities", ents));
    } else { match jq {
        0 => { pre.push(("registry", reg.clone())); let by = |ks: &[String]| -> Value { set(&refs(ks)) }; pre.push(("#semconv_attributes", by(&pk))); pre.push(("#semconv_templates", by(&tk))); pre.push(("#semconv_metrics", set(&refs(&names("metrics"))))); pre.push(("#semconv_events", set(&refs(&names("events"))))); }
        1 => { pre.push(("picked", json!(names("metrics")))); pre.push(("const", json!(5))); pre.push(("text", json!("$x"))); pre.push(("#absent attributes_set", Value::Null)); }
        _ => { pre.push(("n", json!(pk.len()))); pre.push(("m", json!(names("events").len()))); }
    } }
    // ---- policy reading every document
    let mut rego = format!("{HEAD}");
    let mut reads: Vec<String> = all_tops.iter().map(|s| s.to_string()).collect();
    for (k, _) in &pre { reads.push(k.trim_start_matches("#absent ").trim_start_matches('#').to_owned()); }
    for k in &reads { let q = json!(k); rego.push_str(&format!("vals[{q}] := v if {{\n    v := data[{q}]\n}}\n")); }
    rego.push_str("deny contains f if {\n    f := {\"id\": \"vals\", \"level\": \"information\", \"message\": \"m\", \"context\": {\"vals\": vals}}\n}\n");
    put(sc.path(), "pol/p.rego", rego.as_bytes());
    let pat = if pattern.is_empty() { None } else { Some(pattern.clone()) };
    c.out.desc.push_str(&format!("\nfiles {:?}\npattern {pat:?} preprocessor {jq_path:?}", files.iter().map(|f| (&f.0, String::from_utf8_lossy(&f.1).into_owned())).collect::<Vec<_>>()));
    drop(lc0);
    let mut lc = builtin(&l);
    let r = match RegoAdvisor::new(&lc, &Some(sc.path().join("pol")), &jq_path, &pat) { Ok(r) => r, Err(e) => return fail("configuration rejected", format!("{e:?}")) };
    lc.add_advisor(Box::new(r));
    let mut stats = LiveCheckStatistics::Disabled(DisabledStatistics);
    let out = match run(&mut lc, &mut stats, &xs) { Ok(o) => o, Err(e) => return fail("live check failed", e) };
    let f = actual_findings(&out[0]);
    let (path, r) = f.iter().next().unwrap();
    let vals: Vec<&Value> = r["all_advice"].as_array().unwrap().iter().filter(|f| f["id"] == "vals").collect();
    ensure!(vals.len() == 1, "data findings", "{path}: {vals:?}");
    let vals = vals[0]["context"]["vals"].as_object().unwrap();
    for k in all_tops {
        let (w, g) = (want.get(k), vals.get(k));
        ensure!(w.is_some() == g.is_some() && w.zip(g).is_none_or(|(w, g)| num_eq(w, g)), "advice data", "data[{k:?}]: want {w:?}\ngot {g:?}");
    }
    for (k, w) in &pre {
        if let Some(k) = k.strip_prefix("#absent ") { ensure!(!vals.contains_key(k), "preprocessor replaced", "data.{k} = {:?}", vals.get(k)); continue; }
        let bare = k.trim_start_matches('#');
        let Some(g) = vals.get(bare) else { return fail("preprocessor data missing", bare) };
        if k.starts_with('#') { let gk: Vec<&String> = g.as_object().unwrap().keys().collect(); let wk: Vec<&String> = w.as_object().unwrap().keys().collect(); let mut gk2 = gk.clone(); gk2.sort(); let mut wk2 = wk.clone(); wk2.sort(); ensure!(gk2 == wk2, "registry items given to the preprocessor", "{bare}: want {wk2:?} got {gk2:?}"); }
        else { ensure!(num_eq(&no_null(w), &no_null(g)), format!("preprocessed data {bare}"), "want {w}\ngot {g}"); }
    }
    c.label(if def { "default jq" } else { "custom jq" });
    c.label(format!("docs {n_docs}"));
    c.nontrivial(n_docs >= 2);
    Ok(())
}

fn faults(t: &mut Tape, c: &mut Case) -> CaseResult {
    let (l, xs, _m) = setup(t, c, 1)?;
    let sc = Scratch::new();
    let ok = format!("{HEAD}deny contains {{\"id\": \"x\", \"level\": \"information\", \"message\": \"m\", \"context\": {{}}}} if true\n");
    put(sc.path(), "pol/ok.rego", ok.as_bytes());
    put(sc.path(), "data/ok.json", b"{\"a\": 1}");
    let p = |s: &str| sc.path().join(s);
    let (mut pol, mut jq, mut dat) = (Some(p("pol")), None, None);
    let k = t.below(11);
    let what = match k {
        0 => { pol = Some(p("nosuch")); "missing policy directory" }
        1 => { put(sc.path(), "pol/sub/bad.rego", b"package live_check_advice\n\ndeny contains {"); "policy that does not parse" }
        2 => { put(sc.path(), "pol/sub/bin.rego", &[0xff, 0xfe]); "policy that is not text" }
        3 => { dat = Some(p("nosuch").to_string_lossy().into_owned()); "missing data path" }
        4 => { put(sc.path(), "data/sub/bad.json", b"{\"a\": "); dat = Some(p("data").to_string_lossy().into_owned()); "data file that does not parse" }
        5 => { put(sc.path(), "data/sub/bad.yaml", b"a: [1\nb: }"); dat = Some(format!("{}/**/*.yaml", p("data").to_string_lossy())); "YAML data file that does not parse" }
        6 => { jq = Some(p("nosuch.jq")); "missing preprocessor" }
        7 => { put(sc.path(), "bad.jq", b".[ | }"); jq = Some(p("bad.jq")); "preprocessor that does not parse" }
        8 => { put(sc.path(), "err.jq", b"error(\"no\")"); jq = Some(p("err.jq")); "preprocessor that fails" }
        9 => { put(sc.path(), "pol/bad.rego", format!("{HEAD}deny contains {} if true\n", *t.pick(&["\"text\"", "1", "{\"id\": \"x\"}", "{\"id\": \"x\", \"level\": \"fatal\", \"message\": \"m\", \"context\": {}}", "{\"id\": 1, \"level\": \"violation\", \"message\": \"m\", \"context\": {}}"])).as_bytes()); "result that is no finding" }
        _ => { dat = Some(format!("{}/nosuch/**/*.json", sc.path().to_string_lossy())); "missing glob base" }
    };
    c.out.desc.push_str(what); c.label(what);
    let mut lc = builtin(&l);
    let failed = match RegoAdvisor::new(&lc, &pol, &jq, &dat) {
        Err(_) => true,
        Ok(r) => { lc.add_advisor(Box::new(r)); run(&mut lc, &mut LiveCheckStatistics::Disabled(DisabledStatistics), &xs).is_err() }
    };
    ensure!(failed, format!("{what} accepted"), "{what}");
    c.nontrivial(true);
    Ok(())
}
