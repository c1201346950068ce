//! C12: policies see exactly the data of their stage and every finding is reported.
use crate::cli::*;
use crate::engine::*;
use crate::ensure;
use crate::props::c02::first_diff;
use crate::props::c05::{num_eq, source};
use crate::props::c27::zip_;
use crate::reg::*;
use crate::tape::Tape;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::path::Path;

pub fn prop() -> Prop {
    Prop { id: "C12", rule: "a valid generated registry (v1 or v2 definitions), optionally a baseline, and 1-4 generated rego files for random stages, placed in the registry (any depth, hidden, in the baseline as decoys) or given by -p as file, directory or zip archive; rules echo their whole input and data, select groups, attributes or signals by field, compare with the baseline, use the semconv helpers, or use legacy, malformed or failing finding forms. check/resolve/package run through the weaver binary with each combination of --v2/--skip-policies; findings (stage, provenance, id, level, message, context, signal) are compared with an evaluation of the same rules over the library's views. Non-trivial: at least one finding expected.",
        assumptions: &["the library's resolved views are the reference for stage inputs (they are checked by C01-C09)"],
        suites: vec![Suite { name: "policies", quick: 2600, thorough: 60_000, parallel: true, run, shrink: 120 }] }
}
#[derive(Clone, Debug, PartialEq)]
enum Rule { Echo, EchoData, ByType(&'static str), Attr(&'static str), Section(&'static str), Gone(&'static str), Helper(u8), Legacy, Advice, Signal, Missing, BadType, BadLevel, ClassicPair }
#[derive(Clone, Debug)]
struct File { stage: &'static str, place: u8, rules: Vec<(String, &'static str, Rule)>, broken: bool }
const STAGES: [&str; 3] = ["before_resolution", "after_resolution", "comparison_after_resolution"];
const LEVELS: [&str; 3] = ["violation", "improvement", "information"];
const PATHS2: [&str; 6] = ["attributes", "metrics", "events", "spans", "entities", "attribute_groups"];

fn rego(f: &File) -> String {
    let mut s = format!("package {}\n\nimport rego.v1\n\n", f.stage);
    if f.broken { s.push_str("deny contains {{{ if\n"); }
    for (id, lv, r) in &f.rules {
        let head = "deny contains f if {\n";
        let fin = |msg: &str, ctx: &str| format!("\tf := {{\"id\": \"{id}\", \"level\": \"{lv}\", \"message\": {msg}, \"context\": {ctx}}}\n}}\n\n");
        s.push_str(&match r {
            Rule::Echo => format!("{head}{}", fin("\"echo\"", "{\"input\": input}")),
            Rule::EchoData => format!("{head}{}", fin("\"data\"", "{\"groups\": object.get(data, \"groups\", null), \"registry\": object.get(data, \"registry\", null)}")),
            Rule::ByType(ty) => format!("{head}\tsome g in input.groups\n\tg.type == \"{ty}\"\n{}", fin("g.id", "{\"brief\": g.brief, \"n\": count(g.attributes)}")),
            Rule::Attr(st) => format!("{head}\tsome g in input.groups\n\tsome a in g.attributes\n\ta.stability == \"{st}\"\n{}", fin("sprintf(\"%s/%s\", [g.id, a.brief])", "{\"a\": a}")),
            Rule::Section(k) => format!("{head}\tsome x in input.registry.{k}\n\tx.stability == \"stable\"\n{}", fin("x.brief", "{\"x\": x}")),
            Rule::Gone(_) => format!("{head}\tsome b in data.groups\n\tnot b.id in {{g.id | some g in input.groups}}\n{}", fin("b.id", "{\"b\": b.type}")),
            Rule::Helper(0) => format!("{head}\tsome a in data.semconv.registry_attributes\n{}", fin("a", "{}")),
            Rule::Helper(1) => format!("{head}\tsome a in data.semconv.baseline_attributes\n\tnot a in data.semconv.attributes\n{}", fin("a", "{}")),
            Rule::Helper(_) => format!("{head}\tsome a, g in data.semconv.baseline_group_ids_by_attribute\n{}", fin("a", "{\"g\": g}")),
            Rule::Legacy => format!("deny contains {{\"type\": \"semconv_attribute\", \"id\": \"{id}\", \"category\": \"c\", \"group\": \"g\", \"attr\": \"a\"}} if true\n\n"),
            Rule::ClassicPair => format!("deny contains {{\"type\": \"semconv_attribute\", \"id\": \"{id}\", \"category\": \"c\", \"group\": g.id, \"attr\": \"x\"}} if {{ some g in input.groups }}\n\n"),
            Rule::Advice => format!("deny contains {{\"type\": \"advice\", \"advice_type\": \"{id}\", \"advice_level\": \"{lv}\", \"advice_context\": {{\"k\": [1, 2.5, null, true]}}, \"message\": \"m\"}} if true\n\n"),
            Rule::Signal => format!("deny contains {{\"id\": \"{id}\", \"level\": \"{lv}\", \"message\": \"quote \\\" and\\nnewline\", \"signal_type\": \"metric\", \"signal_name\": \"m.n\"}} if true\n\n"),
            Rule::Missing => format!("deny contains {{\"id\": \"{id}\", \"level\": \"{lv}\"}} if true\n\n"),
            Rule::BadType => format!("deny contains {{\"type\": \"no_such_kind\", \"id\": \"{id}\", \"level\": \"{lv}\", \"message\": \"m\"}} if true\n\n"),
            Rule::BadLevel => format!("deny contains {{\"id\": \"{id}\", \"level\": \"catastrophic\", \"message\": \"m\"}} if true\n\n"),
        });
    }
    s
}
type Finding = (String, String, String, Value, Value, Value); // id, level, message, context, signal type, name
fn arr(v: &Value) -> Vec<Value> { v.as_array().cloned().unwrap_or_default() }
fn s(v: &Value) -> String { v.as_str().unwrap_or_default().to_owned() }
/// None: the evaluation of the stage fails.
fn eval(rules: &[(String, &'static str, Rule)], input: &Value, data: &Value) -> Option<BTreeSet<String>> {
    let mut out: Vec<Finding> = vec![];
    let groups = arr(&input["groups"]); let bgroups = arr(&data["groups"]);
    let names = |gs: &[Value], reg: bool| -> BTreeSet<String> { gs.iter().filter(|g| !reg || s(&g["id"]).starts_with("registry.")).flat_map(|g| arr(&g["attributes"])).filter(|a| a["name"].is_string()).map(|a| s(&a["name"])).collect() };
    for (id, lv, r) in rules {
        let mut add = |m: String, c: Value| out.push((id.clone(), (*lv).to_owned(), m, c, Value::Null, Value::Null));
        match r {
            Rule::Echo => add("echo".into(), json!({"input": input})),
            Rule::EchoData => add("data".into(), json!({"groups": data["groups"], "registry": data["registry"]})),
            Rule::ByType(ty) => for g in groups.iter().filter(|g| g["type"] == **ty && g["attributes"].is_array()) { add(s(&g["id"]), json!({"brief": g["brief"], "n": arr(&g["attributes"]).len()})) },
            Rule::Attr(st) => for g in &groups { for a in arr(&g["attributes"]).iter().filter(|a| a["stability"] == **st && a["brief"].is_string()) { add(format!("{}/{}", s(&g["id"]), s(&a["brief"])), json!({"a": a})) } },
            Rule::Section(k) => for x in arr(&input["registry"][*k]).iter().filter(|x| x["stability"] == "stable") { add(s(&x["brief"]), json!({"x": x})) },
            Rule::Gone(_) => for b in bgroups.iter().filter(|b| !groups.iter().any(|g| g["id"] == b["id"])) { add(s(&b["id"]), json!({"b": b["type"]})) },
            Rule::Helper(0) => for a in names(&groups, true) { add(a, json!({})) },
            Rule::Helper(1) => for a in names(&bgroups, false).difference(&names(&groups, false)) { add(a.clone(), json!({})) },
            // the helper maps each attribute to one group: with two it is an evaluation error
            Rule::Helper(_) if { let mut seen: std::collections::BTreeMap<String, Value> = Default::default(); bgroups.iter().filter(|g| s(&g["id"]).starts_with("registry.")).any(|g| arr(&g["attributes"]).iter().any(|a| seen.insert(s(&a["name"]), g["id"].clone()).is_some_and(|o| o != g["id"]))) } => return None,
            Rule::Helper(_) => for g in bgroups.iter().filter(|g| s(&g["id"]).starts_with("registry.")) { for a in arr(&g["attributes"]) { add(s(&a["name"]), json!({"g": g["id"]})) } },
            Rule::Legacy => out.push(("semconv_attribute".into(), "violation".into(), format!("id={id}, category=c, group=g, attr=a"), json!({"id": id, "category": "c", "group": "g", "attr": "a"}), Value::Null, Value::Null)),
            Rule::ClassicPair => for g in &groups { out.push(("semconv_attribute".into(), "violation".into(), format!("id={id}, category=c, group={}, attr=x", s(&g["id"])), json!({"id": id, "category": "c", "group": g["id"], "attr": "x"}), Value::Null, Value::Null)) },
            Rule::Advice => add("m".into(), json!({"k": [1, 2.5, null, true]})),
            Rule::Signal => out.push((id.clone(), (*lv).to_owned(), "quote \" and\nnewline".into(), Value::Null, json!("metric"), json!("m.n"))),
            Rule::Missing | Rule::BadType | Rule::BadLevel => return None,
        }
    }
    Some(out.into_iter().map(|f| canon(&json!(f))).collect())
}
/// Canonical text: integral floats and integers are the same number.
fn canon(v: &Value) -> String {
    fn go(v: &Value) -> Value { match v {
        Value::Number(n) => match n.as_f64() { Some(f) if f.fract() == 0.0 && f.abs() < 1e15 => json!(f as i64), _ => v.clone() },
        Value::Array(a) => Value::Array(a.iter().map(go).collect()), Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), go(v))).collect()), v => v.clone() } }
    go(v).to_string()
}
/// The raw specification of every file of the main registry, as the loader sees it.
fn raw_specs(path: &str) -> Vec<(String, Value)> {
    use weaver_resolver::*;
    struct V<'a>(&'a mut Vec<(String, Value)>);
    impl SchemaLoadingVisitor for V<'_> { fn check_raw_loaded_schema_files(&mut self, l: &LoadedSemconvRegistry) -> bool {
        if let LoadedSemconvRegistry::Unresolved { specs, .. } = l { for s in specs { self.0.push((s.provenance.path.to_string(), serde_json::to_value(&s.spec).unwrap())); } } true } }
    let mut o = vec![];
    if let Ok(r) = repo(Path::new(path)) { let _ = WeaverResolver::new(WeaverResolverConfig::default()).load_and_resolve_schema(r, V(&mut o)); }
    o
}
fn run(t: &mut Tape, c: &mut Case) -> CaseResult {
    let sc = Scratch::new();
    let d = sc.path().join("main");
    let a = source(t, &d, false);
    let cmd = *t.pick(&["check", "check", "check-baseline", "check-baseline", "resolve", "package"]);
    let v2 = cmd == "package" || t.bool();
    let baseline = (cmd == "check-baseline").then(|| { let b = sc.path().join("base"); source(t, &b, false) });
    let skip = t.chance(1, 10);
    let n = t.size(1, 4);
    let mut files: Vec<File> = vec![];
    for i in 0..n {
        let stage = *t.pick(&STAGES);
        let k = t.size(1, 3);
        let mut rules = vec![];
        for j in 0..k {
            let r = match t.below(22) {
                0..=2 => Rule::Echo,
                3 => if stage == "comparison_after_resolution" { Rule::EchoData } else { Rule::Echo },
                4..=6 => Rule::ByType(t.pick(&["metric", "span", "event", "entity", "attribute_group"])),
                7 | 8 => Rule::Attr(t.pick(&STAB)),
                9..=12 => Rule::Section(t.pick(&PATHS2)),
                13 | 14 => if stage == "comparison_after_resolution" { Rule::Gone("groups") } else { Rule::ClassicPair },
                15 => match stage { "comparison_after_resolution" => Rule::Helper(t.below(3) as u8), "after_resolution" => Rule::Helper(0), _ => Rule::ClassicPair },
                16 => Rule::Legacy, 17 => Rule::Advice, 18 => Rule::Signal,
                19 => if t.chance(1, 3) { t.pick(&[Rule::Missing, Rule::BadType, Rule::BadLevel]).clone() } else { Rule::Signal },
                _ => Rule::ByType("attribute_group"),
            };
            rules.push((format!("r{i}_{j}"), *t.pick(&LEVELS), r));
        }
        // 0 registry root, 1 nested, 2 hidden directory, 3 hidden file, 4 -p file, 5 -p dir, 6 -p zip, 7 baseline (decoy)
        let place = *t.pick(&[0u8, 1, 1, 2, 3, 4, 4, 5, 5, 6, 7]);
        files.push(File { stage, place, rules, broken: t.chance(1, 60) });
    }
    let mut pargs: Vec<String> = vec![];
    for (i, f) in files.iter().enumerate() {
        let text = rego(f);
        let w = |p: std::path::PathBuf| { std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(&p, &text).unwrap(); p };
        match f.place {
            0 => drop(w(d.join(format!("p{i}.rego")))),
            1 => drop(w(d.join(format!("sub dir/x/p{i}.rego")))),
            2 => drop(w(d.join(format!(".hid/p{i}.rego")))),
            3 => drop(w(d.join(format!(".p{i}.rego")))),
            4 => pargs.push(w(sc.path().join(format!("pol/one{i}.rego"))).to_string_lossy().into_owned()),
            5 => { let p = w(sc.path().join(format!("poldir{i}/a/p.rego"))); let _ = std::fs::write(p.with_file_name("notes.txt"), "not a policy"); let _ = std::fs::write(p.with_file_name("x.rego.bak"), "not a policy"); pargs.push(sc.path().join(format!("poldir{i}")).to_string_lossy().into_owned()); }
            6 => { let p = sc.path().join(format!("pol{i}.zip")); std::fs::write(&p, zip_(&[("in/p.rego".to_owned(), crate::props::c27::E::File(text.clone().into_bytes()))])).unwrap(); pargs.push(p.to_string_lossy().into_owned()); }
            _ => if baseline.is_some() { drop(w(sc.path().join(format!("base/p{i}.rego")))) },
        }
    }
    let active: Vec<&File> = if skip { vec![] } else { files.iter().filter(|f| matches!(f.place, 0 | 1 | 4..=6)).collect() };
    let broken = active.iter().any(|f| f.broken) || (!skip && baseline.is_some() && files.iter().any(|f| f.place == 7 && f.broken));
    let mut args: Vec<String> = ["--quiet", "registry", cmd.split('-').next().unwrap(), "-r", &a.path, "--diagnostic-format", "json"].map(String::from).to_vec();
    if v2 { args.push("--v2".into()); }
    if skip { args.push("--skip-policies".into()); }
    for p in &pargs { args.extend(["-p".into(), p.clone()]); }
    let out = sc.path().join("out");
    match cmd {
        "check-baseline" => args.extend(["--baseline-registry".into(), baseline.as_ref().unwrap().path.clone()]),
        "resolve" => args.extend(["-f".into(), "json".into(), "-o".into(), out.join("r.json").to_string_lossy().into_owned()]),
        "package" => { if !d.join("manifest.yaml").exists() && !d.join("registry_manifest.yaml").exists() { manifest(&d, "https://ex.com/reg/1.0.0", &[]); } args.extend(["--resolved-registry-uri".into(), "r".into(), "-o".into(), out.to_string_lossy().into_owned()]) }
        _ => {}
    }
    c.desc(json!({"args": args[1..].iter().map(|x| x.replace(&*sc.path().to_string_lossy(), "S")).collect::<Vec<_>>(), "main": a.desc, "base": baseline.as_ref().map(|b| b.desc.clone()), "rego": files.iter().map(|f| json!([f.place, rego(f)])).collect::<Vec<_>>()}).to_string());
    c.label(format!("cmd/{cmd}")); if skip { c.label("skip"); } if v2 { c.label("v2"); }

    // ---- expectation
    let x = expect(&a.path, ROpts { v2, ..Default::default() });
    if x.has_error() { return fail("valid registry rejected", format!("{:?} {:?}", x.fatal, x.diags)); }
    let view = x.view.as_ref().unwrap().template().clone();
    let bview = baseline.as_ref().map(|b| expect(&b.path, ROpts { v2, ..Default::default() })).map(|b| b.view.map(|v| v.template().clone()).unwrap_or(Value::Null));
    let mut want: BTreeSet<(String, String)> = BTreeSet::new(); // provenance, finding
    let mut invalid: Vec<String> = vec![]; // provenance of failed evaluations
    let mut diags = x.diags.clone();
    for stage in STAGES {
        let fs: Vec<&&File> = active.iter().filter(|f| f.stage == stage).collect();
        if fs.is_empty() { continue; }
        let rules: Vec<_> = fs.iter().flat_map(|f| f.rules.clone()).collect();
        let mut eval_one = |prov: String, input: &Value, data: &Value| match eval(&rules, input, data) { Some(f) => want.extend(f.into_iter().map(|f| (prov.clone(), f))), None => invalid.push(prov) };
        match stage {
            "before_resolution" if v2 => diags.push((true, words("The usage of \"before-resolution\" rego policies is unsupported with V2 schema."))),
            "before_resolution" => for (p, spec) in raw_specs(&a.path) { eval_one(p, &spec, &json!({})); c.label("before"); },
            "after_resolution" => { eval_one(a.path.clone(), &view, &json!({})); c.label("after"); }
            _ => if let Some(b) = &bview { eval_one(a.path.clone(), &view, b); c.label("comparison"); },
        }
    }
    // ---- observation
    let o = crate::cli::run(&args, sc.path(), None);
    let ctx = || format!("weaver {}\n{:?}\n{}\n{}", args.join(" "), files, a.desc, o.show());
    ensure!(o.code.is_some() && !o.stderr.contains("panicked"), "crash", "{}", ctx());
    let ds = match parse_diags(&o.stderr) { Ok(d) => d, Err(e) => return fail("unparsable diagnostics", format!("{e}\n{}", ctx())) };
    if broken {
        c.label("syntax-error");
        ensure!(o.code == Some(1) && ds.iter().any(|m| m["diagnostic"]["message"].as_str().is_some_and(|m| m.contains(".rego"))), "syntax error not reported", "{}", ctx());
        for (i, f) in files.iter().enumerate().filter(|(_, f)| !skip && f.broken && f.place < 2) { ensure!(ds.iter().any(|m| m["diagnostic"]["message"].as_str().is_some_and(|m| m.contains(&format!("p{i}.rego")))), "broken policy not named", "p{i}.rego place {}\n{}", f.place, ctx()); }
        return Ok(());
    }
    let mut got: Vec<(String, String)> = vec![]; let mut got_inv: Vec<String> = vec![]; let mut rest: Vec<Diag> = vec![];
    for m in &ds {
        let e = &m["error"];
        match e["type"].as_str() {
            Some("policy_violation") => {
                let v = &e["violation"];
                got.push((s(&e["provenance"]), canon(&json!([v["id"], v["level"], v["message"], v["context"], v["signal_type"], v["signal_name"]]))));
                ensure!(!diag_of(m).0, "finding is only a warning", "{}", ctx());
            }
            Some("invalid_policy_file") => got_inv.push(s(&e["file"])),
            _ => rest.push(diag_of(m)),
        }
    }
    let gs: BTreeSet<_> = got.iter().cloned().collect();
    ensure!(gs.len() == got.len(), "finding reported twice", "{}", ctx());
    if gs != want {
        let miss: Vec<_> = want.difference(&gs).take(2).collect(); let extra: Vec<_> = gs.difference(&want).take(2).collect();
        let dd = match (miss.first(), extra.first()) { (Some(m), Some(e)) => first_diff(&serde_json::from_str(&m.1).unwrap_or(Value::Null), &serde_json::from_str(&e.1).unwrap_or(Value::Null)), _ => String::new() };
        return fail("findings differ", format!("missing {} {}\nunexpected {} {}\n{dd}\n{}", miss.len(), clip(&format!("{miss:?}"), 1500), extra.len(), clip(&format!("{extra:?}"), 1500), ctx()));
    }
    got_inv.sort(); let mut inv = invalid; inv.sort();
    ensure!(got_inv == inv, "failed evaluations", "got {got_inv:?} expected {inv:?}\n{}", ctx());
    rest.sort(); diags.sort();
    // package drops nothing either
    ensure!(rest == diags, "other diagnostics", "got {rest:?} expected {diags:?}\n{}", ctx());
    let fails = !want.is_empty() || !inv.is_empty();
    ensure!(o.code == Some(i32::from(fails)), "exit status", "expected {}\n{}", i32::from(fails), ctx());
    if !want.is_empty() { c.nontrivial(true); }
    if !inv.is_empty() { c.label("evaluation-error"); }
    if cmd == "resolve" { let g: Value = serde_json::from_str(&std::fs::read_to_string(out.join("r.json")).unwrap_or_default()).unwrap_or(Value::Null); ensure!(num_eq(&g, &view), "policy changed the output", "{}\n{}", first_diff(&view, &g), ctx()); }
    if cmd == "package" { ensure!(out.join("resolved.yaml").exists() != fails, "package written in spite of violations", "{}", ctx()); }
    Ok(())
}
