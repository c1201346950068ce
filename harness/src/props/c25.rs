//! C25: every option takes its value from the command line, else the nearest .weaver.toml, else the default.
use crate::cli::*;
use crate::engine::*;
use crate::ensure;
use crate::reg::*;
use crate::reg2::*;
use crate::tape::Tape;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;

pub fn prop() -> Prop {
    Prop { id: "C25", rule: "a scratch project with two registries (v1 and v2, a dependency, a symbolic link), two policy folders, template folders and inputs; a command (check, resolve, generate, stats, diff, package, live-check, update-markdown) whose options are each given on the command line, in the nearest .weaver.toml or a --config file, in both with different values, or nowhere; farther or overridden config files hold other values. Exit status, streams and written files must equal those of the same command with an empty configuration and every effective value on the command line (for the options without a flag: with the templates' or manifest's own setting). Non-trivial: at least one value came from the configuration.",
        assumptions: &["the command line form of every option is checked by C05, C07, C12, C13, C15, C18", "lists and maps in outputs are compared without order"],
        suites: vec![Suite { name: "layers", quick: 1500, thorough: 40_000, parallel: true, run: layers, shrink: 150 }, Suite { name: "files", quick: 300, thorough: 5_000, parallel: true, run: files, shrink: 100 }] }
}
#[derive(Clone)]
struct Opt { sec: &'static str, key: &'static str, flag: &'static str, vals: Vec<Value> }
fn o(sec: &'static str, key: &'static str, flag: &'static str, vals: &[&str]) -> Opt { Opt { sec, key, flag, vals: vals.iter().map(|v| json!(v)).collect() } }
fn b(sec: &'static str, key: &'static str, flag: &'static str) -> Opt { Opt { sec, key, flag, vals: vec![json!(true), json!(false)] } }
const COMMANDS: [&str; 8] = ["check", "resolve", "generate", "stats", "diff", "package", "live-check", "update-markdown"];
/// flag "" = first positional argument, "2" = second
fn options(cmd: &str) -> Vec<Opt> {
    let mut v = vec![
        o("registry", "path", "-r", &["../../res/r0", "../../res/r1"]), b("registry", "follow_symlinks", "--follow-symlinks"), b("registry", "include_unreferenced", "--include-unreferenced"), b("registry", "v2", "--v2"),
        o("diagnostics", "format", "--diagnostic-format", &["json", "mine", "gh_workflow_command"]), o("diagnostics", "template", "--diagnostic-template", &["../../res/t0", "../../res/t1"]), b("diagnostics", "stdout", "--diagnostic-stdout"),
    ];
    if matches!(cmd, "check" | "resolve" | "generate" | "package" | "live-check") {
        v.push(Opt { sec: "policy", key: "paths", flag: "-p", vals: vec![json!(["../../res/p0"]), json!(["../../res/p1"]), json!(["../../res/p0", "../../res/p1"]), json!([])] });
        v.push(b("policy", "skip", "--skip-policies"));
        v.push(b("policy", "display_policy_coverage", "--display-policy-coverage"));
    }
    match cmd {
        "stats" => v.extend([o("stats", "format", "--format", &["json", "text", "yaml", "mine"]), o("stats", "templates", "--templates", &["../../res/t0", "../../res/t1"]), o("stats", "output", "-o", &["out0", "out1/x"])]),
        "diff" => v.extend([o("diff", "format", "--format", &["json", "markdown", "yaml", "mine"]), o("diff", "templates", "--templates", &["../../res/t0", "../../res/t1"]), o("diff", "output", "-o", &["out0", "out1/x"])]),
        "generate" => v.extend([o("generate", "target", "", &["g0", "g1"]), o("generate", "output", "2", &["out0", "out1/x"]), o("generate", "templates", "-t", &["../../res/t0", "../../res/t1"])]),
        "package" => v.extend([o("package", "output", "-o", &["out0", "out1/x"]), o("package", "resolved_registry_uri", "--resolved-registry-uri", &["resolved.yaml", "https://ex.com/resolved.yaml"])]),
        "live-check" => v.extend([o("live-check", "input_source", "--input-source", &["stdin", "../../res/in0", "../../res/in1"]), o("live-check", "input_format", "--input-format", &["json", "text"]), o("live-check", "format", "--format", &["json", "yaml", "jsonl", "mine", "ansi"]),
            o("live-check", "templates", "--templates", &["../../res/t0", "../../res/t1"]), b("live-check", "no_stream", "--no-stream"), b("live-check", "no_stats", "--no-stats"), o("live-check", "fail_on", "--fail-on", &["none", "information", "improvement", "violation"]),
            o("live-check", "output", "-o", &["out0", "out1/x"]), o("live-check", "advice_policies", "--advice-policies", &["../../res/a0", "../../res/a1"]), o("live-check", "advice_preprocessor", "--advice-preprocessor", &["../../res/a0/x.jq", "../../res/a1/x.jq"])]),
        "update-markdown" => v.extend([o("update-markdown", "markdown_dir", "", &["../../md0", "../../md1"]), b("update-markdown", "dry_run", "--dry-run"), o("update-markdown", "attribute_registry_base_url", "--attribute-registry-base-url", &["/base/0", "https://b.c/1"]), o("update-markdown", "templates", "-t", &["../../res/t0", "../../res/t1"]), o("update-markdown", "target", "--target", &["g0", "g1"])]),
        _ => {}
    }
    v
}
/// The value must be given: the default needs the network or is an error.
fn required(op: &Opt) -> bool { matches!((op.sec, op.key), ("registry", "path") | ("generate", "templates") | ("generate", "target") | ("package", "resolved_registry_uri") | ("live-check", "input_source") | ("update-markdown", "markdown_dir" | "templates" | "target")) }

fn resources(t: &mut Tape, s: &Scratch) {
    let res = s.sub("res");
    let w = |p: &str, txt: &str| { let p = res.join(p); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, txt).unwrap(); };
    for i in 0..2 {
        write_yaml(&s.sub(&format!("res/dep{i}")).join("d.yaml"), &json!({"groups": [
            {"id": "registry.dep", "type": "attribute_group", "brief": format!("dep {i}"), "attributes": [{"id": "dep.attr", "type": "int", "brief": format!("from dep{i}"), "stability": "stable"}]},
            {"id": "event.dep.ev", "type": "event", "name": "dep.ev", "brief": format!("unreferenced of {i}"), "stability": "stable", "attributes": [{"ref": "dep.attr"}]}]}));
        manifest(&res.join(format!("dep{i}")), "https://dep.com/d/1.0.0", &[]);
        let d = s.sub(&format!("res/r{i}"));
        if i == 0 {
            let mut reg = gen_registry(t, RegOpts { max_groups: 3, ..Default::default() });
            reg.groups.push(obj(json!({"id": "event.own", "type": "event", "name": "own", "brief": "o", "stability": "stable", "attributes": [{"ref": "dep.attr"}]})));
            if t.bool() { reg.groups.push(obj(json!({"id": "event.warn", "type": "event", "name": "warn", "brief": "o"}))); }
            let lay = layout(t, &reg); write_layout(&d, &lay);
        } else {
            let r = gen2(t, Opts2 { max_attrs: 4, max_sig: 1, groups: 1, refinements: 1, ..Default::default() });
            let _ = write2(t, &d, &r);
            write_yaml(&d.join("own.yaml"), &json!({"file_format": "definition/2", "events": [{"name": "own", "brief": "o", "stability": "stable", "requirement_level": "recommended", "attributes": [{"ref": "dep.attr"}]}]}));
        }
        // reached only through a symbolic link
        let e = s.sub(&format!("res/ext{i}"));
        write_yaml(&e.join("linked.yaml"), &if i == 0 { json!({"groups": [{"id": "event.linked", "type": "event", "name": "linked", "brief": "l", "stability": "stable", "attributes": [{"ref": "dep.attr"}]}]}) } else { json!({"file_format": "definition/2", "events": [{"name": "linked", "brief": "l", "stability": "stable", "requirement_level": "recommended"}]}) });
        let _ = std::os::unix::fs::symlink(&e, d.join("link"));
        dep_path(s, i, &res.join("dep0"));
        // findings are warnings and errors
        w(&format!("p{i}/x.rego"), &format!("package after_resolution\nimport rego.v1\ndeny contains f if {{\n\tf := {{\"id\": \"pol{i}\", \"level\": \"violation\", \"message\": \"policy {i}\", \"context\": {{}}}}\n}}\n"));
        for m in ["errors", "stats", "diff", "live_check"] { w(&format!("t{i}/mine/{m}.txt.j2"), &format!("templates {i} for {m}: {{{{ ctx | tojson | length }}}}\n")); }
        w(&format!("t{i}/mine/weaver.yaml"), "templates:\n  - template: \"*.txt.j2\"\n    filter: .\n    application_mode: single\n");
        for g in 0..2 {
            let reg = if i == 0 { "registry/" } else { "" }; // with or without the registry folder
            w(&format!("t{i}/{reg}g{g}/x.txt.j2"), &format!("t{i} g{g} {{{{ 'ui http sdk' | acronym }}}} {{{{ 'api' | map_text('m') }}}} {{{{ 'api' | map_text('n') }}}}\n{{{{ ctx | tojson }}}}\n"));
            w(&format!("t{i}/{reg}g{g}/snippet.md.j2"), &format!("t{i} g{g} {{{{ 'http' | acronym }}}} {{{{ 'api' | map_text('m') }}}} {{{{ attribute_registry_base_url }}}} {{{{ group.id }}}}{{{{ id }}}}\n"));
        }
        w(&format!("in{i}"), if t.bool() { "dep.attr=1\nno.such=2\nBad\n" } else { "[{\"attribute\": {\"name\": \"dep.attr\", \"value\": \"x\"}}, {\"metric\": {\"name\": \"m\", \"instrument\": \"counter\", \"unit\": \"1\", \"data_points\": []}}, {\"resource\": {\"attributes\": [{\"name\": \"dep.attr\", \"value\": 1}]}}]" });
        w(&format!("a{i}/a.rego"), &format!("package live_check_advice\nimport rego.v1\ndeny contains f if {{\n\tinput.sample.attribute\n\tf := {{\"id\": \"adv{i}\", \"level\": \"improvement\", \"message\": sprintf(\"advice {i} %v\", [data.x]), \"context\": {{}}}}\n}}\n"));
        w(&format!("a{i}/x.jq"), &format!("{{x: {i}, attributes_set: {{}}, deprecated_attributes_set: {{}}, templates_set: {{}}, namespaces_to_check_set: {{}}}}"));
    }
    let base = s.sub("res/base");
    write_yaml(&base.join("b.yaml"), &json!({"groups": [{"id": "registry.dep", "type": "attribute_group", "brief": "b", "attributes": [{"id": "base.attr", "type": "int", "brief": "old", "stability": "stable"}]}]}));
}
fn dep_path(s: &Scratch, i: usize, dep: &Path) { manifest(&s.path().join(format!("res/r{i}")), &format!("https://ex.com/reg{i}/1.1.0"), &[("https://dep.com/d/1.0.0", Some(dep.to_string_lossy().into_owned()))]); }
/// weaver.yaml of the generation targets
fn target_config(s: &Scratch, acronyms: &[&str], m: &BTreeMap<String, BTreeMap<String, String>>) {
    for i in 0..2 { for g in 0..2 {
        let reg = if i == 0 { "registry/" } else { "" };
        let y = json!({"acronyms": acronyms, "text_maps": m, "templates": [{"template": "x.txt.j2", "filter": ".", "application_mode": "single", "file_name": format!("x{i}{g}.txt")}]});
        write_yaml(&s.path().join(format!("res/t{i}/{reg}g{g}/weaver.yaml")), &y);
    } }
}
fn markdown(s: &Scratch) {
    for i in 0..2 {
        let d = s.path().join(format!("md{i}")); let _ = std::fs::remove_dir_all(&d); std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("a.md"), format!("# Doc {i}\n<!-- semconv event.own -->\nold\n<!-- endsemconv -->\nend\n<!-- weaver .registry.events[]? | select(.name==\"own\") -->\nold\n<!-- endweaver -->\n")).unwrap();
    }
}
fn toml_file(sets: &[(String, String, Value)]) -> String {
    let mut secs: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    for (s, k, v) in sets { secs.entry(s).or_default().push(format!("{k} = {v}")); }
    secs.iter().map(|(s, l)| format!("[{s}]\n{}\n", l.join("\n"))).collect()
}
fn flags(op: &Opt, v: &Value, pos: &mut BTreeMap<u8, String>, out: &mut Vec<String>, bare: bool) {
    match (op.flag, v) {
        ("", v) => { let _ = pos.insert(0, v.as_str().unwrap().to_owned()); }
        ("2", v) => { let _ = pos.insert(1, v.as_str().unwrap().to_owned()); }
        // a bare flag of this option would swallow a following positional argument
        (f, Value::Bool(x)) => if f == "--diagnostic-stdout" || f == "--no-stream" || f == "--no-stats" { if bare && *x { out.push(f.into()); } else { out.extend([f.to_owned(), x.to_string()]); } } else if bare && *x { out.push(f.into()) } else { out.push(format!("{f}={x}")) },
        (f, Value::Array(a)) => for x in a { out.extend([f.to_owned(), x.as_str().unwrap().to_owned()]); },
        (f, v) => out.extend([f.to_owned(), v.as_str().unwrap().to_owned()]),
    }
}
struct Obs { code: Option<i32>, out: String, err: String, files: BTreeMap<String, String>, raw: Out }
fn observe(args: &[String], s: &Scratch, cwd: &Path, stdin: &str) -> Obs {
    markdown(s);
    let r = run(args, cwd, Some(stdin));
    let mut files = BTreeMap::new();
    for d in ["out0", "out1", "output"] { for (k, v) in tree(&cwd.join(d)) { let _ = files.insert(format!("{d}/{k}"), words(&v)); } let _ = std::fs::remove_dir_all(cwd.join(d)); }
    for d in ["md0", "md1"] { for (k, v) in tree(&s.path().join(d)) { let _ = files.insert(format!("{d}/{k}"), v); } }
    Obs { code: r.code, out: words(&r.stdout), err: words(&r.stderr), files, raw: r }
}
fn layers(t: &mut Tape, c: &mut Case) -> CaseResult {
    let s = Scratch::new();
    resources(t, &s);
    let cwd = s.sub("w/x");
    let cmd = *t.pick(&COMMANDS);
    c.label(cmd.to_string());
    let opts = options(cmd);
    // ---- choose the values
    let mut cfg: Vec<(String, String, Value)> = vec![]; let mut decoy: Vec<(String, String, Value)> = vec![];
    let mut cli: Vec<(usize, Value)> = vec![]; let mut eff: Vec<(usize, Value)> = vec![];
    for (i, op) in opts.iter().enumerate() {
        let k = if required(op) { 1 + t.below(3) } else { t.below(5) };
        let a = t.pick(&op.vals).clone();
        let mut e = None;
        if matches!(k, 1 | 3) { cfg.push((op.sec.into(), op.key.into(), a.clone())); e = Some(a.clone()); c.nontrivial(true); }
        if matches!(k, 2 | 3) {
            let mut v = t.pick(&op.vals).clone();
            if v == json!([]) { v = op.vals[0].clone(); } // not expressible
            if k == 3 && v != a { c.label(format!("override/{}.{}", op.sec, op.key)); }
            cli.push((i, v.clone())); e = Some(v);
        } else if k == 1 { c.label(format!("config/{}.{}", op.sec, op.key)); }
        if let Some(e) = e { eff.push((i, e)); }
        if t.bool() { decoy.push((op.sec.into(), op.key.into(), t.pick(&op.vals).clone())); }
    }
    if t.bool() { for (sec, key) in [("stats", "format"), ("diff", "output"), ("generate", "output"), ("package", "output")] { if sec != cmd { cfg.push((sec.into(), key.into(), json!("elsewhere"))); } } }
    // ---- options without a flag
    let ovr = t.bool();
    let map = |m: &[(&str, &str, &str)]| { let mut o: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new(); for (n, k, v) in m { let _ = o.entry((*n).into()).or_default().insert((*k).into(), (*v).into()); } o };
    let (own_acr, own_map) = (vec!["Http", "SDK"], map(&[("m", "api", "own-m"), ("n", "api", "own-n")]));
    let acr = t.opt(1, 2, |t| t.subset(&["UI", "hTTP", "Sdk"], 1, 2));
    let tm = t.opt(1, 2, |t| { let v = t.subset(&[("m", "api", "cfg-m"), ("n", "other", "cfg-n"), ("q", "api", "cfg-q")], 1, 2); map(&v) });
    let mut extra = String::new();
    if ovr { extra.push_str(&format!("[{}]\n\"https://dep.com/d/1.0.0\" = {}\n", t.pick(&["resolve.schema_url_overrides", "resolution.schema_url_overrides", "resolve.overrides", "resolve.dependency_overrides"]), json!(s.path().join("res/dep1").to_string_lossy()))); }
    if let Some(a) = &acr { extra.push_str(&format!("[template]\nacronyms = {}\n", json!(a))); }
    if let Some(m) = &tm { for (n, kv) in m { extra.push_str(&format!("[template.text_maps.{n}]\n")); for (k, v) in kv { extra.push_str(&format!("{k} = {}\n", json!(v))); } } }
    target_config(&s, &own_acr, &own_map);
    // ---- place the files
    let text = toml_file(&cfg) + &extra;
    let dtext = toml_file(&decoy) + "[template]\nacronyms = [\"DECOY\", \"hTtp\"]\n";
    let place = t.below(4);
    let dirs = [cwd.clone(), s.path().join("w"), s.path().to_path_buf()];
    let mut head: Vec<String> = vec!["--quiet".into()];
    if place == 3 {
        std::fs::write(s.path().join("res/c.toml"), &text).unwrap();
        head.extend(["--config".into(), "../../res/c.toml".into()]);
        std::fs::write(t.pick(&dirs).join(".weaver.toml"), &dtext).unwrap();
    } else {
        std::fs::write(dirs[place as usize].join(".weaver.toml"), &text).unwrap();
        if place < 2 && t.bool() { std::fs::write(dirs[place as usize + 1].join(".weaver.toml"), if t.chance(1, 4) { "not = [toml" } else { &dtext }).unwrap(); }
        if place > 0 && t.chance(1, 4) { std::fs::create_dir(cwd.join(".weaver.toml")).unwrap(); }
    }
    c.label(format!("place/{place}"));
    let stdin = if t.bool() { "dep.attr=1\nx\n" } else { "[{\"attribute\": {\"name\": \"x.y\", \"value\": 1}}, {\"attribute\": {\"name\": \"dep.attr\", \"value\": 1}}]" };
    // ---- run with the configuration
    let tail: Vec<String> = if cmd == "diff" { vec!["--baseline-registry".into(), "../../res/base".into()] } else { vec![] };
    let build = |head: &[String], vals: &[(usize, Value)], bare: bool| {
        let mut a: Vec<String> = head.to_vec(); a.extend(["registry".into(), cmd.into()]);
        let mut pos = BTreeMap::new(); let mut fl = vec![];
        for (i, v) in vals { if cmd == "resolve" && opts[*i].sec == "resolve" { continue; } flags(&opts[*i], v, &mut pos, &mut fl, bare); }
        a.extend(fl); a.extend(tail.clone());
        if !pos.is_empty() { a.push("--".into()); a.extend(pos.into_values()); }
        a
    };
    // an output given only on the command line needs the target there, too
    let mut cli = cli;
    let ti = opts.iter().position(|o| o.flag.is_empty()); let oi = opts.iter().position(|o| o.flag == "2");
    if let (Some(ti), Some(oi)) = (ti, oi) {
        let fill = |v: &mut Vec<(usize, Value)>, eff: &[(usize, Value)]| if v.iter().any(|x| x.0 == oi) && !v.iter().any(|x| x.0 == ti) { if let Some(e) = eff.iter().find(|x| x.0 == ti) { v.push(e.clone()); } };
        fill(&mut cli, &eff);
    }
    let mut args = build(&head, &cli, t.bool());
    // explicit template configuration files: later ones replace the keys of earlier ones, the target's own is unused
    let (mut own_acr, mut own_map) = (own_acr, own_map); let mut names = "x";
    if cmd == "generate" && t.chance(1, 3) {
        c.label("-c");
        target_config(&s, &["DECOY"], &map(&[("m", "api", "decoy"), ("n", "api", "decoy")]));
        let tpl = |n: &str| json!([{"template": "x.txt.j2", "filter": ".", "application_mode": "single", "file_name": format!("{n}.txt")}]);
        let acr2 = t.opt(1, 2, |_| vec!["HTTP", "Ui"]); let map2 = t.opt(1, 2, |t| map(*t.pick(&[&[("m", "api", "second")][..], &[("n", "api", "2nd"), ("q", "x", "y")]]))); let tpl2 = t.bool();
        write_yaml(&s.path().join("res/c1.yaml"), &json!({"acronyms": own_acr, "text_maps": own_map, "templates": tpl("c1")}));
        let mut y = json!({}); if let Some(a) = &acr2 { y["acronyms"] = json!(a); } if let Some(m) = &map2 { y["text_maps"] = json!(m); } if tpl2 { y["templates"] = tpl("c2"); }
        write_yaml(&s.path().join("res/c2.yaml"), &y);
        if let Some(a) = acr2 { own_acr = a; } if let Some(m) = map2 { own_map = m; } names = if tpl2 { "c2" } else { "c1" };
        let at = args.iter().position(|x| x == "generate").unwrap() + 1;
        args.splice(at..at, ["-c", "../../res/c1.yaml", "-c", "../../res/c2.yaml"].map(String::from));
    }
    let a = observe(&args, &s, &cwd, stdin);
    // ---- run with everything on the command line
    std::fs::write(s.path().join("res/empty.toml"), "").unwrap();
    if ovr { for i in 0..2 { dep_path(&s, i, &s.path().join("res/dep1")); } }
    let mut acrs: Vec<&str> = own_acr.clone();
    for x in acr.iter().flatten() { acrs.retain(|y| y.to_lowercase() != x.to_lowercase()); acrs.push(x); }
    let mut maps = own_map.clone();
    for (n, kv) in tm.iter().flatten() { let _ = maps.insert(n.clone(), kv.clone()); }
    target_config(&s, &acrs, &maps);
    if names != "x" { for i in 0..2 { for g in 0..2 {
        let reg = if i == 0 { "registry/" } else { "" };
        write_yaml(&s.path().join(format!("res/t{i}/{reg}g{g}/weaver.yaml")), &json!({"acronyms": acrs, "text_maps": maps, "templates": [{"template": "x.txt.j2", "filter": ".", "application_mode": "single", "file_name": format!("{names}.txt")}]}));
    } } }
    let args2 = build(&["--quiet".into(), "--config".into(), "../../res/empty.toml".into()], &eff, false);
    let b = observe(&args2, &s, &cwd, stdin);
    c.desc(json!({"cmd": args, "config": text, "place": place, "equivalent": args2}).to_string());
    c.label(format!("exit/{:?}", a.code));
    if ovr { c.label("dependency override"); }
    let ctx = || format!("config (place {place}):\n{text}\nwith it: weaver {}\n{}\nequivalent: weaver {}\n{}", args.join(" "), a.raw.show(), args2.join(" "), b.raw.show());
    ensure!(a.code.is_some() && a.code != Some(101) && b.code != Some(101), "crash", "{}", ctx());
    ensure!(a.code != Some(2), "harness/usage", "{}", ctx());
    ensure!(a.code == b.code, format!("{cmd}/exit"), "{}", ctx());
    ensure!(a.files == b.files, format!("{cmd}/files"), "{:?}\n!=\n{:?}\n{}", a.files.keys(), b.files.keys(), ctx());
    ensure!(a.out == b.out, format!("{cmd}/stdout"), "{}", ctx());
    ensure!(a.err == b.err, format!("{cmd}/stderr"), "{}", ctx());
    // ---- what the effective values themselves imply
    let get = |sec: &str, key: &str| eff.iter().find(|(i, _)| opts[*i].sec == sec && opts[*i].key == key).map(|(_, v)| v.clone());
    if cmd != "resolve" && a.code == Some(0) {
        if let Some(Value::String(d)) = get(cmd, "output") { ensure!(a.files.keys().any(|k| k.starts_with(&d)) , format!("{cmd}/output"), "nothing below {d}\n{}", ctx()); ensure!(!a.files.keys().any(|k| k.starts_with("out") && !k.starts_with(&d)), format!("{cmd}/output"), "something outside {d}\n{}", ctx()); }
    }
    if cmd == "check" && get("policy", "skip") != Some(json!(true)) && !a.raw.stderr.contains("Error") && get("diagnostics", "format") == Some(json!("json")) {
        for p in ["0", "1"] {
            let on = get("policy", "paths").is_some_and(|v| v.as_array().unwrap().iter().any(|x| x.as_str().unwrap().ends_with(&format!("p{p}"))));
            if a.raw.stderr.contains("fatal") { continue; }
            let seen = format!("{}{}", a.raw.stdout, a.raw.stderr).contains(&format!("policy {p}"));
            ensure!(on || !seen, "check/policies", "{}", ctx());
            if on { ensure!(a.code == Some(1), "check/policies", "{}", ctx()); }
        }
    }
    Ok(())
}
/// Which file is used, and what a broken one means.
fn files(t: &mut Tape, c: &mut Case) -> CaseResult {
    let s = Scratch::new();
    for i in 0..6 { write_yaml(&s.sub(&format!("r{i}")).join("a.yaml"), &json!({"groups": (0..=i).map(|k| json!({"id": format!("registry.g{k}"), "type": "attribute_group", "brief": "b", "attributes": [{"id": format!("a.b{k}"), "type": "int", "brief": "b", "stability": "stable"}]})).collect::<Vec<_>>()})); }
    let dirs = ["a", "a/b", "a/b/c", "a/b/c/d"];
    let _ = s.sub("a/b/c/d");
    // 0 nothing, 1 valid, 2 broken, 3 a folder of that name, 4 similar name, 5 without the key
    let kinds: Vec<u64> = (0..4).map(|_| if t.bool() { 0 } else { 1 + t.below(5) }).collect();
    for (i, k) in kinds.iter().enumerate() {
        let d = s.path().join(dirs[i]);
        let ok = format!("# comment\n[registry]\npath = {}\n[stats]\nformat = \"json\"\n", json!(s.path().join(format!("r{i}")).to_string_lossy()));
        match k {
            1 => std::fs::write(d.join(".weaver.toml"), ok).unwrap(),
            2 => std::fs::write(d.join(".weaver.toml"), *t.pick(&["[registry\n", "registry = 3\n", "[registry]\nv2 = \"maybe\"\n", "[policy]\npaths = \"x\"\n", "[[auth]]\n"])).unwrap(),
            3 => std::fs::create_dir(d.join(".weaver.toml")).unwrap(),
            4 => { std::fs::write(d.join("weaver.toml"), &ok).unwrap(); std::fs::write(d.join(".weaver.toml.bak"), &ok).unwrap(); std::fs::write(d.join(".weaver.yaml"), "x: 1").unwrap(); }
            5 => std::fs::write(d.join(".weaver.toml"), "[unknown]\nx = 1\n[stats]\nformat = \"json\"\n").unwrap(),
            _ => {}
        }
    }
    let ci = t.below(4) as usize;
    let explicit = t.below(6); // 0 valid, 1 broken, 2 missing, else none
    let mut args: Vec<String> = vec!["--quiet".into()];
    let xt = s.path().join("x.toml");
    match explicit {
        0 => std::fs::write(&xt, format!("[registry]\npath = {}\n[stats]\nformat = \"json\"\n", json!(s.path().join("r4").to_string_lossy()))).unwrap(),
        1 => std::fs::write(&xt, "x = = 1").unwrap(),
        _ => {}
    }
    let mut conf = vec![]; if explicit < 3 { conf = vec!["--config".to_owned(), xt.to_string_lossy().into_owned()]; }
    let global_first = t.bool();
    if global_first { args.extend(conf.clone()); }
    args.extend(["registry".into(), "stats".into()]);
    let cli_reg = t.bool();
    // expectation
    let found = (0..=ci).rev().find(|i| matches!(kinds[*i], 1 | 2 | 5));
    #[derive(PartialEq, Debug)] enum X { Err, Reg(usize, bool), None }
    let x = match explicit { 0 => X::Reg(4, true), 1 | 2 => X::Err, _ => match found { Some(i) if kinds[i] == 1 => X::Reg(i, true), Some(i) if kinds[i] == 2 => X::Err, Some(_) => if cli_reg { X::Reg(5, true) } else { X::None }, None => if cli_reg { X::Reg(5, false) } else { X::None } } };
    let x = match x { X::Reg(_, j) if cli_reg => X::Reg(5, j), x => x };
    if cli_reg { args.extend(["-r".into(), s.path().join("r5").to_string_lossy().into_owned()]); }
    if !global_first { args.extend(conf); }
    c.desc(json!({"kinds": kinds, "cwd": dirs[ci], "explicit": explicit, "args": args}).to_string());
    if x == X::None { c.skip(); return Ok(()); } // would use the default registry
    c.nontrivial(true);
    let r = run(&args, &s.path().join(dirs[ci]), None);
    let ctx = || format!("kinds {kinds:?} (0 none 1 valid 2 broken 3 folder 4 similar 5 other) in {dirs:?}, cwd {}, --config {explicit} (0 valid 1 broken 2 missing), expected {x:?}\nweaver {}\n{}", dirs[ci], args.join(" "), r.show());
    match x {
        X::Err => { ensure!(r.code == Some(1) && r.stdout.trim().is_empty() && r.stderr.contains("config"), "broken config accepted", "{}", ctx()); c.label("broken"); }
        X::Reg(i, js) => {
            ensure!(r.code == Some(0), "exit", "{}", ctx());
            if js { let v: Value = serde_json::from_str(&r.stdout).unwrap_or(Value::Null); ensure!(v["registry_stats"][0]["group_count"] == json!(i + 1) || v["registry_stats"]["group_count"] == json!(i + 1) || v["catalog_stats"]["attribute_count"] == json!(i + 1), "wrong file", "{}", ctx()); }
            else { ensure!(serde_json::from_str::<Value>(&r.stdout).is_err(), "wrong file", "{}", ctx()); }
            c.label("used");
        }
        X::None => {}
    }
    Ok(())
}
