//! C05: the commands report every diagnostic, exit accordingly, and write what the library computed.
use crate::cli::*;
use crate::engine::*;
use crate::ensure;
use crate::props::c02::first_diff;
use crate::props::c04::plant;
use crate::reg::*;
use crate::reg2::*;
use crate::tape::Tape;
use serde_json::{json, Value};
use std::path::Path;

pub fn prop() -> Prop {
    Prop { id: "C05", rule: "a generated registry (v1 with 0-2 planted mistakes, v2 definitions, or a published package; with or without manifest) and a command line (check, check against a baseline, resolve, generate, stats, diff, package; --v2, --future, diagnostic format, stdout/stderr, output to file) run through the weaver binary; exit status, reported diagnostics, outputs and the absence of outputs are compared with what the library computes for the same registry. Non-trivial: some diagnostic or some output was compared.",
        assumptions: &["order of diagnostics and of lists inside messages is not compared", "after a fatal error only that error must be reported"],
        suites: vec![Suite { name: "commands", quick: 2600, thorough: 60_000, parallel: true, run: commands, shrink: 120 }] }
}
pub struct Src { pub path: String, pub desc: Value, pub mistakes: usize, pub v2: bool }
/// Writes a registry of some kind below `dir`.
pub fn source(t: &mut Tape, dir: &Path, allow_bad: bool) -> Src {
    let _ = std::fs::create_dir_all(dir);
    match t.below(5) {
        0..=2 => {
            let mut reg = gen_registry(t, RegOpts { max_groups: 6, ..Default::default() });
            let mut kinds: Vec<&str> = vec![];
            if allow_bad && t.chance(1, 2) {
                for j in 0..t.size(1, 2) { let mut r2 = reg.clone(); if let Some(p) = plant(t, &mut r2, j > 0) { if !kinds.contains(&p.kind) { kinds.push(p.kind); reg = r2; } } }
            }
            let lay = layout(t, &reg);
            write_layout(dir, &lay);
            let man = write_manifest(t, dir);
            Src { path: dir.to_string_lossy().into_owned(), desc: json!({"v1": lay.files, "mistakes": kinds, "manifest": man}), mistakes: kinds.len(), v2: false }
        }
        _ => {
            let r = gen2(t, Opts2::default());
            let files = write2(t, dir, &r);
            let man = write_manifest(t, dir);
            let mut bad = 0;
            if allow_bad && t.chance(1, 4) { bad = 1; write_yaml(&dir.join("bad.yaml"), &json!({"file_format": "definition/2", "events": [{"name": "ev.bad", "brief": "b", "stability": "stable", "requirement_level": "recommended", "attributes": [{"ref": "no.such"}]}]})); }
            Src { path: dir.to_string_lossy().into_owned(), desc: json!({"v2": files, "mistakes": bad, "manifest": man}), mistakes: bad, v2: true }
        }
    }
}
fn write_manifest(t: &mut Tape, dir: &Path) -> u64 {
    let k = t.below(4);
    match k {
        0 => {}
        1 | 2 => manifest(dir, &format!("https://ex.com/reg/1.{}.0", t.below(4)), &[]),
        _ => write_yaml(&dir.join("registry_manifest.yaml"), &json!({"name": "reg", "semconv_version": "1.2.0", "schema_base_url": "https://ex.com/reg"})),
    }
    k
}
fn sorted(v: &[Diag]) -> Vec<Diag> { let mut v = v.to_vec(); v.sort(); v }
pub fn sort_changes(v: &mut Value) {
    match v {
        Value::Object(m) => { for (_, x) in m.iter_mut() { sort_changes(x); } }
        Value::Array(a) => { a.iter_mut().for_each(sort_changes); a.sort_by_key(|x| x.to_string()); }
        _ => {}
    }
}
fn commands(t: &mut Tape, c: &mut Case) -> CaseResult {
    let s = Scratch::new();
    let d = s.path().join("main");
    let a = source(t, &d, true);
    let cmd = *t.pick(&["check", "check-baseline", "resolve", "generate", "stats", "diff", "package"]);
    let v2 = if cmd == "package" { !t.chance(1, 8) } else { t.bool() };
    let future = t.chance(1, 5);
    let base = if matches!(cmd, "diff" | "check-baseline") { Some(source(t, &s.path().join("base"), false)) } else { None };
    let ro = ROpts { v2, ..Default::default() };
    let mut args: Vec<String> = vec!["--quiet".into()];
    if future { args.push("--future".into()); }
    args.extend(["registry".into(), cmd.split('-').next().unwrap().into(), "-r".into(), a.path.clone()]);
    if v2 { args.push("--v2".into()); }
    let to_file = t.bool();
    let fmt = *t.pick(&["json", "yaml"]);
    let out = s.path().join("out/dir");
    let dstdout = t.chance(1, 4);
    let dfmt = *t.pick(&["json", "json", "json", "json", "ansi", "gh_workflow_command"]);
    args.extend(["--diagnostic-format".into(), dfmt.into()]);
    if dstdout { args.push("--diagnostic-stdout".into()); }
    let outs = out.to_string_lossy().into_owned();
    match cmd {
        "resolve" => { args.extend(["-f".into(), fmt.into()]); if to_file { args.extend(["-o".into(), format!("{outs}/r.txt")]); } }
        "stats" => { args.extend(["--format".into(), fmt.into()]); if to_file { args.extend(["-o".into(), outs.clone()]); } }
        "diff" => { args.extend(["--format".into(), fmt.into(), "--baseline-registry".into(), base.as_ref().unwrap().path.clone()]); if to_file { args.extend(["-o".into(), outs.clone()]); } }
        "check-baseline" => args.extend(["--baseline-registry".into(), base.as_ref().unwrap().path.clone()]),
        "package" => args.extend(["--resolved-registry-uri".into(), "resolved.yaml".into(), "-o".into(), outs.clone()]),
        "generate" => {
            let td = s.sub("tpl/registry/tgt");
            std::fs::write(td.join("x.j2"), "{{ ctx | tojson }}").unwrap();
            std::fs::write(td.join("weaver.yaml"), "templates:\n  - pattern: x.j2\n    filter: .\n    application_mode: single\n    file_name: x.json\n").unwrap();
            args.extend(["-t".into(), s.path().join("tpl").to_string_lossy().into_owned(), "tgt".into(), outs.clone()]);
        }
        _ => {}
    }
    c.desc(json!({"args": args[1..].iter().map(|x| x.replace(&*s.path().to_string_lossy(), "S")).collect::<Vec<_>>(), "main": a.desc, "base": base.as_ref().map(|b| b.desc.clone())}).to_string());
    c.label(format!("cmd/{cmd}{}", if v2 { "/v2" } else { "" }));
    if future { c.label("future"); }
    c.label(format!("diagnostics/{dfmt}"));

    // ---- expectation
    let x = expect(&a.path, ro);
    let bx = base.as_ref().map(|b| expect(&b.path, ro));
    let w = |m: &str| (false, words(m));
    let mut diags: Vec<Diag> = x.diags.clone();
    let mut fatal: Option<Vec<Diag>> = x.fatal.clone().map(|f| vec![f]); // any of these
    // some commands do not show warnings on success
    let mut warn_shown = true;
    let mut outputs = true;
    match cmd {
        "check-baseline" => {
            let bx = bx.as_ref().unwrap();
            if fatal.is_none() {
                if let Some(f) = &bx.fatal { fatal = Some(vec![f.clone()]); }
                else if x.view.as_ref().unwrap().is_v2() != bx.view.as_ref().unwrap().is_v2() { fatal = Some(vec![w("Cannot compare or diff a V1 registry with a V2 registry")]); }
            }
        }
        "diff" => {
            let bx = bx.as_ref().unwrap();
            // manifest warnings are not part of the diff
            if fatal.is_none() {
                if let Some(f) = &bx.fatal { fatal = Some(vec![f.clone()]); }
                else if x.view.as_ref().unwrap().is_v2() != bx.view.as_ref().unwrap().is_v2() { fatal = Some(vec![w("Cannot compare or diff a V1 registry with a V2 registry")]); }
            }
            diags.extend(bx.diags.clone());
            let man: Vec<Diag> = [Some(&a), base.as_ref()].iter().flatten().flat_map(|r| manifest_diags(&r.path)).collect();
            for m in man { if let Some(i) = diags.iter().position(|d| *d == m) { let _ = diags.remove(i); } }
            warn_shown = false;
        }
        "stats" => warn_shown = false,
        "package" => {
            if !v2 { fatal = Some(vec![w("Packaging is only supported for v2 registries. Pass `--v2` to enable v2 schema.")]); }
            else if !d.join("manifest.yaml").exists() && !d.join("registry_manifest.yaml").exists() { fatal = Some(vec![(false, words(&format!("Registry `{}` does not contain a manifest file", a.path)))]); }
        }
        "resolve" if future => { fatal = Some(vec![w("The 'weaver registry resolve' command is deprecated and will be removed in a future version. Please use 'weaver registry generate' or 'weaver registry package' instead.")]); }
        _ => {}
    }
    if future { for d in diags.iter_mut() { d.0 = false; } if let Some(f) = fatal.as_mut() { for d in f.iter_mut() { d.0 = false; } } }
    let has_error = fatal.is_some() || diags.iter().any(|d| !d.0);
    if fatal.is_some() || (has_error && matches!(cmd, "stats" | "diff" | "package")) { outputs = false; }
    let shown = if fatal.is_some() { vec![] } else if warn_shown || has_error { diags.clone() } else { vec![] };
    let want_code = i32::from(has_error);

    // ---- observation
    let o = run(&args, s.path(), None);
    let ctx = || format!("weaver {}\n{}\nexpected exit {want_code}, fatal {fatal:?}, diagnostics {shown:?}\n{}", args.join(" "), a.desc, o.show());
    ensure!(o.code.is_some() && o.code != Some(101) && !o.stderr.contains("panicked"), "crash", "{}", ctx());
    ensure!(o.code == Some(want_code), format!("exit/{cmd}"), "{}", ctx());
    let (dtext, otext) = if dstdout { (o.stdout.clone(), o.stdout.clone()) } else { (o.stderr.clone(), o.stdout.clone()) };
    let any = fatal.is_some() || !shown.is_empty();
    let mut otext = otext;
    if dfmt == "json" {
        // with both on stdout the output comes first
        let dtext = if dstdout && outputs && !to_file && matches!(cmd, "resolve" | "stats" | "diff") && any { let k = dtext.find("\n[\n").map(|i| i + 1).unwrap_or(if dtext.starts_with("[\n") { 0 } else { dtext.len() }); otext = dtext[..k].to_owned(); dtext[k..].to_owned() } else if dstdout && !any { String::new() } else { dtext };
        match parse_diags(&dtext) {
            Err(e) => return fail("diagnostics/unparsable", format!("{e}\n{}", ctx())),
            Ok(v) => {
                let got: Vec<Diag> = v.iter().map(diag_of).collect();
                if let Some(f) = &fatal {
                    // several mistakes may each be fatal; which one is met first is not specified
                    let multi = a.mistakes > 1 || base.as_ref().is_some_and(|b| b.mistakes > 0);
                    ensure!(!got.is_empty() && got.iter().any(|g| !g.0), "fatal/not reported", "{}", ctx());
                    if !multi { ensure!(f.iter().any(|f| got.contains(f)), "fatal/other message", "{}", ctx()); c.nontrivial(true); }
                    c.label("fatal");
                } else {
                    ensure!(sorted(&got) == sorted(&shown), format!("diagnostics/{cmd}"), "got {:?}\n{}", sorted(&got), ctx());
                    if !shown.is_empty() { c.nontrivial(true); c.label(if has_error { "errors" } else { "warnings" }); }
                }
                ensure!(v.iter().all(|m| m["error"].is_object() || m["error"].is_string()), "diagnostics/no error data", "{}", ctx());
            }
        }
    } else {
        let text = words(&strip_ansi(&dtext));
        for d in &shown { let miss: Vec<&str> = d.1.split(' ').filter(|w| w.len() > 3 && w.len() < 30 && !text_has(&strip_ansi(&dtext), w)).collect(); ensure!(miss.is_empty(), format!("diagnostics/text/{dfmt}"), "words {miss:?} of {:?} missing in {text}\n{}", d.1, ctx()); c.nontrivial(true); }
        if fatal.is_some() { ensure!(dtext.split_whitespace().count() > 3, format!("fatal/text/{dfmt}"), "{}", ctx()); }
        if dstdout { return Ok(()); } // both interleave on stdout
    }
    // ---- outputs
    let files = tree(&out);
    if !outputs {
        ensure!(files.is_empty(), "output in spite of errors", "{:?}\n{}", files.keys(), ctx());
        if !dstdout { ensure!(o.stdout.trim().is_empty(), "stdout in spite of errors", "{}", ctx()); }
        return Ok(());
    }
    let parse = |s: &str| -> Result<Value, Violation> { match if fmt == "json" { serde_json::from_str(s).map_err(|e| e.to_string()) } else { yaml_json(s) } { Ok(v) => Ok(v), Err(e) => fail("output/unparsable", format!("{e}: {s}\n{}", ctx())) } };
    let view = x.view.as_ref().unwrap();
    let one = |name: &str, text: &str| -> Result<Value, Violation> {
        if to_file { match files.get(name) { Some(f) if files.len() == 1 => parse(f), _ => fail("output/files", format!("expected only {name}, got {:?}\n{}", files.keys(), ctx())) } } else if !files.is_empty() { fail("output/unexpected files", format!("{:?}\n{}", files.keys(), ctx())) } else { parse(text) }
    };
    match cmd {
        "check" | "check-baseline" => ensure!(files.is_empty() && (dstdout || o.stdout.trim().is_empty()), "check/output", "{:?}\n{}", files.keys(), ctx()),
        "resolve" => { let g = one("r.txt", &otext)?; ensure!(&g == view.template(), "output/resolve", "{}\n{}", first_diff(view.template(), &g), ctx()); c.nontrivial(true); }
        "stats" => { let mut g = one(&format!("stats.{fmt}"), &otext)?; let mut w = view.stats(); sort_changes(&mut g); sort_changes(&mut w); ensure!(num_eq(&g, &w), "output/stats", "{}\n{}", first_diff(&w, &g), ctx()); c.nontrivial(true); }
        "diff" => {
            let mut g = one(&format!("diff.{fmt}"), &otext)?;
            let mut w = match (view, bx.as_ref().unwrap().view.as_ref().unwrap()) {
                (View::V1(h, _), View::V1(b, _)) => serde_json::to_value(h.diff(b)).unwrap(),
                (View::V2(h, _), View::V2(b, _)) => {
                    let ch = h.diff(b);
                    let r = &ch.registry;
                    json!({"changes": {"registry_attributes": r.attribute_changes, "attribute_groups": r.attribute_group_changes, "metrics": r.metric_changes, "events": r.event_changes, "spans": r.span_changes, "resources": r.entity_changes},
                        "head": {"semconv_version": h.schema_url.version()}, "baseline": {"semconv_version": b.schema_url.version()}})
                }
                _ => unreachable!(),
            };
            sort_changes(&mut g); sort_changes(&mut w);
            ensure!(g == w, "output/diff", "{}\n{}", first_diff(&w, &g), ctx()); c.nontrivial(true);
        }
        "generate" => {
            let g = match files.get("x.json") { Some(f) if files.len() == 1 => serde_json::from_str::<Value>(f).unwrap_or(Value::Null), _ => return fail("output/files", format!("{:?}\n{}", files.keys(), ctx())) };
            ensure!(num_eq(&g, view.template()), "output/generate", "{}\n{}", first_diff(view.template(), &g), ctx()); c.nontrivial(true);
        }
        "package" => {
            let names: Vec<&String> = files.keys().collect();
            ensure!(names == ["manifest.yaml", "resolved.yaml"], "package/files", "{names:?}\n{}", ctx());
            let g: Value = serde_yaml::from_str(&files["resolved.yaml"]).unwrap_or(Value::Null);
            let View::V2(sch, tpl) = view else { unreachable!() };
            let w: Value = serde_yaml::from_str(&serde_yaml::to_string(&**sch).unwrap()).unwrap();
            ensure!(g == w, "output/package", "{}\n{}", first_diff(&w, &g), ctx());
            // the written package is a registry that materializes to the same view
            let p = expect(&outs, ROpts { v2: true, ..Default::default() });
            let Some(View::V2(_, t2)) = &p.view else { return fail("package/unusable", format!("{:?} {:?}\n{}", p.fatal, p.diags, ctx())) };
            let (mut t1, mut t2) = (tpl.clone(), t2.clone()); strip_prov(&mut t1); strip_prov(&mut t2);
            ensure!(t1 == t2, "package/other content", "{}\n{}", first_diff(&t1, &t2), ctx()); c.nontrivial(true);
        }
        _ => {}
    }
    Ok(())
}
fn manifest_diags(path: &str) -> Vec<Diag> {
    let Ok(vp) = weaver_common::vdir::VirtualDirectoryPath::try_from(path) else { return vec![] };
    let mut n = vec![]; let _ = weaver_semconv::registry_repo::RegistryRepo::try_new(None, &vp, &mut n);
    n.into_iter().map(diag).collect()
}
pub fn strip_ansi(s: &str) -> String {
    let mut o = String::new(); let mut it = s.chars().peekable();
    while let Some(ch) = it.next() { if ch == '\u{1b}' { for x in it.by_ref() { if x.is_ascii_alphabetic() { break; } } } else { o.push(ch); } }
    o
}
/// The text is wrapped by the report: compare without any white space or box drawing.
fn text_has(t: &str, w: &str) -> bool {
    let f = |s: &str| s.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>();
    f(t).contains(&f(w))
}
/// JSON equality where 1.0 == 1
pub fn num_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x == y || x.as_f64() == y.as_f64(),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| num_eq(a, b)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| num_eq(v, w))),
        _ => a == b,
    }
}
