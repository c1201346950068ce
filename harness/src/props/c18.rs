//! C18: code generation writes exactly the files the configuration describes.
use crate::engine::*;
use crate::ensure;
use crate::forge::config;
use crate::reg::{diff_str, Scratch};
use crate::tape::Tape;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::Path;
use weaver_forge::config::{Params, WeaverConfig};
use weaver_forge::file_loader::FileSystemFileLoader;
use weaver_forge::{OutputProcessor, OutputTarget};

pub fn prop() -> Prop {
    Prop { id: "C18", rule: "generate: random template trees (nested directories, includes, set_file_name), template entries (globs matching several files, JQ filters, single/each, when clauses, params on three levels, file_name templates, three escape modes) and contexts; the written tree must equal a reference evaluation of the same configuration, in thread pools of different sizes; configuration mistakes must be errors. config: random stacks of weaver.yaml files; the merged configuration must equal a reference merge. Non-trivial: at least two files written from an `each` entry or a `when`/param that changes the outcome.",
        assumptions: &["templates use a small subset of Jinja with a reference evaluator; the Jinja and JQ engines themselves are third-party", "entries writing the same file name race by design: only the existence of such a file is checked"],
        suites: vec![
            Suite { name: "generate", quick: 15_000, thorough: 250_000, parallel: true, run: generate, shrink: 500 },
            Suite { name: "config", quick: 30_000, thorough: 500_000, parallel: true, run: layered, shrink: 600 },
            Suite { name: "formats", quick: 3_000, thorough: 50_000, parallel: true, run: formats, shrink: 300 },
        ] }
}
// -------- template contents --------
#[derive(Clone, Debug)]
enum Seg { Lit(&'static str), Path(&'static str), Param(&'static str), Json, Loop, Include(usize), SetName(&'static str), NoEsc(&'static str) }
fn src(s: &[Seg], files: &[&str]) -> String {
    s.iter().map(|x| match x {
        Seg::Lit(l) => (*l).to_owned(), Seg::Path(p) => format!("{{{{ ctx.{p} }}}}"), Seg::Param(p) => format!("{{{{ params.{p} }}}}"), Seg::Json => "{{ ctx | tojson }}".into(),
        Seg::Loop => "{% for i in ctx %}[{{ loop.index }}]{% endfor %}".into(), Seg::Include(i) => format!("{{% include \"{}\" %}}", files[*i]),
        Seg::SetName(p) => format!("{{{{ template.set_file_name(\"set/{p}-\" ~ ctx.id ~ \".out\") }}}}"), Seg::NoEsc(p) => format!("{{% autoescape false %}}{{{{ ctx.{p} }}}}{{% endautoescape %}}"),
    }).collect()
}
fn plain(v: &Value) -> String { match v { Value::String(s) => s.clone(), Value::Null => "none".into(), Value::Bool(b) => b.to_string(), x => x.to_string() } }
fn esc(v: Option<&Value>, mode: &str) -> String {
    let Some(v) = v else { return if mode == "json" { "null".into() } else { String::new() } };
    match (mode, v) {
        ("html", Value::String(s)) => s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;"),
        ("json", v) => v.to_string(),
        _ => plain(v),
    }
}
fn eval(s: &[Seg], all: &[Vec<Seg>], ctx: &Value, params: &Map<String, Value>, mode: &str, name: &mut String) -> String {
    let id = || esc(ctx.get("id"), "none");
    s.iter().map(|x| match x {
        Seg::Lit(l) => (*l).to_owned(), Seg::Path(p) => esc(ctx.get(*p), mode), Seg::Param(p) => esc(params.get(*p), mode),
        Seg::Json => ctx.to_string().replace('<', "\\u003c").replace('&', "\\u0026"),
        Seg::Loop => (0..match ctx { Value::Array(a) => a.len(), Value::Object(o) => o.len(), _ => 0 }).map(|i| format!("[{}]", i + 1)).collect(),
        Seg::Include(i) => eval(&all[*i], all, ctx, params, mode, name),
        Seg::SetName(p) => { *name = format!("set/{p}-{}.out", id()); if mode == "json" { "\"\"".into() } else { String::new() } }
        Seg::NoEsc(p) => esc(ctx.get(*p), "none"),
    }).collect()
}
// -------- JQ menu --------
fn filt(i: u64) -> Option<&'static str> {
    [None, Some("."), Some(".items"), Some(".items[]"), Some(".items | map(select(.n > 1))"), Some(".nul"), Some(".empty"), Some(".obj"), Some(".items[] | select(.n == $p1)"), Some(".items | group_by(.k) | map({id: .[0].k, items: .})"), Some(".items | map(select(.n >= $params.p1))"), Some("empty"), Some("[.obj]")][i as usize]
}
fn apply(i: u64, ctx: &Value, p: &Map<String, Value>) -> Value {
    let items = || ctx["items"].as_array().unwrap().clone();
    let n = |v: &Value| v["n"].as_i64().unwrap(); let p1 = p["p1"].as_i64().unwrap();
    let several = |mut l: Vec<Value>| if l.len() == 1 { l.pop().unwrap() } else { json!(l) };
    match i {
        2 => ctx["items"].clone(), 3 => several(items()), 4 => json!(items().into_iter().filter(|x| n(x) > 1).collect::<Vec<_>>()), 5 => Value::Null, 6 => json!([]), 7 => ctx["obj"].clone(),
        8 => several(items().into_iter().filter(|x| n(x) == p1).collect()),
        9 => { let mut m: BTreeMap<String, Vec<Value>> = BTreeMap::new(); for x in items() { m.entry(x["k"].as_str().unwrap().into()).or_default().push(x); } json!(m.into_iter().map(|(k, v)| json!({"id": k, "items": v})).collect::<Vec<_>>()) }
        10 => json!(items().into_iter().filter(|x| n(x) >= p1).collect::<Vec<_>>()), 11 => json!([]), 12 => json!([ctx["obj"]]),
        _ => ctx.clone(),
    }
}
fn when(i: u64) -> Option<&'static str> { [None, Some("true"), Some("false"), Some(".flag"), Some("$p1 > 1"), Some(".items | length > 1"), Some("$params.p2 == \"top\""), Some(".n"), Some("[true]"), Some("empty")][i as usize] }
fn holds(i: u64, ctx: &Value, p: &Map<String, Value>) -> Option<bool> {
    Some(match i { 0 | 1 => true, 2 => false, 3 => ctx["flag"] == true, 4 => p["p1"].as_i64().unwrap() > 1, 5 => ctx["items"].as_array().unwrap().len() > 1, 6 => p.get("p2") == Some(&json!("top")), _ => return None })
}
fn params(t: &mut Tape, tag: &str) -> Map<String, Value> {
    let mut m = Map::new();
    if t.bool() { let _ = m.insert("p1".into(), json!(t.range(0, 3))); }
    if t.bool() { let _ = m.insert("p2".into(), json!(tag)); }
    if t.chance(1, 3) { let _ = m.insert("p3".into(), json!(format!("{tag}<3"))); }
    m
}
type Tree = BTreeMap<String, String>;
fn read_tree(d: &Path, base: &Path, out: &mut Tree) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    for e in rd.flatten() { let p = e.path(); if p.is_dir() { read_tree(&p, base, out) } else { let _ = out.insert(p.strip_prefix(base).unwrap().to_string_lossy().into_owned(), std::fs::read_to_string(&p).unwrap_or_default()); } }
}
const FILES: [&str; 5] = ["a.txt.j2", "sub/b.md.j2", "sub/deep/c.j2", "macros/d.j2", "readme.md"];
fn globs(t: &mut Tape) -> (&'static str, fn(&str) -> bool) {
    let l: [(&str, fn(&str) -> bool); 7] = [("a.txt.j2", |f| f == "a.txt.j2"), ("sub/b.md.j2", |f| f == "sub/b.md.j2"), ("**/*.j2", |f| f.ends_with(".j2")), ("sub/*", |f| f.starts_with("sub/")), ("*.md.j2", |f| f.ends_with(".md.j2")), ("sub/deep/*.j2", |f| f.starts_with("sub/deep/")), ("{a,x}.txt.j2", |f| f == "a.txt.j2")];
    *t.pick(&l)
}
fn segs(t: &mut Tape, i: usize) -> Vec<Seg> {
    (0..t.size(1, 5)).map(|_| match t.below(10) {
        0 => Seg::Lit("x\n"), 1 => Seg::Lit(" <b> "), 2 => Seg::Path("name"), 3 => Seg::Path("id"), 4 => Seg::Param("p2"), 5 => Seg::Param("p3"), 6 => Seg::Json,
        7 => Seg::Loop, 8 => if i < 3 && t.bool() { Seg::Include(3) } else { Seg::NoEsc("name") },
        _ => if i < 3 && t.chance(1, 2) { Seg::SetName(["a", "b", "c"][i]) } else { Seg::Param("p1") },
    }).chain([Seg::Lit("end")]).collect()
}
fn generate(t: &mut Tape, c: &mut Case) -> CaseResult {
    let contents: Vec<Vec<Seg>> = (0..FILES.len()).map(|i| segs(t, i)).collect();
    let items: Vec<Value> = (0..t.size(0, 5)).map(|i| json!({"id": format!("i{i}"), "name": *t.pick(&["foo", "a<b", "q\"&", "", "Bar"]), "k": *t.pick(&["u", "v", "w"]), "n": t.range(0, 3)})).collect();
    let ctx = json!({"id": "root", "name": "R", "items": items, "n": t.range(0, 9), "flag": t.bool(), "empty": [], "nul": null, "obj": {"id": "ob", "name": "O<"}});
    let mut top = params(t, "top"); let _ = top.entry("p1").or_insert(json!(1));
    let cli = if t.bool() { params(t, "cli") } else { Map::new() };
    let mut entries = vec![]; let mut doc = vec![]; let mut mistakes = vec![];
    for e in 0..t.size(1, 4) {
        let (g, m) = globs(t); let f = t.below(13); let w = if t.chance(1, 2) { 0 } else if t.chance(1, 12) { t.range(7, 9) as u64 } else { t.below(7) };
        let each = t.bool(); let tp = if t.bool() { Some(params(t, "tpl")) } else { None };
        let fname = t.below(5); let mode = *t.pick(&["none", "none", "html", "json"]);
        let mut o = json!({if t.chance(1, 5) { "pattern" } else { "template" }: g, "application_mode": if each { "each" } else { "single" }});
        if let Some(x) = filt(f) { o["filter"] = json!(x); }
        if let Some(x) = when(w) { o["when"] = json!(x); }
        if let Some(p) = &tp { o["params"] = json!(p); }
        if mode != "none" || t.chance(1, 4) { o["auto_escape"] = json!(mode); }
        match fname { 1 => o["file_name"] = json!(format!("e{e}/{{{{ ctx.id }}}}.txt")), 2 => o["file_name"] = json!(format!("e{e}/fixed.txt")), 3 => o["file_name"] = json!(format!("e{e}-{{{{ params.p2 | default('none') }}}}/{{{{ ctx.id | default('u') | pascal_case }}}}/x")), _ => {} }
        if t.chance(1, 40) { o["template"] = json!("nope/*.j2"); let _ = o.as_object_mut().unwrap().remove("pattern"); mistakes.push("no file"); }
        doc.push(o); entries.push((m, f, w, each, tp, fname, mode));
    }
    let cfg = json!({"params": top, "templates": doc});
    // ---- reference ----
    let mut exp: BTreeMap<String, Vec<String>> = BTreeMap::new(); let mut multi = false; let mut skipped = false;
    for (e, (m, f, w, each, tp, fname, mode)) in entries.iter().enumerate() {
        let mut p = top.clone();
        if let Some(x) = tp { p.extend(x.clone()); } p.extend(cli.clone());
        for (i, file) in FILES.iter().enumerate().filter(|(_, f)| m(f)) {
            match holds(*w, &ctx, &p) { None => { mistakes.push("when"); continue; } Some(false) => { skipped = true; continue; } Some(true) => {} }
            let r = apply(*f, &ctx, &p);
            let list: Vec<Value> = if *each { match r { Value::Array(a) => a, x => vec![x] } } else if r.is_null() || r == json!([]) { vec![] } else { vec![r] };
            if *each && list.len() > 1 { multi = true; }
            for v in list {
                // a path below null is an evaluation error
                let mut ctxp = p.clone(); let _ = ctxp.remove("params");
                let mut name = match fname { 1 => format!("e{e}/{}.txt", esc(v.get("id"), mode_name(mode))), 2 => format!("e{e}/fixed.txt"), 3 => format!("e{e}-{}/{}/x", { let d = json!("none"); esc(Some(ctxp.get("p2").unwrap_or(&d)), mode_name(mode)) }, { let s = v.get("id").map(plain).unwrap_or("u".into()); esc(Some(&json!(super::c20::case("pascal_case", &s))), mode_name(mode)) }), _ => Path::new(file).file_name().unwrap().to_string_lossy().trim_end_matches(".j2").to_owned() };
                let body = eval(&contents[i], &contents, &v, &ctxp, mode, &mut name);
                exp.entry(norm_path(&name)).or_default().push(body);
            }
        }
    }
    let s = Scratch::new();
    for (i, f) in FILES.iter().enumerate() { let p = s.path().join("t").join(f); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(&p, src(&contents[i], &FILES)).unwrap(); }
    std::fs::write(s.path().join("t/weaver.yaml"), serde_yaml::to_string(&cfg).unwrap()).unwrap();
    c.desc(json!([cfg, ctx, cli, contents.iter().map(|x| src(x, &FILES)).collect::<Vec<_>>()]).to_string());
    c.nontrivial(multi || skipped);
    let kv: Vec<(&str, serde_yaml::Value)> = cli.iter().map(|(k, v)| (k.as_str(), serde_yaml::to_value(v).unwrap())).collect();
    let run = |dir: &str, threads: usize| -> Result<(), String> {
        let l = FileSystemFileLoader::try_new(s.path().into(), "t").map_err(|e| e.to_string())?;
        let cfg = WeaverConfig::try_from_loader(&l).map_err(|e| e.to_string())?;
        let mut p = OutputProcessor::from_template_config(cfg, l, Params::from_key_value_pairs(&kv), OutputTarget::Directory(s.path().join(dir))).map_err(|e| e.to_string())?;
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        pool.install(|| p.generate(&ctx).map_err(|e| e.to_string()))
    };
    let threads = *t.pick(&[1, 2, 8]);
    let r = run("out", threads);
    if !mistakes.is_empty() { c.label(format!("mistake: {}", mistakes[0])); ensure!(r.is_err(), format!("mistake accepted: {}", mistakes[0]), "{cfg}"); return Ok(()); }
    if let Err(e) = r { return fail("generation failed", format!("{e}\n{cfg}\n{ctx}")); }
    let mut got = Tree::new(); read_tree(&s.path().join("out"), &s.path().join("out"), &mut got);
    if exp.is_empty() { c.label("nothing generated"); }
    if exp.values().any(|v| v.len() > 1) { c.label("file written twice"); }
    for (f, bodies) in &exp {
        let Some(g) = got.get(f) else { return fail("file not generated", format!("{f} missing; got {:?}\n{cfg}\n{ctx}", got.keys())) };
        ensure!(bodies.len() > 1 || bodies.contains(g), "file content differs", "{f}\nexpected {bodies:?}\ngot {g:?}\n{cfg}\n{ctx}");
    }
    for f in got.keys() { ensure!(exp.contains_key(f), "unexpected file generated", "{f}\nexpected {:?}\n{cfg}\n{ctx}", exp.keys()); }
    // generate_to_string concatenates the same contents
    if t.chance(1, 3) {
        let l = FileSystemFileLoader::try_new(s.path().into(), "t").unwrap();
        let p = OutputProcessor::from_template_config(config(&cfg), l, Params::from_key_value_pairs(&kv), OutputTarget::Stdout).unwrap();
        match p.generate_to_string(&ctx) {
            Ok(x) => { let n: usize = exp.values().flatten().map(|b| b.len()).sum(); ensure!(x.len() == n && exp.values().flatten().all(|b| x.contains(b.as_str())), "string output differs from the files", "{x:?}\n{exp:?}\n{cfg}\n{ctx}"); }
            Err(e) => return fail("generation to a string failed", e.to_string()),
        }
    }
    Ok(())
}
fn mode_name(m: &str) -> &str { m }
fn norm_path(p: &str) -> String { p.split('/').filter(|x| !x.is_empty()).collect::<Vec<_>>().join("/") }

// -------- layered configuration --------
fn cfg_layer(t: &mut Tape, i: usize) -> Value {
    let mut o = json!({});
    let v = |t: &mut Tape| format!("L{i}{}", t.below(3));
    if t.chance(1, 3) { let k = t.size(0, 2); o["type_mapping"] = json!((0..k).map(|j| (format!("k{j}"), v(t))).collect::<BTreeMap<_, _>>()); }
    if t.chance(1, 3) { let k = t.size(0, 2); o["text_maps"] = json!((0..k).map(|j| (format!("m{j}"), json!({"a": v(t)}))).collect::<BTreeMap<_, _>>()); }
    if t.chance(1, 2) { let mut x = json!({}); for (a, b) in [("block_start", "<%"), ("block_end", "%>"), ("variable_start", "[["), ("variable_end", "]]"), ("comment_start", "(*"), ("comment_end", "*)")] { if t.chance(1, 2) { x[a] = json!(format!("{b}{i}")); } } o["template_syntax"] = x; }
    if t.chance(1, 2) { let mut x = json!({}); for a in ["trim_blocks", "lstrip_blocks", "keep_trailing_newline"] { if t.chance(1, 2) { x[a] = json!(t.bool()); } } o["whitespace_control"] = x; }
    if t.chance(1, 3) { o["default_comment_format"] = json!(v(t)); }
    if t.chance(1, 3) { o["acronyms"] = json!((0..t.size(0, 3)).map(|_| *t.pick(&["iOS", "API", "URL", "api"])).collect::<Vec<_>>()); }
    if t.chance(2, 3) { let mut x = Map::new(); for k in ["a", "b", "c", "d"] { if t.chance(1, 2) { let _ = x.insert(k.into(), if t.chance(1, 4) { Value::Null } else if t.bool() { json!(v(t)) } else { json!([i, {"x": v(t)}]) }); } } o["params"] = json!(x); }
    if t.chance(1, 3) { o["templates"] = json!((0..t.size(0, 2)).map(|j| json!({"template": format!("t{i}{j}.j2"), "filter": format!(".l{i}"), "application_mode": *t.pick(&["each", "single"]), "auto_escape": "none"})).collect::<Vec<_>>()); }
    if t.chance(1, 4) { o["comment_formats"] = json!({format!("f{i}"): {"format": "markdown", "header": v(t), "trim": t.bool()}}); }
    o
}
fn layered(t: &mut Tape, c: &mut Case) -> CaseResult {
    let n = t.size(1, 4);
    let layers: Vec<Option<Value>> = (0..n).map(|i| if i > 0 && t.chance(1, 5) { None } else { Some(cfg_layer(t, i)) }).collect();
    c.desc(json!(layers).to_string());
    c.nontrivial(layers.iter().flatten().count() > 1);
    let s = Scratch::new(); let mut d = s.path().to_path_buf(); let mut files = vec![];
    for (i, l) in layers.iter().enumerate() { d = d.join(format!("d{i}")); std::fs::create_dir_all(&d).unwrap(); if let Some(l) = l { let f = d.join("weaver.yaml"); std::fs::write(&f, serde_yaml::to_string(l).unwrap()).unwrap(); files.push(f); } }
    let by_path = t.bool();
    let got = if by_path { WeaverConfig::try_from_path(&d) } else { WeaverConfig::try_from_config_files(&files) };
    let got = match got { Ok(g) => serde_json::to_value(&g).unwrap(), Err(e) => return fail("valid configuration rejected", e.to_string()) };
    // reference merge
    let mut e = json!({"template_syntax": {"block_start": "{%", "block_end": "%}", "variable_start": "{{", "variable_end": "}}", "comment_start": "{#", "comment_end": "#}"}, "whitespace_control": {"trim_blocks": null, "lstrip_blocks": null, "keep_trailing_newline": null}});
    let mut params: Option<Map<String, Value>> = None;
    for l in layers.iter().flatten() {
        for k in ["type_mapping", "text_maps", "default_comment_format", "acronyms", "templates", "comment_formats"] { if let Some(v) = l.get(k) { e[k] = v.clone(); } }
        for k in ["template_syntax", "whitespace_control"] { if let Some(m) = l.get(k).and_then(|v| v.as_object()) { for (a, b) in m { e[k][a] = b.clone(); } } }
        if let Some(m) = l.get("params").and_then(|v| v.as_object()) { for (k, v) in m { if v.is_null() { if let Some(p) = params.as_mut() { let _ = p.remove(k); } } else { let _ = params.get_or_insert_default().insert(k.clone(), v.clone()); } } }
    }
    for k in ["type_mapping", "text_maps", "default_comment_format", "acronyms", "template_syntax", "whitespace_control"] {
        let x = e.get(k).cloned().unwrap_or(Value::Null);
        ensure!(got[k] == x, format!("merged {k} differs"), "{k}: expected {x}, got {}\nlayers (outermost first) {layers:?}", got[k]);
    }
    let gp = got["params"].as_object().cloned().unwrap_or_default(); let ep = params.unwrap_or_default();
    ensure!(gp == ep, "merged params differ", "{}\nlayers {layers:?}", diff_str(&json!(ep), &json!(gp)));
    // templates and comment formats carry defaults: compare the fields given
    for k in ["templates", "comment_formats"] {
        match e.get(k) { None => ensure!(got[k].is_null(), format!("merged {k} differs"), "{}", got[k]), Some(x) => ensure!(covers(&got[k], x) && len(&got[k]) == len(x), format!("merged {k} differs"), "expected {x}, got {}", got[k]) }
    }
    // merging extra acronyms and text maps
    let mut cfg = WeaverConfig::try_from_config_files(&files).unwrap();
    let add: Vec<String> = (0..t.size(0, 3)).map(|_| (*t.pick(&["ios", "Api", "GPU", "gpu", "Url"])).to_owned()).collect();
    let addm: std::collections::HashMap<String, std::collections::HashMap<String, String>> = (0..t.size(0, 2)).map(|i| (format!("m{i}"), [("z".to_owned(), "new".to_owned())].into())).collect();
    let before = e.get("acronyms").and_then(|a| a.as_array()).cloned().unwrap_or_default();
    cfg.merge_acronyms(Some(add.clone())); cfg.merge_text_maps(Some(addm.clone()));
    let g2 = serde_json::to_value(&cfg).unwrap();
    let mut ea: Vec<String> = before.iter().map(|x| x.as_str().unwrap().to_owned()).collect();
    for a in &add { match ea.iter().position(|x| x.eq_ignore_ascii_case(a)) { Some(p) => ea[p] = a.clone(), None => ea.push(a.clone()) } }
    ensure!(g2["acronyms"] == json!(ea), "merged acronyms differ", "{before:?} + {add:?}: expected {ea:?}, got {}", g2["acronyms"]);
    let mut em = e.get("text_maps").and_then(|m| m.as_object()).cloned().unwrap_or_default();
    for (k, v) in &addm { let _ = em.insert(k.clone(), json!(v)); }
    ensure!(g2["text_maps"].as_object().cloned().unwrap_or_default() == em, "merged text maps differ", "{} vs {em:?}", g2["text_maps"]);
    Ok(())
}
fn len(v: &Value) -> usize { v.as_array().map(|a| a.len()).or(v.as_object().map(|o| o.len())).unwrap_or(0) }
fn covers(got: &Value, want: &Value) -> bool {
    match (got, want) { (Value::Object(g), Value::Object(w)) => w.iter().all(|(k, v)| g.get(k).is_some_and(|x| covers(x, v))), (Value::Array(g), Value::Array(w)) => g.len() == w.len() && g.iter().zip(w).all(|(a, b)| covers(a, b)), _ => got == want }
}

fn any(t: &mut Tape, d: usize) -> Value {
    match t.below(if d > 2 { 5 } else { 7 }) { 0 => json!(t.range(-9, 9)), 1 => json!(*t.pick(&["a: b", "", "- x", "yes", "null", "line\nline2", " \"q\" ", "é\u{2028}", "#c", "1.0"])), 2 => json!(t.bool()), 3 => Value::Null, 4 => json!(t.f64()),
        5 => json!((0..t.size(0, 3)).map(|_| any(t, d + 1)).collect::<Vec<_>>()), _ => { let n = t.size(0, 3); json!((0..n).map(|i| (format!("{}{i}", t.pick(&["k", "a b", "on", "~"])), any(t, d + 1))).collect::<BTreeMap<_, _>>()) } }
}
/// Builtin formats write documents that parse back to the data, to the file the target names.
fn formats(t: &mut Tape, c: &mut Case) -> CaseResult {
    let f = *t.pick(&["json", "yaml", "jsonl", "JSON", "Yaml"]); let s = Scratch::new();
    let l = f.to_lowercase(); let docs: Vec<Value> = (0..if l == "jsonl" { t.size(1, 4) } else { 1 }).map(|_| any(t, 0)).collect();
    c.desc(json!([f, docs]).to_string()); c.label(l.clone()); c.nontrivial(docs.iter().any(|d| d.is_array() || d.is_object()));
    let (target, path) = if t.bool() { (OutputTarget::Directory(s.path().join("x/y")), s.path().join(format!("x/y/pre.{l}"))) } else { (OutputTarget::File(s.path().join("z/out.bin")), s.path().join("z/out.bin")) };
    let run = |target: OutputTarget| -> Result<(), String> { let mut p = OutputProcessor::new(f, "pre", None, None, target).map_err(|e| e.to_string())?; for d in &docs { p.generate(d).map_err(|e| e.to_string())?; } Ok(()) };
    if let Err(e) = run(target.clone()) { return fail("builtin format failed", e); }
    if t.chance(1, 3) { std::fs::write(&path, "stale content that is much longer than the new one ".repeat(20)).unwrap(); if let Err(e) = run(target) { return fail("builtin format failed", e); } }
    let mut tree = Tree::new(); read_tree(s.path(), s.path(), &mut tree);
    ensure!(tree.len() == 1 && path.exists(), "builtin output in the wrong place", "{:?} instead of {path:?}", tree.keys());
    let txt = std::fs::read_to_string(&path).unwrap();
    let back: Vec<Value> = match l.as_str() { "json" => serde_json::from_str(&txt).map(|v| vec![v]).unwrap_or_default(), "yaml" => serde_yaml::from_str(&txt).map(|v| vec![v]).unwrap_or_default(), _ => txt.lines().map(|x| serde_json::from_str(x).unwrap_or(json!("?"))).collect() };
    ensure!(back == docs, "builtin output does not parse back", "{docs:?}\n{txt}");
    Ok(())
}
