//! C21: update-markdown rewrites the snippets and nothing else.
use crate::cli::*;
use crate::engine::*;
use crate::ensure;
use crate::reg::*;
use crate::reg2::*;
use crate::tape::Tape;
use serde_json::{json, Value};
use std::path::Path;

pub fn prop() -> Prop {
    Prop { id: "C21", rule: "a generated registry (v1 or v2, written in either syntax) and a generated tree of Markdown files: text, code blocks, CRLF, missing last newline, near-miss comments, semconv directives with parameters, weaver directives with queries and templates, stale snippet content that itself looks like directives, unknown ids, unterminated snippets, non-Markdown files. Compared with a reference rewriting whose snippets come from the template view of the registry: text lines byte for byte, snippet values as JSON; then a second run changes nothing, a dry run writes nothing and succeeds exactly on up-to-date files, a file with an error stays as it is. Non-trivial: at least two snippets and one text line between or around them.",
        assumptions: &["the template view of the registry is checked by C01, C03, C07", "snippet text that contains its own end marker is outside the domain"],
        suites: vec![Suite { name: "rewrite", quick: 1500, thorough: 40_000, parallel: true, run: rewrite, shrink: 200 }] }
}
/// What a group looks like in the snippet template.
const DUMP: &str = "{{ group | tojson }}\u{1f}{{ snippet_type | default('-') | tojson }}\u{1f}{{ tag_filter | tojson }}\u{1f}{{ attribute_registry_base_url | default('-') | tojson }}\u{1f}{{ params.p | default('-') | tojson }}";
const VAL: &str = "{{ x | tojson }}\u{1f}{{ params.p | default('-') | tojson }}";
#[derive(Clone, Debug)]
enum Piece { Text(String), Snip { head: String, old: Vec<String>, tail: Option<String>, want: Option<Vec<Value>>, tpl: usize } }
struct Doc { name: String, pieces: Vec<Piece>, crlf: bool, final_nl: bool }
impl Doc {
    fn text(&self) -> String {
        let mut l: Vec<&str> = vec![];
        for p in &self.pieces { match p { Piece::Text(s) => l.push(s), Piece::Snip { head, old, tail, .. } => { l.push(head); l.extend(old.iter().map(String::as_str)); if let Some(t) = tail { l.push(t); } } } }
        let nl = if self.crlf { "\r\n" } else { "\n" };
        let mut s = l.join(nl); if (self.final_nl || l.last() == Some(&"")) && !l.is_empty() { s.push_str(nl); } s
    }
    fn bad(&self) -> bool { self.pieces.iter().any(|p| matches!(p, Piece::Snip { want: None, .. } | Piece::Snip { tail: None, .. })) }
    fn is_md(&self) -> bool { Path::new(&self.name).extension().is_some_and(|e| e == "md") }
}
fn strip(mut v: Value) -> Value { strip_prov(&mut v); v }
/// All addressable ids with the value the template is given.
fn ids(v: &View) -> Vec<(String, Value)> {
    let t = v.template();
    let mut o = vec![];
    if !v.is_v2() { for g in t["groups"].as_array().into_iter().flatten() { o.push((g["id"].as_str().unwrap().to_owned(), g.clone())); } return o; }
    let sig = |x: &Value, ty: &str| { let mut x = strip(x.clone()); x["signal_type"] = json!(ty); x };
    for (sec, ty, key) in [("attributes", "attribute", "key"), ("attribute_groups", "attribute_group", "id"), ("spans", "span", "type"), ("metrics", "metric", "name"), ("events", "event", "name"), ("entities", "entity", "type")] {
        for x in t["registry"][sec].as_array().into_iter().flatten() { if let Some(id) = x[key].as_str() { o.push((format!("registry.{sec}.{id}"), sig(x, ty))); } }
        for x in t["refinements"][sec].as_array().into_iter().flatten() { let mut y = sig(x, ty); let _ = y.as_object_mut().unwrap().remove("id"); o.push((format!("refinements.{sec}.{}", x["id"].as_str().unwrap()), y)); }
    }
    o
}
fn prose(t: &mut Tape, ids: &[(String, Value)]) -> String {
    let id = if ids.is_empty() { "a.b".to_owned() } else { t.pick(ids).0.clone() };
    match t.below(14) {
        0 => String::new(), 1 => "# Title".into(), 2 => "  indented & <b>html</b>\t".into(), 3 => "<!-- a comment -->".into(), 4 => "<!-- toc -->".into(),
        5 => format!("text <!-- semconv {id} -->"), 6 => format!("<!-- semconv {id} --> text"), 7 => format!(" <!-- semconv {id} -->"), 8 => format!("<!-- semconv {id} and more -->"),
        9 => "<!-- endsemconv -->".into(), 10 => "<!-- endweaver -->".into(), 11 => format!("`<!-- semconv {id} -->`"), 12 => "| a | é✓ |".into(), _ => format!("<!-- semconv {id}"),
    }
}
fn rewrite(t: &mut Tape, c: &mut Case) -> CaseResult {
    let s = Scratch::new();
    // ---- registry
    let r = s.sub("r");
    if t.bool() { let g = gen_registry(t, RegOpts { max_groups: 5, extends: true, signal_defs: true, assoc: true, ..Default::default() }); let l = layout(t, &g); write_layout(&r, &l); }
    else { let g = gen2(t, Opts2 { max_attrs: 5, max_sig: 2, groups: 1, refinements: 2, assoc: true, ..Default::default() }); let _ = write2(t, &r, &g); }
    if t.chance(3, 4) { manifest(&r, "https://ex.com/reg/1.0.0", &[]); }
    let v2 = t.bool();
    let x = expect(&r.to_string_lossy(), ROpts { v2, ..Default::default() });
    let Some(view) = x.view.as_ref() else { c.skip(); return Ok(()); };
    let v2 = v2 || view.is_v2();
    let ids = ids(view);
    let whole = view.template().clone();
    // ---- templates
    let reg_dir = t.bool(); // templates/registry/md or templates/md
    let td = s.sub(if reg_dir { "t/registry/md" } else { "t/md" });
    let extra = t.below(3) as usize; // text lines around the value
    let wrap = |x: &str| format!("{}{x}{}", ["", "> table\n", "\n"][extra], ["", "\n\n> end", "\n"][extra]);
    std::fs::write(td.join("snippet.md.j2"), wrap(DUMP)).unwrap();
    std::fs::write(td.join("custom.md.j2"), VAL).unwrap();
    if t.bool() { std::fs::write(td.join("weaver.yaml"), "params:\n  p: from config\n").unwrap(); }
    let has_cfg = td.join("weaver.yaml").exists();
    let p = t.opt(1, 2, |_| "cli".to_owned());
    let pval = p.clone().unwrap_or(if has_cfg { "from config".into() } else { "-".into() });
    let base = t.opt(1, 2, |_| "/base".to_owned());
    // ---- documents
    let mut docs: Vec<Doc> = vec![];
    for i in 0..t.range(1, 4) {
        let mut pieces = vec![];
        for _ in 0..t.below(7) {
            if t.bool() { for _ in 0..t.range(1, 3) { pieces.push(Piece::Text(prose(t, &ids))); } continue; }
            let weaver = v2 && t.chance(1, 3) || t.chance(1, 30);
            let sp = |t: &mut Tape| t.pick(&[" ", "", "  ", "\t"]).to_owned();
            let (head, want, tpl, end);
            if weaver {
                end = "endweaver";
                let (q, val): (String, Value) = match t.below(4) {
                    0 => ("{x: .registry}".into(), whole["registry"].clone()),
                    1 => ("{x: [.registry.metrics[]? | .name]}".into(), json!(whole["registry"]["metrics"].as_array().into_iter().flatten().map(|m| m["name"].clone()).collect::<Vec<_>>())),
                    2 => ("{x: ((.registry.attributes // []) | length), y: $p?}".replace(", y: $p?", ""), json!(whole["registry"]["attributes"].as_array().map_or(0, |a| a.len()))),
                    _ => ("{x: (.refinements.spans // [] | map(.id))}".into(), json!(whole["refinements"]["spans"].as_array().into_iter().flatten().map(|m| m["id"].clone()).collect::<Vec<_>>())),
                };
                let missing = t.chance(1, 30);
                head = format!("<!--{}weaver{}template:{} {q}{}-->", sp(t), t.pick(&[" ", "  "]), if missing { "nothere.j2" } else { "custom.md.j2" }, sp(t));
                want = if v2 && !missing { Some(vec![val, json!(pval)]) } else { None }; tpl = 1;
            } else {
                end = "endsemconv";
                let unknown = ids.is_empty() || t.chance(1, 25);
                let (id, val) = if unknown { (t.pick(&["no.such", "registry.metrics.nope", "refinements.spans.nope"]).to_string(), Value::Null) } else { t.pick(&ids).clone() };
                let mut tags = vec![]; let mut ps: Vec<String> = vec![]; let mut table = false;
                for _ in 0..t.below(4) { match t.below(4) { 0 => { ps.push("metric_table".into()); table = true; } 1 => { let g = t.pick(&["abc", "x-y", "k_1"]).to_string(); ps.push(format!("tag={g}")); tags.push(g); } 2 => ps.push("full".into()), _ => ps.push("omit_requirement_level".into()) } }
                let par = if ps.is_empty() { t.pick(&["", "", "()"]).to_string() } else { format!("({})", ps.join(",")) };
                head = format!("<!--{}semconv {id}{par}{}-->{}", sp(t), sp(t), t.pick(&["", "", " ", "\t"]));
                want = if unknown { None } else { Some(vec![val, if v2 { json!("-") } else { json!(if table { "metric_table" } else { "attribute_table" }) }, json!(tags), json!(base.clone().unwrap_or("-".into())), json!(pval)]) }; tpl = 0;
            }
            let mut old = vec![];
            for _ in 0..t.below(4) { let l = match t.below(5) { 0 => "| old | table |".to_owned(), 1 => format!("<!-- {} -->", if end == "endweaver" { "endsemconv" } else { "endweaver" }), 2 => head.clone(), 3 => format!(" <!-- {end} -->"), _ => prose(t, &ids) }; if !l.trim_end().starts_with(&format!("<!-- {end}")) { old.push(l); } }
            let closed = !t.chance(1, 25);
            let tail = closed.then(|| format!("<!--{}{end}{}-->{}", sp(t), sp(t), t.pick(&["", "", " "])));
            if !closed { old.retain(|l| !l.contains(end)); }
            pieces.push(Piece::Snip { head, old, tail, want, tpl });
            if !closed { for _ in 0..t.below(3) { pieces.push(Piece::Text("kept text".into())); } break; }
        }
        let name = format!("{}{}{i}{}", t.pick(&["", "sub/", "sub/deep dir/", ".hid/"]), t.pick(&["a", "README", "é"]), t.pick(&[".md", ".md", ".md", ".md", ".MD", ".markdown", ".md.txt", ".txt"]));
        docs.push(Doc { name, pieces, crlf: t.chance(1, 5), final_nl: t.chance(3, 4) });
    }
    let md = s.path().join("md");
    let missing_dir = t.chance(1, 60);
    if !missing_dir {
        std::fs::create_dir_all(&md).unwrap();
        for d in &docs { let p = md.join(&d.name); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, d.text()).unwrap(); }
    }
    let snips = docs.iter().filter(|d| d.is_md()).flat_map(|d| &d.pieces).filter(|p| matches!(p, Piece::Snip { .. })).count();
    let texts = docs.iter().flat_map(|d| &d.pieces).filter(|p| matches!(p, Piece::Text(_))).count();
    c.nontrivial(snips >= 2 && texts >= 1);
    let mut args: Vec<String> = ["--quiet", "registry", "update-markdown", "-r", &r.to_string_lossy(), "-t", "t", "--target", "md"].map(String::from).to_vec();
    if v2 { args.push("--v2".into()); }
    if let Some(p) = &p { args.extend(["-D".into(), format!("p={p}")]); }
    if let Some(b) = &base { args.extend(["--attribute-registry-base-url".into(), b.clone()]); }
    let mut dry = args.clone(); dry.push("--dry-run".into()); dry.push("md".into()); args.push("md".into());
    c.desc(json!({"args": args, "docs": docs.iter().map(|d| json!([d.name, d.text()])).collect::<Vec<_>>()}).to_string());
    c.label(if v2 { "v2" } else { "v1" });
    let before = tree(&md);
    let show = |o: &Out| format!("weaver {}\n{}\nfiles before: {before:#?}", args.join(" "), o.show());
    let base_err = x.has_error();
    let any_bad = docs.iter().any(|d| d.is_md() && d.bad());
    // ---- future mode with diagnostics: nothing is written
    if !x.diags.is_empty() && t.chance(1, 4) {
        let mut a = vec!["--future".to_owned()]; a.extend(args.clone());
        let o = run(&a, s.path(), None);
        c.label("future");
        ensure!(tree(&md) == before, "future/written", "{}", show(&o));
    }
    // ---- dry run on the original files
    let lf = |d: &Doc| { d.text().replace("\r\n", "\n") };
    let o = run(&dry, s.path(), None);
    ensure!(o.code == Some(0) || o.code == Some(1), "exit", "dry {}", show(&o));
    ensure!(tree(&md) == before, "dry-run/written", "{}", show(&o));
    let dry_code = o.code;
    // ---- update
    let o = run(&args, s.path(), None);
    ensure!(o.code == Some(0) || o.code == Some(1), "exit", "{}", show(&o));
    let after = tree(&md);
    if missing_dir { c.label("missing directory"); ensure!(o.code == Some(1) && dry_code == Some(1), "missing directory", "{}", show(&o)); return Ok(()); }
    ensure!((o.code == Some(1)) == (any_bad || base_err), "exit status", "expected an error: {any_bad} {base_err}\n{}", show(&o));
    ensure!(after.keys().eq(before.keys()), "files", "{:?}\n{}", after.keys(), show(&o));
    let mut changed = false;
    for d in &docs {
        let (was, now) = (&before[&d.name], &after[&d.name]);
        if !d.is_md() { c.label("other file"); ensure!(was == now, "other file changed", "{}\n{}", d.name, show(&o)); continue; }
        if d.bad() { c.label("bad file"); ensure!(was == now, "file with an error was written", "{}: {now}\n{}", d.name, show(&o)); continue; }
        if &lf(d) != now { changed = true; }
        let mut lines = now.split('\n').collect::<Vec<_>>();
        { ensure!(lines.pop() == Some(""), "last newline", "{now}"); }
        let mut it = lines.into_iter();
        let bad = |what: &str, want: &str, got: Option<&str>| Violation { sig: format!("rewrite/{what}"), detail: format!("{}: expected {want:?}, got {got:?}\nresult:\n{now}\n{}", d.name, show(&o)) };
        for p in &d.pieces {
            match p {
                Piece::Text(x) => { let g = it.next(); if g != Some(x.as_str()) { return Err(bad("text", x, g)); } }
                Piece::Snip { head, tail, want, tpl, .. } => {
                    let g = it.next(); if g != Some(head.as_str()) { return Err(bad("head", head, g)); }
                    let (pre, post): (&[&str], &[&str]) = if *tpl == 0 { [(&[][..], &[][..]), (&["> table"][..], &["", "> end"][..]), (&[""][..], &[][..])][extra] } else { (&[], &[]) };
                    for l in pre { let g = it.next(); if g != Some(l) { return Err(bad("snippet", l, g)); } }
                    let g = it.next();
                    let got: Vec<Value> = g.unwrap_or("").split('\u{1f}').map(|x| serde_json::from_str(x).unwrap_or(Value::Null)).collect();
                    let want = want.as_ref().unwrap();
                    if got.len() != want.len() || got.iter().zip(want).any(|(a, b)| strip(a.clone()) != strip(b.clone())) { return Err(bad("value", &json!(want).to_string(), g)); }
                    c.label(format!("snippet/{tpl}/{}", want[0]["signal_type"].as_str().or(want[0]["type"].as_str()).unwrap_or("-")));
                    for l in post { let g = it.next(); if g != Some(l) { return Err(bad("snippet", l, g)); } }
                    let t = tail.as_ref().unwrap(); let g = it.next(); if g != Some(t.as_str()) { return Err(bad("tail", t, g)); }
                }
            }
        }
        if let Some(g) = it.next() { return Err(bad("rest", "", Some(g))); }
    }
    ensure!((dry_code == Some(1)) == (any_bad || base_err || changed), "dry-run/exit", "dry run exits {dry_code:?}; errors: {any_bad} {base_err}, an update changes files: {changed}\n{}", show(&o));
    // ---- again
    let o2 = run(&args, s.path(), None);
    ensure!(o2.code == o.code && tree(&md) == after, "not idempotent", "second run {}\nafter the first: {after:#?}\nafter the second: {:#?}\n{}", o2.show(), tree(&md), show(&o));
    let o3 = run(&dry, s.path(), None);
    ensure!((o3.code == Some(1)) == (any_bad || base_err) && tree(&md) == after, "dry-run after update", "{}\n{}", o3.show(), show(&o));
    if !changed { c.label("nothing to change"); }
    Ok(())
}
