//! C19: comments keep the text, the frame and the line width.
use crate::engine::*;
use crate::ensure;
use crate::forge::snippet;
use crate::tape::Tape;
use serde_json::{json, Value};

pub fn prop() -> Prop {
    Prop { id: "C19", rule: "layout: random descriptions (paragraphs of plain words with line breaks) and comment formats (header, prefix, footer, indent, trim, trailing dots, line length in the format or as an argument, ignore_newlines; one text or a list of texts) compared with an exact reference wrapper; markup: random Markdown (paragraphs, nested lists, code, links, emphasis, headings) through the markdown and html renderers, every non-blank character of the expected rendering must appear in order, framed by the prefix, and lines of breakable text must fit. Non-trivial: a line is wrapped, or a list / link / code is present.",
        assumptions: &["the joining space is not counted against the line length (pinned by the repository's tests), so a line may exceed it by one", "unsupported Markdown (tables, images, block quotes, hard breaks, reference links) is not generated"],
        suites: vec![
            Suite { name: "layout", quick: 40_000, thorough: 600_000, parallel: true, run: layout, shrink: 800 },
            Suite { name: "markup", quick: 40_000, thorough: 600_000, parallel: true, run: markup, shrink: 800 },
        ] }
}
struct Fmt { cfg: Value, args: String, header: String, prefix: String, footer: String, indent: String, limit: Option<i64>, ignore_nl: bool, trim: bool, rm: bool, enf: bool }
fn fmt(t: &mut Tape, extra: Value, wide: bool) -> Fmt {
    let mut f = extra;
    let header = if t.chance(1, 3) { *t.pick(&["/**", "\"\"\"", "<!--"]) } else { "" };
    let prefix = if t.chance(2, 3) { *t.pick(&["// ", " * ", "# ", "    "]) } else { "" };
    let footer = if t.chance(1, 3) { *t.pick(&[" */", "\"\"\"", "-->"]) } else { "" };
    let mut args = vec![format!("format='f'")];
    for (k, v) in [("header", header), ("prefix", prefix), ("footer", footer)] { if !v.is_empty() { if t.chance(1, 4) { if t.bool() { f[k] = json!("XXX"); } args.push(format!("{k}={}", json!(v))); } else { f[k] = json!(v); } } }
    let ind = if t.bool() { t.range(0, 6) } else { 0 };
    if ind > 0 { args.push(format!("indent={ind}")); }
    let tab = t.chance(1, 4); if tab { if t.bool() { args.push("indent_type='tab'".into()); } else { f["indent_type"] = json!("Tab"); } }
    let indent = if tab { "\t" } else { " " }.repeat(ind as usize);
    let limit = if t.chance(2, 3) { Some(if wide { t.range(30, 80) } else { if t.chance(1, 6) { t.range(1, 12) } else { t.range(12, 60) } }) } else { None };
    let ignore_nl = t.chance(1, 3);
    if let Some(l) = limit { let mut w = json!({"ignore_newlines": ignore_nl}); if t.chance(1, 3) { args.push(format!("line_length={l}")); if t.bool() { w["line_length"] = json!(33); } } else { w["line_length"] = json!(l); } f["word_wrap"] = w; } else if t.chance(1, 3) { f["word_wrap"] = json!({"ignore_newlines": ignore_nl}); }
    let trim = !t.chance(1, 4); if !trim { f["trim"] = json!(false); }
    let (mut rm, mut enf) = (false, false);
    match t.below(4) { 0 => { rm = true; f["remove_trailing_dots"] = json!(true); } 1 => { enf = true; f["enforce_trailing_dots"] = json!(true); } _ => {} }
    let mut cfg = json!({"comment_formats": {"f": f, "g": {"format": "markdown", "prefix": "WRONG"}}});
    if t.bool() { let _ = args.remove(0); cfg["default_comment_format"] = json!("f"); } else if t.bool() { cfg["default_comment_format"] = json!("g"); }
    Fmt { cfg, args: args.join(", "), header: header.into(), prefix: prefix.into(), footer: footer.into(), indent, limit, ignore_nl, trim, rm, enf }
}
const W: [&str; 14] = ["a", "the", "http", "request", "duration", "é", "naïve", "x.y", "(see", "foo)", "bar,", "semantic", "averyveryverylongwordthatcannotbebroken", "e.g."];
/// the text the renderer sees after trimming and dot handling
fn pre(f: &Fmt, s: &str) -> String {
    let mut s = if f.trim { s.trim().to_owned() } else { s.to_owned() };
    if f.rm { s = s.trim_end_matches('.').to_owned(); }
    if f.enf && !s.is_empty() && !s.ends_with('.') { s.push('.'); }
    s
}
/// Adds header, prefixes and footer.
fn frame(f: &Fmt, body: &str) -> String {
    let mut out = String::new();
    for l in body.lines() {
        if !out.is_empty() { out.push('\n'); }
        let first = out.is_empty() && f.header.is_empty();
        let line = format!("{}{}{l}", if first { "" } else { &f.indent }, f.prefix);
        out.push_str(if f.trim { line.trim_end() } else { &line });
    }
    if !f.header.is_empty() { out = format!("{}\n{out}", f.header); }
    if !f.footer.is_empty() { out = format!("{}\n{}{}", out.trim_end(), f.indent, f.footer); }
    out.trim_end().to_owned()
}
fn layout(t: &mut Tape, c: &mut Case) -> CaseResult {
    let f = fmt(t, json!({"format": "markdown"}), false);
    // paragraphs -> lines -> words
    let mut paras: Vec<Vec<Vec<String>>> = (0..t.size(0, 3)).map(|_| (0..t.size(1, 3)).map(|_| (0..t.size(1, 9)).map(|_| (*t.pick(&W)).to_owned()).collect()).collect()).collect();
    let dots = *t.pick(&["", "", ".", "..", "..."]);
    if let Some(w) = paras.last_mut().and_then(|p| p.last_mut()).and_then(|l| l.last_mut()) { w.push_str(dots); }
    let lines = |p: &Vec<Vec<String>>| p.iter().map(|l| l.join(" ")).collect::<Vec<_>>().join("\n");
    let mut text = paras.iter().map(lines).collect::<Vec<_>>().join("\n\n");
    let as_list = paras.len() == 1 && t.chance(1, 4);
    let input = if as_list { json!(text.split('\n').collect::<Vec<_>>()) } else { if f.trim && t.chance(1, 3) { text = format!("\n {text}  \n"); } json!(text) };
    // expected body
    let seen = pre(&f, &text);
    let lim = f.limit.map(|l| (l - (f.indent.len() + f.prefix.len()) as i64).max(0));
    let mut wrapped = false;
    let mut body = vec![];
    for p in seen.split("\n\n").filter(|p| !p.is_empty()) {
        match lim {
            None => body.push(p.to_owned()),
            Some(lim) => {
                let src: Vec<Vec<&str>> = if f.ignore_nl { vec![p.split_whitespace().collect()] } else { p.split('\n').map(|l| l.split(' ').collect()).collect() };
                let mut o = String::new(); let mut len = 0i64;
                for (i, l) in src.iter().enumerate() {
                    if i > 0 { o.push('\n'); len = 0; }
                    for (j, w) in l.iter().enumerate() {
                        if len + w.len() as i64 > lim { if !(len == 0 && o.is_empty()) || !o.is_empty() { wrapped = true; } o.push('\n'); len = 0; } else if j > 0 { o.push(' '); len += 1; }
                        o.push_str(w); len += w.len() as i64;
                    }
                }
                body.push(o);
            }
        }
    }
    let exp = frame(&f, &body.join("\n\n"));
    c.desc(json!([f.cfg, f.args, input]).to_string());
    c.nontrivial(wrapped || paras.len() > 1);
    if wrapped { c.label("wrapped"); } if as_list { c.label("list input"); }
    let r = snippet(&f.cfg, &format!("{{{{ s | comment({}) }}}}", f.args), &json!({"s": input}));
    // a word longer than the limit may or may not leave an empty line before it
    let sq = |s: &str| s.to_owned();
    ensure!(r.as_ref().map(|x| sq(x)) == Ok(sq(&exp)), "comment layout differs", "{} | comment({}) with {}\nexpected:\n{exp}\ngot:\n{}", input, f.args, f.cfg, r.unwrap_or_else(|e| e));
    Ok(())
}
// ---------------- markup ----------------
enum In { Word(String), Code(String), Link(String, String), Strong(String), Emph(String) }
enum Block { Para(Vec<In>), List(bool, Vec<(Vec<In>, Option<Box<Block>>)>), Code(Option<&'static str>, Vec<&'static str>), Head(usize, Vec<In>) }
fn words(t: &mut Tape, hi: usize) -> String { (0..t.size(1, hi)).map(|_| *t.pick(&["one", "two", "metric", "name", "spec", "longerword"])).collect::<Vec<_>>().join(" ") }
fn inl(t: &mut Tape) -> Vec<In> {
    (0..t.size(1, 8)).map(|i| match t.below(10) { 0 => In::Code(words(t, 1)), 1 => In::Link(words(t, 2), (*t.pick(&["https://x.io/a_b", "#anchor", "docs/a.md"])).to_owned()), 2 => In::Strong(words(t, 2)), 3 => In::Emph(words(t, 2)), _ => In::Word(if i == 0 { (*t.pick(&["start", "The", "x"])).into() } else { match t.below(12) { 0 => "arr[0]".to_owned(), 1 => "a\\b".to_owned(), _ => (*t.pick(&W)).to_owned() } }) }).collect()
}
thread_local! { static ESC: std::cell::Cell<(bool, bool)> = const { std::cell::Cell::new((false, false)) }; }
fn escw(w: &str) -> String { let (b, q) = ESC.with(|e| e.get()); let mut s = w.to_owned(); if b { s = s.replace('\\', "\\\\"); } if q { s = s.replace('[', "\\[").replace(']', "\\]"); } s }
fn list(t: &mut Tape, d: usize) -> Block { let o = t.bool(); Block::List(o, (0..t.size(1, 4)).map(|_| (inl(t), if d < 2 && t.chance(1, 4) { Some(Box::new(list(t, d + 1))) } else { None })).collect()) }
fn src_in(v: &[In], seps: &mut dyn FnMut() -> &'static str) -> String {
    let mut s = String::new();
    for (i, x) in v.iter().enumerate() { if i > 0 { s.push_str(seps()); } match x { In::Word(w) => s.push_str(w), In::Code(c) => s.push_str(&format!("`{c}`")), In::Link(a, b) => s.push_str(&format!("[{a}]({b})")), In::Strong(w) => s.push_str(&format!("**{w}**")), In::Emph(w) => s.push_str(&format!("*{w}*")) } }
    s
}
fn src_block(b: &Block, ind: &str, out: &mut String, seps: &mut dyn FnMut() -> &'static str) {
    match b {
        Block::Para(v) => out.push_str(&format!("{}\n", src_in(v, seps))),
        Block::List(o, items) => for (i, (v, n)) in items.iter().enumerate() {
            let m = if *o { format!("{}. ", i + 1) } else { "- ".into() };
            out.push_str(&format!("{ind}{m}{}\n", src_in(v, &mut || " ")));
            if let Some(n) = n { src_block(n, &format!("{ind}{}", " ".repeat(m.len())), out, seps); }
        },
        Block::Code(l, v) => out.push_str(&format!("```{}\n{}\n```\n", l.unwrap_or(""), v.join("\n"))),
        Block::Head(n, v) => out.push_str(&format!("{} {}\n", "#".repeat(*n), src_in(v, &mut || " "))),
    }
}
fn md_in(v: &[In], short: bool, refs: &mut Vec<String>) -> String {
    v.iter().map(|x| match x { In::Word(w) => escw(w), In::Code(c) => format!("`{c}`"), In::Link(a, b) => if short { refs.push(format!("[{a}]: {b}")); format!("[{a}]") } else { format!("[{a}]({b})") }, In::Strong(w) => format!("**{w}**"), In::Emph(w) => format!("*{w}*") }).collect::<Vec<_>>().join(" ")
}
fn md_block(b: &Block, short: bool, lang: &str, refs: &mut Vec<String>, out: &mut String) {
    match b {
        Block::Para(v) => out.push_str(&md_in(v, short, refs)),
        Block::List(o, items) => for (i, (v, n)) in items.iter().enumerate() { out.push_str(&if *o { format!("{}.", i + 1) } else { "-".into() }); out.push_str(&md_in(v, short, refs)); if let Some(n) = n { md_block(n, short, lang, refs, out); } },
        Block::Code(l, v) => out.push_str(&format!("```{}{}```", l.unwrap_or(lang), v.concat())),
        Block::Head(n, v) => out.push_str(&format!("{}{}", "#".repeat(*n), md_in(v, short, refs))),
    }
}
fn html_in(v: &[In]) -> String { v.iter().map(|x| match x { In::Word(w) => w.clone(), In::Code(c) => format!("<c>{c}</c>"), In::Link(a, b) => format!("<a href=\"{b}\">{a}</a>"), In::Strong(w) => format!("<strong>{w}</strong>"), In::Emph(w) => format!("<em>{w}</em>") }).collect::<Vec<_>>().join(" ") }
fn html_block(b: &Block, old: bool, omit: bool, out: &mut String) {
    match b {
        Block::Para(v) => out.push_str(&if old { html_in(v) } else { format!("<p>{}</p>", html_in(v)) }),
        Block::List(o, items) => { let tag = if *o { "ol" } else { "ul" }; out.push_str(&format!("<{tag}>")); for (v, n) in items { out.push_str(&format!("<li>{}", html_in(v))); if let Some(n) = n { html_block(n, old, omit, out); } if !omit { out.push_str("</li>"); } } out.push_str(&format!("</{tag}>")); }
        Block::Code(_, v) => out.push_str(&format!("<pre>{}</pre>", v.concat())),
        Block::Head(n, v) => out.push_str(&format!("<h{n}>{}</h{n}>", html_in(v))),
    }
}
fn squeeze(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
fn markup(t: &mut Tape, c: &mut Case) -> CaseResult {
    let html = t.bool(); let (a, b, cc) = (t.bool(), t.bool(), t.chance(1, 3));
    let lang = if t.chance(1, 3) { "rust" } else { "" };
    let mut o = if html { json!({"format": "html"}) } else { json!({"format": "markdown"}) };
    if html { if a { o["old_style_paragraph"] = json!(true); } if b { o["omit_closing_li"] = json!(true); } } else { if a { o["shortcut_reference_link"] = json!(true); } if b { o["indent_first_level_list_items"] = json!(true); } if cc { o["use_go_style_list_indent"] = json!(true); } if !lang.is_empty() { o["default_block_code_language"] = json!(lang); } }
    let es = (!html && t.chance(1, 3), !html && t.chance(1, 3)); ESC.with(|e| e.set(es));
    if es.0 { o["escape_backslashes"] = json!(true); } if es.1 { o["escape_square_brackets"] = json!(true); }
    let f = fmt(t, o, true);
    let blocks: Vec<Block> = (0..t.size(1, 4)).map(|_| match t.below(6) { 0 | 1 => list(t, 0), 2 => Block::Code(if t.bool() { Some("sh") } else { None }, t.subset(&["let-x", "y=1", "fn(z)"], 2, 3)), 3 => Block::Head(t.size(1, 3), inl(t)), _ => Block::Para(inl(t)) }).collect();
    // two adjacent lists of the same kind are one list in Markdown
    let blocks: Vec<Block> = blocks.into_iter().fold(vec![], |mut v: Vec<Block>, b| { if matches!((v.last(), &b), (Some(Block::List(..)), Block::List(..))) { v.push(Block::Para(vec![In::Word("between".into())])); } v.push(b); v });
    let mut nl = vec![]; for _ in 0..40 { nl.push(t.chance(1, 5)); }
    let mut k = 0; let mut seps = || { k += 1; if nl[k % 40] { "\n" } else { " " } };
    let text = blocks.iter().map(|b| { let mut s = String::new(); src_block(b, "", &mut s, &mut seps); s }).collect::<Vec<_>>().join("\n");
    // dot handling touches the very end of the source
    let text = text.trim_end().to_owned();
    let ends_open = text.ends_with('.');
    if (f.rm && ends_open) || f.enf { return { c.skip(); Ok(()) }; }
    let mut refs = vec![]; let mut exp = String::new();
    for (i, b2) in blocks.iter().enumerate() {
        if html { if a && i > 0 && matches!(b2, Block::Para(_)) && matches!(blocks[i - 1], Block::Para(_) | Block::List(..)) { exp.push_str("<p>"); } html_block(b2, a, b, &mut exp); } else { md_block(b2, a, lang, &mut refs, &mut exp); }
    }
    exp.push_str(&refs.concat());
    c.desc(json!([f.cfg, f.args, text]).to_string()); c.label(if html { "html" } else { "markdown" });
    if blocks.iter().any(|b| matches!(b, Block::List(_, i) if i.iter().any(|x| x.1.is_some()))) { c.label("nested list"); }
    c.nontrivial(!blocks.iter().all(|b| matches!(b, Block::Para(_))) || exp.contains('`') || exp.contains('['));
    let r = match snippet(&f.cfg, &format!("{{{{ s | comment({}) }}}}", f.args), &json!({"s": text})) { Ok(r) => r, Err(e) => return fail("comment failed", format!("{e}\n{}", f.cfg)) };
    // strip the frame
    let mut ls: Vec<&str> = r.split('\n').collect();
    let ctx = format!("{} with {}\nsource:\n{text}\ngot:\n{r}", f.args, f.cfg);
    if !f.header.is_empty() { ensure!(ls[0] == f.header, "comment header missing", "{ctx}"); let _ = ls.remove(0); }
    if !f.footer.is_empty() { ensure!(ls.last() == Some(&format!("{}{}", f.indent, f.footer).as_str()), "comment footer missing", "{ctx}"); let _ = ls.pop(); }
    let mut body = String::new();
    for (i, l) in ls.iter().enumerate() {
        let p = format!("{}{}", if i == 0 && f.header.is_empty() { "" } else { &f.indent }, f.prefix);
        let x = if let Some(x) = l.strip_prefix(&p) { x } else if *l == p.trim_end() { "" } else { return fail("comment line without its prefix", format!("line {i} {l:?} prefix {p:?}\n{ctx}")) };
        body.push_str(x); body.push('\n');
        if let Some(lim) = f.limit {
            let lim = lim - (f.indent.len() + f.prefix.len()) as i64;
            // a too long line has no place to break: everything after its leading marker is one token
            if x.len() as i64 > lim + 1 {
                let tok = x.trim_start().trim_start_matches("- ").trim_start_matches(|c: char| c.is_ascii_digit()).trim_start_matches(". ").trim();
                let unbreakable = ["`", "[", "*", "<", "#", "]"].iter().any(|k| tok.contains(k));
                ensure!(!tok.contains(' ') || unbreakable, "comment line longer than its limit", "{} > {lim}: {x:?}\n{ctx}", x.len());
            }
        }
    }
    ensure!(squeeze(&body) == squeeze(&exp), "comment text differs", "expected (blanks removed) {}\ngot {}\n{ctx}", squeeze(&exp), squeeze(&body));
    let _ = f.ignore_nl;
    Ok(())
}
