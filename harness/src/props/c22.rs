//! C22: search, lookup, browsing and checking through the library, the MCP server and the REST server answer from the registry.
use crate::engine::*;
use crate::ensure;
use crate::live::*;
use crate::otlp::port;
use crate::reg::*;
use crate::reg2::*;
use crate::tape::Tape;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Read, Write};
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};
use weaver_live_check::{DisabledStatistics, LiveCheckStatistics, VersionedRegistry};
use weaver_search::{SearchContext, SearchType};

pub fn prop() -> Prop {
    Prop { id: "C22", rule: "search: generated registries (both syntaxes), namespace separators and queries built from and around the ids, briefs and notes of the registry; results, scores, totals, filters, pages, lookups, template lookup and namespace browsing must equal a reference written from the documented rules. mcp: sequences of JSON-RPC tool calls (pipelined or one by one) to `registry mcp`. serve: sequences of concurrent HTTP requests to `weaver serve`; both compared with the same reference, live checks with the live checker, filters with jq over the registry, statistics with those of the registry. Non-trivial: at least one query with results that are not all of one score, or a page that splits the results; at least two different answers of a server hold registry data.",
        assumptions: &["the materialized registry itself is decided by C02, C07 and C09", "jq is evaluated by the same evaluator, decided by C20"],
        suites: vec![Suite { name: "search", quick: 30_000, thorough: 400_000, parallel: true, run: search, shrink: 300 },
            Suite { name: "mcp", quick: 4_000, thorough: 60_000, parallel: true, run: mcp, shrink: 60 },
            Suite { name: "serve", quick: 4_000, thorough: 60_000, parallel: true, run: serve, shrink: 60 }] }
}

// ------------------------------------------------------------------ reference
const TYPES: [(&str, &str, &str); 5] = [("attribute", "attributes", "key"), ("metric", "metrics", "name"), ("span", "spans", "type"), ("event", "events", "name"), ("entity", "entities", "type")];
#[derive(Clone)]
struct Item { ty: &'static str, id: String, json: Value }
fn items(reg: &Value) -> Vec<Item> {
    TYPES.iter().flat_map(|(ty, sec, k)| reg["registry"][*sec].as_array().cloned().unwrap_or_default().into_iter().map(move |j| Item { ty, id: j[*k].as_str().unwrap_or("").to_owned(), json: j })).collect()
}
fn deprecated(i: &Item) -> bool { i.json.get("deprecated").is_some_and(|d| !d.is_null()) }
fn score(q: &str, i: &Item, sep: &str) -> u32 {
    let low = |k: &str| i.json[k].as_str().unwrap_or("").to_lowercase();
    let (q, id, brief, note) = (q.to_lowercase(), i.id.to_lowercase(), low("brief"), low("note"));
    let is_sep = |c: char| sep.chars().any(|s| s == c) || c == '_';
    let mut words: Vec<String> = vec![String::new()];
    for c in q.chars() { if is_sep(c) || c.is_whitespace() { words.push(String::new()); } else { words.last_mut().unwrap().push(c); } }
    words.retain(|w| !w.is_empty());
    let mut parts: Vec<String> = vec![String::new()];
    for c in id.chars() { if is_sep(c) { parts.push(String::new()); } else { parts.last_mut().unwrap().push(c); } }
    let all = |f: &dyn Fn(&str) -> bool| !words.is_empty() && words.iter().all(|w| f(w));
    let s = if id == q { 100 } else if id.starts_with(&q) { 80 } else if id.contains(&q) { 70 }
        else if all(&|w| parts.iter().any(|p| p.contains(w))) { 60 } else if brief.contains(&q) { 40 } else if all(&|w| brief.contains(w)) && !note.contains(&q) { 35 } else if note.contains(&q) { 20 }
        else if all(&|w| note.contains(w)) { 15 } else { 0 };
    if s > 0 && deprecated(i) { (s / 10).max(1) } else { s }
}
struct Q { q: Option<String>, ty: &'static str, stability: Option<&'static str>, hide: bool, limit: usize, offset: usize }
/// Every match with its score, in registry order.
fn matches(reg: &[Item], q: &Q, sep: &str) -> Vec<(u32, Item)> {
    reg.iter().filter(|i| q.ty == "all" || q.ty == i.ty).filter(|i| q.stability.is_none_or(|s| i.json["stability"] == s)).filter(|i| !q.hide || !deprecated(i))
        .filter_map(|i| match q.q.as_deref() { None | Some("") => Some((0, i.clone())), Some(t) => { let s = score(t, i, sep); (s > 0).then(|| (s, i.clone())) } }).collect()
}
fn as_result(s: u32, i: &Item) -> Value { let mut j = i.json.clone(); j["score"] = json!(s); j["result_type"] = json!(i.ty); j }
fn bag(v: &[Value]) -> BTreeMap<String, usize> { let mut m = BTreeMap::new(); for x in v { *m.entry(x.to_string()).or_default() += 1; } m }
/// One page of answers against the reference: exact in registry order without a query, by score classes with one.
fn check_page(c: &mut Case, reg: &[Item], q: &Q, sep: &str, total: usize, page: &[Value]) -> CaseResult {
    let mut ms = matches(reg, q, sep);
    let at = || format!("query {:?} type {} stability {:?} hide_deprecated {} limit {} offset {} separator {sep:?}", q.q, q.ty, q.stability, q.hide, q.limit, q.offset);
    ensure!(total == ms.len(), "number of matches", "{}: {total}, expected {}: {:?}", at(), ms.len(), ms.iter().map(|m| (m.0, &m.1.id)).collect::<Vec<_>>());
    ms.sort_by_key(|m| std::cmp::Reverse(m.0));
    let want: Vec<Value> = ms.iter().skip(q.offset).take(q.limit).map(|(s, i)| as_result(*s, i)).collect();
    ensure!(page.len() == want.len(), "size of the page", "{}: {} results of {total}, expected {}", at(), page.len(), want.len());
    let sc = |v: &[Value]| v.iter().map(|x| x["score"].clone()).collect::<Vec<_>>();
    ensure!(sc(page) == sc(&want), "scores", "{}: {:?}, expected {:?} for {:?}", at(), sc(page), sc(&want), ms.iter().map(|m| (m.0, &m.1.id)).collect::<Vec<_>>());
    let all = bag(&ms.iter().map(|(s, i)| as_result(*s, i)).collect::<Vec<_>>());
    for (k, n) in bag(page) { ensure!(all.get(&k).is_some_and(|m| *m >= n), "result that is no match", "{}: {k} {n} times", at()); }
    if q.q.as_deref().unwrap_or("").is_empty() { ensure!(page == &want[..], "browsing order", "{}", at()); }
    if want.len() < ms.len() && !want.is_empty() || ms.iter().any(|m| m.0 != ms[0].0) { c.nontrivial(true); }
    Ok(())
}
fn browse(reg: &[Item], prefix: &str, sep: &str) -> Value {
    let mut p = prefix; while let Some(x) = p.strip_suffix(sep) { p = x; }
    let start = if p.is_empty() { String::new() } else { format!("{p}{sep}") };
    let (mut subs, mut leaf, mut n, mut depth) = (BTreeSet::new(), BTreeMap::new(), 0, 0);
    for i in reg.iter().filter(|i| i.ty == "attribute" && i.id.starts_with(&start)) {
        let segs: Vec<&str> = i.id[start.len()..].split(sep).collect();
        n += 1; depth = depth.max(segs.len());
        if segs.len() > 1 { let _ = subs.insert(format!("{start}{}", segs[0])); } else { let _ = leaf.insert(i.id.clone(), json!({"key": i.id, "brief": i.json["brief"].as_str().unwrap_or(""), "stability": i.json["stability"]})); }
    }
    json!({"prefix": p, "sub_namespaces": subs, "attributes": leaf.into_values().collect::<Vec<_>>(), "total_attribute_count": n, "max_depth": depth})
}
fn find<'a>(reg: &'a [Item], ty: &str, id: &str) -> Option<&'a Item> { reg.iter().find(|i| i.ty == ty && i.id == id) }

// ------------------------------------------------------------------ generators
fn registry(t: &mut Tape, dir: &Path, d: &mut Map<String, Value>) -> Result<Forge, String> {
    if t.chance(1, 4) {
        let r = gen_registry(t, RegOpts { max_groups: 9, ..Default::default() });
        let l = layout(t, &r);
        write_layout(dir, &l);
        let _ = d.insert("groups".into(), json!(r.groups));
    } else {
        let mut r = gen2(t, Opts2 { max_attrs: 9, max_sig: 4, ..Default::default() });
        // texts that share words with the ids, and with each other
        for sec in r.s.values_mut() { for o in sec { for f in ["brief", "note"] { if o.contains_key("stability") && t.chance(1, 2) {
            let n = t.size(1, 4);
            let w: Vec<&str> = (0..n).map(|_| *t.pick(&["Http", "method", "svc", "the", "NAME", "db", "http.method", "x_y", "Größe", "İd", "a", "net.peer"])).collect();
            let _ = o.insert(f.into(), json!(w.join(t.pick(&[" ", "_", ".", "  "]))));
        } } } }
        if t.chance(1, 8) { for i in 0..t.size(1, 30) { r.add("attributes", json!({"key": format!("many.k{i}"), "type": "int", "brief": "many", "stability": "stable"})); } }
        write_yaml(&dir.join("r.yaml"), &r.to_doc());
        let _ = d.insert("registry".into(), r.to_doc());
    }
    manifest(dir, "https://live.example/schemas/1.0.0", &[]);
    let r = resolve2(dir)?;
    if !r.errors.is_empty() { return Err(format!("{:?}", r.errors)); }
    Ok(Forge { json: serde_json::to_value(&r.forge).map_err(|e| e.to_string())?, stats: serde_json::to_value(r.schema.stats()).map_err(|e| e.to_string())?, forge: r.forge })
}
struct Forge { json: Value, stats: Value, forge: weaver_forge::v2::registry::ForgeResolvedRegistry }
fn case(t: &mut Tape, s: &str) -> String { match t.below(4) { 0 => s.to_uppercase(), 1 => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(), _ => s.to_owned() } }
fn sub(t: &mut Tape, s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    if cs.is_empty() { return String::new(); }
    let a = t.below(cs.len() as u64) as usize; let b = a + 1 + t.below((cs.len() - a) as u64) as usize;
    cs[a..b].iter().collect()
}
fn id(t: &mut Tape, reg: &[Item], ty: &str) -> String {
    let of: Vec<&Item> = reg.iter().filter(|i| i.ty == ty).collect();
    if of.is_empty() || t.chance(1, 5) { return match t.below(3) { 0 if !reg.is_empty() => t.pick(reg).id.clone(), 1 if !of.is_empty() => { let i = (*t.pick(&of)).id.clone(); match t.below(4) { 0 => format!("{i}x"), 1 => i[..i.len() - 1].to_owned(), 2 => i.to_uppercase(), _ => format!("{ty}.{i}") } } _ => (*t.pick(&["nothing", "a b", "x/y", "ü", "%41", "?q=1", "a#b", "..", "none.such"])).to_owned() }; }
    (*t.pick(&of)).id.clone()
}
fn query(t: &mut Tape, reg: &[Item]) -> Option<String> {
    if t.chance(1, 10) { return None; }
    if reg.is_empty() { return Some("x".into()); }
    let i = t.pick(reg).clone();
    let text = |k: &str| i.json[k].as_str().unwrap_or("").to_owned();
    let s = match t.below(12) {
        0 => i.id, 1 | 2 => sub(t, &i.id),
        3 | 4 => { let mut w: Vec<String> = i.id.split(['.', '_']).map(|x| x.to_owned()).collect(); t.shuffle(&mut w); w.truncate(t.size(1, 3)); let w: Vec<String> = w.iter().map(|x| if t.bool() { sub(t, x) } else { x.clone() }).collect(); w.join(t.pick(&[" ", ".", "_", "  ", "/", "::", "\t"])) }
        5 => text("brief"), 6 => { let s = text("brief"); sub(t, &s) } 7 => { let s = text("note"); sub(t, &s) }
        8 => { let k = *t.pick(&["brief", "note"]); let s = text(k); let mut w: Vec<&str> = s.split_whitespace().collect(); t.shuffle(&mut w); w.truncate(3); w.join(" ") }
        9 => { let a = t.pick(reg).id.clone(); format!("{} {}", sub(t, &i.id), sub(t, &a)) }
        10 => (*t.pick(&["", " ", ".", "_", "zzz", "a", "the", "GRÖSSE", "größe", "i̇d", "many", "k1", "http method"])).to_owned(),
        _ => format!("{}{}", i.id, t.pick(&[".", " ", "_", "x"])),
    };
    Some(case(t, &s))
}
fn type_of(t: &mut Tape) -> &'static str { if t.bool() { "all" } else { t.pick(&TYPES).0 } }

// ------------------------------------------------------------------ search
fn search(t: &mut Tape, c: &mut Case) -> CaseResult {
    let mut d = Map::new();
    let s = Scratch::new();
    let f = match registry(t, s.path(), &mut d) { Ok(f) => f, Err(_) => { c.skip(); return Ok(()); } };
    let sep = *t.pick(&[".", ".", ".", "/", "_", "::", "._"]);
    let _ = d.insert("separator".into(), json!(sep));
    let reg = items(&f.json);
    let ctx = SearchContext::from_registry_with_separator(&f.forge, sep.to_owned());
    let n = t.size(1, 8);
    let mut log = vec![];
    for _ in 0..n {
        let sts = ["stable", "development", "alpha", "beta", "release_candidate"];
        let mut q = Q { q: query(t, &reg), ty: type_of(t), stability: t.opt(1, 5, |t| *t.pick(&sts)), hide: t.chance(1, 4), limit: *t.pick(&[0, 1, 2, 3, 5, 50, 1000, 1001, usize::MAX]), offset: if t.bool() { 0 } else { *t.pick(&[1, 2, 3, 7, 1000, usize::MAX]) } };
        log.push(json!([q.q, q.ty, q.stability, q.hide, q.limit, q.offset]));
        let _ = d.insert("queries".into(), json!(log));
        c.desc(Value::Object(d.clone()).to_string());
        let ty = match q.ty { "all" => SearchType::All, "attribute" => SearchType::Attribute, "metric" => SearchType::Metric, "span" => SearchType::Span, "event" => SearchType::Event, _ => SearchType::Entity };
        let st = || q.stability.map(|s| serde_json::from_value(json!(s)).unwrap());
        let call = |limit, offset| { let (r, n) = ctx.search(q.q.as_deref(), ty, st(), q.hide, limit, offset); (r.iter().map(|x| serde_json::to_value(x).unwrap()).collect::<Vec<_>>(), n) };
        let (page, total) = call(q.limit, q.offset);
        // pages of any size put together are the whole list
        let (whole, _) = call(1000, 0);
        let step = 1 + t.below(4) as usize;
        let mut joined = vec![]; let mut o = 0;
        while o < whole.len() + step { joined.extend(call(step, o).0); o += step; }
        q.limit = q.limit.min(1000);
        check_page(c, &reg, &q, sep, total, &page)?;
        ensure!(joined == whole, "pages differ from the whole list", "query {:?} pages of {step}: {joined:?} != {whole:?}", q.q);
    }
    for _ in 0..t.size(1, 6) {
        let ty = t.pick(&TYPES).0;
        let k = id(t, &reg, ty);
        let tmpl = |i: &&Item| i.json["type"].as_str().is_some_and(|s| s.starts_with("template["));
        let js = |v: Option<Value>| v.unwrap_or(Value::Null);
        let (got, want) = match ty {
            "attribute" => {
                ensure!(js(ctx.get_template(&k).map(|a| serde_json::to_value(&*a).unwrap())) == find(&reg, ty, &k).filter(tmpl).map(|i| i.json.clone()).unwrap_or(Value::Null), "template by key", "{k}");
                let name = format!("{k}{}", t.pick(&["", ".x", "y"]));
                let best = reg.iter().filter(|i| i.ty == ty).filter(tmpl).filter(|i| name.starts_with(&i.id)).max_by_key(|i| i.id.len()).map(|i| i.json.clone());
                ensure!(js(ctx.find_template(&name).map(|a| serde_json::to_value(&*a).unwrap())) == js(best.clone()), "template of a name", "{name}: expected {best:?}");
                (ctx.get_attribute(&k).map(|a| serde_json::to_value(&*a).unwrap()), find(&reg, ty, &k).filter(|i| !tmpl(i)))
            }
            "metric" => (ctx.get_metric(&k).map(|a| serde_json::to_value(&*a).unwrap()), find(&reg, ty, &k)),
            "span" => (ctx.get_span(&k).map(|a| serde_json::to_value(&*a).unwrap()), find(&reg, ty, &k)),
            "event" => (ctx.get_event(&k).map(|a| serde_json::to_value(&*a).unwrap()), find(&reg, ty, &k)),
            _ => (ctx.get_entity(&k).map(|a| serde_json::to_value(&*a).unwrap()), find(&reg, ty, &k)),
        };
        ensure!(got.as_ref() == want.map(|i| &i.json), "lookup", "{ty} {k}: {got:?}, expected {:?}", want.map(|i| &i.json));
        let p = prefix(t, &reg, sep);
        let (got, want) = (serde_json::to_value(ctx.browse_namespace(p.as_deref())).unwrap(), browse(&reg, p.as_deref().unwrap_or(""), sep));
        ensure!(got == want, "namespace", "{p:?} separator {sep:?}: {got}, expected {want}");
    }
    Ok(())
}
fn prefix(t: &mut Tape, reg: &[Item], sep: &str) -> Option<String> {
    if t.chance(1, 6) { return None; }
    let k = id(t, reg, "attribute");
    let n = k.split(sep).count();
    let mut p = k.split(sep).take(t.size(0, n)).collect::<Vec<_>>().join(sep);
    if t.chance(1, 4) { p = sub(t, &p); }
    Some(format!("{p}{}", t.pick(&["", "", "", sep, &sep.repeat(2)])))
}

// ------------------------------------------------------------------ servers
struct Proc { child: Child, err: Option<std::thread::JoinHandle<String>> }
impl Drop for Proc { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
fn start(args: &[String], cwd: &Path) -> Proc {
    let mut child = Command::new(crate::cli::weaver()).args(args).current_dir(cwd).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped())
        .env("RAYON_NUM_THREADS", "2").env("TOKIO_WORKER_THREADS", "3").env("NO_COLOR", "1").env_remove("RUST_BACKTRACE").env_remove("RUST_LOG").spawn().expect("spawn weaver");
    let mut e = child.stderr.take().unwrap();
    let err = Some(std::thread::spawn(move || { let mut b = vec![]; let _ = e.read_to_end(&mut b); String::from_utf8_lossy(&b).into_owned() }));
    Proc { child, err }
}
impl Proc { fn stderr(&mut self) -> String { let _ = self.child.kill(); let _ = self.child.wait(); self.err.take().map(|h| h.join().unwrap()).unwrap_or_default() } }
fn wait(ch: &mut Child, secs: u64) -> Option<Option<i32>> {
    let t0 = Instant::now();
    loop { if let Ok(Some(s)) = ch.try_wait() { return Some(s.code()); } if t0.elapsed().as_secs() > secs { return None; } std::thread::sleep(Duration::from_millis(3)); }
}
/// Multiset of (attribute name or null, id, level, message) of every finding below a value.
fn findings(v: &Value, name: &Value, out: &mut Vec<Value>) {
    match v {
        Value::Array(l) => for x in l { findings(x, name, out); },
        Value::Object(o) => {
            if let Some(l) = o.get("live_check_result").and_then(|r| r.get("all_advice")).and_then(|l| l.as_array()) { for f in l { out.push(json!([name, f["id"], f["level"], f["message"]])); } }
            for (k, x) in o { if k != "live_check_result" { if k == "attributes" || k == "filtered_attributes" { for a in x.as_array().into_iter().flatten() { findings(a, &a["name"], out); } } else { findings(x, name, out); } } }
        }
        _ => {}
    }
}
fn compact(v: &Value, out: &mut Vec<Value>) {
    for e in v.as_array().into_iter().flatten() {
        // an attribute sample is its name and its findings; other entries carry a type
        let n = if e.get("type").is_some() { Value::Null } else { e["name"].clone() };
        for f in e["findings"].as_array().into_iter().flatten() { out.push(json!([n, f["id"], f["level"], f["message"]])); }
        compact(&e["attribute_findings"], out);
    }
}
fn mcp(t: &mut Tape, c: &mut Case) -> CaseResult {
    let mut d = Map::new();
    let s = Scratch::new();
    let p = s.sub("reg");
    let (reg2, f) = if t.bool() {
        let l = match live_registry(t, &mut d) { Ok(l) => l, Err(e) => { c.desc(Value::Object(d).to_string()); return fail("registry rejected", e) } };
        write_yaml(&p.join("r.yaml"), &l.reg.to_doc());
        manifest(&p, "https://live.example/schemas/1.0.0", &[]);
        let r = match resolve2(&p) { Ok(r) => r, Err(_) => { c.skip(); return Ok(()); } };
        (l.reg, Forge { json: serde_json::to_value(&r.forge).unwrap(), stats: Value::Null, forge: r.forge })
    } else { match registry(t, &p, &mut d) { Ok(f) => (Reg2::default(), f), Err(_) => { c.skip(); return Ok(()); } } };
    let reg = items(&f.json);
    let sep = if t.chance(1, 4) { *t.pick(&["/", "_", "::"]) } else { "." };
    let m = model(&reg2);
    // calls: name, arguments, what the reference needs
    let n = t.size(1, 12);
    let mut calls: Vec<(String, Value, Option<Vec<Tele>>)> = vec![];
    for _ in 0..n {
        let k = t.below(if reg2.items() > 0 { 12 } else { 8 });
        calls.push(match k {
            0 | 1 => {
                let mut a = Map::new();
                if let Some(q) = query(t, &reg) { let _ = a.insert("query".into(), json!(q)); }
                if t.bool() { let _ = a.insert("type".into(), json!(type_of(t))); }
                if t.chance(1, 4) { let _ = a.insert("stability".into(), json!(t.pick(&["stable", "development", "experimental"]))); }
                if t.bool() { let _ = a.insert("limit".into(), json!(t.pick(&[0, 1, 2, 20, 100, 101, 5000]))); }
                ("search".into(), Value::Object(a), None)
            }
            2..=6 => { let ty = TYPES[k as usize - 2].0; ("get_".to_owned() + ty, json!({TYPES[k as usize - 2].2: id(t, &reg, ty)}), None) }
            7 => ("browse_namespace".into(), match prefix(t, &reg, sep) { Some(p) => json!({"prefix": p}), None => json!({}) }, None),
            _ => {
                let n = t.size(0, 4);
                let xs: Vec<Tele> = (0..n).map(|_| { let mut x = telemetry(t, &reg2, &m); x.resource = None; x }).filter(|x| !x.exp && to_sample(x).is_ok()).collect();
                let mut a = json!({"samples": xs.iter().map(|x| x.json.clone()).collect::<Vec<_>>()});
                match t.below(3) { 0 => {} 1 => a["output"] = json!("full"), _ => a["output"] = json!("findings_only") }
                ("live_check".into(), a, Some(xs))
            }
        });
    }
    let pipelined = t.bool();
    let _ = d.insert("separator".into(), json!(sep)); let _ = d.insert("pipelined".into(), json!(pipelined));
    let _ = d.insert("calls".into(), json!(calls.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>()));
    c.desc(Value::Object(d).to_string());
    let mut args: Vec<String> = ["registry", "mcp", "-r", &p.display().to_string(), "--quiet"].map(String::from).to_vec();
    if sep != "." || t.chance(1, 8) { if t.bool() { args.push(format!("--namespace-separator={sep}")); } else { std::fs::write(s.path().join(".weaver.toml"), format!("[mcp]\nnamespace_separator = \"{sep}\"\n")).unwrap(); } }
    let mut pr = start(&args, s.path());
    let mut stdin = pr.child.stdin.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel::<String>();
    let out = std::io::BufReader::new(pr.child.stdout.take().unwrap());
    let _reader = std::thread::spawn(move || { for l in out.lines() { match l { Ok(l) => if tx.send(l).is_err() { break; }, Err(_) => break } } });
    let mut got: BTreeMap<u64, Value> = BTreeMap::new();
    let mut recv = |got: &mut BTreeMap<u64, Value>| -> Result<(), String> {
        let l = rx.recv_timeout(Duration::from_secs(120)).map_err(|e| format!("no answer: {e}"))?;
        let v: Value = serde_json::from_str(&l).map_err(|e| format!("not JSON: {e}: {l}"))?;
        match v["id"].as_u64() { Some(i) => if got.insert(i, v).is_some() { return Err(format!("two answers to {i}")); }, None => if v.get("method").is_none() { return Err(format!("answer without an id: {l}")); } }
        Ok(())
    };
    macro_rules! send { ($v:expr) => {{ let _ = stdin.write_all(format!("{}\n", $v).as_bytes()); let _ = stdin.flush(); }} }
    send!(json!({"jsonrpc": "2.0", "id": 0, "method": "initialize", "params": {"protocolVersion": "2024-11-05", "capabilities": {}, "clientInfo": {"name": "t", "version": "1"}}}));
    let mut r = recv(&mut got);
    send!(json!({"jsonrpc": "2.0", "method": "notifications/initialized"}));
    for (i, x) in calls.iter().enumerate() {
        send!(json!({"jsonrpc": "2.0", "id": i + 1, "method": "tools/call", "params": {"name": x.0, "arguments": x.1}}));
        if !pipelined { while r.is_ok() && !got.contains_key(&(i as u64 + 1)) { r = recv(&mut got); } }
    }
    while r.is_ok() && got.len() < calls.len() + 1 { r = recv(&mut got); }
    if let Err(e) = r { return fail("protocol", format!("{e}\n{}", clip(&pr.stderr(), 1500))); }
    drop(stdin);
    match wait(&mut pr.child, 60) { Some(Some(0)) => {} x => return fail("end of input does not end the server with success", format!("{x:?} {}", clip(&pr.stderr(), 1500))) }
    let versioned = Arc::new(VersionedRegistry::V2(Box::new(f.forge)));
    let mut data = BTreeSet::new();
    for (i, (name, args, xs)) in calls.iter().enumerate() {
        let a = &got[&(i as u64 + 1)];
        let Some(text) = a["result"]["content"][0]["text"].as_str() else { return fail("tool call fails", format!("{name} {args}: {a}")) };
        ensure!(a["result"]["isError"] != true, "tool call fails", "{name} {args}: {a}");
        let v = serde_json::from_str::<Value>(text);
        c.label(name.clone());
        match name.as_str() {
            "search" => {
                let Ok(v) = v else { return fail("search answer is not JSON", text) };
                let st = match args["stability"].as_str() { Some("stable") => Some("stable"), Some(_) => Some("development"), None => None };
                let ty = TYPES.iter().map(|x| x.0).find(|x| args["type"] == *x).unwrap_or("all");
                let q = Q { q: args["query"].as_str().map(|s| s.to_owned()), ty, stability: st, hide: false, limit: args["limit"].as_u64().unwrap_or(20).min(100) as usize, offset: 0 };
                let page = v["results"].as_array().cloned().unwrap_or_default();
                ensure!(v["count"] == json!(page.len()), "count", "{args}: {text}");
                let mut dummy = Case::default();
                check_page(&mut dummy, &reg, &q, sep, v["total"].as_u64().unwrap_or(u64::MAX) as usize, &page)?;
                if !page.is_empty() { let _ = data.insert(text.to_owned()); }
            }
            "browse_namespace" => {
                let want = browse(&reg, args["prefix"].as_str().unwrap_or(""), sep);
                ensure!(v.as_ref().ok() == Some(&want), "namespace", "{args} separator {sep:?}: {text}, expected {want}");
                if want["total_attribute_count"] != 0 { let _ = data.insert(text.to_owned()); }
            }
            "live_check" => {
                let Ok(v) = v else { return fail("live check answer is not JSON", format!("{args}: {text}")) };
                let xs = xs.as_ref().unwrap();
                let l = LiveReg { reg: Reg2::default(), v2: true, versioned: versioned.clone() };
                let mut lc = checker(&l).map_err(|e| Violation { sig: "checker".into(), detail: e })?;
                let want = match run(&mut lc, &mut LiveCheckStatistics::Disabled(DisabledStatistics), xs) { Ok(w) => json!(w), Err(e) => return fail("live check", e) };
                if args["output"] == "findings_only" {
                    let (mut fs, mut got) = (vec![], vec![]);
                    let mut with = 0;
                    for w in want.as_array().unwrap() { let mut one = vec![]; let o = w.as_object().unwrap(); let (k, b) = o.iter().next().unwrap(); findings(b, &if k == "attribute" { b["name"].clone() } else { Value::Null }, &mut one); if !one.is_empty() { with += 1; } fs.extend(one); }
                    compact(&v["findings"], &mut got);
                    ensure!(bag(&fs) == bag(&got), "findings of the compact answer", "{args}\n{}\nexpected {}", json!(got), json!(fs));
                    ensure!(v["total_samples_checked"] == json!(xs.len()) && v["samples_with_findings"] == json!(with), "number of samples", "{args}: {text}; expected {} and {with}", xs.len());
                } else { ensure!(v == want, "live check", "{args}\n{}", diff_str(&want, &v)); }
                if !xs.is_empty() { let _ = data.insert(text.to_owned()); }
            }
            _ => {
                let ty = name.strip_prefix("get_").unwrap();
                let k = args.as_object().unwrap().values().next().unwrap().as_str().unwrap();
                match find(&reg, ty, k) {
                    Some(i) => { ensure!(v.as_ref().ok() == Some(&i.json), "lookup", "{name} {k}: {text}, expected {}", i.json); let _ = data.insert(text.to_owned()); }
                    None => ensure!(v.is_err() && text.contains("not found"), "lookup of an unknown name", "{name} {k}: {text}"),
                }
            }
        }
    }
    c.nontrivial(data.len() > 1);
    Ok(())
}

/// Name lists of the statistics carry no order.
fn names(mut v: Value) -> Value {
    match &mut v {
        Value::Array(l) => { l.sort_by_key(|x| x.to_string()); }
        Value::Object(o) => for x in o.values_mut() { *x = names(x.take()); },
        _ => {}
    }
    v
}
fn enc(s: &str) -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() || b == b'-' { (b as char).to_string() } else { format!("%{b:02X}") }).collect() }
/// The connection may be reset by the loopback stack under load; an answer that never comes is reported.
fn get(port: u16, path: &str, origin: Option<&str>) -> Result<(u16, String, Vec<u8>), String> {
    let mut r = get1(port, path, origin);
    for _ in 0..3 { if r.is_ok() { break; } std::thread::sleep(Duration::from_millis(50)); r = get1(port, path, origin); }
    r
}
fn get1(port: u16, path: &str, origin: Option<&str>) -> Result<(u16, String, Vec<u8>), String> {
    let mut s = std::net::TcpStream::connect(("127.0.0.1", port)).map_err(|e| e.to_string())?;
    let _ = s.set_read_timeout(Some(Duration::from_secs(100)));
    let o = origin.map(|o| format!("Origin: {o}\r\n")).unwrap_or_default();
    s.write_all(format!("GET {path} HTTP/1.0\r\nHost: localhost\r\n{o}Connection: close\r\n\r\n").as_bytes()).map_err(|e| e.to_string())?;
    let mut b = vec![]; let _ = s.read_to_end(&mut b).map_err(|e| e.to_string())?;
    let at = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or("no header end")?;
    let h = String::from_utf8_lossy(&b[..at]).into_owned();
    let code = h.split(' ').nth(1).and_then(|c| c.parse().ok()).ok_or(h.clone())?;
    Ok((code, h, b[at + 4..].to_vec()))
}
enum Want { Page(Q), Item(&'static str, String), Filter(String), Stats, Schema(bool), OpenApi, Health }
fn serve(t: &mut Tape, c: &mut Case) -> CaseResult {
    let mut d = Map::new();
    let s = Scratch::new();
    let p = s.sub("reg");
    let f = match registry(t, &p, &mut d) { Ok(f) => f, Err(_) => { c.skip(); return Ok(()); } };
    let reg = items(&f.json);
    let n = t.size(1, 16);
    let mut reqs: Vec<(String, Want)> = vec![];
    for _ in 0..n {
        let api = "/api/v1/registry";
        reqs.push(match t.below(12) {
            0..=3 => {
                let sts = ["stable", "development", "alpha", "beta", "release_candidate"];
                let mut q = Q { q: query(t, &reg), ty: type_of(t), stability: t.opt(1, 5, |t| *t.pick(&sts)), hide: t.chance(1, 4), limit: 50, offset: 0 };
                let mut ps = vec![];
                if let Some(x) = &q.q { ps.push(format!("q={}", enc(x))); }
                if q.ty != "all" || t.chance(1, 4) { ps.push(format!("type={}", q.ty)); }
                if let Some(x) = q.stability { ps.push(format!("stability={x}")); }
                if q.hide || t.chance(1, 6) { ps.push(format!("hide_deprecated={}", q.hide)); }
                if t.bool() { q.limit = *t.pick(&[0, 1, 2, 3, 10, 1000, 1500]); ps.push(format!("limit={}", q.limit)); q.limit = q.limit.min(1000); }
                if t.chance(1, 3) { q.offset = *t.pick(&[0, 1, 2, 5, 40, 5000]); ps.push(format!("offset={}", q.offset)); }
                t.shuffle(&mut ps);
                (format!("{api}/search{}{}", if ps.is_empty() { "" } else { "?" }, ps.join("&")), Want::Page(q))
            }
            4..=6 => { let ty = t.pick(&TYPES).0; let k = id(t, &reg, ty); (format!("{api}/{ty}/{}", enc(&k)), Want::Item(ty, k)) }
            7 | 8 => {
                let fi = *t.pick(&["", ".", ".registry.attributes | length", ".registry.metrics[]", "[.registry | to_entries[] | {key, n: (.value | length)}]", ".registry.attributes | map(select(.stability == \"stable\").key) | sort", ".registry.spans[].attributes", "empty", ".registry.events | group_by(.stability) | map(length)", ".nothing", "1, 2", ".registry.attributes[", "undefined_function", ".registry | error", ".refinements", "[.. | .key? // empty] | unique"]);
                (format!("{api}/filter{}", if fi.is_empty() { String::new() } else { format!("?filter={}", enc(fi)) }), Want::Filter(if fi.is_empty() { ".".into() } else { fi.into() }))
            }
            9 => (format!("{api}/stats"), Want::Stats),
            10 => match t.below(3) { 0 => ("/health".into(), Want::Health), 1 => ("/api/v1/openapi.json".into(), Want::OpenApi), _ => { let n = *t.pick(&["MaterializedRegistryV2", "SemconvDefinitionV2", "LiveCheckSample", "Nothing", "materializedregistryv2"]); (format!("/api/v1/schema/{n}"), Want::Schema(n.contains('V') && n != "materializedregistryv2" || n == "LiveCheckSample")) } },
            _ => { let ty = t.pick(&TYPES).0; (format!("{api}/{ty}/none.such"), Want::Item(ty, "none.such".into())) }
        });
    }
    let cors = t.opt(1, 3, |t| *t.pick(&["*", "http://a.example", "http://a.example, http://b.example"]));
    let _ = d.insert("requests".into(), json!(reqs.iter().map(|r| r.0.clone()).collect::<Vec<_>>()));
    let _ = d.insert("cors".into(), json!(cors));
    c.desc(Value::Object(d).to_string());
    let (mut pr, port) = {
        let mut tries = 0;
        loop {
            let port = port();
            let mut a: Vec<String> = ["serve", "-r", &p.display().to_string(), "--quiet"].map(String::from).to_vec();
            a.push(format!("--bind=127.0.0.1:{port}"));
            if let Some(o) = cors { a.push(format!("--cors-origins={o}")); }
            let mut pr = start(&a, s.path());
            let t0 = Instant::now();
            let up = loop {
                if matches!(pr.child.try_wait(), Ok(Some(_))) { break false; }
                if std::net::TcpStream::connect(("127.0.0.1", port)).is_ok() { break true; }
                if t0.elapsed().as_secs() > 120 { break false; }
                std::thread::sleep(Duration::from_millis(10));
            };
            if up { break (pr, port); }
            let e = pr.stderr(); let mut o = String::new(); let _ = pr.child.stdout.take().unwrap().read_to_string(&mut o);
            tries += 1;
            if tries > 3 || !(e.contains("in use") || o.contains("in use")) { return fail("server does not start", format!("{o}\n{e}")); }
        }
    };
    let origin = cors.map(|_| "http://b.example");
    let conc = t.bool();
    let answers: Vec<Result<(u16, String, Vec<u8>), String>> = if conc { std::thread::scope(|sc| { let hs: Vec<_> = reqs.iter().map(|r| sc.spawn(move || get(port, &r.0, origin))).collect(); hs.into_iter().map(|h| h.join().unwrap()).collect() }) } else { reqs.iter().map(|r| get(port, &r.0, origin)).collect() };
    ensure!(matches!(pr.child.try_wait(), Ok(None)), "the server died", "{}", clip(&pr.stderr(), 1500));
    let mut data = BTreeSet::new();
    for ((path, want), a) in reqs.iter().zip(&answers) {
        let (code, head, body) = match a { Ok(a) => a, Err(e) => return fail("no answer", format!("{path}: {e}")) };
        let text = String::from_utf8_lossy(body).into_owned();
        let allow = head.lines().find_map(|l| l.to_lowercase().strip_prefix("access-control-allow-origin:").map(|v| v.trim().to_owned()));
        let wa = match cors { Some("*") => Some("*"), Some(o) if o.contains("b.example") => Some("http://b.example"), _ => None };
        ensure!(allow.as_deref() == wa, "allowed origin", "{cors:?}: {head}");
        let v: Result<Value, _> = serde_json::from_slice(body);
        let ok = |b: bool| { if b { Ok(()) } else { fail("status", format!("{path}: {code} {}", clip(&text, 600))) } };
        match want {
            Want::Health => { c.label("health"); ok(*code == 200)? }
            Want::OpenApi => { c.label("openapi"); ok(*code == 200)?; ensure!(v.as_ref().is_ok_and(|v| v["openapi"].is_string()), "openapi", "{text}"); }
            Want::Schema(x) => { c.label("schema"); ok(*code == if *x { 200 } else { 404 })?; ensure!(v.is_ok(), "schema is not JSON", "{text}"); }
            Want::Stats => {
                c.label("stats");
                ok(*code == 200)?;
                let mut w = f.stats.clone(); w["schema_url"] = json!("https://live.example/schemas/1.0.0"); w["version"] = json!("v2");
                let v = v.map(names); let w = names(w);
                ensure!(v.as_ref().ok() == Some(&w), "statistics", "{text}, expected {w}");
            }
            Want::Item(ty, k) => {
                let i = find(&reg, ty, k);
                c.label(if i.is_some() { "item" } else { "no item" });
                ok(*code == if i.is_some() { 200 } else { 404 })?;
                if let Some(i) = i { ensure!(v.as_ref().ok() == Some(&i.json), "lookup", "{path}: {text}, expected {}", i.json); let _ = data.insert(text); }
            }
            Want::Filter(x) => {
                match weaver_forge::run_filter_raw(&f.json, x) {
                    Ok(w) => { c.label("filter"); ok(*code == 200)?; ensure!(v.as_ref().ok() == Some(&w), "filter", "{path}: {}", diff_str(&w, v.as_ref().unwrap_or(&Value::Null))); }
                    Err(_) => { c.label("filter error"); ok(*code == 400)?; ensure!(v.as_ref().is_ok_and(|v| v["error"].is_string()), "filter error", "{text}"); }
                }
            }
            Want::Page(q) => {
                c.label("search");
                ok(*code == 200)?;
                let v = match v { Ok(v) => v, Err(e) => return fail("search answer is not JSON", format!("{e}: {text}")) };
                let page = v["results"].as_array().cloned().unwrap_or_default();
                ensure!(v["count"] == json!(page.len()) && v["offset"] == json!(q.offset) && v["query"] == json!(q.q), "search answer", "{path}: {text}");
                let mut dummy = Case::default();
                check_page(&mut dummy, &reg, q, ".", v["total"].as_u64().unwrap_or(u64::MAX) as usize, &page)?;
                if !page.is_empty() { let _ = data.insert(text); }
            }
        }
    }
    c.nontrivial(data.len() > 1);
    Ok(())
}
