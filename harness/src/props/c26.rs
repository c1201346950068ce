//! C26: bearer tokens go to the URLs they are configured for, and nowhere else.
use crate::engine::*;
use crate::ensure;
use crate::http::{server, token, Reply};
use crate::reg::Scratch;
use crate::tape::Tape;
use serde_json::json;
use weaver_common::http_auth::{AuthMatchRule, HttpAuthResolver, TokenSource};
use weaver_common::vdir::{VirtualDirectory, VirtualDirectoryPath};

pub fn prop() -> Prop {
    Prop { id: "C26", rule: "resolve: 0-6 [[auth]] entries (distinct overlapping prefixes; literal, environment and command tokens incl. empty, missing, failing, multi-line and slow-to-repeat commands) written to a .weaver.toml and loaded, or built directly, queried with a sequence of URLs (with repetition) and compared with a longest-prefix model, counting command executions; invalid entries must be rejected. http: files fetched through a loopback server under generated rules, with zero to two redirects within or across hosts; the Authorization headers received are compared with the model. Non-trivial: two rules match one URL, or a redirect.",
        assumptions: &["GitHub release URL rewriting needs the network and is not exercised", "same-host redirects may keep the header (documented)", "the 30 s command cache does not expire during a case"],
        suites: vec![
            Suite { name: "resolve", quick: 20_000, thorough: 300_000, parallel: true, run: resolve, shrink: 400 },
            Suite { name: "http", quick: 5_000, thorough: 80_000, parallel: true, run: http, shrink: 300 },
        ] }
}
/// (source, value it yields)
fn source(t: &mut Tape, log: &str) -> (TokenSource, Option<String>) {
    let sh = |body: String| TokenSource::TokenCommand(vec!["/bin/sh".into(), "-c".into(), format!("echo run >> '{log}'; {body}")]);
    match t.below(10) {
        0..=2 => { let s = format!("tok{}", t.below(5)); (TokenSource::Token(s.clone()), Some(s)) }
        3 => (TokenSource::TokenEnv("VH_TOK_A".into()), Some("env-a".into())),
        4 => (TokenSource::TokenEnv("VH_TOK_EMPTY".into()), None),
        5 => (TokenSource::TokenEnv("VH_TOK_MISSING".into()), None),
        6 => match t.below(3) { 0 => (TokenSource::TokenCommand(vec![]), None), 1 => (TokenSource::TokenCommand(vec!["/nonexistent/helper".into()]), None), _ => (TokenSource::TokenCommand(vec!["/bin/echo".into(), "plain tok".into()]), Some("plain tok".into())) },
        7 => (sh("printf '  cmd-tok  \\nsecond line\\n'".into()), Some("cmd-tok".into())),
        8 => (sh("printf secret; exit 3".into()), None),
        _ => match t.below(3) { 0 => (sh("true".into()), None), 1 => (sh("printf '\\nlate\\n'".into()), None), _ => (sh("printf cmd2".into()), Some("cmd2".into())) },
    }
}
fn toml_entry(t: &mut Tape, p: &str, s: &TokenSource) -> String {
    let mut lines = vec![format!("url_prefix = {}", json!(p))];
    if t.bool() { lines.push("name = \"n\"".into()); }
    lines.push(match s { TokenSource::Token(x) => format!("token = {}", json!(x)), TokenSource::TokenEnv(x) => format!("token_env = {}", json!(x)), TokenSource::TokenCommand(x) => format!("token_command = {}", json!(x)) });
    t.shuffle(&mut lines);
    format!("[[auth]]\n{}\n", lines.join("\n"))
}
struct R { prefix: String, src: TokenSource, val: Option<String> }
fn rules(t: &mut Tape, prefixes: &[String], log: &str) -> Vec<R> {
    let mut ps = prefixes.to_vec(); t.shuffle(&mut ps);
    let n = t.size(0, 5.min(ps.len()));
    ps.truncate(n);
    ps.into_iter().map(|prefix| { let (src, val) = source(t, log); R { prefix, src, val } }).collect()
}
fn best<'a>(rs: &'a [R], url: &str) -> Option<&'a R> { rs.iter().filter(|r| url.starts_with(&r.prefix)).max_by_key(|r| r.prefix.len()) }
fn build(t: &mut Tape, rs: &[R], dir: &std::path::Path) -> Result<HttpAuthResolver, Violation> {
    if t.bool() {
        return Ok(HttpAuthResolver::new(rs.iter().map(|r| AuthMatchRule { url_prefix: r.prefix.clone(), name: None, source: r.src.clone() }).collect()));
    }
    let mut text = String::from("[registry]\nv2 = true\n");
    for r in rs { text += &toml_entry(t, &r.prefix, &r.src); }
    let p = dir.join(".weaver.toml");
    std::fs::write(&p, &text).unwrap();
    match weaver_config::load(&p) {
        Ok(c) => { ensure!(c.auth.len() == rs.len(), "config/entries", "{} entries of {} loaded\n{text}", c.auth.len(), rs.len()); Ok(weaver_config::build_auth_resolver(&c.auth)) }
        Err(e) => fail("config/load", format!("{e:?}\n{text}")),
    }
}
fn resolve(t: &mut Tape, c: &mut Case) -> CaseResult {
    let s = Scratch::new(); let log = s.path().join("runs").display().to_string();
    if t.chance(1, 8) {
        // an invalid entry makes the configuration an error
        let bad = *t.pick(&["url_prefix = \"https://a/\"", "url_prefix = \"https://a/\"\ntoken = \"x\"\ntoken_env = \"Y\"", "token = \"x\"", "url_prefix = \"https://a/\"\ntoken_env = [\"x\"]", "url_prefix = \"https://a/\"\ntoken_command = \"x\"", "url_prefix = \"https://a/\"\npassword = \"x\"", "url_prefix = \"https://a/\"\ntoken = \"x\"\nunknown = 1", "url_prefix = \"https://a/\"\ntoken = \"x\"\ntoken_command = [\"y\"]"]);
        let p = s.path().join("c.toml");
        std::fs::write(&p, format!("[[auth]]\n{bad}\n")).unwrap();
        c.desc(bad); c.label("invalid");
        ensure!(weaver_config::load(&p).is_err(), "config/invalid-accepted", "{bad}");
        return Ok(());
    }
    let pool: Vec<String> = ["", "https://", "https://h.example/", "https://h.example/a", "https://h.example/a/", "https://h.example/a/b", "https://h.example/a/b/c.zip", "http://h.example/", "https://other.example", "HTTPS://h.example/"].iter().map(|s| s.to_string()).collect();
    let rs = rules(t, &pool, &log);
    let r = build(t, &rs, s.path())?;
    let urls = ["https://h.example/a/b/c.zip", "https://h.example/a/x.yaml", "https://h.example/ab", "https://h.example/", "http://h.example/a/b", "https://other.example.org/x", "ftp://x", "https://h.example/a/b", "HTTPS://h.example/a"];
    let mut cloned = r.clone();
    let mut desc = json!({"rules": rs.iter().map(|r| format!("{} -> {:?}", r.prefix, r.src)).collect::<Vec<_>>(), "urls": []});
    let mut runs = 0usize; let mut seen: Vec<&TokenSource> = vec![];
    for _ in 0..t.size(1, 6) {
        let u = *t.pick(&urls);
        desc["urls"].as_array_mut().unwrap().push(json!(u));
        if rs.iter().filter(|r| u.starts_with(&r.prefix)).count() >= 2 { c.nontrivial(true); c.label("overlap"); }
        let b = best(&rs, u);
        let want = b.and_then(|b| b.val.clone());
        if let Some(b) = b { if let TokenSource::TokenCommand(a) = &b.src { if a.len() == 3 {
            // successful commands are run once, failing ones each time
            if b.val.is_none() { runs += 1; } else if !seen.contains(&&b.src) { runs += 1; seen.push(&b.src); } else { c.label("cached"); }
        } } }
        let which = if t.bool() { &r } else { &cloned };
        let got = which.resolve(u);
        ensure!(got == want, "resolve", "{u}: got {got:?}, expected {want:?} (rule {:?})\n{desc}", b.map(|b| &b.prefix));
        if t.chance(1, 4) { cloned = r.clone(); }
    }
    let ran = std::fs::read_to_string(&log).map(|s| s.lines().count()).unwrap_or(0);
    ensure!(ran == runs, "command-runs", "helper commands ran {ran} times, expected {runs}\n{desc}");
    c.desc(desc.to_string());
    Ok(())
}
fn http(t: &mut Tape, c: &mut Case) -> CaseResult {
    let srv = server(); let tok = token();
    let s = Scratch::new(); let log = s.path().join("runs").display().to_string();
    let (h1, h2) = (format!("http://127.0.0.1:{}", srv.port), format!("http://localhost:{}", srv.port));
    let bases: Vec<String> = [&h1, &h2].iter().flat_map(|h| ["", "/", "/{t}", "/{t}/priv", "/{t}/priv/f"].map(|p| format!("{h}{}", p.replace("{t}", &tok)))).chain(["http://".into(), "https://".into(), "http://127.0.0.2".into()]).collect();
    let rs = rules(t, &bases, &log);
    let auth = build(t, &rs, s.path())?;
    let path = |n: &str| format!("/{tok}/{n}");
    let names = ["priv/f.yaml", "pub/f.yaml", "priv2/f.yaml", "f.yaml"];
    let hops = t.size(0, 2);
    let mut chain: Vec<(bool, String)> = vec![]; // (second host?, path)
    let mut order: Vec<&str> = names.to_vec(); t.shuffle(&mut order);
    let mut second = t.bool();
    for (i, n) in order.iter().take(hops + 1).enumerate() { if i > 0 && t.bool() { second = !second; } chain.push((second, path(n))); }
    let url = |x: &(bool, String)| format!("{}{}", if x.0 { &h2 } else { &h1 }, x.1);
    for w in chain.windows(2) { srv.put(&w[0].1, Reply::Redirect(url(&w[1]))); }
    let body = format!("body {tok}\n");
    let missing = t.chance(1, 8);
    if !missing { srv.put(&chain.last().unwrap().1, Reply::Body(body.clone().into_bytes())); }
    let start = url(&chain[0]);
    let desc = json!({"rules": rs.iter().map(|r| format!("{} -> {:?}", r.prefix, r.src)).collect::<Vec<_>>(), "chain": chain.iter().map(|x| url(x)).collect::<Vec<_>>(), "missing": missing}).to_string().replace(&tok, "T").replace(&srv.port.to_string(), "PORT").replace(&log, "LOG");
    c.desc(desc.clone());
    if hops > 0 { c.nontrivial(true); c.label(if chain.windows(2).any(|w| w[0].0 != w[1].0) { "cross-host" } else { "same-host" }); }
    if rs.iter().filter(|r| start.starts_with(&r.prefix)).count() >= 2 { c.nontrivial(true); c.label("overlap"); }
    let vp: VirtualDirectoryPath = match start.parse() { Ok(v) => v, Err(e) => return fail("parse", format!("{start}: {e:?}")) };
    let v = VirtualDirectory::try_new_with_auth(&vp, &auth);
    let got = srv.take(&format!("/{tok}/"));
    match (&v, missing) {
        (Ok(v), false) => ensure!(std::fs::read(v.path()).ok() == Some(body.clone().into_bytes()), "content", "downloaded content differs at {}\n{desc}", v.path().display()),
        (Err(_), true) => {}
        (Ok(_), true) => return fail("missing-accepted", desc),
        (Err(e), false) => return fail("fetch", format!("{e:?}\n{desc}")),
    }
    let want = best(&rs, &start).and_then(|b| b.val.clone()).map(|x| format!("Bearer {x}"));
    for (i, x) in chain.iter().enumerate() {
        let reqs = got.get(&x.1).cloned().unwrap_or_default();
        ensure!(reqs.len() == 1, "requests", "{} requests for {} (hop {i})\n{desc}", reqs.len(), url(x));
        let a = &reqs[0].auth;
        if i == 0 { ensure!(*a == want, "header", "first request sent {a:?}, expected {want:?}\n{desc}"); }
        else if chain[..=i].windows(2).any(|w| w[0].0 != w[1].0) { ensure!(a.is_none(), "leak/cross-host", "after a redirect to another host the request to {} carried {a:?}\n{desc}", url(x)); }
        else { ensure!(a.is_none() || *a == want, "leak/other-token", "redirected request carried {a:?}\n{desc}"); }
    }
    Ok(())
}
