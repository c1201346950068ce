//! C14: what was ingested is what is checked: OTLP, JSON and text input.
use crate::cli;
use crate::engine::*;
use crate::ensure;
use crate::live::*;
use crate::otlp::*;
use crate::reg::*;
use crate::tape::Tape;
use serde_json::{json, Map, Value};
use weaver_live_check::*;

pub fn prop() -> Prop {
    Prop { id: "C14", rule: "generated registry and telemetry given to `weaver registry live-check`: as OTLP export requests (traces, metrics, logs, profiles; with and without resource and scope) sent over loopback gRPC by one to three concurrent clients, stopped by /stop, a signal or inactivity, or as JSON or text through a file or standard input; the report (directory, standard output, line by line, or the body of the /stop response) must hold exactly the samples the input stands for, in order per client and with requests kept together, with the findings, statistics and exit code the library computes for those samples; a port in use must end the command with an error; non-trivial = at least three samples with at least one finding",
        assumptions: &["findings of given samples are decided by C13, statistics by C15", "the text of a log body is not compared"],
        suites: vec![Suite { name: "otlp", quick: 700, thorough: 12_000, parallel: true, run: otlp, shrink: 60 }, Suite { name: "files", quick: 700, thorough: 15_000, parallel: true, run: files, shrink: 100 }] }
}
struct Expect { samples: Vec<Value>, stats: Value }
fn library(l: &LiveReg, xs: &[Tele]) -> Result<Expect, Violation> {
    let mut lc = match checker(l) { Ok(x) => x, Err(e) => return fail("checker rejected", e) };
    let mut stats = LiveCheckStatistics::Cumulative(CumulativeStatistics::new(&l.versioned));
    let samples = match run(&mut lc, &mut stats, xs) { Ok(o) => o, Err(e) => return fail("live check failed", e) };
    Ok(Expect { samples: samples.iter().map(|s| norm(s)).collect(), stats: clean(&serde_json::to_value(&stats).unwrap()) })
}
fn norm(s: &Value) -> Value { let mut s = clean(s); if let Some(l) = s.get_mut("log").and_then(|l| l.as_object_mut()) { if l.contains_key("body") { l["body"] = json!("*"); } } s }
const LEVELS: [&str; 4] = ["violation", "improvement", "information", "none"];
fn exit(stats: &Value, on: &str) -> i32 {
    let n = |l: &str| stats["advice_level_counts"][l].as_u64().unwrap_or(0);
    i32::from(match on { "violation" => n("violation") > 0, "improvement" => n("violation") + n("improvement") > 0, "information" => n("violation") + n("improvement") + n("information") > 0, _ => false })
}
fn registry(t: &mut Tape, d: &mut Map<String, Value>) -> Result<(LiveReg, Scratch), Violation> {
    let l = match live_registry(t, d) { Ok(l) => l, Err(e) => return fail("registry rejected", e) };
    let s = Scratch::new();
    let p = s.sub("reg");
    write_yaml(&p.join("r.yaml"), &l.reg.to_doc());
    manifest(&p, "https://live.example/schemas/1.0.0", &[]);
    Ok((l, s))
}
fn args(l: &LiveReg, more: &[&str]) -> Vec<String> {
    let mut a: Vec<String> = ["registry", "live-check", "-r", "reg", "--quiet"].map(String::from).to_vec();
    if l.v2 { a.push("--v2".into()); }
    a.extend(more.iter().map(|s| s.to_string())); a
}
/// The report of a run, wherever it was written: samples and statistics.
fn report(text: &str, lines: bool) -> Result<(Vec<Value>, Value), String> {
    if lines {
        let mut v: Vec<Value> = text.lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).map_err(|e| format!("{e}: {l}"))).collect::<Result<_, _>>()?;
        let s = v.pop().ok_or("empty report")?;
        return Ok((v, s));
    }
    let v: Value = serde_json::from_str(text).map_err(|e| format!("{e}: {}", clip(text, 400)))?;
    Ok((v["samples"].as_array().ok_or("no samples")?.clone(), v["statistics"].clone()))
}
/// Are the samples the requests of every client, whole and in the client's order?
fn interleaved(got: &[Value], clients: &[Vec<Vec<Value>>], at: &mut Vec<usize>) -> bool {
    if got.is_empty() && clients.iter().zip(at.iter()).all(|(c, i)| c[*i..].iter().all(|r| r.is_empty())) { return true; }
    for i in 0..clients.len() {
        let Some(r) = clients[i].get(at[i]) else { continue };
        if got.starts_with(r) { at[i] += 1; if interleaved(&got[r.len()..], clients, at) { return true; } at[i] -= 1; }
    }
    false
}
fn otlp(t: &mut Tape, c: &mut Case) -> CaseResult {
    let mut d = Map::new();
    let (l, s) = match registry(t, &mut d) { Ok(x) => x, Err(e) => { c.desc(Value::Object(d).to_string()); return Err(e); } };
    let m = crate::reg2::model(&l.reg);
    let n = t.size(1, 3);
    let clients: Vec<Vec<Req>> = (0..n).map(|_| { let k = t.size(0, 3); (0..k).map(|_| request(t, &l.reg, &m)).collect() }).collect();
    let out = *t.pick(&["dir", "http", "stdout", "lines", "http-lines", "dir-lines"]);
    let stop = if t.chance(1, 30) { "idle" } else { *t.pick(&["stop", "stop", "stop", "HUP", "INT"]) };
    let on = *t.pick(&LEVELS);
    let timeout = if stop == "idle" { "2" } else { *t.pick(&["0", "120"]) };
    let _ = d.insert("clients".into(), json!(clients.iter().map(|c| c.iter().map(|r| json!({r.kind: r.samples.iter().map(|x| &x.json).collect::<Vec<_>>()})).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let _ = d.insert("run".into(), json!({"output": out, "stop": stop, "fail_on": on}));
    c.desc(Value::Object(d).to_string());
    for x in clients.iter().flatten() { c.label(x.kind); }
    c.label(out); c.label(stop);
    let mut a = args(&l, &["--input-source", "otlp", "--fail-on", on, "--inactivity-timeout", timeout, "--format", if out.ends_with("lines") { "jsonl" } else { "json" }]);
    match out { "dir" | "dir-lines" => a.extend(["-o".into(), "out".into()]), "http" | "http-lines" => a.extend(["-o".into(), "http".into()]), "stdout" => a.push("--no-stream".into()), _ => {} }
    if t.chance(1, 15) {
        // a port somebody else listens on
        let (g, ad) = (port(), port()); let which = t.bool();
        let Ok(_held) = std::net::TcpListener::bind(("0.0.0.0", if which { g } else { ad })) else { return Ok(()) };
        c.label(if which { "grpc port busy" } else { "admin port busy" });
        let mut srv = Server::start(&a, s.path(), Some((g, ad)), "otlp-");
        let Some(o) = srv.wait(120) else { return fail("runs with a busy port", format!("grpc: {which}")) };
        ensure!(o.code == Some(1) && !s.path().join("out").exists(), "busy port not reported", "grpc: {which}\n{}", o.show());
        c.nontrivial(true);
        return Ok(());
    }
    let mut srv = Server::start(&a, s.path(), None, "otlp-");
    let mut tries = 0;
    while !srv.ready() {
        let o = srv.wait(1);
        tries += 1;
        // somebody else took the port in between
        if tries < 4 && o.as_ref().is_some_and(|o| o.stderr.contains("Address already in use") || o.stdout.contains("Address already in use")) { srv = Server::start(&a, s.path(), None, "otlp-"); continue; }
        return fail("receiver does not start", o.map(|o| o.show()).unwrap_or_default());
    }
    let health = srv.http("GET", "/health");
    let sent = send(srv.grpc, &clients.iter().map(|c| c.iter().map(|r| r.export.clone()).collect()).collect::<Vec<_>>());
    if stop == "idle" && sent.is_err() { c.label("idle too early"); return Ok(()); }
    if let Err(e) = sent { return fail("export refused", format!("{e}\n{}", srv.wait(1).map(|o| o.show()).unwrap_or_default())); }
    ensure!(stop == "idle" || matches!(&health, Some((200, b)) if b.contains("ready")), "health", "{health:?}");
    let body = match stop { "stop" => srv.http("POST", "/stop"), "idle" => None, x => { srv.signal(&format!("-{x}")); None } };
    let Some(o) = srv.wait(120) else { return fail(format!("does not stop on {stop}"), "still running after 120 s") };
    let xs: Vec<Vec<&Req>> = clients.iter().map(|c| c.iter().collect()).collect();
    let lines = out.ends_with("lines");
    let text = match out {
        "dir" | "dir-lines" => match read_single(&s.path().join("out")) { Ok(t) => t, Err(e) => return fail("report file", format!("{e}\n{}", o.show())) },
        "http" | "http-lines" if stop == "stop" => match body { Some((200, b)) => b, b => return fail("report of /stop", format!("{b:?}\n{}", o.show())) },
        _ => o.stdout.clone(),
    };
    let (got, stats) = match report(&text, lines) { Ok(r) => r, Err(e) => return fail("report unreadable", format!("{e}\n{}", o.show())) };
    let got: Vec<Value> = got.iter().map(norm).collect();
    let mut exp = vec![]; let mut all = vec![];
    for c in &xs { let mut v = vec![]; for r in c { v.push(library(&l, &r.samples)?.samples); all.extend(r.samples.iter().cloned()); } exp.push(v); }
    // statistics do not depend on the order the requests arrived in
    let e = library(&l, &all)?;
    let bare = |v: &[Value]| -> Vec<String> { let mut v: Vec<String> = v.iter().map(|s| { let mut s = s.clone(); no_results(&mut s); s.to_string() }).collect(); v.sort(); v };
    let (g, w) = (bare(&got), bare(&e.samples));
    ensure!(g == w, format!("samples of {stop_kind}", stop_kind = if got.len() == e.samples.len() { "the same number" } else { "a different number" }), "{} samples, {} sent\nonly in the report: {:#?}\nonly in the requests: {:#?}", got.len(), e.samples.len(), minus(&g, &w), minus(&w, &g));
    if !interleaved(&got, &exp, &mut vec![0; exp.len()]) {
        let (mut a, mut b): (Vec<String>, Vec<String>) = (got.iter().map(|x| x.to_string()).collect(), e.samples.iter().map(|x| x.to_string()).collect()); a.sort(); b.sort();
        return fail(if a == b { "order of requests" } else { "findings of ingested samples" }, format!("only in the report: {:#?}\nexpected: {:#?}", minus(&a, &b), minus(&b, &a)));
    }
    ensure!(clean(&stats) == e.stats, "statistics", "report {}\nexpected {}", clean(&stats), e.stats);
    ensure!(o.code == Some(exit(&e.stats, on)), "exit code", "fail-on {on}, {}\n{}", e.stats["advice_level_counts"], o.show());
    c.nontrivial(all.len() >= 3 && e.stats["total_advisories"].as_u64().unwrap_or(0) >= 1);
    Ok(())
}
fn minus(a: &[String], b: &[String]) -> Vec<String> { let mut b = b.to_vec(); a.iter().filter(|x| match b.iter().position(|y| y == *x) { Some(i) => { let _ = b.remove(i); false } None => true }).take(4).map(|x| clip(x, 1500)).collect() }
fn no_results(v: &mut Value) { match v { Value::Object(m) => { let _ = m.remove("live_check_result"); for x in m.values_mut() { no_results(x); } } Value::Array(a) => a.iter_mut().for_each(no_results), _ => {} } }
fn read_single(d: &std::path::Path) -> Result<String, String> {
    let fs: Vec<_> = std::fs::read_dir(d).map_err(|e| e.to_string())?.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    let [f] = &fs[..] else { return Err(format!("{fs:?}")) };
    std::fs::read_to_string(f).map_err(|e| e.to_string())
}
fn files(t: &mut Tape, c: &mut Case) -> CaseResult {
    let mut d = Map::new();
    let (l, s) = match registry(t, &mut d) { Ok(x) => x, Err(e) => { c.desc(Value::Object(d).to_string()); return Err(e); } };
    let m = crate::reg2::model(&l.reg);
    let text = t.chance(1, 3); let stdin = t.bool();
    let n = t.size(0, 6);
    let mut xs: Vec<Tele> = vec![]; let mut input = String::new();
    let mut broken = false;
    if text {
        for _ in 0..n {
            if t.chance(1, 6) && !stdin { input.push_str(*t.pick(&["\n", "  \n", "\t\n"])); }
            let mut a = attr(t, &l.reg);
            let o = a.as_object_mut().unwrap(); let _ = o.remove("type");
            let name = o["name"].as_str().unwrap().trim().to_owned();
            if name.is_empty() { continue; }
            o["name"] = json!(name);
            let pad = |t: &mut Tape| *t.pick(&["", "", " ", "\t "]);
            match o.get("value").cloned() {
                None => input.push_str(&format!("{}{name}{}", pad(t), pad(t))),
                Some(v) => {
                    // written as JSON, or as is when that is not JSON
                    let raw = t.chance(1, 3);
                    let w = match &v { Value::String(x) if raw => { let w = format!("{x}{}", t.pick(&["", "=x", " y", "]"])); if serde_json::from_str::<Value>(&w).is_err() { o["value"] = json!(w); w } else { v.to_string() } } _ => v.to_string() };
                    input.push_str(&format!("{}{name}{}={}{w}{}", pad(t), pad(t), pad(t), pad(t)));
                }
            }
            input.push_str(if t.chance(1, 8) { "\r\n" } else { "\n" });
            xs.push(Tele { json: json!({"attribute": a}), resource: None, exp: false });
        }
        if stdin && t.chance(1, 3) { input.push_str("\nafter.the.end\n"); }
    } else {
        let mut cur: Option<Value> = None;
        for _ in 0..n {
            let mut x = telemetry(t, &l.reg, &m);
            if x.exp { let _ = x.json["metric"].as_object_mut().unwrap().remove("data_points"); x.exp = false; }
            if t.chance(1, 3) { x = Tele { json: json!({"resource": x.resource.clone().unwrap_or_else(|| resource(t, &l.reg, &m))}), resource: None, exp: false }; }
            if let Some(r) = x.json.get("resource") { cur = Some(r.clone()); }
            x.resource = if ["span", "log", "metric", "profile"].iter().any(|k| x.json.get(k).is_some()) { cur.clone() } else { None };
            xs.push(x);
        }
        let v = json!(xs.iter().map(|x| &x.json).collect::<Vec<_>>());
        input = if t.bool() { v.to_string() } else { serde_json::to_string_pretty(&v).unwrap() };
        if t.chance(1, 12) { broken = true; let k = t.below(4); match k { 0 => { let _ = input.pop(); } 1 => input.push_str(" []"), 2 => input = "[{\"unknown\": {}}]".into(), _ => input = "[{\"attribute\": {}}]".into() } }
    }
    let on = *t.pick(&LEVELS); let out = *t.pick(&["dir", "stdout", "lines", "dir-lines"]);
    let _ = d.insert("input".into(), json!(input)); let _ = d.insert("run".into(), json!({"stdin": stdin, "text": text, "output": out, "fail_on": on}));
    c.desc(Value::Object(d).to_string());
    c.label(if text { "text" } else { "json" }); c.label(if stdin { "stdin" } else { "file" }); c.label(out);
    if !stdin { std::fs::write(s.path().join("in.txt"), &input).unwrap(); }
    let mut a = args(&l, &["--input-source", if stdin { "stdin" } else { "in.txt" }, "--input-format", if text { "text" } else { "json" }, "--fail-on", on, "--format", if out.ends_with("lines") { "jsonl" } else { "json" }]);
    match out { "dir" | "dir-lines" => a.extend(["-o".into(), "out".into()]), "stdout" => a.push("--no-stream".into()), _ => {} }
    let o = cli::run(&a, s.path(), if stdin { Some(&input) } else { None });
    if broken {
        c.label("broken");
        ensure!(o.code == Some(1) && !s.path().join("out").exists(), "broken input accepted", "{}", o.show());
        c.nontrivial(true);
        return Ok(());
    }
    let text = if out.starts_with("dir") { match read_single(&s.path().join("out")) { Ok(t) => t, Err(e) => return fail("report file", format!("{e}\n{}", o.show())) } } else { o.stdout.clone() };
    let (got, stats) = match report(&text, out.ends_with("lines")) { Ok(r) => r, Err(e) => return fail("report unreadable", format!("{e}\n{}", o.show())) };
    let e = library(&l, &xs)?;
    let got: Vec<Value> = got.iter().map(norm).collect();
    for (g, w) in got.iter().zip(&e.samples) { if g != w { let (mut a, mut b) = (g.clone(), w.clone()); no_results(&mut a); no_results(&mut b); return fail(if a == b { "findings of ingested samples" } else { "samples" }, format!("report   {g}\nexpected {w}")); } }
    ensure!(got.len() == e.samples.len(), "number of samples", "{} in the report, {} given", got.len(), e.samples.len());
    ensure!(clean(&stats) == e.stats, "statistics", "report {}\nexpected {}", clean(&stats), e.stats);
    ensure!(o.code == Some(exit(&e.stats, on)), "exit code", "fail-on {on}, {}\n{}", e.stats["advice_level_counts"], o.show());
    c.nontrivial(xs.len() >= 3 && e.stats["total_advisories"].as_u64().unwrap_or(0) >= 1);
    Ok(())
}
