//! Sends OTLP over gRPC on the loopback interface to a weaver process and stops it.
use crate::live::*;
use crate::reg2::*;
use crate::tape::Tape;
use opentelemetry_proto::tonic::collector::{logs::v1 as cl, metrics::v1 as cm, profiles::v1development as cp, trace::v1 as ct};
use opentelemetry_proto::tonic::common::v1::{any_value::Value as AV, AnyValue, ArrayValue, InstrumentationScope, KeyValue, KeyValueList};
use opentelemetry_proto::tonic::{logs::v1 as pl, metrics::v1 as pm, profiles::v1development as pp, resource::v1::Resource, trace::v1 as pt};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub enum Export { T(ct::ExportTraceServiceRequest), M(cm::ExportMetricsServiceRequest), L(cl::ExportLogsServiceRequest), P(cp::ExportProfilesServiceRequest) }
/// One request and the samples it stands for.
pub struct Req { pub export: Export, pub samples: Vec<Tele>, pub kind: &'static str }

fn av(v: &Value) -> Option<AV> {
    Some(match v {
        Value::Null => return None,
        Value::Bool(b) => AV::BoolValue(*b), Value::String(s) => AV::StringValue(s.clone()),
        Value::Number(n) => if let Some(i) = n.as_i64() { AV::IntValue(i) } else { AV::DoubleValue(n.as_f64().unwrap()) },
        Value::Array(a) => AV::ArrayValue(ArrayValue { values: a.iter().map(|x| AnyValue { value: av(x) }).collect() }),
        Value::Object(m) => AV::KvlistValue(KeyValueList { values: m.iter().map(|(k, v)| KeyValue { key: k.clone(), value: Some(AnyValue { value: av(v) }), ..Default::default() }).collect() }),
    })
}
/// What of a value a sample keeps: maps and missing values are dropped.
fn kept(v: &Value) -> Option<Value> {
    match v { Value::Null | Value::Object(_) => None, Value::Array(a) => Some(Value::Array(a.iter().filter_map(kept).collect())), Value::Number(n) if n.as_i64().is_none() => Some(json!(n.as_f64())), x => Some(x.clone()) }
}
/// Rewrites the attribute to the sample it becomes.
fn any(t: &mut Tape, a: &mut Value) -> Option<AnyValue> {
    let m = a.as_object_mut().unwrap();
    let _ = m.remove("type");
    let v = m.remove("value").unwrap_or(Value::Null);
    let p = match av(&v) { Some(x) => Some(AnyValue { value: Some(x) }), None => match t.below(5) { 0 => Some(AnyValue { value: Some(AV::BytesValue(vec![1, 2])) }), 1 => Some(AnyValue { value: None }), 2 => Some(AnyValue { value: Some(AV::DoubleValue(f64::NAN)) }), _ => None } };
    if let Some(k) = kept(&v) { if let Some(ty) = infer(&k) { let _ = m.insert("type".into(), json!(ty)); } let _ = m.insert("value".into(), k); }
    p
}
fn kv(t: &mut Tape, a: &mut Value) -> KeyValue { let value = any(t, a); KeyValue { key: a["name"].as_str().unwrap().to_owned(), value, ..Default::default() } }
fn kvs(t: &mut Tape, o: &mut Value, k: &str) -> Vec<KeyValue> { let m = o.as_object_mut().unwrap(); let l = m.entry(k).or_insert(json!([])); l.as_array_mut().unwrap().iter_mut().map(|a| kv(t, a)).collect() }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn id(t: &mut Tape, n: usize) -> Vec<u8> { match t.below(4) { 0 => vec![], 1 => vec![7; n - 1], _ => (0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(t.below(200) as u8)).collect() } }
fn id_hex(b: &[u8], n: usize) -> String { if b.len() == n { hex(b) } else { String::new() } }
fn exemplars(t: &mut Tape, d: &mut Value) -> Vec<pm::Exemplar> {
    let o = d.as_object_mut().unwrap();
    let l = o.entry("exemplars").or_insert(json!([]));
    l.as_array_mut().unwrap().iter_mut().map(|e| {
        let fa = kvs(t, e, "filtered_attributes");
        let value = match t.below(4) { 0 => { e["value"] = Value::Null; None } 1 => { e["value"] = json!(5); Some(pm::exemplar::Value::AsInt(5)) } _ => { e["value"] = json!(2.5); Some(pm::exemplar::Value::AsDouble(2.5)) } };
        let (ns, ts) = *t.pick(&[(0u64, "1970-01-01T00:00:00+00:00"), (1_700_000_000_000_000_000, "2023-11-14T22:13:20+00:00"), (u64::MAX, "")]);
        let (s, r) = (id(t, 8), id(t, 16));
        e["timestamp"] = json!(ts); e["span_id"] = json!(id_hex(&s, 8)); e["trace_id"] = json!(id_hex(&r, 16));
        pm::Exemplar { filtered_attributes: fa, time_unix_nano: ns, span_id: s, trace_id: r, value }
    }).collect()
}
fn data_point(t: &mut Tape, d: &mut Value, kind: u8) -> (pm::NumberDataPoint, pm::HistogramDataPoint, pm::ExponentialHistogramDataPoint) {
    let a = kvs(t, d, "attributes"); let ex = exemplars(t, d);
    let (attrs, exs) = (d["attributes"].clone(), d["exemplars"].clone());
    let flags = t.below(2) as u32;
    let (mut n, mut h, mut e) = Default::default();
    let (count, sum, min, max) = (t.below(9), t.opt(2, 3, |t| t.below(8) as f64 + 0.5), t.opt(1, 2, |_| 0.25), t.opt(1, 2, |_| 8.25));
    *d = match kind {
        0 => { let (v, j) = match t.below(4) { 0 => (None, Value::Null), 1 => (Some(pm::number_data_point::Value::AsInt(-3)), json!(-3)), 2 => (Some(pm::number_data_point::Value::AsInt(i64::MAX)), json!(i64::MAX)), _ => (Some(pm::number_data_point::Value::AsDouble(1.5)), json!(1.5)) };
            n = pm::NumberDataPoint { attributes: a, value: v, flags, exemplars: ex, time_unix_nano: 5, ..Default::default() };
            json!({"attributes": attrs, "value": j, "flags": flags, "exemplars": exs}) }
        1 => { let (bc, eb) = if t.bool() { (vec![1, 2, 3], vec![0.5, 1.5]) } else { (vec![], vec![]) };
            h = pm::HistogramDataPoint { attributes: a, count, sum, bucket_counts: bc.clone(), explicit_bounds: eb.clone(), min, max, flags, exemplars: ex, ..Default::default() };
            json!({"attributes": attrs, "count": count, "sum": sum, "bucket_counts": bc, "explicit_bounds": eb, "min": min, "max": max, "flags": flags, "exemplars": exs}) }
        _ => { let b = |t: &mut Tape| t.opt(1, 2, |t| (t.range(-2, 3) as i32, vec![t.below(5), 2]));
            let (p, q) = (b(t), b(t)); let (scale, zero_count) = (t.range(-3, 4) as i32, t.below(4));
            let pb = |b: &Option<(i32, Vec<u64>)>| b.as_ref().map(|b| pm::exponential_histogram_data_point::Buckets { offset: b.0, bucket_counts: b.1.clone() });
            let jb = |b: &Option<(i32, Vec<u64>)>| b.as_ref().map(|b| json!({"offset": b.0, "bucket_counts": b.1}));
            e = pm::ExponentialHistogramDataPoint { attributes: a, count, sum, scale, zero_count, positive: pb(&p), negative: pb(&q), flags, exemplars: ex, min, max, zero_threshold: 0.75, ..Default::default() };
            json!({"attributes": attrs, "count": count, "sum": sum, "scale": scale, "zero_count": zero_count, "positive": jb(&p), "negative": jb(&q), "flags": flags, "min": min, "max": max, "zero_threshold": 0.75, "exemplars": exs}) }
    };
    (n, h, e)
}
fn metric(t: &mut Tape, x: &mut Tele) -> pm::Metric {
    use pm::metric::Data;
    let o = &mut x.json["metric"];
    let (name, unit) = (o["name"].as_str().unwrap().to_owned(), o["unit"].as_str().unwrap().to_owned());
    let mut dps = o.as_object_mut().unwrap().remove("data_points").unwrap_or(json!([]));
    let ps = dps.as_array_mut().unwrap();
    x.exp = false;
    let inst = o["instrument"].as_str().unwrap().to_owned();
    let mut keep = true;
    let data = match inst.as_str() {
        "counter" | "updowncounter" => Some(Data::Sum(pm::Sum { is_monotonic: inst == "counter", aggregation_temporality: 2, data_points: ps.iter_mut().map(|d| data_point(t, d, 0).0).collect() })),
        "gauge" => Some(Data::Gauge(pm::Gauge { data_points: ps.iter_mut().map(|d| data_point(t, d, 0).0).collect() })),
        "histogram" => if t.bool() { Some(Data::Histogram(pm::Histogram { aggregation_temporality: 2, data_points: ps.iter_mut().map(|d| data_point(t, d, 1).1).collect() })) }
            else { x.exp = true; Some(Data::ExponentialHistogram(pm::ExponentialHistogram { aggregation_temporality: 2, data_points: ps.iter_mut().map(|d| data_point(t, d, 2).2).collect() })) },
        "summary" => { keep = false; o["instrument"] = json!("Summary"); Some(Data::Summary(pm::Summary { data_points: vec![pm::SummaryDataPoint::default()] })) }
        _ => { keep = false; o["instrument"] = json!("Unspecified"); None }
    };
    if keep { o["data_points"] = dps; }
    pm::Metric { name, unit, description: "d".into(), data, ..Default::default() }
}
fn span(t: &mut Tape, x: &mut Tele) -> pt::Span {
    let o = &mut x.json["span"];
    let (k, n) = *t.pick(&[("internal", 0), ("internal", 1), ("server", 2), ("client", 3), ("producer", 4), ("consumer", 5), ("internal", 9)]);
    o["kind"] = json!(k);
    let status = t.opt(1, 2, |t| { let c = t.below(3) as i32; o["status"] = json!({"code": (["unset", "ok", "error"][c as usize]), "message": "msg"}); pt::Status { code: c, message: "msg".into() } });
    let attributes = kvs(t, o, "attributes");
    let m = o.as_object_mut().unwrap();
    for k in ["span_events", "span_links"] { let _ = m.entry(k).or_insert(json!([])); }
    let events = o["span_events"].as_array_mut().unwrap().iter_mut().map(|e| pt::span::Event { attributes: kvs(t, e, "attributes"), name: e["name"].as_str().unwrap().into(), ..Default::default() }).collect();
    let links = o["span_links"].as_array_mut().unwrap().iter_mut().map(|e| pt::span::Link { attributes: kvs(t, e, "attributes"), ..Default::default() }).collect();
    pt::Span { name: o["name"].as_str().unwrap().into(), kind: n, status, attributes, events, links, trace_id: vec![1; 16], span_id: vec![2; 8], ..Default::default() }
}
fn log(t: &mut Tape, x: &mut Tele) -> pl::LogRecord {
    let o = &mut x.json["log"];
    let sev = t.below(25) as i32; let txt = *t.pick(&["", "INFO"]);
    let body = match t.below(3) { 0 => { let _ = o.as_object_mut().unwrap().remove("body"); t.opt(1, 2, |_| AnyValue { value: None }) } _ => Some(AnyValue { value: Some(AV::StringValue("b".into())) }) };
    let (s, r) = (id(t, 8), id(t, 16));
    o["severity_number"] = json!(sev); o["severity_text"] = json!(txt);
    if s.len() == 8 { o["span_id"] = json!(hex(&s)); }
    if r.len() == 16 { o["trace_id"] = json!(hex(&r)); }
    let attributes = kvs(t, o, "attributes");
    pl::LogRecord { event_name: o["event_name"].as_str().unwrap().into(), severity_number: sev, severity_text: txt.into(), body, attributes, trace_id: r, span_id: s, ..Default::default() }
}
fn profile(t: &mut Tape, x: &mut Tele, d: &mut pp::ProfilesDictionary, dict: bool) -> pp::Profile {
    let o = &mut x.json["profile"];
    if !dict { o["attributes"] = json!([]); }
    let m = o.as_object_mut().unwrap();
    let l = m.entry("attributes").or_insert(json!([]));
    let mut idx = vec![];
    for a in l.as_array_mut().unwrap() {
        let value = any(t, a);
        let n = a["name"].as_str().unwrap().to_owned();
        let key = d.string_table.iter().position(|s| *s == n).unwrap_or_else(|| { d.string_table.push(n); d.string_table.len() - 1 });
        d.attribute_table.push(pp::KeyValueAndUnit { key_strindex: key as i32, value, unit_strindex: 0 });
        idx.push((d.attribute_table.len() - 1) as i32);
        if t.chance(1, 8) { idx.push(9999); }
    }
    pp::Profile { original_payload_format: o["original_payload_format"].as_str().unwrap_or("").into(), attribute_indices: idx, ..Default::default() }
}
pub fn request(t: &mut Tape, reg: &Reg2, m: &BTreeMap<String, G2>) -> Req {
    let kind = t.below(4) as usize;
    let tk = [2, 10, 8, 7][kind];
    let mut samples = vec![];
    let dict_on = t.chance(4, 5);
    let mut dict = pp::ProfilesDictionary { string_table: vec!["".into()], attribute_table: vec![Default::default()], ..Default::default() };
    let (mut rs, mut rm, mut rl, mut rp) = (vec![], vec![], vec![], vec![]);
    for _ in 0..t.size(0, 3) {
        let mut res = if t.chance(3, 4) { Some(resource(t, reg, m)) } else { None };
        let presource = res.as_mut().map(|r| { let attributes = kvs(t, r, "attributes"); Resource { attributes, ..Default::default() } });
        if let Some(r) = &res { samples.push(Tele { json: json!({"resource": r}), resource: None, exp: false }); }
        let (mut ss, mut sm, mut sl, mut sp) = (vec![], vec![], vec![], vec![]);
        for _ in 0..t.size(0, 2) {
            let mut sj = json!({"name": "", "version": "", "schema_url": "", "attributes": [], "dropped_attributes_count": 0});
            let scope = if t.bool() { sj["name"] = json!(*t.pick(&["", "lib"])); sj["version"] = json!(*t.pick(&["", "1.2"])); sj["attributes"] = json!(attrs(t, reg, 2)); let n = t.below(3) as u32; sj["dropped_attributes_count"] = json!(n);
                let attributes = kvs(t, &mut sj, "attributes");
                Some(InstrumentationScope { name: sj["name"].as_str().unwrap().into(), version: sj["version"].as_str().unwrap().into(), attributes, dropped_attributes_count: n }) } else { None };
            let url = t.pick(&["", "https://ex.com/1.0.0"]).to_string();
            sj["schema_url"] = json!(url);
            if scope.is_some() || !url.is_empty() { samples.push(Tele { json: json!({"instrumentation_scope": sj}), resource: None, exp: false }); }
            let n = t.size(0, 3);
            let mut xs: Vec<Tele> = (0..n).map(|_| { let mut x = telemetry_kind(t, reg, m, tk); x.resource = res.clone(); x }).collect();
            match kind {
                0 => ss.push(pt::ScopeSpans { scope, schema_url: url, spans: xs.iter_mut().map(|x| span(t, x)).collect() }),
                1 => sm.push(pm::ScopeMetrics { scope, schema_url: url, metrics: xs.iter_mut().map(|x| metric(t, x)).collect() }),
                2 => sl.push(pl::ScopeLogs { scope, schema_url: url, log_records: xs.iter_mut().map(|x| log(t, x)).collect() }),
                _ => sp.push(pp::ScopeProfiles { scope, schema_url: url, profiles: xs.iter_mut().map(|x| profile(t, x, &mut dict, dict_on)).collect() }),
            }
            samples.extend(xs);
        }
        let schema_url = String::new();
        match kind { 0 => rs.push(pt::ResourceSpans { resource: presource, scope_spans: ss, schema_url }), 1 => rm.push(pm::ResourceMetrics { resource: presource, scope_metrics: sm, schema_url }),
            2 => rl.push(pl::ResourceLogs { resource: presource, scope_logs: sl, schema_url }), _ => rp.push(pp::ResourceProfiles { resource: presource, scope_profiles: sp, schema_url }) }
    }
    let export = match kind { 0 => Export::T(ct::ExportTraceServiceRequest { resource_spans: rs }), 1 => Export::M(cm::ExportMetricsServiceRequest { resource_metrics: rm }), 2 => Export::L(cl::ExportLogsServiceRequest { resource_logs: rl }),
        _ => Export::P(cp::ExportProfilesServiceRequest { resource_profiles: rp, dictionary: if dict_on { Some(dict) } else { None } }) };
    Req { export, samples, kind: ["traces", "metrics", "logs", "profiles"][kind] }
}

// ------------------------------------------------------------------ process
/// A port outside the ephemeral range nobody listens on.
pub fn port() -> u16 {
    static N: AtomicU32 = AtomicU32::new(0);
    let base = std::process::id().wrapping_mul(613);
    loop {
        let p = 12000 + (base.wrapping_add(N.fetch_add(1, Ordering::Relaxed)) % 20000) as u16;
        if std::net::TcpListener::bind(("0.0.0.0", p)).is_ok() { return p; }
    }
}
pub struct Server { pub child: Child, pub grpc: u16, pub admin: u16, out: Option<std::thread::JoinHandle<String>>, err: Option<std::thread::JoinHandle<String>> }
impl Drop for Server { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
fn drain<R: Read + Send + 'static>(mut r: R) -> Option<std::thread::JoinHandle<String>> { Some(std::thread::spawn(move || { let mut b = vec![]; let _ = r.read_to_end(&mut b); String::from_utf8_lossy(&b).into_owned() })) }
impl Server {
    pub fn start(args: &[String], cwd: &std::path::Path, ports: Option<(u16, u16)>, prefix: &str) -> Server {
        let (grpc, admin) = ports.unwrap_or_else(|| (port(), port()));
        let mut c = Command::new(crate::cli::weaver());
        let _ = c.args(args).args([format!("--{prefix}grpc-port"), grpc.to_string(), "--admin-port".into(), admin.to_string(), format!("--{prefix}grpc-address"), "127.0.0.1".into()])
            .current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env("RAYON_NUM_THREADS", "2").env("NO_COLOR", "1").env_remove("RUST_BACKTRACE").env_remove("RUST_LOG");
        let mut child = c.spawn().expect("spawn weaver");
        let out = drain(child.stdout.take().unwrap()); let err = drain(child.stderr.take().unwrap());
        Server { child, grpc, admin, out, err }
    }
    /// Waits for the receiver to accept connections; false when the process ended first.
    pub fn ready(&mut self) -> bool {
        let t0 = Instant::now();
        loop {
            if [self.grpc, self.admin].iter().all(|p| std::net::TcpStream::connect(("127.0.0.1", *p)).is_ok()) { return true; }
            if matches!(self.child.try_wait(), Ok(Some(_))) { return false; }
            if t0.elapsed() > Duration::from_secs(120) { return false; }
            std::thread::sleep(Duration::from_millis(15));
        }
    }
    /// POST /stop (or another path): status line and body; None when the connection broke.
    pub fn http(&self, method: &str, path: &str) -> Option<(u16, String)> {
        let mut s = std::net::TcpStream::connect(("127.0.0.1", self.admin)).ok()?;
        let _ = s.set_read_timeout(Some(Duration::from_secs(100)));
        s.write_all(format!("{method} {path} HTTP/1.1\r\nHost: localhost\r\nContent-Length: 0\r\nConnection: close\r\n\r\n").as_bytes()).ok()?;
        let mut b = vec![]; let _ = s.read_to_end(&mut b);
        let b = String::from_utf8_lossy(&b).into_owned();
        let (h, body) = b.split_once("\r\n\r\n")?;
        let code = h.split(' ').nth(1)?.parse().ok()?;
        Some((code, body.to_owned()))
    }
    pub fn signal(&self, s: &str) { let _ = Command::new("kill").args([s, &self.child.id().to_string()]).status(); }
    pub fn wait(&mut self, secs: u64) -> Option<crate::cli::Out> {
        let t0 = Instant::now();
        loop {
            if let Ok(Some(st)) = self.child.try_wait() {
                let stdout = self.out.take().unwrap().join().unwrap(); let stderr = self.err.take().unwrap().join().unwrap();
                return Some(crate::cli::Out { code: st.code(), stdout, stderr });
            }
            if t0.elapsed() > Duration::from_secs(secs) { return None; }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
}
/// Sends the requests of each client in order, the clients concurrently.
pub fn send(port: u16, clients: &[Vec<Export>]) -> Result<(), String> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| e.to_string())?;
    rt.block_on(async {
        let mut hs = vec![];
        for c in clients {
            let c = c.clone();
            hs.push(tokio::spawn(async move {
                let ch = tonic::transport::Endpoint::from_shared(format!("http://127.0.0.1:{port}")).map_err(|e| e.to_string())?.connect().await.map_err(|e| format!("connect: {e:?}"))?;
                for e in c {
                    let r = match e {
                        Export::T(x) => ct::trace_service_client::TraceServiceClient::new(ch.clone()).export(x).await.map(|_| ()),
                        Export::M(x) => cm::metrics_service_client::MetricsServiceClient::new(ch.clone()).export(x).await.map(|_| ()),
                        Export::L(x) => cl::logs_service_client::LogsServiceClient::new(ch.clone()).export(x).await.map(|_| ()),
                        Export::P(x) => cp::profiles_service_client::ProfilesServiceClient::new(ch.clone()).export(x).await.map(|_| ()),
                    };
                    r.map_err(|e| format!("export: {e:?}"))?;
                }
                Ok::<(), String>(())
            }));
        }
        for h in hs { h.await.map_err(|e| e.to_string())??; }
        Ok(())
    })
}
pub fn clean(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut o = Map::new();
            for (k, x) in m { if !x.is_null() { let mut x = clean(x); if k == "all_advice" { x.as_array_mut().unwrap().sort_by_key(|a| a.to_string()); } let _ = o.insert(k.clone(), x); } }
            Value::Object(o)
        }
        Value::Array(a) => Value::Array(a.iter().map(clean).collect()),
        Value::Number(n) if n.is_f64() => json!(n.as_f64().unwrap() as f32),
        x => x.clone(),
    }
}
