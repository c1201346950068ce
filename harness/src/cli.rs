//! Runs the weaver binary (built next to the harness from /repo's working tree) in scratch directories.
use crate::reg::*;
use serde_json::{json, Value};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use weaver_common::diagnostic::DiagnosticMessage;
use weaver_common::result::WResult;
use weaver_common::vdir::VirtualDirectoryPath;
use weaver_resolver::{DefaultSchemaVisitor, WeaverResolvedSchema, WeaverResolver, WeaverResolverConfig};
use weaver_semconv::registry_repo::RegistryRepo;

pub fn weaver() -> PathBuf {
    std::env::current_exe().ok().and_then(|p| p.parent().map(|d| d.join("weaver"))).filter(|p| p.exists()).unwrap_or_else(|| {
        eprintln!("the weaver binary is not built (./build.sh all)"); std::process::exit(2) })
}
#[derive(Debug)]
pub struct Out { pub code: Option<i32>, pub stdout: String, pub stderr: String }
impl Out {
    pub fn show(&self) -> String { format!("exit {:?}\nstdout: {}\nstderr: {}", self.code, crate::engine::clip(&self.stdout, 2500), crate::engine::clip(&self.stderr, 2500)) }
}
pub fn run<S: AsRef<std::ffi::OsStr>>(args: &[S], cwd: &Path, stdin: Option<&str>) -> Out {
    run_env(args, cwd, stdin, &[])
}
pub fn run_env<S: AsRef<std::ffi::OsStr>>(args: &[S], cwd: &Path, stdin: Option<&str>, env: &[(&str, &str)]) -> Out {
    let mut c = Command::new(weaver());
    let _ = c.args(args).current_dir(cwd).stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped())
        .env("RAYON_NUM_THREADS", "2").env("NO_COLOR", "1").env_remove("RUST_BACKTRACE").env_remove("RUST_LOG");
    for (k, v) in env { let _ = c.env(k, v); }
    let mut ch = c.spawn().expect("spawn weaver");
    if let (Some(s), Some(mut i)) = (stdin, ch.stdin.take()) { let s = s.to_owned(); let _ = std::thread::spawn(move || { let _ = i.write_all(s.as_bytes()); }); }
    let o = ch.wait_with_output().expect("weaver output");
    Out { code: o.status.code(), stdout: String::from_utf8_lossy(&o.stdout).into_owned(), stderr: String::from_utf8_lossy(&o.stderr).into_owned() }
}
/// The words of a text, sorted: list order inside messages is not compared.
pub fn words(s: &str) -> String {
    let mut w: Vec<&str> = s.split(|c: char| c.is_whitespace() || ",[]{}()\"".contains(c)).filter(|x| !x.is_empty()).collect();
    w.sort(); w.join(" ")
}
/// (warning?, message words)
pub type Diag = (bool, String);
pub fn diag_of(m: &Value) -> Diag { (matches!(m["diagnostic"]["severity"].as_str(), Some("warning" | "advice" | "Warning" | "Advice")), words(m["diagnostic"]["message"].as_str().unwrap_or("?"))) }
pub fn diag<E: std::error::Error + miette::Diagnostic + serde::Serialize + Send + Sync + 'static>(e: E) -> Diag {
    diag_of(&serde_json::to_value(DiagnosticMessage::new(e)).unwrap())
}
/// `--diagnostic-format json` output: an array, or nothing.
pub fn parse_diags(s: &str) -> Result<Vec<Value>, String> {
    if s.trim().is_empty() { return Ok(vec![]); }
    match serde_json::from_str::<Value>(s) { Ok(Value::Array(a)) => Ok(a), Ok(v) => Err(format!("not an array: {v}")), Err(e) => Err(format!("{e}: {s}")) }
}
pub enum View { V1(Box<weaver_resolved_schema::ResolvedTelemetrySchema>, Value), V2(Box<V2Schema>, Value) }
impl View {
    pub fn template(&self) -> &Value { match self { View::V1(_, v) | View::V2(_, v) => v } }
    pub fn is_v2(&self) -> bool { matches!(self, View::V2(..)) }
    pub fn stats(&self) -> Value {
        let (n, mut s) = match self { View::V1(s, _) => ("v1", serde_json::to_value(s.stats()).unwrap()), View::V2(s, _) => ("v2", serde_json::to_value(s.stats()).unwrap()) };
        s["version"] = json!(n); s
    }
}
/// What loading and resolving a registry yields through the library API.
pub struct Expect { pub diags: Vec<Diag>, pub fatal: Option<Diag>, pub view: Option<View> }
impl Expect {
    pub fn has_error(&self) -> bool { self.fatal.is_some() || self.diags.iter().any(|d| !d.0) }
}
#[derive(Clone, Copy, Default)]
pub struct ROpts { pub v2: bool, pub follow_symlinks: bool, pub include_unreferenced: bool }
pub fn expect(path: &str, o: ROpts) -> Expect {
    let mut x = Expect { diags: vec![], fatal: None, view: None };
    macro_rules! fatal { ($e:expr) => {{ x.fatal = Some((false, $e.1)); return x; }} }
    let vp: VirtualDirectoryPath = match path.try_into() { Ok(v) => v, Err(e) => { let e: weaver_common::Error = e; fatal!(diag(e)) } };
    let mut n = vec![];
    let repo = match RegistryRepo::try_new(None, &vp, &mut n) { Ok(r) => r, Err(e) => fatal!(diag(e)) };
    x.diags.extend(n.into_iter().map(diag));
    let mut r = WeaverResolver::new(WeaverResolverConfig { follow_symlinks: o.follow_symlinks, include_unreferenced: o.include_unreferenced, ..Default::default() });
    let s = match r.load_and_resolve_schema(repo, DefaultSchemaVisitor) {
        WResult::Ok(s) => s,
        WResult::OkWithNFEs(s, n) => { x.diags.extend(n.into_iter().map(diag)); s }
        WResult::FatalErr(e) => fatal!(diag(e)),
    };
    let v2 = match s {
        WeaverResolvedSchema::V1(s) if !o.v2 => {
            let t = match weaver_forge::registry::ResolvedRegistry::try_from_resolved_registry(&s.registry, s.catalog()) { Ok(t) => t, Err(e) => fatal!(diag(e)) };
            x.view = Some(View::V1(Box::new(s), serde_json::to_value(&t).unwrap()));
            return x;
        }
        WeaverResolvedSchema::V1(s) => match V2Schema::try_from(s) { Ok(s) => s, Err(e) => fatal!((false, words(&e.to_string()))) },
        WeaverResolvedSchema::V2(s) => {
            if !o.v2 { x.diags.push((true, words("Loaded a V2 resolved registry without the `--v2` flag. The V2 schema will be used."))); }
            s
        }
    };
    match Forge2::try_from_resolved_schema(v2.clone(), &mut r) {
        WResult::Ok(f) => x.view = Some(View::V2(Box::new(v2), serde_json::to_value(&f).unwrap())),
        WResult::OkWithNFEs(f, n) => { x.diags.extend(n.into_iter().map(diag)); x.view = Some(View::V2(Box::new(v2), serde_json::to_value(&f).unwrap())); }
        WResult::FatalErr(e) => fatal!(diag(e)),
    }
    x
}
/// All files below a directory, with their contents.
pub fn tree(dir: &Path) -> std::collections::BTreeMap<String, String> {
    fn go(d: &Path, base: &Path, out: &mut std::collections::BTreeMap<String, String>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() { go(&p, base, out); } else { let _ = out.insert(p.strip_prefix(base).unwrap().to_string_lossy().into_owned(), std::fs::read_to_string(&p).unwrap_or_default()); }
        }
    }
    let mut o = std::collections::BTreeMap::new(); go(dir, dir, &mut o); o
}
/// YAML text as JSON: tags are externally tagged enums, keys are strings.
pub fn yaml_json(s: &str) -> Result<Value, String> {
    fn go(v: serde_yaml::Value) -> Value {
        use serde_yaml::Value as Y;
        match v {
            Y::Tagged(t) => { let tag = t.tag.to_string(); let mut m = serde_json::Map::new(); let _ = m.insert(tag.trim_start_matches('!').to_owned(), go(t.value)); Value::Object(m) }
            Y::Mapping(m) => Value::Object(m.into_iter().map(|(k, v)| (match k { Y::String(s) => s, k => serde_yaml::to_string(&k).unwrap_or_default().trim().to_owned() }, go(v))).collect()),
            Y::Sequence(a) => Value::Array(a.into_iter().map(go).collect()),
            v => serde_json::to_value(v).unwrap_or(Value::Null),
        }
    }
    serde_yaml::from_str::<serde_yaml::Value>(s).map(go).map_err(|e| e.to_string())
}
