//! Generated semantic-convention registries (definition syntax v1) as JSON values,
//! an independent reference resolver for them, and helpers that drive weaver's
//! public resolver API on a scratch directory.
use crate::tape::Tape;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use weaver_common::result::WResult;
use weaver_common::vdir::VirtualDirectoryPath;
use weaver_resolved_schema::ResolvedTelemetrySchema;
use weaver_resolver::{DefaultSchemaVisitor, Error, WeaverResolvedSchema, WeaverResolver, WeaverResolverConfig};
use weaver_semconv::registry_repo::RegistryRepo;

pub type Obj = Map<String, Value>;

pub fn obj(v: Value) -> Obj { match v { Value::Object(m) => m, _ => panic!("not an object") } }

// ---------------------------------------------------------------- text pools
pub fn text(t: &mut Tape) -> String {
    let pool = [
        "a brief", "The thing.", "Second text", "with `code` and *stars*", "multi\nline\ntext", "trailing space ", "yes", "null", "123", "1.5",
        "a: b # c", "unicode é ü 漢字 🦀", "quote \" ' \\", "- dash", "{json}", "# heading", "tab\there", "[link](https://x.y/z)", "~", "Note: this\n\n- a\n- b\n",
    ];
    let base = *t.pick(&pool);
    if t.chance(1, 3) { format!("{base} {}", t.below(9)) } else { base.to_owned() }
}
pub const STAB: [&str; 5] = ["stable", "development", "alpha", "beta", "release_candidate"];
pub fn stability(t: &mut Tape) -> Value { json!(*t.pick(&STAB)) }
pub fn deprecated(t: &mut Tape) -> Value {
    match t.below(4) {
        0 => json!({"reason": "renamed", "renamed_to": t.word_str(&['a', 'b', '.'], 1, 4).replace('.', "x")}),
        1 => json!({"reason": "renamed", "renamed_to": "other.name", "note": text(t)}),
        2 => json!({"reason": "obsoleted", "note": text(t)}),
        _ => json!({"reason": "uncategorized", "note": text(t)}),
    }
}
pub fn any_yaml(t: &mut Tape, depth: u32) -> Value {
    match t.below(if depth == 0 { 4 } else { 6 }) {
        0 => json!(t.range(-3, 100)),
        1 => json!(text(t)),
        2 => json!(t.bool()),
        3 => json!(t.range(-9, 9) as f64 + 0.5),
        4 => { let n = t.size(0, 3); Value::Array((0..n).map(|_| any_yaml(t, depth - 1)).collect()) }
        _ => { let n = t.size(0, 3); let mut m = Map::new(); for _ in 0..n { let k = *t.pick(&["k1", "k2", "nested", "code gen", "x.y"]); let v = any_yaml(t, depth - 1); let _ = m.insert(k.into(), v); } Value::Object(m) }
    }
}
pub fn annotations(t: &mut Tape) -> Value {
    let n = t.size(1, 3); let mut m = Map::new();
    for _ in 0..n { let k = *t.pick(&["owner", "code_generation", "tier", "a b"]); let v = if t.chance(1, 8) { Value::Null } else { any_yaml(t, 2) }; let _ = m.insert(k.into(), v); }
    Value::Object(m)
}
pub fn requirement_level(t: &mut Tape) -> Value {
    match t.below(6) {
        0 => json!("required"), 1 => json!("recommended"), 2 => json!("opt_in"),
        3 => json!({"conditionally_required": text(t)}), 4 => json!({"recommended": text(t)}), _ => json!({"opt_in": text(t)}),
    }
}
pub const PRIMS: [&str; 9] = ["string", "int", "double", "boolean", "any", "string[]", "int[]", "double[]", "boolean[]"];
pub fn attr_type(t: &mut Tape) -> Value {
    match t.below(8) {
        0..=3 => json!(*t.pick(&PRIMS)),
        4 => json!(format!("template[{}]", *t.pick(&["string", "int", "double", "boolean", "string[]", "int[]", "double[]", "boolean[]", "any"]))),
        5 => json!("string"),
        _ => enum_type(t),
    }
}
pub fn enum_type(t: &mut Tape) -> Value {
    let n = t.size(1, 4); let kind = t.below(2); let mut ms = vec![];
    for i in 0..n {
        let mut m = Map::new();
        let _ = m.insert("id".into(), json!(format!("m{i}")));
        let _ = m.insert("value".into(), if kind == 0 { json!(format!("v{i}")) } else { json!(i) });
        let _ = m.insert("stability".into(), stability(t));
        if t.bool() { let _ = m.insert("brief".into(), json!(text(t))); }
        if t.chance(1, 4) { let _ = m.insert("note".into(), json!(text(t))); }
        if t.chance(1, 5) { let _ = m.insert("deprecated".into(), deprecated(t)); }
        if t.chance(1, 6) { let _ = m.insert("annotations".into(), annotations(t)); }
        ms.push(Value::Object(m));
    }
    json!({"members": ms})
}
/// Examples compatible with the type.
pub fn examples(t: &mut Tape, ty: &Value) -> Option<Value> {
    let scalar = |t: &mut Tape, k: &str| match k {
        "int" => json!(t.range(-5, 5000)), "double" => json!(t.range(-20, 20) as f64 + 0.25), "boolean" => json!(t.bool()),
        _ => json!(format!("ex{}", t.below(50))),
    };
    let s = ty.as_str()?;
    let s = s.strip_prefix("template[").map(|x| x.strip_suffix(']').unwrap_or(x)).unwrap_or(s);
    if s == "any" { return None; }
    if let Some(b) = s.strip_suffix("[]") {
        // list of lists
        let n = t.size(1, 2);
        Some(Value::Array((0..n).map(|_| { let k = t.size(1, 3); Value::Array((0..k).map(|_| scalar(t, b)).collect()) }).collect()))
    } else if t.chance(1, 3) { Some(scalar(t, s)) }
    else { let n = t.size(1, 3); Some(Value::Array((0..n).map(|_| scalar(t, s)).collect())) }
}

pub const OVERRIDABLE: [&str; 10] = ["brief", "examples", "tag", "requirement_level", "sampling_relevant", "note", "stability", "deprecated", "annotations", "role"];

fn attr_field(t: &mut Tape, f: &str, ty: &Value) -> Option<Value> {
    Some(match f {
        "brief" | "note" => json!(text(t)),
        "tag" => json!(*t.pick(&["tag-a", "tag-b", "sensitive"])),
        "requirement_level" => requirement_level(t),
        "sampling_relevant" => json!(t.bool()),
        "stability" => stability(t),
        "deprecated" => deprecated(t),
        "annotations" => annotations(t),
        "role" => json!(*t.pick(&["identifying", "descriptive"])),
        "examples" => return examples(t, ty),
        _ => unreachable!(),
    })
}
/// A full attribute definition (`id:`).
pub fn attr_def(t: &mut Tape, id: &str) -> Obj {
    let ty = attr_type(t);
    let mut m = Map::new();
    let _ = m.insert("id".into(), json!(id));
    let _ = m.insert("type".into(), ty.clone());
    let _ = m.insert("brief".into(), json!(text(t)));
    let _ = m.insert("stability".into(), stability(t));
    let is_str = ty.as_str().is_some_and(|s| s.contains("string"));
    if is_str || t.chance(1, 3) { if let Some(e) = examples(t, &ty) { let _ = m.insert("examples".into(), e); } }
    for f in ["tag", "requirement_level", "sampling_relevant", "note", "deprecated", "annotations", "role"] {
        if t.chance(1, 5) { if let Some(v) = attr_field(t, f, &ty) { let _ = m.insert(f.into(), v); } }
    }
    m
}
/// A reference with random overrides.
pub fn attr_ref(t: &mut Tape, id: &str, ty: &Value) -> Obj {
    let mut m = Map::new();
    let _ = m.insert("ref".into(), json!(id));
    for f in OVERRIDABLE { if t.chance(1, 5) { if let Some(v) = attr_field(t, f, ty) { let _ = m.insert(f.into(), v); } } }
    m
}

#[derive(Clone, Copy)]
pub struct RegOpts { pub max_groups: usize, pub extends: bool, pub signal_defs: bool, pub assoc: bool, pub max_attrs: usize, pub min_groups: usize }
impl Default for RegOpts { fn default() -> Self { RegOpts { max_groups: 7, extends: true, signal_defs: true, assoc: true, max_attrs: 4, min_groups: 1 } } }

/// A registry: groups in generation order (a group only extends earlier groups).
#[derive(Clone, Debug)]
pub struct Reg { pub groups: Vec<Obj> }

pub fn gen_registry(t: &mut Tape, o: RegOpts) -> Reg {
    let mut groups: Vec<Obj> = vec![];
    let mut defs: Vec<(String, Value)> = vec![]; // attribute id, type
    let n = t.size(o.min_groups, o.max_groups);
    let mut used_attr_ids: BTreeSet<String> = BTreeSet::new();
    let mut new_attr = |t: &mut Tape| -> Option<String> {
        for _ in 0..4 {
            let id = format!("{}.{}{}", t.pick(&["ns", "http", "db.sys", "a.b_c"]), t.pick(&["x", "name", "id", "state", "k_v"]), t.below(6));
            if used_attr_ids.insert(id.clone()) { return Some(id); }
        }
        None
    };
    let mut entities: Vec<String> = vec![];
    for i in 0..n {
        let ty = if i == 0 { "attribute_group" } else { *t.pick(&["attribute_group", "span", "event", "metric", "entity"]) };
        let mut g = Map::new();
        let nm = format!("{}{}", t.pick(&["alpha", "beta.one", "z", "mid"]), i);
        let id = match ty { "attribute_group" => format!("registry.{nm}"), _ => format!("{ty}.{nm}") };
        let _ = g.insert("id".into(), json!(id));
        let _ = g.insert("type".into(), json!(ty));
        let _ = g.insert("brief".into(), json!(text(t)));
        if ty != "attribute_group" || t.chance(1, 3) { let _ = g.insert("stability".into(), stability(t)); }
        if t.chance(1, 3) { let _ = g.insert("note".into(), json!(text(t))); }
        if t.chance(1, 5) { let _ = g.insert("deprecated".into(), deprecated(t)); }
        if t.chance(1, 5) { let _ = g.insert("annotations".into(), annotations(t)); }
        if t.chance(1, 5) { let _ = g.insert("display_name".into(), json!(text(t))); }
        match ty {
            "span" => {
                let _ = g.insert("span_kind".into(), json!(*t.pick(&["client", "server", "internal", "producer", "consumer"])));
            }
            "event" => { let _ = g.insert("name".into(), json!(nm)); }
            "metric" => {
                let _ = g.insert("metric_name".into(), json!(nm));
                let _ = g.insert("instrument".into(), json!(*t.pick(&["counter", "gauge", "histogram", "updowncounter"])));
                let _ = g.insert("unit".into(), json!(*t.pick(&["s", "By", "{request}", "1"])));
            }
            "entity" => { let _ = g.insert("name".into(), json!(nm)); }
            _ => {}
        }
        if o.extends && i > 0 && t.chance(2, 5) {
            let p = t.below(i as u64) as usize;
            let _ = g.insert("extends".into(), groups[p]["id"].clone());
        }
        let mut attrs = vec![];
        let mut here: BTreeSet<String> = BTreeSet::new();
        let k = t.size(if g.contains_key("extends") { 0 } else { 1 }, o.max_attrs);
        for _ in 0..k {
            let define = i == 0 || (defs.is_empty()) || (if ty == "attribute_group" { t.chance(3, 5) } else { o.signal_defs && t.chance(1, 6) });
            if define {
                if let Some(aid) = new_attr(t) {
                    let d = attr_def(t, &aid);
                    defs.push((aid.clone(), d["type"].clone()));
                    let _ = here.insert(aid);
                    attrs.push(Value::Object(d));
                }
            } else {
                let (aid, aty) = t.pick(&defs).clone();
                if here.insert(aid.clone()) { attrs.push(Value::Object(attr_ref(t, &aid, &aty))); }
            }
        }
        if attrs.is_empty() && !g.contains_key("extends") {
            if let Some(aid) = new_attr(t) { let d = attr_def(t, &aid); defs.push((aid, d["type"].clone())); attrs.push(Value::Object(d)); }
            else { let (aid, aty) = t.pick(&defs).clone(); attrs.push(Value::Object(attr_ref(t, &aid, &aty))); }
        }
        t.shuffle(&mut attrs);
        if !attrs.is_empty() { let _ = g.insert("attributes".into(), Value::Array(attrs)); }
        if ty == "entity" { entities.push(nm.clone()); }
        groups.push(g);
    }
    if o.assoc && !entities.is_empty() {
        for g in groups.iter_mut() {
            if matches!(g["type"].as_str(), Some("span" | "event" | "metric")) && t.chance(1, 2) {
                let n = t.size(1, 2);
                let v: Vec<Value> = (0..n).map(|_| assoc(t, &entities, 2)).collect();
                let _ = g.insert("entity_associations".into(), Value::Array(v));
            }
        }
    }
    Reg { groups }
}
pub fn assoc(t: &mut Tape, entities: &[String], depth: u32) -> Value {
    match t.below(if depth == 0 { 1 } else { 4 }) {
        0 | 1 => json!(t.pick(entities)),
        2 => { let n = t.size(1, 3); json!({"one_of": (0..n).map(|_| assoc(t, entities, depth - 1)).collect::<Vec<_>>()}) }
        _ => { let n = t.size(1, 3); json!({"all_of": (0..n).map(|_| assoc(t, entities, depth - 1)).collect::<Vec<_>>()}) }
    }
}

// ---------------------------------------------------------------- layout
pub struct Layout { pub files: Vec<(String, Vec<Obj>)> }
/// Distributes the groups over files in nested directories, in shuffled order.
pub fn layout(t: &mut Tape, reg: &Reg) -> Layout {
    let mut gs = reg.groups.clone();
    t.shuffle(&mut gs);
    let nf = t.size(1, 4);
    let names = ["a.yaml", "sub/b.yml", "sub/deep/c.yaml", "zz/d.yaml"];
    let mut files: Vec<(String, Vec<Obj>)> = (0..nf).map(|i| (names[i].to_owned(), vec![])).collect();
    for g in gs { let f = t.below(nf as u64) as usize; files[f].1.push(g); }
    files.retain(|f| !f.1.is_empty());
    Layout { files }
}
pub fn single(reg: &Reg) -> Layout { Layout { files: vec![("reg.yaml".into(), reg.groups.clone())] } }
pub fn write_layout(dir: &Path, l: &Layout) {
    for (name, gs) in &l.files {
        let p = dir.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, serde_yaml::to_string(&json!({"groups": gs})).unwrap()).unwrap();
    }
}
pub fn write_yaml(p: &Path, v: &Value) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, serde_yaml::to_string(v).unwrap()).unwrap();
}
pub fn manifest(dir: &Path, schema_url: &str, deps: &[(&str, Option<String>)]) {
    let mut m = json!({"schema_url": schema_url, "stability": "stable", "description": "d"});
    if !deps.is_empty() {
        let d: Vec<Value> = deps.iter().map(|(u, p)| { let mut x = json!({"schema_url": u}); if let Some(p) = p { x["registry_path"] = json!(p); } x }).collect();
        m["dependencies"] = json!(d);
    }
    write_yaml(&dir.join("manifest.yaml"), &m);
}

// ---------------------------------------------------------------- driving weaver
pub struct Resolved { pub schema: ResolvedTelemetrySchema, pub errors: Vec<Error>, pub warnings: Vec<Error> }
pub fn is_warning(e: &Error) -> bool {
    // the same partition the CLI uses
    let mut d = weaver_common::diagnostic::DiagnosticMessages::empty();
    matches!(WResult::OkWithNFEs((), vec![e.clone()]).capture_warnings(&mut d), WResult::Ok(()))
}
pub fn split(nfes: Vec<Error>) -> (Vec<Error>, Vec<Error>) { nfes.into_iter().partition(|e| !is_warning(e)) }
pub fn repo(dir: &Path) -> Result<RegistryRepo, String> {
    let vp = VirtualDirectoryPath::LocalFolder { path: dir.to_string_lossy().into_owned() };
    let mut nfes = vec![];
    RegistryRepo::try_new(None, &vp, &mut nfes).map_err(|e| format!("{e:?}"))
}
pub fn resolve_with(dir: &Path, r: &mut WeaverResolver) -> Result<Resolved, String> {
    let rp = repo(dir)?;
    match r.load_and_resolve_schema(rp, DefaultSchemaVisitor) {
        WResult::Ok(s) => to_v1(s, vec![]),
        WResult::OkWithNFEs(s, n) => to_v1(s, n),
        WResult::FatalErr(e) => Err(format!("{e:?}")),
    }
}
fn to_v1(s: WeaverResolvedSchema, n: Vec<Error>) -> Result<Resolved, String> {
    match s {
        WeaverResolvedSchema::V1(schema) => { let (errors, warnings) = split(n); Ok(Resolved { schema, errors, warnings }) }
        WeaverResolvedSchema::V2(_) => Err("resolved to v2".into()),
    }
}
pub fn resolve_dir(dir: &Path) -> Result<Resolved, String> {
    resolve_with(dir, &mut WeaverResolver::new(WeaverResolverConfig::default()))
}
pub struct Scratch { pub dir: tempfile::TempDir }
impl Scratch {
    pub fn new() -> Self { Scratch { dir: tempfile::Builder::new().prefix("vh").tempdir_in(scratch_root()).unwrap() } }
    pub fn path(&self) -> &Path { self.dir.path() }
    pub fn sub(&self, s: &str) -> PathBuf { let p = self.dir.path().join(s); std::fs::create_dir_all(&p).unwrap(); p }
}
pub fn scratch_root() -> PathBuf {
    let p = PathBuf::from("/dev/shm");
    if p.is_dir() && std::fs::metadata(&p).map(|m| !m.permissions().readonly()).unwrap_or(false) { p } else { std::env::temp_dir() }
}

// ---------------------------------------------------------------- reference resolver
/// Drops nulls, empty strings/lists at the given top-level keys; what weaver's
/// serialization treats as "not set".
pub fn norm(mut m: Obj) -> Obj {
    m.retain(|_, v| !(v.is_null() || v == "" || v == &json!([]) ));
    if m.get("prefix") == Some(&json!(false)) { let _ = m.remove("prefix"); }
    m
}
pub fn norm_deprecated(v: &Value) -> Value {
    let mut v = v.clone();
    if v.get("note").is_none() {
        let n = match v["reason"].as_str() {
            Some("renamed") => format!("Replaced by `{}`.", v["renamed_to"].as_str().unwrap_or("")),
            Some("obsoleted") => "Obsoleted.".into(), _ => "Uncategorized.".into() };
        v["note"] = json!(n);
    }
    v
}
fn norm_type(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(ms) = v.get_mut("members").and_then(|m| m.as_array_mut()) {
        for m in ms {
            let mut o = m.as_object().unwrap().clone();
            if let Some(d) = o.get("deprecated") { let d = norm_deprecated(d); let _ = o.insert("deprecated".into(), d); }
            *m = Value::Object(norm(o));
        }
    }
    v
}
pub fn norm_attr(m: Obj) -> Obj {
    let mut m = norm(m);
    if let Some(d) = m.get("deprecated") { let d = norm_deprecated(d); let _ = m.insert("deprecated".into(), d); }
    if let Some(d) = m.get("type") { let d = norm_type(d); let _ = m.insert("type".into(), d); }
    m
}
/// Where an attribute of a group comes from.
#[derive(Clone, Debug)]
pub struct Layered { pub def_group: String, pub def: Obj, pub layers: Vec<(String, Obj)> }
impl Layered {
    pub fn value(&self, name: &str) -> Obj {
        let mut m = self.def.clone();
        let _ = m.remove("id");
        let _ = m.insert("name".into(), json!(name));
        if !m.contains_key("requirement_level") { let _ = m.insert("requirement_level".into(), json!("recommended")); }
        for (_, l) in &self.layers {
            for f in OVERRIDABLE { if let Some(v) = l.get(f) { let _ = m.insert(f.into(), v.clone()); } }
        }
        norm_attr(m)
    }
}
/// group id -> (attribute name -> provenance of its fields)
pub fn reference(reg: &[Obj]) -> BTreeMap<String, BTreeMap<String, Layered>> {
    let mut defs: BTreeMap<String, (String, Obj)> = BTreeMap::new();
    let by_id: BTreeMap<String, &Obj> = reg.iter().map(|g| (g["id"].as_str().unwrap().to_owned(), g)).collect();
    let attrs = |g: &Obj| -> Vec<Obj> { g.get("attributes").and_then(|a| a.as_array()).map(|a| a.iter().map(|x| x.as_object().unwrap().clone()).collect()).unwrap_or_default() };
    for g in reg { for a in attrs(g) { if let Some(id) = a.get("id") { let _ = defs.insert(id.as_str().unwrap().into(), (g["id"].as_str().unwrap().into(), a.clone())); } } }
    fn go(id: &str, by_id: &BTreeMap<String, &Obj>, defs: &BTreeMap<String, (String, Obj)>, memo: &mut BTreeMap<String, BTreeMap<String, Layered>>, attrs: &dyn Fn(&Obj) -> Vec<Obj>) -> BTreeMap<String, Layered> {
        if let Some(m) = memo.get(id) { return m.clone(); }
        let g = by_id[id];
        let mut out = match g.get("extends").and_then(|e| e.as_str()) { Some(p) => go(p, by_id, defs, memo, attrs), None => BTreeMap::new() };
        for a in attrs(g) {
            if let Some(i) = a.get("id") {
                let _ = out.insert(i.as_str().unwrap().into(), Layered { def_group: id.into(), def: a.clone(), layers: vec![] });
            } else {
                let r = a["ref"].as_str().unwrap().to_owned();
                let e = out.entry(r.clone()).or_insert_with(|| { let (dg, d) = &defs[&r]; Layered { def_group: dg.clone(), def: d.clone(), layers: vec![] } });
                e.layers.push((id.into(), a.clone()));
            }
        }
        let _ = memo.insert(id.into(), out.clone());
        out
    }
    let mut memo = BTreeMap::new();
    for g in reg { let _ = go(g["id"].as_str().unwrap(), &by_id, &defs, &mut memo, &attrs); }
    memo
}
/// Expected group fields other than attributes/lineage.
pub fn expected_group(g: &Obj) -> Obj {
    let mut m = g.clone();
    for k in ["attributes", "extends"] { let _ = m.remove(k); }
    if let Some(d) = m.get("deprecated") { let d = norm_deprecated(d); let _ = m.insert("deprecated".into(), d); }
    norm(m)
}
pub fn actual_group(g: &Value) -> Obj {
    let mut m = g.as_object().unwrap().clone();
    for k in ["attributes", "lineage"] { let _ = m.remove(k); }
    norm(m)
}
pub fn diff_str(a: &Value, b: &Value) -> String {
    let x = serde_json::to_string_pretty(a).unwrap(); let y = serde_json::to_string_pretty(b).unwrap();
    format!("expected:\n{x}\nactual:\n{y}")
}
/// The observable content of a v1 resolved schema.
pub fn v1_json(s: &ResolvedTelemetrySchema) -> Value {
    let attrs: Vec<Value> = s.catalog.attributes().map(|a| serde_json::to_value(a).unwrap()).collect();
    json!({"file_format": s.file_format, "schema_url": s.schema_url, "registry_id": s.registry_id, "registry": serde_json::to_value(&s.registry).unwrap(), "catalog": attrs,
        "dependencies": s.dependencies.iter().map(|d| d.as_str().to_owned()).collect::<Vec<_>>()})
}

// ---------------------------------------------------------------- v2 views
pub type V2Schema = weaver_resolved_schema::v2::ResolvedTelemetrySchema;
pub type Forge2 = weaver_forge::v2::registry::ForgeResolvedRegistry;
pub struct Resolved2 { pub schema: V2Schema, pub forge: Forge2, pub errors: Vec<Error>, pub warnings: Vec<Error> }
pub fn forge2(schema: V2Schema, r: &mut WeaverResolver) -> Result<Forge2, String> {
    match Forge2::try_from_resolved_schema(schema, r) {
        WResult::Ok(f) => Ok(f),
        WResult::OkWithNFEs(_, n) => Err(format!("materialization reported {n:?}")),
        WResult::FatalErr(e) => Err(format!("{e:?}")),
    }
}
/// Resolves a registry (definition or published) to the v2 views, as `--v2` does.
pub fn resolve2_with(dir: &Path, r: &mut WeaverResolver) -> Result<Resolved2, String> { resolve2_repo(repo(dir)?, r) }
/// Any registry path: folders, archives, URLs.
pub fn resolve2_path(p: &str) -> Result<Resolved2, String> {
    let vp: weaver_common::vdir::VirtualDirectoryPath = p.try_into().map_err(|e| format!("{e:?}"))?;
    let mut nfes = vec![];
    let rp = RegistryRepo::try_new(None, &vp, &mut nfes).map_err(|e| format!("{e:?}"))?;
    resolve2_repo(rp, &mut WeaverResolver::new(WeaverResolverConfig::default()))
}
pub fn resolve2_repo(rp: RegistryRepo, r: &mut WeaverResolver) -> Result<Resolved2, String> {
    let (s, n) = match r.load_and_resolve_schema(rp, DefaultSchemaVisitor) {
        WResult::Ok(s) => (s, vec![]),
        WResult::OkWithNFEs(s, n) => (s, n),
        WResult::FatalErr(e) => return Err(format!("{e:?}")),
    };
    let schema: V2Schema = match s { WeaverResolvedSchema::V1(v1) => v1.try_into().map_err(|e: weaver_resolved_schema::error::Error| format!("v1->v2: {e:?}"))?, WeaverResolvedSchema::V2(v2) => v2 };
    let forge = forge2(schema.clone(), r)?;
    let (errors, warnings) = split(n);
    Ok(Resolved2 { schema, forge, errors, warnings })
}
pub fn resolve2(dir: &Path) -> Result<Resolved2, String> { resolve2_with(dir, &mut WeaverResolver::new(WeaverResolverConfig::default())) }
