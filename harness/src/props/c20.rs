//! C20: template filters, tests and JQ helper functions compute what they document.
use crate::engine::*;
use crate::ensure;
use crate::forge::snippet;
use crate::reg::diff_str;
use crate::tape::Tape;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop { id: "C20", rule: "text: random identifiers and sentences (mixed case, acronyms, digits, separators) through every string filter (nine case conventions, the *_const variants, namespace/id/title/file splitters, acronym, type_mapping, map_text, split_id, comment_with_prefix, regex_replace, print_member_value) compared with independent definitions; data: attribute lists, types, enum members, nested bodies and metrics through the list/type/Prometheus filters and tests; jq: generated v1 and v2 registries through the semconv_* functions with random options. Non-trivial: text with at least two words / lists of at least two items / an option that removes something.",
        assumptions: &["case filters are checked on ASCII identifiers", "the Prometheus unit table is the one of the OpenTelemetry specification restricted to the units weaver lists"],
        suites: vec![
            Suite { name: "text", quick: 12_000, thorough: 200_000, parallel: true, run: text, shrink: 800 },
            Suite { name: "data", quick: 8_000, thorough: 150_000, parallel: true, run: data, shrink: 800 },
            Suite { name: "jq", quick: 3_000, thorough: 50_000, parallel: true, run: jq, shrink: 600 },
        ] }
}
const SEP: char = '\u{1}';
// ---------- reference case conversion ----------
pub fn words(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let up = |x: Option<&char>| x.is_some_and(|x| x.is_uppercase());
    let lo = |x: Option<&char>| x.is_some_and(|x| x.is_lowercase());
    let mut out = vec![]; let mut cur = String::new();
    for (i, ch) in c.iter().enumerate() {
        if ['.', '_', '-', ' '].contains(ch) { out.push(std::mem::take(&mut cur)); continue; }
        let after_lower = i > 0 && lo(c.get(i - 1)) && up(Some(ch));
        let acronym_end = i > 0 && up(c.get(i - 1)) && up(Some(ch)) && lo(c.get(i + 1));
        if after_lower || acronym_end { out.push(std::mem::take(&mut cur)); }
        cur.push(*ch);
    }
    out.push(cur);
    if c.is_empty() { vec![] } else { out }
}
fn cap(w: &str) -> String { let mut i = w.chars(); i.next().map(|f| f.to_uppercase().collect::<String>() + &i.as_str().to_lowercase()).unwrap_or_default() }
pub fn case(name: &str, s: &str) -> String {
    let w = words(s);
    let lower = || w.iter().map(|x| x.to_lowercase()).collect::<Vec<_>>();
    let upper = || w.iter().map(|x| x.to_uppercase()).collect::<Vec<_>>();
    let capital = || w.iter().map(|x| cap(x)).collect::<Vec<_>>();
    match name {
        "lower_case" => lower().join(" "), "upper_case" => upper().join(" "), "title_case" => capital().join(" "),
        "pascal_case" => capital().concat(),
        "camel_case" => capital().iter().enumerate().map(|(i, x)| if i == 0 { x.to_lowercase() } else { x.clone() }).collect(),
        "snake_case" => lower().join("_"), "screaming_snake_case" => upper().join("_"),
        "kebab_case" => lower().join("-"), "screaming_kebab_case" => upper().join("-"),
        _ => unreachable!(),
    }
}
const CASES: [&str; 9] = ["lower_case", "upper_case", "title_case", "pascal_case", "camel_case", "snake_case", "screaming_snake_case", "kebab_case", "screaming_kebab_case"];
const CONSTS: [&str; 5] = ["kebab_case", "pascal_case", "camel_case", "snake_case", "screaming_snake_case"];

fn ident(t: &mut Tape) -> String {
    let n = t.size(0, 5); let mut s = String::new();
    for i in 0..n {
        if i > 0 { s.push_str(t.pick(&["", ".", "_", "-", " ", "."])); }
        s.push_str(t.pick(&["http", "HTTP", "Http", "id", "ID", "k8s", "x", "A", "Url", "URLs", "v2", "2fa", "10", "gRPC", "oTel", "é", "__", "user"]));
    }
    s
}
fn sentence(t: &mut Tape) -> String {
    let n = t.size(0, 6); let mut s = String::new();
    for i in 0..n {
        if i > 0 { s.push_str(t.pick(&[" ", " ", ", ", "\n", "-", "  ", ".", "_"])); }
        s.push_str(t.pick(&["url", "Url", "URL", "io", "the", "id", "ids", "iOS", "http", "a", "42", "naïve", "\"q\"", "\\", "<b>", "'", "HTTP"]));
    }
    s
}
fn ref_acronym(acr: &[&str], s: &str) -> String {
    // maximal runs of whitespace / word characters / other characters
    let kind = |c: char| if c.is_whitespace() { 0 } else if c.is_alphanumeric() || c == '_' { 1 } else { 2 };
    let mut out = String::new(); let mut cur = String::new(); let mut k = 3;
    let flush = |cur: &mut String, out: &mut String| { out.push_str(acr.iter().rev().find(|a| a.to_lowercase() == cur.to_lowercase()).copied().unwrap_or(cur)); cur.clear(); };
    for c in s.chars() { if kind(c) != k { flush(&mut cur, &mut out); k = kind(c); } cur.push(c); }
    flush(&mut cur, &mut out); out
}
fn one(cfg: &Value, expr: &str, ctx: &Value) -> Result<String, String> { snippet(cfg, &format!("{{{{ {expr} }}}}"), ctx) }

fn text(t: &mut Tape, c: &mut Case) -> CaseResult {
    match t.below(3) {
        0 => {
            c.label("case");
            let l: Vec<String> = (0..t.size(1, 6)).map(|_| ident(t)).collect();
            c.desc(json!(l).to_string());
            c.nontrivial(l.iter().any(|s| words(s).len() > 1));
            let mut tpl = String::from("{% for s in l %}"); let mut exp = vec![];
            let all: Vec<String> = CASES.iter().map(|s| (*s).to_owned()).chain(CONSTS.iter().map(|s| format!("{s}_const"))).chain(["capitalize_first".to_owned()]).collect();
            for f in &all { tpl.push_str(&format!("{{{{ s | {f} }}}}{SEP}")); }
            tpl.push_str("{% endfor %}");
            for s in &l { for f in &all {
                exp.push(if f == "capitalize_first" { let mut i = s.chars(); i.next().map(|x| x.to_uppercase().collect::<String>() + i.as_str()).unwrap_or_default() }
                    else if let Some(b) = f.strip_suffix("_const") { case(b, &s.replace('_', "")) } else { case(f, s) });
            } }
            let r = match snippet(&json!({}), &tpl, &json!({"l": l})) { Ok(r) => r, Err(e) => return fail("case filter failed", e) };
            let got: Vec<&str> = r.split(SEP).collect();
            for (i, e) in exp.iter().enumerate() {
                let f = &all[i % all.len()];
                ensure!(got.get(i) == Some(&e.as_str()), format!("{f} differs"), "{:?} | {f}: expected {e:?}, got {:?}", l[i / all.len()], got.get(i));
            }
            ensure!(got.len() == exp.len() + 1, "output lost", "{r}");
        }
        1 => {
            c.label("split");
            let s = match t.below(4) { 0 => format!("registry.{}", ident(t)), 1 => format!("metric.{}", ident(t)), _ => ident(t) };
            c.desc(s.clone()); c.nontrivial(s.contains('.'));
            let p: Vec<&str> = s.split('.').collect();
            let reg = if p.len() >= 2 && p[0] == "registry" { Some(p[1]) } else { None };
            let sp: Option<(String, String)> = match s.split_once('.') { None if s.is_empty() => None, None => Some(("other".into(), s.clone())), Some((a, b)) if a.is_empty() || b.is_empty() => None, Some((a, b)) => Some((a.into(), b.into())) };
            let exp: Vec<(&str, Option<String>)> = vec![
                ("attribute_namespace", sp.clone().map(|x| x.0)), ("attribute_id", sp.map(|x| x.1)),
                ("attribute_registry_namespace", reg.map(str::to_owned)), ("attribute_registry_title", reg.map(|r| case("title_case", r))),
                ("attribute_registry_file", reg.map(|r| format!("attributes-registry/{}.md", case("kebab_case", r)))),
                ("metric_namespace", if p.len() >= 2 && p[0] == "metric" { Some(p[1].to_owned()) } else { None }),
                ("split_id | join('|')", Some(p.join("|"))),
            ];
            let ctx = json!({"s": s});
            for (f, e) in exp {
                let got = one(&json!({}), &format!("s | {f}"), &ctx).ok();
                ensure!(got == e, format!("{f} differs"), "{s:?} | {f}: expected {e:?}, got {got:?}");
            }
        }
        _ => {
            c.label("mapping");
            let s = sentence(t);
            let pool = ["URL", "IO", "iOS", "HTTP", "ID", "Url"];
            let acr: Vec<&str> = t.subset(&pool, 1, 2);
            let maps: Vec<String> = (0..t.size(0, 3)).map(|_| sentence(t)).collect();
            let key = if !maps.is_empty() && t.chance(2, 3) { t.pick(&maps).clone() } else { sentence(t) };
            let tm: BTreeMap<String, String> = maps.iter().enumerate().map(|(i, k)| (k.clone(), format!("t{i}"))).collect();
            let xm: BTreeMap<String, String> = maps.iter().enumerate().skip(1).map(|(i, k)| (k.clone(), format!("x{i}"))).collect();
            let prefix = *t.pick(&["// ", "#", " * ", ""]);
            let pat = *t.pick(&["u", "[aeiou]+", "\\s", "^.", "http|URL"]); let rep = *t.pick(&["", "_", "XY"]);
            let cfg = json!({"acronyms": acr, "type_mapping": tm, "text_maps": {"m": xm}});
            let ctx = json!({"s": s, "k": key});
            c.desc(json!([cfg, ctx, prefix, pat]).to_string()); c.nontrivial(s.contains(' '));
            let exp: Vec<(String, String)> = vec![
                ("s | acronym".into(), ref_acronym(&acr, &s)),
                ("k | type_mapping".into(), tm.get(&key).cloned().unwrap_or(key.clone())),
                ("k | map_text('m')".into(), xm.get(&key).cloned().unwrap_or(key.clone())),
                ("k | map_text('m', 'dflt')".into(), xm.get(&key).cloned().unwrap_or("dflt".into())),
                ("k | map_text('nope', 'dflt')".into(), "dflt".into()),
                ("k | map_text('nope')".into(), key.clone()),
                (format!("s | comment_with_prefix('{prefix}')"), s.lines().enumerate().fold(String::new(), |mut a, (_, l)| { if !a.is_empty() { a.push('\n'); } a.push_str(prefix); a.push_str(l); a })),
                (format!("s | regex_replace('{}', '{rep}')", pat.replace('\\', "\\\\")), ref_regex(pat, rep, &s)),
                ("s | print_member_value".into(), serde_json::to_string(&s).unwrap()),
                ("s | split_id | length".into(), s.split('.').count().to_string()),
                ("concat_if(s, k) ".into(), format!("{s}{key}")),
                ("concat_if(s, undefined_thing)".into(), String::new()),
                ("s | ansi_bold".into(), format!("\u{1b}[1m{s}\u{1b}[0m")),
            ];
            let tpl: String = exp.iter().map(|(f, _)| format!("{{{{ {f} }}}}{SEP}")).collect();
            let r = match snippet(&cfg, &tpl, &ctx) { Ok(r) => r, Err(e) => return fail("text filter failed", e) };
            let got: Vec<&str> = r.split(SEP).collect();
            for (i, (f, e)) in exp.iter().enumerate() {
                ensure!(got.get(i) == Some(&e.as_str()), format!("{} differs", f.split('(').next().unwrap().trim()), "{f} on {ctx} with {cfg}: expected {e:?}, got {:?}", got.get(i));
            }
        }
    }
    Ok(())
}
fn ref_regex(pat: &str, rep: &str, s: &str) -> String {
    match pat {
        "u" => s.replace('u', rep),
        "[aeiou]+" => { let mut o = String::new(); let mut run = false; for ch in s.chars() { if "aeiou".contains(ch) { if !run { o.push_str(rep); } run = true } else { o.push(ch); run = false } } o }
        "\\s" => s.chars().map(|c| if c.is_whitespace() { rep.to_owned() } else { c.to_string() }).collect(),
        "^." => { let mut i = s.chars(); match i.next() { Some(f) if f != '\n' => format!("{rep}{}", i.as_str()), _ => s.to_owned() } }
        _ => { let mut o = String::new(); let mut r = s; loop { match ["http", "URL"].iter().filter_map(|k| r.find(k).map(|i| (i, k.len()))).min() { Some((i, n)) => { o.push_str(&r[..i]); o.push_str(rep); r = &r[i + n..]; } None => { o.push_str(r); break o; } } } }
    }
}
// ---------- structured data ----------
fn unit_word(u: &str) -> Option<&'static str> {
    [("d", "days"), ("h", "hours"), ("min", "minutes"), ("s", "seconds"), ("ms", "milliseconds"), ("us", "microseconds"), ("ns", "nanoseconds"), ("By", "bytes"), ("KiBy", "kibibytes"), ("MiBy", "mebibytes"), ("GiBy", "gibibytes"), ("TiBy", "tibibytes"), ("KBy", "kilobytes"), ("MBy", "megabytes"), ("GBy", "gigabytes"), ("TBy", "terabytes"), ("m", "meters"), ("V", "volts"), ("A", "amperes"), ("J", "joules"), ("W", "watts"), ("g", "grams"), ("Cel", "celsius"), ("Hz", "hertz"), ("1", "ratio"), ("%", "percent")]
        .iter().find(|x| x.0 == u).map(|x| x.1)
}
fn per_word(u: &str) -> Option<&'static str> { [("s", "second"), ("m", "minute"), ("h", "hour"), ("d", "day"), ("w", "week"), ("mo", "month"), ("y", "year")].iter().find(|x| x.0 == u).map(|x| x.1) }
fn unit_suffix(u: &str) -> Option<String> {
    if let Some(w) = unit_word(u) { return Some(w.into()); }
    let (a, b) = u.split_once('/')?;
    let b = per_word(b)?;
    let a = if ["1", "d", "h", "min", "s", "ms", "us", "ns"].contains(&a) { None } else { unit_word(a) };
    Some(match a { Some(a) => format!("{a}_per_{b}"), None => format!("per_{b}") })
}
fn sanitize(n: &str) -> String {
    let s: String = n.chars().map(|c| if c.is_ascii_alphanumeric() || c == '_' || c == ':' { c } else { '_' }).collect();
    if s.starts_with(|c: char| c.is_ascii_digit()) { format!("_{s}") } else { s }
}
fn suffixed(n: &str, unit: &str, instr: &str) -> String {
    let mut s = n.to_owned();
    if let Some(u) = unit_suffix(unit) { s = format!("{s}_{u}"); }
    if instr == "counter" { s.push_str("_total"); }
    s
}
const STRATS: [&str; 4] = ["NoTranslation", "UnderscoreEscapingWithoutSuffixes", "NoUTF8EscapingWithSuffixes", "UnderscoreEscapingWithSuffixes"];
fn prom(strategy: &str, n: &str, u: &str, i: &str) -> String {
    match strategy { "NoTranslation" => n.to_owned(), "UnderscoreEscapingWithoutSuffixes" => sanitize(n), "NoUTF8EscapingWithSuffixes" => suffixed(n, u, i), _ => suffixed(&sanitize(n), u, i) }
}
fn data(t: &mut Tape, c: &mut Case) -> CaseResult {
    match t.below(4) {
        0 => {
            c.label("attributes");
            let v2 = t.bool(); let key = if v2 { "key" } else { "name" };
            let mut names: Vec<String> = (0..12).map(|i| format!("{}.n{}", ["a", "b", "Z"][i % 3], i)).collect(); t.shuffle(&mut names);
            let n = t.size(0, 8);
            let l: Vec<Value> = names[..n].iter().map(|n| json!({key: n, "requirement_level": match t.below(7) { 0 | 1 => json!("required"), 2 => json!("recommended"), 3 => json!("opt_in"), 4 => json!({"conditionally_required": "x"}), 5 => json!({"recommended": "y"}), _ => json!({"opt_in": "z"}) }})).collect();
            c.desc(json!(l).to_string()); c.nontrivial(n > 1);
            let nm = |l: &[&Value]| l.iter().map(|a| a[key].as_str().unwrap().to_owned()).collect::<Vec<_>>().join(",");
            let all: Vec<&Value> = l.iter().collect();
            let req: Vec<&Value> = all.iter().filter(|a| a["requirement_level"] == "required").copied().collect();
            let not: Vec<&Value> = all.iter().filter(|a| a["requirement_level"] != "required").copied().collect();
            let mut sorted = all.clone();
            let rank = |a: &Value| { let r = &a["requirement_level"]; if r == "required" { 1 } else if r.get("conditionally_required").is_some() { 2 } else if r == "recommended" || r.get("recommended").is_some() { 3 } else { 4 } };
            sorted.sort_by_key(|a| (rank(a), a[key].as_str().unwrap().to_owned()));
            let ctx = json!({"l": l});
            for (f, e) in [("required", nm(&req)), ("not_required", nm(&not)), ("attribute_sort", nm(&sorted))] {
                let r = one(&json!({}), &format!("l | {f} | map(attribute='{key}') | join(',')"), &ctx);
                ensure!(r.as_ref() == Ok(&e), format!("{f} differs"), "{f} on {ctx}: expected {e}, got {r:?}");
            }
        }
        1 => {
            c.label("types");
            let simple = ["string", "int", "double", "boolean", "string[]", "int[]", "double[]", "boolean[]"];
            let k = t.below(5);
            let ms: Vec<Value> = (0..t.size(1, 4)).map(|i| json!({"id": format!("m{i}"), "value": match t.below(6) { 0 | 1 | 2 => json!(i), 3 => json!(0.5 + i as f64), 4 => json!(format!("v{i}")), _ => json!(format!("{i}")) }})).collect();
            let ty = match k { 0 | 1 => json!(t.pick(&simple)), 2 => json!(format!("template[{}]", t.pick(&simple))), 3 => json!({"members": ms}), _ => json!(*t.pick(&["any", "strings", "template[any]", "template[]", "template[template[int]]", ""])) };
            let st = t.opt(3, 4, |t| *t.pick(&["stable", "development", "experimental", "alpha", "beta", "release_candidate", "deprecated"]));
            let dep = t.opt(1, 2, |_| json!({"reason": "obsoleted", "note": ""}));
            let mut a = json!({"type": ty}); if let Some(s) = st { a["stability"] = json!(s); } if let Some(d) = &dep { a["deprecated"] = d.clone(); }
            c.desc(a.to_string()); c.nontrivial(true);
            let kind = |v: &Value| if v.is_string() { "string" } else if v.is_i64() || v.is_u64() { "int" } else { "double" };
            let et = ms.iter().map(|m| kind(&m["value"])).reduce(|a, b| if a == b { a } else { "string" }).unwrap();
            let is_simple = ty.as_str().is_some_and(|s| simple.contains(&s));
            let inner = ty.as_str().and_then(|s| s.strip_prefix("template[")).and_then(|s| s.strip_suffix(']')).filter(|s| simple.contains(s));
            let inst = if is_simple { ty.as_str().map(str::to_owned) } else if let Some(i) = inner { Some(i.to_owned()) } else if k == 3 { Some(et.to_owned()) } else { None };
            let b = |x: bool| Some(if x { "1".to_owned() } else { "0".to_owned() });
            for (e, x) in [("t.type | instantiated_type", inst), ("t.type | enum_type", if k == 3 { Some(et.to_owned()) } else { None }),
                ("1 if t is stable else 0", b(st == Some("stable"))), ("1 if t is deprecated else 0", b(dep.is_some())),
                ("1 if t is experimental else 0", if st.is_none() { None } else { b(st != Some("stable")) }),
                ("1 if t is enum else 0", b(k == 3)), ("1 if t.type is simple_type else 0", b(is_simple)), ("1 if t.type is template_type else 0", b(inner.is_some())),
                ("1 if t.type is enum_type else 0", b(k == 3)), ("1 if t.type is array else 0", b(ty.as_str().is_some_and(|s| is_simple && s.ends_with("[]"))))] {
                if x.is_none() && e.contains("experimental") { continue; } // undocumented without a stability
                let r = one(&json!({}), e, &json!({"t": a})).ok();
                ensure!(r == x, format!("{e} differs"), "{e} on {a}: expected {x:?}, got {r:?}");
            }
        }
        2 => {
            c.label("prometheus");
            let n = { let mut s = String::new(); for _ in 0..t.size(1, 6) { s.push_str(t.pick(&["http", ".", "_", "2", "9x", "dur", "é", "-", ":", "Size", " ", "ñx"])); } s };
            let u = match t.below(3) { 0 => (*t.pick(&["", "s", "ms", "By", "1", "%", "{request}", "Cel", "MBy", "d", "y", "foo"])).to_owned(), 1 => format!("{}/{}", t.pick(&["", "By", "1", "s", "{req}", "m", "foo", "d"]), t.pick(&["s", "m", "h", "d", "w", "mo", "y", "x", "ms"])), _ => (*t.pick(&["m/s", "By/s/s", "/", "KiBy", "W", "g/h"])).to_owned() };
            let i = *t.pick(&["counter", "gauge", "histogram", "updowncounter", "summary"]);
            let m = json!({"metric_name": n, "unit": u, "instrument": i}); let ctx = json!({"m": m});
            c.desc(m.to_string()); c.nontrivial(!u.is_empty());
            for s in STRATS {
                let e = prom(s, &n, &u, i);
                let r = one(&json!({}), &format!("m | prometheus_metric_name(translation_strategy='{s}')"), &ctx);
                ensure!(r.as_ref() == Ok(&e), "prometheus_metric_name differs", "{m} with {s}: expected {e:?}, got {r:?}");
                let x = t.bool();
                let mut names = vec![e.clone()];
                if x && (i == "histogram" || i == "summary") { if i == "histogram" { names.push(format!("{e}_bucket")); } names.push(format!("{e}_count")); names.push(format!("{e}_sum")); }
                let r = one(&json!({}), &format!("m | prometheus_metric_names(translation_strategy='{s}', expand_summary_and_histogram={x}) | join('|')"), &ctx);
                ensure!(r == Ok(names.join("|")), "prometheus_metric_names differs", "{m} with {s} expand {x}: expected {names:?}, got {r:?}");
            }
            let mut every: Vec<String> = vec![]; for s in STRATS { let e = prom(s, &n, &u, i); if !every.contains(&e) { every.push(e); } }
            let mut got: Vec<String> = match one(&json!({}), "m | prometheus_metric_names | join('|')", &ctx) { Ok(r) => r.split('|').map(str::to_owned).collect(), Err(e) => return fail("prometheus_metric_names failed", e) };
            every.sort(); got.sort();
            ensure!(got == every, "prometheus_metric_names differs", "{m}: expected {every:?}, got {got:?}");
            let r = one(&json!({}), "m | prometheus_unit_name", &ctx);
            ensure!(r == Ok(unit_word(&u).unwrap_or(&u).to_owned()), "prometheus_unit_name differs", "{m}: {r:?}");
        }
        _ => {
            c.label("collections");
            // numsort over a map, flatten over a list of lists, body_fields over a tree
            let keys: Vec<String> = { let mut k: Vec<String> = ["10", "9", "-3", "2", "abc", "b", "007", "1x", "0", ""].iter().map(|s| (*s).to_owned()).collect(); t.shuffle(&mut k); let n = t.size(0, 8); k.truncate(n); k };
            let m: serde_json::Map<String, Value> = keys.iter().map(|k| (k.clone(), json!(format!("v{k}")))).collect();
            let ll: Vec<Vec<i64>> = (0..t.size(0, 4)).map(|_| (0..t.size(0, 3)).map(|_| t.range(0, 9)).collect()).collect();
            let body = field(t, 0, &mut 0);
            c.desc(json!([m, ll, body]).to_string()); c.nontrivial(m.len() > 1 || body.get("fields").is_some());
            let mut ks = keys.clone();
            ks.sort_by(|a, b| match (a.parse::<i64>().ok(), b.parse::<i64>().ok()) { (Some(x), Some(y)) => x.cmp(&y), (Some(_), None) => std::cmp::Ordering::Less, (None, Some(_)) => std::cmp::Ordering::Greater, _ => a.cmp(b) });
            let (mut fl, mut fb) = (vec![], vec![]); walk(&body, "", 0, "id", &mut fl); walk(&body, "", 0, "brief", &mut fb);
            let ctx = json!({"m": m, "ll": ll, "b": body});
            for (e, x) in [("{% for k, v in m | numsort %}{{ k }}={{ v }};{% endfor %}", ks.iter().map(|k| format!("{k}=v{k};")).collect::<String>()),
                ("{{ ll | flatten | join(',') }}", ll.iter().flatten().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
                ("{% for p, f, d in b | body_fields %}{{ p }}:{{ f.type }}:{{ d }};{% endfor %}", fl.concat()),
                ("{% for p, f, d in b | body_fields(sort_by='brief') %}{{ p }}:{{ f.type }}:{{ d }};{% endfor %}", fb.concat())] {
                let r = snippet(&json!({}), e, &ctx);
                ensure!(r.as_ref() == Ok(&x), format!("{} differs", e.split('|').nth(1).unwrap_or("").trim().split(' ').next().unwrap_or("")), "{e} on {ctx}: expected {x:?}, got {r:?}");
            }
        }
    }
    Ok(())
}
fn field(t: &mut Tape, depth: usize, n: &mut usize) -> Value {
    *n += 1; let id = format!("{}{}", ["f", "a", "z"][t.below(3) as usize], *n);
    let brief = format!("{}{}", ["p", "b", "x"][t.below(3) as usize], *n);
    if depth < 3 && t.chance(1, 2) { let k = t.size(0, 3); json!({"id": id, "brief": brief, "type": "map", "fields": (0..k).map(|_| field(t, depth + 1, n)).collect::<Vec<_>>()}) } else { json!({"id": id, "brief": brief, "type": "string"}) }
}
fn walk(f: &Value, path: &str, d: usize, key: &str, out: &mut Vec<String>) {
    let p = if path.is_empty() { f["id"].as_str().unwrap().to_owned() } else { format!("{path}.{}", f["id"].as_str().unwrap()) };
    out.push(format!("{p}:{}:{d};", f["type"].as_str().unwrap()));
    if let Some(fs) = f["fields"].as_array() { let mut v: Vec<&Value> = fs.iter().collect(); v.sort_by_key(|x| x[key].as_str().unwrap().to_owned()); for x in v { walk(x, &p, d + 1, key, out); } }
}
// ---------- jq ----------
const STAB: [&str; 6] = ["stable", "development", "alpha", "beta", "release_candidate", "experimental"];
fn common(t: &mut Tape, o: &mut Value, nodep: bool) {
    if t.chance(5, 6) { o["stability"] = json!(t.pick(&STAB)); }
    if !nodep && t.chance(1, 3) { o["deprecated"] = json!({"reason": "obsoleted", "note": "n"}); }
    match t.below(6) { 0 => o["annotations"] = json!({"code_generation": {"exclude": true}}), 1 => o["annotations"] = json!({"code_generation": {"exclude": false}}), 2 => o["annotations"] = json!({"other": {"exclude": true}}), _ => {} }
}
fn gattr(t: &mut Tape, key: &str, name: &str) -> Value {
    let mut a = json!({key: name, "type": "string", "brief": "b"});
    if t.chance(1, 3) { a["type"] = json!({"members": (0..t.size(1, 4)).map(|i| { let mut m = json!({"id": format!("m{i}"), "value": i}); common(t, &mut m, false); m }).collect::<Vec<_>>()}); }
    common(t, &mut a, false); a
}
fn keep(o: &Value, opt: &Value) -> bool {
    let st = &o["stability"];
    if opt["stable_only"] == true && st != "stable" { return false; }
    if let Some(ex) = opt["exclude_stability"].as_array() {
        let exp = ex.contains(&json!("experimental"));
        if ex.contains(st) || (exp && (st.is_null() || ["development", "alpha", "beta", "release_candidate"].contains(&st.as_str().unwrap_or("")))) { return false; }
    }
    if opt.get("ignore_code_generation_annotations").is_none() && o["annotations"]["code_generation"]["exclude"] == true { return false; }
    if opt["exclude_deprecated"] == true && o.get("deprecated").is_some() { return false; }
    true
}
fn prune(o: &Value, opt: &Value) -> Value {
    let mut o = o.clone();
    if let Some(m) = o.pointer_mut("/type/members").and_then(|m| m.as_array_mut()) { m.retain(|x| keep(x, opt)); }
    o
}
fn jq(t: &mut Tape, c: &mut Case) -> CaseResult {
    let v2 = t.bool(); let key = if v2 { "key" } else { "name" };
    let ns = ["http", "db", "rpc", "k8s"];
    let mut all: Vec<String> = (0..14).map(|i| if i == 13 { "bare".into() } else { format!("{}.a{}", ns[i % 4], i) }).collect(); t.shuffle(&mut all);
    let mut groups = vec![]; let mut secs: BTreeMap<&str, Vec<Value>> = BTreeMap::new(); let mut attrs = vec![];
    let na = t.size(0, 10);
    for ch in all[..na].chunks(4).enumerate() {
        let l: Vec<Value> = ch.1.iter().map(|n| gattr(t, key, n)).collect();
        if !v2 { groups.push(json!({"id": format!("{}g{}", if t.chance(5, 6) { "registry." } else { "" }, ch.0), "type": "attribute_group", "attributes": l})); }
        else { attrs.extend(l); }
    }
    for kind in ["metric", "span", "event", "entity"] {
        for i in 0..t.size(0, 4) {
            let n = format!("{}.x{}", t.pick(&ns), i);
            let mut o = if v2 { json!({if kind == "span" || kind == "entity" { "type" } else { "name" }: n}) } else {
                let mut g = json!({"id": format!("{kind}.{n}"), "type": kind});
                if kind == "metric" { g["metric_name"] = json!(n); } else { g["name"] = json!(n); } g };
            common(t, &mut o, false);
            if t.chance(3, 4) { let k = t.size(0, 3); let l: Vec<Value> = (0..k).map(|j| gattr(t, key, &format!("q.z{j}"))).collect(); o["attributes"] = json!(l); } else if t.bool() { o["attributes"] = json!(null); }
            if v2 { secs.entry(match kind { "metric" => "metrics", "span" => "spans", "event" => "events", _ => "entities" }).or_default().push(o); } else { groups.push(o); }
        }
    }
    if !v2 { t.shuffle(&mut groups); }
    let doc = if v2 { json!({"registry": {"attributes": attrs, "metrics": secs.get("metrics").cloned().unwrap_or_default(), "spans": secs.get("spans").cloned().unwrap_or_default(), "events": secs.get("events").cloned().unwrap_or_default(), "entities": secs.get("entities").cloned().unwrap_or_default()}}) } else { json!({"groups": groups}) };
    let mut opt = json!({});
    if v2 { opt["v2"] = json!(true); } else if t.chance(1, 6) { opt["v2"] = json!(false); }
    if t.chance(1, 4) { opt["stable_only"] = json!(t.chance(3, 4)); }
    if t.chance(1, 3) { opt["exclude_stability"] = json!(t.subset(&STAB, 1, 4)); }
    if t.chance(1, 3) { opt["exclude_deprecated"] = json!(t.chance(3, 4)); }
    if t.chance(1, 4) { opt["ignore_code_generation_annotations"] = json!(true); }
    if t.chance(1, 3) { opt["exclude_root_namespace"] = json!(t.subset(&["http", "db", "other"], 1, 2)); }
    // ---- reference ----
    let root = |o: &Value, sig: Option<&str>| -> String { match (v2, sig) {
        (true, None) => o["key"].as_str().unwrap().split('.').next().unwrap().to_owned(),
        (true, Some(s)) => o[if s == "span" || s == "entity" { "type" } else { "name" }].as_str().unwrap().split('.').next().unwrap().to_owned(),
        (false, None) => { let n = o["name"].as_str().unwrap(); if n.contains('.') { n.split('.').next().unwrap().to_owned() } else { "other".into() } }
        (false, Some(_)) => o["id"].as_str().unwrap().split('.').nth(1).unwrap().to_owned() } };
    let okns = |r: &str| !opt["exclude_root_namespace"].as_array().is_some_and(|a| a.iter().any(|x| x == r));
    let src: Vec<Value> = if v2 { doc["registry"]["attributes"].as_array().unwrap().clone() } else { groups.iter().filter(|g| g["type"] == "attribute_group" && g["id"].as_str().unwrap().starts_with("registry.")).flat_map(|g| g["attributes"].as_array().unwrap().clone()).collect() };
    let total = src.len();
    let mut ea: Vec<Value> = src.iter().filter(|a| keep(a, &opt)).map(|a| { let mut a = prune(a, &opt); a["root_namespace"] = json!(root(&a, None)); a }).filter(|a| okns(a["root_namespace"].as_str().unwrap())).collect();
    ea.sort_by_key(|a| (a["root_namespace"].as_str().unwrap().to_owned(), a[key].as_str().unwrap().to_owned()));
    let removed = total - ea.len();
    let run = |f: &str| -> Result<Value, Violation> { weaver_forge::jq::execute_jq(&doc, &format!("{f}($o)"), &[("o".to_owned(), opt.clone())].into()).or_else(|e| fail(format!("{f} failed"), format!("{e}\n{doc}\n{opt}"))) };
    c.desc(json!([doc, opt]).to_string()); c.label(if v2 { "v2" } else { "v1" });
    c.nontrivial(removed > 0 && !ea.is_empty());
    let eq = |f: &str, g: Value, e: Value| -> CaseResult { ensure!(g == e, format!("{f} differs"), "{f} with {opt}\ninput {doc}\n{}", diff_str(&e, &g)); Ok(()) };
    let group = |l: &[Value], name: &str| -> Value { let mut m: BTreeMap<String, Vec<Value>> = BTreeMap::new(); for a in l { m.entry(a["root_namespace"].as_str().unwrap().to_owned()).or_default().push(a.clone()); } json!(m.into_iter().map(|(k, v)| json!({"root_namespace": k, name: v})).collect::<Vec<_>>()) };
    eq("semconv_attributes", run("semconv_attributes")?, json!(ea))?;
    eq("semconv_grouped_attributes", run("semconv_grouped_attributes")?, group(&ea, "attributes"))?;
    for (kind, plural) in [("metric", "metrics"), ("span", "spans"), ("event", "events"), ("entity", "entities")] {
        let src: Vec<Value> = if v2 { doc["registry"][plural].as_array().unwrap().clone() } else { groups.iter().filter(|g| g["type"] == kind).cloned().collect() };
        let mut e: Vec<Value> = src.iter().filter(|s| keep(s, &opt)).map(|s| {
            let mut s = s.clone(); s["root_namespace"] = json!(root(&s, Some(kind)));
            if let Some(l) = s.get_mut("attributes").and_then(|a| a.as_array_mut()) { *l = l.iter().filter(|a| keep(a, &opt)).map(|a| prune(a, &opt)).collect(); } else { s["attributes"] = json!(null); }
            s }).filter(|s| okns(s["root_namespace"].as_str().unwrap())).collect();
        // sorted by namespace, then by the signal's own name (v1 spans/entities have no sort key but their type)
        e.sort_by_key(|s| s["root_namespace"].as_str().unwrap().to_owned());
        let name = |s: &Value| -> String { match (kind, v2) { ("metric", false) => s["metric_name"].as_str().unwrap().into(), ("metric", true) | ("event", _) => s["name"].as_str().unwrap().into(), (_, true) => s["type"].as_str().unwrap().into(), _ => String::new() } };
        let mut list = e.clone(); list.sort_by_key(|s| name(s));
        eq(&format!("semconv_{plural}"), run(&format!("semconv_{plural}"))?, json!(list))?;
        let mut g = list.clone(); g.sort_by_key(|s| (s["root_namespace"].as_str().unwrap().to_owned(), name(s)));
        eq(&format!("semconv_grouped_{plural}"), run(&format!("semconv_grouped_{plural}"))?, group(&g, plural))?;
    }
    Ok(())
}
