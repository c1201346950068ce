//! C27: a virtual directory shows exactly its source; archives cannot reach outside.
use crate::engine::*;
use crate::ensure;
use crate::http::{server, token, Reply};
use crate::props::c07::{publish, DURL};
use crate::reg::{self, Scratch};
use crate::reg2::*;
use crate::tape::Tape;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::Path;
use weaver_common::vdir::{VirtualDirectory, VirtualDirectoryPath};

pub fn prop() -> Prop {
    Prop { id: "C27", rule: "paths: generated sources (local paths, archives, http(s) URLs with and without .git) with optional @refspec and [sub_folder], checked for classification, printing, serde and sub-folder mapping, plus arbitrary strings for print/parse stability. archive: tar.gz and zip archives of random trees (1-3 levels, shared component names), opened locally or through a loopback HTTP server, with and without a one- or two-level sub-folder, some truncated, some with hostile entries (`..`, absolute names, symbolic and hard links leading outside); the extracted tree is compared with a model and a private home and outside area are scanned for strays. registry: the same definitions or package from a folder, an archive and HTTP resolve equally. Non-trivial: a sub-folder, a hostile entry, truncation, or a qualified path.",
        assumptions: &["git sources need a git server and are only parsed", "hostile entries reach at most eight levels up, inside the scratch area"],
        suites: vec![
            Suite { name: "paths", quick: 20_000, thorough: 400_000, parallel: true, run: paths, shrink: 400 },
            Suite { name: "archive", quick: 5_000, thorough: 80_000, parallel: true, run: archive, shrink: 400 },
            Suite { name: "registry", quick: 1_000, thorough: 15_000, parallel: true, run: registry, shrink: 300 },
        ] }
}
fn dump(v: &VirtualDirectoryPath) -> String { format!("{v:?}") }
fn paths(t: &mut Tape, c: &mut Case) -> CaseResult {
    if t.chance(1, 3) {
        // arbitrary text: printing what was parsed parses to the same thing
        let s: String = (0..t.size(0, 8)).map(|_| *t.pick(&["a", "/", "@", "[", "]", ".zip", ".git", ".tar.gz", "http://", "https://", ".", "b/c", " ", ":", "é"])).collect();
        c.desc(s.clone());
        match s.parse::<VirtualDirectoryPath>() {
            Err(_) => ensure!(s.is_empty(), "paths/rejected", "`{s}` is rejected"),
            Ok(v) => {
                let source = match &v { VirtualDirectoryPath::LocalFolder { path } | VirtualDirectoryPath::LocalArchive { path, .. } => path, VirtualDirectoryPath::RemoteArchive { url, .. } | VirtualDirectoryPath::GitRepo { url, .. } | VirtualDirectoryPath::RemoteFile { url } => url };
                if source.contains(['@', '[', ']']) { c.skip(); return Ok(()); } // the qualifier characters cannot be part of a source
                let p = v.to_string();
                let v2 = p.parse::<VirtualDirectoryPath>();
                ensure!(v2.as_ref().is_ok_and(|x| dump(x) == dump(&v)), "paths/reparse", "`{s}` parses to {v:?}, printed `{p}`, which parses to {v2:?}");
            }
        }
        return Ok(());
    }
    let local = ["reg", "./a/reg", "/abs/reg", "../up", "a b", "dir.git", "c:/x", "https", "dir.zip.d"];
    let larch = ["a.zip", "./x/y.tar.gz", "/abs/z.zip", "b.git.tar.gz"];
    let rarch = ["http://h/a.zip", "https://h/x/y.tar.gz", "https://h:8080/a.git.zip"];
    let git = ["https://h/o/r.git", "http://h/r.git"];
    let other = ["https://h/o/r", "http://h/manifest.yaml", "https://h/x.tar", "https://h/r.gitx"];
    let (kind, src) = match t.below(5) { 0 => (0, *t.pick(&local)), 1 => (1, *t.pick(&larch)), 2 => (2, *t.pick(&rarch)), 3 => (3, *t.pick(&git)), _ => (4, *t.pick(&other)) };
    let refspec = t.opt(1, 2, |t| (*t.pick(&["v1.0", "main", "feature/x", "0123456789012345678901234567890123456789"])).to_owned());
    let sub = t.opt(1, 2, |t| (*t.pick(&["model", "a/b", "deep/er/x.yaml", "m.d"])).to_owned());
    let s = format!("{src}{}{}", refspec.as_ref().map(|r| format!("@{r}")).unwrap_or_default(), sub.as_ref().map(|r| format!("[{r}]")).unwrap_or_default());
    c.desc(s.clone()); c.nontrivial(refspec.is_some() || sub.is_some());
    let v: VirtualDirectoryPath = match s.parse() { Ok(v) => v, Err(e) => return fail("paths/parse", format!("{s}: {e:?}")) };
    use VirtualDirectoryPath as V;
    let own = |x: &Option<String>| x.clone();
    let ok = match (&v, kind) {
        (V::LocalFolder { path }, 0) => path == src,
        (V::LocalArchive { path, sub_folder }, 1) => path == src && *sub_folder == sub,
        (V::RemoteArchive { url, sub_folder }, 2) => url == src && *sub_folder == sub,
        (V::GitRepo { url, refspec: r, sub_folder }, 3) => url == src && *r == refspec && *sub_folder == sub,
        (V::GitRepo { url, refspec: r, sub_folder }, 4) => (refspec.is_some() || sub.is_some()) && url == src && *r == refspec && *sub_folder == sub,
        (V::RemoteFile { url }, 4) => refspec.is_none() && sub.is_none() && url == src,
        _ => false,
    };
    ensure!(ok, "paths/classify", "`{s}` parsed as {v:?}");
    // printing drops only what the kind cannot carry
    let want = match kind { 0 => src.to_owned(), 1 | 2 => format!("{src}{}", sub.as_ref().map(|x| format!("[{x}]")).unwrap_or_default()), _ => s.clone() };
    ensure!(v.to_string() == want, "paths/display", "`{s}` prints as `{v}`, expected `{want}`");
    let j = serde_json::to_value(&v).unwrap();
    ensure!(j == json!(want), "paths/serde", "{j} vs {want}");
    let back: V = match serde_json::from_value(j) { Ok(b) => b, Err(e) => return fail("paths/serde", format!("{want}: {e}")) };
    ensure!(dump(&back) == dump(&v), "paths/serde", "{back:?} vs {v:?}");
    // mapping the sub folder
    let to = *t.pick(&["", "n", "x/y"]);
    let mut seen = None;
    let m = v.clone().map_sub_folder(|p| { seen = Some(p); to.to_owned() });
    let wseen = match kind { 0 => src.to_owned(), _ => match &v { V::RemoteFile { .. } => src.to_owned(), _ => own(&sub).unwrap_or_default() } };
    ensure!(seen.as_deref() == Some(&wseen), "paths/map-input", "`{s}`: {seen:?} vs {wseen}");
    let opt = if to.is_empty() { None } else { Some(to.to_owned()) };
    let wm = match v { V::LocalFolder { .. } => V::LocalFolder { path: to.into() }, V::RemoteFile { .. } => V::RemoteFile { url: to.into() }, V::LocalArchive { path, .. } => V::LocalArchive { path, sub_folder: opt }, V::RemoteArchive { url, .. } => V::RemoteArchive { url, sub_folder: opt }, V::GitRepo { url, refspec, .. } => V::GitRepo { url, refspec, sub_folder: opt } };
    ensure!(dump(&m) == dump(&wm), "paths/map", "`{s}`: {m:?} vs {wm:?}");
    Ok(())
}

// ---------- archives ----------
#[derive(Clone, Debug)]
pub enum E { Dir, File(Vec<u8>), Sym(String), Hard(String) }
pub fn tar_gz(entries: &[(String, E)]) -> Vec<u8> {
    let mut b = tar::Builder::new(flate2::write::GzEncoder::new(vec![], flate2::Compression::fast()));
    for (name, e) in entries {
        let mut h = tar::Header::new_gnu();
        let (ty, size) = match e { E::Dir => (tar::EntryType::Directory, 0), E::File(d) => (tar::EntryType::Regular, d.len()), E::Sym(_) => (tar::EntryType::Symlink, 0), E::Hard(_) => (tar::EntryType::Link, 0) };
        h.set_entry_type(ty); h.set_size(size as u64); h.set_mode(if matches!(e, E::Dir) { 0o755 } else { 0o644 }); h.set_mtime(1);
        // names are written raw: the builder would refuse `..`
        let set = |dst: &mut [u8], s: &str| { let n = s.len().min(dst.len()); dst[..n].copy_from_slice(&s.as_bytes()[..n]); };
        { let g = h.as_gnu_mut().unwrap(); assert!(name.len() < 100, "name too long"); set(&mut g.name, name); if let E::Sym(l) | E::Hard(l) = e { assert!(l.len() <= 100); set(&mut g.linkname, l); } }
        h.set_cksum();
        let data: &[u8] = if let E::File(d) = e { d } else { &[] };
        b.append(&h, data).unwrap();
    }
    b.into_inner().unwrap().finish().unwrap()
}
/// the same archive as a gzip file of several members, cut at `cut` (in 1/16 of the data, whole tar blocks if `blocks`)
pub fn members(gz: &[u8], cut: usize, blocks: bool) -> Vec<u8> {
    use std::io::Read;
    let mut raw = vec![]; let _ = flate2::read::GzDecoder::new(gz).read_to_end(&mut raw).unwrap();
    let mut at = raw.len() * cut / 16; if blocks { at -= at % 512; }
    let mut out = vec![];
    for part in [&raw[..at], &raw[at..]] { let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast()); e.write_all(part).unwrap(); out.extend(e.finish().unwrap()); }
    out
}
pub fn zip_(entries: &[(String, E)]) -> Vec<u8> {
    let mut z = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
    let o = zip::write::SimpleFileOptions::default();
    for (name, e) in entries {
        match e {
            E::Dir => z.add_directory(name.clone(), o).unwrap(),
            E::File(d) => { z.start_file(name.clone(), o).unwrap(); z.write_all(d).unwrap(); }
            E::Sym(l) | E::Hard(l) => z.add_symlink(name.clone(), l.clone(), o).unwrap(),
        }
    }
    z.finish().unwrap().into_inner()
}
type Tree = BTreeMap<String, Option<Vec<u8>>>;
/// files (and directories as None) below `root`, links not followed
fn walk(root: &Path) -> Tree {
    fn go(root: &Path, p: &Path, out: &mut Tree) {
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd.flatten() {
            let rel = e.path().strip_prefix(root).unwrap().to_string_lossy().into_owned();
            let Ok(ft) = e.file_type() else { continue };
            if ft.is_dir() { let _ = out.insert(rel, None); go(root, &e.path(), out); }
            else if ft.is_file() { let _ = out.insert(rel, std::fs::read(e.path()).ok()); }
            else { let _ = out.insert(rel, Some(format!("link to {}", std::fs::read_link(e.path()).map(|x| x.display().to_string()).unwrap_or_default()).into_bytes())); }
        }
    }
    let mut out = Tree::new(); go(root, root, &mut out); out
}
/// names carrying `tok` anywhere in the private home, outside `allowed`
fn strays(tok: &str, allowed: Option<&Path>) -> Vec<String> {
    fn go(p: &Path, tok: &str, allowed: Option<&Path>, out: &mut Vec<String>) {
        if Some(p) == allowed { return; }
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd.flatten() {
            if e.file_name().to_string_lossy().contains(tok) && Some(e.path().as_path()) != allowed { out.push(e.path().display().to_string()); }
            if e.file_type().is_ok_and(|f| f.is_dir()) {
                // other cases' extraction directories cannot hold this case's names unless something escaped into them: scan one level
                go(&e.path(), tok, allowed, out);
            }
        }
    }
    let mut out = vec![]; go(&crate::home_top(), tok, allowed, &mut out); out
}
fn archive(t: &mut Tape, c: &mut Case) -> CaseResult {
    let tok = format!("{}e", token());
    let s = Scratch::new();
    let outside = s.sub("outside"); std::fs::create_dir_all(outside.join("d")).unwrap(); std::fs::write(outside.join("keep.yaml"), "keep").unwrap();
    let before = walk(&outside);
    let is_zip = t.bool(); let remote = t.chance(1, 3);
    let top = *t.pick(&["top", "reg-1.0", ".", "a"]);
    // a tree from a small component pool, so sub-folders match at several levels
    let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new(); let mut dirs: BTreeSet<String> = BTreeSet::new();
    for i in 0..t.size(0, 6) {
        let depth = t.size(0, 3);
        let mut d: Vec<&str> = vec![];
        for _ in 0..depth { d.push(t.pick(&["a", "b", "ab", "model"])); }
        for k in 1..=d.len() { let _ = dirs.insert(d[..k].join("/")); }
        d.push(t.pick(&["f.yaml", "g.yaml", "h", ".hidden"]));
        let p = d.join("/");
        if dirs.contains(&p) { continue; }
        let body = match t.below(3) { 0 => vec![], 1 => format!("file {i}\n").into_bytes(), _ => vec![b'x'; 3000] };
        let _ = files.insert(p, body);
    }
    let mut entries: Vec<(String, E)> = vec![];
    if t.bool() { entries.push((format!("{top}/"), E::Dir)); }
    let explicit = t.bool(); // directory entries present
    if explicit || files.is_empty() { for d in &dirs { entries.push((format!("{top}/{d}/"), E::Dir)); } }
    for (p, b) in &files { entries.push((format!("{top}/{p}"), E::File(b.clone()))); }
    if t.chance(1, 4) { let mut x = entries.split_off(0); t.shuffle(&mut x); entries = x; }
    let sub = t.opt(1, 2, |t| (*t.pick(&["a", "b", "model", "a/b", "b/a", "ab", "a/b/a", "zz", "model/", "/a", ""])).to_owned());
    let subc: Vec<&str> = sub.as_deref().unwrap_or("").split('/').filter(|x| !x.is_empty()).collect();
    // hostile entries
    let mut hostile = vec![];
    if t.chance(2, 5) {
        let out_s = outside.display().to_string();
        let evil = |n: &str| format!("evil-{tok}-{n}");
        let subp = if subc.is_empty() { String::new() } else { format!("{}/", subc.join("/")) };
        for k in 0..t.size(1, 2) {
            let n = evil(&k.to_string());
            match t.below(9) {
                0 => hostile.push((format!("{top}/{subp}{}{n}", "../".repeat(t.size(1, 8))), E::File(b"evil".to_vec()))),
                1 => hostile.push((format!("{}{n}", "../".repeat(t.size(1, 5))), E::File(b"evil".to_vec()))),
                2 => hostile.push((format!("{out_s}/{n}"), E::File(b"evil".to_vec()))),
                3 => hostile.push((format!("{top}/{subp}x/../{}{n}", "../".repeat(t.size(0, 3))), E::File(b"evil".to_vec()))),
                4 => { hostile.push((format!("{top}/{subp}link{k}"), E::Sym(out_s.clone()))); hostile.push((format!("{top}/{subp}link{k}/{n}"), E::File(b"evil".to_vec()))); }
                5 => { hostile.push((format!("{top}/{subp}link{k}"), E::Sym(out_s.clone()))); hostile.push((format!("{top}/{subp}link{k}/{n}/"), E::Dir)); hostile.push((format!("{top}/{subp}link{k}/d/{n}"), E::File(b"evil".to_vec()))); }
                6 => { hostile.push((format!("{top}/{subp}l{k}"), E::Sym("..".into()))); hostile.push((format!("{top}/{subp}l{k}/{n}"), E::File(b"evil".to_vec()))); }
                7 => { hostile.push((format!("{top}/{subp}k{k}"), E::Sym(format!("{out_s}/keep.yaml")))); hostile.push((format!("{top}/{subp}k{k}"), E::File(format!("evil {tok}").into_bytes()))); }
                _ => { hostile.push((format!("{top}/{subp}h{k}"), E::Hard(format!("{out_s}/keep.yaml")))); hostile.push((format!("{top}/{subp}h{k}"), E::File(format!("evil {tok}").into_bytes()))); }
            }
        }
        if is_zip { hostile.retain(|(n, e)| !matches!(e, E::Hard(_)) && !n.is_empty()); let mut seen = BTreeSet::new(); hostile.retain(|(n, _)| seen.insert(n.clone())); }
    }
    let hostile_n = hostile.len();
    let at = if entries.is_empty() { 0 } else { t.below(entries.len() as u64 + 1) as usize };
    let mut all = entries.clone(); let tail = all.split_off(at); all.extend(hostile.clone()); all.extend(tail);
    let mut bytes = if is_zip { zip_(&all) } else { tar_gz(&all) };
    let truncated = t.chance(1, 8) && { let n = t.below(bytes.len() as u64) as usize; bytes.truncate(n); true };
    let multi = !is_zip && !truncated && t.chance(1, 6) && { let (cut, blocks) = (t.below(16) as usize, t.bool()); bytes = members(&bytes, cut, blocks); true };
    if multi { c.label("gzip-members"); }
    let desc = json!({"zip": is_zip, "remote": remote, "sub": sub, "truncated": truncated, "gzip members": multi, "entries": all.iter().map(|(n, e)| format!("{n} {}", match e { E::Dir => "dir".into(), E::File(b) => format!("{} bytes", b.len()), E::Sym(l) => format!("-> {l}"), E::Hard(l) => format!("=> {l}") })).collect::<Vec<_>>()}).to_string().replace(&tok, "T").replace(&s.path().display().to_string(), "S");
    c.desc(desc.clone());
    c.nontrivial(!subc.is_empty() || hostile_n > 0 || truncated);
    if hostile_n > 0 { c.label("hostile"); } if subc.len() > 1 { c.label("deep-sub"); } if truncated { c.label("truncated"); }
    // model
    let strip = |p: &str| -> Option<String> { if subc.is_empty() { return Some(p.to_owned()); } let pre = format!("{}/", subc.join("/")); p.strip_prefix(&pre).map(|x| x.to_owned()) };
    let want: BTreeMap<String, Vec<u8>> = files.iter().filter_map(|(p, b)| strip(p).map(|p| (p, b.clone()))).collect();
    // run
    let ext = if is_zip { "zip" } else { "tar.gz" };
    let arch_name = format!("arch{tok}.{ext}");
    let src = if remote { server().put(&format!("/{tok}/{arch_name}"), Reply::Body(bytes.clone())); format!("http://127.0.0.1:{}/{tok}/{arch_name}", server().port) }
        else { let p = s.path().join(&arch_name); std::fs::write(&p, &bytes).unwrap(); p.display().to_string() };
    let full = format!("{src}{}", sub.as_ref().filter(|x| !x.is_empty()).map(|x| format!("[{x}]")).unwrap_or_default());
    let vp: VirtualDirectoryPath = full.parse().unwrap();
    let v = VirtualDirectory::try_new(&vp);
    if remote { let _ = server().take(&format!("/{tok}/")); }
    let root = v.as_ref().ok().map(|v| v.path().to_path_buf());
    // nothing outside
    ensure!(walk(&outside) == before, "escape/outside", "a path outside the target was written: {:?}\n{desc}", walk(&outside).keys().collect::<Vec<_>>());
    // allowed: inside the extraction directory (the vdir_cache child holding `path`)
    let cache = crate::nested_home().join(".weaver/vdir_cache");
    let allowed = root.as_ref().and_then(|r| r.strip_prefix(&cache).ok()).and_then(|r| r.components().next()).map(|x| cache.join(x));
    let st = strays(&tok, allowed.as_deref());
    if !st.is_empty() { for p in &st { let _ = std::fs::remove_file(p); } return fail("escape/home", format!("entries were written outside the target: {st:?}\n{desc}")); }
    let got = root.as_ref().map(|r| walk(r));
    match (&v, &got) {
        (Ok(v), Some(got)) => {
            ensure!(v.vdir_path_str() == vp.to_string() && dump(&v.vdir_path()) == dump(&vp), "vdir_path", "{} vs {vp}", v.vdir_path_str());
            let gf: BTreeMap<String, Vec<u8>> = got.iter().filter_map(|(k, v)| v.clone().map(|v| (k.clone(), v))).filter(|(k, _)| !(remote && *k == arch_name)).collect();
            for (p, b) in &want {
                ensure!(gf.get(p) == Some(b), "content/missing", "`{p}` is missing or differs in the extracted directory (has {:?})\n{desc}", gf.keys().collect::<Vec<_>>());
            }
            let hn: BTreeSet<&str> = hostile.iter().flat_map(|(n, _)| n.split('/')).collect();
            for p in gf.keys() {
                ensure!(want.contains_key(p) || (hostile_n > 0 && p.split('/').any(|x| hn.contains(x))), "content/extra", "`{p}` should not be in the extracted directory\n{desc}");
            }
            for (p, d) in got { if d.is_none() { ensure!(strip_ok(p, &dirs, &subc) || hostile_n > 0, "content/extra-dir", "directory `{p}` should not be there\n{desc}"); } }
        }
        (Err(e), _) => ensure!(hostile_n > 0 || truncated || subc == ["zz"] || (!subc.is_empty() && want.is_empty()), "open", "{e:?}\n{desc}"),
        _ => {}
    }
    // temporary copies disappear with the last handle
    let clone = v.as_ref().ok().cloned();
    drop(v);
    if let (Some(r), Some(k)) = (&root, clone) {
        ensure!(r.exists(), "lifetime/early", "removed while a handle is alive\n{desc}");
        drop(k);
        ensure!(!r.exists(), "lifetime/leak", "{} still exists after the last handle is dropped\n{desc}", r.display());
    }
    Ok(())
}
fn strip_ok(p: &str, dirs: &BTreeSet<String>, subc: &[&str]) -> bool {
    let full = if subc.is_empty() { p.to_owned() } else { format!("{}/{p}", subc.join("/")) };
    dirs.contains(&full)
}

// ---------- registries from every kind of source ----------
fn pack(dir: &Path, top: &str, prefix: &str) -> Vec<(String, E)> {
    let mut v = vec![(format!("{top}/"), E::Dir)];
    let mut acc = String::new();
    for x in prefix.split('/').filter(|x| !x.is_empty()) { acc = format!("{acc}{x}/"); v.push((format!("{top}/{acc}"), E::Dir)); }
    for (p, b) in walk(dir) { match b { None => v.push((format!("{top}/{acc}{p}/"), E::Dir)), Some(b) => v.push((format!("{top}/{acc}{p}"), E::File(b))) } }
    if !prefix.is_empty() { v.push((format!("{top}/unrelated.yaml"), E::File(b"groups: [".to_vec()))); }
    v
}
fn registry(t: &mut Tape, c: &mut Case) -> CaseResult {
    let tok = format!("{}e", token()); let s = Scratch::new();
    let package = t.bool();
    let dir = s.sub("defs");
    let g = gen2(t, Opts2 { max_attrs: 4, ..Opts2::default() });
    let _ = write2(t, &dir, &g);
    reg::manifest(&dir, DURL, &[]);
    let base = match reg::resolve2(&dir) { Ok(b) => b, Err(e) => return fail("valid v2 registry rejected", e) };
    let content = if package { let out = s.sub("pkg"); publish(&out, &base.schema, DURL, json!([])); out } else { dir };
    let prefix = *t.pick(&["", "model", "a/model"]);
    let is_zip = t.bool(); let remote = t.bool();
    let entries = pack(&content, "acme-1.0", prefix);
    let bytes = if is_zip { zip_(&entries) } else { tar_gz(&entries) };
    let name = format!("{tok}.{}", if is_zip { "zip" } else { "tar.gz" });
    let src = if remote { server().put(&format!("/{tok}/{name}"), Reply::Body(bytes)); format!("http://127.0.0.1:{}/{tok}/{name}", server().port) } else { let p = s.path().join(&name); std::fs::write(&p, bytes).unwrap(); p.display().to_string() };
    let mut full = if prefix.is_empty() { src } else { format!("{src}[{prefix}]") };
    // a package can also be named by its manifest
    let by_manifest = package && t.chance(1, 3);
    if by_manifest {
        full = if remote {
            for f in ["manifest.yaml", "resolved.yaml"] { server().put(&format!("/{tok}/p/{f}"), Reply::Body(std::fs::read(content.join(f)).unwrap())); }
            format!("http://127.0.0.1:{}/{tok}/p/manifest.yaml", server().port)
        } else { content.join("manifest.yaml").display().to_string() };
    }
    let desc = json!({"package": package, "by_manifest": by_manifest, "zip": is_zip, "remote": remote, "prefix": prefix, "registry": g.to_doc()}).to_string();
    c.desc(desc.clone()); c.nontrivial(true); c.label(format!("{} {} {}", if package { "package" } else { "definitions" }, if remote { "remote" } else { "local" }, if prefix.is_empty() { "root" } else { "sub" }));
    let r = reg::resolve2_path(&full);
    if remote { let _ = server().take(&format!("/{tok}/")); }
    match r {
        Ok(v) => {
            let (mut a, mut b) = (serde_json::to_value(&base.forge).unwrap(), serde_json::to_value(&v.forge).unwrap());
            strip_prov(&mut a); strip_prov(&mut b);
            ensure!(a == b, "registry/differs", "{}\n{desc}", reg::diff_str(&a, &b));
        }
        Err(e) => return fail("registry/load", format!("{e}\n{desc}")),
    }
    Ok(())
}
