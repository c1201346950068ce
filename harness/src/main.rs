mod engine;
mod tape;
mod props;
mod reg;
mod reg2;
mod live;
mod forge;
mod http;
mod cli;
mod otlp;
use std::path::PathBuf;
fn main() {
    engine::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into()));
    let props = props::all();
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => { env(); let rc = engine::replay(&props, &PathBuf::from(&a[2])); let _ = std::fs::remove_dir_all(home()); std::process::exit(rc) }
        Some("list") => { for p in &props { println!("{}", p.id); } }
        Some(id) => {
            let Some(p) = props.iter().find(|p| p.id == id) else { eprintln!("unknown property {id}"); std::process::exit(2) };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let tier = a.get(2).cloned().unwrap_or_else(|| "quick".into());
            let scale = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            // watchdog: a hang is an error of the check, never a violation
            let limit: u64 = if tier == "thorough" { 4 * 3600 } else { 700 };
            let _ = std::thread::spawn(move || { std::thread::sleep(std::time::Duration::from_secs(limit)); eprintln!("watchdog: out of time"); std::process::exit(3) });
            env();
            let cfg = engine::RunCfg { root, seed, tier, only: a.get(3).cloned(), scale };
            let rc = engine::run_prop(p, &cfg);
            let _ = std::fs::remove_dir_all(home());
            std::process::exit(rc);
        }
        None => { eprintln!("usage: vh <id> [quick|thorough] [suite] | replay FILE | list"); std::process::exit(2) }
    }
}

/// A private home directory: weaver reads ~/.weaver and caches downloads there.
/// It is nested so that a few `..` from the cache stay inside the scratch area.
pub fn home_top() -> PathBuf { home() }
fn home() -> PathBuf { reg::scratch_root().join(format!("vh-home-{}", std::process::id())) }
pub fn nested_home() -> PathBuf { home().join("a/b/c/d/e/home") }
fn env() {
    std::fs::create_dir_all(nested_home()).expect("home");
    std::env::set_var("HOME", nested_home());
    std::env::set_var("VH_TOK_A", "env-a");
    std::env::set_var("VH_TOK_EMPTY", "");
    std::env::remove_var("VH_TOK_MISSING");
    for v in ["http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "all_proxy"] { std::env::remove_var(v); }
}
