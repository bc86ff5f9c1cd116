//! Runtime monitors for url-cleaner. One sub-command per property.
mod core;
mod rng;
mod model;
mod make;
mod real;
mod programs;
mod parts;
mod text;
mod config;
mod cache;
mod memo;
mod http;
mod command;
mod cli;
mod net;
mod dconf;
mod indep;
mod shipped;
mod forms;
mod gate;
mod dupes;
mod debugged;
mod sizes;
mod sites;
use std::path::PathBuf;
use std::time::Instant;

fn main() {
    let a: Vec<String> = std::env::args_os().map(|x| x.to_string_lossy().into_owned()).collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let pid = a.get(1).cloned().unwrap_or_default();
    if pid == "child" {std::process::exit(command::child(&std::env::args_os().skip(1).collect::<Vec<_>>()));}
    if pid == "cache-worker" {std::process::exit(cache::worker(&a[1..]));}
    let cfg = core::Cfg {
        thorough: get("--tier").as_deref() == Some("thorough"), seed: get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1),
        evidence: get("--evidence").map(PathBuf::from).unwrap_or_else(|| format!("/tmp/{pid}.json").into()),
        replay_dir: get("--replay-dir").map(PathBuf::from).unwrap_or_else(|| "/tmp/replays".into()),
        only: get("--case").and_then(|x| x.rsplit_once(':').and_then(|(l, i)| Some((l.to_string(), i.parse().ok()?)))),
        cli: get("--cli").map(PathBuf::from).unwrap_or_else(|| "/verif/target/debug/url-cleaner".into()), repo: "/repo".into(),
        scratch: get("--scratch").map(PathBuf::from).unwrap_or_else(|| format!("/verif/scratch/{pid}").into()),
        known: get("--known").map(|p| known(&p, &pid)).unwrap_or_default(), start: Instant::now(),
        scale: get("--scale").and_then(|x| x.parse().ok()).unwrap_or(1.0), pid: pid.clone(),
    };
    core::install_hook();
    // The variables programs may read.
    // SAFETY: single-threaded so far.
    unsafe { std::env::set_var("UCM_A", "env a"); std::env::set_var("UCM_B", "é"); std::env::remove_var("UCM_UNSET");
        // Loading the system's certificates would take most of the time of every HTTP client made.
        std::env::set_var("SSL_CERT_FILE", "/dev/null"); std::env::set_var("SSL_CERT_DIR", "/dev/null"); }
    std::fs::create_dir_all(&cfg.scratch).ok();
    let code = match &*pid {
        "U08" | "U09" | "U10" | "U11" | "U12" | "U13" | "U14" | "U15" => programs::run(&cfg),
        "U05" | "U06" | "U07" => parts::run(&cfg),
        "U24" | "U25" => text::run(&cfg),
        "U16" => config::run(&cfg),
        "U17" => cache::run(&cfg),
        "U18" => memo::run(&cfg),
        "U01" | "U02" => cli::run(&cfg),
        "U03" | "U21" | "U22" | "U23" => shipped::run(&cfg),
        "U31" | "U32" => sites::run(&cfg),
        "U04" => indep::run(&cfg),
        "U26" => forms::run(&cfg),
        "U27" => gate::run(&cfg),
        "U29" => dupes::run(&cfg),
        "U30" => debugged::run(&cfg),
        "U28" => command::run(&cfg),
        "U19" | "U20" => http::run(&cfg),
        _ => {eprintln!("unknown property {pid}"); 2}
    };
    std::process::exit(code);
}
fn known(path: &str, pid: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    text.lines().filter_map(|l| {
        let l = l.strip_prefix("known: property=")?.strip_prefix(pid)?.strip_prefix(" signature=")?;
        let (sig, what) = l.split_once(" :: ")?;
        Some((sig.to_string(), what.to_string()))
    }).collect()
}
