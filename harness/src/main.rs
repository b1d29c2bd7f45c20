//! mon: runs the midi2spc command-line tool under generated workloads and faults, and judges what
//! it observes against the properties.
mod common;
#[macro_use]
mod engine;
mod gen;
mod model;
mod nspc;
mod props;
mod rng;
mod rom;
mod smf;
mod song;

use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let props = props::all();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{} {} quick {:?} thorough {:?}", p.id, p.level, (p.cases.0, p.secs.0), (p.cases.1, p.secs.1));
            }
        }
        Some("check") if args.len() >= 3 => {
            let prop = match props.iter().find(|p| p.id == args[2]) {
                Some(p) => p,
                None => {
                    eprintln!("unknown property {}", args[2]);
                    std::process::exit(2);
                }
            };
            let verif = PathBuf::from(std::env::var("MON_VERIF").unwrap_or("/verif".into()));
            let base = if std::path::Path::new("/dev/shm").is_dir() && std::env::var("MON_TMP").is_err() {
                PathBuf::from("/dev/shm")
            } else {
                PathBuf::from(std::env::var("MON_TMP").unwrap_or("/tmp".into()))
            };
            let scratch = base.join(format!("mon-{}-{}", prop.id, std::process::id()));
            let env = engine::Env {
                prop: prop.id.to_string(),
                cli: PathBuf::from(std::env::var("MON_CLI").unwrap_or("/verif/build/cli/release/midi2spc".into())),
                shim: verif.join("build/shim.so"),
                repo: PathBuf::from(std::env::var("MON_REPO").unwrap_or("/repo".into())),
                verif,
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
                scratch: scratch.clone(),
            };
            std::fs::create_dir_all(&scratch).expect("scratch directory");
            if std::env::var("MON_PANIC").is_err() {
                std::panic::set_hook(Box::new(|_| {}));
            }
            let only = args.get(3).and_then(|s| s.parse().ok());
            let code = engine::run_prop(&env, prop, only);
            let _ = std::fs::remove_dir_all(&scratch);
            std::process::exit(code);
        }
        _ => {
            eprintln!("usage: mon list | mon check ID [case]");
            std::process::exit(2);
        }
    }
}
