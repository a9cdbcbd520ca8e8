#![allow(dead_code)]
mod case;
mod engine;
mod model;
mod oracle;
mod props;
mod rng;
mod rt;
use engine::*;
use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = std::env::var("SIM_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
    let out = std::env::var("SIM_OUT").map(PathBuf::from).unwrap_or_else(|_| verif.join("target"));
    let cfg = Cfg {
        bins: Bins {
            sim: out.join("sim/x86_64-unknown-linux-gnu/debug/wimbd"),
            lib: out.join("lib/x86_64-unknown-linux-gnu/debug/libsim"),
        },
        verif,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        workers: std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| cpus().len().min(16)),
        scale: std::env::var("SIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
        only: std::env::var("SIM_ONLY").ok().and_then(|s| s.parse().ok()),
        quiet: false,
    };
    let get = |id: &str| -> Box<dyn props::Prop> {
        match props::all().into_iter().find(|p| p.id() == id) {
            Some(p) => p,
            None => {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            }
        }
    };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => run_prop(&cfg, &*get(&args[2])),
        Some("replay") => {
            let path = PathBuf::from(&args[2]);
            let doc: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&path).expect("read")).expect("parse");
            replay(&cfg, &*get(doc["property"].as_str().unwrap()), &path)
        }
        Some("determinism") => {
            let n = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(100);
            let ids: Vec<String> = args[3.min(args.len())..].to_vec();
            let mut bad = 0;
            for p in props::all() {
                if ids.is_empty() || ids.iter().any(|i| i == p.id()) {
                    bad += determinism(&cfg, &*p, n);
                }
            }
            (bad > 0) as i32
        }
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        _ => {
            eprintln!("usage: simdrv check ID | replay FILE | determinism N [ID..] | list");
            2
        }
    };
    std::process::exit(code);
}
