mod conn;
mod engine;
mod ffi;
mod ffigen;
mod gen;
mod machine;
mod maps;
mod program;
mod proto;
mod render;
mod server;
mod table;
mod term;
mod text;

use engine::*;
use serde_json::Value;
use std::path::PathBuf;

fn entries() -> Vec<Entry> {
    vec![
        entry::<table::C01>(),
        entry::<table::C02>(),
        entry::<table::C03>(),
        entry::<server::C11>(),
        entry::<proto::C12>(),
        entry::<proto::C13>(),
        entry::<proto::C14>(),
        entry::<maps::C15>(),
        entry::<conn::C17>(),
        entry::<ffi::C18>(),
        entry::<machine::M<machine::P04>>(),
        entry::<machine::M<machine::P05>>(),
        entry::<machine::M<machine::P06>>(),
        entry::<render::C07>(),
        entry::<machine::M<machine::P08>>(),
        entry::<machine::M<machine::P09>>(),
        entry::<machine::M<machine::P10>>(),
        entry::<machine::M<machine::P16>>(),
        entry::<machine::M<machine::P19>>(),
        entry::<machine::M<machine::P20>>(),
        entry::<maps::C21>(),
        entry::<maps::C22>(),
        entry::<term::C23>(),
        entry::<program::C24>(),
        entry::<ffigen::C25>(),
    ]
}

fn find(id: &str) -> Entry {
    entries()
        .into_iter()
        .find(|e| e.id == id)
        .unwrap_or_else(|| {
            eprintln!("no check for {}", id);
            std::process::exit(2)
        })
}

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn main() {
    if let Ok(path) = std::env::var("CED_VERIF_ORACLE") {
        return program::oracle(&path);
    }
    let args: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(std::env::var("CED_VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    match args.get(1).map(String::as_str) {
        Some("list") => {
            for e in entries() {
                println!("{}", e.id);
            }
        }
        Some("check") => {
            let e = find(&args[2]);
            let t = tier(
                &args
                    .get(3)
                    .cloned()
                    .or_else(|| std::env::var("VERIF_TIER").ok())
                    .unwrap_or_default(),
            );
            let cases = std::env::var("CED_VERIF_CASES")
                .ok()
                .and_then(|s| s.parse().ok());
            let a = CheckArgs {
                tier: t,
                seed,
                verif,
                cases,
            };
            std::process::exit(check(&e, &a));
        }
        Some("worker") => {
            install_panic_hook();
            let e = find(&args[2]);
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            let verif = PathBuf::from(&args[9]);
            let a = WorkerArgs {
                tier: tier(&args[3]),
                seed: n(4),
                shard: n(5),
                shards: n(6),
                cases: n(7),
                dir: PathBuf::from(&args[8]),
                known: known_findings(&verif, e.id)
                    .into_iter()
                    .map(|(s, _)| s)
                    .collect(),
                corpus: verif.join("corpus"),
            };
            let r = std::panic::catch_unwind(|| (e.worker)(&a));
            if r.is_err() {
                eprintln!("{}", last_panic());
                std::process::exit(3);
            }
        }
        Some("replay-worker") => {
            install_panic_hook();
            let v: Value = serde_json::from_slice(&std::fs::read(&args[2]).unwrap()).unwrap();
            let e = find(v["property"].as_str().unwrap());
            match (e.replay)(&v["case"]) {
                Ok(r) => {
                    std::fs::write(&args[3], serde_json::to_vec(&r).unwrap()).unwrap();
                }
                Err(m) => {
                    eprintln!("bad case: {}", m);
                    std::process::exit(3);
                }
            }
        }
        Some("replay") => {
            let v: Value = serde_json::from_slice(&std::fs::read(&args[2]).expect("read the replay file"))
                .expect("parse the replay file");
            let e = find(v["property"].as_str().unwrap());
            let scratch = std::env::temp_dir().join(format!("ced-verif-replay-{}", std::process::id()));
            std::fs::create_dir_all(&scratch).unwrap();
            let r = replay_alone(&e, &scratch, &v["case"]);
            let _ = std::fs::remove_dir_all(&scratch);
            match r {
                Ok(None) => println!("{}: the case passes", e.id),
                Ok(Some(f)) => {
                    println!("{}: {}", e.id, f.msg);
                    println!("VIOLATION property={} replay={}", e.id, args[2]);
                    std::process::exit(1);
                }
                Err(m) => {
                    println!("{}: error: {}", e.id, m);
                    std::process::exit(2);
                }
            }
        }
        Some("show") => {
            let e = find(&args[2]);
            let a = WorkerArgs {
                tier: Tier::Quick,
                seed,
                shard: 0,
                shards: 1,
                cases: 0,
                dir: PathBuf::new(),
                known: vec![],
                corpus: PathBuf::new(),
            };
            (e.show)(&a, args.get(3).and_then(|s| s.parse().ok()).unwrap_or(3));
        }
        _ => {
            eprintln!("usage: ced-verif list | check ID [quick|thorough] | replay FILE | show ID [N]");
            std::process::exit(2);
        }
    }
}
