//! harness check ID EVIDENCE REPLAYDIR | replay FILE | (internally) worker, batch, gen

use crate::engine::*;
use std::path::PathBuf;

/// Command line of every binary; `property` knows the properties of the group.
pub fn run(property: fn(&str) -> Option<Property>) {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let p = property(&a[2]).expect("unknown property");
            worker_main(&p, &a[3..])
        }
        // check ID evidence-file replay-dir
        Some("check") => {
            let p = property(&a[2]).expect("unknown property");
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            check_main(&p, tier, seed, &PathBuf::from(&a[3]), &PathBuf::from(&a[4]))
        }
        // gen ID sub n: prints a batch file
        Some("gen") => {
            let p = property(&a[2]).expect("unknown property");
            let s = p.subs.iter().find(|s| s.name() == a[3]).expect("no such sub-check");
            let cases = s.generate(p.id, Tier::Quick, 1, a[4].parse().unwrap());
            println!("{}", serde_json::json!({"property": p.id, "sub": a[3], "cases": cases}));
            0
        }
        Some("batch") => {
            let b = std::fs::read(&a[2]).expect("batch file");
            let v: serde_json::Value = serde_json::from_slice(&b).expect("batch JSON");
            let p = property(v["property"].as_str().unwrap_or("")).expect("unknown property");
            batch_main(&p, &v)
        }
        Some("replay") => {
            let b = std::fs::read(&a[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_slice(&b).expect("replay JSON");
            let p = property(v["property"].as_str().unwrap_or("")).expect("unknown property");
            replay_main(&p, &v)
        }
        _ => {
            eprintln!("usage: harness check ID EVIDENCE REPLAYDIR | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
