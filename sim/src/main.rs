#![allow(dead_code, invalid_runtime_symbol_definitions)]
mod amend;
mod child;
mod content;
mod damage;
mod dbg;
mod hist;
mod interpose;
mod model;
mod os;
mod p_content;
mod p_data;
mod p_env;
mod p_file;
mod p_query;
mod p_ref;
mod p_topsky;
mod pack;
mod props;
mod raw;
mod rng;
mod run;
mod sched;
mod topsky_defaults;
mod world;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    child::install_hook();
    let env = |k: &str| std::env::var(k).ok();
    match a.first().map(String::as_str) {
        Some("worker") => run::worker(&a[1..]),
        Some("replay") => std::process::exit(run::replay(&a[1])),
        Some("one") => run::one(&a[1..]),
        // the text of one file of a generated installation
        Some("file") => {
            let text = std::fs::read_to_string(&a[1]).expect("file");
            let v: serde_json::Value = serde_json::Deserializer::from_str(&text).into_iter().next().unwrap().expect("json");
            let s: hist::Scenario = serde_json::from_value(v).expect("scenario");
            let (k, role): (usize, usize) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let role = s.layout.roles()[role].0;
            use std::io::Write;
            let _ = std::io::stdout().write_all(&s.packs[k].bytes(&s.layout, role).unwrap_or_default());
        }
        Some("selftest") => std::process::exit(run::selftest(&a[1..])),
        Some("check") => {
            let thorough = env("VERIF_TIER").as_deref() == Some("thorough") || a.iter().any(|x| x == "--thorough");
            let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
            std::process::exit(run::check(&a[1], thorough, seed))
        }
        _ => {
            eprintln!("usage: vpsim check ID | replay FILE | one ID SEED INDEX [dump] | selftest [ID..]");
            std::process::exit(2)
        }
    }
}
