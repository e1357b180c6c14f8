mod clock;
mod engine;
mod known;
mod live;
mod net;
mod props;
mod redis;
mod sim;
mod wire;

use std::path::PathBuf;

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let out = PathBuf::from(std::env::var("VERIF_OUT").unwrap_or_else(|_| "/verif".into()));
    let code = match args.get(1).map(String::as_str) {
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.parts.iter().map(|p| p.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        Some("run") => {
            let id = args.get(2).cloned().unwrap_or_default();
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => engine::Tier::Thorough,
                _ => engine::Tier::Quick,
            };
            match props::all().into_iter().find(|p| p.id == id) {
                Some(p) => engine::run_property(&p, seed, tier, &out),
                None => {
                    eprintln!("no property {id}");
                    2
                }
            }
        }
        Some("replay") => replay(args.get(2).map(String::as_str).unwrap_or("")),
        _ => {
            eprintln!("usage: harness list | run ID | replay FILE");
            2
        }
    };
    // Detached threads of hung cases must not keep the process.
    std::process::exit(code);
}

fn replay(path: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let Ok(v) = serde_json::from_str::<serde_json::Value>(&text) else {
        eprintln!("not JSON: {path}");
        return 2;
    };
    for p in props::all() {
        if v["property"] != p.id {
            continue;
        }
        for part in &p.parts {
            if v["part"] == part.name {
                return match (part.replay)(v["case"].clone()) {
                    Ok(()) => {
                        println!("the case passes");
                        0
                    }
                    Err(m) => {
                        println!("part {}: {m}", part.name);
                        println!("VIOLATION property={} replay={path}", p.id);
                        1
                    }
                };
            }
        }
    }
    eprintln!("no such property or part");
    2
}
