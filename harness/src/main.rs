#![allow(dead_code)]
#[macro_use]
mod engine;
mod damage;
mod foreign;
mod gen;
mod opc;
mod pdf;
mod props;
mod schema;
mod xml;
use std::path::Path;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let get = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            engine::run(get(&a[2]), a.get(3).unwrap_or(&tier), seed)
        }
        Some("worker") => {
            engine::worker(get(&a[2]), &a[3], a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), Path::new(&a[7]));
            0
        }
        Some("replay") => engine::replay(&props, &a[2]),
        Some("scan") => {
            engine::scan(get(&a[2]), a.get(3).and_then(|s| s.parse().ok()).unwrap_or(300), 1);
            0
        }
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("vh run <id> [tier] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
