#![allow(dead_code, deprecated)]
mod derived;
mod diff;
mod ev;
mod gen;
mod meter;
mod model;
mod props;
mod rng;
mod subjects;
mod sup;
mod tree;
mod vals;
mod work;
use ev::Tier;

#[global_allocator]
static ALLOC: meter::Counting = meter::Counting;

fn main() {
    ev::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let props = props::all();
    match a.get(1).map(|s| s.as_str()) {
        Some("--list") => {
            for p in &props {
                println!("{}", p.id);
            }
        }
        Some("--input") => {
            let (Some(name), Some(h)) = (a.get(2), a.get(3)) else {
                eprintln!("usage: --input <type> <hex>");
                std::process::exit(2)
            };
            let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            props::explain(name, &b);
        }
        Some(id) => {
            let Some(p) = props.iter().find(|p| p.id == id) else {
                eprintln!("unknown property {id}");
                std::process::exit(2)
            };
            let code = if std::env::var("MON_CHILD").is_ok() { sup::child(p, tier, seed) } else { sup::parent(p, tier, seed) };
            std::process::exit(code)
        }
        None => {
            eprintln!("usage: mon <property> | --list | --input <type> <hex>");
            std::process::exit(2)
        }
    }
}
