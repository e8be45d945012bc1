//! C26 (stack) and C27 (running time): every basic block executed is counted, and the lowest stack
//! address met is kept, by the coverage callback the compiler puts into each block.
#[path = "../../mc/src/engine.rs"]
#[allow(dead_code)]
mod engine;
#[path = "../../mc/src/gens.rs"]
#[allow(dead_code)]
mod gens;
mod ctx {
    pub struct Fault(pub u64);
    pub struct Capped(pub u64);
    pub struct BadRef;
}
mod meter;
mod stack;
mod table;
mod work;

use engine::{Args, PropInfo, Tier};

fn tier(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

fn find(id: &str) -> PropInfo {
    match table::table().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let spawn = |f: Box<dyn FnOnce() -> i32 + Send>| std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap_or(101);
    let code = match a.get(1).map(String::as_str) {
        // work check ID TIER ROOT
        Some("check") => {
            let args = Args { prop: a[2].clone(), tier: tier(&a[3]), seed };
            engine::check(&args, &find(&a[2]), &a[4])
        }
        // work worker ID TIER SHARD SHARDS ONLY CRUMB TRACES
        Some("worker") => {
            let args = Args { prop: a[2].clone(), tier: tier(&a[3]), seed };
            let body = find(&a[2]).body;
            spawn(Box::new(move || engine::worker(&args, a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().ok(), Some(&a[7]), Some(&a[8]), false, body)))
        }
        // work replay ID TIER CASE
        Some("replay") => {
            let args = Args { prop: a[2].clone(), tier: tier(&a[3]), seed };
            let body = find(&a[2]).body;
            spawn(Box::new(move || engine::worker(&args, 0, 1, a[4].parse().ok(), None, None, true, body)))
        }
        _ => {
            eprintln!("usage: work check|worker|replay …");
            2
        }
    };
    std::process::exit(code);
}
