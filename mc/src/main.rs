mod alloc;
mod wild;
mod place;
mod query;
mod cost;
mod small;
mod keys;
mod span;
mod types;
mod ctx;
mod engine;
mod fault;
mod gens;
mod grid;
mod ops;
mod par;
mod nest;
mod seq;
mod util;

use engine::{Args, PropInfo, Tier};

#[global_allocator]
static GLOBAL: alloc::Checking = alloc::Checking;

mod table;
use table::table;

fn tier(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

fn find(id: &str) -> PropInfo {
    match table().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match a.get(1).map(String::as_str) {
        // mc check ID TIER ROOT
        Some("check") => {
            let args = Args { prop: a[2].clone(), tier: tier(&a[3]), seed };
            engine::check(&args, &find(&a[2]), &a[4])
        }
        // mc worker ID TIER SHARD SHARDS ONLY CRUMB TRACES
        Some("worker") => {
            let args = Args { prop: a[2].clone(), tier: tier(&a[3]), seed };
            let only = a[6].parse().ok();
            // A roomy stack, so that recursion depth is the code's own.
            let body = find(&a[2]).body;
            let h = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || engine::worker(&args, a[4].parse().unwrap(), a[5].parse().unwrap(), only, Some(&a[7]), Some(&a[8]), false, body))
                .unwrap();
            h.join().unwrap_or(101)
        }
        // mc replay ID TIER CASE
        Some("replay") => {
            let args = Args { prop: a[2].clone(), tier: tier(&a[3]), seed };
            let only = a[4].parse().ok();
            let body = find(&a[2]).body;
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || engine::worker(&args, 0, 1, only, None, None, true, body)).unwrap();
            h.join().unwrap_or(101)
        }
        _ => {
            eprintln!("usage: mc check|worker|replay …");
            2
        }
    };
    std::process::exit(code);
}
