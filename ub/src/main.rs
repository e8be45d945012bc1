//! C30: every operation runs in an interpreter (Miri) which judges each step of it.
//! `ub list TIER` names the groups with their weights; `ub run TIER GROUP FROM TO [v]` runs some of a group's cases.
mod env;
#[path = "../../mc/src/gens.rs"]
#[allow(dead_code)]
mod gens;
mod groups;
mod ops;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = a.get(2).is_some_and(|t| t == "thorough");
    match a.get(1).map(String::as_str) {
        Some("list") => {
            for (i, g) in groups::groups(thorough).iter().enumerate() {
                println!("G\t{i}\t{}\t{}\t{}\t{}", g.name, g.total, g.batch, g.threads);
            }
        }
        Some("run") => {
            let num = |i: usize| a[i].parse::<usize>().unwrap();
            let g = groups::groups(thorough).swap_remove(num(3));
            let loud = a.len() > 6;
            std::panic::set_hook(Box::new(|p| {
                if p.location().is_none_or(|l| !l.file().contains("partition.rs")) {
                    eprintln!("{p}");
                }
            }));
            let mut seen = std::collections::BTreeSet::new();
            for i in num(4)..num(5).min(g.total) {
                if loud {
                    println!("CASE {i} {:?}", (g.make)(i));
                }
                seen.insert((g.make)(i).run());
            }
            println!("T\t{}\t{}\t{:?}", env::total(), seen.len(), seen.iter().next().unwrap_or(&0));
        }
        _ => std::process::exit(2),
    }
}
