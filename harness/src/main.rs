mod alloc;
mod checks;
mod engine;
mod fuzz;
mod hostile;
mod model;
mod proj;
mod render;
mod rng;
mod schema;
mod types;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let checks = checks::all();
    let find = |id: &str| checks.iter().find(|c| c.id == id).unwrap_or_else(|| panic!("no check {}", id));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let code = match arg(1) {
        "check" => engine::supervise(find(arg(2)), seed, if arg(3).is_empty() { tier } else { arg(3) }),
        "worker" => engine::worker(find(arg(2)), arg(3).parse().unwrap(), arg(4) == "thorough", arg(5).as_ref()),
        "solo" => engine::solo(find(arg(2)), arg(3).parse().unwrap(), arg(4) == "thorough", arg(5).parse().unwrap()),
        "replay" => engine::replay(arg(2), &checks),
        "probe" => checks::probe(arg(2)),
        "digest" => checks::threads::print_digests(arg(2).parse().unwrap(), arg(3).parse().unwrap(), arg(4)),
        "stress" => checks::threads::stress(arg(2).parse().unwrap(), arg(3).parse().unwrap(), arg(4)),
        "cold" => checks::threads::cold(arg(2).parse().unwrap(), arg(3).parse().unwrap(), arg(4).parse().unwrap()),
        "profile" => {
            checks::cost::profile();
            0
        }
        "list" => {
            for c in &checks {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: ymon check ID [TIER] | replay FILE | probe FILE | list");
            2
        }
    };
    std::process::exit(code);
}
