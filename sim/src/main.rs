mod alloc;
mod ctx;
mod gens;
mod judge;
mod line;
mod multi;
mod props_air;
mod props_line;
mod props_rc;
mod props_relay;
mod props_tx;
mod refp;
mod rng;
mod run;
mod rx;
mod tx;
mod world;

use run::{Opts, Prop, Tier};
use std::path::PathBuf;

fn props() -> Vec<Box<dyn Prop>> {
    vec![
        Box::new(props_air::c01()),
        Box::new(props_tx::c02()),
        Box::new(props_air::c03()),
        Box::new(props_air::c04()),
        Box::new(props_line::c05()),
        Box::new(props_air::c06()),
        Box::new(props_line::c07()),
        Box::new(props_line::c08()),
        Box::new(props_line::c09()),
        Box::new(props_line::c10()),
        Box::new(props_air::c11()),
        Box::new(props_air::c12()),
        Box::new(props_rc::c13()),
        Box::new(props_line::c14()),
        Box::new(props_line::c15()),
        Box::new(props_air::c16()),
        Box::new(props_relay::c19()),
    ]
}

#[global_allocator]
static GLOBAL: alloc::Caching = alloc::Caching;

fn main() {
    run::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let all = props();
    let o = Opts {
        seed: opt("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1),
        tier: match opt("--tier").or(std::env::var("VERIF_TIER").ok()).as_deref() {
            Some("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        },
        out: PathBuf::from(opt("--out").unwrap_or("/verif".into())),
        runs: opt("--runs").and_then(|s| s.parse().ok()),
        threads: opt("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map_or(4, |n| n.get())
        }),
    };
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let id = opt("--prop").expect("--prop");
            let p = all.iter().find(|p| p.id() == id).expect("known property");
            run::check(p.as_ref(), &o)
        }
        Some("digest") => {
            let ids = opt("--prop");
            for p in all.iter().filter(|p| ids.as_deref().is_none_or(|i| i == p.id())) {
                println!("{} {:016x}", p.id(), run::digest(p.as_ref(), &o));
            }
            0
        }
        Some("histories") => {
            line::print_histories(o.seed, o.runs.unwrap_or(1000));
            0
        }
        Some("replay") => run::replay(&all, &PathBuf::from(args.get(1).expect("file"))),
        _ => {
            eprintln!("usage: irsim check --prop ID [--tier quick|thorough] [--seed N] [--runs N] | replay FILE | digest | histories");
            2
        }
    };
    std::process::exit(code);
}
