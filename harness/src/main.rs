//! Runtime monitors for icalendar-rs.
//!
//! `mon run <property> <quick|thorough>` decides one property, see DESIGN.md.

mod alloc;
mod clock;
mod conv;
mod gen;
mod model;
mod p_build;
mod p_builds;
mod p_more;
mod p_parse;
mod p_robust;
mod p_text;
mod p_time;
mod reader;
mod rng;
mod rt;
mod scale;
mod walk;

use rt::{ChildOpts, Prop, RunOpts, Tier};
use std::path::PathBuf;
use std::time::Duration;

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

fn props() -> Vec<Prop> {
    vec![
        p_robust::c01(),
        p_build::c02(),
        p_text::c03(),
        p_text::c04(),
        p_parse::c05(),
        p_parse::c06(),
        p_parse::c07(),
        p_parse::c08(),
        p_parse::c09(),
        p_parse::c10(),
        p_build::c11(),
        p_build::c12(),
        p_time::c13(),
        p_time::c14(),
        p_time::c15(),
        p_build::c16(),
        p_build::c17(),
        p_parse::c18(),
        p_build::c19(),
        p_robust::c20(),
        p_robust::c21(),
        p_text::c22(),
        p_more::c23(),
        p_builds::c24(),
        p_more::c25(),
        p_more::c26(),
    ]
}

fn tier(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => usage(),
    }
}

fn usage() -> ! {
    eprintln!("usage: mon run <property> <quick|thorough> | mon replay <file> | mon list");
    std::process::exit(2)
}

fn num<T: std::str::FromStr>(a: Option<&String>) -> T {
    a.and_then(|s| s.parse().ok()).unwrap_or_else(|| usage())
}

fn env_num<T: std::str::FromStr>(name: &str, default: T) -> T {
    std::env::var(name).ok().and_then(|s| s.parse().ok()).unwrap_or(default)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let find = |id: &str| {
        props().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no such property: {id}");
            std::process::exit(2)
        })
    };
    let code = match args.first().map(String::as_str) {
        Some("list") => {
            for p in props() {
                println!("{} {}", p.id, p.level);
            }
            0
        }
        Some("run") if args.len() == 3 => {
            let cores = std::thread::available_parallelism().map_or(4, |n| n.get());
            rt::run(
                &find(&args[1]),
                &RunOpts {
                    tier: tier(&args[2]),
                    seed: env_num("VERIF_SEED", 1),
                    verif: PathBuf::from(std::env::var("MON_VERIF").unwrap_or_else(|_| "/verif".into())),
                    threads: env_num("MON_THREADS", cores.clamp(2, 16)),
                    scale: env_num("MON_SCALE", 1.0),
                },
            )
        }
        Some("child") if args.len() == 9 || args.len() == 11 => rt::child(
            &find(&args[1]),
            &ChildOpts {
                tier: tier(&args[2]),
                seed: num(args.get(3)),
                out: PathBuf::from(&args[4]),
                state: PathBuf::from(&args[5]),
                only: (args.len() == 11).then(|| (num(args.get(9)), num(args.get(10)))),
                cap: Duration::from_secs(num(args.get(6))),
                threads: num(args.get(7)),
                scale: num(args.get(8)),
            },
        ),
        Some("ids") if args.len() == 2 => {
            p_build::emit_ids(num(args.get(1)));
            0
        }
        Some("print") if args.len() == 3 => {
            p_build::emit_prints(num(args.get(1)), num(args.get(2)));
            0
        }
        Some("transcript") if args.len() == 3 => {
            p_robust::emit_transcripts(num(args.get(1)), num(args.get(2)));
            0
        }
        Some("measure") if args.len() > 2 => {
            let sizes: Vec<usize> = args[2..].iter().map(|a| num(Some(a))).collect();
            p_robust::measure(num(args.get(1)), &sizes);
            0
        }
        Some("replay") if args.len() == 2 => {
            let ps = props();
            rt::replay(&ps, &args[1])
        }
        _ => usage(),
    };
    std::process::exit(code);
}
