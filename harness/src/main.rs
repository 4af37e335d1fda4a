#![allow(dead_code)]
mod alloc;
mod checks;
mod core;
mod corpus;
mod edit;
mod exercise;
mod ext;
mod faults;
mod gen;
mod mk;
mod model;
mod mutate;
mod render;
mod rng;
mod share;
mod structure;
mod sut;

use std::path::PathBuf;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn usage() -> ! {
    eprintln!("harness check PROP | harness replay FILE | harness case PROP SEED CASE [thorough] | harness list");
    std::process::exit(2)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()));
    let arg = |i: usize| args.get(i).map_or_else(|| usage(), |s| s.as_str());
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or_else(|_| usage());
    let check = |id: &str| {
        checks::all()
            .iter()
            .find(|c| c.id == id)
            .unwrap_or_else(|| usage())
    };
    let code = match arg(0) {
        "list" => {
            for c in checks::all() {
                println!("{} {:?}", c.id, c.cases);
            }
            0
        }
        "check" => core::parent(check(arg(1)), &verif),
        "worker" => {
            core::worker(
                check(arg(1)),
                arg(2) == "thorough",
                num(3),
                num(4),
                num(5),
                &PathBuf::from(arg(8)),
                num(6),
                num(7),
                core::listed(&verif),
            );
            0
        }
        "case" => core::replay(
            check(arg(1)),
            num(2),
            if arg(3) == "known" { u64::MAX } else { num(3) },
            args.get(4).is_some_and(|t| t == "thorough"),
            &verif,
        ),
        "replay" => {
            let text = std::fs::read_to_string(arg(1)).unwrap_or_else(|_| usage());
            let field = |k: &str| {
                text.split(&format!("\"{k}\": "))
                    .nth(1)
                    .and_then(|t| t.split([',', '\n']).next())
                    .map_or_else(|| usage(), |t| t.trim_matches('"').to_string())
            };
            let case = field("case");
            core::replay(
                check(&field("property")),
                field("seed").parse().unwrap_or(1),
                case.parse().unwrap_or(u64::MAX),
                field("tier") == "thorough",
                &verif,
            )
        }
        _ => usage(),
    };
    std::process::exit(code);
}
