mod alloc;
mod common;
mod engine;
mod props_cli;
mod props_fp;
mod props_match;
mod props_robust;
mod refcodec;
mod refmatch;
mod refmodel;
mod rng;
mod signal;
mod wav;
use engine::{Prop, RunCfg, Tier};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let mut args = std::env::args().skip(1);
    let Some(id) = args.next() else {
        eprintln!(
            "usage: mon <property> [--seed N] [--tier quick|thorough] [--case K] [--scale F]"
        );
        std::process::exit(2);
    };
    let env = |k: &str| std::env::var(k).ok();
    if id == "solo" {
        std::process::exit(props_robust::solo());
    }
    let mut cfg = RunCfg {
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        tier: if env("VERIF_TIER").as_deref() == Some("thorough") {
            Tier::Thorough
        } else {
            Tier::Quick
        },
        only: None,
        cases: None,
        scale: env("MON_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
    };
    while let Some(a) = args.next() {
        let v = args.next().unwrap_or_default();
        match a.as_str() {
            "--seed" => cfg.seed = v.parse().unwrap_or(1),
            "--tier" => {
                cfg.tier = if v == "thorough" {
                    Tier::Thorough
                } else {
                    Tier::Quick
                }
            }
            "--case" => cfg.only = v.parse().ok(),
            "--cases" => cfg.cases = v.parse().ok(),
            "--scale" => cfg.scale = v.parse().unwrap_or(1.0),
            _ => {
                eprintln!("unknown argument {a}");
                std::process::exit(2);
            }
        }
    }
    let all: Vec<&Prop> = props_fp::PROPS
        .iter()
        .chain(props_match::PROPS)
        .chain(props_cli::PROPS)
        .chain(props_robust::PROPS)
        .collect();
    if id == "list" {
        for p in all {
            println!("{}", p.id);
        }
        return;
    }
    match all.iter().find(|p| p.id == id) {
        Some(p) => std::process::exit(engine::run(p, cfg)),
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}
