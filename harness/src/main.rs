//! rv: runtime monitors for reCTBN.  `rv <property> <quick|thorough> [--section S] [--case N]`
#![allow(non_snake_case, clippy::all)]
#[macro_use]
mod core;
mod gen;
mod oracle;
mod props;
mod stats;

use crate::core::*;
use props::*;

/// Number of cases per property: about 5 s of 8 cores in the quick tier.
fn volume(prop: &str) -> f64 {
    match prop {
        "C01" | "C02" | "C04" | "C10" | "C22" | "C30" => 100.0,
        "C03" | "C06" | "C18" | "C19" | "C21" | "C24" | "C26" | "C27" => 50.0,
        "C05" | "C07" | "C28" => 15.0,
        "C08" | "C32" => 8.0,
        "C25" => 12.0,
        "C17" => 15.0,
        "C29" => 0.7,
        "C23" => 5.0,
        _ => 25.0,
    }
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "C09-child" {
        std::process::exit(sim::c09_child(a[2].parse().unwrap_or(0)));
    }
    if a.len() < 3 {
        eprintln!("usage: rv <property> <quick|thorough|tsan|miri|asan> [--section S] [--case N]");
        std::process::exit(2);
    }
    let prop = a[1].clone();
    let mode = a[2].clone();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|x| x.parse::<u64>().ok())
        .unwrap_or(1);
    let scale = std::env::var("RV_SCALE")
        .ok()
        .and_then(|x| x.parse::<f64>().ok())
        .unwrap_or(1.0);
    let scale = if matches!(mode.as_str(), "quick" | "thorough") {
        scale * volume(&prop) * if mode == "thorough" { 4.0 } else { 1.0 }
    } else {
        scale
    };
    let only = opt("--section").map(|s| (s, opt("--case").and_then(|x| x.parse().ok())));
    let root = std::env::var("RV_ROOT").unwrap_or_else(|_| "/verif".into());
    let evidence = opt("--evidence").unwrap_or_else(|| format!("{root}/evidence/{prop}.json"));
    let replay = format!("{root}/replay");
    // known findings: "finding: property=<id> sig=<signature> <text>"
    let mut known = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                let mut it = r.splitn(3, ' ');
                if let (Some(p), Some(s), Some(w)) = (it.next(), it.next(), it.next()) {
                    if let Some(s) = s.strip_prefix("sig=") {
                        known.push((p.to_string(), s.to_string(), w.to_string()));
                    }
                }
            }
        }
    }
    let threads = std::env::var("RV_THREADS")
        .ok()
        .and_then(|x| x.parse::<usize>().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|x| x.get())
                .unwrap_or(4)
                .min(8)
        });
    let ctx = Ctx::new(
        &prop,
        mode == "thorough",
        seed,
        scale,
        only,
        known.iter().map(|k| (k.0.clone(), k.1.clone())).collect(),
        if mode == "miri" { 1 } else { threads },
    );
    if mode != "miri" {
        watchdog(&prop, &replay, if mode == "quick" { 240 } else { 600 });
    }
    match prop.as_str() {
        "C01" => net::c01(&ctx),
        "C02" => net::c02(&ctx),
        "C03" => net::c03(&ctx),
        "C04" => net::c04(&ctx),
        "C05" => sim::c05(&ctx),
        "C06" => sim::c06(&ctx),
        "C07" => sim::c07(&ctx),
        "C08" => sim::c08(&ctx),
        "C09" => sim::c09(&ctx),
        "C10" => net::c10(&ctx),
        "C11" => learn::c11(&ctx),
        "C12" => learn::c12(&ctx),
        "C13" => learn::c13(&ctx),
        "C14" => learn::c14(&ctx),
        "C15" => learn::c15(&ctx),
        "C16" => structure::c16(&ctx),
        "C17" => structure::c17(&ctx),
        "C18" => structure::c18(&ctx),
        "C19" => structure::c19(&ctx),
        "C20" => learn::c20(&ctx),
        "C21" => structure::c21(&ctx),
        "C22" => rew::c22(&ctx),
        "C23" => rew::c23(&ctx),
        "C24" => rew::c24(&ctx),
        "C25" => rew::c25(&ctx),
        "C26" => rew::c26(&ctx),
        "C27" => sim::c27(&ctx),
        "C28" => sim::c28(&ctx),
        "C29" => conc::c29(&ctx, &mode),
        "C30" => net::c30(&ctx),
        "C31" => sim::c31(&ctx),
        "C32" => structure::c32(&ctx),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
    let rc = ctx.finish(&evidence, &replay, &known);
    std::process::exit(rc);
}
