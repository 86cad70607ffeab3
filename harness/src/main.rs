mod alloc;
mod arch;
mod checks;
mod engine;
mod parse;
mod report;
mod rng;
mod src;

use report::{Runner, Tier};
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

pub fn level(prop: &str) -> &'static str {
    match prop {
        "C09" => "fault_enumeration",
        _ => "exploration",
    }
}

fn main() {
    report::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let mut seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok())
        .unwrap_or(1) as u64;
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut only = None;
    if args.get(1).is_some_and(|a| a == "--build-only") {
        return;
    }
    let mut prop = args.get(1).cloned().unwrap_or_default();
    if prop == "--replay" {
        let text = std::fs::read_to_string(&args[2]).expect("replay file");
        let get = |k: &str| {
            text.lines()
                .find_map(|l| l.strip_prefix(&format!("{k}=")))
                .unwrap_or_else(|| panic!("no {k} in the replay file"))
                .to_string()
        };
        prop = get("property");
        seed = get("seed").parse().expect("seed");
        tier = if get("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
        only = Some((get("stage"), get("idx").parse().expect("idx")));
    }
    for a in &args[2..] {
        if a == "thorough" {
            tier = Tier::Thorough;
        } else if a == "quick" {
            tier = Tier::Quick;
        }
    }
    let Some(c) = checks::ALL.iter().find(|c| c.0 == prop) else {
        eprintln!("unknown property {prop:?}");
        std::process::exit(2);
    };
    let budget = std::env::var("ZV_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == Tier::Quick { 400 } else { 650 });
    let mut r = Runner {
        prop: c.0,
        seed,
        tier,
        obs: report::Obs::default(),
        violations: Vec::new(),
        harness_errors: Vec::new(),
        stages: Vec::new(),
        only,
        start: Instant::now(),
        budget: Duration::from_secs(budget),
        rule: String::new(),
        extra: Vec::new(),
        assumptions: Vec::new(),
        findings: Vec::new(),
        scale: std::env::var("ZV_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1.0),
    };
    (c.1)(&mut r);
    let code = r.finish();
    std::process::exit(code);
}
