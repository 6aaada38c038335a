#![allow(invalid_runtime_symbol_definitions, dead_code)]
mod c03;
mod c08;
mod c09;
mod c10;
mod c12;
mod c15;
mod c16;
mod c17;
mod canon;
mod disk;
mod meta;
mod model;
mod program;
mod raw;
mod refsem;
mod rng;
mod runner;
mod saved;
mod sched;
mod server;
mod w1;
mod w2;
mod zone;

use runner::{CheckCfg, Scenario};
use std::time::Duration;

fn scenario(prop: &str) -> Box<dyn Scenario> {
    match prop {
        "C01" => Box::new(w1::W1 { focus: "C01" }),
        "C02" => Box::new(w1::W1 { focus: "C02" }),
        "C03" => Box::new(c03::C03),
        "C04" => Box::new(w1::W1 { focus: "C04" }),
        "C05" => Box::new(w1::W1 { focus: "C05" }),
        "C06" => Box::new(w1::W1 { focus: "C06" }),
        "C09" => Box::new(c09::C09 { words: false }),
        "C19" => Box::new(c09::C09 { words: true }),
        "C10" => Box::new(c10::C10 { settings: false }),
        "C11" => Box::new(c10::C10 { settings: true }),
        "C15" => Box::new(c15::C15),
        "C16" => Box::new(c16::C16),
        "C17" => Box::new(c17::C17),
        "C12" => Box::new(c12::C12),
        "C13" | "C14" => Box::new(w2::W2 { focus: match prop {
            "C13" => "C13",
            _ => "C14",
        } }),
        "C08" => Box::new(c08::C08 { words: false }),
        "C18" => Box::new(c08::C08 { words: true }),
        "C07" => Box::new(w1::W1 { focus: "C07" }),
        _ => {
            eprintln!("no check for {}", prop);
            std::process::exit(2)
        }
    }
}

/// Runs this program again without address-space randomisation, so that whatever depends on
/// addresses (which accesses look shared) is the same every time.
fn fixed_addresses() {
    use std::os::unix::process::CommandExt;
    const NO_RANDOMIZE: libc::c_ulong = 0x0040000;
    unsafe {
        if std::env::var_os("SIM_REEXEC").is_some() {
            return;
        }
        let now = libc::personality(0xffff_ffff);
        if now >= 0 {
            libc::personality(now as libc::c_ulong | NO_RANDOMIZE);
        }
    }
    // with room for the arguments of a simulated program
    let e = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args_os().skip(1)).args([""; 12]).env("SIM_REEXEC", "1").exec();
    panic!("exec: {}", e);
}

fn main() {
    fixed_addresses();
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = a[2].clone();
            let tier = a.get(3).filter(|t| !t.is_empty()).cloned().unwrap_or("quick".into());
            let secs = std::env::var("SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 45 } else { 600 });
            let sc = scenario(&prop);
            let m = meta::meta(&prop);
            let cfg = CheckCfg {
                prop: &prop,
                tier: &tier,
                seed,
                level: "exploration",
                wall: Duration::from_secs(secs),
                max_runs: u64::MAX,
                par: 8,
                rule: m.rule,
                real: m.real,
                stub: m.stub,
                assumptions: m.assumptions.iter().map(|s| s.to_string()).collect(),
                root,
            };
            runner::check(cfg, &*sc)
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let sc = scenario(v["property"].as_str().unwrap());
            runner::replay(&*sc, &v)
        }
        // one run, for debugging
        Some("one") => {
            let sc = scenario(&a[2]);
            let idx: u64 = a[3].parse().unwrap();
            let base = rng::mix2(seed, a[2].bytes().fold(0u64, |a, b| rng::mix2(a, b as u64)));
            runner::calibrate(&*sc, base);
            let plan = sc.plan(rng::mix2(base, idx), idx);
            println!("{}", serde_json::to_string_pretty(&sc.describe(&plan)).unwrap());
            let o = runner::run_one(&*sc, &plan, None);
            println!("{}", serde_json::to_string_pretty(&o).unwrap());
            0
        }
        _ => 2,
    };
    std::process::exit(code);
}
