#![allow(dead_code)]
mod body;
mod checks;
mod cli;
mod facts;
mod frames;
mod guard;
mod h1gen;
mod duel;
mod mt;
mod tiny;
mod h2ex;
mod h2raw;
mod h2x;
mod peer;
mod refh1;
mod report;
mod rng;
mod sim;
mod respgen;
mod run;
mod srv;
mod tun;
mod util;
mod wall;

fn main() {
    report::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("HV_ROOT").unwrap_or_else(|_| "/verif".into());
    let all = checks::all();
    let find = |id: &str| all.iter().find(|c| c.id == id);
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in &all {
                println!("{}", c.id);
            }
        }
        Some("check") => {
            let c = a.get(2).and_then(|i| find(i));
            match c {
                Some(c) if guard::is_child() => std::process::exit(report::run_check(c, &root)),
                Some(c) => std::process::exit(guard::supervise(c, &root)),
                None => {
                    eprintln!("no such check");
                    std::process::exit(2)
                }
            }
        }
        // in this process, for an interpreter that watches it
        Some("direct") => {
            let c = a.get(2).and_then(|i| find(i)).expect("check id");
            std::process::exit(report::run_check(c, &root))
        }
        Some("replay") => {
            let c = a.get(2).and_then(|i| find(i)).expect("check id");
            let seed: u64 = a[3].parse().expect("case seed");
            let ctx = report::Ctx { seed, index: 0, thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"), trace: true };
            match report::run_case(c, &ctx) {
                report::Ran::HarnessPanic(m) => println!("harness panic: {m}"),
                report::Ran::Out(o) => {
                    for l in &o.trace {
                        println!("{l}");
                    }
                    println!("case: {}", o.desc.unwrap_or_default());
                    println!("counts: {:?}", o.counts);
                    if let Some(i) = &o.inconclusive {
                        println!("inconclusive: {i}");
                    }
                    for v in &o.violations {
                        println!("violation: {v}");
                    }
                    let known = report::known_findings(&root);
                    if o.violations.iter().any(|v| !known.iter().any(|(id, n)| id == c.id && v.contains(n.as_str()))) {
                        println!("VIOLATION property={} replay=case:{seed}", c.id);
                        std::process::exit(1);
                    }
                }
            }
        }
        _ => {
            eprintln!("usage: hv list | check ID | replay ID CASESEED");
            std::process::exit(2)
        }
    }
}
