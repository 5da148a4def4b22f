mod check;
mod explore;
mod fams;
mod monitor;
mod props;
mod proto;
mod scen;
mod world;
use explore::*;
use std::time::{Duration, Instant};

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("MC_PANIC").is_ok() {
            eprintln!("{i}");
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let all = scen::all();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let sc = all.iter().find(|s| s.name == args[2]).expect("scenario");
            let prefix: Vec<u32> = args.get(3).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
            let t = Instant::now();
            let ex = execute(sc, prefix, vec![], std::env::var("Q").is_err(), Duration::from_secs(600));
            for l in &ex.trace {
                println!("{l}");
            }
            println!("choices {} steps {} msgs {} panics {} vtime {}ms hash {:x} wall {:?}", ex.choices.len(), ex.steps, ex.msgs, ex.panics, ex.vtime / simrt::MS, ex.final_hash, t.elapsed());
            for v in &ex.viols {
                println!("VIOL {} {} @{}ms", v.kind, v.detail, v.at / simrt::MS);
            }
            println!("diverged {:?}", ex.diverged);
        }
        Some("explore") => {
            let pat = &args[2];
            let secs: u64 = args.get(3).and_then(|x| x.parse().ok()).unwrap_or(60);
            let maxf: usize = args.get(4).and_then(|x| x.parse().ok()).unwrap_or(20);
            let scs: Vec<Scenario> = all.iter().filter(|s| s.name.starts_with(pat.as_str())).cloned().collect();
            let o = explore(&scs, Opts { threads: std::env::var("VERIF_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8), deadline: Instant::now() + Duration::from_secs(secs), stop_on: Box::new(|_, _| true), max_found: maxf, exec_wall: Duration::from_secs(60), recheck: 64 });
            let s = &o.stats;
            println!("executions {} steps {} states {} finals {} panics {} left {} wall {:.1}s", s.executions, s.steps, s.states.len(), s.finals.len(), s.panics, s.left, s.wall);
            println!("{:?}", s.per_scenario);
            println!("{:?}", s.checks);
            for e in &o.errors {
                println!("ERR {e}");
            }
            for f in &o.found {
                println!("FOUND {} {}: {}\n   {}\n   {}", f.scenario, f.viol.kind, f.viol.detail, f.tags.join(" "), f.choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            }
        }
        // what the checks of all properties find together (for development)
        Some("hunt") => check::hunt(&all, args.get(2).and_then(|x| x.parse().ok()).unwrap_or(60)),
        Some("check") => {
            let root = args.get(3).cloned().unwrap_or("/verif".into());
            std::process::exit(check::check(&all, &args[2], &root));
        }
        Some("replay") => std::process::exit(check::replay(&all, &args[2])),
        _ => {
            for s in &all {
                println!("{}", s.name);
            }
        }
    }
}
