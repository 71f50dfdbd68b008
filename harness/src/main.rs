mod chain;
mod codes;
mod model;
mod mon;
mod obs;
mod proto;
mod run;
mod scen;
mod lite;
mod scen_access;
mod scen_bridge;
mod scen_crowd;
mod scen_facade;
mod scen_factory;
mod scen_gov;
mod scen_home;
mod scen_ledger;
mod scen_ibc;
mod scen_legacy;
mod scen_pin;
mod scen_ver;
mod workload;
mod world;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let code = match arg(1).as_str() {
        "check" => {
            let tier = if arg(3).is_empty() { std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()) } else { arg(3) };
            run::check(&arg(2), &tier)
        }
        "replay" => run::replay(&arg(2)),
        // harness scen <name> <focus> <seed0> <seed1> <size> [log]
        "scen" => {
            let focus = run::prop_id(&arg(3));
            let name: &'static str = Box::leak(arg(2).into_boxed_str());
            let (s0, s1, n): (u64, u64, usize) = (arg(4).parse().unwrap(), arg(5).parse().unwrap(), arg(6).parse().unwrap());
            let mut bad = 0;
            let (mut ev, mut dist) = (0u64, std::collections::HashSet::new());
            for s in s0..s1 {
                let o = run::run_job(focus, &run::Job { scen: name, seed: s, size: n });
                for (_, st) in &o.mon.stats {
                    ev += st.evals;
                    dist.extend(st.distinct.iter().copied());
                }
                if !o.mon.viols.is_empty() {
                    bad += 1;
                    println!("seed {s} steps {}", o.mon.step);
                }
                for v in &o.mon.viols {
                    println!("  {} step {}: {}", v.prop, v.step, v.msg);
                }
                for k in &o.mon.known {
                    println!("  known {:?}", k);
                }
                if !arg(7).is_empty() {
                    for l in &o.log {
                        println!("{l}");
                    }
                }
            }
            println!("{} seeds, {bad} with violations; {focus}: {ev} verdicts, {} distinct", s1 - s0, dist.len());
            (bad > 0) as i32
        }
        _ => {
            eprintln!("usage: harness check <property> [quick|thorough] | replay <file> | scen <name> <focus> <seed0> <seed1> <size> [log]");
            2
        }
    };
    std::process::exit(code);
}
