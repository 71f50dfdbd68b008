//! Scenario registry: which executions decide which property.
use crate::run::Out;
use crate::workload;

pub fn run(name: &str, focus: &'static str, seed: u64, size: usize) -> Out {
    match name {
        "world" => {
            let mut g = workload::make_world(focus, seed);
            g.run(size);
            Out { mon: g.w.mon, log: g.w.log }
        }
        "decisions" => {
            let mut g = workload::make_world(focus, seed);
            g.decisions(size);
            Out { mon: g.w.mon, log: g.w.log }
        }
        "polls" => crate::scen_gov::polls(focus, seed, size),
        "access" => crate::scen_access::access(focus, seed, size),
        "outposts" => crate::scen_ibc::outposts(focus, seed, size),
        "registry" => crate::scen_ver::registry(focus, seed, size),
        "factory" => crate::scen_factory::factory(focus, seed, size),
        "bridge" => crate::scen_bridge::bridge(focus, seed, size),
        "facade" => crate::scen_facade::facade(focus, seed, size),
        "crowd" => crate::scen_crowd::crowd(focus, seed, size),
        "home" => crate::scen_home::home(focus, seed, size),
        "ledger" => crate::scen_ledger::ledger(focus, seed, size),
        "legacy" => crate::scen_legacy::legacy(focus, seed, size),
        "pinned" => crate::scen_pin::pinned(focus, seed, size),
        "upgrades" => crate::scen_ver::upgrades(focus, seed, size),
        _ => panic!("unknown scenario {name}"),
    }
}

/// (scenario, executions, size)
pub fn plan(focus: &'static str, thorough: bool) -> Vec<(&'static str, usize, usize)> {
    let mut p: Vec<(&'static str, usize, usize)> = match focus {
        "C01" | "C02" | "C03" | "C06" | "C12" | "C24" => vec![("world", 160, 250), ("polls", 300, 100)],
        "C08" => vec![("access", 240, 80), ("world", 60, 250), ("polls", 80, 100), ("factory", 40, 40)],
        "C18" => vec![("upgrades", 240, 60)],
        "C19" => vec![("registry", 240, 150)],
        "C20" => vec![("factory", 320, 40), ("world", 20, 60)],
        "C21" => vec![("outposts", 320, 150), ("factory", 80, 40)],
        "C23" => vec![("bridge", 240, 120)],
        "C22" => vec![("facade", 200, 120), ("legacy", 60, 20), ("crowd", 40, 130)],
        "C25" => vec![("registry", 60, 150), ("outposts", 60, 150), ("factory", 60, 40), ("polls", 200, 100), ("crowd", 120, 130)],
        "C28" => vec![("legacy", 400, 40)],
        "C27" => vec![("world", 120, 250), ("access", 50, 40), ("factory", 60, 40), ("upgrades", 20, 60)],
        _ => vec![("world", 160, 250)],
    };
    if ["C01", "C04", "C05", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C20"].contains(&focus) {
        p.push(("crowd", 30, 130));
    }
    if ["C09", "C10", "C11", "C12"].contains(&focus) {
        p.push(("ledger", 120, 60));
    }
    if ["C15", "C16", "C18", "C26", "C27"].contains(&focus) {
        p.push(("home", 40, 60));
    }
    if ["C04", "C07", "C14", "C15", "C16", "C17", "C26"].contains(&focus) {
        p[0].1 = 120;
        p.push(("decisions", 60, 40));
    }
    if ["C01", "C07", "C12", "C13", "C24"].contains(&focus) {
        p.push(("pinned", 3, 1));
    }
    if thorough {
        for x in p.iter_mut() {
            x.1 *= 20;
        }
    }
    p
}
