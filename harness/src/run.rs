//! Driver: plans, parallel execution, verdicts, evidence and replay files.
use crate::mon::{h, Mon, Stat};
use crate::scen;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Out {
    pub mon: Mon,
    pub log: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Job {
    pub scen: &'static str,
    pub seed: u64,
    pub size: usize,
}

pub fn prop_id(s: &str) -> &'static str {
    const ALL: [&str; 28] = [
        "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
        "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28",
    ];
    ALL.iter().find(|x| **x == s).copied().unwrap_or_else(|| {
        eprintln!("unknown property {s}");
        std::process::exit(2)
    })
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

/// findings listed in the committed file: (property, id) -> description
fn listed() -> BTreeMap<(String, String), String> {
    let mut m = BTreeMap::new();
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let mut it = r.splitn(3, ' ');
            let p = it.next().unwrap_or("").to_string();
            let id = it.next().unwrap_or("").trim_start_matches("id=").to_string();
            m.insert((p, id), it.next().unwrap_or("").to_string());
        }
    }
    m
}

pub fn run_job(focus: &'static str, j: &Job) -> Out {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scen::run(j.scen, focus, j.seed, j.size)));
    match r {
        Ok(o) => o,
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            let mut mon = Mon::new(focus);
            mon.fail(focus, "monitor can follow the contracts", format!("scenario {} seed {}: {msg}", j.scen, j.seed));
            Out { mon, log: vec![msg] }
        }
    }
}

pub fn check(p: &str, tier: &str) -> i32 {
    let focus = prop_id(p);
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let mut jobs: Vec<Job> = vec![];
    {
        let plan = scen::plan(focus, thorough);
        let max = plan.iter().map(|x| x.1).max().unwrap_or(0);
        for i in 0..max {
            for (k, (s, n, size)) in plan.iter().enumerate() {
                // spread each scenario evenly over the run
                let (a, b) = (i * n / max, (i + 1) * n / max);
                for q in a..b {
                    jobs.push(Job {
                        scen: s,
                        seed: h(&(seed, focus, k as u64, q as u64)) >> 1,
                        size: *size,
                    });
                }
            }
        }
    }
    let limit = if thorough { 800.0 } else { 240.0 };
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicUsize::new(0);
    struct Acc {
        stat: Stat,
        other: BTreeMap<&'static str, (u64, String)>,
        known: BTreeMap<(&'static str, &'static str), String>,
        bad: Vec<(usize, Job, String, Vec<String>)>,
        scen_jobs: BTreeMap<&'static str, u64>,
        steps: u64,
    }
    let acc = Mutex::new(Acc {
        stat: Stat::default(),
        other: BTreeMap::new(),
        known: BTreeMap::new(),
        bad: vec![],
        scen_jobs: BTreeMap::new(),
        steps: 0,
    });
    let list = listed();
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    // which execution each thread is in, and since when; on disk too, in case the process dies of it
    let busy: Vec<Mutex<Option<(usize, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let alive = AtomicUsize::new(threads);
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let running = |t: usize| format!("{}/replays/{focus}.running.{t}.json", verif_dir());
    let replay_text = |j: &Job, msg: &str, log: &[String]| {
        serde_json::to_string_pretty(&json!({"property": focus, "scenario": j.scen, "seed": j.seed, "size": j.size, "message": msg, "log": log})).unwrap()
    };
    std::thread::scope(|s| {
        let (busy, alive, jobs, running, replay_text, next, stop, done, acc, list) = (&busy, &alive, &jobs, &running, &replay_text, &next, &stop, &done, &acc, &list);
        s.spawn(move || {
            while alive.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(200));
                for b in busy {
                    let x = *b.lock().unwrap();
                    if let Some((i, t)) = x {
                        if t.elapsed().as_secs() > 180 {
                            let j = &jobs[i];
                            let msg = "an operation or query of the contracts does not come to an end";
                            let path = format!("{}/replays/{focus}.json", verif_dir());
                            let _ = std::fs::write(&path, replay_text(j, msg, &[]));
                            println!("{focus}: {msg} (scenario {} seed {})", j.scen, j.seed);
                            println!("VIOLATION property={focus} replay={path}");
                            for k in 0..threads {
                                let _ = std::fs::remove_file(running(k));
                            }
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
        for th in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    loop {
                    if stop.load(Ordering::Relaxed) || t0.elapsed().as_secs_f64() > limit {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= jobs.len() {
                        break;
                    }
                    let _ = std::fs::write(running(th), replay_text(&jobs[i], "the process ended during this execution", &[]));
                    *busy[th].lock().unwrap() = Some((i, Instant::now()));
                    let o = run_job(focus, &jobs[i]);
                    *busy[th].lock().unwrap() = None;
                    done.fetch_add(1, Ordering::Relaxed);
                    let mut a = acc.lock().unwrap();
                    *a.scen_jobs.entry(jobs[i].scen).or_default() += 1;
                    a.steps += o.mon.step as u64;
                    for (p, st) in o.mon.stats {
                        if p == focus {
                            a.stat.evals += st.evals;
                            a.stat.distinct.extend(st.distinct);
                            for (k, v) in st.kinds {
                                *a.stat.kinds.entry(k).or_default() += v;
                            }
                            for s in st.samples {
                                if a.stat.samples.len() < 8 {
                                    a.stat.samples.push(s);
                                }
                            }
                        }
                    }
                    for v in &o.mon.viols {
                        if v.prop == focus {
                            let m = format!("step {}: {}", v.step, v.msg);
                            a.bad.push((i, jobs[i].clone(), m, o.log.clone()));
                            stop.store(true, Ordering::Relaxed);
                        } else {
                            let e = a.other.entry(v.prop).or_insert_with(|| (0, format!("{} {} {}: {}", jobs[i].scen, jobs[i].seed, jobs[i].size, v.msg.chars().take(300).collect::<String>())));
                            e.0 += 1;
                        }
                    }
                    for (k, m) in o.mon.known {
                        if k.0 == focus && !list.contains_key(&(k.0.to_string(), k.1.to_string())) {
                            a.bad.push((i, jobs[i].clone(), format!("[{}] {m}", k.1), o.log.clone()));
                            stop.store(true, Ordering::Relaxed);
                        }
                        a.known.entry(k).or_insert(m);
                    }
                    }
                    alive.fetch_sub(1, Ordering::Relaxed);
                    let _ = std::fs::remove_file(running(th));
                })
                .unwrap();
        }
    });
    let mut a = acc.into_inner().unwrap();
    let mut code = 0;
    a.bad.sort_by_key(|x| x.0);
    for ((p, id), d) in &list {
        if *p == focus && a.known.keys().any(|k| k.0 == focus && k.1 == id) {
            println!("KNOWN-FINDING: property={p} {id}: {d}");
        }
    }
    if let Some((_, j, msg, log)) = a.bad.first() {
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{focus}.json");
        let rep = json!({"property": focus, "scenario": j.scen, "seed": j.seed, "size": j.size, "message": msg, "log": log});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
        println!("{focus}: {}", msg.chars().take(1500).collect::<String>());
        println!("VIOLATION property={focus} replay={path}");
        code = 1;
    }
    for (p, (n, first)) in &a.other {
        println!("note: monitors of {p} disagreed in {n} executions (see its own check), first: {first}");
    }
    if code == 0 && (a.stat.evals == 0 || a.stat.distinct.len() < 5) {
        println!("{focus}: the monitors observed nothing relevant ({} evaluations)", a.stat.evals);
        code = 2;
    }
    let scenarios: BTreeSet<String> = a.scen_jobs.iter().map(|(k, v)| format!("{k}: {v} executions")).collect();
    let ev = json!({
        "property": focus, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": a.stat.evals,
            "distinct_nontrivial": a.stat.distinct.len(),
            "rule": "one evaluation = one monitor verdict of this property on the running contracts after a transaction or query; two are distinct when they differ in monitor kind or in the situation key (operation, DAO kind, event class, boundary class, tally/outcome class ...). Verdicts on operations that leave the monitored state untouched share one key per operation.",
            "samples": if a.stat.samples.is_empty() { json!(a.stat.kinds.keys().collect::<Vec<_>>()) } else { json!(a.stat.samples) },
            "monitors": a.stat.kinds,
            "executions": scenarios,
            "executions_planned": jobs.len(),
            "executions_done": done.load(Ordering::Relaxed),
            "monitored_transactions": a.steps,
        },
        "assumptions": [
            "the in-process chain (harness/src/chain.rs) implements CosmWasm's message, reply, rollback, query and bank semantics",
            "cw20-base and cw721-base stand for token contracts; bridge, IBC hooks and cw3 contracts are recording stand-ins",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": a.bad.len(),
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{focus}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{focus}: {} executions, {} monitored transactions, {} verdicts, {} distinct situations, {:.1} s",
        done.load(Ordering::Relaxed),
        a.steps,
        a.stat.evals,
        a.stat.distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    code
}

pub fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let focus = prop_id(v["property"].as_str().unwrap_or(""));
    let name = v["scenario"].as_str().unwrap_or("").to_string();
    let j = Job {
        scen: Box::leak(name.into_boxed_str()),
        seed: v["seed"].as_u64().unwrap_or(0),
        size: v["size"].as_u64().unwrap_or(0) as usize,
    };
    let o = run_job(focus, &j);
    for l in &o.log {
        println!("{l}");
    }
    let mut code = 0;
    for x in &o.mon.viols {
        println!("{} step {}: {}", x.prop, x.step, x.msg);
        if x.prop == focus {
            code = 1;
        }
    }
    code
}
