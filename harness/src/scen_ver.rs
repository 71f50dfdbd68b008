//! Version registry and DAO upgrades.
use crate::lite::*;
use crate::model::*;
use crate::mon::{Mon, Rng};
use crate::obs::*;
use crate::run::Out;
use crate::chain::{Chain, CallKind, Tx};
use crate::workload::make_world;
use crate::world::*;
use cosmwasm_std::Binary;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

type V = (u64, u64, u64);
fn vj(v: V) -> Value {
    json!({"major": v.0, "minor": v.1, "patch": v.2})
}
fn vof(x: &Value) -> V {
    (x["major"].as_u64().unwrap_or(u64::MAX), x["minor"].as_u64().unwrap_or(u64::MAX), x["patch"].as_u64().unwrap_or(u64::MAX))
}

const FIELDS: [&str; 11] = [
    "attestation_code_id", "enterprise_code_id", "enterprise_governance_code_id", "enterprise_governance_controller_code_id", "enterprise_outposts_code_id",
    "enterprise_treasury_code_id", "funds_distributor_code_id", "token_staking_membership_code_id", "denom_staking_membership_code_id",
    "nft_staking_membership_code_id", "multisig_membership_code_id",
];

fn rand_v(r: &mut Rng) -> V {
    let mut c = |r: &mut Rng| match r.below(12) {
        0 => 0,
        1..=5 => r.below(3),
        6 => r.range(9, 11),
        7 => r.range(99, 101),
        8 => r.range(255, 257),
        9 => 1 << r.below(63),
        10 => u64::MAX - r.below(2),
        _ => r.range(3, 8),
    };
    (c(r), c(r), c(r))
}

pub fn registry(focus: &'static str, seed: u64, steps: usize) -> Out {
    let c = Chain::new();
    let codes = crate::codes::store_all(&c);
    let mut r = Rng::new(seed);
    let mut mon = Mon::new(focus);
    let mut log: Vec<String> = vec![];
    let reg = c.instantiate("vadmin", codes.versioning, &json!({"admin": "vadmin"}), "v", Some("deployer")).expect("versioning");
    let people = ["vadmin", "second", "mallory", "third"];
    let mut admin = "vadmin".to_string();
    let mut m: BTreeMap<V, Value> = BTreeMap::new();
    let mut n = 0u64;
    // some registries outgrow one page
    let bulk = r.pick_c(&[0usize, 0, 60, 130]);
    for s in 0..steps + bulk {
        mon.step += 1;
        if mon.silenced.contains(focus) {
            break;
        }
        let who = if s < bulk || r.chance(3, 4) { admin.clone() } else { r.pick_c(&people).to_string() };
        let auth = who == admin;
        let k = if s < bulk { 0 } else { r.below(10) };
        let known: Vec<V> = m.keys().copied().collect();
        let v = if !known.is_empty() && s >= bulk && (k >= 4 && r.chance(4, 5) || r.chance(1, 4)) { r.pick_c(&known) } else { rand_v(&mut r) };
        let (msg, legit, name, cov): (Value, bool, &str, u64);
        match k {
            0..=3 => {
                let mut info = json!({"version": vj(v), "changelog": (0..r.below(3)).map(|i| format!("c{i}-{n}")).collect::<Vec<_>>()});
                let again = m.get(&v).cloned().filter(|_| r.chance(1, 2));
                for f in FIELDS {
                    n += 1;
                    info[f] = json!(n);
                    // an attempt to register again what partly agrees with the entry
                    if let (Some(a), true) = (&again, r.chance(2, 3)) {
                        info[f] = a[f].clone();
                    }
                }
                legit = auth && !m.contains_key(&v);
                cov = (m.contains_key(&v)) as u64;
                name = "add";
                msg = json!({"add_version": {"version": info}});
                if legit {
                    m.insert(v, info);
                }
            }
            4..=8 => {
                let mut e = json!({"version": vj(v)});
                let mut mask = 0;
                let p = r.pick_c(&[1u64, 2, 4, 9]);
                for (i, f) in FIELDS.iter().enumerate() {
                    if r.chance(1, p) {
                        n += 1;
                        // lower, equal and higher than before
                        e[*f] = json!(match r.below(4) {
                            0 => r.below(n + 1),
                            1 => m.get(&v).and_then(|x| x[*f].as_u64()).unwrap_or(n),
                            _ => n,
                        });
                        mask |= 1 << i;
                    }
                }
                if r.chance(1, 3) {
                    e["changelog"] = json!((0..r.below(4)).map(|i| if r.chance(1, 4) { String::new() } else { format!("edited {n}-{i}") }).collect::<Vec<_>>());
                    mask |= 1 << 20;
                }
                legit = auth && m.contains_key(&v);
                cov = mask;
                name = "edit";
                if legit {
                    let info = m.get_mut(&v).unwrap();
                    for (f, x) in e.as_object().unwrap() {
                        if f != "version" {
                            info[f] = x.clone();
                        }
                    }
                }
                msg = json!({ "edit_version": e });
            }
            _ => {
                let to = if r.chance(1, 30) { reg.clone() } else { r.pick_c(&people).to_string() };
                legit = auth;
                cov = 0;
                name = "admin";
                msg = json!({"update_admin": {"new_admin": to}});
                if legit {
                    admin = to.to_string();
                }
            }
        }
        let tx = c.execute(&who, &reg, &msg, &[]);
        log.push(format!("#{} {who} {msg} -> {} {}", mon.step, tx.ok, tx.err));
        mon.ctx = log.last().unwrap().clone();
        mon.check("C19", "accepted exactly when legitimate", (name, auth, cov), tx.ok == legit, || format!("{who} {msg}: ok={} {} expected {legit}", tx.ok, tx.err));
        if s < bulk && r.chance(9, 10) {
            continue;
        }
        if r.chance(1, 25) {
            let t = c.dispatch("deployer", vec![renew(&reg, codes.versioning, &json!({}))]);
            log.push(format!("registry renewed in place -> {} {}", t.ok, t.err));
            mon.ctx = log.last().unwrap().clone();
            mon.check("C19", "the registry can be renewed in place", m.len().min(10), t.ok, || t.err.clone());
        }
        // lookups
        let a = c.q(&reg, json!({"admin": {}})).unwrap_or(Value::Null);
        mon.check("C19", "admin", name, st(&a["admin"]) == admin, || format!("admin is {a}, expected {admin}"));
        let latest = c.q(&reg, json!({"latest_version": {}}));
        let exp = m.iter().next_back();
        let ok = match (&latest, exp) {
            (Ok(l), Some((_, i))) => jeq(&l["version"], i),
            (Err(_), None) => true,
            _ => false,
        };
        mon.check("C19", "latest version is the highest", (name, m.len().min(10), exp.map(|x| *x.0)), ok, || format!("latest is {latest:?}, expected {exp:?}"));
        let mut probe: Vec<V> = vec![v, rand_v(&mut r)];
        if let Some(x) = known.first() {
            probe.push(*x);
        }
        for p in probe {
            let got = c.q(&reg, json!({"version": {"version": vj(p)}}));
            let ok = match (&got, m.get(&p)) {
                (Ok(g), Some(i)) => jeq(&g["version"], i),
                (Err(_), None) => true,
                _ => false,
            };
            mon.check("C19", "lookup returns what was registered or last edited", (name, cov, p == v, m.contains_key(&p)), ok, || format!("after {msg}: version {p:?} is {got:?}, expected {:?}", m.get(&p)));
        }
        let lim = r.pick_c(&[None, Some(1u64), Some(3), Some(49), Some(50), Some(51), Some(100), Some(101), Some(5000)]);
        let l = walk(&c, &reg, "versions", &json!({}), "versions", lim, &|x| x["version"].clone());
        let exp: Vec<&Value> = m.values().collect();
        let ok = match &l {
            Ok(l) => l.len() == exp.len() && l.iter().zip(&exp).all(|(a, b)| jeq(a, b)),
            Err(_) => false,
        };
        for t in ["C19", "C25"] {
            mon.check(t, "listing: every version once, ascending", (lim, exp.len()), ok, || format!("limit {lim:?}: listed {:?}, expected {:?}", l.as_ref().map(|l| l.iter().map(|x| vof(&x["version"])).collect::<Vec<_>>()), m.keys().collect::<Vec<_>>()));
        }
        // from an arbitrary point, registered or not
        let from = rand_v(&mut r);
        let got: Vec<V> = list(&c.q(&reg, json!({"versions": {"start_after": vj(from), "limit": 100}})).unwrap_or(Value::Null)["versions"]).iter().map(|x| vof(&x["version"])).collect();
        let exp: Vec<V> = m.keys().copied().filter(|x| *x > from).collect();
        // the registry may cap the page
        let fits = exp.starts_with(&got) && (exp.is_empty() || !got.is_empty());
        for t in ["C19", "C25"] {
            mon.check(t, "listing from any point", (exp.len().min(5), m.contains_key(&from)), fits, || format!("after {from:?}: {got:?}, expected {exp:?}"));
        }
    }
    Out { mon, log }
}

struct Reg {
    /// version -> (enterprise code selector, enterprise code, second set)
    v: BTreeMap<V, (u8, u64, bool)>,
}

impl Reg {
    fn add(&mut self, c: &Chain, codes: &crate::codes::Codes, reg: &str, v: V, sel: u8, second: bool) -> bool {
        if self.v.contains_key(&v) {
            return true;
        }
        let ent = [codes.enterprise, codes.enterprise2, codes.step, codes.step2][sel as usize];
        let tx = c.execute("vadmin", reg, &json!({"add_version": {"version": version_info(codes, v, second, ent)}}), &[]);
        if tx.ok {
            self.v.insert(v, (sel, ent, second));
        }
        tx.ok
    }
}

fn codes_of(c: &Chain, comp: &BTreeMap<String, String>) -> BTreeMap<String, (u64, Option<String>)> {
    comp.iter().map(|(k, a)| (k.clone(), c.contract_meta(a).map_or((0, None), |m| (m.0, m.2)))).collect()
}

/// expected outcome of an upgrade request: codes per component, and the main contract's path
fn expect(codes: &crate::codes::Codes, reg: &Reg, kind: Kind, cur: V, target: V, msgs: &[(V, Value)]) -> Option<(Vec<(u64, Value)>, BTreeMap<&'static str, u64>)> {
    if target <= cur || !reg.v.contains_key(&target) {
        return None;
    }
    let mut m: BTreeMap<V, Value> = BTreeMap::new();
    for (v, x) in msgs {
        if m.insert(*v, x.clone()).is_some() {
            return None;
        }
    }
    let mut path = vec![];
    let mut comp = BTreeMap::new();
    for (v, (sel, code, _)) in reg.v.iter().filter(|x| *x.0 > cur && *x.0 <= target) {
        let x = m.get(v).cloned().unwrap_or(json!({}));
        if *sel >= 2 {
            if x.get("fail").is_some() {
                return None;
            }
        } else {
            // this release moves its components to the codes registered for 1.2.1
            let second = reg.v.get(&(1, 2, 1))?.2;
            if x != json!({}) {
                return None;
            }
            let p = |a: u64, b: u64| if second { b } else { a };
            comp.insert("outposts", p(codes.outposts, codes.outposts2));
            comp.insert("distributor", p(codes.distributor, codes.distributor2));
            comp.insert("council", p(codes.multisig, codes.multisig2));
            comp.insert(
                "membership",
                match kind {
                    Kind::Denom => p(codes.denom, codes.denom2),
                    Kind::Token => p(codes.token, codes.token2),
                    Kind::Nft => p(codes.nft, codes.nft2),
                    Kind::Multisig => p(codes.multisig, codes.multisig2),
                },
            );
        }
        path.push((*code, x));
    }
    comp.insert("enterprise", path.last().unwrap().0);
    Some((path, comp))
}

fn migrations(tx: &Tx, ent: &str) -> Vec<(u64, Value)> {
    tx.live()
        .filter_map(|c| match c.kind {
            CallKind::Migrate { code_id } if c.target == ent => Some((code_id, c.json())),
            _ => None,
        })
        .collect()
}

fn rand_msgs(r: &mut Rng, reg: &Reg, cur: V, target: V) -> Vec<(V, Value)> {
    let mut out = vec![];
    let risky = r.chance(1, 4);
    for (v, (sel, _, _)) in &reg.v {
        if *v < cur && r.chance(4, 5) || *v > target && r.chance(4, 5) || r.chance(1, 2) {
            continue;
        }
        let x = if *sel >= 2 {
            if risky && r.chance(1, 3) {
                json!({"fail": {}})
            } else {
                json!({"note": format!("{v:?}"), "n": r.below(100)})
            }
        } else if risky && r.chance(1, 4) {
            json!({"odd": 1})
        } else {
            json!({})
        };
        out.push((*v, x));
    }
    // order of the messages must not matter
    for i in (1..out.len()).rev() {
        let j = r.idx(i + 1);
        out.swap(i, j);
    }
    if !out.is_empty() && r.chance(1, 8) {
        let x = r.pick_c(&out);
        out.push(x);
    }
    out
}

fn upgrade_json(target: V, msgs: &[(V, Value)]) -> Value {
    let mm: Vec<Value> = msgs.iter().map(|(v, x)| json!({"version": vj(*v), "migrate_msg": Binary(serde_json::to_vec(x).unwrap()).to_base64()})).collect();
    json!({"new_version": vj(target), "migrate_msgs": mm})
}

/// what an upgrade must not change
fn keep(a: &DaoState, b: &DaoState) -> Result<(), String> {
    macro_rules! same {
        ($($f:ident),*) => { $( if a.$f != b.$f { return Err(format!("{}: {:?} -> {:?}", stringify!($f), a.$f, b.$f)); } )* };
    }
    same!(kind, asset, metadata, creation, comp, att, att_text, restricted, gov, council_cfg, unlocking, weights, total, council, council_total, nft_stakes, claims, props, min_weight, rewards, asset_wl, nft_wl);
    Ok(())
}

pub fn upgrades(focus: &'static str, seed: u64, steps: usize) -> Out {
    let mut g = make_world(focus, seed);
    g.run(steps);
    let mut reg = Reg { v: BTreeMap::new() };
    reg.v.insert((1, 0, 0), (0, g.w.codes.enterprise, false));
    let mut r = Rng::new(seed ^ 0xabcd);
    let have121 = r.chance(5, 6);
    let many = r.chance(1, 4);
    for round in 0..r.range(3, 6) {
        if g.w.void || !g.w.mon.viols.is_empty() {
            break;
        }
        // releases appear over time, not in order
        let mut pool: Vec<V> = vec![(0, 9, 0), (1, 0, 1), (1, 0, 2), (1, 1, 0), (1, 2, 0), (1, 2, 2), (1, 10, 0), (1, 9, 9), (2, 0, 0), (2, 0, 1), (3, 0, 0), (10, 0, 0)];
        if have121 {
            pool.push((1, 2, 1));
        }
        for _ in 0..r.range(1, 4) {
            let v = r.pick_c(&pool);
            let sel = r.pick_c(&[0u8, 1, 2, 2, 3, 3]);
            let second = r.chance(2, 3);
            let ok = reg.add(&g.w.c, &g.w.codes, &g.w.versioning.clone(), v, sel, second);
            g.w.mon.check("C19", "version registered", v, ok, || format!("{v:?} refused"));
        }
        if many && round == 0 {
            let n = if r.chance(1, 3) { 115 } else { r.range(8, 60) };
            for i in 0..n {
                reg.add(&g.w.c, &g.w.codes, &g.w.versioning.clone(), (1, 0, 5 + i), 2 + (i % 2) as u8, false);
            }
        }
        if have121 && r.chance(1, 2) {
            reg.add(&g.w.c, &g.w.codes, &g.w.versioning.clone(), (1, 2, 1), r.pick_c(&[0u8, 1]), true);
        }
        g.w.m.versions = reg.v.keys().copied().collect();
        let di = r.idx(g.w.m.daos.len());
        let d = g.w.m.daos[di].clone();
        let ent = d.c("enterprise").to_string();
        let cur = d.version;
        let registered: Vec<V> = reg.v.keys().copied().collect();
        // a single component renewed in place by the DAO's main contract
        for _ in 0..r.below(3) {
            let cs = &g.w.codes;
            let member = match d.kind {
                Kind::Denom => (cs.denom, cs.denom2),
                Kind::Token => (cs.token, cs.token2),
                Kind::Nft => (cs.nft, cs.nft2),
                Kind::Multisig => (cs.multisig, cs.multisig2),
            };
            let all = [
                ("controller", (cs.controller, cs.controller), json!({})),
                ("treasury", (cs.treasury, cs.treasury), json!({})),
                ("governance", (cs.governance, cs.governance), json!({"new_admin": d.c("controller")})),
                ("outposts", (cs.outposts, cs.outposts2), json!({})),
                ("distributor", (cs.distributor, cs.distributor2), json!({})),
                ("membership", member, json!({})),
                ("council", (cs.multisig, cs.multisig2), json!({})),
            ];
            let (name, (c1, c2), msg) = r.pick_c(&all);
            let to = d.c(name).to_string();
            if to.is_empty() {
                continue;
            }
            let code = if r.chance(1, 2) { c1 } else { c2 };
            let skip = BTreeSet::new();
            let n = d.hid.next_prop.saturating_sub(1);
            let before = g.w.observe(&ent, Some(&d), &skip, n);
            let tx = g.w.c.dispatch(&ent, vec![renew(&to, code, &msg)]);
            let after = g.w.observe(&ent, Some(&d), &skip, n);
            let line = format!("{name} of dao {di} ({:?}) renewed in place with code {code} {msg} -> {} {}", d.kind, tx.ok, tx.err);
            g.w.note(line.clone());
            g.w.mon.ctx = line.clone();
            g.w.mon.step += 1;
            let now = g.w.c.contract_meta(&to).map_or(0, |m| m.0);
            g.w.mon.check("C18", "a component can be renewed in place", (name, d.kind), tx.ok && now == code, || format!("{line}: runs {now}"));
            g.w.mon.check("C18", "no funds move", ("in place", name), tx.bank.is_empty(), || format!("{line}: {:?}", tx.bank));
            match (before, after) {
                (Ok(a), Ok(b)) => {
                    let k = keep(&a, &b);
                    g.w.mon.check("C18", "a component renewed in place keeps everything", (name, d.kind), k.is_ok(), || format!("{line}: {k:?}"));
                    g.w.m.daos[di].codes = b.codes.clone();
                }
                (_, Err(e)) | (Err(e), _) => g.w.mon.fail("C18", "queries answer after a renewal", format!("{line}: {}", e.1)),
            }
        }
        let d = g.w.m.daos[di].clone();
        let target = match r.below(8) {
            0 => cur,
            1 => r.pick_c(&[(0, 0, 1), (0, 9, 0), (1, 0, 0)]),
            2 => r.pick_c(&[(1, 0, 3), (1, 2, 3), (4, 4, 4), (1, 5, 0)]),
            _ => {
                let up: Vec<V> = registered.iter().copied().filter(|v| *v > cur).collect();
                if up.is_empty() {
                    continue;
                }
                if r.chance(1, 4) {
                    *up.last().unwrap()
                } else {
                    r.pick_c(&up)
                }
            }
        };
        let msgs = rand_msgs(&mut r, &reg, cur, target);
        let exp = expect(&g.w.codes, &reg, d.kind, cur, target, &msgs);
        let fault = if r.chance(1, 4) { Some(r.range(1, 12) as usize) } else { None };
        let skip = BTreeSet::new();
        let n = d.hid.next_prop.saturating_sub(1);
        let before = match g.w.observe(&ent, Some(&d), &skip, n) {
            Ok(x) => x,
            Err(e) => {
                g.w.mon.fail(e.0, "query", e.1);
                break;
            }
        };
        let cbefore = codes_of(&g.w.c, &d.comp);
        if let Some(f) = fault {
            g.w.c.inject_failure(f);
        }
        let bodies: Vec<(V, u64, Option<String>)> = vec![];
        let _ = bodies;
        let m = json!({"upgrade_dao": upgrade_json(target, &msgs)});
        let tx = g.w.c.execute(d.c("controller"), &ent, &m, &[]);
        let line = format!("upgrade of dao {di} ({:?}) {cur:?} -> {target:?} registry {registered:?} fault {fault:?} hit {} {m} -> {} {}", d.kind, tx.fault_hit, tx.ok, tx.err);
        g.w.note(line.clone());
        g.w.mon.ctx = line.chars().take(700).collect();
        g.w.mon.step += 1;
        let path_len = exp.as_ref().map_or(0, |x| x.0.len());
        let cov = (d.kind, path_len.min(6), target == cur, target < cur, reg.v.contains_key(&target), msgs.len().min(4));
        if tx.fault_hit {
            g.w.mon.check("C18", "a failing step undoes the upgrade", (cov, fault), !tx.ok && tx.no_effect(), || format!("{line}: swallowed failure"));
        } else {
            g.w.mon.check("C18", "upgrade accepted exactly when legitimate", cov, tx.ok == exp.is_some(), || format!("{line}: expected {}", exp.is_some()));
        }
        let after = match g.w.observe(&ent, Some(&d), &skip, n) {
            Ok(x) => x,
            Err(e) => {
                g.w.mon.fail("C18", "queries answer after an upgrade", format!("{line}: {}", e.1));
                break;
            }
        };
        let k = keep(&before, &after);
        g.w.mon.check("C18", "members, stakes, claims, votes, proposals, rewards and configuration unchanged", (cov, tx.ok), k.is_ok(), || format!("{line}: {k:?}"));
        g.w.mon.check("C18", "no funds move", (cov, tx.ok), tx.bank.is_empty(), || format!("{line}: {:?}", tx.bank));
        let cafter = codes_of(&g.w.c, &d.comp);
        if tx.ok {
            if let Some((path, comp)) = &exp {
                let got = migrations(&tx, &ent);
                g.w.mon.check("C18", "passes every version in between once, in order, with its message", (cov, path.iter().map(|x| x.0).collect::<Vec<_>>()), got == *path, || {
                    format!("{line}: main contract migrated through {got:?}, expected {path:?}")
                });
                for (c, (code, admin)) in &cafter {
                    let want = comp.get(c.as_str()).copied().unwrap_or(cbefore[c].0);
                    g.w.mon.check("C18", "component code after the upgrade", (c, d.kind, comp.len(), code == &cbefore[c].0), *code == want, || format!("{line}: {c} runs code {code}, expected {want}"));
                    g.w.mon.check("C18", "contract admin kept", (c, d.kind), *admin == cbefore[c].1, || format!("{line}: admin of {c} {admin:?}"));
                }
                g.w.mon.check("C18", "version after the upgrade", cov, after.version == target, || format!("{line}: version {:?}", after.version));
            }
            g.w.m.daos[di].version = after.version;
            g.w.m.daos[di].codes = after.codes.clone();
        } else {
            g.w.mon.check("C18", "nothing changes when refused", cov, cafter == cbefore && after.version == cur, || format!("{line}: codes or version changed"));
        }
        // other DAOs keep theirs
        for (i, o) in g.w.m.daos.clone().iter().enumerate() {
            if i != di {
                let v = vof(&g.w.c.q(o.c("enterprise"), json!({"dao_info": {}})).unwrap_or(Value::Null)["dao_version"]);
                for t in ["C18", "C27"] {
                    g.w.mon.check(t, "other DAOs keep their version", cov, v == o.version, || format!("{line}: dao {i} now {v:?}"));
                }
            }
        }
        // life goes on
        let s = g.w.mon.step + r.range(5, 25) as usize;
        g.run(s);
    }
    let mut out = Out { mon: g.w.mon, log: g.w.log };
    if !out.mon.silenced.contains(focus) {
        by_proposal(&mut out, &mut r, have121);
    }
    out
}

/// the same by a proposal, which is judged when created and when executed
fn by_proposal(out: &mut Out, r: &mut Rng, have121: bool) {
    let b = base();
    let mut reg = Reg { v: BTreeMap::new() };
    reg.v.insert((1, 0, 0), (0, b.codes.enterprise, false));
    let d = match Lite::new(&b, "alice") {
        Ok(d) => d,
        Err(e) => {
            out.mon.fail("C20", "creation", e);
            return;
        }
    };
    let mut cur = (1, 0, 0);
    for _ in 0..4 {
        for v in [(1, 0, 1), (1, 1, 0), (1, 2, 2), (2, 0, 0)] {
            if r.chance(1, 2) {
                let sel = r.pick_c(&[1u8, 2, 3]);
                reg.add(&b.c, &b.codes, &b.versioning, v, sel, false);
            }
        }
        if have121 {
            reg.add(&b.c, &b.codes, &b.versioning, (1, 2, 1), 1, true);
        }
        let target = r.pick_c(&[(1, 0, 0), (1, 0, 1), (1, 1, 0), (1, 2, 1), (1, 2, 2), (2, 0, 0), (1, 1, 5)]);
        let msgs = rand_msgs(r, &reg, cur, target);
        let exp = expect(&b.codes, &reg, Kind::Multisig, cur, target, &msgs);
        let before = codes_of(&b.c, &d.comp);
        let res = d.govern(&b, json!([{"upgrade_dao": upgrade_json(target, &msgs)}]));
        let line = format!("proposed upgrade {cur:?} -> {target:?} registry {:?} {} -> {:?}", reg.v, upgrade_json(target, &msgs), res.as_ref().map(|t| (t.ok, t.err.clone())));
        out.log.push(line.clone());
        if target <= cur {
            out.mon.check("C18", "downgrade cannot even be proposed", (cur, target), res.is_err(), || line.clone());
        }
        let v = vof(&b.c.q(&d.ent, json!({"dao_info": {}})).unwrap_or(Value::Null)["dao_version"]);
        let after = codes_of(&b.c, &d.comp);
        match exp {
            Some((path, comp)) => {
                let got = res.as_ref().map(|t| migrations(t, &d.ent)).unwrap_or_default();
                let codes_ok = after.iter().all(|(c, x)| x.0 == comp.get(c.as_str()).copied().unwrap_or(before[c].0));
                out.mon.check("C18", "upgrade by proposal", (path.len(), cur, target), got == path && v == target && codes_ok, || format!("{line}: path {got:?} expected {path:?}, version {v:?}, codes {after:?}"));
                cur = v;
            }
            None => {
                out.mon.check("C18", "failed upgrade by proposal changes nothing", (cur, target), v == cur && after == before, || format!("{line}: version {v:?} codes {after:?}"));
            }
        }
        b.c.advance(1, 1_000_000_000);
    }
}
