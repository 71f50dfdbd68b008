//! The voting engine on its own, with extreme weights, boundary ratios and many voters and polls.
use crate::model::*;
use crate::mon::{Mon, Rng};
use crate::obs::*;
use crate::run::Out;
use crate::chain::Chain;
use serde_json::{json, Value};
use std::collections::BTreeMap;

struct P {
    ends: u64,
    started: u64,
    q: u128,
    t: u128,
    v: Option<u128>,
    votes: BTreeMap<String, (u8, u128)>,
    done: Option<(Judged, [u128; 4])>,
}
impl P {
    fn tally(&self) -> [u128; 4] {
        let mut r = [0u128; 4];
        for (o, a) in self.votes.values() {
            r[*o as usize] += a;
        }
        r
    }
}

const OUT: [&str; 4] = ["yes", "no", "abstain", "veto"];

fn ratio(r: &mut Rng) -> u128 {
    match r.below(8) {
        0 => 1,
        1 => ONE,
        2 => ONE / 2,
        3 => ONE / 3,
        4 => ONE / 3 * 2,
        5 => ONE - 1,
        6 => (r.below(1000) as u128 + 1) * (ONE / 1000),
        _ => r.below(ONE as u64) as u128 + 1,
    }
}

/// votes for which a/total is just below, at, or just above `limit`
fn near(r: &mut Rng, total: u128, limit: u128) -> u128 {
    let x = mul_div(total, limit, ONE, true);
    match r.below(4) {
        0 => x.saturating_sub(1),
        1 => x,
        2 => x + 1,
        _ => mul_div(total, limit, ONE, false),
    }
}

pub fn polls(focus: &'static str, seed: u64, steps: usize) -> Out {
    let c = Chain::new();
    let codes = crate::codes::store_all(&c);
    let mut r = Rng::new(seed);
    let mut mon = Mon::new(focus);
    let mut log = vec![];
    let gov = c.instantiate("gadmin", codes.governance, &json!({"admin": "gadmin"}), "gov", Some("deployer")).expect("governance");
    let mut boss = "gadmin".to_string();
    let nusers = r.pick_c(&[3usize, 8, 40]);
    let users: Vec<String> = (0..nusers).map(|i| format!("voter{:03}", (i * 37) % 1000)).collect();
    let scale: u128 = r.pick_c(&[1u128, 1, 10, 1_000_000, 1 << 64, 1 << 90, 1 << 100]);
    let mut ps: BTreeMap<u64, P> = BTreeMap::new();
    for _ in 0..steps {
        mon.step += 1;
        let now = c.now().nanos();
        if r.chance(1, 40) {
            // handed over: from then on the engine listens to somebody else
            let heir = r.pick_c(&["gadmin", "gsecond", "gthird"]).to_string();
            let tx = c.dispatch("deployer", vec![crate::world::renew(&gov, codes.governance, &json!({"new_admin": heir}))]);
            log.push(format!("{now} handed over from {boss} to {heir} -> {} {}", tx.ok, tx.err));
            mon.check("C08", "engine handed over", heir == boss, tx.ok, || tx.err.clone());
            boss = heir;
        }
        if r.chance(1, 12) {
            let other = r.pick_c(&["gadmin", "gsecond", "gthird", "deployer", "voter000"]);
            if other != boss {
                let id = r.range(1, ps.len() as u64 + 1);
                let u = r.pick_c(&users);
                let m = match r.below(4) {
                    0 => json!({"create_poll": {"proposer": "someone", "deposit_amount": "7", "label": "l", "description": "d", "scheme": "coin_voting", "ends_at": (now + 5_000_000_000).to_string(), "quorum": "0.5", "threshold": "0.5", "veto_threshold": null}}),
                    1 => json!({"cast_vote": {"poll_id": id.to_string(), "outcome": "yes", "voter": u, "amount": "5"}}),
                    2 => json!({"update_votes": {"voter": u, "new_amount": "5"}}),
                    _ => json!({"end_poll": {"poll_id": id.to_string(), "maximum_available_votes": "1", "error_if_already_ended": false, "allow_early_ending": true}}),
                };
                let tx = c.execute(other, &gov, &m, &[]);
                log.push(format!("{now} {other}: {m} -> {} {}", tx.ok, tx.err));
                mon.check("C08", "engine answers only to its admin", (m.as_object().map(|o| o.keys().next().cloned()), other), !tx.ok, || format!("{other} instead of {boss}: {m}"));
            }
        }
        let k = r.below(100);
        if ps.is_empty() || k < 10 {
            let (q, t) = (ratio(&mut r), ratio(&mut r));
            let v = if r.chance(1, 2) { Some(ratio(&mut r)) } else { None };
            let ends = now + match r.below(5) {
                0 => 1,
                1 => 1_000_000_000,
                _ => r.range(1, 5_000_000_000_000),
            };
            let bad = r.chance(1, 8);
            let ends = if bad { now - r.below(2) } else { ends };
            let m = json!({"create_poll": {"proposer": "someone", "deposit_amount": "7", "label": "l", "description": "d", "scheme": "coin_voting",
                "ends_at": ends.to_string(), "quorum": dec_str(q), "threshold": dec_str(t), "veto_threshold": v.map(dec_str)}});
            let tx = c.execute(&boss, &gov, &m, &[]);
            log.push(format!("{now} {m} -> {} {}", tx.ok, tx.err));
            mon.check("C06", "poll opened only with a future end", bad, tx.ok != bad, || format!("create_poll end {ends} now {now}: ok={} {}", tx.ok, tx.err));
            if tx.ok {
                let id = ps.len() as u64 + 1;
                ps.insert(id, P { ends, started: now, q, t, v, votes: BTreeMap::new(), done: None });
            }
        } else if k < 55 {
            let id = r.range(1, ps.len() as u64);
            let id = if r.chance(1, 40) { ps.len() as u64 + 1 } else { id };
            let u = r.pick_c(&users);
            let o = r.idx(4);
            let a = match (ps.get(&id), r.below(4)) {
                (Some(p), 0) => {
                    // bring an option right to its limit
                    let t = p.tally();
                    let base: u128 = t.iter().sum::<u128>() - t[2] + scale;
                    let lim = if r.chance(1, 2) { p.t } else { p.v.unwrap_or(p.t) };
                    let goal = near(&mut r, base, lim);
                    goal.saturating_sub(t[o]).min(scale * 1000)
                }
                (_, 1) => scale,
                (_, 2) => 0,
                _ => scale * r.range(1, 9) as u128 + if scale > 1 { r.below(3) as u128 } else { 0 },
            };
            let m = json!({"cast_vote": {"poll_id": id.to_string(), "outcome": OUT[o], "voter": u, "amount": a.to_string()}});
            let tx = c.execute(&boss, &gov, &m, &[]);
            log.push(format!("{now} {m} -> {} {}", tx.ok, tx.err));
            let may = ps.get(&id).map_or(false, |p| p.done.is_none() && p.started <= now && now < p.ends);
            let edge = ps.get(&id).map_or(9, |p| if now + 1 == p.ends { 0 } else if now == p.ends { 1 } else if now < p.ends { 2 } else { 3 });
            mon.check("C01", "vote accepted exactly while open", (may, edge, o), tx.ok == may, || format!("vote on poll {id} at {now}: ok={} {}", tx.ok, tx.err));
            if tx.ok && may {
                ps.get_mut(&id).unwrap().votes.insert(u, (o as u8, a));
            }
        } else if k < 65 {
            let u = r.pick_c(&users);
            let a = scale * r.below(9) as u128;
            let m = json!({"update_votes": {"voter": u, "new_amount": a.to_string()}});
            let tx = c.execute(&boss, &gov, &m, &[]);
            log.push(format!("{now} {m} -> {} {}", tx.ok, tx.err));
            for t in ["C12", "C01"] {
                mon.check(t, "vote update accepted", ps.len().min(20), tx.ok, || tx.err.clone());
            }
            for p in ps.values_mut() {
                if p.done.is_none() && now < p.ends {
                    if let Some(x) = p.votes.get_mut(&u) {
                        x.1 = a;
                    }
                }
            }
            // all polls of that voter
            let got = walk(&c, &gov, "voter", &json!({"voter_addr": u}), "votes", Some(r.range(1, 30)), &|v| v["poll_id"].clone());
            let want: Vec<(u64, u8, u128)> = ps.iter().filter_map(|(id, p)| p.votes.get(&u).map(|x| (*id, x.0, x.1))).collect();
            match got {
                Ok(l) => {
                    let l: Vec<(u64, u8, u128)> = l.iter().map(|v| (uint(&v["poll_id"]) as u64, uint(&v["outcome"]) as u8, uint(&v["amount"]))).collect();
                    for t in ["C12", "C25", "C01"] {
                        mon.check(t, "votes of one voter", want.len().min(40), l == want, || format!("votes of {u}: {l:?} expected {want:?}"));
                    }
                }
                Err(e) => mon.fail("C25", "votes of one voter", e),
            }
        } else if k < 75 {
            let id = r.range(1, ps.len() as u64);
            let early = r.chance(1, 2);
            let (max, exp) = {
                let p = &ps[&id];
                let max = max_for(&mut r, p);
                let j = judge(&p.tally(), max, p.q, p.t, p.v);
                let dec = !matches!(j, Judged::Quorum | Judged::Threshold);
                let ok = p.done.is_none() && (now >= p.ends || (early && dec));
                (max, if ok { Some(j) } else { None })
            };
            let m = json!({"end_poll": {"poll_id": id.to_string(), "maximum_available_votes": max.to_string(), "error_if_already_ended": true, "allow_early_ending": early}});
            let tx = c.execute(&boss, &gov, &m, &[]);
            log.push(format!("{now} {m} -> {} {}", tx.ok, tx.err));
            let p = ps.get_mut(&id).unwrap();
            let edge = (now < p.ends, now == p.ends, early, p.done.is_some());
            mon.check("C03", "poll ended only when allowed, once", edge, tx.ok == exp.is_some(), || {
                format!("ending poll {id} at {now} (end {}, early {early}, tally {:?}, max {max}, q {} t {} v {:?}): ok={} {}", p.ends, p.tally(), dec_str(p.q), dec_str(p.t), p.v.map(dec_str), tx.ok, tx.err)
            });
            if tx.ok {
                if let Some(j) = exp {
                    p.done = Some((j, p.tally()));
                }
                let got = c.q(&gov, json!({"poll_status": {"poll_id": id}})).map(|x| judged_of(&x["status"])).unwrap_or(None);
                mon.check("C02", "outcome", (exp, p.votes.len().min(5), p.v.is_some(), scale > 1 << 60), got == exp, || {
                    format!("poll {id} decided {got:?}, rules give {exp:?}: tally {:?} max {max} q {} t {} v {:?}", p.tally(), dec_str(p.q), dec_str(p.t), p.v.map(dec_str))
                });
            }
        } else if k < 90 {
            // what if it ended now
            let id = r.range(1, ps.len() as u64);
            let p = &ps[&id];
            let max = max_for(&mut r, p);
            let want = judge(&p.tally(), max, p.q, p.t, p.v);
            match c.q(&gov, json!({"simulate_end_poll_status": {"poll_id": id, "maximum_available_votes": max.to_string()}})) {
                Ok(x) => {
                    let got = judged_of(&x["status"]);
                    for t in ["C02", "C24"] {
                        mon.check(t, "simulated outcome", (want, edge_class(p, max), p.v.is_some()), got == Some(want), || {
                            format!("poll {id} would be {got:?}, rules give {want:?}: tally {:?} max {max} q {} t {} v {:?}", p.tally(), dec_str(p.q), dec_str(p.t), p.v.map(dec_str))
                        });
                    }
                    if want == Judged::Passed {
                        let n = uint(&x["status"]["passed"]["count"]);
                        mon.check("C02", "passed with the yes count", 0u8, n == p.tally()[0], || format!("passed count {n}, yes {}", p.tally()[0]));
                    }
                    mon.sample("C02", || format!("tally {:?} of {max}, quorum {} threshold {} veto {:?} -> {want:?}", p.tally(), dec_str(p.q), dec_str(p.t), p.v.map(dec_str)));
                }
                Err(e) => mon.fail("C02", "simulated outcome", e),
            }
        } else if k < 95 {
            let id = r.range(1, ps.len() as u64);
            let p = &ps[&id];
            let d = match r.below(3) {
                0 if p.ends > now => p.ends - now,
                1 if p.ends > now + 1 => p.ends - now - 1,
                _ => r.below(2_000_000_000_000),
            };
            c.advance(1, d);
        } else {
            let tx = c.execute(if r.chance(1, 2) { "mallory" } else { &users[0] }, &gov, &json!({"cast_vote": {"poll_id": "1", "outcome": "yes", "voter": users[0], "amount": "5"}}), &[]);
            mon.check("C08", "voting engine obeys only governance", 0u8, !tx.ok && tx.no_effect(), || "outsider voted on the engine".into());
        }
        if r.chance(1, 5) {
            window(&c, &gov, &ps, &mut mon, &mut r);
        }
        // look at one poll completely
        let id = r.range(1, ps.len().max(1) as u64);
        if let Some(p) = ps.get(&id) {
            check_poll(&c, &gov, id, p, &mut mon, &mut r);
        }
        if mon.silenced.contains(focus) {
            break;
        }
    }
    // listing of all polls
    let l = walk_polls(&c, &gov, r.range(1, 12));
    match l {
        Ok(l) => {
            let want: Vec<u64> = ps.keys().copied().collect();
            mon.check("C25", "poll listing", want.len(), l == want, || format!("polls listed {l:?} expected {want:?}"));
        }
        Err(e) => mon.fail("C25", "poll listing", e),
    }
    Out { mon, log }
}

fn edge_class(p: &P, max: u128) -> (u8, u8, u8) {
    let t = p.tally();
    let sum: u128 = t.iter().sum();
    let base = sum - t[2];
    let cl = |a: u128, b: u128, l: u128| -> u8 {
        if b == 0 {
            return 9;
        }
        let x = mul_div(b, l, ONE, true);
        if a == x {
            1
        } else if a + 1 == x {
            0
        } else if a == x + 1 {
            2
        } else if a < x {
            3
        } else {
            4
        }
    };
    (cl(sum, max, p.q), cl(t[0], base, p.t), cl(t[3], base, p.v.unwrap_or(p.t)))
}

fn max_for(r: &mut Rng, p: &P) -> u128 {
    let sum: u128 = p.tally().iter().sum();
    let x = match r.below(4) {
        0 => sum.max(1),
        // the available weight at which the quorum is just reached
        1 | 2 => {
            let m = mul_div(sum, ONE, p.q, false).min(1 << 120);
            match r.below(3) {
                0 => m,
                1 => m + 1,
                _ => m.saturating_sub(1),
            }
        }
        _ => sum + r.below(1000) as u128,
    };
    // never less than what was voted
    x.max(sum).max(1)
}

/// a part of the listing of polls or of a poll's votes: filter, bounds, order and length
fn window(c: &Chain, gov: &str, ps: &BTreeMap<u64, P>, mon: &mut Mon, r: &mut Rng) {
    let order = r.pick_c(&[Value::Null, json!("ascending"), json!("descending")]);
    let down = order == json!("descending");
    let limit = if r.chance(1, 4) { None } else { Some(r.below(7)) };
    let cut = |mut l: Vec<String>| {
        if down {
            l.reverse();
        }
        l.truncate(limit.map_or(usize::MAX, |x| x as usize));
        l
    };
    let (what, q, field, key, want): (&str, Value, &str, &str, Vec<String>) = if r.chance(1, 2) {
        let f = r.pick_c(&[None, Some("in_progress"), Some("passed"), Some("rejected")]);
        let (a, e) = (r.below(ps.len() as u64 + 2), r.below(ps.len() as u64 + 2));
        let (a, e) = (if r.chance(1, 2) { Some(a) } else { None }, if r.chance(1, 3) && e >= a {
            Some(e)
        } else {
            None
        });
        let st = |p: &P| match &p.done {
            None => "in_progress",
            Some((Judged::Passed, _)) => "passed",
            _ => "rejected",
        };
        let l = ps
            .iter()
            .filter(|(i, p)| f.map_or(true, |f| st(p) == f) && a.map_or(true, |a| **i > a) && e.map_or(true, |e| **i <= e))
            .map(|x| x.0.to_string())
            .collect();
        let q = json!({"polls": {"filter": f, "pagination": {"start_after": a.map(|x| x.to_string()), "end_at": e.map(|x| x.to_string()), "limit": limit, "order_by": order}}});
        ("part of the poll listing", q, "polls", "id", cut(l))
    } else {
        let id = r.range(1, ps.len().max(1) as u64);
        let all: Vec<String> = ps.get(&id).map_or(vec![], |p| p.votes.keys().cloned().collect());
        let a = if all.is_empty() || r.chance(1, 2) { None } else { Some(r.pick_c(&all)) };
        let e = if all.is_empty() || r.chance(2, 3) { None } else { Some(r.pick_c(&all)).filter(|e| a.as_ref().map_or(true, |a| e >= a)) };
        let l = all.iter().filter(|u| a.as_ref().map_or(true, |a| *u > a) && e.as_ref().map_or(true, |e| *u <= e)).cloned().collect();
        let q = json!({"poll_voters": {"poll_id": id, "pagination": {"start_after": a, "end_at": e, "limit": limit, "order_by": order}}});
        ("part of the vote listing", q, "votes", "voter", cut(l))
    };
    match c.q(gov, q.clone()) {
        Ok(x) => {
            let got: Vec<String> = list(&x[field]).iter().map(|v| v[key].as_str().map(|s| s.to_string()).unwrap_or(v[key].to_string())).collect();
            mon.check("C25", what, (want.len().min(8), down, limit, q.to_string().contains("filter\":null")), got == want, || format!("{q}: {got:?}, expected {want:?}"));
        }
        Err(e) => mon.fail("C25", what, format!("{q}: {e}")),
    }
}

fn walk_polls(c: &Chain, gov: &str, limit: u64) -> Result<Vec<u64>, String> {
    let mut out = vec![];
    let mut after: Option<u64> = None;
    for _ in 0..500 {
        let x = c.q(gov, json!({"polls": {"filter": null, "pagination": {"start_after": after.map(|x| x.to_string()), "end_at": null, "limit": limit, "order_by": null}}}))?;
        let l = list(&x["polls"]);
        if l.is_empty() {
            return Ok(out);
        }
        for p in &l {
            out.push(uint(&p["id"]) as u64);
        }
        after = out.last().copied();
    }
    Err("polls: listing does not end".into())
}

fn walk_voters(c: &Chain, gov: &str, id: u64, limit: u64) -> Result<Vec<Value>, String> {
    let mut out: Vec<Value> = vec![];
    let mut after: Option<String> = None;
    for _ in 0..500 {
        let x = c.q(gov, json!({"poll_voters": {"poll_id": id, "pagination": {"start_after": after, "end_at": null, "limit": limit, "order_by": null}}}))?;
        let l = list(&x["votes"]);
        if l.is_empty() {
            return Ok(out);
        }
        after = Some(st(&l.last().unwrap()["voter"]));
        out.extend(l);
        if out.len() > 5000 {
            break;
        }
    }
    Err("poll_voters: listing does not end".into())
}

fn check_poll(c: &Chain, gov: &str, id: u64, p: &P, mon: &mut Mon, r: &mut Rng) {
    let g = match c.q(gov, json!({"poll": {"poll_id": id}})) {
        Ok(g) => g["poll"].clone(),
        Err(e) => return mon.fail("C01", "poll query", e),
    };
    let res = results(&g["results"]);
    let t = p.tally();
    mon.check("C01", "tally is the sum of votes", (p.votes.len().min(20), p.done.is_some()), res == t, || format!("poll {id}: results {res:?}, votes sum to {t:?}"));
    if let Some((j, at)) = &p.done {
        let gj = judged_of(&g["status"]);
        for x in ["C24", "C03"] {
            mon.check(x, "settled outcome stays", j, gj == Some(*j) && res == *at, || format!("poll {id} settled as {j:?} {at:?}, now {gj:?} {res:?}"));
        }
    } else {
        mon.check("C24", "open poll is in progress", 0u8, g["status"].get("in_progress").is_some(), || format!("poll {id}: {}", g["status"]));
    }
    let lim = (uint(&g["ends_at"]) as u64, dec(&g["quorum"]), dec(&g["threshold"]), if g["veto_threshold"].is_null() { None } else { Some(dec(&g["veto_threshold"])) });
    mon.check("C02", "limits as created", p.v.is_some(), lim == (p.ends, p.q, p.t, p.v), || format!("poll {id}: {lim:?}"));
    match walk_voters(c, gov, id, r.range(1, 30)) {
        Ok(l) => {
            let got: Vec<(String, u8, u128)> = l.iter().map(|v| (st(&v["voter"]), uint(&v["outcome"]) as u8, uint(&v["amount"]))).collect();
            let want: Vec<(String, u8, u128)> = p.votes.iter().map(|(u, x)| (u.clone(), x.0, x.1)).collect();
            let mut sorted_got = got.clone();
            sorted_got.sort();
            for x in ["C25", "C01"] {
                mon.check(x, "voters of a poll", want.len().min(50), sorted_got == want, || format!("poll {id} votes listed {got:?} expected {want:?}"));
            }
        }
        Err(e) => mon.fail("C25", "voters of a poll", e),
    }
}
