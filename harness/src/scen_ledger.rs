//! A membership contract set up by hand, with a history of totals handed over at birth: weights, totals at any past
//! moment, custody and claims against a full ledger of everything that happened.
use crate::chain::Tx;
use crate::lite::*;
use crate::mon::{Mon, Rng};
use crate::obs::*;
use crate::run::Out;
use crate::world::*;
use cosmwasm_std::{coin, CosmosMsg};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const WHO: [&str; 6] = ["alice", "bobby", "carol", "david", "erin", "frank"];

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum K {
    Token,
    Denom,
    Nft,
    Multisig,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Rel {
    Time(u64),
    Height(u64),
}

#[derive(Clone, Debug)]
struct Claim {
    rel: Rel,
    amount: u128,
    tokens: Vec<String>,
}

pub fn ledger(focus: &'static str, seed: u64, steps: usize) -> Out {
    let mut r = Rng::new(seed);
    let mut mon = Mon::new(focus);
    let mut log: Vec<String> = vec![];
    let b = base();
    let lite = match Lite::new(&b, "boss") {
        Ok(l) => l,
        Err(e) => {
            mon.fail(focus, "set-up", e);
            return Out { mon, log };
        }
    };
    let ctrl = lite.c("controller").to_string();
    let kind = r.pick_c(&[K::Token, K::Denom, K::Nft, K::Multisig, K::Multisig]);
    b.c.advance(r.range(1, 50), r.range(1, 1_000_000_000_000));
    let cw20 = new_cw20(&b.c, b.codes.cw20, "tok", &WHO.iter().map(|w| (w.to_string(), 1 << 90)).collect::<Vec<_>>());
    let ids: Vec<(String, String)> = (0..60).map(|i| (format!("{i}"), WHO[i % WHO.len()].to_string())).collect();
    let cw721 = new_cw721(&b.c, b.codes.cw721, "coll", &ids);
    for w in WHO {
        b.c.mint(w, "ustake", 1 << 90);
    }
    // history from before the contract was born
    let mut past = |now: u64| -> Option<Vec<(u64, u128)>> {
        if r.chance(1, 6) {
            return None;
        }
        let n = r.below(7);
        let mut at: BTreeSet<u64> = BTreeSet::new();
        for _ in 0..n {
            let h = match r.below(4) {
                0 => now - r.range(1, 5).min(now),
                1 => r.below(now),
                _ => now.saturating_sub(r.range(1, 300)),
            };
            at.insert(h.min(now - 1));
        }
        Some(at.into_iter().map(|h| (h, if r.chance(1, 4) { 0 } else { r.pick_c(&[0u128, 1, 7, 1 << 60]) + r.below(1000) as u128 })).collect())
    };
    let (h0, s0) = (b.c.height(), b.c.now().seconds());
    let (hist_h, hist_s) = if kind == K::Denom { (None, None) } else { (past(h0), past(s0)) };
    let cps = |x: &Option<Vec<(u64, u128)>>| match x {
        None => Value::Null,
        Some(v) => json!(v.iter().map(|(h, t)| json!({"height": h, "total_weight": t.to_string()})).collect::<Vec<_>>()),
    };
    let mut unlock = if r.chance(1, 2) { json!({"time": r.pick_c(&[0u64, 1, 100, 3600])}) } else { json!({"height": r.pick_c(&[0u64, 1, 5, 40])}) };
    let mut weights: BTreeMap<String, u128> = BTreeMap::new();
    let recs: Vec<String> = (0..4).map(|i| b.c.instantiate("rec", b.codes.recorder, &json!({}), &format!("rec{i}"), None).unwrap()).collect();
    let mut hooks: BTreeSet<String> = BTreeSet::new(); // who is to be told of changes of weight
    let first: Option<Vec<String>> = if r.chance(1, 4) { None } else { Some(recs.iter().filter(|_| r.chance(1, 2)).cloned().collect()) };
    hooks.extend(first.iter().flatten().cloned());
    let mut heard = vec![0usize; recs.len()];
    let mut init = json!({"enterprise_contract": lite.ent, "weight_change_hooks": first});
    if kind != K::Denom {
        init["total_weight_by_height_checkpoints"] = cps(&hist_h);
        init["total_weight_by_seconds_checkpoints"] = cps(&hist_s);
    }
    if kind != K::Multisig {
        init["unlocking_period"] = unlock.clone();
    }
    let (code, name) = match kind {
        K::Token => {
            init["token_contract"] = json!(cw20);
            (b.codes.token, "token_config")
        }
        K::Denom => {
            init["denom"] = json!("ustake");
            (b.codes.denom, "denom_config")
        }
        K::Nft => {
            init["nft_contract"] = json!({"cw721": {"contract": cw721}});
            (b.codes.nft, "nft_config")
        }
        K::Multisig => {
            if r.chance(4, 5) {
                let mut l = vec![];
                for w in WHO {
                    if r.chance(1, 2) {
                        let x = r.pick_c(&[0u128, 1, 5, 1 << 70]);
                        weights.insert(w.into(), x);
                        l.push(json!({"user": w, "weight": x.to_string()}));
                    }
                }
                init["initial_weights"] = json!(l);
            } else {
                init["initial_weights"] = Value::Null;
            }
            (b.codes.multisig, "config")
        }
    };
    let m = match b.c.instantiate("maker", code, &init, "membership", Some(&lite.ent)) {
        Ok(a) => a,
        Err(e) => {
            mon.fail("C11", "membership contract with a history can be created", format!("{init}: {e}"));
            return Out { mon, log };
        }
    };
    log.push(format!("{kind:?} born at height {h0} second {s0} with {init}"));
    // every change of the total, in order: (height, second, total from then on)
    let mut by_h: Vec<(u64, u128)> = hist_h.clone().unwrap_or_default();
    let mut by_s: Vec<(u64, u128)> = hist_s.clone().unwrap_or_default();
    let sum = |w: &BTreeMap<String, u128>| w.values().sum::<u128>();
    by_h.push((h0, sum(&weights)));
    by_s.push((s0, sum(&weights)));
    let mut nfts: BTreeMap<String, (String, bool)> = BTreeMap::new(); // id -> (who it belongs to, staked or claimed)
    let mut claims: BTreeMap<String, Vec<Claim>> = BTreeMap::new();
    let mut gifts: u128 = 0;
    let crowd = r.pick_c(&[1usize, 2, 6, 6]);
    let mut told = weights.clone(); // what the hooks have last been told
    for step in 0..=steps {
        for (i, h) in recs.iter().enumerate() {
            let all = list(&b.c.q(h, json!({"log": {}})).unwrap_or(Value::Null));
            let new: Vec<Value> = all[heard[i].min(all.len())..].to_vec();
            heard[i] = all.len();
            let mut at = told.clone();
            let mut good = new.iter().all(|e| e["sender"] == json!(m));
            for c in new.iter().flat_map(|e| list(&e["msg"]["weights_changed"]["weight_changes"])) {
                let n = |k: &str| c[k].as_str().and_then(|x| x.parse::<u128>().ok()).unwrap_or(u128::MAX);
                good &= at.get(&st(&c["user"])).copied().unwrap_or(0) == n("old_weight");
                at.insert(st(&c["user"]), n("new_weight"));
            }
            let nz = |w: &BTreeMap<String, u128>| w.iter().filter(|x| *x.1 > 0).map(|(a, b)| (a.clone(), *b)).collect::<BTreeMap<_, _>>();
            let on = hooks.contains(h);
            good &= if on { nz(&at) == nz(&weights) } else { new.is_empty() };
            mon.check("C12", "hooks are told of every change of weight", (kind, on, new.len().min(3), told != weights), good, || {
                format!("registered {on}: told {} about {told:?} -> {weights:?}", json!(new))
            });
        }
        told = weights.clone();
        if step == steps {
            break;
        }
        mon.step += 1;
        if mon.silenced.contains(focus) {
            break;
        }
        // several changes may fall into one block, several blocks into one second
        match r.below(8) {
            0 | 1 => {}
            2 | 3 => b.c.advance(1, r.below(400_000_000)),
            4 => b.c.advance(r.range(1, 3), r.below(3_000_000_000)),
            5 => b.c.advance(1, 1_000_000_000 - b.c.now().nanos() % 1_000_000_000),
            6 => b.c.advance(r.range(1, 60), r.range(1, 500) * 1_000_000_000),
            _ => b.c.advance(r.range(1, 6), r.range(1, 7200) * 1_000_000_000),
        }
        let who = r.pick_c(&WHO[..crowd]).to_string();
        let bal = weights.get(&who).copied().unwrap_or(0);
        let amount = match r.below(5) {
            0 => 1,
            1 => bal.max(1),
            2 => bal + 1,
            _ => r.range(1, 1000) as u128,
        };
        let rel = |now_h: u64, now_t: u64, u: &Value| match u.get("time") {
            Some(t) => Rel::Time(now_t + t.as_u64().unwrap() * 1_000_000_000),
            None => Rel::Height(now_h + u["height"].as_u64().unwrap()),
        };
        let (now_h, now_t) = (b.c.height(), b.c.now().nanos());
        let ripe = |c: &Claim| match c.rel {
            Rel::Time(t) => now_t >= t,
            Rel::Height(h) => now_h >= h,
        };
        let mut next = weights.clone();
        let mut nnfts = nfts.clone();
        let mut nclaims = claims.clone();
        let mut ngifts = gifts;
        let (what, sender, msgs, legit): (String, String, Vec<CosmosMsg>, bool);
        let op = r.below(12);
        if r.chance(1, 8) {
            // the list of those to be told changes; a contract that cannot be told blocks every change
            let h = r.pick_c(&[recs[0].clone(), recs[1].clone(), recs[2].clone(), recs[3].clone(), cw721.clone()]);
            let off = hooks.contains(&h) != r.chance(1, 5);
            let auth = r.chance(4, 5);
            let msg = if off { json!({"remove_weight_change_hook": {"hook_addr": h}}) } else { json!({"add_weight_change_hook": {"hook_addr": h}}) };
            let from = if auth { ctrl.clone() } else { r.pick_c(&[who.clone(), lite.ent.clone(), h.clone()]) };
            let t = b.c.dispatch(&from, vec![ex(&m, msg.clone(), &[])]);
            log.push(format!("#{} {from}: {msg} -> {} {}", mon.step, t.ok, t.err));
            mon.ctx = mon_line(&log);
            for p in ["C08", "C12"] {
                mon.check(p, "only governance decides who is told", (kind, auth, off), t.ok == auth, || mon_line(&log));
            }
            if t.ok && off {
                hooks.remove(&h);
            } else if t.ok {
                hooks.insert(h);
            }
            continue;
        }
        let deaf = hooks.contains(&cw721);
        match kind {
            K::Multisig => {
                let n = r.below(5);
                let mut l: Vec<(String, u128)> = vec![];
                for _ in 0..n {
                    l.push((r.pick_c(&WHO).to_string(), r.pick_c(&[0u128, 1, 2, 9, 1 << 64])));
                }
                if deaf && l.is_empty() {
                    continue; // nothing to tell: either answer will do
                }
                let dup = l.iter().map(|x| &x.0).collect::<BTreeSet<_>>().len() != l.len();
                let set = r.chance(1, 3);
                let auth = r.chance(7, 8);
                let j: Vec<Value> = l.iter().map(|(u, w)| json!({"user": u, "weight": w.to_string()})).collect();
                let msg = if set { json!({"set_members": {"new_members": j}}) } else { json!({"update_members": {"update_members": j}}) };
                legit = auth && !dup;
                if set {
                    next.clear();
                }
                for (u, w) in &l {
                    next.insert(u.clone(), *w);
                }
                sender = if auth { ctrl.clone() } else { r.pick_c(&[who.clone(), lite.ent.clone(), "boss".to_string()]) };
                what = format!("{msg}");
                msgs = vec![ex(&m, msg, &[])];
            }
            _ if op < 5 => {
                // stake
                let to = r.pick_c(&WHO[..crowd.max(2)]).to_string();
                match kind {
                    K::Token if r.chance(1, 5) => {
                        // stakes carried over in bulk, by whoever pays for them
                        let l: Vec<(String, u128)> = (0..r.below(4)).map(|_| (r.pick_c(&WHO).to_string(), r.below(50) as u128)).collect();
                        let total: u128 = l.iter().map(|x| x.1).sum();
                        let paid = if r.chance(1, 4) { total + 1 } else { total };
                        if paid == 0 {
                            continue;
                        }
                        for (u, a) in &l {
                            if *a > 0 {
                                *next.entry(u.clone()).or_default() += a;
                            }
                        }
                        let j: Vec<Value> = l.iter().map(|(u, a)| json!({"user": u, "staked_amount": a.to_string()})).collect();
                        legit = paid == total;
                        msgs = vec![cw20_send(&cw20, &m, paid, json!({"add_stakes": {"stakers": j}}))];
                        what = format!("add_stakes {j:?} paying {paid}");
                    }
                    K::Token => {
                        *next.entry(to.clone()).or_default() += amount;
                        legit = true;
                        msgs = vec![cw20_send(&cw20, &m, amount, json!({"stake": {"user": to}}))];
                        what = format!("stake {amount} for {to}");
                    }
                    K::Denom => {
                        let own = r.chance(1, 2);
                        let u = if own { who.clone() } else { to.clone() };
                        *next.entry(u.clone()).or_default() += amount;
                        legit = true;
                        msgs = vec![ex(&m, json!({"stake": {"user": if own { Value::Null } else { json!(u) }}}), &[("ustake", amount)])];
                        what = format!("stake {amount} for {u}");
                    }
                    _ => {
                        let held: Vec<String> = ids.iter().map(|x| x.0.clone()).filter(|i| !nfts.contains_key(i)).collect();
                        if held.is_empty() {
                            continue;
                        }
                        let mut ms = vec![];
                        let mut ns = vec![];
                        let owner = b.c.q(&cw721, json!({"owner_of": {"token_id": held[0]}})).map(|v| st(&v["owner"])).unwrap_or_default();
                        for i in held.iter().take(r.range(1, 4) as usize) {
                            let o = b.c.q(&cw721, json!({"owner_of": {"token_id": i}})).map(|v| st(&v["owner"])).unwrap_or_default();
                            if o == owner {
                                ms.push(nft_send(&cw721, &m, i, json!({"stake": {"user": to}})));
                                nnfts.insert(i.clone(), (to.clone(), true));
                                ns.push(i.clone());
                            }
                        }
                        *next.entry(to.clone()).or_default() += ns.len() as u128;
                        sender = owner;
                        msgs = ms;
                        what = format!("stake {ns:?} for {to}");
                        legit = true;
                        let ok = legit && !(deaf && tells(&what));
        run(&b, &mut mon, &mut log, kind, &m, what, sender, msgs, ok, step, &mut weights, next, &mut nfts, nnfts, &mut claims, nclaims, &mut gifts, ngifts, &mut by_h, &mut by_s);
                        verify(&b, &mut mon, &mut r, kind, &m, &cw20, &cw721, &weights, &nfts, &claims, gifts, &by_h, &by_s);
                        continue;
                    }
                }
                sender = who.clone();
            }
            _ if op < 9 => {
                // unstake
                sender = who.clone();
                let at = rel(now_h, now_t, &unlock);
                if kind == K::Nft {
                    let mine: Vec<String> = nfts.iter().filter(|x| x.1 .1 && x.1 .0 == who).map(|x| x.0.clone()).collect();
                    let n = r.range(1, 3) as usize;
                    let mut t: Vec<String> = mine.into_iter().take(n).collect();
                    let odd = r.chance(1, 6);
                    if odd {
                        let other: Vec<String> = ids.iter().map(|x| x.0.clone()).filter(|i| nfts.get(i).map_or(true, |x| !x.1 || x.0 != who)).collect();
                        t.push(r.pick_c(&other));
                    }
                    if t.is_empty() {
                        continue;
                    }
                    legit = !odd;
                    for i in &t {
                        nnfts.insert(i.clone(), (who.clone(), false));
                    }
                    *next.entry(who.clone()).or_default() = bal.saturating_sub(t.len() as u128);
                    nclaims.entry(who.clone()).or_default().push(Claim { rel: at, amount: 0, tokens: t.clone() });
                    msgs = vec![ex(&m, json!({"unstake": {"nft_ids": t}}), &[])];
                    what = format!("unstake {t:?}");
                } else {
                    legit = amount <= bal;
                    *next.entry(who.clone()).or_default() = bal.saturating_sub(amount);
                    nclaims.entry(who.clone()).or_default().push(Claim { rel: at, amount, tokens: vec![] });
                    msgs = vec![ex(&m, json!({"unstake": {"amount": amount.to_string()}}), &[])];
                    what = format!("unstake {amount} of {bal}");
                }
            }
            _ if op < 10 => {
                // somebody is paid out
                sender = r.pick_c(&WHO[..crowd.max(2)]).to_string();
                let user = if r.chance(1, 3) { None } else { Some(who.clone()) };
                let payee = user.clone().unwrap_or(sender.clone());
                let l = nclaims.entry(payee.clone()).or_default();
                let due: Vec<Claim> = l.iter().filter(|c| ripe(c)).cloned().collect();
                l.retain(|c| !ripe(c));
                for c in &due {
                    for t in &c.tokens {
                        nnfts.remove(t);
                    }
                }
                legit = sender == payee && !due.is_empty();
                msgs = vec![ex(&m, json!({"claim": {"user": user}}), &[])];
                what = format!("claim for {payee} due {}", due.len());
                if sender != payee || due.is_empty() {
                    // refused or without effect; either way nothing may change
                    let t = b.c.dispatch(&sender, msgs);
                    log.push(format!("#{} {sender}: {what} -> {} {}", mon.step, t.ok, t.err));
                    mon.ctx = log.last().unwrap().clone();
                    if sender != payee && !due.is_empty() && t.ok {
                        // paying the owner on someone else's call is not a theft; it is simply accounted for
                        mon.check("C10", "nobody claims for someone else", (kind, due.len().min(3)), false, || mon_line(&log));
                    }
                    verify(&b, &mut mon, &mut r, kind, &m, &cw20, &cw721, &weights, &nfts, &claims, gifts, &by_h, &by_s);
                    continue;
                }
            }
            _ if op < 11 => {
                sender = ctrl.clone();
                let u = if r.chance(1, 2) { json!({"time": r.pick_c(&[0u64, 1, 50, 7200])}) } else { json!({"height": r.pick_c(&[0u64, 1, 7, 30])}) };
                msgs = vec![ex(&m, json!({"update_unlocking_period": {"new_unlocking_period": u}}), &[])];
                what = format!("unlocking period {u}");
                legit = true;
                unlock = u;
            }
            _ => {
                sender = who.clone();
                legit = true;
                what = "a gift".into();
                match kind {
                    K::Denom => {
                        msgs = vec![CosmosMsg::Bank(cosmwasm_std::BankMsg::Send { to_address: m.clone(), amount: vec![coin(3, "ustake")] })];
                        ngifts += 3;
                    }
                    K::Token => {
                        msgs = vec![ex(&cw20, json!({"transfer": {"recipient": m, "amount": "3"}}), &[])];
                        ngifts += 3;
                    }
                    _ => {
                        msgs = vec![renew(&m, if r.chance(1, 2) { b.codes.nft } else { b.codes.nft2 }, &json!({}))];
                        run(&b, &mut mon, &mut log, kind, &m, "renewed in place".into(), lite.ent.clone(), msgs, true, step, &mut weights, next, &mut nfts, nnfts, &mut claims, nclaims, &mut gifts, ngifts, &mut by_h, &mut by_s);
                        verify(&b, &mut mon, &mut r, kind, &m, &cw20, &cw721, &weights, &nfts, &claims, gifts, &by_h, &by_s);
                        continue;
                    }
                }
            }
        }
        let ok = legit && !(deaf && tells(&what));
        run(&b, &mut mon, &mut log, kind, &m, what, sender, msgs, ok, step, &mut weights, next, &mut nfts, nnfts, &mut claims, nclaims, &mut gifts, ngifts, &mut by_h, &mut by_s);
        if kind != K::Multisig {
            let c = b.c.q(&m, json!({ name: {} })).unwrap_or(Value::Null);
            mon.check("C26", "unlocking period", (kind, unlock.to_string()), jeq(&c["unlocking_period"], &unlock), || format!("{c} instead of {unlock}"));
        }
        verify(&b, &mut mon, &mut r, kind, &m, &cw20, &cw721, &weights, &nfts, &claims, gifts, &by_h, &by_s);
    }
    Out { mon, log }
}

/// does an accepted operation of this kind change weights?
fn tells(what: &str) -> bool {
    what.starts_with("stake") || what.starts_with("unstake") || what.starts_with("add_stakes") || what.starts_with("{\"")
}

fn mon_line(l: &[String]) -> String {
    l.last().cloned().unwrap_or_default()
}

#[allow(clippy::too_many_arguments)]
fn run(
    b: &Base, mon: &mut Mon, log: &mut Vec<String>, kind: K, _m: &str, what: String, sender: String, msgs: Vec<CosmosMsg>, legit: bool, _step: usize,
    weights: &mut BTreeMap<String, u128>, next: BTreeMap<String, u128>, nfts: &mut BTreeMap<String, (String, bool)>, nnfts: BTreeMap<String, (String, bool)>,
    claims: &mut BTreeMap<String, Vec<Claim>>, nclaims: BTreeMap<String, Vec<Claim>>, gifts: &mut u128, ngifts: u128, by_h: &mut Vec<(u64, u128)>, by_s: &mut Vec<(u64, u128)>,
) {
    let t: Tx = b.c.dispatch(&sender, msgs);
    log.push(format!("#{} height {} time {} {sender}: {what} -> {} {}", mon.step, b.c.height(), b.c.now(), t.ok, t.err));
    mon.ctx = mon_line(log);
    let word = what.split(' ').next().unwrap_or("").chars().take(16).collect::<String>();
    for p in ["C09", "C10", "C11"] {
        let mine = match p {
            "C11" => kind == K::Multisig || what.starts_with("renewed"),
            "C10" => what.starts_with("claim"),
            _ => kind != K::Multisig && !what.starts_with("claim"),
        };
        if mine {
            mon.check(p, "accepted exactly when legitimate", (kind, word.clone(), legit), t.ok == legit, || format!("{}: expected {legit}", mon_line(log)));
        }
    }
    if t.ok {
        *weights = next;
        *nfts = nnfts;
        *claims = nclaims;
        *gifts = ngifts;
        let total: u128 = weights.values().sum();
        if by_h.last().unwrap().1 != total {
            by_h.push((b.c.height(), total));
        }
        if by_s.last().unwrap().1 != total {
            by_s.push((b.c.now().seconds(), total));
        }
    }
}

/// the value when moment `at` began
fn before(l: &[(u64, u128)], at: u64) -> u128 {
    l.iter().rev().find(|x| x.0 < at).map_or(0, |x| x.1)
}

#[allow(clippy::too_many_arguments)]
fn verify(
    b: &Base, mon: &mut Mon, r: &mut Rng, kind: K, m: &str, cw20: &str, cw721: &str, weights: &BTreeMap<String, u128>, nfts: &BTreeMap<String, (String, bool)>,
    claims: &BTreeMap<String, Vec<Claim>>, gifts: u128, by_h: &[(u64, u128)], by_s: &[(u64, u128)],
) {
    let total: u128 = weights.values().sum();
    let num = |v: &Value| v.as_str().and_then(|s| s.parse::<u128>().ok());
    let q = |e: Value| b.c.q(m, json!({"total_weight": {"expiration": e}})).ok().and_then(|v| num(&v["total_weight"]));
    let t = q(json!({"never": {}}));
    mon.check("C11", "total equals the sum of the members' weights", (kind, weights.len()), t == Some(total), || format!("{t:?} instead of {total}"));
    for (u, w) in weights {
        let x = b.c.q(m, json!({"user_weight": {"user": u}})).ok().and_then(|v| num(&v["weight"]));
        for p in ["C09", "C11"] {
            mon.check(p, "weight of a member", (kind, *w == 0), x == Some(*w), || format!("{u} has {x:?} instead of {w}"));
        }
    }
    let listed: BTreeMap<String, u128> = members(&b.c, m).unwrap_or_default().into_iter().filter(|x| x.1 > 0).collect();
    let want: BTreeMap<String, u128> = weights.iter().filter(|x| *x.1 > 0).map(|(a, b)| (a.clone(), *b)).collect();
    mon.check("C11", "members listed", (kind, want.len()), listed == want, || format!("{listed:?} instead of {want:?}"));
    for (name, l, now) in [("at_height", by_h, b.c.height()), ("at_time", by_s, b.c.now().seconds())] {
        for _ in 0..4 {
            let p = r.pick_c(l).0;
            let at = match r.below(7) {
                0 => p,
                1 => p + 1,
                2 => p.saturating_sub(1),
                3 => now,
                4 => now + r.below(1000),
                5 => r.below(now + 1),
                _ => p + r.below(20),
            };
            let e = if name == "at_height" { json!({ name: at }) } else { json!({ name: (at * 1_000_000_000 + r.below(1_000_000_000)).to_string() }) };
            let got = q(e);
            let want = before(l, at);
            mon.check("C11", "total at a past moment", (kind, name, l.len().min(12), at > now, at < l[0].0), got == Some(want), || format!("{name} {at}: {got:?} instead of {want}; changes {l:?}, now {now}"));
        }
    }
    if kind == K::Multisig {
        return;
    }
    // claims and custody
    let mut owed: u128 = 0;
    for u in WHO {
        let shape = |rel: Rel, a: u128, t: &[String]| {
            let mut t = t.to_vec();
            t.sort();
            format!("{rel:?} {a} {t:?}")
        };
        let got: Vec<String> = b
            .c
            .q(m, json!({"claims": {"user": u}}))
            .map(|v| {
                claims_of(&v)
                    .iter()
                    .map(|c| {
                        let rel = match c.rel {
                            crate::model::Rel::Time(t) => Rel::Time(t),
                            crate::model::Rel::Height(h) => Rel::Height(h),
                        };
                        shape(rel, if c.tokens.is_empty() { c.amount } else { 0 }, &c.tokens)
                    })
                    .collect()
            })
            .unwrap_or_default();
        let none = vec![];
        let mine = claims.get(u).unwrap_or(&none);
        let mut want: Vec<String> = mine.iter().map(|c| shape(c.rel, c.amount, &c.tokens)).collect();
        let mut got = got;
        got.sort();
        want.sort();
        mon.check("C10", "claims listed", (kind, want.len().min(5)), got == want, || format!("{u}: {got:?} instead of {want:?}"));
        owed += mine.iter().map(|c| c.amount).sum::<u128>();
    }
    let (held, want) = match kind {
        K::Token => (b.c.q(cw20, json!({"balance": {"address": m}})).ok().and_then(|v| num(&v["balance"])).unwrap_or(0), total + owed + gifts),
        K::Denom => (b.c.balance(m, "ustake"), total + owed + gifts),
        _ => {
            let n = list(&b.c.q(cw721, json!({"tokens": {"owner": m, "limit": 100}})).unwrap_or(Value::Null)["tokens"]).len() as u128;
            (n, nfts.len() as u128)
        }
    };
    for p in ["C09", "C10"] {
        mon.check(p, "custody matches stakes and claims", (kind, owed > 0), held == want, || format!("holds {held}, stakes {total} + claims {owed} + gifts {gifts} (nfts {})", nfts.len()));
    }
    if kind == K::Nft {
        let staked: BTreeSet<String> = nfts.iter().filter(|x| x.1 .1).map(|x| x.0.clone()).collect();
        let got: BTreeSet<String> = walk(&b.c, m, "staked_nfts", &json!({}), "nfts", Some(10), &|v| v.clone()).unwrap_or_default().iter().map(st).collect();
        mon.check("C09", "staked NFTs listed", (kind, staked.len().min(20)), got == staked, || format!("{got:?} instead of {staked:?}"));
    }
}
