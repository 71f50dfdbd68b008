//! Large populations: many members, votes, proposals, list entries; listings walked with any page size.
use crate::chain::Tx;
use crate::lite::*;
use crate::model::*;
use crate::mon::{Mon, Rng};
use crate::obs::*;
use crate::run::Out;
use crate::world::*;
use cosmwasm_std::{coin, Binary};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

struct S {
    b: Base,
    r: Rng,
    mon: Mon,
    log: Vec<String>,
    size: u64,
}

fn b64(v: &Value) -> String {
    Binary(serde_json::to_vec(v).unwrap()).to_base64()
}

pub fn crowd(focus: &'static str, seed: u64, size: usize) -> Out {
    let mut r = Rng::new(seed);
    // a global whitelist of any length
    let n = r.below(60);
    let mut g = vec![json!({"native": GLOBAL_DENOM})];
    for i in 0..n {
        g.push(json!({"native": format!("uglob{i:03}")}));
    }
    let b = base_with(&[], &Value::Array(g), &json!([]));
    let mut s = S { b, r, mon: Mon::new(focus), log: vec![], size: size as u64 };
    let part = match focus {
        "C15" => 1,
        "C13" if s.r.chance(1, 3) => 7,
        "C12" | "C13" | "C14" | "C01" | "C11" | "C24" | "C02" => 0,
        "C09" => s.r.pick_c(&[2u64, 5]),
        "C10" => 5,
        "C20" => 3,
        "C22" => s.r.below(4),
        "C05" => 6,
        "C04" | "C17" => 7,
        _ => s.r.below(5),
    };
    match part {
        0 => s.members(),
        1 => s.whitelists(),
        2 => s.nfts(),
        3 => s.multisig(),
        5 => s.claims(),
        6 => s.deposits(),
        7 => s.decisions(),
        _ => s.daos(),
    }
    Out { mon: s.mon, log: s.log }
}

impl S {
    fn note(&mut self, what: &str, tx: &Tx) {
        self.mon.step += 1;
        self.mon.ctx = format!("{what} -> {}", if tx.ok { "ok" } else { &tx.err });
        self.log.push(format!("#{} {}", self.mon.step, self.mon.ctx));
    }
    fn ran(&mut self, prop: &'static str, what: &str, tx: &Tx) -> bool {
        self.note(what, tx);
        let err = tx.err.clone();
        self.mon.check(prop, "accepted as it must be", what.split(' ').next().unwrap_or("").to_string(), tx.ok, || format!("{what} was refused: {err}"));
        tx.ok
    }
    /// how many: small, around the usual page sizes, or a lot
    fn many(&mut self) -> u64 {
        let m = self.size;
        match self.r.below(5) {
            0 => self.r.range(1, 12),
            1 => self.r.pick_c(&[10u64, 11, 29, 30, 31, 49, 50, 51]).min(m),
            2 => self.r.pick_c(&[99u64, 100, 101]).min(m),
            _ => self.r.range(12, m.max(13)),
        }
    }
    fn limit(&mut self) -> Option<u64> {
        match self.r.below(6) {
            0 => None,
            1 => Some(1),
            2 => Some(self.r.pick_c(&[29u64, 30, 31, 50, 99, 100, 101, 1000])),
            _ => Some(self.r.range(1, 40)),
        }
    }
    /// walks the listing with several page sizes; every wanted entry once, nothing else, always in the same order
    fn listing(&mut self, name: &'static str, addr: &str, query: &str, params: Value, field: &str, cursor: &dyn Fn(&Value) -> Value, key: &dyn Fn(&Value) -> String, want: &BTreeSet<String>, also: &[&'static str]) {
        let mut first: Option<Vec<String>> = None;
        for _ in 0..3 {
            let l = self.limit();
            let got = walk(&self.b.c, addr, query, &params, field, l, cursor);
            let mut tags = vec!["C25"];
            tags.extend(also);
            match got {
                Err(e) => {
                    for t in tags {
                        self.mon.check(t, "listing answers", name, false, || format!("{name} with page size {l:?}: {e}"));
                    }
                    return;
                }
                Ok(v) => {
                    // an empty key: listed or not, both are fine
                    let keys: Vec<String> = v.iter().map(key).filter(|k| !k.is_empty()).collect();
                    let set: BTreeSet<String> = keys.iter().cloned().collect();
                    let bucket = (name, want.len().min(110) / 5, l.map(|x| x.min(120) / 10));
                    for t in tags {
                        let (missing, extra): (Vec<&String>, Vec<&String>) = (want.difference(&set).collect(), set.difference(want).collect());
                        self.mon.check(t, "every entry once", bucket, missing.is_empty() && extra.is_empty() && set.len() == keys.len(), || {
                            format!("{name} with page size {l:?}: {} of {} entries, missing {:?}, extra {:?}, repeated {}", set.len(), want.len(), missing.iter().take(4).collect::<Vec<_>>(), extra.iter().take(4).collect::<Vec<_>>(), keys.len() - set.len())
                        });
                        if let Some(f) = &first {
                            self.mon.check(t, "stable order", bucket, *f == keys, || format!("{name}: page size {l:?} gives another order"));
                        }
                    }
                    first = Some(keys);
                }
            }
        }
    }

    // ---- a token DAO with many members -------------------------------------------------------
    fn members(&mut self) {
        let n = self.many();
        let names: Vec<String> = (0..n).map(|i| format!("m{:03}", (i * 37 + 11) % 997)).collect();
        let names: Vec<String> = names.into_iter().collect::<BTreeSet<_>>().into_iter().collect();
        let tok = new_cw20(&self.b.c, self.b.codes.cw20, "token", &[("whale".to_string(), 1_000_000_000)]);
        let mut req = request("crowd", json!({"import_cw20": {"cw20_contract": tok, "unlocking_period": {"time": 20000}}}));
        req["gov_config"] = json!({"quorum": "0.1", "threshold": "0.5", "veto_threshold": null, "vote_duration": 10000, "minimum_deposit": null, "allow_early_proposal_execution": true});
        req["asset_whitelist"] = json!([{"native": "ureward"}, {"cw20": tok}]);
        let min0 = if self.r.chance(1, 2) { self.r.below(8) } else { 0 };
        if min0 > 0 {
            req["minimum_weight_for_rewards"] = json!(min0.to_string());
        }
        let d = match Lite::with(&self.b, "m011", req) {
            Ok(d) => d,
            Err(e) => return self.mon.fail("C20", "valid dao creation accepted", e),
        };
        let mem = d.c("membership").to_string();
        let mut w: BTreeMap<String, u128> = BTreeMap::new();
        // staked for in a few transactions
        let rounds = self.r.range(1, 3);
        for k in 0..rounds {
            let mut l = vec![];
            let mut sum = 0u128;
            for u in &names {
                if k > 0 && self.r.chance(1, 2) {
                    continue;
                }
                let x = self.r.range(1, 9) as u128;
                sum += x;
                *w.entry(u.clone()).or_default() += x;
                l.push(json!({"user": u, "staked_amount": x.to_string()}));
            }
            if l.is_empty() {
                continue;
            }
            let tx = self.b.c.execute("whale", &tok, &json!({"send": {"contract": mem, "amount": sum.to_string(), "msg": b64(&json!({"add_stakes": {"stakers": l}}))}}), &[]);
            if !self.ran("C09", "stake for everybody", &tx) {
                return;
            }
            self.b.c.advance(1, 5_000_000_000);
        }
        self.weights(&mem, &w);
        // others want to hear of weight changes too
        let mut hooks = vec![];
        if self.r.chance(1, 2) {
            let n = self.r.range(1, 16);
            for i in 0..n {
                let h = self.b.c.instantiate("rec", self.b.codes.recorder, &json!({}), &format!("hook{i}"), None).unwrap();
                let tx = self.b.c.execute(d.c("controller"), &mem, &json!({"add_weight_change_hook": {"hook_addr": h}}), &[]);
                if !self.ran("C12", "one more hook", &tx) {
                    return;
                }
                hooks.push(h);
            }
        }
        // proposals by one of them, who votes on all; everybody votes on the first
        let star = names[self.r.idx(names.len())].clone();
        let k = self.many().min(if self.r.chance(1, 3) { 140 } else { 40 });
        let ctrl = d.c("controller").to_string();
        for i in 0..k {
            let tx = self.b.c.execute(&star, &ctrl, &json!({"create_proposal": {"title": format!("p{i}"), "description": null, "proposal_actions": [], "deposit_owner": null}}), &[]);
            if !self.ran("C06", "create", &tx) {
                return;
            }
        }
        let mut first: BTreeMap<String, (usize, u128)> = BTreeMap::new();
        let mut of_star: BTreeMap<u64, usize> = BTreeMap::new();
        for u in &names {
            let o = self.r.idx(4);
            let tx = self.b.c.execute(u, &ctrl, &json!({"cast_vote": {"proposal_id": 1, "outcome": OUT[o]}}), &[]);
            if !self.ran("C01", "vote", &tx) {
                return;
            }
            first.insert(u.clone(), (o, w[u]));
        }
        of_star.insert(1, first[&star].0);
        for i in 2..=k {
            let o = self.r.idx(4);
            let tx = self.b.c.execute(&star, &ctrl, &json!({"cast_vote": {"proposal_id": i, "outcome": OUT[o]}}), &[]);
            if !self.ran("C01", "vote", &tx) {
                return;
            }
            of_star.insert(i, o);
        }
        self.tallies(&d, &first, &star, &of_star, &w);
        self.facade(&d, Kind::Token, names.clone(), &[], k);
        let ids: BTreeSet<String> = (1..=k).map(|i| i.to_string()).collect();
        let by_id = |v: &Value| v["proposal"]["id"].clone();
        self.listing("proposals", &ctrl, "proposals", json!({"filter": null}), "proposals", &by_id, &|v| v["proposal"]["id"].to_string().replace('"', ""), &ids, &[]);
        let voters: BTreeSet<String> = first.keys().cloned().collect();
        self.listing("votes of a proposal", &ctrl, "proposal_votes", json!({"proposal_id": 1}), "votes", &|v| v["voter"].clone(), &|v| st(&v["voter"]), &voters, &[]);
        let live: BTreeSet<String> = w.iter().filter(|x| *x.1 > 0).map(|x| x.0.clone()).collect();
        self.listing("members", &mem, "members", json!({}), "members", &|v| v["user"].clone(), &|v| st(&v["user"]), &live, &[]);
        // rewards
        let mut acc: BTreeMap<String, (u128, u128)> = BTreeMap::new();
        let mut min = min0 as u128;
        self.b.c.mint("donor", "ureward", 1_000_000_000);
        let turns = self.r.range(2, 4);
        for t in 0..turns {
            let amount = self.r.range(1, 100_000) as u128;
            let tot: u128 = w.values().filter(|x| **x >= min).sum();
            let tx = self.b.c.execute("donor", d.c("distributor"), &json!({"distribute_native": {}}), &[coin(amount, "ureward")]);
            if tot == 0 {
                self.note("distribute", &tx);
                let ok = tx.ok;
                self.mon.check("C14", "nobody to distribute to", n, !ok, || "a distribution without any eligible member was accepted".into());
            } else {
                if !self.ran("C13", "distribute", &tx) {
                    return;
                }
                for (u, x) in &w {
                    if *x >= min && *x > 0 {
                        let e = acc.entry(u.clone()).or_default();
                        e.0 += mul_div(amount * x, 1_000_000_000, tot, false).saturating_sub(1);
                        e.1 += mul_div(amount * x, 1_000_000_000, tot, true);
                    }
                }
            }
            self.rewards(&d, &w, &mut acc, min);
            match self.r.below(3) {
                // everybody's weight changes at once
                0 => {
                    let mut l = vec![];
                    let mut sum = 0;
                    for u in &names {
                        if self.r.chance(1, 3) {
                            continue;
                        }
                        let x = self.r.range(1, 3) as u128;
                        sum += x;
                        *w.get_mut(u).unwrap() += x;
                        if let Some(v) = first.get_mut(u) {
                            v.1 = w[u];
                        }
                        l.push(json!({"user": u, "staked_amount": x.to_string()}));
                    }
                    if sum > 0 {
                        let tx = self.b.c.execute("whale", &tok, &json!({"send": {"contract": mem, "amount": sum.to_string(), "msg": b64(&json!({"add_stakes": {"stakers": l}}))}}), &[]);
                        if !self.ran("C12", "stake for everybody", &tx) {
                            return;
                        }
                        floor(&mut acc, None);
                    }
                }
                // the one with many votes leaves, partly or completely
                1 => {
                    let x = if self.r.chance(1, 2) { w[&star] } else { w[&star] / 2 };
                    if x > 0 {
                        let tx = self.b.c.execute(&star, &mem, &json!({"unstake": {"amount": x.to_string()}}), &[]);
                        if !self.ran("C12", "unstake", &tx) {
                            return;
                        }
                        *w.get_mut(&star).unwrap() -= x;
                        first.get_mut(&star).unwrap().1 = w[&star];
                        floor(&mut acc, Some(&star));
                    }
                }
                _ => {
                    // the minimum moves, by governance: the contract's only privileged caller is the controller
                    min = self.r.below(20) as u128;
                    let tx = self.b.c.execute(&ctrl, d.c("distributor"), &json!({"update_minimum_eligible_weight": {"minimum_eligible_weight": min.to_string()}}), &[]);
                    if !self.ran("C14", "new minimum", &tx) {
                        return;
                    }
                    floor(&mut acc, None);
                }
            }
            self.weights(&mem, &w);
            self.tallies(&d, &first, &star, &of_star, &w);
            self.rewards(&d, &w, &mut acc, min);
            if t == 0 {
                self.b.c.advance(3, 11_000_000_000);
            }
        }
        let heard: Vec<Vec<Value>> = hooks.iter().map(|h| list(&self.b.c.q(h, json!({"log": {}})).unwrap_or(Value::Null)).into_iter().map(|x| x["msg"].clone()).collect()).collect();
        if let Some(most) = heard.iter().max_by_key(|x| x.len()) {
            let n = heard.iter().filter(|x| *x != most).count();
            self.mon.check("C12", "every hook hears the same", (hooks.len(), most.len().min(9)), n == 0, || format!("{n} of {} hooks have not heard all {} changes", hooks.len(), most.len()));
        }
        // after the end nothing moves any more
        if self.r.chance(1, 2) && w[&star] > 1 {
            self.b.c.advance(1, 20_000_000_000_000);
            let tx = self.b.c.execute(&star, &mem, &json!({"unstake": {"amount": "1"}}), &[]);
            if self.ran("C12", "unstake after the end", &tx) {
                let mut now = w.clone();
                *now.get_mut(&star).unwrap() -= 1;
                self.weights(&mem, &now);
                self.tallies(&d, &first, &star, &of_star, &w);
            }
        }
        // some are settled: listings by status
        self.b.c.advance(1, 20_000_000_000_000);
        let part = self.r.range(1, 4);
        for id in of_star.keys() {
            if self.r.chance(part, 4) {
                self.b.c.execute("anybody", &ctrl, &json!({"execute_proposal": {"proposal_id": id}}), &[]);
            }
        }
        let gov = d.c("governance").to_string();
        for f in ["in_progress", "passed", "rejected"] {
            let want: BTreeSet<String> = of_star.keys().filter(|id| self.b.c.q(&gov, json!({"poll": {"poll_id": id}})).map_or(false, |v| v["poll"]["status"].get(f).is_some())).map(|x| x.to_string()).collect();
            self.listing("proposals by status", &ctrl, "proposals", json!({ "filter": f }), "proposals", &by_id, &|v| v["proposal"]["id"].to_string().replace('"', ""), &want, &[]);
        }
    }

    fn facade(&mut self, d: &Lite, kind: Kind, users: Vec<String>, nfts: &[String], nprops: u64) {
        if self.mon.focus == "C22" {
            crate::scen_facade::large(&mut self.mon, &self.b, d, kind, users, nfts, nprops, &mut self.r);
        }
    }

    fn weights(&mut self, mem: &str, w: &BTreeMap<String, u128>) {
        let want: u128 = w.values().sum();
        let got = self.b.c.q(mem, json!({"total_weight": {"expiration": {"never": {}}}})).map(|v| uint(&v["total_weight"])).unwrap_or(u128::MAX);
        self.mon.check("C11", "total is the sum of members", w.len(), got == want, || format!("total weight {got} but the members' weights sum to {want}"));
        for (u, x) in w {
            let g = self.b.c.q(mem, json!({"user_weight": {"user": u}})).map(|v| uint(&v["weight"])).unwrap_or(u128::MAX);
            for t in ["C11", "C09"] {
                self.mon.check(t, "weight", (w.len() / 8, *x > 0), g == *x, || format!("weight of {u}: {g}, expected {x}"));
            }
        }
    }

    fn tallies(&mut self, d: &Lite, first: &BTreeMap<String, (usize, u128)>, star: &str, of_star: &BTreeMap<u64, usize>, w: &BTreeMap<String, u128>) {
        for (id, o) in of_star {
            let mut want = [0u128; 4];
            if *id == 1 {
                for (o, x) in first.values() {
                    want[*o] += x;
                }
            } else {
                want[*o] += w[star];
            }
            let got = self.b.c.q(d.c("controller"), json!({"proposal": {"proposal_id": id}})).map(|v| results(&v["results"])).unwrap_or([u128::MAX; 4]);
            for t in ["C01", "C12"] {
                self.mon.check(t, "tally of many", (of_star.len() / 5, first.len() / 10, *id == 1, want.iter().filter(|x| **x > 0).count()), got == want, || {
                    format!("proposal {id} of {}: totals {got:?}, the votes sum to {want:?} (weight of {star}: {})", of_star.len(), w[star])
                });
            }
        }
    }

    fn rewards(&mut self, d: &Lite, w: &BTreeMap<String, u128>, acc: &mut BTreeMap<String, (u128, u128)>, min: u128) {
        let mut owed = 0;
        for u in w.keys() {
            let g = self
                .b
                .c
                .q(d.c("distributor"), json!({"user_rewards": {"user": u, "native_denoms": ["ureward"], "cw20_assets": []}}))
                .map(|v| uint(&v["native_rewards"][0]["amount"]))
                .unwrap_or(u128::MAX);
            owed += g;
            let e = acc.entry(u.clone()).or_default();
            let (l, hh) = (e.0 / 1_000_000_000, e.1 / 1_000_000_000);
            for t in ["C13", "C14", "C12"] {
                self.mon.check(t, "rewards of many", (w.len() / 8, w[u] >= min, g > 0), l <= g && g <= hh, || format!("rewards of {u} (weight {}, minimum {min}): {g}, fair is {l} to {hh}", w[u]));
            }
            e.0 = e.0.max(g.saturating_mul(1_000_000_000));
            e.1 = e.1.min(g.saturating_mul(1_000_000_000) + 999_999_999).max(e.0);
        }
        let have = self.b.c.balance(d.c("distributor"), "ureward");
        self.mon.check("C13", "distributor is solvent", w.len() / 8, have >= owed, || format!("distributor owes {owed} and holds {have}"));
    }

    // ---- long whitelists ---------------------------------------------------------------------
    fn whitelists(&mut self) {
        let mut req = request("lists", json!({"new_multisig": {"multisig_members": [{"user": "boss", "weight": "1"}]}}));
        let (nn, nc, nf) = (self.many(), self.many().min(40), self.many());
        let toks: Vec<String> = (0..3).map(|i| new_cw20(&self.b.c, self.b.codes.cw20, &format!("tok{i}"), &[("donor".to_string(), 1_000_000)])).collect();
        let mut want: BTreeSet<String> = BTreeSet::new();
        let mut all: Vec<Value> = vec![];
        for i in 0..nn {
            all.push(json!({"native": format!("uw{:03}", (i * 53) % 701)}));
        }
        for i in 0..nc {
            all.push(json!({"cw20": format!("terra1fake{:03}", (i * 53) % 701)}));
        }
        for t in &toks {
            all.push(json!({"cw20": t}));
        }
        let mut later: Vec<Value> = vec![];
        let key = |v: &Value| v.to_string();
        let split = self.r.idx(all.len() + 1);
        for a in &all[..split] {
            want.insert(key(a));
        }
        let nfts: Vec<String> = (0..nf).map(|i| format!("terra1nft{:03}", (i * 53) % 701)).collect();
        let mut nfts: BTreeSet<String> = nfts.into_iter().collect();
        req["asset_whitelist"] = json!(all[..split]);
        req["nft_whitelist"] = json!(nfts.iter().cloned().collect::<Vec<_>>());
        let d = match Lite::with(&self.b, "boss", req) {
            Ok(d) => d,
            Err(e) => return self.mon.fail("C15", "valid dao creation accepted", e),
        };
        later.extend(all[split..].iter().cloned());
        // the rest by proposals, some of it removed again
        while !later.is_empty() {
            let k = (self.r.range(1, 40) as usize).min(later.len());
            let add: Vec<Value> = later.drain(..k).collect();
            let have: Vec<Value> = want.iter().map(|x| serde_json::from_str(x).unwrap()).collect();
            let mut rem = vec![];
            for x in have {
                if self.r.chance(1, 15) {
                    rem.push(x);
                }
            }
            for x in &add {
                want.insert(key(x));
            }
            for x in &rem {
                want.remove(&key(x));
            }
            let mut act = json!([{"update_asset_whitelist": {"remote_treasury_target": null, "add": add, "remove": rem}}]);
            if self.r.chance(1, 2) {
                let out: Vec<String> = nfts.iter().filter(|_| self.r.chance(1, 12)).cloned().collect();
                let new: Vec<String> = (0..self.r.below(5)).map(|i| format!("terra1more{:03}", self.r.below(300) * 3 + i % 3)).filter(|x| !out.contains(x)).collect::<BTreeSet<_>>().into_iter().collect();
                for x in &out {
                    nfts.remove(x);
                }
                nfts.extend(new.iter().cloned());
                act.as_array_mut().unwrap().push(json!({"update_nft_whitelist": {"remote_treasury_target": null, "add": new, "remove": out}}));
            }
            match d.govern(&self.b, act) {
                Ok(tx) if Lite::performed(&tx) => self.note("whitelist edit", &tx),
                Ok(tx) => {
                    self.note("whitelist edit", &tx);
                    let why: Vec<String> = tx.trace.iter().filter(|c| !c.ok).map(|c| format!("{}: {}", c.key(), c.err)).collect();
                    return self.mon.fail("C15", "whitelist edit performed", format!("{} {why:?}", tx.err));
                }
                Err(e) => return self.mon.fail("C15", "whitelist edit performed", e),
            }
            self.b.c.advance(1, 2_000_000_000);
        }
        let t = d.c("treasury").to_string();
        self.listing("asset whitelist", &t, "asset_whitelist", json!({}), "assets", &|v| v.clone(), &|v| v.to_string(), &want, &["C15"]);
        self.listing("nft whitelist", &t, "nft_whitelist", json!({}), "nfts", &|v| v.clone(), &|v| st(v), &nfts, &["C15"]);
        self.facade(&d, Kind::Multisig, vec!["boss".into()], &[], 0);
        // what is on a list can be distributed, anything else cannot
        let glob: BTreeSet<String> = self.b.c.q(&self.b.factory, json!({"global_asset_whitelist": {}})).map(|v| list(&v["assets"]).iter().map(|x| st(&x["native"])).collect()).unwrap_or_default();
        for _ in 0..25 {
            let k = self.r.range(1, 3);
            let mut f: BTreeMap<String, u128> = BTreeMap::new();
            let mut ok = true;
            for _ in 0..k {
                let den = match self.r.below(8) {
                    0 => format!("uglob{:03}", self.r.below(62)),
                    1 => format!("uw{:03}", self.r.below(701)),
                    2 => self.r.pick_c(&["uw", "uwa", "uglobal", "uw70", "zzz"]).to_string(),
                    _ => {
                        let l: Vec<&String> = want.iter().filter(|x| x.contains("native")).collect();
                        if l.is_empty() {
                            continue;
                        }
                        // near the ends of the list, too
                        let i = match self.r.below(3) {
                            0 => l.len() - 1,
                            1 => l.len().saturating_sub(2),
                            _ => self.r.idx(l.len()),
                        };
                        let v: Value = serde_json::from_str(l[i]).unwrap();
                        st(&v["native"])
                    }
                };
                ok &= want.contains(&key(&json!({ "native": den }))) || glob.contains(&den);
                f.insert(den, self.r.range(1, 9) as u128);
            }
            if f.is_empty() {
                continue;
            }
            let coins: Vec<cosmwasm_std::Coin> = f.iter().map(|(d, a)| coin(*a, d)).collect();
            for c in &coins {
                self.b.c.mint("donor", &c.denom, c.amount.u128());
            }
            let tx = self.b.c.execute("donor", d.c("distributor"), &json!({"distribute_native": {}}), &coins);
            self.note(&format!("distribute {:?}", f.keys().collect::<Vec<_>>()), &tx);
            let (good, err) = (tx.ok, tx.err.clone());
            self.mon.check("C15", "distributed exactly when whitelisted", (want.len() / 10, glob.len() / 10, f.len(), ok), good == ok, || {
                format!("distribution of {:?} {} although {} ({} own and {} global entries): {err}", f.keys().collect::<Vec<_>>(), if good { "accepted" } else { "refused" }, if ok { "all of it is whitelisted" } else { "not all of it is whitelisted" }, want.len(), glob.len())
            });
        }
        for tk in &toks {
            let ok = want.contains(&key(&json!({ "cw20": tk })));
            let tx = self.b.c.execute("donor", tk, &json!({"send": {"contract": d.c("distributor"), "amount": "5", "msg": b64(&json!({"distribute": {}}))}}), &[]);
            self.note("distribute token", &tx);
            let (good, err) = (tx.ok, tx.err.clone());
            self.mon.check("C15", "distributed exactly when whitelisted", (want.len() / 10, "cw20", ok), good == ok, || format!("distribution of token {tk} {good} although whitelisted is {ok} ({} entries): {err}", want.len()));
        }
    }

    // ---- many NFTs ---------------------------------------------------------------------------
    fn nfts(&mut self) {
        let users = ["alice", "bobby", "carol"];
        let n = self.many();
        let mut owner: BTreeMap<String, usize> = BTreeMap::new();
        for i in 0..n {
            let id = if i % 3 == 0 { format!("{}", i * 7) } else { format!("t{:03}", (i * 31) % 307) };
            let u = if self.r.chance(2, 3) { 0 } else { self.r.idx(3) };
            owner.insert(id, u);
        }
        let toks: Vec<(String, String)> = owner.iter().map(|(k, u)| (k.clone(), users[*u].to_string())).collect();
        let coll = new_cw721(&self.b.c, self.b.codes.cw721, "coll", &toks);
        let d = match Lite::with(&self.b, "alice", request("nfts", json!({"import_cw721": {"cw721_contract": coll, "unlocking_period": {"time": 200}}}))) {
            Ok(d) => d,
            Err(e) => return self.mon.fail("C20", "valid dao creation accepted", e),
        };
        let mem = d.c("membership").to_string();
        for (id, u) in &toks {
            let tx = self.b.c.execute(u, &coll, &json!({"send_nft": {"contract": mem, "token_id": id, "msg": b64(&json!({"stake": {"user": u}}))}}), &[]);
            if !self.ran("C09", "stake", &tx) {
                return;
            }
        }
        let turns = self.r.range(1, 3);
        for _ in 0..turns {
            let mut w: BTreeMap<String, u128> = BTreeMap::new();
            for (i, u) in users.iter().enumerate() {
                let mine: BTreeSet<String> = owner.iter().filter(|x| *x.1 == i).map(|x| x.0.clone()).collect();
                if !mine.is_empty() {
                    w.insert(u.to_string(), mine.len() as u128);
                }
                self.listing("nfts of a user", &mem, "user_stake", json!({ "user": u }), "tokens", &|v| v.clone(), &|v| st(v), &mine, &["C09"]);
                let k = self.limit();
                let g = self.b.c.q(&mem, json!({"user_stake": {"user": u, "limit": k}})).map(|v| uint(&v["amount"]).max(uint(&v["total_user_stake"]))).unwrap_or(u128::MAX);
                self.mon.check("C09", "reported stake", (mine.len() / 5, k.map(|x| x / 10)), g == mine.len() as u128, || format!("{u} has {} nfts staked, reported {g}", mine.len()));
            }
            let all: BTreeSet<String> = owner.keys().cloned().collect();
            let ids: Vec<String> = owner.keys().cloned().collect();
            self.facade(&d, Kind::Nft, users.iter().map(|u| u.to_string()).collect(), &ids, 0);
            self.listing("staked nfts", &mem, "staked_nfts", json!({}), "nfts", &|v| v.clone(), &|v| st(v), &all, &["C09"]);
            self.weights(&mem, &w);
            // one of them takes back many at once
            let i = self.r.idx(3);
            let mine: Vec<String> = owner.iter().filter(|x| *x.1 == i).map(|x| x.0.clone()).collect();
            if mine.is_empty() {
                continue;
            }
            let k = self.r.idx(mine.len()) + 1;
            let out: Vec<String> = mine.iter().skip(self.r.idx(mine.len() - k + 1)).take(k).cloned().collect();
            let tx = self.b.c.execute(users[i], &mem, &json!({"unstake": {"nft_ids": out}}), &[]);
            if !self.ran("C09", "unstake", &tx) {
                return;
            }
            for x in &out {
                owner.remove(x);
            }
            let g: Vec<String> = self.b.c.q(&mem, json!({"claims": {"user": users[i]}})).map(|v| list(&v["claims"]).iter().flat_map(|c| list(&c["nft_ids"])).map(|x| st(&x)).collect()).unwrap_or_default();
            let (gs, ws): (BTreeSet<String>, BTreeSet<String>) = (g.iter().cloned().collect(), out.iter().cloned().collect());
            for t in ["C10", "C09"] {
                self.mon.check(t, "claim of many", (out.len() / 5, g.len() / 5), gs.is_superset(&ws), || format!("claims of {} hold {} nfts, unstaked were {}", users[i], gs.len(), ws.len()));
            }
            self.b.c.advance(1, 201_000_000_000);
            let tx = self.b.c.execute(users[i], &mem, &json!({"claim": {"user": null}}), &[]);
            if !self.ran("C10", "claim", &tx) {
                return;
            }
            let back = out.iter().filter(|id| self.b.c.q(&coll, json!({"owner_of": {"token_id": id}})).map_or(false, |v| st(&v["owner"]) == users[i])).count();
            self.mon.check("C10", "all given back", out.len() / 5, back == out.len(), || format!("{back} of {} nfts came back", out.len()));
        }
    }

    // ---- many claims of one user ------------------------------------------------------------
    fn claims(&mut self) {
        let users = ["alice", "bobby", "carol"];
        let kind = self.r.pick_c(&[Kind::Token, Kind::Denom, Kind::Nft]);
        let n = self.many().min(if kind == Kind::Nft { 70 } else { 140 });
        let big = 1u128 << 80;
        let cw20 = new_cw20(&self.b.c, self.b.codes.cw20, "tok", &users.iter().map(|u| (u.to_string(), big)).collect::<Vec<_>>());
        let toks: Vec<(String, String)> = (0..n).map(|i| (format!("t{}", i * 7), users[if i % 4 == 3 { 1 } else { 0 }].to_string())).collect();
        let coll = new_cw721(&self.b.c, self.b.codes.cw721, "coll", &toks);
        let dao = match kind {
            Kind::Token => json!({"import_cw20": {"cw20_contract": cw20, "unlocking_period": {"time": 2000}}}),
            Kind::Denom => json!({"new_denom": {"denom": "ustake", "unlocking_period": {"time": 2000}}}),
            _ => json!({"import_cw721": {"cw721_contract": coll, "unlocking_period": {"time": 2000}}}),
        };
        let d = match Lite::with(&self.b, "alice", request("claims", dao)) {
            Ok(d) => d,
            Err(e) => return self.mon.fail("C20", "valid dao creation accepted", e),
        };
        let (mem, ctrl) = (d.c("membership").to_string(), d.c("controller").to_string());
        let mut stake: BTreeMap<String, u128> = BTreeMap::new();
        for u in users {
            self.b.c.mint(u, "ustake", big);
            let msg = match kind {
                Kind::Token => vec![cw20_send(&cw20, &mem, 1 << 70, json!({"stake": {"user": u}}))],
                Kind::Denom => vec![ex(&mem, json!({"stake": {"user": null}}), &[("ustake", 1 << 70)])],
                _ => toks.iter().filter(|t| t.1 == u).map(|t| nft_send(&coll, &mem, &t.0, json!({"stake": {"user": u}}))).collect(),
            };
            stake.insert(u.into(), if kind == Kind::Nft { msg.len() as u128 } else { 1 << 70 });
            if msg.is_empty() {
                continue;
            }
            let tx = self.b.c.dispatch(u, msg);
            if !self.ran("C09", "stake", &tx) {
                return;
            }
        }
        let mut unlock = json!({"time": 2000});
        let mut claims: BTreeMap<String, Vec<Claim>> = BTreeMap::new();
        let mut left: Vec<(String, String)> = toks.clone();
        let mut made = 0u64;
        while made < n {
            // a burst of withdrawals, then time passes, then somebody is paid
            let burst = self.r.range(1, 60).min(n - made);
            for _ in 0..burst {
                made += 1;
                if self.r.chance(1, 12) {
                    unlock = if self.r.chance(1, 2) { json!({"time": self.r.pick_c(&[0u64, 50, 300])}) } else { json!({"height": self.r.pick_c(&[1u64, 9, 30])}) };
                    let tx = self.b.c.execute(&ctrl, &mem, &json!({"update_unlocking_period": {"new_unlocking_period": unlock}}), &[]);
                    if !self.ran("C26", "unlocking period", &tx) {
                        return;
                    }
                }
                let at = match unlock["time"].as_u64() {
                    Some(t) => Rel::Time(self.b.c.now().nanos() + t * 1_000_000_000),
                    None => Rel::Height(self.b.c.height() + unlock["height"].as_u64().unwrap()),
                };
                let (u, msg, c);
                if kind == Kind::Nft {
                    let i = self.r.idx(left.len());
                    let (id, o) = left.remove(i);
                    u = o;
                    msg = ex(&mem, json!({"unstake": {"nft_ids": [id]}}), &[]);
                    c = Claim { rel: at, amount: 0, tokens: vec![id] };
                    *stake.get_mut(&u).unwrap() -= 1;
                } else {
                    u = users[if self.r.chance(3, 4) { 0 } else { 1 }].to_string();
                    let a = self.r.range(1, 1_000_000) as u128;
                    msg = ex(&mem, json!({"unstake": {"amount": a.to_string()}}), &[]);
                    c = Claim { rel: at, amount: a, tokens: vec![] };
                    *stake.get_mut(&u).unwrap() -= a;
                }
                let tx = self.b.c.dispatch(&u, vec![msg]);
                if !self.ran("C10", "unstake", &tx) {
                    return;
                }
                claims.entry(u).or_default().push(c);
                if self.r.chance(1, 6) {
                    self.b.c.advance(self.r.below(3), self.r.below(40) * 1_000_000_000 + self.r.below(1_000_000_000));
                }
            }
            if kind == Kind::Token && self.r.chance(1, 3) {
                // claims carried over in bulk
                let k = self.r.range(1, 40);
                let mut l = vec![];
                let mut sum = 0u128;
                for _ in 0..k {
                    let u = users[self.r.idx(3)];
                    let a = self.r.range(1, 5000) as u128;
                    let t = self.b.c.now().nanos() + self.r.below(300_000_000_000);
                    l.push(json!({"user": u, "claim_amount": a.to_string(), "release_at": {"timestamp": t.to_string()}}));
                    claims.entry(u.into()).or_default().push(Claim { rel: Rel::Time(t), amount: a, tokens: vec![] });
                    sum += a;
                }
                let tx = self.b.c.dispatch("carol", vec![cw20_send(&cw20, &mem, sum, json!({"add_claims": {"claims": l}}))]);
                if !self.ran("C10", "claims in bulk", &tx) {
                    return;
                }
            }
            for _ in 0..2 {
                let dt = self.r.pick_c(&[0u64, 40, 100, 2000]);
                self.b.c.advance(self.r.range(1, 12), dt * 1_000_000_000 + self.r.below(1_000_000_000));
                if !self.pay(kind, &mem, &cw20, &coll, &mut claims, &stake) {
                    return;
                }
            }
        }
        self.b.c.advance(50, 3_000_000_000_000);
        self.pay(kind, &mem, &cw20, &coll, &mut claims, &stake);
    }
    fn pay(&mut self, kind: Kind, mem: &str, cw20: &str, coll: &str, claims: &mut BTreeMap<String, Vec<Claim>>, stake: &BTreeMap<String, u128>) -> bool {
        let (h, t) = (self.b.c.height(), self.b.c.now().nanos());
        let ripe = |c: &Claim| match c.rel {
            Rel::Time(x) => t >= x,
            Rel::Height(x) => h >= x,
        };
        for u in ["alice", "bobby", "carol"] {
            let l = claims.entry(u.into()).or_default();
            let sort = |mut v: Vec<Claim>| {
                v.sort();
                v
            };
            let all = sort(l.clone());
            let due = sort(l.iter().filter(|c| ripe(c)).cloned().collect());
            for (q, want) in [("claims", &all), ("releasable_claims", &due)] {
                let got = self.b.c.q(mem, json!({ q: {"user": u} })).map(|v| claims_of(&v)).unwrap_or_default();
                self.mon.check("C10", "claims listed", (kind, q == "claims", want.len() / 8), &got == want, || format!("{q} of {u}: {} entries listed instead of {}", got.len(), want.len()));
            }
            let w = self.b.c.q(mem, json!({"user_weight": {"user": u}})).map(|v| uint(&v["weight"])).unwrap_or(u128::MAX);
            self.mon.check("C09", "reported stake", (kind, "claims"), w == stake[u], || format!("{u} has {w}, staked {}", stake[u]));
            if due.is_empty() || self.r.chance(1, 3) {
                continue;
            }
            let sum: u128 = due.iter().map(|c| c.amount).sum();
            let ids: BTreeSet<String> = due.iter().flat_map(|c| c.tokens.clone()).collect();
            let held = |c: &crate::chain::Chain, who: &str| match kind {
                Kind::Token => c.q(cw20, json!({"balance": {"address": who}})).map(|v| uint(&v["balance"])).unwrap_or(0),
                Kind::Denom => c.balance(who, "ustake"),
                _ => c.q(coll, json!({"tokens": {"owner": who, "limit": 1000}})).map(|v| list(&v["tokens"]).len() as u128).unwrap_or(0),
            };
            let before = (held(&self.b.c, u), held(&self.b.c, mem));
            let tx = self.b.c.execute(u, mem, &json!({"claim": {"user": null}}), &[]);
            if !self.ran("C10", "claim", &tx) {
                return false;
            }
            let l = claims.get_mut(u).unwrap();
            l.retain(|c| !ripe(c));
            if kind == Kind::Nft {
                let back = ids.iter().filter(|id| self.b.c.q(coll, json!({"owner_of": {"token_id": id}})).map_or(false, |v| st(&v["owner"]) == u)).count();
                self.mon.check("C10", "pays everything due", (kind, due.len() / 8), back == ids.len(), || format!("{u}: {back} of {} nfts came back", ids.len()));
            } else {
                let got = (held(&self.b.c, u).wrapping_sub(before.0), before.1.wrapping_sub(held(&self.b.c, mem)));
                self.mon.check("C10", "pays everything due", (kind, due.len() / 8), got == (sum, sum), || format!("{u}: {got:?} instead of {sum} for {} claims", due.len()));
            }
            let rest = sort(l.clone());
            let got = self.b.c.q(mem, json!({"claims": {"user": u}})).map(|v| claims_of(&v)).unwrap_or_default();
            self.mon.check("C10", "other claims untouched", (kind, rest.len() / 8), got == rest, || format!("{u}: {} claims left instead of {}", got.len(), rest.len()));
        }
        true
    }

    // ---- many members named at creation or imported ------------------------------------------
    fn multisig(&mut self) {
        let n = self.many();
        let mut w: BTreeMap<String, u128> = BTreeMap::new();
        for i in 0..n {
            w.insert(format!("v{:03}", (i * 71) % 887), self.r.range(1, 50) as u128);
        }
        let req = if self.r.chance(1, 2) {
            let l: Vec<Value> = w.iter().map(|(u, x)| json!({"user": u, "weight": x.to_string()})).collect();
            request("many", json!({"new_multisig": {"multisig_members": l}}))
        } else {
            let l: Vec<Value> = w.iter().map(|(u, x)| json!({"addr": u, "weight": *x as u64})).collect();
            let cw3 = self.b.c.instantiate("rec", self.b.codes.recorder, &json!({}), "cw3", None).unwrap();
            self.b.c.execute("rec", &cw3, &json!({"set": {"voters": l}}), &[]);
            self.b.c.execute("rec", &cw3, &json!({"set": {"list_voters": {"voters": []}}}), &[]);
            request("many", json!({"import_cw3": {"cw3_contract": cw3}}))
        };
        let cw3 = req["dao_membership"]["import_cw3"].is_object();
        let d = match Lite::with(&self.b, "boss", req) {
            Ok(d) => d,
            Err(e) => {
                self.mon.check("C20", "valid dao creation accepted", cw3, false, || e);
                return;
            }
        };
        let mem = d.c("membership").to_string();
        self.mon.step += 1;
        let live: BTreeSet<String> = w.keys().cloned().collect();
        self.listing("members", &mem, "members", json!({}), "members", &|v| v["user"].clone(), &|v| st(&v["user"]), &live, &["C20", "C11"]);
        // many lose their weight at once, many of them neighbours
        if self.r.chance(1, 2) {
            let l: Vec<String> = w.keys().cloned().collect();
            let from = self.r.idx(l.len());
            let k = if self.r.chance(1, 3) { 2 } else { 40 };
            let gone: Vec<String> = l[from..].iter().take(k).filter(|_| self.r.chance(9, 10)).cloned().collect();
            if gone.len() < l.len() && !gone.is_empty() {
                let m: Vec<Value> = gone.iter().map(|u| json!({"user": u, "weight": "0"})).collect();
                let ctrl = d.c("controller").to_string();
                let tx = self.b.c.execute(&ctrl, &mem, &json!({"update_members": {"update_members": m}}), &[]);
                if !self.ran("C11", "many lose their weight", &tx) {
                    return;
                }
                for u in &gone {
                    w.insert(u.clone(), 0);
                }
                let live: BTreeSet<String> = w.iter().filter(|x| *x.1 > 0).map(|x| x.0.clone()).collect();
                let key = |v: &Value| if uint(&v["weight"]) == 0 { String::new() } else { st(&v["user"]) };
                for _ in 0..2 {
                    self.listing("members", &mem, "members", json!({}), "members", &|v| v["user"].clone(), &key, &live, &["C11"]);
                }
            }
        }
        let total: u128 = w.values().sum();
        let got = self.b.c.q(&mem, json!({"total_weight": {"expiration": {"never": {}}}})).map(|v| uint(&v["total_weight"])).unwrap_or(0);
        for t in ["C11", "C20"] {
            self.mon.check(t, "total of many", (w.len() / 5, cw3), total == got, || format!("total weight {got}, the {} members have {total}", w.len()));
        }
        for (u, x) in &w {
            let g = self.b.c.q(&mem, json!({"user_weight": {"user": u}})).map(|v| uint(&v["weight"])).unwrap_or(u128::MAX);
            self.mon.check("C20", "weight of many", (w.len() / 5, cw3), g == *x, || format!("{u} has weight {g}, named with {x}"));
        }
        self.facade(&d, Kind::Multisig, w.keys().cloned().collect(), &[], 0);
        // rewards follow the initial weights
        self.b.c.mint("donor", GLOBAL_DENOM, 1_000_000);
        let tx = self.b.c.execute("donor", d.c("distributor"), &json!({"distribute_native": {}}), &[coin(total * 3, GLOBAL_DENOM)]);
        if self.ran("C13", "distribute", &tx) {
            for (u, x) in &w {
                let g = self
                    .b
                    .c
                    .q(d.c("distributor"), json!({"user_rewards": {"user": u, "native_denoms": [GLOBAL_DENOM], "cw20_assets": []}}))
                    .map(|v| uint(&v["native_rewards"][0]["amount"]))
                    .unwrap_or(u128::MAX);
                for t in ["C13", "C20"] {
                    self.mon.check(t, "first distribution", (w.len() / 5, cw3), g == x * 3, || format!("{u} of weight {x} gets {g} of {} to {total}", total * 3));
                }
            }
        }
    }

    // ---- many DAOs ---------------------------------------------------------------------------
    fn daos(&mut self) {
        let n = self.many().min(110);
        let mut want: BTreeMap<String, String> = BTreeMap::new();
        for i in 1..=n {
            match Lite::new(&self.b, "boss") {
                Ok(d) => {
                    self.mon.step += 1;
                    want.insert(i.to_string(), d.c("treasury").to_string());
                }
                Err(e) => return self.mon.fail("C20", "valid dao creation accepted", e),
            }
        }
        let set: BTreeSet<String> = want.iter().map(|(k, v)| format!("{k}:{v}")).collect();
        let f = self.b.factory.clone();
        self.listing("daos", &f, "all_daos", json!({}), "daos", &|v| v["dao_id"].clone(), &|v| format!("{}:{}", st(&v["dao_id"]), st(&v["dao_address"])), &set, &["C20"]);
    }

    // ---- deposits of many NFTs, held and settled ---------------------------------------------
    fn deposits(&mut self) {
        let n = self.many().min(90).max(2);
        let ids: Vec<String> = (0..n).map(|i| if i % 2 == 0 { format!("{}", i * 13) } else { format!("n-{i:03}") }).collect();
        let mut toks: Vec<(String, String)> = ids.iter().map(|i| (i.clone(), "carol".to_string())).collect();
        let (mut a, mut b) = (vec![], vec![]);
        for i in 0..6 {
            a.push(format!("a{i}"));
            toks.push((format!("a{i}"), "alice".into()));
        }
        for i in 0..3 {
            b.push(format!("b{i}"));
            toks.push((format!("b{i}"), "bobby".into()));
        }
        toks.push(("c".into(), "carol".into()));
        let coll = new_cw721(&self.b.c, self.b.codes.cw721, "coll", &toks);
        let mut req = request("deposits", json!({"import_cw721": {"cw721_contract": coll, "unlocking_period": {"time": 2000}}}));
        let min = self.r.below(4).min(n);
        req["gov_config"] = json!({"quorum": "0.5", "threshold": "0.5", "veto_threshold": "0.3", "vote_duration": 100, "minimum_deposit": if min == 0 { Value::Null } else { json!(min.to_string()) }, "allow_early_proposal_execution": self.r.chance(1, 2)});
        let d = match Lite::with(&self.b, "alice", req) {
            Ok(d) => d,
            Err(e) => return self.mon.fail("C20", "valid dao creation accepted", e),
        };
        let (mem, ctrl, tre) = (d.c("membership").to_string(), d.c("controller").to_string(), d.c("treasury").to_string());
        let mut at: BTreeMap<String, String> = toks.iter().cloned().collect();
        for (t, u) in toks.iter().rev().take(10).cloned().collect::<Vec<_>>() {
            let tx = self.b.c.dispatch(&u, vec![nft_send(&coll, &mem, &t, json!({"stake": {"user": u}}))]);
            if !self.ran("C09", "stake", &tx) {
                return;
            }
            at.insert(t, mem.clone());
        }
        self.b.c.advance(1, 5_000_000_000);
        // several proposals at once, each with its own part of the tokens
        let turns = self.r.range(1, 3);
        for _ in 0..turns {
            let mut free: Vec<String> = at.iter().filter(|x| x.1 == "carol").map(|x| x.0.clone()).collect();
            if self.r.chance(1, 2) {
                free.reverse();
            }
            let mut open: Vec<(u64, Vec<String>, String, u64)> = vec![];
            let k = self.r.range(1, 3);
            for _ in 0..k {
                let most = free.len() as u64;
                if most < min.max(1) {
                    break;
                }
                let take = if self.r.chance(1, 2) { most } else { self.r.range(min.max(1), most) };
                let mine: Vec<String> = free.drain(..take as usize).collect();
                let owner = self.r.pick_c(&[None, Some("dave"), Some("alice"), Some("carol")]);
                let mut ms: Vec<_> = mine.iter().map(|t| ex(&coll, json!({"approve": {"spender": ctrl, "token_id": t, "expires": null}}), &[])).collect();
                let p = json!({"title": "t", "description": null, "proposal_actions": [], "deposit_owner": owner});
                ms.push(ex(&ctrl, json!({"create_proposal_with_nft_deposit": {"create_proposal_msg": p, "deposit_tokens": mine}}), &[]));
                let tx = self.b.c.dispatch("carol", ms);
                if !self.ran("C06", &format!("create with a deposit of {take} nfts"), &tx) {
                    return;
                }
                let id: u64 = tx.attr("proposal_id").and_then(|s| s.parse().ok()).unwrap_or(0);
                for t in &mine {
                    at.insert(t.clone(), ctrl.clone());
                }
                self.whose(&coll, &at, "held", take);
                let how = self.r.below(5);
                open.push((id, mine, owner.unwrap_or("carol").to_string(), how));
            }
            for (id, mine, _, how) in &open {
                let (who, out) = match how {
                    0 => ("alice", "yes"),
                    1 => ("alice", "no"),
                    2 => ("alice", "veto"),
                    3 => ("bobby", "yes"),
                    _ => continue,
                };
                let tx = self.b.c.execute(who, &ctrl, &json!({"cast_vote": {"proposal_id": id, "outcome": out}}), &[]);
                if !self.ran("C01", &format!("vote {out} by {who} on {id} with {} nfts", mine.len()), &tx) {
                    return;
                }
            }
            self.b.c.advance(20, 101_000_000_000);
            if self.r.chance(1, 2) {
                open.reverse();
            }
            for (id, mine, owner, how) in open {
                let tx = self.b.c.execute("anybody", &ctrl, &json!({"execute_proposal": {"proposal_id": id}}), &[]);
                if !self.ran("C05", &format!("settle {id} with {} nfts", mine.len()), &tx) {
                    return;
                }
                // passed, refused | vetoed, no quorum, nobody voted
                let to = if how < 2 { owner } else { tre.clone() };
                for t in &mine {
                    at.insert(t.clone(), to.clone());
                }
                self.whose(&coll, &at, ["passed", "refused", "vetoed", "no quorum", "no votes"][how as usize], mine.len() as u64);
                // a second time changes nothing
                let tx = self.b.c.execute("anybody", &ctrl, &json!({"execute_proposal": {"proposal_id": id}}), &[]);
                self.note("settle again", &tx);
                self.whose(&coll, &at, "settled again", mine.len() as u64);
            }
        }
    }
    fn whose(&mut self, coll: &str, at: &BTreeMap<String, String>, when: &'static str, k: u64) {
        let mut bad = vec![];
        for (t, u) in at {
            let g = self.b.c.q(coll, json!({"owner_of": {"token_id": t}})).map(|v| st(&v["owner"])).unwrap_or_default();
            if g != *u {
                bad.push(format!("{t} is with {g} instead of {u}"));
            }
        }
        self.mon.check("C05", "deposit of many nfts", (when, k / 3), bad.is_empty(), || format!("deposit of {k} nfts, {when}: {} tokens are elsewhere: {:?}", bad.len(), bad.iter().take(3).collect::<Vec<_>>()));
    }

    // ---- decisions with long lists -----------------------------------------------------------
    fn decisions(&mut self) {
        let nn = self.r.range(1, 25) as usize;
        let nc = self.r.range(1, 14) as usize;
        let ns: Vec<String> = (0..nn).map(|i| format!("ucoin{i:02}")).collect();
        let cs: Vec<String> = (0..nc).map(|i| new_cw20(&self.b.c, self.b.codes.cw20, &format!("tok{i}"), &[("whale".to_string(), 1_000_000_000_000)])).collect();
        let mut all: Vec<(Value, String)> = ns.iter().map(|x| (json!({ "native": x }), x.clone())).collect();
        all.extend(cs.iter().map(|x| (json!({ "cw20": x }), x.clone())));
        let (wa, wb) = (self.r.range(1, 9), self.r.range(1, 9));
        let boss = "alice";
        let mut req = request("decisions", json!({"new_multisig": {"multisig_members": [{"user": boss, "weight": wa.to_string()}, {"user": "bobby", "weight": wb.to_string()}]}}));
        req["asset_whitelist"] = Value::Array(all.iter().map(|x| x.0.clone()).collect());
        req["gov_config"]["threshold"] = json!("0.5");
        let d = match Lite::with(&self.b, boss, req) {
            Ok(d) => d,
            Err(e) => return self.mon.fail("C20", "valid dao creation accepted", e),
        };
        let (ctrl, tre, dis) = (d.c("controller").to_string(), d.c("treasury").to_string(), d.c("distributor").to_string());
        let rec = self.b.c.instantiate("rec", self.b.codes.recorder, &json!({}), "rec", None).unwrap();
        let start = 1_000_000u128;
        for x in &ns {
            self.b.c.mint(&tre, x, start);
        }
        for x in &cs {
            let tx = self.b.c.execute("whale", x, &json!({"transfer": {"recipient": tre, "amount": start.to_string()}}), &[]);
            if !tx.ok {
                return;
            }
        }
        // asset -> what the treasury, the distributor and the recipient have
        let mut have: BTreeMap<String, [u128; 3]> = all.iter().map(|x| (x.1.clone(), [start, 0, 0])).collect();
        let mut paid: BTreeMap<String, [u128; 2]> = BTreeMap::new();
        let mut rounds: BTreeMap<String, u128> = BTreeMap::new();
        let mut logged: Vec<Value> = vec![];
        let mut serial = 0u64;
        let turns = self.r.range(2, 5);
        for _ in 0..turns {
            let mut acts: Vec<Value> = vec![];
            let mut what = vec![];
            let na = self.r.range(1, 4);
            for _ in 0..na {
                match self.r.below(4) {
                    // many assets at once to the members
                    0 => {
                        let mut l: Vec<Value> = vec![];
                        let p = self.r.range(1, 4);
                        for (a, name) in &all {
                            if self.r.chance(p, 4) {
                                let x = self.r.range(1, 20_000) as u128;
                                l.push(json!({"info": a, "amount": x.to_string()}));
                                let e = have.get_mut(name).unwrap();
                                e[0] -= x;
                                e[1] += x;
                                *rounds.entry(name.clone()).or_default() += 1;
                            }
                        }
                        if self.r.chance(1, 2) {
                            l.reverse();
                        }
                        if l.is_empty() {
                            continue;
                        }
                        what.push(("distribute", l.len() as u64));
                        acts.push(json!({"distribute_funds": {"funds": l}}));
                    }
                    // many assets, some repeated, to one recipient
                    1 => {
                        let k = self.r.range(1, 40);
                        let mut l = vec![];
                        for _ in 0..k {
                            let (a, name) = self.r.pick_c(&all);
                            let x = self.r.range(1, 1000) as u128;
                            l.push(json!({"info": a, "amount": x.to_string()}));
                            let e = have.get_mut(&name).unwrap();
                            e[0] -= x;
                            e[2] += x;
                        }
                        what.push(("funding", k));
                        acts.push(json!({"request_funding_from_dao": {"remote_treasury_target": null, "recipient": "grace", "assets": l}}));
                    }
                    // a long list of messages, sent by one of the DAO's contracts
                    k => {
                        let m = self.r.range(1, 60);
                        let (kind, by) = if k == 2 { ("execute_msgs", &ctrl) } else { ("execute_treasury_msgs", &tre) };
                        let mut l = vec![];
                        for _ in 0..m {
                            serial += 1;
                            let msg = json!({"note": {"n": serial}});
                            let mut funds = vec![];
                            if k == 3 && self.r.chance(1, 4) {
                                let x = self.r.pick_c(&ns);
                                let amt = self.r.range(1, 500) as u128;
                                have.get_mut(&x).unwrap()[0] -= amt;
                                funds.push(json!({"denom": x, "amount": amt.to_string()}));
                            }
                            let s = json!({"wasm": {"execute": {"contract_addr": rec, "msg": b64(&msg), "funds": funds}}});
                            l.push(json!(s.to_string()));
                            logged.push(json!({"sender": by, "msg": msg, "funds": funds}));
                        }
                        what.push((if k == 2 { "messages" } else { "treasury messages" }, m));
                        let mut a = json!({"action_type": "x", "msgs": l});
                        if k == 3 {
                            a["remote_treasury_target"] = Value::Null;
                        }
                        acts.push(json!({ kind: a }));
                    }
                }
            }
            let id = {
                let tx = self.b.c.execute(boss, &ctrl, &json!({"create_proposal": {"title": "t", "description": null, "proposal_actions": acts, "deposit_owner": null}}), &[]);
                if !self.ran("C06", &format!("create {what:?}"), &tx) {
                    return;
                }
                tx.attr("proposal_id").and_then(|s| s.parse::<u64>().ok()).unwrap_or(0)
            };
            for u in [boss, "bobby"] {
                let tx = self.b.c.execute(u, &ctrl, &json!({"cast_vote": {"proposal_id": id, "outcome": "yes"}}), &[]);
                if !self.ran("C01", "vote", &tx) {
                    return;
                }
            }
            self.b.c.advance(20, 101_000_000_000);
            let tx = self.b.c.execute("anybody", &ctrl, &json!({"execute_proposal": {"proposal_id": id}}), &[]);
            if !self.ran("C04", &format!("execute {what:?}"), &tx) {
                return;
            }
            let bucket: Vec<(&str, u64)> = what.iter().map(|x| (x.0, x.1 / 4)).collect();
            let log = list(&self.b.c.q(&rec, json!({"log": {}})).unwrap_or(Value::Null));
            let at = (0..log.len().max(logged.len())).find(|i| log.get(*i).map_or(true, |g| logged.get(*i).map_or(true, |e| !jeq(g, e))));
            for p in ["C04", "C17"] {
                self.mon.check(p, "messages of a long list", &bucket, at.is_none(), || {
                    let i = at.unwrap_or(0);
                    format!("{what:?}: {} messages arrived of {}; the first difference is number {i}: {:?} instead of {:?}", log.len(), logged.len(), log.get(i), logged.get(i))
                });
            }
            let mut bad = vec![];
            for (_, name) in &all {
                let g = [self.has(&tre, name), self.has(&dis, name) + paid.get(name).map_or(0, |x| x[0] + x[1]), self.has("grace", name)];
                if g != have[name] {
                    bad.push(format!("{name}: {g:?} instead of {:?}", have[name]));
                }
            }
            for p in ["C04", "C17", "C13"] {
                self.mon.check(p, "assets of a long list", &bucket, bad.is_empty(), || format!("{what:?}: treasury, distributor, recipient hold of {} assets something else: {:?}", bad.len(), bad.iter().take(3).collect::<Vec<_>>()));
            }
            // what the members may take, and take
            let who = self.r.idx(2);
            let (u, w) = if who == 0 { (boss, wa) } else { ("bobby", wb) };
            let v = self.b.c.q(&dis, json!({"user_rewards": {"user": u, "native_denoms": ns, "cw20_assets": cs}})).unwrap_or(Value::Null);
            let mut g: BTreeMap<String, u128> = BTreeMap::new();
            for x in list(&v["native_rewards"]) {
                g.insert(st(&x["denom"]), uint(&x["amount"]));
            }
            for x in list(&v["cw20_rewards"]) {
                g.insert(st(&x["asset"]), uint(&x["amount"]));
            }
            let mut bad = vec![];
            for (_, name) in &all {
                let k = rounds.get(name).copied().unwrap_or(0);
                // each distribution and each claim may lose a fraction
                let fair = have[name][1] * w as u128 / (wa + wb) as u128 - paid.get(name).map_or(0, |x| x[who]).min(have[name][1] * w as u128 / (wa + wb) as u128);
                let x = g.get(name).copied().unwrap_or(0);
                if x > fair || x + k + 5 < fair {
                    bad.push(format!("{name}: {x}, fair is {fair}"));
                }
            }
            self.mon.check("C13", "rewards in many assets", (nn / 3, nc / 3), bad.is_empty(), || format!("rewards of {u}: {:?}", bad.iter().take(3).collect::<Vec<_>>()));
            if self.r.chance(2, 3) {
                let before: Vec<u128> = all.iter().map(|x| self.has(u, &x.1)).collect();
                let tx = self.b.c.execute(u, &dis, &json!({"claim_rewards": {"user": u, "native_denoms": ns, "cw20_assets": cs}}), &[]);
                if !self.ran("C13", "claim rewards in many assets", &tx) {
                    return;
                }
                let mut bad = vec![];
                for (i, (_, name)) in all.iter().enumerate() {
                    let got = self.has(u, name) - before[i];
                    if got != g.get(name).copied().unwrap_or(0) {
                        bad.push(format!("{name}: {got} paid instead of {:?}", g.get(name)));
                    }
                    paid.entry(name.clone()).or_default()[who] += got;
                }
                self.mon.check("C13", "many assets paid", (nn / 3, nc / 3), bad.is_empty(), || format!("claim of {u}: {:?}", bad.iter().take(3).collect::<Vec<_>>()));
            }
        }
    }
    fn has(&self, who: &str, asset: &str) -> u128 {
        if asset.starts_with("ucoin") {
            self.b.c.balance(who, asset)
        } else {
            self.b.c.q(asset, json!({"balance": {"address": who}})).map(|v| uint(&v["balance"])).unwrap_or(u128::MAX)
        }
    }
}

const OUT: [&str; 4] = ["yes", "no", "abstain", "veto"];

fn floor(acc: &mut BTreeMap<String, (u128, u128)>, who: Option<&str>) {
    for (u, e) in acc.iter_mut() {
        if who.map_or(true, |w| w == u) {
            e.0 = e.0 / 1_000_000_000 * 1_000_000_000;
        }
    }
}
