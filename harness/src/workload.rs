//! Randomised, hostile workload over several DAOs sharing members and assets.
use crate::model::*;
use crate::mon::Rng;
use crate::world::*;
use cosmwasm_std::{BankMsg, CosmosMsg};
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub const USERS: [&str; 9] = ["alice", "bobby", "carol", "david", "erin", "frank", "gracie", "heidi", "mallory"];

fn boost(focus: &str) -> (&'static [&'static str], &'static [Kind]) {
    use Kind::*;
    match focus {
        "C01" => (&["vote", "council_vote", "stake", "unstake", "create"], &[]),
        "C02" => (&["settle", "vote", "execute", "create", "time", "create_council", "council_vote"], &[]),
        "C03" => (&["execute", "vote", "time", "create", "exec_now", "flip"], &[]),
        "C04" => (&["create", "vote", "execute", "pass"], &[]),
        "C05" => (&["settle", "create_deposit", "approve", "pass", "execute", "time", "vote"], &[Token, Denom, Nft]),
        "C06" => (&["create", "create_bad", "create_deposit", "approve"], &[]),
        "C07" => (&["create_council", "council_vote", "pass_council", "execute", "create_bad"], &[]),
        "C08" => (&["hostile", "fake"], &[]),
        "C09" => (&["stake", "unstake", "claim", "stake_odd", "fake"], &[Token, Denom, Nft]),
        "C10" => (&["unstake", "claim", "time", "stake", "pass", "laps"], &[Token, Denom, Nft]),
        "C11" => (&["stake", "unstake", "pass", "time", "members"], &[]),
        "C12" => (&["stake", "unstake", "vote", "members", "distribute", "fault", "hook"], &[]),
        "C13" => (&["distribute", "claim_rewards", "stake", "unstake", "members"], &[]),
        "C14" => (&["distribute", "claim_rewards", "min", "stake", "unstake"], &[]),
        "C15" => (&["wl", "distribute"], &[]),
        "C16" => (&["sign", "att", "create", "vote", "execute", "stake", "claim_rewards", "unstake", "claim"], &[]),
        "C17" => (&["spend", "donate", "hostile", "pass"], &[]),
        "C24" => (&["vote", "time", "execute", "create", "stake", "unstake"], &[]),
        "C26" => (&["gov", "meta", "att", "pass"], &[]),
        _ => (&[], &[]),
    }
}

const QS: [u128; 9] = [1, 10_000_000_000_000_000, 100_000_000_000_000_000, 250_000_000_000_000_000, 333_333_333_333_333_333, 400_000_000_000_000_000, 500_000_000_000_000_000, 750_000_000_000_000_000, ONE];
const TS: [u128; 8] = [50_000_000_000_000_000, 250_000_000_000_000_000, 333_333_333_333_333_333, 500_000_000_000_000_000, 500_000_000_000_000_000, 510_000_000_000_000_000, 666_666_666_666_666_667, ONE];

/// two of them differ only by what follows the staked one's name
pub const DENOMS: [&str; 6] = ["ustake", "uother", "ureward", GLOBAL_DENOM, "ustake2", "ustak"];

pub fn rand_gov(r: &mut Rng, kind: Kind, scale: u128) -> Gov {
    Gov {
        quorum: r.pick_c(&QS),
        threshold: r.pick_c(&TS),
        veto: if r.chance(1, 2) { Some(r.pick_c(&TS)) } else { None },
        duration: r.pick_c(&[1u64, 10, 60, 95, 600, 3600]),
        min_deposit: if kind != Kind::Multisig && r.chance(2, 5) {
            Some(if kind == Kind::Nft { r.range(1, 2) as u128 } else { scale * r.range(1, 3) as u128 })
        } else {
            None
        },
        early: r.chance(1, 2),
    }
}

pub fn rand_unlocking(r: &mut Rng, d: u64) -> Dur {
    match r.below(4) {
        0 => Dur::Time(d),
        1 => Dur::Time(d + r.below(100)),
        2 => Dur::Time(d * 3),
        _ => Dur::Height(r.range(1, 8)),
    }
}

pub const COUNCIL_POOL: [&str; 5] = COUNCIL_ALLOWED;

pub fn rand_council(r: &mut Rng, users: &[String]) -> Value {
    let n = r.idx(5);
    let mut ms: Vec<String> = vec![];
    for _ in 0..n {
        let u = r.pick_c(users);
        if !ms.contains(&u) {
            ms.push(u);
        }
    }
    let mut al: Vec<&str> = vec![];
    for a in COUNCIL_POOL {
        if r.chance(3, 5) {
            al.push(a);
        }
    }
    json!({"members": ms, "quorum": dec_str(r.pick_c(&QS)), "threshold": dec_str(r.pick_c(&TS)),
        "allowed_proposal_action_types": match r.below(12) {
            0 | 1 => Value::Null,
            2 | 3 => json!([]),
            _ => json!(al),
        }})
}

pub struct Gen {
    pub w: World,
    pub scale: u128,
    pub focus: &'static str,
}

pub fn make_world(focus: &'static str, seed: u64) -> Gen {
    let b = base();
    let mut w = World::from_base(b, focus, seed);
    let mut r = Rng::new(seed ^ 0x5151);
    let users: Vec<String> = USERS.iter().map(|s| s.to_string()).collect();
    let scale: u128 = r.pick_c(&[1u128, 1, 7, 1000, 1_000_000, 1_000_000_000_007]);
    for u in &users {
        for d in DENOMS {
            w.c.mint(u, d, scale * 10_000);
        }
    }
    let bal: Vec<(String, u128)> = users.iter().map(|u| (u.clone(), scale * 10_000)).collect();
    let a = new_cw20(&w.c, w.codes.cw20, "tokena", &bal);
    let bb = new_cw20(&w.c, w.codes.cw20, "tokenb", &bal);
    let ids = |n: usize, r: &mut Rng| -> Vec<(String, String)> {
        (0..n)
            .map(|i| {
                let id = match i % 3 {
                    0 => format!("{i}"),
                    1 => format!("n{i}"),
                    _ => format!("token-{i}"),
                };
                (id, r.pick_c(&users))
            })
            .collect()
    };
    let many = r.chance(1, 4);
    let mut t1 = ids(if many { 70 } else { 30 }, &mut r);
    if many {
        // two hoarders
        for (i, t) in t1.iter_mut().enumerate() {
            if i % 3 != 0 {
                t.1 = users[i % 2].clone();
            }
        }
    }
    let t2 = ids(12, &mut r);
    let n1 = new_cw721(&w.c, w.codes.cw721, "nfta", &t1);
    let n2 = new_cw721(&w.c, w.codes.cw721, "nftb", &t2);
    let recs: Vec<String> = (0..2).map(|i| w.c.instantiate("rec", w.codes.recorder, &json!({}), &format!("rec{i}"), None).unwrap()).collect();
    w.users = users.clone();
    w.denoms = DENOMS.iter().map(|s| s.to_string()).collect();
    w.cw20s = vec![a.clone(), bb.clone()];
    w.cw721s = vec![n1.clone(), n2.clone()];
    w.recs = recs.clone();
    w.m.cw20s = w.cw20s.iter().cloned().collect();
    w.m.cw721s = w.cw721s.iter().cloned().collect();
    w.m.recorders = recs.iter().cloned().collect();
    w.m.global_wl.insert(nat(GLOBAL_DENOM));
    w.m.versions.insert((1, 0, 0));
    let pref = boost(focus).1;
    let n = r.range(2, 3) as usize;
    let mut kinds: Vec<Kind> = vec![];
    for i in 0..n {
        let all = [Kind::Token, Kind::Denom, Kind::Nft, Kind::Multisig];
        let k = if i == 0 && !pref.is_empty() {
            r.pick_c(pref)
        } else if i == 1 && r.chance(1, 2) {
            kinds[0]
        } else if i == 0 {
            all[(seed % 4) as usize]
        } else {
            r.pick_c(&all)
        };
        kinds.push(k);
    }
    for (i, k) in kinds.iter().enumerate() {
        let g = rand_gov(&mut r, *k, scale);
        let ul = dur_json(&rand_unlocking(&mut r, g.duration));
        let mem = match k {
            Kind::Token => json!({"import_cw20": {"cw20_contract": if r.chance(3, 4) { &a } else { &bb }, "unlocking_period": ul}}),
            Kind::Denom => json!({"new_denom": {"denom": "ustake", "unlocking_period": ul}}),
            Kind::Nft => json!({"import_cw721": {"cw721_contract": if r.chance(3, 4) { &n1 } else { &n2 }, "unlocking_period": ul}}),
            Kind::Multisig => {
                let mut ms = vec![];
                for u in users.iter().take(8) {
                    if r.chance(2, 3) {
                        ms.push(json!({"user": u, "weight": (scale * r.range(1, 9) as u128).to_string()}));
                    }
                }
                if ms.is_empty() {
                    ms.push(json!({"user": "alice", "weight": "1"}));
                }
                json!({"new_multisig": {"multisig_members": ms}})
            }
        };
        let att = if focus == "C16" { r.chance(3, 4) } else { r.chance(1, 4) };
        let council = focus == "C07" || r.chance(1, 2);
        let mut wl = vec![];
        for x in [json!({"native": "ustake"}), json!({"native": "uother"}), json!({"cw20": a}), json!({"cw20": bb})] {
            if r.chance(1, 2) {
                wl.push(x);
            }
        }
        let msg = json!({
            "dao_metadata": metadata(&format!("dao {i}")),
            "gov_config": gov_json(&g),
            "dao_council": if council { rand_council(&mut r, &users[..8]) } else { Value::Null },
            "dao_membership": mem,
            "asset_whitelist": wl,
            "nft_whitelist": [n2],
            "minimum_weight_for_rewards": if r.chance(1, 2) { json!((scale * r.below(4) as u128).to_string()) } else { Value::Null },
            "cross_chain_treasuries": null,
            "attestation_text": if att { json!(format!("text {i}")) } else { Value::Null },
        });
        match w.create_dao("creator", &msg) {
            Ok(ent) => {
                w.track(&ent);
            }
            Err(e) => {
                w.mon.fail("C20", "valid dao creation accepted", format!("{e}: {msg}"));
                w.void = true;
                break;
            }
        }
        w.c.advance(r.range(0, 2), r.below(3) * 1_000_000_000);
    }
    // treasuries get something to spend
    for d in w.m.daos.clone() {
        let t = d.c("treasury");
        for den in DENOMS {
            w.c.mint(t, den, scale * 1000);
        }
        for c in [&a, &bb] {
            w.c.execute("heidi", c, &json!({"transfer": {"recipient": t, "amount": (scale * 500).to_string()}}), &[]);
        }
    }
    w.load_balances();
    // some NFTs into the treasuries
    let mut g = Gen { w, scale, focus };
    for i in 0..g.w.m.daos.len() {
        let t = g.w.m.daos[i].c("treasury").to_string();
        let owned: Vec<((String, String), String)> = g.w.m.nft.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
        if owned.is_empty() {
            continue;
        }
        let ((c, id), o) = owned[g.w.rng.idx(owned.len())].clone();
        if USERS.contains(&o.as_str()) {
            g.w.step(Op {
                name: "donate nft".into(),
                tags: vec!["C17"],
                sender: o,
                msgs: vec![ex(&c, json!({"transfer_nft": {"recipient": t, "token_id": id}}), &[])],
                dao: Some(i),
                fault: None,
            });
        }
    }
    g.warm_up();
    g
}

fn bank(to: &str, d: &str, a: u128) -> CosmosMsg {
    CosmosMsg::Bank(BankMsg::Send {
        to_address: to.to_string(),
        amount: coins_of(&[(d, a)]),
    })
}

impl Gen {
    fn r(&mut self) -> &mut Rng {
        &mut self.w.rng
    }
    fn user(&mut self) -> String {
        let n = if self.w.rng.chance(1, 10) { 9 } else { 8 };
        USERS[self.w.rng.idx(n)].to_string()
    }
    fn amt(&mut self, max: u128) -> u128 {
        let s = self.scale;
        match self.w.rng.below(10) {
            0 => 1,
            1 => max,
            2 => max.saturating_add(1),
            3 => max / 2,
            _ => {
                let k = self.w.rng.range(1, 9) as u128;
                (s * k).min(max.max(1))
            }
        }
    }

    fn op(&self, name: &str, tags: &[&'static str], sender: &str, msgs: Vec<CosmosMsg>, dao: usize) -> Op {
        Op {
            name: name.to_string(),
            tags: tags.to_vec(),
            sender: sender.to_string(),
            msgs,
            dao: Some(dao),
            fault: None,
        }
    }

    fn warm_up(&mut self) {
        for di in 0..self.w.m.daos.len() {
            for u in USERS.iter().take(8) {
                if self.w.void {
                    return;
                }
                let d = &self.w.m.daos[di];
                if d.att && self.w.rng.chance(2, 3) {
                    let a = self.w.m.daos[di].c("attestation").to_string();
                    let op = self.op("sign", &["C16"], u, vec![ex(&a, json!({"sign_attestation": {}}), &[])], di);
                    self.w.step(op);
                }
                if self.w.rng.chance(2, 3) {
                    if let Some(op) = self.stake(di, Some(u)) {
                        self.w.step(op);
                    }
                }
            }
        }
    }

    // ---- operations --------------------------------------------------------------------------

    fn stake(&mut self, di: usize, who: Option<&str>) -> Option<Op> {
        let sender = match who {
            Some(u) => u.to_string(),
            None => self.user(),
        };
        let d = self.w.m.daos[di].clone();
        let mem = d.c("membership").to_string();
        let ben = if who.is_none() && self.r().chance(1, 4) { self.user() } else { sender.clone() };
        let msgs = match d.kind {
            Kind::Multisig => return None,
            Kind::Denom => {
                let have = self.w.m.b(&sender, &nat(&d.asset));
                let a = self.amt(have);
                let u = if ben == sender && self.r().chance(1, 2) { Value::Null } else { json!(ben) };
                vec![ex(&mem, json!({"stake": {"user": u}}), &[(&d.asset, a)])]
            }
            Kind::Token => {
                let have = self.w.m.b(&sender, &tok(&d.asset));
                let a = self.amt(have);
                if a == 0 {
                    return None;
                }
                if self.r().chance(1, 5) && a > 2 && who.is_none() {
                    // stakes for several users at once
                    let mut parts = vec![];
                    let mut left = a;
                    let k = self.r().range(1, 4);
                    for i in 0..k {
                        let x = if i + 1 == k { left } else { left / 2 };
                        left -= x;
                        let u = self.user();
                        parts.push(json!({"user": u, "staked_amount": x.to_string()}));
                    }
                    if self.r().chance(1, 6) {
                        let y = uint(&parts[0]["staked_amount"]);
                        let y = if self.r().chance(1, 2) { y + 1 } else { y.saturating_sub(1) };
                        parts[0]["staked_amount"] = json!(y.to_string());
                    }
                    vec![cw20_send(&d.asset, &mem, a, json!({"add_stakes": {"stakers": parts}}))]
                } else {
                    vec![cw20_send(&d.asset, &mem, a, json!({"stake": {"user": ben}}))]
                }
            }
            Kind::Nft => {
                let mine: Vec<String> = self
                    .w
                    .m
                    .nft
                    .iter()
                    .filter(|(k, v)| k.0 == d.asset && v.0 == sender)
                    .map(|(k, _)| k.1.clone())
                    .collect();
                if mine.is_empty() {
                    return None;
                }
                let n = self.r().range(1, 3).min(mine.len() as u64);
                let s = self.r().idx(mine.len());
                (0..n as usize)
                    .map(|i| nft_send(&d.asset, &mem, &mine[(s + i) % mine.len()], json!({"stake": {"user": ben}})))
                    .collect()
            }
        };
        Some(self.op("stake", &["C09"], &sender, msgs, di))
    }

    fn stake_odd(&mut self, di: usize) -> Option<Op> {
        let sender = self.user();
        let d = self.w.m.daos[di].clone();
        let mem = d.c("membership").to_string();
        let msgs = match d.kind {
            Kind::Multisig => return None,
            Kind::Denom => match self.r().below(4) {
                0 => {
                    let den = self.r().pick_c(&["uother", "ustake2", "ustak"]);
                    vec![ex(&mem, json!({"stake": {"user": null}}), &[(den, 5)])]
                }
                1 => {
                    let den = self.r().pick_c(&["uother", "ustake2", "uglobal", "uzz"]);
                    if den == "uzz" {
                        self.w.c.mint(&sender, "uzz", 5);
                    }
                    let mut f = [(den, 5), (d.asset.as_str(), 7)];
                    // coins arrive sorted by name
                    f.sort();
                    vec![ex(&mem, json!({"stake": {"user": null}}), &f)]
                }
                2 => vec![ex(&mem, json!({"stake": {"user": null}}), &[])],
                _ => vec![ex(&mem, json!({"stake": {"user": null}}), &[(&d.asset, 3)]), ex(&mem, json!({"stake": {"user": null}}), &[(&d.asset, 4)])],
            },
            Kind::Token => {
                let foreign = self.w.cw20s.iter().find(|x| **x != d.asset).unwrap().clone();
                match self.r().below(3) {
                    0 => vec![cw20_send(&foreign, &mem, 5, json!({"stake": {"user": sender}}))],
                    1 => {
                        let now = self.w.c.now().nanos();
                        let t = now + self.r().below(50) * 1_000_000_000;
                        let u = self.user();
                        let bad: u128 = self.r().pick_c(&[4, 4, 4, 5, 3, 0]);
                        vec![cw20_send(&d.asset, &mem, 7, json!({"add_claims": {"claims": [
                            {"user": u, "claim_amount": "3", "release_at": {"timestamp": t.to_string()}},
                            {"user": sender, "claim_amount": bad.to_string(), "release_at": {"height": (self.w.c.height() + 2).to_string()}}]}}))]
                    }
                    _ => vec![
                        cw20_send(&d.asset, &mem, 5, json!({"stake": {"user": sender}})),
                        ex(&mem, json!({"unstake": {"amount": "3"}}), &[]),
                    ],
                }
            }
            Kind::Nft => {
                let us = self.w.users.clone();
                let pool: Vec<((String, String), String)> = self.w.m.nft.iter().filter(|x| us.contains(&x.1 .0)).map(|(k, v)| (k.clone(), v.0.clone())).collect();
                if pool.is_empty() {
                    return None;
                }
                let pick = pool[self.r().idx(pool.len())].clone();
                let ((coll, id), owner) = pick;
                match self.r().below(3) {
                    0 => vec![nft_send(&coll, &mem, &id, json!({"stake": {"user": sender}}))],
                    1 => {
                        let t = self.w.c.now().nanos() + self.r().below(30) * 1_000_000_000;
                        let op = vec![nft_send(&coll, &mem, &id, json!({"add_claim": {"user": sender, "release_at": {"timestamp": t.to_string()}}}))];
                        return Some(self.op("stake odd", &["C09"], &owner, op, di));
                    }
                    _ => {
                        let op = vec![nft_send(&coll, &mem, &id, json!({"stake": {"user": sender}}))];
                        return Some(self.op("stake odd", &["C09"], &owner, op, di));
                    }
                }
            }
        };
        Some(self.op("stake odd", &["C09"], &sender, msgs, di))
    }

    fn unstake(&mut self, di: usize) -> Option<Op> {
        let d = self.w.m.daos[di].clone();
        let mem = d.c("membership").to_string();
        let mut sender = self.user();
        if self.r().chance(3, 4) && !d.weights.is_empty() {
            let ks: Vec<String> = d.weights.keys().cloned().collect();
            sender = self.r().pick_c(&ks);
        }
        let msg = match d.kind {
            Kind::Multisig => return None,
            Kind::Nft => {
                let mine: Vec<String> = d.nft_stakes.get(&sender).map(|x| x.iter().cloned().collect()).unwrap_or_default();
                let all: Vec<String> = d.nft_stakes.values().flatten().cloned().collect();
                let mut ids = vec![];
                let n = self.r().range(1, 3);
                for _ in 0..n {
                    let src = if self.r().chance(6, 7) { &mine } else { &all };
                    if !src.is_empty() {
                        let x = src[self.w.rng.idx(src.len())].clone();
                        if !ids.contains(&x) || self.r().chance(1, 10) {
                            ids.push(x);
                        }
                    }
                }
                if ids.is_empty() {
                    ids.push("0".to_string());
                }
                json!({"unstake": {"nft_ids": ids}})
            }
            _ => {
                let a = self.amt(d.w(&sender));
                json!({"unstake": {"amount": a.to_string()}})
            }
        };
        Some(self.op("unstake", &["C09", "C10"], &sender, vec![ex(&mem, msg, &[])], di))
    }

    fn claim(&mut self, di: usize) -> Option<Op> {
        let d = self.w.m.daos[di].clone();
        if d.kind == Kind::Multisig {
            return None;
        }
        let mut sender = self.user();
        let ks: Vec<String> = d.claims.iter().filter(|x| !x.1.is_empty()).map(|x| x.0.clone()).collect();
        if self.r().chance(3, 4) && !ks.is_empty() {
            sender = self.r().pick_c(&ks);
        }
        let user = match self.r().below(5) {
            0 => Value::Null,
            1 if !ks.is_empty() => json!(self.r().pick_c(&ks)),
            _ => json!(sender),
        };
        let m = ex(d.c("membership"), json!({"claim": {"user": user}}), &[]);
        let n = if self.r().chance(1, 6) { 2 } else { 1 };
        Some(self.op("claim", &["C10"], &sender, vec![m; n], di))
    }

    fn asset(&mut self) -> Value {
        match self.r().below(7) {
            6 => json!({"native": "ustake2"}),
            0 => json!({"native": "ustake"}),
            1 => json!({"native": "uother"}),
            2 => json!({"native": "ureward"}),
            3 => json!({"native": GLOBAL_DENOM}),
            4 => json!({"cw20": self.w.cw20s[0]}),
            _ => json!({"cw20": self.w.cw20s[1]}),
        }
    }

    fn funds(&mut self, di: usize, max: usize) -> Vec<Value> {
        let t = self.w.m.daos[di].c("treasury").to_string();
        let mut seen = BTreeSet::new();
        let mut out = vec![];
        let n = self.r().range(1, max as u64);
        for _ in 0..n {
            let a = self.asset();
            let k = asset_key(&a).unwrap();
            if !seen.insert(k.clone()) {
                continue;
            }
            let have = self.w.m.b(&t, &k);
            let amount = match self.r().below(12) {
                0 => have,
                1 => have + 1,
                _ => (have / (self.r().range(3, 40) as u128)).max(1),
            };
            out.push(json!({"info": a, "amount": amount.max(1).to_string()}));
        }
        out
    }

    fn wasm_str(m: &CosmosMsg) -> Value {
        Value::String(serde_json::to_string(m).unwrap())
    }

    pub fn action(&mut self, di: usize, want: &str) -> Value {
        let d = self.w.m.daos[di].clone();
        let kinds = [
            "meta", "gov", "council", "wl", "nftwl", "spend", "msgs", "tmsgs", "emsgs", "members", "distribute", "min", "att", "upgrade", "hook",
        ];
        let k = if want.is_empty() { kinds[self.r().idx(kinds.len())] } else { want };
        match k {
            "meta" => {
                let mut m = json!({});
                for (i, f) in ["name", "description", "github_username", "discord_username", "twitter_username", "telegram_username"].iter().enumerate() {
                    m[f] = if self.r().chance(1, 3) {
                        let x = format!("v{}", self.r().below(1000));
                        if i >= 2 && self.r().chance(1, 3) {
                            json!({ "change": null })
                        } else {
                            json!({ "change": x })
                        }
                    } else {
                        json!("no_change")
                    };
                }
                m["logo"] = match self.r().below(3) {
                    0 => json!({"change": {"url": format!("http://x/{}", self.r().below(9))}}),
                    1 => json!({"change": "none"}),
                    _ => json!("no_change"),
                };
                json!({ "update_metadata": m })
            }
            "gov" => {
                let g = rand_gov(&mut self.w.rng, d.kind, self.scale);
                let nc = json!("no_change");
                let mut m = json!({"quorum": nc, "threshold": nc, "veto_threshold": nc, "voting_duration": nc, "unlocking_period": nc, "minimum_deposit": nc, "allow_early_proposal_execution": nc});
                if self.r().chance(1, 3) {
                    m["quorum"] = json!({"change": dec_str(g.quorum)});
                }
                if self.r().chance(1, 3) {
                    m["threshold"] = json!({"change": dec_str(g.threshold)});
                }
                if self.r().chance(1, 3) {
                    m["veto_threshold"] = json!({"change": g.veto.map(dec_str)});
                }
                if self.r().chance(1, 3) {
                    m["voting_duration"] = json!({"change": g.duration.to_string()});
                }
                if self.r().chance(1, 3) {
                    m["minimum_deposit"] = json!({"change": g.min_deposit.map(|x| x.to_string())});
                }
                if self.r().chance(1, 3) {
                    m["allow_early_proposal_execution"] = json!({ "change": g.early });
                }
                if self.r().chance(1, 3) && d.kind != Kind::Multisig {
                    let base = if m["voting_duration"].is_string() { d.gov.duration } else { g.duration };
                    let u = if self.r().chance(1, 6) { Dur::Time(base.saturating_sub(1)) } else { rand_unlocking(&mut self.w.rng, base) };
                    m["unlocking_period"] = json!({"change": dur_json(&u)});
                }
                json!({ "update_gov_config": m })
            }
            "unlock" => {
                let nc = json!("no_change");
                let mut m = json!({"quorum": nc, "threshold": nc, "veto_threshold": nc, "voting_duration": nc, "unlocking_period": nc, "minimum_deposit": nc, "allow_early_proposal_execution": nc});
                let base = d.gov.duration;
                let u = match self.r().below(4) {
                    0 => Dur::Time(base),
                    1 => Dur::Time(base * 10),
                    2 => Dur::Time(base * 40 + 7),
                    _ => Dur::Height(self.r().range(1, 20)),
                };
                if d.kind != Kind::Multisig {
                    m["unlocking_period"] = json!({"change": dur_json(&u)});
                }
                json!({ "update_gov_config": m })
            }
            "council" => {
                let us: Vec<String> = self.w.users[..8].to_vec();
                let c = if self.r().chance(1, 5) { Value::Null } else { rand_council(&mut self.w.rng, &us) };
                json!({"update_council": {"dao_council": c}})
            }
            "wl" => {
                let (mut add, mut rem, mut seen) = (vec![], vec![], BTreeSet::new());
                let n = if self.r().chance(1, 6) { self.r().range(5, 40) } else { self.r().range(1, 4) };
                for _ in 0..n {
                    let a = if self.r().chance(1, 3) { json!({"native": format!("u{}", self.w.rng.below(30))}) } else { self.asset() };
                    if seen.insert(a.to_string()) {
                        if self.r().chance(3, 5) {
                            add.push(a);
                        } else {
                            rem.push(a);
                        }
                    }
                }
                json!({"update_asset_whitelist": {"remote_treasury_target": null, "add": add, "remove": rem}})
            }
            "nftwl" => {
                let (mut add, mut rem, mut seen) = (vec![], vec![], BTreeSet::new());
                let n = self.r().range(1, 4);
                for _ in 0..n {
                    let a = if self.r().chance(1, 2) { format!("nftcoll{}", self.w.rng.below(9)) } else { self.w.cw721s[self.w.rng.idx(2)].clone() };
                    if seen.insert(a.clone()) {
                        if self.r().chance(3, 5) {
                            add.push(a);
                        } else {
                            rem.push(a);
                        }
                    }
                }
                json!({"update_nft_whitelist": {"remote_treasury_target": null, "add": add, "remove": rem}})
            }
            "spend" => {
                let to = match self.r().below(4) {
                    0 => "receiver1".to_string(),
                    1 => {
                        let i = self.w.rng.idx(self.w.m.daos.len());
                        self.w.m.daos[i].c("treasury").to_string()
                    }
                    _ => self.user(),
                };
                let mut f = self.funds(di, 3);
                if self.r().chance(1, 5) {
                    // a long list, assets repeated
                    let n = self.r().range(2, 16);
                    for _ in 0..n {
                        let a = self.asset();
                        let x = self.r().range(1, 3);
                        f.push(json!({"info": a, "amount": x.to_string()}));
                    }
                }
                json!({"request_funding_from_dao": {"remote_treasury_target": null, "recipient": to, "assets": f}})
            }
            "msgs" => {
                let ms = self.rec_msgs();
                json!({"execute_msgs": {"action_type": "x", "msgs": ms}})
            }
            "hook" => {
                let rec = self.w.recs[self.w.rng.idx(self.w.recs.len())].clone();
                let which = if self.r().chance(2, 3) { "add_weight_change_hook" } else { "remove_weight_change_hook" };
                let m = ex(d.c("membership"), json!({which: {"hook_addr": rec}}), &[]);
                json!({"execute_msgs": {"action_type": "hook", "msgs": [Self::wasm_str(&m)]}})
            }
            "setmembers" if d.kind == Kind::Multisig => {
                let mut ms = self.member_list();
                if self.r().chance(1, 6) && !ms.is_empty() {
                    // a repeated member: with the same weight or another one
                    let mut again = ms[0].clone();
                    if self.r().chance(1, 2) {
                        again["weight"] = json!("3");
                    }
                    ms.push(again);
                }
                let m = if self.r().chance(1, 3) {
                    ex(d.c("membership"), json!({"update_members": {"update_members": ms}}), &[])
                } else {
                    ex(d.c("membership"), json!({"set_members": {"new_members": ms}}), &[])
                };
                json!({"execute_msgs": {"action_type": "set members", "msgs": [Self::wasm_str(&m)]}})
            }
            "tmsgs" => {
                let t = d.c("treasury").to_string();
                let n = if self.r().chance(1, 6) { self.r().range(3, 14) } else { self.r().range(1, 2) };
                let mut ms: Vec<Value> = vec![];
                for _ in 0..n {
                    let x = self.r().below(3);
                    if x == 0 {
                        let u = self.user();
                        let a = self.w.m.b(&t, "n:uother") / 50 + 1;
                        ms.push(Self::wasm_str(&bank(&u, "uother", a)));
                    } else if x == 1 {
                        let mine: Vec<(String, String)> = self.w.m.nft.iter().filter(|x| x.1 .0 == t).map(|x| x.0.clone()).collect();
                        if !mine.is_empty() {
                            let (c, id) = mine[self.w.rng.idx(mine.len())].clone();
                            let u = self.user();
                            ms.push(Self::wasm_str(&ex(&c, json!({"transfer_nft": {"recipient": u, "token_id": id}}), &[])));
                        }
                    } else {
                        ms.push(self.rec_msg());
                    }
                }
                json!({"execute_treasury_msgs": {"remote_treasury_target": null, "action_type": "t", "msgs": ms}})
            }
            "emsgs" => {
                let ms = self.rec_msgs();
                json!({"execute_enterprise_msgs": {"action_type": "e", "msgs": ms}})
            }
            "members" | "setmembers" => {
                let ms = self.member_list();
                json!({"modify_multisig_membership": {"edit_members": ms}})
            }
            "distribute" => {
                let n = self.r().pick_c(&[2, 2, 5]);
                let f = self.funds(di, n);
                json!({"distribute_funds": {"funds": f}})
            }
            "min" => {
                let x = self.scale * self.r().below(6) as u128;
                json!({"update_minimum_weight_for_rewards": {"minimum_weight_for_rewards": x.to_string()}})
            }
            "att" => {
                let m = if self.r().chance(2, 3) {
                    json!({"set_attestation": {"attestation_text": format!("text {}", self.r().below(100))}})
                } else {
                    json!({"remove_attestation": {}})
                };
                let m = ex(d.c("enterprise"), m, &[]);
                json!({"execute_msgs": {"action_type": "att", "msgs": [Self::wasm_str(&m)]}})
            }
            _ => json!({"upgrade_dao": {"new_version": {"major": 1, "minor": 7, "patch": self.r().below(5)}, "migrate_msgs": []}}),
        }
    }

    fn member_list(&mut self) -> Vec<Value> {
        let mut ms = vec![];
        let mut seen = BTreeSet::new();
        let n = if self.r().chance(1, 6) { self.r().range(5, 20) } else { self.r().range(1, 4) };
        for _ in 0..n {
            let u = self.user();
            if seen.insert(u.clone()) {
                let w = if self.r().chance(1, 4) { 0 } else { self.scale * self.r().range(1, 12) as u128 };
                ms.push(json!({"user": u, "weight": w.to_string()}));
            }
        }
        ms
    }

    /// one or two messages, now and then a long list with repeats
    fn rec_msgs(&mut self) -> Vec<Value> {
        let n = if self.r().chance(1, 6) { self.r().range(3, 14) } else { self.r().range(1, 2) };
        let mut ms: Vec<Value> = vec![];
        for _ in 0..n {
            let m = if !ms.is_empty() && self.r().chance(1, 5) { ms[self.w.rng.idx(ms.len())].clone() } else { self.rec_msg() };
            ms.push(m);
        }
        ms
    }

    fn rec_msg(&mut self) -> Value {
        let rec = self.w.recs[self.w.rng.idx(2)].clone();
        let n = self.r().below(100000);
        let m = if self.r().chance(1, 7) { json!({"fail": {}}) } else { json!({"ping": {"n": n}}) };
        Self::wasm_str(&ex(&rec, m, &[]))
    }

    pub fn actions(&mut self, di: usize, want: &str) -> Value {
        let d = &self.w.m.daos[di];
        let kind = d.kind;
        let n = match self.w.rng.below(12) {
            0 => 0,
            1 => 10,
            2..=5 => 2,
            6 => 4,
            _ => 1,
        };
        let n = if !want.is_empty() { n.max(1) } else { n };
        let mut out = vec![];
        for i in 0..n {
            let mut a = self.action(di, if i == 0 { want } else { "" });
            if a.get("modify_multisig_membership").is_some() && kind != Kind::Multisig {
                a = self.action(di, "msgs");
            }
            out.push(a);
        }
        Value::Array(out)
    }

    /// contents that have to be refused
    pub fn bad_actions(&mut self, di: usize) -> Value {
        let d = self.w.m.daos[di].clone();
        let nc = json!("no_change");
        let gov = |k: &str, v: Value| {
            let mut m = json!({"quorum": nc, "threshold": nc, "veto_threshold": nc, "voting_duration": nc, "unlocking_period": nc, "minimum_deposit": nc, "allow_early_proposal_execution": nc});
            m[k] = json!({ "change": v });
            json!({ "update_gov_config": m })
        };
        let a = self.w.cw20s[0].clone();
        let rec = self.w.recs[0].clone();
        let good = Self::wasm_str(&ex(&rec, json!({"ping": {}}), &[]));
        let target = json!({"cross_chain_msg_spec": {"chain_id": "far-1", "chain_bech32_prefix": "far", "src_ibc_port": "transfer", "src_ibc_channel": "channel-1", "dest_ibc_port": "transfer", "dest_ibc_channel": "channel-2", "uluna_denom": "ibc/u", "timeout_nanos": null}});
        let which = if self.focus == "C07" && self.r().chance(1, 2) { self.r().pick_c(&[21u64, 22, 22, 22, 23, 24, 48]) } else { self.r().below(50) };
        let bad = match which {
            36 => json!({"update_nft_whitelist": {"remote_treasury_target": null, "add": ["nftx", "nfty"], "remove": ["nfty"]}}),
            37 => json!({"distribute_funds": {"funds": [{"info": {"native": "uother"}, "amount": "1"}, {"info": {"cw20": "X"}, "amount": "1"}]}}),
            38 => json!({"request_funding_from_dao": {"remote_treasury_target": null, "recipient": "alice", "assets": [{"info": {"cw20": "X"}, "amount": "1"}]}}),
            39 => json!({"update_nft_whitelist": {"remote_treasury_target": null, "add": ["nftx"], "remove": ["X"]}}),
            40 => json!({"update_asset_whitelist": {"remote_treasury_target": null, "add": [{"native": "uaa"}, {"cw20": "X"}], "remove": []}}),
            // nothing wrong with this one: two different items of one collection
            41 => json!({"update_asset_whitelist": {"remote_treasury_target": null, "add": [{"cw1155": [a, "1"]}, {"cw1155": [a, "2"]}], "remove": [{"cw1155": [a, "3"]}]}}),
            28 => json!({"update_asset_whitelist": {"remote_treasury_target": null, "add": [{"cw1155": [a, "1"]}, {"native": "uaa"}, {"cw1155": [a, "1"]}], "remove": []}}),
            29 => json!({"update_asset_whitelist": {"remote_treasury_target": null, "add": [{"cw1155": [a, "1"]}, {"cw1155": [a, "2"]}], "remove": [{"native": "uaa"}, {"cw1155": [a, "1"]}]}}),
            30 => json!({"update_asset_whitelist": {"remote_treasury_target": null, "add": [], "remove": [{"cw1155": [a, "7"]}, {"cw1155": [a, "7"]}]}}),
            31 => json!({"execute_treasury_msgs": {"remote_treasury_target": target, "action_type": "x", "msgs": [good, "{\"what\":{}}"]}}),
            32 => json!({"update_nft_whitelist": {"remote_treasury_target": target, "add": ["nftx", "nftx"], "remove": []}}),
            33 => json!({"update_asset_whitelist": {"remote_treasury_target": null, "add": [{"native": "uaa"}], "remove": [{"native": "uaa"}]}}),
            34 => json!({"update_asset_whitelist": {"remote_treasury_target": null, "add": [{"cw20": a}, {"native": "uaa"}, {"cw20": a}], "remove": []}}),
            35 => json!({"update_council": {"dao_council": {"members": ["alice", "X"], "quorum": "0.5", "threshold": "0.5", "allowed_proposal_action_types": null}}}),
            0 => {
                let m = self.action(di, "meta");
                return Value::Array(vec![m; 11]);
            }
            1 => json!({"execute_msgs": {"action_type": "x", "msgs": [good, "not json"]}}),
            2 => json!({"execute_treasury_msgs": {"remote_treasury_target": null, "action_type": "x", "msgs": [good, "{\"what\":{}}"]}}),
            3 => json!({"execute_enterprise_msgs": {"action_type": "x", "msgs": ["{}"]}}),
            4 => json!({"update_asset_whitelist": {"remote_treasury_target": null, "add": [{"native": "uaa"}, {"native": "uaa"}], "remove": []}}),
            5 => json!({"update_asset_whitelist": {"remote_treasury_target": null, "add": [{"cw20": a}], "remove": [{"native": "x1y"}, {"cw20": a}]}}),
            6 => json!({"update_asset_whitelist": {"remote_treasury_target": null, "add": [], "remove": [{"native": "uaa"}, {"native": "ubb"}, {"native": "uaa"}]}}),
            7 => json!({"update_nft_whitelist": {"remote_treasury_target": null, "add": ["nftx", "nfty", "nftx"], "remove": []}}),
            8 => json!({"update_nft_whitelist": {"remote_treasury_target": null, "add": ["nftx"], "remove": ["nftx"]}}),
            9 => json!({"update_nft_whitelist": {"remote_treasury_target": null, "add": [], "remove": ["nftx", "nftx"]}}),
            10 => gov("quorum", json!("0")),
            11 => gov("quorum", json!("1.000000000000000001")),
            12 => gov("threshold", json!("0")),
            13 => gov("threshold", json!("1.5")),
            14 => gov("veto_threshold", json!("0")),
            15 => gov("veto_threshold", json!("1.01")),
            16 => gov("voting_duration", json!("0")),
            17 => {
                if d.kind == Kind::Multisig {
                    gov("minimum_deposit", json!("1"))
                } else {
                    json!({"modify_multisig_membership": {"edit_members": [{"user": "alice", "weight": "1"}]}})
                }
            }
            18 => json!({"modify_multisig_membership": {"edit_members": [{"user": "alice", "weight": "1"}, {"user": "bobby", "weight": "2"}, {"user": "alice", "weight": "3"}]}}),
            19 => json!({"upgrade_dao": {"new_version": {"major": d.version.0, "minor": d.version.1, "patch": d.version.2}, "migrate_msgs": []}}),
            20 => json!({"upgrade_dao": {"new_version": {"major": 0, "minor": 9, "patch": 9}, "migrate_msgs": []}}),
            21 => json!({"update_council": {"dao_council": {"members": ["alice", "bobby", "alice"], "quorum": "0.5", "threshold": "0.5", "allowed_proposal_action_types": null}}}),
            22 => {
                let t = self.r().pick_c(&["update_gov_config", "update_council", "request_funding_from_dao", "execute_msgs", "execute_treasury_msgs", "execute_enterprise_msgs", "modify_multisig_membership", "distribute_funds", "update_minimum_weight_for_rewards"]);
                json!({"update_council": {"dao_council": {"members": ["alice"], "quorum": "0.5", "threshold": "0.5", "allowed_proposal_action_types": ["upgrade_dao", t]}}})
            }
            23 => json!({"update_council": {"dao_council": {"members": ["alice"], "quorum": "0", "threshold": "0.5", "allowed_proposal_action_types": null}}}),
            24 => json!({"update_council": {"dao_council": {"members": ["alice"], "quorum": "0.5", "threshold": "1.2", "allowed_proposal_action_types": null}}}),
            25 => json!({"request_funding_from_dao": {"remote_treasury_target": null, "recipient": "alice", "assets": [{"info": {"native": "uother"}, "amount": "1"}, {"info": {"cw1155": [a, "1"]}, "amount": "1"}]}}),
            26 => json!({"distribute_funds": {"funds": [{"info": {"cw1155": [a, "1"]}, "amount": "1"}]}}),
            43..=49 => self.repeats(if which == 48 { 4 } else { which - 43 }, &a),
            _ => {
                let n = self.r().pick_c(&[json!([]), json!([{"info": {"native": "uother"}, "amount": "1"}])]);
                json!({"request_funding_from_dao": {"remote_treasury_target": null, "recipient": "X", "assets": n}})
            }
        };
        let mut v = vec![];
        if self.r().chance(1, 3) {
            v.push(self.action(di, "msgs"));
        }
        v.push(bad);
        Value::Array(v)
    }

    /// a list of some length in which one entry comes twice (somewhere), or a list that clashes with its counterpart in one entry
    fn repeats(&mut self, what: u64, cw20: &str) -> Value {
        let n = if self.r().chance(1, 3) { self.r().range(1, 4) } else { self.r().range(5, 45) } as usize;
        let mut names: Vec<String> = (0..n).map(|i| format!("rp{:03}", (i * 37) % 101)).collect();
        let again = names[self.w.rng.idx(n)].clone();
        let at = self.w.rng.idx(n + 1);
        if what < 5 {
            names.insert(at, again.clone());
        }
        let mut other: Vec<String> = (0..self.r().below(12)).map(|i| format!("ot{i:02}")).collect();
        if what >= 5 {
            let at = self.w.rng.idx(other.len() + 1);
            other.insert(at, again.clone());
        }
        if self.r().chance(1, 2) {
            std::mem::swap(&mut names, &mut other);
        }
        match what {
            0 | 5 => {
                // coins, tokens and items of a collection in one list
                let odd = self.r().below(3);
                let f = |v: &Vec<String>| -> Value {
                    v.iter()
                        .enumerate()
                        .map(|(i, x)| match if *x == again { odd as usize } else { i % 3 } {
                            0 => json!({ "native": x }),
                            1 => json!({ "cw20": x }),
                            _ => json!({"cw1155": [cw20, x]}),
                        })
                        .collect()
                };
                json!({"update_asset_whitelist": {"remote_treasury_target": null, "add": f(&names), "remove": f(&other)}})
            }
            1 | 6 => json!({"update_nft_whitelist": {"remote_treasury_target": null, "add": names, "remove": other}}),
            2 | 3 => {
                let l = if names.contains(&again) { names } else { other };
                let same = self.r().chance(1, 2);
                let w0 = self.r().below(3);
                let ms: Vec<Value> = l
                    .iter()
                    .map(|x| {
                        let w = if *x == again && same { w0 } else { self.r().below(4) };
                        json!({"user": x, "weight": w.to_string()})
                    })
                    .collect();
                json!({"modify_multisig_membership": {"edit_members": ms}})
            }
            _ => {
                let l = if names.contains(&again) { names } else { other };
                json!({"update_council": {"dao_council": {"members": l, "quorum": "0.5", "threshold": "0.5", "allowed_proposal_action_types": null}}})
            }
        }
    }

    /// An NFT holder approves the controller, another user, or both (for a while or for good).
    fn approve(&mut self, di: usize) -> Option<Op> {
        let d = self.w.m.daos[di].clone();
        if d.kind != Kind::Nft {
            return None;
        }
        let us: Vec<(String, String)> = self.w.m.nft.iter().filter(|x| x.0 .0 == d.asset && USERS.contains(&x.1 .0.as_str())).map(|x| (x.0 .1.clone(), x.1 .0.clone())).collect();
        if us.is_empty() {
            return None;
        }
        let (_, who) = self.r().pick_c(&us);
        let mut toks: Vec<String> = us.iter().filter(|x| x.1 == who).map(|x| x.0.clone()).collect();
        let n = self.r().range(1, 4) as usize;
        toks.truncate(n.max(d.gov.min_deposit.unwrap_or(0).min(6) as usize));
        let friend = self.user();
        let (c, f) = self.r().pick_c(&[(true, true), (true, true), (true, false), (false, true)]);
        let mut ms = vec![];
        for (on, sp) in [(c, d.c("controller").to_string()), (f && friend != who, friend)] {
            if !on {
                continue;
            }
            let end = if self.r().chance(1, 3) {
                let t = self.w.c.now().nanos() + self.r().range(1, 4000) * 1_000_000_000;
                json!({"at_time": t.to_string()})
            } else {
                Value::Null
            };
            for t in &toks {
                ms.push(ex(&d.asset, json!({"approve": {"spender": sp, "token_id": t, "expires": end}}), &[]));
            }
        }
        if ms.is_empty() {
            return None;
        }
        Some(self.op("approve nft", &[], &who, ms, di))
    }

    fn create(&mut self, di: usize, actions: Value, deposit: Option<bool>) -> Option<Op> {
        let d = self.w.m.daos[di].clone();
        let ctrl = d.c("controller").to_string();
        let mut sender = self.user();
        let ms: Vec<String> = d.weights.keys().cloned().collect();
        if self.r().chance(4, 5) && !ms.is_empty() {
            sender = self.r().pick_c(&ms);
        }
        let n = self.r().below(1_000_000);
        let owner = match self.r().below(4) {
            0 => json!(self.user()),
            1 if self.r().chance(1, 8) => json!("X"),
            _ => Value::Null,
        };
        let msg = json!({"title": format!("p{n}"), "description": format!("desc {n}"), "proposal_actions": actions, "deposit_owner": owner});
        let min = d.gov.min_deposit.unwrap_or(0);
        let dep = deposit.unwrap_or_else(|| if min > 0 { self.w.rng.chance(9, 10) } else { self.w.rng.chance(1, 6) });
        let amount = match self.r().below(8) {
            0 => min.saturating_sub(1),
            1 => min + 1,
            2 => min * 2 + 1,
            _ => min,
        };
        let amount = if amount == 0 && self.r().chance(3, 4) { 1 } else { amount };
        let tags: Tags = if dep { vec!["C06", "C05"] } else { vec!["C06"] };
        let msgs = match (d.kind, dep) {
            (Kind::Denom, true) => {
                let odd = self.r().chance(1, 8);
                let wrong = self.r().pick_c(&["uother", "ustake2", "ustak", "ustake2"]);
                let f: Vec<(&str, u128)> = if odd { vec![(wrong, amount.max(1))] } else { vec![(&d.asset, amount)] };
                vec![ex(&ctrl, json!({ "create_proposal": msg }), &f)]
            }
            (Kind::Token, true) => {
                let t = if self.r().chance(1, 8) { self.w.cw20s.iter().find(|x| **x != d.asset).unwrap().clone() } else { d.asset.clone() };
                if amount == 0 {
                    return None;
                }
                vec![cw20_send(&t, &ctrl, amount, json!({ "create_proposal": msg }))]
            }
            (Kind::Nft, true) if self.w.rng.chance(1, 3) && self.w.m.nft.iter().any(|x| x.0 .0 == d.asset && !x.1 .1.is_empty()) => {
                // NFTs somebody else owns, approved for the proposer, for the controller, or both
                let lent: Vec<(String, Vec<String>)> = self
                    .w
                    .m
                    .nft
                    .iter()
                    .filter(|x| x.0 .0 == d.asset && !x.1 .1.is_empty())
                    .map(|x| (x.0 .1.clone(), x.1 .1.keys().cloned().collect()))
                    .collect();
                let (_, sp) = self.r().pick_c(&lent);
                let sp: Vec<String> = sp.into_iter().filter(|x| *x != ctrl && USERS.contains(&x.as_str())).collect();
                if !sp.is_empty() && self.r().chance(3, 4) {
                    sender = self.r().pick_c(&sp);
                }
                let n = amount.max(1) as usize;
                let mut toks: Vec<String> = lent.iter().filter(|x| x.1.contains(&sender)).map(|x| x.0.clone()).take(n).collect();
                for x in &lent {
                    if toks.len() < n && !toks.contains(&x.0) {
                        toks.push(x.0.clone());
                    }
                }
                vec![ex(&ctrl, json!({"create_proposal_with_nft_deposit": {"create_proposal_msg": msg, "deposit_tokens": toks}}), &[])]
            }
            (Kind::Nft, true) => {
                let mine: Vec<String> = self.w.m.nft.iter().filter(|x| x.0 .0 == d.asset && x.1 .0 == sender).map(|x| x.0 .1.clone()).collect();
                let n = if self.r().chance(1, 5) { mine.len().min(25) } else { amount.max(1) as usize };
                let mut toks: Vec<String> = mine.into_iter().take(n).collect();
                if self.r().chance(1, 10) {
                    let all: Vec<String> = self.w.m.nft.iter().filter(|x| x.0 .0 == d.asset).map(|x| x.0 .1.clone()).collect();
                    toks.push(self.r().pick_c(&all));
                }
                let mut ms = vec![];
                for t in &toks {
                    if self.w.m.nft.get(&(d.asset.clone(), t.clone())).map_or(false, |x| x.0 == sender) && !self.w.rng.chance(1, 15) {
                        ms.push(ex(&d.asset, json!({"approve": {"spender": ctrl, "token_id": t, "expires": null}}), &[]));
                    }
                }
                ms.push(ex(&ctrl, json!({"create_proposal_with_nft_deposit": {"create_proposal_msg": msg, "deposit_tokens": toks}}), &[]));
                ms
            }
            _ => vec![ex(&ctrl, json!({ "create_proposal": msg }), &[])],
        };
        Some(self.op(if dep { "create with deposit" } else { "create" }, &tags, &sender, msgs, di))
    }

    fn open_props(&self, di: usize, council: bool) -> Vec<u64> {
        let now = self.w.c.now().nanos();
        self.w.m.daos[di]
            .props
            .iter()
            .filter(|(_, p)| p.council == council && !p.executed && now < p.ends)
            .map(|(k, _)| *k)
            .collect()
    }
    fn unexecuted(&self, di: usize) -> Vec<u64> {
        self.w.m.daos[di].props.iter().filter(|(_, p)| !p.executed).map(|(k, _)| *k).collect()
    }

    fn vote(&mut self, di: usize, council: bool) -> Option<Op> {
        let d = self.w.m.daos[di].clone();
        let open = self.open_props(di, council);
        let id = if !open.is_empty() && self.r().chance(9, 10) {
            self.r().pick_c(&open)
        } else if d.hid.next_prop > 1 {
            let n = d.hid.next_prop;
            self.r().range(1, n)
        } else {
            return None;
        };
        let ms: Vec<String> = if council { d.council.keys().cloned().collect() } else { d.weights.keys().cloned().collect() };
        let sender = if !ms.is_empty() && self.r().chance(9, 10) { self.r().pick_c(&ms) } else { self.user() };
        let o = self.r().pick_c(&["yes", "yes", "no", "abstain", "veto"]);
        let k = if council { "cast_council_vote" } else { "cast_vote" };
        let m = ex(d.c("controller"), json!({k: {"proposal_id": id, "outcome": o}}), &[]);
        let mut msgs = vec![m];
        if self.r().chance(1, 20) {
            let o2 = self.r().pick_c(&["yes", "no", "abstain", "veto"]);
            msgs.push(ex(d.c("controller"), json!({k: {"proposal_id": id, "outcome": o2}}), &[]));
        }
        Some(self.op(if council { "council vote" } else { "vote" }, if council { &["C07", "C01"] } else { &["C01"] }, &sender, msgs, di))
    }

    fn execute(&mut self, di: usize, ready: bool) -> Option<Op> {
        let d = self.w.m.daos[di].clone();
        let now = self.w.c.now().nanos();
        let un = self.unexecuted(di);
        let rd: Vec<u64> = un.iter().filter(|i| d.executable(**i, now).is_ok()).cloned().collect();
        let id = if (ready || self.r().chance(1, 2)) && !rd.is_empty() {
            self.r().pick_c(&rd)
        } else if !un.is_empty() && self.r().chance(3, 4) {
            self.r().pick_c(&un)
        } else if d.hid.next_prop > 1 {
            let n = d.hid.next_prop;
            self.r().range(1, n)
        } else {
            return None;
        };
        let sender = self.user();
        let m = ex(d.c("controller"), json!({"execute_proposal": {"proposal_id": id}}), &[]);
        let n = if self.r().chance(1, 12) { 2 } else { 1 };
        Some(self.op("execute", &["C03"], &sender, vec![m; n], di))
    }

    fn hostile(&mut self, di: usize) -> Option<Op> {
        let d = self.w.m.daos[di].clone();
        let other = (di + 1) % self.w.m.daos.len();
        let od = self.w.m.daos[other].clone();
        let sender = match self.r().below(8) {
            0 | 1 => od.c("controller").to_string(),
            2 => od.c("enterprise").to_string(),
            3 => d.c("treasury").to_string(),
            4 => self.w.factory.clone(),
            5 => "creator".to_string(),
            _ => self.user(),
        };
        if other == di && sender == d.c("controller") {
            return None;
        }
        let (target, m, name) = self.privileged(di)?;
        if name == "deploy_initial_cross_chain_treasuries" && sender == self.w.factory {
            return None; // the creator may, in the block of the creation
        }
        let msgs = vec![ex(d.c(&target), m, &[])];
        Some(self.op("hostile privileged call", &["C08"], &sender, msgs, di))
    }

    /// (component, message, name) of an operation reserved to governance or to the contract itself
    pub fn privileged(&mut self, di: usize) -> Option<(String, Value, String)> {
        let d = self.w.m.daos[di].clone();
        let list = privileged_msgs(&d, &self.w.recs[0]);
        let (c, m) = list[self.w.rng.idx(list.len())].clone();
        if d.c(c).is_empty() {
            return None;
        }
        let n = top(&m).0;
        Some((c.to_string(), m, n))
    }

    fn fake(&mut self, di: usize) -> Option<Op> {
        // pretend to be a token contract
        let d = self.w.m.daos[di].clone();
        let sender = self.user();
        let mem = d.c("membership").to_string();
        let (target, m) = match (d.kind, self.r().below(3)) {
            (Kind::Token, 0) => (mem, json!({"receive": {"sender": sender, "amount": "50", "msg": to_b64(&json!({"stake": {"user": sender}}))}})),
            (Kind::Token, 1) => (mem, json!({"receive": {"sender": sender, "amount": "50", "msg": to_b64(&json!({"add_claims": {"claims": [{"user": sender, "claim_amount": "50", "release_at": {"height": "1"}}]}}))}})),
            (Kind::Nft, 0) => {
                let toks: Vec<String> = self.w.m.nft.iter().filter(|x| x.0 .0 == d.asset && x.1 .0 == mem).map(|x| x.0 .1.clone()).collect();
                if toks.is_empty() {
                    return None;
                }
                let t = self.r().pick_c(&toks);
                (mem, json!({"receive_nft": {"edition": null, "sender": sender, "token_id": t, "msg": to_b64(&json!({"add_claim": {"user": sender, "release_at": {"height": "1"}}}))}}))
            }
            (Kind::Nft, 1) => {
                (mem, json!({"receive_nft": {"edition": null, "sender": sender, "token_id": "fake", "msg": to_b64(&json!({"stake": {"user": sender}}))}}))
            }
            (Kind::Token, _) => (
                d.c("controller").to_string(),
                json!({"receive": {"sender": sender, "amount": "100000000", "msg": to_b64(&json!({"create_proposal": {"title": "t", "description": "d", "proposal_actions": [], "deposit_owner": null}}))}}),
            ),
            _ => {
                // a worthless token notifies the distributor
                let a = self.w.cw20s[0].clone();
                if d.asset_wl.contains(&tok(&a)) {
                    // the distributor identifies tokens by the caller, so this must be refused for plain users
                }
                (d.c("distributor").to_string(), json!({"receive": {"sender": sender, "amount": "50", "msg": to_b64(&json!({"distribute": {}}))}}))
            }
        };
        let msgs = vec![ex(&target, m, &[])];
        Some(self.op("fake token notification", &["C08", "C09"], &sender, msgs, di))
    }

    fn distribute(&mut self, di: usize) -> Option<Op> {
        let d = self.w.m.daos[di].clone();
        let sender = self.user();
        let dis = d.c("distributor").to_string();
        let msgs = match self.r().below(3) {
            0 => {
                let t = self.w.cw20s[self.w.rng.idx(2)].clone();
                let have = self.w.m.b(&sender, &tok(&t));
                let a = self.amt(have / 10);
                if a == 0 {
                    return None;
                }
                vec![cw20_send(&t, &dis, a, json!({"distribute": {}}))]
            }
            k => {
                let ds = self.w.denoms.clone();
                let mut f: Vec<(String, u128)> = vec![];
                let s = self.r().idx(ds.len());
                for i in 0..k as usize {
                    let den = ds[(s + i) % ds.len()].clone();
                    let have = self.w.m.b(&sender, &nat(&den));
                    let a = self.amt(have / 10);
                    if a > 0 {
                        f.push((den, a));
                    }
                }
                if f.is_empty() {
                    return None;
                }
                let f: Vec<(&str, u128)> = f.iter().map(|x| (x.0.as_str(), x.1)).collect();
                vec![ex(&dis, json!({"distribute_native": {}}), &f)]
            }
        };
        Some(self.op("distribute", &["C13"], &sender, msgs, di))
    }

    fn claim_rewards(&mut self, di: usize) -> Option<Op> {
        let d = self.w.m.daos[di].clone();
        let mut user = self.user();
        let ks: Vec<String> = d.rewards.keys().map(|x| x.0.clone()).collect();
        if !ks.is_empty() && self.r().chance(4, 5) {
            user = self.r().pick_c(&ks);
        }
        let sender = if self.r().chance(1, 8) { self.user() } else { user.clone() };
        let (mut ns, mut cs) = (vec![], vec![]);
        for x in self.w.denoms.clone() {
            if self.r().chance(1, 2) {
                ns.push(x);
            }
        }
        for x in self.w.cw20s.clone() {
            if self.r().chance(1, 2) {
                cs.push(x);
            }
        }
        if self.r().chance(1, 10) {
            ns.extend(ns.clone());
        }
        if self.r().chance(1, 10) {
            cs.extend(cs.clone());
        }
        let m = ex(d.c("distributor"), json!({"claim_rewards": {"user": user, "native_denoms": ns, "cw20_assets": cs}}), &[]);
        let n = if self.r().chance(1, 8) { 2 } else { 1 };
        Some(self.op("claim rewards", &["C13"], &sender, vec![m; n], di))
    }

    fn donate(&mut self, di: usize) -> Option<Op> {
        let d = self.w.m.daos[di].clone();
        let sender = self.user();
        let comp = self.r().pick_c(&["treasury", "treasury", "treasury", "membership", "distributor", "controller", "enterprise"]);
        let to = d.c(comp).to_string();
        let a = self.scale * self.r().range(1, 9) as u128;
        let msgs = match self.r().below(4) {
            0 => {
                let t = self.w.cw20s[self.w.rng.idx(2)].clone();
                vec![ex(&t, json!({"transfer": {"recipient": to, "amount": a.to_string()}}), &[])]
            }
            1 => {
                let mine: Vec<(String, String)> = self.w.m.nft.iter().filter(|x| x.1 .0 == sender).map(|x| x.0.clone()).collect();
                if mine.is_empty() {
                    return None;
                }
                let (c, id) = mine[self.w.rng.idx(mine.len())].clone();
                vec![ex(&c, json!({"transfer_nft": {"recipient": d.c("treasury"), "token_id": id}}), &[])]
            }
            _ => {
                let den = self.w.denoms[self.w.rng.idx(4)].clone();
                vec![bank(&to, &den, a)]
            }
        };
        Some(self.op("donate", &["C17"], &sender, msgs, di))
    }

    fn time(&mut self) {
        let now = self.w.c.now().nanos();
        let mut pts: Vec<u64> = vec![];
        for d in &self.w.m.daos {
            for p in d.props.values().filter(|p| !p.executed) {
                pts.push(p.ends);
            }
            for (id, t) in &d.hid.earliest {
                if d.props.get(id).map_or(false, |p| !p.executed) {
                    pts.push(*t);
                    pts.push(*t);
                }
            }
            for c in d.claims.values().flatten() {
                if let Rel::Time(t) = c.rel {
                    pts.push(t);
                }
            }
        }
        let mut cand = vec![];
        for p in pts {
            for x in [p.saturating_sub(1), p, p + 1, p + 1_000_000_000] {
                if x > now {
                    cand.push(x);
                }
            }
        }
        let blocks = self.w.rng.range(1, 3);
        if !cand.is_empty() && self.w.rng.chance(3, 5) {
            cand.sort();
            // prefer near events
            let k = self.w.rng.idx(cand.len().min(12));
            let t = cand[k];
            self.w.c.advance(blocks, t - now);
        } else {
            let s = match self.w.rng.below(5) {
                0 => 0,
                1 => 1,
                2 => 6,
                3 => self.w.rng.below(100),
                _ => self.w.rng.below(1000),
            };
            let ns = if self.w.rng.chance(1, 2) { self.w.rng.below(1_000_000_000) } else { 0 };
            self.w.c.advance(blocks, s * 1_000_000_000 + ns);
        }
        self.w.sync_clock();
        let n = self.w.c.now().nanos();
        self.w.note(format!("   time {n} height {}", self.w.c.height()));
        // statuses move with time: look at one DAO
        let i = self.w.rng.idx(self.w.m.daos.len());
        let m = self.w.m.clone();
        self.w.check_executability(i, &m);
        self.w.check_history(i, &m);
    }

    /// get a proposal with the given kind of action accepted and executed
    fn pass(&mut self, di: usize, want: &str, council: bool) {
        let d = self.w.m.daos[di].clone();
        let acts = self.actions(di, want);
        let before = d.hid.next_prop;
        let op = if council {
            let cfg = match &d.council_cfg {
                Some(c) => c.clone(),
                None => return,
            };
            let allowed: Vec<&str> = cfg
                .allowed
                .iter()
                .filter_map(|a| match a.as_str() {
                    "update_metadata" => Some("meta"),
                    "update_asset_whitelist" => Some("wl"),
                    "update_nft_whitelist" => Some("nftwl"),
                    "upgrade_dao" => Some("upgrade"),
                    _ => None,
                })
                .collect();
            if allowed.is_empty() || d.council.is_empty() {
                return;
            }
            let k = self.r().pick_c(&allowed);
            let a = self.action(di, k);
            let ms: Vec<String> = d.council.keys().cloned().collect();
            let s = self.r().pick_c(&ms);
            let n = self.r().below(100000);
            let m = ex(d.c("controller"), json!({"create_council_proposal": {"title": format!("c{n}"), "description": "c", "proposal_actions": [a], "deposit_owner": null}}), &[]);
            Some(self.op("create council", &["C07", "C06"], &s, vec![m], di))
        } else {
            self.create(di, acts, None)
        };
        if let Some(op) = op {
            self.w.step(op);
        }
        if self.w.void || self.w.m.daos[di].hid.next_prop == before {
            return;
        }
        let ms: Vec<String> = if council { d.council.keys().cloned().collect() } else { d.weights.keys().cloned().collect() };
        let strong = self.r().chance(5, 6);
        for u in ms {
            if self.w.void {
                return;
            }
            if self.r().chance(4, 5) || strong {
                let o = if strong { "yes" } else { self.r().pick_c(&["yes", "no", "abstain", "veto"]) };
                let k = if council { "cast_council_vote" } else { "cast_vote" };
                let m = ex(d.c("controller"), json!({k: {"proposal_id": before, "outcome": o}}), &[]);
                let op = self.op(if council { "council vote" } else { "vote" }, if council { &["C07", "C01"] } else { &["C01"] }, &u, vec![m], di);
                self.w.step(op);
            }
        }
        let ends = self.w.m.daos[di].props[&before].ends;
        let now = self.w.c.now().nanos();
        if self.r().chance(1, 2) && ends > now {
            let extra = if self.r().chance(1, 2) { 0 } else { self.r().below(2_000_000_000) };
            self.w.c.advance(1, ends - now + extra);
            self.w.sync_clock();
        }
        let fault = if self.r().chance(1, 10) { Some(self.r().range(1, 8) as usize) } else { None };
        let us: Vec<String> = self.w.users.iter().filter(|u| !self.w.m.daos[di].is_restricted(u)).cloned().collect();
        if us.is_empty() {
            return;
        }
        let s = self.r().pick_c(&us);
        let mut op = self.op("execute", &["C03"], &s, vec![ex(d.c("controller"), json!({"execute_proposal": {"proposal_id": before}}), &[])], di);
        op.fault = fault;
        self.w.step(op);
    }

    /// one decision after the other, nearly all of them passed and executed
    pub fn decisions(&mut self, steps: usize) {
        let favour: &[&str] = match self.focus {
            "C26" => &["meta", "meta", "gov", "att", "min"],
            "C15" => &["wl", "nftwl"],
            "C14" => &["min", "members", "gov"],
            "C16" => &["att", "att", "council"],
            "C17" => &["spend", "tmsgs", "distribute"],
            "C07" => &["council"],
            "C04" => &["msgs", "emsgs", "tmsgs", "members", "council"],
            _ => &["meta"],
        };
        let all = ["meta", "gov", "council", "wl", "nftwl", "spend", "msgs", "tmsgs", "emsgs", "members", "distribute", "min", "att"];
        self.run(30);
        for _ in 0..steps {
            if self.w.void || self.w.mon.silenced.contains(self.focus) {
                return;
            }
            if self.r().chance(1, 3) {
                self.one();
                continue;
            }
            let nd = self.w.m.daos.len();
            let di = if self.r().chance(2, 3) { 0 } else { self.r().idx(nd) };
            let k = if self.r().chance(2, 3) { self.r().pick_c(favour) } else { self.r().pick_c(&all) };
            let council = self.r().chance(1, 8);
            self.pass(di, k, council);
        }
    }

    /// a proposal whose expected outcome changes several times, with attempts to execute in between
    fn flip(&mut self, di: usize) {
        let d = self.w.m.daos[di].clone();
        let council = d.council_cfg.is_some() && !d.council.is_empty() && self.r().chance(1, 4);
        let before = d.hid.next_prop;
        let op = if council {
            let ms: Vec<String> = d.council.keys().cloned().collect();
            let s = self.r().pick_c(&ms);
            let n = self.r().below(100000);
            let m = ex(d.c("controller"), json!({"create_council_proposal": {"title": format!("f{n}"), "description": "f", "proposal_actions": [], "deposit_owner": null}}), &[]);
            Some(self.op("create council", &["C07", "C06"], &s, vec![m], di))
        } else {
            let a = self.action(di, "msgs");
            self.create(di, json!([a]), None)
        };
        if let Some(op) = op {
            self.w.step(op);
        }
        if self.w.void || self.w.m.daos[di].hid.next_prop == before {
            return;
        }
        let ms: Vec<String> = if council { d.council.keys().cloned().collect() } else { d.weights.keys().cloned().collect() };
        let us: Vec<String> = self.w.users.iter().filter(|u| !self.w.m.daos[di].is_restricted(u)).cloned().collect();
        if us.is_empty() {
            return;
        }
        let k = if council { "cast_council_vote" } else { "cast_vote" };
        let rounds = self.r().range(2, 4);
        for _ in 0..rounds {
            let o = self.r().pick_c(&["yes", "no", "veto", "no", "veto", "abstain"]);
            for u in &ms {
                if self.w.void || self.w.m.daos[di].props.get(&before).map_or(true, |p| p.executed) {
                    return;
                }
                if self.r().chance(1, 8) {
                    continue;
                }
                let m = ex(d.c("controller"), json!({k: {"proposal_id": before, "outcome": o}}), &[]);
                let op = self.op(if council { "council vote" } else { "vote" }, if council { &["C07", "C01"] } else { &["C01"] }, u, vec![m], di);
                self.w.step(op);
            }
            if self.w.void {
                return;
            }
            if self.r().chance(1, 2) {
                let s = self.r().pick_c(&us);
                let op = self.op("execute", &["C03"], &s, vec![ex(d.c("controller"), json!({"execute_proposal": {"proposal_id": before}}), &[])], di);
                self.w.step(op);
                if self.w.void {
                    return;
                }
            }
            // a part of the delay, all of it, or more
            let delay = d.gov.duration / 10 * 1_000_000_000;
            let t = match self.r().below(4) {
                0 => delay,
                1 => delay / 2,
                2 => delay.saturating_sub(1),
                _ => delay + 1,
            };
            self.w.c.advance(1, t.max(1));
            self.w.sync_clock();
        }
    }

    /// a proposal, mostly with a deposit, voted to a chosen end and settled after it
    fn settle(&mut self, di: usize) {
        let d = self.w.m.daos[di].clone();
        let council = d.council_cfg.is_some() && !d.council.is_empty() && self.r().chance(1, 5);
        let before = d.hid.next_prop;
        let op = if council {
            let ms: Vec<String> = d.council.keys().cloned().collect();
            let s = self.r().pick_c(&ms);
            let n = self.r().below(100000);
            let m = ex(d.c("controller"), json!({"create_council_proposal": {"title": format!("s{n}"), "description": "s", "proposal_actions": [], "deposit_owner": null}}), &[]);
            Some(self.op("create council", &["C07", "C06"], &s, vec![m], di))
        } else {
            let a = self.action(di, "msgs");
            let acts = if self.r().chance(1, 2) { json!([a]) } else { json!([]) };
            let dep = if d.kind != Kind::Multisig && self.r().chance(4, 5) { Some(true) } else { None };
            self.create(di, acts, dep)
        };
        if let Some(op) = op {
            self.w.step(op);
        }
        if self.w.void || self.w.m.daos[di].hid.next_prop == before {
            return;
        }
        let d = self.w.m.daos[di].clone();
        let ms: Vec<(String, u128)> = if council { d.council.iter().map(|x| (x.0.clone(), *x.1)).collect() } else { d.weights.iter().map(|x| (x.0.clone(), *x.1)).collect() };
        let ms: Vec<(String, u128)> = ms.into_iter().filter(|m| !d.is_restricted(&m.0)).take(7).collect();
        let mut plan: Vec<&str> = vec!["skip"; ms.len()];
        match self.r().below(7) {
            0 => {}
            1 => {
                if !plan.is_empty() {
                    let i = self.r().idx(plan.len());
                    plan[i] = self.r().pick_c(&["yes", "no", "abstain", "veto"]);
                }
            }
            2 => plan.iter_mut().for_each(|p| *p = "veto"),
            3 => plan.iter_mut().for_each(|p| *p = "no"),
            4 => plan.iter_mut().for_each(|p| *p = "yes"),
            _ => {
                // as much weight for as against
                let n = ms.len() as u32;
                let mut found: Vec<Vec<u32>> = vec![];
                for code in 1..3u32.pow(n) {
                    let v: Vec<u32> = (0..n).map(|i| code / 3u32.pow(i) % 3).collect();
                    let sum = |k: u32| -> u128 { v.iter().zip(&ms).filter(|x| *x.0 == k).map(|x| x.1 .1).sum() };
                    if sum(1) == sum(2) && sum(1) > 0 {
                        found.push(v);
                    }
                }
                // the one with most votes in it
                if let Some(v) = found.iter().max_by_key(|v| v.iter().zip(&ms).filter(|x| *x.0 > 0).map(|x| x.1 .1).sum::<u128>()) {
                    for (p, k) in plan.iter_mut().zip(v) {
                        *p = ["abstain", "yes", "no"][*k as usize];
                    }
                }
            }
        }
        let k = if council { "cast_council_vote" } else { "cast_vote" };
        for ((u, _), o) in ms.iter().zip(plan) {
            if self.w.void {
                return;
            }
            if o == "skip" {
                continue;
            }
            let m = ex(d.c("controller"), json!({k: {"proposal_id": before, "outcome": o}}), &[]);
            let op = self.op(if council { "council vote" } else { "vote" }, if council { &["C07", "C01"] } else { &["C01"] }, u, vec![m], di);
            self.w.step(op);
        }
        if self.w.void {
            return;
        }
        let ends = self.w.m.daos[di].props[&before].ends;
        let now = self.w.c.now().nanos();
        if ends > now {
            let extra = self.r().pick_c(&[0u64, 0, 0, 1, 999_999_999, 5_000_000_000]);
            // membership moves around the end: in the last second before it, at that very moment, after it
            if self.r().chance(1, 3) {
                let early = self.r().range(1, 999_999_999);
                if ends - now > early {
                    self.w.c.advance(1, ends - now - early);
                    self.w.sync_clock();
                    self.moves(di);
                    if self.w.void {
                        return;
                    }
                }
            }
            let now = self.w.c.now().nanos();
            self.w.c.advance(1, ends - now + extra);
            self.w.sync_clock();
            if self.r().chance(1, 2) {
                self.moves(di);
                if self.w.void {
                    return;
                }
            }
        }
        let us: Vec<String> = self.w.users.iter().filter(|u| !self.w.m.daos[di].is_restricted(u)).cloned().collect();
        if us.is_empty() {
            return;
        }
        let s = self.r().pick_c(&us);
        let op = self.op("execute", &["C03"], &s, vec![ex(d.c("controller"), json!({"execute_proposal": {"proposal_id": before}}), &[])], di);
        self.w.step(op);
    }

    fn moves(&mut self, di: usize) {
        let n = self.r().range(1, 3);
        for _ in 0..n {
            let op = if self.r().chance(1, 2) { self.stake(di, None) } else { self.unstake(di) };
            if let Some(op) = op {
                self.w.step(op);
                if self.w.void {
                    return;
                }
            }
        }
    }

    /// claims that become due in another order than they were made: the unlocking period changes in between
    fn laps(&mut self, di: usize) {
        let kind = self.w.m.daos[di].kind;
        if kind == Kind::Multisig {
            return;
        }
        let rounds = self.r().range(2, 3);
        for _ in 0..rounds {
            if self.w.void {
                return;
            }
            self.pass(di, "unlock", false);
            let n = self.r().range(1, 3);
            for _ in 0..n {
                if self.w.void {
                    return;
                }
                if let Some(op) = self.unstake(di) {
                    self.w.step(op);
                }
            }
        }
        for _ in 0..4 {
            if self.w.void {
                return;
            }
            let d = &self.w.m.daos[di];
            let now = self.w.c.now().nanos();
            let h = self.w.c.height();
            // to the moment one of the claims is due, or just before it
            let due: Vec<Rel> = d.claims.values().flatten().map(|c| c.rel.clone()).collect();
            if due.is_empty() {
                return;
            }
            let early = self.w.rng.below(2);
            match &due[self.w.rng.idx(due.len())] {
                Rel::Time(t) if *t > now => self.w.c.advance(1, (*t - now).saturating_sub(early)),
                Rel::Height(x) if *x > h => self.w.c.advance((*x - h).saturating_sub(early), 1_000_000_000),
                _ => {}
            }
            self.w.sync_clock();
            if let Some(op) = self.claim(di) {
                self.w.step(op);
            }
        }
    }

    pub fn one(&mut self) {
        let mut table: Vec<(&str, u64)> = vec![
            ("stake", 8), ("stake_odd", 3), ("unstake", 6), ("claim", 5), ("create", 7), ("create_bad", 3), ("create_deposit", 4),
            ("create_council", 3), ("vote", 16), ("council_vote", 4), ("execute", 6), ("exec_now", 6), ("hostile", 4), ("fake", 2),
            ("distribute", 5), ("claim_rewards", 4), ("donate", 2), ("sign", 1), ("time", 12), ("pass", 5), ("pass_council", 2),
            ("members", 1), ("min", 1), ("wl", 1), ("att", 1), ("gov", 1), ("meta", 1), ("spend", 1), ("fault", 2), ("hook", 1), ("multi", 2), ("flip", 1), ("laps", 1), ("settle", 2), ("approve", 3),
        ];
        for b in boost(self.focus).0 {
            for t in table.iter_mut() {
                if t.0 == *b {
                    t.1 = t.1 * 2 + 2;
                }
            }
        }
        let sum: u64 = table.iter().map(|x| x.1).sum();
        let mut x = self.r().below(sum);
        let mut k = "";
        for (n, w) in &table {
            if x < *w {
                k = n;
                break;
            }
            x -= w;
        }
        let nd = self.w.m.daos.len();
        let di = if self.r().chance(1, 2) { 0 } else { self.r().idx(nd) };
        let kind = self.w.m.daos[di].kind;
        let op = match k {
            "stake" => self.stake(di, None),
            "stake_odd" => self.stake_odd(di),
            "unstake" => self.unstake(di),
            "claim" => self.claim(di),
            "create" => {
                let a = self.actions(di, "");
                self.create(di, a, None)
            }
            "create_bad" => {
                let a = self.bad_actions(di);
                self.create(di, a, None)
            }
            "create_deposit" => {
                let a = self.actions(di, "");
                self.create(di, a, Some(true))
            }
            "approve" => {
                let di = match (0..nd).find(|i| self.w.m.daos[*i].kind == Kind::Nft) {
                    Some(i) if kind != Kind::Nft => i,
                    _ => di,
                };
                self.approve(di)
            }
            "create_council" => {
                let d = self.w.m.daos[di].clone();
                let ms: Vec<String> = d.council.keys().cloned().collect();
                let s = if !ms.is_empty() && self.r().chance(4, 5) { self.r().pick_c(&ms) } else { self.user() };
                let a = if self.r().chance(1, 8) {
                    self.bad_actions(di)
                } else {
                    let k = self.r().pick_c(&["meta", "wl", "nftwl", "upgrade", "spend", "msgs", ""]);
                    let a = self.action(di, k);
                    let mut v = vec![a];
                    if self.r().chance(1, 4) {
                        // long lists, the odd one at the end
                        let c = d.council_cfg.clone().map(|c| c.allowed).unwrap_or_default();
                        let k = if c.iter().any(|x| x == "update_metadata") { "meta" } else { "nftwl" };
                        let n = self.r().range(1, 9);
                        for _ in 0..n {
                            let a = self.action(di, k);
                            v.insert(0, a);
                        }
                    } else if self.r().chance(1, 3) {
                        let k = self.r().pick_c(&["meta", "wl", "msgs"]);
                        v.push(self.action(di, k));
                    }
                    Value::Array(v)
                };
                let n = self.r().below(1000000);
                let m = ex(d.c("controller"), json!({"create_council_proposal": {"title": format!("c{n}"), "description": "council", "proposal_actions": a, "deposit_owner": null}}), &[]);
                Some(self.op("create council", &["C07", "C06"], &s, vec![m], di))
            }
            "vote" => self.vote(di, false),
            "council_vote" => {
                let c = self.r().chance(9, 10);
                self.vote(di, c)
            }
            "execute" => self.execute(di, false),
            "exec_now" => self.execute(di, true),
            "hostile" => self.hostile(di),
            "fake" => self.fake(di),
            "distribute" => self.distribute(di),
            "claim_rewards" => self.claim_rewards(di),
            "donate" => self.donate(di),
            "sign" => {
                let u = self.user();
                let a = self.w.m.daos[di].c("attestation").to_string();
                if a.is_empty() {
                    None
                } else {
                    Some(self.op("sign", &["C16"], &u, vec![ex(&a, json!({"sign_attestation": {}}), &[])], di))
                }
            }
            "time" => {
                self.time();
                None
            }
            "pass" | "members" | "min" | "wl" | "att" | "gov" | "meta" | "spend" | "hook" => {
                let mut want = if k == "pass" { "" } else { k };
                let target = if k == "members" { (0..nd).find(|i| self.w.m.daos[*i].kind == Kind::Multisig).unwrap_or(di) } else { di };
                if k == "members" {
                    if self.w.m.daos[target].kind != Kind::Multisig {
                        want = "";
                    } else if self.r().chance(1, 2) {
                        want = "setmembers";
                    }
                }
                self.pass(target, want, false);
                None
            }
            "flip" => {
                self.flip(di);
                None
            }
            "laps" => {
                self.laps(di);
                None
            }
            "settle" => {
                self.settle(di);
                None
            }
            "pass_council" => {
                self.pass(di, "", true);
                None
            }
            "fault" => {
                let mut op = match self.r().below(5) {
                    0 | 1 => self.stake(di, None),
                    2 => self.unstake(di),
                    3 => self.claim_rewards(di),
                    _ => self.execute(di, true),
                };
                if let Some(o) = &mut op {
                    o.fault = Some(self.w.rng.range(1, 10) as usize);
                }
                op
            }
            "multi" => {
                // several operations of one user in one transaction
                let a = self.stake(di, None);
                match a {
                    Some(mut o) => {
                        let d = self.w.m.daos[di].clone();
                        let open = self.open_props(di, false);
                        if !open.is_empty() {
                            let id = self.r().pick_c(&open);
                            let oo = self.r().pick_c(&["yes", "no", "veto", "abstain"]);
                            let v = ex(d.c("controller"), json!({"cast_vote": {"proposal_id": id, "outcome": oo}}), &[]);
                            if self.r().chance(1, 2) {
                                o.msgs.push(v);
                            } else {
                                o.msgs.insert(0, v);
                            }
                        }
                        if kind != Kind::Nft && self.r().chance(1, 2) {
                            o.msgs.push(ex(d.c("membership"), json!({"unstake": {"amount": "1"}}), &[]));
                        }
                        o.name = "stake and more".into();
                        Some(o)
                    }
                    None => None,
                }
            }
            _ => None,
        };
        if let Some(op) = op {
            self.w.step(op);
        }
    }

    pub fn run(&mut self, steps: usize) {
        while self.w.mon.step < steps && !self.w.void {
            let before = self.w.mon.step;
            self.one();
            if self.w.mon.step == before && self.w.rng.chance(1, 50) {
                self.w.mon.step += 1;
            }
            if self.w.mon.silenced.contains(self.focus) {
                break;
            }
        }
    }
}

/// every operation that only governance (or the contract itself, or its creator) may perform
pub fn privileged_msgs(d: &DaoState, rec: &str) -> Vec<(&'static str, Value)> {
    let nc = json!("no_change");
    let mut l = vec![
        ("enterprise", json!({"update_metadata": {"name": {"change": "hacked"}, "description": nc, "logo": nc, "github_username": nc, "discord_username": nc, "twitter_username": nc, "telegram_username": nc}})),
        ("enterprise", json!({"set_attestation": {"attestation_text": "hacked"}})),
        ("enterprise", json!({"remove_attestation": {}})),
        ("enterprise", json!({"execute_msgs": {"msgs": [serde_json::to_string(&ex(rec, json!({"ping": {}}), &[])).unwrap()]}})),
        ("enterprise", json!({"update_config": {"new_factory_contract": {"change": "hacker"}, "new_versioning_contract": {"change": "hacker"}}})),
        ("enterprise", json!({"upgrade_dao": {"new_version": {"major": 9, "minor": 0, "patch": 0}, "migrate_msgs": []}})),
        ("enterprise", json!({"finalize_instantiation": {"enterprise_treasury_contract": rec, "enterprise_governance_contract": rec, "enterprise_governance_controller_contract": rec, "enterprise_outposts_contract": rec, "funds_distributor_contract": rec, "membership_contract": rec, "council_membership_contract": rec, "attestation_contract": null}})),
        ("governance", json!({"create_poll": {"proposer": "mallory", "deposit_amount": "0", "label": "x", "description": "x", "scheme": "coin_voting", "ends_at": "1900000000000000000", "quorum": "0.1", "threshold": "0.1", "veto_threshold": null}})),
        ("governance", json!({"cast_vote": {"poll_id": "1", "outcome": "yes", "voter": "mallory", "amount": "1000"}})),
        ("governance", json!({"update_votes": {"voter": "alice", "new_amount": "5"}})),
        ("governance", json!({"end_poll": {"poll_id": "1", "maximum_available_votes": "1", "error_if_already_ended": false, "allow_early_ending": true}})),
        ("controller", json!({"weights_changed": {"weight_changes": [{"user": "alice", "old_weight": "0", "new_weight": "1000"}]}})),
        ("controller", json!({"execute_proposal_actions": {"proposal_id": 1}})),
        ("controller", json!({"deploy_initial_cross_chain_treasuries": {}})),
        ("treasury", json!({"set_admin": {"new_admin": "mallory"}})),
        ("treasury", json!({"update_asset_whitelist": {"add": [{"native": "uhack"}], "remove": []}})),
        ("treasury", json!({"update_nft_whitelist": {"add": ["hacked"], "remove": []}})),
        ("treasury", json!({"spend": {"recipient": "mallory", "assets": [{"info": {"native": "uother"}, "amount": "1"}]}})),
        ("treasury", json!({"distribute_funds": {"funds": [{"info": {"native": GLOBAL_DENOM}, "amount": "1"}], "funds_distributor_contract": d.c("distributor")}})),
        ("treasury", json!({"execute_cosmos_msgs": {"msgs": [serde_json::to_string(&bank("mallory", "uother", 1)).unwrap()]}})),
        ("treasury", json!({"perform_next_migration_step": {"submsgs_limit": null}})),
        ("distributor", json!({"update_user_weights": {"new_user_weights": [{"user": "mallory", "weight": "1000"}]}})),
        ("distributor", json!({"update_minimum_eligible_weight": {"minimum_eligible_weight": "7"}})),
        ("membership", json!({"add_weight_change_hook": {"hook_addr": rec}})),
        ("membership", json!({"remove_weight_change_hook": {"hook_addr": d.c("controller")}})),
        ("council", json!({"update_members": {"update_members": [{"user": "mallory", "weight": "1"}]}})),
        ("council", json!({"set_members": {"new_members": [{"user": "mallory", "weight": "1"}]}})),
        ("council", json!({"add_weight_change_hook": {"hook_addr": rec}})),
        ("council", json!({"remove_weight_change_hook": {"hook_addr": d.c("controller")}})),
        ("outposts", json!({"execute_cross_chain_treasury": {"msg": {"update_nft_whitelist": {"add": ["hacked"], "remove": []}}, "treasury_target": {"cross_chain_msg_spec": {"chain_id": "c", "chain_bech32_prefix": "c", "src_ibc_port": "p", "src_ibc_channel": "c", "dest_ibc_port": "p", "dest_ibc_channel": "c", "uluna_denom": "u", "timeout_nanos": null}}}})),
        ("treasury", json!({"update_asset_whitelist": {"add": [], "remove": []}})),
        ("treasury", json!({"update_asset_whitelist": {"add": [], "remove": [{"native": "ustake"}]}})),
        ("treasury", json!({"update_nft_whitelist": {"add": [], "remove": ["nftcoll1"]}})),
        ("treasury", json!({"spend": {"recipient": "mallory", "assets": []}})),
        ("treasury", json!({"execute_cosmos_msgs": {"msgs": []}})),
        ("distributor", json!({"update_user_weights": {"new_user_weights": []}})),
        ("distributor", json!({"update_minimum_eligible_weight": {"minimum_eligible_weight": "0"}})),
        ("distributor", json!({"update_minimum_eligible_weight": {"minimum_eligible_weight": "340282366920938463463374607431768211455"}})),
        ("enterprise", json!({"execute_msgs": {"msgs": []}})),
        ("enterprise", json!({"update_config": {"new_factory_contract": nc, "new_versioning_contract": nc}})),
        ("controller", json!({"weights_changed": {"weight_changes": []}})),
        ("council", json!({"set_members": {"new_members": []}})),
        ("outposts", json!({"execute_msg_reply_callback": {"callback_id": 1, "events": [], "data": null}})),
    ];
    if d.kind == Kind::Multisig {
        l.push(("membership", json!({"update_members": {"update_members": [{"user": "mallory", "weight": "1000"}]}})));
        l.push(("membership", json!({"set_members": {"new_members": [{"user": "mallory", "weight": "1000"}]}})));
    } else {
        l.push(("membership", json!({"update_unlocking_period": {"new_unlocking_period": {"time": 0}}})));
        l.push(("membership", json!({"update_unlocking_period": {"new_unlocking_period": null}})));
    }
    l
}
