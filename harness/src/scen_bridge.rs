//! NFTs arriving over the bridge: callback contract, not yet bridged collections, stakes.
use crate::chain::Tx;
use crate::lite::*;
use crate::mon::{Mon, Rng};
use crate::obs::*;
use crate::run::Out;
use crate::workload::USERS;
use crate::world::*;
use cosmwasm_std::Binary;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

fn b64(v: &Value) -> String {
    Binary(serde_json::to_vec(v).unwrap()).to_base64()
}

#[derive(Clone)]
struct Dao {
    ent: String,
    mem: String,
    att: Option<String>,
    /// Some(class) while the collection is unknown
    class: Option<String>,
    pinned: Option<String>,
    signed: BTreeSet<String>,
    stakes: BTreeMap<String, String>,
    /// (user, tokens, release time in nanoseconds)
    claims: Vec<(String, Vec<String>, u64)>,
    unlock: u64,
}

struct S {
    b: Base,
    r: Rng,
    mon: Mon,
    log: Vec<String>,
    bridge: String,
    proxy: String,
    colls: Vec<String>,
    classes: BTreeMap<String, String>,
    daos: Vec<Dao>,
    /// (collection, token) -> owner
    own: BTreeMap<(String, String), String>,
    next: u64,
}

impl S {
    fn chk<T: std::hash::Hash>(&mut self, kind: &str, cov: T, ok: bool, msg: impl FnOnce() -> String) {
        self.mon.check("C23", kind, cov, ok, msg);
    }
    fn mint(&mut self, coll: &str, owner: &str) -> String {
        self.next += 1;
        // the same token ids exist in several collections
        let mut id = format!("t{}", self.next / 2);
        if self.own.contains_key(&(coll.to_string(), id.clone())) {
            self.next += 1;
            id = format!("u{}", self.next);
        }
        let t = self.b.c.execute("nftadmin", coll, &json!({"mint": {"token_id": id, "owner": owner, "token_uri": null, "extension": null}}), &[]);
        assert!(t.ok, "mint {}", t.err);
        self.own.insert((coll.to_string(), id.clone()), owner.to_string());
        id
    }
    /// the collection the DAO would accept an NFT from right now
    fn accepts(&self, d: usize) -> Option<String> {
        let d = &self.daos[d];
        d.pinned.clone().or_else(|| d.class.as_ref().and_then(|k| self.classes.get(k).cloned()))
    }
    fn restricted(&self, d: usize, u: &str) -> bool {
        self.daos[d].att.is_some() && !self.daos[d].signed.contains(u)
    }
    /// Err: why the stake of `ids` has to fail; Ok: state updated
    fn stake(&mut self, d: usize, coll: &str, from: &str, ids: &[String], user: &str) -> Result<(), &'static str> {
        let mut own = self.own.clone();
        let mem = self.daos[d].mem.clone();
        for id in ids {
            let k = (coll.to_string(), id.clone());
            if own.get(&k).map(|s| s.as_str()) != Some(from) {
                return Err("not the sender's NFT");
            }
            match self.accepts(d) {
                None => return Err("collection not bridged yet"),
                Some(x) if x != coll => return Err("foreign collection"),
                _ => {}
            }
            if self.restricted(d, user) {
                return Err("restricted user");
            }
            if user.len() < 3 {
                return Err("invalid user");
            }
            own.insert(k, mem.clone());
        }
        if !ids.is_empty() {
            self.daos[d].pinned = Some(coll.to_string());
        }
        for id in ids {
            self.daos[d].stakes.insert(id.clone(), user.to_string());
        }
        self.own = own;
        Ok(())
    }
    fn observe(&mut self, why: &str) {
        let c = &self.b.c;
        let mut bad: Option<String> = None;
        let mut n = 0;
        for ((coll, id), o) in &self.own {
            let got = c.q(coll, json!({"owner_of": {"token_id": id, "include_expired": null}})).map(|v| st(&v["owner"])).unwrap_or_default();
            n += 1;
            if got != *o {
                bad = Some(format!("{coll}/{id} is owned by {got}, expected {o}"));
            }
        }
        let dn = self.daos.len();
        self.chk("every NFT is where it belongs", (why.to_string(), n), bad.is_none(), || format!("{why}: {}", bad.unwrap_or_default()));
        for i in 0..dn {
            let d = self.daos[i].clone();
            let c = &self.b.c;
            let mut got: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
            let mut want: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
            for (t, u) in &d.stakes {
                want.entry(u.clone()).or_default().insert(t.clone());
            }
            let mut weights = vec![];
            for u in USERS {
                let toks: BTreeSet<String> = walk(c, &d.mem, "user_stake", &json!({ "user": u }), "tokens", Some(10), &|v| v.clone()).unwrap_or_default().iter().map(st).collect();
                if !toks.is_empty() {
                    got.insert(u.to_string(), toks);
                }
                let w = c.q(&d.mem, json!({"user_weight": {"user": u}})).map(|v| st(&v["weight"])).unwrap_or_default();
                let e = want.get(u).map_or(0, |s| s.len()).to_string();
                if w != e {
                    weights.push(format!("{u} weighs {w}, expected {e}"));
                }
            }
            let total = c.q(&d.mem, json!({"total_weight": {"expiration": {"never": {}}}})).map(|v| st(&v["total_weight"])).unwrap_or_default();
            if total != d.stakes.len().to_string() {
                weights.push(format!("total weight {total}, expected {}", d.stakes.len()));
            }
            let all: BTreeSet<String> = walk(c, &d.mem, "staked_nfts", &json!({}), "nfts", Some(10), &|v| v.clone()).unwrap_or_default().iter().map(st).collect();
            let wall: BTreeSet<String> = d.stakes.keys().cloned().collect();
            let cfg = c.q(&d.mem, json!({"nft_config": {}})).map(|v| st(&v["nft_contract"])).ok();
            let ncfg = c.q(&d.mem, json!({"nft_contract_config": {}})).unwrap_or_default();
            let cov = (d.class.is_some(), d.pinned.is_some(), d.stakes.len());
            self.chk("stakes as notified", cov, got == want && all == wall, || format!("{why}: dao {i} stakes {got:?} / {all:?}, expected {want:?}"));
            self.chk("weights follow stakes", cov, weights.is_empty(), || format!("{why}: dao {i} {weights:?}"));
            // fixed by the first accepted NFT; what the bridge reports until then
            let acc = self.accepts(i);
            self.chk("collection fixed by the first NFT", cov, cfg == acc, || format!("{why}: dao {i} stands on {cfg:?}, expected {acc:?}"));
            let want_cfg = match (&d.pinned, &d.class) {
                (Some(p), _) => json!({"cw721": {"contract": p}}),
                (None, Some(k)) => json!({"ics721": {"contract": self.bridge, "class_id": k}}),
                _ => Value::Null,
            };
            self.chk("collection config", cov, ncfg["nft_contract"] == want_cfg, || format!("{why}: dao {i} reports {ncfg}, expected {want_cfg}"));
        }
    }
    fn verdict(&mut self, what: &str, t: &Tx, want: Result<(), &'static str>, n: usize) {
        let ok = t.ok == want.is_ok() && (t.ok || t.no_effect());
        let cov = (what.to_string(), want, n.min(6));
        self.chk("notification takes effect wholly or not at all", cov, ok, || {
            format!("{what}: expected {want:?}, got ok={} {} with writes {:?}", t.ok, t.err, t.writes.keys().collect::<Vec<_>>())
        });
    }
    fn packet(&mut self, class: &str, ids: &[String], sender: &str) -> Value {
        let full = self.r.chance(1, 2);
        let opt = |v: Value| if full { v } else { Value::Null };
        json!({"classId": class, "classUri": opt(json!("uri")), "classData": opt(json!("e30=")), "tokenIds": ids,
            "tokenUris": opt(json!(ids.iter().map(|i| format!("u{i}")).collect::<Vec<_>>())), "tokenData": null,
            "sender": sender, "receiver": self.proxy, "memo": opt(json!("memo"))})
    }
    fn set_class(&mut self, class: &str, coll: &str) {
        self.classes.insert(class.into(), coll.into());
        let m = json!({"set": {"classes": self.classes}});
        let t = self.b.c.execute("op", &self.bridge.clone(), &m, &[]);
        assert!(t.ok, "{}", t.err);
    }
    fn step(&mut self) {
        let users: Vec<String> = USERS.iter().map(|s| s.to_string()).collect();
        let d = self.r.idx(self.daos.len());
        let user = self.r.pick_c(&users);
        match self.r.below(24) {
            0..=11 => {
                // an arrival: fresh NFTs (and sometimes something odd) belonging to the callback contract
                let coll = match self.accepts(d) {
                    Some(c) if self.r.chance(5, 6) => c,
                    _ => self.r.pick_c(&self.colls.clone()),
                };
                let n = if self.r.chance(1, 40) { self.r.range(13, 70) as usize } else { self.r.pick_c(&[0usize, 1, 1, 1, 2, 3, 5, 12]) };
                let proxy = self.proxy.clone();
                let mut ids: Vec<String> = (0..n).map(|_| self.mint(&coll, &proxy)).collect();
                let mut user = user;
                let mut sender = self.bridge.clone();
                match self.r.below(12) {
                    0 if n > 0 => ids.push(ids[0].clone()),
                    1 => ids.push("missing".into()),
                    2 => {
                        // someone else's NFT amid the others
                        let o = self.r.pick_c(&users);
                        let x = self.mint(&coll, &o);
                        let at = self.r.idx(ids.len() + 1);
                        ids.insert(at, x);
                    }
                    3 => {
                        // one that is staked already
                        if let Some(x) = self.daos[d].stakes.keys().next().cloned() {
                            ids.push(x);
                        }
                    }
                    4 => user = self.r.pick_c(&["x".to_string(), String::new()]),
                    5 | 6 => {
                        sender = self.r.pick_c(&[
                            "user1".to_string(), user.clone(), self.proxy.clone(), self.daos[d].mem.clone(), self.daos[d].ent.clone(), coll.clone(), self.b.factory.clone(), "nftadmin".into(), "op".into(), "deployer".into(),
                        ])
                    }
                    // leftovers of arrivals that failed or carried no stake request
                    7 | 8 => {
                        let left: Vec<String> = self.own.iter().filter(|((c, t), o)| *c == coll && **o == proxy && !ids.contains(t)).map(|((_, t), _)| t.clone()).take(3).collect();
                        ids.extend(left);
                    }
                    _ => {}
                }
                let hook = json!({"stake": {"user": user, "membership_contract": self.daos[d].mem}});
                let known = !self.r.chance(1, 10);
                let hook = if known {
                    b64(&hook)
                } else {
                    match self.r.below(5) {
                        0 => b64(&json!({"unstake": {"user": user}})),
                        1 => b64(&json!({"stake": {"user": user}})),
                        2 => b64(&json!({"stake": {"user": user, "membership_contract": self.daos[d].mem, "x": 1}})),
                        3 => "".to_string(),
                        _ => Binary(b"not json".to_vec()).to_base64(),
                    }
                };
                let class = self.daos[d].class.clone().unwrap_or("class-x".into());
                // the packet's own sender is the remote sender, unrelated to the stake's user
                let from = self.r.pick_c(&users);
                let p = self.packet(&class, &ids, &from);
                let msg = json!({"ics721_receive_callback": {"nft_contract": coll, "original_packet": p, "msg": hook}});
                let fault = if self.r.chance(1, 12) { self.r.range(1, 2 * ids.len() as u64 + 2) } else { 0 };
                let what = format!("arrival of {ids:?} of {coll} for {user} in dao {d} reported by {sender}{}", if known { "" } else { ", unknown request" });
                self.mon.ctx = what.clone();
                self.log.push(what.clone());
                if fault > 0 {
                    self.b.c.inject_failure(fault as usize);
                }
                let t = self.b.c.execute(&sender, &self.proxy.clone(), &msg, &[]);
                self.log.push(format!("  -> {} {}", t.ok, t.err));
                if sender != self.bridge {
                    let ok = !t.ok && t.no_effect();
                    self.chk("only the bridge is heard", (sender.len(), ids.len(), known), ok, || format!("{what}: accepted"));
                } else if t.fault_hit {
                    self.verdict("interrupted arrival", &t, Err("interrupted"), ids.len());
                } else if !known {
                    // nothing may be staked or moved; whether the notification is accepted is not said
                    let moved = t.live().filter(|c| c.target != self.proxy).count();
                    self.chk("unknown request moves nothing", ids.len(), moved == 0, || format!("{what}: {:?}", t.trace.iter().map(|c| c.key()).collect::<Vec<_>>()));
                } else {
                    let want = self.stake(d, &coll, &proxy, &ids, &user);
                    self.verdict("arrival", &t, want, ids.len());
                }
            }
            12..=14 => {
                // a stake of an NFT held by a user
                let coll = match self.accepts(d) {
                    Some(c) if self.r.chance(3, 4) => c,
                    _ => self.r.pick_c(&self.colls.clone()),
                };
                let id = self.mint(&coll, &user);
                let to = self.r.pick_c(&users);
                let mem = self.daos[d].mem.clone();
                let what = format!("stake of {id} of {coll} by {user} for {to} in dao {d}");
                self.mon.ctx = what.clone();
                self.log.push(what.clone());
                let t = self.b.c.execute(&user, &coll, &json!({"send_nft": {"contract": mem, "token_id": id, "msg": b64(&json!({"stake": {"user": to}}))}}), &[]);
                self.log.push(format!("  -> {} {}", t.ok, t.err));
                let want = self.stake(d, &coll, &user, &[id], &to);
                self.verdict("direct stake", &t, want, 1);
            }
            15 | 16 => {
                // posing as the collection
                let id = format!("t{}", self.r.below(20));
                let who = self.r.pick_c(&[user.clone(), self.proxy.clone(), self.bridge.clone(), "nftadmin".to_string(), self.daos[d].ent.clone()]);
                let what = format!("{who} posing as the collection of dao {d}");
                self.mon.ctx = what.clone();
                self.log.push(what.clone());
                let t = self.b.c.execute(&who, &self.daos[d].mem.clone(), &json!({"receive_nft": {"sender": user, "token_id": id, "msg": b64(&json!({"stake": {"user": user}}))}}), &[]);
                self.chk("NFTs are accepted from the collection only", (self.daos[d].pinned.is_some(), who.len()), !t.ok && t.no_effect(), || format!("{what}: accepted"));
            }
            17 => {
                // the bridge learns of a class, or (hostile) changes its mind
                let class = format!("class{}", self.r.below(3));
                let fixed = self.classes.contains_key(&class);
                if !fixed || self.r.chance(1, 2) {
                    let coll = self.r.pick_c(&self.colls.clone());
                    self.log.push(format!("bridge reports {coll} for {class}"));
                    self.set_class(&class, &coll);
                }
            }
            18 | 19 => {
                let mine: Vec<String> = self.daos[d].stakes.iter().filter(|(_, u)| **u == user).map(|(t, _)| t.clone()).collect();
                let n = self.r.range(1, 3) as usize;
                let ids: Vec<String> = mine.into_iter().take(n).collect();
                let t = self.b.c.execute(&user, &self.daos[d].mem.clone(), &json!({"unstake": {"nft_ids": ids}}), &[]);
                self.log.push(format!("{user} unstakes {ids:?} in dao {d} -> {} {}", t.ok, t.err));
                self.mon.ctx = format!("{user} unstakes {ids:?}");
                if !ids.is_empty() {
                    self.chk("bridged NFTs can be unstaked", ids.len(), t.ok, || format!("{user} unstaking {ids:?}: {}", t.err));
                }
                if t.ok {
                    for i in &ids {
                        self.daos[d].stakes.remove(i);
                    }
                    let at = self.b.c.now().nanos() + self.daos[d].unlock * 1_000_000_000;
                    self.daos[d].claims.push((user.clone(), ids, at));
                }
            }
            20 => {
                let t = self.b.c.execute(&user, &self.daos[d].mem.clone(), &json!({"claim": {"user": null}}), &[]);
                self.log.push(format!("{user} claims in dao {d} -> {} {}", t.ok, t.err));
                let now = self.b.c.now().nanos();
                let dd = &mut self.daos[d];
                let (out, rest): (Vec<_>, Vec<_>) = dd.claims.drain(..).partition(|(u, _, at)| *u == user && *at <= now);
                dd.claims = rest;
                let coll = dd.pinned.clone();
                self.chk("claim possible once the collection is known", (coll.is_some(), out.len().min(3)), t.ok == coll.is_some(), || format!("claim by {user} in dao {d}: {} {}", t.ok, t.err));
                if let Some(coll) = coll {
                    for (u, ids, _) in out {
                        for i in ids {
                            self.own.insert((coll.clone(), i), u.clone());
                        }
                    }
                }
            }
            21 => {
                if let Some(a) = self.daos[d].att.clone() {
                    let t = self.b.c.execute(&user, &a, &json!({"sign_attestation": {}}), &[]);
                    self.log.push(format!("{user} signs in dao {d} {}", t.err));
                    if t.ok {
                        self.daos[d].signed.insert(user);
                    }
                }
            }
            _ => {
                let s = self.r.pick_c(&[1u64, 5, 50, 400]);
                self.b.c.advance(1, s * 1_000_000_000);
            }
        }
    }
}

pub fn bridge(focus: &'static str, seed: u64, steps: usize) -> Out {
    let mut r = Rng::new(seed);
    let b = base();
    let c = &b.c;
    let bridge = c.instantiate("op", b.codes.recorder, &json!({}), "bridge", None).unwrap();
    let proxy = c.instantiate("op", b.codes.ics721_proxy, &json!({ "ics721_proxy": bridge }), "cb", Some("deployer")).unwrap();
    let colls: Vec<String> = (0..4).map(|i| new_cw721(c, b.codes.cw721, &format!("c{i}"), &[])).collect();
    let mut daos = vec![];
    for i in 0..4usize {
        let unlock = r.pick_c(&[100u64, 300]);
        let ul = json!({ "time": unlock });
        let (mem, class, pinned) = match i {
            0 => (json!({"import_cw721": {"cw721_contract": colls[3], "unlocking_period": ul}}), None, Some(colls[3].clone())),
            _ => {
                let k = format!("class{}", (i - 1) % 2);
                (json!({"new_ics721": {"ics721_proxy": bridge, "class_id": k, "unlocking_period": ul}}), Some(k), None)
            }
        };
        let mut req = request(&format!("d{i}"), mem);
        req["minimum_weight_for_rewards"] = json!(r.pick_c(&["0", "1", "3"]));
        if r.chance(1, 3) {
            req["attestation_text"] = json!("terms");
        }
        let t = c.execute("creator", &b.factory, &json!({ "create_dao": req }), &[]);
        assert!(t.ok, "create: {}", t.err);
        let ent = created(&b, &t).unwrap();
        let comp = components_of(c, &ent);
        daos.push(Dao {
            ent, mem: comp["membership"].clone(), att: comp.get("attestation").cloned(), class, pinned, signed: BTreeSet::new(), stakes: BTreeMap::new(), claims: vec![], unlock,
        });
    }
    let mut s = S { b, r, mon: Mon::new(focus), log: vec![], bridge, proxy, colls, classes: BTreeMap::new(), daos, own: BTreeMap::new(), next: 0 };
    let cfg = s.b.c.q(&s.proxy, json!({"config": {}})).map(|v| st(&v["ics721_proxy"])).unwrap_or_default();
    let br = s.bridge.clone();
    s.chk("callback contract listens to the configured bridge", 0, cfg == br, || format!("{cfg} instead of {br}"));
    s.observe("start");
    for i in 0..steps {
        s.mon.step = i;
        if s.r.chance(1, 40) {
            let t = s.b.c.dispatch("deployer", vec![renew(&s.proxy, s.b.codes.ics721_proxy, &json!({}))]);
            s.log.push(format!("callback contract renewed in place -> {} {}", t.ok, t.err));
            let cfg = s.b.c.q(&s.proxy, json!({"config": {}})).map(|v| st(&v["ics721_proxy"])).unwrap_or_default();
            let br = s.bridge.clone();
            s.chk("callback contract renewed in place", 0, t.ok && cfg == br, || format!("{} {cfg} instead of {br}", t.err));
        }
        s.step();
        let why = s.log.last().cloned().unwrap_or_default();
        if s.mon.viols.is_empty() {
            s.observe(&why.split(' ').next().unwrap_or("").to_string());
        }
        if !s.mon.viols.is_empty() {
            break;
        }
    }
    Out { mon: s.mon, log: s.log }
}
