//! One simulated deployment (factory, registry, several DAOs, third-party tokens), the reference
//! model beside it, and the monitors comparing the two after every transaction.
use crate::chain::{Chain, Tx};
use crate::codes::{store_all, Codes};
use crate::model::*;
use crate::mon::{Mon, Rng};
use crate::obs::*;
use cosmwasm_std::{Coin, CosmosMsg};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub struct World {
    pub c: Chain,
    pub codes: Codes,
    pub m: Model,
    pub mon: Mon,
    pub rng: Rng,
    pub users: Vec<String>,
    pub denoms: Vec<String>,
    pub cw20s: Vec<String>,
    pub cw721s: Vec<String>,
    pub recs: Vec<String>,
    pub versioning: String,
    pub factory: String,
    pub log: Vec<String>,
    /// the model lost track (a message outside its scope): stop judging this world
    pub void: bool,
    pub dist_cov: BTreeMap<usize, u64>,
}

pub struct Op {
    pub name: String,
    pub tags: Tags,
    pub sender: String,
    pub msgs: Vec<CosmosMsg>,
    /// DAO the operation is meant for
    pub dao: Option<usize>,
    pub fault: Option<usize>,
}

pub fn coins_of(f: &[(&str, u128)]) -> Vec<Coin> {
    f.iter()
        .map(|(d, a)| Coin {
            denom: d.to_string(),
            amount: (*a).into(),
        })
        .collect()
}
pub fn ex(addr: &str, msg: Value, funds: &[(&str, u128)]) -> CosmosMsg {
    Chain::exec_msg(addr, &msg, &coins_of(funds))
}
pub fn cw20_send(token: &str, to: &str, amount: u128, msg: Value) -> CosmosMsg {
    ex(token, json!({"send": {"contract": to, "amount": amount.to_string(), "msg": to_b64(&msg)}}), &[])
}
pub fn nft_send(coll: &str, to: &str, id: &str, msg: Value) -> CosmosMsg {
    ex(coll, json!({"send_nft": {"contract": to, "token_id": id, "msg": to_b64(&msg)}}), &[])
}

/// JSON equality in which a missing field and null are the same
pub fn jeq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            x.iter().all(|(k, v)| jeq(v, y.get(k).unwrap_or(&Value::Null)))
                && y.iter().all(|(k, v)| x.contains_key(k) || v.is_null())
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| jeq(a, b)),
        _ => a == b,
    }
}

pub fn version_info(codes: &Codes, v: (u64, u64, u64), second: bool, ent: u64) -> Value {
    let c = codes;
    let p = |a: u64, b: u64| if second { b } else { a };
    json!({
        "version": {"major": v.0, "minor": v.1, "patch": v.2},
        "changelog": [format!("release {}.{}.{}", v.0, v.1, v.2)],
        "attestation_code_id": p(c.attestation, c.attestation2),
        "enterprise_code_id": ent,
        "enterprise_governance_code_id": c.governance,
        "enterprise_governance_controller_code_id": c.controller,
        "enterprise_outposts_code_id": p(c.outposts, c.outposts2),
        "enterprise_treasury_code_id": c.treasury,
        "funds_distributor_code_id": p(c.distributor, c.distributor2),
        "token_staking_membership_code_id": p(c.token, c.token2),
        "denom_staking_membership_code_id": p(c.denom, c.denom2),
        "nft_staking_membership_code_id": p(c.nft, c.nft2),
        "multisig_membership_code_id": p(c.multisig, c.multisig2),
    })
}

/// a contract renewed in place
pub fn renew(contract: &str, code: u64, msg: &Value) -> CosmosMsg {
    cosmwasm_std::WasmMsg::Migrate { contract_addr: contract.to_string(), new_code_id: code, msg: cosmwasm_std::to_json_binary(msg).unwrap() }.into()
}

pub struct Base {
    pub c: Chain,
    pub codes: Codes,
    pub versioning: String,
    pub factory: String,
}

pub const GLOBAL_DENOM: &str = "uglobal";

pub fn base() -> Base {
    base_with(&[], &json!([{"native": GLOBAL_DENOM}]), &json!([]))
}

/// `versions`: (version, second component set, enterprise code selector: 0 real, 1 real2, 2 step, 3 step2)
pub fn base_with(versions: &[((u64, u64, u64), bool, u8)], gwl: &Value, gnft: &Value) -> Base {
    let c = Chain::new();
    let codes = store_all(&c);
    let versioning = c
        .instantiate("vadmin", codes.versioning, &json!({"admin": "vadmin"}), "versioning", Some("deployer"))
        .expect("versioning");
    let def = [((1, 0, 0), false, 0u8)];
    let versions = if versions.is_empty() { &def[..] } else { versions };
    for (v, second, e) in versions {
        let ent = [codes.enterprise, codes.enterprise2, codes.step, codes.step2][*e as usize];
        let tx = c.execute("vadmin", &versioning, &json!({"add_version": {"version": version_info(&codes, *v, *second, ent)}}), &[]);
        assert!(tx.ok, "add_version: {}", tx.err);
    }
    let factory = c
        .instantiate(
            "fadmin",
            codes.factory,
            &json!({"config": {"admin": "fadmin", "enterprise_versioning": versioning, "cw20_code_id": codes.cw20, "cw721_code_id": codes.cw721},
                "global_asset_whitelist": gwl, "global_nft_whitelist": gnft}),
            "factory",
            Some("deployer"),
        )
        .expect("factory");
    Base {
        c,
        codes,
        versioning,
        factory,
    }
}

pub fn new_cw20(b: &Chain, code: u64, name: &str, balances: &[(String, u128)]) -> String {
    let bal: Vec<Value> = balances.iter().map(|(a, n)| json!({"address": a, "amount": n.to_string()})).collect();
    b.instantiate(
        "cw20admin",
        code,
        &json!({"name": name, "symbol": "TOK", "decimals": 6, "initial_balances": bal, "mint": {"minter": "cw20admin", "cap": null}, "marketing": null}),
        name,
        None,
    )
    .expect("cw20")
}

pub fn new_cw721(b: &Chain, code: u64, name: &str, tokens: &[(String, String)]) -> String {
    let a = b
        .instantiate("nftadmin", code, &json!({"name": name, "symbol": "NFT", "minter": "nftadmin"}), name, None)
        .expect("cw721");
    for (id, owner) in tokens {
        let tx = b.execute("nftadmin", &a, &json!({"mint": {"token_id": id, "owner": owner, "token_uri": null, "extension": null}}), &[]);
        assert!(tx.ok, "mint: {}", tx.err);
    }
    a
}

pub fn metadata(name: &str) -> Value {
    json!({"name": name, "description": "a dao", "logo": "none",
        "socials": {"github_username": null, "discord_username": null, "twitter_username": null, "telegram_username": null}})
}

pub fn gov_json(g: &Gov) -> Value {
    json!({
        "quorum": dec_str(g.quorum), "threshold": dec_str(g.threshold),
        "veto_threshold": g.veto.map(dec_str), "vote_duration": g.duration,
        "minimum_deposit": g.min_deposit.map(|x| x.to_string()),
        "allow_early_proposal_execution": g.early,
    })
}

pub fn dur_json(d: &Dur) -> Value {
    match d {
        Dur::Time(t) => json!({ "time": t }),
        Dur::Height(h) => json!({ "height": h }),
    }
}

impl World {
    pub fn from_base(b: Base, focus: &'static str, seed: u64) -> World {
        let Base { c, codes, versioning, factory } = b;
        let m = Model {
            now: c.now().nanos(),
            height: c.height(),
            bal: BTreeMap::new(),
            nft: BTreeMap::new(),
            daos: vec![],
            logs: BTreeMap::new(),
            cw20s: BTreeSet::new(),
            cw721s: BTreeSet::new(),
            recorders: BTreeSet::new(),
            global_wl: BTreeSet::new(),
            versions: BTreeSet::new(),
            touch: BTreeSet::new(),
            voted: BTreeSet::new(),
            actions_fail: false,
            may_refuse: false,
            rewards_moved: BTreeSet::new(),
            executed_ok_actions: vec![],
            depth: 0,
        };
        World {
            c,
            codes,
            m,
            mon: Mon::new(focus),
            rng: Rng::new(seed),
            users: vec![],
            denoms: vec![],
            cw20s: vec![],
            cw721s: vec![],
            recs: vec![],
            versioning,
            factory,
            log: vec![],
            void: false,
            dist_cov: BTreeMap::new(),
        }
    }

    pub fn create_dao(&self, creator: &str, msg: &Value) -> Result<String, String> {
        let tx = self.c.execute(creator, &self.factory, &json!({ "create_dao": msg }), &[]);
        if !tx.ok {
            return Err(tx.err);
        }
        tx.new_contracts
            .iter()
            .find(|a| {
                let code = self.c.contract_meta(a).map(|m| m.0).unwrap_or(0);
                [self.codes.enterprise, self.codes.enterprise2, self.codes.step, self.codes.step2].contains(&code)
            })
            .cloned()
            .ok_or_else(|| "no main contract".to_string())
    }

    /// start tracking a DAO (in the block of its creation)
    pub fn track(&mut self, ent: &str) -> usize {
        let d = self.observe(ent, None, &BTreeSet::new(), 0);
        let mut d = match d {
            Ok(d) => d,
            Err((p, e)) => {
                self.mon.fail(p, "query of a new dao", e);
                self.void = true;
                return 0;
            }
        };
        let e = (self.c.height(), self.c.now().nanos(), d.total);
        d.hid.totals = vec![e];
        d.hid.council_totals = vec![(e.0, e.1, d.council_total)];
        d.hid.next_prop = 1;
        let ctrl = d.c("controller").to_string();
        d.hid.hooks.insert(ctrl);
        d.hid.had_min = d.min_weight > 1;
        self.m.daos.push(d);
        self.m.daos.len() - 1
    }

    pub fn observe(&mut self, ent: &str, prev: Option<&DaoState>, skip: &BTreeSet<u64>, nprops: u64) -> Result<DaoState, ObsErr> {
        let mut o = Observer {
            users: &self.users,
            denoms: &self.denoms,
            cw20s: &self.cw20s,
            bad: vec![],
        };
        let r = o.dao(&self.c, ent, prev, skip, nprops);
        let bad = std::mem::take(&mut o.bad);
        for (p, e) in bad {
            self.mon.fail(p, "queries agree", e);
        }
        r
    }

    /// take over all balances from the chain
    pub fn load_balances(&mut self) {
        self.m.bal.retain(|k, _| !k.1.starts_with("n:"));
        for ((a, d), n) in self.c.st.borrow().bank.iter() {
            if *n > 0 {
                self.m.bal.insert((a.clone(), nat(d)), *n);
            }
        }
        for t in self.cw20s.clone() {
            for (a, n) in self.cw20_accounts(&t) {
                self.m.bal.insert((a, tok(&t)), n);
            }
        }
        for t in self.cw721s.clone() {
            for (id, o) in self.nft_owners(&t) {
                self.m.nft.insert((t.clone(), id), (o, Default::default()));
            }
        }
    }
    pub fn cw20_accounts(&self, t: &str) -> BTreeMap<String, u128> {
        let mut out = BTreeMap::new();
        for a in walk(&self.c, t, "all_accounts", &json!({}), "accounts", Some(30), &|v| v.clone()).unwrap_or_default() {
            let a = st(&a);
            let n = uint(&self.c.q(t, json!({"balance": {"address": a}})).unwrap_or(Value::Null)["balance"]);
            if n > 0 {
                out.insert(a, n);
            }
        }
        out
    }
    pub fn nft_owners(&self, t: &str) -> BTreeMap<String, String> {
        let mut out = BTreeMap::new();
        for id in walk(&self.c, t, "all_tokens", &json!({}), "tokens", Some(100), &|v| v.clone()).unwrap_or_default() {
            let id = st(&id);
            let o = st(&self.c.q(t, json!({"owner_of": {"token_id": id}})).unwrap_or(Value::Null)["owner"]);
            out.insert(id, o);
        }
        out
    }

    pub fn sync_clock(&mut self) {
        self.m.now = self.c.now().nanos();
        self.m.height = self.c.height();
    }

    // ---- the monitored step ------------------------------------------------------------------

    pub fn note(&mut self, s: String) {
        if self.log.len() < 5000 {
            self.log.push(s);
        }
    }

    pub fn step(&mut self, op: Op) -> Option<Tx> {
        self.sync_clock();
        self.mon.step += 1;
        self.m.touch.clear();
        self.m.voted.clear();
        self.m.rewards_moved.clear();
        self.m.executed_ok_actions.clear();
        self.m.actions_fail = false;
        self.m.may_refuse = false;
        let mut next = self.m.clone();
        let exp = next.tx(&op.sender, &op.msgs);
        if let Err(e) = &exp {
            if e.unk {
                // outside of the model: do not run it
                return None;
            }
        }
        if let Some(n) = op.fault {
            self.c.inject_failure(n);
        }
        let tx = self.c.dispatch(&op.sender, op.msgs.clone());
        {
            let msgs: Vec<Value> = op.msgs.iter().map(show).collect();
            let s = format!(
                "#{} t={} h={} {} {}{} -> {}{}",
                self.mon.step,
                self.m.now,
                self.m.height,
                op.sender,
                op.name,
                if op.fault.is_some() { format!(" [fault at dispatch {}{}]", op.fault.unwrap(), if tx.fault_hit { ", hit" } else { "" }) } else { String::new() },
                if tx.ok { "ok" } else { "refused: " },
                if tx.ok { String::new() } else { tx.err.clone() },
            );
            let s = format!("{s} {}", serde_json::to_string(&msgs).unwrap());
            self.mon.ctx = s.chars().take(700).collect();
            self.note(s);
        }
        let mut exp = exp;
        if tx.fault_hit {
            let stakeop = op.name.starts_with("stake") || op.name.starts_with("unstake");
            if !tx.ok {
                self.mon.check("C12", "weight change undone when propagation fails", (&op.name, op.fault), tx.no_effect(), || "a failed transaction left changes".into());
                return Some(tx);
            }
            // a failure was swallowed: only action execution of a passed proposal may do that
            let mut alt = self.m.clone();
            alt.actions_fail = true;
            let r = alt.tx(&op.sender, &op.msgs);
            let absorbed = r.is_ok() && alt.executed_ok_actions.iter().any(|x| !x.2);
            for t in if stakeop { vec!["C12", "C09"] } else { vec!["C04"] } {
                self.mon.check(t, "failure of a nested message is not swallowed", (&op.name, op.fault), absorbed, || {
                    format!("{}: nested message {:?} failed yet the transaction succeeded", op.name, op.fault)
                });
            }
            if !absorbed {
                self.void = true;
                return Some(tx);
            }
            next = alt;
            exp = r;
        }
        match (&exp, tx.ok) {
            (Err(e), false) => {
                for t in tags_or(&e.tags, &op.tags) {
                    self.mon.check(t, "refused as it must be", (&op.name, &e.why, op.dao.map(|d| self.m.daos[d].kind)), true, String::new);
                }
                let why = e.why.clone();
                if let Some(t) = tags_or(&e.tags, &op.tags).first() {
                    let m = show(&op.msgs[0]);
                    self.mon.sample(t, || format!("{} by {} refused ({why}): {m}", op.name, op.sender));
                }
            }
            (Err(e), true) => {
                let msg = format!("{} by {} was accepted although: {} — {}", op.name, op.sender, e.why, show_all(&op.msgs));
                for t in tags_or(&e.tags, &op.tags) {
                    self.mon.check(t, "refused as it must be", (&op.name, &e.why), false, || msg.clone());
                }
                self.void = true;
            }
            (Ok(()), false) if next.may_refuse && tx.no_effect() => {}
            (Ok(()), false) => {
                let mut tags = op.tags.clone();
                if let Some(d) = op.dao {
                    let d = &self.m.daos[d];
                    if d.att && !tags.contains(&"C16") {
                        tags.push("C16");
                    }
                    if (op.name.starts_with("stake") || op.name.starts_with("unstake")) && !tags.contains(&"C12") {
                        tags.push("C12");
                    }
                    if op.name.starts_with("distribute") {
                        tags.push("C15");
                    }
                }
                let msg = format!("{} by {} was refused although it must succeed: {} — {}", op.name, op.sender, tx.err, show_all(&op.msgs));
                for t in tags {
                    self.mon.check(t, "accepted as it must be", &op.name, false, || msg.clone());
                }
                self.void = true;
            }
            (Ok(()), true) => {
                let kind = op.dao.map(|d| self.m.daos[d].kind);
                for t in &op.tags {
                    self.mon.check(t, "accepted as it must be", (&op.name, kind), true, String::new);
                }
                self.compare(&op, &tx, next);
            }
        }
        Some(tx)
    }

    /// compare the chain with what the model says (`next`), then take over the chain's view
    fn compare(&mut self, op: &Op, tx: &Tx, mut next: Model) {
        let touched: BTreeSet<usize> = next.touch.iter().map(|x| x.0).collect();
        let exec_any = next.touch.iter().any(|x| x.1 == "exec");
        let mut observed: BTreeSet<usize> = touched.clone();
        if let Some(d) = op.dao {
            observed.insert(d);
        }
        for i in 0..next.daos.len() {
            let d = &self.m.daos[i];
            if d.comp.values().any(|a| tx.writes.contains_key(a)) || tx.bank.keys().any(|k| d.comp.values().any(|a| *a == k.0)) {
                observed.insert(i);
            }
        }
        if self.rng.chance(1, 12) {
            observed.insert(self.rng.idx(next.daos.len()));
        }
        for i in observed {
            self.compare_dao(i, op, &mut next, touched.contains(&i));
        }
        self.compare_assets(op, tx, &mut next, exec_any);
        for r in self.recs.clone() {
            if !tx.writes.contains_key(&r) && next.logs.get(&r).map_or(0, |x| x.len()) == self.m.logs.get(&r).map_or(0, |x| x.len()) {
                continue;
            }
            let got = list(&self.c.q(&r, json!({"log": {}})).unwrap_or(Value::Null));
            let want = next.logs.get(&r).cloned().unwrap_or_default();
            let n = self.m.logs.get(&r).map_or(0, |x| x.len());
            let tags: Tags = if exec_any { vec!["C04"] } else { tags_or(&[], &op.tags) };
            let same = jeq(&Value::Array(norm_log(&got)), &Value::Array(norm_log(&want)));
            let hook = next.touch.iter().any(|x| x.1 == "weights");
            let mut tags = tags;
            if hook {
                tags.push("C12");
            }
            for t in tags {
                self.mon.check(t, "messages delivered", (want.len() - n.min(want.len()), &op.name), same, || {
                    format!(
                        "messages received by {r} during {}: {} expected {}",
                        op.name,
                        serde_json::to_string(&got[n.min(got.len())..]).unwrap(),
                        serde_json::to_string(&want[n.min(want.len())..]).unwrap()
                    )
                });
            }
            next.logs.insert(r, got);
        }
        self.m = next;
    }

    fn compare_assets(&mut self, op: &Op, tx: &Tx, next: &mut Model, exec_any: bool) {
        let mut diffs: Vec<(String, String, u128, u128)> = vec![];
        {
            let st = self.c.st.borrow();
            let mut keys: BTreeSet<(String, String)> = BTreeSet::new();
            for k in tx.bank.keys() {
                keys.insert((k.0.clone(), nat(&k.1)));
            }
            for (k, v) in &next.bal {
                if k.1.starts_with("n:") && self.m.bal.get(k) != Some(v) {
                    keys.insert(k.clone());
                }
            }
            for k in keys {
                let got = st.bank.get(&(k.0.clone(), k.1[2..].to_string())).copied().unwrap_or(0);
                let want = next.bal.get(&k).copied().unwrap_or(0);
                diffs.push((k.0, k.1, want, got));
            }
        }
        for t in self.cw20s.clone() {
            let key = tok(&t);
            let changed = next.bal.iter().any(|(k, v)| k.1 == key && self.m.bal.get(k) != Some(v));
            if !tx.writes.contains_key(&t) && !changed {
                continue;
            }
            let got = self.cw20_accounts(&t);
            let mut who: BTreeSet<String> = got.keys().cloned().collect();
            who.extend(next.bal.iter().filter(|(k, v)| k.1 == key && **v > 0).map(|(k, _)| k.0.clone()));
            for a in who {
                let g = got.get(&a).copied().unwrap_or(0);
                let w = next.b(&a, &key);
                let old = self.m.b(&a, &key);
                if g != w || old != w {
                    diffs.push((a, key.clone(), w, g));
                }
            }
        }
        for t in self.cw721s.clone() {
            let changed = next.nft.iter().any(|(k, v)| k.0 == t && self.m.nft.get(k).map(|x| &x.0) != Some(&v.0));
            if !tx.writes.contains_key(&t) && !changed {
                continue;
            }
            for (id, o) in self.nft_owners(&t) {
                let k = (t.clone(), id.clone());
                let w = next.nft.get(&k).map(|x| x.0.clone()).unwrap_or_default();
                let old = self.m.nft.get(&k).map(|x| x.0.clone()).unwrap_or_default();
                if w != o || old != w {
                    let ok = w == o;
                    let mut tags: BTreeSet<&'static str> = BTreeSet::new();
                    for a in [&w, &o, &old] {
                        tags.extend(self.asset_tags(a, op, next, exec_any));
                    }
                    let (a1, a2) = (self.who(&old), self.who(&w));
                    for t2 in tags {
                        self.mon.check(t2, "nft moved to the right owner", (&op.name, &a1, &a2), ok, || {
                            format!("nft {id} of {t} is owned by {o} after {}, expected {w}", op.name)
                        });
                    }
                    if !ok {
                        next.nft.insert(k, (o, Default::default()));
                    }
                }
            }
        }
        for (a, asset, want, got) in diffs {
            let before = self.m.b(&a, &asset);
            let who = self.who(&a);
            for t in self.asset_tags(&a, op, next, exec_any) {
                self.mon.check(t, "balance", (&op.name, &who, before < want, asset.starts_with("n:")), want == got, || {
                    format!("{who} holds {got} of {asset} after {} (had {before}), expected {want}", op.name)
                });
            }
            next.bal.insert((a, asset), got);
        }
    }

    fn who(&self, a: &str) -> String {
        for (i, d) in self.m.daos.iter().enumerate() {
            for (k, x) in &d.comp {
                if x == a {
                    return format!("{k} of dao {i}");
                }
            }
        }
        a.to_string()
    }

    fn asset_tags(&self, a: &str, op: &Op, next: &Model, exec_any: bool) -> Tags {
        let has = |e: &str| next.touch.iter().any(|x| x.1 == e);
        let mut t: Tags = vec![];
        match self.m.role(a).map(|x| x.1) {
            Some(Role::Treasury) => {
                t.push("C17");
                if has("settle") {
                    t.push("C05");
                }
                if exec_any {
                    t.push("C04");
                }
            }
            Some(Role::Membership) => {
                t.push("C09");
                if has("claim") {
                    t.push("C10");
                }
            }
            Some(Role::Distributor) => t.push("C13"),
            Some(Role::Controller) => {
                t.push("C05");
            }
            _ => {
                if has("settle") {
                    t.push("C05");
                }
                if exec_any {
                    t.push("C04");
                    t.push("C17");
                }
                if has("claim") {
                    t.push("C10");
                }
                if has("claim_rewards") {
                    t.push("C13");
                }
                if has("stake") {
                    t.push("C09");
                }
                if has("create") {
                    t.push("C05");
                }
                if t.is_empty() {
                    t = op.tags.clone();
                }
            }
        }
        if let Some((i, _)) = self.m.role(a) {
            if i != usize::MAX && op.dao.is_some() && op.dao != Some(i) && !next.touch.iter().any(|x| x.0 == i) {
                t.push("C27");
            }
        }
        t
    }

    fn compare_dao(&mut self, i: usize, op: &Op, next: &mut Model, touched: bool) {
        let now = self.m.now;
        let want = next.daos[i].clone();
        let old = self.m.daos[i].clone();
        let nprops = want.hid.next_prop - 1;
        // settled proposals: look at a sample of them only
        let mut skip = BTreeSet::new();
        for (id, p) in &old.props {
            if p.executed && !self.rng.chance(1, 8) {
                skip.insert(*id);
            }
        }
        if skip.len() > 30 || old.props.len() > 12 {
            // long histories: also sample ended ones
            for (id, p) in &old.props {
                if want.props.get(id).map_or(false, |w| !w.executed && w.votes == p.votes) && p.ends <= now && !self.rng.chance(1, 3) && p.status != "in_progress" && p.status != "in_progress_can_execute_early" {
                    skip.insert(*id);
                }
            }
        }
        let got = match self.observe(&want.comp["enterprise"], Some(&old), &skip, nprops) {
            Ok(g) => g,
            Err((p, e)) => {
                self.mon.fail(p, "query answers", format!("dao {i} after {}: {e}", op.name));
                self.void = true;
                return;
            }
        };
        let has = |e: &str| next.touch.contains(&(i, match e {
            "exec" => "exec",
            "weights" => "weights",
            "distribute" => "distribute",
            "claim_rewards" => "claim_rewards",
            "min" => "min",
            "vote" => "vote",
            "create" => "create",
            "stake" => "stake",
            "unstake" => "unstake",
            "claim" => "claim",
            "meta" => "meta",
            "gov" => "gov",
            "att" => "att",
            "wl" => "wl",
            "council" => "council",
            _ => "?",
        }));
        let exec = has("exec");
        let mut extra: Tags = vec![];
        if exec {
            extra.push("C04");
        }
        let foreign = !touched && op.dao != Some(i);
        if foreign {
            extra.push("C27");
        }
        if !touched && op.tags.contains(&"C08") {
            extra.push("C08");
        }
        let kind = want.kind;
        let name = op.name.clone();
        macro_rules! cmp {
            ($tags:expr, $field:expr, $ev:expr, $ok:expr, $msg:expr) => {{
                let ok = $ok;
                let mut ts: Tags = $tags;
                ts.extend(extra.iter());
                if foreign && ok {
                    ts = vec!["C27"];
                }
                // unchanged and expected unchanged: counted once per operation kind
                for t in ts {
                    self.mon.check(t, $field, (kind, &name, $ev), ok, || $msg);
                }
            }};
        }
        cmp!(vec!["C26"], "metadata", has("meta"), jeq(&want.metadata, &got.metadata), format!("metadata after {name}: {} expected {}", got.metadata, want.metadata));
        let (mut wc, mut gc) = (want.comp.clone(), got.comp.clone());
        wc.remove("attestation");
        gc.remove("attestation");
        cmp!(vec!["C18"], "components", exec, wc == gc && want.creation == got.creation && want.version == got.version,
            format!("components/version changed by {name}: {gc:?} {:?} {} expected {wc:?} {:?} {}", got.version, got.creation, want.version, want.creation));
        let (mut wk, mut gk) = (want.codes.clone(), got.codes.clone());
        wk.remove("attestation");
        gk.remove("attestation");
        cmp!(vec!["C18"], "codes", exec, wk == gk, format!("code or admin of components changed by {name}: {gk:?} expected {wk:?}"));
        cmp!(vec!["C26", "C16"], "attestation", (has("att"), want.att), want.att == got.att && want.att_text == got.att_text,
            format!("attestation after {name}: {:?} expected {:?}", got.att_text, want.att_text));
        let wr: BTreeSet<String> = self.users.iter().filter(|u| want.is_restricted(u)).cloned().collect();
        cmp!(vec!["C16"], "restricted users", (want.att, wr.len()), wr == got.restricted, format!("restricted users after {name}: {:?} expected {wr:?}", got.restricted));
        cmp!(vec!["C26"], "gov config", (has("gov"), &want.gov), want.gov == got.gov, format!("governance config after {name}: {:?} expected {:?}", got.gov, want.gov));
        cmp!(vec!["C26"], "gov config valid", &got.gov, Model::gov_valid(kind, &got.gov), format!("invalid governance config {:?}", got.gov));
        cmp!(vec!["C07", "C26"], "council config", (has("council"), want.council_cfg.is_some()), council_same(&want.council_cfg, &got.council_cfg),
            format!("council config after {name}: {:?} expected {:?}", got.council_cfg, want.council_cfg));
        cmp!(vec!["C26"], "unlocking", (has("gov"), &want.unlocking), want.unlocking == got.unlocking, format!("unlocking after {name}: {:?} expected {:?}", got.unlocking, want.unlocking));
        let wtags: Tags = if kind == Kind::Multisig { vec!["C11"] } else { vec!["C09"] };
        cmp!(wtags.clone(), "weights", (has("stake"), has("unstake"), has("weights"), want.weights.len()), want.weights == got.weights,
            format!("weights after {name}: {:?} expected {:?}", got.weights, want.weights));
        let mut wt = wtags;
        if kind != Kind::Multisig {
            wt.push("C11");
        }
        cmp!(wt, "total weight", (has("stake"), has("unstake"), has("weights")), want.total == got.total, format!("total weight after {name}: {} expected {}", got.total, want.total));
        let sum: u128 = got.weights.values().sum();
        cmp!(vec!["C11"], "total is the sum of members", (has("weights"), got.weights.len()), sum == got.total, format!("total weight {} but members sum to {sum} after {name}", got.total));
        cmp!(vec!["C07"], "council members", (has("council"), want.council.len()), want.council == got.council, format!("council after {name}: {:?} expected {:?}", got.council, want.council));
        let csum: u128 = got.council.values().sum();
        cmp!(vec!["C11", "C07"], "council total", (has("council"), got.council.len()), got.council_total == csum && got.council_total == want.council_total,
            format!("council total {} members sum {csum} expected {} after {name}", got.council_total, want.council_total));
        let strip = |x: &BTreeMap<String, BTreeSet<String>>| -> BTreeMap<String, BTreeSet<String>> { x.iter().filter(|x| !x.1.is_empty()).map(|(k, v)| (k.clone(), v.clone())).collect() };
        if kind == Kind::Nft {
            let (a, b) = (strip(&want.nft_stakes), strip(&got.nft_stakes));
            cmp!(vec!["C09"], "nft stakes", (has("stake"), has("unstake"), a.len()), a == b, format!("staked nfts after {name}: {b:?} expected {a:?}"));
        }
        if kind != Kind::Multisig {
            let cl = |x: &BTreeMap<String, Vec<Claim>>| -> BTreeMap<String, Vec<Claim>> {
                x.iter()
                    .map(|(k, v)| (k.clone(), v.iter().filter(|c| c.amount > 0 || !c.tokens.is_empty()).cloned().collect::<Vec<_>>()))
                    .filter(|x| !x.1.is_empty())
                    .collect()
            };
            let (a, b) = (cl(&want.claims), cl(&got.claims));
            let mut ts = vec!["C10"];
            if has("stake") || has("unstake") {
                ts.push("C09");
            }
            cmp!(ts, "claims", (has("claim"), has("unstake"), a.values().map(|x| x.len()).sum::<usize>()), a == b, format!("claims after {name}: {b:?} expected {a:?}"));
        }
        let mut mt = vec!["C14"];
        if has("min") {
            mt.push("C04");
        }
        cmp!(mt, "reward minimum", (has("min"), want.min_weight), want.min_weight == got.min_weight, format!("reward minimum after {name}: {} expected {}", got.min_weight, want.min_weight));
        cmp!(vec!["C15"], "asset whitelist", (has("wl"), want.asset_wl.len()), want.asset_wl == got.asset_wl, format!("asset whitelist after {name}: {:?} expected {:?}", got.asset_wl, want.asset_wl));
        cmp!(vec!["C15"], "nft whitelist", (has("wl"), want.nft_wl.len()), want.nft_wl == got.nft_wl, format!("nft whitelist after {name}: {:?} expected {:?}", got.nft_wl, want.nft_wl));

        let mut res = got.clone();
        res.hid = want.hid.clone();
        // proposals
        for id in 1..=nprops {
            let w = &want.props[&id];
            let g = match got.props.get(&id) {
                Some(g) => g,
                None => continue,
            };
            let o = old.props.get(&id);
            if skip.contains(&id) && o.map_or(false, |o| o.executed == w.executed && o.votes == w.votes) {
                res.props.insert(id, w.clone());
                continue;
            }
            let fresh = o.is_none();
            let ct: Tags = if w.council { vec!["C06", "C07"] } else { vec!["C06"] };
            cmp!(ct, "proposal contents", (fresh, w.council, w.actions.as_array().map_or(0, |a| a.len())),
                w.proposer == g.proposer && w.title == g.title && w.desc == g.desc && jeq(&w.actions, &g.actions) && w.started == g.started && w.council == g.council,
                format!("proposal {id} after {name}: {:?} expected {:?}", (&g.proposer, &g.title, &g.desc, &g.actions, g.started, g.council), (&w.proposer, &w.title, &w.desc, &w.actions, w.started, w.council)));
            let lt: Tags = if fresh { if w.council { vec!["C02", "C06", "C07"] } else { vec!["C02", "C06"] } } else { vec!["C26", "C02"] };
            cmp!(lt, "limits in force at creation", (fresh, w.council, has("gov")),
                (w.ends, w.quorum, w.threshold, w.veto) == (g.ends, g.quorum, g.threshold, g.veto),
                format!("proposal {id} after {name}: end/quorum/threshold/veto {:?} expected {:?}", (g.ends, g.quorum, g.threshold, g.veto), (w.ends, w.quorum, w.threshold, w.veto)));
            // votes
            let nz = |x: &BTreeMap<String, (u8, u128)>| -> BTreeMap<String, (u8, u128)> { x.iter().filter(|x| x.1 .1 > 0).map(|(k, v)| (k.clone(), *v)).collect() };
            let (wv, gv) = (nz(&w.votes), nz(&g.votes));
            let open = !w.executed && now < w.ends;
            let mut council_known = false;
            if wv != gv && w.council && open {
                // recorded finding: council votes are rewritten to the voter's membership weight
                let only_weight = wv.iter().all(|(u, v)| {
                    let gx = g.votes.get(u);
                    gx == Some(v) || gx == Some(&(v.0, want.w(u))) || (gx.is_none() && want.w(u) == 0)
                }) && gv.keys().all(|u| w.votes.contains_key(u));
                if only_weight {
                    council_known = true;
                    self.mon.known("C01", "council-vote-follows-membership-weight",
                        format!("open council vote rewritten to the voter's membership weight (dao kind {kind:?}, {name})"));
                }
            }
            if !council_known {
                let mut vt: Tags = vec![];
                if next.voted.contains(&(i, id)) || !has("weights") {
                    vt.push("C01");
                }
                if has("weights") {
                    vt.push("C12");
                    if open && !w.council {
                        vt.push("C01");
                    }
                }
                if w.council {
                    vt.push("C07");
                }
                if w.executed {
                    vt.push("C24");
                }
                vt.dedup();
                cmp!(vt, "votes", (next.voted.contains(&(i, id)), has("weights"), open, w.council, wv.len()), wv == gv,
                    format!("votes on proposal {id} (open: {open}) after {name}: {gv:?} expected {wv:?}"));
            }
            let gt = g.tally();
            let mut tt = vec!["C01"];
            if w.executed {
                tt.push("C24");
            }
            if has("weights") {
                tt.push("C12");
            }
            cmp!(tt, "tally is the sum of votes", (g.votes.len(), has("weights"), next.voted.contains(&(i, id)), open), gt == g.results,
                format!("proposal {id} after {name}: reported totals {:?}, votes sum to {gt:?}", g.results));
            // settlement
            cmp!(vec!["C03"], "executed", (has("exec"), w.executed), w.executed == g.executed,
                format!("proposal {id} after {name}: executed={} expected {}", g.executed, w.executed));
            let mut wj = w.clone();
            if council_known {
                wj.votes = g.votes.clone();
                wj.results = g.results;
            }
            if w.executed && g.executed {
                let just = o.map_or(true, |o| !o.executed);
                if just {
                    if let (Some(a), Some(b)) = (w.judged, g.judged) {
                        cmp!(vec!["C02"], "outcome", (a, w.council, w.votes.len(), now < w.ends), a == b,
                            format!("proposal {id} was decided as {b:?}, the rules give {a:?}: tallies {:?}, total {}, quorum {}, threshold {}, veto {:?}",
                                w.tally(), want.hid.judged_total[&id], dec_str(w.quorum), dec_str(w.threshold), w.veto.map(dec_str)));
                    } else {
                        cmp!(vec!["C02", "C03"], "outcome recorded", 0u8, false, format!("proposal {id} executed but voting engine says {:?}", g.judged));
                    }
                } else {
                    cmp!(vec!["C24", "C03"], "settled outcome stays", (w.council, w.judged), w.judged == g.judged, format!("proposal {id}: outcome changed after settlement to {:?}", g.judged));
                }
            }
            // status
            {
                let mut tmp = got.clone();
                tmp.hid = want.hid.clone();
                tmp.props.insert(id, wj.clone());
                // judge with the totals the model knows
                tmp.total = want.total;
                let exp = tmp.expected_status(id, now);
                let delay = want.hid.earliest.get(&id).map_or(false, |t| now < *t);
                let j = tmp.judge_now(&wj, now);
                let mut sts = vec!["C24"];
                if now >= w.ends && !w.executed {
                    sts.push("C02");
                }
                cmp!(sts, "status", (exp, j, delay, w.council, now < w.ends), exp == g.status,
                    format!("proposal {id} after {name}: status {} expected {exp} (now {now}, end {}, tallies {:?}, total {})", g.status, w.ends, wj.tally(), tmp.total_for(&wj, now)));
                let tw = tmp.total_for(&wj, now);
                let tot_ok = if w.executed {
                    let at = want.hid.executed_at.get(&id).copied().unwrap_or(now).min(w.ends);
                    let hist = if w.council { &want.hid.council_totals } else { &want.hid.totals };
                    g.total_reported == want.hid.judged_total.get(&id).copied().unwrap_or(0) || g.total_reported == total_at_time(hist, at / 1_000_000_000)
                } else {
                    g.total_reported == tw
                };
                cmp!(vec!["C24"], "total available", (w.executed, now < w.ends, w.council), tot_ok,
                    format!("proposal {id} after {name}: reports total {} but is judged by {tw}", g.total_reported));
            }
            let mut keep = g.clone();
            keep.judged = w.judged.or(g.judged);
            if keep.executed {
                keep.judged = g.judged;
            }
            // zero-amount votes are invisible in listings: keep the model's record of who voted
            if wv == gv {
                keep.votes = w.votes.clone();
            }
            keep.actions = w.actions.clone();
            res.props.insert(id, keep);
        }
        // one more than expected?
        if has("create") || !touched {
            let extra_prop = self.c.q(want.c("controller"), json!({"proposal": {"proposal_id": nprops + 1}})).is_ok();
            cmp!(vec!["C06"], "no unexpected proposal", has("create"), !extra_prop, format!("{name} created an unexpected proposal {}", nprops + 1));
        }
        // rewards
        let moved = next.rewards_moved.contains(&i);
        let mut keys: BTreeSet<(String, String)> = got.rewards.keys().cloned().collect();
        keys.extend(want.rewards.keys().cloned());
        keys.extend(want.hid.acc.keys().cloned());
        for k in keys {
            let g = got.rewards.get(&k).copied().unwrap_or(0);
            let (lo, hi) = want.hid.acc.get(&k).copied().unwrap_or((0, 0));
            let mut ts: Tags = vec!["C13"];
            if want.hid.had_min {
                ts.push("C14");
            }
            if want.hid.weights_since_dist.contains(&k.0) || has("weights") {
                ts.push("C12");
            }
            if moved {
                let (l, h) = (lo / 1_000_000_000, hi / 1_000_000_000);
                let ws = (want.weights.len().min(6), want.min_weight > 1, want.eff(&k.0) > 0, want.hid.weights_since_dist.contains(&k.0), want.hid.distributions.min(6));
                cmp!(ts, "share of a distribution", ws, l <= g && g <= h,
                    format!("rewards of {} in {} after {name}: {g}, fair share is between {l} and {h} (weights {:?}, minimum {})", k.0, k.1, want.weights, want.min_weight));
            } else {
                let w = want.rewards.get(&k).copied().unwrap_or(0);
                cmp!(ts, "accrued rewards", (has("claim_rewards"), has("weights"), has("min"), w > 0), w == g,
                    format!("rewards of {} in {} after {name}: {g}, expected {w}", k.0, k.1));
            }
            // whole units are known now; the fraction may or may not have survived a settlement
            let e = res.hid.acc.entry(k.clone()).or_insert((0, 0));
            e.0 = lo.max(g * 1_000_000_000);
            e.1 = hi.min(g * 1_000_000_000 + 999_999_999).max(e.0);
        }
        res.hid.settled_rewards.clear();
        if moved {
            res.hid.weights_since_dist.clear();
        }
        // solvency
        let mut owed: BTreeMap<String, u128> = BTreeMap::new();
        for ((_, a), n) in &got.rewards {
            *owed.entry(a.clone()).or_default() += n;
        }
        for (a, n) in owed {
            let have = self.holds(got.c("distributor"), &a);
            cmp!(vec!["C13"], "distributor is solvent", moved, have >= n, format!("distributor owes {n} of {a} but holds {have}"));
        }
        if kind == Kind::Token || kind == Kind::Denom {
            let key = if kind == Kind::Token { tok(&got.asset) } else { nat(&got.asset) };
            let owed: u128 = got.total + got.claims.values().flatten().map(|c| c.amount).sum::<u128>();
            let have = self.holds(got.c("membership"), &key);
            cmp!(vec!["C09"], "stakes are backed", (has("stake"), has("unstake"), has("claim")), have >= owed, format!("membership owes {owed} but holds {have} after {name}"));
        }
        if kind == Kind::Nft && !got.asset.is_empty() {
            let mem = got.c("membership").to_string();
            let toks: Vec<String> = got
                .nft_stakes
                .values()
                .flatten()
                .cloned()
                .chain(got.claims.values().flatten().flat_map(|c| c.tokens.iter().cloned()))
                .collect();
            let uniq: BTreeSet<&String> = toks.iter().collect();
            let all_held = toks.iter().all(|t| st(&self.c.q(&got.asset, json!({"owner_of": {"token_id": t}})).unwrap_or(Value::Null)["owner"]) == mem);
            cmp!(vec!["C09", "C10"], "stakes are backed", (has("stake"), has("unstake"), has("claim")), uniq.len() == toks.len() && all_held,
                format!("membership does not hold every staked or claimable nft once: {toks:?}"));
        }
        next.daos[i] = res;
        // history of totals
        if self.rng.chance(1, 3) {
            self.check_history(i, next);
        }
        // status against what execution would do
        if self.rng.chance(1, 2) {
            self.check_executability(i, next);
        }
        let _ = touched;
    }

    pub fn holds(&self, addr: &str, asset: &str) -> u128 {
        if let Some(d) = asset.strip_prefix("n:") {
            self.c.balance(addr, d)
        } else {
            uint(&self.c.q(&asset[2..], json!({"balance": {"address": addr}})).unwrap_or(Value::Null)["balance"])
        }
    }

    pub fn check_history(&mut self, i: usize, m: &Model) {
        let d = &m.daos[i];
        let council = self.rng.chance(1, 3);
        let (hist, addr) = if council { (&d.hid.council_totals, d.c("council")) } else { (&d.hid.totals, d.c("membership")) };
        let e = hist[self.rng.idx(hist.len())];
        let (h0, hn) = (hist[0].0, self.c.height());
        let by_height = self.rng.chance(1, 2);
        let (q, want) = if by_height {
            let hh = match self.rng.below(4) {
                0 => e.0,
                1 => e.0 + 1,
                2 => e.0.saturating_sub(1),
                _ => self.rng.range(h0, hn),
            };
            // for the future: what is in force now
            let hh = if self.rng.chance(1, 8) { hn + self.rng.range(1, 9) } else { hh.min(hn) };
            let want = if hh > hn { hist.last().map_or(0, |x| x.2) } else { total_at_height(hist, hh) };
            (json!({ "at_height": hh }), want)
        } else {
            let s0 = e.1 / 1_000_000_000;
            let sn = self.c.now().seconds();
            let s = match self.rng.below(4) {
                0 => s0,
                1 => s0 + 1,
                2 => s0.saturating_sub(1),
                _ => self.rng.range(hist[0].1 / 1_000_000_000, sn),
            };
            let s = if self.rng.chance(1, 8) { sn + self.rng.range(1, 900) } else { s.min(sn) };
            let frac = if self.rng.chance(1, 3) { self.rng.below(1_000_000_000) } else { 0 };
            (json!({"at_time": (s * 1_000_000_000 + frac).to_string()}), if s > sn { hist.last().map_or(0, |x| x.2) } else { total_at_time(hist, s) })
        };
        let got = self.c.q(addr, json!({"total_weight": {"expiration": q}}));
        let (addr, n, kind) = (addr.to_string(), hist.len(), d.kind);
        match got {
            Ok(r) => {
                let g = uint(&r["total_weight"]);
                self.mon.check("C11", "total in the past", (kind, council, by_height, n.min(40), want == 0), g == want, || {
                    format!("{addr}: total weight at {q} is reported as {g}, it was {want}; history {:?}", hist)
                });
            }
            Err(e) => self.mon.fail("C11", "total in the past", e),
        }
    }

    pub fn check_executability(&mut self, i: usize, m: &Model) {
        let now = self.m.now;
        let d = &m.daos[i];
        let cands: Vec<u64> = d.props.iter().filter(|(_, p)| !p.executed).map(|(k, _)| *k).collect();
        if cands.is_empty() {
            return;
        }
        let user = match self.users.iter().find(|u| !d.is_restricted(u)) {
            Some(u) => u.clone(),
            None => return,
        };
        for _ in 0..2 {
            let id = *self.rng.pick(&cands);
            let p = &d.props[&id];
            let tx = self.c.simulate(&user, vec![ex(d.c("controller"), json!({"execute_proposal": {"proposal_id": id}}), &[])]);
            // ask anew: time may have passed since the last look
            let status = match self.c.q(d.c("controller"), json!({"proposal_status": {"proposal_id": id}})) {
                Ok(v) => st(&v["status"]),
                Err(e) => {
                    self.mon.fail("C24", "status query", e);
                    return;
                }
            };
            let says = ["passed", "rejected", "in_progress_can_execute_early"].contains(&status.as_str());
            let zero = d.total_for(p, now) == 0;
            if zero && says && !tx.ok {
                self.mon.known("C24", "zero-total-never-executable", format!("status {status} but execution is refused when nobody had weight at the end ({})", tx.err));
                continue;
            }
            // settlement may legitimately fail when the deposit is no longer there; the workload never does that
            let (ends, council, kind) = (p.ends, p.council, d.kind);
            self.mon.check("C24", "status tells whether execution is accepted", (&status, council, kind, now < ends), says == tx.ok, || {
                format!("proposal {id} has status {status} but executing it now {}: {}", if tx.ok { "succeeds" } else { "fails" }, tx.err)
            });
            self.mon.check("C03", "execution accepted only when allowed", (&status, council, kind, now < ends), says || !tx.ok, || {
                format!("proposal {id} in status {status} can be executed")
            });
        }
    }
}

pub fn council_same(a: &Option<CouncilCfg>, b: &Option<CouncilCfg>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => {
            a.quorum == b.quorum
                && a.threshold == b.threshold
                && a.allowed.iter().collect::<BTreeSet<_>>() == b.allowed.iter().collect::<BTreeSet<_>>()
        }
        _ => false,
    }
}

/// notifications that change nothing carry no information, and the order inside one is free
fn norm_log(v: &[Value]) -> Vec<Value> {
    v.iter()
        .filter_map(|e| {
            let mut e = e.clone();
            if let Some(c) = e["msg"]["weights_changed"]["weight_changes"].as_array().cloned() {
                let mut c: Vec<Value> = c.into_iter().filter(|x| x["old_weight"] != x["new_weight"]).collect();
                if c.is_empty() {
                    return None;
                }
                c.sort_by_key(|x| x["user"].as_str().unwrap_or("").to_string());
                e["msg"]["weights_changed"]["weight_changes"] = Value::Array(c);
            }
            Some(e)
        })
        .collect()
}

fn tags_or(a: &[&'static str], b: &[&'static str]) -> Tags {
    if a.is_empty() {
        b.to_vec()
    } else {
        a.to_vec()
    }
}

pub fn show(m: &CosmosMsg) -> Value {
    let v = serde_json::to_value(m).unwrap();
    if let Some(e) = v.get("wasm").and_then(|w| w.get("execute")) {
        let mut e = e.clone();
        if let Some(x) = b64(&e["msg"]) {
            e["msg"] = unwrap_b64(x);
        }
        return e;
    }
    v
}
fn unwrap_b64(mut v: Value) -> Value {
    if let Value::Object(o) = &mut v {
        for (_, x) in o.iter_mut() {
            if let Some(b) = x.get("msg").cloned() {
                if let Some(y) = b64(&b) {
                    x["msg"] = y;
                }
            }
        }
    }
    v
}
pub fn show_all(m: &[CosmosMsg]) -> String {
    let v: Vec<Value> = m.iter().map(show).collect();
    serde_json::to_string(&v).unwrap()
}
