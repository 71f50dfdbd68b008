//! Reads the whole observable state of a DAO through the contracts' own queries.
use crate::chain::Chain;
use crate::model::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

/// which property a failing query belongs to, and what failed
pub type ObsErr = (&'static str, String);

pub fn st(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}
pub fn list(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}

/// Walks a paged listing; `cursor` turns the last entry into `start_after`.
pub fn walk(
    c: &Chain,
    addr: &str,
    query: &str,
    params: &Value,
    field: &str,
    limit: Option<u64>,
    cursor: &dyn Fn(&Value) -> Value,
) -> Result<Vec<Value>, String> {
    let mut out: Vec<Value> = vec![];
    let mut after = Value::Null;
    for _ in 0..2000 {
        let mut p = params.clone();
        if !after.is_null() {
            p["start_after"] = after.clone();
        }
        if let Some(l) = limit {
            p["limit"] = json!(l);
        }
        let r = c.q(addr, json!({ query: p }))?;
        let items = match r[field].as_array() {
            Some(a) => a.clone(),
            None => return Err(format!("{query}: no list in answer")),
        };
        if items.is_empty() {
            return Ok(out);
        }
        // pages are never larger than asked for, nor than the cap (the engine's own listings have none)
        let cap = if query == "voter" { u64::MAX } else { 100 };
        if items.len() as u64 > limit.unwrap_or(u64::MAX).min(cap) {
            return Err(format!("{query}: a page of {} entries, page size {limit:?}", items.len()));
        }
        after = cursor(items.last().unwrap());
        out.extend(items);
        if out.len() > 20_000 {
            return Err(format!("{query}: listing does not end"));
        }
    }
    Err(format!("{query}: listing does not end"))
}

pub fn results(v: &Value) -> [u128; 4] {
    let mut r = [0u128; 4];
    for x in list(v) {
        let k = x[0].as_u64().unwrap_or(9) as usize;
        if k < 4 {
            r[k] += uint(&x[1]);
        }
    }
    r
}

pub fn gov_of(v: &Value) -> Gov {
    Gov {
        quorum: dec(&v["quorum"]),
        threshold: dec(&v["threshold"]),
        veto: if v["veto_threshold"].is_null() { None } else { Some(dec(&v["veto_threshold"])) },
        duration: uint(&v["vote_duration"]) as u64,
        min_deposit: if v["minimum_deposit"].is_null() { None } else { Some(uint(&v["minimum_deposit"])) },
        early: v["allow_early_proposal_execution"].as_bool().unwrap_or(false),
    }
}

pub fn judged_of(status: &Value) -> Option<Judged> {
    let (k, v) = top(status);
    match k.as_str() {
        "passed" => Some(if v["outcome"].as_u64() == Some(0) { Judged::Passed } else { Judged::Rejected }),
        "rejected" => {
            let r = &v["reason"];
            match r.as_str() {
                Some("quorum_not_reached") | Some("quorum_and_threshold_not_reached") => Some(Judged::Quorum),
                Some("threshold_not_reached") => Some(Judged::Threshold),
                Some("is_rejecting_outcome") => Some(Judged::Rejected),
                Some("is_veto_outcome") => Some(Judged::Veto),
                _ => Some(Judged::Draw),
            }
        }
        _ => None,
    }
}

/// One proposal as the controller and the voting engine report it. Returns disagreements too.
pub fn observe_prop(c: &Chain, ctrl: &str, gov: &str, id: u64) -> Result<(Prop, Vec<(&'static str, String)>), ObsErr> {
    let q = |a: &str, m: Value| c.q(a, m);
    let mut bad = vec![];
    let r = q(ctrl, json!({"proposal": {"proposal_id": id}})).map_err(|e| ("C24", e))?;
    let s = q(ctrl, json!({"proposal_status": {"proposal_id": id}})).map_err(|e| ("C24", e))?;
    let g = q(gov, json!({"poll": {"poll_id": id}})).map_err(|e| ("C01", e))?["poll"].clone();
    let votes = walk(c, ctrl, "proposal_votes", &json!({"proposal_id": id}), "votes", Some(100), &|v| v["voter"].clone())
        .map_err(|e| ("C01", e))?;
    let p = &r["proposal"];
    let mut vs: BTreeMap<String, (u8, u128)> = BTreeMap::new();
    for v in votes {
        let who = st(&v["voter"]);
        let x = (v["outcome"].as_u64().unwrap_or(9) as u8, uint(&v["amount"]));
        if v["poll_id"].as_u64() != Some(id) {
            bad.push(("C01", format!("vote listed under proposal {id} belongs to {}", v["poll_id"])));
        }
        if x.0 > 3 {
            bad.push(("C01", format!("vote with outcome {}", x.0)));
            continue;
        }
        if vs.insert(who.clone(), x).is_some() {
            bad.push(("C01", format!("two votes of {who} on proposal {id}")));
        }
    }
    let res = results(&r["results"]);
    if results(&s["results"]) != res || results(&g["results"]) != res {
        bad.push(("C01", format!("proposal {id}: tallies disagree between queries: {res:?} / {:?} / {:?}", results(&s["results"]), results(&g["results"]))));
    }
    if s["status"] != r["proposal_status"] {
        bad.push(("C24", format!("proposal {id}: status queries disagree {} / {}", s["status"], r["proposal_status"])));
    }
    if r["proposal_status"] != p["status"] {
        bad.push(("C24", format!("proposal {id}: status fields disagree {} / {}", p["status"], r["proposal_status"])));
    }
    let exp = uint(&p["expires"]["at_time"]) as u64;
    let ends = uint(&g["ends_at"]) as u64;
    if exp != ends || uint(&s["expires"]["at_time"]) as u64 != ends {
        bad.push(("C26", format!("proposal {id}: end times disagree: {} / {} / {}", p["expires"], s["expires"], g["ends_at"])));
    }
    if p["id"].as_u64() != Some(id) && uint(&p["id"]) as u64 != id {
        bad.push(("C06", format!("proposal {id} reports id {}", p["id"])));
    }
    let status = r["proposal_status"].as_str().unwrap_or("?").to_string();
    Ok((
        Prop {
            council: st(&p["proposal_type"]) == "council",
            proposer: st(&p["proposer"]),
            title: st(&p["title"]),
            desc: st(&p["description"]),
            actions: p["proposal_actions"].clone(),
            started: uint(&p["started_at"]) as u64,
            ends,
            quorum: dec(&g["quorum"]),
            threshold: dec(&g["threshold"]),
            veto: if g["veto_threshold"].is_null() { None } else { Some(dec(&g["veto_threshold"])) },
            votes: vs,
            results: res,
            executed: status == "executed",
            judged: judged_of(&g["status"]),
            status,
            total_reported: uint(&r["total_votes_available"]),
        },
        bad,
    ))
}

pub struct Observer<'a> {
    pub users: &'a [String],
    pub denoms: &'a [String],
    pub cw20s: &'a [String],
    pub bad: Vec<(&'static str, String)>,
}

pub fn components(c: &Chain, ent: &str) -> Result<BTreeMap<String, String>, String> {
    let r = c.q(ent, json!({"component_contracts": {}}))?;
    let mut m = BTreeMap::new();
    m.insert("enterprise".to_string(), ent.to_string());
    for (k, f) in [
        ("controller", "enterprise_governance_controller_contract"),
        ("governance", "enterprise_governance_contract"),
        ("treasury", "enterprise_treasury_contract"),
        ("distributor", "funds_distributor_contract"),
        ("membership", "membership_contract"),
        ("council", "council_membership_contract"),
        ("outposts", "enterprise_outposts_contract"),
        ("attestation", "attestation_contract"),
    ] {
        if let Some(a) = r[f].as_str() {
            m.insert(k.to_string(), a.to_string());
        }
    }
    Ok(m)
}

pub fn config_query(kind: Kind) -> Option<(&'static str, &'static str)> {
    match kind {
        Kind::Denom => Some(("denom_config", "denom")),
        Kind::Token => Some(("token_config", "token_contract")),
        Kind::Nft => Some(("nft_config", "nft_contract")),
        Kind::Multisig => None,
    }
}

pub fn members(c: &Chain, addr: &str) -> Result<BTreeMap<String, u128>, String> {
    let mut m = BTreeMap::new();
    for x in walk(c, addr, "members", &json!({}), "members", Some(100), &|v| v["user"].clone())? {
        if m.insert(st(&x["user"]), uint(&x["weight"])).is_some() {
            return Err(format!("member {} listed twice", x["user"]));
        }
    }
    Ok(m)
}

pub fn claims_of(v: &Value) -> Vec<Claim> {
    let mut l: Vec<Claim> = list(&v["claims"])
        .iter()
        .map(|x| Claim {
            rel: rel(&x["release_at"]).unwrap_or(Rel::Height(0)),
            amount: uint(&x["amount"]),
            tokens: sorted(list(&x["nft_ids"]).iter().map(st).collect()),
        })
        .filter(|c| c.amount > 0 || !c.tokens.is_empty())
        .collect();
    l.sort();
    l
}

impl<'a> Observer<'a> {
    /// `prev` supplies identity, settled proposals that need no re-reading (`skip`) and hidden state.
    pub fn dao(&mut self, c: &Chain, ent: &str, prev: Option<&DaoState>, skip: &BTreeSet<u64>, nprops: u64) -> Result<DaoState, ObsErr> {
        let q = |a: &str, m: Value| c.q(a, m);
        let info = q(ent, json!({"dao_info": {}})).map_err(|e| ("C26", e))?;
        let comp = components(c, ent).map_err(|e| ("C20", e))?;
        let kind = match info["dao_type"].as_str() {
            Some("denom") => Kind::Denom,
            Some("token") => Kind::Token,
            Some("nft") => Kind::Nft,
            _ => Kind::Multisig,
        };
        let g = |k: &str| comp.get(k).cloned().unwrap_or_default();
        let (mem, cou, ctrl, gov, tre, dis) =
            (g("membership"), g("council"), g("controller"), g("governance"), g("treasury"), g("distributor"));
        let gc = q(&ctrl, json!({"gov_config": {}})).map_err(|e| ("C26", e))?;
        let cc = &gc["council_gov_config"];
        let council_cfg = if cc.is_null() {
            None
        } else {
            Some(CouncilCfg {
                allowed: list(&cc["allowed_proposal_action_types"]).iter().map(st).collect(),
                quorum: dec(&cc["quorum"]),
                threshold: dec(&cc["threshold"]),
            })
        };
        if st(&gc["dao_membership_contract"]) != mem || st(&gc["dao_council_membership_contract"]) != cou {
            self.bad.push(("C20", "controller and main contract disagree about membership contracts".into()));
        }
        let (mut unlocking, mut asset) = (None, String::new());
        if let Some((qn, f)) = config_query(kind) {
            match q(&mem, json!({ qn: {} })) {
                Ok(r) => {
                    unlocking = dur(&r["unlocking_period"]);
                    asset = st(&r[f]);
                }
                Err(e) => {
                    if kind != Kind::Nft {
                        return Err(("C26", e));
                    }
                    let r = q(&mem, json!({"nft_contract_config": {}})).map_err(|e| ("C26", e))?;
                    unlocking = dur(&r["unlocking_period"]);
                }
            }
        }
        let mut weights = members(c, &mem).map_err(|e| ("C11", e))?;
        weights.retain(|_, w| *w > 0);
        let total = uint(&q(&mem, json!({"total_weight": {"expiration": {"never": {}}}})).map_err(|e| ("C11", e))?["total_weight"]);
        let mut council = members(c, &cou).map_err(|e| ("C11", e))?;
        council.retain(|_, w| *w > 0);
        let council_total =
            uint(&q(&cou, json!({"total_weight": {"expiration": {"never": {}}}})).map_err(|e| ("C11", e))?["total_weight"]);
        let mut nft_stakes: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        let mut claims: BTreeMap<String, Vec<Claim>> = BTreeMap::new();
        let mut universe: BTreeSet<String> = self.users.iter().cloned().collect();
        universe.extend(weights.keys().cloned());
        if let Some(p) = prev {
            universe.extend(p.weights.keys().cloned());
            universe.extend(p.claims.keys().cloned());
        }
        for u in &universe {
            let uw = uint(&q(&mem, json!({"user_weight": {"user": u}})).map_err(|e| ("C11", e))?["weight"]);
            if uw != weights.get(u).copied().unwrap_or(0) {
                self.bad.push(("C11", format!("weight of {u}: {uw} when asked, {:?} in the listing", weights.get(u))));
            }
            if kind == Kind::Nft {
                let toks: Vec<String> = walk(c, &mem, "user_stake", &json!({"user": u}), "tokens", Some(100), &|v| v.clone())
                    .map_err(|e| ("C09", e))?
                    .iter()
                    .map(st)
                    .collect();
                let set: BTreeSet<String> = toks.iter().cloned().collect();
                if set.len() != toks.len() {
                    self.bad.push(("C25", format!("stake listing of {u} repeats tokens")));
                }
                let r = q(&mem, json!({"user_stake": {"user": u}})).map_err(|e| ("C09", e))?;
                if uint(&r["total_user_stake"]) != set.len() as u128 {
                    self.bad.push(("C09", format!("{u} has {} staked nfts, reported total {}", set.len(), r["total_user_stake"])));
                }
                if !set.is_empty() {
                    nft_stakes.insert(u.clone(), set);
                }
            }
            if kind != Kind::Multisig {
                let r = q(&mem, json!({"claims": {"user": u}})).map_err(|e| ("C10", e))?;
                if list(&r["claims"]).iter().any(|x| st(&x["user"]) != *u) {
                    self.bad.push(("C10", format!("claims of {u} list someone else's claim")));
                }
                let cl = claims_of(&r);
                let rr = claims_of(&q(&mem, json!({"releasable_claims": {"user": u}})).map_err(|e| ("C10", e))?);
                let (now, hh) = (c.now().nanos(), c.height());
                let want: Vec<Claim> = cl
                    .iter()
                    .filter(|x| match x.rel {
                        Rel::Time(t) => now >= t,
                        Rel::Height(x) => hh >= x,
                    })
                    .cloned()
                    .collect();
                if rr != want {
                    self.bad.push(("C10", format!("releasable claims of {u}: reported {rr:?}, due {want:?}")));
                }
                if !cl.is_empty() {
                    claims.insert(u.clone(), cl);
                }
            }
        }
        if kind == Kind::Nft {
            let all: Vec<String> = walk(c, &mem, "staked_nfts", &json!({}), "nfts", Some(100), &|v| v.clone())
                .map_err(|e| ("C09", e))?
                .iter()
                .map(st)
                .collect();
            let mut want: Vec<String> = nft_stakes.values().flat_map(|x| x.iter().cloned()).collect();
            want.sort();
            let mut got = all.clone();
            got.sort();
            if got != want {
                self.bad.push(("C09", format!("staked nft listing {got:?}, per-user stakes {want:?}")));
            }
        }
        let att_text = match comp.get("attestation") {
            None => None,
            Some(a) => Some(st(&q(a, json!({"attestation_text": {}})).map_err(|e| ("C26", e))?["text"])),
        };
        let mut restricted = BTreeSet::new();
        for u in self.users {
            if q(ent, json!({"is_restricted_user": {"user": u}})).map_err(|e| ("C16", e))?["is_restricted"].as_bool() == Some(true) {
                restricted.insert(u.clone());
            }
        }
        let mut props = BTreeMap::new();
        for id in 1..=nprops {
            if skip.contains(&id) {
                if let Some(p) = prev.and_then(|p| p.props.get(&id)) {
                    props.insert(id, p.clone());
                    continue;
                }
            }
            let (p, bad) = observe_prop(c, &ctrl, &gov, id)?;
            self.bad.extend(bad);
            props.insert(id, p);
        }
        let min_weight = uint(&q(&dis, json!({"minimum_eligible_weight": {}})).map_err(|e| ("C14", e))?["minimum_eligible_weight"]);
        let mut rewards = BTreeMap::new();
        for u in &universe {
            let r = q(&dis, json!({"user_rewards": {"user": u, "native_denoms": self.denoms, "cw20_assets": self.cw20s}}))
                .map_err(|e| ("C13", e))?;
            for x in list(&r["native_rewards"]) {
                rewards.insert((u.clone(), nat(&st(&x["denom"]))), uint(&x["amount"]));
            }
            for x in list(&r["cw20_rewards"]) {
                rewards.insert((u.clone(), tok(&st(&x["asset"]))), uint(&x["amount"]));
            }
        }
        rewards.retain(|_, v| *v > 0);
        let mut asset_wl = BTreeSet::new();
        for a in walk(c, &tre, "asset_whitelist", &json!({}), "assets", Some(100), &|v| v.clone()).map_err(|e| ("C15", e))? {
            if !asset_wl.insert(asset_key(&a).unwrap_or_else(|| a.to_string())) {
                self.bad.push(("C15", format!("whitelist lists {a} twice")));
            }
        }
        let mut nft_wl = BTreeSet::new();
        for a in walk(c, &tre, "nft_whitelist", &json!({}), "nfts", Some(100), &|v| v.clone()).map_err(|e| ("C15", e))? {
            if !nft_wl.insert(st(&a)) {
                self.bad.push(("C15", format!("nft whitelist lists {a} twice")));
            }
        }
        let mut codes = BTreeMap::new();
        for (k, a) in &comp {
            if let Some((code, _, admin, _)) = c.contract_meta(a) {
                codes.insert(k.clone(), (code, admin));
            }
        }
        Ok(DaoState {
            kind,
            asset,
            metadata: info["metadata"].clone(),
            creation: st(&info["creation_date"]),
            version: ver(&info["dao_version"]),
            att: comp.contains_key("attestation"),
            comp,
            codes,
            att_text,
            restricted,
            gov: gov_of(&gc["gov_config"]),
            council_cfg,
            unlocking,
            weights,
            total,
            council,
            council_total,
            nft_stakes,
            claims,
            props,
            min_weight,
            rewards,
            asset_wl,
            nft_wl,
            hid: prev.map(|p| p.hid.clone()).unwrap_or_default(),
        })
    }
}
