//! Small helpers for demonstrations.
#![allow(dead_code)]
use crate::chain::{Chain, Tx};
use crate::codes::{store_all, Codes};
use cosmwasm_std::{Binary, Coin};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn coin(denom: &str, amount: u128) -> Coin {
    Coin { denom: denom.into(), amount: amount.into() }
}
pub fn b64(v: &Value) -> String {
    Binary(serde_json::to_vec(v).unwrap()).to_base64()
}
pub fn st(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}
pub const SEC: u64 = 1_000_000_000;

pub fn version_info(codes: &Codes, v: (u64, u64, u64), second: bool, ent: u64) -> Value {
    let c = codes;
    let p = |a: u64, b: u64| if second { b } else { a };
    json!({
        "version": {"major": v.0, "minor": v.1, "patch": v.2},
        "changelog": [format!("release {}.{}.{}", v.0, v.1, v.2)],
        "attestation_code_id": p(c.attestation, c.attestation2),
        "enterprise_code_id": ent,
        "enterprise_governance_code_id": c.governance,
        "enterprise_governance_controller_code_id": c.controller,
        "enterprise_outposts_code_id": p(c.outposts, c.outposts2),
        "enterprise_treasury_code_id": c.treasury,
        "funds_distributor_code_id": p(c.distributor, c.distributor2),
        "token_staking_membership_code_id": p(c.token, c.token2),
        "denom_staking_membership_code_id": p(c.denom, c.denom2),
        "nft_staking_membership_code_id": p(c.nft, c.nft2),
        "multisig_membership_code_id": p(c.multisig, c.multisig2),
    })
}

pub struct Base {
    pub c: Chain,
    pub codes: Codes,
    pub versioning: String,
    pub factory: String,
}

pub const GLOBAL_DENOM: &str = "uglobal";

pub fn base() -> Base {
    base_with(&[], &json!([{"native": GLOBAL_DENOM}]), &json!([]))
}

/// `versions`: (version, second component set, enterprise code selector: 0 real, 1 real2, 2 step, 3 step2)
pub fn base_with(versions: &[((u64, u64, u64), bool, u8)], gwl: &Value, gnft: &Value) -> Base {
    let c = Chain::new();
    let codes = store_all(&c);
    let versioning = c
        .instantiate("vadmin", codes.versioning, &json!({"admin": "vadmin"}), "versioning", None)
        .expect("versioning");
    let def = [((1, 0, 0), false, 0u8)];
    let versions = if versions.is_empty() { &def[..] } else { versions };
    for (v, second, e) in versions {
        let ent = [codes.enterprise, codes.enterprise2, codes.step, codes.step2][*e as usize];
        let tx = c.execute("vadmin", &versioning, &json!({"add_version": {"version": version_info(&codes, *v, *second, ent)}}), &[]);
        assert!(tx.ok, "add_version: {}", tx.err);
    }
    let factory = c
        .instantiate(
            "fadmin",
            codes.factory,
            &json!({"config": {"admin": "fadmin", "enterprise_versioning": versioning, "cw20_code_id": codes.cw20, "cw721_code_id": codes.cw721},
                "global_asset_whitelist": gwl, "global_nft_whitelist": gnft}),
            "factory",
            None,
        )
        .expect("factory");
    Base {
        c,
        codes,
        versioning,
        factory,
    }
}

pub fn new_cw20(b: &Chain, code: u64, name: &str, balances: &[(String, u128)]) -> String {
    let bal: Vec<Value> = balances.iter().map(|(a, n)| json!({"address": a, "amount": n.to_string()})).collect();
    b.instantiate(
        "cw20admin",
        code,
        &json!({"name": name, "symbol": "TOK", "decimals": 6, "initial_balances": bal, "mint": {"minter": "cw20admin", "cap": null}, "marketing": null}),
        name,
        None,
    )
    .expect("cw20")
}

pub fn new_cw721(b: &Chain, code: u64, name: &str, tokens: &[(String, String)]) -> String {
    let a = b
        .instantiate("nftadmin", code, &json!({"name": name, "symbol": "NFT", "minter": "nftadmin"}), name, None)
        .expect("cw721");
    for (id, owner) in tokens {
        let tx = b.execute("nftadmin", &a, &json!({"mint": {"token_id": id, "owner": owner, "token_uri": null, "extension": null}}), &[]);
        assert!(tx.ok, "mint: {}", tx.err);
    }
    a
}

pub fn metadata(name: &str) -> Value {
    json!({"name": name, "description": "a dao", "logo": "none",
        "socials": {"github_username": null, "discord_username": null, "twitter_username": null, "telegram_username": null}})
}

pub struct Lite {
    pub ent: String,
    pub comp: BTreeMap<String, String>,
    pub boss: String,
}

pub const GOV: fn() -> Value = || json!({"quorum": "0.1", "threshold": "0.5", "veto_threshold": null, "vote_duration": 100, "minimum_deposit": null, "allow_early_proposal_execution": true});

pub fn request(name: &str, membership: Value) -> Value {
    json!({
        "dao_metadata": metadata(name), "gov_config": GOV(), "dao_council": null, "dao_membership": membership,
        "asset_whitelist": null, "nft_whitelist": null, "minimum_weight_for_rewards": null, "cross_chain_treasuries": null, "attestation_text": null,
    })
}

pub fn components_of(c: &crate::chain::Chain, ent: &str) -> BTreeMap<String, String> {
    let r = c.q(ent, json!({"component_contracts": {}})).unwrap_or(Value::Null);
    let mut m = BTreeMap::new();
    for (k, f) in [
        ("governance", "enterprise_governance_contract"), ("controller", "enterprise_governance_controller_contract"), ("treasury", "enterprise_treasury_contract"),
        ("outposts", "enterprise_outposts_contract"), ("distributor", "funds_distributor_contract"), ("membership", "membership_contract"),
        ("council", "council_membership_contract"), ("attestation", "attestation_contract"),
    ] {
        if let Some(s) = r[f].as_str() {
            m.insert(k.to_string(), s.to_string());
        }
    }
    m.insert("enterprise".into(), ent.to_string());
    m
}

/// the main contract created by a transaction of the factory
pub fn created(b: &Base, tx: &Tx) -> Option<String> {
    let k = &b.codes;
    tx.new_contracts
        .iter()
        .find(|a| [k.enterprise, k.enterprise2, k.step, k.step2].contains(&b.c.contract_meta(a).map_or(0, |m| m.0)))
        .cloned()
}

impl Lite {
    /// create a proposal, do not vote
    pub fn propose(&self, b: &Base, who: &str, actions: Value) -> u64 {
        let tx = b.c.execute(who, self.c("controller"), &json!({"create_proposal": {"title": "t", "description": null, "proposal_actions": actions, "deposit_owner": null}}), &[]);
        assert!(tx.ok, "create: {}", tx.err);
        tx.attr("proposal_id").and_then(|s| s.parse().ok()).expect("proposal id")
    }
    pub fn vote(&self, b: &Base, who: &str, id: u64, outcome: &str) -> Tx {
        b.c.execute(who, self.c("controller"), &json!({"cast_vote": {"proposal_id": id, "outcome": outcome}}), &[])
    }
    pub fn run(&self, b: &Base, who: &str, id: u64) -> Tx {
        b.c.execute(who, self.c("controller"), &json!({"execute_proposal": {"proposal_id": id}}), &[])
    }
    pub fn proposal(&self, b: &Base, id: u64) -> Value {
        b.c.q(self.c("controller"), json!({"proposal": {"proposal_id": id}})).expect("proposal")
    }
    pub fn c(&self, k: &str) -> &str {
        self.comp.get(k).map_or("", |s| s.as_str())
    }
    pub fn of(b: &Base, ent: &str, boss: &str) -> Lite {
        Lite { ent: ent.into(), comp: components_of(&b.c, ent), boss: boss.into() }
    }
    /// multisig DAO whose only member is `boss`
    pub fn new(b: &Base, boss: &str) -> Result<Lite, String> {
        Lite::with(b, boss, request("lite", json!({"new_multisig": {"multisig_members": [{"user": boss, "weight": "1"}]}})))
    }
    pub fn with(b: &Base, boss: &str, msg: Value) -> Result<Lite, String> {
        let tx = b.c.execute("creator", &b.factory, &json!({ "create_dao": msg }), &[]);
        if !tx.ok {
            return Err(tx.err);
        }
        let ent = created(b, &tx).ok_or("no main contract")?;
        Ok(Lite::of(b, &ent, boss))
    }
    /// create, pass and execute a proposal; the execution's transaction is returned
    pub fn govern(&self, b: &Base, actions: Value) -> Result<Tx, String> {
        let id = self.passed(b, actions)?;
        Ok(b.c.execute(&self.boss, self.c("controller"), &json!({"execute_proposal": {"proposal_id": id}}), &[]))
    }
    /// a proposal with all votes in favour
    pub fn passed(&self, b: &Base, actions: Value) -> Result<u64, String> {
        let ctrl = self.c("controller");
        let tx = b.c.execute(&self.boss, ctrl, &json!({"create_proposal": {"title": "t", "description": null, "proposal_actions": actions, "deposit_owner": null}}), &[]);
        if !tx.ok {
            return Err(format!("create: {}", tx.err));
        }
        let id: u64 = tx.attr("proposal_id").and_then(|s| s.parse().ok()).ok_or("no proposal id")?;
        let tx = b.c.execute(&self.boss, ctrl, &json!({"cast_vote": {"proposal_id": id, "outcome": "yes"}}), &[]);
        if !tx.ok {
            return Err(format!("vote: {}", tx.err));
        }
        Ok(id)
    }
    /// did the last execution perform its actions
    pub fn performed(tx: &Tx) -> bool {
        tx.ok && tx.live().any(|c| c.key() == "execute_proposal_actions")
    }
}

/// a cw20 and a DAO staking it; `balances` are the holders
pub fn token_dao(b: &Base, balances: &[(&str, u128)], unlocking: Value, gov: Value) -> (Lite, String) {
    let bal: Vec<(String, u128)> = balances.iter().map(|(a, n)| (a.to_string(), *n)).collect();
    let tok = new_cw20(&b.c, b.codes.cw20, "token", &bal);
    let mut r = request("token dao", json!({"import_cw20": {"cw20_contract": tok, "unlocking_period": unlocking}}));
    r["gov_config"] = gov;
    (Lite::with(b, balances[0].0, r).unwrap(), tok)
}
/// send tokens to a contract with a message
pub fn send(b: &Base, tok: &str, who: &str, to: &str, n: u128, msg: Value) -> Tx {
    b.c.execute(who, tok, &json!({"send": {"contract": to, "amount": n.to_string(), "msg": b64(&msg)}}), &[])
}
pub fn stake(b: &Base, d: &Lite, tok: &str, who: &str, n: u128) -> Tx {
    send(b, tok, who, d.c("membership"), n, json!({"stake": {"user": who}}))
}
pub fn unstake(b: &Base, d: &Lite, who: &str, n: u128) -> Tx {
    b.c.execute(who, d.c("membership"), &json!({"unstake": {"amount": n.to_string()}}), &[])
}
pub fn num(v: &Value) -> u128 {
    v.as_str().and_then(|s| s.parse().ok()).or(v.as_u64().map(|x| x as u128)).unwrap_or(0)
}
pub fn cw20_balance(b: &Base, tok: &str, who: &str) -> u128 {
    num(&b.c.q(tok, json!({"balance": {"address": who}})).unwrap()["balance"])
}
/// multisig request
pub fn multisig(name: &str, members: &[(&str, u128)]) -> Value {
    let ms: Vec<Value> = members.iter().map(|(u, w)| json!({"user": u, "weight": w.to_string()})).collect();
    request(name, json!({"new_multisig": {"multisig_members": ms}}))
}
/// a message for an execute_msgs action
pub fn wasm(contract: &str, msg: Value) -> Value {
    json!(json!({"wasm": {"execute": {"contract_addr": contract, "msg": b64(&msg), "funds": []}}}).to_string())
}
