//! A DAO small enough to steer by hand: one member decides everything.
use crate::chain::Tx;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub struct Lite {
    pub ent: String,
    pub comp: BTreeMap<String, String>,
    pub boss: String,
}

pub const GOV: fn() -> Value = || json!({"quorum": "0.1", "threshold": "0.5", "veto_threshold": null, "vote_duration": 100, "minimum_deposit": null, "allow_early_proposal_execution": true});

pub fn request(name: &str, membership: Value) -> Value {
    json!({
        "dao_metadata": metadata(name), "gov_config": GOV(), "dao_council": null, "dao_membership": membership,
        "asset_whitelist": null, "nft_whitelist": null, "minimum_weight_for_rewards": null, "cross_chain_treasuries": null, "attestation_text": null,
    })
}

pub fn components_of(c: &crate::chain::Chain, ent: &str) -> BTreeMap<String, String> {
    let r = c.q(ent, json!({"component_contracts": {}})).unwrap_or(Value::Null);
    let mut m = BTreeMap::new();
    for (k, f) in [
        ("governance", "enterprise_governance_contract"), ("controller", "enterprise_governance_controller_contract"), ("treasury", "enterprise_treasury_contract"),
        ("outposts", "enterprise_outposts_contract"), ("distributor", "funds_distributor_contract"), ("membership", "membership_contract"),
        ("council", "council_membership_contract"), ("attestation", "attestation_contract"),
    ] {
        if let Some(s) = r[f].as_str() {
            m.insert(k.to_string(), s.to_string());
        }
    }
    m.insert("enterprise".into(), ent.to_string());
    m
}

/// the main contract created by a transaction of the factory
pub fn created(b: &Base, tx: &Tx) -> Option<String> {
    let k = &b.codes;
    tx.new_contracts
        .iter()
        .find(|a| [k.enterprise, k.enterprise2, k.step, k.step2].contains(&b.c.contract_meta(a).map_or(0, |m| m.0)))
        .cloned()
}

impl Lite {
    pub fn c(&self, k: &str) -> &str {
        self.comp.get(k).map_or("", |s| s.as_str())
    }
    pub fn of(b: &Base, ent: &str, boss: &str) -> Lite {
        Lite { ent: ent.into(), comp: components_of(&b.c, ent), boss: boss.into() }
    }
    /// multisig DAO whose only member is `boss`
    pub fn new(b: &Base, boss: &str) -> Result<Lite, String> {
        Lite::with(b, boss, request("lite", json!({"new_multisig": {"multisig_members": [{"user": boss, "weight": "1"}]}})))
    }
    pub fn with(b: &Base, boss: &str, msg: Value) -> Result<Lite, String> {
        let tx = b.c.execute("creator", &b.factory, &json!({ "create_dao": msg }), &[]);
        if !tx.ok {
            return Err(tx.err);
        }
        let ent = created(b, &tx).ok_or("no main contract")?;
        Ok(Lite::of(b, &ent, boss))
    }
    /// create, pass and execute a proposal; the execution's transaction is returned
    pub fn govern(&self, b: &Base, actions: Value) -> Result<Tx, String> {
        let id = self.passed(b, actions)?;
        Ok(b.c.execute(&self.boss, self.c("controller"), &json!({"execute_proposal": {"proposal_id": id}}), &[]))
    }
    /// a proposal with all votes in favour
    pub fn passed(&self, b: &Base, actions: Value) -> Result<u64, String> {
        let ctrl = self.c("controller");
        let tx = b.c.execute(&self.boss, ctrl, &json!({"create_proposal": {"title": "t", "description": null, "proposal_actions": actions, "deposit_owner": null}}), &[]);
        if !tx.ok {
            return Err(format!("create: {}", tx.err));
        }
        let id: u64 = tx.attr("proposal_id").and_then(|s| s.parse().ok()).ok_or("no proposal id")?;
        let tx = b.c.execute(&self.boss, ctrl, &json!({"cast_vote": {"proposal_id": id, "outcome": "yes"}}), &[]);
        if !tx.ok {
            return Err(format!("vote: {}", tx.err));
        }
        Ok(id)
    }
    /// did the last execution perform its actions
    pub fn performed(tx: &Tx) -> bool {
        tx.ok && tx.live().any(|c| c.key() == "execute_proposal_actions")
    }
}
