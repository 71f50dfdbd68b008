//! Fixed histories: the recorded findings and the repaired defects, reproduced on every run.
use crate::lite::*;
use crate::model::*;
use crate::mon::Mon;
use crate::obs::*;
use crate::run::Out;
use crate::world::*;
use cosmwasm_std::coin;
use serde_json::{json, Value};

fn denom_dao(b: &Base, council: Value, early: bool) -> Result<Lite, String> {
    let mut m = request("pinned", json!({"new_denom": {"denom": "ustake", "unlocking_period": {"time": 1000}}}));
    m["dao_council"] = council;
    m["gov_config"]["allow_early_proposal_execution"] = json!(early);
    Lite::with(b, "alice", m)
}

pub fn pinned(focus: &'static str, seed: u64, _size: usize) -> Out {
    let mut mon = Mon::new(focus);
    let mut log = vec![];
    let amt = 2 + (seed % 1000) as u128;
    // a council member's open council vote, when their stake changes
    {
        let b = base();
        b.c.mint("alice", "ustake", 10_000);
        let council = json!({"members": ["alice", "bobby"], "quorum": "0.5", "threshold": "0.5", "allowed_proposal_action_types": ["update_metadata"]});
        match denom_dao(&b, council, false) {
            Err(e) => mon.fail("C20", "valid dao creation accepted", e),
            Ok(d) => {
                let ctrl = d.c("controller").to_string();
                let act = json!([{"update_metadata": {"name": {"change": "x"}, "description": "no_change", "logo": "no_change", "github_username": "no_change", "discord_username": "no_change", "twitter_username": "no_change", "telegram_username": "no_change"}}]);
                let t1 = b.c.execute("alice", &ctrl, &json!({"create_council_proposal": {"title": "t", "description": null, "proposal_actions": act, "deposit_owner": null}}), &[]);
                let t2 = b.c.execute("alice", &ctrl, &json!({"cast_council_vote": {"proposal_id": 1, "outcome": "yes"}}), &[]);
                let t3 = b.c.execute("alice", d.c("membership"), &json!({"stake": {"user": null}}), &[coin(amt, "ustake")]);
                mon.step += 3;
                log.push(format!("council proposal {} vote {} stake {}", t1.ok, t2.ok, t3.ok));
                mon.ctx = log.last().unwrap().clone();
                let p = b.c.q(d.c("governance"), json!({"poll": {"poll_id": 1}})).unwrap_or(Value::Null);
                let v = b.c.q(d.c("governance"), json!({"poll_voter": {"poll_id": "1", "voter_addr": "alice"}})).or_else(|_| b.c.q(d.c("governance"), json!({"poll_voter": {"poll_id": 1, "voter_addr": "alice"}})));
                let got = results(&p["poll"]["results"])[0];
                log.push(format!("{p} {v:?}"));
                if t1.ok && t2.ok && t3.ok {
                    if got == amt && amt != 1 {
                        mon.known("C01", "council-vote-follows-membership-weight", format!("council vote of weight 1 became {got} when the voter staked {amt}"));
                    }
                    for t in ["C01", "C07"] {
                        mon.check(t, "council vote counts with council weight", amt, got == 1 || got == amt, || format!("yes total {got} after staking {amt}"));
                    }
                } else {
                    for t in ["C01", "C07"] {
                        mon.check(t, "council member can propose and vote", 0u8, false, || format!("{} {} {}", t1.err, t2.err, t3.err));
                    }
                }
            }
        }
    }
    // everybody left before the end
    {
        let b = base();
        b.c.mint("alice", "ustake", 10_000);
        match denom_dao(&b, Value::Null, false) {
            Err(e) => mon.fail("C20", "valid dao creation accepted", e),
            Ok(d) => {
                let ctrl = d.c("controller").to_string();
                b.c.execute("alice", d.c("membership"), &json!({"stake": {"user": null}}), &[coin(amt, "ustake")]);
                b.c.execute("alice", &ctrl, &json!({"create_proposal": {"title": "t", "description": null, "proposal_actions": [], "deposit_owner": null}}), &[]);
                b.c.advance(1, 1_000_000_000);
                b.c.execute("alice", d.c("membership"), &json!({"unstake": {"amount": amt.to_string()}}), &[]);
                b.c.advance(5, 200_000_000_000);
                let s = b.c.q(&ctrl, json!({"proposal_status": {"proposal_id": 1}})).unwrap_or(Value::Null);
                let tx = b.c.execute("alice", &ctrl, &json!({"execute_proposal": {"proposal_id": 1}}), &[]);
                mon.step += 4;
                log.push(format!("status {s}, execution {} {}", tx.ok, tx.err));
                mon.ctx = log.last().unwrap().clone();
                let rejected = st(&s["status"]) == "rejected";
                mon.check("C24", "status when nobody is left", amt, rejected, || format!("{s}"));
                if rejected && !tx.ok {
                    mon.known("C24", "zero-total-never-executable", format!("status {} but execution is refused: {}", s["status"], tx.err));
                }
            }
        }
    }
    // a drawn proposal that can be executed early says so
    {
        let b = base();
        let mut m = request("pinned", json!({"new_multisig": {"multisig_members": [{"user": "alice", "weight": "5"}, {"user": "bobby", "weight": "5"}]}}));
        m["gov_config"]["threshold"] = json!("0.5");
        if let Ok(d) = Lite::with(&b, "alice", m) {
            let ctrl = d.c("controller").to_string();
            b.c.execute("alice", &ctrl, &json!({"create_proposal": {"title": "t", "description": null, "proposal_actions": [], "deposit_owner": null}}), &[]);
            b.c.execute("alice", &ctrl, &json!({"cast_vote": {"proposal_id": 1, "outcome": "yes"}}), &[]);
            b.c.execute("bobby", &ctrl, &json!({"cast_vote": {"proposal_id": 1, "outcome": "no"}}), &[]);
            let s = st(&b.c.q(&ctrl, json!({"proposal_status": {"proposal_id": 1}})).unwrap_or(Value::Null)["status"]);
            let tx = b.c.execute("alice", &ctrl, &json!({"execute_proposal": {"proposal_id": 1}}), &[]);
            mon.step += 1;
            mon.check("C24", "early draw is reported as executable exactly when it is", tx.ok, (s == "in_progress_can_execute_early") == tx.ok, || format!("status {s}, execution {} {}", tx.ok, tx.err));
        }
    }
    // replacing the member list takes weight away from the dropped members everywhere
    {
        let b = base();
        let m = request("pinned", json!({"new_multisig": {"multisig_members": [{"user": "alice", "weight": "5"}, {"user": "bobby", "weight": "4"}]}}));
        if let Ok(d) = Lite::with(&b, "alice", m) {
            let ctrl = d.c("controller").to_string();
            b.c.execute("alice", &ctrl, &json!({"create_proposal": {"title": "t", "description": null, "proposal_actions": [], "deposit_owner": null}}), &[]);
            b.c.execute("bobby", &ctrl, &json!({"cast_vote": {"proposal_id": 1, "outcome": "no"}}), &[]);
            let inner = cosmwasm_std::to_json_binary(&json!({"set_members": {"new_members": [{"user": "alice", "weight": "7"}]}})).unwrap();
            let msg = json!({"wasm": {"execute": {"contract_addr": d.c("membership"), "msg": inner, "funds": []}}});
            let r = d.govern(&b, json!([{"execute_msgs": {"action_type": "x", "msgs": [msg.to_string()]}}]));
            mon.step += 1;
            let w = members(&b.c, d.c("membership")).unwrap_or_default();
            if w.get("bobby").map_or(true, |x| *x == 0) && w.get("alice") == Some(&7) {
                let p = b.c.q(d.c("governance"), json!({"poll": {"poll_id": 1}})).unwrap_or(Value::Null);
                let no = results(&p["poll"]["results"])[1];
                for t in ["C12", "C01"] {
                    mon.check(t, "dropped members lose their open votes", 0u8, no == 0, || format!("no total {no} after bobby was dropped"));
                }
                b.c.mint("donor", GLOBAL_DENOM, 700);
                b.c.execute("donor", d.c("distributor"), &json!({"distribute_native": {}}), &[coin(700, GLOBAL_DENOM)]);
                let rw = b.c.q(d.c("distributor"), json!({"user_rewards": {"user": "bobby", "native_denoms": [GLOBAL_DENOM], "cw20_assets": []}})).unwrap_or(Value::Null);
                for t in ["C12", "C13"] {
                    mon.check(t, "dropped members earn nothing more", 0u8, uint(&rw["native_rewards"][0]["amount"]) == 0, || format!("{rw}"));
                }
            } else {
                log.push(format!("replacement: {r:?} {w:?}", r = r.map(|t| (t.ok, t.err)), w = w));
            }
        }
    }
    Out { mon, log }
}
