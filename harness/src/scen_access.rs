//! Caller matrix: every privileged message of every contract against every kind of caller.
use crate::model::*;
use crate::run::Out;
use crate::scen_ibc::{derive, Remote};
use crate::workload::{make_world, privileged_msgs};
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

/// owner must succeed for these (state independent)
const ALWAYS: [&str; 12] = [
    "update_metadata", "set_attestation", "remove_attestation", "execute_msgs", "update_config", "create_poll", "set_admin", "update_asset_whitelist",
    "update_nft_whitelist", "update_minimum_eligible_weight", "update_user_weights", "update_unlocking_period",
];

pub fn access(focus: &'static str, seed: u64, steps: usize) -> Out {
    let mut g = make_world(focus, seed);
    g.run(steps);
    if g.w.void || !g.w.mon.viols.is_empty() {
        return Out { mon: g.w.mon, log: g.w.log };
    }
    let mut w = g.w;
    // a bridge callback contract and a not yet finalised DAO beside the others
    let bridge = w.c.instantiate("rec", w.codes.recorder, &json!({}), "bridge", None).unwrap();
    let ics = w.c.instantiate("someone", w.codes.ics721_proxy, &json!({"ics721_proxy": bridge}), "cb", None).expect("callback proxy");
    let raw = w
        .c
        .instantiate(
            "setup",
            w.codes.enterprise,
            &json!({"dao_metadata": metadata("raw"), "enterprise_factory_contract": w.factory, "enterprise_versioning_contract": w.versioning,
                "dao_type": "multisig", "dao_version": {"major": 1, "minor": 0, "patch": 0}, "dao_creation_date": null}),
            "raw",
            None,
        )
        .expect("enterprise");
    // everyone who might try
    let mut callers: BTreeMap<String, String> = BTreeMap::new();
    for (i, u) in w.users.iter().enumerate() {
        callers.insert(u.clone(), format!("user{}", if i == 8 { "-outsider" } else { "" }));
    }
    for (a, k) in [("creator", "creator"), ("vadmin", "registry admin"), ("fadmin", "factory admin"), ("cw20admin", "token admin"), ("setup", "setup")] {
        callers.insert(a.into(), k.into());
    }
    callers.insert(w.factory.clone(), "factory".into());
    callers.insert(w.versioning.clone(), "registry".into());
    callers.insert(bridge.clone(), "bridge".into());
    callers.insert(ics.clone(), "callback proxy".into());
    callers.insert(raw.clone(), "unfinished dao".into());
    for x in w.cw20s.iter().chain(w.cw721s.iter()) {
        callers.insert(x.clone(), "token".into());
    }
    for x in &w.recs {
        callers.insert(x.clone(), "other contract".into());
    }
    for (i, d) in w.m.daos.iter().enumerate() {
        for (k, a) in &d.comp {
            callers.insert(a.clone(), format!("{k}#{i}"));
        }
    }
    let deep = w.rng.chance(1, 3);
    for di in 0..w.m.daos.len() {
        let d = w.m.daos[di].clone();
        let ctrl = d.c("controller").to_string();
        // a remote treasury so that orders to it are meaningful
        let mut remote = Remote::new("chain-a", w.rng.below(1000));
        let dep = remote.deploy_msg();
        w.c.mint(d.c("outposts"), "uluna", 100);
        let t = w.c.execute(&ctrl, d.c("outposts"), &dep, &[]);
        if t.ok && w.rng.chance(3, 4) {
            let s1 = derive(&remote.src_channel, &remote.global, "terra");
            let r1 = w.c.execute(&s1, d.c("outposts"), &Remote::reply(1, "chaina1proxy"), &[]);
            let r2 = w.c.execute(&s1, d.c("outposts"), &Remote::reply(2, "chaina1treasury"), &[]);
            remote.ready = r1.ok && r2.ok;
        }
        let mut list: Vec<(&'static str, Value, Vec<String>)> = vec![];
        for (c, m) in privileged_msgs(&d, &w.recs[0]) {
            let k = top(&m).0;
            let owners = match (c, k.as_str()) {
                ("enterprise", "finalize_instantiation") => vec![],
                ("enterprise", "upgrade_dao") => vec![],
                ("controller", "weights_changed") => vec![d.c("membership").to_string(), d.c("council").to_string()],
                ("controller", "execute_proposal_actions") => vec![ctrl.clone()],
                ("controller", "deploy_initial_cross_chain_treasuries") => vec![],
                ("outposts", "execute_msg_reply_callback") => vec![],
                ("outposts", _) => continue,
                _ => vec![ctrl.clone()],
            };
            list.push((c, m, owners));
        }
        list.push(("outposts", remote.order(json!({"spend": {"recipient": "mallory", "assets": []}})), vec![ctrl.clone()]));
        list.push(("outposts", Remote::new("chain-b", 7).deploy_msg(), vec![ctrl.clone()]));
        list.push(("treasury", json!({"spend": {"recipient": "mallory", "assets": [{"info": {"cw20": w.cw20s[0]}, "amount": "1"}]}}), vec![ctrl.clone()]));
        // several proposals, not only the first
        for id in d.props.keys().copied().filter(|x| *x > 1).collect::<Vec<_>>() {
            if w.rng.chance(1, 3) {
                list.push(("controller", json!({"execute_proposal_actions": {"proposal_id": id}}), vec![ctrl.clone()]));
                list.push(("governance", json!({"end_poll": {"poll_id": id.to_string(), "maximum_available_votes": "1", "error_if_already_ended": false, "allow_early_ending": true}}), vec![ctrl.clone()]));
                list.push(("governance", json!({"cast_vote": {"poll_id": id.to_string(), "outcome": "yes", "voter": "mallory", "amount": "1000"}}), vec![ctrl.clone()]));
            }
        }
        match d.kind {
            Kind::Token => {
                for inner in [
                    json!({"stake": {"user": "mallory"}}),
                    json!({"add_stakes": {"stakers": [{"user": "mallory", "staked_amount": "9"}]}}),
                    json!({"add_claims": {"claims": [{"user": "mallory", "claim_amount": "9", "release_at": {"height": "1"}}]}}),
                ] {
                    list.push(("membership", json!({"receive": {"sender": "alice", "amount": "9", "msg": to_b64(&inner)}}), vec![d.asset.clone()]));
                }
                list.push((
                    "controller",
                    json!({"receive": {"sender": "alice", "amount": "1000000000000000000000", "msg": to_b64(&json!({"create_proposal": {"title": "t", "description": "d", "proposal_actions": [], "deposit_owner": "mallory"}}))}}),
                    vec![d.asset.clone()],
                ));
            }
            Kind::Nft => {
                for inner in [json!({"stake": {"user": "mallory"}}), json!({"add_claim": {"user": "mallory", "release_at": {"height": "1"}}})] {
                    list.push(("membership", json!({"receive_nft": {"edition": null, "sender": "alice", "token_id": "neverseen", "msg": to_b64(&inner)}}), vec![d.asset.clone()]));
                }
            }
            _ => {}
        }
        // the shape of a genuine reply to the outstanding request, from everyone but the bridge address
        if !remote.ready && t.ok {
            list.push(("outposts", Remote::reply(1, "chaina1proxy"), vec![derive(&remote.src_channel, &remote.global, "terra")]));
            callers.insert(derive(&remote.src_channel, &remote.global, "terra"), format!("bridge reply#{di}"));
            callers.insert(derive(&remote.dest_channel, &remote.global, "terra"), "wrong channel reply".into());
            callers.insert(derive(&remote.src_channel, "someone", "terra"), "wrong proxy reply".into());
            callers.insert(remote.global.clone(), "global proxy itself".into());
        }
        for (comp, m, owners) in &list {
            let target = d.c(comp).to_string();
            if target.is_empty() {
                continue;
            }
            let key = top(m).0;
            let mut owner_ok = false;
            for o in owners {
                let tx = w.c.simulate(o, vec![ex(&target, m.clone(), &[])]);
                owner_ok |= tx.ok;
                if ALWAYS.contains(&key.as_str()) && *comp != "controller" {
                    w.mon.check("C08", "the owner may", (comp, &key, d.kind), tx.ok, || format!("{key} on {comp} refused to its owner {o}: {} — {m}", tx.err));
                }
            }
            for (who, class) in &callers {
                if owners.contains(who) || (!deep && who != "mallory" && !class.contains('#') && w.rng.chance(1, 2)) {
                    continue;
                }
                // anyone may ask for the next legacy migration step; it must do nothing
                let harmless = key == "perform_next_migration_step";
                let tx = w.c.simulate(who, vec![ex(&target, m.clone(), &[])]);
                let ok = if harmless { tx.no_effect() } else { !tx.ok };
                let rel = if class.ends_with(&format!("#{di}")) { "own" } else if class.contains('#') { "foreign" } else { "" };
                w.mon.check("C08", "refused to everyone else", (comp, &key, d.kind, class.split('#').next(), rel, owner_ok), ok, || {
                    format!("dao {di} ({:?}): {comp}.{key} was accepted from {who} ({class}): {m}", d.kind)
                });
                if who.ends_with("controller") || rel == "foreign" {
                    w.mon.check("C27", "governance of one DAO has no say over another", (comp, &key, d.kind, class.split('#').next()), ok, || {
                        format!("dao {di}: {comp}.{key} accepted from {who} ({class})")
                    });
                }
                if *comp == "outposts" {
                    w.mon.check("C21", "refused to everyone else", (&key, class.split('#').next(), rel, owner_ok), ok, || format!("outposts.{key} accepted from {who} ({class}): {m}"));
                }
                if *comp == "treasury" {
                    w.mon.check("C17", "treasury obeys governance only", (&key, class.split('#').next(), rel, owner_ok), ok, || format!("treasury.{key} accepted from {who} ({class}): {m}"));
                }
                if w.mon.silenced.contains(focus) {
                    return Out { mon: w.mon, log: w.log };
                }
            }
        }
    }
    // factory, registry, bridge callback, set-up
    let v2 = version_info(&w.codes, (3, 1, 4), false, w.codes.enterprise);
    let comps: BTreeSet<String> = w.recs.iter().cloned().collect();
    let rec = comps.iter().next().unwrap().clone();
    let fin = privileged_msgs(&w.m.daos[0], &rec).into_iter().find(|x| top(&x.1).0 == "finalize_instantiation").unwrap().1;
    let globals: Vec<(String, Value, Vec<String>, bool)> = vec![
        (w.factory.clone(), json!({"update_config": {"new_admin": "mallory", "new_enterprise_versioning": null, "new_cw20_code_id": null, "new_cw721_code_id": null}}), vec!["fadmin".into()], true),
        (w.factory.clone(), json!({"update_config": {"new_admin": null, "new_enterprise_versioning": "mallory", "new_cw20_code_id": 3, "new_cw721_code_id": 4}}), vec!["fadmin".into()], true),
        (w.factory.clone(), json!({"finalize_dao_creation": {}}), vec![], false),
        (w.versioning.clone(), json!({"update_admin": {"new_admin": "mallory"}}), vec!["vadmin".into()], true),
        (w.versioning.clone(), json!({"add_version": {"version": v2}}), vec!["vadmin".into()], true),
        (w.versioning.clone(), json!({"edit_version": {"version": {"major": 1, "minor": 0, "patch": 0}, "changelog": ["hacked"], "enterprise_code_id": 1}}), vec!["vadmin".into()], true),
        (raw.clone(), fin.clone(), vec!["setup".into()], true),
        (raw.clone(), privileged_msgs(&w.m.daos[0], &rec)[0].1.clone(), vec![], false),
        (
            ics.clone(),
            json!({"ics721_receive_callback": {"nft_contract": w.cw721s[0], "original_packet": {"classId": "x", "classUri": null, "classData": null, "tokenIds": [], "tokenUris": null, "tokenData": null, "sender": "mallory", "receiver": "mallory", "memo": null},
                "msg": to_b64(&json!({"stake": {"user": "mallory", "membership_contract": w.m.daos[0].c("membership")}}))}}),
            vec![bridge.clone()],
            true,
        ),
    ];
    for (target, m, owners, must) in &globals {
        let key = top(m).0;
        let mut owner_ok = false;
        for o in owners {
            let tx = w.c.simulate(o, vec![ex(target, m.clone(), &[])]);
            owner_ok |= tx.ok;
            if *must {
                w.mon.check("C08", "the owner may", &key, tx.ok, || format!("{key} refused to {o}: {}", tx.err));
            }
        }
        for (who, class) in &callers {
            if owners.contains(who) {
                continue;
            }
            let tx = w.c.simulate(who, vec![ex(target, m.clone(), &[])]);
            let tag = match key.as_str() {
                "add_version" | "edit_version" | "update_admin" => "C19",
                "ics721_receive_callback" => "C23",
                _ => "C20",
            };
            for t in ["C08", tag] {
                w.mon.check(t, "refused to everyone else", (&key, class.split('#').next(), owner_ok), !tx.ok, || format!("{key} accepted from {who} ({class}): {m}"));
            }
        }
    }
    // set-up happens once
    let t1 = w.c.execute("setup", &raw, &fin, &[]);
    w.mon.check("C08", "set-up by the creator", 0, t1.ok, || format!("finalize_instantiation refused to the creator: {}", t1.err));
    for who in ["setup", "mallory", &w.factory, &rec] {
        let tx = w.c.simulate(who, vec![ex(&raw, fin.clone(), &[])]);
        w.mon.check("C08", "set-up happens once", who.len(), !tx.ok, || format!("second finalize_instantiation accepted from {who}"));
    }
    initial_treasuries(&mut w);
    Out { mon: w.mon, log: w.log }
}

/// initial remote treasuries are deployed by the creator in the creation block only, once
fn initial_treasuries(w: &mut World) {
    for late in [false, true] {
        let raw = w
            .c
            .instantiate(
                "setup",
                w.codes.enterprise,
                &json!({"dao_metadata": metadata("raw2"), "enterprise_factory_contract": w.factory, "enterprise_versioning_contract": w.versioning,
                    "dao_type": "multisig", "dao_version": {"major": 1, "minor": 0, "patch": 0}, "dao_creation_date": null}),
                "raw2",
                None,
            )
            .expect("enterprise");
        let outp = w.c.instantiate("setup", w.codes.outposts, &json!({"enterprise_contract": raw}), "o", None).expect("outposts");
        let treas: Vec<Value> = (0..2).map(|i| Remote::new(&format!("chain-{i}"), i).deploy_msg()["deploy_cross_chain_treasury"].clone()).collect();
        let c1 = w
            .c
            .instantiate(
                "setup",
                w.codes.controller,
                &json!({"enterprise_contract": raw, "dao_type": "multisig",
                    "gov_config": {"quorum": "0.3", "threshold": "0.5", "veto_threshold": null, "vote_duration": 100, "minimum_deposit": null, "allow_early_proposal_execution": false},
                    "council_gov_config": null, "proposal_infos": null, "initial_cross_chain_treasuries": treas}),
                "ctrl",
                None,
            )
            .expect("controller");
        let rec = w.recs[0].clone();
        let fin = json!({"finalize_instantiation": {"enterprise_treasury_contract": rec, "enterprise_governance_contract": rec, "enterprise_governance_controller_contract": c1,
            "enterprise_outposts_contract": outp, "funds_distributor_contract": rec, "membership_contract": rec, "council_membership_contract": rec, "attestation_contract": null}});
        let t = w.c.execute("setup", &raw, &fin, &[]);
        if !t.ok {
            w.mon.fail("C08", "set-up by the creator", t.err);
            return;
        }
        w.c.mint(&outp, "uluna", 10);
        let m = json!({"deploy_initial_cross_chain_treasuries": {}});
        if late {
            w.c.advance(1, 1);
        }
        for who in ["mallory", &rec, &raw, &c1, &outp, &w.factory] {
            let tx = w.c.simulate(who, vec![ex(&c1, m.clone(), &[])]);
            for t in ["C08", "C21"] {
                w.mon.check(t, "initial treasuries: creator only", (late, who.len()), !tx.ok, || format!("deploy_initial_cross_chain_treasuries accepted from {who}"));
            }
        }
        let tx = w.c.execute("setup", &c1, &m, &[]);
        let sent = crate::scen_ibc::sent(&tx).len();
        if late {
            for t in ["C08", "C21"] {
                w.mon.check(t, "initial treasuries: creation block only", 0, !tx.ok, || "deploy_initial_cross_chain_treasuries accepted after the creation block".to_string());
            }
            continue;
        }
        w.mon.check("C21", "initial treasuries deployed once", 0, tx.ok && sent == 2, || format!("deploy_initial: ok={} {} requests={sent}", tx.ok, tx.err));
        let tx = w.c.execute("setup", &c1, &m, &[]);
        let sent = crate::scen_ibc::sent(&tx).len();
        w.mon.check("C21", "initial treasuries deployed once", 1, sent == 0, || format!("initial treasuries requested twice ({sent} requests)"));
    }
}
