GC='contracts/enterprise-governance-controller/src/contract.rs'
GV='contracts/enterprise-governance-controller/src/validate.rs'
PX='packages/poll-engine/src/execute.rs'
PQ='packages/poll-engine/src/query.rs'
TR='contracts/enterprise-treasury/src/contract.rs'
TM='contracts/enterprise-treasury/src/migration.rs'
EN='contracts/enterprise/src/contract.rs'
FA='contracts/enterprise-factory/src/contract.rs'
VE='contracts/enterprise-versioning/src/contract.rs'
OU='contracts/enterprise-outposts/src/contract.rs'
FV='contracts/enterprise-facade-v2/src/facade_v2.rs'
IC='packages/ics721-callback-proxy-impl/src/execute.rs'
HEAD='''
use crate::kit::*;
use serde_json::json;

/// true if the property holds
pub fn run() -> bool {
    let b = base();
'''
B=[
dict(id='vote-after-rejection', property='C01',
 needs='a proposal that is rejected before its voting period is over, and a member who votes on it afterwards',
 breaks='votes are accepted on a proposal that has ended, as long as it ended in rejection; its recorded result changes after the fact',
 edits=[(PX,'    validate_not_already_ended(&poll)?;\n    validate_within','    if !matches!(poll.status, poll_engine_api::api::PollStatus::Rejected { .. }) {\n        validate_not_already_ended(&poll)?;\n    }\n    validate_within')],
 scenario=HEAD+'''
    let mut r = multisig("m", &[("alice", 6), ("bobby", 4)]);
    r["gov_config"]["vote_duration"] = json!(1000);
    let d = Lite::with(&b, "alice", r).unwrap();
    let id = d.propose(&b, "alice", json!([]));
    assert!(d.vote(&b, "alice", id, "no").ok);
    assert!(d.run(&b, "alice", id).ok);
    let before = d.proposal(&b, id)["results"].clone();
    let late = d.vote(&b, "bobby", id, "yes");
    !late.ok && d.proposal(&b, id)["results"] == before
}
'''),
dict(id='one-clash-allowed', property='C06',
 needs='a whitelist proposal that adds and removes one and the same cw20 token',
 breaks='a proposal whose effect contradicts itself is accepted',
 edits=[(GV,'''        .cw20
        .intersection(&remove_asset_hashsets.cw20)
        .count()
        > 0usize''','''        .cw20
        .intersection(&remove_asset_hashsets.cw20)
        .count()
        > 1usize''')],
 scenario=HEAD+'''
    let d = Lite::new(&b, "boss").unwrap();
    let tok = new_cw20(&b.c, b.codes.cw20, "token", &[]);
    let other = new_cw20(&b.c, b.codes.cw20, "other", &[]);
    let try_it = |add: serde_json::Value, rem: serde_json::Value| d.passed(&b, json!([{"update_asset_whitelist": {"remote_treasury_target": null, "add": add, "remove": rem}}])).is_ok();
    let fine = try_it(json!([{"cw20": tok}]), json!([{"cw20": other}]));
    let two = try_it(json!([{"cw20": tok}, {"cw20": other}]), json!([{"cw20": other}, {"cw20": tok}]));
    let one = try_it(json!([{"cw20": tok}]), json!([{"cw20": tok}]));
    fine && !two && !one
}
'''),
dict(id='actions-on-behalf', property='C08',
 needs='a passed proposal that makes the main contract call the controller with the id of a proposal nobody approved',
 breaks='the actions of any proposal can be performed without its vote, by a call from the main contract',
 edits=[(GC,'''    // only this contract itself can execute this
    if ctx.info.sender != ctx.env.contract.address {
        return Err(Unauthorized);
    }

    let submsgs: Vec<SubMsg> = execute''','''    // only this contract itself, or the main contract, can execute this
    let enterprise_contract = ENTERPRISE_CONTRACT.load(ctx.deps.storage)?;
    if ctx.info.sender != ctx.env.contract.address && ctx.info.sender != enterprise_contract {
        return Err(Unauthorized);
    }

    let submsgs: Vec<SubMsg> = execute''')],
 scenario=HEAD+'''
    let d = Lite::new(&b, "boss").unwrap();
    let nc = json!("no_change");
    let meta = json!({"update_metadata": {"name": {"change": "renamed"}, "description": nc, "logo": nc, "github_username": nc, "discord_username": nc, "twitter_username": nc, "telegram_username": nc}});
    let unapproved = d.propose(&b, "boss", json!([meta]));
    let call = json!({"execute_enterprise_msgs": {"action_type": "x", "msgs": [wasm(d.c("controller"), json!({"execute_proposal_actions": {"proposal_id": unapproved}}))]}});
    d.govern(&b, json!([call])).unwrap();
    b.c.q(&d.ent, json!({"dao_info": {}})).unwrap()["metadata"]["name"] == json!("lite")
}
'''),
dict(id='equal-payments', property='C17',
 needs='two identical messages one after the other in one treasury action',
 breaks='of two equal payments that a proposal orders in a row, only one leaves the treasury',
 edits=[(TR,'''    let mut submsgs: Vec<SubMsg> = vec![];
    for msg in msg.msgs {''','''    let mut submsgs: Vec<SubMsg> = vec![];
    let mut msgs = msg.msgs;
    msgs.dedup();
    for msg in msgs {''')],
 scenario=HEAD+'''
    let d = Lite::new(&b, "boss").unwrap();
    b.c.mint(d.c("treasury"), "uluna", 1000);
    let pay = json!(json!({"bank": {"send": {"to_address": "payee", "amount": [{"denom": "uluna", "amount": "10"}]}}}).to_string());
    let tx = d.govern(&b, json!([{"execute_treasury_msgs": {"action_type": "x", "remote_treasury_target": null, "msgs": [pay, pay]}}])).unwrap();
    assert!(tx.ok, "{}", tx.err);
    b.c.balance("payee", "uluna") == 20 && b.c.balance(d.c("treasury"), "uluna") == 980
}
'''),
dict(id='same-code-skipped', property='C18',
 needs='an upgrade over two consecutive versions that share a main contract code but have migration messages of their own',
 breaks='a version whose main contract code equals its predecessor\'s is skipped, with its migration message',
 edits=[(EN,'''    let mut submsgs = vec![];

    for version in versions {''','''    let mut submsgs = vec![];
    let mut previous_code_id = None;

    for version in versions.into_iter().filter(|version| {
        // nothing to do where the code stays the same
        previous_code_id.replace(version.enterprise_code_id) != Some(version.enterprise_code_id)
    }) {''')],
 scenario='''
use crate::chain::CallKind;
use crate::kit::*;
use serde_json::json;

/// true if the property holds
pub fn run() -> bool {
    let b = base();
    let d = Lite::new(&b, "boss").unwrap();
    for v in [(1, 1, 0), (1, 2, 0), (1, 3, 0)] {
        let ent = if v.1 == 3 { b.codes.step2 } else { b.codes.step };
        let tx = b.c.execute("vadmin", &b.versioning, &json!({"add_version": {"version": version_info(&b.codes, v, false, ent)}}), &[]);
        assert!(tx.ok, "{}", tx.err);
    }
    let msgs: Vec<_> = [1u64, 2, 3].iter().map(|m| json!({"version": {"major": 1, "minor": m, "patch": 0}, "migrate_msg": b64(&json!({ "step": m }))})).collect();
    let tx = d.govern(&b, json!([{"upgrade_dao": {"new_version": {"major": 1, "minor": 3, "patch": 0}, "migrate_msgs": msgs}}])).unwrap();
    assert!(tx.ok, "{}", tx.err);
    let got: Vec<_> = tx.live().filter(|c| matches!(c.kind, CallKind::Migrate { .. }) && c.target == d.ent).map(|c| c.json()["step"].as_u64().unwrap_or(0)).collect();
    got == vec![1, 2, 3]
}
'''),
dict(id='changelog-not-cleared', property='C19',
 needs='an edit that clears the changelog of a registered version',
 breaks='the edit is accepted but not applied',
 edits=[(VE,'''    if let Some(changelog) = &msg.changelog {
        version_info.changelog = changelog.clone();
    }''','''    if let Some(changelog) = &msg.changelog {
        if !changelog.is_empty() {
            version_info.changelog = changelog.clone();
        }
    }''')],
 scenario=HEAD+'''
    let v = json!({"major": 1, "minor": 0, "patch": 0});
    let get = || b.c.q(&b.versioning, json!({"version": {"version": v}})).unwrap()["version"]["changelog"].clone();
    for l in [json!(["a", "b"]), json!([])] {
        let tx = b.c.execute("vadmin", &b.versioning, &json!({"edit_version": {"version": v, "changelog": l}}), &[]);
        assert!(tx.ok, "{}", tx.err);
        if get() != l {
            return false;
        }
    }
    true
}
'''),
dict(id='inherited-attestation', property='C20',
 needs='two creations on one factory: the first with an attestation text, the second without',
 breaks='a DAO created without attestation is wired to the attestation contract of the DAO created before it',
 edits=[(FA,('            attestation_addr: None,',1),'            attestation_addr: previous.and_then(|previous| previous.attestation_addr),'),
        (FA,'    let enterprise_code_id = version_info.enterprise_code_id;\n','    let enterprise_code_id = version_info.enterprise_code_id;\n    let previous = DAO_BEING_CREATED.may_load(deps.storage)?;\n'),
        (FA,('            attestation_addr: None,',1),'            attestation_addr: dao_being_created.attestation_addr.clone(),')],
 scenario=HEAD+'''
    let mut r = multisig("first", &[("alice", 1)]);
    r["attestation_text"] = json!("I am allowed to take part");
    let one = Lite::with(&b, "alice", r).unwrap();
    let two = Lite::with(&b, "alice", multisig("second", &[("alice", 1)])).unwrap();
    one.comp.contains_key("attestation") && !two.comp.contains_key("attestation")
}
'''),
dict(id='callback-overwritten', property='C21',
 needs='two chains being deployed to: the treasury of the first is under way when the proxy of the second is requested',
 breaks='the request for the second chain takes over the callback number of the first; the answer about the first chain\'s treasury is refused',
 edits=[(OU,'    ICS_PROXY_CALLBACK_LAST_ID.save(deps.storage, &callback_id)?;\n\n    // TODO','    // TODO')],
 scenario='''
use crate::kit::*;
use bech32_no_std::ToBase32;
use cosmwasm_std::Binary;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};

fn derive(channel: &str, sender: &str) -> String {
    let mut h = Sha256::new();
    h.update(Sha256::digest(b"ibc-wasm-hook-intermediary"));
    h.update(format!("{channel}/{sender}").as_bytes());
    let d: [u8; 32] = h.finalize().into();
    bech32_no_std::encode("terra", d.to_base32()).unwrap()
}
fn deploy(n: u64) -> Value {
    json!([{"deploy_cross_chain_treasury": {"cross_chain_msg_spec": {"chain_id": format!("chain-{n}"), "chain_bech32_prefix": "pre", "src_ibc_port": "transfer", "src_ibc_channel": format!("channel-{n}"),
        "dest_ibc_port": "transfer", "dest_ibc_channel": format!("channel-9{n}"), "uluna_denom": "ibc/LUNA", "timeout_nanos": null},
        "asset_whitelist": null, "nft_whitelist": null, "ics_proxy_code_id": 5, "enterprise_treasury_code_id": 6, "chain_global_proxy": format!("global{n}")}}])
}
fn answer(b: &Base, d: &Lite, chain: u64, id: u32, addr: &str) -> bool {
    let mut v = vec![0x0a, addr.len() as u8];
    v.extend_from_slice(addr.as_bytes());
    let from = derive(&format!("channel-{chain}"), &format!("global{chain}"));
    let tx = b.c.execute(&from, d.c("outposts"), &json!({"execute_msg_reply_callback": {"callback_id": id, "events": [], "data": Binary(v).to_base64()}}), &[]);
    tx.ok
}

/// true if the property holds
pub fn run() -> bool {
    let b = base();
    let d = Lite::new(&b, "boss").unwrap();
    b.c.mint(d.c("outposts"), "uluna", 100);
    assert!(d.govern(&b, deploy(1)).unwrap().ok);
    // the proxy exists: the treasury is requested, as number two
    assert!(answer(&b, &d, 1, 1, "proxyone"));
    let tx = d.govern(&b, deploy(2)).unwrap();
    assert!(tx.ok);
    let ok = answer(&b, &d, 1, 2, "treasuryone");
    let l = b.c.q(d.c("outposts"), json!({"cross_chain_treasuries": {"start_after": null, "limit": null}})).unwrap();
    ok && l["treasuries"][0]["treasury_addr"] == json!("treasuryone")
}
'''),
dict(id='stake-page-restarts', property='C22',
 needs='an NFT DAO member with several staked NFTs, whose stake is read through the facade page by page',
 breaks='the second page of a user\'s staked NFTs is the first page again',
 edits=[(FV,'''                    &nft_staking_api::msg::QueryMsg::UserStake(UserNftStakeParams {
                        user: params.user,
                        start_after: params.start_after,''','''                    &nft_staking_api::msg::QueryMsg::UserStake(UserNftStakeParams {
                        user: params.user,
                        start_after: params.limit.and(None),''')],
 scenario=HEAD+'''
    let c = &b.c;
    let v1 = c.instantiate("op", b.codes.facade_v1, &json!({ "enterprise_versioning": b.versioning }), "f1", None).unwrap();
    let v2 = c.instantiate("op", b.codes.facade_v2, &json!({}), "f2", None).unwrap();
    let top = c.instantiate("op", b.codes.facade, &json!({"enterprise_facade_v1": v1, "enterprise_facade_v2": v2}), "f", None).unwrap();
    let toks: Vec<(String, String)> = (0..5).map(|i| (format!("n{i}"), "alice".to_string())).collect();
    let coll = new_cw721(c, b.codes.cw721, "coll", &toks);
    let d = Lite::with(&b, "alice", request("n", json!({"import_cw721": {"cw721_contract": coll, "unlocking_period": {"time": 2000}}}))).unwrap();
    for (t, _) in &toks {
        let tx = c.execute("alice", &coll, &json!({"send_nft": {"contract": d.c("membership"), "token_id": t, "msg": b64(&json!({"stake": {"user": "alice"}}))}}), &[]);
        assert!(tx.ok, "{}", tx.err);
    }
    let page = |after: serde_json::Value| c.q(&top, json!({"user_stake": {"contract": d.ent, "params": {"user": "alice", "start_after": after, "limit": 3}}})).unwrap();
    let one = page(json!(null))["user_stake"]["nft"]["tokens"].clone();
    let two = page(json!("n2"))["user_stake"]["nft"]["tokens"].clone();
    one == json!(["n0", "n1", "n2"]) && two == json!(["n3", "n4"])
}
'''),
dict(id='large-packet', property='C23',
 needs='an arrival of more than thirty NFTs in one packet',
 breaks='the NFTs after the thirtieth are not staked and stay behind in the callback contract',
 edits=[(IC,'for token_id in msg.original_packet.token_ids {','for token_id in msg.original_packet.token_ids.into_iter().take(30) {')],
 scenario=HEAD+'''
    let c = &b.c;
    let cb = c.instantiate("op", b.codes.ics721_proxy, &json!({ "ics721_proxy": "bridge" }), "cb", None).unwrap();
    let ids: Vec<String> = (0..40).map(|i| format!("n{i:02}")).collect();
    let toks: Vec<(String, String)> = ids.iter().map(|i| (i.clone(), cb.clone())).collect();
    let coll = new_cw721(c, b.codes.cw721, "coll", &toks);
    let d = Lite::with(&b, "alice", request("n", json!({"import_cw721": {"cw721_contract": coll, "unlocking_period": {"time": 2000}}}))).unwrap();
    let p = json!({"classId": "class", "classUri": null, "classData": null, "tokenIds": ids, "tokenUris": null, "tokenData": null, "sender": "remote", "receiver": cb, "memo": null});
    let hook = b64(&json!({"stake": {"user": "alice", "membership_contract": d.c("membership")}}));
    let tx = c.execute("bridge", &cb, &json!({"ics721_receive_callback": {"nft_contract": coll, "original_packet": p, "msg": hook}}), &[]);
    assert!(tx.ok, "{}", tx.err);
    num(&c.q(d.c("membership"), json!({"user_weight": {"user": "alice"}})).unwrap()["weight"]) == 40
}
'''),
dict(id='veto-not-executable', property='C24',
 needs='a non-multisig DAO with early execution, a veto majority, and a look at the status after the delay and before the end',
 breaks='a proposal that can be ended early by veto is reported as one that cannot',
 edits=[(GC,'IsRejectingOutcome | IsVetoOutcome | OutcomeDraw(..) => {\n                                    ProposalStatus::InProgressCanExecuteEarly','IsRejectingOutcome | OutcomeDraw(..) => {\n                                    ProposalStatus::InProgressCanExecuteEarly')],
 scenario=HEAD+'''
    let gov = json!({"quorum": "0.1", "threshold": "0.5", "veto_threshold": "0.3", "vote_duration": 1000, "minimum_deposit": null, "allow_early_proposal_execution": true});
    let (d, tok) = token_dao(&b, &[("alice", 100), ("bobby", 100)], json!({"time": 2000}), gov);
    assert!(stake(&b, &d, &tok, "alice", 60).ok && stake(&b, &d, &tok, "bobby", 40).ok);
    let id = d.propose(&b, "alice", json!([]));
    assert!(d.vote(&b, "alice", id, "veto").ok);
    b.c.advance(10, 150 * SEC);
    let s = b.c.q(d.c("controller"), json!({"proposal_status": {"proposal_id": id}})).unwrap()["status"].clone();
    let can = d.run(&b, "bobby", id).ok;
    can == (s == json!("in_progress_can_execute_early"))
}
'''),
dict(id='filter-after-page', property='C25',
 needs='a filtered listing of proposals, where a page-full of others comes before the ones asked for',
 breaks='the page limit counts proposals that the filter then drops; pages come out short or empty although more proposals match',
 edits=[(PQ,'''    // apply poll status filter if provided
    let iter = match filter {
        Some(filter) => polls().idx.poll_status.prefix(filter.to_vec()?).range(
            qctx.deps.storage,
            min,
            max,
            order,
        ),
        None => polls().range(qctx.deps.storage, min, max, order),
    }
    .flatten()
    .map(|(_, poll)| poll);

    // apply pagination limit if provided
    let polls = match limit {
        Some(n) => iter.take(n as usize).collect_vec(),
        None => iter.collect_vec(),
    };
''','''    let wanted = filter.map(|filter| filter.to_vec()).transpose()?;

    // apply pagination limit if provided, and the poll status filter
    let polls = polls()
        .range(qctx.deps.storage, min, max, order)
        .take(limit.map_or(usize::MAX, |n| n as usize))
        .flatten()
        .map(|(_, poll)| poll)
        .filter(|poll| {
            wanted.as_ref().map_or(true, |wanted| {
                poll.status
                    .clone()
                    .to_filter()
                    .to_vec()
                    .map_or(false, |status| &status == wanted)
            })
        })
        .collect_vec();
''')],
 scenario=HEAD+'''
    let d = Lite::new(&b, "boss").unwrap();
    for _ in 0..3 {
        d.govern(&b, json!([])).unwrap();
    }
    let id = d.propose(&b, "boss", json!([]));
    let page = b.c.q(d.c("controller"), json!({"proposals": {"filter": "in_progress", "start_after": null, "limit": 2}})).unwrap();
    page["proposals"].as_array().map_or(0, |l| l.len()) == 1 && page["proposals"][0]["proposal"]["id"] == json!(id)
}
'''),
dict(id='social-not-removed', property='C26',
 needs='a DAO with a discord name that decides to drop it',
 breaks='removing the discord name has no effect, the old one stays',
 edits=[(EN,'''    if let Change(discord) = msg.discord_username {
        metadata.socials.discord_username = discord;
    }''','''    if let Change(Some(discord)) = msg.discord_username {
        metadata.socials.discord_username = Some(discord);
    }''')],
 scenario=HEAD+'''
    let d = Lite::new(&b, "boss").unwrap();
    let nc = json!("no_change");
    for v in [json!("us"), json!(null)] {
        let a = json!({"update_metadata": {"name": nc, "description": nc, "logo": nc, "github_username": nc, "discord_username": {"change": v}, "twitter_username": nc, "telegram_username": nc}});
        assert!(d.govern(&b, json!([a])).unwrap().ok);
        if b.c.q(&d.ent, json!({"dao_info": {}})).unwrap()["metadata"]["socials"]["discord_username"] != v {
            return false;
        }
    }
    true
}
'''),
dict(id='any-membership-reports', property='C27',
 needs='another DAO that points its membership contract\'s hooks at this DAO\'s controller',
 breaks='weight changes in one DAO rewrite the votes of the same person in another DAO',
 edits=[(GC,'''    if ctx.info.sender != component_contracts.membership_contract {
        return Err(Unauthorized);
    }

    let update_votes_submsgs''','''    let reporting = ctx
        .deps
        .querier
        .query_wasm_contract_info(ctx.info.sender.to_string())
        .map(|info| info.code_id)
        .ok();
    let expected = ctx
        .deps
        .querier
        .query_wasm_contract_info(component_contracts.membership_contract.to_string())?
        .code_id;
    if reporting != Some(expected) {
        return Err(Unauthorized);
    }

    let update_votes_submsgs''')],
 scenario=HEAD+'''
    let a = Lite::with(&b, "alice", multisig("a", &[("alice", 6), ("bobby", 4)])).unwrap();
    let x = Lite::with(&b, "bobby", multisig("x", &[("bobby", 1)])).unwrap();
    let id = a.propose(&b, "alice", json!([]));
    assert!(a.vote(&b, "bobby", id, "yes").ok);
    let hook = json!({"execute_msgs": {"action_type": "x", "msgs": [wasm(x.c("membership"), json!({"add_weight_change_hook": {"hook_addr": a.c("controller")}}))]}});
    x.govern(&b, json!([hook])).unwrap();
    x.govern(&b, json!([{"modify_multisig_membership": {"edit_members": [{"user": "bobby", "weight": "1000"}]}}])).unwrap();
    num(&a.proposal(&b, id)["results"][0][1]) == 4
}
'''),
dict(id='half-moved-user', property='C28',
 needs='a first-release user with several claims, and a migration step whose limit falls between them',
 breaks='the claims that did not fit into the step are deleted: they never arrive, and the tokens stay in the treasury',
 edits=[(TM,'''            if claims_remaining.is_empty() {
                CLAIMS.remove(deps.storage, &user);
            } else {
                CLAIMS.save(deps.storage, &user, &claims_remaining)?;
            }''','''            // whatever is left of a user's claims belongs to another asset
            if !claims_remaining.is_empty() && claims_included < limit {
                CLAIMS.save(deps.storage, &user, &claims_remaining)?;
            } else {
                CLAIMS.remove(deps.storage, &user);
            }''')],
 scenario='''
use crate::kit::*;
use cosmwasm_std::{Binary, CosmosMsg, WasmMsg};
use serde_json::{json, Value};

/// true if the property holds
pub fn run() -> bool {
    let b = base();
    let (d, tok) = token_dao(&b, &[("rich", 1000)], json!({"time": 2000}), GOV());
    // what the first release left behind
    let mut key = vec![0u8, 6];
    key.extend_from_slice(b"claimsalice");
    let claim = |n: u128| json!({"asset": {"cw20": {"amount": n.to_string()}}, "release_at": {"timestamp": "1"}});
    let info = json!({"version_info": version_info(&b.codes, (1, 0, 0), false, b.codes.enterprise), "enterprise_contract": d.ent, "enterprise_governance_controller_contract": d.c("controller"),
        "enterprise_outposts_contract": d.c("outposts"), "membership_contract": d.c("membership"), "council_membership_contract": d.c("council"), "initial_submsgs_limit": null});
    let raw = |k: &[u8], v: Value| json!([Binary(k.to_vec()).to_base64(), b64(&v)]);
    let state = json!([raw(&key, json!([claim(10), claim(20), claim(30)])), raw(b"dao_type", json!("token")), raw(b"dao_membership_contract", json!(tok)), raw(b"config", json!({"admin": d.c("controller")})),
        raw(b"migration_stage", json!("migration_in_progress")), raw(b"migration_info", info)]);
    let old = b.c.instantiate("op", b.codes.legacy, &state, "old", Some("op")).unwrap();
    let tx = b.c.dispatch("op", vec![CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr: old.clone(), new_code_id: b.codes.treasury, msg: Binary(b"{}".to_vec()) })]);
    assert!(tx.ok, "{}", tx.err);
    assert!(b.c.execute("rich", &tok, &json!({"transfer": {"recipient": old, "amount": "60"}}), &[]).ok);
    for _ in 0..4 {
        b.c.execute("anybody", &old, &json!({"perform_next_migration_step": {"submsgs_limit": 2}}), &[]);
    }
    let tx = b.c.execute("alice", d.c("membership"), &json!({"claim": {"user": null}}), &[]);
    assert!(tx.ok, "{}", tx.err);
    cw20_balance(&b, &tok, "alice") == 60
}
'''),
]
