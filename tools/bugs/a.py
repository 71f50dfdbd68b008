GC='contracts/enterprise-governance-controller/src/contract.rs'
GV='contracts/enterprise-governance-controller/src/validate.rs'
PS='packages/poll-engine/src/state.rs'
EG='contracts/enterprise-governance/src/contract.rs'
FD='contracts/funds-distributor/src/'
MC='packages/membership-common/src/'
MM='packages/multisig-membership-impl/src/'
TS='packages/token-staking-impl/src/'
NS='packages/nft-staking-impl/src/'
DS='packages/denom-staking-impl/src/'
HEAD='''
use crate::kit::*;
use serde_json::json;

/// true if the property holds
pub fn run() -> bool {
    let b = base();
'''
B=[
dict(id='open-votes-page', property='C12',
 needs='a member with votes on more than ten proposals that are still open, whose weight then changes',
 breaks='only the first ten votes of a voter follow the voter\'s weight; later ones keep a weight the voter no longer has',
 edits=[(EG,'query_voter(&qctx, &params.voter, None, None)?','query_voter(&qctx, &params.voter, None, Some(10))?')],
 scenario=HEAD+'''
    let gov = json!({"quorum": "0.1", "threshold": "0.5", "veto_threshold": null, "vote_duration": 1000, "minimum_deposit": null, "allow_early_proposal_execution": false});
    let (d, tok) = token_dao(&b, &[("alice", 100), ("bobby", 100)], json!({"time": 2000}), gov);
    assert!(stake(&b, &d, &tok, "alice", 40).ok && stake(&b, &d, &tok, "bobby", 10).ok);
    let ids: Vec<u64> = (0..14).map(|_| d.propose(&b, "alice", json!([]))).collect();
    for id in &ids {
        assert!(d.vote(&b, "alice", *id, "yes").ok);
    }
    b.c.advance(1, SEC);
    assert!(unstake(&b, &d, "alice", 30).ok);
    ids.iter().all(|id| num(&d.proposal(&b, *id)["results"][0][1]) == 10)
}
'''),
dict(id='delay-not-restarted', property='C03',
 needs='early execution in a non-multisig DAO, and an expected outcome that changes after the delay of the first one has been set',
 breaks='the waiting period counts from the first expected outcome; a change of the outcome shortly before it runs out can be executed at once',
 edits=[(GC,'if new_executability_status != proposal_being_voted_on.executability_status {','if new_executability_status != proposal_being_voted_on.executability_status\n        && proposal_info.earliest_execution.is_none()\n    {')],
 scenario=HEAD+'''
    let gov = json!({"quorum": "0.1", "threshold": "0.5", "veto_threshold": null, "vote_duration": 1000, "minimum_deposit": null, "allow_early_proposal_execution": true});
    let (d, tok) = token_dao(&b, &[("alice", 100), ("bobby", 100)], json!({"time": 2000}), gov);
    assert!(stake(&b, &d, &tok, "alice", 40).ok && stake(&b, &d, &tok, "bobby", 50).ok);
    let id = d.propose(&b, "alice", json!([]));
    assert!(d.vote(&b, "alice", id, "no").ok);
    b.c.advance(1, 150 * SEC);
    assert!(d.vote(&b, "bobby", id, "yes").ok);
    // the expected outcome changed just now: a hundred seconds have to pass
    let now = d.run(&b, "alice", id);
    b.c.advance(1, 99 * SEC);
    let soon = d.run(&b, "alice", id);
    b.c.advance(1, SEC);
    let later = d.run(&b, "alice", id);
    !now.ok && !soon.ok && later.ok
}
'''),
dict(id='half-done-actions', property='C04',
 needs='a passed proposal whose later action fails after an earlier one took effect',
 breaks='a failing message of a passed proposal no longer undoes the other actions of the proposal',
 edits=[(GC,'''        submsgs.push(SubMsg::new(
            serde_json_wasm::from_str::<CosmosMsg>(msg.as_str())
                .map_err(|_| InvalidCosmosMessage)?,
        ))''','''        submsgs.push(SubMsg::reply_on_error(
            serde_json_wasm::from_str::<CosmosMsg>(msg.as_str())
                .map_err(|_| InvalidCosmosMessage)?,
            EXECUTE_PROPOSAL_ACTIONS_REPLY_ID,
        ))''')],
 scenario=HEAD+'''
    let d = Lite::new(&b, "boss").unwrap();
    let nc = json!("no_change");
    let meta = json!({"update_metadata": {"name": {"change": "renamed"}, "description": nc, "logo": nc, "github_username": nc, "discord_username": nc, "twitter_username": nc, "telegram_username": nc}});
    // the registry has another admin
    let bad = json!({"execute_msgs": {"action_type": "x", "msgs": [wasm(&b.versioning, json!({"update_admin": {"new_admin": "boss", "unauthorized": true}}))]}});
    let tx = d.govern(&b, json!([meta, bad])).unwrap();
    let name = b.c.q(&d.ent, json!({"dao_info": {}})).unwrap()["metadata"]["name"].clone();
    tx.ok && name == json!("lite")
}
'''),
dict(id='draw-takes-deposit', property='C05',
 needs='a proposal with a deposit that ends in a tie between yes and no above the threshold',
 breaks='the deposit of a proposal that ends in a draw goes to the treasury instead of back to its owner',
 edits=[(GC,'QuorumNotReached | IsVetoOutcome => {','QuorumNotReached | IsVetoOutcome | OutcomeDraw(..) => {')],
 scenario=HEAD+'''
    let gov = json!({"quorum": "0.1", "threshold": "0.5", "veto_threshold": null, "vote_duration": 1000, "minimum_deposit": "5", "allow_early_proposal_execution": false});
    let (d, tok) = token_dao(&b, &[("alice", 100), ("bobby", 100), ("carol", 100)], json!({"time": 2000}), gov);
    assert!(stake(&b, &d, &tok, "alice", 40).ok && stake(&b, &d, &tok, "bobby", 40).ok);
    let tx = send(&b, &tok, "carol", d.c("controller"), 7, json!({"create_proposal": {"title": "t", "description": null, "proposal_actions": [], "deposit_owner": "david"}}));
    assert!(tx.ok, "{}", tx.err);
    assert!(d.vote(&b, "alice", 1, "yes").ok && d.vote(&b, "bobby", 1, "no").ok);
    b.c.advance(1, 1001 * SEC);
    assert!(d.run(&b, "carol", 1).ok);
    cw20_balance(&b, &tok, "david") == 7 && cw20_balance(&b, &tok, d.c("treasury")) == 0
}
'''),
dict(id='empty-allowance', property='C07',
 needs='a council with an explicitly empty list of allowed action kinds',
 breaks='a council that was allowed nothing can upgrade the DAO',
 edits=[(GV,'.unwrap_or_else(|| vec![ProposalActionType::UpgradeDao]),','.filter(|types| !types.is_empty())\n                    .unwrap_or_else(|| vec![ProposalActionType::UpgradeDao]),')],
 scenario='''
use crate::kit::*;
use serde_json::json;

/// true if the property holds
pub fn run() -> bool {
    let b = base_with(&[((1, 0, 0), false, 0), ((1, 1, 0), false, 0)], &json!([]), &json!([]));
    let mut r = multisig("d", &[("boss", 1)]);
    r["dao_council"] = json!({"members": ["carol"], "quorum": "0.1", "threshold": "0.5", "allowed_proposal_action_types": []});
    let d = Lite::with(&b, "boss", r).unwrap();
    // a newer version than the DAO's
    let v = version_info(&b.codes, (1, 9, 0), false, b.codes.enterprise);
    assert!(b.c.execute("vadmin", &b.versioning, &json!({"add_version": {"version": v}}), &[]).ok);
    let m = json!({"create_council_proposal": {"title": "t", "description": null, "deposit_owner": null,
        "proposal_actions": [{"upgrade_dao": {"new_version": {"major": 1, "minor": 9, "patch": 0}, "migrate_msgs": []}}]}});
    let tx = b.c.execute("carol", d.c("controller"), &m, &[]);
    !tx.ok
}
'''),
dict(id='claim-numbers-reused', property='C10',
 needs='several open claims of which an earlier one is paid out before another one is made',
 breaks='a new withdrawal claim overwrites an open claim of somebody else',
 edits=[(TS+'claims.rs','''    let next_claim_id = CLAIM_IDS.may_load(storage)?.unwrap_or_default();
''','''    let next_claim_id = Uint64::from(
        TOKEN_CLAIMS()
            .keys(storage, None, None, Order::Ascending)
            .count() as u64,
    );
''')],
 scenario=HEAD+'''
    let (d, tok) = token_dao(&b, &[("alice", 100), ("bobby", 100), ("carol", 100)], json!({"time": 200}), GOV());
    for u in ["alice", "bobby", "carol"] {
        assert!(stake(&b, &d, &tok, u, 50).ok);
    }
    assert!(unstake(&b, &d, "alice", 10).ok);
    b.c.advance(1, 100 * SEC);
    assert!(unstake(&b, &d, "bobby", 20).ok);
    b.c.advance(1, 100 * SEC);
    assert!(b.c.execute("alice", d.c("membership"), &json!({"claim": {"user": null}}), &[]).ok);
    assert!(unstake(&b, &d, "carol", 5).ok);
    b.c.advance(1, 200 * SEC);
    let _ = b.c.execute("bobby", d.c("membership"), &json!({"claim": {"user": null}}), &[]);
    let _ = b.c.execute("carol", d.c("membership"), &json!({"claim": {"user": null}}), &[]);
    cw20_balance(&b, &tok, "bobby") == 70 && cw20_balance(&b, &tok, "carol") == 55
}
'''),
dict(id='zero-total-forgotten', property='C11',
 needs='a total weight that drops to zero, and a question about the total at a time after that',
 breaks='the history of the total weight by time misses the moments at which everybody left',
 edits=[(MC+'total_weight.rs','''    TOTAL_WEIGHT_SECONDS_SNAPSHOT.save(store, amount, block.time.seconds())?;

    Ok(())
}

pub fn save_initial''','''    if !amount.is_zero() {
        TOTAL_WEIGHT_SECONDS_SNAPSHOT.save(store, amount, block.time.seconds())?;
    }

    Ok(())
}

pub fn save_initial''')],
 scenario=HEAD+'''
    let (d, tok) = token_dao(&b, &[("alice", 100)], json!({"time": 200}), GOV());
    assert!(stake(&b, &d, &tok, "alice", 50).ok);
    b.c.advance(1, 100 * SEC);
    assert!(unstake(&b, &d, "alice", 50).ok);
    b.c.advance(1, 100 * SEC);
    let at = b.c.now().minus_seconds(10).nanos().to_string();
    let r = b.c.q(d.c("membership"), json!({"total_weight": {"expiration": {"at_time": at}}})).unwrap();
    num(&r["total_weight"]) == 0
}
'''),
dict(id='left-and-back', property='C13',
 needs='a member who leaves completely, a distribution while away, and a return',
 breaks='a member who left and came back is credited a share of what was distributed in between',
 edits=[(FD+'user_weights.rs','''        EFFECTIVE_USER_WEIGHTS.save(deps.storage, user, &effective_user_weight)?;

        let old_user_effective_weight = old_user''','''        if effective_user_weight.is_zero() {
            EFFECTIVE_USER_WEIGHTS.remove(deps.storage, user);
        } else {
            EFFECTIVE_USER_WEIGHTS.save(deps.storage, user, &effective_user_weight)?;
        }

        let old_user_effective_weight = old_user''')],
 scenario=HEAD+'''
    let (d, tok) = token_dao(&b, &[("alice", 100), ("bobby", 100)], json!({"time": 200}), GOV());
    assert!(stake(&b, &d, &tok, "alice", 50).ok && stake(&b, &d, &tok, "bobby", 50).ok);
    b.c.mint("donor", GLOBAL_DENOM, 1000);
    let give = |n: u128| assert!(b.c.execute("donor", d.c("distributor"), &json!({"distribute_native": {}}), &[coin(GLOBAL_DENOM, n)]).ok);
    give(100);
    assert!(unstake(&b, &d, "alice", 50).ok);
    give(100);
    assert!(stake(&b, &d, &tok, "alice", 50).ok);
    let r = b.c.q(d.c("distributor"), json!({"user_rewards": {"user": "alice", "native_denoms": [GLOBAL_DENOM], "cw20_assets": []}})).unwrap();
    num(&r["native_rewards"][0]["amount"]) == 50
}
'''),
dict(id='minimum-raised-no-settlement', property='C14',
 needs='rewards in a cw20 asset accrued by a member who then falls below a raised minimum',
 breaks='raising the minimum weight for rewards takes away rewards in tokens already accrued',
 edits=[(FD+'eligibility.rs','        update_user_cw20_distributions(deps.branch(), user.clone(), old_effective_weight)?;\n','        if use_actual_weights {\n            update_user_cw20_distributions(deps.branch(), user.clone(), old_effective_weight)?;\n        }\n')],
 scenario=HEAD+'''
    let (d, tok) = token_dao(&b, &[("alice", 100), ("bobby", 100), ("donor", 1000)], json!({"time": 200}), GOV());
    assert!(stake(&b, &d, &tok, "alice", 50).ok && stake(&b, &d, &tok, "bobby", 10).ok);
    assert!(Lite::performed(&d.govern(&b, json!([{"update_asset_whitelist": {"remote_treasury_target": null, "add": [{"cw20": tok}], "remove": []}}])).map(|t| { if t.ok { t } else { b.c.advance(1, 200 * SEC); d.run(&b, "alice", 1) } }).unwrap()));
    let tx = send(&b, &tok, "donor", d.c("distributor"), 60, json!({"distribute": {}}));
    assert!(tx.ok, "{}", tx.err);
    let id = d.passed(&b, json!([{"update_minimum_weight_for_rewards": {"minimum_weight_for_rewards": "20"}}])).unwrap();
    b.c.advance(1, 200 * SEC);
    assert!(Lite::performed(&d.run(&b, "alice", id)));
    let r = b.c.q(d.c("distributor"), json!({"user_rewards": {"user": "bobby", "native_denoms": [], "cw20_assets": [tok]}})).unwrap();
    num(&r["cw20_rewards"][0]["amount"]) == 10
}
'''),
dict(id='second-staker-unchecked', property='C16',
 needs='a DAO with an attestation and a bulk stake whose first user has signed it and whose second has not',
 breaks='in a bulk stake only the first user is held to the attestation',
 edits=[(TS+'execute.rs','''        validate_user_not_restricted(ctx.deps.as_ref(), staker.user.clone())?;
''','''        if new_user_stakes_sum.is_zero() {
            validate_user_not_restricted(ctx.deps.as_ref(), staker.user.clone())?;
        }
''')],
 scenario=HEAD+'''
    let tok = new_cw20(&b.c, b.codes.cw20, "token", &[("alice".to_string(), 100)]);
    let mut r = request("d", json!({"import_cw20": {"cw20_contract": tok, "unlocking_period": {"time": 200}}}));
    r["attestation_text"] = json!("I agree");
    let d = Lite::with(&b, "alice", r).unwrap();
    assert!(b.c.execute("alice", d.c("attestation"), &json!({"sign_attestation": {}}), &[]).ok);
    let both = json!({"add_stakes": {"stakers": [{"user": "alice", "staked_amount": "3"}, {"user": "bobby", "staked_amount": "4"}]}});
    let _ = send(&b, &tok, "alice", d.c("membership"), 7, both);
    let w = num(&b.c.q(d.c("membership"), json!({"user_weight": {"user": "bobby"}})).unwrap()["weight"]);
    let one = send(&b, &tok, "alice", d.c("membership"), 3, json!({"add_stakes": {"stakers": [{"user": "alice", "staked_amount": "3"}]}}));
    w == 0 && one.ok
}
'''),
dict(id='named-twice', property='C09',
 needs='a bulk stake that names the same user more than once',
 breaks='a user named twice in a bulk stake is credited only one of the amounts: part of the stake is lost',
 edits=[(TS+'execute.rs','''        let existing_stake = get_member_weight(ctx.deps.storage, user.clone())?;
        let new_user_stake = existing_stake.checked_add(staker.staked_amount)?;

        set_member_weight(ctx.deps.storage, user, new_user_stake)?;
''','''        let existing_stake = get_member_weight(ctx.deps.storage, user.clone())?;
        let new_user_stake = existing_stake.checked_add(staker.staked_amount)?;
'''),(TS+'execute.rs','''    let new_total_staked = increment_total_weight(ctx, new_user_stakes_sum)?;

    let report''','''    let new_total_staked = increment_total_weight(ctx, new_user_stakes_sum)?;

    for change in &user_weight_changes {
        let user = ctx.deps.api.addr_validate(&change.user)?;
        set_member_weight(ctx.deps.storage, user, change.new_weight)?;
    }

    let report''')],
 scenario=HEAD+'''
    let (d, tok) = token_dao(&b, &[("alice", 100)], json!({"time": 200}), GOV());
    let m = json!({"add_stakes": {"stakers": [{"user": "bobby", "staked_amount": "3"}, {"user": "carol", "staked_amount": "1"}, {"user": "bobby", "staked_amount": "4"}]}});
    let tx = send(&b, &tok, "alice", d.c("membership"), 8, m);
    let w = num(&b.c.q(d.c("membership"), json!({"user_weight": {"user": "bobby"}})).unwrap()["weight"]);
    // refused as a whole, or credited in full
    if tx.ok { w == 7 } else { w == 0 && cw20_balance(&b, &tok, "alice") == 100 }
}
'''),
dict(id='council-threshold', property='C02',
 needs='a DAO whose council threshold differs from its general one, and a council proposal between the two',
 breaks='council proposals are decided by the threshold of general proposals',
 edits=[(GC,'''                quorum: dao_council.quorum,
                threshold: dao_council.threshold,
                ..gov_config''','''                quorum: dao_council.quorum,
                ..gov_config''')],
 scenario=HEAD+'''
    let mut r = multisig("d", &[("boss", 1)]);
    r["dao_council"] = json!({"members": ["carol", "david", "erin"], "quorum": "0.1", "threshold": "0.9", "allowed_proposal_action_types": ["update_metadata"]});
    let d = Lite::with(&b, "boss", r).unwrap();
    let nc = json!("no_change");
    let meta = json!({"update_metadata": {"name": {"change": "renamed"}, "description": nc, "logo": nc, "github_username": nc, "discord_username": nc, "twitter_username": nc, "telegram_username": nc}});
    let m = json!({"create_council_proposal": {"title": "t", "description": null, "deposit_owner": null, "proposal_actions": [meta]}});
    assert!(b.c.execute("carol", d.c("controller"), &m, &[]).ok);
    for (u, o) in [("carol", "yes"), ("david", "yes"), ("erin", "no")] {
        assert!(b.c.execute(u, d.c("controller"), &json!({"cast_council_vote": {"proposal_id": 1, "outcome": o}}), &[]).ok);
    }
    b.c.advance(1, 200 * SEC);
    let tx = d.run(&b, "carol", 1);
    let name = b.c.q(&d.ent, json!({"dao_info": {}})).unwrap()["metadata"]["name"].clone();
    tx.ok && name == json!("d")
}
'''),
]
