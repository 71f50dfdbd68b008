//! The facade against the contracts it speaks for.
use crate::chain::{Chain, Tx};
use crate::lite::*;
use crate::model::*;
use crate::mon::{Mon, Rng};
use crate::obs::*;
use crate::run::Out;
use crate::scen_ibc::Remote;
use crate::workload::{make_world, USERS};
use crate::world::*;
use cosmwasm_std::{BankMsg, Coin, CosmosMsg};
use serde_json::{json, Value};

pub struct Facade {
    pub top: String,
    pub v2: String,
}

pub fn setup(c: &Chain, codes: &crate::codes::Codes, versioning: &str) -> Facade {
    let v1 = c.instantiate("deployer", codes.facade_v1, &json!({ "enterprise_versioning": versioning }), "f1", None).unwrap();
    let v2 = c.instantiate("deployer", codes.facade_v2, &json!({}), "f2", None).unwrap();
    // some facades were pointed elsewhere first and corrected by a migration
    let how = c.height() % 4;
    let (a, b) = (if how & 1 == 1 { &v2 } else { &v1 }, if how & 2 == 2 { &v1 } else { &v2 });
    let top = c.instantiate("deployer", codes.facade, &json!({"enterprise_facade_v1": a, "enterprise_facade_v2": b}), "f", Some("deployer")).unwrap();
    if how > 0 {
        let m = json!({"enterprise_facade_v1": if a != &v1 { json!(v1) } else { Value::Null }, "enterprise_facade_v2": if b != &v2 { json!(v2) } else { Value::Null }});
        let t = c.dispatch("deployer", vec![renew(&top, codes.facade, &m)]);
        if !t.ok {
            // shows as disagreeing answers
            eprintln!("facade migration refused: {}", t.err);
        }
    }
    Facade { top, v2 }
}

/// ask for the DAO by treasury and by main contract; all must agree
fn ask(mon: &mut Mon, c: &Chain, f: &Facade, ent: &str, tre: &str, name: &str, rest: &[(&str, Value)]) -> Result<Value, String> {
    let build = |a: &str| {
        let mut o = json!({ "contract": a });
        for (k, v) in rest {
            o[*k] = v.clone();
        }
        json!({ name: o })
    };
    let by_t = c.q(&f.top, build(tre));
    let by_e = c.q(&f.top, build(ent));
    let same = match (&by_t, &by_e) {
        (Ok(a), Ok(b)) => a == b,
        (Err(_), Err(_)) => true,
        _ => false,
    };
    mon.check("C22", "same answer by treasury and main contract", name.to_string(), same, || format!("{name} {rest:?}: by treasury {by_t:?}, by main contract {by_e:?}"));
    by_e
}

/// the answer must be `want`: an error where the DAO's contracts give none
fn expect(mon: &mut Mon, name: &str, detail: &str, got: Result<Value, String>, want: Result<Value, String>) {
    let ok = match (&got, &want) {
        (Ok(a), Ok(b)) => jeq(a, b),
        (Err(_), Err(_)) => true,
        _ => false,
    };
    let cov = (name.to_string(), want.is_ok(), want.as_ref().map_or(0, |w| w.to_string().len().min(400) / 40));
    mon.check("C22", "facade answer agrees with the DAO's contracts", cov, ok, || format!("{name} {detail}: facade {got:?}, contracts {want:?}"));
}

fn msgs_of(v: &Value) -> Result<Vec<CosmosMsg>, String> {
    let mut out = vec![];
    for m in list(&v["msgs"]) {
        let (k, b) = top(&m);
        let funds: Vec<Coin> = serde_json::from_value(b["funds"].clone()).map_err(|e| e.to_string())?;
        match k.as_str() {
            "execute" => {
                let inner: Value = serde_json::from_str(b["msg"].as_str().unwrap_or("")).map_err(|e| format!("message is not json: {e}"))?;
                out.push(Chain::exec_msg(b["target_contract"].as_str().unwrap_or(""), &inner, &funds));
            }
            "bank" => out.push(CosmosMsg::Bank(BankMsg::Send { to_address: st(&b["receiver"]), amount: funds })),
            _ => return Err(format!("unknown kind of message {k}")),
        }
    }
    Ok(out)
}

fn effect(t: &Tx) -> String {
    if !t.ok {
        return format!("refused: {}", t.err);
    }
    let w: Vec<String> = t.writes.iter().map(|(a, k)| format!("{a}:{}", k.len())).collect();
    format!("accepted, bank {:?}, writes {w:?}, calls {:?}", t.bank, t.trace.iter().map(|c| (c.target.clone(), String::from_utf8_lossy(&c.msg).into_owned())).collect::<Vec<_>>())
}

/// the prepared messages must do what the direct ones do
fn same_effect(mon: &mut Mon, c: &Chain, name: &str, sender: &str, got: Result<Value, String>, direct: Option<Vec<CosmosMsg>>) {
    match (got, direct) {
        (Err(_), None) => mon.check("C22", "nothing prepared for what the DAO cannot do", name.to_string(), true, String::new),
        (Ok(v), None) => mon.check("C22", "nothing prepared for what the DAO cannot do", name.to_string(), false, || format!("{name}: prepared {v}")),
        (Err(e), Some(d)) => mon.check("C22", "message prepared", name.to_string(), false, || format!("{name}: refused with {e}, direct {}", show_all(&d))),
        (Ok(v), Some(d)) => match msgs_of(&v) {
            Err(e) => mon.check("C22", "prepared message is well formed", name.to_string(), false, || format!("{name}: {e} in {v}")),
            Ok(ms) => {
                let shown = format!("{} / {}", show_all(&ms), show_all(&d));
                let a = c.simulate(sender, ms);
                let b = c.simulate(sender, d);
                let mut ok = a.ok == b.ok && a.bank == b.bank && a.after == b.after && a.writes == b.writes;
                if !a.ok && !b.ok {
                    // refused both times: at least for the same reason
                    ok = ok && a.err == b.err;
                }
                mon.check("C22", "prepared messages have the effect of direct calls", (name.to_string(), b.ok), ok, || format!("{name} by {sender}: {shown}: prepared {}, direct {}", effect(&a), effect(&b)));
            }
        },
    }
}

fn sub(v: &Value, keys: &[&str]) -> Value {
    let mut o = json!({});
    for k in keys {
        o[*k] = v[*k].clone();
    }
    o
}

fn prop_view(r: &Value) -> Value {
    json!({
        "proposal": sub(&r["proposal"], &["proposal_type", "id", "proposer", "title", "description", "status", "started_at", "expires", "proposal_actions"]),
        "proposal_status": r["proposal_status"], "results": r["results"], "total_votes_available": r["total_votes_available"],
    })
}

fn ratio(a: u128, b: u128) -> String {
    if b == 0 {
        return "0".into();
    }
    // floor(a * 10^18 / b), by long division
    let mut int = a / b;
    let mut rem = a % b;
    let mut digits = String::new();
    for _ in 0..18 {
        // rem * 10 may overflow for huge weights: weights stay far below u128::MAX / 10
        rem *= 10;
        digits.push((b'0' + (rem / b) as u8) as char);
        rem %= b;
    }
    let d = digits.trim_end_matches('0').to_string();
    if d.is_empty() {
        format!("{}", std::mem::take(&mut int))
    } else {
        format!("{int}.{d}")
    }
}

struct Ctx<'a> {
    c: &'a Chain,
    f: &'a Facade,
    ent: String,
    tre: String,
    comp: Value,
    kind: Kind,
    users: Vec<String>,
    /// large populations: pages of any size
    big: bool,
}

impl<'a> Ctx<'a> {
    fn a(&self, k: &str) -> String {
        st(&self.comp[k])
    }
}

fn lim(x: &Ctx, r: &mut Rng) -> Value {
    if x.big && r.chance(3, 4) {
        return match r.below(3) {
            0 => json!(r.pick_c(&[9u64, 10, 11, 19, 20, 21, 29, 30, 31, 49, 50, 51, 99, 100, 101, 1000])),
            1 => Value::Null,
            _ => json!(r.range(1, 130)),
        };
    }
    match r.below(5) {
        0 => Value::Null,
        1 => json!(1),
        2 => json!(2),
        3 => json!(100),
        _ => json!(r.range(1, 12)),
    }
}

fn info_answers(mon: &mut Mon, x: &Ctx) {
    let q = |a: &str, m: Value| x.c.q(a, m);
    let (ctrl, mem, council) = (x.a("enterprise_governance_controller_contract"), x.a("membership_contract"), x.a("council_membership_contract"));
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "treasury_address", &[]);
    expect(mon, "treasury_address", "", got, Ok(json!({ "treasury_address": x.a("enterprise_treasury_contract") })));
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "component_contracts", &[]);
    let mut want = x.comp.clone();
    want["enterprise_contract"] = json!(x.ent);
    expect(mon, "component_contracts", "", got, Ok(want));
    // info
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "dao_info", &[]);
    let want = (|| -> Result<Value, String> {
        let d = q(&x.ent, json!({"dao_info": {}}))?;
        let g = q(&ctrl, json!({"gov_config": {}}))?;
        let gc = &g["gov_config"];
        let v = &d["dao_version"];
        let n = |k: &str| uint(&v[k]) as u64;
        let (mc, up) = match x.kind {
            Kind::Multisig => (x.ent.clone(), json!({"time": 0})),
            Kind::Denom => {
                let m = q(&mem, json!({"denom_config": {}}))?;
                (st(&m["denom"]), m["unlocking_period"].clone())
            }
            Kind::Token => {
                let m = q(&mem, json!({"token_config": {}}))?;
                (st(&m["token_contract"]), m["unlocking_period"].clone())
            }
            Kind::Nft => {
                let m = q(&mem, json!({"nft_contract_config": {}}))?;
                let (k, b) = top(&m["nft_contract"]);
                (if k == "cw721" { st(&b["contract"]) } else { st(&b["class_id"]) }, m["unlocking_period"].clone())
            }
        };
        let cc = &g["council_gov_config"];
        let dc = if cc.is_null() {
            Value::Null
        } else {
            let ms = walk(x.c, &council, "members", &json!({}), "members", Some(50), &|m| m["user"].clone())?;
            let names: Vec<Value> = ms.iter().map(|m| m["user"].clone()).take(100).collect();
            json!({"members": names, "allowed_proposal_action_types": cc["allowed_proposal_action_types"], "quorum": cc["quorum"], "threshold": cc["threshold"]})
        };
        Ok(json!({
            "creation_date": d["creation_date"], "metadata": d["metadata"], "dao_type": d["dao_type"], "dao_version": d["dao_version"],
            "gov_config": {
                "quorum": gc["quorum"], "threshold": gc["threshold"], "veto_threshold": if gc["veto_threshold"].is_null() { gc["threshold"].clone() } else { gc["veto_threshold"].clone() },
                "vote_duration": gc["vote_duration"], "unlocking_period": up, "minimum_deposit": gc["minimum_deposit"], "allow_early_proposal_execution": gc["allow_early_proposal_execution"],
            },
            "dao_council": dc, "dao_membership_contract": mc,
            "enterprise_factory_contract": x.a("enterprise_factory_contract"), "funds_distributor_contract": x.a("funds_distributor_contract"),
            "dao_code_version": (n("major") * 10_000 + n("minor") * 100 + n("patch")).to_string(),
        }))
    })();
    expect(mon, "dao_info", "", got, want);
    // migration leftovers of older releases
    let tre = x.a("enterprise_treasury_contract");
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "has_incomplete_v2_migration", &[]);
    let inc = q(&tre, json!({"has_incomplete_v2_migration": {}}));
    expect(mon, "has_incomplete_v2_migration", "", got, inc.clone());
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "has_unmoved_stakes_or_claims", &[]);
    expect(mon, "has_unmoved_stakes_or_claims", "", got, q(&tre, json!({"has_unmoved_stakes_or_claims": {}})));
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "v2_migration_stage", &[]);
    let stage = inc.map(|i| json!({"stage": if i["has_incomplete_migration"] == json!(true) { "migration_in_progress" } else { "migration_completed" }}));
    expect(mon, "v2_migration_stage", "", got, stage);
    // remote treasuries
    for limit in [Value::Null, json!(1), json!(3)] {
        let p = json!({"start_after": null, "limit": limit});
        let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "cross_chain_treasuries", &[("params", p.clone())]);
        let want = q(&x.a("enterprise_outposts_contract"), json!({"cross_chain_treasuries": p}));
        let next = want.as_ref().ok().and_then(|w| list(&w["treasuries"]).last().cloned());
        expect(mon, "cross_chain_treasuries", &limit.to_string(), got, want);
        if let Some(n) = next {
            let p = json!({"start_after": n["chain_id"], "limit": limit});
            let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "cross_chain_treasuries", &[("params", p.clone())]);
            expect(mon, "cross_chain_treasuries after", &limit.to_string(), got, q(&x.a("enterprise_outposts_contract"), json!({"cross_chain_treasuries": p})));
        }
    }
}

fn user_answers(mon: &mut Mon, x: &Ctx, u: &str, r: &mut Rng, nfts: &[String]) {
    let q = |a: &str, m: Value| x.c.q(a, m);
    let mem = x.a("membership_contract");
    let w = q(&mem, json!({"user_weight": {"user": u}}));
    let t = q(&mem, json!({"total_weight": {"expiration": {"never": {}}}}));
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "member_info", &[("msg", json!({ "member_address": u }))]);
    let want = match (&w, &t) {
        (Ok(w), Ok(t)) => Ok(json!({"voting_power": ratio(uint(&w["weight"]), uint(&t["total_weight"]))})),
        _ => Err(String::new()),
    };
    expect(mon, "member_info", u, got, want);
    let after = if nfts.is_empty() || r.chance(1, 2) { Value::Null } else { json!(r.pick_c(nfts)) };
    let p = json!({"user": u, "start_after": after, "limit": lim(x, r)});
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "user_stake", &[("params", p.clone())]);
    let want = match x.kind {
        Kind::Multisig => Ok(json!({"user_stake": "none"})),
        Kind::Denom => w.clone().map(|w| json!({"user_stake": {"denom": {"amount": w["weight"]}}})),
        Kind::Token => w.clone().map(|w| json!({"user_stake": {"token": {"amount": w["weight"]}}})),
        Kind::Nft => q(&mem, json!({ "user_stake": p })).map(|s| json!({"user_stake": {"nft": {"tokens": s["tokens"], "amount": s["total_user_stake"]}}})),
    };
    expect(mon, "user_stake", &p.to_string(), got, want);
    for name in ["claims", "releasable_claims"] {
        let got = ask(mon, x.c, x.f, &x.ent, &x.tre, name, &[("params", json!({ "owner": u }))]);
        let want = if x.kind == Kind::Multisig {
            Ok(json!({"claims": []}))
        } else {
            q(&mem, json!({ name: {"user": u} })).map(|v| {
                let cs: Vec<Value> = list(&v["claims"])
                    .iter()
                    .map(|c| {
                        let asset = match x.kind {
                            Kind::Denom => json!({"denom": {"amount": c["amount"]}}),
                            Kind::Token => json!({"cw20": {"amount": c["amount"]}}),
                            _ => json!({"cw721": {"tokens": c["nft_ids"]}}),
                        };
                        json!({"asset": asset, "release_at": c["release_at"]})
                    })
                    .collect();
                json!({ "claims": cs })
            })
        };
        expect(mon, name, u, got, want);
    }
}

fn list_answers(mon: &mut Mon, x: &Ctx, r: &mut Rng, nfts: &[String], nprops: u64) {
    let q = |a: &str, m: Value| x.c.q(a, m);
    let (ctrl, mem, tre) = (x.a("enterprise_governance_controller_contract"), x.a("membership_contract"), x.a("enterprise_treasury_contract"));
    let u = r.pick_c(&x.users);
    let after = if r.chance(1, 2) { Value::Null } else { json!(u) };
    let p = json!({"start_after": after, "limit": lim(x, r)});
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "list_multisig_members", &[("msg", p.clone())]);
    let want = if x.kind == Kind::Multisig {
        q(&mem, json!({ "members": p })).map(|v| json!({"members": list(&v["members"]).iter().map(|m| json!({"address": m["user"], "weight": m["weight"]})).collect::<Vec<_>>()}))
    } else {
        Err("not a multisig".into())
    };
    expect(mon, "list_multisig_members", &p.to_string(), got, want);
    // whitelists
    let all = q(&tre, json!({"asset_whitelist": {"start_after": null, "limit": 100}})).map(|v| list(&v["assets"])).unwrap_or_default();
    let after = if all.is_empty() || r.chance(1, 2) { Value::Null } else { r.pick_c(&all) };
    let p = json!({"start_after": after, "limit": lim(x, r)});
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "asset_whitelist", &[("params", p.clone())]);
    expect(mon, "asset_whitelist", &p.to_string(), got, q(&tre, json!({ "asset_whitelist": p })));
    let all = q(&tre, json!({"nft_whitelist": {"start_after": null, "limit": 100}})).map(|v| list(&v["nfts"])).unwrap_or_default();
    let after = if all.is_empty() || r.chance(1, 2) { Value::Null } else { r.pick_c(&all) };
    let p = json!({"start_after": after, "limit": lim(x, r)});
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "nft_whitelist", &[("params", p.clone())]);
    expect(mon, "nft_whitelist", &p.to_string(), got, q(&tre, json!({ "nft_whitelist": p })));
    // stakes
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "total_staked_amount", &[]);
    let want = if x.kind == Kind::Multisig { Ok(json!({"total_staked_amount": "0"})) } else { q(&mem, json!({"total_weight": {"expiration": {"never": {}}}})).map(|t| json!({"total_staked_amount": t["total_weight"]})) };
    expect(mon, "total_staked_amount", "", got, want);
    let after = if nfts.is_empty() || r.chance(1, 2) { Value::Null } else { json!(r.pick_c(nfts)) };
    let p = json!({"start_after": after, "limit": lim(x, r)});
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "staked_nfts", &[("params", p.clone())]);
    let want = if x.kind == Kind::Nft { q(&mem, json!({ "staked_nfts": p })) } else { Ok(json!({"nfts": []})) };
    expect(mon, "staked_nfts", &p.to_string(), got, want);
    // proposals
    let f = r.pick_c(&[Value::Null, Value::Null, json!("in_progress"), json!("passed"), json!("rejected")]);
    let after = if r.chance(1, 2) { Value::Null } else { json!(r.range(0, nprops + 1)) };
    let p = json!({"filter": f, "start_after": after, "limit": lim(x, r)});
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "proposals", &[("params", p.clone())]);
    let want = q(&ctrl, json!({ "proposals": p })).map(|v| json!({"proposals": list(&v["proposals"]).iter().map(prop_view).collect::<Vec<_>>()}));
    expect(mon, "proposals", &p.to_string(), got, want);
    for _ in 0..3 {
        let id = r.range(0, nprops + 1);
        let p = json!({ "proposal_id": id });
        let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "proposal", &[("params", p.clone())]);
        expect(mon, "proposal", &p.to_string(), got, q(&ctrl, json!({ "proposal": p })).map(|v| prop_view(&v)));
        let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "proposal_status", &[("params", p.clone())]);
        expect(mon, "proposal_status", &p.to_string(), got, q(&ctrl, json!({ "proposal_status": p })).map(|v| sub(&v, &["status", "expires", "results"])));
        let p = json!({"proposal_id": id, "member": r.pick_c(&x.users)});
        let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "member_vote", &[("params", p.clone())]);
        expect(mon, "member_vote", &p.to_string(), got, q(&ctrl, json!({ "member_vote": p })));
        let after = if r.chance(1, 2) { Value::Null } else { json!(r.pick_c(&x.users)) };
        let p = json!({"proposal_id": id, "start_after": after, "limit": lim(x, r)});
        let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "proposal_votes", &[("params", p.clone())]);
        expect(mon, "proposal_votes", &p.to_string(), got, q(&ctrl, json!({ "proposal_votes": p })));
    }
}

/// a DAO with large populations, asked through the facade
pub fn large(mon: &mut Mon, b: &Base, d: &crate::lite::Lite, kind: Kind, users: Vec<String>, nfts: &[String], nprops: u64, r: &mut Rng) {
    let f = setup(&b.c, &b.codes, &b.versioning);
    let comp = b.c.q(&d.ent, json!({"component_contracts": {}})).unwrap_or(Value::Null);
    let x = Ctx { c: &b.c, f: &f, ent: d.ent.clone(), tre: d.c("treasury").to_string(), comp, kind, users, big: true };
    info_answers(mon, &x);
    for _ in 0..8 {
        list_answers(mon, &x, r, nfts, nprops);
        let u = r.pick_c(&x.users);
        user_answers(mon, &x, &u, r, nfts);
    }
}

fn remote_actions(actions: &Value) -> u128 {
    list(actions)
        .iter()
        .filter(|a| {
            let (k, b) = top(a);
            k == "deploy_cross_chain_treasury" || !b["remote_treasury_target"].is_null()
        })
        .count() as u128
}

pub fn facade(focus: &'static str, seed: u64, size: usize) -> Out {
    let mut g = make_world(focus, seed);
    let f = setup(&g.w.c, &g.w.codes, &g.w.versioning);
    while g.w.mon.step < size && !g.w.void && !g.w.mon.silenced.contains(focus) {
        let n = g.w.rng.range(1, 8);
        for _ in 0..n {
            g.one();
        }
        if g.w.void {
            break;
        }
        let di = g.w.rng.idx(g.w.m.daos.len());
        let d = g.w.m.daos[di].clone();
        let ent = d.c("enterprise").to_string();
        let comp = match g.w.c.q(&ent, json!({"component_contracts": {}})) {
            Ok(v) => v,
            Err(_) => continue,
        };
        g.w.mon.ctx = format!("facade probe of DAO {di} ({:?}) after {} steps", d.kind, g.w.mon.step);
        let mut r = g.w.rng.clone();
        let acts = match r.below(3) {
            0 => g.bad_actions(di),
            _ => g.actions(di, ""),
        };
        let nfts: Vec<String> = (0..30).map(|i| match i % 3 { 0 => format!("{i}"), 1 => format!("n{i}"), _ => format!("token-{i}") }).collect();
        let mut mon = std::mem::replace(&mut g.w.mon, Mon::new(focus));
        {
            let x = Ctx { c: &g.w.c, f: &f, ent: ent.clone(), tre: d.c("treasury").to_string(), comp, kind: d.kind, users: USERS.iter().map(|u| u.to_string()).collect(), big: false };
            let nprops = d.props.len() as u64;
            if r.chance(1, 2) {
                info_answers(&mut mon, &x);
            }
            let u = r.pick_c(&USERS).to_string();
            user_answers(&mut mon, &x, &u, &mut r, &nfts);
            list_answers(&mut mon, &x, &mut r, &nfts, nprops);
            adapters(&mut mon, &x, &d, &mut r, &acts, nprops, &g.w);
        }
        g.w.mon = mon;
    }
    let mut out = Out { mon: g.w.mon, log: g.w.log };
    if !out.mon.silenced.contains(focus) {
        remote_part(&mut out.mon, &mut out.log, seed);
        versions_part(&mut out.mon, &mut out.log, seed);
        legacy_part(&mut out.mon, &mut out.log, seed);
    }
    out
}

fn adapters(mon: &mut Mon, x: &Ctx, d: &DaoState, r: &mut Rng, acts: &Value, nprops: u64, w: &World) {
    let (ctrl, mem) = (x.a("enterprise_governance_controller_contract"), x.a("membership_contract"));
    let who = |r: &mut Rng| {
        let ms: Vec<String> = d.weights.keys().cloned().collect();
        if !ms.is_empty() && r.chance(3, 4) { r.pick_c(&ms) } else { r.pick_c(&USERS).to_string() }
    };
    let owner = if r.chance(1, 2) { json!(r.pick_c(&USERS)) } else { Value::Null };
    let desc = if r.chance(1, 2) { json!(format!("d{}", r.below(1000))) } else { Value::Null };
    let create = json!({"title": format!("t{}", r.below(100000)), "description": desc, "proposal_actions": acts, "deposit_owner": owner});
    // opening
    let s = who(r);
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "create_proposal_adapted", &[("params", create.clone())]);
    let bad = got.is_err();
    // contents the facade cannot even read are refused by the controller too
    let direct = vec![ex(&ctrl, json!({ "create_proposal": create }), &[])];
    if bad && !x.c.simulate(&s, direct.clone()).ok {
        return;
    }
    same_effect(mon, x.c, "create_proposal_adapted", &s, got, Some(direct));
    let cs = { let ms: Vec<String> = d.council.keys().cloned().collect(); if ms.is_empty() { who(r) } else { r.pick_c(&ms) } };
    let ca = if let (Some(cfg), true) = (&d.council_cfg, r.chance(2, 3)) {
        let _ = cfg;
        json!([{"update_metadata": {"name": {"change": "n"}, "description": "no_change", "logo": "no_change", "github_username": "no_change", "discord_username": "no_change", "twitter_username": "no_change", "telegram_username": {"change": "x"}}}])
    } else {
        acts.clone()
    };
    let mut cc = create.clone();
    cc["proposal_actions"] = ca;
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "create_council_proposal_adapted", &[("params", cc.clone())]);
    same_effect(mon, x.c, "create_council_proposal_adapted", &cs, got, Some(vec![ex(&ctrl, json!({ "create_council_proposal": cc }), &[])]));
    let base = d.gov.min_deposit.unwrap_or(1);
    let amt = r.pick_c(&[base, base, base + 1, 1, base.saturating_sub(1).max(1), base * 3]);
    // with deposits
    let p = json!({"create_proposal_msg": create, "deposit_amount": amt.to_string()});
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "create_proposal_with_denom_deposit_adapted", &[("params", p.clone())]);
    let direct = if x.kind == Kind::Denom { Some(vec![ex(&ctrl, json!({ "create_proposal": create }), &[(&d.asset, amt)])]) } else { None };
    same_effect(mon, x.c, "create_proposal_with_denom_deposit_adapted", &s, got, direct);
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "create_proposal_with_token_deposit_adapted", &[("params", p)]);
    let direct = if x.kind == Kind::Token { Some(vec![cw20_send(&d.asset, &ctrl, amt, json!({ "create_proposal": create }))]) } else { None };
    same_effect(mon, x.c, "create_proposal_with_token_deposit_adapted", &s, got, direct);
    let owned: Vec<(String, String)> = if x.kind == Kind::Nft { w.nft_owners(&d.asset).into_iter().filter(|(_, o)| USERS.contains(&o.as_str())).collect() } else { vec![] };
    let ns = if owned.is_empty() { s.clone() } else { r.pick_c(&owned).1 };
    let mine: Vec<String> = owned.iter().filter(|x| x.1 == ns).map(|x| x.0.clone()).take(r.pick_c(&[1usize, 1, 2, 3, 4, 7])).collect();
    let ids = if mine.is_empty() { vec!["1".to_string()] } else { mine.clone() };
    let p = json!({"create_proposal_msg": create, "deposit_tokens": ids});
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "create_proposal_with_nft_deposit_adapted", &[("params", p.clone())]);
    let direct = if x.kind == Kind::Nft {
        let mut ms: Vec<CosmosMsg> = ids.iter().map(|i| ex(&d.asset, json!({"approve": {"spender": ctrl, "token_id": i, "expires": null}}), &[])).collect();
        ms.push(ex(&ctrl, json!({ "create_proposal_with_nft_deposit": p }), &[]));
        Some(ms)
    } else {
        None
    };
    same_effect(mon, x.c, "create_proposal_with_nft_deposit_adapted", &ns, got, direct);
    // votes and execution
    for k in 0..3u64 {
        let open: Vec<u64> = d.props.iter().filter(|(_, p)| !p.executed).map(|(i, _)| *i).collect();
        let id = if !open.is_empty() && r.chance(4, 5) { r.pick_c(&open) } else { r.range(0, nprops + 1) };
        let out = r.pick_c(&["yes", "no", "abstain", "veto"]);
        let s = who(r);
        let p = json!({"proposal_id": id, "outcome": out});
        let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "cast_vote_adapted", &[("params", p.clone())]);
        same_effect(mon, x.c, "cast_vote_adapted", &s, got, Some(vec![ex(&ctrl, json!({ "cast_vote": p }), &[])]));
        let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "cast_council_vote_adapted", &[("params", p.clone())]);
        same_effect(mon, x.c, "cast_council_vote_adapted", &cs, got, Some(vec![ex(&ctrl, json!({ "cast_council_vote": p }), &[])]));
        if k < 2 {
            let p = json!({ "proposal_id": id });
            let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "execute_proposal_adapted", &[("params", p.clone())]);
            let direct = d.props.get(&id).map(|q| {
                let mut ms = vec![];
                let n = remote_actions(&q.actions);
                if n > 0 {
                    ms.push(CosmosMsg::Bank(BankMsg::Send { to_address: x.a("enterprise_outposts_contract"), amount: vec![Coin::new(n, "uluna")] }));
                }
                ms.push(ex(&ctrl, json!({ "execute_proposal": p }), &[]));
                ms
            });
            if direct.is_some() {
                same_effect(mon, x.c, "execute_proposal_adapted", &s, got, direct);
            }
        }
    }
    // staking, for oneself and for others
    let ben = if r.chance(1, 2) { s.clone() } else { r.pick_c(&USERS).to_string() };
    let amt = r.pick_c(&[1u128, 2, 5, 1000, u64::MAX as u128]);
    let me = who(r);
    match x.kind {
        Kind::Denom => {
            let p = json!({"denom": {"user": ben, "amount": amt.to_string()}});
            let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "stake_adapted", &[("params", p)]);
            same_effect(mon, x.c, "stake_adapted denom", &s, got, Some(vec![ex(&mem, json!({"stake": {"user": ben}}), &[(&d.asset, amt)])]));
            let a = r.pick_c(&[1u128, 2, d.w(&me), d.w(&me) + 1]);
            let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "unstake_adapted", &[("params", json!({"denom": {"amount": a.to_string()}}))]);
            same_effect(mon, x.c, "unstake_adapted denom", &me, got, Some(vec![ex(&mem, json!({"unstake": {"amount": a.to_string()}}), &[])]));
        }
        Kind::Token => {
            let p = json!({"cw20": {"user": ben, "amount": amt.to_string()}});
            let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "stake_adapted", &[("params", p)]);
            same_effect(mon, x.c, "stake_adapted cw20", &s, got, Some(vec![cw20_send(&d.asset, &mem, amt, json!({"stake": {"user": ben}}))]));
            let a = r.pick_c(&[1u128, 2, d.w(&me), d.w(&me) + 1]);
            let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "unstake_adapted", &[("params", json!({"cw20": {"amount": a.to_string()}}))]);
            same_effect(mon, x.c, "unstake_adapted cw20", &me, got, Some(vec![ex(&mem, json!({"unstake": {"amount": a.to_string()}}), &[])]));
        }
        Kind::Nft => {
            let p = json!({"cw721": {"user": ben, "tokens": ids}});
            let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "stake_adapted", &[("params", p)]);
            let ms = ids.iter().map(|i| nft_send(&d.asset, &mem, i, json!({"stake": {"user": ben}}))).collect();
            same_effect(mon, x.c, "stake_adapted cw721", &ns, got, Some(ms));
            let mine: Vec<String> = d.nft_stakes.get(&me).map(|s| s.iter().take(2).cloned().collect()).unwrap_or_default();
            let t = if mine.is_empty() { vec!["n1".to_string()] } else { mine };
            let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "unstake_adapted", &[("params", json!({"cw721": {"tokens": t}}))]);
            same_effect(mon, x.c, "unstake_adapted cw721", &me, got, Some(vec![ex(&mem, json!({"unstake": {"nft_ids": t}}), &[])]));
        }
        Kind::Multisig => {}
    }
    let have: Vec<String> = d.claims.iter().filter(|(_, c)| !c.is_empty()).map(|(u, _)| u.clone()).collect();
    let c = if have.is_empty() { me } else { r.pick_c(&have) };
    let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "claim_adapted", &[]);
    let direct = if x.kind == Kind::Multisig { None } else { Some(vec![ex(&mem, json!({"claim": {"user": null}}), &[])]) };
    same_effect(mon, x.c, "claim_adapted", &c, got, direct);
}

/// a DAO with remote treasuries: listing, and the fee money of proposals that reach them
fn remote_part(mon: &mut Mon, log: &mut Vec<String>, seed: u64) {
    let mut r = Rng::new(seed ^ 0xfacade);
    let b = base();
    let f = setup(&b.c, &b.codes, &b.versioning);
    let d = match Lite::new(&b, "alice") {
        Ok(d) => d,
        Err(e) => return mon.fail("C20", "valid dao creation accepted", e),
    };
    b.c.mint("alice", "uluna", 1000);
    let n = r.range(1, 4);
    let mut rem = vec![];
    for i in 0..n {
        rem.push(Remote::new(&format!("chain-{}", r.below(900)), i + r.below(5)));
    }
    let comp = b.c.q(&d.ent, json!({"component_contracts": {}})).unwrap_or(Value::Null);
    let x = Ctx { c: &b.c, f: &f, ent: d.ent.clone(), tre: d.c("treasury").to_string(), comp, kind: Kind::Multisig, users: USERS.iter().map(|u| u.to_string()).collect(), big: false };
    for (i, t) in rem.clone().iter().enumerate() {
        let mut acts = vec![t.deploy_msg()];
        for _ in 0..r.pick_c(&[0usize, 1, 2, 3, 6, 9]) {
            let tgt = if r.chance(2, 3) { rem[r.idx(i + 1)].target() } else { Value::Null };
            acts.push(match r.below(5) {
                0 => json!({"update_asset_whitelist": {"remote_treasury_target": tgt, "add": [], "remove": []}}),
                1 => json!({"update_nft_whitelist": {"remote_treasury_target": tgt, "add": [], "remove": []}}),
                2 => json!({"request_funding_from_dao": {"remote_treasury_target": tgt, "recipient": "alice", "assets": []}}),
                3 => json!({"execute_treasury_msgs": {"remote_treasury_target": tgt, "action_type": "x", "msgs": []}}),
                _ => json!({"update_minimum_weight_for_rewards": {"minimum_weight_for_rewards": "1"}}),
            });
        }
        // listed order is irrelevant for the fee
        if r.chance(1, 2) {
            acts.reverse();
        }
        let acts = Value::Array(acts);
        let id = match d.passed(&b, acts.clone()) {
            Ok(i) => i,
            Err(e) => {
                log.push(format!("remote proposal: {e}"));
                continue;
            }
        };
        mon.step += 1;
        mon.ctx = format!("remote proposal {acts}");
        let got = ask(mon, &b.c, &f, &x.ent, &x.tre, "execute_proposal_adapted", &[("params", json!({ "proposal_id": id }))]);
        let k = remote_actions(&acts);
        let mut direct = vec![CosmosMsg::Bank(BankMsg::Send { to_address: d.c("outposts").into(), amount: vec![Coin::new(k, "uluna")] })];
        direct.push(ex(d.c("controller"), json!({"execute_proposal": {"proposal_id": id}}), &[]));
        same_effect(mon, &b.c, "execute_proposal_adapted remote", "alice", got.clone(), Some(direct));
        // now for real, and let the remote side answer
        let ms = got.ok().and_then(|v| msgs_of(&v).ok()).unwrap_or_default();
        let tx = b.c.dispatch("alice", ms);
        log.push(format!("deployment {} {}", tx.ok, tx.err));
        // the proxy's and then the treasury's address come back
        let mut last = tx;
        for k in 0..2 {
            let id = crate::scen_ibc::sent(&last).into_iter().filter_map(|x| x.ok()).filter_map(|x| serde_json::from_str::<Value>(&x.memo).ok()).find_map(|m| {
                let x = &m["wasm"]["msg"]["execute_msgs"]["msgs"][0]["reply_callback"];
                if st(&x["ibc_channel"]) == t.dest_channel { x["callback_id"].as_u64() } else { None }
            });
            let id = match id {
                Some(i) => i,
                None => break,
            };
            b.c.mint(d.c("outposts"), "uluna", 1);
            last = b.c.execute(&crate::scen_ibc::derive(&t.src_channel, &t.global, "terra"), d.c("outposts"), &Remote::reply(id as u32, &format!("remote1x{i}y{k}")), &[]);
            log.push(format!("reply {} {}", last.ok, last.err));
        }
        info_answers(mon, &x);
    }
}

/// DAOs of different releases and collections
fn versions_part(mon: &mut Mon, log: &mut Vec<String>, seed: u64) {
    let mut r = Rng::new(seed ^ 0x7e57);
    let v = r.pick_c(&[(1u64, 0u64, 0u64), (1, 0, 1), (1, 0, 2), (1, 1, 0), (1, 2, 0), (1, 2, 1), (2, 0, 0), (3, 17, 42)]);
    let b = base_with(&[(v, false, 0)], &json!([{ "native": GLOBAL_DENOM }]), &json!([]));
    let f = setup(&b.c, &b.codes, &b.versioning);
    let coll = new_cw721(&b.c, b.codes.cw721, "art", &[("1".into(), "alice".into()), ("2".into(), "alice".into())]);
    let bridge = b.c.instantiate("rec", b.codes.recorder, &json!({}), "bridge", None).unwrap();
    let class = "wasm.terra1xyz/channel-7/art";
    let bridged = r.chance(1, 2);
    if bridged {
        b.c.execute("x", &bridge, &json!({"set": {"classes": {class: coll}}}), &[]);
    }
    let up = if r.chance(1, 2) { json!({"time": 1000}) } else { json!({"height": 77}) };
    let m = match r.below(4) {
        0 => json!({"import_cw721": {"cw721_contract": coll, "unlocking_period": up}}),
        1 if v >= (1, 2, 0) => json!({"new_ics721": {"ics721_proxy": bridge, "class_id": class, "unlocking_period": up}}),
        2 => json!({"new_denom": {"denom": "ustake", "unlocking_period": up}}),
        _ => json!({"new_multisig": {"multisig_members": [{"user": "alice", "weight": "3"}]}}),
    };
    let (k, _) = top(&m);
    let kind = match k.as_str() {
        "new_denom" => Kind::Denom,
        "new_multisig" => Kind::Multisig,
        _ => Kind::Nft,
    };
    let mut req = request("versioned", m.clone());
    if r.chance(2, 3) {
        let n = r.pick_c(&[0u64, 1, 3, 12, 40]);
        req["dao_council"] = json!({"members": (0..n).map(|i| format!("councillor{i:03}")).collect::<Vec<_>>(), "quorum": "0.3", "threshold": "0.51", "allowed_proposal_action_types": ["upgrade_dao", "update_metadata"]});
    }
    req["gov_config"]["veto_threshold"] = r.pick_c(&[Value::Null, json!("0.25"), json!("1")]);
    if kind != Kind::Multisig {
        req["gov_config"]["minimum_deposit"] = r.pick_c(&[Value::Null, json!("5")]);
    }
    let d = match Lite::with(&b, "alice", req) {
        Ok(d) => d,
        Err(e) => {
            log.push(format!("versioned dao: {e}"));
            return;
        }
    };
    mon.step += 1;
    mon.ctx = format!("DAO of release {v:?} with {m}");
    let comp = b.c.q(&d.ent, json!({"component_contracts": {}})).unwrap_or(Value::Null);
    let x = Ctx { c: &b.c, f: &f, ent: d.ent.clone(), tre: d.c("treasury").to_string(), comp, kind, users: USERS.iter().map(|u| u.to_string()).collect(), big: false };
    info_answers(mon, &x);
    let nfts = vec!["1".to_string(), "2".to_string()];
    if kind == Kind::Nft && (k == "import_cw721" || bridged) {
        let p = json!({"cw721": {"user": "bobby", "tokens": nfts}});
        let got = ask(mon, x.c, x.f, &x.ent, &x.tre, "stake_adapted", &[("params", p)]);
        let ms = nfts.iter().map(|i| nft_send(&coll, d.c("membership"), i, json!({"stake": {"user": "bobby"}}))).collect();
        same_effect(mon, x.c, "stake_adapted cw721", "alice", got.clone(), Some(ms));
        b.c.dispatch("alice", got.ok().and_then(|v| msgs_of(&v).ok()).unwrap_or_default());
    }
    for u in ["alice", "bobby"] {
        user_answers(mon, &x, u, &mut r, &nfts);
    }
    list_answers(mon, &x, &mut r, &nfts, 0);
    // something that is no DAO has no answers
    for a in [b.versioning.clone(), "nobody".to_string(), coll] {
        let got = b.c.q(&f.top, json!({"dao_info": {"contract": a}}));
        mon.check("C22", "no answers for what is no DAO", 0u8, got.is_err(), || format!("{a}: {got:?}"));
    }
}

/// actions as releases before 1.0.0 expect them
fn legacy_action(a: &Value, b: &Base) -> Option<Value> {
    let (k, m) = top(a);
    let mut m = m.clone();
    let no_target = m["remote_treasury_target"].is_null();
    if let Some(o) = m.as_object_mut() {
        o.remove("remote_treasury_target");
    }
    Some(match k.as_str() {
        "execute_treasury_msgs" if !no_target => return None,
        "execute_treasury_msgs" | "execute_enterprise_msgs" => json!({"execute_msgs": {"action_type": m["action_type"], "msgs": m["msgs"]}}),
        "modify_multisig_membership" => {
            let e: Vec<Value> = list(&m["edit_members"]).iter().map(|x| json!({"address": x["user"], "weight": x["weight"]})).collect();
            json!({"modify_multisig_membership": {"edit_members": e}})
        }
        "deploy_cross_chain_treasury" => return None,
        "upgrade_dao" => {
            let n = |x: &str| m["new_version"][x].as_u64().unwrap_or(0);
            let v = (n("major"), n("minor"), n("patch"));
            let (v, f) = if v >= (1, 0, 0) { ((1, 0, 0), "enterprise_treasury_code_id") } else { (v, "enterprise_code_id") };
            let info = b.c.q(&b.versioning, json!({"version": {"version": {"major": v.0, "minor": v.1, "patch": v.2}}})).ok()?;
            let msg = if v >= (1, 0, 0) { json!({ "initial_submsgs_limit": null }) } else { json!({}) };
            json!({"upgrade_dao": {"new_dao_code_id": info["version"][f], "migrate_msg": cosmwasm_std::Binary(serde_json::to_vec(&msg).unwrap()).to_base64()}})
        }
        _ => json!({ k: m }),
    })
}

/// a DAO of a release before 1.0.0 (stand-in that answers exactly the queries it is told to)
fn legacy_part(mon: &mut Mon, log: &mut Vec<String>, seed: u64) {
    let mut r = Rng::new(seed ^ 0x1e6acc);
    let b = base_with(&[((0, 6, 0), true, 1), ((1, 0, 0), false, 0), ((1, 1, 0), true, 2)], &json!([]), &json!([]));
    let f = setup(&b.c, &b.codes, &b.versioning);
    let dao = b.c.instantiate("rec", b.codes.recorder, &json!({}), "legacy", None).unwrap();
    let token = b.c.instantiate("rec", b.codes.recorder, &json!({}), "legacytoken", None).unwrap();
    let kind = r.pick_c(&["token", "nft", "multisig"]);
    let dec = |r: &mut Rng| r.pick_c(&["0.1", "0.25", "0.5", "0.51", "1"]);
    let (quorum, threshold) = (dec(&mut r), dec(&mut r));
    let veto = if r.chance(1, 2) { json!(dec(&mut r)) } else { Value::Null };
    let early = r.chance(1, 2);
    let code_version = r.range(1, 6);
    let gov = json!({"quorum": quorum, "threshold": threshold, "veto_threshold": veto, "vote_duration": r.range(1, 1000), "unlocking_period": r.pick_c(&[json!({"time": 5}), json!({"height": 3})]),
        "minimum_deposit": r.pick_c(&[Value::Null, json!("9")]), "allow_early_proposal_execution": early});
    let council = if r.chance(1, 2) { json!({"members": ["carol", "david"], "allowed_proposal_action_types": ["upgrade_dao"], "quorum": "0.7", "threshold": "0.6"}) } else { Value::Null };
    let meta = json!({"name": "old", "description": r.pick_c(&[Value::Null, json!("d")]), "logo": r.pick_c(&[json!("none"), json!({"url": "u"})]),
        "socials": {"github_username": "g", "discord_username": null, "twitter_username": "t", "telegram_username": null}});
    let info = json!({"creation_date": "1600000000000000001", "metadata": meta, "gov_config": gov, "dao_council": council, "dao_type": kind, "dao_membership_contract": token,
        "enterprise_factory_contract": "oldfactory", "funds_distributor_contract": "olddistributor", "dao_code_version": code_version.to_string()});
    let now = b.c.now().nanos();
    let mut answers: Vec<(Value, Value)> = vec![(json!({"dao_info": {}}), info.clone())];
    let mut plan: Vec<(&str, &str, Value, Value)> = vec![];
    let lm = r.range(1, 50);
    let mut fwd = |name: &'static str, field: &'static str, p: Value, ans: Value, sent: Option<Value>| {
        answers.push((json!({ name: sent.unwrap_or(p.clone()) }), ans.clone()));
        plan.push((name, field, p, ans));
    };
    fwd("member_info", "msg", json!({"member_address": "alice"}), json!({"voting_power": "0.25"}), None);
    fwd("list_multisig_members", "msg", json!({"start_after": "bobby", "limit": lm}), json!({"members": [{"address": "carol", "weight": "7"}]}), None);
    fwd("asset_whitelist", "params", json!({"start_after": {"native": "uluna"}, "limit": lm}), json!({"assets": [{"native": "ux"}, {"cw20": "token"}]}), None);
    fwd("nft_whitelist", "params", json!({"start_after": "nftx", "limit": lm}), json!({"nfts": ["nfty", "nftz"]}), None);
    fwd("member_vote", "params", json!({"member": "alice", "proposal_id": lm}), json!({"vote": {"poll_id": lm, "voter": "alice", "outcome": 2, "amount": "5"}}), None);
    fwd("proposal_votes", "params", json!({"proposal_id": lm, "start_after": "alice", "limit": 3}), json!({"votes": [{"poll_id": lm, "voter": "bobby", "outcome": 1, "amount": "15"}]}), None);
    fwd("user_stake", "params", json!({"user": "alice", "start_after": "x", "limit": 4}), json!({"user_stake": {"nft": {"tokens": ["1", "7"], "amount": "2"}}}), Some(json!({"user": "alice"})));
    fwd("total_staked_amount", "", json!({}), json!({"total_staked_amount": lm.to_string()}), None);
    fwd("staked_nfts", "params", json!({"start_after": "12", "limit": lm}), json!({"nfts": ["13", "15"]}), None);
    fwd("claims", "params", json!({"owner": "alice"}), json!({"claims": [{"asset": {"cw20": {"amount": "12"}}, "release_at": {"height": "12"}}]}), None);
    fwd("releasable_claims", "params", json!({"owner": "bobby"}), json!({"claims": [{"asset": {"cw721": {"tokens": ["a"]}}, "release_at": {"timestamp": "77"}}]}), None);
    // proposals
    let mut props: Vec<(Value, String)> = vec![];
    let mut fulls: Vec<Value> = vec![];
    for id in 1..=6u64 {
        let stored = r.pick_c(&["in_progress", "in_progress", "in_progress", "passed", "rejected", "executed"]);
        let end = match r.below(4) {
            0 => now,
            1 => now + 1,
            2 => now - r.below(1000) - 1,
            _ => now + r.below(10_000_000_000),
        };
        let council_p = r.chance(1, 4);
        let total = r.pick_c(&[100u128, 10, 7, 40]);
        let mut res = [0u128; 4];
        let mut left = total;
        for i in [0usize, 1, 3, 2] {
            let v = r.below(left as u64 + 1) as u128;
            res[i] = if r.chance(3, 4) { v } else { 0 };
            left -= res[i];
        }
        if r.chance(1, 5) {
            res[1] = res[0];
            res = [res[0].min(total / 2), res[0].min(total / 2), 0, 0];
        }
        let rj: Vec<Value> = (0..4).filter(|i| res[*i as usize] > 0).map(|i| json!([i, res[i as usize].to_string()])).collect();
        let acts = json!([{"execute_msgs": {"action_type": "x", "msgs": ["a", "b"]}}, {"update_minimum_weight_for_rewards": {"minimum_weight_for_rewards": "4"}}, {"update_nft_whitelist": {"add": ["nfta"], "remove": ["nftb"]}},
            {"update_asset_whitelist": {"add": [{"native": "ua"}], "remove": [{"cw20": "tok"}]}}, {"request_funding_from_dao": {"recipient": "bobby", "assets": [{"info": {"native": "ua"}, "amount": "3"}]}},
            {"modify_multisig_membership": {"edit_members": [{"address": "carol", "weight": "9"}]}}, {"distribute_funds": {"funds": [{"info": {"native": "ub"}, "amount": "4"}]}}]);
        let ours = json!([{"execute_msgs": {"action_type": "x", "msgs": ["a", "b"]}}, {"update_minimum_weight_for_rewards": {"minimum_weight_for_rewards": "4"}}, {"update_nft_whitelist": {"remote_treasury_target": null, "add": ["nfta"], "remove": ["nftb"]}},
            {"update_asset_whitelist": {"remote_treasury_target": null, "add": [{"native": "ua"}], "remove": [{"cw20": "tok"}]}}, {"request_funding_from_dao": {"remote_treasury_target": null, "recipient": "bobby", "assets": [{"info": {"native": "ua"}, "amount": "3"}]}},
            {"modify_multisig_membership": {"edit_members": [{"user": "carol", "weight": "9"}]}}, {"distribute_funds": {"funds": [{"info": {"native": "ub"}, "amount": "4"}]}}]);
        let (mut acts, mut ours) = (acts, ours);
        {
            let nc = json!("no_change");
            let code = r.range(1, 90);
            let more = vec![
                json!({"update_metadata": {"name": {"change": "z"}, "description": {"change": null}, "logo": {"change": {"url": "q"}}, "github_username": nc, "discord_username": {"change": "d"}, "twitter_username": nc, "telegram_username": {"change": null}}}),
                json!({"update_metadata": {"name": nc, "description": {"change": "y"}, "logo": nc, "github_username": {"change": "g"}, "discord_username": nc, "twitter_username": {"change": null}, "telegram_username": nc}}),
                json!({"update_gov_config": {"quorum": {"change": "0.2"}, "threshold": nc, "veto_threshold": {"change": "0.3"}, "voting_duration": {"change": "77"}, "unlocking_period": nc, "minimum_deposit": {"change": "12"}, "allow_early_proposal_execution": {"change": true}}}),
                json!({"update_gov_config": {"quorum": nc, "threshold": {"change": "0.4"}, "veto_threshold": {"change": null}, "voting_duration": nc, "unlocking_period": {"change": {"height": 4}}, "minimum_deposit": {"change": null}, "allow_early_proposal_execution": nc}}),
                json!({"update_council": {"dao_council": {"members": ["alice"], "quorum": "0.4", "threshold": "0.6", "allowed_proposal_action_types": ["upgrade_dao"]}}}),
                json!({"update_council": {"dao_council": null}}),
                json!({"upgrade_dao": {"new_dao_code_id": code, "migrate_msg": "e30="}}),
            ];
            for m in more {
                if r.chance(1, 2) {
                    let at = r.idx(acts.as_array().unwrap().len() + 1);
                    let o = match m.get("upgrade_dao") {
                        Some(_) => json!({"upgrade_dao": {"new_version": {"major": 0, "minor": code, "patch": 0}, "migrate_msgs": [{"version": {"major": 0, "minor": code, "patch": 0}, "migrate_msg": "e30="}]}}),
                        None => m.clone(),
                    };
                    acts.as_array_mut().unwrap().insert(at, m);
                    ours.as_array_mut().unwrap().insert(at, o);
                }
            }
        }
        let p = json!({"proposal_type": if council_p { "council" } else { "general" }, "id": id, "proposer": if r.chance(1, 2) { json!("alice") } else { Value::Null }, "title": format!("t{id}"), "description": "d",
            "status": stored, "started_at": "1600000000000000000", "expires": {"at_time": end.to_string()}, "proposal_actions": acts});
        let full = json!({"proposal": p, "proposal_status": stored, "results": rj, "total_votes_available": total.to_string()});
        let j = judge(&res, total, crate::model::dec(&json!(quorum)), crate::model::dec(&json!(threshold)), if veto.is_null() { None } else { Some(crate::model::dec(&veto)) });
        let status = match stored {
            "in_progress" if now >= end => if j == Judged::Passed { "passed" } else { "rejected" },
            "in_progress" if (council_p || early) && DaoState::decided(j) => "in_progress_can_execute_early",
            s => s,
        };
        let mut want = full.clone();
        want["proposal"]["status"] = json!(status);
        want["proposal"]["proposal_actions"] = ours;
        want["proposal_status"] = json!(status);
        answers.push((json!({"proposal": {"proposal_id": id}}), full.clone()));
        props.push((want, status.to_string()));
        // listing: one page per proposal
        answers.push((json!({"proposals": {"filter": "passed", "start_after": id, "limit": 1}}), json!({ "proposals": [full] })));
        fulls.push(full);
    }
    answers.push((json!({"proposals": {"filter": null, "start_after": null, "limit": null}}), json!({ "proposals": fulls })));
    let tx = b.c.execute("x", &dao, &json!({"set": {"answers": answers.iter().map(|(q, a)| json!([q, a])).collect::<Vec<_>>()}}), &[]);
    log.push(format!("legacy {kind} set up {} {}", tx.ok, tx.err));
    mon.step += 1;
    mon.ctx = format!("legacy {kind} DAO, {gov}");
    let get = |mon: &mut Mon, name: &str, rest: &[(&str, Value)]| ask(mon, &b.c, &f, &dao, &dao, name, rest);
    for (name, field, p, ans) in &plan {
        let got = if field.is_empty() { get(mon, name, &[]) } else { get(mon, name, &[(field, p.clone())]) };
        expect(mon, &format!("legacy {name}"), &p.to_string(), got, Ok(ans.clone()));
    }
    for (want, status) in &props {
        let id = want["proposal"]["id"].clone();
        let got = get(mon, "proposal", &[("params", json!({ "proposal_id": id }))]);
        expect(mon, "legacy proposal", status, got, Ok(want.clone()));
        let got = get(mon, "proposals", &[("params", json!({"filter": "passed", "start_after": id, "limit": 1}))]);
        expect(mon, "legacy proposals", status, got, Ok(json!({ "proposals": [want] })));
        let got = get(mon, "proposal_status", &[("params", json!({ "proposal_id": id }))]);
        expect(mon, "legacy proposal_status", status, got, Ok(json!({"status": status, "expires": want["proposal"]["expires"], "results": want["results"]})));
    }
    let got = get(mon, "proposals", &[("params", json!({"filter": null, "start_after": null, "limit": null}))]);
    let all: Vec<Value> = props.iter().map(|x| x.0.clone()).collect();
    expect(mon, "legacy proposals", "all", got, Ok(json!({ "proposals": all })));
    let got = get(mon, "treasury_address", &[]);
    expect(mon, "legacy treasury_address", "", got, Ok(json!({ "treasury_address": dao })));
    let mut want = info.clone();
    if veto.is_null() {
        want["gov_config"]["veto_threshold"] = json!(threshold);
    }
    want["dao_version"] = json!({"major": 0, "minor": code_version, "patch": 0});
    let got = get(mon, "dao_info", &[]);
    expect(mon, "legacy dao_info", "", got, Ok(want));
    let got = get(mon, "component_contracts", &[]);
    let none = Value::Null;
    expect(mon, "legacy component_contracts", "", got, Ok(json!({"enterprise_factory_contract": "oldfactory", "enterprise_versioning_contract": none, "enterprise_contract": dao, "funds_distributor_contract": "olddistributor",
        "enterprise_governance_contract": none, "enterprise_governance_controller_contract": none, "enterprise_outposts_contract": none, "enterprise_treasury_contract": none, "membership_contract": none,
        "council_membership_contract": none, "attestation_contract": none})));
    let got = get(mon, "cross_chain_treasuries", &[("params", json!({"start_after": null, "limit": null}))]);
    expect(mon, "legacy cross_chain_treasuries", "", got, Ok(json!({"treasuries": []})));
    let got = get(mon, "has_incomplete_v2_migration", &[]);
    expect(mon, "legacy has_incomplete_v2_migration", "", got, Ok(json!({"has_incomplete_migration": false})));
    let got = get(mon, "has_unmoved_stakes_or_claims", &[]);
    expect(mon, "legacy has_unmoved_stakes_or_claims", "", got, Ok(json!({"has_unmoved_stakes_or_claims": false})));
    let got = get(mon, "v2_migration_stage", &[]);
    expect(mon, "legacy v2_migration_stage", "", got, Ok(json!({"stage": "migration_not_started"})));
    // prepared messages
    let nc = json!("no_change");
    let pool = vec![
        json!({"update_metadata": {"name": {"change": "z"}, "description": {"change": null}, "logo": {"change": {"url": "q"}}, "github_username": nc, "discord_username": {"change": "d"}, "twitter_username": nc, "telegram_username": nc}}),
        json!({"update_gov_config": {"quorum": {"change": "0.2"}, "threshold": nc, "veto_threshold": {"change": "0.3"}, "voting_duration": {"change": "77"}, "unlocking_period": nc, "minimum_deposit": {"change": "12"}, "allow_early_proposal_execution": {"change": true}}}),
        json!({"update_gov_config": {"quorum": nc, "threshold": {"change": "0.4"}, "veto_threshold": {"change": null}, "voting_duration": nc, "unlocking_period": {"change": {"height": 4}}, "minimum_deposit": {"change": null}, "allow_early_proposal_execution": nc}}),
        json!({"update_council": {"dao_council": {"members": ["alice"], "quorum": "0.4", "threshold": "0.6", "allowed_proposal_action_types": ["upgrade_dao"]}}}),
        json!({"update_council": {"dao_council": null}}),
        json!({"update_asset_whitelist": {"remote_treasury_target": null, "add": [{"native": "u1"}], "remove": [{"cw20": "toktok"}]}}),
        json!({"update_nft_whitelist": {"remote_treasury_target": null, "add": ["n1n"], "remove": ["n2n"]}}),
        json!({"request_funding_from_dao": {"remote_treasury_target": null, "recipient": "bobby", "assets": [{"info": {"native": "u1"}, "amount": "8"}]}}),
        json!({"upgrade_dao": {"new_version": {"major": 0, "minor": 6, "patch": 0}, "migrate_msgs": []}}),
        json!({"upgrade_dao": {"new_version": {"major": 1, "minor": 0, "patch": 0}, "migrate_msgs": []}}),
        json!({"upgrade_dao": {"new_version": {"major": 1, "minor": 1, "patch": 0}, "migrate_msgs": []}}),
        json!({"execute_msgs": {"action_type": "a", "msgs": ["m1", "m2"]}}),
        json!({"execute_treasury_msgs": {"remote_treasury_target": null, "action_type": "b", "msgs": ["m3"]}}),
        json!({"execute_treasury_msgs": {"remote_treasury_target": Remote::new("c", 1).target(), "action_type": "b", "msgs": ["m3"]}}),
        json!({"execute_treasury_msgs": {"remote_treasury_target": Remote::new("c", 1).target(), "action_type": "b", "msgs": []}}),
        json!({"execute_treasury_msgs": {"remote_treasury_target": null, "action_type": "b", "msgs": []}}),
        json!({"execute_enterprise_msgs": {"action_type": "e", "msgs": ["m4", "m5"]}}),
        json!({"modify_multisig_membership": {"edit_members": [{"user": "alice", "weight": "2"}, {"user": "bobby", "weight": "0"}]}}),
        json!({"distribute_funds": {"funds": [{"info": {"native": "u2"}, "amount": "3"}]}}),
        json!({"update_minimum_weight_for_rewards": {"minimum_weight_for_rewards": "6"}}),
        Remote::new("c", 2).deploy_msg(),
    ];
    let single = |to: &str, m: Value| Some(vec![ex(to, m, &[])]);
    let b64 = |v: &Value| cosmwasm_std::Binary(serde_json::to_vec(v).unwrap()).to_base64();
    for i in 0..pool.len() {
        let mut acts = vec![pool[i].clone()];
        if r.chance(1, 2) {
            acts.push(r.pick_c(&pool));
        }
        let create = json!({"title": "ti", "description": r.pick_c(&[Value::Null, json!("de")]), "proposal_actions": acts, "deposit_owner": r.pick_c(&[Value::Null, json!("bobby")])});
        let old: Option<Vec<Value>> = acts.iter().map(|a| legacy_action(a, &b)).collect();
        let lm = old.map(|o| json!({"title": create["title"], "description": create["description"], "proposal_actions": o}));
        let got = get(mon, "create_proposal_adapted", &[("params", create.clone())]);
        legacy_same(mon, &b.c, "create_proposal", got, lm.clone().and_then(|m| single(&dao, json!({ "create_proposal": m }))));
        let got = get(mon, "create_council_proposal_adapted", &[("params", create.clone())]);
        legacy_same(mon, &b.c, "create_council_proposal", got, lm.clone().and_then(|m| single(&dao, json!({ "create_council_proposal": m }))));
        let got = get(mon, "create_proposal_with_token_deposit_adapted", &[("params", json!({"create_proposal_msg": create, "deposit_amount": "31"}))]);
        let want = if kind == "token" { lm.and_then(|m| single(&token, json!({"send": {"contract": dao, "amount": "31", "msg": b64(&json!({ "create_proposal": m }))}}))) } else { None };
        legacy_same(mon, &b.c, "create_proposal_with_token_deposit", got, want);
        let got = get(mon, "create_proposal_with_denom_deposit_adapted", &[("params", json!({"create_proposal_msg": create, "deposit_amount": "31"}))]);
        legacy_same(mon, &b.c, "create_proposal_with_denom_deposit", got, None);
        let got = get(mon, "create_proposal_with_nft_deposit_adapted", &[("params", json!({"create_proposal_msg": create, "deposit_tokens": ["1"]}))]);
        legacy_same(mon, &b.c, "create_proposal_with_nft_deposit", got, None);
    }
    for o in ["yes", "no", "abstain", "veto"] {
        let p = json!({"proposal_id": r.range(1, 99), "outcome": o});
        let got = get(mon, "cast_vote_adapted", &[("params", p.clone())]);
        legacy_same(mon, &b.c, "cast_vote", got, single(&dao, json!({ "cast_vote": p })));
        let got = get(mon, "cast_council_vote_adapted", &[("params", p.clone())]);
        legacy_same(mon, &b.c, "cast_council_vote", got, single(&dao, json!({ "cast_council_vote": p })));
    }
    let p = json!({"proposal_id": r.range(1, 99)});
    let got = get(mon, "execute_proposal_adapted", &[("params", p.clone())]);
    legacy_same(mon, &b.c, "execute_proposal", got, single(&dao, json!({ "execute_proposal": p })));
    let stake = b64(&json!({"stake": {}}));
    let got = get(mon, "stake_adapted", &[("params", json!({"cw20": {"user": "alice", "amount": "55"}}))]);
    legacy_same(mon, &b.c, "stake cw20", got, single(&token, json!({"send": {"contract": dao, "amount": "55", "msg": stake}})));
    let got = get(mon, "stake_adapted", &[("params", json!({"cw721": {"user": "alice", "tokens": ["5", "6", "x"]}}))]);
    legacy_same(mon, &b.c, "stake cw721", got, Some(["5", "6", "x"].iter().map(|i| ex(&token, json!({"send_nft": {"contract": dao, "token_id": i, "msg": stake}}), &[])).collect()));
    let got = get(mon, "stake_adapted", &[("params", json!({"denom": {"user": "alice", "amount": "55"}}))]);
    legacy_same(mon, &b.c, "stake denom", got, None);
    for p in [json!({"cw20": {"amount": "44"}}), json!({"cw721": {"tokens": ["5", "y"]}})] {
        let got = get(mon, "unstake_adapted", &[("params", p.clone())]);
        legacy_same(mon, &b.c, "unstake", got, single(&dao, json!({ "unstake": p })));
    }
    let got = get(mon, "unstake_adapted", &[("params", json!({"denom": {"amount": "44"}}))]);
    legacy_same(mon, &b.c, "unstake denom", got, None);
    let got = get(mon, "claim_adapted", &[]);
    legacy_same(mon, &b.c, "claim", got, single(&dao, json!({"claim": {}})));
}

/// the stand-ins only record, so compare what they recorded
fn legacy_same(mon: &mut Mon, c: &Chain, name: &str, got: Result<Value, String>, direct: Option<Vec<CosmosMsg>>) {
    let name = format!("legacy {name}");
    match (got, direct) {
        (Err(_), None) => mon.check("C22", "nothing prepared for what the DAO cannot do", name, true, String::new),
        (Ok(v), None) => mon.check("C22", "nothing prepared for what the DAO cannot do", name.clone(), false, || format!("{name}: prepared {v}")),
        (Err(e), Some(d)) => mon.check("C22", "message prepared", name.clone(), false, || format!("{name}: refused with {e}, expected {}", show_all(&d))),
        (Ok(v), Some(d)) => {
            let calls = |ms: Vec<CosmosMsg>| -> Vec<(String, Value, String)> {
                c.simulate("alice", ms).trace.iter().map(|x| (x.target.clone(), norm(&x.json()), format!("{:?}", x.funds))).collect()
            };
            let shown = show_all(&d);
            let (a, b) = (msgs_of(&v).map(calls), calls(d));
            let ok = a.as_ref().map_or(false, |a| *a == b);
            mon.check("C22", "prepared messages are what an old DAO expects", name.clone(), ok, || format!("{name}: prepared {v}, expected {shown}"));
        }
    }
}

/// nested binary messages opened up, absent fields and nulls alike
fn norm(v: &Value) -> Value {
    match v {
        Value::Object(o) => {
            let mut n = serde_json::Map::new();
            for (k, x) in o {
                if x.is_null() {
                    continue;
                }
                let y = if k == "msg" || k == "migrate_msg" {
                    x.as_str().and_then(|s| cosmwasm_std::Binary::from_base64(s).ok()).and_then(|b| serde_json::from_slice::<Value>(&b.0).ok()).unwrap_or(x.clone())
                } else {
                    x.clone()
                };
                n.insert(k.clone(), norm(&y));
            }
            Value::Object(n)
        }
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        x => x.clone(),
    }
}
