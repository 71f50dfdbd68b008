//! A DAO that moves between factories and version registries: what it looks up there follows the move.
use crate::lite::*;
use crate::mon::{Mon, Rng};
use crate::obs::*;
use crate::run::Out;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

type V = (u64, u64, u64);
fn vj(v: V) -> Value {
    json!({"major": v.0, "minor": v.1, "patch": v.2})
}

struct Home {
    d: Lite,
    factory: String,
    registry: String,
    version: V,
    att: Option<String>,
}

fn wasm(to: &str, m: &Value) -> String {
    let b = cosmwasm_std::Binary(serde_json::to_vec(m).unwrap()).to_base64();
    json!({"wasm": {"execute": {"contract_addr": to, "msg": b, "funds": []}}}).to_string()
}

pub fn home(focus: &'static str, seed: u64, steps: usize) -> Out {
    let mut r = Rng::new(seed);
    let mut mon = Mon::new(focus);
    let mut log: Vec<String> = vec![];
    let b = base_with(&[((1, 0, 0), false, 0)], &json!([{"native": "uglobal"}, {"native": "ushared"}]), &json!([]));
    let k = &b.codes;
    // registry address -> version -> (main contract code, attestation code)
    let mut regs: BTreeMap<String, BTreeMap<V, (u64, u64)>> = BTreeMap::new();
    regs.entry(b.versioning.clone()).or_default().insert((1, 0, 0), (k.enterprise, k.attestation));
    let reg2 = b.c.instantiate("vadmin", k.versioning, &json!({"admin": "vadmin"}), "second registry", None).expect("registry");
    let mut add = |reg: &str, v: V, second: bool, ent: u64| {
        let t = b.c.execute("vadmin", reg, &json!({"add_version": {"version": version_info(k, v, second, ent)}}), &[]);
        assert!(t.ok, "{}", t.err);
        regs.entry(reg.to_string()).or_default().insert(v, (ent, if second { k.attestation2 } else { k.attestation }));
    };
    if r.chance(2, 3) {
        add(&reg2, (1, 0, 0), true, k.enterprise2);
    }
    add(&reg2, (1, 1, 0), r.chance(1, 2), k.step2);
    add(&reg2, (1, 3, 0), true, k.step2);
    add(&reg2, (1, 3, 4), false, k.step2);
    add(&reg2, (1, 5, 1), r.chance(1, 2), k.step);
    if r.chance(1, 2) {
        add(&reg2, (1, 5, 0), r.chance(1, 2), k.step);
    }
    let fac2 = b
        .c
        .instantiate("fadmin", k.factory, &json!({"config": {"admin": "fadmin", "enterprise_versioning": reg2, "cw20_code_id": k.cw20, "cw721_code_id": k.cw721}, "global_asset_whitelist": [{"native": "uother"}, {"native": "ushared"}], "global_nft_whitelist": []}), "second factory", None)
        .expect("factory");
    let global: BTreeMap<String, Vec<&str>> = [(b.factory.clone(), vec!["uglobal", "ushared"]), (fac2.clone(), vec!["uother", "ushared"])].into_iter().collect();
    let mut hs: Vec<Home> = vec![];
    for i in 0..2 {
        let mut m = request(&format!("home {i}"), json!({"new_multisig": {"multisig_members": [{"user": "alice", "weight": "2"}, {"user": "bobby", "weight": "1"}]}}));
        if i == 0 {
            m["asset_whitelist"] = json!([{"native": "uown"}]);
        }
        match Lite::with(&b, "alice", m) {
            Ok(d) => hs.push(Home { d, factory: b.factory.clone(), registry: b.versioning.clone(), version: (1, 0, 0), att: None }),
            Err(e) => {
                mon.fail("C20", "valid dao creation accepted", e);
                return Out { mon, log };
            }
        }
    }
    add(&b.versioning, (1, 3, 0), r.chance(1, 2), k.step);
    for _ in 0..steps {
        mon.step += 1;
        if mon.silenced.contains(focus) {
            break;
        }
        let i = r.idx(2);
        let ent = hs[i].d.ent.clone();
        let ctrl = hs[i].d.c("controller").to_string();
        match r.below(10) {
            0..=3 => {
                // relocation, decided by the members
                let pool = [b.factory.clone(), fac2.clone(), b.factory.clone(), fac2.clone(), b.versioning.clone(), "somewhere".to_string(), hs[i].registry.clone(), "X!".into()];
                let rpool = [b.versioning.clone(), reg2.clone(), b.versioning.clone(), reg2.clone(), hs[i].factory.clone(), "somewhere".to_string(), "X!".into()];
                let nf = if r.chance(1, 3) { None } else { Some(r.pick_c(&pool)) };
                let nr = if r.chance(1, 3) { None } else { Some(r.pick_c(&rpool)) };
                let j = |x: &Option<String>| x.as_ref().map_or(json!("no_change"), |x| json!({ "change": x }));
                let m = json!({"update_config": {"new_factory_contract": j(&nf), "new_versioning_contract": j(&nr)}});
                let bad = nf.as_deref() == Some("X!") || nr.as_deref() == Some("X!");
                let tx = match hs[i].d.govern(&b, json!([{"execute_msgs": {"action_type": "move", "msgs": [wasm(&ent, &m)]}}])) {
                    Ok(t) => t,
                    Err(e) => {
                        mon.fail("C26", "a relocation can be proposed", e);
                        break;
                    }
                };
                log.push(format!("#{} dao {i} {m} -> {} {}", mon.step, tx.ok, tx.err));
                mon.ctx = log.last().unwrap().clone();
                let done = tx.ok && tx.trace.iter().any(|c| c.key() == "update_config" && c.ok && !c.reverted);
                mon.check("C26", "relocation performed exactly when valid", (nf.is_some(), nr.is_some(), bad), done != bad, || format!("{m}: performed {done} {}", tx.err));
                if done {
                    if let Some(x) = nf {
                        hs[i].factory = x;
                    }
                    if let Some(x) = nr {
                        hs[i].registry = x;
                    }
                }
            }
            4 => {
                let m = json!({"update_config": {"new_factory_contract": {"change": fac2}, "new_versioning_contract": "no_change"}});
                let who = r.pick_c(&["alice".to_string(), b.factory.clone(), fac2.clone(), hs[i].registry.clone(), hs[i].factory.clone(), hs[1 - i].d.c("controller").to_string(), ent.clone(), hs[i].d.c("governance").to_string(), "fadmin".into(), "vadmin".into()]);
                let tx = b.c.execute(&who, &ent, &m, &[]);
                log.push(format!("#{} dao {i} {who} {m} -> {} {}", mon.step, tx.ok, tx.err));
                mon.ctx = log.last().unwrap().clone();
                for t in ["C26", "C08"] {
                    mon.check(t, "relocation by governance only", who.len(), !tx.ok && tx.no_effect(), || format!("accepted from {who}"));
                }
            }
            5 | 6 => {
                // an attestation comes from the DAO's release as its own registry describes it
                let text = format!("terms {}", r.below(1000));
                let tx = b.c.execute(&ctrl, &ent, &json!({"set_attestation": {"attestation_text": text}}), &[]);
                log.push(format!("#{} dao {i} attestation -> {} {}", mon.step, tx.ok, tx.err));
                mon.ctx = log.last().unwrap().clone();
                let want = regs.get(&hs[i].registry).and_then(|x| x.get(&hs[i].version)).map(|x| x.1);
                let a = components_of(&b.c, &ent).get("attestation").cloned();
                let code = a.as_ref().and_then(|a| b.c.contract_meta(a)).map(|x| x.0);
                if tx.ok {
                    let ok = code == want && a.as_ref().map_or(false, |a| tx.new_contracts.contains(a)) && tx.new_contracts.len() == 1;
                    for t in ["C26", "C16"] {
                        mon.check(t, "new attestation as the registry describes it", (hs[i].version, hs[i].registry == reg2), ok, || format!("attestation {a:?} runs code {code:?}, registry says {want:?}"));
                    }
                    if let Some(a) = &a {
                        let t = b.c.execute("alice", a, &json!({"sign_attestation": {}}), &[]);
                        mon.check("C16", "signing lifts the restriction", "home", t.ok, || t.err.clone());
                    }
                    hs[i].att = a;
                } else {
                    mon.check("C26", "attestation set when its code is known", hs[i].version, want.is_none() && a == hs[i].att, || format!("refused: {}; code {want:?}", tx.err));
                }
            }
            7 => {
                // upgrade along the DAO's own registry
                let target = r.pick_c(&[(1, 1, 0), (1, 3, 0), (1, 3, 4), (1, 5, 0), (1, 5, 1)]);
                let tx = b.c.execute(&ctrl, &ent, &json!({"upgrade_dao": {"new_version": vj(target), "migrate_msgs": []}}), &[]);
                log.push(format!("#{} dao {i} upgrade {target:?} -> {} {}", mon.step, tx.ok, tx.err));
                mon.ctx = log.last().unwrap().clone();
                let info = regs.get(&hs[i].registry).and_then(|x| x.get(&target)).cloned();
                let want = info.is_some() && target > hs[i].version;
                mon.check("C18", "upgrade accepted exactly when legitimate", ("home", target, hs[i].version, hs[i].registry == reg2), tx.ok == want, || format!("{target:?} from {:?}: ok={} {}", hs[i].version, tx.ok, tx.err));
                if tx.ok {
                    hs[i].version = target;
                    let code = b.c.contract_meta(&ent).map(|x| x.0);
                    mon.check("C18", "component code after the upgrade", ("home", target), code == info.map(|x| x.0), || format!("runs {code:?}, registry says {info:?}"));
                }
            }
            _ => {}
        }
        for (i, h) in hs.iter().enumerate() {
            let c = b.c.q(&h.d.ent, json!({"component_contracts": {}})).unwrap_or(Value::Null);
            let info = b.c.q(&h.d.ent, json!({"dao_info": {}})).unwrap_or(Value::Null);
            let ok = st(&c["enterprise_factory_contract"]) == h.factory && st(&c["enterprise_versioning_contract"]) == h.registry && jeq(&info["dao_version"], &vj(h.version)) && c["attestation_contract"].as_str() == h.att.as_deref();
            let mut comp = components_of(&b.c, &h.d.ent);
            let mut first = h.d.comp.clone();
            comp.remove("attestation");
            first.remove("attestation");
            for t in ["C26", "C27"] {
                mon.check(t, "factory and registry exactly as decided", (h.factory == b.factory, h.registry == b.versioning, i), ok && comp == first, || format!("dao {i}: {c} {info}, expected {} {} {:?} {:?}", h.factory, h.registry, h.version, h.att));
            }
            let Some(gl) = global.get(&h.factory) else { continue };
            for den in ["uglobal", "uother", "ushared", "uown", "ujunk"] {
                b.c.mint("donor", den, 30);
                let t = b.c.simulate("donor", vec![ex(h.d.c("distributor"), json!({"distribute_native": {}}), &[(den, 30)])]);
                let want = gl.contains(&den) || (den == "uown" && i == 0);
                mon.check("C15", "global whitelist is that of the DAO's factory", (den, h.factory == fac2, i), t.ok == want, || format!("dao {i} of {}: distributing {den}: {} {}", h.factory, t.ok, t.err));
            }
        }
    }
    Out { mon, log }
}
