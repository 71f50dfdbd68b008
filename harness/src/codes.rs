//! Code registry: every contract of the repository behind wire-level entry points, plus the
//! third-party contracts it talks to (cw20-base, cw721-base) and instrumented stand-ins.
use crate::chain::{Code, Chain};
use cosmwasm_std::{
    from_json, to_json_binary, Binary, CosmosMsg, Deps, DepsMut, Empty, Env, MessageInfo, Reply,
    Response,
};
use serde_json::{json, Value};

macro_rules! base {
    ($name:expr, $krate:ident, $reply:expr, $migrate:expr) => {{
        fn instantiate(deps: DepsMut, env: Env, info: MessageInfo, msg: &[u8]) -> Result<Response, String> {
            let m = from_json(msg).map_err(|e| e.to_string())?;
            $krate::contract::instantiate(deps, env, info, m).map_err(|e| e.to_string())
        }
        fn execute(deps: DepsMut, env: Env, info: MessageInfo, msg: &[u8]) -> Result<Response, String> {
            let m = from_json(msg).map_err(|e| e.to_string())?;
            $krate::contract::execute(deps, env, info, m).map_err(|e| e.to_string())
        }
        fn query(deps: Deps, env: Env, msg: &[u8]) -> Result<Binary, String> {
            let m = from_json(msg).map_err(|e| e.to_string())?;
            $krate::contract::query(deps, env, m).map_err(|e| e.to_string())
        }
        Code {
            name: $name,
            instantiate,
            execute,
            query,
            reply: $reply,
            migrate: $migrate,
        }
    }};
}

macro_rules! contract {
    ($name:expr, $krate:ident) => {{
        fn reply(deps: DepsMut, env: Env, msg: Reply) -> Result<Response, String> {
            $krate::contract::reply(deps, env, msg).map_err(|e| e.to_string())
        }
        fn migrate(deps: DepsMut, env: Env, msg: &[u8]) -> Result<Response, String> {
            let m = from_json(msg).map_err(|e| e.to_string())?;
            $krate::contract::migrate(deps, env, m).map_err(|e| e.to_string())
        }
        base!($name, $krate, Some(reply), Some(migrate))
    }};
}
macro_rules! contract_nomigrate {
    ($name:expr, $krate:ident) => {{
        fn reply(deps: DepsMut, env: Env, msg: Reply) -> Result<Response, String> {
            $krate::contract::reply(deps, env, msg).map_err(|e| e.to_string())
        }
        base!($name, $krate, Some(reply), None)
    }};
}

pub fn cw20() -> Code {
    base!("cw20", cw20_base, None, None)
}

pub fn cw721() -> Code {
    use cw721_base::{Cw721Contract, ExecuteMsg, Extension, QueryMsg};
    type C<'a> = Cw721Contract<'a, Extension, Empty, Empty, Empty>;
    fn instantiate(deps: DepsMut, env: Env, info: MessageInfo, msg: &[u8]) -> Result<Response, String> {
        let m = from_json(msg).map_err(|e| e.to_string())?;
        C::default().instantiate(deps, env, info, m).map_err(|e| e.to_string())
    }
    fn execute(deps: DepsMut, env: Env, info: MessageInfo, msg: &[u8]) -> Result<Response, String> {
        let m: ExecuteMsg<Extension, Empty> = from_json(msg).map_err(|e| e.to_string())?;
        C::default().execute(deps, env, info, m).map_err(|e| e.to_string())
    }
    fn query(deps: Deps, env: Env, msg: &[u8]) -> Result<Binary, String> {
        let m: QueryMsg<Empty> = from_json(msg).map_err(|e| e.to_string())?;
        C::default().query(deps, env, m).map_err(|e| e.to_string())
    }
    Code {
        name: "cw721",
        instantiate,
        execute,
        query,
        reply: None,
        migrate: None,
    }
}

// ---- stand-ins ---------------------------------------------------------------------------------

fn jget(deps: &Deps, key: &[u8]) -> Value {
    deps.storage
        .get(key)
        .and_then(|b| serde_json::from_slice(&b).ok())
        .unwrap_or(Value::Null)
}
fn jbin(v: &Value) -> Binary {
    Binary(serde_json::to_vec(v).unwrap())
}

/// Records every call; `fail` fails; `forward` emits messages as itself; `set` stores a value that
/// queries return under the same top-level key.
fn recorder() -> Code {
    fn instantiate(_d: DepsMut, _e: Env, _i: MessageInfo, _m: &[u8]) -> Result<Response, String> {
        Ok(Response::new())
    }
    fn execute(deps: DepsMut, _env: Env, info: MessageInfo, msg: &[u8]) -> Result<Response, String> {
        let m: Value = serde_json::from_slice(msg).map_err(|e| e.to_string())?;
        if m.get("fail").is_some() {
            return Err("recorder asked to fail".to_string());
        }
        if let Some(s) = m.get("set") {
            for (k, v) in s.as_object().ok_or("set")? {
                deps.storage.set(format!("q:{k}").as_bytes(), &serde_json::to_vec(v).unwrap());
            }
            return Ok(Response::new());
        }
        let mut log = match jget(&deps.as_ref(), b"log") {
            Value::Array(a) => a,
            _ => vec![],
        };
        log.push(json!({"sender": info.sender, "msg": m, "funds": info.funds}));
        deps.storage.set(b"log", &serde_json::to_vec(&log).unwrap());
        let mut r = Response::new();
        if let Some(f) = m.get("forward") {
            let msgs: Vec<CosmosMsg> = serde_json::from_value(f.clone()).map_err(|e| e.to_string())?;
            r = r.add_messages(msgs);
        }
        Ok(r)
    }
    fn query(deps: Deps, _env: Env, msg: &[u8]) -> Result<Binary, String> {
        let m: Value = serde_json::from_slice(msg).map_err(|e| e.to_string())?;
        if m.get("log").is_some() {
            let l = jget(&deps, b"log");
            return Ok(jbin(&if l.is_null() { json!([]) } else { l }));
        }
        let k = m
            .as_object()
            .and_then(|o| o.keys().next().cloned())
            .ok_or("bad query")?;
        // cw3-like voter lists: page as cw3 contracts do (default 10, cap 30)
        if k == "list_voters" {
            let all = jget(&deps, b"q:voters");
            let after = m[&k]["start_after"].as_str().map(|s| s.to_string());
            let limit = m[&k]["limit"].as_u64().unwrap_or(10).min(30) as usize;
            let v: Vec<Value> = all
                .as_array()
                .cloned()
                .unwrap_or_default()
                .into_iter()
                .filter(|x| after.as_ref().map_or(true, |a| x["addr"].as_str().unwrap() > a.as_str()))
                .take(limit)
                .collect();
            return Ok(jbin(&json!({ "voters": v })));
        }
        if k == "nft_contract" {
            let all = jget(&deps, b"q:classes");
            let c = m[&k]["class_id"].as_str().unwrap_or("").to_string();
            return Ok(jbin(&all.get(&c).cloned().unwrap_or(Value::Null)));
        }
        if let Value::Array(all) = jget(&deps, b"q:answers") {
            return match all.iter().find(|x| crate::world::jeq(&x[0], &m)) {
                Some(x) => Ok(jbin(&x[1])),
                None => Err(format!("no answer for {m}")),
            };
        }
        match deps.storage.get(format!("q:{k}").as_bytes()) {
            Some(b) => Ok(Binary(b)),
            None => Err(format!("no answer for {k}")),
        }
    }
    Code {
        name: "recorder",
        instantiate,
        execute,
        query,
        reply: None,
        migrate: Some(|_d, _e, _m| Ok(Response::new())),
    }
}

/// The real enterprise contract, except that migrating *to* this code only records the message
/// (or fails when the message says so): an intermediate release.
fn enterprise_step() -> Code {
    fn migrate(deps: DepsMut, _env: Env, msg: &[u8]) -> Result<Response, String> {
        let m: Value = serde_json::from_slice(msg).map_err(|e| e.to_string())?;
        if m.get("fail").is_some() {
            return Err("migration asked to fail".into());
        }
        let mut n = 0u64;
        while deps.storage.get(format!("\u{0}step{n}").as_bytes()).is_some() {
            n += 1;
        }
        deps.storage.set(format!("\u{0}step{n}").as_bytes(), msg);
        Ok(Response::new())
    }
    Code {
        name: "enterprise-step",
        migrate: Some(migrate),
        ..contract!("enterprise", enterprise)
    }
}

/// A contract of an older release: its state is given entry by entry, and it only waits for migration.
fn legacy() -> Code {
    fn instantiate(deps: DepsMut, _e: Env, _i: MessageInfo, m: &[u8]) -> Result<Response, String> {
        let m: Vec<(Binary, Binary)> = from_json(m).map_err(|e| e.to_string())?;
        for (k, v) in m {
            deps.storage.set(&k, &v);
        }
        Ok(Response::new())
    }
    fn execute(_d: DepsMut, _e: Env, _i: MessageInfo, _m: &[u8]) -> Result<Response, String> {
        Ok(Response::new())
    }
    fn query(_d: Deps, _e: Env, _m: &[u8]) -> Result<Binary, String> {
        Err("older release".into())
    }
    Code { name: "legacy", instantiate, execute, query, reply: None, migrate: None }
}

#[derive(Clone, Debug)]
pub struct Codes {
    pub attestation: u64,
    pub denom: u64,
    pub enterprise: u64,
    pub enterprise2: u64,
    pub step: u64,
    pub step2: u64,
    pub facade: u64,
    pub facade_v1: u64,
    pub facade_v2: u64,
    pub factory: u64,
    pub governance: u64,
    pub controller: u64,
    pub outposts: u64,
    pub treasury: u64,
    pub versioning: u64,
    pub distributor: u64,
    pub ics721_proxy: u64,
    pub multisig: u64,
    pub nft: u64,
    pub token: u64,
    pub cw20: u64,
    pub cw721: u64,
    pub recorder: u64,
    pub legacy: u64,
    // second copies of the component codes, registered by later releases
    pub attestation2: u64,
    pub denom2: u64,
    pub outposts2: u64,
    pub distributor2: u64,
    pub multisig2: u64,
    pub nft2: u64,
    pub token2: u64,
}

pub fn store_all(c: &Chain) -> Codes {
    let s = |x: Code| c.store_code(x);
    // burn a few ids so that code ids and other small numbers rarely coincide
    for _ in 0..20 {
        s(recorder());
    }
    Codes {
        attestation: s(contract!("attestation", attestation)),
        denom: s(contract!("denom-staking-membership", denom_staking_membership)),
        enterprise: s(contract!("enterprise", enterprise)),
        enterprise2: s(contract!("enterprise", enterprise)),
        step: s(enterprise_step()),
        step2: s(enterprise_step()),
        facade: s(contract!("enterprise-facade", enterprise_facade)),
        facade_v1: s(contract_nomigrate!("enterprise-facade-v1", enterprise_facade_v1)),
        facade_v2: s(contract_nomigrate!("enterprise-facade-v2", enterprise_facade_v2)),
        factory: s(contract!("enterprise-factory", enterprise_factory)),
        governance: s(contract!("enterprise-governance", enterprise_governance)),
        controller: s(contract!("enterprise-governance-controller", enterprise_governance_controller)),
        outposts: s(contract!("enterprise-outposts", enterprise_outposts)),
        treasury: s(contract!("enterprise-treasury", enterprise_treasury)),
        versioning: s(contract!("enterprise-versioning", enterprise_versioning)),
        distributor: s(contract!("funds-distributor", funds_distributor)),
        ics721_proxy: s(contract!("ics721-callback-proxy", ics721_callback_proxy)),
        multisig: s(contract!("multisig-membership", multisig_membership)),
        nft: s(contract!("nft-staking-membership", nft_staking_membership)),
        token: s(contract!("token-staking-membership", token_staking_membership)),
        cw20: s(cw20()),
        cw721: s(cw721()),
        recorder: s(recorder()),
        attestation2: s(contract!("attestation", attestation)),
        denom2: s(contract!("denom-staking-membership", denom_staking_membership)),
        outposts2: s(contract!("enterprise-outposts", enterprise_outposts)),
        distributor2: s(contract!("funds-distributor", funds_distributor)),
        multisig2: s(contract!("multisig-membership", multisig_membership)),
        nft2: s(contract!("nft-staking-membership", nft_staking_membership)),
        token2: s(contract!("token-staking-membership", token_staking_membership)),
        legacy: s(legacy()),
    }
}

#[allow(dead_code)]
pub fn keep(v: &Value) -> Binary {
    to_json_binary(v).unwrap()
}
