//! Cross-chain treasuries with a simulated remote side.
use crate::chain::{CallKind, Tx};
use crate::lite::*;
use crate::model::*;
use crate::mon::{Mon, Rng};
use crate::obs::*;
use crate::proto;
use crate::run::Out;
use crate::world::*;
use bech32_no_std::ToBase32;
use cosmwasm_std::Binary;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, BTreeSet};

/// the address IBC hooks use for a remote sender (own derivation of the published rule)
pub fn derive(channel: &str, sender: &str, prefix: &str) -> String {
    let a = Sha256::digest(b"ibc-wasm-hook-intermediary");
    let mut h = Sha256::new();
    h.update(a);
    h.update(format!("{channel}/{sender}").as_bytes());
    let d: [u8; 32] = h.finalize().into();
    bech32_no_std::encode(prefix, d.to_base32()).unwrap()
}

#[derive(Clone, Debug)]
pub struct Remote {
    pub chain: String,
    pub prefix: String,
    pub src_port: String,
    pub src_channel: String,
    pub dest_port: String,
    pub dest_channel: String,
    pub denom: String,
    pub timeout: Option<u64>,
    pub global: String,
    pub proxy_code: u64,
    pub treasury_code: u64,
    pub assets: Value,
    pub nfts: Value,
    pub ready: bool,
}

impl Remote {
    pub fn new(chain: &str, n: u64) -> Remote {
        Remote {
            chain: chain.into(),
            prefix: format!("{}{}", ["pre", "o", "celestia", "secretnet"][(n % 4) as usize], (b'a' + (n % 26) as u8) as char),
            src_port: "transfer".into(),
            src_channel: format!("channel-{n}"),
            dest_port: "wasm.remote".into(),
            dest_channel: format!("channel-{}", n + 1000),
            denom: format!("ibc/LUNA{n}"),
            timeout: if n % 3 == 0 { Some(n * 7 + 5) } else { None },
            global: format!("remote1global{n}"),
            proxy_code: 5000 + n,
            treasury_code: 6000 + n,
            assets: if n % 2 == 0 { json!([{"native": format!("u{n}")}, {"cw20": format!("remote1token{n}")}]) } else { Value::Null },
            nfts: if n % 5 < 2 { json!([format!("remote1nft{n}")]) } else { Value::Null },
            ready: false,
        }
    }
    pub fn spec(&self) -> Value {
        json!({"chain_id": self.chain, "chain_bech32_prefix": self.prefix, "src_ibc_port": self.src_port, "src_ibc_channel": self.src_channel,
            "dest_ibc_port": self.dest_port, "dest_ibc_channel": self.dest_channel, "uluna_denom": self.denom, "timeout_nanos": self.timeout})
    }
    pub fn deploy_msg(&self) -> Value {
        json!({"deploy_cross_chain_treasury": {"cross_chain_msg_spec": self.spec(), "asset_whitelist": self.assets, "nft_whitelist": self.nfts,
            "ics_proxy_code_id": self.proxy_code, "enterprise_treasury_code_id": self.treasury_code, "chain_global_proxy": self.global}})
    }
    pub fn target(&self) -> Value {
        json!({"cross_chain_msg_spec": self.spec()})
    }
    pub fn order(&self, msg: Value) -> Value {
        json!({"execute_cross_chain_treasury": {"msg": msg, "treasury_target": self.target()}})
    }
    pub fn reply(id: u32, addr: &str) -> Value {
        let mut b = vec![0x0a, addr.len() as u8];
        b.extend_from_slice(addr.as_bytes());
        json!({"execute_msg_reply_callback": {"callback_id": id, "events": [], "data": Binary(b).to_base64()}})
    }
}

pub fn sent(tx: &Tx) -> Vec<Result<proto::Transfer, String>> {
    tx.live()
        .filter(|c| c.kind == CallKind::Stargate)
        .map(|c| if c.target == "/ibc.applications.transfer.v1.MsgTransfer" { proto::decode_transfer(&c.msg) } else { Err(format!("unexpected {}", c.target)) })
        .collect()
}

/// what a request on the wire must look like
pub enum Want {
    Proxy(Remote),
    Treasury(Remote, String),
    Order(Remote, String, String, Value),
}

fn unb64(v: &Value) -> Value {
    Binary::from_base64(v.as_str().unwrap_or("")).ok().and_then(|b| serde_json::from_slice(&b.0).ok()).unwrap_or(Value::Null)
}

/// compare; returns the callback id of the request
pub fn matches(t: &proto::Transfer, want: &Want, outposts: &str, now: u64) -> Result<Option<u64>, String> {
    let memo: Value = serde_json::from_str(&t.memo).map_err(|e| format!("memo: {e}"))?;
    let (r, receiver) = match want {
        Want::Proxy(r) | Want::Treasury(r, _) => (r, r.global.clone()),
        Want::Order(r, p, _, _) => (r, p.clone()),
    };
    let e = |what: &str, got: String, exp: String| if got == exp { Ok(()) } else { Err(format!("{what} is {got}, expected {exp}")) };
    e("source port", t.source_port.clone(), r.src_port.clone())?;
    e("source channel", t.source_channel.clone(), r.src_channel.clone())?;
    e("token", format!("{}{}", t.amount, t.denom), "1uluna".into())?;
    e("sender", t.sender.clone(), outposts.into())?;
    e("receiver", t.receiver.clone(), receiver.clone())?;
    e("remote contract", st(&memo["wasm"]["contract"]), receiver)?;
    e("timeout", t.timeout_timestamp.to_string(), (now + r.timeout.unwrap_or(15 * 60 * 1_000_000_000)).to_string())?;
    let ms = list(&memo["wasm"]["msg"]["execute_msgs"]["msgs"]);
    if ms.len() != 1 {
        return Err(format!("{} messages in the memo", ms.len()));
    }
    let m = &ms[0];
    let cb = &m["reply_callback"];
    match want {
        Want::Order(_, _, treasury, msg) => {
            let x = &m["msg"]["wasm"]["execute"];
            e("remote treasury", st(&x["contract_addr"]), treasury.clone())?;
            e("funds", x["funds"].to_string(), "[]".into())?;
            let got = unb64(&x["msg"]);
            if !jeq(&got, msg) {
                return Err(format!("ordered {msg}, sent {got}"));
            }
            if !cb.is_null() {
                return Err("order asks for a reply".into());
            }
            Ok(None)
        }
        Want::Proxy(r) => {
            let x = &m["msg"]["wasm"]["instantiate"];
            e("code", x["code_id"].to_string(), r.proxy_code.to_string())?;
            let i = unb64(&x["msg"]);
            e("proxy owner", st(&i["owner"]), derive(&r.dest_channel, outposts, &r.prefix))?;
            e("proxy whitelist", i["whitelist"].to_string(), "null".into())?;
            e("proxy start-up messages", i["msgs"].to_string(), "null".into())?;
            e("proxy cross-chain flag", i["allow_cross_chain_msgs"].to_string(), "true".into())?;
            e("proxy admin", x["admin"].to_string(), "null".into())?;
            callback(cb, r, outposts)
        }
        Want::Treasury(r, proxy) => {
            let x = &m["msg"]["wasm"]["instantiate"];
            e("code", x["code_id"].to_string(), r.treasury_code.to_string())?;
            let i = unb64(&x["msg"]);
            e("treasury admin", st(&i["admin"]), proxy.clone())?;
            e("treasury contract admin", st(&x["admin"]), proxy.clone())?;
            if !jeq(&i["asset_whitelist"], &r.assets) || !jeq(&i["nft_whitelist"], &r.nfts) {
                return Err(format!("whitelists {} {}", i["asset_whitelist"], i["nft_whitelist"]));
            }
            callback(cb, r, outposts)
        }
    }
}

fn callback(cb: &Value, r: &Remote, outposts: &str) -> Result<Option<u64>, String> {
    if st(&cb["ibc_port"]) != r.dest_port || st(&cb["ibc_channel"]) != r.dest_channel || st(&cb["denom"]) != r.denom || st(&cb["receiver"]) != outposts {
        return Err(format!("reply route {cb}"));
    }
    cb["callback_id"].as_u64().map(Some).ok_or_else(|| "no callback id".into())
}

enum Pend {
    Proxy,
    Treasury,
}

pub fn outposts(focus: &'static str, seed: u64, steps: usize) -> Out {
    let mut r = Rng::new(seed);
    let mut mon = Mon::new(focus);
    let mut log: Vec<String> = vec![];
    let b = base();
    b.c.mint(&b.factory, "uluna", 1000);
    let initial: Vec<Remote> = (0..r.below(3)).map(|i| Remote::new(&format!("chain-{}", ["a", "b"][i as usize]), i * 11 + 1)).collect();
    let mut req = request("lite", json!({"new_multisig": {"multisig_members": [{"user": "alice", "weight": "1"}]}}));
    if !initial.is_empty() {
        req["cross_chain_treasuries"] = json!(initial.iter().map(|x| x.deploy_msg()["deploy_cross_chain_treasury"].clone()).collect::<Vec<_>>());
    }
    let tx0 = b.c.execute("creator", &b.factory, &json!({ "create_dao": req }), &[]);
    log.push(format!("create {req} -> {} {}", tx0.ok, tx0.err));
    mon.check("C21", "initial treasuries accepted", initial.len(), tx0.ok, || format!("creation with {} remote treasuries: {}", initial.len(), tx0.err));
    if !tx0.ok {
        return Out { mon, log };
    }
    let d = Lite::of(&b, &created(&b, &tx0).unwrap_or_default(), "alice");
    let other = match Lite::new(&b, "bobby") {
        Ok(o) => o,
        Err(e) => {
            mon.fail("C20", "creation", e);
            return Out { mon, log };
        }
    };
    let o = d.c("outposts").to_string();
    b.c.mint(&o, "uluna", 1_000_000);
    let mut pend: BTreeMap<u64, (Pend, Remote)> = BTreeMap::new();
    let mut used: BTreeSet<u64> = BTreeSet::new();
    let mut spent: Vec<(u64, Remote)> = vec![];
    let mut proxies: BTreeMap<String, String> = BTreeMap::new();
    let mut treas: BTreeMap<String, String> = BTreeMap::new();
    let now0 = b.c.now().nanos();
    // requests made at creation
    {
        let s = sent(&tx0);
        mon.check("C21", "one request per initial treasury", initial.len(), s.len() == initial.len(), || format!("{} initial treasuries, {} requests", initial.len(), s.len()));
        for (x, t) in initial.iter().zip(s) {
            let res = t.and_then(|t| matches(&t, &Want::Proxy(x.clone()), &o, now0));
            mon.check("C21", "request content", ("initial", x.timeout.is_some()), res.is_ok(), || format!("initial treasury on {}: {:?}", x.chain, res));
            if let Ok(Some(id)) = res {
                mon.check("C21", "request ids are fresh", 0, used.insert(id), || format!("request id {id} used twice"));
                pend.insert(id, (Pend::Proxy, x.clone()));
            }
        }
    }
    let n = r.pick_c(&[3usize, 3, 8]);
    // chain ids differ in letter case and length, too
    let chains: Vec<String> = (0..n).map(|i| if i < 3 || i % 3 == 0 { format!("chain-{}", (b'a' + i as u8) as char) } else if i % 3 == 1 { format!("Chain-{}", (b'A' + i as u8) as char) } else { format!("{}chain-1", "x".repeat(i)) }).collect();
    let ctrl = d.c("controller").to_string();
    let mut salt = 100;
    for _ in 0..steps {
        mon.step += 1;
        if mon.silenced.contains(focus) {
            break;
        }
        b.c.advance(1, r.below(3) * 1_000_000_000 + 17);
        let now = b.c.now().nanos();
        salt += 1;
        let chain = r.pick_c(&chains);
        let rem = Remote::new(&chain, if r.chance(1, 2) { salt } else { (chains.iter().position(|x| *x == chain).unwrap() as u64) * 11 + 1 });
        let mut want: Vec<Want> = vec![];
        let (tx, must, what): (Tx, Option<bool>, String);
        match r.below(12) {
            0..=2 => {
                // deployment, through governance or by the controller directly
                let through = r.chance(1, 3);
                let refused = treas.contains_key(&chain);
                if !refused {
                    want.push(match proxies.get(&chain) {
                        Some(p) => Want::Treasury(rem.clone(), p.clone()),
                        None => Want::Proxy(rem.clone()),
                    });
                }
                let mut m = rem.deploy_msg();
                if refused && r.chance(1, 2) {
                    // naming something else does not make a second deployment acceptable
                    let alt = [proxies.get(&chain).cloned(), treas.get(&chain).cloned(), Some("remote1elsewhere".to_string())];
                    if let Some(x) = r.pick_c(&alt) {
                        m["deploy_cross_chain_treasury"]["chain_global_proxy"] = json!(x);
                    }
                }
                what = format!("deploy through_governance={through} {m}");
                if through {
                    let act = json!([{"deploy_cross_chain_treasury": m["deploy_cross_chain_treasury"]}]);
                    match d.govern(&b, act) {
                        Ok(t) => {
                            tx = t;
                            // a failing action leaves the proposal unexecuted or marks the failure; either way nothing is sent
                            must = if refused { None } else { Some(true) };
                        }
                        Err(e) => {
                            mon.fail("C21", "remote deployment can be proposed", e);
                            break;
                        }
                    }
                } else {
                    tx = b.c.execute(&ctrl, &o, &m, &[]);
                    must = Some(!refused);
                }
            }
            3 => {
                // hostile
                let who = r.pick_c(&["mallory".to_string(), "alice".into(), other.c("controller").into(), other.c("outposts").into(), d.c("enterprise").into(), d.c("treasury").into(), b.factory.clone(), o.clone()]);
                let m = if r.chance(1, 2) { rem.deploy_msg() } else { rem.order(json!({"spend": {"recipient": "x", "assets": []}})) };
                what = format!("hostile {who} {m}");
                tx = b.c.execute(&who, &o, &m, &[]);
                must = Some(false);
            }
            4..=8 => {
                // replies
                let ids: Vec<u64> = pend.keys().copied().collect();
                let kind = r.below(10);
                if ids.is_empty() || kind == 0 {
                    // unknown or already answered request
                    let (id, snd) = if let (true, Some(x)) = (r.chance(2, 3), spent.last()) {
                        (x.0, derive(&x.1.src_channel, &x.1.global, "terra"))
                    } else {
                        (r.range(400, 500), "mallory".into())
                    };
                    let m = Remote::reply(id as u32, "remote1forged");
                    what = format!("reply to spent/unknown {snd} {m}");
                    tx = b.c.execute(&snd, &o, &m, &[]);
                    must = Some(false);
                } else {
                    let id = r.pick_c(&ids);
                    let (_, pr) = &pend[&id];
                    let pr = pr.clone();
                    let good = derive(&pr.src_channel, &pr.global, "terra");
                    let addr = format!("remote1c{salt}");
                    match kind {
                        1..=3 => {
                            let snd = match r.below(7) {
                                0 => "mallory".to_string(),
                                1 => derive(&pr.dest_channel, &pr.global, "terra"),
                                2 => derive(&pr.src_channel, "remote1other", "terra"),
                                3 => derive(&pr.src_channel, &pr.global, "osmo"),
                                4 => pr.global.clone(),
                                5 => ctrl.clone(),
                                _ => {
                                    let other_id = r.pick_c(&ids);
                                    let q = &pend[&other_id].1;
                                    derive(&q.src_channel, &q.global, "terra")
                                }
                            };
                            if snd == good {
                                continue;
                            }
                            let m = Remote::reply(id as u32, &addr);
                            what = format!("forged reply {snd} {m}");
                            tx = b.c.execute(&snd, &o, &m, &[]);
                            must = Some(false);
                        }
                        4 => {
                            let m = json!({"execute_msg_reply_callback": {"callback_id": id, "events": [], "data": if r.chance(1, 2) { Value::Null } else { json!("Cg==") }}});
                            what = format!("reply without an address {m}");
                            tx = b.c.execute(&good, &o, &m, &[]);
                            must = Some(false);
                        }
                        _ => {
                            let m = Remote::reply(id as u32, &addr);
                            what = format!("genuine reply {good} {m}");
                            tx = b.c.execute(&good, &o, &m, &[]);
                            let isproxy = matches!(pend[&id].0, Pend::Proxy);
                            let taken = if isproxy { proxies.contains_key(&pr.chain) } else { treas.contains_key(&pr.chain) };
                            must = Some(!taken);
                            if !taken && tx.ok {
                                if isproxy {
                                    proxies.insert(pr.chain.clone(), addr.clone());
                                    want.push(Want::Treasury(pr.clone(), addr));
                                } else {
                                    treas.insert(pr.chain.clone(), addr);
                                }
                                pend.remove(&id);
                                spent.push((id, pr));
                            }
                        }
                    }
                }
            }
            _ => {
                // orders to a remote treasury through governance
                let (act, msg) = match r.below(4) {
                    0 => {
                        let a = json!([{"info": {"native": "uremote"}, "amount": "5"}, {"info": {"cw20": "REMOTE1Odd"}, "amount": salt.to_string()}]);
                        (json!({"request_funding_from_dao": {"remote_treasury_target": rem.target(), "recipient": format!("remote1x{salt}"), "assets": a}}), json!({"spend": {"recipient": format!("remote1x{salt}"), "assets": a}}))
                    }
                    1 => {
                        let (x, y) = (json!([{"native": format!("u{salt}")}]), json!([{"cw20": "remote1t"}]));
                        (json!({"update_asset_whitelist": {"remote_treasury_target": rem.target(), "add": x, "remove": y}}), json!({"update_asset_whitelist": {"add": x, "remove": y}}))
                    }
                    2 => {
                        let (x, y) = (json!([format!("remote1n{salt}")]), json!(["remote1old"]));
                        (json!({"update_nft_whitelist": {"remote_treasury_target": rem.target(), "add": x, "remove": y}}), json!({"update_nft_whitelist": {"add": x, "remove": y}}))
                    }
                    _ => {
                        let x = json!([serde_json::to_string(&ex("someone", json!({"ping": salt}), &[])).unwrap()]);
                        (json!({"execute_treasury_msgs": {"action_type": "x", "msgs": x, "remote_treasury_target": rem.target()}}), json!({"execute_cosmos_msgs": {"msgs": x}}))
                    }
                };
                let known = proxies.get(&chain).zip(treas.get(&chain)).map(|(a, b)| (a.clone(), b.clone()));
                if r.chance(1, 2) {
                    what = format!("order by proposal {act}");
                    match d.govern(&b, json!([act])) {
                        Ok(t) => tx = t,
                        Err(e) => {
                            mon.fail("C21", "remote order can be proposed", e);
                            break;
                        }
                    }
                    must = if known.is_some() { Some(true) } else { None };
                } else {
                    what = format!("order by controller {msg}");
                    tx = b.c.execute(&ctrl, &o, &rem.order(msg.clone()), &[]);
                    must = Some(known.is_some());
                }
                if let Some((p, t)) = known {
                    want.push(Want::Order(rem.clone(), p, t, msg));
                }
            }
        }
        log.push(format!("#{} {now} {what} -> {} {}", mon.step, tx.ok, tx.err));
        mon.ctx = log.last().unwrap().chars().take(600).collect();
        let op = what.split(' ').take(2).collect::<Vec<_>>().join(" ");
        let situation = (op.clone(), proxies.len().min(3), treas.len().min(3), pend.len().min(3));
        if let Some(m) = must {
            mon.check("C21", "accepted exactly when legitimate", (&situation, m), tx.ok == m, || format!("{what}: ok={} {} expected {m}", tx.ok, tx.err));
            if !m {
                mon.check("C21", "refusal has no effect", &op, tx.no_effect(), || format!("{what} left changes"));
            }
        }
        let s = sent(&tx);
        mon.check("C21", "number of remote requests", (&op, want.len()), s.len() == want.len() || tx.ok != must.unwrap_or(tx.ok), || format!("{what}: {} requests sent, expected {}", s.len(), want.len()));
        for (x, t) in want.iter().zip(s) {
            let res = t.and_then(|t| matches(&t, x, &o, now));
            let k = match x {
                Want::Proxy(_) => 0,
                Want::Treasury(..) => 1,
                Want::Order(..) => 2,
            };
            mon.check("C21", "request content", (k, rem.timeout.is_some(), rem.assets.is_null(), rem.nfts.is_null(), &op), res.is_ok(), || format!("{what}: {:?}", res));
            if let Ok(Some(id)) = res {
                mon.check("C21", "request ids are fresh", used.len().min(5), used.insert(id), || format!("request id {id} used twice"));
                let r2 = match x {
                    Want::Proxy(r) => (Pend::Proxy, r.clone()),
                    Want::Treasury(r, _) => (Pend::Treasury, r.clone()),
                    _ => continue,
                };
                pend.insert(id, r2);
            }
        }
        // registry of deployments
        for ch in &chains {
            let q = b.c.q(&o, json!({"cross_chain_deployments": {"chain_id": ch}})).unwrap_or(Value::Null);
            let got = (q["proxy_addr"].as_str().map(String::from), q["treasury_addr"].as_str().map(String::from));
            let exp = (proxies.get(ch).cloned(), treas.get(ch).cloned());
            mon.check("C21", "one proxy and treasury per chain, set by the genuine reply", (exp.0.is_some(), exp.1.is_some(), &op), got == exp && st(&q["chain_id"]) == *ch, || {
                format!("after {what}: {ch} reports {got:?}, expected {exp:?}")
            });
            let q2 = b.c.q(other.c("outposts"), json!({"cross_chain_deployments": {"chain_id": ch}})).unwrap_or(Value::Null);
            mon.check("C27", "remote treasuries of another DAO untouched", &op, q2["proxy_addr"].is_null() && q2["treasury_addr"].is_null(), || format!("{q2}"));
        }
        let lim = r.pick_c(&[None, Some(1), Some(2), Some(7), Some(100), Some(1000)]);
        let l = walk(&b.c, &o, "cross_chain_treasuries", &json!({}), "treasuries", lim, &|v| v["chain_id"].clone());
        let exp: Vec<(String, String)> = treas.clone().into_iter().collect();
        let got: Vec<(String, String)> = l.clone().unwrap_or_default().iter().map(|v| (st(&v["chain_id"]), st(&v["treasury_addr"]))).collect();
        for t in ["C21", "C25"] {
            mon.check(t, "listing of remote treasuries", (lim, exp.len()), got == exp, || format!("listed {l:?}, expected {exp:?}"));
        }
    }
    let _ = ONE;
    Out { mon, log }
}
