//! DAO creation: every membership kind, valid and invalid requests, faults in between.
use crate::lite::*;
use crate::model::*;
use crate::mon::{Mon, Rng};
use crate::obs::*;
use crate::run::Out;
use crate::scen_ibc::{matches, sent, Remote, Want};
use crate::workload::{rand_council, rand_gov, rand_unlocking};
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

type V = (u64, u64, u64);
fn vj(v: V) -> Value {
    json!({"major": v.0, "minor": v.1, "patch": v.2})
}

const PEOPLE: [&str; 10] = ["alice", "bobby", "carol", "david", "erin", "frank", "gracie", "heidi", "ivan", "judy"];
const VARIANTS: [&str; 8] = ["new_denom", "import_cw20", "new_cw20", "import_cw721", "new_cw721", "new_ics721", "import_cw3", "new_multisig"];

struct F {
    b: Base,
    r: Rng,
    mon: Mon,
    log: Vec<String>,
    /// registered versions: second code set, main contract code
    versions: BTreeMap<V, (bool, u64)>,
    cw20: String,
    cw20_live: Vec<String>,
    cw20_mintable: Vec<String>,
    cw20_dead: Vec<String>,
    cw721: String,
    cw3: Vec<(String, Vec<(String, u128)>)>,
    cw3_zero: String,
    bridge: String,
    junk: String,
    /// treasuries of the DAOs created so far, in order
    daos: Vec<String>,
    ents: Vec<String>,
    cfg: (u64, u64),
    remotes: u64,
    n: u64,
}

fn kind_of(v: &str) -> Kind {
    match v {
        "new_denom" => Kind::Denom,
        "import_cw20" | "new_cw20" => Kind::Token,
        "import_cw721" | "new_cw721" | "new_ics721" => Kind::Nft,
        _ => Kind::Multisig,
    }
}

fn q(f: &F, a: &str, m: Value) -> Value {
    f.b.c.q(a, m).unwrap_or(Value::Null)
}

impl F {
    fn users(&mut self, max: usize) -> Vec<String> {
        let n = self.r.idx(max) + 1;
        let mut l: Vec<String> = vec![];
        for _ in 0..n {
            let u = self.r.pick_c(&PEOPLE).to_string();
            if !l.contains(&u) {
                l.push(u);
            }
        }
        l
    }
    fn amount(&mut self) -> u128 {
        match self.r.below(6) {
            0 => 1,
            1 => self.r.range(1, 9) as u128,
            2 => 1_000_000,
            3 => (self.r.next() as u128) + 1,
            _ => self.r.range(1, 100_000) as u128,
        }
    }

    /// a request that must be accepted
    fn valid(&mut self) -> (Value, &'static str) {
        self.n += 1;
        let var = self.r.pick_c(&VARIANTS);
        let kind = kind_of(var);
        let mut g = rand_gov(&mut self.r, kind, 3);
        if self.r.chance(1, 3) {
            // easy to steer
            g.quorum = 1;
            g.threshold = ONE / 2;
        }
        let ul = dur_json(&rand_unlocking(&mut self.r, g.duration));
        let n = self.n;
        let mem = match var {
            "new_denom" => json!({"denom": self.r.pick_c(&["ustake", "uother", "factory/xyz/coin"]), "unlocking_period": ul}),
            "import_cw20" => {
                let t = match self.r.below(4) {
                    0 => self.r.pick_c(&self.cw20_mintable.clone()),
                    1 => self.r.pick_c(&self.cw20_live.clone()),
                    _ => self.cw20.clone(),
                };
                json!({"cw20_contract": t, "unlocking_period": ul})
            }
            "new_cw20" => {
                let minter = self.r.pick_c(&["minty".to_string(), "minty".into(), "alice".into(), self.b.factory.clone(), self.junk.clone()]);
                let mut mint = match self.r.below(3) {
                    0 => Value::Null,
                    1 => json!({"minter": minter, "cap": null}),
                    _ => json!({"minter": minter, "cap": "340282366920938463463374607431768211455"}),
                };
                let mut bal: Vec<Value> = vec![];
                for u in self.users(5) {
                    bal.push(json!({"address": u, "amount": self.amount().to_string()}));
                }
                if !mint.is_null() && self.r.chance(1, 3) {
                    bal.clear();
                }
                let own = if self.r.chance(1, 2) { json!(self.amount().to_string()) } else { Value::Null };
                if !mint.is_null() && !mint["cap"].is_null() && self.r.chance(1, 2) {
                    // capped at exactly what exists from the start (nothing, even)
                    mint["cap"] = json!((bal.iter().map(|x| uint(&x["amount"])).sum::<u128>() + uint(&own)).to_string());
                }
                let marketing = match self.r.below(3) {
                    0 => Value::Null,
                    1 => json!({"project": format!("project {n}"), "description": null, "marketing_owner": "marko", "logo_url": "http://logo"}),
                    _ => json!({"project": null, "description": format!("about {n}"), "marketing_owner": null, "logo_url": null}),
                };
                json!({"token_name": format!("Token {n}"), "token_symbol": self.r.pick_c(&["TKN", "ABCDEF", "X-Y"]), "token_decimals": self.r.below(19), "initial_token_balances": bal,
                    "initial_dao_balance": own,
                    "token_mint": mint, "token_marketing": marketing, "unlocking_period": ul})
            }
            "import_cw721" => json!({"cw721_contract": self.cw721, "unlocking_period": ul}),
            "new_cw721" => json!({"nft_name": format!("Art {n}"), "nft_symbol": "ART", "minter": if self.r.chance(2, 3) { json!("minty") } else { Value::Null }, "unlocking_period": ul}),
            "new_ics721" => json!({"ics721_proxy": self.bridge, "class_id": format!("class{n}"), "unlocking_period": ul}),
            "import_cw3" => {
                let i = self.r.idx(self.cw3.len());
                json!({"cw3_contract": self.cw3[i].0})
            }
            _ => {
                let mut ms: Vec<Value> = vec![];
                if self.r.chance(1, 5) {
                    for i in 0..self.r.pick_c(&[29u64, 31, 101, 120]) {
                        ms.push(json!({"user": format!("member{i:03}"), "weight": self.amount().to_string()}));
                    }
                } else {
                    for u in self.users(6) {
                        ms.push(json!({"user": u, "weight": self.amount().to_string()}));
                    }
                }
                json!({ "multisig_members": ms })
            }
        };
        let council = if self.r.chance(1, 2) {
            let u: Vec<String> = PEOPLE.iter().map(|s| s.to_string()).collect();
            rand_council(&mut self.r, &u)
        } else {
            Value::Null
        };
        let mut wl = vec![];
        for x in [json!({"native": "ustake"}), json!({"native": "ureward"}), json!({"cw20": self.cw20}), json!({"cw20": self.junk})] {
            if self.r.chance(1, 2) {
                wl.push(x);
            }
        }
        if self.r.chance(1, 6) {
            for i in 0..self.r.pick_c(&[30u64, 31, 99, 101, 140]) {
                wl.push(json!({"native": format!("coin{i:03}")}));
            }
        }
        let mut nwl: Vec<String> = if self.r.chance(1, 2) { vec![self.cw721.clone()] } else { vec![] };
        if self.r.chance(1, 6) {
            for i in 0..self.r.pick_c(&[4u64, 9, 30, 31, 99, 101, 140]) {
                nwl.push(format!("nfts{i:03}"));
            }
        }
        let cct = if self.r.chance(1, 5) {
            let k = self.r.range(1, 3);
            let mut l = vec![];
            for _ in 0..k {
                self.remotes += 1;
                let rem = Remote::new(&format!("chain-{}", self.remotes), self.remotes);
                l.push(rem.deploy_msg()["deploy_cross_chain_treasury"].clone());
            }
            json!(l)
        } else if self.r.chance(1, 4) {
            json!([])
        } else {
            Value::Null
        };
        let mut md = metadata(&format!("dao {n}"));
        if self.r.chance(1, 2) {
            md["description"] = Value::Null;
            md["logo"] = json!({"url": "http://x"});
            md["socials"]["github_username"] = json!("gh");
            md["socials"]["discord_username"] = json!("dc");
        }
        let msg = json!({
            "dao_metadata": md, "gov_config": gov_json(&g), "dao_council": council, "dao_membership": {var: mem},
            "asset_whitelist": if wl.is_empty() && self.r.chance(1, 2) { Value::Null } else { json!(wl) },
            "nft_whitelist": if nwl.is_empty() && self.r.chance(1, 2) { Value::Null } else { json!(nwl) },
            "minimum_weight_for_rewards": if self.r.chance(1, 2) { json!(self.r.pick_c(&[0u64, 1, 5, 1000]).to_string()) } else { Value::Null },
            "cross_chain_treasuries": cct,
            "attestation_text": if self.r.chance(1, 4) { json!(format!("terms {n}")) } else { Value::Null },
        });
        (msg, var)
    }

    /// turn a valid request into one that must be refused
    fn spoil(&mut self, m: &mut Value, var: &str) -> String {
        let kind = kind_of(var);
        for _ in 0..200 {
            match self.r.below(24) {
                0 => m["gov_config"]["quorum"] = json!("0"),
                1 => m["gov_config"]["quorum"] = json!("1.000000000000000001"),
                2 => m["gov_config"]["threshold"] = json!(self.r.pick_c(&["0", "1.01", "2"])),
                3 => m["gov_config"]["veto_threshold"] = json!(self.r.pick_c(&["0", "1.000000000000000001"])),
                4 => m["gov_config"]["vote_duration"] = json!(0),
                5 if kind == Kind::Multisig => m["gov_config"]["minimum_deposit"] = json!("1"),
                6 if kind != Kind::Multisig => {
                    let d = m["gov_config"]["vote_duration"].as_u64().unwrap();
                    let t = if self.r.chance(1, 2) { d - 1 } else { self.r.below(d) };
                    m["dao_membership"][var]["unlocking_period"] = json!({ "time": t });
                }
                7 if var == "new_multisig" => m["dao_membership"][var]["multisig_members"] = json!([]),
                8 if var == "new_multisig" => {
                    let x = m["dao_membership"][var]["multisig_members"][0].clone();
                    m["dao_membership"][var]["multisig_members"].as_array_mut().unwrap().push(x);
                }
                9 if var == "import_cw3" => m["dao_membership"][var]["cw3_contract"] = json!(self.cw3_zero),
                10 if var == "import_cw3" => m["dao_membership"][var]["cw3_contract"] = json!(self.cw721),
                11 if var == "new_cw20" => m["dao_membership"][var]["initial_dao_balance"] = json!("0"),
                12 if var == "new_cw20" => {
                    let l = m["dao_membership"][var]["initial_token_balances"].as_array_mut().unwrap();
                    l.push(json!({"address": "zed", "amount": "0"}));
                }
                13 if var == "new_cw20" => {
                    m["dao_membership"][var]["initial_token_balances"] = json!([]);
                    m["dao_membership"][var]["token_mint"] = Value::Null;
                }
                14 if var == "import_cw20" => m["dao_membership"][var]["cw20_contract"] = json!(self.r.pick_c(&self.cw20_dead.clone())),
                15 if var == "import_cw20" => m["dao_membership"][var]["cw20_contract"] = json!(self.r.pick_c(&[self.cw721.clone(), self.junk.clone(), "nobody".into()])),
                16 if var == "import_cw721" => m["dao_membership"][var]["cw721_contract"] = json!(self.r.pick_c(&[self.cw20.clone(), self.junk.clone(), "nobody".into()])),
                17 => m["dao_council"] = json!({"members": ["alice", "bobby", "alice"], "quorum": "0.5", "threshold": "0.5", "allowed_proposal_action_types": null}),
                18 => m["dao_council"] = json!({"members": ["alice"], "quorum": self.r.pick_c(&["0", "1.5"]), "threshold": "0.5", "allowed_proposal_action_types": null}),
                19 => m["dao_council"] = json!({"members": ["alice"], "quorum": "0.5", "threshold": self.r.pick_c(&["0", "1.5"]), "allowed_proposal_action_types": null}),
                20 => {
                    let t = self.r.pick_c(&["update_gov_config", "update_council", "request_funding_from_dao", "execute_msgs", "execute_treasury_msgs", "execute_enterprise_msgs", "modify_multisig_membership", "distribute_funds", "update_minimum_weight_for_rewards"]);
                    m["dao_council"] = json!({"members": ["alice"], "quorum": "0.5", "threshold": "0.5", "allowed_proposal_action_types": ["upgrade_dao", t]})
                }
                22 => m["asset_whitelist"] = json!([{"cw20": "A!"}]),
                23 if var == "new_multisig" => {
                    let l = m["dao_membership"][var]["multisig_members"].as_array_mut().unwrap();
                    l.push(json!({"user": "x", "weight": "3"}));
                }
                _ => continue,
            }
            return "spoiled".into();
        }
        m["gov_config"]["quorum"] = json!("0");
        "spoiled".into()
    }

    fn check(&mut self, kind: &str, cov: &str, ok: bool, msg: impl FnOnce() -> String) {
        self.mon.check("C20", kind, cov, ok, msg);
    }

    fn listings(&mut self) {
        let lim = self.r.pick_c(&[None, Some(1u64), Some(2), Some(7), Some(100), Some(5000)]);
        let l = walk(&self.b.c, &self.b.factory, "all_daos", &json!({}), "daos", lim, &|x| x["dao_id"].clone());
        let exp: Vec<(String, String)> = self.daos.iter().enumerate().map(|(i, a)| ((i + 1).to_string(), a.clone())).collect();
        let got: Result<Vec<(String, String)>, String> = l.map(|l| l.iter().map(|x| (st(&x["dao_id"]), st(&x["dao_address"]))).collect());
        let ok = got.as_ref().ok() == Some(&exp);
        for t in ["C20", "C25"] {
            self.mon.check(t, "all DAOs listed under consecutive ids", (lim, exp.len().min(60)), ok, || format!("limit {lim:?}: {got:?}, expected {exp:?}"));
        }
        let from = self.r.below(self.daos.len() as u64 + 3);
        let got: Vec<String> = list(&q(self, &self.b.factory.clone(), json!({"all_daos": {"start_after": from.to_string(), "limit": 3}}))["daos"]).iter().map(|x| st(&x["dao_address"])).collect();
        let exp: Vec<String> = self.daos.iter().skip(from as usize).take(3).cloned().collect();
        for t in ["C20", "C25"] {
            self.mon.check(t, "DAO listing from any id", exp.len(), got == exp, || format!("after {from}: {got:?}, expected {exp:?}"));
        }
        let t = self.b.codes.treasury;
        for code in [t, self.b.codes.enterprise, self.b.codes.token, 999] {
            let r = q(self, &self.b.factory.clone(), json!({"is_enterprise_code_id": {"code_id": code.to_string()}}));
            self.mon.check("C20", "code recognition", code == t, r["is_enterprise_code_id"].as_bool() == Some(code == t), || format!("code {code}: {r}"));
        }
    }

    fn verify(&mut self, m: &Value, var: &str, v: V, tx: &crate::chain::Tx) -> Option<Lite> {
        let (k, kind) = (var, kind_of(var));
        let Some(ent) = created(&self.b, tx) else {
            self.check("a DAO appears", k, false, || "no main contract".into());
            return None;
        };
        let comp = components_of(&self.b.c, &ent);
        let g = |x: &str| comp.get(x).cloned().unwrap_or_default();
        let (second, ent_code) = self.versions[&v];
        let c = &self.b.codes;
        let p = |a: u64, b: u64| if second { b } else { a };
        let memc = match kind {
            Kind::Denom => p(c.denom, c.denom2),
            Kind::Token => p(c.token, c.token2),
            Kind::Nft => p(c.nft, c.nft2),
            Kind::Multisig => p(c.multisig, c.multisig2),
        };
        let want: Vec<(&str, u64)> = vec![
            ("enterprise", ent_code), ("governance", c.governance), ("controller", c.controller), ("outposts", p(c.outposts, c.outposts2)), ("treasury", c.treasury),
            ("distributor", p(c.distributor, c.distributor2)), ("membership", memc), ("council", p(c.multisig, c.multisig2)), ("attestation", p(c.attestation, c.attestation2)),
        ];
        let att = !m["attestation_text"].is_null();
        let mut distinct: BTreeSet<String> = BTreeSet::new();
        for (n, code) in want {
            if n == "attestation" && !att {
                self.check("no attestation unless requested", k, !comp.contains_key(n), || format!("{comp:?}"));
                continue;
            }
            let a = g(n);
            let meta = self.b.c.contract_meta(&a);
            let fresh = tx.new_contracts.contains(&a) && distinct.insert(a.clone());
            self.check("every component is a new contract of its own", n, fresh, || format!("{n} is {a:?}, created {:?}", tx.new_contracts));
            let (gc, _, admin, _) = meta.clone().unwrap_or((0, String::new(), None, String::new()));
            self.check("component runs the version's code", &format!("{n}{k}{second}"), gc == code, || format!("{n} runs code {gc}, version {v:?} says {code}"));
            let wa = if n == "attestation" { None } else { Some(ent.clone()) };
            self.check("the DAO is contract admin", &format!("{n}{k}"), admin == wa, || format!("admin of {n} is {admin:?}, DAO is {ent}"));
        }
        let extra = tx.new_contracts.len() - distinct.len();
        let own_token = var == "new_cw20" || var == "new_cw721";
        self.check("nothing else is created", k, extra == own_token as usize, || format!("created {:?} for components {comp:?}", tx.new_contracts));
        for a in tx.writes.keys() {
            let mine = *a == self.b.factory || tx.new_contracts.contains(a);
            for t in ["C20", "C27"] {
                self.mon.check(t, "creation touches only its own contracts", k, mine, || format!("creation wrote to {a}"));
            }
        }
        // main contract
        let info = q(self, &ent, json!({"dao_info": {}}));
        let ok = jeq(&info["metadata"], &m["dao_metadata"]) && jeq(&info["dao_version"], &vj(v)) && st(&info["creation_date"]) == self.b.c.now().nanos().to_string();
        let kn = match kind {
            Kind::Denom => "denom",
            Kind::Token => "token",
            Kind::Nft => "nft",
            Kind::Multisig => "multisig",
        };
        self.check("DAO info as requested", k, ok && st(&info["dao_type"]) == kn, || format!("{info} for {m}"));
        let cc = q(self, &ent, json!({"component_contracts": {}}));
        let ok = st(&cc["enterprise_factory_contract"]) == self.b.factory && st(&cc["enterprise_versioning_contract"]) == self.b.versioning;
        self.check("factory and registry known", k, ok, || format!("{cc}"));
        // governance
        let gc = q(self, &g("controller"), json!({"gov_config": {}}));
        let ok = jeq(&gc["gov_config"], &m["gov_config"]) && st(&gc["dao_membership_contract"]) == g("membership") && st(&gc["dao_council_membership_contract"]) == g("council");
        self.check("governance configuration as requested", k, ok, || format!("{gc} for {}", m["gov_config"]));
        let spec = &m["dao_council"];
        let cou = &gc["council_gov_config"];
        let ok = if spec.is_null() {
            cou.is_null()
        } else {
            let al = if spec["allowed_proposal_action_types"].is_null() { json!(["upgrade_dao"]) } else { spec["allowed_proposal_action_types"].clone() };
            jeq(&cou["quorum"], &spec["quorum"]) && jeq(&cou["threshold"], &spec["threshold"]) && cou["allowed_proposal_action_types"] == al
        };
        self.check("council configuration as requested", &format!("{k}{}", spec.is_null()), ok, || format!("{cou} for {spec}"));
        let cm = members(&self.b.c, &g("council"));
        let want: BTreeMap<String, u128> = list(&spec["members"]).iter().map(|x| (st(x), 1)).collect();
        let ct = uint(&q(self, &g("council"), json!({"total_weight": {"expiration": {"never": {}}}}))["total_weight"]);
        self.check("council members have one vote each", &format!("{k}{}", want.len()), cm.as_ref().ok() == Some(&want) && ct == want.len() as u128, || format!("{cm:?} total {ct} for {spec}"));
        for (n, f) in [("controller", "enterprise_contract"), ("council", "enterprise_contract")] {
            let r = q(self, &g(n), json!({"config": {}}));
            self.check("component knows its DAO", n, st(&r[f]) == ent, || format!("{n}: {r}, DAO {ent}"));
        }
        let r = q(self, &g("treasury"), json!({"config": {}}));
        self.check("governance controls the treasury", k, st(&r["admin"]) == g("controller"), || format!("{r}, controller {}", g("controller")));
        // whitelists
        let wl = walk(&self.b.c, &g("treasury"), "asset_whitelist", &json!({}), "assets", Some(100), &|v| v.clone()).unwrap_or_default();
        let got: BTreeSet<String> = wl.iter().map(|x| x.to_string()).collect();
        let want: BTreeSet<String> = list(&m["asset_whitelist"]).iter().map(|x| x.to_string()).collect();
        self.check("asset whitelist as requested", &format!("{k}{}", want.len()), got == want && wl.len() == want.len(), || format!("{wl:?} for {want:?}"));
        let wl = walk(&self.b.c, &g("treasury"), "nft_whitelist", &json!({}), "nfts", Some(100), &|v| v.clone()).unwrap_or_default();
        self.check("nft whitelist as requested", k, {
            let got: BTreeSet<String> = wl.iter().map(st).collect();
            let want: BTreeSet<String> = list(&m["nft_whitelist"]).iter().map(st).collect();
            got == want && got.len() == wl.len()
        }, || format!("{wl:?} for {}", m["nft_whitelist"]));
        // rewards
        let min = uint(&m["minimum_weight_for_rewards"]);
        let r = q(self, &g("distributor"), json!({"minimum_eligible_weight": {}}));
        self.check("minimum weight for rewards as requested", k, uint(&r["minimum_eligible_weight"]) == min, || format!("{r} for {min}"));
        if att {
            let r = q(self, &g("attestation"), json!({"attestation_text": {}}));
            self.check("attestation text as requested", k, r["text"] == m["attestation_text"], || format!("{r} for {}", m["attestation_text"]));
        }
        let rr = q(self, &ent, json!({"is_restricted_user": {"user": "alice"}}));
        self.check("attestation restricts from the start", &format!("{k}{att}"), rr["is_restricted"].as_bool() == Some(att), || format!("{rr}"));
        // membership
        let x = &m["dao_membership"][var];
        let mem = g("membership");
        let mut weights: BTreeMap<String, u128> = BTreeMap::new();
        match kind {
            Kind::Multisig => {
                weights = if var == "import_cw3" {
                    self.cw3.iter().find(|c| c.0 == st(&x["cw3_contract"])).unwrap().1.iter().cloned().collect()
                } else {
                    list(&x["multisig_members"]).iter().map(|u| (st(&u["user"]), uint(&u["weight"]))).collect()
                };
                let r = q(self, &mem, json!({"config": {}}));
                self.check("component knows its DAO", k, st(&r["enterprise_contract"]) == ent, || format!("membership: {r}, DAO {ent}"));
            }
            Kind::Denom => {
                let r = q(self, &mem, json!({"denom_config": {}}));
                let ok = st(&r["enterprise_contract"]) == ent && r["denom"] == x["denom"] && jeq(&r["unlocking_period"], &x["unlocking_period"]);
                self.check("staking configuration as requested", k, ok, || format!("{r} for {x}"));
            }
            Kind::Token => {
                let r = q(self, &mem, json!({"token_config": {}}));
                let t = st(&r["token_contract"]);
                let mut ok = st(&r["enterprise_contract"]) == ent && jeq(&r["unlocking_period"], &x["unlocking_period"]);
                if var == "import_cw20" {
                    ok &= t == st(&x["cw20_contract"]);
                } else {
                    ok &= tx.new_contracts.contains(&t) && !distinct.contains(&t);
                }
                self.check("staking configuration as requested", k, ok, || format!("{r} for {x}"));
                if var == "new_cw20" {
                    let meta = self.b.c.contract_meta(&t).unwrap_or_default();
                    let code = self.cfg.0;
                    self.check("new token: code and admin", k, meta.0 == code && meta.2 == Some(ent.clone()), || format!("{meta:?}, code {code}, DAO {ent}"));
                    let ti = q(self, &t, json!({"token_info": {}}));
                    let mut want: BTreeMap<String, u128> = list(&x["initial_token_balances"]).iter().map(|u| (st(&u["address"]), uint(&u["amount"]))).collect();
                    if !x["initial_dao_balance"].is_null() {
                        want.insert(g("treasury"), uint(&x["initial_dao_balance"]));
                    }
                    let sum: u128 = want.values().sum();
                    let ok = ti["name"] == x["token_name"] && ti["symbol"] == x["token_symbol"] && ti["decimals"] == x["token_decimals"] && uint(&ti["total_supply"]) == sum;
                    self.check("new token: description and supply", k, ok, || format!("{ti} for {x}"));
                    let mut got: BTreeMap<String, u128> = BTreeMap::new();
                    for a in walk(&self.b.c, &t, "all_accounts", &json!({}), "accounts", Some(30), &|v| v.clone()).unwrap_or_default() {
                        let b = uint(&q(self, &t, json!({"balance": {"address": a}}))["balance"]);
                        got.insert(st(&a), b);
                    }
                    self.check("new token: initial balances", &format!("{k}{}", want.len()), got == want, || format!("{got:?}, requested {want:?}"));
                    let mi = q(self, &t, json!({"minter": {}}));
                    let ok = if x["token_mint"].is_null() { st(&mi["minter"]) == ent && mi["cap"].is_null() } else { jeq(&mi, &x["token_mint"]) };
                    self.check("new token: minter", &format!("{k}{}", x["token_mint"].is_null()), ok, || format!("{mi} for {}", x["token_mint"]));
                    let ma = q(self, &t, json!({"marketing_info": {}}));
                    let tm = &x["token_marketing"];
                    let owner = if tm["marketing_owner"].is_null() { ent.clone() } else { st(&tm["marketing_owner"]) };
                    let ok = st(&ma["marketing"]) == owner && ma["project"] == tm["project"] && ma["description"] == tm["description"] && (if tm["logo_url"].is_null() { ma["logo"].is_null() } else { ma["logo"]["url"] == tm["logo_url"] });
                    self.check("new token: marketing", &format!("{k}{}", tm["marketing_owner"].is_null()), ok, || format!("{ma} for {tm}"));
                }
            }
            Kind::Nft => {
                let r = q(self, &mem, json!({"nft_contract_config": {}}));
                let mut ok = st(&r["enterprise_contract"]) == ent && jeq(&r["unlocking_period"], &x["unlocking_period"]);
                match var {
                    "import_cw721" => ok &= st(&r["nft_contract"]["cw721"]["contract"]) == st(&x["cw721_contract"]),
                    "new_ics721" => ok &= r["nft_contract"]["ics721"]["contract"] == x["ics721_proxy"] && r["nft_contract"]["ics721"]["class_id"] == x["class_id"],
                    _ => {
                        let t = st(&r["nft_contract"]["cw721"]["contract"]);
                        ok &= tx.new_contracts.contains(&t) && !distinct.contains(&t);
                        let meta = self.b.c.contract_meta(&t).unwrap_or_default();
                        let code = self.cfg.1;
                        self.check("new collection: code and admin", k, meta.0 == code && meta.2 == Some(ent.clone()), || format!("{meta:?}, code {code}, DAO {ent}"));
                        let ci = q(self, &t, json!({"contract_info": {}}));
                        let mi = q(self, &t, json!({"minter": {}}));
                        let minter = if x["minter"].is_null() { ent.clone() } else { st(&x["minter"]) };
                        let good = ci["name"] == x["nft_name"] && ci["symbol"] == x["nft_symbol"] && st(&mi["minter"]) == minter;
                        self.check("new collection: description and minter", &format!("{k}{}", x["minter"].is_null()), good, || format!("{ci} {mi} for {x}"));
                    }
                }
                self.check("staking configuration as requested", k, ok, || format!("{r} for {x}"));
            }
        }
        let got = members(&self.b.c, &mem);
        let mut gw = got.clone().unwrap_or_default();
        gw.retain(|_, w| *w > 0);
        let mut ww = weights.clone();
        ww.retain(|_, w| *w > 0);
        let tw = uint(&q(self, &mem, json!({"total_weight": {"expiration": {"never": {}}}}))["total_weight"]);
        self.check("initial members and weights as requested", &format!("{k}{}", ww.len()), got.is_ok() && gw == ww && tw == ww.values().sum::<u128>(), || format!("{} members total {tw}: {got:?}, requested {} {ww:?}", gw.len(), ww.len()));
        // nobody else earns rewards, and every member does
        let eff: BTreeMap<&String, u128> = ww.iter().filter(|x| *x.1 >= min).map(|(a, b)| (a, *b)).collect();
        let tot: u128 = eff.values().sum();
        let small = tot.checked_mul(3).map_or(false, |x| x < u128::MAX / 1_000_000_000_000_000_000_000);
        let amt = if tot > 0 && small { tot * 3 } else { 1_000_000 };
        self.b.c.mint("donor", GLOBAL_DENOM, amt);
        let t2 = self.b.c.simulate("donor", vec![ex(&g("distributor"), json!({"distribute_native": {}}), &[(GLOBAL_DENOM, amt)])]);
        self.check("rewards can be distributed exactly when someone is eligible", &format!("{k}{}", tot > 0), t2.ok == (tot > 0), || format!("total eligible {tot}: {} {}", t2.ok, t2.err));
        if tot > 0 && small {
            let t2 = self.b.c.execute("donor", &g("distributor"), &json!({"distribute_native": {}}), &[cosmwasm_std::coin(amt, GLOBAL_DENOM)]);
            let mut bad = String::new();
            let mut all: BTreeSet<String> = ww.keys().take(40).cloned().collect();
            all.extend(PEOPLE.iter().map(|s| s.to_string()));
            for u in all {
                let r = q(self, &g("distributor"), json!({"user_rewards": {"user": u, "native_denoms": [GLOBAL_DENOM], "cw20_assets": []}}));
                let got = uint(&r["native_rewards"][0]["amount"]);
                let want = eff.get(&u).copied().unwrap_or(0) * 3;
                if got != want {
                    bad = format!("{u} earned {got}, expected {want}");
                }
            }
            self.check("initial reward weights are the members' weights", &format!("{k}{}", eff.len()), t2.ok && bad.is_empty(), || bad);
        }
        // remote treasuries
        let msgs = sent(tx);
        let want: Vec<Value> = list(&m["cross_chain_treasuries"]);
        let mut bad = String::new();
        if msgs.len() != want.len() {
            bad = format!("{} requests sent, {} asked for", msgs.len(), want.len());
        }
        for (t, w) in msgs.iter().zip(&want) {
            let n: u64 = st(&w["cross_chain_msg_spec"]["chain_id"]).trim_start_matches("chain-").parse().unwrap_or(0);
            let r = Remote::new(&st(&w["cross_chain_msg_spec"]["chain_id"]), n);
            let e = match t {
                Ok(t) => matches(t, &Want::Proxy(r), &g("outposts"), self.b.c.now().nanos()).err(),
                Err(e) => Some(e.clone()),
            };
            if let Some(e) = e {
                bad = e;
            }
        }
        let cov = format!("{k}{}", want.len());
        for t in ["C20", "C21"] {
            self.mon.check(t, "initial cross-chain treasuries ordered as requested", &cov, bad.is_empty(), || bad.clone());
        }
        // finding the DAO
        self.daos.push(g("treasury"));
        self.ents.push(ent.clone());
        Some(Lite::of(&self.b, &ent, "alice"))
    }

    /// the new DAO can govern itself
    fn smoke(&mut self, m: &Value, var: &str, d: &mut Lite) {
        let kind = kind_of(var);
        let x = &m["dao_membership"][var];
        let (ent, ctrl, mem) = (d.ent.clone(), d.c("controller").to_string(), d.c("membership").to_string());
        let user: String;
        if kind == Kind::Multisig {
            let ms = members(&self.b.c, &mem).unwrap_or_default();
            // the heaviest member decides alone only with a majority; let everybody vote
            user = ms.iter().max_by_key(|x| x.1).map(|x| x.0.clone()).unwrap_or_default();
            if ms.len() > 12 {
                return;
            }
        } else {
            user = "alice".into();
        }
        if d.comp.contains_key("attestation") {
            for u in PEOPLE.iter().map(|s| s.to_string()).chain([user.clone()]) {
                self.b.c.execute(&u, d.c("attestation"), &json!({"sign_attestation": {}}), &[]);
            }
        }
        let dep = uint(&m["gov_config"]["minimum_deposit"]);
        let amt: u128 = 1000;
        let stake = match kind {
            Kind::Denom => {
                self.b.c.mint(&user, x["denom"].as_str().unwrap(), amt + dep);
                Some(self.b.c.execute(&user, &mem, &json!({"stake": {"user": null}}), &[cosmwasm_std::coin(amt, st(&x["denom"]))]))
            }
            Kind::Token => {
                let t = st(&q(self, &mem, json!({"token_config": {}}))["token_contract"]);
                let mi = q(self, &t, json!({"minter": {}}));
                let holder = if var == "import_cw20" && t == self.cw20 { "rich".to_string() } else if st(&mi["minter"]) == "minty" {
                    let tx = self.b.c.execute("minty", &t, &json!({"mint": {"recipient": user, "amount": (amt + dep).to_string()}}), &[]);
                    if !tx.ok {
                        return;
                    }
                    user.clone()
                } else {
                    return;
                };
                if holder != user {
                    self.b.c.execute(&holder, &t, &json!({"transfer": {"recipient": user, "amount": (amt + dep).to_string()}}), &[]);
                }
                Some(self.b.c.dispatch(&user, vec![cw20_send(&t, &mem, amt, json!({"stake": {"user": user}}))]))
            }
            Kind::Nft => {
                let r = q(self, &mem, json!({"nft_contract_config": {}}));
                let t = match var {
                    "new_ics721" => {
                        let t = new_cw721(&self.b.c, self.b.codes.cw721, "bridged", &[]);
                        let mut cl = q(self, &self.bridge.clone(), json!({"classes": {}}));
                        if cl.is_null() {
                            cl = json!({});
                        }
                        cl[st(&x["class_id"])] = json!(t);
                        self.b.c.execute("x", &self.bridge, &json!({"set": {"classes": cl}}), &[]);
                        t
                    }
                    _ => st(&r["nft_contract"]["cw721"]["contract"]),
                };
                let minter = st(&q(self, &t, json!({"minter": {}}))["minter"]);
                if minter == ent {
                    return;
                }
                let ids: Vec<String> = (0..3 + dep).map(|i| format!("s{}-{i}", self.n)).collect();
                for id in &ids {
                    self.b.c.execute(&minter, &t, &json!({"mint": {"token_id": id, "owner": user, "token_uri": null, "extension": null}}), &[]);
                }
                Some(self.b.c.dispatch(&user, ids.iter().take(3).map(|i| nft_send(&t, &mem, i, json!({"stake": {"user": user}}))).collect()))
            }
            Kind::Multisig => None,
        };
        if let Some(tx) = &stake {
            let want = if kind == Kind::Nft { 3 } else { amt };
            let w = uint(&q(self, &mem, json!({"user_weight": {"user": user}}))["weight"]);
            self.check("the DAO's asset can be staked in the new DAO", var, tx.ok && w == want, || format!("{} {} weight {w}", tx.ok, tx.err));
            let told = tx.live().any(|c| c.target == ctrl && c.key() == "weights_changed" && c.sender == mem);
            self.check("membership reports to governance", var, told, || format!("{:?}", tx.live().map(|c| (c.target.clone(), c.key())).collect::<Vec<_>>()));
            if !tx.ok {
                return;
            }
        }
        let nm = format!("renamed {}", self.n);
        let prop = json!({"title": "t", "description": null, "proposal_actions": [{"update_metadata": {"name": {"change": nm}, "description": "no_change", "logo": "no_change", "github_username": "no_change", "discord_username": "no_change", "twitter_username": "no_change", "telegram_username": "no_change"}}], "deposit_owner": null});
        let tx = match kind {
            _ if dep == 0 => self.b.c.execute(&user, &ctrl, &json!({ "create_proposal": prop }), &[]),
            Kind::Denom => self.b.c.execute(&user, &ctrl, &json!({ "create_proposal": prop }), &[cosmwasm_std::coin(dep, st(&x["denom"]))]),
            Kind::Token => {
                let t = st(&q(self, &mem, json!({"token_config": {}}))["token_contract"]);
                self.b.c.dispatch(&user, vec![cw20_send(&t, &ctrl, dep, json!({ "create_proposal": prop }))])
            }
            _ => return,
        };
        let id: Option<u64> = tx.attr("proposal_id").and_then(|s| s.parse().ok());
        self.check("a member of the new DAO can open a proposal", var, tx.ok && id == Some(1), || format!("{} {} {id:?}", tx.ok, tx.err));
        let Some(id) = id else { return };
        let voters = members(&self.b.c, &mem).unwrap_or_default();
        for (u, w) in &voters {
            if *w == 0 {
                continue;
            }
            if d.comp.contains_key("attestation") {
                self.b.c.execute(u, d.c("attestation"), &json!({"sign_attestation": {}}), &[]);
            }
            let tx = self.b.c.execute(u, &ctrl, &json!({"cast_vote": {"proposal_id": id, "outcome": "yes"}}), &[]);
            self.check("members of the new DAO can vote", var, tx.ok, || tx.err.clone());
        }
        let d0 = m["gov_config"]["vote_duration"].as_u64().unwrap();
        self.b.c.advance(1, d0 * 1_000_000_000);
        let tx = self.b.c.execute(&user, &ctrl, &json!({"execute_proposal": {"proposal_id": id}}), &[]);
        let info = q(self, &ent, json!({"dao_info": {}}));
        self.check("the new DAO carries out what its members decide", var, tx.ok && st(&info["metadata"]["name"]) == nm, || format!("{} {} {info}", tx.ok, tx.err));
    }
}

pub fn factory(focus: &'static str, seed: u64, steps: usize) -> Out {
    let mut r = Rng::new(seed);
    let mut gwl = vec![json!({"native": GLOBAL_DENOM})];
    for d in ["uextra", "ualso"] {
        if r.chance(1, 2) {
            gwl.insert(r.idx(gwl.len() + 1), json!({ "native": d }));
        }
    }
    let gnft: Vec<Value> = ["famousnfts", "othernfts"].iter().filter(|_| r.chance(1, 2)).map(|x| json!(x)).collect();
    let b = base_with(&[((1, 0, 0), false, 0)], &json!(gwl), &json!(gnft));
    let c = &b.c;
    let cw20 = new_cw20(c, b.codes.cw20, "imported", &[("rich".into(), 1 << 100)]);
    let inst20 = |n: &str, minter: Value, dec: u8, bal: Value| {
        c.instantiate("x", b.codes.cw20, &json!({"name": n, "symbol": "SYM", "decimals": dec, "initial_balances": bal, "mint": minter, "marketing": null}), n, None).expect("cw20")
    };
    let (mut cw20_live, mut cw20_mintable, mut cw20_dead) = (vec![], vec![], vec![]);
    for d in [0u8, 1, 6, 18] {
        let one = json!([{"address": "rich", "amount": "1"}]);
        cw20_live.push(inst20(&format!("live{d}"), Value::Null, d, one.clone()));
        cw20_live.push(inst20(&format!("livemint{d}"), json!({"minter": "minty", "cap": "1"}), d, one));
        cw20_mintable.push(inst20(&format!("mintable{d}"), json!({"minter": "minty", "cap": null}), d, json!([])));
        cw20_mintable.push(inst20(&format!("capped{d}"), json!({"minter": "minty", "cap": "1000"}), d, json!([])));
        cw20_dead.push(inst20(&format!("dead{d}"), Value::Null, d, json!([])));
    }
    let cw721 = new_cw721(c, b.codes.cw721, "collection", &[("1".into(), "rich".into())]);
    let rec = |n: &str| c.instantiate("x", b.codes.recorder, &json!({}), n, None).expect("rec");
    let mut cw3 = vec![];
    for n in [1usize, 10, 11, 30, 31, 64, 100, 101, 205] {
        let a = rec(&format!("cw3-{n}"));
        let vs: Vec<(String, u128)> = (0..n).map(|i| (format!("voter{i:04}"), if n > 3 && i % 7 == 3 { 0 } else { r.range(1, 50) as u128 })).collect();
        let l: Vec<Value> = vs.iter().map(|(a, w)| json!({"addr": a, "weight": *w as u64})).collect();
        c.execute("x", &a, &json!({"set": {"voters": l}}), &[]);
        cw3.push((a, vs));
    }
    let cw3_zero = rec("cw3-zero");
    c.execute("x", &cw3_zero, &json!({"set": {"voters": [{"addr": "alice", "weight": 0}]}}), &[]);
    let bridge = rec("bridge");
    let junk = rec("junk");
    c.mint(&b.factory, "uluna", 1_000_000);
    let cfg = (b.codes.cw20, b.codes.cw721);
    let mut versions = BTreeMap::new();
    versions.insert((1, 0, 0), (false, b.codes.enterprise));
    let mut f = F {
        b, r, mon: Mon::new(focus), log: vec![], versions, cw20, cw20_live, cw20_mintable, cw20_dead, cw721, cw3, cw3_zero, bridge, junk, daos: vec![], ents: vec![], cfg, remotes: 0, n: 0,
    };
    // codes a reconfigured factory may use
    let alt = (f.b.c.store_code(crate::codes::cw20()), f.b.c.store_code(crate::codes::cw721()));
    let bulk = if f.r.chance(1, 4) { 110 } else { 0 };
    for s in 0..steps + bulk {
        f.mon.step += 1;
        if f.mon.silenced.contains(focus) {
            break;
        }
        if s >= steps {
            // only to outgrow a page of the listing
            if let Ok(d) = Lite::new(&f.b, "alice") {
                f.daos.push(d.c("treasury").to_string());
                f.ents.push(d.ent.clone());
            }
            if s + 1 == steps + bulk {
                f.listings();
            }
            continue;
        }
        match f.r.below(13) {
            0 => {
                let v = (f.r.below(3), f.r.below(4), f.r.below(12));
                if !f.versions.contains_key(&v) {
                    let second = f.r.chance(1, 2);
                    let ent = if f.r.chance(1, 2) { f.b.codes.enterprise } else { f.b.codes.enterprise2 };
                    let tx = f.b.c.execute("vadmin", &f.b.versioning, &json!({"add_version": {"version": version_info(&f.b.codes, v, second, ent)}}), &[]);
                    if tx.ok {
                        f.versions.insert(v, (second, ent));
                    }
                }
                continue;
            }
            1 => {
                let who = f.r.pick_c(&["fadmin", "fadmin", "mallory"]);
                let (a, b) = (f.r.chance(1, 2), f.r.chance(1, 2));
                let n20 = if f.r.chance(1, 2) { alt.0 } else { f.b.codes.cw20 };
                let n721 = if f.r.chance(1, 2) { alt.1 } else { f.b.codes.cw721 };
                let tx = f.b.c.execute(who, &f.b.factory, &json!({"update_config": {"new_admin": null, "new_enterprise_versioning": null, "new_cw20_code_id": if a { json!(n20) } else { Value::Null }, "new_cw721_code_id": if b { json!(n721) } else { Value::Null }}}), &[]);
                let ok = tx.ok == (who == "fadmin");
                for t in ["C20", "C08"] {
                    f.mon.check(t, "only the factory's admin configures it", who, ok, || format!("{who}: {} {}", tx.ok, tx.err));
                }
                if who == "fadmin" {
                    if a {
                        f.cfg.0 = n20;
                    }
                    if b {
                        f.cfg.1 = n721;
                    }
                }
                let r = q(&f, &f.b.factory.clone(), json!({"config": {}}));
                let ok = r["config"]["cw20_code_id"].as_u64() == Some(f.cfg.0) && r["config"]["cw721_code_id"].as_u64() == Some(f.cfg.1) && st(&r["config"]["admin"]) == "fadmin" && st(&r["config"]["enterprise_versioning"]) == f.b.versioning;
                let cfg = f.cfg;
                f.check("factory configuration changes exactly as asked", &format!("{a}{b}{who}"), ok, || format!("{r}, expected {cfg:?}"));
                continue;
            }
            12 => {
                // the factory itself is renewed; what it knows stays
                if f.r.chance(1, 2) {
                    let m = json!({"admin": "mallory", "enterprise_versioning_addr": "elsewhere", "cw20_code_id": 1, "cw721_code_id": 2});
                    let t = f.b.c.dispatch("deployer", vec![renew(&f.b.factory, f.b.codes.factory, &m)]);
                    f.log.push(format!("factory renewed in place -> {} {}", t.ok, t.err));
                    f.check("the factory can be renewed in place", "", t.ok, || t.err.clone());
                }
                let me = f.b.factory.clone();
                let a = q(&f, &me, json!({"global_asset_whitelist": {}}));
                let n = q(&f, &me, json!({"global_nft_whitelist": {}}));
                let set = |v: &Value| list(v).iter().map(|x| x.to_string()).collect::<BTreeSet<_>>();
                let ok = set(&a["assets"]) == set(&json!(gwl)) && list(&a["assets"]).len() == gwl.len() && set(&n["nfts"]) == set(&json!(gnft)) && list(&n["nfts"]).len() == gnft.len();
                f.check("global whitelists are what the factory was set up with", &format!("{}{}", gwl.len(), gnft.len()), ok, || format!("{a} {n}, expected {gwl:?} {gnft:?}"));
                let r = q(&f, &me, json!({"config": {}}));
                let ok = r["config"]["cw20_code_id"].as_u64() == Some(f.cfg.0) && r["config"]["cw721_code_id"].as_u64() == Some(f.cfg.1) && st(&r["config"]["admin"]) == "fadmin" && st(&r["config"]["enterprise_versioning"]) == f.b.versioning;
                let cfg = f.cfg;
                f.check("factory configuration changes exactly as asked", "renewed", ok, || format!("{r}, expected {cfg:?}"));
                f.listings();
                continue;
            }
            2 => {
                // somebody interferes between creations
                for m in [json!({"finalize_dao_creation": {}})] {
                    let tx = f.b.c.execute("mallory", &f.b.factory, &m, &[]);
                    for t in ["C20", "C08"] {
                        f.mon.check(t, "creation steps are internal", "finalize", !tx.ok, || format!("accepted {m}"));
                    }
                }
                continue;
            }
            _ => {}
        }
        let (mut m, var) = f.valid();
        let mut legit = true;
        if f.r.chance(1, 3) {
            f.spoil(&mut m, var);
            legit = false;
        }
        let latest = *f.versions.keys().next_back().unwrap();
        let mut v = latest;
        let msg = if f.r.chance(1, 2) {
            json!({ "create_dao": m })
        } else {
            if f.r.chance(1, 5) {
                v = (7, f.r.below(3), 0);
                legit = false;
            } else {
                let k: Vec<V> = f.versions.keys().copied().collect();
                v = f.r.pick_c(&k);
            }
            json!({"create_dao_with_version": {"version": vj(v), "create_dao_msg": m}})
        };
        let fault = if f.r.chance(1, 6) { Some(f.r.idx(30) + 1) } else { None };
        if let Some(n) = fault {
            f.b.c.inject_failure(n);
        }
        let who = f.r.pick_c(&PEOPLE);
        let tx = f.b.c.execute(who, &f.b.factory, &msg, &[]);
        f.log.push(format!("#{} {who} {msg} fault {fault:?} -> {} {}", f.mon.step, tx.ok, tx.err));
        f.mon.ctx = f.log.last().unwrap().chars().take(600).collect();
        if tx.fault_hit {
            legit = false;
        }
        let cov = format!("{var}{legit}{}{}", tx.fault_hit, tx.err.chars().take(60).collect::<String>());
        f.check("creation accepted exactly when valid", &cov, tx.ok == legit, || format!("ok={} {} expected {legit}: {msg}", tx.ok, tx.err));
        if tx.ok && legit {
            if let Some(mut d) = f.verify(&m, var, v, &tx) {
                if f.r.chance(1, 2) {
                    f.smoke(&m, var, &mut d);
                }
            }
        } else if !tx.ok {
            f.check("a refused creation leaves nothing behind", var, tx.no_effect(), || format!("{:?} {:?}", tx.new_contracts, tx.writes.keys()));
        }
        f.listings();
        if f.r.chance(1, 3) {
            f.b.c.advance(1, 1_000_000_000 * f.r.below(5));
        }
    }
    Out { mon: f.mon, log: f.log }
}
