//! Reference interpreter of the DAO system: what each message is supposed to do, stated on the
//! level of observable state (weights, votes, claims, balances, configuration).
//! The monitors run it beside the real contracts and compare after every transaction.
use crate::mon::h;
use cosmwasm_std::{Binary, CosmosMsg};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub type Tags = Vec<&'static str>;

#[derive(Clone, Debug, PartialEq)]
pub struct Rej {
    pub tags: Tags,
    pub why: String,
    /// the model does not cover this message
    pub unk: bool,
}
pub type Res<T = ()> = Result<T, Rej>;
pub fn rej<T>(tags: &[&'static str], why: &str) -> Res<T> {
    Err(Rej {
        tags: tags.to_vec(),
        why: why.to_string(),
        unk: false,
    })
}
pub fn unk<T>(why: &str) -> Res<T> {
    Err(Rej {
        tags: vec![],
        why: why.to_string(),
        unk: true,
    })
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Denom,
    Token,
    Nft,
    Multisig,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Dur {
    Time(u64),
    Height(u64),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Rel {
    Time(u64),
    Height(u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Claim {
    pub rel: Rel,
    pub amount: u128,
    pub tokens: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Gov {
    pub quorum: u128,
    pub threshold: u128,
    pub veto: Option<u128>,
    pub duration: u64,
    pub min_deposit: Option<u128>,
    pub early: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CouncilCfg {
    pub allowed: Vec<String>,
    pub quorum: u128,
    pub threshold: u128,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Judged {
    Passed,
    Quorum,
    Veto,
    Rejected,
    Draw,
    Threshold,
}

pub const ONE: u128 = 1_000_000_000_000_000_000;
pub const YES: u8 = 0;
pub const NO: u8 = 1;
pub const ABSTAIN: u8 = 2;
pub const VETO: u8 = 3;

/// a/b >= limit (limit in 1e-18), exactly
pub fn reaches(a: u128, b: u128, limit: u128) -> bool {
    use cosmwasm_std::Uint256;
    if b == 0 {
        return limit == 0;
    }
    Uint256::from(a) * Uint256::from(ONE) >= Uint256::from(b) * Uint256::from(limit)
}

pub fn judge(r: &[u128; 4], total: u128, quorum: u128, threshold: u128, veto: Option<u128>) -> Judged {
    let sum: u128 = r.iter().sum();
    if !reaches(sum, total, quorum) {
        return Judged::Quorum;
    }
    let base = sum - r[ABSTAIN as usize];
    if reaches(r[VETO as usize], base, veto.unwrap_or(threshold)) {
        return Judged::Veto;
    }
    let y = reaches(r[YES as usize], base, threshold);
    let n = reaches(r[NO as usize], base, threshold);
    match (y, n) {
        (true, true) => {
            if r[YES as usize] > r[NO as usize] {
                Judged::Passed
            } else if r[YES as usize] == r[NO as usize] {
                Judged::Draw
            } else {
                Judged::Rejected
            }
        }
        (true, false) => Judged::Passed,
        (false, true) => Judged::Rejected,
        (false, false) => Judged::Threshold,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Prop {
    pub council: bool,
    pub proposer: String,
    pub title: String,
    pub desc: String,
    pub actions: Value,
    pub started: u64,
    pub ends: u64,
    pub quorum: u128,
    pub threshold: u128,
    pub veto: Option<u128>,
    pub votes: BTreeMap<String, (u8, u128)>,
    pub results: [u128; 4],
    pub executed: bool,
    pub judged: Option<Judged>,
    // observed only
    pub status: String,
    pub total_reported: u128,
}
impl Prop {
    pub fn tally(&self) -> [u128; 4] {
        let mut r = [0u128; 4];
        for (o, a) in self.votes.values() {
            r[*o as usize] += a;
        }
        r
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum DepAsset {
    Fungible(String, u128),
    Nfts(String, Vec<String>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Deposit {
    pub owner: String,
    pub asset: DepAsset,
}

/// State the contracts keep but do not report, and history.
#[derive(Clone, Debug, Default)]
pub struct Hid {
    pub deposits: BTreeMap<u64, Deposit>,
    pub settled: BTreeSet<u64>,
    pub earliest: BTreeMap<u64, u64>,
    /// total judged by at execution
    pub judged_total: BTreeMap<u64, u128>,
    pub executed_at: BTreeMap<u64, u64>,
    pub totals: Vec<(u64, u64, u128)>,
    pub council_totals: Vec<(u64, u64, u128)>,
    pub hooks: BTreeSet<String>,
    pub signed: BTreeSet<String>,
    /// accrued rewards, bounds in 1e-9 units
    pub acc: BTreeMap<(String, String), (u128, u128)>,
    pub settled_rewards: BTreeSet<String>,
    pub next_prop: u64,
    pub distributions: u64,
    pub weights_since_dist: BTreeSet<String>,
    pub had_min: bool,
}

#[derive(Clone, Debug)]
pub struct DaoState {
    pub kind: Kind,
    /// denom / cw20 address / cw721 address / ""
    pub asset: String,
    pub metadata: Value,
    pub creation: String,
    pub version: (u64, u64, u64),
    pub comp: BTreeMap<String, String>,
    pub codes: BTreeMap<String, (u64, Option<String>)>,
    pub att: bool,
    pub att_text: Option<String>,
    pub restricted: BTreeSet<String>,
    pub gov: Gov,
    pub council_cfg: Option<CouncilCfg>,
    pub unlocking: Option<Dur>,
    pub weights: BTreeMap<String, u128>,
    pub total: u128,
    pub council: BTreeMap<String, u128>,
    pub council_total: u128,
    pub nft_stakes: BTreeMap<String, BTreeSet<String>>,
    pub claims: BTreeMap<String, Vec<Claim>>,
    pub props: BTreeMap<u64, Prop>,
    pub min_weight: u128,
    pub rewards: BTreeMap<(String, String), u128>,
    pub asset_wl: BTreeSet<String>,
    pub nft_wl: BTreeSet<String>,
    pub hid: Hid,
}

pub fn total_at_time(hist: &[(u64, u64, u128)], secs: u64) -> u128 {
    hist.iter().filter(|x| x.1 / 1_000_000_000 < secs).last().map_or(0, |x| x.2)
}
pub fn total_at_height(hist: &[(u64, u64, u128)], height: u64) -> u128 {
    hist.iter().filter(|x| x.0 < height).last().map_or(0, |x| x.2)
}

impl DaoState {
    pub fn w(&self, u: &str) -> u128 {
        self.weights.get(u).copied().unwrap_or(0)
    }
    pub fn cw(&self, u: &str) -> u128 {
        self.council.get(u).copied().unwrap_or(0)
    }
    pub fn c(&self, k: &str) -> &str {
        self.comp.get(k).map_or("", |s| s.as_str())
    }
    pub fn is_restricted(&self, u: &str) -> bool {
        self.att && !self.hid.signed.contains(u)
    }
    pub fn eff(&self, u: &str) -> u128 {
        let w = self.w(u);
        if w >= self.min_weight {
            w
        } else {
            0
        }
    }
    pub fn eff_total(&self) -> u128 {
        self.weights.keys().map(|u| self.eff(u)).sum()
    }
    pub fn total_for(&self, p: &Prop, now: u64) -> u128 {
        if p.ends <= now {
            let hist = if p.council { &self.hid.council_totals } else { &self.hid.totals };
            total_at_time(hist, p.ends / 1_000_000_000)
        } else if p.council {
            self.council_total
        } else {
            self.total
        }
    }
    pub fn judge_now(&self, p: &Prop, now: u64) -> Judged {
        judge(&p.tally(), self.total_for(p, now), p.quorum, p.threshold, p.veto)
    }
    pub fn early_allowed(&self, p: &Prop) -> bool {
        p.council || self.gov.early
    }
    pub fn decided(j: Judged) -> bool {
        !matches!(j, Judged::Quorum | Judged::Threshold)
    }
    /// would an execution request by an unrestricted user be accepted now
    pub fn executable(&self, id: u64, now: u64) -> Result<Judged, &'static str> {
        let p = match self.props.get(&id) {
            None => return Err("no such proposal"),
            Some(p) => p,
        };
        if p.executed {
            return Err("already executed");
        }
        if self.hid.earliest.get(&id).map_or(false, |t| now < *t) {
            return Err("outcome changed recently");
        }
        if self.total_for(p, now) == 0 {
            return Err("zero-total");
        }
        let j = self.judge_now(p, now);
        if now < p.ends {
            if !self.early_allowed(p) {
                return Err("voting still open");
            }
            if !Self::decided(j) {
                return Err("not decided yet");
            }
        }
        Ok(j)
    }
    pub fn expected_status(&self, id: u64, now: u64) -> &'static str {
        let p = &self.props[&id];
        if p.executed {
            return "executed";
        }
        if now >= p.ends {
            return if self.judge_now(p, now) == Judged::Passed { "passed" } else { "rejected" };
        }
        if self.executable(id, now).is_ok() {
            "in_progress_can_execute_early"
        } else {
            "in_progress"
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Role {
    Enterprise,
    Controller,
    Governance,
    Treasury,
    Distributor,
    Membership,
    Council,
    Outposts,
    Attestation,
    Cw20,
    Cw721,
    Recorder,
}

pub fn role_of(comp: &str) -> Role {
    match comp {
        "enterprise" => Role::Enterprise,
        "controller" => Role::Controller,
        "governance" => Role::Governance,
        "treasury" => Role::Treasury,
        "distributor" => Role::Distributor,
        "membership" => Role::Membership,
        "council" => Role::Council,
        "outposts" => Role::Outposts,
        "attestation" => Role::Attestation,
        _ => panic!("role {comp}"),
    }
}

/// NFT approvals: spender → end of the approval (None: no end).
pub type Approvals = BTreeMap<String, Option<u64>>;

fn approved(a: &Approvals, who: &str, now: u64) -> bool {
    match a.get(who) {
        None => false,
        Some(None) => true,
        Some(Some(t)) => now < *t,
    }
}

#[derive(Clone)]
pub struct Model {
    pub now: u64,
    pub height: u64,
    pub bal: BTreeMap<(String, String), u128>,
    pub nft: BTreeMap<(String, String), (String, Approvals)>,
    pub daos: Vec<DaoState>,
    pub logs: BTreeMap<String, Vec<Value>>,
    pub cw20s: BTreeSet<String>,
    pub cw721s: BTreeSet<String>,
    pub recorders: BTreeSet<String>,
    pub global_wl: BTreeSet<String>,
    pub versions: BTreeSet<(u64, u64, u64)>,
    /// what happened during this transaction (for attributing differences)
    pub touch: BTreeSet<(usize, &'static str)>,
    pub voted: BTreeSet<(usize, u64)>,
    pub actions_fail: bool,
    /// the transaction contains a message without content: it may be refused as well
    pub may_refuse: bool,
    pub rewards_moved: BTreeSet<usize>,
    pub executed_ok_actions: Vec<(usize, u64, bool)>,
    /// sinks that accept anything (ibc escrow, plain accounts)
    pub depth: usize,
}

pub fn nat(d: &str) -> String {
    format!("n:{d}")
}
pub fn tok(a: &str) -> String {
    format!("c:{a}")
}

pub fn valid_addr(s: &str) -> bool {
    s.len() >= 3 && s.len() <= 54 && s.to_lowercase() == s && s.is_ascii()
}

pub fn uint(v: &Value) -> u128 {
    match v {
        Value::String(s) => s.parse().unwrap_or(0),
        Value::Number(n) => n.as_u64().unwrap_or(0) as u128,
        _ => 0,
    }
}

/// decimal string to 1e-18 units
pub fn dec(v: &Value) -> u128 {
    let s = v.as_str().unwrap_or("0");
    let (a, b) = s.split_once('.').unwrap_or((s, ""));
    let mut frac = b.to_string();
    while frac.len() < 18 {
        frac.push('0');
    }
    a.parse::<u128>().unwrap_or(0) * ONE + frac[..18].parse::<u128>().unwrap_or(0)
}
pub fn dec_str(x: u128) -> String {
    let s = format!("{}.{:018}", x / ONE, x % ONE);
    s.trim_end_matches('0').trim_end_matches('.').to_string()
}

pub fn dur(v: &Value) -> Option<Dur> {
    if let Some(t) = v.get("time") {
        return Some(Dur::Time(t.as_u64()?));
    }
    v.get("height").and_then(|t| t.as_u64()).map(Dur::Height)
}
pub fn rel(v: &Value) -> Option<Rel> {
    if let Some(t) = v.get("timestamp") {
        return Some(Rel::Time(uint(t) as u64));
    }
    v.get("height").map(|t| Rel::Height(uint(t) as u64))
}
/// changed value of a ModifyValue
pub fn change(v: &Value) -> Option<&Value> {
    v.get("change")
}
pub fn b64(v: &Value) -> Option<Value> {
    let b = Binary::from_base64(v.as_str()?).ok()?;
    serde_json::from_slice(&b).ok()
}
pub fn to_b64(v: &Value) -> Value {
    Value::String(Binary(serde_json::to_vec(v).unwrap()).to_base64())
}
pub fn asset_key(v: &Value) -> Option<String> {
    if let Some(d) = v.get("native") {
        return Some(nat(d.as_str()?));
    }
    if let Some(a) = v.get("cw20") {
        return Some(tok(a.as_str()?));
    }
    if let Some(a) = v.get("cw1155") {
        return Some(format!("m:{}/{}", a[0].as_str()?, a[1].as_str()?));
    }
    None
}
pub fn coins(v: &Value) -> Vec<(String, u128)> {
    v.as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|c| (c["denom"].as_str().unwrap_or("").to_string(), uint(&c["amount"])))
        .collect()
}
fn s(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}
fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
pub fn top(v: &Value) -> (String, Value) {
    match v {
        Value::Object(o) if o.len() == 1 => {
            let (k, x) = o.iter().next().unwrap();
            (k.clone(), x.clone())
        }
        _ => (String::new(), Value::Null),
    }
}

pub const COUNCIL_ALLOWED: [&str; 5] = [
    "update_metadata",
    "update_asset_whitelist",
    "update_nft_whitelist",
    "upgrade_dao",
    "deploy_cross_chain_treasury",
];

impl Model {
    pub fn role(&self, addr: &str) -> Option<(usize, Role)> {
        for (i, d) in self.daos.iter().enumerate() {
            for (k, a) in &d.comp {
                if a == addr {
                    return Some((i, role_of(k)));
                }
            }
        }
        if self.cw20s.contains(addr) {
            return Some((usize::MAX, Role::Cw20));
        }
        if self.cw721s.contains(addr) {
            return Some((usize::MAX, Role::Cw721));
        }
        if self.recorders.contains(addr) {
            return Some((usize::MAX, Role::Recorder));
        }
        None
    }
    pub fn b(&self, addr: &str, asset: &str) -> u128 {
        self.bal.get(&(addr.to_string(), asset.to_string())).copied().unwrap_or(0)
    }
    fn mv(&mut self, from: &str, to: &str, asset: &str, amount: u128) -> Res {
        let have = self.b(from, asset);
        if have < amount {
            return rej(&[], &format!("insufficient {asset}"));
        }
        if amount == 0 {
            return Ok(());
        }
        self.bal.insert((from.to_string(), asset.to_string()), have - amount);
        *self.bal.entry((to.to_string(), asset.to_string())).or_default() += amount;
        Ok(())
    }

    pub fn tx(&mut self, sender: &str, msgs: &[CosmosMsg]) -> Res {
        for m in msgs {
            let v = serde_json::to_value(m).unwrap();
            self.cosmos(sender, &v)?;
        }
        Ok(())
    }

    pub fn cosmos(&mut self, sender: &str, m: &Value) -> Res {
        let (k, v) = top(m);
        match k.as_str() {
            "bank" => {
                let (k, v) = top(&v);
                if k != "send" {
                    return unk("bank msg");
                }
                let cs = coins(&v["amount"]);
                if cs.iter().all(|c| c.1 == 0) {
                    return rej(&[], "empty coins");
                }
                for (d, a) in cs {
                    self.mv(sender, v["to_address"].as_str().unwrap_or(""), &nat(&d), a)?;
                }
                Ok(())
            }
            "wasm" => {
                let (k, v) = top(&v);
                if k != "execute" {
                    return unk("wasm msg");
                }
                let msg = match b64(&v["msg"]) {
                    Some(m) => m,
                    None => return rej(&[], "message is not json"),
                };
                let mut funds: BTreeMap<String, u128> = BTreeMap::new();
                for (d, a) in coins(&v["funds"]) {
                    *funds.entry(d).or_default() += a;
                }
                let funds: Vec<(String, u128)> = funds.into_iter().filter(|x| x.1 > 0).collect();
                self.call(sender, v["contract_addr"].as_str().unwrap_or(""), &msg, &funds)
            }
            _ => unk("msg kind"),
        }
    }

    pub fn call(&mut self, sender: &str, target: &str, msg: &Value, funds: &[(String, u128)]) -> Res {
        let (di, role) = match self.role(target) {
            Some(r) => r,
            None => return rej(&[], "no such contract"),
        };
        for (d, a) in funds {
            self.mv(sender, target, &nat(d), *a)?;
        }
        let (k, v) = top(msg);
        if k.is_empty() && role != Role::Recorder {
            return rej(&[], "malformed message");
        }
        match role {
            Role::Cw20 => self.cw20(sender, target, &k, &v),
            Role::Cw721 => self.cw721(sender, target, &k, &v),
            Role::Recorder => self.recorder(sender, target, msg, funds),
            Role::Controller => self.controller(di, sender, &k, &v, funds),
            Role::Governance => self.governance(di, sender, &k),
            Role::Enterprise => self.enterprise(di, sender, &k, &v),
            Role::Treasury => self.treasury(di, sender, &k, &v),
            Role::Distributor => self.distributor(di, sender, &k, &v, funds),
            Role::Membership => self.membership(di, sender, &k, &v, funds),
            Role::Council => self.council(di, sender, &k, &v),
            Role::Attestation => {
                if k == "sign_attestation" {
                    self.touch.insert((di, "sign"));
                    self.daos[di].hid.signed.insert(sender.to_string());
                    self.daos[di].restricted.remove(sender);
                    Ok(())
                } else {
                    rej(&["C08"], "unknown attestation message")
                }
            }
            Role::Outposts => {
                let c = self.daos[di].c("controller").to_string();
                match k.as_str() {
                    "deploy_cross_chain_treasury" | "execute_cross_chain_treasury" if sender != c => {
                        rej(&["C08", "C21"], "outposts: not governance")
                    }
                    "execute_msg_reply_callback" => rej(&["C08", "C21"], "forged cross-chain reply"),
                    _ => unk("outposts"),
                }
            }
        }
    }

    // ---- third party tokens ----------------------------------------------------------------

    fn cw20(&mut self, sender: &str, t: &str, k: &str, v: &Value) -> Res {
        let amount = uint(&v["amount"]);
        match k {
            "transfer" => {
                let r = s(&v["recipient"]);
                if !valid_addr(&r) {
                    return rej(&[], "bad address");
                }
                if amount == 0 {
                    self.may_refuse = true;
                    return Ok(());
                }
                self.mv(sender, &r, &tok(t), amount)
            }
            "send" => {
                let c = s(&v["contract"]);
                if amount == 0 {
                    return unk("zero send");
                }
                self.mv(sender, &c, &tok(t), amount)?;
                let m = json!({"receive": {"sender": sender, "amount": amount.to_string(), "msg": v["msg"]}});
                self.call(t, &c, &m, &[])
            }
            _ => unk("cw20 msg"),
        }
    }

    fn cw721(&mut self, sender: &str, t: &str, k: &str, v: &Value) -> Res {
        let id = s(&v["token_id"]);
        let key = (t.to_string(), id.clone());
        let (owner, appr) = match self.nft.get(&key) {
            Some(x) => x.clone(),
            None => return rej(&[], "no such nft"),
        };
        let may = owner == sender || approved(&appr, sender, self.now);
        match k {
            "approve" => {
                if owner != sender {
                    return rej(&[], "not owner");
                }
                let until = match v.get("expires").and_then(|e| e.get("at_time")) {
                    Some(t) => Some(uint(t) as u64),
                    None => None,
                };
                if until.map_or(false, |u| self.now >= u) {
                    return rej(&[], "approval already expired");
                }
                self.nft.get_mut(&key).unwrap().1.insert(s(&v["spender"]), until);
                Ok(())
            }
            "transfer_nft" => {
                if !may {
                    return rej(&[], "not owner");
                }
                let r = s(&v["recipient"]);
                if !valid_addr(&r) {
                    return rej(&[], "bad address");
                }
                self.nft.insert(key, (r, Approvals::new()));
                Ok(())
            }
            "send_nft" => {
                if !may {
                    return rej(&[], "not owner");
                }
                let c = s(&v["contract"]);
                self.nft.insert(key, (c.clone(), Approvals::new()));
                let m = json!({"receive_nft": {"sender": sender, "token_id": id, "msg": v["msg"]}});
                self.call(t, &c, &m, &[])
            }
            _ => unk("cw721 msg"),
        }
    }

    fn recorder(&mut self, sender: &str, t: &str, msg: &Value, funds: &[(String, u128)]) -> Res {
        if msg.get("fail").is_some() {
            return rej(&[], "recorder fails");
        }
        if msg.get("set").is_some() {
            return Ok(());
        }
        let f: Vec<Value> = funds.iter().map(|(d, a)| json!({"denom": d, "amount": a.to_string()})).collect();
        self.logs
            .entry(t.to_string())
            .or_default()
            .push(json!({"sender": sender, "msg": msg, "funds": f}));
        if let Some(fw) = msg.get("forward") {
            for m in arr(fw) {
                self.cosmos(t, &m)?;
            }
        }
        Ok(())
    }

    // ---- voting ----------------------------------------------------------------------------

    fn governance(&mut self, di: usize, sender: &str, k: &str) -> Res {
        if sender != self.daos[di].c("controller") {
            return rej(&["C08"], "voting engine called by someone else than the controller");
        }
        let _ = k;
        unk("governance via controller")
    }

    fn controller(&mut self, di: usize, sender: &str, k: &str, v: &Value, funds: &[(String, u128)]) -> Res {
        let me = self.daos[di].c("controller").to_string();
        match k {
            "create_proposal" => {
                let d = &self.daos[di];
                let mut dep = None;
                if d.kind == Kind::Denom {
                    let owner = match v.get("deposit_owner").and_then(|x| x.as_str()) {
                        Some(o) if !valid_addr(o) => return rej(&["C05", "C06"], "bad deposit owner"),
                        Some(o) => o.to_string(),
                        None => sender.to_string(),
                    };
                    if let Some((den, a)) = funds.iter().find(|f| f.0 == d.asset) {
                        dep = Some(Deposit {
                            owner,
                            asset: DepAsset::Fungible(nat(den), *a),
                        });
                    }
                }
                self.create(di, v, dep, sender)
            }
            "create_proposal_with_nft_deposit" => {
                let d = &self.daos[di];
                if d.kind != Kind::Nft {
                    return rej(&["C05", "C06"], "nft deposit in a non-nft dao");
                }
                let toks: Vec<String> = arr(&v["deposit_tokens"]).iter().map(s).collect();
                let set: BTreeSet<&String> = toks.iter().collect();
                if set.len() != toks.len() {
                    return rej(&["C05", "C06"], "repeated deposit token");
                }
                let coll = d.asset.clone();
                for t in &toks {
                    match self.nft.get(&(coll.clone(), t.clone())) {
                        None => return rej(&["C05"], "no such token"),
                        Some((o, ap)) => {
                            if o != sender && !approved(ap, sender, self.now) {
                                return rej(&["C05"], "depositing someone else's nft");
                            }
                            if *o != me && !approved(ap, &me, self.now) {
                                return rej(&["C05"], "controller not approved");
                            }
                        }
                    }
                }
                let cm = &v["create_proposal_msg"];
                let owner = match cm.get("deposit_owner").and_then(|x| x.as_str()) {
                    Some(o) if !valid_addr(o) => return rej(&["C05", "C06"], "bad deposit owner"),
                    Some(o) => o.to_string(),
                    None => sender.to_string(),
                };
                self.create(
                    di,
                    cm,
                    Some(Deposit {
                        owner,
                        asset: DepAsset::Nfts(coll.clone(), toks.clone()),
                    }),
                    sender,
                )?;
                for t in toks {
                    self.nft.insert((coll.clone(), t), (me.clone(), Approvals::new()));
                }
                Ok(())
            }
            "create_council_proposal" => self.create_council(di, v, sender),
            "cast_vote" | "cast_council_vote" => {
                let council = k == "cast_council_vote";
                let d = &self.daos[di];
                let now = self.now;
                if d.is_restricted(sender) {
                    return rej(&["C16"], "restricted voter");
                }
                if council && d.council_cfg.is_none() {
                    return rej(&["C07"], "no council");
                }
                let w = if council { d.cw(sender) } else { d.w(sender) };
                if w == 0 {
                    return rej(if council { &["C07", "C01"] } else { &["C01"] }, "voter without weight");
                }
                let id = uint(&v["proposal_id"]) as u64;
                let p = match d.props.get(&id) {
                    None => return rej(&["C01"], "no such proposal"),
                    Some(p) => p,
                };
                if p.council != council {
                    return rej(&["C07"], "wrong proposal type");
                }
                if p.executed {
                    return rej(&["C01"], "vote on an executed proposal");
                }
                if now < p.started || now >= p.ends {
                    return rej(&["C01"], "vote outside the voting period");
                }
                let o = match v["outcome"].as_str() {
                    Some("yes") => YES,
                    Some("no") => NO,
                    Some("abstain") => ABSTAIN,
                    Some("veto") => VETO,
                    _ => return rej(&["C01"], "bad outcome"),
                };
                let before = d.judge_now(p, now);
                let before_v = [p.tally()[0], p.tally()[1]];
                let d = &mut self.daos[di];
                d.props.get_mut(&id).unwrap().votes.insert(sender.to_string(), (o, w));
                let p = &d.props[&id];
                let after = d.judge_now(p, now);
                let after_v = [p.tally()[0], p.tally()[1]];
                // two draws at different counts are different outcomes for the delay rule
                let changed = exec_class(before) != exec_class(after)
                    || (before == Judged::Draw && after == Judged::Draw && before_v != after_v);
                if !council && d.gov.early && d.kind != Kind::Multisig && changed {
                    let t = (now + d.gov.duration / 10 * 1_000_000_000).min(p.ends);
                    d.hid.earliest.insert(id, t);
                    self.touch.insert((di, "delay"));
                }
                self.touch.insert((di, "vote"));
                self.voted.insert((di, id));
                Ok(())
            }
            "execute_proposal" => self.execute_proposal(di, v, sender),
            "receive" => {
                let m = b64(&v["msg"]).unwrap_or(Value::Null);
                let (k, cm) = top(&m);
                if k != "create_proposal" {
                    return rej(&["C05"], "unknown hook");
                }
                let d = &self.daos[di];
                if d.kind != Kind::Token || sender != d.asset {
                    return rej(&["C05", "C08"], "deposit in a foreign token");
                }
                let prop = s(&v["sender"]);
                let owner = match cm.get("deposit_owner").and_then(|x| x.as_str()) {
                    Some(o) if !valid_addr(o) => return rej(&["C05", "C06"], "bad deposit owner"),
                    Some(o) => o.to_string(),
                    None => prop.clone(),
                };
                let dep = Deposit {
                    owner,
                    asset: DepAsset::Fungible(tok(&d.asset), uint(&v["amount"])),
                };
                self.create(di, &cm, Some(dep), &prop)
            }
            "weights_changed" => {
                let d = &self.daos[di];
                if sender == d.c("council") {
                    return Ok(());
                }
                if sender != d.c("membership") {
                    return rej(&["C08"], "weight report by someone else than membership");
                }
                let ch: Vec<(String, u128)> = arr(&v["weight_changes"])
                    .iter()
                    .map(|x| (s(&x["user"]), uint(&x["new_weight"])))
                    .collect();
                self.weights_report(di, &ch);
                Ok(())
            }
            "execute_proposal_actions" => {
                if sender != me {
                    return rej(&["C08", "C04"], "actions run by someone else than the controller");
                }
                unk("self-call")
            }
            "deploy_initial_cross_chain_treasuries" => rej(&["C08", "C21"], "initial deployment after creation"),
            _ => rej(&[], "unknown controller message"),
        }
    }

    fn create(&mut self, di: usize, m: &Value, dep: Option<Deposit>, proposer: &str) -> Res {
        let d = &self.daos[di];
        if d.is_restricted(proposer) {
            return rej(&["C16"], "restricted proposer");
        }
        match d.gov.min_deposit {
            None => {
                if d.w(proposer) == 0 {
                    return rej(&["C06"], "proposer without weight");
                }
            }
            Some(min) => {
                let a = match &dep {
                    None => 0,
                    Some(x) => match &x.asset {
                        DepAsset::Fungible(_, a) => *a,
                        DepAsset::Nfts(_, t) => t.len() as u128,
                    },
                };
                if a < min {
                    return rej(&["C06", "C05"], "deposit below the minimum");
                }
            }
        }
        self.validate_actions(di, &m["proposal_actions"])?;
        self.add_prop(di, m, false, proposer, dep);
        Ok(())
    }

    fn create_council(&mut self, di: usize, m: &Value, sender: &str) -> Res {
        let d = &self.daos[di];
        if d.is_restricted(sender) {
            return rej(&["C16"], "restricted proposer");
        }
        let cfg = match &d.council_cfg {
            None => return rej(&["C07"], "no council"),
            Some(c) => c.clone(),
        };
        self.validate_actions(di, &m["proposal_actions"])?;
        if d.cw(sender) == 0 {
            return rej(&["C07"], "not a council member");
        }
        for a in arr(&m["proposal_actions"]) {
            let (k, _) = top(&a);
            if !cfg.allowed.contains(&k) {
                return rej(&["C07"], "action not allowed for the council");
            }
        }
        self.add_prop(di, m, true, sender, None);
        Ok(())
    }

    fn add_prop(&mut self, di: usize, m: &Value, council: bool, proposer: &str, dep: Option<Deposit>) {
        let now = self.now;
        let d = &mut self.daos[di];
        let id = d.hid.next_prop;
        d.hid.next_prop += 1;
        let (q, t) = if council {
            let c = d.council_cfg.as_ref().unwrap();
            (c.quorum, c.threshold)
        } else {
            (d.gov.quorum, d.gov.threshold)
        };
        d.props.insert(
            id,
            Prop {
                council,
                proposer: proposer.to_string(),
                title: s(&m["title"]),
                desc: s(&m["description"]),
                actions: m["proposal_actions"].clone(),
                started: now,
                ends: now + d.gov.duration * 1_000_000_000,
                quorum: q,
                threshold: t,
                veto: d.gov.veto,
                votes: BTreeMap::new(),
                results: [0; 4],
                executed: false,
                judged: None,
                status: String::new(),
                total_reported: 0,
            },
        );
        if let Some(x) = dep {
            d.hid.deposits.insert(id, x);
        }
        self.touch.insert((di, "create"));
    }

    pub fn gov_with(gov: &Gov, m: &Value) -> Gov {
        let mut g = gov.clone();
        if let Some(x) = change(&m["quorum"]) {
            g.quorum = dec(x);
        }
        if let Some(x) = change(&m["threshold"]) {
            g.threshold = dec(x);
        }
        if let Some(x) = change(&m["veto_threshold"]) {
            g.veto = if x.is_null() { None } else { Some(dec(x)) };
        }
        if let Some(x) = change(&m["voting_duration"]) {
            g.duration = uint(x) as u64;
        }
        if let Some(x) = change(&m["minimum_deposit"]) {
            g.min_deposit = if x.is_null() { None } else { Some(uint(x)) };
        }
        if let Some(x) = change(&m["allow_early_proposal_execution"]) {
            g.early = x.as_bool().unwrap_or(false);
        }
        g
    }
    pub fn gov_valid(kind: Kind, g: &Gov) -> bool {
        let ok = |x: u128| x > 0 && x <= ONE;
        g.duration > 0
            && ok(g.quorum)
            && ok(g.threshold)
            && g.veto.map_or(true, ok)
            && !(kind == Kind::Multisig && g.min_deposit.is_some())
    }
    pub fn council_valid(c: &Value) -> Result<Option<CouncilCfg>, &'static str> {
        if c.is_null() {
            return Ok(None);
        }
        let ms: Vec<String> = arr(&c["members"]).iter().map(s).collect();
        if ms.iter().any(|m| !valid_addr(m)) {
            return Err("bad council member");
        }
        if ms.iter().collect::<BTreeSet<_>>().len() != ms.len() {
            return Err("repeated council member");
        }
        let allowed: Vec<String> = match c.get("allowed_proposal_action_types") {
            None | Some(Value::Null) => vec!["upgrade_dao".to_string()],
            Some(a) => arr(a).iter().map(s).collect(),
        };
        if allowed.iter().any(|a| !COUNCIL_ALLOWED.contains(&a.as_str())) {
            return Err("dangerous council power");
        }
        let ok = |x: u128| x > 0 && x <= ONE;
        let (q, t) = (dec(&c["quorum"]), dec(&c["threshold"]));
        if !ok(q) || !ok(t) {
            return Err("council quorum or threshold out of range");
        }
        Ok(Some(CouncilCfg {
            allowed,
            quorum: q,
            threshold: t,
        }))
    }

    fn validate_actions(&self, di: usize, actions: &Value) -> Res {
        let d = &self.daos[di];
        let acts = arr(actions);
        if acts.len() > 10 {
            return rej(&["C06"], "more than ten actions");
        }
        for a in &acts {
            let (k, m) = top(a);
            let local = m.get("remote_treasury_target").map_or(true, |x| x.is_null());
            match k.as_str() {
                "update_asset_whitelist" if local => {
                    let mut sets = vec![];
                    for f in ["add", "remove"] {
                        let mut set = BTreeSet::new();
                        for x in arr(&m[f]) {
                            let key = match asset_key(&x) {
                                Some(k) => k,
                                None => return rej(&["C06"], "bad asset"),
                            };
                            if let Some(ad) = key.strip_prefix("c:") {
                                if !valid_addr(ad) {
                                    return rej(&["C06"], "bad asset address");
                                }
                            }
                            if !set.insert(key) {
                                return rej(&["C06"], "repeated asset");
                            }
                        }
                        sets.push(set);
                    }
                    if sets[0].intersection(&sets[1]).next().is_some() {
                        return rej(&["C06"], "asset both added and removed");
                    }
                }
                "update_nft_whitelist" => {
                    let mut sets = vec![];
                    for f in ["add", "remove"] {
                        let mut set = BTreeSet::new();
                        for x in arr(&m[f]) {
                            let x = s(&x);
                            if !valid_addr(&x) {
                                return rej(&["C06"], "bad nft address");
                            }
                            if !set.insert(x) {
                                return rej(&["C06"], "repeated nft");
                            }
                        }
                        sets.push(set);
                    }
                    if sets[0].intersection(&sets[1]).next().is_some() {
                        return rej(&["C06"], "nft both added and removed");
                    }
                }
                "upgrade_dao" => {
                    if ver(&m["new_version"]) <= d.version {
                        return rej(&["C06", "C18"], "upgrade to a version that is not newer");
                    }
                }
                "execute_msgs" | "execute_treasury_msgs" | "execute_enterprise_msgs" => {
                    for x in arr(&m["msgs"]) {
                        if serde_json::from_str::<CosmosMsg>(x.as_str().unwrap_or("")).is_err() {
                            return rej(&["C06"], "not a chain message");
                        }
                    }
                }
                "modify_multisig_membership" => {
                    if d.kind != Kind::Multisig {
                        return rej(&["C06"], "membership edit outside a multisig");
                    }
                    let us: Vec<String> = arr(&m["edit_members"]).iter().map(|x| s(&x["user"])).collect();
                    if us.iter().any(|u| !valid_addr(u)) || us.iter().collect::<BTreeSet<_>>().len() != us.len() {
                        return rej(&["C06"], "bad or repeated member edit");
                    }
                }
                "update_council" => {
                    if let Err(e) = Self::council_valid(&m["dao_council"]) {
                        return rej(&["C06", "C07"], e);
                    }
                }
                "distribute_funds" => {
                    for x in arr(&m["funds"]) {
                        match asset_key(&x["info"]) {
                            Some(k) if k.starts_with("m:") => return rej(&["C06"], "multi-token asset"),
                            Some(k) if k.starts_with("c:") && !valid_addr(&k[2..]) => {
                                return rej(&["C06"], "bad asset address")
                            }
                            _ => {}
                        }
                    }
                }
                "request_funding_from_dao" if local => {
                    if !valid_addr(m["recipient"].as_str().unwrap_or("")) {
                        return rej(&["C06"], "bad recipient");
                    }
                    for x in arr(&m["assets"]) {
                        match asset_key(&x["info"]) {
                            Some(k) if k.starts_with("m:") => return rej(&["C06"], "multi-token asset"),
                            Some(k) if k.starts_with("c:") && !valid_addr(&k[2..]) => {
                                return rej(&["C06"], "bad asset address")
                            }
                            _ => {}
                        }
                    }
                }
                "update_gov_config" => {
                    let g = Self::gov_with(&d.gov, &m);
                    if !Self::gov_valid(d.kind, &g) {
                        return rej(&["C06", "C26"], "invalid governance parameters");
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }

    fn execute_proposal(&mut self, di: usize, v: &Value, sender: &str) -> Res {
        let now = self.now;
        let id = uint(&v["proposal_id"]) as u64;
        let d = &self.daos[di];
        if d.is_restricted(sender) {
            return rej(&["C16"], "restricted executor");
        }
        let j = match d.executable(id, now) {
            Err("zero-total") => return rej(&["C03"], "zero-total"),
            Err(e) => return rej(&["C03"], e),
            Ok(j) => j,
        };
        let total = d.total_for(&d.props[&id], now);
        self.touch.insert((di, "exec"));
        let actions = d.props[&id].actions.clone();
        let council = d.props[&id].council;
        {
            let d = &mut self.daos[di];
            let p = d.props.get_mut(&id).unwrap();
            p.executed = true;
            p.judged = Some(j);
            d.hid.judged_total.insert(id, total);
            d.hid.executed_at.insert(id, now);
        }
        let dep = self.daos[di].hid.deposits.get(&id).cloned();
        if j == Judged::Passed {
            let save = self.clone();
            let r = if self.actions_fail { rej(&[], "injected") } else { self.run_actions(di, &actions) };
            match r {
                Err(e) if e.unk => return Err(e),
                _ if self.may_refuse => return unk("action without content"),
                Ok(()) => self.executed_ok_actions.push((di, id, true)),
                Err(_) => {
                    *self = save;
                    self.executed_ok_actions.push((di, id, false));
                }
            }
        }
        if let Some(dep) = dep {
            let to = if !council && matches!(j, Judged::Quorum | Judged::Veto) {
                self.daos[di].c("treasury").to_string()
            } else {
                dep.owner.clone()
            };
            let me = self.daos[di].c("controller").to_string();
            self.daos[di].hid.settled.insert(id);
            self.touch.insert((di, "settle"));
            match dep.asset {
                DepAsset::Fungible(a, n) => self.mv(&me, &to, &a, n)?,
                DepAsset::Nfts(c, ts) => {
                    for t in ts {
                        match self.nft.get(&(c.clone(), t.clone())) {
                            Some((o, _)) if *o == me => {
                                self.nft.insert((c.clone(), t), (to.clone(), Approvals::new()));
                            }
                            _ => return rej(&[], "deposit nft gone"),
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn run_actions(&mut self, di: usize, actions: &Value) -> Res {
        let ctrl = self.daos[di].c("controller").to_string();
        let tre = self.daos[di].c("treasury").to_string();
        let ent = self.daos[di].c("enterprise").to_string();
        let dis = self.daos[di].c("distributor").to_string();
        let mem = self.daos[di].c("membership").to_string();
        let cou = self.daos[di].c("council").to_string();
        for a in arr(actions) {
            let (k, m) = top(&a);
            if m.get("remote_treasury_target").map_or(false, |x| !x.is_null()) {
                return unk("remote treasury");
            }
            match k.as_str() {
                "update_metadata" => self.call(&ctrl, &ent, &json!({ "update_metadata": m }), &[])?,
                "update_gov_config" => {
                    let d = &mut self.daos[di];
                    let g = Self::gov_with(&d.gov, &m);
                    if !Self::gov_valid(d.kind, &g) {
                        return rej(&[], "invalid governance parameters");
                    }
                    d.gov = g.clone();
                    if let Some(x) = change(&m["unlocking_period"]) {
                        let u = dur(x);
                        if let Some(Dur::Time(t)) = u {
                            if t < g.duration {
                                return rej(&[], "unlocking period below voting period");
                            }
                        }
                        if d.kind != Kind::Multisig {
                            d.unlocking = u;
                        }
                    }
                    self.touch.insert((di, "gov"));
                }
                "update_council" => {
                    let cfg = match Self::council_valid(&m["dao_council"]) {
                        Err(e) => return rej(&[], e),
                        Ok(c) => c,
                    };
                    self.daos[di].council_cfg = cfg;
                    let ms: Vec<Value> = arr(&m["dao_council"]["members"])
                        .iter()
                        .map(|u| json!({"user": u, "weight": "1"}))
                        .collect();
                    self.call(&ctrl, &cou, &json!({"set_members": {"new_members": ms}}), &[])?;
                }
                "update_asset_whitelist" => {
                    self.call(&ctrl, &tre, &json!({"update_asset_whitelist": {"add": m["add"], "remove": m["remove"]}}), &[])?
                }
                "update_nft_whitelist" => {
                    self.call(&ctrl, &tre, &json!({"update_nft_whitelist": {"add": m["add"], "remove": m["remove"]}}), &[])?
                }
                "request_funding_from_dao" => self.call(
                    &ctrl,
                    &tre,
                    &json!({"spend": {"recipient": m["recipient"], "assets": m["assets"]}}),
                    &[],
                )?,
                "execute_msgs" => {
                    for x in arr(&m["msgs"]) {
                        let v: Value = serde_json::from_str(x.as_str().unwrap_or("")).unwrap_or(Value::Null);
                        self.cosmos(&ctrl, &v)?;
                    }
                }
                "execute_treasury_msgs" => {
                    self.call(&ctrl, &tre, &json!({"execute_cosmos_msgs": {"msgs": m["msgs"]}}), &[])?
                }
                "execute_enterprise_msgs" => {
                    self.call(&ctrl, &ent, &json!({"execute_msgs": {"msgs": m["msgs"]}}), &[])?
                }
                "modify_multisig_membership" => {
                    if self.daos[di].kind != Kind::Multisig {
                        return rej(&[], "not a multisig");
                    }
                    self.call(&ctrl, &mem, &json!({"update_members": {"update_members": m["edit_members"]}}), &[])?
                }
                "distribute_funds" => self.call(
                    &ctrl,
                    &tre,
                    &json!({"distribute_funds": {"funds": m["funds"], "funds_distributor_contract": dis}}),
                    &[],
                )?,
                "update_minimum_weight_for_rewards" => self.call(
                    &ctrl,
                    &dis,
                    &json!({"update_minimum_eligible_weight": {"minimum_eligible_weight": m["minimum_weight_for_rewards"]}}),
                    &[],
                )?,
                "upgrade_dao" => {
                    if !self.versions.contains(&ver(&m["new_version"])) {
                        return rej(&[], "no such version");
                    }
                    return unk("upgrade");
                }
                _ => return unk("action kind"),
            }
        }
        Ok(())
    }

    // ---- membership ------------------------------------------------------------------------

    fn weights_report(&mut self, di: usize, ch: &[(String, u128)]) {
        let now = self.now;
        let d = &mut self.daos[di];
        for (u, w) in ch {
            for p in d.props.values_mut() {
                if p.executed || p.ends <= now || p.council {
                    continue;
                }
                if let Some(v) = p.votes.get_mut(u) {
                    v.1 = *w;
                }
            }
            d.hid.settled_rewards.insert(u.clone());
            d.hid.weights_since_dist.insert(u.clone());
            floor_acc(d, u);
        }
        self.touch.insert((di, "weights"));
    }

    fn save_total(&mut self, di: usize, council: bool, total: u128) {
        let e = (self.height, self.now, total);
        let d = &mut self.daos[di];
        if council {
            d.council_total = total;
            d.hid.council_totals.push(e);
        } else {
            d.total = total;
            d.hid.totals.push(e);
        }
    }

    fn report(&mut self, di: usize, changes: Vec<(String, u128, u128)>) -> Res {
        let ctrl = self.daos[di].c("controller").to_string();
        let mem = self.daos[di].c("membership").to_string();
        let hooks: Vec<String> = self.daos[di].hid.hooks.iter().cloned().collect();
        let msg = json!({"weights_changed": {"weight_changes": changes.iter().map(|(u, o, n)|
            json!({"user": u, "old_weight": o.to_string(), "new_weight": n.to_string()})).collect::<Vec<_>>()}});
        for hk in hooks {
            if hk == ctrl {
                let ch: Vec<(String, u128)> = changes.iter().map(|(u, _, n)| (u.clone(), *n)).collect();
                self.weights_report(di, &ch);
            } else {
                self.call(&mem, &hk, &msg, &[])?;
            }
        }
        Ok(())
    }

    fn set_w(&mut self, di: usize, u: &str, w: u128) -> u128 {
        let d = &mut self.daos[di];
        let old = d.w(u);
        if w == 0 {
            d.weights.remove(u);
        } else {
            d.weights.insert(u.to_string(), w);
        }
        old
    }

    fn membership(&mut self, di: usize, sender: &str, k: &str, v: &Value, funds: &[(String, u128)]) -> Res {
        let d = &self.daos[di];
        let kind = d.kind;
        let ctrl = d.c("controller").to_string();
        let mem = d.c("membership").to_string();
        let asset = d.asset.clone();
        match (kind, k) {
            (_, "add_weight_change_hook") | (_, "remove_weight_change_hook") => {
                if sender != ctrl {
                    return rej(&["C08"], "hook change by someone else than governance");
                }
                let hk = s(&v["hook_addr"]);
                if !valid_addr(&hk) {
                    return rej(&[], "bad address");
                }
                if k.starts_with("add") {
                    self.daos[di].hid.hooks.insert(hk);
                } else {
                    self.daos[di].hid.hooks.remove(&hk);
                }
                Ok(())
            }
            (Kind::Multisig, "update_members") | (Kind::Multisig, "set_members") => {
                if sender != ctrl {
                    return rej(&["C08"], "member edit by someone else than governance");
                }
                let set = k == "set_members";
                let list = arr(&v[if set { "new_members" } else { "update_members" }]);
                let us: Vec<(String, u128)> = list.iter().map(|x| (s(&x["user"]), uint(&x["weight"]))).collect();
                if us.iter().any(|u| !valid_addr(&u.0))
                    || us.iter().map(|x| &x.0).collect::<BTreeSet<_>>().len() != us.len()
                {
                    return rej(&["C11"], "bad or repeated member");
                }
                let mut ch = vec![];
                if set {
                    let old: Vec<String> = self.daos[di].weights.keys().cloned().collect();
                    for u in old {
                        if !us.iter().any(|x| x.0 == u) {
                            let o = self.set_w(di, &u, 0);
                            ch.push((u, o, 0));
                        }
                    }
                }
                for (u, w) in us {
                    let o = self.set_w(di, &u, w);
                    ch.push((u, o, w));
                }
                let t: u128 = self.daos[di].weights.values().sum();
                self.save_total(di, false, t);
                self.report(di, ch)
            }
            (Kind::Multisig, _) => rej(&[], "unknown multisig message"),
            (_, "update_unlocking_period") => {
                if sender != ctrl {
                    return rej(&["C08"], "unlocking change by someone else than governance");
                }
                if !v["new_unlocking_period"].is_null() {
                    self.daos[di].unlocking = dur(&v["new_unlocking_period"]);
                }
                Ok(())
            }
            (Kind::Denom, "stake") => {
                if funds.len() != 1 || funds[0].0 != asset {
                    return rej(&["C09"], "staking something else than the dao coin");
                }
                let u = match v.get("user").and_then(|x| x.as_str()) {
                    Some(u) if !valid_addr(u) => return rej(&[], "bad address"),
                    Some(u) => u.to_string(),
                    None => sender.to_string(),
                };
                self.add_stakes(di, &[(u, funds[0].1)])
            }
            (Kind::Token, "receive") => {
                if sender != asset {
                    return rej(&["C09", "C08"], "staking a foreign token");
                }
                let amount = uint(&v["amount"]);
                let m = b64(&v["msg"]).unwrap_or(Value::Null);
                let (hk, hv) = top(&m);
                match hk.as_str() {
                    "stake" => {
                        let u = s(&hv["user"]);
                        if !valid_addr(&u) {
                            return rej(&[], "bad address");
                        }
                        self.add_stakes(di, &[(u, amount)])
                    }
                    "add_stakes" => {
                        let l: Vec<(String, u128)> = arr(&hv["stakers"])
                            .iter()
                            .map(|x| (s(&x["user"]), uint(&x["staked_amount"])))
                            .filter(|x| x.1 > 0)
                            .collect();
                        if l.iter().any(|x| !valid_addr(&x.0)) {
                            return rej(&[], "bad address");
                        }
                        if l.iter().map(|x| x.1).sum::<u128>() != amount {
                            return rej(&["C09"], "stakes do not add up to the tokens handed over");
                        }
                        self.add_stakes(di, &l)
                    }
                    "add_claims" => {
                        let l: Vec<(String, u128, Option<Rel>)> = arr(&hv["claims"])
                            .iter()
                            .map(|x| (s(&x["user"]), uint(&x["claim_amount"]), rel(&x["release_at"])))
                            .collect();
                        if l.iter().any(|x| !valid_addr(&x.0) || x.2.is_none()) {
                            return rej(&[], "bad claim");
                        }
                        if l.iter().map(|x| x.1).sum::<u128>() != amount {
                            return rej(&["C09", "C10"], "claims do not add up to the tokens handed over");
                        }
                        for (u, a, r) in l {
                            self.add_claim(di, &u, Claim { rel: r.unwrap(), amount: a, tokens: vec![] });
                        }
                        Ok(())
                    }
                    _ => rej(&["C09"], "unknown hook"),
                }
            }
            (Kind::Nft, "receive_nft") => {
                if sender != asset {
                    return rej(&["C09", "C08", "C23"], "staking an nft of a foreign collection");
                }
                let m = b64(&v["msg"]).unwrap_or(Value::Null);
                let (hk, hv) = top(&m);
                let id = s(&v["token_id"]);
                let u = s(&hv["user"]);
                if !valid_addr(&u) {
                    return rej(&[], "bad address");
                }
                match hk.as_str() {
                    "stake" => {
                        if self.daos[di].is_restricted(&u) {
                            return rej(&["C16"], "stake for a restricted user");
                        }
                        if self.daos[di].nft_stakes.values().any(|x| x.contains(&id)) {
                            return rej(&["C09"], "already staked");
                        }
                        self.daos[di].nft_stakes.entry(u.clone()).or_default().insert(id);
                        self.add_stakes(di, &[(u, 1)])
                    }
                    "add_claim" => {
                        let r = match rel(&hv["release_at"]) {
                            Some(r) => r,
                            None => return rej(&[], "bad release"),
                        };
                        self.add_claim(di, &u, Claim { rel: r, amount: 0, tokens: vec![id] });
                        Ok(())
                    }
                    _ => rej(&["C09"], "unknown hook"),
                }
            }
            (_, "unstake") => {
                let d = &self.daos[di];
                let rel = match d.unlocking.as_ref().unwrap() {
                    Dur::Time(t) => Rel::Time(self.now + t * 1_000_000_000),
                    Dur::Height(hh) => Rel::Height(self.height + hh),
                };
                let old = d.w(sender);
                let (n, toks) = if kind == Kind::Nft {
                    let toks: Vec<String> = arr(&v["nft_ids"]).iter().map(s).collect();
                    let mine = d.nft_stakes.get(sender).cloned().unwrap_or_default();
                    let set: BTreeSet<String> = toks.iter().cloned().collect();
                    if set.len() != toks.len() || !set.is_subset(&mine) {
                        return rej(&["C09"], "unstaking an nft that is not one's own stake");
                    }
                    (toks.len() as u128, toks)
                } else {
                    (uint(&v["amount"]), vec![])
                };
                if n == 0 {
                    self.may_refuse = true;
                    // the fraction of a unit accrued so far may be settled by it
                    floor_acc(&mut self.daos[di], sender);
                    return Ok(());
                }
                if n > old {
                    return rej(&["C09"], "unstaking more than staked");
                }
                if kind == Kind::Nft {
                    let e = self.daos[di].nft_stakes.get_mut(sender).unwrap();
                    for t in &toks {
                        e.remove(t);
                    }
                }
                self.set_w(di, sender, old - n);
                let t = self.daos[di].total - n;
                self.save_total(di, false, t);
                let amount = if kind == Kind::Nft { 0 } else { n };
                self.add_claim(di, sender, Claim { rel, amount, tokens: sorted(toks) });
                self.touch.insert((di, "unstake"));
                self.report(di, vec![(sender.to_string(), old, old - n)])
            }
            (_, "claim") => {
                let u = match v.get("user").and_then(|x| x.as_str()) {
                    Some(u) => u.to_string(),
                    None => sender.to_string(),
                };
                if u != sender {
                    return rej(&["C10"], "claiming for someone else");
                }
                let (now, hh) = (self.now, self.height);
                let cl = self.daos[di].claims.entry(u.clone()).or_default();
                let (ready, rest): (Vec<Claim>, Vec<Claim>) = cl.drain(..).partition(|c| match c.rel {
                    Rel::Time(t) => now >= t,
                    Rel::Height(x) => hh >= x,
                });
                *cl = rest;
                if ready.is_empty() {
                    self.may_refuse = true;
                    return Ok(());
                }
                self.touch.insert((di, "claim"));
                let n: u128 = ready.iter().map(|c| c.amount).sum();
                match kind {
                    Kind::Denom => self.mv(&mem, &u, &nat(&asset), n),
                    Kind::Token => self.mv(&mem, &u, &tok(&asset), n),
                    _ => {
                        for t in ready.iter().flat_map(|c| c.tokens.iter()) {
                            self.nft.insert((asset.clone(), t.clone()), (u.clone(), Approvals::new()));
                        }
                        Ok(())
                    }
                }
            }
            _ => rej(&[], "unknown membership message"),
        }
    }

    fn add_claim(&mut self, di: usize, u: &str, c: Claim) {
        let l = self.daos[di].claims.entry(u.to_string()).or_default();
        l.push(c);
        l.sort();
    }

    fn add_stakes(&mut self, di: usize, l: &[(String, u128)]) -> Res {
        let mut ch = vec![];
        for (u, a) in l {
            if self.daos[di].is_restricted(u) {
                return rej(&["C16"], "stake for a restricted user");
            }
            let o = self.daos[di].w(u);
            self.set_w(di, u, o + a);
            ch.push((u.clone(), o, o + a));
        }
        let t = self.daos[di].total + l.iter().map(|x| x.1).sum::<u128>();
        self.save_total(di, false, t);
        self.touch.insert((di, "stake"));
        self.report(di, ch)
    }

    fn council(&mut self, di: usize, sender: &str, k: &str, v: &Value) -> Res {
        if sender != self.daos[di].c("controller") {
            return rej(&["C08", "C07"], "council edit by someone else than governance");
        }
        match k {
            "set_members" | "update_members" => {
                let set = k == "set_members";
                let list = arr(&v[if set { "new_members" } else { "update_members" }]);
                let us: Vec<(String, u128)> = list.iter().map(|x| (s(&x["user"]), uint(&x["weight"]))).collect();
                if us.iter().any(|u| !valid_addr(&u.0))
                    || us.iter().map(|x| &x.0).collect::<BTreeSet<_>>().len() != us.len()
                {
                    return rej(&["C11"], "bad or repeated member");
                }
                let d = &mut self.daos[di];
                if set {
                    d.council.clear();
                }
                for (u, w) in us {
                    if w == 0 {
                        d.council.remove(&u);
                    } else {
                        d.council.insert(u, w);
                    }
                }
                let t: u128 = d.council.values().sum();
                self.touch.insert((di, "council"));
                self.save_total(di, true, t);
                Ok(())
            }
            _ => unk("council msg"),
        }
    }

    // ---- the rest --------------------------------------------------------------------------

    fn enterprise(&mut self, di: usize, sender: &str, k: &str, v: &Value) -> Res {
        if sender != self.daos[di].c("controller") {
            return rej(&["C08"], "dao record changed by someone else than governance");
        }
        let d = &mut self.daos[di];
        match k {
            "update_metadata" => {
                for (f, g) in [("name", "name"), ("description", "description"), ("logo", "logo")] {
                    if let Some(x) = change(&v[f]) {
                        d.metadata[g] = x.clone();
                    }
                }
                for f in ["github_username", "discord_username", "twitter_username", "telegram_username"] {
                    if let Some(x) = change(&v[f]) {
                        d.metadata["socials"][f] = x.clone();
                    }
                }
                self.touch.insert((di, "meta"));
                Ok(())
            }
            "set_attestation" => {
                d.att = true;
                d.att_text = Some(s(&v["attestation_text"]));
                d.hid.signed.clear();
                self.touch.insert((di, "att"));
                Ok(())
            }
            "remove_attestation" => {
                d.att = false;
                d.att_text = None;
                d.comp.remove("attestation");
                self.touch.insert((di, "att"));
                Ok(())
            }
            "execute_msgs" => {
                let ent = d.c("enterprise").to_string();
                for x in arr(&v["msgs"]) {
                    let m: Value = match serde_json::from_str(x.as_str().unwrap_or("")) {
                        Ok(m) => m,
                        Err(_) => return rej(&[], "not a message"),
                    };
                    self.cosmos(&ent, &m)?;
                }
                Ok(())
            }
            "finalize_instantiation" => rej(&["C08"], "second finalization"),
            _ => unk("enterprise msg"),
        }
    }

    fn treasury(&mut self, di: usize, sender: &str, k: &str, v: &Value) -> Res {
        let tre = self.daos[di].c("treasury").to_string();
        if k == "perform_next_migration_step" {
            return rej(&["C08", "C17"], "migration step on a finished dao");
        }
        if sender != self.daos[di].c("controller") {
            return rej(&["C08", "C17"], "treasury used by someone else than governance");
        }
        match k {
            "update_asset_whitelist" => {
                for x in arr(&v["add"]).iter().chain(arr(&v["remove"]).iter()) {
                    match asset_key(x) {
                        None => return rej(&[], "bad asset"),
                        Some(key) if key.starts_with("c:") && !valid_addr(&key[2..]) => return rej(&[], "bad asset"),
                        _ => {}
                    }
                }
                // multi-token assets cannot be held on the list
                if arr(&v["add"]).iter().any(|x| asset_key(x).map_or(false, |k| k.starts_with("m:"))) {
                    return rej(&[], "multi-token asset");
                }
                let d = &mut self.daos[di];
                for x in arr(&v["add"]) {
                    d.asset_wl.insert(asset_key(&x).unwrap());
                }
                for x in arr(&v["remove"]) {
                    d.asset_wl.remove(&asset_key(&x).unwrap());
                }
                self.touch.insert((di, "wl"));
                Ok(())
            }
            "update_nft_whitelist" => {
                let d = &mut self.daos[di];
                for x in arr(&v["add"]).iter().chain(arr(&v["remove"]).iter()) {
                    if !valid_addr(x.as_str().unwrap_or("")) {
                        return rej(&[], "bad nft");
                    }
                }
                for x in arr(&v["add"]) {
                    d.nft_wl.insert(s(&x));
                }
                for x in arr(&v["remove"]) {
                    d.nft_wl.remove(x.as_str().unwrap_or(""));
                }
                self.touch.insert((di, "wl"));
                Ok(())
            }
            "spend" => {
                let r = s(&v["recipient"]);
                self.touch.insert((di, "spend"));
                for x in arr(&v["assets"]) {
                    let key = asset_key(&x["info"]).unwrap_or_default();
                    let a = uint(&x["amount"]);
                    if let Some(den) = key.strip_prefix("n:") {
                        self.cosmos(&tre, &json!({"bank":{"send":{"to_address": r, "amount":[{"denom": den, "amount": a.to_string()}]}}}))?;
                    } else if let Some(t) = key.strip_prefix("c:") {
                        self.call(&tre, t, &json!({"transfer":{"recipient": r, "amount": a.to_string()}}), &[])?;
                    } else {
                        return rej(&[], "unsupported asset");
                    }
                }
                Ok(())
            }
            "distribute_funds" => {
                let dis = s(&v["funds_distributor_contract"]);
                self.touch.insert((di, "spend"));
                let mut native = vec![];
                for x in arr(&v["funds"]) {
                    let key = asset_key(&x["info"]).unwrap_or_default();
                    let a = uint(&x["amount"]);
                    if let Some(den) = key.strip_prefix("n:") {
                        native.push((den.to_string(), a));
                    } else if let Some(t) = key.strip_prefix("c:") {
                        let m = json!({"send":{"contract": dis, "amount": a.to_string(), "msg": to_b64(&json!({"distribute":{}}))}});
                        self.call(&tre, t, &m, &[])?;
                    } else {
                        return rej(&[], "unsupported asset");
                    }
                }
                if !native.is_empty() {
                    let native: Vec<(String, u128)> = native.into_iter().filter(|x| x.1 > 0).collect();
                    self.call(&tre, &dis, &json!({"distribute_native": {}}), &native)?;
                }
                Ok(())
            }
            "execute_cosmos_msgs" => {
                self.touch.insert((di, "spend"));
                for x in arr(&v["msgs"]) {
                    let m: Value = match serde_json::from_str(x.as_str().unwrap_or("")) {
                        Ok(m) => m,
                        Err(_) => return rej(&[], "not a message"),
                    };
                    self.cosmos(&tre, &m)?;
                }
                Ok(())
            }
            _ => unk("treasury msg"),
        }
    }

    fn distribute(&mut self, di: usize, assets: &[(String, u128)]) -> Res {
        let d = &self.daos[di];
        for (a, _) in assets {
            if !d.asset_wl.contains(a) && !self.global_wl.contains(a) {
                return rej(&["C15"], "distribution of a non-whitelisted asset");
            }
        }
        let tot = d.eff_total();
        if tot == 0 {
            return rej(&["C13", "C14"], "distribution without eligible weight");
        }
        self.touch.insert((di, "distribute"));
        self.rewards_moved.insert(di);
        let d = &mut self.daos[di];
        let ws: Vec<(String, u128)> = d.weights.keys().map(|u| (u.clone(), d.eff(u))).filter(|x| x.1 > 0).collect();
        for (a, n) in assets {
            for (u, w) in &ws {
                let e = d.hid.acc.entry((u.clone(), a.clone())).or_insert((0, 0));
                let num = n * w;
                let lo = mul_div(num, 1_000_000_000, tot, false);
                let hi = mul_div(num, 1_000_000_000, tot, true);
                // the index is kept with 18 decimals: less than w * 1e-18 is lost per distribution
                e.0 += lo.saturating_sub(w / 1_000_000_000 + 1);
                e.1 += hi;
            }
        }
        d.hid.distributions += 1;
        Ok(())
    }

    fn distributor(&mut self, di: usize, sender: &str, k: &str, v: &Value, funds: &[(String, u128)]) -> Res {
        let d = &self.daos[di];
        let ctrl = d.c("controller").to_string();
        let me = d.c("distributor").to_string();
        match k {
            "update_user_weights" => {
                if sender != ctrl {
                    return rej(&["C08", "C13"], "reward weights changed by someone else than governance");
                }
                unk("direct reward weights")
            }
            "update_minimum_eligible_weight" => {
                if sender != ctrl {
                    return rej(&["C08", "C14"], "reward minimum changed by someone else than governance");
                }
                let d = &mut self.daos[di];
                d.min_weight = uint(&v["minimum_eligible_weight"]);
                if d.min_weight > 1 {
                    d.hid.had_min = true;
                }
                let us: Vec<String> = d.weights.keys().cloned().collect();
                for u in us {
                    floor_acc(d, &u);
                }
                self.touch.insert((di, "min"));
                Ok(())
            }
            "distribute_native" => {
                let l: Vec<(String, u128)> = funds.iter().map(|(d, a)| (nat(d), *a)).collect();
                self.distribute(di, &l)
            }
            "receive" => {
                let m = b64(&v["msg"]).unwrap_or(Value::Null);
                if top(&m).0 != "distribute" {
                    return rej(&["C13"], "unknown hook");
                }
                self.distribute(di, &[(tok(sender), uint(&v["amount"]))])
            }
            "claim_rewards" => {
                let u = s(&v["user"]);
                if d.is_restricted(&u) {
                    return rej(&["C16"], "restricted user claims rewards");
                }
                if u != sender {
                    return rej(&["C13"], "rewards claimed for someone else");
                }
                if self.rewards_moved.contains(&di) {
                    return unk("claim after distribution in one transaction");
                }
                let mut keys: BTreeSet<String> = BTreeSet::new();
                for x in arr(&v["native_denoms"]) {
                    keys.insert(nat(x.as_str().unwrap_or("")));
                }
                for x in arr(&v["cw20_assets"]) {
                    keys.insert(tok(x.as_str().unwrap_or("")));
                }
                for a in keys {
                    let r = self.daos[di].rewards.get(&(u.clone(), a.clone())).copied().unwrap_or(0);
                    if r == 0 {
                        if let Some(x) = self.daos[di].hid.acc.get_mut(&(u.clone(), a.clone())) {
                            x.0 = 0;
                        }
                        continue;
                    }
                    self.mv(&me, &u, &a, r)?;
                    self.daos[di].rewards.insert((u.clone(), a.clone()), 0);
                    self.daos[di].hid.acc.insert((u.clone(), a.clone()), (0, 0));
                }
                self.touch.insert((di, "claim_rewards"));
                Ok(())
            }
            _ => rej(&[], "unknown distributor message"),
        }
    }
}

fn floor_acc(d: &mut DaoState, u: &str) {
    for ((x, _), v) in d.hid.acc.iter_mut() {
        if x == u {
            v.0 = v.0 / 1_000_000_000 * 1_000_000_000;
        }
    }
}

fn exec_class(j: Judged) -> u8 {
    match j {
        Judged::Quorum | Judged::Threshold => 0,
        Judged::Passed => 1,
        Judged::Rejected => 2,
        Judged::Veto => 3,
        Judged::Draw => 4,
    }
}

pub fn mul_div(a: u128, b: u128, c: u128, up: bool) -> u128 {
    use cosmwasm_std::Uint256;
    let n = Uint256::from(a) * Uint256::from(b);
    let c = Uint256::from(c);
    let q = n / c;
    let q = if up && q * c != n { q + Uint256::from(1u8) } else { q };
    let b = q.to_be_bytes();
    let mut x = [0u8; 16];
    x.copy_from_slice(&b[16..]);
    u128::from_be_bytes(x)
}

pub fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

pub fn ver(v: &Value) -> (u64, u64, u64) {
    let f = |k: &str| v[k].as_u64().unwrap_or(0);
    (f("major"), f("minor"), f("patch"))
}

#[allow(dead_code)]
pub fn fingerprint(v: &Value) -> u64 {
    h(&v.to_string())
}
