//! Treasuries carried over from the first release: their stakes and claims move to the membership
//! contract step by step, while the DAO is in use.
use crate::chain::Tx;
use crate::lite::*;
use crate::model::{uint, Kind, Rel};
use crate::mon::{Mon, Rng};
use crate::obs::*;
use crate::run::Out;
use crate::world::*;
use cosmwasm_schema::cw_serde;
use cosmwasm_std::{Addr, Binary, CosmosMsg, MemoryStorage, Order, Storage, Timestamp, Uint128, Uint64, WasmMsg};
use cw_storage_plus::{Index, IndexList, IndexedMap, Item, Map, MultiIndex, SnapshotItem, Strategy};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

// how the first release stored its state
const STAKES: Map<Addr, Uint128> = Map::new("stakes");
const CLAIMS: Map<Addr, Vec<OldClaim>> = Map::new("claims");
const MEMBERS: Map<Addr, Uint128> = Map::new("multisig_members");
const ASSET: Item<Addr> = Item::new("dao_membership_contract");
const TYPE: Item<OldType> = Item::new("dao_type");
const STAGE: Item<Stage> = Item::new("migration_stage");
const CONFIG: Item<OldConfig> = Item::new("config");
const BY_HEIGHT: SnapshotItem<Uint128> = SnapshotItem::new("total_staked_block_height_snapshot", "total_staked_block_height_checkpoints", "total_staked_block_height_changelog", Strategy::EveryBlock);
const BY_TIME: SnapshotItem<Uint128> = SnapshotItem::new("total_staked_time_seconds_snapshot", "total_staked_time_seconds_checkpoints", "total_staked_time_seconds_changelog", Strategy::EveryBlock);

#[cw_serde]
enum OldRelease {
    Timestamp(Timestamp),
    Height(Uint64),
}
#[cw_serde]
struct OldClaim {
    asset: OldAsset,
    release_at: OldRelease,
}
#[cw_serde]
enum OldAsset {
    Cw20(OldCw20),
    Cw721(OldCw721),
}
#[cw_serde]
struct OldCw20 {
    amount: Uint128,
}
#[cw_serde]
struct OldCw721 {
    tokens: Vec<String>,
}
#[cw_serde]
struct OldConfig {
    admin: Addr,
}
#[cw_serde]
enum OldType {
    Token,
    Nft,
    Multisig,
}
#[cw_serde]
enum Stage {
    MigrationNotStarted,
    MigrationInProgress,
    MigrationCompleted,
}
#[cw_serde]
struct NftStake {
    staker: Addr,
    token_id: String,
}
struct Idx<'a> {
    staker: MultiIndex<'a, Addr, NftStake, String>,
}
impl IndexList<NftStake> for Idx<'_> {
    fn get_indexes(&'_ self) -> Box<dyn Iterator<Item = &'_ dyn Index<NftStake>> + '_> {
        Box::new(vec![&self.staker as &dyn Index<NftStake>].into_iter())
    }
}
fn nft_stakes<'a>() -> IndexedMap<'a, String, NftStake, Idx<'a>> {
    IndexedMap::new("nft_stakes", Idx { staker: MultiIndex::new(|_, s| s.staker.clone(), "nft_stakes", "nft_stakes__staker") })
}

/// one thing that has to move: a token stake, a staked NFT, a token claim or a claimed NFT
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Unit {
    user: String,
    amount: u128,
    nft: String,
    rel: Option<Rel>,
}

struct L {
    b: Base,
    r: Rng,
    mon: Mon,
    log: Vec<String>,
    kind: Kind,
    d: Lite,
    asset: String,
    old: String,
    users: Vec<String>,
    /// still in the old treasury / arrived
    left: Vec<Unit>,
    moved: usize,
    /// what the old treasury said about its members at the start
    before: BTreeMap<String, u128>,
    totals: Vec<(Value, u128)>,
    extra: u128,
    /// membership as it has to be
    weight: BTreeMap<String, u128>,
    nfts: BTreeMap<String, String>,
    claims: BTreeMap<String, Vec<(Rel, u128, String)>>,
    /// what each user can still come to own
    worth: BTreeMap<String, u128>,
    worth_nft: BTreeMap<String, String>,
    unlock: u64,
    stage: Stage,
    version: (u64, u64, u64),
    /// asked in the C22 runs, where the old treasury is the DAO's treasury
    facade: String,
}

impl L {
    fn chk<T: std::hash::Hash>(&mut self, kind: &str, cov: T, ok: bool, msg: impl FnOnce() -> String) {
        self.mon.check("C28", kind, cov, ok, msg);
    }
    fn q(&self, a: &str, m: Value) -> Value {
        self.b.c.q(a, m).unwrap_or(Value::Null)
    }
    fn nft_at(&self, id: &str) -> String {
        st(&self.q(&self.asset, json!({"owner_of": {"token_id": id, "include_expired": null}}))["owner"])
    }
    fn cw20_at(&self, a: &str) -> u128 {
        uint(&self.q(&self.asset, json!({"balance": {"address": a}}))["balance"])
    }
    fn mem(&self) -> String {
        self.d.c("membership").to_string()
    }
    fn claims_now(&self, u: &str) -> Vec<(Rel, u128, String)> {
        let mut l = vec![];
        for c in claims_of(&self.q(&self.mem(), json!({"claims": {"user": u}}))) {
            if c.tokens.is_empty() {
                l.push((c.rel.clone(), c.amount, String::new()));
            }
            for t in c.tokens {
                l.push((c.rel.clone(), 0, t));
            }
        }
        l.sort();
        l
    }
    /// which of the outstanding units the last step brought over; the rest of the comparison is `observe`
    fn arrivals(&mut self) -> usize {
        let mut n = 0;
        let ms = members(&self.b.c, &self.mem()).unwrap_or_default();
        let mut keep = vec![];
        let mut now: BTreeMap<String, Vec<(Rel, u128, String)>> = BTreeMap::new();
        for u in self.left.clone() {
            let came = match (self.kind, &u.rel) {
                (Kind::Token, None) => ms.get(&u.user).copied().unwrap_or(0) == self.weight.get(&u.user).copied().unwrap_or(0) + u.amount,
                (Kind::Token, Some(r)) => {
                    // claims beyond those already accounted for
                    let have = now.entry(u.user.clone()).or_insert_with(|| {
                        let mut l = self.claims_now(&u.user);
                        for x in self.claims.get(&u.user).cloned().unwrap_or_default() {
                            if let Some(i) = l.iter().position(|y| *y == x) {
                                l.remove(i);
                            }
                        }
                        l
                    });
                    match have.iter().position(|y| y.0 == *r && y.1 == u.amount) {
                        Some(i) => {
                            have.remove(i);
                            true
                        }
                        None => false,
                    }
                }
                _ => self.nft_at(&u.nft) != self.old,
            };
            if !came {
                keep.push(u);
                continue;
            }
            n += 1;
            match (&u.rel, self.kind) {
                (None, Kind::Token) => *self.weight.entry(u.user.clone()).or_default() += u.amount,
                (None, _) => {
                    *self.weight.entry(u.user.clone()).or_default() += 1;
                    self.nfts.insert(u.nft.clone(), u.user.clone());
                }
                (Some(r), _) => self.claims.entry(u.user.clone()).or_default().push((r.clone(), u.amount, u.nft.clone())),
            }
        }
        self.left = keep;
        self.moved += n;
        n
    }
    fn observe(&mut self, why: &str) {
        let mem = self.mem();
        let old = self.old.clone();
        let cov = (self.kind, why.to_string(), self.left.len().min(40), self.stage == Stage::MigrationCompleted);
        // membership
        let mut got = members(&self.b.c, &mem).unwrap_or_default();
        got.retain(|_, w| *w > 0);
        let mut want = self.weight.clone();
        want.retain(|_, w| *w > 0);
        self.chk("weights are what was staked before and since", cov.clone(), got == want, || {
            let d: Vec<String> = got.iter().filter(|(u, w)| want.get(*u) != Some(w)).map(|(u, w)| format!("{u} has {w}")).chain(want.iter().filter(|(u, w)| got.get(*u) != Some(w)).map(|(u, w)| format!("{u} should have {w}"))).take(8).collect();
            format!("{why}: {d:?}")
        });
        let tot = uint(&self.q(&mem, json!({"total_weight": {"expiration": {"never": {}}}}))["total_weight"]);
        self.chk("total weight is the sum", cov.clone(), tot == want.values().sum::<u128>(), || format!("{why}: total {tot}, members {}", want.values().sum::<u128>()));
        let mut bad = String::new();
        for u in self.users.clone() {
            let g = self.claims_now(&u);
            let mut w = self.claims.get(&u).cloned().unwrap_or_default();
            w.sort();
            if g != w {
                bad = format!("{u} has claims {g:?}, expected {w:?}");
            }
            let x = uint(&self.q(&old, json!({"user_weight": {"user": u}}))["weight"]);
            if x != self.before.get(&u).copied().unwrap_or(0) {
                bad = format!("the treasury reports {x} for {u}, at first {:?}", self.before.get(&u));
            }
        }
        self.chk("claims keep owner, amount and release; former weights stay known", cov.clone(), bad.is_empty(), || format!("{why}: {bad}"));
        for (e, w) in self.totals.clone() {
            let t = uint(&self.q(&old, json!({"total_weight": {"expiration": e}}))["total_weight"]);
            self.chk("former totals stay known", (self.kind, e.to_string().len()), t == w, || format!("{why}: total at {e} is {t}, was {w}"));
        }
        // assets
        match self.kind {
            Kind::Token => {
                let out: u128 = self.left.iter().map(|u| u.amount).sum();
                let (a, b) = (self.cw20_at(&old), self.cw20_at(&mem));
                let owed: u128 = want.values().sum::<u128>() + self.claims.values().flatten().map(|c| c.1).sum::<u128>();
                let extra = self.extra;
                self.chk("tokens go where the stakes and claims go", cov.clone(), a == extra + out && b == owed, || format!("{why}: treasury holds {a}, {out} outstanding and {extra} its own; membership holds {b}, owes {owed}"));
            }
            Kind::Nft => {
                let mut bad = String::new();
                for u in &self.left {
                    if self.nft_at(&u.nft) != old {
                        bad = format!("{} left", u.nft);
                    }
                }
                for (t, u) in &self.nfts {
                    if self.nft_at(t) != mem {
                        bad = format!("{t} staked by {u} is not with the membership contract");
                    }
                }
                for c in self.claims.values().flatten() {
                    if self.nft_at(&c.2) != mem {
                        bad = format!("{} claimed is not with the membership contract", c.2);
                    }
                }
                for u in self.users.clone() {
                    let g: BTreeSet<String> = walk(&self.b.c, &mem, "user_stake", &json!({ "user": u }), "tokens", Some(50), &|v| v.clone()).unwrap_or_default().iter().map(st).collect();
                    let w: BTreeSet<String> = self.nfts.iter().filter(|x| *x.1 == u).map(|x| x.0.clone()).collect();
                    if g != w {
                        bad = format!("{u} has {g:?} staked, expected {w:?}");
                    }
                }
                self.chk("NFTs go where the stakes and claims go", cov.clone(), bad.is_empty(), || format!("{why}: {bad}"));
            }
            _ => {}
        }
        let un = self.q(&old, json!({"has_unmoved_stakes_or_claims": {}}));
        let some = !self.left.is_empty();
        if !self.facade.is_empty() {
            let inc = self.q(&old, json!({"has_incomplete_v2_migration": {}}));
            let stage = if inc["has_incomplete_migration"].as_bool() == Some(true) { "migration_in_progress" } else { "migration_completed" };
            // the question was new in 1.0.2
            let left = if self.version < (1, 0, 2) { json!({"has_unmoved_stakes_or_claims": false}) } else { un.clone() };
            for (name, want) in [("has_incomplete_v2_migration", inc.clone()), ("has_unmoved_stakes_or_claims", left), ("v2_migration_stage", json!({ "stage": stage }))] {
                for dao in [self.d.ent.clone(), old.clone()] {
                    let got = self.b.c.q(&self.facade, json!({ name: {"contract": dao} }));
                    let (s, v) = (self.stage.clone(), self.version);
                    self.mon.check("C22", "facade answer agrees with the DAO's contracts", (name, want.to_string(), format!("{s:?}"), v, some), got.as_ref().ok() == Some(&want), || {
                        format!("{why}: {name} of {dao} (version {v:?}, {s:?}): facade {got:?}, the treasury means {want}")
                    });
                }
            }
        }
        self.chk("what is left is reported", (cov.clone(), some), un["has_unmoved_stakes_or_claims"].as_bool() == Some(some), || format!("{why}: {un}, some left: {some}"));
    }
    fn step(&mut self, limit: Option<u64>, fault: usize) -> Tx {
        let who = self.r.pick_c(&["anybody".to_string(), "alice".into(), self.users[0].clone(), self.d.c("controller").to_string()]);
        let old = self.old.clone();
        if fault > 0 {
            self.b.c.inject_failure(fault);
        }
        let tx = self.b.c.execute(&who, &old, &json!({"perform_next_migration_step": {"submsgs_limit": limit}}), &[]);
        let n0 = self.left.len();
        let n = self.arrivals();
        let line = format!("#{} step limit {limit:?} fault {fault} -> {} {} moved {n} left {}", self.mon.step, tx.ok, tx.err, self.left.len());
        self.log.push(line.clone());
        self.mon.ctx = line.clone();
        let cov = (self.kind, limit, n0.min(30), n.min(30));
        if tx.fault_hit {
            self.chk("a failing step changes nothing", cov, !tx.ok && tx.no_effect() && n == 0, || format!("{line}: swallowed failure"));
            return tx;
        }
        let want = match self.stage {
            Stage::MigrationNotStarted => false,
            Stage::MigrationInProgress => true,
            Stage::MigrationCompleted => n0 > 0,
        };
        let stage = format!("{:?}", self.stage);
        self.chk("a step is possible while something is left to do", (cov, stage.clone()), tx.ok == want && (tx.ok || tx.no_effect()), || format!("{line}: stage {stage}"));
        if tx.ok {
            let lim = limit.unwrap_or(if self.kind == Kind::Nft { 20 } else { 100 });
            self.chk("each step makes progress", cov, lim == 0 || n0 == 0 || n > 0, || line.clone());
            if self.kind == Kind::Token {
                self.chk("no step exceeds its limit", cov, n as u64 <= lim, || line.clone());
            }
            let inc = self.q(&old, json!({"has_incomplete_v2_migration": {}}))["has_incomplete_migration"].as_bool();
            self.chk("complete only when everything moved", (cov, inc), inc.is_some() && (self.left.is_empty() || inc == Some(true)), || format!("{line}: incomplete {inc:?}"));
            self.stage = if inc == Some(true) { Stage::MigrationInProgress } else { Stage::MigrationCompleted };
        }
        tx
    }
    fn live(&mut self) {
        // the DAO is in use meanwhile
        let u = self.r.pick_c(&self.users.clone());
        let mem = self.mem();
        let asset = self.asset.clone();
        let b64 = |v: Value| Binary(serde_json::to_vec(&v).unwrap()).to_base64();
        let w = self.weight.get(&u).copied().unwrap_or(0);
        let line;
        match (self.kind, self.r.below(4)) {
            (Kind::Token, 0) => {
                let a = self.r.range(1, 500) as u128;
                let t = self.b.c.execute("rich", &asset, &json!({"send": {"contract": mem, "amount": a.to_string(), "msg": b64(json!({"stake": {"user": u}}))}}), &[]);
                line = format!("{u} stakes {a} {} {}", t.ok, t.err);
                if t.ok {
                    *self.weight.entry(u.clone()).or_default() += a;
                    *self.worth.entry(u.clone()).or_default() += a;
                }
            }
            (Kind::Token, 1) if w > 0 => {
                let a = if self.r.chance(1, 2) { w } else { 1 + self.r.below(w.min(1 << 40) as u64) as u128 };
                let t = self.b.c.execute(&u, &mem, &json!({"unstake": {"amount": a.to_string()}}), &[]);
                line = format!("{u} unstakes {a} {} {}", t.ok, t.err);
                self.chk("moved stakes can be withdrawn", self.kind, t.ok, || line.clone());
                if t.ok {
                    *self.weight.get_mut(&u).unwrap() -= a;
                    let at = Rel::Time(self.b.c.now().plus_seconds(self.unlock).nanos());
                    self.claims.entry(u.clone()).or_default().push((at, a, String::new()));
                }
            }
            (Kind::Nft, 1) if w > 0 => {
                let mine: Vec<String> = self.nfts.iter().filter(|x| *x.1 == u).map(|x| x.0.clone()).collect();
                let k = self.r.idx(mine.len()) + 1;
                let ids: Vec<String> = mine[..k].to_vec();
                let t = self.b.c.execute(&u, &mem, &json!({"unstake": {"nft_ids": ids}}), &[]);
                line = format!("{u} unstakes {ids:?} {} {}", t.ok, t.err);
                self.chk("moved stakes can be withdrawn", self.kind, t.ok, || line.clone());
                if t.ok {
                    *self.weight.get_mut(&u).unwrap() -= k as u128;
                    let at = Rel::Time(self.b.c.now().plus_seconds(self.unlock).nanos());
                    for i in ids {
                        self.nfts.remove(&i);
                        self.claims.entry(u.clone()).or_default().push((at.clone(), 0, i));
                    }
                }
            }
            (_, 2) => {
                let before = if self.kind == Kind::Token { self.cw20_at(&u) } else { 0 };
                let t = self.b.c.execute(&u, &mem, &json!({"claim": {"user": null}}), &[]);
                line = format!("{u} claims {} {}", t.ok, t.err);
                let (now, h) = (self.b.c.now().nanos(), self.b.c.height());
                let due = |r: &Rel| match r {
                    Rel::Time(x) => now >= *x,
                    Rel::Height(x) => h >= *x,
                };
                let l = self.claims.entry(u.clone()).or_default();
                let done: Vec<(Rel, u128, String)> = l.iter().filter(|c| due(&c.0)).cloned().collect();
                l.retain(|c| !due(&c.0));
                let sum: u128 = done.iter().map(|c| c.1).sum();
                let paid = if self.kind == Kind::Token { self.cw20_at(&u) == before + sum } else { done.iter().all(|c| self.nft_at(&c.2) == u) };
                // a claim with nothing due may be refused
                let ok = if done.is_empty() { true } else { t.ok };
                self.chk("moved claims are paid when due", (self.kind, done.len().min(5)), ok && paid, || format!("{line}: due {done:?}"));
            }
            _ => {
                let s = self.r.pick_c(&[1u64, 50, 400, 3000]);
                self.b.c.advance(self.r.range(1, 30), s * 1_000_000_000);
                line = format!("{s} seconds pass");
            }
        }
        self.log.push(format!("#{} {line}", self.mon.step));
        self.mon.ctx = line;
    }
}

pub fn legacy(focus: &'static str, seed: u64, steps: usize) -> Out {
    let mut r = Rng::new(seed);
    let mut mon = Mon::new(focus);
    let version = r.pick_c(&[(1, 0, 0), (1, 0, 1), (1, 0, 2), (1, 0, 9), (1, 1, 0), (2, 0, 0)]);
    let b = base_with(&[(version, false, 0)], &json!([{"native": GLOBAL_DENOM}]), &json!([]));
    let kind = r.pick_c(&[Kind::Token, Kind::Token, Kind::Token, Kind::Nft, Kind::Nft, Kind::Nft, Kind::Multisig]);
    let n = match (kind, r.below(4)) {
        (Kind::Nft, 0) => r.range(20, 60),
        (_, 0) => r.range(60, 240),
        _ => r.range(0, 14),
    };
    let users: Vec<String> = (0..n.max(1)).map(|i| format!("user{i:03}")).collect();
    let asset = match kind {
        Kind::Token => new_cw20(&b.c, b.codes.cw20, "old", &[("rich".into(), 1 << 100)]),
        Kind::Nft => new_cw721(&b.c, b.codes.cw721, "old", &[]),
        _ => String::new(),
    };
    let unlock = 1000;
    let mem = match kind {
        Kind::Token => json!({"import_cw20": {"cw20_contract": asset, "unlocking_period": {"time": unlock}}}),
        Kind::Nft => json!({"import_cw721": {"cw721_contract": asset, "unlocking_period": {"time": unlock}}}),
        _ => json!({"new_multisig": {"multisig_members": [{"user": "alice", "weight": "1"}]}}),
    };
    let d = match Lite::with(&b, "alice", request("carried over", mem)) {
        Ok(d) => d,
        Err(e) => {
            mon.fail("C20", "valid dao creation accepted", e);
            return Out { mon, log: vec![] };
        }
    };
    // the state the first release left behind
    let mut s = MemoryStorage::new();
    let addr = |x: &str| Addr::unchecked(x);
    let mut left: Vec<Unit> = vec![];
    let mut before: BTreeMap<String, u128> = BTreeMap::new();
    let now = b.c.now();
    let rel = |r: &mut Rng| match r.below(4) {
        0 => Rel::Height(b.c.height() + r.range(0, 60) - 5),
        1 => Rel::Time(now.minus_seconds(r.range(1, 500)).nanos()),
        _ => Rel::Time(now.plus_seconds(r.range(1, 4000)).nanos() + r.below(1000)),
    };
    let old_rel = |x: &Rel| match x {
        Rel::Height(h) => OldRelease::Height(Uint64::new(*h)),
        Rel::Time(t) => OldRelease::Timestamp(Timestamp::from_nanos(*t)),
    };
    let mut toks = 0u64;
    let (sp, cp) = (r.pick_c(&[0u64, 3, 4, 4]), r.pick_c(&[0u64, 1, 2, 4]));
    for u in &users {
        if n == 0 {
            break;
        }
        let mut cl: Vec<OldClaim> = vec![];
        match kind {
            Kind::Token => {
                if r.chance(sp, 4) {
                    let a = r.pick_c(&[1u128, 7, 1_000_000, 1 << 60, 12345]) + r.below(50) as u128;
                    STAKES.save(&mut s, addr(u), &Uint128::new(a)).unwrap();
                    before.insert(u.clone(), a);
                    left.push(Unit { user: u.clone(), amount: a, nft: String::new(), rel: None });
                }
                if r.chance(cp, 4) {
                    for _ in 0..r.range(1, 4) {
                        let (a, x) = (r.range(1, 100_000) as u128, rel(&mut r));
                        cl.push(OldClaim { asset: OldAsset::Cw20(OldCw20 { amount: Uint128::new(a) }), release_at: old_rel(&x) });
                        left.push(Unit { user: u.clone(), amount: a, nft: String::new(), rel: Some(x) });
                        if r.chance(1, 5) {
                            // the very same claim twice
                            let x = left.last().unwrap().clone();
                            cl.push(cl.last().unwrap().clone());
                            left.push(x);
                        }
                    }
                }
            }
            Kind::Nft => {
                if r.chance(sp, 4) {
                    for _ in 0..r.range(1, 5) {
                        toks += 1;
                        let id = format!("nft{}", (toks * 7919) % 10007);
                        nft_stakes().save(&mut s, id.clone(), &NftStake { staker: addr(u), token_id: id.clone() }).unwrap();
                        *before.entry(u.clone()).or_default() += 1;
                        left.push(Unit { user: u.clone(), amount: 0, nft: id, rel: None });
                    }
                }
                if r.chance(cp, 4) {
                    for _ in 0..r.range(1, 3) {
                        let x = rel(&mut r);
                        let mut ids = vec![];
                        for _ in 0..r.range(1, 4) {
                            toks += 1;
                            let id = format!("nft{}", (toks * 7919) % 10007);
                            left.push(Unit { user: u.clone(), amount: 0, nft: id.clone(), rel: Some(x.clone()) });
                            ids.push(id);
                        }
                        cl.push(OldClaim { asset: OldAsset::Cw721(OldCw721 { tokens: ids }), release_at: old_rel(&x) });
                    }
                }
            }
            _ => {
                let w = r.below(9) as u128;
                MEMBERS.save(&mut s, addr(u), &Uint128::new(w)).unwrap();
                before.insert(u.clone(), w);
            }
        }
        if !cl.is_empty() {
            CLAIMS.save(&mut s, addr(u), &cl).unwrap();
        }
    }
    let sum: u128 = before.values().sum();
    let mut totals: Vec<(Value, u128)> = vec![(json!({"never": {}}), sum)];
    let (h0, t0) = (b.c.height() - 500, now.seconds() - 5000);
    let mut cur = 0u128;
    for i in 0..4u64 {
        // the value recorded at i counts from the next block and second on
        let v = if i == 3 { sum } else { r.below(1000) as u128 };
        BY_HEIGHT.save(&mut s, &Uint128::new(v), h0 + i * 100).unwrap();
        BY_TIME.save(&mut s, &Uint128::new(v), t0 + i * 1000).unwrap();
        totals.push((json!({"at_height": h0 + i * 100}), cur));
        totals.push((json!({"at_time": ((t0 + i * 1000) * 1_000_000_000).to_string()}), cur));
        totals.push((json!({"at_height": h0 + i * 100 + 1}), v));
        totals.push((json!({"at_time": ((t0 + i * 1000 + 1) * 1_000_000_000).to_string()}), v));
        cur = v;
    }
    TYPE.save(&mut s, &match kind {
        Kind::Token => OldType::Token,
        Kind::Nft => OldType::Nft,
        _ => OldType::Multisig,
    })
    .unwrap();
    if kind != Kind::Multisig {
        ASSET.save(&mut s, &addr(&asset)).unwrap();
    }
    CONFIG.save(&mut s, &OldConfig { admin: addr(d.c("controller")) }).unwrap();
    let stage = match r.below(12) {
        0 if r.chance(1, 2) => None,
        1 => Some(Stage::MigrationNotStarted),
        2 | 3 => Some(Stage::MigrationCompleted),
        _ => Some(Stage::MigrationInProgress),
    };
    if let Some(x) = &stage {
        STAGE.save(&mut s, x).unwrap();
    }
    let info = json!({"version_info": version_info(&b.codes, (1, 0, 0), false, b.codes.enterprise), "enterprise_contract": d.ent, "enterprise_governance_controller_contract": d.c("controller"),
        "enterprise_outposts_contract": d.c("outposts"), "membership_contract": d.c("membership"), "council_membership_contract": d.c("council"), "initial_submsgs_limit": null});
    s.set(b"migration_info", &serde_json::to_vec(&info).unwrap());
    let raw: Vec<(Binary, Binary)> = s.range(None, None, Order::Ascending).map(|(k, v)| (Binary(k), Binary(v))).collect();
    let old = b.c.instantiate("op", b.codes.legacy, &serde_json::to_value(&raw).unwrap(), "old treasury", Some("op")).expect("legacy");
    let t = b.c.dispatch("op", vec![CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr: old.clone(), new_code_id: b.codes.treasury, msg: Binary(b"{}".to_vec()) })]);
    let mut l = L {
        b, r, mon, log: vec![], kind, d, asset: asset.clone(), old: old.clone(), users, left, moved: 0, before, totals, extra: 0, weight: BTreeMap::new(), nfts: BTreeMap::new(), claims: BTreeMap::new(),
        worth: BTreeMap::new(), worth_nft: BTreeMap::new(), unlock, version, facade: String::new(), stage: stage.unwrap_or(Stage::MigrationNotStarted),
    };
    l.log.push(format!("{kind:?} {} users, {} to move, stage {:?}", l.users.len(), l.left.len(), l.stage));
    l.chk("an old treasury can be taken to the present release", kind, t.ok, || t.err.clone());
    if kind == Kind::Multisig {
        l.weight.insert("alice".into(), 1);
    }
    for u in l.left.clone() {
        *l.worth.entry(u.user.clone()).or_default() += u.amount;
        if kind == Kind::Nft {
            let t = l.b.c.execute("nftadmin", &asset, &json!({"mint": {"token_id": u.nft, "owner": old, "token_uri": null, "extension": null}}), &[]);
            assert!(t.ok, "{}", t.err);
            l.worth_nft.insert(u.nft.clone(), u.user.clone());
        }
    }
    if kind == Kind::Token {
        // the treasury's own tokens stay
        l.extra = l.r.pick_c(&[0u128, 5, 1 << 50]);
        let need = l.extra + l.left.iter().map(|u| u.amount).sum::<u128>();
        if need > 0 {
            let t = l.b.c.execute("rich", &asset, &json!({"transfer": {"recipient": old, "amount": need.to_string()}}), &[]);
            assert!(t.ok, "{}", t.err);
        }
    }
    if focus == "C22" {
        let n = l.b.c.replant(&l.d.ent, l.d.c("treasury"), &old);
        assert!(n > 0, "the DAO's main contract does not store its treasury");
        l.facade = crate::scen_facade::setup(&l.b.c, &l.b.codes, &l.b.versioning).top;
    }
    l.observe("start");
    let small = l.r.chance(2, 3);
    let steps = if kind == Kind::Multisig || l.stage == Stage::MigrationNotStarted || l.left.is_empty() { steps.min(5) } else { steps };
    for _ in 0..steps {
        l.mon.step += 1;
        if l.mon.silenced.contains(focus) {
            return Out { mon: l.mon, log: l.log };
        }
        let why;
        if l.r.chance(1, 2) {
            let lim = if small { l.r.pick_c(&[Some(0u64), Some(1), Some(1), Some(2), Some(3)]) } else { l.r.pick_c(&[None, Some(0u64), Some(1), Some(1), Some(2), Some(3), Some(5), Some(8), Some(19), Some(50), Some(1000)]) };
            let fault = if l.r.chance(1, 6) { l.r.range(1, 9) as usize } else { 0 };
            l.step(lim, fault);
            why = "step";
        } else {
            l.live();
            why = "use";
        }
        l.observe(why);
        if l.mon.viols.len() > 3 {
            break;
        }
    }
    if l.stage == Stage::MigrationNotStarted {
        return Out { mon: l.mon, log: l.log };
    }
    // to the end
    let mut n = 0;
    loop {
        n += 1;
        let lim = l.r.pick_c(&[None, Some(7), Some(40)]);
        let t = l.step(lim, 0);
        if !t.ok || n > 300 || l.mon.silenced.contains(focus) {
            break;
        }
    }
    let (k, m) = (l.left.len(), l.moved);
    l.chk("the migration ends with everything moved", (kind, m.min(60)), k == 0 && n < 300, || format!("{k} left after {n} steps"));
    l.observe("end");
    if l.mon.silenced.contains(focus) {
        return Out { mon: l.mon, log: l.log };
    }
    // rewards follow the moved weights
    let total: u128 = l.weight.values().sum();
    let dist = l.d.c("distributor").to_string();
    if total > 0 && total < 1 << 62 {
        l.b.c.mint("donor", GLOBAL_DENOM, total * 2);
        let t = l.b.c.execute("donor", &dist, &json!({"distribute_native": {}}), &[cosmwasm_std::coin(total * 2, GLOBAL_DENOM)]);
        let mut bad = t.err.clone();
        for u in l.users.clone() {
            let x = uint(&l.q(&dist, json!({"user_rewards": {"user": u, "native_denoms": [GLOBAL_DENOM], "cw20_assets": []}}))["native_rewards"][0]["amount"]);
            let w = l.weight.get(&u).copied().unwrap_or(0) * 2;
            if x != w {
                bad = format!("{u} earned {x}, expected {w}");
            }
        }
        l.chk("rewards follow the moved weights", (kind, l.weight.len().min(30)), bad.is_empty(), || bad);
    }
    // everybody takes out everything
    let mem = l.mem();
    for u in l.users.clone() {
        let w = l.weight.get(&u).copied().unwrap_or(0);
        if w > 0 && kind == Kind::Token {
            l.b.c.execute(&u, &mem, &json!({"unstake": {"amount": w.to_string()}}), &[]);
        } else if w > 0 && kind == Kind::Nft {
            let ids: Vec<String> = l.nfts.iter().filter(|x| *x.1 == u).map(|x| x.0.clone()).collect();
            l.b.c.execute(&u, &mem, &json!({"unstake": {"nft_ids": ids}}), &[]);
        }
    }
    l.b.c.advance(500, 100_000 * 1_000_000_000);
    let mut bad = String::new();
    for u in l.users.clone() {
        l.b.c.execute(&u, &mem, &json!({"claim": {"user": null}}), &[]);
        if kind == Kind::Token {
            let (g, w) = (l.cw20_at(&u), l.worth.get(&u).copied().unwrap_or(0));
            if g != w {
                bad = format!("{u} ends with {g}, had {w}");
            }
        }
    }
    for (t, u) in &l.worth_nft {
        let o = l.nft_at(t);
        if o != *u {
            bad = format!("{t} ends with {o}, was {u}'s");
        }
    }
    l.chk("in the end everybody holds what they had", (kind, l.users.len()), bad.is_empty(), || bad);
    Out { mon: l.mon, log: l.log }
}
