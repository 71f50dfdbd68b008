//! Instrumented in-process CosmWasm chain.
//!
//! Runs real contract entry points natively and implements the execution model the contracts rely
//! on: bank transfers, wasm execute / instantiate / migrate / admin messages, sub-messages with
//! every reply mode, rollback of failed sub-messages, smart / raw / contract-info / bank queries.
//! Stargate messages (IBC transfers) are recorded and accepted. Everything dispatched is an event.
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    from_json, to_json_binary, Addr, Attribute, BankMsg, BankQuery, Binary, BlockInfo, Coin,
    ContractInfo, ContractResult, CosmosMsg, Deps, DepsMut, Empty, Env, Event, MessageInfo, Order,
    Querier, QuerierResult, QuerierWrapper, QueryRequest, Record, Reply, ReplyOn, Response,
    Storage, SubMsg, SubMsgResponse, SubMsgResult, SystemError, SystemResult, Timestamp,
    TransactionInfo, Uint128, WasmMsg, WasmQuery,
};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub type InstFn = fn(DepsMut, Env, MessageInfo, &[u8]) -> Result<Response, String>;
pub type ExecFn = fn(DepsMut, Env, MessageInfo, &[u8]) -> Result<Response, String>;
pub type QueryFn = fn(Deps, Env, &[u8]) -> Result<Binary, String>;
pub type ReplyFn = fn(DepsMut, Env, Reply) -> Result<Response, String>;
pub type MigrateFn = fn(DepsMut, Env, &[u8]) -> Result<Response, String>;

#[derive(Clone)]
pub struct Code {
    pub name: &'static str,
    pub instantiate: InstFn,
    pub execute: ExecFn,
    pub query: QueryFn,
    pub reply: Option<ReplyFn>,
    pub migrate: Option<MigrateFn>,
}

#[derive(Clone)]
pub struct ContractData {
    pub code_id: u64,
    pub creator: String,
    pub admin: Option<String>,
    pub label: String,
    pub storage: BTreeMap<Vec<u8>, Vec<u8>>,
}

enum Undo {
    Storage(String, Vec<u8>, Option<Vec<u8>>),
    Bank((String, String), u128),
    NewContract(String),
    Meta(String, u64, Option<String>),
    NextInstance(u64),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum CallKind {
    Execute,
    Instantiate { code_id: u64 },
    Migrate { code_id: u64 },
    Reply { id: u64, ok: bool },
    Bank,
    Stargate,
    Admin,
    Other,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub parent: Option<usize>,
    pub depth: usize,
    pub kind: CallKind,
    pub sender: String,
    pub target: String,
    pub msg: Vec<u8>,
    pub funds: Vec<Coin>,
    pub ok: bool,
    /// set when the call itself or an enclosing frame was rolled back
    pub reverted: bool,
    pub err: String,
}

impl Call {
    pub fn json(&self) -> serde_json::Value {
        serde_json::from_slice(&self.msg).unwrap_or(serde_json::Value::Null)
    }
    /// top-level key of the message object, e.g. "cast_vote"
    pub fn key(&self) -> String {
        match self.json() {
            serde_json::Value::Object(o) => o.keys().next().cloned().unwrap_or_default(),
            _ => String::new(),
        }
    }
}

pub struct State {
    pub contracts: BTreeMap<String, ContractData>,
    pub bank: BTreeMap<(String, String), u128>,
    next_instance: u64,
    pub height: u64,
    pub time: Timestamp,
    journal: Vec<Undo>,
    trace: Vec<Call>,
    dispatch_count: usize,
    fail_at: Option<usize>,
    pub fault_hit: bool,
    depth: usize,
    pub panics: Vec<String>,
}

#[derive(Clone)]
pub struct Chain {
    pub st: Rc<RefCell<State>>,
    pub codes: Rc<RefCell<Vec<Code>>>,
}

#[derive(Clone, Debug)]
pub struct Tx {
    pub ok: bool,
    pub err: String,
    pub events: Vec<Event>,
    pub data: Option<Binary>,
    pub trace: Vec<Call>,
    /// net storage changes: contract -> changed keys
    pub writes: BTreeMap<String, BTreeSet<Vec<u8>>>,
    /// net bank changes: (addr, denom) -> (old, new)
    pub bank: BTreeMap<(String, String), (u128, u128)>,
    pub new_contracts: Vec<String>,
    pub fault_hit: bool,
    pub dispatches: usize,
    /// simulations only: the values that would have been written
    pub after: BTreeMap<(String, Vec<u8>), Option<Vec<u8>>>,
}

impl Tx {
    pub fn no_effect(&self) -> bool {
        self.writes.is_empty() && self.bank.is_empty() && self.new_contracts.is_empty()
    }
    /// calls that took effect
    pub fn live(&self) -> impl Iterator<Item = &Call> {
        self.trace.iter().filter(|c| c.ok && !c.reverted)
    }
    pub fn attr(&self, key: &str) -> Option<String> {
        self.events
            .iter()
            .flat_map(|e| e.attributes.iter())
            .find(|a| a.key == key)
            .map(|a| a.value.clone())
    }
    pub fn attrs(&self, key: &str) -> Vec<String> {
        self.events
            .iter()
            .flat_map(|e| e.attributes.iter())
            .filter(|a| a.key == key)
            .map(|a| a.value.clone())
            .collect()
    }
}

struct Store {
    st: Rc<RefCell<State>>,
    addr: String,
}

impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.st
            .borrow()
            .contracts
            .get(&self.addr)
            .and_then(|c| c.storage.get(key).cloned())
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        use std::ops::Bound;
        if let (Some(s), Some(e)) = (start, end) {
            if s > e {
                return Box::new(std::iter::empty());
            }
        }
        let st = self.st.borrow();
        let lo = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |e| Bound::Excluded(e.to_vec()));
        let mut v: Vec<Record> = match st.contracts.get(&self.addr) {
            Some(c) => {
                if let (Some(s), Some(e)) = (start, end) {
                    if s == e {
                        return Box::new(std::iter::empty());
                    }
                }
                c.storage
                    .range((lo, hi))
                    .map(|(k, v)| (k.clone(), v.clone()))
                    .collect()
            }
            None => vec![],
        };
        if order == Order::Descending {
            v.reverse();
        }
        Box::new(v.into_iter())
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        let mut st = self.st.borrow_mut();
        let old = st
            .contracts
            .get_mut(&self.addr)
            .expect("contract exists")
            .storage
            .insert(key.to_vec(), value.to_vec());
        st.journal
            .push(Undo::Storage(self.addr.clone(), key.to_vec(), old));
    }
    fn remove(&mut self, key: &[u8]) {
        let mut st = self.st.borrow_mut();
        let old = st
            .contracts
            .get_mut(&self.addr)
            .expect("contract exists")
            .storage
            .remove(key);
        if old.is_some() {
            st.journal
                .push(Undo::Storage(self.addr.clone(), key.to_vec(), old));
        }
    }
}

struct Outcome {
    events: Vec<Event>,
    data: Option<Binary>,
}

type R<T> = Result<T, String>;

fn proto_bytes(field: u8, b: &[u8]) -> Vec<u8> {
    let mut out = vec![(field << 3) | 2];
    let mut n = b.len();
    loop {
        let byte = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            out.push(byte);
            break;
        }
        out.push(byte | 0x80);
    }
    out.extend_from_slice(b);
    out
}

pub fn merge_coins(coins: &[Coin]) -> Vec<Coin> {
    let mut m: BTreeMap<String, u128> = BTreeMap::new();
    for c in coins {
        *m.entry(c.denom.clone()).or_default() += c.amount.u128();
    }
    m.into_iter()
        .filter(|(_, a)| *a > 0)
        .map(|(denom, a)| Coin {
            denom,
            amount: Uint128::new(a),
        })
        .collect()
}

fn guarded<T>(chain: &Chain, f: impl FnOnce() -> R<T>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            chain.st.borrow_mut().panics.push(m.clone());
            Err(format!("contract panicked: {m}"))
        }
    }
}

impl Chain {
    pub fn new() -> Chain {
        Chain {
            st: Rc::new(RefCell::new(State {
                contracts: BTreeMap::new(),
                bank: BTreeMap::new(),
                next_instance: 0,
                height: 1_000,
                time: Timestamp::from_nanos(1_700_000_000_123_456_789),
                journal: vec![],
                trace: vec![],
                dispatch_count: 0,
                fail_at: None,
                fault_hit: false,
                depth: 0,
                panics: vec![],
            })),
            codes: Rc::new(RefCell::new(vec![])),
        }
    }

    pub fn store_code(&self, code: Code) -> u64 {
        self.codes.borrow_mut().push(code);
        self.codes.borrow().len() as u64
    }

    pub fn advance(&self, blocks: u64, nanos: u64) {
        let mut st = self.st.borrow_mut();
        st.height += blocks;
        st.time = st.time.plus_nanos(nanos);
    }
    pub fn set_time(&self, t: Timestamp) {
        let mut st = self.st.borrow_mut();
        if t > st.time {
            st.time = t;
            st.height += 1;
        }
    }
    pub fn now(&self) -> Timestamp {
        self.st.borrow().time
    }
    pub fn height(&self) -> u64 {
        self.st.borrow().height
    }
    pub fn block(&self) -> BlockInfo {
        let st = self.st.borrow();
        BlockInfo {
            height: st.height,
            time: st.time,
            chain_id: "phoenix-1".to_string(),
        }
    }
    fn env(&self, addr: &str) -> Env {
        Env {
            block: self.block(),
            transaction: Some(TransactionInfo { index: 0 }),
            contract: ContractInfo {
                address: Addr::unchecked(addr),
            },
        }
    }

    pub fn mint(&self, addr: &str, denom: &str, amount: u128) {
        let mut st = self.st.borrow_mut();
        *st.bank
            .entry((addr.to_string(), denom.to_string()))
            .or_default() += amount;
    }
    pub fn balance(&self, addr: &str, denom: &str) -> u128 {
        self.st
            .borrow()
            .bank
            .get(&(addr.to_string(), denom.to_string()))
            .copied()
            .unwrap_or(0)
    }
    pub fn balances(&self, addr: &str) -> BTreeMap<String, u128> {
        self.st
            .borrow()
            .bank
            .iter()
            .filter(|((a, _), v)| a == addr && **v > 0)
            .map(|((_, d), v)| (d.clone(), *v))
            .collect()
    }
    pub fn contract_meta(&self, addr: &str) -> Option<(u64, String, Option<String>, String)> {
        self.st
            .borrow()
            .contracts
            .get(addr)
            .map(|c| (c.code_id, c.creator.clone(), c.admin.clone(), c.label.clone()))
    }
    /// set-up only: replace a text in everything a contract has stored
    pub fn replant(&self, addr: &str, from: &str, to: &str) -> usize {
        let mut n = 0;
        if let Some(c) = self.st.borrow_mut().contracts.get_mut(addr) {
            for v in c.storage.values_mut() {
                if let Ok(t) = std::str::from_utf8(v) {
                    if t.contains(from) {
                        *v = t.replace(from, to).into_bytes();
                        n += 1;
                    }
                }
            }
        }
        n
    }
    pub fn is_contract(&self, addr: &str) -> bool {
        self.st.borrow().contracts.contains_key(addr)
    }
    pub fn all_contracts(&self) -> Vec<String> {
        self.st.borrow().contracts.keys().cloned().collect()
    }

    // ---- transactions ----------------------------------------------------------------------

    fn begin(&self) {
        let mut st = self.st.borrow_mut();
        st.journal.clear();
        st.trace.clear();
        st.dispatch_count = 0;
        st.fault_hit = false;
        st.depth = 0;
    }

    fn finish(&self, r: R<Outcome>, keep: bool) -> Tx {
        let (ok, err, events, data) = match r {
            Ok(o) => (true, String::new(), o.events, o.data),
            Err(e) => (false, e, vec![], None),
        };
        if !ok {
            self.rollback(0, 0);
        }
        let mut writes: BTreeMap<String, BTreeSet<Vec<u8>>> = BTreeMap::new();
        let mut bank = BTreeMap::new();
        let mut new_contracts = vec![];
        let mut after = BTreeMap::new();
        {
            let st = self.st.borrow();
            let mut first: BTreeMap<(String, Vec<u8>), Option<Vec<u8>>> = BTreeMap::new();
            let mut firstb: BTreeMap<(String, String), u128> = BTreeMap::new();
            for u in &st.journal {
                match u {
                    Undo::Storage(a, k, old) => {
                        first
                            .entry((a.clone(), k.clone()))
                            .or_insert_with(|| old.clone());
                    }
                    Undo::Bank(k, old) => {
                        firstb.entry(k.clone()).or_insert(*old);
                    }
                    Undo::NewContract(a) => new_contracts.push(a.clone()),
                    Undo::Meta(a, code, admin) => {
                        let c = &st.contracts[a];
                        if c.code_id != *code || &c.admin != admin {
                            writes
                                .entry(a.clone())
                                .or_default()
                                .insert(b"#meta".to_vec());
                        }
                    }
                    Undo::NextInstance(_) => {}
                }
            }
            for ((a, k), old) in first {
                let cur = st.contracts.get(&a).and_then(|c| c.storage.get(&k).cloned());
                if cur != old {
                    if !keep {
                        after.insert((a.clone(), k.clone()), cur);
                    }
                    writes.entry(a).or_default().insert(k);
                }
            }
            for (k, old) in firstb {
                let cur = st.bank.get(&k).copied().unwrap_or(0);
                if cur != old {
                    bank.insert(k, (old, cur));
                }
            }
        }
        if ok && !keep {
            self.rollback(0, 0);
        }
        let mut st = self.st.borrow_mut();
        st.journal.clear();
        st.fail_at = None;
        let trace = std::mem::take(&mut st.trace);
        Tx {
            ok,
            err,
            events,
            data,
            trace,
            writes,
            bank,
            new_contracts,
            fault_hit: st.fault_hit,
            dispatches: st.dispatch_count,
            after,
        }
    }

    fn rollback(&self, journal_mark: usize, trace_mark: usize) {
        let mut st = self.st.borrow_mut();
        while st.journal.len() > journal_mark {
            match st.journal.pop().unwrap() {
                Undo::Storage(a, k, old) => {
                    if let Some(c) = st.contracts.get_mut(&a) {
                        match old {
                            Some(v) => {
                                c.storage.insert(k, v);
                            }
                            None => {
                                c.storage.remove(&k);
                            }
                        }
                    }
                }
                Undo::Bank(k, old) => {
                    st.bank.insert(k, old);
                }
                Undo::NewContract(a) => {
                    st.contracts.remove(&a);
                }
                Undo::Meta(a, code, admin) => {
                    if let Some(c) = st.contracts.get_mut(&a) {
                        c.code_id = code;
                        c.admin = admin;
                    }
                }
                Undo::NextInstance(n) => st.next_instance = n,
            }
        }
        for c in st.trace.iter_mut().skip(trace_mark) {
            c.reverted = true;
        }
    }

    /// The n-th (1-based) dispatched nested message of the next transaction fails.
    pub fn inject_failure(&self, n: usize) {
        self.st.borrow_mut().fail_at = Some(n);
    }

    /// Atomic transaction with several messages.
    pub fn dispatch(&self, sender: &str, msgs: Vec<CosmosMsg>) -> Tx {
        self.run(sender, msgs, true)
    }
    /// Execute and always roll back: what would happen.
    pub fn simulate(&self, sender: &str, msgs: Vec<CosmosMsg>) -> Tx {
        self.run(sender, msgs, false)
    }
    fn run(&self, sender: &str, msgs: Vec<CosmosMsg>, keep: bool) -> Tx {
        self.begin();
        let mut out = Outcome {
            events: vec![],
            data: None,
        };
        let mut res = Ok(());
        for m in msgs {
            match self.handle_msg(sender, m, None) {
                Ok(o) => {
                    out.events.extend(o.events);
                    out.data = o.data;
                }
                Err(e) => {
                    res = Err(e);
                    break;
                }
            }
        }
        self.finish(res.map(|_| out), keep)
    }

    pub fn exec_msg<M: Serialize>(contract: &str, msg: &M, funds: &[Coin]) -> CosmosMsg {
        CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr: contract.to_string(),
            msg: Binary(serde_json::to_vec(msg).unwrap()),
            funds: funds.to_vec(),
        })
    }

    pub fn execute<M: Serialize>(&self, sender: &str, contract: &str, msg: &M, funds: &[Coin]) -> Tx {
        self.dispatch(sender, vec![Self::exec_msg(contract, msg, funds)])
    }

    pub fn instantiate<M: Serialize>(
        &self,
        sender: &str,
        code_id: u64,
        msg: &M,
        label: &str,
        admin: Option<&str>,
    ) -> R<String> {
        let tx = self.dispatch(
            sender,
            vec![CosmosMsg::Wasm(WasmMsg::Instantiate {
                admin: admin.map(|s| s.to_string()),
                code_id,
                msg: Binary(serde_json::to_vec(msg).unwrap()),
                funds: vec![],
                label: label.to_string(),
            })],
        );
        if tx.ok {
            Ok(tx.new_contracts[0].clone())
        } else {
            Err(tx.err)
        }
    }

    pub fn query_raw(&self, contract: &str, msg: &[u8]) -> R<Binary> {
        let code_id = self
            .st
            .borrow()
            .contracts
            .get(contract)
            .map(|c| c.code_id)
            .ok_or_else(|| format!("no such contract {contract}"))?;
        let code = self.codes.borrow()[code_id as usize - 1].clone();
        let store = Store {
            st: self.st.clone(),
            addr: contract.to_string(),
        };
        let api = MockApi::default();
        let querier: &dyn Querier = self;
        let deps = Deps {
            storage: &store,
            api: &api,
            querier: QuerierWrapper::new(querier),
        };
        guarded(self, || (code.query)(deps, self.env(contract), msg))
    }

    pub fn query<T: DeserializeOwned, M: Serialize>(&self, contract: &str, msg: &M) -> R<T> {
        let b = self.query_raw(contract, &serde_json::to_vec(msg).unwrap())?;
        from_json(b).map_err(|e| e.to_string())
    }

    /// query with JSON in and out (wire level)
    pub fn q(&self, contract: &str, msg: serde_json::Value) -> R<serde_json::Value> {
        let b = self.query_raw(contract, &serde_json::to_vec(&msg).unwrap())?;
        serde_json::from_slice(b.as_slice()).map_err(|e| e.to_string())
    }

    // ---- message handling ------------------------------------------------------------------

    fn push_call(&self, kind: CallKind, parent: Option<usize>, sender: &str, target: &str, msg: &[u8], funds: &[Coin]) -> usize {
        let mut st = self.st.borrow_mut();
        let depth = st.depth;
        st.trace.push(Call {
            parent,
            depth,
            kind,
            sender: sender.to_string(),
            target: target.to_string(),
            msg: msg.to_vec(),
            funds: funds.to_vec(),
            ok: false,
            reverted: false,
            err: String::new(),
        });
        st.trace.len() - 1
    }
    fn mark(&self, idx: usize, r: &R<Outcome>) {
        let mut st = self.st.borrow_mut();
        match r {
            Ok(_) => st.trace[idx].ok = true,
            Err(e) => {
                st.trace[idx].err = e.clone();
                st.trace[idx].reverted = true;
            }
        }
    }

    fn send(&self, from: &str, to: &str, coins: &[Coin]) -> R<()> {
        for c in merge_coins(coins) {
            let mut st = self.st.borrow_mut();
            let fk = (from.to_string(), c.denom.clone());
            let tk = (to.to_string(), c.denom.clone());
            let have = st.bank.get(&fk).copied().unwrap_or(0);
            if have < c.amount.u128() {
                return Err(format!("insufficient funds: {from} has {have}{} needs {}", c.denom, c.amount));
            }
            st.journal.push(Undo::Bank(fk.clone(), have));
            st.bank.insert(fk, have - c.amount.u128());
            let had = st.bank.get(&tk).copied().unwrap_or(0);
            st.journal.push(Undo::Bank(tk.clone(), had));
            st.bank.insert(tk, had + c.amount.u128());
        }
        Ok(())
    }

    fn handle_msg(&self, sender: &str, msg: CosmosMsg, parent: Option<usize>) -> R<Outcome> {
        {
            let mut st = self.st.borrow_mut();
            if parent.is_some() {
                st.dispatch_count += 1;
                if st.fail_at == Some(st.dispatch_count) {
                    st.fault_hit = true;
                    return Err("injected failure".to_string());
                }
            }
            if st.depth > 40 {
                return Err("call depth exceeded".to_string());
            }
            st.depth += 1;
        }
        let r = self.handle_inner(sender, msg, parent);
        self.st.borrow_mut().depth -= 1;
        r
    }

    fn handle_inner(&self, sender: &str, msg: CosmosMsg, parent: Option<usize>) -> R<Outcome> {
        match msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                let raw = serde_json::to_vec(&amount).unwrap();
                let i = self.push_call(CallKind::Bank, parent, sender, &to_address, &raw, &amount);
                let r = if merge_coins(&amount).is_empty() {
                    Err("empty coins".to_string())
                } else {
                    self.send(sender, &to_address, &amount).map(|_| Outcome {
                        events: vec![Event::new("transfer")
                            .add_attribute("recipient", to_address.clone())
                            .add_attribute("sender", sender)],
                        data: None,
                    })
                };
                self.mark(i, &r);
                r
            }
            CosmosMsg::Bank(BankMsg::Burn { amount }) => {
                let raw = serde_json::to_vec(&amount).unwrap();
                let i = self.push_call(CallKind::Bank, parent, sender, "burn", &raw, &amount);
                let r = self.send(sender, "burnt", &amount).map(|_| Outcome {
                    events: vec![],
                    data: None,
                });
                self.mark(i, &r);
                r
            }
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                let funds = merge_coins(&funds);
                let i = self.push_call(CallKind::Execute, parent, sender, &contract_addr, &msg, &funds);
                let r = self.do_execute(sender, &contract_addr, &msg, &funds, i);
                self.mark(i, &r);
                r
            }
            CosmosMsg::Wasm(WasmMsg::Instantiate { admin, code_id, msg, funds, label }) => {
                let funds = merge_coins(&funds);
                let i = self.push_call(CallKind::Instantiate { code_id }, parent, sender, "", &msg, &funds);
                let r = self.do_instantiate(sender, admin, code_id, &msg, &funds, label, i);
                self.mark(i, &r);
                r
            }
            CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr, new_code_id, msg }) => {
                let i = self.push_call(CallKind::Migrate { code_id: new_code_id }, parent, sender, &contract_addr, &msg, &[]);
                let r = self.do_migrate(sender, &contract_addr, new_code_id, &msg, i);
                self.mark(i, &r);
                r
            }
            CosmosMsg::Wasm(WasmMsg::UpdateAdmin { contract_addr, admin }) => {
                let i = self.push_call(CallKind::Admin, parent, sender, &contract_addr, admin.as_bytes(), &[]);
                let r = self.set_admin(sender, &contract_addr, Some(admin));
                self.mark(i, &r);
                r
            }
            CosmosMsg::Wasm(WasmMsg::ClearAdmin { contract_addr }) => {
                let i = self.push_call(CallKind::Admin, parent, sender, &contract_addr, b"", &[]);
                let r = self.set_admin(sender, &contract_addr, None);
                self.mark(i, &r);
                r
            }
            CosmosMsg::Stargate { type_url, value } => {
                let i = self.push_call(CallKind::Stargate, parent, sender, &type_url, &value, &[]);
                let r = self.do_stargate(sender, &type_url, &value);
                self.mark(i, &r);
                r
            }
            other => {
                let i = self.push_call(CallKind::Other, parent, sender, "", format!("{other:?}").as_bytes(), &[]);
                let r = Err("unsupported message".to_string());
                self.mark(i, &r);
                r
            }
        }
    }

    /// IBC transfers: the transferred coin is escrowed.
    fn do_stargate(&self, sender: &str, type_url: &str, value: &[u8]) -> R<Outcome> {
        if type_url == "/ibc.applications.transfer.v1.MsgTransfer" {
            let t = crate::proto::decode_transfer(value)?;
            if t.sender != sender {
                return Err("MsgTransfer signer mismatch".to_string());
            }
            let amount: u128 = t.amount.parse().map_err(|_| "bad amount".to_string())?;
            self.send(
                sender,
                &format!("ibc-escrow-{}", t.source_channel),
                &[Coin {
                    denom: t.denom,
                    amount: Uint128::new(amount),
                }],
            )?;
            Ok(Outcome { events: vec![], data: None })
        } else {
            Err(format!("unsupported stargate {type_url}"))
        }
    }

    fn set_admin(&self, sender: &str, contract: &str, admin: Option<String>) -> R<Outcome> {
        let mut st = self.st.borrow_mut();
        let c = st.contracts.get_mut(contract).ok_or("no such contract")?;
        if c.admin.as_deref() != Some(sender) {
            return Err("only the contract admin can do this".to_string());
        }
        let u = Undo::Meta(contract.to_string(), c.code_id, c.admin.clone());
        c.admin = admin;
        st.journal.push(u);
        Ok(Outcome { events: vec![], data: None })
    }

    fn code_of(&self, contract: &str) -> R<Code> {
        let id = self
            .st
            .borrow()
            .contracts
            .get(contract)
            .map(|c| c.code_id)
            .ok_or_else(|| format!("no such contract {contract}"))?;
        Ok(self.codes.borrow()[id as usize - 1].clone())
    }

    fn do_execute(&self, sender: &str, contract: &str, msg: &[u8], funds: &[Coin], idx: usize) -> R<Outcome> {
        let code = self.code_of(contract)?;
        self.send(sender, contract, funds)?;
        let info = MessageInfo {
            sender: Addr::unchecked(sender),
            funds: funds.to_vec(),
        };
        let env = self.env(contract);
        let resp = self.with_deps(contract, |deps| (code.execute)(deps, env, info, msg))?;
        let base = Event::new("execute").add_attribute("_contract_address", contract);
        let mut o = self.process_response(contract, resp, vec![base], idx)?;
        o.data = o.data.map(|d| Binary(proto_bytes(1, &d)));
        Ok(o)
    }

    fn with_deps<T>(&self, contract: &str, f: impl FnOnce(DepsMut) -> R<T>) -> R<T> {
        let mut store = Store {
            st: self.st.clone(),
            addr: contract.to_string(),
        };
        let api = MockApi::default();
        let querier: &dyn Querier = self;
        guarded(self, || {
            f(DepsMut {
                storage: &mut store,
                api: &api,
                querier: QuerierWrapper::new(querier),
            })
        })
    }

    fn do_instantiate(&self, sender: &str, admin: Option<String>, code_id: u64, msg: &[u8], funds: &[Coin], label: String, idx: usize) -> R<Outcome> {
        let code = self
            .codes
            .borrow()
            .get((code_id as usize).wrapping_sub(1))
            .cloned()
            .ok_or_else(|| format!("no such code {code_id}"))?;
        if label.is_empty() {
            return Err("label is required".to_string());
        }
        let addr = {
            let mut st = self.st.borrow_mut();
            let n = st.next_instance;
            st.journal.push(Undo::NextInstance(n));
            st.next_instance += 1;
            // not in creation order, so nothing can rely on it
            let tag = (n.wrapping_mul(2654435761) ^ 0x5bd1e995) & 0xffff_ffff;
            let addr = format!("terra1c{tag:08x}x{n:04}");
            st.contracts.insert(
                addr.clone(),
                ContractData {
                    code_id,
                    creator: sender.to_string(),
                    admin,
                    label,
                    storage: BTreeMap::new(),
                },
            );
            st.journal.push(Undo::NewContract(addr.clone()));
            st.trace[idx].target = addr.clone();
            addr
        };
        self.send(sender, &addr, funds)?;
        let info = MessageInfo {
            sender: Addr::unchecked(sender),
            funds: funds.to_vec(),
        };
        let env = self.env(&addr);
        let resp = self.with_deps(&addr, |deps| (code.instantiate)(deps, env, info, msg))?;
        let base = Event::new("instantiate")
            .add_attribute("_contract_address", addr.clone())
            .add_attribute("code_id", code_id.to_string());
        let mut o = self.process_response(&addr, resp, vec![base], idx)?;
        let mut d = proto_bytes(1, addr.as_bytes());
        if let Some(x) = &o.data {
            d.extend(proto_bytes(2, x));
        }
        o.data = Some(Binary(d));
        Ok(o)
    }

    fn do_migrate(&self, sender: &str, contract: &str, code_id: u64, msg: &[u8], idx: usize) -> R<Outcome> {
        {
            let st = self.st.borrow();
            let c = st.contracts.get(contract).ok_or("no such contract")?;
            if c.admin.as_deref() != Some(sender) {
                return Err("only the contract admin can migrate".to_string());
            }
        }
        let code = self
            .codes
            .borrow()
            .get((code_id as usize).wrapping_sub(1))
            .cloned()
            .ok_or_else(|| format!("no such code {code_id}"))?;
        let f = code.migrate.ok_or("code has no migrate")?;
        let env = self.env(contract);
        let resp = self.with_deps(contract, |deps| f(deps, env, msg))?;
        {
            let mut st = self.st.borrow_mut();
            let c = st.contracts.get_mut(contract).unwrap();
            let u = Undo::Meta(contract.to_string(), c.code_id, c.admin.clone());
            c.code_id = code_id;
            st.journal.push(u);
        }
        let base = Event::new("migrate")
            .add_attribute("_contract_address", contract)
            .add_attribute("code_id", code_id.to_string());
        let mut o = self.process_response(contract, resp, vec![base], idx)?;
        o.data = o.data.map(|d| Binary(proto_bytes(1, &d)));
        Ok(o)
    }

    fn process_response(&self, contract: &str, resp: Response, base: Vec<Event>, idx: usize) -> R<Outcome> {
        let mut events = base;
        for a in resp
            .attributes
            .iter()
            .chain(resp.events.iter().flat_map(|e| e.attributes.iter()))
        {
            if a.key.trim().is_empty() || a.key.starts_with('_') {
                return Err(format!("invalid attribute key {:?}", a.key));
            }
        }
        if !resp.attributes.is_empty() {
            let mut attrs = vec![Attribute::new("x_contract_address", contract)];
            attrs[0].key = "_contract_address".to_string();
            attrs.extend(resp.attributes);
            let mut e = Event::new("wasm");
            e.attributes = attrs;
            events.push(e);
        }
        for ev in resp.events {
            let mut e = Event::new(format!("wasm-{}", ev.ty));
            let mut a0 = Attribute::new("x", contract);
            a0.key = "_contract_address".to_string();
            e.attributes = vec![a0];
            e.attributes.extend(ev.attributes);
            events.push(e);
        }
        let mut data = resp.data;
        for sub in resp.messages {
            let o = self.handle_submsg(contract, sub, idx)?;
            events.extend(o.events);
            if o.data.is_some() {
                data = o.data;
            }
        }
        Ok(Outcome { events, data })
    }

    fn handle_submsg(&self, contract: &str, sub: SubMsg, idx: usize) -> R<Outcome> {
        let (jm, tm) = {
            let st = self.st.borrow();
            (st.journal.len(), st.trace.len())
        };
        let SubMsg { id, msg, reply_on, .. } = sub;
        match self.handle_msg(contract, msg, Some(idx)) {
            Ok(o) => {
                if matches!(reply_on, ReplyOn::Always | ReplyOn::Success) {
                    let reply = Reply {
                        id,
                        result: SubMsgResult::Ok(SubMsgResponse {
                            events: o.events.clone(),
                            data: o.data.clone(),
                        }),
                    };
                    let r = self.do_reply(contract, reply, true, idx)?;
                    let mut events = o.events;
                    events.extend(r.events);
                    Ok(Outcome { events, data: r.data })
                } else {
                    Ok(Outcome { events: o.events, data: None })
                }
            }
            Err(e) => {
                self.rollback(jm, tm);
                if matches!(reply_on, ReplyOn::Always | ReplyOn::Error) {
                    let reply = Reply {
                        id,
                        result: SubMsgResult::Err(e),
                    };
                    self.do_reply(contract, reply, false, idx)
                } else {
                    Err(e)
                }
            }
        }
    }

    fn do_reply(&self, contract: &str, reply: Reply, ok: bool, idx: usize) -> R<Outcome> {
        let code = self.code_of(contract)?;
        let f = code.reply.ok_or("contract has no reply")?;
        let i = self.push_call(CallKind::Reply { id: reply.id, ok }, Some(idx), contract, contract, b"", &[]);
        let env = self.env(contract);
        let r = self
            .with_deps(contract, |deps| f(deps, env, reply))
            .and_then(|resp| {
                let base = Event::new("reply").add_attribute("_contract_address", contract);
                self.process_response(contract, resp, vec![base], i)
            });
        self.mark(i, &r);
        r
    }
}

fn sysok<T: Serialize>(v: &T) -> QuerierResult {
    SystemResult::Ok(ContractResult::from(to_json_binary(v).map_err(|e| e.to_string())))
}

impl Querier for Chain {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: e.to_string(),
                    request: bin.into(),
                })
            }
        };
        match req {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let amount = self.balance(&address, &denom);
                sysok(&serde_json::json!({"amount": {"denom": denom, "amount": amount.to_string()}}))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let v: Vec<_> = self
                    .balances(&address)
                    .into_iter()
                    .map(|(d, a)| serde_json::json!({"denom": d, "amount": a.to_string()}))
                    .collect();
                sysok(&serde_json::json!({ "amount": v }))
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                if !self.is_contract(&contract_addr) {
                    return SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr });
                }
                match self.query_raw(&contract_addr, &msg) {
                    Ok(b) => SystemResult::Ok(ContractResult::Ok(b)),
                    Err(e) => SystemResult::Ok(ContractResult::Err(e)),
                }
            }
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => {
                if !self.is_contract(&contract_addr) {
                    return SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr });
                }
                let v = self.st.borrow().contracts[&contract_addr]
                    .storage
                    .get(key.as_slice())
                    .cloned()
                    .unwrap_or_default();
                SystemResult::Ok(ContractResult::Ok(Binary(v)))
            }
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => {
                match self.contract_meta(&contract_addr) {
                    None => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
                    Some((code_id, creator, admin, _)) => sysok(&serde_json::json!({
                        "code_id": code_id, "creator": creator, "admin": admin, "pinned": false, "ibc_port": null
                    })),
                }
            }
            other => SystemResult::Err(SystemError::UnsupportedRequest {
                kind: format!("{other:?}"),
            }),
        }
    }
}
