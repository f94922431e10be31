//! A miniature chain around the real contract: storage with undo, native and cw20 ledgers, message
//! dispatch with whole-transaction rollback, block time/height, fault injection.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

use cosmwasm_std::{
    from_binary, Addr, Api, BankMsg, Binary, BlockInfo, CanonicalAddr, Coin, ContractInfo, CosmosMsg,
    Deps, DepsMut, Env, MessageInfo, Order, Querier, QuerierResult, QuerierWrapper, Record,
    RecoverPubkeyError, Response, StdError, StdResult, Storage, SystemError, Timestamp, Uint128,
    VerificationError, WasmMsg,
};
use cw20::Cw20ExecuteMsg;
use oraiswap_v3::contract;
use oraiswap_v3::msg::{ExecuteMsg, InstantiateMsg, MigrateMsg, QueryMsg};
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::ContractError;

#[derive(Clone, Default)]
pub struct Mem {
    pub data: BTreeMap<Vec<u8>, Vec<u8>>,
    undo: Vec<(Vec<u8>, Option<Vec<u8>>)>,
}

impl Mem {
    fn mark(&self) -> usize {
        self.undo.len()
    }
    fn rollback(&mut self, mark: usize) {
        while self.undo.len() > mark {
            let (k, v) = self.undo.pop().unwrap();
            match v {
                Some(v) => {
                    self.data.insert(k, v);
                }
                None => {
                    self.data.remove(&k);
                }
            }
        }
    }
    fn commit(&mut self) {
        self.undo.clear();
    }
}

/// Storage reads left to the present call, as a chain would bound them; an endless loop in the contract ends here.
const GAS: u64 = 3_000_000;
thread_local! {
    static GAS_LEFT: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
}
fn burn_gas() {
    GAS_LEFT.with(|g| match g.get() {
        u64::MAX => {}
        0 => {
            g.set(u64::MAX);
            panic!("out of gas")
        }
        n => g.set(n - 1),
    })
}
fn set_gas(n: u64) {
    GAS_LEFT.with(|g| g.set(n))
}

/// When each worker last did something (counts up with every contract call), and the case it is at.
pub static BEATS: [std::sync::atomic::AtomicU64; 256] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    [Z; 256]
};
pub static CASES: [std::sync::atomic::AtomicU64; 256] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(u64::MAX);
    [Z; 256]
};
thread_local! {
    pub static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(255) };
}
pub fn beat() {
    WORKER.with(|w| BEATS[w.get()].fetch_add(1, std::sync::atomic::Ordering::Relaxed));
}

impl Storage for Mem {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        burn_gas();
        self.data.get(key).cloned()
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        let lo = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |s| Bound::Excluded(s.to_vec()));
        if let (Bound::Included(a), Bound::Excluded(z)) = (&lo, &hi) {
            if a >= z {
                return Box::new(std::iter::empty());
            }
        }
        let it = self.data.range((lo, hi)).map(|(k, v)| (k.clone(), v.clone()));
        match order {
            Order::Ascending => Box::new(it),
            Order::Descending => Box::new(it.rev()),
        }
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        let old = self.data.insert(key.to_vec(), value.to_vec());
        self.undo.push((key.to_vec(), old));
    }
    fn remove(&mut self, key: &[u8]) {
        let old = self.data.remove(key);
        self.undo.push((key.to_vec(), old));
    }
}

/// Addresses are "orai1" + lowercase alphanumerics; everything else is a native denom.
#[derive(Clone, Copy)]
pub struct VApi;
impl Api for VApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if is_addr(human) {
            Ok(Addr::unchecked(human))
        } else {
            Err(StdError::generic_err("invalid address"))
        }
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        Ok(CanonicalAddr(Binary(human.as_bytes().to_vec())))
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(String::from_utf8_lossy(c.as_slice()).to_string()))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Ok(false)
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        Err(RecoverPubkeyError::InvalidSignatureFormat)
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Ok(false)
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        Ok(false)
    }
    fn debug(&self, _: &str) {}
}

pub fn is_addr(s: &str) -> bool {
    s.len() > 6
        && s.starts_with("orai1")
        && s.bytes().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit())
}

struct NoQuerier;
impl Querier for NoQuerier {
    fn raw_query(&self, _: &[u8]) -> QuerierResult {
        QuerierResult::Err(SystemError::UnsupportedRequest { kind: "none".into() })
    }
}

pub const CONTRACT: &str = "orai1contract";

#[derive(Debug, Clone, PartialEq)]
pub enum ErrKind {
    /// the contract returned an error (variant name, text)
    Contract(String, String),
    /// the contract panicked
    Panic(String),
    /// a message emitted by the contract could not be executed
    Transfer(String),
    /// the sender could not attach the funds
    Funds,
}
impl ErrKind {
    pub fn is_contract(&self) -> bool {
        matches!(self, ErrKind::Contract(..))
    }
    pub fn is_transfer(&self) -> bool {
        matches!(self, ErrKind::Transfer(_) | ErrKind::Funds)
    }
    pub fn variant(&self) -> &str {
        match self {
            ErrKind::Contract(v, _) => v,
            ErrKind::Panic(_) => "panic",
            ErrKind::Transfer(_) => "transfer",
            ErrKind::Funds => "funds",
        }
    }
}

/// One token movement observed on the ledgers.
#[derive(Debug, Clone, PartialEq)]
pub struct Flow {
    pub token: String,
    pub from: String,
    pub to: String,
    pub amount: u128,
}

#[derive(Debug, Clone, Default)]
pub struct Outcome {
    pub attrs: Vec<(String, String)>,
    pub flows: Vec<Flow>,
    /// messages to contracts that are not tokens (NFT receivers): (contract, json)
    pub sends: Vec<(String, String)>,
    pub nested: Vec<bool>,
}
impl Outcome {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|(a, _)| a == k).map(|(_, v)| v.as_str())
    }
    pub fn attr_u128(&self, k: &str) -> Option<u128> {
        self.attr(k).and_then(|v| v.parse().ok())
    }
}

pub type Res = Result<Outcome, ErrKind>;

/// What a hostile token does when it is asked to move funds.
#[derive(Clone)]
pub struct Hook {
    pub token: String,
    pub sender: String,
    pub msg: ExecuteMsg,
    pub funds: Vec<Coin>,
    /// if the nested call fails: true = the whole transaction fails
    pub propagate: bool,
}

#[derive(Clone)]
pub struct World {
    pub store: Mem,
    pub bal: BTreeMap<String, BTreeMap<String, u128>>,
    /// cw20 allowances towards the contract; missing = unlimited
    pub allow: BTreeMap<(String, String), u128>,
    pub time_ns: u64,
    pub height: u64,
    pub hook: Option<Hook>,
    pub fail_token: Option<String>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    pub static CALLS: RefCell<(u64, u64)> = RefCell::new((0, 0));
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} @ {}", m, loc));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

fn variant(e: &ContractError) -> String {
    let d = format!("{:?}", e);
    d.split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("").to_string()
}

impl World {
    pub fn new(admin: &str, protocol_fee: u64) -> World {
        let mut w = World {
            store: Mem::default(),
            bal: BTreeMap::new(),
            allow: BTreeMap::new(),
            time_ns: 1_700_000_000_000_000_000,
            height: 1000,
            hook: None,
            fail_token: None,
        };
        let env = w.env();
        let q = NoQuerier;
        let deps = DepsMut { storage: &mut w.store, api: &VApi, querier: QuerierWrapper::new(&q) };
        contract::instantiate(
            deps,
            env,
            MessageInfo { sender: Addr::unchecked(admin), funds: vec![] },
            InstantiateMsg { protocol_fee: Percentage(protocol_fee) },
        )
        .expect("instantiate");
        w.store.commit();
        w
    }

    pub fn env(&self) -> Env {
        Env {
            block: BlockInfo {
                height: self.height,
                time: Timestamp::from_nanos(self.time_ns),
                chain_id: "Oraichain".into(),
            },
            transaction: None,
            contract: ContractInfo { address: Addr::unchecked(CONTRACT) },
        }
    }

    pub fn advance(&mut self, blocks: u64, ns: u64) {
        self.height += blocks;
        self.time_ns += ns;
    }

    pub fn millis(&self) -> u64 {
        self.time_ns / 1_000_000
    }

    pub fn balance(&self, token: &str, who: &str) -> u128 {
        self.bal.get(token).and_then(|m| m.get(who)).copied().unwrap_or(0)
    }

    pub fn set_balance(&mut self, token: &str, who: &str, v: u128) {
        self.bal.entry(token.into()).or_default().insert(who.into(), v);
    }

    pub fn total(&self, token: &str) -> u128 {
        self.bal.get(token).map(|m| m.values().sum()).unwrap_or(0)
    }

    fn mv(&mut self, token: &str, from: &str, to: &str, amount: u128) -> Result<(), String> {
        if self.fail_token.as_deref() == Some(token) {
            return Err(format!("token {} refuses", token));
        }
        let m = self.bal.entry(token.into()).or_default();
        let f = m.get(from).copied().unwrap_or(0);
        if f < amount {
            return Err(format!("insufficient {} of {}: {} < {}", token, from, f, amount));
        }
        m.insert(from.into(), f - amount);
        *m.entry(to.into()).or_insert(0) += amount;
        Ok(())
    }

    /// Executes one transaction; on any failure nothing changes.
    pub fn exec(&mut self, sender: &str, msg: &ExecuteMsg, funds: &[Coin]) -> Res {
        let mark = self.store.mark();
        let bal = self.bal.clone();
        let allow = self.allow.clone();
        let mut out = Outcome::default();
        let r = self.exec_inner(sender, msg, funds, &mut out, 0);
        match r {
            Ok(()) => {
                self.store.commit();
                Ok(out)
            }
            Err(e) => {
                self.store.rollback(mark);
                self.bal = bal;
                self.allow = allow;
                Err(e)
            }
        }
    }

    fn call(&mut self, sender: &str, msg: &ExecuteMsg, funds: &[Coin]) -> Result<Response, ErrKind> {
        CALLS.with(|c| c.borrow_mut().0 += 1);
        let env = self.env();
        let info = MessageInfo { sender: Addr::unchecked(sender), funds: funds.to_vec() };
        let m = msg.clone();
        let q = NoQuerier;
        let store = &mut self.store;
        beat();
        set_gas(GAS);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let deps = DepsMut { storage: store, api: &VApi, querier: QuerierWrapper::new(&q) };
            contract::execute(deps, env, info, m)
        }));
        set_gas(u64::MAX);
        match r {
            Err(_) => Err(ErrKind::Panic(last_panic())),
            Ok(Err(e)) => Err(ErrKind::Contract(variant(&e), e.to_string())),
            Ok(Ok(r)) => Ok(r),
        }
    }

    fn exec_inner(
        &mut self,
        sender: &str,
        msg: &ExecuteMsg,
        funds: &[Coin],
        out: &mut Outcome,
        depth: u32,
    ) -> Result<(), ErrKind> {
        for c in funds {
            let ft = self.fail_token.take();
            let r = self.mv(&c.denom, sender, CONTRACT, c.amount.u128());
            self.fail_token = ft;
            r.map_err(|_| ErrKind::Funds)?;
            out.flows.push(Flow {
                token: c.denom.clone(),
                from: sender.into(),
                to: CONTRACT.into(),
                amount: c.amount.u128(),
            });
        }
        let resp = self.call(sender, msg, funds)?;
        if depth == 0 {
            out.attrs = resp.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect();
        }
        for sm in resp.messages {
            match sm.msg {
                CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                    for c in amount {
                        self.mv(&c.denom, CONTRACT, &to_address, c.amount.u128()).map_err(ErrKind::Transfer)?;
                        out.flows.push(Flow {
                            token: c.denom,
                            from: CONTRACT.into(),
                            to: to_address.clone(),
                            amount: c.amount.u128(),
                        });
                    }
                }
                CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, .. }) => {
                    if self.bal.contains_key(&contract_addr) {
                        self.cw20(&contract_addr, &msg, out)?;
                        if depth == 0 {
                            if let Some(h) = self.hook.clone() {
                                if h.token == contract_addr {
                                    self.hook = None;
                                    let mark = self.store.mark();
                                    let bal = self.bal.clone();
                                    let n = out.flows.len();
                                    let r = self.exec_inner(&h.sender, &h.msg, &h.funds, out, 1);
                                    out.nested.push(r.is_ok());
                                    if let Err(e) = r {
                                        if h.propagate {
                                            return Err(e);
                                        }
                                        self.store.rollback(mark);
                                        self.bal = bal;
                                        out.flows.truncate(n);
                                    }
                                }
                            }
                        }
                    } else {
                        out.sends.push((contract_addr, String::from_utf8_lossy(msg.as_slice()).into_owned()));
                    }
                }
                other => return Err(ErrKind::Transfer(format!("unexpected message {:?}", other))),
            }
        }
        Ok(())
    }

    fn cw20(&mut self, token: &str, msg: &Binary, out: &mut Outcome) -> Result<(), ErrKind> {
        let m: Cw20ExecuteMsg = from_binary(msg).map_err(|e| ErrKind::Transfer(e.to_string()))?;
        match m {
            Cw20ExecuteMsg::Transfer { recipient, amount } => {
                self.mv(token, CONTRACT, &recipient, amount.u128()).map_err(ErrKind::Transfer)?;
                out.flows.push(Flow { token: token.into(), from: CONTRACT.into(), to: recipient, amount: amount.u128() });
            }
            Cw20ExecuteMsg::TransferFrom { owner, recipient, amount } => {
                let k = (token.to_string(), owner.clone());
                if let Some(a) = self.allow.get_mut(&k) {
                    if *a < amount.u128() {
                        return Err(ErrKind::Transfer("allowance".into()));
                    }
                    *a -= amount.u128();
                }
                self.mv(token, &owner, &recipient, amount.u128()).map_err(ErrKind::Transfer)?;
                out.flows.push(Flow { token: token.into(), from: owner, to: recipient, amount: amount.u128() });
            }
            other => return Err(ErrKind::Transfer(format!("unexpected cw20 message {:?}", other))),
        }
        Ok(())
    }

    /// Run the migration entry point; the number of messages it sends.
    pub fn migrate(&mut self) -> Result<usize, ErrKind> {
        let env = self.env();
        let q = NoQuerier;
        let store = &mut self.store;
        beat();
        set_gas(GAS);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let deps = DepsMut { storage: store, api: &VApi, querier: QuerierWrapper::new(&q) };
            contract::migrate(deps, env, MigrateMsg {})
        }));
        set_gas(u64::MAX);
        match r {
            Err(_) => Err(ErrKind::Panic(last_panic())),
            Ok(Err(e)) => Err(ErrKind::Contract(variant(&e), e.to_string())),
            Ok(Ok(r)) => {
                self.store.commit();
                Ok(r.messages.len())
            }
        }
    }

    pub fn query_bin(&self, msg: QueryMsg) -> Result<Binary, ErrKind> {
        CALLS.with(|c| c.borrow_mut().1 += 1);
        let env = self.env();
        let q = NoQuerier;
        beat();
        set_gas(GAS);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let deps = Deps { storage: &self.store, api: &VApi, querier: QuerierWrapper::new(&q) };
            contract::query(deps, env, msg)
        }));
        set_gas(u64::MAX);
        match r {
            Err(_) => Err(ErrKind::Panic(last_panic())),
            Ok(Err(e)) => Err(ErrKind::Contract("Query".into(), e.to_string())),
            Ok(Ok(b)) => Ok(b),
        }
    }

    pub fn query<T: serde::de::DeserializeOwned>(&self, msg: QueryMsg) -> Result<T, ErrKind> {
        let bin = self.query_bin(msg)?;
        from_binary(&bin).map_err(|e| ErrKind::Contract("Decode".into(), e.to_string()))
    }
}

pub fn coin(denom: &str, amount: u128) -> Coin {
    Coin { denom: denom.into(), amount: Uint128::new(amount) }
}
