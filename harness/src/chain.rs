//! Minimal chain around the real contract: bank ledger, atomic transactions, sub-message execution with reply
//! semantics, injected payout faults, panic capture. Everything the monitors see is recorded here, at the boundary.
use crate::store::{Cost, MonStorage, OUT_OF_GAS};
use cosmwasm_std::{
    from_json, Addr, Api, BankMsg, BankQuery, Binary, BlockInfo, CanonicalAddr, Coin, ContractInfo,
    ContractResult as CwResult, CosmosMsg, Deps, DepsMut, Env, MessageInfo, Querier, QuerierResult,
    QuerierWrapper, QueryRequest, RecoverPubkeyError, Reply, ReplyOn, Response, StdError, StdResult,
    SubMsgResponse, SubMsgResult, SupplyResponse, SystemError, SystemResult, Timestamp, TransactionInfo, Uint128, Uint256,
    VerificationError,
};
use osmosis_std::types::cosmos::bank::v1beta1::MsgSend;
use prost::Message;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use sumtree_orderbook as ob;

pub const CONTRACT: &str = "osmo1contractcontractcontract";
pub const BASE: &str = "ubase";
pub const QUOTE: &str = "uquote";
pub const OTHER: &str = "uother";
pub const BASE2: &str = "ubaze";
pub const QUOTE2: &str = "uquoze";
pub const CONTRACT2: &str = "osmo1contractcontractcontracz";

pub fn addr_ok(s: &str) -> bool {
    s.starts_with("osmo1")
        && s.len() >= 8
        && s.len() <= 90
        && s.bytes().all(|b| b.is_ascii_lowercase() || b.is_ascii_digit())
}

#[derive(Clone, Copy)]
pub struct ChainApi;
impl Api for ChainApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if addr_ok(human) {
            Ok(Addr::unchecked(human))
        } else {
            Err(StdError::generic_err("invalid address"))
        }
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        if addr_ok(human) {
            Ok(CanonicalAddr::from(human.as_bytes()))
        } else {
            Err(StdError::generic_err("invalid address"))
        }
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        String::from_utf8(c.to_vec())
            .map(Addr::unchecked)
            .map_err(|_| StdError::generic_err("bad canonical"))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Err(VerificationError::GenericErr)
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        Err(RecoverPubkeyError::InvalidHashFormat)
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Err(VerificationError::GenericErr)
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        Err(VerificationError::GenericErr)
    }
    fn debug(&self, _: &str) {}
}

/// What the two denoms of a book are really called, base and quote. Everything in the harness calls them `ubase` and
/// `uquote`; the names are exchanged where the contract is entered and left.
pub type Names = (&'static str, &'static str);
pub const NAMES: &[Names] = &[
    ("uzed", "uack"),
    ("ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", "factory/osmo1fac/usd"),
    ("uatom2", "uatom"),
    ("USDX", "usdx"),
];
fn swap_names(s: &str, from: Names, to: Names) -> String {
    // the longer name may contain the shorter one
    if from.0.len() >= from.1.len() {
        s.replace(from.0, to.0).replace(from.1, to.1)
    } else {
        s.replace(from.1, to.1).replace(from.0, to.0)
    }
}
fn there(n: Option<Names>, s: &str) -> String {
    n.map_or_else(|| s.to_string(), |n| swap_names(s, (BASE, QUOTE), n))
}
fn back(n: Option<Names>, s: &str) -> String {
    n.map_or_else(|| s.to_string(), |n| swap_names(s, n, (BASE, QUOTE)))
}
/// a denom as a whole; one that the contract cannot know under this name stays unknown
fn denom_back(n: Option<Names>, d: &str) -> String {
    match n {
        None => d.to_string(),
        Some(n) if d == n.0 => BASE.to_string(),
        Some(n) if d == n.1 => QUOTE.to_string(),
        Some(_) if d == BASE || d == QUOTE => format!("?{d}"),
        _ => d.to_string(),
    }
}
fn bytes_back(n: Option<Names>, b: &[u8]) -> Vec<u8> {
    match (n, std::str::from_utf8(b)) {
        (Some(_), Ok(s)) => back(n, s).into_bytes(),
        _ => b.to_vec(),
    }
}

pub struct ChainQuerier<'a> {
    bank: &'a Bank,
    names: Option<Names>,
}
impl<'a> Querier for ChainQuerier<'a> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: Result<QueryRequest<cosmwasm_std::Empty>, _> = from_json(bin);
        let ok = |b: StdResult<Binary>| SystemResult::Ok(CwResult::from(b));
        match req {
            Ok(QueryRequest::Bank(BankQuery::Supply { denom })) => {
                let amount = self.bank.supply(&denom_back(self.names, &denom));
                // SupplyResponse is non_exhaustive, so it goes through JSON
                let j = serde_json::json!({"amount": {"denom": denom, "amount": amount.to_string()}});
                let r: Result<SupplyResponse, _> = from_json(serde_json::to_vec(&j).unwrap());
                match r {
                    Ok(s) => ok(cosmwasm_std::to_json_binary(&s)),
                    Err(e) => ok(Err(e)),
                }
            }
            Ok(QueryRequest::Bank(BankQuery::Balance { address, denom })) => {
                let a = self.bank.get(&address, &denom_back(self.names, &denom));
                let j = serde_json::json!({"amount": {"denom": denom, "amount": a.to_string()}});
                ok(Ok(Binary::from(serde_json::to_vec(&j).unwrap())))
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest {
                kind: "unsupported".into(),
            }),
        }
    }
}

#[derive(Clone, Default, PartialEq, Debug, serde::Serialize, serde::Deserialize)]
pub struct Bank {
    pub bal: BTreeMap<String, BTreeMap<String, u128>>, // addr -> denom -> amount
}
impl Bank {
    pub fn get(&self, a: &str, d: &str) -> u128 {
        self.bal.get(a).and_then(|m| m.get(d)).copied().unwrap_or(0)
    }
    pub fn mint(&mut self, a: &str, d: &str, x: u128) {
        *self
            .bal
            .entry(a.to_string())
            .or_default()
            .entry(d.to_string())
            .or_default() += x;
    }
    pub fn supply(&self, d: &str) -> u128 {
        self.bal
            .values()
            .map(|m| m.get(d).copied().unwrap_or(0))
            .fold(0u128, |a, b| a.saturating_add(b))
    }
    fn send(&mut self, from: &str, to: &str, d: &str, x: u128) -> Result<(), String> {
        let have = self.get(from, d);
        if have < x {
            return Err(format!("insufficient funds: {} has {}{} needs {}", from, have, d, x));
        }
        if x == 0 {
            return Err("zero coin".into());
        }
        *self.bal.get_mut(from).unwrap().get_mut(d).unwrap() -= x;
        self.mint(to, d, x);
        Ok(())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Xfer {
    pub to: String,
    pub denom: String,
    pub amt: u128,
}

#[derive(Default, Clone, Debug, PartialEq)]
pub struct TxOk {
    pub xfers: Vec<Xfer>,
    pub data: Option<Vec<u8>>,
    pub attrs: Vec<(String, String)>,
    pub events: Vec<(String, Vec<(String, String)>)>,
    pub foreign: Vec<String>,
    pub swallowed: usize,
}
impl TxOk {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|(a, _)| a == k).map(|(_, v)| v.as_str())
    }
    /// (to, denom) -> total, transfers to the contract itself ignored
    pub fn agg(&self) -> BTreeMap<(String, String), Uint256> {
        let mut m = BTreeMap::new();
        for x in &self.xfers {
            if x.to == CONTRACT {
                continue;
            }
            let e = m
                .entry((x.to.clone(), x.denom.clone()))
                .or_insert(Uint256::zero());
            *e += Uint256::from(x.amt);
        }
        m
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum TxErr {
    /// the caller could not fund the call, the contract was not run
    Unfunded,
    Parse(String),
    Contract(String),
    Payout(String),
    Panic(String),
    Gas,
}
impl TxErr {
    pub fn text(&self) -> String {
        match self {
            TxErr::Unfunded => "unfunded".into(),
            TxErr::Parse(s) => format!("parse: {s}"),
            TxErr::Contract(s) => format!("contract: {s}"),
            TxErr::Payout(s) => format!("payout: {s}"),
            TxErr::Panic(s) => format!("panic: {s}"),
            TxErr::Gas => "storage budget exhausted".into(),
        }
    }
}

pub struct TxRes {
    pub r: Result<TxOk, TxErr>,
    pub cost: Cost,
}

#[derive(Clone)]
pub struct World {
    pub store: MonStorage,
    pub bank: Bank,
    pub blocked: BTreeSet<String>,
    pub height: u64,
    pub time: u64,
    /// address this instance lives at
    pub contract: &'static str,
    /// what its denoms are called, if not as usual
    pub names: Option<Names>,
    /// when present, every call and its complete outcome is recorded
    pub log: Option<Vec<LogEntry>>,
}

#[derive(Clone, Debug)]
pub enum OwnedCall {
    Exec { sender: String, funds: Vec<(String, u128)>, msg: String },
    Sudo { pay: Option<(String, String, u128)>, msg: String },
    Inst { sender: String, msg: String },
    Migrate { msg: String },
    /// not a call: a stored value given from outside
    Raw { key: Vec<u8>, val: Vec<u8> },
}
#[derive(Clone, Debug)]
pub struct LogEntry {
    pub call: OwnedCall,
    pub height: u64,
    pub time: u64,
    pub blocked: BTreeSet<String>,
    pub out: Result<TxOk, TxErr>,
}
/// the same history as seen by a book with other (equally long, equally ordered) denoms at another address
pub fn renamed(s: &str) -> String {
    s.replace(BASE, BASE2).replace(QUOTE, QUOTE2).replace(CONTRACT, CONTRACT2)
}
pub fn renamed_out(r: &Result<TxOk, TxErr>) -> Result<TxOk, TxErr> {
    let p = |v: &[(String, String)]| v.iter().map(|(a, b)| (renamed(a), renamed(b))).collect::<Vec<_>>();
    match r {
        Ok(k) => Ok(TxOk {
            xfers: k
                .xfers
                .iter()
                .map(|x| Xfer { to: renamed(&x.to), denom: renamed(&x.denom), amt: x.amt })
                .collect(),
            data: k.data.as_ref().map(|d| renamed_bytes(d)),
            attrs: p(&k.attrs),
            events: k.events.iter().map(|(t, a)| (renamed(t), p(a))).collect(),
            foreign: k.foreign.iter().map(|f| renamed(f)).collect(),
            swallowed: k.swallowed,
        }),
        Err(e) => Err(match e {
            TxErr::Parse(s) => TxErr::Parse(renamed(s)),
            TxErr::Contract(s) => TxErr::Contract(renamed(s)),
            TxErr::Payout(s) => TxErr::Payout(renamed(s)),
            TxErr::Panic(s) => TxErr::Panic(renamed(s)),
            x => x.clone(),
        }),
    }
}
pub fn renamed_bytes(b: &[u8]) -> Vec<u8> {
    match std::str::from_utf8(b) {
        Ok(s) => renamed(s).into_bytes(),
        Err(_) => b.to_vec(),
    }
}
impl Bank {
    pub fn renamed(&self) -> Bank {
        Bank {
            bal: self
                .bal
                .iter()
                .map(|(a, m)| (renamed(a), m.iter().map(|(d, x)| (renamed(d), *x)).collect()))
                .collect(),
        }
    }
}
impl OwnedCall {
    pub fn renamed(&self) -> Self {
        match self {
            OwnedCall::Exec { sender, funds, msg } => OwnedCall::Exec {
                sender: renamed(sender),
                funds: funds.iter().map(|(d, a)| (renamed(d), *a)).collect(),
                msg: renamed(msg),
            },
            OwnedCall::Sudo { pay, msg } => OwnedCall::Sudo {
                pay: pay.as_ref().map(|(a, d, x)| (renamed(a), renamed(d), *x)),
                msg: renamed(msg),
            },
            OwnedCall::Inst { sender, msg } => OwnedCall::Inst { sender: renamed(sender), msg: renamed(msg) },
            OwnedCall::Migrate { msg } => OwnedCall::Migrate { msg: renamed(msg) },
            OwnedCall::Raw { key, val } => OwnedCall::Raw { key: key.clone(), val: val.clone() },
        }
    }
    pub fn of(c: &Call) -> Self {
        match c {
            Call::Exec { sender, funds, msg } => OwnedCall::Exec { sender: sender.to_string(), funds: funds.to_vec(), msg: msg.to_string() },
            Call::Sudo { pay, msg } => OwnedCall::Sudo {
                pay: pay.map(|(a, b, c)| (a.to_string(), b.to_string(), c)),
                msg: msg.to_string(),
            },
            Call::Inst { sender, msg } => OwnedCall::Inst { sender: sender.to_string(), msg: msg.to_string() },
            Call::Migrate { msg } => OwnedCall::Migrate { msg: msg.to_string() },
        }
    }
    pub fn run(&self, w: &mut World) -> TxRes {
        match self {
            OwnedCall::Exec { sender, funds, msg } => w.call(Call::Exec { sender, funds, msg }),
            OwnedCall::Sudo { pay, msg } => w.call(Call::Sudo {
                pay: pay.as_ref().map(|(a, b, c)| (a.as_str(), b.as_str(), *c)),
                msg,
            }),
            OwnedCall::Inst { sender, msg } => w.call(Call::Inst { sender, msg }),
            OwnedCall::Migrate { msg } => w.call(Call::Migrate { msg }),
            OwnedCall::Raw { key, val } => {
                w.store.data.insert(key.clone(), val.clone());
                TxRes { r: Ok(TxOk::default()), cost: Default::default() }
            }
        }
    }
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

pub enum Call<'a> {
    Exec { sender: &'a str, funds: &'a [(String, u128)], msg: &'a str },
    Sudo { pay: Option<(&'a str, &'a str, u128)>, msg: &'a str },
    Inst { sender: &'a str, msg: &'a str },
    Migrate { msg: &'a str },
}

enum CallOut {
    Resp(Response),
    Err(String),
    Parse(String),
}

impl Default for World {
    fn default() -> Self {
        World {
            store: MonStorage::default(),
            bank: Bank::default(),
            blocked: BTreeSet::new(),
            height: 1000,
            time: 1_700_000_000_000_000_000,
            contract: CONTRACT,
            names: None,
            log: None,
        }
    }
}

impl World {
    pub fn env(&self) -> Env {
        Env {
            block: BlockInfo {
                height: self.height,
                time: Timestamp::from_nanos(self.time),
                // main network, test network, local network
                chain_id: match (self.contract == CONTRACT, self.names.is_some()) {
                    (true, false) => "osmosis-1",
                    (true, true) => "osmo-test-5",
                    _ => "localosmosis",
                }
                .into(),
            },
            // absent outside of transactions, otherwise the position in the block
            transaction: (self.height % 4 != 0).then(|| TransactionInfo { index: ((self.height.wrapping_mul(2_654_435_761) >> 7) % 8) as u32 }),
            contract: ContractInfo {
                address: Addr::unchecked(self.contract),
            },
        }
    }

    pub fn fork(&self) -> World {
        World {
            store: self.store.clone(),
            bank: self.bank.clone(),
            blocked: self.blocked.clone(),
            height: self.height,
            time: self.time,
            contract: self.contract,
            names: self.names,
            log: None,
        }
    }

    fn run<F: FnOnce(DepsMut, Env) -> CallOut>(&mut self, f: F) -> Result<CallOut, TxErr> {
        let env = self.env();
        let q = ChainQuerier { bank: &self.bank, names: self.names };
        let store = &mut self.store;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let deps = DepsMut {
                storage: store,
                api: &ChainApi,
                querier: QuerierWrapper::new(&q),
            };
            f(deps, env)
        }));
        let n = self.names;
        match r {
            Ok(CallOut::Err(t)) => Ok(CallOut::Err(back(n, &t))),
            Ok(CallOut::Parse(t)) => Ok(CallOut::Parse(back(n, &t))),
            Ok(v) => Ok(v),
            Err(p) => {
                let t = panic_text(p);
                Err(if t == OUT_OF_GAS { TxErr::Gas } else { TxErr::Panic(back(n, &t)) })
            }
        }
    }

    pub fn raw(&mut self, key: Vec<u8>, val: Vec<u8>) {
        if let Some(l) = self.log.as_mut() {
            l.push(LogEntry {
                call: OwnedCall::Raw { key: key.clone(), val: val.clone() },
                height: self.height,
                time: self.time,
                blocked: self.blocked.clone(),
                out: Ok(TxOk::default()),
            });
        }
        self.store.data.insert(key, val);
    }

    pub fn call(&mut self, c: Call) -> TxRes {
        self.store.begin();
        // Only balances touched here can change: contract, payer and receivers. A clone keeps it simple and exact.
        let bank0 = self.bank.clone();
        let rec = self.log.is_some().then(|| OwnedCall::of(&c));
        let r = self.call_inner(c);
        let cost = self.store.cost();
        match &r {
            Ok(_) => self.store.commit(),
            Err(_) => {
                self.store.rollback();
                self.bank = bank0;
            }
        }
        if let (Some(call), Some(l)) = (rec, self.log.as_mut()) {
            l.push(LogEntry {
                call,
                height: self.height,
                time: self.time,
                blocked: self.blocked.clone(),
                out: r.clone(),
            });
        }
        TxRes { r, cost }
    }

    fn call_inner(&mut self, c: Call) -> Result<TxOk, TxErr> {
        let n = self.names;
        let out = match c {
            Call::Exec { sender, funds, msg } => {
                let mut coins: Vec<Coin> = vec![];
                for (d, a) in funds {
                    self.bank
                        .send(sender, self.contract, d, *a)
                        .map_err(|_| TxErr::Unfunded)?;
                    coins.push(Coin {
                        denom: there(n, d),
                        amount: Uint128::new(*a),
                    });
                }
                let info = MessageInfo {
                    sender: Addr::unchecked(sender),
                    funds: coins,
                };
                self.run(|deps, env| match from_json(there(n, msg).as_bytes()) {
                    Ok(m) => match ob::contract::execute(deps, env, info, m) {
                        Ok(r) => CallOut::Resp(r),
                        Err(e) => CallOut::Err(e.to_string()),
                    },
                    Err(e) => CallOut::Parse(e.to_string()),
                })?
            }
            Call::Sudo { pay, msg } => {
                if let Some((from, d, a)) = pay {
                    if a > 0 {
                        self.bank
                            .send(from, self.contract, d, a)
                            .map_err(|_| TxErr::Unfunded)?;
                    }
                }
                self.run(|deps, env| match from_json(there(n, msg).as_bytes()) {
                    Ok(m) => match ob::sudo::sudo(deps, env, m) {
                        Ok(r) => CallOut::Resp(r),
                        Err(e) => CallOut::Err(e.to_string()),
                    },
                    Err(e) => CallOut::Parse(e.to_string()),
                })?
            }
            Call::Inst { sender, msg } => {
                let info = MessageInfo {
                    sender: Addr::unchecked(sender),
                    funds: vec![],
                };
                self.run(|deps, env| match from_json(there(n, msg).as_bytes()) {
                    Ok(m) => match ob::contract::instantiate(deps, env, info, m) {
                        Ok(r) => CallOut::Resp(r),
                        Err(e) => CallOut::Err(e.to_string()),
                    },
                    Err(e) => CallOut::Parse(e.to_string()),
                })?
            }
            Call::Migrate { msg } => self.run(|deps, env| match from_json(there(n, msg).as_bytes()) {
                Ok(m) => match ob::contract::migrate(deps, env, m) {
                    Ok(r) => CallOut::Resp(r),
                    Err(e) => CallOut::Err(e.to_string()),
                },
                Err(e) => CallOut::Parse(e.to_string()),
            })?,
        };
        let resp = match out {
            CallOut::Resp(r) => r,
            CallOut::Err(e) => return Err(TxErr::Contract(e)),
            CallOut::Parse(e) => return Err(TxErr::Parse(e)),
        };
        let mut ok = TxOk {
            xfers: vec![],
            data: None,
            attrs: vec![],
            events: vec![],
            foreign: vec![],
            swallowed: 0,
        };
        self.process(resp, &mut ok, 0)?;
        Ok(ok)
    }

    fn process(&mut self, resp: Response, ok: &mut TxOk, depth: usize) -> Result<(), TxErr> {
        if depth > 8 {
            return Err(TxErr::Contract("reply recursion".into()));
        }
        if let Some(d) = &resp.data {
            ok.data = Some(bytes_back(self.names, d));
        }
        for a in &resp.attributes {
            ok.attrs.push((a.key.clone(), back(self.names, &a.value)));
        }
        for e in &resp.events {
            ok.events.push((
                e.ty.clone(),
                e.attributes
                    .iter()
                    .map(|a| (a.key.clone(), back(self.names, &a.value)))
                    .collect(),
            ));
        }
        for sm in resp.messages {
            let bank0 = self.bank.clone();
            let n0 = ok.xfers.len();
            let r = self.dispatch(&sm.msg, ok);
            let failed = r.is_err();
            if failed {
                self.bank = bank0;
                ok.xfers.truncate(n0);
            }
            let want = match sm.reply_on {
                ReplyOn::Always => true,
                ReplyOn::Error => failed,
                ReplyOn::Success => !failed,
                ReplyOn::Never => false,
            };
            if !want {
                if let Err(e) = r {
                    return Err(TxErr::Payout(e));
                }
                continue;
            }
            let err_text = r.as_ref().err().cloned();
            let result = match r {
                Ok(()) => SubMsgResult::Ok(SubMsgResponse {
                    events: vec![],
                    data: None,
                }),
                Err(e) => SubMsgResult::Err(e),
            };
            let rep = Reply { id: sm.id, result };
            let out = self.run(|deps, env| match ob::contract::reply(deps, env, rep) {
                Ok(r) => CallOut::Resp(r),
                Err(e) => CallOut::Err(e.to_string()),
            })?;
            match out {
                CallOut::Resp(r) => {
                    if failed {
                        ok.swallowed += 1;
                    }
                    self.process(r, ok, depth + 1)?;
                }
                CallOut::Err(e) => {
                    return Err(match err_text {
                        Some(t) => TxErr::Payout(t),
                        None => TxErr::Contract(e),
                    })
                }
                CallOut::Parse(e) => return Err(TxErr::Parse(e)),
            }
        }
        Ok(())
    }

    fn pay_out(&mut self, to: &str, coins: Vec<(String, Uint256)>, ok: &mut TxOk) -> Result<(), String> {
        if !addr_ok(to) {
            return Err(format!("bad receiver {to}"));
        }
        if self.blocked.contains(to) || self.blocked.contains("*") {
            return Err(format!("{to} is not allowed to receive funds"));
        }
        if coins.is_empty() {
            return Err("empty coins".into());
        }
        for (d, a) in coins {
            let a = crate::price::to_u128(a).ok_or_else(|| "amount exceeds any balance".to_string())?;
            self.bank.send(self.contract, to, &d, a)?;
            ok.xfers.push(Xfer {
                to: to.to_string(),
                denom: d,
                amt: a,
            });
        }
        Ok(())
    }

    fn dispatch(&mut self, m: &CosmosMsg, ok: &mut TxOk) -> Result<(), String> {
        match m {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                let coins = amount
                    .iter()
                    .map(|c| (denom_back(self.names, &c.denom), Uint256::from(c.amount.u128())))
                    .collect();
                self.pay_out(to_address, coins, ok)
            }
            CosmosMsg::Stargate { type_url, value } if type_url == "/cosmos.bank.v1beta1.MsgSend" => {
                let ms = MsgSend::decode(value.as_slice()).map_err(|e| e.to_string())?;
                if ms.from_address != self.contract {
                    return Err(format!("unauthorized: signer is not {}", ms.from_address));
                }
                let mut coins = vec![];
                for c in ms.amount {
                    let a: Uint256 = c.amount.parse().map_err(|_| "bad amount".to_string())?;
                    coins.push((denom_back(self.names, &c.denom), a));
                }
                self.pay_out(&ms.to_address, coins, ok)
            }
            other => {
                ok.foreign.push(format!("{:?}", other));
                Ok(())
            }
        }
    }

    pub fn exec(&mut self, sender: &str, funds: &[(String, u128)], msg: &str) -> TxRes {
        self.call(Call::Exec { sender, funds, msg })
    }
    pub fn sudo(&mut self, pay: Option<(&str, &str, u128)>, msg: &str) -> TxRes {
        self.call(Call::Sudo { pay, msg })
    }

    /// Raw query; text of the JSON answer.
    pub fn query(&self, msg: &str) -> Result<Vec<u8>, TxErr> {
        self.query_cost(msg).0
    }
    pub fn query_cost(&self, msg: &str) -> (Result<Vec<u8>, TxErr>, u64) {
        let env = self.env();
        let q = ChainQuerier { bank: &self.bank, names: self.names };
        self.store.reset_cost();
        // queries only have shared access; the access counters are not part of the state
        let r = catch_unwind(AssertUnwindSafe(|| {
            let deps = Deps {
                storage: &self.store,
                api: &ChainApi,
                querier: QuerierWrapper::new(&q),
            };
            match from_json::<ob::msg::QueryMsg>(there(self.names, msg).as_bytes()) {
                Ok(m) => match ob::contract::query(deps, env, m) {
                    Ok(b) => Ok(bytes_back(self.names, &b)),
                    Err(e) => Err(TxErr::Contract(back(self.names, &e.to_string()))),
                },
                Err(e) => Err(TxErr::Parse(back(self.names, &e.to_string()))),
            }
        }));
        let cost = self.store.cost().total();
        let r = match r {
            Ok(x) => x,
            Err(p) => {
                let t = panic_text(p);
                Err(if t == OUT_OF_GAS { TxErr::Gas } else { TxErr::Panic(t) })
            }
        };
        (r, cost)
    }
}
