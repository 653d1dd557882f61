//! A small deterministic CosmWasm host. It executes the *real* contract code (through its public entry points, JSON
//! messages in, JSON out) against cloneable state, with chain semantics: messages of a response are dispatched
//! depth-first, any error reverts the whole transaction (or the submessage, when it asked for a reply on error), a panic
//! is an aborted transaction, a bank send of nothing is an error.
use cosmwasm_std::{
    from_json, to_json_binary, Addr, Api, BankMsg, BankQuery, Binary, BlockInfo, CanonicalAddr,
    ContractInfo, ContractResult, CosmosMsg, Deps, DepsMut, Empty, Env, MessageInfo, Order, Querier,
    QuerierResult, QuerierWrapper, QueryRequest, RecoverPubkeyError, Reply, ReplyOn, Response,
    StdError, StdResult, Storage, SubMsgResponse, SubMsgResult, SystemError, SystemResult, Timestamp,
    TransactionInfo, VerificationError, WasmMsg, WasmQuery, Coin, Uint128,
};
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub const CONTRACT: &str = "contract0";
pub const FAIR_BURN: &str = "fairburn0";
pub const REGISTRY: &str = "registry0";

// ---------------------------------------------------------------- storage
#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
pub struct Store(pub BTreeMap<Vec<u8>, Vec<u8>>);

impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        if value.is_empty() {
            panic!("empty value");
        }
        self.0.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.0.remove(key);
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = (Vec<u8>, Vec<u8>)> + 'a> {
        use std::ops::Bound;
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        let lo = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |e| Bound::Excluded(e.to_vec()));
        let it = self.0.range::<Vec<u8>, _>((lo, hi)).map(|(k, v)| (k.clone(), v.clone()));
        match order {
            Order::Ascending => Box::new(it),
            Order::Descending => Box::new(it.rev()),
        }
    }
}

// ---------------------------------------------------------------- api
#[derive(Clone, Copy, Default)]
pub struct HostApi;

impl Api for HostApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if human.len() < 3 || human.len() > 90 {
            return Err(StdError::generic_err("invalid address length"));
        }
        if human.bytes().any(|b| !(b.is_ascii_lowercase() || b.is_ascii_digit())) {
            return Err(StdError::generic_err("invalid address: not normalized"));
        }
        Ok(Addr::unchecked(human))
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        self.addr_validate(human)?;
        Ok(CanonicalAddr(Binary(human.as_bytes().to_vec())))
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(String::from_utf8_lossy(c.as_slice()).to_string()))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        unimplemented!()
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn debug(&self, _: &str) {}
}

// ---------------------------------------------------------------- environment (everything but the contract's storage)
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Expiry {
    Never,
    AtTime(u64), // nanos
}
impl Expiry {
    pub fn expired(&self, now: u64) -> bool {
        match self {
            Expiry::Never => false,
            Expiry::AtTime(t) => now >= *t,
        }
    }
    fn json(&self) -> Value {
        match self {
            Expiry::Never => json!({"never":{}}),
            Expiry::AtTime(t) => json!({"at_time": t.to_string()}),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Nft {
    pub owner: String,
    pub approvals: BTreeMap<String, Expiry>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Coll {
    /// royalty: (payment address, share in 1e-18)
    pub royalty: Option<(String, u128)>,
    pub start_trading: Option<u64>,
    /// a collection that does not answer CollectionInfo (plain cw721)
    pub plain: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RoyaltyReg {
    pub recipient: String,
    pub share: u128, // 1e-18
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct EnvState {
    pub height: u64,
    pub time: u64, // nanos
    pub bank: BTreeMap<String, BTreeMap<String, u128>>,
    pub burned: BTreeMap<String, u128>,
    pub pool: BTreeMap<String, u128>,
    pub nfts: BTreeMap<(String, String), Nft>,
    pub operators: BTreeMap<(String, String, String), Expiry>,
    pub colls: BTreeMap<String, Coll>,
    pub reg_default: BTreeMap<String, RoyaltyReg>,
    pub reg_protocol: BTreeMap<(String, String), RoyaltyReg>,
    pub admin: Option<String>,
    /// addresses of hook contracts, and whether they fail
    pub hooks: BTreeMap<String, bool>,
}

/// type and attributes
pub type Event = (String, Vec<(String, String)>);

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Log {
    /// (hook contract, message)
    pub hooks: Vec<(String, Value)>,
    /// messages handled by the royalty registry
    pub registry: Vec<Value>,
    /// (recipient option, funds) of calls to the fair burn contract
    pub fair_burn: Vec<Value>,
    /// the contract's own events
    pub events: Vec<Event>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct World {
    pub env: Arc<EnvState>,
    pub store: Arc<Store>,
}

impl EnvState {
    pub fn balance(&self, addr: &str, denom: &str) -> u128 {
        self.bank.get(addr).and_then(|m| m.get(denom)).copied().unwrap_or(0)
    }
    fn credit(&mut self, addr: &str, denom: &str, amt: u128) -> Result<(), String> {
        if amt == 0 {
            return Ok(());
        }
        let e = self.bank.entry(addr.to_string()).or_default().entry(denom.to_string()).or_insert(0);
        *e = e.checked_add(amt).ok_or("bank overflow")?;
        Ok(())
    }
    fn debit(&mut self, addr: &str, denom: &str, amt: u128) -> Result<(), String> {
        if amt == 0 {
            return Ok(());
        }
        let m = self.bank.entry(addr.to_string()).or_default();
        let e = m.entry(denom.to_string()).or_insert(0);
        if *e < amt {
            return Err(format!("insufficient funds: {addr} has {e}{denom}, needs {amt}"));
        }
        *e -= amt;
        if *e == 0 {
            m.remove(denom);
            if m.is_empty() {
                self.bank.remove(addr);
            }
        }
        Ok(())
    }
    pub fn fund(&mut self, addr: &str, denom: &str, amt: u128) {
        self.credit(addr, denom, amt).unwrap()
    }
    pub fn owner(&self, coll: &str, token: &str) -> Option<&str> {
        self.nfts.get(&(coll.to_string(), token.to_string())).map(|n| n.owner.as_str())
    }
    /// what cw721-base answers to an `approval` query with include_expired=false
    pub fn approved(&self, coll: &str, token: &str, spender: &str) -> bool {
        match self.nfts.get(&(coll.to_string(), token.to_string())) {
            None => false,
            Some(n) => n.owner == spender || n.approvals.get(spender).map_or(false, |e| !e.expired(self.time)),
        }
    }
    /// what cw721-base checks on transfer
    pub fn can_send(&self, coll: &str, token: &str, sender: &str) -> bool {
        match self.nfts.get(&(coll.to_string(), token.to_string())) {
            None => false,
            Some(n) => {
                n.owner == sender
                    || n.approvals.get(sender).map_or(false, |e| !e.expired(self.time))
                    || self
                        .operators
                        .get(&(coll.to_string(), n.owner.clone(), sender.to_string()))
                        .map_or(false, |e| !e.expired(self.time))
            }
        }
    }
    pub fn transfer_nft(&mut self, coll: &str, token: &str, sender: &str, to: &str) -> Result<(), String> {
        if !self.nfts.contains_key(&(coll.to_string(), token.to_string())) {
            return Err("nft not found".into());
        }
        if !self.can_send(coll, token, sender) {
            return Err("nft: unauthorized".into());
        }
        let n = self.nfts.get_mut(&(coll.to_string(), token.to_string())).unwrap();
        n.owner = to.to_string();
        n.approvals.clear();
        Ok(())
    }
    pub fn block(&self) -> BlockInfo {
        BlockInfo { height: self.height, time: Timestamp::from_nanos(self.time), chain_id: "mc-1".into() }
    }
    pub fn tradable(&self, coll: &str) -> bool {
        match self.colls.get(coll) {
            Some(c) if !c.plain => c.start_trading.map_or(true, |t| t <= self.time),
            _ => true,
        }
    }

    // -------- queries to other contracts
    fn smart(&self, addr: &str, msg: &Binary) -> Result<Value, String> {
        let v: Value = serde_json::from_slice(msg.as_slice()).map_err(|e| e.to_string())?;
        let (name, args) = single(&v)?;
        if let Some(c) = self.colls.get(addr) {
            let tok = args.get("token_id").and_then(|x| x.as_str()).unwrap_or("").to_string();
            let inc = args.get("include_expired").and_then(|x| x.as_bool()).unwrap_or(false);
            let nft = self.nfts.get(&(addr.to_string(), tok.clone()));
            let appr_json = |n: &Nft| -> Vec<Value> {
                n.approvals
                    .iter()
                    .filter(|(_, e)| inc || !e.expired(self.time))
                    .map(|(s, e)| json!({"spender": s, "expires": e.json()}))
                    .collect()
            };
            return match name {
                "owner_of" => {
                    let n = nft.ok_or("type: cw721 TokenInfo not found")?;
                    Ok(json!({"owner": n.owner, "approvals": appr_json(n)}))
                }
                "approval" => {
                    let n = nft.ok_or("token not found")?;
                    let sp = args["spender"].as_str().unwrap_or("");
                    if n.owner == sp {
                        return Ok(json!({"approval": {"spender": sp, "expires": {"never":{}}}}));
                    }
                    match n.approvals.get(sp) {
                        Some(e) if inc || !e.expired(self.time) => {
                            Ok(json!({"approval": {"spender": sp, "expires": e.json()}}))
                        }
                        _ => Err("approval not found".into()),
                    }
                }
                "approvals" => {
                    let n = nft.ok_or("token not found")?;
                    Ok(json!({"approvals": appr_json(n)}))
                }
                "nft_info" => {
                    nft.ok_or("token not found")?;
                    Ok(json!({"token_uri": null, "extension": null}))
                }
                "all_nft_info" => {
                    let n = nft.ok_or("token not found")?;
                    Ok(json!({"access": {"owner": n.owner, "approvals": appr_json(n)},
                              "info": {"token_uri": null, "extension": null}}))
                }
                "num_tokens" => {
                    Ok(json!({"count": self.nfts.keys().filter(|(a, _)| a == addr).count()}))
                }
                "contract_info" => Ok(json!({"name": addr, "symbol": "SYM"})),
                "all_operators" => {
                    let owner = args["owner"].as_str().unwrap_or("");
                    let v: Vec<Value> = self
                        .operators
                        .iter()
                        .filter(|((a, o, _), e)| a == addr && o == owner && (inc || !e.expired(self.time)))
                        .map(|((_, _, s), e)| json!({"spender": s, "expires": e.json()}))
                        .collect();
                    Ok(json!({ "operators": v }))
                }
                "operator" => {
                    let owner = args["owner"].as_str().unwrap_or("").to_string();
                    let op = args["operator"].as_str().unwrap_or("").to_string();
                    match self.operators.get(&(addr.to_string(), owner, op.clone())) {
                        Some(e) if inc || !e.expired(self.time) => {
                            Ok(json!({"approval": {"spender": op, "expires": e.json()}}))
                        }
                        _ => Err("operator not found".into()),
                    }
                }
                "collection_info" if !c.plain => Ok(json!({
                    "creator": "creator", "description": "d", "image": "ipfs://x",
                    "external_link": null, "explicit_content": null,
                    "start_trading_time": c.start_trading.map(|t| t.to_string()),
                    "royalty_info": c.royalty.as_ref().map(|(a, s)| json!({
                        "payment_address": a, "share": dec_str(*s)})),
                })),
                _ => Err(format!("unknown query {name}")),
            };
        }
        if addr == REGISTRY {
            let entry = |e: &RoyaltyReg| json!({"recipient": e.recipient, "share": dec_str(e.share), "updated": null});
            return match name {
                "royalty_payment" => {
                    let coll = args["collection"].as_str().unwrap_or("").to_string();
                    let d = self.reg_default.get(&coll).map(|e| {
                        json!({"collection": coll, "royalty_entry": entry(e)})
                    });
                    let p = args.get("protocol").and_then(|p| p.as_str()).and_then(|p| {
                        self.reg_protocol.get(&(coll.clone(), p.to_string())).map(|e| {
                            json!({"collection": coll, "protocol": p, "royalty_entry": entry(e)})
                        })
                    });
                    Ok(json!({"royalty_default": d, "royalty_protocol": p}))
                }
                "collection_royalty_default" => {
                    let coll = args["collection"].as_str().unwrap_or("").to_string();
                    let d = self.reg_default.get(&coll).map(|e| json!({"collection": coll, "royalty_entry": entry(e)}));
                    Ok(json!({ "royalty_default": d }))
                }
                "collection_royalty_protocol" => {
                    let coll = args["collection"].as_str().unwrap_or("").to_string();
                    let p = args["protocol"].as_str().unwrap_or("").to_string();
                    let e = self.reg_protocol.get(&(coll.clone(), p.clone())).map(|e| {
                        json!({"collection": coll, "protocol": p, "royalty_entry": entry(e)})
                    });
                    Ok(json!({ "royalty_protocol": e }))
                }
                _ => Err(format!("unknown registry query {name}")),
            };
        }
        Err(format!("no contract at {addr}"))
    }
}

impl Querier for EnvState {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Value> = match serde_json::from_slice(bin) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest { error: e.to_string(), request: bin.into() })
            }
        };
        match req {
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                let known = self.colls.contains_key(&contract_addr) || contract_addr == REGISTRY;
                if !known {
                    return SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr });
                }
                match self.smart(&contract_addr, &msg) {
                    Ok(v) => SystemResult::Ok(ContractResult::Ok(Binary(serde_json::to_vec(&v).unwrap()))),
                    Err(e) => SystemResult::Ok(ContractResult::Err(e)),
                }
            }
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, .. }) => {
                SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr })
            }
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => {
                let other = self.colls.contains_key(&contract_addr) || contract_addr == REGISTRY || contract_addr == FAIR_BURN;
                if contract_addr == CONTRACT || other {
                    let (id, admin) = if other { (2, Some("collsadmin".to_string())) } else { (1, self.admin.clone()) };
                    let v = json!({"code_id": id, "creator": "creator", "admin": admin, "pinned": false, "ibc_port": null});
                    SystemResult::Ok(ContractResult::Ok(Binary(serde_json::to_vec(&v).unwrap())))
                } else {
                    SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr })
                }
            }
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let v = json!({"amount": {"denom": denom, "amount": self.balance(&address, &denom).to_string()}});
                SystemResult::Ok(ContractResult::Ok(Binary(serde_json::to_vec(&v).unwrap())))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let a: Vec<Value> = self
                    .bank
                    .get(&address)
                    .map(|m| m.iter().map(|(d, a)| json!({"denom": d, "amount": a.to_string()})).collect())
                    .unwrap_or_default();
                SystemResult::Ok(ContractResult::Ok(Binary(serde_json::to_vec(&json!({ "amount": a })).unwrap())))
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "unsupported".into() }),
        }
    }
}

fn single(v: &Value) -> Result<(&str, &Value), String> {
    let o = v.as_object().ok_or("message is not an object")?;
    if o.len() != 1 {
        return Err("message is not an enum".into());
    }
    let (k, a) = o.iter().next().unwrap();
    Ok((k.as_str(), a))
}

pub fn dec_parse(s: &str) -> Option<u128> {
    s.parse::<cosmwasm_std::Decimal>().ok().map(|d| d.atomics().u128())
}
pub fn dec_str(atomics: u128) -> String {
    cosmwasm_std::Decimal::new(Uint128::new(atomics)).to_string()
}

// ---------------------------------------------------------------- normalised responses
#[derive(Clone, Debug)]
pub enum NMsg {
    Send { to: String, amount: Vec<Coin> },
    Burn { amount: Vec<Coin> },
    Exec { addr: String, msg: Binary, funds: Vec<Coin> },
    FundPool { amount: Vec<Coin> },
    Other(String),
}
#[derive(Clone, Debug)]
pub struct NSub {
    pub msg: NMsg,
    pub id: u64,
    pub on: ReplyOn,
}
#[derive(Clone, Debug, Default)]
pub struct NResp {
    pub msgs: Vec<NSub>,
    pub data: Option<Binary>,
    pub events: Vec<Event>,
    pub attributes: Vec<(String, String)>,
}
impl NResp {
    /// the chain fails a transaction with malformed events
    fn verify(&self) -> Result<(), String> {
        for (k, v) in self.events.iter().flat_map(|e| &e.1).chain(&self.attributes) {
            if k.trim().is_empty() || v.trim().is_empty() {
                return Err(format!("an event attribute is empty: {k:?}={v:?}"));
            }
            if k.trim().starts_with('_') {
                return Err(format!("an event attribute is reserved: {k}"));
            }
        }
        match self.events.iter().find(|e| e.0.trim().len() < 2) {
            Some(e) => Err(format!("an event has too short a type: {:?}", e.0)),
            None => Ok(()),
        }
    }
}

pub fn norm<C: Serialize + std::fmt::Debug>(r: Response<C>) -> NResp {
    let msgs = r
        .messages
        .into_iter()
        .map(|s| NSub {
            id: s.id,
            on: s.reply_on,
            msg: match s.msg {
                CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => NMsg::Send { to: to_address, amount },
                CosmosMsg::Bank(BankMsg::Burn { amount }) => NMsg::Burn { amount },
                CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                    NMsg::Exec { addr: contract_addr, msg, funds }
                }
                CosmosMsg::Custom(c) => {
                    let v = serde_json::to_value(&c).unwrap_or(Value::Null);
                    match find_key(&v, "fund_fairburn_pool") {
                        Some(p) => {
                            let amount: Vec<Coin> =
                                serde_json::from_value(p["amount"].clone()).unwrap_or_default();
                            NMsg::FundPool { amount }
                        }
                        None => NMsg::Other(format!("custom {v}")),
                    }
                }
                other => NMsg::Other(format!("{other:?}")),
            },
        })
        .collect();
    let attrs = |v: Vec<cosmwasm_std::Attribute>| v.into_iter().map(|a| (a.key, a.value)).collect::<Vec<_>>();
    NResp {
        msgs,
        data: r.data,
        events: r.events.into_iter().map(|e| (e.ty, attrs(e.attributes))).collect(),
        attributes: attrs(r.attributes),
    }
}

fn find_key<'a>(v: &'a Value, k: &str) -> Option<&'a Value> {
    match v {
        Value::Object(m) => m.get(k).or_else(|| m.values().find_map(|x| find_key(x, k))),
        _ => None,
    }
}

// ---------------------------------------------------------------- the contract under test
pub trait Contract: Sync {
    fn execute(&self, deps: DepsMut, env: Env, info: MessageInfo, msg: &[u8]) -> Result<NResp, String>;
    fn sudo(&self, deps: DepsMut, env: Env, msg: &[u8]) -> Result<NResp, String>;
    fn instantiate(&self, deps: DepsMut, env: Env, info: MessageInfo, msg: &[u8]) -> Result<NResp, String>;
    fn migrate(&self, deps: DepsMut, env: Env, msg: &[u8]) -> Result<NResp, String>;
    fn reply(&self, deps: DepsMut, env: Env, reply: Reply) -> Result<NResp, String>;
    fn query(&self, deps: Deps, env: Env, msg: &[u8]) -> Result<Binary, String>;
}

#[derive(Clone, Debug)]
pub enum Call {
    Execute { sender: String, funds: Vec<(String, u128)>, msg: Value },
    Sudo(Value),
    Migrate(Value),
    Instantiate(Value),
}

struct Tx<'a> {
    c: &'a dyn Contract,
    env: EnvState,
    store: Store,
    log: Log,
    depth: u32,
}

impl<'a> Tx<'a> {
    fn menv(&self) -> Env {
        Env {
            block: self.env.block(),
            transaction: Some(TransactionInfo { index: 0 }),
            contract: ContractInfo { address: Addr::unchecked(CONTRACT) },
        }
    }
    fn move_coins(&mut self, from: &str, to: &str, coins: &[Coin]) -> Result<(), String> {
        for c in coins {
            self.env.debit(from, &c.denom, c.amount.u128())?;
        }
        for c in coins {
            self.env.credit(to, &c.denom, c.amount.u128())?;
        }
        Ok(())
    }
    fn call_contract(&mut self, f: impl FnOnce(&dyn Contract, DepsMut, Env) -> Result<NResp, String>) -> Result<NResp, String> {
        let menv = self.menv();
        let env = &self.env;
        let store = &mut self.store;
        let c = self.c;
        let api = HostApi;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let deps = DepsMut { storage: store, api: &api, querier: QuerierWrapper::<Empty>::new(env) };
            f(c, deps, menv)
        }));
        match r {
            Ok(x) => x,
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                Err(format!("panic: {m}"))
            }
        }
    }
    fn exec(&mut self, sender: &str, funds: Vec<Coin>, msg: &[u8]) -> Result<(), String> {
        self.depth += 1;
        if self.depth > 8 {
            return Err("call depth".into());
        }
        for c in &funds {
            if c.amount.is_zero() {
                return Err("zero coin attached".into());
            }
        }
        self.move_coins(sender, CONTRACT, &funds)?;
        let info = MessageInfo { sender: Addr::unchecked(sender), funds };
        let r = self.call_contract(|c, d, e| c.execute(d, e, info, msg))?;
        let x = self.dispatch(r);
        self.depth -= 1;
        x
    }
    fn dispatch(&mut self, mut r: NResp) -> Result<(), String> {
        r.verify()?;
        self.log.events.append(&mut r.events);
        for s in r.msgs {
            let snap = (self.env.clone(), self.store.clone(), self.log.clone());
            let depth = self.depth;
            match self.one(&s.msg) {
                Ok(()) => {
                    if matches!(s.on, ReplyOn::Always | ReplyOn::Success) {
                        let rep = Reply {
                            id: s.id,
                            result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: None }),
                        };
                        let r = self.call_contract(|c, d, e| c.reply(d, e, rep))?;
                        self.dispatch(r)?;
                    }
                }
                Err(e) => {
                    if matches!(s.on, ReplyOn::Always | ReplyOn::Error) {
                        self.env = snap.0;
                        self.store = snap.1;
                        self.log = snap.2;
                        self.depth = depth;
                        let rep = Reply { id: s.id, result: SubMsgResult::Err(e) };
                        let r = self.call_contract(|c, d, e| c.reply(d, e, rep))?;
                        self.dispatch(r)?;
                    } else {
                        return Err(e);
                    }
                }
            }
        }
        Ok(())
    }
    fn one(&mut self, m: &NMsg) -> Result<(), String> {
        match m {
            NMsg::Send { to, amount } => {
                let nz: Vec<Coin> = amount.iter().filter(|c| !c.amount.is_zero()).cloned().collect();
                if nz.is_empty() {
                    return Err("bank: empty coins".into());
                }
                HostApi.addr_validate(to).map_err(|e| e.to_string())?;
                // coins sent to a fair-burn contract without calling it are not burned
                let to = if to.starts_with("fairburn") { format!("{to}!idle") } else { to.clone() };
                self.move_coins(CONTRACT, &to, &nz)
            }
            NMsg::Burn { amount } => {
                for c in amount {
                    self.env.debit(CONTRACT, &c.denom, c.amount.u128())?;
                    if !c.amount.is_zero() {
                        *self.env.burned.entry(c.denom.clone()).or_insert(0) += c.amount.u128();
                    }
                }
                Ok(())
            }
            NMsg::FundPool { amount } => {
                for c in amount {
                    self.env.debit(CONTRACT, &c.denom, c.amount.u128())?;
                    if !c.amount.is_zero() {
                        *self.env.pool.entry(c.denom.clone()).or_insert(0) += c.amount.u128();
                    }
                }
                Ok(())
            }
            NMsg::Exec { addr, msg, funds } => {
                let funds: Vec<Coin> = funds.iter().filter(|c| !c.amount.is_zero()).cloned().collect();
                if addr == CONTRACT {
                    let m = msg.as_slice().to_vec();
                    return self.exec(CONTRACT, funds, &m);
                }
                let v: Value = serde_json::from_slice(msg.as_slice()).map_err(|e| e.to_string())?;
                self.move_coins(CONTRACT, addr, &funds)?;
                if self.env.colls.contains_key(addr) {
                    let (name, a) = single(&v)?;
                    let tok = a["token_id"].as_str().unwrap_or("").to_string();
                    return match name {
                        "transfer_nft" => {
                            let to = a["recipient"].as_str().unwrap_or("").to_string();
                            HostApi.addr_validate(&to).map_err(|e| e.to_string())?;
                            self.env.transfer_nft(addr, &tok, CONTRACT, &to)
                        }
                        "burn" => {
                            if !self.env.can_send(addr, &tok, CONTRACT) {
                                return Err("nft: unauthorized".into());
                            }
                            self.env.nfts.remove(&(addr.clone(), tok));
                            Ok(())
                        }
                        _ => Err(format!("nft: unsupported {name}")),
                    };
                }
                // addresses of fair-burn contracts start with "fairburn"; like the real one, they refuse to burn nothing
                if addr.starts_with("fairburn") {
                    let (name, a) = single(&v)?;
                    if name != "fair_burn" {
                        return Err(format!("fair burn: unsupported {name}"));
                    }
                    if funds.is_empty() {
                        return Err("fair burn: zero funds".into());
                    }
                    if !a["recipient"].is_null() {
                        return Err("fair burn: a recipient is not supported by the model".into());
                    }
                    self.log.fair_burn.push(v);
                    return Ok(());
                }
                if addr == REGISTRY {
                    let (name, a) = single(&v)?;
                    if name != "initialize_collection_royalty" {
                        return Err(format!("registry: unsupported {name}"));
                    }
                    let coll = a["collection"].as_str().unwrap_or("").to_string();
                    if self.env.reg_default.contains_key(&coll) {
                        return Err("registry: already set".into());
                    }
                    let roy = self.env.colls.get(&coll).and_then(|c| if c.plain { None } else { c.royalty.clone() });
                    match roy {
                        None => return Err("registry: no royalty info".into()),
                        Some((r, s)) => {
                            self.env.reg_default.insert(coll, RoyaltyReg { recipient: r, share: s });
                        }
                    }
                    self.log.registry.push(v);
                    return Ok(());
                }
                if let Some(fails) = self.env.hooks.get(addr) {
                    if *fails {
                        return Err("hook failed".into());
                    }
                    self.log.hooks.push((addr.clone(), v));
                    return Ok(());
                }
                Err(format!("no contract at {addr}"))
            }
            NMsg::Other(s) => Err(format!("unsupported message {s}")),
        }
    }
}

pub fn coins(f: &[(String, u128)]) -> Vec<Coin> {
    f.iter().map(|(d, a)| Coin { denom: d.clone(), amount: Uint128::new(*a) }).collect()
}

impl World {
    pub fn env_mut(&mut self) -> &mut EnvState {
        Arc::make_mut(&mut self.env)
    }
    /// Runs one top-level call as a transaction. Ok: the new world and the log. Err: rejected, nothing changed.
    pub fn call(&self, c: &dyn Contract, call: &Call) -> Result<(World, Log), String> {
        let mut tx = Tx { c, env: (*self.env).clone(), store: (*self.store).clone(), log: Log::default(), depth: 0 };
        match call {
            Call::Execute { sender, funds, msg } => {
                let m = serde_json::to_vec(msg).unwrap();
                tx.exec(sender, coins(funds), &m)?;
            }
            Call::Sudo(msg) => {
                let m = serde_json::to_vec(msg).unwrap();
                let r = tx.call_contract(|c, d, e| c.sudo(d, e, &m))?;
                tx.dispatch(r)?;
            }
            Call::Migrate(msg) => {
                let m = serde_json::to_vec(msg).unwrap();
                let r = tx.call_contract(|c, d, e| c.migrate(d, e, &m))?;
                tx.dispatch(r)?;
            }
            Call::Instantiate(msg) => {
                let m = serde_json::to_vec(msg).unwrap();
                let info = MessageInfo { sender: Addr::unchecked("creator"), funds: vec![] };
                let r = tx.call_contract(|c, d, e| c.instantiate(d, e, info, &m))?;
                tx.dispatch(r)?;
            }
        }
        Ok((World { env: Arc::new(tx.env), store: Arc::new(tx.store) }, tx.log))
    }
    pub fn query(&self, c: &dyn Contract, msg: &Value) -> Result<Value, String> {
        let m = serde_json::to_vec(msg).unwrap();
        let api = HostApi;
        let env = Env {
            block: self.env.block(),
            transaction: None,
            contract: ContractInfo { address: Addr::unchecked(CONTRACT) },
        };
        let r = catch_unwind(AssertUnwindSafe(|| {
            let deps = Deps { storage: &*self.store, api: &api, querier: QuerierWrapper::<Empty>::new(&*self.env) };
            c.query(deps, env, &m)
        }));
        match r {
            Ok(Ok(b)) => serde_json::from_slice(b.as_slice()).map_err(|e| e.to_string()),
            Ok(Err(e)) => Err(e),
            Err(_) => Err("panic in query".into()),
        }
    }
}

#[allow(dead_code)]
fn _unused(b: &Binary) -> StdResult<Value> {
    let _ = to_json_binary(&1u8);
    from_json::<Value>(b)
}

/// One call in two worlds that are to behave alike. The second world afterwards, and how they differ.
pub fn twin_call(
    c: &dyn Contract,
    a: &World,
    b: &World,
    call: &Call,
    look: &dyn Fn(&World) -> String,
) -> (Option<World>, Option<String>) {
    match (a.call(c, call), b.call(c, call)) {
        (Err(_), Err(_)) => (None, None),
        (Ok(_), Err(e)) => (None, Some(format!("is accepted only without the migration, after which it fails: {e}"))),
        (Err(e), Ok(_)) => (None, Some(format!("is accepted only after the migration, without which it fails: {e}"))),
        (Ok((x, lx)), Ok((y, ly))) => {
            let d = if x.env != y.env {
                Some("moves other coins or NFTs after the migration than without it".to_string())
            } else if lx.hooks != ly.hooks {
                Some("calls other hooks after the migration than without it".to_string())
            } else if lx.events != ly.events {
                Some("reports other events after the migration than without it".to_string())
            } else {
                let (p, q) = (look(&x), look(&y));
                (p != q).then(|| format!("leads to other answers after the migration than without it: {q} instead of {p}"))
            };
            (Some(y), d)
        }
    }
}

pub fn known_hook_addrs(e: &EnvState) -> BTreeSet<String> {
    e.hooks.keys().cloned().collect()
}
