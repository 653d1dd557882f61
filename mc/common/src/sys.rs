use cosmwasm_std::{
    coin, to_json_binary, Addr, Coin, CosmosMsg, Decimal, MessageInfo, QuerierWrapper, Response, Uint128, WasmMsg,
};
use mchost::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use sg_marketplace_common::{address, coin as coins_helper, nft, royalties, sale::NftSaleProcessor};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type C = (String, U);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    // ---- a sale
    Sale { price: C, seller: String },
    Fee { label: String, share: U, to: String },
    /// build the payments, look them up, pay them out
    Pay { prior: u8 },
    // ---- a response with transfers
    Attribute(String),
    Message,
    Coin { c: C, to: String, checked: bool },
    Coins { c: Vec<C>, to: String, checked: bool },
    Nft { coll: String, tok: String, to: String },
    // ---- a list of addresses
    Address(String),
    // ---- collections
    At(u64),
    Skip(u64),
    Coll { addr: String, start: Option<u64>, plain: bool, royalty: Option<(String, U)> },
    Own { coll: String, tok: String, owner: String },
    Approve { coll: String, tok: String, to: String, until: Option<u64> },
    Operator { coll: String, owner: String, to: String },
    RegDefault { coll: String, entry: Option<(String, U)> },
    RegProtocol { coll: String, protocol: String, entry: Option<(String, U)> },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct SaleM {
    pub price: C,
    pub seller: String,
    pub fees: Vec<(String, U, String)>,
}

#[derive(Clone, Default)]
pub struct St {
    pub w: World,
    pub sale: Option<SaleM>,
    /// the response under construction, as built by the helpers
    pub resp: Option<Response>,
    /// what it should contain
    pub want: Vec<(String, String)>,
    pub addrs: Vec<String>,
}

fn c(x: &C) -> Coin {
    coin(x.1 .0, &x.0)
}
fn a(x: &str) -> Addr {
    Addr::unchecked(x)
}
/// the messages of a response in a form that is independent of how the json is laid out
fn msgs(r: &Response) -> Vec<(String, String)> {
    r.messages
        .iter()
        .map(|m| {
            let head = format!("id={} reply={:?} gas={:?}", m.id, m.reply_on, m.gas_limit);
            let body = match &m.msg {
                CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                    let v: Value = serde_json::from_slice(msg.as_slice()).unwrap_or(Value::Null);
                    format!("execute {contract_addr} {v} {funds:?}")
                }
                o => format!("{o:?}"),
            };
            (head, body)
        })
        .collect()
}
fn head() -> String {
    format!("id=0 reply={:?} gas={:?}", cosmwasm_std::ReplyOn::Never, None::<u64>)
}
fn send(to: &str, f: &[C]) -> (String, String) {
    let m: CosmosMsg =
        cosmwasm_std::BankMsg::Send { to_address: to.into(), amount: f.iter().map(c).collect() }.into();
    (head(), format!("{m:?}"))
}
fn prior(n: u8) -> Response {
    let mut r = Response::new();
    for i in 0..n {
        r = r
            .add_attribute("k", i.to_string())
            .add_event(cosmwasm_std::Event::new("ev").add_attribute("x", "y"))
            .add_message(cosmwasm_std::BankMsg::Burn { amount: vec![coin(7, "burnt")] })
            .set_data(to_json_binary(&i).unwrap());
    }
    r
}
const ONE: u128 = 1_000_000_000_000_000_000;
/// ceil(p * share), None if that is above u128
fn ceil_mul(p: u128, share: u128) -> Option<u128> {
    let (q, r) = (p / ONE, p % ONE);
    let hi = q.checked_mul(share)?;
    let lo = r.checked_mul(share)?;
    hi.checked_add(lo / ONE + u128::from(lo % ONE != 0))
}
impl SaleM {
    /// (label, recipient, amount); None when the fees exceed the price
    fn payments(&self) -> Option<Vec<(String, String, u128)>> {
        let mut left = self.price.1 .0;
        let mut v = vec![];
        for (l, s, to) in &self.fees {
            let f = ceil_mul(self.price.1 .0, s.0)?;
            left = left.checked_sub(f)?;
            if f > 0 {
                v.push((l.clone(), to.clone(), f));
            }
        }
        if left > 0 {
            v.push(("seller".into(), self.seller.clone(), left));
        }
        Some(v)
    }
}

pub struct Sys;
type Discs = Vec<Disc>;
/// a panic of the code under test is a failure of it
fn run<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| Err("panic".into()))
}
fn disc(ds: &mut Discs, tag: &'static str, sig: &str, what: String) {
    ds.push(Disc { tags: vec![tag], sig: sig.into(), what });
}

impl Sys {
    fn pay(&self, s: &SaleM, n: u8, ds: &mut Discs) {
        let want = s.payments();
        let got = catch_unwind(AssertUnwindSafe(|| {
            let mut p = NftSaleProcessor::new(c(&s.price), a(&s.seller));
            for (l, sh, to) in &s.fees {
                p.add_fee(l.clone(), Decimal::new(Uint128::new(sh.0)), a(to));
            }
            p.build_payments().map_err(|e| e.to_string())?;
            let before = prior(n);
            let r = p.payout(before.clone());
            Ok((p, before, r))
        }))
        .unwrap_or_else(|_| Err("panic".to_string()));
        let (p, before, r) = match (want.is_some(), got) {
            (false, Err(_)) => return,
            (false, Ok((p, ..))) => {
                return disc(ds, "S01", "fees above the price", format!("{s:?}: paid {:?}", p.payments));
            }
            (true, Err(e)) => return disc(ds, "S01", "refused", format!("{s:?}: {e}")),
            (true, Ok(x)) => x,
        };
        let want = want.unwrap();
        let mut have: Vec<_> = p
            .payments
            .iter()
            .map(|x| (x.label.clone(), x.recipient.to_string(), x.funds.amount.u128(), x.funds.denom.clone()))
            .collect();
        let mut exp: Vec<_> = want.iter().map(|x| (x.0.clone(), x.1.clone(), x.2, s.price.0.clone())).collect();
        have.sort();
        exp.sort();
        if have != exp {
            disc(ds, "S01", "payments", format!("{s:?}: payments {have:?}, expected {exp:?}"));
        }
        for l in ["seller", "protocol", "royalty", "finder", "nobody"] {
            let g = p.find_payment(l.into()).map(|x| x.funds.amount.u128());
            let e = want.iter().find(|x| x.0 == l).map(|x| x.2);
            if g != e {
                disc(ds, "S01", "find", format!("{s:?}: payment {l:?} is {g:?}, expected {e:?}"));
            }
        }
        // the response: what it held is kept, and every payment is sent once
        let (mb, mr) = (msgs(&before), msgs(&r));
        if r.attributes != before.attributes || r.events != before.events || r.data != before.data
            || !mr.starts_with(&mb)
        {
            disc(ds, "S01", "response", format!("{s:?}: the payout changed the response: {before:?} -> {r:?}"));
        }
        let mut paid: BTreeMap<(String, String), u128> = Default::default();
        for m in r.messages.iter().skip(mb.len()) {
            match &m.msg {
                CosmosMsg::Bank(cosmwasm_std::BankMsg::Send { to_address, amount }) => {
                    for x in amount {
                        if x.amount.is_zero() {
                            disc(ds, "S01", "zero", format!("{s:?}: a payment of nothing: {m:?}"));
                        }
                        let e = paid.entry((to_address.clone(), x.denom.clone())).or_default();
                        *e = e.saturating_add(x.amount.u128());
                    }
                }
                o => disc(ds, "S01", "message", format!("{s:?}: not a payment: {o:?}")),
            }
        }
        let mut due: BTreeMap<(String, String), u128> = Default::default();
        for x in &want {
            *due.entry((x.1.clone(), s.price.0.clone())).or_default() += x.2;
        }
        if paid != due {
            disc(ds, "S01", "paid", format!("{s:?}: paid {paid:?}, expected {due:?}"));
        }
    }
}

impl System for Sys {
    type St = St;
    type Op = Op;
    fn name(&self) -> &'static str {
        "common"
    }
    fn empty(&self) -> St {
        St::default()
    }
    fn key(&self, s: &St) -> u128 {
        hash128(&(&s.w, &s.sale, format!("{:?}", s.resp), &s.want, &s.addrs))
    }
    fn op_kind(&self, op: &Op) -> String {
        let s = format!("{op:?}");
        s.split([' ', '(', '{']).next().unwrap_or("").to_string()
    }

    fn step(&self, s: &St, op: &Op) -> StepOut<St> {
        let mut n = s.clone();
        let mut ds = vec![];
        let off = || StepOut { next: None, discs: vec![], outcome: Outcome::Disabled };
        let mut outcome = Outcome::Accepted;
        match op {
            Op::Sale { price, seller } => {
                n.sale = Some(SaleM { price: price.clone(), seller: seller.clone(), fees: vec![] })
            }
            Op::Fee { label, share, to } => match &mut n.sale {
                Some(m) => m.fees.push((label.clone(), *share, to.clone())),
                None => return off(),
            },
            Op::Pay { prior } => match &s.sale {
                Some(m) => {
                    self.pay(m, *prior, &mut ds);
                    if m.payments().is_none() {
                        outcome = Outcome::Rejected;
                    }
                    n = s.clone();
                }
                None => return off(),
            },
            Op::Attribute(k) => n.resp = Some(n.resp.unwrap_or_default().add_attribute(k, "v")),
            Op::Message => {
                let m = cosmwasm_std::BankMsg::Burn { amount: vec![coin(7, "burnt")] };
                n.resp = Some(n.resp.unwrap_or_default().add_message(m.clone()));
                n.want.push((head(), format!("{:?}", CosmosMsg::<cosmwasm_std::Empty>::from(m))));
            }
            Op::Coin { .. } | Op::Coins { .. } | Op::Nft { .. } => {
                let before = s.resp.clone().unwrap_or_default();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let r = before.clone();
                    match op {
                        Op::Coin { c: x, to, checked: false } => Ok(coins_helper::transfer_coin(c(x), &a(to), r)),
                        Op::Coin { c: x, to, .. } => coins_helper::checked_transfer_coin(c(x), &a(to), r),
                        Op::Coins { c: x, to, checked: false } => {
                            Ok(coins_helper::transfer_coins(x.iter().map(c).collect(), &a(to), r))
                        }
                        Op::Coins { c: x, to, .. } => {
                            coins_helper::checked_transfer_coins(x.iter().map(c).collect(), &a(to), r)
                        }
                        Op::Nft { coll, tok, to } => Ok(nft::transfer_nft(&a(coll), tok, &a(to), r)),
                        _ => unreachable!(),
                    }
                    .map_err(|e| e.to_string())
                }))
                .unwrap_or_else(|_| Err("panic".into()));
                let zero = match op {
                    Op::Coin { c, checked: true, .. } => c.1 .0 == 0,
                    Op::Coins { c, checked: true, .. } => c.iter().any(|x| x.1 .0 == 0),
                    _ => false,
                };
                n.want.push(match op {
                    Op::Coin { c, to, .. } => send(to, &[c.clone()]),
                    Op::Coins { c, to, .. } => send(to, c),
                    Op::Nft { coll, tok, to } => (
                        head(),
                        format!(
                            "execute {coll} {} {:?}",
                            json!({"transfer_nft": {"token_id": tok, "recipient": to}}),
                            Vec::<Coin>::new()
                        ),
                    ),
                    _ => unreachable!(),
                });
                match r {
                    Err(_) if zero => {
                        outcome = Outcome::Rejected;
                        n = s.clone();
                    }
                    Err(e) => disc(&mut ds, "S02", "refused", format!("{op:?}: {e}")),
                    Ok(_) if zero => disc(&mut ds, "S02", "zero accepted", format!("{op:?} was accepted")),
                    Ok(r) => {
                        let m = msgs(&r);
                        if m != n.want {
                            disc(&mut ds, "S02", "messages", format!("{op:?}: {m:?}, expected {:?}", n.want));
                        }
                        if r.attributes != before.attributes || r.events != before.events || r.data != before.data {
                            disc(&mut ds, "S02", "response", format!("{op:?}: {before:?} became {r:?}"));
                        }
                        n.resp = Some(r);
                    }
                }
            }
            Op::Address(x) => n.addrs.push(x.clone()),
            Op::At(t) => {
                if n.w.env.time >= *t {
                    return off();
                }
                n.w.env_mut().time = *t;
            }
            Op::Skip(d) => n.w.env_mut().time += d,
            Op::Coll { addr, start, plain, royalty } => {
                let x = Coll {
                    royalty: royalty.clone().map(|(r, s)| (r, s.0)), start_trading: *start, plain: *plain,
                };
                n.w.env_mut().colls.insert(addr.clone(), x);
            }
            Op::Own { coll, tok, owner } => {
                let k = (coll.clone(), tok.clone());
                if n.w.env.nfts.get(&k).map_or(false, |x| x.owner == *owner) {
                    return off();
                }
                n.w.env_mut().nfts.insert(k, Nft { owner: owner.clone(), approvals: Default::default() });
            }
            Op::Approve { coll, tok, to, until } => {
                let Some(x) = n.w.env_mut().nfts.get_mut(&(coll.clone(), tok.clone())) else { return off() };
                x.approvals.insert(to.clone(), until.map_or(Expiry::Never, Expiry::AtTime));
            }
            Op::RegDefault { coll, entry } => {
                let r = &mut n.w.env_mut().reg_default;
                match entry {
                    Some((x, s)) => drop(r.insert(coll.clone(), RoyaltyReg { recipient: x.clone(), share: s.0 })),
                    None => drop(r.remove(coll)),
                }
            }
            Op::RegProtocol { coll, protocol, entry } => {
                let r = &mut n.w.env_mut().reg_protocol;
                let k = (coll.clone(), protocol.clone());
                match entry {
                    Some((x, s)) => drop(r.insert(k, RoyaltyReg { recipient: x.clone(), share: s.0 })),
                    None => drop(r.remove(&k)),
                }
            }
            Op::Operator { coll, owner, to } => {
                n.w.env_mut().operators.insert((coll.clone(), owner.clone(), to.clone()), Expiry::Never);
            }
        }
        StepOut { next: Some(n), discs: ds, outcome }
    }

    fn inspect(&self, s: &St, level: u32) -> (u64, Vec<Disc>) {
        let mut ds = vec![];
        let mut k = 0;
        if level == 1 {
            // address helpers
            let r = run(|| address::map_validate(&HostApi, &s.addrs).map_err(|e| e.to_string()));
            let bad = s.addrs.iter().any(|x| cosmwasm_std::Api::addr_validate(&HostApi, x).is_err());
            let mut exp = s.addrs.clone();
            exp.sort();
            exp.dedup();
            match r {
                Err(_) if bad => {}
                Ok(v) if !bad => {
                    let mut g: Vec<String> = v.iter().map(|x| x.to_string()).collect();
                    g.sort();
                    if g != exp {
                        disc(&mut ds, "S02", "addresses", format!("map_validate({:?}) = {g:?}", s.addrs));
                    }
                }
                r => disc(&mut ds, "S02", "addresses", format!("map_validate({:?}) = {r:?}", s.addrs)),
            }
            k += 1;
            let mut all: Vec<Option<&String>> = s.addrs.iter().map(Some).collect();
            all.push(None);
            for x in &all {
                for y in s.addrs.iter() {
                    k += 1;
                    let g = run(|| Ok(address::address_or(x.map(|x| a(x)).as_ref(), &a(y))));
                    if g != Ok(a(x.unwrap_or(y))) {
                        disc(&mut ds, "S02", "address or", format!("address_or({x:?}, {y:?}) = {g:?}"));
                    }
                }
            }
        }
        if level == 2 {
            let e = &*s.w.env;
            let q = QuerierWrapper::new(e);
            for ((coll, tok), x) in &e.nfts {
                for by in ["alice", "bobby", "carol", "alic", "alicee", coll, CONTRACT] {
                    k += 1;
                    let i = MessageInfo { sender: a(by), funds: vec![] };
                    let r = run(|| nft::only_owner(&q, &i, &a(coll), tok).map_err(|e| e.to_string()));
                    if r.is_ok() != (x.owner == by) {
                        disc(&mut ds, "S03", "owner", format!(
                            "only_owner({by}, {coll}, {tok}) = {r:?}, the owner is {}", x.owner));
                    }
                }
            }
            for (coll, x) in e.colls.iter().map(|(c, x)| (c.as_str(), Some(x))).chain([("nocoll", None)]) {
                k += 1;
                let r = run(|| nft::only_tradable(&q, &e.block(), &a(coll)).map_err(|e| e.to_string()));
                let start = x.filter(|x| !x.plain).and_then(|x| x.start_trading).unwrap_or(0);
                if r.is_ok() != (e.time >= start) {
                    disc(&mut ds, "S03", "tradable", format!(
                        "only_tradable({coll}) = {r:?} at {}, trading starts at {start}", e.time));
                }
            }
        }
        if level == 3 {
            let e = &*s.w.env;
            let q = QuerierWrapper::new(e);
            let deps = cosmwasm_std::Deps { storage: &*s.w.store, api: &HostApi, querier: q };
            for coll in ["colaa", "colbb", "nocoll"] {
                for proto in [None, Some("marka"), Some("markb")] {
                    for n in [0, 2] {
                        k += 1;
                        let reg = proto
                            .and_then(|p| e.reg_protocol.get(&(coll.to_string(), p.to_string())))
                            .or_else(|| e.reg_default.get(coll))
                            .map(|r| (r.recipient.clone(), r.share));
                        let own = e.colls.get(coll).filter(|c| !c.plain).and_then(|c| c.royalty.clone());
                        let pa = proto.map(a);
                        let flat = |r: Option<(String, Decimal)>| r.map(|(x, s)| (x, s.atomics().u128()));
                        let g = run(|| royalties::fetch_royalty_entry(&q, &a(REGISTRY), &a(coll), pa.as_ref()).map_err(|e| e.to_string()));
                        let g = g.map(|o| flat(o.map(|r| (r.recipient.to_string(), r.share))));
                        if g.as_ref().ok() != Some(&reg) {
                            disc(&mut ds, "S04", "entry", format!(
                                "fetch_royalty_entry({coll}, {proto:?}) = {g:?}, expected {reg:?}"));
                        }
                        let before = prior(n);
                        let g = run(|| {
                            royalties::fetch_or_set_royalties(deps, &a(REGISTRY), &a(coll), pa.as_ref(), before.clone())
                                .map_err(|e| e.to_string())
                        });
                        let (g, r) = match g {
                            Ok((o, r)) => (flat(o.map(|r| (r.recipient.to_string(), r.share))), r),
                            Err(x) => {
                                disc(&mut ds, "S04", "failed", format!("fetch_or_set_royalties({coll}, {proto:?}): {x}"));
                                continue;
                            }
                        };
                        let exp = reg.clone().or_else(|| own.clone());
                        if g != exp {
                            disc(&mut ds, "S04", "royalty", format!(
                                "fetch_or_set_royalties({coll}, {proto:?}) = {g:?}, expected {exp:?}"));
                        }
                        let mut want = msgs(&before);
                        if reg.is_none() && own.is_some() {
                            want.push((head(), format!(
                                "execute {REGISTRY} {} {:?}",
                                json!({"initialize_collection_royalty": {"collection": coll}}),
                                Vec::<Coin>::new()
                            )));
                        }
                        if msgs(&r) != want || r.attributes != before.attributes || r.events != before.events || r.data != before.data {
                            disc(&mut ds, "S04", "response", format!(
                                "fetch_or_set_royalties({coll}, {proto:?}): {before:?} became {r:?}"));
                        }
                    }
                }
            }
        }
        (k, ds)
    }
}
