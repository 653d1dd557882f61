//! Reference model of marketplace v2, written from the property statements.
use mchost::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const SEC: u64 = 1_000_000_000;
pub const ONE: u128 = 1_000_000_000_000_000_000;

pub type C = (String, U);
pub type Key = (String, String);
pub type Tags = Vec<&'static str>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, Default)]
pub struct Cfg {
    pub manager: String,
    pub registry: String,
    pub fee: u64,
    pub max_roy: u64,
    pub maker: u64,
    pub taker: u64,
    pub denom: String,
}
impl Cfg {
    pub fn json(&self) -> Value {
        json!({"fee_manager": self.manager, "royalty_registry": self.registry, "protocol_fee_bps": self.fee,
            "max_royalty_fee_bps": self.max_roy, "maker_reward_bps": self.maker, "taker_reward_bps": self.taker,
            "default_denom": self.denom})
    }
    fn valid(&self) -> bool {
        self.fee < 10_000 && self.maker as u128 + (self.taker as u128) < 10_000
    }
}

/// what an order says: price, recipient, finder
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct D {
    pub price: C,
    pub rec: Option<String>,
    pub finder: Option<String>,
}
impl D {
    fn json(&self) -> Value {
        json!({"price": coinj(&self.price), "recipient": self.rec, "finder": self.finder})
    }
}

/// an existing order: the i-th oldest live one, the one that ceased to exist last, or none ever
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Ref {
    Live(usize),
    Dead,
    Bogus,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    // ---- environment
    Universe { nfts: Vec<(String, Vec<String>)>, users: Vec<String> },
    Fund(Vec<String>),
    Coll { addr: String, royalty: Option<(String, U)>, start: Option<u64>, plain: bool },
    Mint { coll: String, tok: String, owner: String },
    At(u64),
    /// the next block, this many nanoseconds later
    Skip(u64),
    Approve { coll: String, tok: String, until: Option<u64> },
    Operator { coll: String, owner: String },
    Revoke { coll: String, tok: String },
    Transfer { coll: String, tok: String, to: String },
    RegDefault { coll: String, entry: Option<(String, U)> },
    RegProtocol { coll: String, protocol: String, entry: Option<(String, U)> },
    Admin(Option<String>),
    // ---- contract
    Init(Cfg),
    Migrate,
    /// from here on, a second world that has been migrated runs along
    Twin,
    Config { by: String, cfg: Cfg, funds: Vec<C> },
    Denom { by: String, coll: String, denom: String, funds: Vec<C> },
    Fee { by: String, fee: C, funds: Vec<C> },
    NoFee { by: String, denom: String, funds: Vec<C> },
    SetAsk { by: String, coll: String, tok: String, d: D, now: bool, funds: Vec<C> },
    UpdAsk { by: String, r: Ref, d: D, funds: Vec<C> },
    DelAsk { by: String, r: Ref, funds: Vec<C> },
    TakeAsk { by: String, r: Ref, d: D, funds: Vec<C> },
    SetBid { by: String, coll: String, tok: String, d: D, now: bool, funds: Vec<C> },
    UpdBid { by: String, r: Ref, d: D, funds: Vec<C> },
    DelBid { by: String, r: Ref, funds: Vec<C> },
    TakeBid { by: String, r: Ref, d: D, funds: Vec<C> },
    SetCBid { by: String, coll: String, d: D, now: bool, funds: Vec<C> },
    UpdCBid { by: String, r: Ref, d: D, funds: Vec<C> },
    DelCBid { by: String, r: Ref, funds: Vec<C> },
    TakeCBid { by: String, r: Ref, tok: String, d: D, funds: Vec<C> },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Order {
    /// empty: not known yet
    pub id: String,
    pub creator: String,
    pub coll: String,
    pub tok: Option<String>,
    pub d: D,
}
impl Order {
    pub fn json(&self) -> Value {
        let mut v = json!({"id": self.id, "creator": self.creator, "collection": self.coll, "details": self.d.json()});
        if let Some(t) = &self.tok {
            v["token_id"] = json!(t);
        }
        v
    }
    pub fn denom(&self) -> &str {
        &self.d.price.0
    }
    pub fn price(&self) -> u128 {
        self.d.price.1 .0
    }
    /// who receives what the order is to bring
    fn rec(&self) -> &str {
        self.d.rec.as_ref().unwrap_or(&self.creator)
    }
    fn nft(&self) -> Key {
        (self.coll.clone(), self.tok.clone().unwrap())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum K {
    Ask = 0,
    Bid = 1,
    CBid = 2,
}
pub const KINDS: [K; 3] = [K::Ask, K::Bid, K::CBid];

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct M {
    pub live: bool,
    pub cfg: Cfg,
    pub denoms: BTreeMap<String, String>,
    pub fees: BTreeMap<String, u128>,
    /// asks, bids, collection bids; oldest first
    pub orders: [Vec<Order>; 3],
    pub dead: [Option<String>; 3],
}
impl Order {
    fn parse(v: &Value) -> Option<Self> {
        let text = |x: &Value| x.as_str().map(|x| x.to_string());
        let d = &v["details"];
        Some(Order {
            id: text(&v["id"])?,
            creator: text(&v["creator"])?,
            coll: text(&v["collection"])?,
            tok: text(&v["token_id"]),
            d: D {
                price: (text(&d["price"]["denom"])?, U(d["price"]["amount"].as_str()?.parse().ok()?)),
                rec: text(&d["recipient"]),
                finder: text(&d["finder"]),
            },
        })
    }
}
impl M {
    /// what the contract reports instead of what was expected
    pub fn adopt(&mut self, point: &[BTreeMap<String, Value>; 3], cfg: &Value, denoms: &BTreeMap<String, String>) -> Option<()> {
        for i in 0..3 {
            let mut new = vec![];
            for o in &self.orders[i] {
                match point[i].get(&o.id) {
                    Some(v) => new.push(Order::parse(v)?),
                    None if o.id.is_empty() => {}
                    None => self.dead[i] = Some(o.id.clone()),
                }
            }
            for (id, v) in &point[i] {
                if !new.iter().any(|o: &Order| o.id == *id) {
                    new.push(Order::parse(v)?);
                }
            }
            self.orders[i] = new;
        }
        let n = |k: &str| cfg[k].as_u64();
        let t = |k: &str| cfg[k].as_str().map(|x| x.to_string());
        self.cfg = Cfg {
            manager: t("fee_manager")?,
            registry: t("royalty_registry")?,
            fee: n("protocol_fee_bps")?,
            max_roy: n("max_royalty_fee_bps")?,
            maker: n("maker_reward_bps")?,
            taker: n("taker_reward_bps")?,
            denom: t("default_denom")?,
        };
        self.denoms = denoms.clone();
        Some(())
    }
    pub fn all(&self, k: K) -> &Vec<Order> {
        &self.orders[k as usize]
    }
    fn remove(&mut self, k: K, id: &str) {
        let v = &mut self.orders[k as usize];
        if let Some(i) = v.iter().position(|o| o.id == id) {
            v.remove(i);
            self.dead[k as usize] = Some(id.into());
        }
    }
    pub fn ask_on(&self, coll: &str, tok: &str) -> Option<&Order> {
        self.all(K::Ask).iter().find(|a| a.coll == coll && a.tok.as_deref() == Some(tok))
    }
    /// a live ask at or below a live bid that could buy it
    pub fn crossed(&self) -> Option<String> {
        for a in self.all(K::Ask) {
            for b in self.all(K::Bid).iter().chain(self.all(K::CBid)) {
                if b.coll == a.coll && (b.tok.is_none() || b.tok == a.tok) && b.denom() == a.denom() && b.price() >= a.price() {
                    return Some(format!("{} against {}", a.json(), b.json()));
                }
            }
        }
        None
    }
    pub fn find(&self, k: K, r: Ref) -> Option<&Order> {
        match r {
            Ref::Live(i) => self.all(k).get(i),
            // the id of an ask that has ceased may be that of a new ask for the NFT
            Ref::Dead => self.all(k).iter().find(|o| Some(&o.id) == self.dead[k as usize].as_ref()),
            Ref::Bogus => None,
        }
    }
    /// None: there is nothing to refer to
    pub fn id(&self, k: K, r: Ref) -> Option<String> {
        match r {
            Ref::Live(i) => self.all(k).get(i).map(|o| o.id.clone()),
            Ref::Dead => self.dead[k as usize].clone(),
            Ref::Bogus => Some("0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef".into()),
        }
    }
}

/// one allowed outcome
#[derive(Clone, Default)]
pub struct Out {
    pub m: M,
    pub deltas: BTreeMap<(String, String), i128>,
    pub nfts: BTreeMap<Key, String>,
    /// collections whose royalty gets initialised in the registry
    pub reg: BTreeSet<String>,
    /// what is to be reported
    pub evs: Vec<Ev>,
}
pub const EVENTS: &[&str] = &[
    "finalize-sale",
    "set-ask",
    "update-ask",
    "remove-ask",
    "set-bid",
    "update-bid",
    "remove-bid",
    "set-collection-bid",
    "update-collection-bid",
    "remove-collection-bid",
    "set-config",
    "set-collection-denom",
    "set-listing-fee",
    "remove-listing-fee",
];
const SET: [&str; 3] = ["set-ask", "set-bid", "set-collection-bid"];
const UPDATE: [&str; 3] = ["update-ask", "update-bid", "update-collection-bid"];
const REMOVE: [&str; 3] = ["remove-ask", "remove-bid", "remove-collection-bid"];

/// what a message has to report beside its sales; `m`: before, `n`: after (with the ids of new orders)
pub fn events(op: &Op, m: &M, n: &M) -> Vec<Ev> {
    let full = |ty, o: &Order| {
        Ev::new(ty)
            .is("id", &o.id)
            .is("collection", &o.coll)
            .opt("token_id", o.tok.as_ref())
            .is("price", format!("{}{}", o.price(), o.denom()))
            .opt("recipient", o.d.rec.as_ref())
            .opt("finder", o.d.finder.as_ref())
    };
    let kind = match op {
        Op::SetAsk { .. } | Op::UpdAsk { .. } | Op::DelAsk { .. } => K::Ask,
        Op::SetBid { .. } | Op::UpdBid { .. } | Op::DelBid { .. } => K::Bid,
        _ => K::CBid,
    };
    let i = kind as usize;
    match op {
        Op::Init(c) | Op::Config { cfg: c, .. } => vec![Ev::new("set-config")
            .is("fee_manager", &c.manager)
            .is("royalty_registry", &c.registry)
            .is("protocol_fee_bps", c.fee)
            .is("max_royalty_fee_bps", c.max_roy)
            .is("maker_reward_bps", c.maker)
            .is("taker_reward_bps", c.taker)
            .is("default_denom", &c.denom)],
        Op::Denom { coll, denom, .. } => {
            vec![Ev::new("set-collection-denom").is("collection", coll).is("denom", denom)]
        }
        Op::Fee { fee, .. } => vec![Ev::new("set-listing-fee").is("denom", &fee.0).is("fee", fee.1 .0)],
        Op::NoFee { denom, .. } => vec![Ev::new("remove-listing-fee").is("denom", denom)],
        Op::SetAsk { .. } | Op::SetBid { .. } | Op::SetCBid { .. } => n.orders[i]
            .iter()
            .filter(|o| !m.orders[i].iter().any(|x| x.id == o.id))
            .map(|o| full(SET[i], o).is("creator", &o.creator))
            .collect(),
        Op::UpdAsk { r, .. } | Op::UpdBid { r, .. } | Op::UpdCBid { r, .. } => {
            let id = m.id(kind, *r).unwrap_or_default();
            n.orders[i].iter().filter(|o| o.id == id).map(|o| full(UPDATE[i], o)).collect()
        }
        Op::DelAsk { r, .. } | Op::DelBid { r, .. } | Op::DelCBid { r, .. } => match m.find(kind, *r) {
            Some(o) => {
                let e = Ev::new(REMOVE[i]).is("id", &o.id).is("collection", &o.coll);
                vec![e.opt("token_id", o.tok.as_ref())]
            }
            None => vec![],
        },
        _ => vec![],
    }
}

impl Out {
    fn give(&mut self, who: &str, denom: &str, amt: u128) {
        *self.deltas.entry((who.to_string(), denom.to_string())).or_insert(0) += amt as i128;
    }
    fn mv(&mut self, from: &str, to: &str, denom: &str, amt: u128) {
        *self.deltas.entry((from.to_string(), denom.to_string())).or_insert(0) -= amt as i128;
        self.give(to, denom, amt);
    }
    fn pay_in(&mut self, by: &str, funds: &[C]) -> BTreeMap<String, u128> {
        let mut b = BTreeMap::new();
        for (d, a) in funds {
            self.mv(by, CONTRACT, d, a.0);
            *b.entry(d.clone()).or_insert(0) += a.0;
        }
        b
    }
}

/// What the properties say about a message in a given situation.
#[derive(Default)]
pub struct Exp {
    pub reject: Vec<(&'static str, Tags)>,
    pub may: Option<&'static str>,
    pub accept_tags: Tags,
    pub table_tags: Tags,
    pub bank_tags: Tags,
    pub outs: Vec<Out>,
}
impl Exp {
    fn no(&mut self, why: &'static str, tags: &[&'static str]) {
        self.reject.push((why, tags.to_vec()));
    }
}

/// ceil(a * atomics / 1e18)
pub fn mul_ceil(a: u128, atomics: u128) -> u128 {
    let (q, r) = (a / ONE, a % ONE);
    let (aq, ar) = (atomics / ONE, atomics % ONE);
    let whole = q * atomics + r * aq;
    let frac = r * ar;
    whole + frac / ONE + u128::from(frac % ONE > 0)
}

pub struct Ctx<'a> {
    pub m: &'a M,
    pub env: &'a EnvState,
}

/// the buying side of a sale
struct Buy<'b> {
    kind: K,
    /// None: not stored
    id: Option<&'b str>,
    to: String,
    finder: &'b Option<String>,
}

impl<'a> Ctx<'a> {
    fn nonpayable(&self, e: &mut Exp, funds: &[C]) {
        if !funds.is_empty() {
            e.no("funds attached to a message that needs none", &["V06", "V01"]);
        }
    }
    fn price_ok(&self, e: &mut Exp, coll: &str, p: &C) {
        if p.1 .0 == 0 {
            e.no("the price is zero", &["V10"]);
        }
        if p.0 != *self.m.denoms.get(coll).unwrap_or(&self.m.cfg.denom) {
            e.no("the price is not in the collection's denom", &["V10", "V12"]);
        }
    }
    fn tradable(&self, e: &mut Exp, coll: &str) {
        if !self.env.tradable(coll) {
            e.no("the collection is not tradable yet", &["V10"]);
        }
    }
    fn admin(&self, e: &mut Exp, by: &str) {
        if self.env.admin.as_deref() != Some(by) {
            e.no("the sender is not the contract's admin", &["V07", "V12"]);
        }
        e.accept_tags = vec!["V12", "V07"];
        e.table_tags = vec!["V12", "V07", "V08"];
        e.bank_tags = vec!["V12", "V06"];
    }
    fn creator(&self, e: &mut Exp, o: &Order, by: &str) {
        if o.creator != by {
            e.no("the sender did not create the order", &["V07", "V02", "V06", "V08"]);
        }
    }

    /// The sale of the ask's NFT at `price`, paid for by money the contract has. False: the fees exceed the price.
    fn sell(&self, o: &mut Out, ask: &Order, buy: Buy, price: &C, ask_first: bool) -> bool {
        let c = &self.m.cfg;
        let (d, p) = (&price.0, price.1 .0);
        let (maker, taker) = if ask_first { (&ask.d.finder, buy.finder) } else { (buy.finder, &ask.d.finder) };
        let bps = ONE / 10_000;
        let mut shares: Vec<(&str, String, u128)> = vec![];
        let mut protocol = c.fee as u128 * bps;
        for (label, who, part) in [("maker", maker, c.maker), ("taker", taker, c.taker)] {
            if let Some(w) = who {
                let s = c.fee as u128 * part as u128 * bps / 10_000;
                protocol -= s;
                shares.push((label, w.clone(), s));
            }
        }
        shares.push(("protocol", c.manager.clone(), protocol));
        let k = ask.nft();
        let reg = self
            .env
            .reg_protocol
            .get(&(k.0.clone(), CONTRACT.to_string()))
            .or_else(|| self.env.reg_default.get(&k.0))
            .map(|e| (e.recipient.clone(), e.share));
        let roy = reg.or_else(|| {
            let r = self.env.colls.get(&k.0).filter(|c| !c.plain).and_then(|c| c.royalty.clone());
            if r.is_some() {
                o.reg.insert(k.0.clone());
            }
            r
        });
        if let Some((who, s)) = roy {
            shares.push(("royalty", who, s.min(c.max_roy as u128 * bps)));
        }
        let key = |e: Ev, k, id: &str| if id.is_empty() { e.has(k) } else { e.is(k, id) };
        let mut ev = Ev::new("finalize-sale")
            .is("collection", &ask.coll)
            .is("token_id", ask.tok.as_ref().unwrap())
            .is("denom", d)
            .is("price", p)
            .is("seller_recipient", ask.rec())
            .is("nft_recipient", &buy.to);
        ev = key(ev, "ask", &ask.id);
        ev = match buy.kind {
            K::CBid => key(ev, "collection_bid", buy.id.unwrap_or("")).no("bid"),
            _ => key(ev, "bid", buy.id.unwrap_or("")).no("collection_bid"),
        };
        let mut rest = p;
        for l in ["protocol", "maker", "taker", "royalty"] {
            if !shares.iter().any(|x| x.0 == l) {
                ev = ev.no(l);
            }
        }
        for (label, who, s) in shares {
            let a = mul_ceil(p, s);
            if a > rest {
                return false;
            }
            rest -= a;
            o.mv(CONTRACT, &who, d, a);
            ev = ev.opt(label, (a > 0).then_some(a));
        }
        o.evs.push(ev.opt("seller", (rest > 0).then_some(rest)));
        o.mv(CONTRACT, ask.rec(), d, rest);
        o.nfts.insert(k, buy.to.clone());
        o.m.remove(K::Ask, &ask.id);
        if let Some(id) = buy.id {
            o.m.remove(buy.kind, id);
        }
        true
    }

    /// several equally good counterparties: each is allowed
    fn choose(&self, e: &mut Exp, outs: Vec<Option<Out>>) {
        let n = outs.len();
        let good: Vec<Out> = outs.into_iter().flatten().collect();
        if good.is_empty() {
            e.no("the fees exceed the price", &["V05", "V13"]);
        } else if good.len() < n {
            e.may = Some("one of the best counterparties cannot be paid");
        }
        e.outs = good;
        e.accept_tags.extend(["V04", "V05", "V09", "V13", "V10"]);
        e.table_tags.extend(["V04", "V08", "V09", "V02"]);
        e.bank_tags.extend(["V01", "V03", "V04", "V05", "V06", "V13"]);
    }
    /// an ask that comes in or has changed; `o`: as it is when nothing matches
    fn ask_in(&self, e: &mut Exp, o: Out, rested: Out, ask: &Order, now: bool) {
        let c: Vec<(K, &Order)> = self
            .m
            .all(K::Bid)
            .iter()
            .filter(|b| b.tok == ask.tok)
            .map(|b| (K::Bid, b))
            .chain(self.m.all(K::CBid).iter().map(|b| (K::CBid, b)))
            .filter(|(_, b)| b.coll == ask.coll && b.denom() == ask.denom() && b.price() >= ask.price())
            .collect();
        let Some(best) = c.iter().map(|x| x.1.price()).max() else {
            if now {
                e.no("nothing matches an immediate order", &["V09", "V04"]);
            }
            e.accept_tags.extend(["V10", "V09"]);
            e.table_tags.extend(["V10", "V04", "V08", "V09", "V02"]);
            e.bank_tags.extend(["V10", "V01", "V06"]);
            e.outs.push(rested);
            return;
        };
        let outs = c
            .iter()
            .filter(|x| x.1.price() == best)
            .map(|(k, b)| {
                let mut o = o.clone();
                let buy = Buy { kind: *k, id: Some(&b.id), to: b.rec().into(), finder: &b.d.finder };
                self.sell(&mut o, ask, buy, &b.d.price, false).then_some(o)
            })
            .collect();
        self.choose(e, outs);
    }
    /// a bid or collection bid that comes in or has changed; `have`: the money to use
    #[allow(clippy::too_many_arguments)]
    fn bid_in(&self, e: &mut Exp, o: Out, have: BTreeMap<String, u128>, kind: K, b: &Order, by: &str, now: bool) {
        let c: Vec<&Order> = self
            .m
            .all(K::Ask)
            .iter()
            .filter(|a| a.coll == b.coll && (b.tok.is_none() || a.tok == b.tok))
            .filter(|a| a.denom() == b.denom() && a.price() <= b.price())
            .collect();
        let back = |o: &mut Out, p: &C| -> bool {
            let mut have = have.clone();
            let x = have.entry(p.0.clone()).or_insert(0);
            if *x < p.1 .0 {
                return false;
            }
            *x -= p.1 .0;
            for (d, a) in have {
                o.mv(CONTRACT, by, &d, a);
            }
            true
        };
        let Some(best) = c.iter().map(|x| x.price()).min() else {
            if now {
                e.no("nothing matches an immediate order", &["V09", "V04"]);
            }
            e.accept_tags.extend(["V10", "V09", "V06"]);
            e.table_tags.extend(["V10", "V04", "V08", "V09"]);
            e.bank_tags.extend(["V01", "V06"]);
            let mut o = o;
            if !back(&mut o, &b.d.price) {
                e.no("the funds do not cover the bid", &["V06", "V01"]);
                return;
            }
            let v = &mut o.m.orders[kind as usize];
            match v.iter().position(|x| !b.id.is_empty() && x.id == b.id) {
                Some(i) => v[i] = b.clone(),
                None => v.push(b.clone()),
            }
            e.outs.push(o);
            return;
        };
        let p = (b.d.price.0.clone(), U(best));
        let mut short = false;
        let outs = c
            .iter()
            .filter(|x| x.price() == best)
            .map(|a| {
                let mut o = o.clone();
                if !back(&mut o, &p) {
                    short = true;
                }
                let id = (!b.id.is_empty()).then_some(b.id.as_str());
                let buy = Buy { kind, id, to: b.rec().into(), finder: &b.d.finder };
                self.sell(&mut o, a, buy, &p, true).then_some(o)
            })
            .collect();
        self.choose(e, outs);
        if short {
            e.no("the funds do not cover the price", &["V06", "V01"]);
        }
    }
    /// `by` sells the NFT to an existing bid
    fn accept(&self, e: &mut Exp, o: Out, kind: K, b: &Order, tok: &str, by: &str, d: &D) {
        if d.price.0 != *b.denom() || d.price.1 .0 > b.price() {
            e.no("the bid is below the stated minimum", &["V03"]);
        }
        if !self.env.tradable(&b.coll) {
            e.may = Some("the collection is not tradable");
        }
        let ask = match self.m.ask_on(&b.coll, tok) {
            Some(a) => {
                if a.creator != by {
                    e.no("the sender did not create the ask", &["V07", "V02"]);
                }
                a.clone()
            }
            None => {
                if self.env.owner(&b.coll, tok) != Some(by) {
                    e.no("the sender does not own the NFT", &["V07", "V02"]);
                } else if !self.env.can_send(&b.coll, tok, CONTRACT) {
                    e.no("the NFT is not approved", &["V02"]);
                }
                Order { id: String::new(), creator: by.into(), coll: b.coll.clone(), tok: Some(tok.into()), d: d.clone() }
            }
        };
        let mut o = o;
        let buy = Buy { kind, id: Some(&b.id), to: b.rec().into(), finder: &b.d.finder };
        let ok = self.sell(&mut o, &ask, buy, &b.d.price, false);
        e.accept_tags.push("V07");
        let may = e.may;
        self.choose(e, vec![ok.then_some(o)]);
        e.may = may;
    }

    pub fn expect(&self, op: &Op) -> Exp {
        let mut e = Exp::default();
        let m0 = self.m;
        let mut o = Out { m: m0.clone(), ..Default::default() };
        macro_rules! order {
            ($k:expr, $r:expr) => {
                match m0.find($k, *$r) {
                    Some(x) => x.clone(),
                    None => {
                        e.no("there is no such order", &["V08", "V07", "V01", "V02"]);
                        return e;
                    }
                }
            };
        }
        match op {
            Op::Init(c) => {
                e.accept_tags = vec!["V12"];
                e.table_tags = vec!["V12"];
                e.bank_tags = vec!["V12"];
                if !c.valid() {
                    e.no("the configuration is not valid", &["V12"]);
                }
                o.m = M { live: true, cfg: c.clone(), ..Default::default() };
            }
            Op::Migrate => {
                e.accept_tags = vec!["V12"];
                e.table_tags = vec!["V12"];
                e.bank_tags = vec!["V12"];
            }
            Op::Config { by, cfg, funds } => {
                self.admin(&mut e, by);
                self.nonpayable(&mut e, funds);
                if !cfg.valid() {
                    e.no("the configuration is not valid", &["V12"]);
                }
                o.m.cfg = cfg.clone();
            }
            Op::Denom { by, coll, denom, funds } => {
                self.admin(&mut e, by);
                self.nonpayable(&mut e, funds);
                o.m.denoms.insert(coll.clone(), denom.clone());
            }
            Op::Fee { by, fee, funds } => {
                self.admin(&mut e, by);
                self.nonpayable(&mut e, funds);
                o.m.fees.insert(fee.0.clone(), fee.1 .0);
            }
            Op::NoFee { by, denom, funds } => {
                self.admin(&mut e, by);
                self.nonpayable(&mut e, funds);
                o.m.fees.remove(denom);
            }
            Op::SetAsk { by, coll, tok, d, now, funds } => {
                if self.env.owner(coll, tok) != Some(by.as_str()) {
                    e.no("the sender does not own the NFT", &["V10", "V07", "V02"]);
                } else if !self.env.can_send(coll, tok, CONTRACT) {
                    e.no("the NFT is not approved", &["V10", "V02"]);
                }
                self.tradable(&mut e, coll);
                self.price_ok(&mut e, coll, &d.price);
                match &funds[..] {
                    [(fd, a)] if m0.fees.get(fd) == Some(&a.0) => {}
                    [] if m0.fees.values().any(|x| *x == 0) => e.may = Some("the listing fee is zero"),
                    _ => e.no("not exactly the listing fee", &["V10", "V06"]),
                }
                for (fd, a) in funds {
                    o.mv(by, &m0.cfg.manager, fd, a.0);
                }
                let ask = Order {
                    id: String::new(),
                    creator: by.clone(),
                    coll: coll.clone(),
                    tok: Some(tok.clone()),
                    d: d.clone(),
                };
                let mut rested = o.clone();
                rested.nfts.insert(ask.nft(), CONTRACT.into());
                rested.m.orders[0].push(ask.clone());
                let may = e.may;
                e.bank_tags.push("V10");
                self.ask_in(&mut e, o, rested, &ask, *now);
                e.may = e.may.or(may);
                return e;
            }
            Op::UpdAsk { by, r, d, funds } => {
                self.nonpayable(&mut e, funds);
                let mut a = order!(K::Ask, r);
                self.creator(&mut e, &a, by);
                self.price_ok(&mut e, &a.coll, &d.price);
                if !self.env.tradable(&a.coll) {
                    e.may = Some("the collection is not tradable");
                }
                a.d = d.clone();
                let mut rested = o.clone();
                *rested.m.orders[0].iter_mut().find(|x| x.id == a.id).unwrap() = a.clone();
                let may = e.may;
                e.accept_tags.push("V07");
                self.ask_in(&mut e, o, rested, &a, false);
                e.may = e.may.or(may);
                return e;
            }
            Op::DelAsk { by, r, funds } => {
                e.accept_tags = vec!["V02", "V12", "V07"];
                e.table_tags = vec!["V02", "V08"];
                e.bank_tags = vec!["V02", "V01"];
                self.nonpayable(&mut e, funds);
                let a = order!(K::Ask, r);
                self.creator(&mut e, &a, by);
                o.m.remove(K::Ask, &a.id);
                o.nfts.insert(a.nft(), a.rec().into());
            }
            Op::TakeAsk { by, r, d, funds } => {
                let a = order!(K::Ask, r);
                if d.price.0 != *a.denom() || d.price.1 .0 < a.price() {
                    e.no("the ask is above the stated maximum", &["V03"]);
                }
                let mut have = o.pay_in(by, funds);
                let x = have.entry(a.denom().to_string()).or_insert(0);
                if *x < a.price() {
                    e.no("the funds do not cover the price", &["V06", "V01"]);
                    return e;
                }
                *x -= a.price();
                for (d, x) in have {
                    o.mv(CONTRACT, by, &d, x);
                }
                let buy = Buy { kind: K::Bid, id: None, to: d.rec.clone().unwrap_or(by.clone()), finder: &d.finder };
                let ok = self.sell(&mut o, &a, buy, &a.d.price, true);
                self.choose(&mut e, vec![ok.then_some(o)]);
                if !self.env.tradable(&a.coll) {
                    e.may = Some("the collection is not tradable");
                }
                return e;
            }
            Op::SetBid { by, coll, d, now, funds, .. } | Op::SetCBid { by, coll, d, now, funds } => {
                self.tradable(&mut e, coll);
                self.price_ok(&mut e, coll, &d.price);
                let have = o.pay_in(by, funds);
                let (kind, tok) = match op {
                    Op::SetBid { tok, .. } => (K::Bid, Some(tok.clone())),
                    _ => (K::CBid, None),
                };
                let b = Order { id: String::new(), creator: by.clone(), coll: coll.clone(), tok, d: d.clone() };
                self.bid_in(&mut e, o, have, kind, &b, by, *now);
                return e;
            }
            Op::UpdBid { by, r, d, funds } | Op::UpdCBid { by, r, d, funds } => {
                let kind = if matches!(op, Op::UpdBid { .. }) { K::Bid } else { K::CBid };
                let mut b = order!(kind, r);
                self.creator(&mut e, &b, by);
                self.price_ok(&mut e, &b.coll, &d.price);
                let mut have = o.pay_in(by, funds);
                *have.entry(b.denom().to_string()).or_insert(0) += b.price();
                b.d = d.clone();
                e.accept_tags.push("V07");
                self.bid_in(&mut e, o, have, kind, &b, by, false);
                if !self.env.tradable(&b.coll) {
                    e.may = Some("the collection is not tradable");
                }
                return e;
            }
            Op::DelBid { by, r, funds } | Op::DelCBid { by, r, funds } => {
                e.accept_tags = vec!["V06", "V12", "V07"];
                e.table_tags = vec!["V08"];
                e.bank_tags = vec!["V06", "V01"];
                self.nonpayable(&mut e, funds);
                let kind = if matches!(op, Op::DelBid { .. }) { K::Bid } else { K::CBid };
                let b = order!(kind, r);
                self.creator(&mut e, &b, by);
                o.m.remove(kind, &b.id);
                o.mv(CONTRACT, &b.creator, b.denom(), b.price());
            }
            Op::TakeBid { by, r, d, funds } => {
                self.nonpayable(&mut e, funds);
                let b = order!(K::Bid, r);
                let t = b.tok.clone().unwrap();
                self.accept(&mut e, o, K::Bid, &b, &t, by, d);
                return e;
            }
            Op::TakeCBid { by, r, tok, d, funds } => {
                self.nonpayable(&mut e, funds);
                let b = order!(K::CBid, r);
                self.accept(&mut e, o, K::CBid, &b, tok, by, d);
                return e;
            }
            _ => unreachable!(),
        }
        e.outs.push(o);
        e
    }
}

pub fn coinj(c: &C) -> Value {
    json!({"denom": c.0, "amount": c.1 .0.to_string()})
}
fn fv(f: &[C]) -> Vec<(String, u128)> {
    f.iter().map(|(d, a)| (d.clone(), a.0)).collect()
}

pub enum Msg {
    /// an environment operation
    Env,
    /// refers to an order where there is none
    Disabled,
    Call(Call),
}

pub fn call(m: &M, op: &Op) -> Msg {
    let ex = |by: &String, funds: &Vec<C>, msg: Value| Call::Execute { sender: by.clone(), funds: fv(funds), msg };
    macro_rules! id {
        ($k:expr, $r:expr) => {
            match m.id($k, *$r) {
                Some(x) => x,
                None => return Msg::Disabled,
            }
        };
    }
    Msg::Call(match op {
        Op::Init(c) => Call::Instantiate(json!({"config": c.json()})),
        Op::Migrate => Call::Migrate(json!({})),
        Op::Config { by, cfg, funds } => ex(by, funds, json!({"update_config": {"config": cfg.json()}})),
        Op::Denom { by, coll, denom, funds } => {
            ex(by, funds, json!({"update_collection_denom": {"collection": coll, "denom": denom}}))
        }
        Op::Fee { by, fee, funds } => ex(by, funds, json!({"set_listing_fee": {"fee": coinj(fee)}})),
        Op::NoFee { by, denom, funds } => ex(by, funds, json!({"remove_listing_fee": {"denom": denom}})),
        Op::SetAsk { by, coll, tok, d, now, funds } => {
            let n = if *now { "sell_nft" } else { "set_ask" };
            ex(by, funds, json!({n: {"collection": coll, "token_id": tok, "details": d.json()}}))
        }
        Op::SetBid { by, coll, tok, d, now, funds } => {
            let n = if *now { "buy_specific_nft" } else { "set_bid" };
            ex(by, funds, json!({n: {"collection": coll, "token_id": tok, "details": d.json()}}))
        }
        Op::SetCBid { by, coll, d, now, funds } => {
            let n = if *now { "buy_collection_nft" } else { "set_collection_bid" };
            ex(by, funds, json!({n: {"collection": coll, "details": d.json()}}))
        }
        Op::UpdAsk { by, r, d, funds } => {
            ex(by, funds, json!({"update_ask": {"id": id!(K::Ask, r), "details": d.json()}}))
        }
        Op::UpdBid { by, r, d, funds } => {
            ex(by, funds, json!({"update_bid": {"id": id!(K::Bid, r), "details": d.json()}}))
        }
        Op::UpdCBid { by, r, d, funds } => {
            ex(by, funds, json!({"update_collection_bid": {"id": id!(K::CBid, r), "details": d.json()}}))
        }
        Op::DelAsk { by, r, funds } => ex(by, funds, json!({"remove_ask": {"id": id!(K::Ask, r)}})),
        Op::DelBid { by, r, funds } => ex(by, funds, json!({"remove_bid": {"id": id!(K::Bid, r)}})),
        Op::DelCBid { by, r, funds } => ex(by, funds, json!({"remove_collection_bid": {"id": id!(K::CBid, r)}})),
        Op::TakeAsk { by, r, d, funds } => {
            ex(by, funds, json!({"accept_ask": {"id": id!(K::Ask, r), "details": d.json()}}))
        }
        Op::TakeBid { by, r, d, funds } => {
            ex(by, funds, json!({"accept_bid": {"id": id!(K::Bid, r), "details": d.json()}}))
        }
        Op::TakeCBid { by, r, tok, d, funds } => ex(by, funds, json!({"accept_collection_bid": {
            "id": id!(K::CBid, r), "token_id": tok, "details": d.json()}})),
        _ => return Msg::Env,
    })
}
