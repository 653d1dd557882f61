//! Reference model of the v1 marketplace, written from the property statements.
use mchost::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const D: &str = "ustars";
pub const MAX_ASK: u128 = 100_000_000_000_000;
pub const SEC: u64 = 1_000_000_000;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub trading: u64,
    pub ask_exp: (u64, u64),
    pub bid_exp: (u64, u64),
    pub operators: Vec<String>,
    pub sale_hook: Option<String>,
    pub max_finder: u64,
    pub min_price: U,
    pub stale: u64,
    #[serde(default)]
    pub stale_height: bool,
    pub reward: u64,
    pub fee: U,
}

type C = (String, U);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    // ---- environment
    Universe { nfts: Vec<(String, Vec<u32>)>, bidders: Vec<String> },
    Fund(Vec<String>),
    Coll { addr: String, royalty: Option<(String, U)>, start: Option<u64>, plain: bool },
    Mint { coll: String, tok: u32, owner: String },
    Hook { addr: String, fails: bool },
    At(u64),
    Approve { coll: String, tok: u32, until: Option<u64> },
    Revoke { coll: String, tok: u32 },
    Transfer { coll: String, tok: u32, to: String },
    BurnNft { coll: String, tok: u32 },
    StoredVersion { contract: String, version: String },
    // ---- contract
    Init(Cfg),
    SetAsk {
        by: String, coll: String, tok: u32, auction: bool, price: C, recipient: Option<String>,
        reserve: Option<String>, fee_bps: Option<u64>, expires: u64, funds: Vec<C>,
    },
    RemoveAsk { by: String, coll: String, tok: u32, funds: Vec<C> },
    UpdateAskPrice { by: String, coll: String, tok: u32, price: C, funds: Vec<C> },
    /// kind: 0 SetBid, 1 BuyNow, 2 BuyFor
    Bid {
        kind: u8, by: String, coll: String, tok: u32, expires: u64, finder: Option<String>, fee_bps: Option<u64>,
        to: Option<String>, funds: Vec<C>,
    },
    RemoveBid { by: String, coll: String, tok: u32, funds: Vec<C> },
    AcceptBid { by: String, coll: String, tok: u32, bidder: String, finder: Option<String>, funds: Vec<C> },
    RejectBid { by: String, coll: String, tok: u32, bidder: String, funds: Vec<C> },
    SetCBid { by: String, coll: String, expires: u64, fee_bps: Option<u64>, funds: Vec<C> },
    RemoveCBid { by: String, coll: String, funds: Vec<C> },
    AcceptCBid { by: String, coll: String, tok: u32, bidder: String, finder: Option<String>, funds: Vec<C> },
    SyncAsk { by: String, coll: String, tok: u32, funds: Vec<C> },
    RemoveStaleAsk { by: String, coll: String, tok: u32, funds: Vec<C> },
    RemoveStaleBid { by: String, coll: String, tok: u32, bidder: String, funds: Vec<C> },
    RemoveStaleCBid { by: String, coll: String, bidder: String, funds: Vec<C> },
    Params {
        trading: Option<u64>, ask_exp: Option<(u64, u64)>, bid_exp: Option<(u64, u64)>, operators: Option<Vec<String>>,
        max_finder: Option<u64>, min_price: Option<U>, stale: Option<u64>, reward: Option<u64>, fee: Option<U>,
    },
    AddOperator(String),
    RemoveOperator(String),
    /// kind: ask, bid, sale
    AddHook { kind: String, hook: String },
    RemoveHook { kind: String, hook: String },
    Migrate,
    /// from here on, a second world that has been migrated runs along
    Twin,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ask {
    pub fixed: bool,
    pub coll: String,
    pub tok: u32,
    pub seller: String,
    pub price: u128,
    pub recipient: Option<String>,
    pub reserve: Option<String>,
    pub fee_bps: Option<u64>,
    pub expires: u64,
    pub active: bool,
}
impl Ask {
    pub fn json(&self) -> Value {
        json!({"sale_type": if self.fixed {"fixed_price"} else {"auction"}, "collection": self.coll, "token_id": self.tok,
            "seller": self.seller, "price": self.price.to_string(), "funds_recipient": self.recipient,
            "reserve_for": self.reserve, "finders_fee_bps": self.fee_bps, "expires_at": self.expires.to_string(),
            "is_active": self.active})
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Bid {
    pub coll: String,
    pub tok: u32,
    pub bidder: String,
    pub price: u128,
    pub fee_bps: Option<u64>,
    pub expires: u64,
}
impl Bid {
    pub fn json(&self) -> Value {
        json!({"collection": self.coll, "token_id": self.tok, "bidder": self.bidder, "price": self.price.to_string(),
            "finders_fee_bps": self.fee_bps, "expires_at": self.expires.to_string()})
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct CBid {
    pub coll: String,
    pub bidder: String,
    pub price: u128,
    pub fee_bps: Option<u64>,
    pub expires: u64,
}
impl CBid {
    pub fn json(&self) -> Value {
        json!({"collection": self.coll, "bidder": self.bidder, "price": self.price.to_string(),
            "finders_fee_bps": self.fee_bps, "expires_at": self.expires.to_string()})
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Params {
    pub trading: u64,
    pub ask_exp: (u64, u64),
    pub bid_exp: (u64, u64),
    pub operators: BTreeSet<String>,
    pub max_finder: u64,
    pub min_price: u128,
    pub stale: u64,
    pub reward: u64,
    pub fee: u128,
}
impl Params {
    /// params response with the operators sorted
    pub fn json(&self) -> Value {
        let pc = |b: u64| dec_str(b as u128 * 10_000_000_000_000_000);
        json!({"trading_fee_percent": pc(self.trading), "ask_expiry": {"min": self.ask_exp.0, "max": self.ask_exp.1},
            "bid_expiry": {"min": self.bid_exp.0, "max": self.bid_exp.1},
            "operators": self.operators, "max_finders_fee_percent": pc(self.max_finder),
            "min_price": self.min_price.to_string(), "stale_bid_duration": {"time": self.stale},
            "bid_removal_reward_percent": pc(self.reward), "listing_fee": self.fee.to_string()})
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct M {
    pub live: bool,
    pub asks: BTreeMap<(String, u32), Ask>,
    pub bids: BTreeMap<(String, u32, String), Bid>,
    pub cbids: BTreeMap<(String, String), CBid>,
    pub params: Params,
    pub ask_hooks: Vec<String>,
    pub bid_hooks: Vec<String>,
    pub sale_hooks: Vec<String>,
    pub version: Option<(String, String)>,
}

fn text(v: &Value) -> Option<String> {
    v.as_str().map(|x| x.to_string())
}
fn num<T: std::str::FromStr>(v: &Value) -> Option<T> {
    v.as_str()?.parse().ok()
}
impl M {
    /// what the contract reports instead of what was expected
    pub fn adopt(
        &mut self,
        asks: &BTreeMap<(String, u32), Value>,
        bids: &BTreeMap<(String, u32, String), Value>,
        cbids: &BTreeMap<(String, String), Value>,
        params: &Value,
        hooks: &[Value],
    ) -> Option<()> {
        let ask = |v: &Value| {
            Some(Ask {
                fixed: v["sale_type"] == "fixed_price",
                coll: text(&v["collection"])?,
                tok: v["token_id"].as_u64()? as u32,
                seller: text(&v["seller"])?,
                price: num(&v["price"])?,
                recipient: text(&v["funds_recipient"]),
                reserve: text(&v["reserve_for"]),
                fee_bps: v["finders_fee_bps"].as_u64(),
                expires: num(&v["expires_at"])?,
                active: v["is_active"].as_bool()?,
            })
        };
        let bid = |v: &Value| {
            Some(Bid {
                coll: text(&v["collection"])?,
                tok: v["token_id"].as_u64()? as u32,
                bidder: text(&v["bidder"])?,
                price: num(&v["price"])?,
                fee_bps: v["finders_fee_bps"].as_u64(),
                expires: num(&v["expires_at"])?,
            })
        };
        let cbid = |v: &Value| {
            Some(CBid {
                coll: text(&v["collection"])?,
                bidder: text(&v["bidder"])?,
                price: num(&v["price"])?,
                fee_bps: v["finders_fee_bps"].as_u64(),
                expires: num(&v["expires_at"])?,
            })
        };
        self.asks = asks.iter().map(|(k, v)| Some((k.clone(), ask(v)?))).collect::<Option<_>>()?;
        self.bids = bids.iter().map(|(k, v)| Some((k.clone(), bid(v)?))).collect::<Option<_>>()?;
        self.cbids = cbids.iter().map(|(k, v)| Some((k.clone(), cbid(v)?))).collect::<Option<_>>()?;
        let p = params;
        let pc = |k: &str| {
            let a = dec_parse(p[k].as_str()?)?;
            (a % 10_000_000_000_000_000 == 0).then_some((a / 10_000_000_000_000_000) as u64)
        };
        let rng = |k: &str| Some((p[k]["min"].as_u64()?, p[k]["max"].as_u64()?));
        self.params = Params {
            trading: pc("trading_fee_percent")?,
            ask_exp: rng("ask_expiry")?,
            bid_exp: rng("bid_expiry")?,
            operators: p["operators"].as_array()?.iter().map(text).collect::<Option<_>>()?,
            max_finder: pc("max_finders_fee_percent")?,
            min_price: num(&p["min_price"])?,
            stale: p["stale_bid_duration"]["time"].as_u64()?,
            reward: pc("bid_removal_reward_percent")?,
            fee: num(&p["listing_fee"])?,
        };
        let hk = |v: &Value| v["hooks"].as_array()?.iter().map(text).collect::<Option<Vec<_>>>();
        self.ask_hooks = hk(&hooks[0])?;
        self.bid_hooks = hk(&hooks[1])?;
        self.sale_hooks = hk(&hooks[2])?;
        Some(())
    }
}

pub type Tags = Vec<&'static str>;

/// What the properties say about a message in a given situation.
#[derive(Default)]
pub struct Exp {
    /// reasons to refuse, each with the properties that demand it
    pub reject: Vec<(&'static str, Tags)>,
    /// the properties leave the outcome open (if accepted, the effects below still hold)
    pub may: Option<&'static str>,
    /// properties contradicted by a refusal of a message that has to be accepted
    pub accept_tags: Tags,
    /// properties contradicted by wrong effects on orders / on money
    pub table_tags: Tags,
    pub bank_tags: Tags,
    pub m: Option<M>,
    pub deltas: BTreeMap<String, i128>,
    /// burned or sent to the fair burn pool
    pub sink: u128,
    pub nft: Option<((String, String), String)>,
    pub hooks: Vec<(String, Value)>,
    /// what is to be reported
    pub evs: Vec<Ev>,
}
pub const EVENTS: &[&str] = &[
    "set-ask",
    "update-ask",
    "remove-ask",
    "update-ask-state",
    "set-bid",
    "remove-bid",
    "accept-bid",
    "reject-bid",
    "set-collection-bid",
    "remove-collection-bid",
    "accept-collection-bid",
    "remove-stale-bid",
    "remove-stale-collection-bid",
    "finalize-sale",
    "royalty-payout",
];
fn time(nanos: u64) -> String {
    cosmwasm_std::Timestamp::from_nanos(nanos).to_string()
}
fn on(ty: &'static str, coll: &str, tok: u32) -> Ev {
    Ev::new(ty).is("collection", coll).is("token_id", tok)
}

impl Exp {
    fn no(&mut self, why: &'static str, tags: &[&'static str]) {
        self.reject.push((why, tags.to_vec()));
    }
    fn give(&mut self, who: &str, amt: u128) {
        *self.deltas.entry(who.to_string()).or_insert(0) += amt as i128;
    }
    fn take(&mut self, who: &str, amt: u128) {
        *self.deltas.entry(who.to_string()).or_insert(0) -= amt as i128;
    }
}

fn sum_native(f: &[C]) -> u128 {
    f.iter().filter(|(d, _)| d == D).map(|(_, a)| a.0).sum()
}
/// the amount, if exactly one non-zero coin of the native denom is attached
fn one_native(f: &[C]) -> Option<u128> {
    match f {
        [(d, a)] if d == D && a.0 > 0 => Some(a.0),
        _ => None,
    }
}

/// floor(a * num / den) without overflow for the magnitudes used here
fn muldiv(a: u128, num: u128, den: u128) -> u128 {
    // a < 2^100, num < 2^64: split a
    let q = a / den;
    let r = a % den;
    q * num + (r.checked_mul(num).expect("model arithmetic")) / den
}
pub fn bps(a: u128, b: u64) -> u128 {
    muldiv(a, b as u128, 10_000)
}
pub fn share(a: u128, atomics: u128) -> u128 {
    // atomics <= 2e18, a may be large: split a by 1e18
    let one = 1_000_000_000_000_000_000u128;
    let q = a / one;
    let r = a % one;
    q * atomics + r * atomics / one
}

pub struct Ctx<'a> {
    pub m: &'a M,
    pub env: &'a EnvState,
}

impl<'a> Ctx<'a> {
    fn now(&self) -> u64 {
        self.env.time
    }
    fn owner(&self, coll: &str, tok: u32) -> Option<&str> {
        self.env.owner(coll, &tok.to_string())
    }
    fn approved(&self, coll: &str, tok: u32) -> bool {
        self.env.approved(coll, &tok.to_string(), CONTRACT)
    }
    fn nonpayable(&self, e: &mut Exp, funds: &[C]) {
        if !funds.is_empty() {
            e.no("funds attached to a non-payable message", &["M06", "M01"]);
        }
    }
    fn hook_kind_tags(&self, e: &mut Exp, ask: bool, bid: bool, sale: bool) {
        if (ask && !self.m.ask_hooks.is_empty())
            || (bid && !self.m.bid_hooks.is_empty())
            || (sale && !self.m.sale_hooks.is_empty())
        {
            e.accept_tags.push("M11");
        }
    }
    fn ask_hook(&self, e: &mut Exp, a: &Ask, action: &str) {
        for h in &self.m.ask_hooks {
            e.hooks.push((h.clone(), json!({ format!("ask_{action}_hook"): {"ask": a.json()} })));
        }
    }
    fn bid_hook(&self, e: &mut Exp, b: &Bid, action: &str) {
        for h in &self.m.bid_hooks {
            e.hooks.push((h.clone(), json!({ format!("bid_{action}_hook"): {"bid": b.json()} })));
        }
    }
    fn window(&self, w: (u64, u64), expires: u64) -> bool {
        let now = self.now() as u128;
        let e = expires as u128;
        e > now + w.0 as u128 * SEC as u128 && e <= now + w.1 as u128 * SEC as u128
    }
    /// the money and the NFT of a sale; the buyer's payment is already in the contract
    fn sale(
        &self, e: &mut Exp, coll: &str, tok: u32, price: u128, payee: &str, seller: &str, buyer: &str,
        finder: &Option<String>, fee_bps: Option<u64>, nft_to: &str,
    ) {
        let c = self.env.colls.get(coll);
        let network = bps(price, self.m.params.trading);
        let fin = match finder {
            Some(_) => fee_bps.map_or(0, |b| bps(price, b)),
            None => 0,
        };
        let mut roy = 0;
        match c {
            None => e.no("no such collection", &["M04"]),
            Some(c) if c.plain => e.may = Some("a collection without collection info cannot be paid out"),
            Some(c) => {
                if let Some((addr, s)) = &c.royalty {
                    if *s > 0 {
                        roy = share(price, *s);
                        if roy == 0 {
                            e.may = Some("a royalty that rounds down to nothing is an empty bank transfer");
                        }
                        e.give(addr, roy);
                    }
                }
            }
        }
        if network + fin + roy > price {
            e.no("fees exceed the price", &["M03"]);
            return;
        }
        let rest = price - network - fin - roy;
        if let (Some((addr, _)), true) = (c.and_then(|c| c.royalty.as_ref()), roy > 0) {
            let amount = format!("{roy}{D}");
            e.evs.push(Ev::new("royalty-payout").is("collection", coll).is("amount", amount).is("recipient", addr));
        }
        e.evs.push(
            on("finalize-sale", coll, tok)
                .is("seller", seller)
                .is("buyer", buyer)
                .is("price", price)
                .is("asset_recipient", nft_to),
        );
        if rest == 0 {
            e.may = Some("nothing is left for the seller: an empty bank transfer");
        }
        if let Some(f) = finder {
            e.give(f, fin);
        }
        e.give(payee, rest);
        e.take(CONTRACT, price);
        e.sink += network;
        if !self.env.can_send(coll, &tok.to_string(), CONTRACT) {
            e.no("the NFT is not approved for the marketplace", &["M04"]);
        }
        e.nft = Some(((coll.to_string(), tok.to_string()), nft_to.to_string()));
        for h in &self.m.sale_hooks {
            e.hooks.push((
                h.clone(),
                json!({"sale_hook": {"collection": coll, "token_id": tok,
                    "price": {"denom": D, "amount": price.to_string()}, "seller": seller, "buyer": buyer}}),
            ));
        }
    }

    pub fn expect(&self, op: &Op) -> Exp {
        let mut e = Exp::default();
        let mut m = self.m.clone();
        let p = &self.m.params;
        let now = self.now();
        match op {
            Op::Init(c) => {
                e.accept_tags = vec!["M12"];
                e.table_tags = vec!["M12"];
                if c.trading > 10_000 || c.max_finder > 10_000 || c.reward > 10_000 {
                    e.no("fee or reward above 100%", &["M12"]);
                }
                if c.ask_exp.0 > c.ask_exp.1 || c.bid_exp.0 > c.bid_exp.1 {
                    e.no("expiry range with min above max", &["M12"]);
                }
                if c.stale_height {
                    e.may = Some("stale duration in blocks");
                }
                m.live = true;
                m.params = Params {
                    trading: c.trading,
                    ask_exp: c.ask_exp,
                    bid_exp: c.bid_exp,
                    operators: c.operators.iter().cloned().collect(),
                    max_finder: c.max_finder,
                    min_price: c.min_price.0,
                    stale: c.stale,
                    reward: c.reward,
                    fee: c.fee.0,
                };
                m.sale_hooks = c.sale_hook.iter().cloned().collect();
                m.version = Some(("crates.io:sg-marketplace".into(), crate::version().into()));
            }
            Op::SetAsk { by, coll, tok, auction, price, recipient, reserve, fee_bps, expires, funds } => {
                e.accept_tags = vec!["M07", "M13"];
                e.table_tags = vec!["M07", "M05", "M04", "M06"];
                e.bank_tags = vec!["M13", "M06"];
                self.hook_kind_tags(&mut e, true, false, false);
                if price.0 != D || price.1 .0 == 0 || price.1 .0 < p.min_price {
                    e.no("price below the minimum or in another denom", &["M07"]);
                }
                if price.1 .0 > MAX_ASK {
                    e.no("price above the maximum ask price", &["M07"]);
                }
                if self.owner(coll, *tok) != Some(by.as_str()) {
                    e.no("not the owner", &["M06", "M04", "M07"]);
                }
                if !self.env.tradable(coll) {
                    e.no("collection not tradable", &["M07", "M05"]);
                }
                if !self.approved(coll, *tok) {
                    e.no("marketplace not approved", &["M07"]);
                }
                if !self.window(p.ask_exp, *expires) {
                    e.no("expiry outside the window", &["M07"]);
                }
                let paid = match funds.as_slice() {
                    [] => Some(0),
                    f => one_native(f),
                };
                if paid != Some(p.fee) {
                    e.no("not exactly the listing fee", &["M13", "M01"]);
                }
                if fee_bps.map_or(false, |b| b > p.max_finder) {
                    e.no("finder's fee above the maximum", &["M07"]);
                }
                if let Some(r) = reserve {
                    if r == by {
                        e.no("reserved for the seller", &["M07"]);
                    }
                    if *auction {
                        e.no("reserved auction", &["M07"]);
                    }
                }
                let a = Ask {
                    fixed: !auction,
                    coll: coll.clone(),
                    tok: *tok,
                    seller: by.clone(),
                    price: price.1 .0,
                    recipient: recipient.clone(),
                    reserve: reserve.clone(),
                    fee_bps: *fee_bps,
                    expires: *expires,
                    active: true,
                };
                self.ask_hook(&mut e, &a, "created");
                e.evs.push(
                    on("set-ask", coll, *tok)
                        .is("sale_type", if a.fixed { "fixed_price" } else { "auction" })
                        .opt("reserve_for", reserve.as_ref())
                        .is("seller", by)
                        .is("price", format!("{}{D}", a.price))
                        .is("expires", time(*expires)),
                );
                m.asks.insert((coll.clone(), *tok), a);
                e.take(by, p.fee);
                e.sink = p.fee;
            }
            Op::RemoveAsk { by, coll, tok, funds } => {
                e.accept_tags = vec!["M06"];
                e.table_tags = vec!["M06"];
                e.bank_tags = vec!["M06", "M13"];
                self.hook_kind_tags(&mut e, true, false, false);
                self.nonpayable(&mut e, funds);
                if self.owner(coll, *tok) != Some(by.as_str()) {
                    e.no("not the owner", &["M06"]);
                }
                match m.asks.remove(&(coll.clone(), *tok)) {
                    None => e.no("no such ask", &["M14"]),
                    Some(a) => {
                        e.evs.push(on("remove-ask", coll, *tok));
                        self.ask_hook(&mut e, &a, "deleted")
                    }
                }
            }
            Op::UpdateAskPrice { by, coll, tok, price, funds } => {
                e.accept_tags = vec!["M07", "M06"];
                e.table_tags = vec!["M07", "M05", "M06"];
                e.bank_tags = vec!["M06", "M13"];
                self.hook_kind_tags(&mut e, true, false, false);
                self.nonpayable(&mut e, funds);
                if self.owner(coll, *tok) != Some(by.as_str()) {
                    e.no("not the owner", &["M06"]);
                }
                if price.0 != D || price.1 .0 == 0 || price.1 .0 < p.min_price {
                    e.no("price below the minimum or in another denom", &["M07"]);
                }
                if price.1 .0 > MAX_ASK {
                    e.no("price above the maximum ask price", &["M07"]);
                }
                match m.asks.get_mut(&(coll.clone(), *tok)) {
                    None => e.no("no such ask", &["M14"]),
                    Some(a) => {
                        if !a.active {
                            e.no("ask not active", &["M07", "M05"]);
                        }
                        if a.expires <= now {
                            e.no("ask expired", &["M07", "M05"]);
                        }
                        a.price = price.1 .0;
                        e.evs.push(on("update-ask", coll, *tok).is("price", format!("{}{D}", a.price)));
                        let a = a.clone();
                        self.ask_hook(&mut e, &a, "updated");
                    }
                }
            }
            Op::Bid { kind, by, coll, tok, expires, finder, fee_bps, to, funds } => {
                e.accept_tags = vec!["M07"];
                e.table_tags = vec!["M07", "M02", "M05"];
                e.bank_tags = vec!["M02", "M06", "M13"];
                if finder.as_ref() == Some(by) {
                    e.no("bidder is its own finder", &["M07"]);
                }
                if fee_bps.map_or(false, |b| b > p.max_finder) {
                    e.no("finder's fee above the maximum", &["M07"]);
                }
                let price = match one_native(funds) {
                    None => {
                        e.no("payment is not exactly one native coin", &["M07", "M01"]);
                        sum_native(funds)
                    }
                    Some(x) => x,
                };
                if price < p.min_price {
                    e.no("price below the minimum", &["M07"]);
                }
                if !self.window(p.bid_exp, *expires) {
                    e.no("expiry outside the window", &["M07"]);
                }
                e.take(by, price);
                e.give(CONTRACT, price);
                let bk = (coll.clone(), *tok, by.clone());
                if let Some(old) = m.bids.remove(&bk) {
                    e.give(by, old.price);
                    e.take(CONTRACT, old.price);
                    e.accept_tags.push("M02");
                }
                let mut save = false;
                match self.m.asks.get(&(coll.clone(), *tok)) {
                    None => {
                        if *kind > 0 {
                            e.no("nothing is for sale", &["M05"]);
                        }
                        save = true;
                    }
                    Some(a) => {
                        if a.expires <= now {
                            e.no("ask expired", &["M05"]);
                        }
                        if !a.active {
                            e.no("ask not active", &["M05"]);
                        }
                        if a.reserve.as_ref().map_or(false, |r| r != by) {
                            e.no("ask reserved for somebody else", &["M05"]);
                        }
                        if a.fixed {
                            if price > a.price {
                                e.no("more than the asked price", &["M05", "M03"]);
                            } else if price < a.price {
                                save = true;
                            } else {
                                if self.owner(coll, *tok) != Some(a.seller.as_str()) {
                                    e.no("seller no longer owns the NFT", &["M05", "M04"]);
                                }
                                let nft_to = match (kind, to) {
                                    (2, Some(t)) => t.clone(),
                                    _ => by.clone(),
                                };
                                let payee = a.recipient.clone().unwrap_or_else(|| a.seller.clone());
                                e.accept_tags.extend(["M05", "M03"]);
                                e.table_tags.extend(["M04"]);
                                e.bank_tags.extend(["M03", "M04"]);
                                self.hook_kind_tags(&mut e, false, false, true);
                                let a = a.clone();
                                self.sale(&mut e, coll, *tok, price, &payee, &a.seller, by, finder, a.fee_bps, &nft_to);
                                m.asks.remove(&(coll.clone(), *tok));
                            }
                        } else if price < a.price {
                            e.no("below the auction's price", &["M05"]);
                        } else {
                            save = true;
                        }
                    }
                }
                e.evs.push(
                    on("set-bid", coll, *tok)
                        .is("sale_type", if *kind == 0 { "auction" } else { "fixed_price" })
                        .is("bidder", by)
                        .is("bid_price", price)
                        .is("expires", time(*expires)),
                );
                if save {
                    self.hook_kind_tags(&mut e, false, true, false);
                    let b = Bid {
                        coll: coll.clone(),
                        tok: *tok,
                        bidder: by.clone(),
                        price,
                        fee_bps: *fee_bps,
                        expires: *expires,
                    };
                    self.bid_hook(&mut e, &b, "created");
                    m.bids.insert(bk, b);
                }
            }
            Op::RemoveBid { by, coll, tok, funds } => {
                e.accept_tags = vec!["M02"];
                e.table_tags = vec!["M02", "M06"];
                e.bank_tags = vec!["M02", "M06"];
                self.hook_kind_tags(&mut e, false, true, false);
                self.nonpayable(&mut e, funds);
                match m.bids.remove(&(coll.clone(), *tok, by.clone())) {
                    None => e.no("no such bid", &["M02", "M14", "M06"]),
                    Some(b) => {
                        e.evs.push(on("remove-bid", coll, *tok).is("bidder", by));
                        e.give(by, b.price);
                        e.take(CONTRACT, b.price);
                        self.bid_hook(&mut e, &b, "deleted");
                    }
                }
            }
            Op::RejectBid { by, coll, tok, bidder, funds } => {
                e.accept_tags = vec!["M02", "M06"];
                e.table_tags = vec!["M02", "M06"];
                e.bank_tags = vec!["M02", "M06"];
                self.hook_kind_tags(&mut e, false, true, false);
                self.nonpayable(&mut e, funds);
                if self.owner(coll, *tok) != Some(by.as_str()) {
                    e.no("not the owner", &["M06"]);
                }
                match m.bids.remove(&(coll.clone(), *tok, bidder.clone())) {
                    None => e.no("no such bid", &["M02", "M14"]),
                    Some(b) => {
                        e.evs.push(on("reject-bid", coll, *tok).is("bidder", bidder).is("price", b.price));
                        e.give(bidder, b.price);
                        e.take(CONTRACT, b.price);
                        self.bid_hook(&mut e, &b, "deleted");
                    }
                }
            }
            Op::AcceptBid { by, coll, tok, bidder, finder, funds } => {
                e.accept_tags = vec!["M05", "M03", "M06"];
                e.table_tags = vec!["M05", "M04"];
                e.bank_tags = vec!["M03", "M04"];
                self.hook_kind_tags(&mut e, false, false, true);
                self.nonpayable(&mut e, funds);
                if self.owner(coll, *tok) != Some(by.as_str()) {
                    e.no("not the owner", &["M06", "M04"]);
                }
                if !self.env.tradable(coll) {
                    e.no("collection not tradable", &["M05"]);
                }
                match m.bids.remove(&(coll.clone(), *tok, bidder.clone())) {
                    None => e.no("no such bid", &["M04", "M14", "M05"]),
                    Some(b) => {
                        if b.expires <= now {
                            e.no("bid expired", &["M05"]);
                        }
                        e.evs.push(on("accept-bid", coll, *tok).is("bidder", bidder).is("price", b.price));
                        self.sale(&mut e, coll, *tok, b.price, by, by, bidder, finder, b.fee_bps, bidder);
                    }
                }
                m.asks.remove(&(coll.clone(), *tok));
            }
            Op::SetCBid { by, coll, expires, fee_bps, funds } => {
                e.accept_tags = vec!["M07"];
                e.table_tags = vec!["M07", "M02"];
                e.bank_tags = vec!["M02", "M06", "M13"];
                if fee_bps.map_or(false, |b| b > p.max_finder) {
                    e.no("finder's fee above the maximum", &["M07"]);
                }
                let price = match one_native(funds) {
                    None => {
                        e.no("payment is not exactly one native coin", &["M07", "M01"]);
                        sum_native(funds)
                    }
                    Some(x) => x,
                };
                if price < p.min_price {
                    e.no("price below the minimum", &["M07"]);
                }
                if !self.window(p.bid_exp, *expires) {
                    e.no("expiry outside the window", &["M07"]);
                }
                e.take(by, price);
                e.give(CONTRACT, price);
                let k = (coll.clone(), by.clone());
                if let Some(old) = m.cbids.remove(&k) {
                    e.give(by, old.price);
                    e.take(CONTRACT, old.price);
                    e.accept_tags.push("M02");
                }
                e.evs.push(
                    Ev::new("set-collection-bid")
                        .is("collection", coll)
                        .is("bidder", by)
                        .is("bid_price", price)
                        .is("expires", time(*expires)),
                );
                m.cbids.insert(
                    k,
                    CBid { coll: coll.clone(), bidder: by.clone(), price, fee_bps: *fee_bps, expires: *expires },
                );
            }
            Op::RemoveCBid { by, coll, funds } => {
                e.accept_tags = vec!["M02"];
                e.table_tags = vec!["M02", "M06"];
                e.bank_tags = vec!["M02", "M06"];
                self.nonpayable(&mut e, funds);
                match m.cbids.remove(&(coll.clone(), by.clone())) {
                    None => e.no("no such collection bid", &["M02", "M14", "M06"]),
                    Some(b) => {
                        e.evs.push(Ev::new("remove-collection-bid").is("collection", coll).is("bidder", by));
                        e.give(by, b.price);
                        e.take(CONTRACT, b.price);
                    }
                }
            }
            Op::AcceptCBid { by, coll, tok, bidder, finder, funds } => {
                e.accept_tags = vec!["M05", "M03", "M06"];
                e.table_tags = vec!["M05", "M04"];
                e.bank_tags = vec!["M03", "M04"];
                self.hook_kind_tags(&mut e, false, false, true);
                self.nonpayable(&mut e, funds);
                if self.owner(coll, *tok) != Some(by.as_str()) {
                    e.no("not the owner", &["M06", "M04"]);
                }
                if !self.env.tradable(coll) {
                    e.no("collection not tradable", &["M05"]);
                }
                match m.cbids.remove(&(coll.clone(), bidder.clone())) {
                    None => e.no("no such collection bid", &["M04", "M14", "M05"]),
                    Some(b) => {
                        if b.expires <= now {
                            e.no("collection bid expired", &["M05"]);
                        }
                        e.evs.push(
                            on("accept-collection-bid", coll, *tok)
                                .is("bidder", bidder)
                                .is("seller", by)
                                .is("price", b.price),
                        );
                        self.sale(&mut e, coll, *tok, b.price, by, by, bidder, finder, b.fee_bps, bidder);
                    }
                }
                m.asks.remove(&(coll.clone(), *tok));
            }
            Op::SyncAsk { by, coll, tok, funds } => {
                e.accept_tags = vec!["M09"];
                e.table_tags = vec!["M09", "M05"];
                e.bank_tags = vec!["M09", "M06"];
                self.hook_kind_tags(&mut e, true, false, false);
                self.nonpayable(&mut e, funds);
                if !p.operators.contains(by) {
                    e.no("not an operator", &["M06", "M09", "M12"]);
                } else {
                    e.accept_tags.extend(["M12", "M06"]);
                }
                let ok = self.approved(coll, *tok);
                match m.asks.get_mut(&(coll.clone(), *tok)) {
                    None => e.no("no such ask", &["M09", "M14"]),
                    Some(a) => {
                        if a.active == ok {
                            e.no("nothing to synchronise", &["M09"]);
                        }
                        a.active = ok;
                        e.evs.push(on("update-ask-state", coll, *tok).is("is_active", ok));
                        let a = a.clone();
                        self.ask_hook(&mut e, &a, "updated");
                    }
                }
            }
            Op::RemoveStaleAsk { by, coll, tok, funds } => {
                e.accept_tags = vec!["M09"];
                e.table_tags = vec!["M09"];
                e.bank_tags = vec!["M09", "M06"];
                self.hook_kind_tags(&mut e, true, false, false);
                self.nonpayable(&mut e, funds);
                if !p.operators.contains(by) {
                    e.no("not an operator", &["M06", "M09", "M12"]);
                } else {
                    e.accept_tags.extend(["M12", "M06"]);
                }
                match m.asks.remove(&(coll.clone(), *tok)) {
                    None => e.no("no such ask", &["M09", "M14"]),
                    Some(a) => {
                        if a.expires > now && self.owner(coll, *tok).is_some() && self.approved(coll, *tok) {
                            e.no("the ask is not stale", &["M09"]);
                        }
                        e.evs.push(
                            on("remove-ask", coll, *tok)
                                .is("operator", by)
                                .is("expired", a.expires <= now)
                                .is("has_owner", self.owner(coll, *tok).is_some())
                                .is("has_approval", self.approved(coll, *tok)),
                        );
                        self.ask_hook(&mut e, &a, "deleted");
                    }
                }
            }
            Op::RemoveStaleBid { by, coll, tok, bidder, funds } => {
                e.table_tags = vec!["M08", "M02"];
                e.bank_tags = vec!["M08", "M02"];
                e.accept_tags = vec!["M08"];
                self.hook_kind_tags(&mut e, false, true, false);
                self.nonpayable(&mut e, funds);
                if !p.operators.contains(by) {
                    e.no("not an operator", &["M06", "M08", "M12"]);
                } else {
                    e.accept_tags.extend(["M12", "M06"]);
                }
                match m.bids.remove(&(coll.clone(), *tok, bidder.clone())) {
                    None => e.no("no such bid", &["M08", "M14"]),
                    Some(b) => {
                        if (now as u128) < b.expires as u128 + p.stale as u128 * SEC as u128 {
                            e.no("the bid is not stale", &["M08"]);
                        }
                        let r = bps(b.price, p.reward);
                        e.evs.push(
                            on("remove-stale-bid", coll, *tok).is("bidder", bidder).is("operator", by).is("reward", r),
                        );
                        e.give(by, r);
                        e.give(bidder, b.price - r);
                        e.take(CONTRACT, b.price);
                        self.bid_hook(&mut e, &b, "deleted");
                    }
                }
            }
            Op::RemoveStaleCBid { by, coll, bidder, funds } => {
                e.table_tags = vec!["M08", "M02"];
                e.bank_tags = vec!["M08", "M02"];
                e.accept_tags = vec!["M08"];
                self.nonpayable(&mut e, funds);
                if !p.operators.contains(by) {
                    e.no("not an operator", &["M06", "M08", "M12"]);
                } else {
                    e.accept_tags.extend(["M12", "M06"]);
                }
                match m.cbids.remove(&(coll.clone(), bidder.clone())) {
                    None => e.no("no such collection bid", &["M08", "M14"]),
                    Some(b) => {
                        if (now as u128) < b.expires as u128 + p.stale as u128 * SEC as u128 {
                            e.no("the bid is not stale", &["M08"]);
                        }
                        let r = bps(b.price, p.reward);
                        e.evs.push(
                            Ev::new("remove-stale-collection-bid")
                                .is("collection", coll)
                                .is("bidder", bidder)
                                .is("operator", by)
                                .is("reward", r),
                        );
                        e.give(by, r);
                        e.give(bidder, b.price - r);
                        e.take(CONTRACT, b.price);
                    }
                }
            }
            Op::Params { trading, ask_exp, bid_exp, operators: _, max_finder, min_price, stale, reward, fee } => {
                e.accept_tags = vec!["M12"];
                e.table_tags = vec!["M12"];
                if [trading, max_finder, reward].iter().any(|x| x.map_or(false, |b| b > 10_000)) {
                    e.no("fee or reward above 100%", &["M12"]);
                }
                if [ask_exp, bid_exp].iter().any(|x| x.map_or(false, |(a, b)| a > b)) {
                    e.no("expiry range with min above max", &["M12"]);
                }
                let q = &mut m.params;
                if let Some(x) = trading {
                    q.trading = *x;
                }
                if let Some(x) = ask_exp {
                    q.ask_exp = *x;
                }
                if let Some(x) = bid_exp {
                    q.bid_exp = *x;
                }
                if let Some(x) = max_finder {
                    q.max_finder = *x;
                }
                if let Some(x) = min_price {
                    q.min_price = x.0;
                }
                if let Some(x) = stale {
                    q.stale = *x;
                }
                if let Some(x) = reward {
                    q.reward = *x;
                }
                if let Some(x) = fee {
                    q.fee = x.0;
                }
            }
            Op::AddOperator(o) => {
                e.accept_tags = vec!["M12"];
                e.table_tags = vec!["M12", "M06"];
                if !m.params.operators.insert(o.clone()) {
                    e.no("already an operator", &["M12"]);
                }
            }
            Op::RemoveOperator(o) => {
                e.accept_tags = vec!["M12"];
                e.table_tags = vec!["M12", "M06"];
                if !m.params.operators.remove(o) {
                    e.no("not an operator", &["M12"]);
                }
            }
            Op::AddHook { kind, hook } => {
                e.accept_tags = vec!["M12"];
                e.table_tags = vec!["M12", "M11"];
                let v = match kind.as_str() {
                    "ask" => &mut m.ask_hooks,
                    "bid" => &mut m.bid_hooks,
                    _ => &mut m.sale_hooks,
                };
                if v.contains(hook) {
                    e.no("already registered", &["M12"]);
                }
                if v.len() >= 5 {
                    e.may = Some("hook list is bounded");
                }
                v.push(hook.clone());
            }
            Op::RemoveHook { kind, hook } => {
                e.accept_tags = vec!["M12"];
                e.table_tags = vec!["M12", "M11"];
                let v = match kind.as_str() {
                    "ask" => &mut m.ask_hooks,
                    "bid" => &mut m.bid_hooks,
                    _ => &mut m.sale_hooks,
                };
                if !v.contains(hook) {
                    e.no("not registered", &["M12"]);
                }
                v.retain(|h| h != hook);
            }
            Op::Migrate => {
                e.accept_tags = vec!["M15"];
                e.table_tags = vec!["M15"];
                e.bank_tags = vec!["M15"];
                match &self.m.version {
                    None => e.no("no version stored", &["M15"]),
                    Some((c, v)) => {
                        if c != "crates.io:sg-marketplace" {
                            e.no("a different contract", &["M15"]);
                        }
                        match parse_ver(v) {
                            None => e.no("unreadable version", &["M15"]),
                            Some(x) if x > parse_ver(crate::version()).unwrap() => {
                                e.no("a newer stored version", &["M15"])
                            }
                            _ => {}
                        }
                    }
                }
                m.version = Some(("crates.io:sg-marketplace".into(), crate::version().into()));
            }
            _ => unreachable!(),
        }
        e.m = Some(m);
        e
    }
}

/// a semantic version; the plan uses pre-releases of one word only
pub fn parse_ver(v: &str) -> Option<(u64, u64, u64, bool, String)> {
    let (v, pre) = v.split_once('-').unwrap_or((v, ""));
    let p: Vec<u64> = v.split('.').map(|x| x.parse().ok()).collect::<Option<Vec<_>>>()?;
    match p.as_slice() {
        [a, b, c] => Some((*a, *b, *c, pre.is_empty(), pre.into())),
        _ => None,
    }
}

pub fn call(op: &Op) -> Option<Call> {
    let f = |v: &Vec<C>| v.iter().map(|(d, a)| (d.clone(), a.0)).collect::<Vec<_>>();
    let coin = |c: &C| json!({"denom": c.0, "amount": c.1.0.to_string()});
    let x = |by: &String, funds: &Vec<C>, msg: Value| Some(Call::Execute { sender: by.clone(), funds: f(funds), msg });
    let rng = |r: &(u64, u64)| json!({"min": r.0, "max": r.1});
    match op {
        Op::Init(c) => Some(Call::Instantiate(json!({
            "trading_fee_bps": c.trading, "ask_expiry": rng(&c.ask_exp), "bid_expiry": rng(&c.bid_exp),
            "operators": c.operators, "sale_hook": c.sale_hook, "max_finders_fee_bps": c.max_finder,
            "min_price": c.min_price.0.to_string(),
            "stale_bid_duration": if c.stale_height { json!({"height": c.stale}) } else { json!({"time": c.stale}) },
            "bid_removal_reward_bps": c.reward, "listing_fee": c.fee.0.to_string()}))),
        Op::SetAsk { by, coll, tok, auction, price, recipient, reserve, fee_bps, expires, funds } => x(
            by,
            funds,
            json!({"set_ask": {"sale_type": if *auction {"auction"} else {"fixed_price"}, "collection": coll,
                "token_id": tok, "price": coin(price), "funds_recipient": recipient, "reserve_for": reserve,
                "finders_fee_bps": fee_bps, "expires": expires.to_string()}}),
        ),
        Op::RemoveAsk { by, coll, tok, funds } => {
            x(by, funds, json!({"remove_ask": {"collection": coll, "token_id": tok}}))
        }
        Op::UpdateAskPrice { by, coll, tok, price, funds } => {
            x(by, funds, json!({"update_ask_price": {"collection": coll, "token_id": tok, "price": coin(price)}}))
        }
        Op::Bid { kind, by, coll, tok, expires, finder, fee_bps, to, funds } => {
            let mut a = json!({"collection": coll, "token_id": tok, "expires": expires.to_string(),
                "finder": finder, "finders_fee_bps": fee_bps});
            let name = match kind {
                0 => {
                    a["sale_type"] = json!("auction");
                    "set_bid"
                }
                1 => "buy_now",
                _ => {
                    a["asset_recipient"] = json!(to);
                    "buy_for"
                }
            };
            x(by, funds, json!({ name: a }))
        }
        Op::RemoveBid { by, coll, tok, funds } => {
            x(by, funds, json!({"remove_bid": {"collection": coll, "token_id": tok}}))
        }
        Op::AcceptBid { by, coll, tok, bidder, finder, funds } => x(
            by,
            funds,
            json!({"accept_bid": {"collection": coll, "token_id": tok, "bidder": bidder, "finder": finder}}),
        ),
        Op::RejectBid { by, coll, tok, bidder, funds } => {
            x(by, funds, json!({"reject_bid": {"collection": coll, "token_id": tok, "bidder": bidder}}))
        }
        Op::SetCBid { by, coll, expires, fee_bps, funds } => x(
            by,
            funds,
            json!({"set_collection_bid": {"collection": coll, "expires": expires.to_string(), "finders_fee_bps": fee_bps}}),
        ),
        Op::RemoveCBid { by, coll, funds } => x(by, funds, json!({"remove_collection_bid": {"collection": coll}})),
        Op::AcceptCBid { by, coll, tok, bidder, finder, funds } => x(
            by,
            funds,
            json!({"accept_collection_bid": {"collection": coll, "token_id": tok, "bidder": bidder, "finder": finder}}),
        ),
        Op::SyncAsk { by, coll, tok, funds } => {
            x(by, funds, json!({"sync_ask": {"collection": coll, "token_id": tok}}))
        }
        Op::RemoveStaleAsk { by, coll, tok, funds } => {
            x(by, funds, json!({"remove_stale_ask": {"collection": coll, "token_id": tok}}))
        }
        Op::RemoveStaleBid { by, coll, tok, bidder, funds } => {
            x(by, funds, json!({"remove_stale_bid": {"collection": coll, "token_id": tok, "bidder": bidder}}))
        }
        Op::RemoveStaleCBid { by, coll, bidder, funds } => {
            x(by, funds, json!({"remove_stale_collection_bid": {"collection": coll, "bidder": bidder}}))
        }
        Op::Params { trading, ask_exp, bid_exp, operators, max_finder, min_price, stale, reward, fee } => {
            Some(Call::Sudo(json!({"update_params": {
                "trading_fee_bps": trading, "ask_expiry": ask_exp.as_ref().map(rng), "bid_expiry": bid_exp.as_ref().map(rng),
                "operators": operators, "max_finders_fee_bps": max_finder,
                "min_price": min_price.map(|x| x.0.to_string()), "stale_bid_duration": stale,
                "bid_removal_reward_bps": reward, "listing_fee": fee.map(|x| x.0.to_string())}})))
        }
        Op::AddOperator(o) => Some(Call::Sudo(json!({"add_operator": {"operator": o}}))),
        Op::RemoveOperator(o) => Some(Call::Sudo(json!({"remove_operator": {"operator": o}}))),
        Op::AddHook { kind, hook } => Some(Call::Sudo(json!({ format!("add_{kind}_hook"): {"hook": hook} }))),
        Op::RemoveHook { kind, hook } => Some(Call::Sudo(json!({ format!("remove_{kind}_hook"): {"hook": hook} }))),
        Op::Migrate => Some(Call::Migrate(json!({}))),
        _ => None,
    }
}
