//! Reference model of the reserve auction, written from the property statements.
use mchost::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const SEC: u64 = 1_000_000_000;
pub const ONE: u128 = 1_000_000_000_000_000_000;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub fair_burn: String,
    /// atomics (1e18 = 100%)
    pub trading: U,
    pub inc: U,
    pub min_dur: u64,
    pub max_dur: u64,
    pub ext: u64,
    pub fee: C,
    pub max_settle: u64,
    pub thr: u64,
    pub buf: u64,
    pub post: u64,
    pub mins: Vec<C>,
}

pub type C = (String, U);

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, Default)]
pub struct Upd {
    #[serde(default)]
    pub fair_burn: Option<String>,
    #[serde(default)]
    pub trading: Option<U>,
    #[serde(default)]
    pub inc: Option<U>,
    #[serde(default)]
    pub min_dur: Option<u64>,
    #[serde(default)]
    pub ext: Option<u64>,
    #[serde(default)]
    pub fee: Option<C>,
    #[serde(default)]
    pub max_settle: Option<u64>,
    #[serde(default)]
    pub thr: Option<u64>,
    #[serde(default)]
    pub buf: Option<u64>,
    #[serde(default)]
    pub post: Option<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    // ---- environment
    Universe { nfts: Vec<(String, Vec<String>)>, sellers: Vec<String> },
    Fund(Vec<String>),
    Coll { addr: String, royalty: Option<(String, U)>, start: Option<u64>, plain: bool },
    Mint { coll: String, tok: String, owner: String },
    At(u64),
    Skip(u64),
    Approve { coll: String, tok: String, until: Option<u64> },
    Revoke { coll: String, tok: String },
    Transfer { coll: String, tok: String, to: String },
    // ---- contract
    Init(Cfg),
    Create {
        by: String, coll: String, tok: String, reserve: C, duration: u64, recipient: Option<String>, funds: Vec<C>,
    },
    Reprice { by: String, coll: String, tok: String, reserve: C, funds: Vec<C> },
    Cancel { by: String, coll: String, tok: String, funds: Vec<C> },
    Bid { by: String, coll: String, tok: String, funds: Vec<C> },
    Settle { by: String, coll: String, tok: String, funds: Vec<C> },
    End,
    Begin,
    /// the next block, this much later (nanoseconds): time passes, BeginBlock is called
    Block(u64),
    Params(Upd),
    SetMin(Vec<C>),
    UnsetMin(Vec<String>),
    Migrate,
    /// from here on, a second world that has been migrated runs along
    Twin,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Auction {
    pub coll: String,
    pub tok: String,
    pub seller: String,
    pub denom: String,
    pub reserve: u128,
    pub duration: u64,
    pub recipient: Option<String>,
    pub first: Option<u64>,
    pub end: Option<u64>,
    pub high: Option<(String, u128)>,
}
impl Auction {
    pub fn json(&self) -> Value {
        json!({"token_id": self.tok, "collection": self.coll, "seller": self.seller,
            "reserve_price": {"denom": self.denom, "amount": self.reserve.to_string()}, "duration": self.duration,
            "end_time": self.end.map(|t| t.to_string()), "seller_funds_recipient": self.recipient,
            "high_bid": self.high.as_ref().map(|(b, a)| json!({"bidder": b,
                "coin": {"denom": self.denom, "amount": a.to_string()}})),
            "first_bid_time": self.first.map(|t| t.to_string())})
    }
    pub fn parse(v: &Value) -> Option<Self> {
        let text = |x: &Value| x.as_str().map(|x| x.to_string());
        let num = |x: &Value| x.as_str().and_then(|x| x.parse().ok());
        Some(Auction {
            coll: text(&v["collection"])?,
            tok: text(&v["token_id"])?,
            seller: text(&v["seller"])?,
            denom: text(&v["reserve_price"]["denom"])?,
            reserve: v["reserve_price"]["amount"].as_str()?.parse().ok()?,
            duration: v["duration"].as_u64()?,
            recipient: text(&v["seller_funds_recipient"]),
            first: num(&v["first_bid_time"]),
            end: num(&v["end_time"]),
            high: match &v["high_bid"] {
                Value::Null => None,
                h => Some((text(&h["bidder"])?, h["coin"]["amount"].as_str()?.parse().ok()?)),
            },
        })
    }
    pub fn end_s(&self) -> Option<u64> {
        self.end.map(|e| e / SEC)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Params {
    pub fair_burn: String,
    pub trading: u128,
    pub inc: u128,
    pub min_dur: u64,
    pub max_dur: u64,
    pub ext: u64,
    pub fee: (String, u128),
    pub max_settle: u64,
    pub thr: u64,
    pub buf: u64,
    pub post: u64,
}
impl Params {
    pub fn json(&self) -> Value {
        json!({"fair_burn": self.fair_burn, "trading_fee_percent": dec_str(self.trading),
            "min_bid_increment_percent": dec_str(self.inc), "min_duration": self.min_dur, "max_duration": self.max_dur,
            "extend_duration": self.ext, "create_auction_fee": {"denom": self.fee.0, "amount": self.fee.1.to_string()},
            "max_auctions_to_settle_per_block": self.max_settle, "halt_duration_threshold": self.thr,
            "halt_buffer_duration": self.buf, "halt_postpone_duration": self.post})
    }
    pub fn parse(v: &Value) -> Option<Self> {
        let n = |k: &str| v[k].as_u64();
        Some(Params {
            fair_burn: v["fair_burn"].as_str()?.into(),
            trading: dec_parse(v["trading_fee_percent"].as_str()?)?,
            inc: dec_parse(v["min_bid_increment_percent"].as_str()?)?,
            min_dur: n("min_duration")?,
            max_dur: n("max_duration")?,
            ext: n("extend_duration")?,
            fee: (
                v["create_auction_fee"]["denom"].as_str()?.into(),
                v["create_auction_fee"]["amount"].as_str()?.parse().ok()?,
            ),
            max_settle: n("max_auctions_to_settle_per_block")?,
            thr: n("halt_duration_threshold")?,
            buf: n("halt_buffer_duration")?,
            post: n("halt_postpone_duration")?,
        })
    }
    fn valid(&self) -> bool {
        self.inc > 0 && self.inc < ONE && self.min_dur > 0 && self.ext > 0
    }
}

pub type Key = (String, String);

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct M {
    pub live: bool,
    pub auctions: BTreeMap<Key, Auction>,
    pub params: Params,
    pub mins: BTreeMap<String, u128>,
    /// halt windows in which an auction can still end (seconds, both ends exclusive)
    pub windows: BTreeSet<(u64, u64)>,
    pub prev: u64,
}
impl M {
    /// what the contract reports instead of what was expected
    pub fn adopt(&mut self, auctions: &BTreeMap<Key, Value>, params: &Value, mins: &Value) -> Option<()> {
        self.auctions = auctions.iter().map(|(k, v)| Some((k.clone(), Auction::parse(v)?))).collect::<Option<_>>()?;
        self.params = Params::parse(params)?;
        self.mins = mins
            .as_array()?
            .iter()
            .map(|c| Some((c["denom"].as_str()?.to_string(), c["amount"].as_str()?.parse().ok()?)))
            .collect::<Option<_>>()?;
        Some(())
    }
    pub fn in_window(&self, s: u64) -> bool {
        self.windows.iter().any(|(a, b)| s > *a && s < *b)
    }
    /// a window is over once the time has reached its end and no auction ends inside it
    pub fn prune(&mut self, now: u64) {
        let ends: Vec<u64> = self.auctions.values().filter_map(|a| a.end_s()).collect();
        self.windows.retain(|(a, b)| *b > now / SEC || ends.iter().any(|e| e > a && e < b));
    }
}

pub type Tags = Vec<&'static str>;

/// one allowed outcome
#[derive(Clone, Default)]
pub struct Out {
    pub m: M,
    pub deltas: BTreeMap<(String, String), i128>,
    pub nfts: BTreeMap<Key, String>,
    /// the settled and postponed auctions to be reported
    pub evs: Vec<Ev>,
}
pub const EVENTS: &[&str] = &[
    "create-auction",
    "update-reserve-price",
    "cancel-auction",
    "place-bid",
    "settle-auction",
    "postpone-auction",
    "halt-detected",
    "sudo-update-params",
    "set-min-reserve-price",
    "unset-min-reserve-price",
];
fn time(nanos: u64) -> String {
    cosmwasm_std::Timestamp::from_nanos(nanos).to_string()
}
fn coins(amount: u128, denom: &str) -> String {
    format!("{amount}{denom}")
}
/// everything a message has to report
pub fn events(op: &Op, m: &M, now: u64, o: &Out) -> Vec<Ev> {
    let on = |ty, coll: &String, tok: &String| Ev::new(ty).is("collection", coll).is("token_id", tok);
    let min = |c: &C| Ev::new("set-min-reserve-price").is("denom", &c.0).is("amount", c.1 .0);
    let mut v = o.evs.clone();
    match op {
        Op::Init(c) => v.extend(c.mins.iter().map(min)),
        Op::SetMin(x) => v.extend(x.iter().map(min)),
        Op::UnsetMin(x) => v.extend(x.iter().map(|d| Ev::new("unset-min-reserve-price").is("denom", d))),
        Op::Create { by, coll, tok, reserve, recipient, .. } => v.push(
            on("create-auction", coll, tok)
                .is("seller", by)
                .is("reserve_price", coins(reserve.1 .0, &reserve.0))
                .opt("seller_funds_recipient", recipient.as_ref()),
        ),
        Op::Reprice { coll, tok, reserve, .. } => {
            v.push(on("update-reserve-price", coll, tok).is("reserve_price", coins(reserve.1 .0, &reserve.0)))
        }
        Op::Cancel { coll, tok, .. } => v.push(on("cancel-auction", coll, tok)),
        Op::Bid { by, coll, tok, .. } => {
            let k = (coll.clone(), tok.clone());
            if let (Some(a), Some(n)) = (m.auctions.get(&k), o.m.auctions.get(&k)) {
                let (_, amt) = n.high.clone().unwrap();
                v.push(
                    on("place-bid", coll, tok)
                        .is("seller", &a.seller)
                        .is("bidder", by)
                        .is("bid_amount", coins(amt, &a.denom))
                        .is("first_bid", a.high.is_none())
                        .is("auction_end_time", time(n.end.unwrap()))
                        .opt("previous_bidder", a.high.as_ref().map(|h| h.0.clone()))
                        .opt("previous_bid_amount", a.high.as_ref().map(|h| coins(h.1, &a.denom))),
                );
            }
        }
        Op::Begin | Op::Block(_) => {
            if m.prev > 0 && now / SEC - m.prev >= m.params.thr {
                v.push(Ev::new("halt-detected"));
            }
        }
        Op::Params(u) => v.push(
            Ev::new("sudo-update-params")
                .opt("fair_burn", u.fair_burn.as_ref())
                .opt("trading_fee_percent", u.trading.map(|x| dec_str(x.0)))
                .opt("min_bid_increment_percent", u.inc.map(|x| dec_str(x.0)))
                .opt("min_duration", u.min_dur)
                .opt("extend_duration", u.ext)
                .opt("create_auction_fee", u.fee.as_ref().map(|c| coins(c.1 .0, &c.0)))
                .opt("max_auctions_to_settle_per_block", u.max_settle)
                .opt("halt_duration_threshold", u.thr)
                .opt("halt_buffer_duration", u.buf)
                .opt("halt_postpone_duration", u.post),
        ),
        _ => {}
    }
    v
}
impl Out {
    fn give(&mut self, who: &str, denom: &str, amt: u128) {
        *self.deltas.entry((who.to_string(), denom.to_string())).or_insert(0) += amt as i128;
    }
    fn take(&mut self, who: &str, denom: &str, amt: u128) {
        *self.deltas.entry((who.to_string(), denom.to_string())).or_insert(0) -= amt as i128;
    }
}

/// What the properties say about a message in a given situation.
#[derive(Default)]
pub struct Exp {
    pub reject: Vec<(&'static str, Tags)>,
    pub may: Option<&'static str>,
    pub accept_tags: Tags,
    pub table_tags: Tags,
    pub bank_tags: Tags,
    pub outs: Vec<Out>,
    /// names the circumstance in the signature of a refusal
    pub case: &'static str,
}
impl Exp {
    fn no(&mut self, why: &'static str, tags: &[&'static str]) {
        self.reject.push((why, tags.to_vec()));
    }
}

/// ceil(a * atomics / 1e18); None if it does not fit
pub fn mul_ceil(a: u128, atomics: u128) -> Option<u128> {
    // a*atomics/ONE = (a/ONE)*atomics + (a%ONE)*atomics/ONE, and split atomics too: all parts below fit
    let (q, r) = (a / ONE, a % ONE);
    let (aq, ar) = (atomics / ONE, atomics % ONE);
    let whole = q.checked_mul(atomics)?.checked_add(r.checked_mul(aq)?)?;
    let frac = r * ar; // < 1e36
    whole.checked_add(frac / ONE + u128::from(frac % ONE > 0))
}

fn combos(pool: &[Key], k: usize) -> Vec<Vec<Key>> {
    if k == 0 {
        return vec![vec![]];
    }
    if pool.len() < k {
        return vec![];
    }
    let mut v: Vec<Vec<Key>> = combos(&pool[1..], k - 1)
        .into_iter()
        .map(|mut c| {
            c.insert(0, pool[0].clone());
            c
        })
        .collect();
    v.extend(combos(&pool[1..], k));
    v
}

pub struct Ctx<'a> {
    pub m: &'a M,
    pub env: &'a EnvState,
}

/// how a due auction is dealt with
enum Due {
    Postponed,
    Settled,
    Unpayable,
}

impl<'a> Ctx<'a> {
    fn nonpayable(&self, e: &mut Exp, funds: &[C], tag: &'static str) {
        if !funds.is_empty() {
            e.no("funds attached to a message that takes none", &["R01", tag]);
        }
    }
    fn reserve_ok(&self, e: &mut Exp, r: &C) {
        match self.m.mins.get(&r.0) {
            None => e.no("the denom is not supported", &["R08"]),
            Some(m) if r.1 .0 < *m => e.no("the reserve price is below the minimum", &["R08"]),
            _ => {}
        }
    }
    /// settle or postpone one due auction
    fn due(&self, o: &mut Out, k: &Key) -> Due {
        let a = self.m.auctions[k].clone();
        let p = &self.m.params;
        if self.m.in_window(a.end_s().unwrap()) {
            let end = self.env.time + p.post * SEC;
            o.m.auctions.get_mut(k).unwrap().end = Some(end);
            o.evs.push(
                Ev::new("postpone-auction").is("collection", &k.0).is("token_id", &k.1).is("auction_end_time", time(end)),
            );
            return Due::Postponed;
        }
        let (bidder, price) = a.high.clone().unwrap();
        let roy = self.env.colls.get(&a.coll).filter(|c| !c.plain).and_then(|c| c.royalty.clone());
        let fee = mul_ceil(price, p.trading).unwrap();
        let r = roy.as_ref().map_or(0, |(_, s)| mul_ceil(price, *s).unwrap());
        if fee + r > price {
            return Due::Unpayable;
        }
        o.m.auctions.remove(k);
        o.evs.push(
            Ev::new("settle-auction")
                .is("collection", &k.0)
                .is("token_id", &k.1)
                .is("seller", &a.seller)
                .is("bidder", &bidder)
                .is("bid_amount", price)
                .is("bid_denom", &a.denom),
        );
        o.take(CONTRACT, &a.denom, price);
        o.give(&p.fair_burn, &a.denom, fee);
        if let Some((addr, _)) = roy {
            o.give(&addr, &a.denom, r);
        }
        o.give(a.recipient.as_ref().unwrap_or(&a.seller), &a.denom, price - fee - r);
        o.nfts.insert(k.clone(), bidder);
        Due::Settled
    }

    pub fn expect(&self, op: &Op) -> Exp {
        let mut e = Exp::default();
        let m0 = self.m;
        let p = &m0.params;
        let now = self.env.time;
        let mut o = Out { m: m0.clone(), ..Default::default() };
        match op {
            Op::Init(c) => {
                e.accept_tags = vec!["R10"];
                e.table_tags = vec!["R10"];
                e.bank_tags = vec!["R10"];
                o.m = M { live: true, ..Default::default() };
                o.m.params = Params {
                    fair_burn: c.fair_burn.clone(),
                    trading: c.trading.0,
                    inc: c.inc.0,
                    min_dur: c.min_dur,
                    max_dur: c.max_dur,
                    ext: c.ext,
                    fee: (c.fee.0.clone(), c.fee.1 .0),
                    max_settle: c.max_settle,
                    thr: c.thr,
                    buf: c.buf,
                    post: c.post,
                };
                if !o.m.params.valid() {
                    e.no("the settings are not valid", &["R10"]);
                }
                for (d, a) in &c.mins {
                    if o.m.mins.insert(d.clone(), a.0).is_some() {
                        e.no("a denom is given twice", &["R10"]);
                    }
                }
            }
            Op::Create { by, coll, tok, reserve, duration, recipient, funds } => {
                e.accept_tags = vec!["R08"];
                e.table_tags = vec!["R08", "R01"];
                e.bank_tags = vec!["R08", "R01"];
                if self.env.owner(coll, tok) != Some(by.as_str()) {
                    e.no("the sender does not own the NFT", &["R08", "R01"]);
                } else if !self.env.approved(coll, tok, CONTRACT) {
                    e.no("the NFT is not approved", &["R08"]);
                }
                if m0.auctions.contains_key(&(coll.clone(), tok.clone())) {
                    e.no("there is an auction for the NFT", &["R08", "R01", "R03"]);
                }
                if !self.env.tradable(coll) {
                    e.no("the collection is not tradable yet", &["R08"]);
                }
                self.reserve_ok(&mut e, reserve);
                if *duration < p.min_dur || *duration > p.max_dur {
                    e.no("the duration is outside the limits", &["R08"]);
                }
                let want: Vec<C> = if p.fee.1 == 0 { vec![] } else { vec![(p.fee.0.clone(), U(p.fee.1))] };
                if *funds != want {
                    e.no("the creation fee is not paid exactly", &["R08", "R01"]);
                }
                for (d, a) in funds {
                    o.take(by, d, a.0);
                    o.give(&p.fair_burn, d, a.0);
                }
                let k = (coll.clone(), tok.clone());
                o.nfts.insert(k.clone(), CONTRACT.into());
                o.m.auctions.insert(
                    k,
                    Auction {
                        coll: coll.clone(),
                        tok: tok.clone(),
                        seller: by.clone(),
                        denom: reserve.0.clone(),
                        reserve: reserve.1 .0,
                        duration: *duration,
                        recipient: recipient.clone(),
                        first: None,
                        end: None,
                        high: None,
                    },
                );
            }
            Op::Reprice { by, coll, tok, reserve, funds } => {
                e.accept_tags = vec!["R03"];
                e.table_tags = vec!["R03"];
                e.bank_tags = vec!["R03"];
                self.nonpayable(&mut e, funds, "R03");
                self.reserve_ok(&mut e, reserve);
                match o.m.auctions.get_mut(&(coll.clone(), tok.clone())) {
                    None => e.no("there is no such auction", &["R03"]),
                    Some(a) => {
                        if a.seller != *by {
                            e.no("the sender is not the seller", &["R03"]);
                        }
                        if a.first.is_some() || a.high.is_some() {
                            e.no("the auction has a bid", &["R03"]);
                        }
                        a.denom = reserve.0.clone();
                        a.reserve = reserve.1 .0;
                    }
                }
            }
            Op::Cancel { by, coll, tok, funds } => {
                e.accept_tags = vec!["R03"];
                e.table_tags = vec!["R03", "R01"];
                e.bank_tags = vec!["R03", "R01"];
                self.nonpayable(&mut e, funds, "R03");
                match o.m.auctions.remove(&(coll.clone(), tok.clone())) {
                    None => e.no("there is no such auction", &["R03"]),
                    Some(a) => {
                        if a.seller != *by {
                            e.no("the sender is not the seller", &["R03", "R01"]);
                        }
                        if a.first.is_some() || a.high.is_some() {
                            e.no("the auction has a bid", &["R03", "R01"]);
                        }
                        o.nfts.insert((coll.clone(), tok.clone()), a.seller);
                    }
                }
            }
            Op::Bid { by, coll, tok, funds } => {
                e.accept_tags = vec!["R02"];
                e.table_tags = vec!["R02", "R04"];
                e.bank_tags = vec!["R02", "R01"];
                let k = (coll.clone(), tok.clone());
                let Some(a) = m0.auctions.get(&k) else {
                    e.no("there is no such auction", &["R02", "R01"]);
                    return e;
                };
                let amt = match &funds[..] {
                    [(d, x)] if *d == a.denom && x.0 > 0 => x.0,
                    _ => {
                        e.no("not exactly one coin of the auction's denom", &["R02", "R01"]);
                        0
                    }
                };
                if a.seller == *by {
                    e.no("the seller bids", &["R02"]);
                }
                let min = match &a.high {
                    None => Some(a.reserve),
                    Some((_, h)) => mul_ceil(*h, ONE + p.inc),
                };
                match min {
                    Some(min) if amt < min => e.no("the bid is too low", &["R02"]),
                    Some(_) => {}
                    None => e.may = Some("the next minimum bid does not fit the number type"),
                }
                if let Some(end) = a.end {
                    if now >= end {
                        e.no("the auction has ended", &["R04", "R02"]);
                    } else if now / SEC >= end / SEC {
                        e.may = Some("in the very second of the end");
                    }
                }
                o.take(by, &a.denom, amt);
                o.give(CONTRACT, &a.denom, amt);
                if let Some((b, h)) = &a.high {
                    o.take(CONTRACT, &a.denom, *h);
                    o.give(b, &a.denom, *h);
                }
                let n = o.m.auctions.get_mut(&k).unwrap();
                n.high = Some((by.clone(), amt));
                match a.end {
                    None => {
                        n.first = Some(now);
                        n.end = Some(now + a.duration * SEC);
                    }
                    Some(end) => {
                        let ext = now + p.ext * SEC;
                        let mut later = o.clone();
                        later.m.auctions.get_mut(&k).unwrap().end = Some(ext);
                        if end < ext {
                            if (end / SEC).saturating_sub(now / SEC) < p.ext {
                                o = later;
                            } else {
                                // less than a second short of the extension period: rounded either way
                                e.outs.push(later);
                            }
                        }
                    }
                }
            }
            Op::Settle { by: _, coll, tok, funds } => {
                e.accept_tags = vec!["R05"];
                e.table_tags = vec!["R05", "R07", "R01"];
                e.bank_tags = vec!["R05", "R01"];
                self.nonpayable(&mut e, funds, "R05");
                let k = (coll.clone(), tok.clone());
                let Some(a) = m0.auctions.get(&k) else {
                    e.no("there is no such auction", &["R05", "R01"]);
                    return e;
                };
                if !a.end.map_or(false, |t| t <= now) {
                    e.no("the auction has not ended", &["R05", "R01"]);
                    return e;
                }
                if p.trading == 0 {
                    e.case = " zero trading fee";
                }
                match self.due(&mut o, &k) {
                    Due::Unpayable => e.no("the fees exceed the price", &["R05"]),
                    Due::Postponed => {
                        e.accept_tags.push("R07");
                        e.case = "";
                    }
                    Due::Settled => {}
                }
            }
            Op::End => {
                e.accept_tags = vec!["R06"];
                e.table_tags = vec!["R06", "R05", "R07"];
                e.bank_tags = vec!["R05", "R06", "R01"];
                let mut due: Vec<&Auction> =
                    m0.auctions.values().filter(|a| a.end.map_or(false, |t| t <= now)).collect();
                due.sort_by_key(|a| (a.end_s(), a.coll.clone(), a.tok.clone()));
                let n = due.len().min(p.max_settle.min(1000) as usize);
                // auctions ending in the same second come in any order
                let choices: Vec<Vec<Key>> = if n < due.len() && n > 0 {
                    let s = due[n - 1].end_s();
                    let sure: Vec<Key> =
                        due.iter().filter(|a| a.end_s() < s).map(|a| (a.coll.clone(), a.tok.clone())).collect();
                    let pool: Vec<Key> =
                        due.iter().filter(|a| a.end_s() == s).map(|a| (a.coll.clone(), a.tok.clone())).collect();
                    combos(&pool, n - sure.len())
                        .into_iter()
                        .map(|c| sure.iter().cloned().chain(c).collect())
                        .collect()
                } else {
                    vec![due[..n].iter().map(|a| (a.coll.clone(), a.tok.clone())).collect()]
                };
                for c in choices {
                    let mut o = o.clone();
                    for k in &c {
                        match self.due(&mut o, k) {
                            Due::Unpayable => e.case = " unpayable auction",
                            Due::Settled if p.trading == 0 => e.case = " zero trading fee",
                            Due::Postponed => e.accept_tags.push("R07"),
                            _ => {}
                        }
                    }
                    o.m.prune(now);
                    e.outs.push(o);
                }
                return e;
            }
            Op::Begin | Op::Block(_) => {
                e.accept_tags = vec!["R07", "R06"];
                e.table_tags = vec!["R07", "R06"];
                e.bank_tags = vec!["R07", "R06"];
                let s = now / SEC;
                if m0.prev > 0 && s - m0.prev >= p.thr {
                    o.m.windows.insert((m0.prev, s + p.buf));
                }
                o.m.prev = s;
            }
            Op::Params(u) => {
                e.accept_tags = vec!["R10"];
                e.table_tags = vec!["R10"];
                e.bank_tags = vec!["R10"];
                let q = &mut o.m.params;
                if let Some(x) = &u.fair_burn {
                    q.fair_burn = x.clone();
                }
                if let Some(x) = u.trading {
                    q.trading = x.0;
                }
                if let Some(x) = u.inc {
                    q.inc = x.0;
                }
                if let Some(x) = u.min_dur {
                    q.min_dur = x;
                }
                if let Some(x) = u.ext {
                    q.ext = x;
                }
                if let Some(x) = &u.fee {
                    q.fee = (x.0.clone(), x.1 .0);
                }
                if let Some(x) = u.max_settle {
                    q.max_settle = x;
                }
                if let Some(x) = u.thr {
                    q.thr = x;
                }
                if let Some(x) = u.buf {
                    q.buf = x;
                }
                if let Some(x) = u.post {
                    q.post = x;
                }
                if !q.valid() {
                    e.no("the settings are not valid", &["R10"]);
                }
            }
            Op::SetMin(v) => {
                e.accept_tags = vec!["R10"];
                e.table_tags = vec!["R10"];
                e.bank_tags = vec!["R10"];
                for (d, a) in v {
                    if o.m.mins.insert(d.clone(), a.0).is_some() {
                        e.no("the denom is there already", &["R10"]);
                    }
                }
            }
            Op::UnsetMin(v) => {
                e.accept_tags = vec!["R10"];
                e.table_tags = vec!["R10"];
                e.bank_tags = vec!["R10"];
                for d in v {
                    if o.m.mins.remove(d).is_none() {
                        e.may = Some("an unknown denom to remove");
                    }
                }
            }
            Op::Migrate => {
                e.accept_tags = vec!["R10"];
                e.table_tags = vec!["R10"];
                e.bank_tags = vec!["R10"];
            }
            _ => unreachable!(),
        }
        o.m.prune(now);
        for x in &mut e.outs {
            x.m.prune(now);
        }
        e.outs.insert(0, o);
        e
    }
}

fn coinj(c: &C) -> Value {
    json!({"denom": c.0, "amount": c.1 .0.to_string()})
}
fn fv(f: &[C]) -> Vec<(String, u128)> {
    f.iter().map(|(d, a)| (d.clone(), a.0)).collect()
}

/// the message of an operation (None: an environment operation)
pub fn call(op: &Op) -> Option<Call> {
    let ex = |by: &String, funds: &Vec<C>, msg: Value| Call::Execute { sender: by.clone(), funds: fv(funds), msg };
    Some(match op {
        Op::Init(c) => Call::Instantiate(json!({"fair_burn": c.fair_burn, "trading_fee_percent": dec_str(c.trading.0),
            "min_bid_increment_percent": dec_str(c.inc.0), "min_duration": c.min_dur, "max_duration": c.max_dur,
            "extend_duration": c.ext, "create_auction_fee": coinj(&c.fee),
            "max_auctions_to_settle_per_block": c.max_settle, "halt_duration_threshold": c.thr,
            "halt_buffer_duration": c.buf, "halt_postpone_duration": c.post,
            "min_reserve_prices": c.mins.iter().map(coinj).collect::<Vec<_>>()})),
        Op::Create { by, coll, tok, reserve, duration, recipient, funds } => ex(by, funds, json!({"create_auction": {
            "collection": coll, "token_id": tok, "reserve_price": coinj(reserve), "duration": duration,
            "seller_funds_recipient": recipient}})),
        Op::Reprice { by, coll, tok, reserve, funds } => ex(by, funds, json!({"update_reserve_price": {
            "collection": coll, "token_id": tok, "reserve_price": coinj(reserve)}})),
        Op::Cancel { by, coll, tok, funds } => ex(by, funds, json!({"cancel_auction": {"collection": coll, "token_id": tok}})),
        Op::Bid { by, coll, tok, funds } => ex(by, funds, json!({"place_bid": {"collection": coll, "token_id": tok}})),
        Op::Settle { by, coll, tok, funds } => ex(by, funds, json!({"settle_auction": {"collection": coll, "token_id": tok}})),
        Op::End => Call::Sudo(json!({"end_block": {}})),
        Op::Begin | Op::Block(_) => Call::Sudo(json!({"begin_block": {}})),
        Op::Params(u) => Call::Sudo(json!({"update_params": {"fair_burn": u.fair_burn,
            "trading_fee_percent": u.trading.map(|x| dec_str(x.0)),
            "min_bid_increment_percent": u.inc.map(|x| dec_str(x.0)), "min_duration": u.min_dur,
            "extend_duration": u.ext, "create_auction_fee": u.fee.as_ref().map(coinj),
            "max_auctions_to_settle_per_block": u.max_settle, "halt_duration_threshold": u.thr,
            "halt_buffer_duration": u.buf, "halt_postpone_duration": u.post}})),
        Op::SetMin(v) => Call::Sudo(json!({"set_min_reserve_prices": {
            "min_reserve_prices": v.iter().map(coinj).collect::<Vec<_>>()}})),
        Op::UnsetMin(v) => Call::Sudo(json!({"unset_min_reserve_prices": {"denoms": v}})),
        Op::Migrate => Call::Migrate(json!({})),
        _ => return None,
    })
}
