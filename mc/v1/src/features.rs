//! Circumstances of a message, to measure which combinations the scenarios contain (`mc-v1 features`).
use crate::model::*;
use crate::sys::St;

type F = Vec<(&'static str, u8)>;

fn opt0(x: Option<u64>) -> u8 {
    match x {
        None => 0,
        Some(0) => 1,
        _ => 2,
    }
}
fn few(n: usize) -> u8 {
    n.min(2) as u8
}

pub fn of(s: &St, op: &Op) -> F {
    let m = &*s.m;
    let e = &s.w.env;
    let p = &m.params;
    let mut f: F = vec![];
    let settings = |f: &mut F| {
        f.push(("frac", (e.time % SEC != 0) as u8));
    };
    let sale = |f: &mut F, coll: &str, finder: &Option<String>, fee: Option<u64>, seller: &str, buyer: &str, price: u128| {
        let c = e.colls.get(coll);
        f.push(("trading", opt0(Some(p.trading)).min(2)));
        f.push(("royalty", match c.and_then(|c| c.royalty.as_ref()) {
            None => 0,
            Some((_, 0)) => 1,
            Some((a, _)) if a == seller => 3,
            Some((a, _)) if a == buyer => 4,
            _ => 2,
        }));
        f.push(("finder", match finder {
            None => 0,
            Some(x) if x == seller => 2,
            Some(x) if x == buyer => 3,
            Some(_) => 1,
        }));
        f.push(("feebps", opt0(fee)));
        f.push(("below_min", (price < p.min_price) as u8));
        f.push(("start", match c.and_then(|c| c.start_trading) { None => 0, Some(t) if t == e.time => 2, _ => 1 }));
        f.push(("hook_s", few(m.sale_hooks.len())));
    };
    let nft = |f: &mut F, coll: &str, tok: u32, me: &str| {
        let k = (coll.to_string(), tok);
        let o = e.nfts.get(&(coll.to_string(), tok.to_string()));
        match m.asks.get(&k) {
            None => f.push(("ask", 0)),
            Some(a) => {
                f.push(("ask", if a.fixed { 1 } else { 2 }));
                f.push(("a_active", a.active as u8));
                f.push(("a_exp", match a.expires.cmp(&e.time) { std::cmp::Ordering::Greater => 0, std::cmp::Ordering::Equal => 1, _ => 2 }));
                f.push(("a_res", match &a.reserve { None => 0, Some(r) if r == me => 1, _ => 2 }));
                f.push(("a_rec", match &a.recipient { None => 0, Some(r) if *r == a.seller => 1, Some(r) if r == me => 2, _ => 3 }));
                f.push(("a_fee", opt0(a.fee_bps)));
                f.push(("a_own", o.is_some_and(|o| o.owner == a.seller) as u8));
                f.push(("a_me", (a.seller == me) as u8));
                f.push(("a_low", (a.price < p.min_price) as u8));
            }
        }
        f.push(("owner", match o { None => 0, Some(o) if o.owner == me => 1, _ => 2 }));
        f.push(("appr", o.is_some_and(|o| o.approvals.values().any(|x| !x.expired(e.time))) as u8));
        f.push(("bids", few(m.bids.keys().filter(|b| b.0 == coll && b.1 == tok && b.2 != me).count())));
        f.push(("cbids", few(m.cbids.keys().filter(|b| b.0 == coll && b.1 != me).count())));
        f.push(("other", few(m.asks.keys().filter(|x| **x != k).count())));
    };
    let own = |f: &mut F, coll: &str, tok: u32, me: &str| {
        f.push(("ownbid", m.bids.contains_key(&(coll.into(), tok, me.into())) as u8));
        f.push(("owncbid", m.cbids.contains_key(&(coll.into(), me.into())) as u8));
    };
    let nb = |f: &mut F, exp: u64, fee: Option<u64>| {
        f.push(("b_exp", match exp.cmp(&e.time) { std::cmp::Ordering::Greater => 0, std::cmp::Ordering::Equal => 1, _ => 2 }));
        f.push(("b_fee", opt0(fee)));
    };
    let stale = |f: &mut F, exp: u64| {
        f.push(("reward", match p.reward { 0 => 0, 10000 => 2, _ => 1 }));
        f.push(("stale0", (p.stale == 0) as u8));
        f.push(("edge", (e.time / SEC == exp / SEC + p.stale) as u8));
    };
    match op {
        Op::SetAsk { by, coll, tok, auction, recipient, reserve, fee_bps, price, .. } => {
            nft(&mut f, coll, *tok, by);
            own(&mut f, coll, *tok, by);
            f.push(("auction", *auction as u8));
            f.push(("rec", match recipient { None => 0, Some(x) if x == by => 1, _ => 2 }));
            f.push(("res", reserve.is_some() as u8));
            f.push(("fee", opt0(*fee_bps)));
            f.push(("lfee", (p.fee != 0) as u8));
            f.push(("hook_a", few(m.ask_hooks.len())));
            f.push(("start", e.colls.get(coll).is_some_and(|c| c.start_trading.is_some()) as u8));
            f.push(("plain", e.colls.get(coll).is_some_and(|c| c.plain) as u8));
            f.push(("max", (price.1 .0 == MAX_ASK) as u8));
            f.push(("bidover", m.bids.values().any(|b| b.coll == *coll && b.tok == *tok && b.price >= price.1 .0) as u8));
        }
        Op::RemoveAsk { by, coll, tok, .. } | Op::UpdateAskPrice { by, coll, tok, .. } => {
            nft(&mut f, coll, *tok, by);
            own(&mut f, coll, *tok, by);
            f.push(("hook_a", few(m.ask_hooks.len())));
            if let (Op::UpdateAskPrice { price, .. }, Some(a)) = (op, m.asks.get(&(coll.clone(), *tok))) {
                f.push(("dir", match price.1 .0.cmp(&a.price) { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, _ => 2 }));
            }
        }
        Op::SyncAsk { by, coll, tok, .. } | Op::RemoveStaleAsk { by, coll, tok, .. } => {
            nft(&mut f, coll, *tok, by);
            f.push(("hook_a", few(m.ask_hooks.len())));
        }
        Op::Bid { kind: _, by, coll, tok, finder, fee_bps, to, funds, .. } => {
            nft(&mut f, coll, *tok, by);
            let amt = funds.first().map_or(0, |x| x.1 .0);
            let a = m.asks.get(&(coll.clone(), *tok));
            let buy = a.is_some_and(|a| a.fixed && a.price == amt);
            f.push(("buy", buy as u8));
            f.push(("owncbid", m.cbids.contains_key(&(coll.clone(), by.clone())) as u8));
            match m.bids.get(&(coll.clone(), *tok, by.clone())) {
                None => f.push(("prev", 0)),
                Some(b) => {
                    f.push(("prev", match b.price.cmp(&amt) { std::cmp::Ordering::Less => 1, std::cmp::Ordering::Equal => 2, _ => 3 }));
                    f.push(("prev_fee", opt0(b.fee_bps)));
                    f.push(("prev_exp", (b.expires <= e.time) as u8));
                }
            }
            f.push(("hook_b", few(m.bid_hooks.len())));
            if buy {
                let seller = &a.unwrap().seller;
                f.push(("to", match to { None => 0, Some(x) if x == by => 1, Some(x) if x == seller => 2, _ => 3 }));
                sale(&mut f, coll, finder, a.unwrap().fee_bps, seller, by, amt);
            } else {
                f.push(("to", to.is_some() as u8));
                f.push(("finder", finder.is_some() as u8));
            }
            f.push(("fee", opt0(*fee_bps)));
        }
        Op::RemoveBid { by, coll, tok, .. } => {
            nft(&mut f, coll, *tok, by);
            own(&mut f, coll, *tok, by);
            if let Some(b) = m.bids.get(&(coll.clone(), *tok, by.clone())) {
                nb(&mut f, b.expires, b.fee_bps);
                f.push(("below_min", (b.price < p.min_price) as u8));
            }
            f.push(("hook_b", few(m.bid_hooks.len())));
        }
        Op::RejectBid { by, coll, tok, bidder, .. } => {
            nft(&mut f, coll, *tok, by);
            own(&mut f, coll, *tok, bidder);
            f.push(("self", (by == bidder) as u8));
            if let Some(b) = m.bids.get(&(coll.clone(), *tok, bidder.clone())) {
                nb(&mut f, b.expires, b.fee_bps);
                f.push(("below_min", (b.price < p.min_price) as u8));
            }
            f.push(("hook_b", few(m.bid_hooks.len())));
        }
        Op::AcceptBid { by, coll, tok, bidder, finder, .. } | Op::AcceptCBid { by, coll, tok, bidder, finder, .. } => {
            nft(&mut f, coll, *tok, by);
            own(&mut f, coll, *tok, bidder);
            f.push(("selfbid", m.bids.contains_key(&(coll.clone(), *tok, by.clone())) as u8));
            f.push(("self", (by == bidder) as u8));
            let b = match op {
                Op::AcceptBid { .. } => m.bids.get(&(coll.clone(), *tok, bidder.clone())).map(|b| (b.fee_bps, b.price)),
                _ => m.cbids.get(&(coll.clone(), bidder.clone())).map(|b| (b.fee_bps, b.price)),
            };
            if let Some((fee, price)) = b {
                sale(&mut f, coll, finder, fee, by, bidder, price);
            }
            f.push(("hook_b", few(m.bid_hooks.len())));
            f.push(("res_for_bidder", m.asks.get(&(coll.clone(), *tok)).is_some_and(|a| a.reserve.as_ref() == Some(bidder)) as u8));
        }
        Op::SetCBid { by, coll, fee_bps, funds, .. } => {
            let amt = funds.first().map_or(0, |x| x.1 .0);
            match m.cbids.get(&(coll.clone(), by.clone())) {
                None => f.push(("prev", 0)),
                Some(b) => {
                    f.push(("prev", match b.price.cmp(&amt) { std::cmp::Ordering::Less => 1, std::cmp::Ordering::Equal => 2, _ => 3 }));
                    f.push(("prev_fee", opt0(b.fee_bps)));
                    f.push(("prev_exp", (b.expires <= e.time) as u8));
                }
            }
            f.push(("fee", opt0(*fee_bps)));
            f.push(("cbids", few(m.cbids.keys().filter(|b| b.0 == *coll && b.1 != *by).count())));
            f.push(("cother", few(m.cbids.keys().filter(|b| b.0 != *coll && b.1 == *by).count())));
            f.push(("bids", few(m.bids.keys().filter(|b| b.0 == *coll && b.2 == *by).count())));
            f.push(("asks", few(m.asks.keys().filter(|b| b.0 == *coll).count())));
            f.push(("hook_b", few(m.bid_hooks.len())));
        }
        Op::RemoveCBid { by, coll, .. } => {
            if let Some(b) = m.cbids.get(&(coll.clone(), by.clone())) {
                nb(&mut f, b.expires, b.fee_bps);
                f.push(("below_min", (b.price < p.min_price) as u8));
            }
            f.push(("cbids", few(m.cbids.keys().filter(|b| b.0 == *coll && b.1 != *by).count())));
            f.push(("cother", few(m.cbids.keys().filter(|b| b.0 != *coll && b.1 == *by).count())));
            f.push(("bids", few(m.bids.keys().filter(|b| b.0 == *coll && b.2 == *by).count())));
            f.push(("hook_b", few(m.bid_hooks.len())));
        }
        Op::RemoveStaleBid { by, coll, tok, bidder, .. } => {
            nft(&mut f, coll, *tok, bidder);
            own(&mut f, coll, *tok, bidder);
            f.push(("self", (by == bidder) as u8));
            if let Some(b) = m.bids.get(&(coll.clone(), *tok, bidder.clone())) {
                stale(&mut f, b.expires);
                f.push(("b_fee", opt0(b.fee_bps)));
                f.push(("below_min", (b.price < p.min_price) as u8));
            }
            f.push(("hook_b", few(m.bid_hooks.len())));
        }
        Op::RemoveStaleCBid { by, coll, bidder, .. } => {
            f.push(("self", (by == bidder) as u8));
            if let Some(b) = m.cbids.get(&(coll.clone(), bidder.clone())) {
                stale(&mut f, b.expires);
                f.push(("b_fee", opt0(b.fee_bps)));
                f.push(("below_min", (b.price < p.min_price) as u8));
            }
            f.push(("cbids", few(m.cbids.keys().filter(|b| b.0 == *coll && b.1 != *bidder).count())));
            f.push(("cother", few(m.cbids.keys().filter(|b| b.0 != *coll && b.1 == *bidder).count())));
            f.push(("bids", few(m.bids.keys().filter(|b| b.0 == *coll && b.2 == *bidder).count())));
            f.push(("hook_b", few(m.bid_hooks.len())));
        }
        _ => return vec![],
    }
    settings(&mut f);
    f
}
