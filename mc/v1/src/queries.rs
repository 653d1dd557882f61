//! The listing queries, compared with lists derived from the model's tables.
use crate::model::*;
use crate::sys::*;
use mchost::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;

struct L<'a> {
    s: &'a St,
    n: u64,
    discs: Vec<Disc>,
    limits: &'static [Option<u32>],
    offsets: bool,
}

impl<'a> L<'a> {
    fn bad(&mut self, q: &str, what: String) {
        if self.discs.len() < 4 {
            self.discs.push(Disc { tags: vec!["M10"], sig: format!("query:{q}"), what });
        }
    }
    fn get(&mut self, q: &str, args: Value) -> Option<Value> {
        self.n += 1;
        let m = json!({ q: args });
        match self.s.w.query(&V1, &m) {
            Ok(v) => Some(v),
            Err(e) => {
                self.bad(q, format!("{m} failed: {e}"));
                None
            }
        }
    }
    fn page(&mut self, q: &str, args: &Value, okey: &str, off: Option<Value>, limit: Option<u32>, field: &str) -> Option<Vec<Value>> {
        let mut a = args.clone();
        a[okey] = off.unwrap_or(Value::Null);
        a["limit"] = json!(limit);
        let v = self.get(q, a)?;
        match v[field].as_array() {
            Some(x) => Some(x.clone()),
            None => {
                self.bad(q, format!("{q}: no list {field} in {v}"));
                None
            }
        }
    }
    /// every way of paging through a listing, and every start offset, gives the expected list
    fn list(
        &mut self, q: &str, args: Value, okey: &str, field: &str, want: &[Value], off: &dyn Fn(&Value) -> Value,
        extra_offsets: &[(Value, usize)],
    ) {
        for &limit in self.limits {
            let mut got: Vec<Value> = vec![];
            let mut o = None;
            loop {
                let Some(p) = self.page(q, &args, okey, o.clone(), limit, field) else { return };
                let rest = want.len().saturating_sub(got.len());
                let ok = match limit {
                    Some(l) if l <= 100 => p.len() == rest.min(l as usize),
                    Some(l) => p.len() >= rest.min(100) && p.len() <= l as usize,
                    None => p.len() <= rest && (rest == 0 || !p.is_empty()),
                };
                got.extend(p.iter().cloned());
                if !ok || got.len() > want.len() || got[..] != want[..got.len()] {
                    self.bad(
                        q,
                        format!("{q} {args} with pages of {limit:?} gives {} instead of {}", json!(got), json!(want)),
                    );
                    return;
                }
                if p.is_empty() || limit.is_some_and(|l| p.len() < l.min(100) as usize) {
                    break;
                }
                o = Some(off(p.last().unwrap()));
            }
        }
        if !self.offsets {
            return;
        }
        for (i, w) in want.iter().enumerate() {
            let Some(p) = self.page(q, &args, okey, Some(off(w)), Some(100), field) else { return };
            if p[..] != want[i + 1..] {
                self.bad(q, format!("{q} {args} from {} gives {} instead of {}", off(w), json!(p), json!(want[i + 1..])));
                return;
            }
        }
        for (o, from) in extra_offsets {
            let Some(p) = self.page(q, &args, okey, Some(o.clone()), Some(100), field) else { return };
            if p[..] != want[*from..] {
                self.bad(q, format!("{q} {args} from {o} gives {} instead of {}", json!(p), json!(want[*from..])));
                return;
            }
        }
    }
}


pub fn battery(s: &St, level: u32) -> (u64, Vec<Disc>) {
    if !s.m.live {
        return (0, vec![]);
    }
    let mut l = L {
        s,
        n: 0,
        discs: vec![],
        limits: match level {
            0 | 1 => &[None, Some(1), Some(2)],
            2 => &[None, Some(1), Some(2), Some(3), Some(100)],
            _ => &[None, Some(30), Some(31), Some(99), Some(100), Some(101), Some(150), Some(u32::MAX)],
        },
        offsets: level == 2,
    };
    let m = &s.m;
    // collections
    let cs: BTreeSet<&String> = m.asks.keys().map(|k| &k.0).collect();
    let want: Vec<Value> = cs.iter().map(|c| json!(c)).collect();
    l.list("collections", json!({}), "start_after", "collections", &want, &|v| v.clone(), &[]);

    let rev = |v: &Vec<Value>| v.iter().rev().cloned().collect::<Vec<_>>();
    for c in &s.u.colls {
        let toks: Vec<u32> = s.u.nfts.iter().filter(|n| n.0 == *c).map(|n| n.1).collect();
        let n_asks = m.asks.keys().filter(|k| k.0 == *c).count();
        if let Some(v) = l.get("ask_count", json!({ "collection": c })) {
            if v["count"] != json!(n_asks) {
                l.bad("ask_count", format!("ask_count of {c} is {v}, there are {n_asks} asks"));
            }
        }
        for inc in [None, Some(false), Some(true)] {
            if inc == Some(false) && level < 2 {
                continue;
            }
            let live: Vec<&Ask> = m.asks.values().filter(|a| a.coll == *c && (a.active || inc == Some(true))).collect();
            let args = json!({"collection": c, "include_inactive": inc});
            let want: Vec<Value> = live.iter().map(|a| a.json()).collect();
            let tok = |v: &Value| v["token_id"].clone();
            let ex: Vec<(Value, usize)> =
                toks.iter().map(|t| (json!(t), live.iter().filter(|a| a.tok <= *t).count())).collect();
            l.list("asks", args.clone(), "start_after", "asks", &want, &tok, &ex);
            let n = live.len();
            let ex: Vec<(Value, usize)> =
                toks.iter().map(|t| (json!(t), n - live.iter().filter(|a| a.tok < *t).count())).collect();
            l.list("reverse_asks", args.clone(), "start_before", "asks", &rev(&want), &tok, &ex);
            let mut by: Vec<&Ask> = live.clone();
            by.sort_by_key(|a| (a.price, a.tok));
            let want: Vec<Value> = by.iter().map(|a| a.json()).collect();
            let off = |v: &Value| json!({"price": v["price"], "token_id": v["token_id"]});
            let prices: BTreeSet<u128> = by.iter().flat_map(|a| [a.price - 1, a.price, a.price + 1]).collect();
            let mut ex = vec![];
            let mut exr = vec![];
            for p in &prices {
                for t in &toks {
                    let o = json!({"price": p.to_string(), "token_id": t});
                    ex.push((o.clone(), by.iter().filter(|a| (a.price, a.tok) <= (*p, *t)).count()));
                    exr.push((o, n - by.iter().filter(|a| (a.price, a.tok) < (*p, *t)).count()));
                }
            }
            l.list("asks_sorted_by_price", args.clone(), "start_after", "asks", &want, &off, &ex);
            l.list("reverse_asks_sorted_by_price", args, "start_before", "asks", &rev(&want), &off, &exr);
        }
        // bids on one NFT
        for t in &toks {
            let want: Vec<Value> =
                m.bids.values().filter(|b| b.coll == *c && b.tok == *t).map(|b| b.json()).collect();
            let ex: Vec<(Value, usize)> = s
                .u
                .bidders
                .iter()
                .map(|x| {
                    (json!(x), m.bids.values().filter(|b| b.coll == *c && b.tok == *t && b.bidder <= *x).count())
                })
                .collect();
            l.list("bids", json!({"collection": c, "token_id": t}), "start_after", "bids", &want, &|v| v["bidder"].clone(), &ex);
        }
        // bids by price
        let mut by: Vec<&Bid> = m.bids.values().filter(|b| b.coll == *c).collect();
        by.sort_by_key(|b| (b.price, b.tok, b.bidder.clone()));
        let want: Vec<Value> = by.iter().map(|a| a.json()).collect();
        let off = |v: &Value| json!({"price": v["price"], "token_id": v["token_id"], "bidder": v["bidder"]});
        let mut ex = vec![];
        let mut exr = vec![];
        for p in by.iter().flat_map(|a| [a.price - 1, a.price]).collect::<BTreeSet<u128>>() {
            for t in &toks {
                for x in &s.u.bidders {
                    let o = json!({"price": p.to_string(), "token_id": t, "bidder": x});
                    let k = (p, *t, x.clone());
                    ex.push((o.clone(), by.iter().filter(|b| (b.price, b.tok, b.bidder.clone()) <= k).count()));
                    exr.push((o, by.len() - by.iter().filter(|b| (b.price, b.tok, b.bidder.clone()) < k).count()));
                }
            }
        }
        l.list("bids_sorted_by_price", json!({ "collection": c }), "start_after", "bids", &want, &off, &ex);
        l.list("reverse_bids_sorted_by_price", json!({ "collection": c }), "start_before", "bids", &rev(&want), &off, &exr);
        // collection bids by price
        let mut by: Vec<&CBid> = m.cbids.values().filter(|b| b.coll == *c).collect();
        by.sort_by_key(|b| (b.price, b.bidder.clone()));
        let want: Vec<Value> = by.iter().map(|a| a.json()).collect();
        let off = |v: &Value| json!({"price": v["price"], "collection": v["collection"], "bidder": v["bidder"]});
        let mut ex = vec![];
        let mut exr = vec![];
        for p in by.iter().flat_map(|a| [a.price - 1, a.price]).collect::<BTreeSet<u128>>() {
            for x in &s.u.bidders {
                let o = json!({"price": p.to_string(), "collection": c, "bidder": x});
                let k = (p, x.clone());
                ex.push((o.clone(), by.iter().filter(|b| (b.price, b.bidder.clone()) <= k).count()));
                exr.push((o, by.len() - by.iter().filter(|b| (b.price, b.bidder.clone()) < k).count()));
            }
        }
        l.list("collection_bids_sorted_by_price", json!({ "collection": c }), "start_after", "bids", &want, &off, &ex);
        l.list(
            "reverse_collection_bids_sorted_by_price",
            json!({ "collection": c }),
            "start_before",
            "bids",
            &rev(&want),
            &off,
            &exr,
        );
    }
    for x in &s.u.bidders {
        // asks by seller
        for inc in [None, Some(true)] {
            let live: Vec<&Ask> =
                m.asks.values().filter(|a| a.seller == *x && (a.active || inc == Some(true))).collect();
            let want: Vec<Value> = live.iter().map(|a| a.json()).collect();
            let ex: Vec<(Value, usize)> = s
                .u
                .nfts
                .iter()
                .map(|(c, t)| {
                    (
                        json!({"collection": c, "token_id": t}),
                        live.iter().filter(|a| (a.coll.clone(), a.tok) <= (c.clone(), *t)).count(),
                    )
                })
                .collect();
            l.list(
                "asks_by_seller",
                json!({"seller": x, "include_inactive": inc}),
                "start_after",
                "asks",
                &want,
                &|v| json!({"collection": v["collection"], "token_id": v["token_id"]}),
                &ex,
            );
        }
        let mine: Vec<&Bid> = m.bids.values().filter(|b| b.bidder == *x).collect();
        let want: Vec<Value> = mine.iter().map(|a| a.json()).collect();
        let off = |v: &Value| json!({"collection": v["collection"], "token_id": v["token_id"]});
        let ex: Vec<(Value, usize)> = s
            .u
            .nfts
            .iter()
            .map(|(c, t)| {
                (
                    json!({"collection": c, "token_id": t}),
                    mine.iter().filter(|a| (a.coll.clone(), a.tok) <= (c.clone(), *t)).count(),
                )
            })
            .collect();
        l.list("bids_by_bidder", json!({ "bidder": x }), "start_after", "bids", &want, &off, &ex);
        let mut by = mine.clone();
        by.sort_by_key(|b| (b.expires / SEC, b.coll.clone(), b.tok));
        let want: Vec<Value> = by.iter().map(|a| a.json()).collect();
        l.list("bids_by_bidder_sorted_by_expiration", json!({ "bidder": x }), "start_after", "bids", &want, &off, &[]);

        let mine: Vec<&CBid> = m.cbids.values().filter(|b| b.bidder == *x).collect();
        let want: Vec<Value> = mine.iter().map(|a| a.json()).collect();
        let ex: Vec<(Value, usize)> = s
            .u
            .colls
            .iter()
            .map(|c| (json!({"collection": c, "token_id": 0}), mine.iter().filter(|a| a.coll <= *c).count()))
            .collect();
        l.list(
            "collection_bids_by_bidder",
            json!({ "bidder": x }),
            "start_after",
            "bids",
            &want,
            &|v| json!({"collection": v["collection"], "token_id": 0}),
            &ex,
        );
        let mut by = mine.clone();
        by.sort_by_key(|b| (b.expires / SEC, b.coll.clone()));
        let want: Vec<Value> = by.iter().map(|a| a.json()).collect();
        l.list(
            "collection_bids_by_bidder_sorted_by_expiration",
            json!({ "bidder": x }),
            "start_after",
            "bids",
            &want,
            &|v| json!({"price": v["price"], "collection": v["collection"], "bidder": v["bidder"]}),
            &[],
        );
    }
    (l.n, l.discs)
}
