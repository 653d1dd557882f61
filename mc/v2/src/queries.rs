//! The listing queries, compared with lists derived from the model's book.
use crate::model::*;
use crate::sys::*;
use mchost::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;

struct L<'a> {
    s: &'a St,
    n: u64,
    discs: Vec<Disc>,
    level: u32,
}

/// sort key of an item: (price, id); listings by id have price 0 throughout
type Pos = (u128, String);

impl<'a> L<'a> {
    fn bad(&mut self, q: &str, what: String) {
        if self.discs.len() < 4 {
            self.discs.push(Disc { tags: vec!["V11"], sig: format!("query:{q}"), what });
        }
    }
    fn ask(&mut self, q: &str, m: &Value) -> Option<Value> {
        self.n += 1;
        match self.s.w.query(&V2, m) {
            Ok(v) => Some(v),
            Err(e) => {
                self.bad(q, format!("{m} failed: {e}"));
                None
            }
        }
    }
    /// all pagings, directions and bounds of a listing
    fn list(&mut self, name: &str, args: Value, mut want: Vec<(Pos, Value)>, by_price: bool) {
        want.sort_by(|a, b| a.0.cmp(&b.0));
        let off = |p: &Pos| if by_price { json!({"id": p.1, "amount": p.0.to_string()}) } else { json!(p.1) };
        let q = |opt: Value| {
            let mut a = args.clone();
            a["query_options"] = opt;
            json!({ name: a })
        };
        let vals = |v: &[(Pos, Value)]| Value::Array(v.iter().map(|x| x.1.clone()).collect());
        // no options: the first ten, ascending
        let m = q(Value::Null);
        if let Some(v) = self.ask(name, &m) {
            if v != vals(&want[..want.len().min(10)]) {
                self.bad(name, format!("{m} gives {v} instead of {}", vals(&want)));
            }
        }
        for desc in [None, Some(false), Some(true)] {
            let mut w = want.clone();
            if desc == Some(true) {
                w.reverse();
            }
            // pages
            let limits: &[u32] = if self.level >= 2 { &[1, 2, 3, 100] } else { &[1, 2, 100] };
            for l in limits {
                let mut got: Vec<Value> = vec![];
                let mut last: Option<Pos> = None;
                loop {
                    let mut opt = json!({"descending": desc, "limit": l, "min": null, "max": null});
                    if let Some(p) = &last {
                        opt[if desc == Some(true) { "max" } else { "min" }] = json!({"exclusive": off(p)});
                    }
                    let m = q(opt);
                    let Some(v) = self.ask(name, &m) else { return };
                    let page = v.as_array().cloned().unwrap_or_default();
                    let rest = &w[got.len()..];
                    if v != vals(&rest[..rest.len().min(*l as usize)]) {
                        self.bad(name, format!("{m} gives {v}; left to list are {}", vals(rest)));
                        return;
                    }
                    got.extend(page.iter().cloned());
                    if page.len() < *l as usize {
                        break;
                    }
                    last = Some(w[got.len() - 1].0.clone());
                }
            }
            // bounds on both sides
            let mut marks: Vec<Pos> = want.iter().map(|x| x.0.clone()).collect();
            if by_price {
                for p in want.iter().map(|x| x.0 .0).collect::<BTreeSet<_>>() {
                    marks.extend([(p - 1, String::new()), (p, String::new()), (p + 1, String::new())]);
                }
            } else {
                marks.extend([(0, "0".into()), (0, "8".into()), (0, "z".into())]);
            }
            marks.sort();
            marks.dedup();
            let mut bounds: Vec<(bool, Option<&Pos>)> = vec![(true, None)];
            for p in &marks {
                bounds.extend([(true, Some(p)), (false, Some(p))]);
            }
            let b = |x: &(bool, Option<&Pos>)| match x {
                (_, None) => Value::Null,
                (true, Some(p)) => json!({"inclusive": off(p)}),
                (false, Some(p)) => json!({"exclusive": off(p)}),
            };
            for lo in &bounds {
                for hi in &bounds {
                    if self.level < 2 && lo.1.is_some() && hi.1.is_some() {
                        continue;
                    }
                    let m = q(json!({"descending": desc, "limit": 100, "min": b(lo), "max": b(hi)}));
                    let w: Vec<(Pos, Value)> = w
                        .iter()
                        .filter(|x| lo.1.map_or(true, |p| if lo.0 { x.0 >= *p } else { x.0 > *p }))
                        .filter(|x| hi.1.map_or(true, |p| if hi.0 { x.0 <= *p } else { x.0 < *p }))
                        .cloned()
                        .collect();
                    let Some(v) = self.ask(name, &m) else { return };
                    if v != vals(&w) {
                        self.bad(name, format!("{m} gives {v} instead of {}", vals(&w)));
                        return;
                    }
                }
            }
        }
    }
}

pub fn battery(s: &St, level: u32) -> (u64, Vec<Disc>) {
    if !s.m.live {
        return (0, vec![]);
    }
    let m = &s.m;
    let mut l = L { s, n: 0, discs: vec![], level };
    if let Some(x) = m.crossed() {
        l.discs.push(Disc { tags: vec!["V04"], sig: "crossed".into(), what: format!("the book is crossed: {x}") });
    }
    let colls = s.u.colls();
    let pick = |k: K, f: &dyn Fn(&Order) -> bool, price: bool| -> Vec<(Pos, Value)> {
        m.all(k)
            .iter()
            .filter(|o| f(o))
            .map(|o| ((if price { o.price() } else { 0 }, o.id.clone()), o.json()))
            .collect()
    };
    for k in KINDS {
        let i = k as usize;
        for c in &colls {
            for x in &s.u.users {
                let w = pick(k, &|o| o.creator == *x && o.coll == *c, false);
                l.list(BY_CREATOR[i], json!({"creator": x, "collection": c}), w, false);
            }
            for d in DENOMS {
                match k {
                    K::Ask => {
                        let w = pick(k, &|o| o.coll == *c && o.denom() == *d, true);
                        l.list("asks_by_collection_denom", json!({"collection": c, "denom": d}), w, true);
                    }
                    K::CBid => {
                        let w = pick(k, &|o| o.coll == *c && o.denom() == *d, true);
                        l.list("collection_bids_by_price", json!({"collection": c, "denom": d}), w, true);
                    }
                    K::Bid => {
                        for (_, t) in s.u.nfts.iter().filter(|n| n.0 == *c) {
                            let w = pick(k, &|o| o.coll == *c && o.denom() == *d && o.tok.as_ref() == Some(t), true);
                            let a = json!({"collection": c, "token_id": t, "denom": d});
                            l.list("bids_by_token_price", a, w, true);
                        }
                    }
                }
            }
        }
        // batches: what exists, in the order asked for
        let live: Vec<&Order> = m.all(k).iter().collect();
        let mut asked: Vec<Vec<String>> = vec![vec![]];
        let mut all: Vec<String> = live.iter().map(|o| o.id.clone()).collect();
        asked.push(all.clone());
        all.reverse();
        all.push("nothing".into());
        all.extend(m.dead[i].clone());
        asked.push(all);
        for a in asked {
            let want: Vec<Value> =
                a.iter().filter_map(|id| live.iter().find(|o| o.id == *id)).map(|o| o.json()).collect();
            let q = json!({ BATCH[i]: a });
            if let Some(v) = l.ask(BATCH[i], &q) {
                if v != json!(want) {
                    l.bad(BATCH[i], format!("{q} gives {v} instead of {}", json!(want)));
                }
            }
        }
    }
    (l.n, l.discs)
}
