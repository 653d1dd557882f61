//! The listing queries, compared with lists derived from the model's tables.
use crate::model::*;
use crate::sys::*;
use mchost::*;
use serde_json::{json, Value};

struct L<'a> {
    s: &'a St,
    n: u64,
    discs: Vec<Disc>,
    limits: &'static [Option<u32>],
}

/// a listing: how to ask for it and where to go on after an item
struct Q<'a> {
    name: &'a str,
    args: Value,
    descending: Option<bool>,
    next: &'a dyn Fn(&mut Value, &Value) -> Value,
}

impl<'a> L<'a> {
    fn bad(&mut self, q: &str, what: String) {
        if self.discs.len() < 4 {
            self.discs.push(Disc { tags: vec!["R09"], sig: format!("query:{q}"), what });
        }
    }
    fn page(&mut self, q: &Q, args: &Value, off: Option<Value>, limit: Option<u32>) -> Option<Vec<Value>> {
        self.n += 1;
        let mut a = args.clone();
        a["query_options"] = json!({"descending": q.descending, "start_after": off, "limit": limit});
        if q.descending.is_none() && off.is_none() && limit.is_none() {
            a["query_options"] = Value::Null;
        }
        let m = json!({ q.name: a });
        match self.s.w.query(&Ra, &m) {
            Ok(Value::Array(v)) => Some(v),
            Ok(v) => {
                self.bad(q.name, format!("{m} gives {v}"));
                None
            }
            Err(e) => {
                self.bad(q.name, format!("{m} failed: {e}"));
                None
            }
        }
    }
    fn list(&mut self, q: Q, want: &[Value]) {
        for &limit in self.limits {
            let mut got: Vec<Value> = vec![];
            let mut off = None;
            let mut args = q.args.clone();
            loop {
                let Some(p) = self.page(&q, &args, off.clone(), limit) else { return };
                let rest = want.len().saturating_sub(got.len());
                let ok = match limit {
                    Some(l) => p.len() == rest.min(l as usize),
                    None => p.len() <= rest && (rest == 0 || !p.is_empty()),
                };
                got.extend(p.iter().cloned());
                if !ok || got.len() > want.len() || got[..] != want[..got.len()] {
                    self.bad(
                        q.name,
                        format!(
                            "{} {} descending={:?} with pages of {limit:?} gives {} instead of {}",
                            q.name, q.args, q.descending, json!(got), json!(want)
                        ),
                    );
                    return;
                }
                if p.is_empty() || (limit.is_some() && p.len() < limit.unwrap() as usize) {
                    break;
                }
                off = Some((q.next)(&mut args, p.last().unwrap()));
            }
        }
    }
    /// one page from a given offset
    fn from(&mut self, q: Q, off: Value, want: &[Value]) {
        let Some(p) = self.page(&q, &q.args, Some(off.clone()), Some(100)) else { return };
        if p != want {
            self.bad(
                q.name,
                format!("{} {} descending={:?} from {off} gives {} instead of {}", q.name, q.args, q.descending, json!(p), json!(want)),
            );
        }
    }
}

pub fn battery(s: &St, level: u32) -> (u64, Vec<Disc>) {
    if !s.m.live {
        return (0, vec![]);
    }
    let mut l = L {
        s,
        n: 0,
        discs: vec![],
        limits: if level >= 2 { &[None, Some(1), Some(2), Some(3), Some(100)] } else { &[None, Some(1), Some(2)] },
    };
    let m = &s.m;
    let rev = |v: &Vec<Value>| v.iter().rev().cloned().collect::<Vec<_>>();
    let dirs = [None, Some(false), Some(true)];
    // minimum prices
    let all: Vec<(&String, Value)> =
        m.mins.iter().map(|(d, a)| (d, json!({"denom": d, "amount": a.to_string()}))).collect();
    let want: Vec<Value> = all.iter().map(|x| x.1.clone()).collect();
    for d in dirs {
        let w = if d == Some(true) { rev(&want) } else { want.clone() };
        let next = |_: &mut Value, v: &Value| json!({"denom": v["denom"]});
        l.list(Q { name: "min_reserve_prices", args: json!({}), descending: d, next: &next }, &w);
        for o in ["a", "uatom", "ub", "uosmo", "ustars", "z"] {
            let w: Vec<Value> = if d == Some(true) {
                all.iter().rev().filter(|x| x.0.as_str() < o).map(|x| x.1.clone()).collect()
            } else {
                all.iter().filter(|x| x.0.as_str() > o).map(|x| x.1.clone()).collect()
            };
            l.from(Q { name: "min_reserve_prices", args: json!({}), descending: d, next: &next }, json!({ "denom": o }), &w);
        }
    }
    // by seller
    for x in &s.u.sellers {
        let mine: Vec<(&Key, Value)> =
            m.auctions.iter().filter(|(_, a)| a.seller == *x).map(|(k, a)| (k, a.json())).collect();
        let want: Vec<Value> = mine.iter().map(|x| x.1.clone()).collect();
        for d in dirs {
            let w = if d == Some(true) { rev(&want) } else { want.clone() };
            let next = |_: &mut Value, v: &Value| json!({"collection": v["collection"], "token_id": v["token_id"]});
            let args = json!({ "seller": x });
            l.list(Q { name: "auctions_by_seller", args: args.clone(), descending: d, next: &next }, &w);
            for k in &s.u.nfts {
                let w: Vec<Value> = if d == Some(true) {
                    mine.iter().rev().filter(|x| x.0 < k).map(|x| x.1.clone()).collect()
                } else {
                    mine.iter().filter(|x| x.0 > k).map(|x| x.1.clone()).collect()
                };
                let off = json!({"collection": k.0, "token_id": k.1});
                l.from(Q { name: "auctions_by_seller", args: args.clone(), descending: d, next: &next }, off, &w);
            }
        }
    }
    // by end time: those that have one, from the given second on (or, descending, before it)
    let mut by: Vec<((u64, Key), Value)> =
        m.auctions.iter().filter_map(|(k, a)| a.end_s().map(|e| ((e, k.clone()), a.json()))).collect();
    by.sort_by(|a, b| a.0.cmp(&b.0));
    let mut times: Vec<u64> = by.iter().flat_map(|x| [x.0 .0 - 1, x.0 .0, x.0 .0 + 1]).collect();
    times.extend([0, s.w.env.time / SEC, u64::MAX]);
    times.sort();
    times.dedup();
    for t in times {
        for d in dirs {
            let w: Vec<Value> = if d == Some(true) {
                by.iter().rev().filter(|x| x.0 .0 < t).map(|x| x.1.clone()).collect()
            } else {
                by.iter().filter(|x| x.0 .0 >= t).map(|x| x.1.clone()).collect()
            };
            let next = |a: &mut Value, v: &Value| {
                a["end_time"] = json!(v["end_time"].as_str().and_then(|s| s.parse::<u64>().ok()).unwrap_or(0) / SEC);
                json!({"collection": v["collection"], "token_id": v["token_id"]})
            };
            let args = json!({ "end_time": t });
            l.list(Q { name: "auctions_by_end_time", args: args.clone(), descending: d, next: &next }, &w);
            if level >= 2 {
                for k in &s.u.nfts {
                    let at = (t, k.clone());
                    let w: Vec<Value> = if d == Some(true) {
                        by.iter().rev().filter(|x| x.0 < at).map(|x| x.1.clone()).collect()
                    } else {
                        by.iter().filter(|x| x.0 > at).map(|x| x.1.clone()).collect()
                    };
                    let off = json!({"collection": k.0, "token_id": k.1});
                    l.from(Q { name: "auctions_by_end_time", args: args.clone(), descending: d, next: &next }, off, &w);
                }
            }
        }
    }
    (l.n, l.discs)
}
