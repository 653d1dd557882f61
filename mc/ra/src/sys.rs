use crate::model::*;
use cosmwasm_std::{from_json, Binary, Deps, DepsMut, Env, MessageInfo, Reply};
use mchost::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub struct Ra;
impl Contract for Ra {
    fn execute(&self, d: DepsMut, e: Env, i: MessageInfo, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        stargaze_reserve_auction::execute::execute(d, e, i, m).map(norm).map_err(|e| e.to_string())
    }
    fn sudo(&self, d: DepsMut, e: Env, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        stargaze_reserve_auction::sudo::sudo(d, e, m).map(norm).map_err(|e| e.to_string())
    }
    fn instantiate(&self, d: DepsMut, e: Env, i: MessageInfo, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        stargaze_reserve_auction::instantiate::instantiate(d, e, i, m).map(norm).map_err(|e| e.to_string())
    }
    fn migrate(&self, d: DepsMut, e: Env, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        stargaze_reserve_auction::migrate::migrate(d, e, m).map(norm).map_err(|e| e.to_string())
    }
    fn reply(&self, _: DepsMut, _: Env, _: Reply) -> Result<NResp, String> {
        Err("no reply entry point".into())
    }
    fn query(&self, d: Deps, e: Env, m: &[u8]) -> Result<Binary, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        stargaze_reserve_auction::query::query(d, e, m).map_err(|e| e.to_string())
    }
}

#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
pub struct Universe {
    pub nfts: Vec<Key>,
    pub sellers: Vec<String>,
}

#[derive(Clone, Default)]
pub struct St {
    pub w: World,
    /// the same, had it been migrated
    pub twin: Option<World>,
    pub m: Arc<M>,
    pub u: Arc<Universe>,
}

pub const RICH: u128 = 1_000_000_000_000_000_000_000_000_000_000;
pub const STARS: &str = "ustars";
pub const ATOM: &str = "uatom";
pub const OTHER: &str = "uosmo";
pub const DENOMS: &[&str] = &[STARS, ATOM, OTHER];

/// what users hold does not matter (they are rich), nor does what fair burn has received
fn canon(w: &mut World) {
    let e = w.env_mut();
    let users: Vec<String> = e.bank.keys().cloned().collect();
    for u in users {
        if u == CONTRACT {
            continue;
        }
        if u.starts_with("fairburn") {
            e.bank.remove(&u);
            continue;
        }
        let m = e.bank.get_mut(&u).unwrap();
        m.clear();
        for d in DENOMS {
            m.insert(d.to_string(), RICH);
        }
    }
}

/// Auctions and settings as the contract reports them (point queries).
pub struct Seen {
    pub auctions: BTreeMap<Key, Value>,
    pub config: Value,
    pub mins: Value,
    pub errors: Vec<String>,
}

pub fn observe(w: &World, u: &Universe, m: &M) -> Seen {
    let mut s = Seen { auctions: Default::default(), config: Value::Null, mins: Value::Null, errors: vec![] };
    let mut errors = vec![];
    let mut q = |m: Value| -> Value {
        match w.query(&Ra, &m) {
            Ok(v) => v,
            Err(e) => {
                errors.push(format!("query {m} failed: {e}"));
                Value::Null
            }
        }
    };
    let keys: BTreeSet<&Key> = u.nfts.iter().chain(m.auctions.keys()).collect();
    for k in keys {
        let v = q(json!({"auction": {"collection": k.0, "token_id": k.1}}));
        if !v.is_null() {
            s.auctions.insert(k.clone(), v);
        }
    }
    s.config = q(json!({"config": {}}));
    s.mins = q(json!({"min_reserve_prices": {"query_options": {"limit": 100}}}));
    s.errors = errors;
    s
}

pub struct Sys;

impl Sys {
    fn step_one(&self, s: &St, op: &Op) -> StepOut<St> {
        let Some(c) = call(op) else {
            return match self.env_op(s, op) {
                None => StepOut { next: None, discs: vec![], outcome: Outcome::Disabled },
                Some(n) => StepOut { next: Some(n), discs: vec![], outcome: Outcome::Accepted },
            };
        };
        let mut later;
        let mut s = s;
        if let Op::Block(d) = op {
            later = s.clone();
            let e = later.w.env_mut();
            e.time += d;
            s = &later;
        }
        let kind = self.op_kind(op);
        let exp = Ctx { m: &s.m, env: &s.w.env }.expect(op);
        let mut discs: Vec<Disc> = vec![];
        let mut add = |mut tags: Tags, sig: &str, what: String| {
            tags.sort();
            tags.dedup();
            discs.push(Disc { tags, sig: format!("{kind}:{sig}"), what });
        };
        let (w2, log) = match s.w.call(&Ra, &c) {
            Err(e) => {
                if exp.reject.is_empty() && exp.may.is_none() {
                    add(
                        exp.accept_tags.clone(),
                        &format!("refused{}", exp.case),
                        format!("{kind} has to be accepted but failed: {e}"),
                    );
                }
                return StepOut { next: None, discs, outcome: Outcome::Rejected };
            }
            Ok(x) => x,
        };
        if !exp.reject.is_empty() {
            let mut t: Tags = exp.reject.iter().flat_map(|x| x.1.iter().copied()).collect();
            let why: Vec<&str> = exp.reject.iter().map(|x| x.0).collect();
            let seen = observe(&w2, &s.u, &s.m);
            if s.m.live && escrow_off(&w2, &seen).is_some() {
                t.push("R01");
            }
            add(t, "accepted", format!("{kind} was accepted although: {}", why.join("; ")));
            return StepOut { next: self.adopt(s, w2, (*s.m).clone()), discs, outcome: Outcome::Accepted };
        }
        let mut best: Option<(Vec<Disc>, M)> = None;
        for o in &exp.outs {
            let seen = observe(&w2, &s.u, &o.m);
            let mut ds = self.compare(s, &w2, &kind, &exp, o, &seen);
            let evs = events(op, &s.m, w2.env.time, o);
            if let Some(x) = events_off(&evs, EVENTS, &log.events) {
                ds.push(Disc { tags: vec!["R11"], sig: format!("{kind}:events"), what: format!("{kind}: {x}") });
            }
            if ds.is_empty() {
                let mut w2 = w2.clone();
                canon(&mut w2);
                return StepOut {
                    next: Some(St { w: w2, m: Arc::new(o.m.clone()), u: s.u.clone(), twin: s.twin.clone() }),
                    discs: vec![],
                    outcome: Outcome::Accepted,
                };
            }
            if best.as_ref().map_or(true, |b| ds.len() < b.0.len()) {
                best = Some((ds, o.m.clone()));
            }
        }
        let (discs, m) = best.unwrap();
        StepOut { next: self.adopt(s, w2, m), discs, outcome: Outcome::Accepted }
    }

    fn env_op(&self, s: &St, op: &Op) -> Option<St> {
        let mut n = s.clone();
        match op {
            Op::Universe { nfts, sellers } => {
                let mut u = Universe { sellers: sellers.clone(), ..Default::default() };
                for (c, ts) in nfts {
                    for t in ts {
                        u.nfts.push((c.clone(), t.clone()));
                    }
                }
                n.u = Arc::new(u);
            }
            Op::Fund(v) => {
                for a in v {
                    for d in DENOMS {
                        n.w.env_mut().fund(a, d, RICH);
                    }
                }
            }
            Op::Coll { addr, royalty, start, plain } => {
                n.w.env_mut().colls.insert(
                    addr.clone(),
                    Coll { royalty: royalty.clone().map(|(a, s)| (a, s.0)), start_trading: *start, plain: *plain },
                );
            }
            Op::Mint { coll, tok, owner } => {
                let k = (coll.clone(), tok.clone());
                if n.w.env.nfts.contains_key(&k) {
                    return None;
                }
                n.w.env_mut().nfts.insert(k, Nft { owner: owner.clone(), approvals: Default::default() });
            }
            Op::At(t) => {
                if n.w.env.time >= *t {
                    return None;
                }
                n.w.env_mut().time = *t;
            }
            Op::Skip(d) => n.w.env_mut().time += d,
            Op::Approve { coll, tok, until } => {
                let k = (coll.clone(), tok.clone());
                let x = until.map_or(Expiry::Never, Expiry::AtTime);
                let nft = n.w.env.nfts.get(&k)?;
                if nft.owner == CONTRACT || nft.approvals.get(CONTRACT) == Some(&x) || x.expired(n.w.env.time) {
                    return None;
                }
                n.w.env_mut().nfts.get_mut(&k).unwrap().approvals.insert(CONTRACT.into(), x);
            }
            Op::Revoke { coll, tok } => {
                let k = (coll.clone(), tok.clone());
                if !n.w.env.nfts.get(&k)?.approvals.contains_key(CONTRACT) {
                    return None;
                }
                n.w.env_mut().nfts.get_mut(&k).unwrap().approvals.remove(CONTRACT);
            }
            Op::Transfer { coll, tok, to } => {
                let k = (coll.clone(), tok.clone());
                let o = &n.w.env.nfts.get(&k)?.owner;
                if o == to || o == CONTRACT {
                    return None;
                }
                let o = n.w.env_mut().nfts.get_mut(&k).unwrap();
                o.owner = to.clone();
                o.approvals.clear();
            }
            Op::Twin => {
                if n.twin.is_some() {
                    return None;
                }
                let mut x = n.w.call(&Ra, &Call::Migrate(json!({}))).ok()?.0;
                canon(&mut x);
                n.twin = Some(x);
            }
            _ => unreachable!(),
        }
        Some(n)
    }

    /// the state the code has arrived at, with the orders and settings it reports
    fn adopt(&self, s: &St, mut w: World, mut m: M) -> Option<St> {
        if !m.live {
            return None;
        }
        let seen = observe(&w, &s.u, &m);
        m.adopt(&seen.auctions, &seen.config, &seen.mins)?;
        canon(&mut w);
        Some(St { w, m: Arc::new(m), u: s.u.clone(), twin: s.twin.clone() })
    }

    /// every way in which the new state differs from this allowed outcome
    fn compare(&self, s: &St, w2: &World, kind: &str, exp: &Exp, o: &Out, seen: &Seen) -> Vec<Disc> {
        let mut discs: Vec<Disc> = vec![];
        let mut add = |mut tags: Tags, sig: &str, what: String| {
            tags.sort();
            tags.dedup();
            discs.push(Disc { tags, sig: format!("{kind}:{sig}"), what });
        };
        let users: BTreeSet<String> =
            s.w.env.bank.keys().chain(w2.env.bank.keys()).cloned().chain(o.deltas.keys().map(|k| k.0.clone())).collect();
        for u in users {
            let mut ds: BTreeSet<&str> = DENOMS.iter().copied().collect();
            ds.extend(w2.env.bank.get(&u).into_iter().flat_map(|m| m.keys().map(|s| s.as_str())));
            for d in ds {
                let b = s.w.env.balance(&u, d);
                let a = w2.env.balance(&u, d);
                let want = b as i128 + o.deltas.get(&(u.clone(), d.to_string())).copied().unwrap_or(0);
                if a as i128 != want {
                    let mut t = exp.bank_tags.clone();
                    if u == CONTRACT {
                        t.push("R01");
                    }
                    add(t, "money", format!("{kind}: {u} should have {want}{d} and has {a} (had {b})"));
                }
            }
        }
        if !w2.env.burned.is_empty() || !w2.env.pool.is_empty() {
            add(exp.bank_tags.clone(), "burn", format!("{kind}: coins were burned directly"));
        }
        for (k, n) in &s.w.env.nfts {
            let want = Some(o.nfts.get(k).map_or(n.owner.as_str(), |x| x.as_str()));
            let got = w2.env.owner(&k.0, &k.1);
            if got != want {
                let mut t = exp.table_tags.clone();
                t.push("R01");
                add(t, "nft", format!("{kind}: the owner of {k:?} should be {want:?} and is {got:?}"));
            }
        }
        for e in &seen.errors {
            add(vec!["R09"], "query", e.clone());
        }
        if let Some(x) = escrow_off(w2, seen) {
            let mut t: Tags = vec!["R01"];
            t.extend(exp.bank_tags.iter().copied());
            add(t, "escrow", format!("{kind}: {x}"));
        }
        let want: BTreeMap<_, _> = o.m.auctions.iter().map(|(k, a)| (k.clone(), a.json())).collect();
        if let Some(d) = diff(&want, &seen.auctions) {
            let mut t = exp.table_tags.clone();
            t.push("R09");
            add(t, "auctions", format!("{kind}: auctions differ: {d}"));
        }
        let want = o.m.params.json();
        if want != seen.config {
            let mut t = exp.table_tags.clone();
            t.push("R10");
            add(t, "config", format!("{kind}: the settings should be {want} and are {}", seen.config));
        }
        let want: Vec<Value> =
            o.m.mins.iter().map(|(d, a)| json!({"denom": d, "amount": a.to_string()})).collect();
        if json!(want) != seen.mins {
            let mut t = exp.table_tags.clone();
            t.extend(["R09", "R10"]);
            add(t, "mins", format!("{kind}: the minimum prices should be {} and are {}", json!(want), seen.mins));
        }
        discs
    }
}

impl System for Sys {
    type St = St;
    type Op = Op;
    fn name(&self) -> &'static str {
        "ra"
    }
    fn empty(&self) -> St {
        St::default()
    }
    fn key(&self, s: &St) -> u128 {
        hash128(&(&s.w, &s.m, &s.twin))
    }
    fn op_kind(&self, op: &Op) -> String {
        let s = format!("{op:?}");
        s.split([' ', '(', '{']).next().unwrap_or("").to_string()
    }

    fn step(&self, s: &St, op: &Op) -> StepOut<St> {
        let mut out = self.step_one(s, op);
        let Some(t) = &s.twin else { return out };
        let (mut a, mut b) = (s.w.clone(), t.clone());
        if let Op::Block(d) = op {
            a.env_mut().time += d;
            b.env_mut().time += d;
        }
        let Some(c) = call(op) else {
            // the surroundings are the same for both
            if let Some(n) = &mut out.next {
                n.twin.as_mut().unwrap().env = n.w.env.clone();
            }
            return out;
        };
        let (t2, diff) = twin_call(&Ra, &a, &b, &c, &|w| {
                let x = observe(w, &s.u, &s.m);
                format!("{:?}", (x.auctions, x.config, x.mins, x.errors))
            });
        if let Some(x) = diff {
            let kind = self.op_kind(op);
            out.discs.push(Disc { tags: vec!["R10"], sig: format!("{kind}:twin"), what: format!("{kind} {x}") });
        }
        match (&mut out.next, t2) {
            (Some(n), Some(mut x)) => {
                canon(&mut x);
                n.twin = Some(x);
            }
            (n, _) => *n = None,
        }
        out
    }

    fn inspect(&self, s: &St, level: u32) -> (u64, Vec<Disc>) {
        crate::queries::battery(s, level)
    }
}

fn escrow_off(w: &World, seen: &Seen) -> Option<String> {
    let mut sum: BTreeMap<String, u128> = BTreeMap::new();
    for (k, a) in &seen.auctions {
        if w.env.owner(&k.0, &k.1) != Some(CONTRACT) {
            return Some(format!("the NFT {k:?} of a live auction belongs to {:?}", w.env.owner(&k.0, &k.1)));
        }
        let c = &a["high_bid"]["coin"];
        if let (Some(d), Some(x)) = (c["denom"].as_str(), c["amount"].as_str()) {
            *sum.entry(d.into()).or_insert(0) += x.parse::<u128>().unwrap_or(0);
        }
    }
    for (k, n) in &w.env.nfts {
        if n.owner == CONTRACT && !seen.auctions.contains_key(k) {
            return Some(format!("the contract holds the NFT {k:?} without an auction"));
        }
    }
    let bal = w.env.bank.get(CONTRACT).cloned().unwrap_or_default();
    sum.retain(|_, a| *a > 0);
    if bal != sum {
        return Some(format!("the contract holds {bal:?} but the high bids add up to {sum:?}"));
    }
    None
}

fn diff<K: Ord + std::fmt::Debug>(want: &BTreeMap<K, Value>, got: &BTreeMap<K, Value>) -> Option<String> {
    for (k, v) in want {
        match got.get(k) {
            None => return Some(format!("{k:?} is missing")),
            Some(g) if g != v => return Some(format!("{k:?} should be {v} and is {g}")),
            _ => {}
        }
    }
    for (k, g) in got {
        if !want.contains_key(k) {
            return Some(format!("{k:?} should not exist but is {g}"));
        }
    }
    None
}
