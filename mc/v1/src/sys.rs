use crate::model::*;
use cosmwasm_std::{from_json, Binary, Deps, DepsMut, Env, MessageInfo, Reply};
use mchost::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

pub struct V1;
impl Contract for V1 {
    fn execute(&self, d: DepsMut, e: Env, i: MessageInfo, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        sg_marketplace::execute::execute(d, e, i, m).map(norm).map_err(|e| e.to_string())
    }
    fn sudo(&self, d: DepsMut, e: Env, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        sg_marketplace::sudo::sudo(d, e, m).map(norm).map_err(|e| e.to_string())
    }
    fn instantiate(&self, d: DepsMut, e: Env, i: MessageInfo, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        sg_marketplace::execute::instantiate(d, e, i, m).map(norm).map_err(|e| e.to_string())
    }
    fn migrate(&self, d: DepsMut, e: Env, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        sg_marketplace::execute::migrate(d, e, m).map(norm).map_err(|e| e.to_string())
    }
    fn reply(&self, d: DepsMut, e: Env, r: Reply) -> Result<NResp, String> {
        sg_marketplace::execute::reply(d, e, r).map(norm).map_err(|e| e.to_string())
    }
    fn query(&self, d: Deps, e: Env, m: &[u8]) -> Result<Binary, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        sg_marketplace::query::query(d, e, m).map_err(|e| e.to_string())
    }
}

#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
pub struct Universe {
    pub nfts: Vec<(String, u32)>,
    pub colls: Vec<String>,
    pub bidders: Vec<String>,
}

#[derive(Clone, Default)]
pub struct St {
    pub w: World,
    /// the same, had it been migrated
    pub twin: Option<World>,
    pub m: Arc<M>,
    pub u: Arc<Universe>,
}

pub const RICH: u128 = 1_000_000_000_000_000_000_000_000_000_000;
pub const OTHER: &str = "uatom";

fn canon(w: &mut World) {
    let e = w.env_mut();
    let users: Vec<String> = e.bank.keys().cloned().collect();
    for u in users {
        if u == CONTRACT {
            continue;
        }
        let m = e.bank.get_mut(&u).unwrap();
        m.clear();
        m.insert(D.into(), RICH);
        m.insert(OTHER.into(), RICH);
    }
    e.burned.clear();
    e.pool.clear();
}

fn uniq(mut v: Tags) -> Tags {
    v.sort();
    v.dedup();
    v
}

/// Orders and settings as the contract reports them (point queries).
pub struct Seen {
    pub asks: BTreeMap<(String, u32), Value>,
    pub bids: BTreeMap<(String, u32, String), Value>,
    pub cbids: BTreeMap<(String, String), Value>,
    pub params: Value,
    pub hooks: Vec<Value>,
    pub version: Value,
    pub errors: Vec<String>,
}

/// looks at every order of the universe, and at every order the model knows of
pub fn observe(w: &World, u0: &Universe, m: &M) -> Seen {
    let mut nfts: BTreeSet<(String, u32)> = u0.nfts.iter().cloned().collect();
    let mut colls: BTreeSet<String> = u0.colls.iter().cloned().collect();
    let mut bidders: BTreeSet<String> = u0.bidders.iter().cloned().collect();
    for k in m.asks.keys() {
        nfts.insert(k.clone());
    }
    for (c, t, b) in m.bids.keys() {
        nfts.insert((c.clone(), *t));
        bidders.insert(b.clone());
    }
    for (c, b) in m.cbids.keys() {
        colls.insert(c.clone());
        bidders.insert(b.clone());
    }
    let u = Universe {
        nfts: nfts.into_iter().collect(),
        colls: colls.into_iter().collect(),
        bidders: bidders.into_iter().collect(),
    };
    let mut s = Seen {
        asks: Default::default(),
        bids: Default::default(),
        cbids: Default::default(),
        params: Value::Null,
        hooks: vec![],
        version: Value::Null,
        errors: vec![],
    };
    let mut q = |m: Value| -> Value {
        match w.query(&V1, &m) {
            Ok(v) => v,
            Err(e) => {
                s.errors.push(format!("query {m} failed: {e}"));
                Value::Null
            }
        }
    };
    let mut asks = BTreeMap::new();
    let mut bids = BTreeMap::new();
    let mut cbids = BTreeMap::new();
    for (c, t) in &u.nfts {
        let v = q(json!({"ask": {"collection": c, "token_id": t}}));
        if !v["ask"].is_null() {
            asks.insert((c.clone(), *t), v["ask"].clone());
        }
        for b in &u.bidders {
            let v = q(json!({"bid": {"collection": c, "token_id": t, "bidder": b}}));
            if !v["bid"].is_null() {
                bids.insert((c.clone(), *t, b.clone()), v["bid"].clone());
            }
        }
    }
    for c in &u.colls {
        for b in &u.bidders {
            let v = q(json!({"collection_bid": {"collection": c, "bidder": b}}));
            if !v["bid"].is_null() {
                cbids.insert((c.clone(), b.clone()), v["bid"].clone());
            }
        }
    }
    let mut params = q(json!({"params": {}}))["params"].clone();
    if let Some(a) = params["operators"].as_array_mut() {
        a.sort_by_key(|x| x.to_string());
    }
    let hooks = vec![q(json!({"ask_hooks": {}})), q(json!({"bid_hooks": {}})), q(json!({"sale_hooks": {}}))];
    s.asks = asks;
    s.bids = bids;
    s.cbids = cbids;
    s.params = params;
    s.hooks = hooks;
    s.version = w
        .store
        .0
        .get(b"contract_info".as_slice())
        .and_then(|b| serde_json::from_slice(b).ok())
        .unwrap_or(Value::Null);
    s
}

fn price_of(v: &Value) -> u128 {
    v["price"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0)
}

pub struct Sys;

impl Sys {
    fn step_one(&self, s: &St, op: &Op) -> StepOut<St> {
        let Some(c) = call(op) else {
            return match self.env_op(s, op) {
                None => StepOut { next: None, discs: vec![], outcome: Outcome::Disabled },
                Some(n) => StepOut { next: Some(n), discs: vec![], outcome: Outcome::Accepted },
            };
        };
        let kind = self.op_kind(op);
        let exp = Ctx { m: &s.m, env: &s.w.env }.expect(op);
        let r = s.w.call(&V1, &c);
        let mut discs: Vec<Disc> = vec![];
        let mut add = |tags: Tags, sig: &str, what: String| {
            discs.push(Disc { tags: uniq(tags), sig: format!("{kind}:{sig}"), what });
        };
        let (w2, log) = match r {
            Err(e) => {
                if exp.reject.is_empty() && exp.may.is_none() {
                    let mut t = exp.accept_tags.clone();
                    if t.is_empty() {
                        t.push("M07");
                    }
                    add(t, "refused", format!("{kind} has to be accepted but failed: {e}"));
                }
                return StepOut { next: None, discs, outcome: Outcome::Rejected };
            }
            Ok(x) => x,
        };
        if !exp.reject.is_empty() {
            let mut t: Tags = exp.reject.iter().flat_map(|x| x.1.iter().copied()).collect();
            let why: Vec<&str> = exp.reject.iter().map(|x| x.0).collect();
            // the sum invariant below may also be broken
            let seen = observe(&w2, &s.u, &s.m);
            if escrow_off(&w2, &seen).is_some() {
                t.push("M01");
            }
            add(t, "accepted", format!("{kind} was accepted although: {}", why.join("; ")));
            return StepOut { next: self.adopt(s, w2, (*s.m).clone(), &seen), discs, outcome: Outcome::Accepted };
        }
        let m2 = exp.m.unwrap();

        // ---- money
        let users: BTreeSet<&String> = s.w.env.bank.keys().chain(w2.env.bank.keys()).collect();
        for u in users {
            let b = s.w.env.balance(u, D);
            let a = w2.env.balance(u, D);
            let want = b as i128 + exp.deltas.get(u).copied().unwrap_or(0);
            if a as i128 != want {
                let mut t = exp.bank_tags.clone();
                if u == CONTRACT {
                    t.push("M01");
                }
                add(t, "money", format!("{kind}: {u} should have {want}{D} and has {a} (had {b})"));
            }
            let bo = s.w.env.balance(u, OTHER);
            let ao = w2.env.balance(u, OTHER);
            if bo != ao {
                let mut t = exp.bank_tags.clone();
                t.push("M01");
                add(t, "denom", format!("{kind}: {u}'s balance of {OTHER} went from {bo} to {ao}"));
            }
        }
        let sum = |m: &BTreeMap<String, u128>| m.get(D).copied().unwrap_or(0);
        let sunk = sum(&w2.env.burned) + sum(&w2.env.pool) - sum(&s.w.env.burned) - sum(&s.w.env.pool);
        if sunk != exp.sink {
            let mut t = exp.bank_tags.clone();
            t.push("M13");
            if exp.nft.is_none() {
                t.push("M06");
            } else {
                t.retain(|x| *x != "M13");
                t.push("M03");
            }
            add(t, "burn", format!("{kind}: {} should have been burned or sent to the pool, was {sunk}", exp.sink));
        }
        // ---- NFTs
        for (k, n) in &s.w.env.nfts {
            let want = match &exp.nft {
                Some((k2, to)) if k2 == k => Some(to.as_str()),
                _ => Some(n.owner.as_str()),
            };
            let got = w2.env.owner(&k.0, &k.1);
            if got != want {
                let mut t = exp.table_tags.clone();
                t.extend(["M04", "M06"]);
                add(t, "nft", format!("{kind}: the owner of {k:?} should be {want:?} and is {got:?}"));
            }
        }
        // ---- hooks
        let mut want: Vec<(String, Value)> = exp
            .hooks
            .iter()
            .filter(|(h, _)| s.w.env.hooks.get(h) == Some(&false))
            .cloned()
            .collect();
        let mut got = log.hooks.clone();
        let ord = |v: &(String, Value)| format!("{} {}", v.0, v.1);
        want.sort_by_key(ord);
        got.sort_by_key(ord);
        if want != got {
            let mut t: Tags = vec!["M11"];
            if matches!(op, Op::Migrate) {
                t.push("M15");
            }
            add(t, "hooks", format!("{kind}: hooks should have been told {} and were told {}", json!(want), json!(got)));
        }
        // ---- events
        if let Some(x) = events_off(&exp.evs, EVENTS, &log.events) {
            add(vec!["M16"], "events", format!("{kind}: {x}"));
        }
        // ---- orders and settings
        let seen = observe(&w2, &s.u, &m2);
        for e in &seen.errors {
            add(vec!["M10", "M14"], "query", e.clone());
        }
        if let Some(x) = escrow_off(&w2, &seen) {
            let mut t: Tags = vec!["M01"];
            t.extend(exp.bank_tags.iter().copied().filter(|x| *x != "M13"));
            add(t, "escrow", format!("{kind}: {x}"));
        }
        let tt = |extra: &[&'static str]| {
            let mut t = exp.table_tags.clone();
            t.extend(extra);
            t
        };
        let want: BTreeMap<_, _> = m2.asks.iter().map(|(k, a)| (k.clone(), a.json())).collect();
        if let Some(d) = diff(&want, &seen.asks) {
            add(tt(&["M14", "M10"]), "asks", format!("{kind}: asks differ: {d}"));
        }
        let want: BTreeMap<_, _> = m2.bids.iter().map(|(k, a)| (k.clone(), a.json())).collect();
        if let Some(d) = diff(&want, &seen.bids) {
            add(tt(&["M14", "M10", "M02"]), "bids", format!("{kind}: bids differ: {d}"));
        }
        let want: BTreeMap<_, _> = m2.cbids.iter().map(|(k, a)| (k.clone(), a.json())).collect();
        if let Some(d) = diff(&want, &seen.cbids) {
            add(tt(&["M14", "M10", "M02"]), "collection bids", format!("{kind}: collection bids differ: {d}"));
        }
        let want = m2.params.json();
        if want != seen.params {
            add(tt(&["M12"]), "params", format!("{kind}: params should be {want} and are {}", seen.params));
        }
        let hk = |v: &Vec<String>| json!({ "hooks": v.iter().collect::<BTreeSet<_>>() });
        let want = vec![hk(&m2.ask_hooks), hk(&m2.bid_hooks), hk(&m2.sale_hooks)];
        let got: Vec<Value> = seen
            .hooks
            .iter()
            .map(|v| {
                let mut v = v.clone();
                if let Some(a) = v["hooks"].as_array_mut() {
                    a.sort_by_key(|x| x.to_string());
                }
                v
            })
            .collect();
        if want != got {
            add(tt(&["M12", "M11"]), "hook list", format!("{kind}: hooks should be {want:?} and are {got:?}"));
        }
        let want = m2.version.as_ref().map_or(Value::Null, |(c, v)| json!({"contract": c, "version": v}));
        if want != seen.version {
            add(tt(&["M15"]), "version", format!("{kind}: stored version should be {want} and is {}", seen.version));
        }
        if !discs.is_empty() {
            return StepOut { next: self.adopt(s, w2, m2, &seen), discs, outcome: Outcome::Accepted };
        }
        let mut w2 = w2;
        canon(&mut w2);
        StepOut { next: Some(St { w: w2, m: Arc::new(m2), u: s.u.clone(), twin: s.twin.clone() }), discs, outcome: Outcome::Accepted }
    }

    fn env_op(&self, s: &St, op: &Op) -> Option<St> {
        let mut n = s.clone();
        let key = |c: &String, t: &u32| (c.clone(), t.to_string());
        match op {
            Op::Universe { nfts, bidders } => {
                let mut u = Universe { bidders: bidders.clone(), ..Default::default() };
                for (c, ts) in nfts {
                    u.colls.push(c.clone());
                    for t in ts {
                        u.nfts.push((c.clone(), *t));
                    }
                }
                n.u = Arc::new(u);
            }
            Op::Fund(v) => {
                for a in v {
                    n.w.env_mut().fund(a, D, RICH);
                    n.w.env_mut().fund(a, OTHER, RICH);
                }
            }
            Op::Coll { addr, royalty, start, plain } => {
                n.w.env_mut().colls.insert(
                    addr.clone(),
                    Coll { royalty: royalty.clone().map(|(a, s)| (a, s.0)), start_trading: *start, plain: *plain },
                );
            }
            Op::Mint { coll, tok, owner } => {
                let k = key(coll, tok);
                if n.w.env.nfts.contains_key(&k) {
                    return None;
                }
                n.w.env_mut().nfts.insert(k, Nft { owner: owner.clone(), approvals: Default::default() });
            }
            Op::Hook { addr, fails } => {
                if n.w.env.hooks.get(addr) == Some(fails) {
                    return None;
                }
                n.w.env_mut().hooks.insert(addr.clone(), *fails);
            }
            Op::At(t) => {
                if n.w.env.time >= *t {
                    return None;
                }
                n.w.env_mut().time = *t;
            }
            Op::Approve { coll, tok, until } => {
                let k = key(coll, tok);
                let x = until.map_or(Expiry::Never, Expiry::AtTime);
                let nft = n.w.env.nfts.get(&k)?;
                if nft.approvals.get(CONTRACT) == Some(&x) || x.expired(n.w.env.time) {
                    return None;
                }
                n.w.env_mut().nfts.get_mut(&k).unwrap().approvals.insert(CONTRACT.into(), x);
            }
            Op::Revoke { coll, tok } => {
                let k = key(coll, tok);
                if !n.w.env.nfts.get(&k)?.approvals.contains_key(CONTRACT) {
                    return None;
                }
                n.w.env_mut().nfts.get_mut(&k).unwrap().approvals.remove(CONTRACT);
            }
            Op::Transfer { coll, tok, to } => {
                let k = key(coll, tok);
                if n.w.env.nfts.get(&k)?.owner == *to {
                    return None;
                }
                let o = n.w.env_mut().nfts.get_mut(&k).unwrap();
                o.owner = to.clone();
                o.approvals.clear();
            }
            Op::BurnNft { coll, tok } => {
                let k = key(coll, tok);
                n.w.env.nfts.get(&k)?;
                n.w.env_mut().nfts.remove(&k);
            }
            Op::StoredVersion { contract, version } => {
                let st = Arc::make_mut(&mut n.w.store);
                st.0.insert(
                    b"contract_info".to_vec(),
                    serde_json::to_vec(&json!({"contract": contract, "version": version})).unwrap(),
                );
                Arc::make_mut(&mut n.m).version = Some((contract.clone(), version.clone()));
            }
            Op::Twin => {
                if n.twin.is_some() {
                    return None;
                }
                let mut x = n.w.call(&V1, &Call::Migrate(json!({}))).ok()?.0;
                canon(&mut x);
                n.twin = Some(x);
            }
            _ => unreachable!(),
        }
        Some(n)
    }
}

impl Sys {
    /// the state the code has arrived at, with the orders and settings it reports
    fn adopt(&self, s: &St, mut w: World, mut m: M, seen: &Seen) -> Option<St> {
        if !m.live {
            return None;
        }
        m.adopt(&seen.asks, &seen.bids, &seen.cbids, &seen.params, &seen.hooks)?;
        if let (Some(c), Some(v)) = (seen.version["contract"].as_str(), seen.version["version"].as_str()) {
            m.version = Some((c.into(), v.into()));
        }
        canon(&mut w);
        Some(St { w, m: Arc::new(m), u: s.u.clone(), twin: s.twin.clone() })
    }
}

impl System for Sys {
    type St = St;
    type Op = Op;
    fn name(&self) -> &'static str {
        "v1"
    }
    fn empty(&self) -> St {
        St::default()
    }
    fn key(&self, s: &St) -> u128 {
        struct K<'a>(&'a St);
        impl<'a> Hash for K<'a> {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.0.w.hash(h);
                self.0.m.hash(h);
                self.0.twin.hash(h);
            }
        }
        hash128(&K(s))
    }
    fn op_kind(&self, op: &Op) -> String {
        let s = format!("{op:?}");
        let n = s.split([' ', '(', '{']).next().unwrap_or("").to_string();
        match op {
            Op::Bid { kind, .. } => format!("{n}{kind}"),
            _ => n,
        }
    }

    fn features(&self, s: &St, op: &Op) -> Vec<(&'static str, u8)> {
        crate::features::of(s, op)
    }

    fn step(&self, s: &St, op: &Op) -> StepOut<St> {
        let mut out = self.step_one(s, op);
        let Some(t) = &s.twin else { return out };
        let (a, b) = (s.w.clone(), t.clone());
        let Some(c) = call(op) else {
            // the surroundings are the same for both
            if let Some(n) = &mut out.next {
                n.twin.as_mut().unwrap().env = n.w.env.clone();
            }
            return out;
        };
        let (t2, diff) = twin_call(&V1, &a, &b, &c, &|w| {
                let x = observe(w, &s.u, &s.m);
                format!("{:?}", (x.asks, x.bids, x.cbids, x.params, x.hooks, x.errors))
            });
        if let Some(x) = diff {
            let kind = self.op_kind(op);
            out.discs.push(Disc { tags: vec!["M15"], sig: format!("{kind}:twin"), what: format!("{kind} {x}") });
        }
        match (&mut out.next, t2) {
            (Some(n), Some(mut x)) => {
                canon(&mut x);
                n.twin = Some(x);
            }
            (n, _) => *n = None,
        }
        out
    }

    fn inspect(&self, s: &St, level: u32) -> (u64, Vec<Disc>) {
        crate::queries::battery(s, level)
    }
}

fn escrow_off(w: &World, seen: &Seen) -> Option<String> {
    let sum: u128 = seen.bids.values().map(price_of).sum::<u128>() + seen.cbids.values().map(price_of).sum::<u128>();
    let bal = w.env.bank.get(CONTRACT).cloned().unwrap_or_default();
    let have = bal.get(D).copied().unwrap_or(0);
    if have != sum || bal.iter().any(|(d, a)| d != D && *a > 0) {
        return Some(format!("the contract holds {bal:?} but the live bids add up to {sum}{D}"));
    }
    None
}

fn diff<K: Ord + std::fmt::Debug>(want: &BTreeMap<K, Value>, got: &BTreeMap<K, Value>) -> Option<String> {
    for (k, v) in want {
        match got.get(k) {
            None => return Some(format!("{k:?} is missing")),
            Some(g) if g != v => return Some(format!("{k:?} should be {v} and is {g}")),
            _ => {}
        }
    }
    for (k, g) in got {
        if !want.contains_key(k) {
            return Some(format!("{k:?} should not exist but is {g}"));
        }
    }
    None
}
