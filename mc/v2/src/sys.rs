use crate::model::*;
use cosmwasm_std::{from_json, Binary, Deps, DepsMut, Env, MessageInfo, Reply};
use mchost::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub struct V2;
impl Contract for V2 {
    fn execute(&self, d: DepsMut, e: Env, i: MessageInfo, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        stargaze_marketplace_v2::execute::execute(d, e, i, m).map(norm).map_err(|e| e.to_string())
    }
    fn sudo(&self, _: DepsMut, _: Env, _: &[u8]) -> Result<NResp, String> {
        Err("no sudo entry point".into())
    }
    fn instantiate(&self, d: DepsMut, e: Env, i: MessageInfo, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        stargaze_marketplace_v2::instantiate::instantiate(d, e, i, m).map(norm).map_err(|e| e.to_string())
    }
    fn migrate(&self, d: DepsMut, e: Env, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        stargaze_marketplace_v2::migrate::migrate(d, e, m).map(norm).map_err(|e| e.to_string())
    }
    fn reply(&self, _: DepsMut, _: Env, _: Reply) -> Result<NResp, String> {
        Err("no reply entry point".into())
    }
    fn query(&self, d: Deps, e: Env, m: &[u8]) -> Result<Binary, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        stargaze_marketplace_v2::query::query(d, e, m).map_err(|e| e.to_string())
    }
}

#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
pub struct Universe {
    pub nfts: Vec<Key>,
    pub users: Vec<String>,
}
impl Universe {
    pub fn colls(&self) -> BTreeSet<&str> {
        self.nfts.iter().map(|k| k.0.as_str()).collect()
    }
}

#[derive(Clone, Default)]
pub struct St {
    pub w: World,
    /// the same, had it been migrated
    pub twin: Option<World>,
    pub m: Arc<M>,
    pub u: Arc<Universe>,
}

pub const RICH: u128 = 1_000_000_000_000_000_000_000_000_000_000;
pub const STARS: &str = "ustars";
pub const ATOM: &str = "uatom";
pub const OTHER: &str = "uosmo";
pub const DENOMS: &[&str] = &[STARS, ATOM, OTHER];

/// what users hold does not matter (they are rich)
fn canon(w: &mut World) {
    let e = w.env_mut();
    let users: Vec<String> = e.bank.keys().cloned().collect();
    for u in users {
        if u == CONTRACT {
            continue;
        }
        let m = e.bank.get_mut(&u).unwrap();
        m.clear();
        for d in DENOMS {
            m.insert(d.to_string(), RICH);
        }
    }
}

pub const BY_CREATOR: [&str; 3] =
    ["asks_by_creator_collection", "bids_by_creator_collection", "collection_bids_by_creator_collection"];
pub const POINT: [&str; 3] = ["ask", "bid", "collection_bid"];
pub const BATCH: [&str; 3] = ["asks", "bids", "collection_bids"];
pub const WORD: [&str; 3] = ["asks", "bids", "collection bids"];

/// orders and settings as the contract reports them
pub struct Seen {
    /// point queries of the ids known to the model
    pub point: [BTreeMap<String, Value>; 3],
    /// the listings by creator and collection
    pub listed: [BTreeMap<String, Value>; 3],
    pub config: Value,
    pub denoms: BTreeMap<String, String>,
    pub errors: Vec<String>,
}

pub fn observe(w: &World, u: &Universe, ids: &[BTreeSet<String>; 3]) -> Seen {
    let mut s = Seen {
        point: Default::default(),
        listed: Default::default(),
        config: Value::Null,
        denoms: Default::default(),
        errors: vec![],
    };
    let mut errors = vec![];
    let mut q = |m: Value| -> Value {
        match w.query(&V2, &m) {
            Ok(v) => v,
            Err(e) => {
                errors.push(format!("query {m} failed: {e}"));
                Value::Null
            }
        }
    };
    let colls = u.colls();
    for k in KINDS {
        let i = k as usize;
        for x in &u.users {
            for c in &colls {
                let v = q(json!({BY_CREATOR[i]: {"creator": x, "collection": c, "query_options": {"limit": 100}}}));
                for o in v.as_array().into_iter().flatten() {
                    s.listed[i].insert(o["id"].as_str().unwrap_or("").into(), o.clone());
                }
            }
        }
        let known: BTreeSet<&String> = ids[i].iter().chain(s.listed[i].keys()).collect();
        for id in known {
            let v = q(json!({ POINT[i]: id }));
            if !v.is_null() {
                s.point[i].insert(id.clone(), v);
            }
        }
    }
    s.config = q(json!({"config": {}}));
    for c in colls {
        if let Some(d) = q(json!({"collection_denom": {"collection": c}})).as_str() {
            s.denoms.insert(c.into(), d.into());
        }
    }
    s.errors = errors;
    s
}

fn ids(m: &M) -> [BTreeSet<String>; 3] {
    let mut r: [BTreeSet<String>; 3] = Default::default();
    for k in KINDS {
        let i = k as usize;
        r[i].extend(m.orders[i].iter().map(|o| o.id.clone()));
        r[i].extend(m.dead[i].clone());
    }
    r
}

pub struct Sys;

impl Sys {
    fn step_one(&self, s: &St, op: &Op) -> StepOut<St> {
        let c = match call(&s.m, op) {
            Msg::Disabled => return StepOut { next: None, discs: vec![], outcome: Outcome::Disabled },
            Msg::Env => {
                return match self.env_op(s, op) {
                    None => StepOut { next: None, discs: vec![], outcome: Outcome::Disabled },
                    Some(n) => StepOut { next: Some(n), discs: vec![], outcome: Outcome::Accepted },
                }
            }
            Msg::Call(c) => c,
        };
        let kind = self.op_kind(op);
        let exp = Ctx { m: &s.m, env: &s.w.env }.expect(op);
        let mut discs: Vec<Disc> = vec![];
        let mut add = |mut tags: Tags, sig: &str, what: String| {
            tags.sort();
            tags.dedup();
            discs.push(Disc { tags, sig: format!("{kind}:{sig}"), what });
        };
        let (w2, log) = match s.w.call(&V2, &c) {
            Err(e) => {
                if exp.reject.is_empty() && exp.may.is_none() {
                    add(exp.accept_tags.clone(), "refused", format!("{kind} has to be accepted but failed: {e}"));
                }
                return StepOut { next: None, discs, outcome: Outcome::Rejected };
            }
            Ok(x) => x,
        };
        if !exp.reject.is_empty() {
            let mut t: Tags = exp.reject.iter().flat_map(|x| x.1.iter().copied()).collect();
            let why: Vec<&str> = exp.reject.iter().map(|x| x.0).collect();
            if s.m.live {
                let seen = observe(&w2, &s.u, &ids(&s.m));
                if money_off(&w2, &seen).is_some() {
                    t.push("V01");
                }
                if nfts_off(&w2, &seen).is_some() {
                    t.push("V02");
                }
            }
            add(t, "accepted", format!("{kind} was accepted although: {}", why.join("; ")));
            return StepOut { next: self.adopt(s, w2, (*s.m).clone()), discs, outcome: Outcome::Accepted };
        }
        let seen = observe(&w2, &s.u, &ids(&s.m));
        let mut best: Option<(Vec<Disc>, M)> = None;
        for o in &exp.outs {
            let mut o = o.clone();
            let mut ds = self.compare(s, &w2, &kind, &exp, &mut o, &seen);
            let mut evs = events(op, &s.m, &o.m);
            evs.append(&mut o.evs);
            if let Some(x) = events_off(&evs, EVENTS, &log.events) {
                ds.push(Disc { tags: vec!["V14"], sig: format!("{kind}:events"), what: format!("{kind}: {x}") });
            }
            if ds.is_empty() {
                let mut w2 = w2.clone();
                canon(&mut w2);
                return StepOut {
                    next: Some(St { w: w2, m: Arc::new(o.m), u: s.u.clone(), twin: s.twin.clone() }),
                    discs: vec![],
                    outcome: Outcome::Accepted,
                };
            }
            if best.as_ref().map_or(true, |b| ds.len() < b.0.len()) {
                best = Some((ds, o.m));
            }
        }
        let (discs, m) = best.expect("an outcome");
        StepOut { next: self.adopt(s, w2, m), discs, outcome: Outcome::Accepted }
    }

    fn env_op(&self, s: &St, op: &Op) -> Option<St> {
        let mut n = s.clone();
        let reg = |e: &Option<(String, U)>| e.clone().map(|(recipient, s)| RoyaltyReg { recipient, share: s.0 });
        match op {
            Op::Universe { nfts, users } => {
                let mut u = Universe { users: users.clone(), ..Default::default() };
                for (c, ts) in nfts {
                    for t in ts {
                        u.nfts.push((c.clone(), t.clone()));
                    }
                }
                n.u = Arc::new(u);
                n.w.env_mut().admin = Some("admin".into());
            }
            Op::Fund(v) => {
                for a in v {
                    for d in DENOMS {
                        n.w.env_mut().fund(a, d, RICH);
                    }
                }
            }
            Op::Coll { addr, royalty, start, plain } => {
                n.w.env_mut().colls.insert(
                    addr.clone(),
                    Coll { royalty: royalty.clone().map(|(a, s)| (a, s.0)), start_trading: *start, plain: *plain },
                );
            }
            Op::Mint { coll, tok, owner } => {
                let k = (coll.clone(), tok.clone());
                if n.w.env.nfts.contains_key(&k) {
                    return None;
                }
                n.w.env_mut().nfts.insert(k, Nft { owner: owner.clone(), approvals: Default::default() });
            }
            Op::At(t) => {
                if n.w.env.time >= *t {
                    return None;
                }
                n.w.env_mut().time = *t;
                n.w.env_mut().height = 1;
            }
            Op::Skip(d) => {
                n.w.env_mut().time += d;
                n.w.env_mut().height += 1;
            }
            Op::Approve { coll, tok, until } => {
                let k = (coll.clone(), tok.clone());
                let x = until.map_or(Expiry::Never, Expiry::AtTime);
                let nft = n.w.env.nfts.get(&k)?;
                if nft.owner == CONTRACT || nft.approvals.get(CONTRACT) == Some(&x) || x.expired(n.w.env.time) {
                    return None;
                }
                n.w.env_mut().nfts.get_mut(&k).unwrap().approvals.insert(CONTRACT.into(), x);
            }
            Op::Operator { coll, owner } => {
                let k = (coll.clone(), owner.clone(), CONTRACT.to_string());
                if n.w.env.operators.contains_key(&k) {
                    return None;
                }
                n.w.env_mut().operators.insert(k, Expiry::Never);
            }
            Op::Revoke { coll, tok } => {
                let k = (coll.clone(), tok.clone());
                if !n.w.env.nfts.get(&k)?.approvals.contains_key(CONTRACT) {
                    return None;
                }
                n.w.env_mut().nfts.get_mut(&k).unwrap().approvals.remove(CONTRACT);
            }
            Op::Transfer { coll, tok, to } => {
                let k = (coll.clone(), tok.clone());
                let o = &n.w.env.nfts.get(&k)?.owner;
                if o == to || o == CONTRACT {
                    return None;
                }
                let o = n.w.env_mut().nfts.get_mut(&k).unwrap();
                o.owner = to.clone();
                o.approvals.clear();
            }
            Op::RegDefault { coll, entry } => {
                let e = n.w.env_mut();
                match reg(entry) {
                    Some(x) => e.reg_default.insert(coll.clone(), x),
                    None => e.reg_default.remove(coll),
                };
            }
            Op::RegProtocol { coll, protocol, entry } => {
                let e = n.w.env_mut();
                let k = (coll.clone(), protocol.clone());
                match reg(entry) {
                    Some(x) => e.reg_protocol.insert(k, x),
                    None => e.reg_protocol.remove(&k),
                };
            }
            Op::Admin(a) => {
                if n.w.env.admin == *a {
                    return None;
                }
                n.w.env_mut().admin = a.clone();
            }
            Op::Twin => {
                if n.twin.is_some() {
                    return None;
                }
                let mut x = n.w.call(&V2, &Call::Migrate(json!({}))).ok()?.0;
                canon(&mut x);
                n.twin = Some(x);
            }
            _ => unreachable!(),
        }
        Some(n)
    }

    /// the state the code has arrived at, with the orders and settings it reports
    fn adopt(&self, s: &St, mut w: World, mut m: M) -> Option<St> {
        if !m.live {
            return None;
        }
        let seen = observe(&w, &s.u, &ids(&m));
        m.adopt(&seen.point, &seen.config, &seen.denoms)?;
        canon(&mut w);
        Some(St { w, m: Arc::new(m), u: s.u.clone(), twin: s.twin.clone() })
    }

    /// every way in which the new state differs from this allowed outcome; fills in the ids of new orders
    fn compare(&self, s: &St, w2: &World, kind: &str, exp: &Exp, o: &mut Out, seen: &Seen) -> Vec<Disc> {
        let mut discs: Vec<Disc> = vec![];
        let mut add = |mut tags: Tags, sig: &str, what: String| {
            tags.sort();
            tags.dedup();
            discs.push(Disc { tags, sig: format!("{kind}:{sig}"), what });
        };
        let users: BTreeSet<String> =
            s.w.env.bank.keys().chain(w2.env.bank.keys()).cloned().chain(o.deltas.keys().map(|k| k.0.clone())).collect();
        for u in users {
            let mut ds: BTreeSet<&str> = DENOMS.iter().copied().collect();
            ds.extend(w2.env.bank.get(&u).into_iter().flat_map(|m| m.keys().map(|s| s.as_str())));
            for d in ds {
                let b = s.w.env.balance(&u, d);
                let a = w2.env.balance(&u, d);
                let want = b as i128 + o.deltas.get(&(u.clone(), d.to_string())).copied().unwrap_or(0);
                if a as i128 != want {
                    let mut t = exp.bank_tags.clone();
                    if u == CONTRACT {
                        t.push("V01");
                    }
                    add(t, "money", format!("{kind}: {u} should have {want}{d} and has {a} (had {b})"));
                }
            }
        }
        if !w2.env.burned.is_empty() || !w2.env.pool.is_empty() {
            add(exp.bank_tags.clone(), "burn", format!("{kind}: coins were burned"));
        }
        for (k, n) in &s.w.env.nfts {
            let want = Some(o.nfts.get(k).map_or(n.owner.as_str(), |x| x.as_str()));
            let got = w2.env.owner(&k.0, &k.1);
            if got != want {
                let mut t = exp.table_tags.clone();
                t.push("V02");
                add(t, "nft", format!("{kind}: the owner of {k:?} should be {want:?} and is {got:?}"));
            }
        }
        let mut reg = s.w.env.reg_default.clone();
        for c in &o.reg {
            let (recipient, share) = s.w.env.colls[c].royalty.clone().unwrap();
            reg.insert(c.clone(), RoyaltyReg { recipient, share });
        }
        if reg != w2.env.reg_default {
            let what = format!("{kind}: the registry should say {reg:?} and says {:?}", w2.env.reg_default);
            add(vec!["V13"], "registry", what);
        }
        for e in &seen.errors {
            add(vec!["V11"], "query", e.clone());
        }
        let before = ids(&s.m);
        for k in KINDS {
            let i = k as usize;
            // what the listings show that is new is the new order
            let fresh: Vec<&String> = seen.listed[i].keys().filter(|id| !o.m.orders[i].iter().any(|x| x.id == **id)).collect();
            if let Some(x) = o.m.orders[i].iter_mut().find(|x| x.id.is_empty()) {
                match &fresh[..] {
                    [id] => {
                        x.id = (*id).clone();
                        if k != K::Ask && before[i].contains(*id) {
                            add(vec!["V08"], "id reused", format!("{kind}: the new order has the id of an earlier one"));
                        }
                    }
                    _ => {
                        let mut t = exp.table_tags.clone();
                        t.push("V11");
                        let what = format!("{kind}: one new order should be listed among the {} but {fresh:?} are", WORD[i]);
                        add(t, "new order", what);
                    }
                }
            }
            let want: BTreeMap<String, Value> = o.m.orders[i].iter().map(|x| (x.id.clone(), x.json())).collect();
            if let Some(d) = diff(&want, &seen.point[i]) {
                let mut t = exp.table_tags.clone();
                t.push("V11");
                add(t, "orders", format!("{kind}: {} differ: {d}", WORD[i]));
            } else if let Some(d) = diff(&want, &seen.listed[i]) {
                add(vec!["V11"], "listing", format!("{kind}: listed {} differ: {d}", WORD[i]));
            }
        }
        if let Some(x) = money_off(w2, seen) {
            let mut t = exp.bank_tags.clone();
            t.push("V01");
            add(t, "escrow", format!("{kind}: {x}"));
        }
        if let Some(x) = nfts_off(w2, seen) {
            let mut t = exp.table_tags.clone();
            t.push("V02");
            add(t, "nft escrow", format!("{kind}: {x}"));
        }
        let want = o.m.cfg.json();
        if want != seen.config {
            add(vec!["V12"], "config", format!("{kind}: the configuration should be {want} and is {}", seen.config));
        }
        if o.m.denoms != seen.denoms {
            let what = format!("{kind}: the collections' denoms should be {:?} and are {:?}", o.m.denoms, seen.denoms);
            add(vec!["V12", "V10"], "denoms", what);
        }
        discs
    }
}

impl System for Sys {
    type St = St;
    type Op = Op;
    fn name(&self) -> &'static str {
        "v2"
    }
    fn empty(&self) -> St {
        St::default()
    }
    fn key(&self, s: &St) -> u128 {
        hash128(&(&s.w, &s.m, &s.twin))
    }
    fn op_kind(&self, op: &Op) -> String {
        let s = format!("{op:?}");
        s.split([' ', '(', '{']).next().unwrap_or("").to_string()
    }

    fn step(&self, s: &St, op: &Op) -> StepOut<St> {
        let mut out = self.step_one(s, op);
        let Some(t) = &s.twin else { return out };
        let (a, b) = (s.w.clone(), t.clone());
        let Msg::Call(c) = call(&s.m, op) else {
            // the surroundings are the same for both
            if let Some(n) = &mut out.next {
                n.twin.as_mut().unwrap().env = n.w.env.clone();
            }
            return out;
        };
        let (t2, diff) = twin_call(&V2, &a, &b, &c, &|w| {
                let x = observe(w, &s.u, &ids(&s.m));
                format!("{:?}", (x.point, x.listed, x.config, x.denoms, x.errors))
            });
        if let Some(x) = diff {
            let kind = self.op_kind(op);
            out.discs.push(Disc { tags: vec!["V12"], sig: format!("{kind}:twin"), what: format!("{kind} {x}") });
        }
        match (&mut out.next, t2) {
            (Some(n), Some(mut x)) => {
                canon(&mut x);
                n.twin = Some(x);
            }
            (n, _) => *n = None,
        }
        out
    }

    fn inspect(&self, s: &St, level: u32) -> (u64, Vec<Disc>) {
        crate::queries::battery(s, level)
    }
}

fn money_off(w: &World, seen: &Seen) -> Option<String> {
    let mut sum: BTreeMap<String, u128> = BTreeMap::new();
    for o in seen.point[1].values().chain(seen.point[2].values()) {
        let c = &o["details"]["price"];
        if let (Some(d), Some(x)) = (c["denom"].as_str(), c["amount"].as_str()) {
            *sum.entry(d.into()).or_insert(0) += x.parse::<u128>().unwrap_or(0);
        }
    }
    let bal = w.env.bank.get(CONTRACT).cloned().unwrap_or_default();
    sum.retain(|_, a| *a > 0);
    (bal != sum).then(|| format!("the contract holds {bal:?} but the live bids add up to {sum:?}"))
}

fn nfts_off(w: &World, seen: &Seen) -> Option<String> {
    let mut asked = BTreeSet::new();
    for a in seen.point[0].values() {
        let k = (a["collection"].as_str().unwrap_or("").to_string(), a["token_id"].as_str().unwrap_or("").to_string());
        if w.env.owner(&k.0, &k.1) != Some(CONTRACT) {
            return Some(format!("the NFT {k:?} of a live ask belongs to {:?}", w.env.owner(&k.0, &k.1)));
        }
        if !asked.insert(k.clone()) {
            return Some(format!("there are two asks for {k:?}"));
        }
    }
    for (k, n) in &w.env.nfts {
        if n.owner == CONTRACT && !asked.contains(k) {
            return Some(format!("the contract holds the NFT {k:?} without an ask"));
        }
    }
    None
}

fn diff<K: Ord + std::fmt::Debug>(want: &BTreeMap<K, Value>, got: &BTreeMap<K, Value>) -> Option<String> {
    for (k, v) in want {
        match got.get(k) {
            None => return Some(format!("{k:?} is missing")),
            Some(g) if g != v => return Some(format!("{k:?} should be {v} and is {g}")),
            _ => {}
        }
    }
    for (k, g) in got {
        if !want.contains_key(k) {
            return Some(format!("{k:?} should not exist but is {g}"));
        }
    }
    None
}
