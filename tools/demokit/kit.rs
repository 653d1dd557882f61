//! Test bench of a demonstration: one contract, a bank, NFTs.
#![allow(dead_code)]
pub use crate::host::*;
pub use serde_json::{json, Value};

pub const SEC: u64 = 1_000_000_000;
pub const T0: u64 = 1_700_000_000 * SEC;
pub const RICH: u128 = 1_000_000_000_000_000_000_000_000_000_000;

pub struct T {
    pub w: World,
    pub log: Log,
}
pub fn coin(a: u128, d: &str) -> Value {
    json!({"amount": a.to_string(), "denom": d})
}
impl T {
    /// alice owns colaa 1..=20, dorae owns colbb 1..=20, all approved to the contract; everyone is rich
    pub fn new() -> T {
        let mut w = World::default();
        let e = w.env_mut();
        e.time = T0;
        e.height = 10;
        e.admin = Some("admin".into());
        for u in ["alice", "dorae", "bobby", "carol", "erica", "operx", "opery", "admin"] {
            for d in ["ustars", "uatom", "uosmo"] {
                e.fund(u, d, RICH);
            }
        }
        for (c, o) in [("colaa", "alice"), ("colbb", "dorae")] {
            e.colls.insert(c.into(), Coll::default());
            for t in 1..=20 {
                let mut n = Nft { owner: o.into(), approvals: Default::default() };
                n.approvals.insert(CONTRACT.into(), Expiry::Never);
                e.nfts.insert((c.into(), t.to_string()), n);
            }
        }
        T { w, log: Log::default() }
    }
    fn run(&mut self, c: Call) -> Result<Log, String> {
        let (w, l) = self.w.call(&crate::contract::K, &c)?;
        self.w = w;
        self.log = l.clone();
        Ok(l)
    }
    pub fn init(&mut self, m: Value) {
        self.run(Call::Instantiate(m)).expect("instantiate");
    }
    pub fn sudo(&mut self, m: Value) -> Result<Log, String> {
        self.run(Call::Sudo(m))
    }
    pub fn migrate(&mut self, m: Value) -> Result<Log, String> {
        self.run(Call::Migrate(m))
    }
    pub fn exec(&mut self, by: &str, funds: &[(&str, u128)], m: Value) -> Result<Log, String> {
        self.run(Call::Execute {
            sender: by.into(),
            funds: funds.iter().map(|(d, a)| (d.to_string(), *a)).collect(),
            msg: m,
        })
    }
    /// has to succeed
    pub fn ok(&mut self, by: &str, funds: &[(&str, u128)], m: Value) -> Log {
        let s = m.to_string();
        self.exec(by, funds, m).unwrap_or_else(|e| panic!("{by}: {s}: {e}"))
    }
    /// has to fail
    pub fn no(&mut self, by: &str, funds: &[(&str, u128)], m: Value) {
        let s = m.to_string();
        if self.exec(by, funds, m).is_ok() {
            panic!("{by}: {s} was accepted");
        }
    }
    pub fn q(&self, m: Value) -> Value {
        let s = m.to_string();
        self.w.query(&crate::contract::K, &m).unwrap_or_else(|e| panic!("query {s}: {e}"))
    }
    pub fn bal(&self, a: &str, d: &str) -> u128 {
        self.w.env.balance(a, d)
    }
    /// gained since the start, in ustars
    pub fn gain(&self, a: &str) -> i128 {
        let s = if ["alice", "dorae", "bobby", "carol", "erica", "operx", "opery", "admin"].contains(&a) { RICH } else { 0 };
        self.bal(a, "ustars") as i128 - s as i128
    }
    pub fn owner(&self, c: &str, t: &str) -> String {
        self.w.env.owner(c, t).unwrap_or("").to_string()
    }
    pub fn wait(&mut self, nanos: u64) {
        self.w.env_mut().time += nanos;
        self.w.env_mut().height += 1;
    }
    pub fn give(&mut self, c: &str, t: &str, to: &str) {
        let n = Nft { owner: to.into(), approvals: Default::default() };
        self.w.env_mut().nfts.insert((c.into(), t.into()), n);
    }
    pub fn approve(&mut self, c: &str, t: &str) {
        let n = self.w.env_mut().nfts.get_mut(&(c.to_string(), t.to_string())).unwrap();
        n.approvals.insert(CONTRACT.into(), Expiry::Never);
    }
    pub fn royalty(&mut self, c: &str, to: &str, atomics: u128) {
        self.w.env_mut().colls.get_mut(c).unwrap().royalty = Some((to.into(), atomics));
    }
    /// the events of this type in the last accepted message
    pub fn events(&self, ty: &str) -> Vec<std::collections::BTreeMap<String, String>> {
        self.log.events.iter().filter(|e| e.0 == ty).map(|e| e.1.iter().cloned().collect()).collect()
    }
}
