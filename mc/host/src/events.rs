//! What the events of a transaction have to say.

use crate::world::Event;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Ev {
    pub ty: &'static str,
    is: Vec<(&'static str, String)>,
    has: Vec<&'static str>,
    not: Vec<&'static str>,
}
impl Ev {
    pub fn new(ty: &'static str) -> Self {
        Ev { ty, ..Default::default() }
    }
    /// exactly one attribute `k`, with this value
    pub fn is(mut self, k: &'static str, v: impl ToString) -> Self {
        self.is.push((k, v.to_string()));
        self
    }
    /// an attribute `k` with some value
    pub fn has(mut self, k: &'static str) -> Self {
        self.has.push(k);
        self
    }
    /// no attribute `k`
    pub fn no(mut self, k: &'static str) -> Self {
        self.not.push(k);
        self
    }
    pub fn opt(self, k: &'static str, v: Option<impl ToString>) -> Self {
        match v {
            Some(v) => self.is(k, v),
            None => self.no(k),
        }
    }
    fn fits(&self, e: &Event) -> bool {
        let vals = |k: &str| e.1.iter().filter(|a| a.0 == k).map(|a| a.1.as_str()).collect::<Vec<_>>();
        self.is.iter().all(|(k, v)| vals(k) == [v.as_str()])
            && self.has.iter().all(|k| vals(k).len() == 1)
            && self.not.iter().all(|k| vals(k).is_empty())
    }
    fn text(&self) -> String {
        let mut v: Vec<String> = self.is.iter().map(|(k, v)| format!("{k}={v}")).collect();
        v.extend(self.has.iter().map(|k| format!("{k}=...")));
        v.extend(self.not.iter().map(|k| format!("no {k}")));
        format!("{}({})", self.ty, v.join(", "))
    }
}

fn pair(want: &[&Ev], got: &[&Event], used: &mut Vec<bool>) -> bool {
    let Some(w) = want.first() else { return true };
    for i in 0..got.len() {
        if !used[i] && w.fits(got[i]) {
            used[i] = true;
            if pair(&want[1..], got, used) {
                return true;
            }
            used[i] = false;
        }
    }
    false
}

/// The events of these kinds are exactly the wanted ones, in any order; what else they say and other events do not matter.
pub fn events_off(want: &[Ev], kinds: &[&str], got: &[Event]) -> Option<String> {
    for k in kinds {
        let w: Vec<&Ev> = want.iter().filter(|e| e.ty == *k).collect();
        let g: Vec<&Event> = got.iter().filter(|e| e.0 == *k).collect();
        if w.len() != g.len() || !pair(&w, &g, &mut vec![false; g.len()]) {
            let w: Vec<String> = w.iter().map(|e| e.text()).collect();
            let g: Vec<String> = g
                .iter()
                .map(|e| {
                    let v: Vec<String> = e.1.iter().map(|(k, v)| format!("{k}={v}")).collect();
                    format!("{}({})", e.0, v.join(", "))
                })
                .collect();
            return Some(format!("the {k} events should be [{}] and are [{}]", w.join("; "), g.join("; ")));
        }
    }
    None
}
