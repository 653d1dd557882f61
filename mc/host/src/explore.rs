//! Exhaustive, level-synchronous breadth-first exploration of operation sequences.
//!
//! A scenario is a set of roots (each an operation sequence from the empty world) and one alphabet per level. Every
//! operation of a level's alphabet is executed on every distinct state of that level (on the real code, in lock-step
//! with the reference model); states are deduplicated by a 128-bit hash of the canonical state.
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Disc {
    /// ids of the properties this discrepancy contradicts
    pub tags: Vec<&'static str>,
    /// short stable signature (for the known-findings file)
    pub sig: String,
    pub what: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Outcome {
    Accepted,
    Rejected,
    Disabled,
}

pub struct StepOut<S> {
    pub next: Option<S>,
    pub discs: Vec<Disc>,
    pub outcome: Outcome,
}

pub trait System: Sync {
    type St: Clone + Send + Sync;
    type Op: Clone + Send + Sync + Serialize + DeserializeOwned + std::fmt::Debug;
    fn name(&self) -> &'static str;
    fn empty(&self) -> Self::St;
    fn step(&self, s: &Self::St, op: &Self::Op) -> StepOut<Self::St>;
    fn key(&self, s: &Self::St) -> u128;
    /// checks on a state as such (listing queries ...). `level` is chosen by the scenario, 0 = none
    fn inspect(&self, s: &Self::St, level: u32) -> (u64, Vec<Disc>);
    fn op_kind(&self, op: &Self::Op) -> String;
    /// circumstances of an operation, for the measurement of which combinations of them are explored (`features`)
    fn features(&self, _s: &Self::St, _op: &Self::Op) -> Vec<(&'static str, u8)> {
        vec![]
    }
}

/// circumstances met by accepted operations, by kind of operation; filled only when asked for
pub type Met = Mutex<HashMap<String, HashSet<Vec<(&'static str, u8)>>>>;
pub static MET: std::sync::OnceLock<Met> = std::sync::OnceLock::new();
fn met<Y: System>(sys: &Y, s: &Y::St, op: &Y::Op) {
    if let Some(m) = MET.get() {
        let f = sys.features(s, op);
        if !f.is_empty() {
            m.lock().unwrap().entry(sys.op_kind(op)).or_default().insert(f);
        }
    }
}

#[derive(Clone)]
pub struct Scenario<Op> {
    pub name: String,
    pub roots: Vec<Vec<Op>>,
    /// alphabet of each level
    pub levels: Vec<Vec<Op>>,
    pub inspect: u32,
    /// set-up operations that are refused are left out of the root
    pub skipping: bool,
}

impl<Op: Clone> Scenario<Op> {
    pub fn new(name: &str, roots: Vec<Vec<Op>>, alphabet: Vec<Op>, depth: usize) -> Self {
        Scenario { name: name.into(), roots, levels: vec![alphabet; depth], inspect: 0, skipping: false }
    }
    pub fn phased(name: &str, roots: Vec<Vec<Op>>, levels: Vec<Vec<Op>>) -> Self {
        Scenario { name: name.into(), roots, levels, inspect: 0, skipping: false }
    }
    pub fn skipping(mut self) -> Self {
        self.skipping = true;
        self
    }
    pub fn inspected(mut self, l: u32) -> Self {
        self.inspect = l;
        self
    }
}

pub fn hash128<T: Hash>(t: &T) -> u128 {
    let mut a = std::collections::hash_map::DefaultHasher::new();
    1u8.hash(&mut a);
    t.hash(&mut a);
    let mut b = std::collections::hash_map::DefaultHasher::new();
    2u8.hash(&mut b);
    t.hash(&mut b);
    ((a.finish() as u128) << 64) | b.finish() as u128
}

#[derive(Clone, Debug)]
pub struct Found<Op> {
    pub scenario: String,
    pub ops: Vec<Op>,
    pub disc: Disc,
}

#[derive(Default, Debug, Clone, Serialize)]
pub struct ScenarioStats {
    pub name: String,
    pub roots: usize,
    pub depth: usize,
    pub alphabet: Vec<usize>,
    pub states: u64,
    pub transitions: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub inspections: u64,
    pub state_checks: u64,
    pub states_per_level: Vec<u64>,
    /// number of levels completely explored
    pub completed_depth: usize,
    pub capped: bool,
    pub pruned_other_property: u64,
    pub adopted_other_property: u64,
    pub by_kind: BTreeMap<String, (u64, u64)>,
    pub wall_s: f64,
}

pub struct Limits {
    pub deadline: Instant,
    pub max_states: usize,
    pub max_found: usize,
    pub threads: usize,
}

struct Node<S> {
    st: S,
    /// index into the trace table
    tr: u32,
}

struct Local<S> {
    new: Vec<(u128, S, u32, u32)>, // key, state, parent trace, op index
    seen: HashSet<u128>,
    transitions: u64,
    accepted: u64,
    rejected: u64,
    inspections: u64,
    state_checks: u64,
    pruned: u64,
    adopted: u64,
    by_kind: HashMap<usize, (u64, u64)>,
    found: Vec<(u32, u32, Disc)>,
}

/// Explores a scenario. `relevant(d)`: does this discrepancy concern the property being checked (and is it not a listed
/// finding)? Beyond such a discrepancy nothing is explored. Beyond one that concerns other properties only, the model takes
/// over the orders and settings the code reports, and is held against what follows from there.
pub fn explore<Y: System>(
    sys: &Y,
    sc: &Scenario<Y::Op>,
    lim: &Limits,
    relevant: &(dyn Fn(&Disc) -> bool + Sync),
) -> (ScenarioStats, Vec<Found<Y::Op>>) {
    let t0 = Instant::now();
    let mut stats = ScenarioStats {
        name: sc.name.clone(),
        roots: sc.roots.len(),
        depth: sc.levels.len(),
        alphabet: sc.levels.iter().map(|l| l.len()).collect(),
        ..Default::default()
    };
    let mut found: Vec<Found<Y::Op>> = vec![];
    let mut seen: HashSet<u128> = HashSet::new();
    // trace table: (parent, op index at level, level) ; roots: parent = u32::MAX, op = root index
    let mut traces: Vec<(u32, u32)> = vec![];
    let mut frontier: Vec<Node<Y::St>> = vec![];
    let mut roots = sc.roots.clone();

    // ---- roots (in parallel: product sweeps have many)
    {
        let next = AtomicUsize::new(0);
        let out: Mutex<Vec<(usize, Result<Y::St, Vec<Disc>>, u64, Vec<Y::Op>)>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..lim.threads {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= sc.roots.len() {
                        break;
                    }
                    let mut st = sys.empty();
                    let mut res = None;
                    let mut n = 0;
                    let mut ops = vec![];
                    for op in &sc.roots[i] {
                        let o = sys.step(&st, op);
                        n += 1;
                        ops.push(op.clone());
                        let rel = o.discs.iter().any(|d| relevant(d));
                        if sc.skipping && !rel && o.next.is_none() {
                            ops.pop();
                            continue;
                        }
                        if !o.discs.is_empty() && (o.next.is_none() || rel) {
                            res = Some(o.discs);
                            break;
                        }
                        if sc.skipping {
                            met(sys, &st, op);
                        }
                        match o.next {
                            Some(x) => st = x,
                            None if std::env::var("MC_LENIENT").is_ok() => {
                                res = Some(vec![]);
                                break;
                            }
                            None => panic!("scenario {}: setup operation {:?} does not apply", sc.name, op),
                        }
                    }
                    out.lock().unwrap().push((
                        i,
                        match res {
                            None => Ok(st),
                            Some(r) => Err(r),
                        },
                        n,
                        ops,
                    ));
                });
            }
        });
        let mut v = out.into_inner().unwrap();
        v.sort_by_key(|x| x.0);
        for (i, r, n, ops) in v {
            roots[i] = ops;
            stats.transitions += n;
            stats.accepted += n;
            match r {
                Ok(st) => {
                    let k = sys.key(&st);
                    if seen.insert(k) {
                        traces.push((u32::MAX, i as u32));
                        if sc.inspect > 0 {
                            let (c, ds) = sys.inspect(&st, sc.inspect);
                            stats.inspections += 1;
                            stats.state_checks += c;
                            for d in ds {
                                if relevant(&d) {
                                    found.push(Found { scenario: sc.name.clone(), ops: roots[i].clone(), disc: d });
                                }
                            }
                        }
                        frontier.push(Node { st, tr: (traces.len() - 1) as u32 });
                    }
                }
                Err(ds) => {
                    let mut rel = false;
                    for d in ds {
                        if relevant(&d) {
                            rel = true;
                            found.push(Found {
                                scenario: sc.name.clone(),
                                ops: roots[i].clone(),
                                disc: d,
                            });
                        }
                    }
                    if !rel {
                        stats.pruned_other_property += 1;
                    }
                }
            }
        }
        stats.states += frontier.len() as u64;
        stats.states_per_level.push(frontier.len() as u64);
    }

    let rebuild = |traces: &Vec<(u32, u32)>, tr: u32, level: usize, last: Option<u32>| -> Vec<Y::Op> {
        // ops of levels level-1 .. 0 along the parents, then the root
        let mut rev = vec![];
        if let Some(o) = last {
            rev.push(sc.levels[level][o as usize].clone());
        }
        let mut cur = tr;
        let mut l = level;
        loop {
            let (p, o) = traces[cur as usize];
            if p == u32::MAX {
                let mut ops = roots[o as usize].clone();
                rev.reverse();
                ops.extend(rev);
                return ops;
            }
            l -= 1;
            rev.push(sc.levels[l][o as usize].clone());
            cur = p;
        }
    };

    let stop = AtomicBool::new(false);
    for level in 0..sc.levels.len() {
        if frontier.is_empty() || found.len() >= lim.max_found {
            break;
        }
        let alphabet = &sc.levels[level];
        let text = |l: usize| serde_json::to_string(&sc.levels[l]).unwrap_or_default();
        if level + 1 < sc.levels.len() && text(level) != text(level + 1) {
            // a state met before has not met the operations of the next phase
            seen.clear();
        }
        let last = level + 1 == sc.levels.len();
        let next = AtomicUsize::new(0);
        let chunk = (frontier.len() / (lim.threads * 16)).clamp(1, 64);
        let locals: Mutex<Vec<Local<Y::St>>> = Mutex::new(vec![]);
        let seen_ref = &seen;
        let frontier_ref = &frontier;
        std::thread::scope(|s| {
            for _ in 0..lim.threads {
                s.spawn(|| {
                    let mut l = Local {
                        new: vec![],
                        seen: HashSet::new(),
                        transitions: 0,
                        accepted: 0,
                        rejected: 0,
                        inspections: 0,
                        state_checks: 0,
                        pruned: 0,
                        adopted: 0,
                        by_kind: HashMap::new(),
                        found: vec![],
                    };
                    'outer: loop {
                        let i0 = next.fetch_add(chunk, Ordering::Relaxed);
                        if i0 >= frontier_ref.len() || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        for node in &frontier_ref[i0..(i0 + chunk).min(frontier_ref.len())] {
                            if Instant::now() > lim.deadline {
                                stop.store(true, Ordering::Relaxed);
                                break 'outer;
                            }
                            for (oi, op) in alphabet.iter().enumerate() {
                                let o = sys.step(&node.st, op);
                                match o.outcome {
                                    Outcome::Disabled => continue,
                                    Outcome::Accepted => {
                                        l.accepted += 1;
                                        met(sys, &node.st, op);
                                        l.by_kind.entry(oi).or_default().0 += 1;
                                    }
                                    Outcome::Rejected => {
                                        l.rejected += 1;
                                        l.by_kind.entry(oi).or_default().1 += 1;
                                    }
                                }
                                l.transitions += 1;
                                if !o.discs.is_empty() {
                                    let mut rel = false;
                                    for d in o.discs {
                                        if relevant(&d) {
                                            rel = true;
                                            l.found.push((node.tr, oi as u32, d));
                                        }
                                    }
                                    if l.found.len() >= lim.max_found {
                                        break 'outer;
                                    }
                                    if rel || o.next.is_none() {
                                        l.pruned += !rel as u64;
                                        continue;
                                    }
                                    // another property's concern: go on from what the code has made of it
                                    l.adopted += 1;
                                }
                                if let Some(ns) = o.next {
                                    let k = sys.key(&ns);
                                    if seen_ref.contains(&k) || !l.seen.insert(k) {
                                        continue;
                                    }
                                    if sc.inspect > 0 {
                                        let (c, ds) = sys.inspect(&ns, sc.inspect);
                                        l.inspections += 1;
                                        l.state_checks += c;
                                        let bad = !ds.is_empty();
                                        for d in ds {
                                            if relevant(&d) {
                                                l.found.push((node.tr, oi as u32, d));
                                            }
                                        }
                                        if l.found.len() >= lim.max_found {
                                            break 'outer;
                                        }
                                        if bad {
                                            l.pruned += 1;
                                        }
                                    }
                                    let keep = if last { sys.empty() } else { ns };
                                    l.new.push((k, keep, node.tr, oi as u32));
                                }
                            }
                        }
                    }
                    locals.lock().unwrap().push(l);
                });
            }
        });
        let mut nf = vec![];
        let mut new_states = 0u64;
        for l in locals.into_inner().unwrap() {
            stats.transitions += l.transitions;
            stats.accepted += l.accepted;
            stats.rejected += l.rejected;
            stats.inspections += l.inspections;
            stats.state_checks += l.state_checks;
            stats.pruned_other_property += l.pruned;
            stats.adopted_other_property += l.adopted;
            for (oi, (a, r)) in l.by_kind {
                let e = stats.by_kind.entry(sys.op_kind(&alphabet[oi])).or_default();
                e.0 += a;
                e.1 += r;
            }
            for (tr, oi, d) in l.found {
                found.push(Found { scenario: sc.name.clone(), ops: rebuild(&traces, tr, level, Some(oi)), disc: d });
            }
            for (k, st, tr, oi) in l.new {
                if seen.insert(k) {
                    new_states += 1;
                    if !last {
                        traces.push((tr, oi));
                        nf.push(Node { st, tr: (traces.len() - 1) as u32 });
                    }
                }
            }
        }
        stats.states += new_states;
        stats.states_per_level.push(new_states);
        if stop.load(Ordering::Relaxed) {
            stats.capped = true;
            break;
        }
        stats.completed_depth = level + 1;
        frontier = nf;
        if seen.len() > lim.max_states {
            stats.capped = !last;
            break;
        }
    }
    if !stats.capped && found.is_empty() {
        stats.completed_depth = sc.levels.len();
    }
    // shortest first, deterministic
    found.sort_by(|a, b| {
        (a.ops.len(), &a.disc.sig, format!("{:?}", a.ops)).cmp(&(b.ops.len(), &b.disc.sig, format!("{:?}", b.ops)))
    });
    stats.wall_s = t0.elapsed().as_secs_f64();
    (stats, found)
}

/// Replays an operation sequence; returns what was seen at each step.
pub fn replay<Y: System>(sys: &Y, ops: &[Y::Op], inspect: u32) -> Vec<(Outcome, Vec<Disc>)> {
    let mut st = sys.empty();
    let mut out = vec![];
    for op in ops {
        let o = sys.step(&st, op);
        let mut ds = o.discs;
        if let Some(n) = o.next {
            if inspect > 0 {
                ds.extend(sys.inspect(&n, inspect).1);
            }
            st = n;
        }
        out.push((o.outcome, ds));
    }
    out
}
