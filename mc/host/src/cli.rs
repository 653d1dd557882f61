//! Command line shared by the checkers: `check <PROP> [--tier quick|thorough]`, `replay <file>`.
use crate::explore::*;
use serde_json::{json, Value};
use std::time::{Duration, Instant};

pub struct PropPlan<Op> {
    pub scenarios: Vec<Scenario<Op>>,
    /// wall-clock budget in seconds for the exploration
    pub budget_s: u64,
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// (property, signature) pairs of the findings recorded (not repaired) in known_findings.json
fn known(prop: &str) -> Vec<(String, String)> {
    let p = format!("{}/known_findings.json", verif_dir());
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known_findings.json");
    v["known"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|e| e["property"] == prop)
                .map(|e| (e["sig"].as_str().unwrap_or("").to_string(), e["what"].as_str().unwrap_or("").to_string()))
                .collect()
        })
        .unwrap_or_default()
}

pub fn main<Y: System>(
    sys: &Y,
    plan: &dyn Fn(&str, bool) -> Option<PropPlan<Y::Op>>,
    extra: &dyn Fn(&str, bool) -> Vec<ExtraResult>,
) {
    std::panic::set_hook(Box::new(|i| {
        // panics of the contract are caught by the host; those of the checker itself must be visible
        if i.location().map_or(false, |l| l.file().contains("mc/")) || std::env::var("MC_PANICS").is_ok() {
            eprintln!("{i}");
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = args[2].clone();
            let tier = args
                .iter()
                .position(|a| a == "--tier")
                .map(|i| args[i + 1].clone())
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_else(|| "quick".into());
            std::process::exit(check(sys, &prop, &tier, plan, extra));
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let ops: Vec<Y::Op> = serde_json::from_value(v["ops"].clone()).unwrap();
            let mut bad = false;
            for ((o, ds), op) in replay(sys, &ops, v["inspect"].as_u64().unwrap_or(0) as u32).iter().zip(&ops) {
                println!("{o:?}  {}", serde_json::to_string(op).unwrap());
                for d in ds {
                    bad = true;
                    println!("    DISCREPANCY {:?} {}", d.tags, d.what);
                }
            }
            std::process::exit(if bad { 1 } else { 0 });
        }
        Some("survey") => {
            // every distinct discrepancy, whatever property it belongs to
            let p = plan(&args[2], args.iter().any(|a| a == "thorough")).expect("property");
            let seen = std::sync::Mutex::new(std::collections::BTreeMap::<String, (u64, Disc)>::new());
            let rec = |d: &Disc| {
                seen.lock().unwrap().entry(d.sig.clone()).or_insert_with(|| (0, d.clone())).0 += 1;
                false
            };
            for sc in &p.scenarios {
                let lim = Limits {
                    deadline: Instant::now() + Duration::from_secs(600), max_states: 6_000_000, max_found: 8, threads: 8,
                };
                let (st, _) = explore(sys, sc, &lim, &rec);
                println!("  {}: states={} transitions={} per level {:?} pruned={} {:.1}s", st.name, st.states, st.transitions,
                    st.states_per_level, st.pruned_other_property, st.wall_s);
            }
            for (k, (n, d)) in seen.into_inner().unwrap() {
                println!("{k} x{n} {:?}\n      {}", d.tags, d.what.chars().take(700).collect::<String>());
            }
        }
        Some("features") => {
            // features <PROP,PROP...> FILE: the circumstances in which operations were accepted in the scenarios of the properties
            crate::MET.get_or_init(Default::default);
            let mut done = std::collections::HashSet::new();
            for prop in args[2].split(',') {
                for sc in &plan(prop, false).expect("property").scenarios {
                    if done.insert(hash128(&serde_json::to_string(&(&sc.roots, &sc.levels)).unwrap())) {
                        let lim = Limits {
                            deadline: Instant::now() + Duration::from_secs(300), max_states: 1_500_000, max_found: 1, threads: 8,
                        };
                        let mut sc = sc.clone();
                        sc.inspect = 0;
                        explore(sys, &sc, &lim, &|_: &Disc| false);
                    }
                }
            }
            let m = crate::MET.get().unwrap().lock().unwrap();
            let out: Vec<Value> = m
                .iter()
                .flat_map(|(k, fs)| fs.iter().map(move |f| json!([k, f.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>()])))
                .collect();
            println!("{} kinds, {} circumstances", m.len(), out.len());
            std::fs::write(&args[3], Value::Array(out).to_string()).unwrap();
        }
        Some("any") => {
            // any <PROP,PROP...>: the scenarios of all of them, each once; the first discrepancy with whatever property
            let mut done = std::collections::HashSet::new();
            let kn: Vec<String> = args[2].split(',').flat_map(|p| known(p)).map(|k| k.0).collect();
            let mut n = 0u64;
            for prop in args[2].split(',') {
                let p = plan(prop, false).expect("property");
                for sc in &p.scenarios {
                    let key = hash128(&(serde_json::to_string(&(&sc.roots, &sc.levels)).unwrap(), sc.inspect));
                    if !done.insert(key) {
                        continue;
                    }
                    let lim = Limits {
                        deadline: Instant::now() + Duration::from_secs(300), max_states: 1_500_000, max_found: 1, threads: 8,
                    };
                    let (st, found) = explore(sys, sc, &lim, &|d: &Disc| !kn.contains(&d.sig));
                    n += st.transitions;
                    if let Some(f) = found.first() {
                        println!("FOUND {:?} {} [{}] {}", f.disc.tags, f.disc.sig, sc.name, f.disc.what);
                        for op in &f.ops {
                            println!("    {}", serde_json::to_string(op).unwrap());
                        }
                        std::process::exit(1);
                    }
                }
            }
            println!("NOTHING transitions={n}");
        }
        _ => {
            eprintln!("usage: check <PROP> [--tier quick|thorough] | replay <file>");
            std::process::exit(2);
        }
    }
}

/// result of an enumeration that is not a state-space scenario (product sweeps over pure helpers)
pub struct ExtraResult {
    pub name: String,
    pub cases: u64,
    pub distinct_outcomes: u64,
    pub samples: Vec<Value>,
    pub violations: Vec<Disc>,
}

fn check<Y: System>(
    sys: &Y,
    prop: &str,
    tier: &str,
    plan: &dyn Fn(&str, bool) -> Option<PropPlan<Y::Op>>,
    extra: &dyn Fn(&str, bool) -> Vec<ExtraResult>,
) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let Some(p) = plan(prop, thorough) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let kn = known(prop);
    let mut hit_known = std::collections::BTreeSet::new();
    let is_known = |d: &Disc| kn.iter().any(|(s, _)| !s.is_empty() && d.sig == *s);
    let known_hits = std::sync::Mutex::new(std::collections::BTreeSet::new());
    let relevant = |d: &Disc| {
        if !d.tags.iter().any(|t| *t == prop) {
            return false;
        }
        if is_known(d) {
            known_hits.lock().unwrap().insert(d.sig.clone());
            return false;
        }
        true
    };
    let threads: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut all = vec![];
    let mut viol: Option<(Found<Y::Op>, u32)> = None;
    let mut nviol = 0;
    let mut samples: Vec<Value> = vec![];
    let deadline = t0 + Duration::from_secs(p.budget_s);
    for sc in &p.scenarios {
        let lim = Limits {
            deadline,
            max_states: if thorough { 6_000_000 } else { 1_500_000 },
            max_found: 8,
            threads,
        };
        let (st, found) = explore(sys, sc, &lim, &relevant);
        if samples.len() < 6 {
            if let Some(l) = sc.levels.first() {
                samples.push(json!({"scenario": sc.name, "root": sc.roots.first().map(|r| serde_json::to_value(r).unwrap()),
                    "alphabet_excerpt": l.iter().take(4).map(|o| serde_json::to_value(o).unwrap()).collect::<Vec<_>>()}));
            }
        }
        println!(
            "  {}: states={} transitions={} accepted={} rejected={} depth={}/{}{} pruned={} adopted={} checks={} {:.1}s",
            st.name, st.states, st.transitions, st.accepted, st.rejected, st.completed_depth, st.depth,
            if st.capped { " (CAPPED)" } else { "" }, st.pruned_other_property, st.adopted_other_property,
            st.state_checks, st.wall_s
        );
        all.push(st);
        if let Some(f) = found.into_iter().next() {
            nviol += 1;
            if viol.is_none() {
                viol = Some((f, sc.inspect));
            }
            break;
        }
    }
    let mut extras = vec![];
    let mut extra_viol: Option<Disc> = None;
    if viol.is_none() {
        for e in extra(prop, thorough) {
            println!("  {}: cases={} distinct_outcomes={}", e.name, e.cases, e.distinct_outcomes);
            for d in &e.violations {
                if relevant(d) {
                    nviol += 1;
                    if extra_viol.is_none() {
                        extra_viol = Some(d.clone());
                    }
                }
            }
            extras.push(e);
        }
    }
    for s in known_hits.into_inner().unwrap() {
        hit_known.insert(s);
    }
    let states: u64 = all.iter().map(|s| s.states).sum::<u64>() + extras.iter().map(|e| e.cases).sum::<u64>();
    let trans: u64 = all.iter().map(|s| s.transitions).sum::<u64>() + extras.iter().map(|e| e.cases).sum::<u64>();
    for e in &extras {
        samples.extend(e.samples.iter().cloned());
    }
    let mut by_kind: std::collections::BTreeMap<String, (u64, u64)> = Default::default();
    for s in &all {
        for (k, (a, r)) in &s.by_kind {
            let e = by_kind.entry(k.clone()).or_default();
            e.0 += a;
            e.1 += r;
        }
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = json!({
        "property": prop, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": trans,
            "traces_validated_against_impl": trans,
            "validation": "every transition is an execution of the contract's own entry points compared with the reference model in lock-step",
            "state_checks": all.iter().map(|s| s.state_checks).sum::<u64>(),
            "scenarios": all.iter().map(|s| json!({"name": s.name, "roots": s.roots, "depth": s.depth,
                "completed_depth": s.completed_depth, "capped": s.capped, "alphabet": s.alphabet,
                "states": s.states, "states_per_level": s.states_per_level, "transitions": s.transitions,
                "accepted": s.accepted, "rejected": s.rejected, "pruned_other_property": s.pruned_other_property, "adopted_other_property": s.adopted_other_property,
                "state_checks": s.state_checks})).collect::<Vec<_>>(),
            "enumerations": extras.iter().map(|e| json!({"name": e.name, "cases": e.cases,
                "distinct_outcomes": e.distinct_outcomes})).collect::<Vec<_>>(),
            "outcomes_by_operation": by_kind.iter().map(|(k, (a, r))| (k.clone(), json!({"accepted": a, "rejected": r})))
                .collect::<serde_json::Map<_, _>>(),
            "samples": samples,
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    let dir = verif_dir();
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    std::fs::write(format!("{dir}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    for (s, w) in &kn {
        if hit_known.contains(s) {
            println!("KNOWN-FINDING: property={prop} {w}");
        }
    }
    if viol.is_some() || extra_viol.is_some() {
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        let path = format!("{dir}/replays/{prop}.json");
        let v = match (&viol, &extra_viol) {
            (Some((f, insp)), _) => {
                // replay twice from scratch: the failure has to reproduce identically
                let r1 = replay(sys, &f.ops, *insp);
                let r2 = replay(sys, &f.ops, *insp);
                let s = |r: &Vec<(Outcome, Vec<Disc>)>| format!("{:?}", r);
                if s(&r1) != s(&r2) || !r1.iter().any(|(_, d)| !d.is_empty()) {
                    eprintln!("the failure does not replay: the harness does not own all nondeterminism");
                    return 3;
                }
                println!("  scenario {} : {}", f.scenario, f.disc.what);
                for op in &f.ops {
                    println!("    {}", serde_json::to_string(op).unwrap());
                }
                json!({"system": sys.name(), "property": prop, "scenario": f.scenario, "inspect": insp,
                    "what": f.disc.what, "sig": f.disc.sig, "tags": f.disc.tags,
                    "ops": serde_json::to_value(&f.ops).unwrap()})
            }
            (None, Some(d)) => {
                println!("  {}", d.what);
                json!({"system": sys.name(), "property": prop, "what": d.what, "sig": d.sig, "tags": d.tags})
            }
            _ => unreachable!(),
        };
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("replay");
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    println!("OK property={prop} states={states} transitions={trans} {:.1}s", t0.elapsed().as_secs_f64());
    0
}
