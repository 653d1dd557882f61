use crate::sys::*;
use mchost::cli::PropPlan;
use mchost::*;

const ONE: u128 = 1_000_000_000_000_000_000;
const T0: u64 = 1_700_000_000_000_000_000;
fn s(x: &str) -> String {
    x.to_string()
}

/// every price with every sequence of fees
fn sales(thorough: bool) -> Scenario<Op> {
    let mut prices: Vec<u128> = (1..=12).collect();
    prices.extend([
        99, 100, 101, 9_999, 10_000, 10_001, 333_333_333, ONE - 1, ONE, ONE + 1, u128::MAX / ONE, u128::MAX / 2,
        u128::MAX - 1, u128::MAX,
    ]);
    if thorough {
        prices.extend(13..=60);
    }
    let mut roots = vec![];
    for p in prices {
        for d in ["ustars", "ibc/1234"] {
            if d != "ustars" && p != 7 {
                continue;
            }
            roots.push(vec![Op::Sale { price: (s(d), U(p)), seller: s("selle") }]);
        }
    }
    let shares: &[u128] = &[
        0, 1, ONE / 10_000, ONE / 100, ONE / 50, ONE / 20, ONE / 3, ONE / 2, ONE * 2 / 3, ONE - 1, ONE, ONE + 1, 2 * ONE,
    ];
    let mut a = vec![Op::Pay { prior: 0 }, Op::Pay { prior: 1 }];
    for &x in shares {
        a.push(Op::Fee { label: s("protocol"), share: U(x), to: s("protx") });
        a.push(Op::Fee { label: s("royalty"), share: U(x), to: s("royal") });
    }
    // a finder who is also the seller or the creator
    for x in [0, ONE / 50, ONE / 2, ONE] {
        a.push(Op::Fee { label: s("finder"), share: U(x), to: s("selle") });
        a.push(Op::Fee { label: s("finder"), share: U(x), to: s("royal") });
    }
    let mut l = vec![a; if thorough { 4 } else { 3 }];
    l.push(vec![Op::Pay { prior: 0 }, Op::Pay { prior: 2 }]);
    Scenario::phased("sales", roots, l)
}
fn transfers(depth: usize) -> Scenario<Op> {
    let mut a = vec![Op::Attribute(s("k")), Op::Message];
    let c = |d: &str, x: u128| (s(d), U(x));
    for checked in [false, true] {
        for x in [0, 1, u128::MAX] {
            a.push(Op::Coin { c: c("ustars", x), to: s("alice"), checked });
        }
        a.push(Op::Coin { c: c("uatom", 5), to: s("bobby"), checked });
        for v in [
            vec![], vec![c("ustars", 1)], vec![c("ustars", 0)], vec![c("uatom", 3), c("ustars", 4)],
            vec![c("uatom", 3), c("ustars", 0)], vec![c("uatom", 0), c("ustars", 4)], vec![c("ustars", 4), c("uatom", 3)],
            vec![c("uatom", 1), c("ustars", 2), c("uosmo", 0)], vec![c("uatom", 1), c("ustars", 2), c("uosmo", 3)],
            vec![c("uatom", 1), c("ustars", 0), c("uosmo", 3)],
        ] {
            a.push(Op::Coins { c: v, to: s("alice"), checked });
        }
    }
    for (x, t, to) in [("colaa", "1", "alice"), ("colaa", "01", "alice"), ("colbb", "1", "bobby")] {
        a.push(Op::Nft { coll: s(x), tok: s(t), to: s(to) });
    }
    Scenario::new("transfers", vec![vec![]], a, depth)
}
fn addresses(depth: usize) -> Scenario<Op> {
    let a = ["alice", "bobby", "carol", "alicf", "ali", "Alice", "", "al", "with space"].map(|x| Op::Address(s(x))).to_vec();
    Scenario::new("addresses", vec![vec![]], a, depth).inspected(1)
}
fn guards(depth: usize) -> Scenario<Op> {
    let coll = |x: &str, start, plain| Op::Coll { addr: s(x), start, plain, royalty: None };
    let own = |x: &str, t: &str, o: &str| Op::Own { coll: s(x), tok: s(t), owner: s(o) };
    let root = vec![Op::At(T0), coll("colaa", None, false), coll("colbb", None, true), own("colaa", "1", "alice"), own("colbb", "1", "bobby")];
    let mut a = vec![
        Op::Skip(1), Op::Skip(1_000_000_000 - 1), Op::Skip(1_000_000_000),
        own("colaa", "1", "bobby"), own("colaa", "1", "carol"), own("colaa", "2", "bobby"), own("colaa", "2", "alice"),
        own("colbb", "1", "alice"),
        Op::Operator { coll: s("colaa"), owner: s("alice"), to: s("carol") },
    ];
    for (to, until) in [("carol", None), ("bobby", Some(T0 + 1)), (CONTRACT, None)] {
        a.push(Op::Approve { coll: s("colaa"), tok: s("1"), to: s(to), until });
    }
    for st in [None, Some(0), Some(1), Some(T0 - 1), Some(T0), Some(T0 + 1), Some(T0 + 1_000_000_000), Some(T0 + 1_000_000_001), Some(u64::MAX)] {
        a.push(coll("colaa", st, false));
    }
    a.push(coll("colaa", None, true));
    a.push(Op::Coll { addr: s("colaa"), start: Some(T0 + 1), plain: false, royalty: Some((s("royal"), U(ONE / 20))) });
    Scenario::new("guards", vec![root], a, depth).inspected(2)
}

fn royalties(depth: usize) -> Scenario<Op> {
    let coll = |x: &str, r: Option<(&str, u128)>, plain| Op::Coll {
        addr: s(x), start: Some(T0), plain, royalty: r.map(|(a, b)| (s(a), U(b))),
    };
    let d = |x: &str, r: Option<(&str, u128)>| Op::RegDefault { coll: s(x), entry: r.map(|(a, b)| (s(a), U(b))) };
    let p = |x: &str, m: &str, r: Option<(&str, u128)>| Op::RegProtocol {
        coll: s(x), protocol: s(m), entry: r.map(|(a, b)| (s(a), U(b))),
    };
    let root = vec![Op::At(T0), coll("colaa", None, false), coll("colbb", Some(("royab", ONE / 7)), false)];
    let a = vec![
        coll("colaa", Some(("royal", ONE / 20)), false), coll("colaa", Some(("royal", 0)), false),
        coll("colaa", Some(("royal", ONE / 3)), true), coll("colaa", Some(("royam", 1)), false), coll("colaa", None, false),
        d("colaa", Some(("regda", ONE / 10))), d("colaa", Some(("regda", 0))), d("colaa", None), d("colbb", Some(("regdb", ONE / 9))),
        p("colaa", "marka", Some(("regpa", ONE / 11))), p("colaa", "marka", Some(("regpa", 0))), p("colaa", "marka", None),
        p("colaa", "markb", Some(("regpb", ONE))), p("colaa", "markb", None), p("colbb", "marka", Some(("regpc", 3))),
    ];
    Scenario::new("royalties", vec![root], a, depth).inspected(3)
}

pub fn plan(prop: &str, t: bool) -> Option<PropPlan<Op>> {
    let x = |q: usize, th: usize| if t { th } else { q };
    let scenarios = match prop {
        "S01" => vec![sales(t)],
        "S02" => vec![transfers(x(3, 5)), addresses(x(4, 6))],
        "S03" => vec![guards(x(5, 8))],
        "S04" => vec![royalties(x(9, 12))],
        _ => return None,
    };
    Some(PropPlan { scenarios, budget_s: if t { 3000 } else { 300 } })
}
