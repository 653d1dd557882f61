//! Scenarios: which operation sequences are enumerated for which property.
use crate::model::*;
use crate::sys::{ATOM, OTHER, STARS};
use mchost::cli::PropPlan;
use mchost::*;

const T0: u64 = 1_700_000_000 * SEC;
const HALF: u64 = SEC / 2;
const USERS: &[&str] = &["alice", "dorae", "bobby", "carol", "erica", "royal", "vault"];
const A: &str = "colaa";
const B: &str = "colbb";
const P: &str = "colpp";
const SHARE: u128 = 55_500_000_000_000_000; // 5.55%
const FAIR: &str = "fairburn0";

fn s(x: &str) -> String {
    x.to_string()
}
fn n(x: u128) -> C {
    (s(STARS), U(x))
}
fn at(x: u128) -> C {
    (s(ATOM), U(x))
}
fn pct(x: u128) -> u128 {
    x * ONE / 100
}

fn cfg() -> Cfg {
    Cfg {
        fair_burn: s(FAIR),
        trading: U(pct(2)),
        inc: U(pct(5)),
        min_dur: 20,
        max_dur: 200,
        ext: 15,
        fee: n(7),
        max_settle: 2,
        thr: 50,
        buf: 30,
        post: 40,
        mins: vec![n(100), at(50)],
    }
}
fn no_halts() -> Cfg {
    Cfg { thr: 1_000_000, ..cfg() }
}

/// the NFTs belong to alice (colaa) and dorae (others) and are approved
fn world(c: Cfg, nfts: &[(&str, &[&str])]) -> Vec<Op> {
    let mut v = vec![
        Op::Universe {
            nfts: nfts.iter().map(|(c, t)| (s(c), t.iter().map(|x| s(x)).collect())).collect(),
            sellers: vec![s("alice"), s("dorae"), s("bobby")],
        },
        Op::Fund(USERS.iter().map(|x| s(x)).collect()),
        Op::At(T0),
    ];
    for (c, ts) in nfts {
        v.push(Op::Coll {
            addr: s(c),
            royalty: if *c == A { Some((s("royal"), U(SHARE))) } else { None },
            start: None,
            plain: *c == P,
        });
        for t in *ts {
            v.push(Op::Mint { coll: s(c), tok: s(t), owner: s(owner(c)) });
            v.push(Op::Approve { coll: s(c), tok: s(t), until: None });
        }
    }
    v.push(Op::Init(c));
    v.push(Op::Begin);
    v
}
fn owner(c: &str) -> &'static str {
    if c == A {
        "alice"
    } else {
        "dorae"
    }
}
fn create(by: &str, coll: &str, tok: &str, reserve: C, duration: u64, recipient: Option<&str>) -> Op {
    Op::Create { by: s(by), coll: s(coll), tok: s(tok), reserve, duration, recipient: recipient.map(s), funds: vec![n(7)] }
}
fn reprice(by: &str, coll: &str, tok: &str, reserve: C) -> Op {
    Op::Reprice { by: s(by), coll: s(coll), tok: s(tok), reserve, funds: vec![] }
}
fn cancel(by: &str, coll: &str, tok: &str) -> Op {
    Op::Cancel { by: s(by), coll: s(coll), tok: s(tok), funds: vec![] }
}
fn bid(by: &str, coll: &str, tok: &str, funds: &[C]) -> Op {
    Op::Bid { by: s(by), coll: s(coll), tok: s(tok), funds: funds.to_vec() }
}
fn settle(coll: &str, tok: &str) -> Op {
    Op::Settle { by: s("erica"), coll: s(coll), tok: s(tok), funds: vec![] }
}
fn block(secs: u64) -> Op {
    Op::Block(secs * SEC)
}
fn approve(coll: &str, tok: &str) -> Op {
    Op::Approve { coll: s(coll), tok: s(tok), until: None }
}
fn cat(parts: &[Vec<Op>]) -> Vec<Op> {
    parts.iter().flatten().cloned().collect()
}

/// one NFT, every message, two bidders, both denoms
fn core_alpha() -> Vec<Op> {
    vec![
        create("alice", A, "1", n(100), 20, None),
        create("alice", A, "1", at(60), 30, Some("vault")),
        create("bobby", A, "1", n(100), 20, None),
        reprice("alice", A, "1", n(106)),
        reprice("alice", A, "1", at(50)),
        reprice("bobby", A, "1", n(106)),
        cancel("alice", A, "1"),
        cancel("bobby", A, "1"),
        bid("bobby", A, "1", &[n(99)]),
        bid("bobby", A, "1", &[n(100)]),
        bid("bobby", A, "1", &[n(112)]),
        bid("carol", A, "1", &[n(105)]),
        bid("carol", A, "1", &[n(106)]),
        bid("alice", A, "1", &[n(130)]),
        bid("bobby", A, "1", &[at(60)]),
        bid("carol", A, "1", &[at(64)]),
        bid("carol", A, "1", &[at(5), n(120)]),
        settle(A, "1"),
        Op::End,
        block(6),
        Op::Block(14 * SEC + HALF),
        approve(A, "1"),
    ]
}
fn core(depth: usize) -> Scenario<Op> {
    Scenario::new("core", vec![world(no_halts(), &[(A, &["1"])])], core_alpha(), depth)
}
/// from an auction with a bid on
fn running(depth: usize) -> Scenario<Op> {
    let r = |first: C, reserve: C, dur: u64, rec: Option<&str>| {
        cat(&[
            world(no_halts(), &[(A, &["1"])]),
            vec![create("alice", A, "1", reserve, dur, rec), bid("bobby", A, "1", &[first])],
        ])
    };
    let mut a = core_alpha();
    a.extend([
        bid("carol", A, "1", &[n(119)]),
        bid("bobby", A, "1", &[n(130)]),
        bid("carol", A, "1", &[n(139)]),
        block(1),
    ]);
    Scenario::new(
        "running",
        vec![
            r(n(100), n(100), 20, None),
            r(at(61), at(60), 30, Some("vault")),
            r(n(106), n(100), 40, Some("vault")),
        ],
        a,
        depth,
    )
}
/// two auctions by two sellers in different denoms, messages of the two interleaved
fn pair(depth: usize) -> Scenario<Op> {
    let mut a = vec![Op::End, block(7), block(21)];
    for (c, r, lo, hi) in [(A, n(100), n(100), n(110)), (B, at(50), at(50), at(60))] {
        let o = owner(c);
        a.extend([
            create(o, c, "1", r, 25, if c == A { Some("vault") } else { None }),
            cancel(o, c, "1"),
            bid("bobby", c, "1", &[lo]),
            bid("carol", c, "1", &[hi]),
            settle(c, "1"),
            reprice(o, c, "1", n(108)),
        ]);
    }
    a.push(create("carol", B, "1", n(100), 25, None));
    a.push(approve(B, "1"));
    Scenario::new("pair", vec![world(no_halts(), &[(A, &["1"]), (B, &["1"])])], a, depth)
}
/// one account in several roles: seller, bidders, recipient, creator of the collection
fn roles(depth: usize) -> Scenario<Op> {
    let mut roots = vec![];
    for royal in ["alice", "bobby", "carol", "royal"] {
        for rec in [None, Some("alice"), Some("bobby"), Some("royal"), Some(B)] {
            for first in ["bobby", "carol", "royal"] {
                let mut r = world(no_halts(), &[(A, &["1"])]);
                r.push(Op::Coll { addr: s(A), royalty: Some((s(royal), U(SHARE))), start: None, plain: false });
                r.push(create("alice", A, "1", n(101), 20, rec));
                r.push(bid(first, A, "1", &[n(103)]));
                roots.push(r);
            }
        }
    }
    // not begun yet, the money goes to a contract
    let mut r = world(no_halts(), &[(A, &["1"])]);
    r.push(create("alice", A, "1", n(101), 20, Some(A)));
    roots.push(r);
    let mut a = vec![Op::End, block(20), approve(A, "1"), create("royal", A, "1", at(51), 20, Some("alice"))];
    for by in ["alice", "bobby", "carol", "royal"] {
        a.push(bid(by, A, "1", &[n(211)]));
        a.push(bid(by, A, "1", &[n(333)]));
        a.push(Op::Settle { by: s(by), coll: s(A), tok: s("1"), funds: vec![] });
        a.push(cancel(by, A, "1"));
        a.push(reprice(by, A, "1", n(120)));
    }
    Scenario::new("one account in several roles", roots, a, depth)
}
/// amounts beyond 64 bits, odd token ids and percentages, long and short times
fn odd(depth: usize) -> Scenario<Op> {
    const LONG: &str = "a token id that is as long as a sentence; with, some. punctuation?";
    const BIG: u128 = (1 << 64) * 1000 + 1;
    const YEAR: u64 = 365 * 86_400;
    let toks = [LONG, "0", "00", "1/2"];
    let w = world(
        Cfg { trading: U(ONE / 7), inc: U(ONE / 13), min_dur: 1, max_dur: 10 * YEAR, ext: 11, ..no_halts() },
        &[(A, &toks), (B, &["0"])],
    );
    let mut a = vec![Op::End, block(1), block(12), Op::Block(YEAR * SEC), Op::Block(10 * YEAR * SEC)];
    for t in toks {
        a.extend([
            create("alice", A, t, n(BIG), 1, None),
            create("alice", A, t, at(BIG), 10 * YEAR, Some("vault")),
            cancel("alice", A, t),
            reprice("alice", A, t, n(BIG + 1)),
            bid("bobby", A, t, &[n(BIG)]),
            bid("bobby", A, t, &[n(BIG + 2)]),
            bid("carol", A, t, &[n(BIG + BIG / 13)]),
            bid("carol", A, t, &[n(BIG + BIG / 13 + 1)]),
            bid("carol", A, t, &[at(BIG + BIG / 13 + 1)]),
            settle(A, t),
        ]);
    }
    a.extend([settle(B, "0"), cancel("dorae", B, "0"), bid("carol", B, "0", &[at(2 * BIG)])]);
    let roots = vec![
        w.clone(),
        cat(&[w.clone(), vec![
            create("alice", A, LONG, n(BIG), 1, None),
            create("alice", A, "0", at(BIG), 10 * YEAR, Some("vault")),
            create("alice", A, "00", n(BIG), YEAR, None),
            create("dorae", B, "0", at(BIG), 10 * YEAR, None),
            bid("bobby", A, LONG, &[n(BIG)]),
            bid("bobby", A, "0", &[at(BIG)]),
        ]]),
        cat(&[w, vec![
            create("alice", A, "1/2", n(BIG), 10 * YEAR, None),
            create("alice", A, "0", n(BIG), 1, Some("vault")),
            create("dorae", B, "0", at(BIG), 1, None),
            bid("bobby", A, "1/2", &[n(BIG)]),
            bid("bobby", B, "0", &[at(BIG)]),
        ]]),
    ];
    Scenario::new("amounts, token ids and times at the ends of their ranges", roots, a, depth)
}
/// coins where none or others belong
fn stray(depth: usize) -> Scenario<Op> {
    let f: Vec<Vec<C>> = vec![
        vec![n(7)], vec![n(8)], vec![n(6)], vec![at(7)], vec![at(3), n(7)], vec![n(7), (s(OTHER), U(1))], vec![],
        vec![n(100)], vec![at(50), n(100)], vec![(s(OTHER), U(100))],
    ];
    let mut a = vec![block(25), Op::End, bid("bobby", A, "1", &[n(100)]), create("alice", A, "1", n(100), 20, None)];
    for x in f {
        a.push(Op::Create {
            by: s("alice"), coll: s(A), tok: s("1"), reserve: n(100), duration: 20, recipient: None, funds: x.clone(),
        });
        a.push(bid("carol", A, "1", &x));
        a.push(Op::Cancel { by: s("alice"), coll: s(A), tok: s("1"), funds: x.clone() });
        a.push(Op::Reprice { by: s("alice"), coll: s(A), tok: s("1"), reserve: n(101), funds: x.clone() });
        a.push(Op::Settle { by: s("erica"), coll: s(A), tok: s("1"), funds: x.clone() });
    }
    let mut nofee = no_halts();
    nofee.fee = n(0);
    let mut atomfee = no_halts();
    atomfee.fee = at(3);
    Scenario::new(
        "stray",
        [no_halts(), nofee, atomfee].iter().map(|c| world(c.clone(), &[(A, &["1"])])).collect(),
        a,
        depth,
    )
}

/// bid amounts around the minimum, for many increments and previous bids
fn increments(thorough: bool) -> Scenario<Op> {
    let w = world(no_halts(), &[(B, &["1"])]);
    let incs: Vec<u128> = vec![
        1, ONE / 1000, pct(1), pct(1) + 1, pct(3), pct(5), ONE / 15, pct(7) + 1, pct(10), pct(25), ONE / 3, pct(50), pct(99), ONE - 1,
    ];
    let hi = if thorough { 160 } else { 116 };
    let mut roots = vec![];
    for i in &incs {
        for p in (100..hi).chain([333, 999, 1000, 1001, 123_456_789_012_345_678]) {
            let mut r = w.clone();
            r.push(Op::Params(Upd { inc: Some(U(*i)), ..Default::default() }));
            r.push(create("dorae", B, "1", n(100), 20, None));
            r.push(bid("bobby", B, "1", &[n(p)]));
            roots.push(r);
        }
    }
    let a: Vec<Op> = (95..240u128)
        .chain((330..350).chain(355..375).chain(440..450).chain(495..505).chain(660..668))
        .chain([999, 1000, 1001, 1002, 1010, 1011, 1030, 1031, 1050, 1051, 1249, 1250, 1251, 1333, 1334, 1335, 1500, 1501, 1989, 1990, 1998, 1999, 2000, 2001, 2002])
        .chain([123_456_789_012_345_678, 123_456_789_012_345_679, 123_580_245_801_357_924, 129_629_628_462_962_962, 246_913_578_024_691_356])
        .map(|x| bid("carol", B, "1", &[n(x)]))
        .collect();
    Scenario::new("increments", roots, a, 1)
}
/// reserve prices and first bids
fn first_bids() -> Scenario<Op> {
    let w = world(no_halts(), &[(B, &["1"])]);
    let mut roots = vec![];
    for r in [n(100), n(101), n(1000), at(50), at(51)] {
        let mut x = w.clone();
        x.push(create("dorae", B, "1", r, 20, None));
        roots.push(x);
    }
    let mut a = vec![];
    for by in ["bobby", "dorae"] {
        for x in [1u128, 49, 50, 51, 99, 100, 101, 102, 999, 1000, 1001] {
            a.push(bid(by, B, "1", &[n(x)]));
            a.push(bid(by, B, "1", &[at(x)]));
            a.push(bid(by, B, "1", &[(s(OTHER), U(x))]));
            a.push(bid(by, B, "1", &[at(x), n(x)]));
            a.push(bid(by, B, "1", &[n(x), n(x)]));
        }
        a.push(bid(by, B, "1", &[]));
    }
    Scenario::new("first bids", roots, a, 2)
}

/// bids around the end, with fractions of seconds
fn clock(depth: usize) -> Scenario<Op> {
    let mut roots = vec![];
    for frac in [0, HALF, SEC - 1] {
        for dur in [20, 37] {
            roots.push(cat(&[
                world(no_halts(), &[(B, &["1"])]),
                vec![Op::Skip(frac), create("dorae", B, "1", n(100), dur, None)],
            ]));
        }
    }
    let mut a: Vec<Op> = [100u128, 105, 111, 117, 123].iter().map(|x| bid("bobby", B, "1", &[n(*x)])).collect();
    a.extend([1u64, HALF, SEC - 1, SEC, 5 * SEC, 14 * SEC, 15 * SEC, 20 * SEC].iter().map(|d| Op::Block(*d)));
    a.push(settle(B, "1"));
    a.push(Op::End);
    Scenario::new("clock", roots, a, depth)
}
/// settings change while an auction runs
fn clock_params(depth: usize) -> Scenario<Op> {
    let root = cat(&[
        world(no_halts(), &[(B, &["1"])]),
        vec![create("dorae", B, "1", n(100), 30, None), bid("bobby", B, "1", &[n(100)])],
    ]);
    let mut a: Vec<Op> = [105u128, 111, 117, 130].iter().map(|x| bid("carol", B, "1", &[n(*x)])).collect();
    a.extend([5u64, 15, 16].iter().map(|d| block(*d)));
    a.extend([
        Op::Params(Upd { ext: Some(1), ..Default::default() }),
        Op::Params(Upd { ext: Some(60), ..Default::default() }),
        Op::Params(Upd { inc: Some(U(pct(10))), ..Default::default() }),
        Op::Params(Upd { min_dur: Some(100), ..Default::default() }),
        Op::UnsetMin(vec![s(STARS)]),
        settle(B, "1"),
        Op::End,
    ]);
    Scenario::new("clock and settings", vec![root], a, depth)
}

/// what is paid at settlement, for many prices, fees and royalties
fn payouts(thorough: bool) -> Scenario<Op> {
    let mut roots = vec![];
    let prices: Vec<u128> = (1..if thorough { 260 } else { 64 })
        .chain([99, 100, 101, 199, 200, 333, 999, 1000, 1001, 123_456_789, 1_000_000_007, 10u128.pow(27) + 1])
        .collect();
    let trading = [1, ONE / 1000, pct(2), pct(3) + 333, pct(10), ONE / 3, pct(50), pct(99)];
    let royal: [Option<u128>; 8] =
        [None, Some(0), Some(1), Some(pct(1)), Some(SHARE), Some(pct(10)), Some(ONE / 3), Some(pct(50))];
    for t in trading {
        for r in royal {
            for (i, p) in prices.iter().enumerate() {
                let mut c = no_halts();
                c.trading = U(t);
                c.mins = vec![n(1), at(1)];
                let d = |x: u128| if i % 5 == 4 { at(x) } else { n(x) };
                roots.push(vec![
                    Op::Universe { nfts: vec![(s(B), vec![s("1")])], sellers: vec![] },
                    Op::Fund(USERS.iter().map(|x| s(x)).collect()),
                    Op::At(T0),
                    Op::Coll { addr: s(B), royalty: r.map(|x| (s("royal"), U(x))), start: None, plain: false },
                    Op::Mint { coll: s(B), tok: s("1"), owner: s("dorae") },
                    approve(B, "1"),
                    Op::Init(c),
                    create("dorae", B, "1", d(1), 20, if i % 3 == 0 { Some("vault") } else { None }),
                    bid("bobby", B, "1", &[d(*p)]),
                    Op::Skip(20 * SEC),
                ]);
            }
        }
    }
    Scenario::new("payouts", roots, vec![settle(B, "1")], 1)
}
/// settings and collections change between the bid and the settlement; plain collections
fn settle_env(depth: usize) -> Scenario<Op> {
    let root = cat(&[
        world(no_halts(), &[(A, &["1"]), (P, &["1"])]),
        vec![
            create("alice", A, "1", n(100), 20, Some("vault")),
            create("dorae", P, "1", at(50), 22, None),
            bid("bobby", A, "1", &[n(101)]),
            bid("carol", P, "1", &[at(77)]),
        ],
    ]);
    let coll = |share: Option<u128>, who: &str, start: Option<u64>, plain| Op::Coll {
        addr: s(A), royalty: share.map(|x| (s(who), U(x))), start, plain,
    };
    let a = vec![
        settle(A, "1"),
        settle(P, "1"),
        Op::Settle { by: s("alice"), coll: s(A), tok: s("1"), funds: vec![] },
        Op::Settle { by: s("bobby"), coll: s(A), tok: s("1"), funds: vec![] },
        Op::End,
        block(3),
        block(19),
        bid("carol", A, "1", &[n(120)]),
        cancel("alice", A, "1"),
        reprice("dorae", P, "1", at(60)),
        coll(Some(pct(10)), "erica", None, false),
        coll(None, "", None, false),
        coll(Some(SHARE), "royal", Some(T0 + 10_000 * SEC), false),
        coll(Some(SHARE), "royal", None, true),
        Op::Params(Upd { trading: Some(U(pct(7))), ..Default::default() }),
        Op::Params(Upd { fair_burn: Some(s("fairburn1")), ..Default::default() }),
        Op::Params(Upd { max_settle: Some(0), ..Default::default() }),
    ];
    Scenario::new("settle env", vec![root], a, depth)
}

/// many auctions ending in different orders; different limits
fn end_block(depth: usize, thorough: bool) -> Scenario<Op> {
    let nfts: &[(&str, &[&str])] = &[(A, &["1", "10"]), (B, &["1", "2"])];
    let mut roots = vec![];
    let keys = [(A, "1"), (A, "10"), (B, "1"), (B, "2")];
    let durs: Vec<[u64; 4]> = if thorough {
        let mut v = vec![];
        for a in [20, 21, 22] {
            for b in [20, 21, 22] {
                for c in [20, 21, 22] {
                    for d in [20, 21, 22] {
                        v.push([a, b, c, d]);
                    }
                }
            }
        }
        v
    } else {
        vec![[20, 21, 22, 23], [23, 22, 21, 20], [20, 20, 20, 20], [22, 20, 22, 20], [20, 20, 21, 21], [30, 20, 60, 20]]
    };
    for ms in [1u64, 2, 3, 4, 10] {
        for d in &durs {
            let mut c = no_halts();
            c.max_settle = ms;
            let mut r = world(c, nfts);
            for (i, (c, t)) in keys.iter().enumerate() {
                r.push(create(owner(c), c, t, if i == 1 { at(50) } else { n(100) }, d[i], None));
            }
            for (i, (c, t)) in keys.iter().enumerate() {
                r.push(bid("bobby", c, t, &[if i == 1 { at(50) } else { n(100 + i as u128) }]));
                if i == 2 {
                    r.push(Op::Skip(HALF));
                }
            }
            roots.push(r);
        }
    }
    let mut a = vec![Op::End, Op::Block(19 * SEC + HALF), block(1), Op::Block(HALF), block(3)];
    a.extend([settle(A, "1"), settle(B, "2"), bid("carol", A, "10", &[at(60)]), bid("carol", B, "1", &[n(120)])]);
    a.push(Op::Params(Upd { max_settle: Some(0), ..Default::default() }));
    a.push(Op::Params(Upd { max_settle: Some(3), ..Default::default() }));
    Scenario::new("end block", roots, a, depth)
}
/// settlements that cannot be paid
fn unpayable() -> Scenario<Op> {
    let mk = |trading: u128, share: u128| {
        let mut c = no_halts();
        c.trading = U(trading);
        let mut r = world(c, &[(A, &["1"]), (B, &["1"])]);
        r.extend([
            Op::Coll { addr: s(A), royalty: Some((s("royal"), U(share))), start: None, plain: false },
            create("alice", A, "1", n(100), 20, None),
            create("dorae", B, "1", n(100), 21, None),
            bid("bobby", A, "1", &[n(100)]),
            bid("bobby", B, "1", &[n(100)]),
        ]);
        r
    };
    let a = vec![Op::End, block(20), block(1), settle(A, "1"), settle(B, "1")];
    Scenario::new("unpayable", vec![mk(pct(2), ONE), mk(pct(60), pct(50)), mk(0, SHARE)], a, 4)
}

fn halt_cfg() -> Cfg {
    cfg()
}
/// halts while auctions run; windows, postponements, their removal
fn halts(depth: usize, thorough: bool) -> Scenario<Op> {
    let mut roots = vec![];
    for dur in [20u64, 51, 60, 100] {
        let mut r = world(halt_cfg(), &[(B, &["1"])]);
        r.push(create("dorae", B, "1", n(100), dur, None));
        r.push(bid("bobby", B, "1", &[n(100)]));
        roots.push(r);
    }
    let mut a: Vec<Op> = [1u64, 10, 29, 30, 31, 49, 50, 51, 100].iter().map(|d| block(*d)).collect();
    a.extend([Op::End, settle(B, "1"), bid("carol", B, "1", &[n(106)])]);
    if thorough {
        a.extend([block(40), bid("carol", B, "1", &[n(120)]), Op::Block(49 * SEC + HALF)]);
    }
    Scenario::new("halts", roots, a, depth)
}
/// two auctions, one without a bid when the halt comes; settings
fn halts2(depth: usize) -> Scenario<Op> {
    let mut roots = vec![];
    for (d1, d2) in [(55u64, 20u64), (70, 70), (20, 90), (81, 80)] {
        let mut r = world(halt_cfg(), &[(A, &["1"]), (B, &["1"])]);
        r.push(create("alice", A, "1", n(100), d1, None));
        r.push(create("dorae", B, "1", n(100), d2, None));
        r.push(bid("bobby", A, "1", &[n(100)]));
        roots.push(r);
    }
    let mut a: Vec<Op> = [5u64, 20, 50, 60].iter().map(|d| block(*d)).collect();
    a.extend([Op::End, settle(A, "1"), settle(B, "1"), bid("bobby", B, "1", &[n(100)]), bid("carol", A, "1", &[n(120)])]);
    Scenario::new("halts with two auctions", roots, a, depth)
}
/// auctions that end a second before, at and after the ends of a halt window, with and without room to settle them
fn edges(depth: usize) -> Scenario<Op> {
    let mut roots = vec![];
    for ms in [0u64, 1, 3] {
        let w = world(Cfg { max_settle: ms, ..halt_cfg() }, &[(A, &["1"]), (B, &["1", "2"])]);
        let made = |d: [u64; 3]| {
            cat(&[w.clone(), vec![
                create("alice", A, "1", n(100), d[0], None),
                create("dorae", B, "1", at(50), d[1], None),
                create("dorae", B, "2", n(100), d[2], None),
            ]])
        };
        let bids = |c: &str, t: &str| bid("bobby", c, t, &[if (c, t) == (B, "1") { at(50) } else { n(100) }]);
        // the window is yet to be entered: its end is 30 seconds after the last block
        roots.push(cat(&[made([20, 21, 22]), vec![block(50), block(8), bids(A, "1"), bids(B, "1"), bids(B, "2")]]));
        roots.push(cat(&[made([20, 20, 20]), vec![block(50), block(9), bids(A, "1"), block(1), bids(B, "1"), block(1), bids(B, "2")]]));
        // the start of the window: the block before the halt
        roots.push(cat(&[made([22, 23, 24]), vec![bids(A, "1"), bids(B, "1"), bids(B, "2"), block(23), block(50)]]));
        // fractions of seconds
        roots.push(cat(&[made([20, 21, 22]), vec![
            block(50), Op::Block(8 * SEC + HALF), bids(A, "1"), bids(B, "1"), bids(B, "2"),
        ]]));
    }
    let mut a: Vec<Op> = [1u64, 2, 19, 20, 21, 50].iter().map(|d| block(*d)).collect();
    a.extend([
        Op::Block(HALF),
        Op::End,
        settle(A, "1"),
        settle(B, "1"),
        settle(B, "2"),
        bid("carol", B, "1", &[at(70)]),
        Op::Params(Upd { max_settle: Some(1), ..Default::default() }),
    ]);
    Scenario::new("ends at the edges of a halt window", roots, a, depth)
}
fn halt_params(depth: usize) -> Scenario<Op> {
    let mut r = world(halt_cfg(), &[(B, &["1"])]);
    r.push(create("dorae", B, "1", n(100), 60, None));
    r.push(bid("bobby", B, "1", &[n(100)]));
    let mut a: Vec<Op> = [10u64, 35, 50, 70].iter().map(|d| block(*d)).collect();
    a.extend([
        Op::End,
        settle(B, "1"),
        Op::Params(Upd { thr: Some(35), ..Default::default() }),
        Op::Params(Upd { thr: Some(80), ..Default::default() }),
        Op::Params(Upd { buf: Some(0), ..Default::default() }),
        Op::Params(Upd { buf: Some(60), ..Default::default() }),
        Op::Params(Upd { post: Some(0), ..Default::default() }),
        Op::Params(Upd { post: Some(25), ..Default::default() }),
        Op::Params(Upd { max_settle: Some(0), ..Default::default() }),
        Op::Migrate,
    ]);
    // a long window in force, then short buffers and long halts, or the other way round
    let mut roots = vec![r];
    for (b0, gap, b1) in [(60, 50, 0), (0, 70, 60), (60, 50, 20)] {
        let mut r = world(halt_cfg(), &[(B, &["1", "2"])]);
        for (t, d) in [("1", 60), ("2", 99)] {
            r.push(create("dorae", B, t, n(100), d, None));
            r.push(bid("bobby", B, t, &[n(100)]));
        }
        r.push(Op::Params(Upd { buf: Some(b0), thr: Some(35), ..Default::default() }));
        r.push(block(gap));
        r.push(Op::Params(Upd { buf: Some(b1), ..Default::default() }));
        roots.push(r);
    }
    a.push(settle(B, "2"));
    Scenario::new("halts and settings", roots, a, depth)
}

/// every combination of the conditions for creating an auction
fn creating() -> Scenario<Op> {
    let mut roots = vec![];
    for start in [None, Some(T0 - 1), Some(T0), Some(T0 + 1), Some(T0 + 10 * SEC)] {
        for appr in [None, Some(None), Some(Some(T0 + 1)), Some(Some(T0 + 10 * SEC))] {
            for fee in [n(0), n(7), at(3)] {
                for plain in [false, true] {
                    let mut c = no_halts();
                    c.fee = fee.clone();
                    let mut r = world(c, &[(B, &[])]);
                    r.push(Op::Coll { addr: s(B), royalty: None, start, plain });
                    r.push(Op::Mint { coll: s(B), tok: s("1"), owner: s("dorae") });
                    if let Some(until) = appr {
                        r.push(Op::Approve { coll: s(B), tok: s("1"), until });
                    }
                    if fee.1 == U(7) && appr == Some(None) {
                        // the seller has an auction already
                        let mut r = r.clone();
                        r.extend([
                            Op::Coll { addr: s(A), royalty: None, start: None, plain: false },
                            Op::Mint { coll: s(A), tok: s("1"), owner: s("dorae") },
                            approve(A, "1"),
                            create("dorae", A, "1", n(100), 30, None),
                        ]);
                        roots.push(r);
                    }
                    roots.push(r);
                }
            }
        }
    }
    let mut a = vec![block(1), block(10)];
    for by in ["dorae", "bobby"] {
        for dur in [0u64, 19, 20, 200, 201] {
            for res in [n(99), n(100), n(101), at(49), at(50), (s(OTHER), U(500)), n(0)] {
                let fs: Vec<Vec<C>> = if by == "dorae" {
                    vec![vec![], vec![n(7)], vec![n(8)], vec![at(3)]]
                } else {
                    vec![vec![n(7)]]
                };
                for f in fs {
                    a.push(Op::Create {
                        by: s(by), coll: s(B), tok: s("1"), reserve: res.clone(), duration: dur,
                        recipient: if dur == 200 { Some(s("vault")) } else { None }, funds: f,
                    });
                }
            }
        }
    }
    a.push(Op::Create {
        by: s("dorae"), coll: s(B), tok: s("2"), reserve: n(100), duration: 20, recipient: None, funds: vec![n(7)],
    });
    a.push(Op::Create {
        by: s("dorae"), coll: s("nocoll"), tok: s("1"), reserve: n(100), duration: 20, recipient: None, funds: vec![n(7)],
    });
    Scenario::new("creating", roots, a, 2)
}
/// sequences of creation, cancellation, transfer, settings
fn create_env(depth: usize) -> Scenario<Op> {
    let root = world(no_halts(), &[(A, &["1"]), (B, &["1"])]);
    let mut a = vec![];
    for (c, o) in [(A, "alice"), (B, "dorae")] {
        a.extend([
            create(o, c, "1", n(100), 20, None),
            create("bobby", c, "1", at(50), 30, Some("vault")),
            cancel(o, c, "1"),
            cancel("bobby", c, "1"),
            approve(c, "1"),
            Op::Revoke { coll: s(c), tok: s("1") },
            Op::Transfer { coll: s(c), tok: s("1"), to: s("bobby") },
            bid("carol", c, "1", &[n(100)]),
            settle(c, "1"),
        ]);
    }
    a.extend([
        block(20),
        Op::Params(Upd { min_dur: Some(25), ..Default::default() }),
        Op::Params(Upd { fee: Some(n(0)), ..Default::default() }),
        Op::UnsetMin(vec![s(STARS)]),
        Op::SetMin(vec![n(101)]),
    ]);
    Scenario::new("create env", vec![root], a, depth)
}

/// several auctions of two sellers; the listings are checked in every state
fn book(depth: usize, level: u32) -> Scenario<Op> {
    let root = world(no_halts(), &[(A, &["1", "10", "2"]), (B, &["1", "2"])]);
    let mut a = vec![block(1), block(25), Op::End, Op::UnsetMin(vec![s(ATOM)]), Op::SetMin(vec![(s(OTHER), U(5))])];
    for (c, t, d) in [(A, "1", 20), (A, "10", 25), (A, "2", 20), (B, "1", 21), (B, "2", 20)] {
        a.push(create(owner(c), c, t, n(100), d, None));
        a.push(bid("carol", c, t, &[n(100)]));
        if t != "10" {
            a.push(cancel(owner(c), c, t));
        }
    }
    a.push(settle(A, "2"));
    a.push(reprice("alice", A, "1", n(105)));
    Scenario::new("book", vec![root], a, depth).inspected(level)
}
/// all auctions there are at once, in every mix of ends
fn full_book(level: u32, thorough: bool) -> Scenario<Op> {
    let nfts: &[(&str, &[&str])] = &[(A, &["1", "10", "2"]), (B, &["1", "2"])];
    let keys = [(A, "1"), (A, "10"), (A, "2"), (B, "1"), (B, "2")];
    let durs: &[u64] = if thorough { &[0, 20, 21, 40] } else { &[0, 20, 21] };
    let mut roots = vec![];
    let k = durs.len();
    for i in 0..k.pow(5) {
        let mut r = world(no_halts(), nfts);
        let mut x = i;
        for (c, t) in keys {
            let d = durs[x % k];
            x /= k;
            r.push(create(owner(c), c, t, n(100), d.max(20), None));
            if d > 0 {
                r.push(bid("carol", c, t, &[n(100)]));
            }
        }
        roots.push(r);
    }
    Scenario::new("full book", roots, vec![Op::Block(20 * SEC + HALF)], 1).inspected(level)
}
/// more auctions than the default page
fn long_book(thorough: bool) -> Scenario<Op> {
    let sizes: &[usize] = if thorough { &[9, 10, 11, 12, 20, 21, 99, 100, 101, 120] } else { &[9, 10, 11, 12, 21, 101] };
    let mut roots = vec![];
    for &k in sizes {
        let toks: Vec<String> = (1..=k).map(|i| i.to_string()).collect();
        let tr: Vec<&str> = toks.iter().map(|x| x.as_str()).collect();
        let mut r = world(no_halts(), &[(A, &tr)]);
        for (i, t) in tr.iter().enumerate() {
            r.push(create("alice", A, t, n(100), 20 + (i as u64 % 3), None));
            r.push(bid("carol", A, t, &[n(100)]));
        }
        roots.push(r);
    }
    Scenario::new("long book", roots, vec![], 0).inspected(1)
}

/// settings and minimum prices, in sequences, with probes that depend on them
fn governance(depth: usize) -> Scenario<Op> {
    let root = world(cfg(), &[(B, &["1"])]);
    let small = world(Cfg { max_dur: 20, ext: 20, inc: U(ONE - 1), thr: 0, buf: 0, post: 0, ..cfg() }, &[(B, &["1"])]);
    let u = |f: &dyn Fn(&mut Upd)| {
        let mut x = Upd::default();
        f(&mut x);
        Op::Params(x)
    };
    let a = vec![
        u(&|_| {}),
        u(&|x| x.fair_burn = Some(s("fairburn1"))),
        u(&|x| x.trading = Some(U(pct(3)))),
        u(&|x| x.inc = Some(U(0))),
        u(&|x| x.inc = Some(U(1))),
        u(&|x| x.inc = Some(U(ONE))),
        u(&|x| x.inc = Some(U(ONE - 1))),
        u(&|x| x.inc = Some(U(2 * ONE))),
        u(&|x| x.min_dur = Some(0)),
        u(&|x| x.min_dur = Some(1)),
        u(&|x| x.ext = Some(0)),
        u(&|x| x.ext = Some(1)),
        u(&|x| x.ext = Some(1_000_000)),
        u(&|x| x.min_dur = Some(1_000_000)),
        u(&|x| x.trading = Some(U(0))),
        u(&|x| x.trading = Some(U(2 * ONE))),
        u(&|x| {
            x.fee = Some(n(0));
            x.max_settle = Some(0);
            x.thr = Some(0);
            x.buf = Some(0);
            x.post = Some(0);
        }),
        u(&|x| x.fee = Some(at(9))),
        u(&|x| x.max_settle = Some(5)),
        u(&|x| x.thr = Some(60)),
        u(&|x| x.buf = Some(61)),
        u(&|x| x.post = Some(62)),
        u(&|x| {
            x.trading = Some(U(pct(4)));
            x.inc = Some(U(0));
        }),
        u(&|x| {
            x.ext = Some(0);
            x.post = Some(1);
            x.fair_burn = Some(s("fairburn1"));
        }),
        u(&|x| {
            *x = Upd {
                fair_burn: Some(s("fairburn2")), trading: Some(U(pct(6))), inc: Some(U(pct(8))), min_dur: Some(11),
                ext: Some(12), fee: Some(n(13)), max_settle: Some(14), thr: Some(15), buf: Some(16), post: Some(17),
            }
        }),
        Op::SetMin(vec![(s(OTHER), U(5))]),
        Op::SetMin(vec![n(77)]),
        Op::SetMin(vec![(s(OTHER), U(6)), (s(OTHER), U(7))]),
        Op::SetMin(vec![(s("uluna"), U(8)), at(9)]),
        Op::SetMin(vec![(s("uluna"), U(0)), (s("uusdc"), U(9))]),
        Op::SetMin(vec![]),
        Op::UnsetMin(vec![s(STARS)]),
        Op::UnsetMin(vec![s(ATOM), s(STARS)]),
        Op::UnsetMin(vec![s("unone")]),
        Op::UnsetMin(vec![s(ATOM), s(ATOM)]),
        Op::UnsetMin(vec![s(OTHER), s("unone")]),
        Op::Migrate,
        create("dorae", B, "1", n(100), 20, None),
        create("dorae", B, "1", at(50), 20, None),
        bid("bobby", B, "1", &[n(100)]),
        block(20),
    ];
    Scenario::new("governance", vec![root, small], a, depth)
}
/// every combination of critical values at creation
fn inits() -> Scenario<Op> {
    let base: Vec<Op> = world(cfg(), &[(B, &["1"])]).into_iter().filter(|o| !matches!(o, Op::Init(_) | Op::Begin)).collect();
    let mut a = vec![];
    for inc in [0, 1, pct(5), ONE - 1, ONE, ONE + 1, 2 * ONE] {
        for min_dur in [0u64, 1, 20] {
            for ext in [0u64, 1, 15] {
                for mins in [vec![], vec![n(1)], vec![n(1), at(2)], vec![n(1), n(1)], vec![n(1), at(2), n(3)]] {
                    a.push(Op::Init(Cfg { inc: U(inc), min_dur, ext, mins, ..cfg() }));
                }
            }
        }
    }
    Scenario::new("inits", vec![base], a, 1)
}

/// auctions at every phase of their lives
fn lives() -> Vec<Vec<Op>> {
    let w = |c: Cfg| {
        let mut m = Cfg { max_dur: 40, ..c };
        m.mins.push((s(OTHER), U(0)));
        world(m, &[(A, &["1"]), (B, &["1"])])
    };
    let both = || {
        vec![create("alice", A, "1", n(101), 25, Some("vault")), create("dorae", B, "1", at(50), 40, None)]
    };
    let first = |by: &str| vec![bid(by, A, "1", &[n(103)])];
    let zero = || Op::Params(Upd { max_settle: Some(0), ..Default::default() });
    vec![
        // nothing yet
        w(cfg()),
        // two auctions, no bids
        cat(&[w(cfg()), both()]),
        // one begun by the creator of the collection, at a fraction of a second
        cat(&[w(cfg()), both(), vec![Op::Block(3 * SEC + HALF)], first("royal")]),
        // both begun, the first extended
        cat(&[
            w(cfg()), both(), first("bobby"), vec![bid("carol", B, "1", &[at(51)]), Op::Block(20 * SEC + HALF), bid("carol", A, "1", &[n(109)])],
        ]),
        // both over, nothing settled yet
        cat(&[w(cfg()), both(), first("bobby"), vec![bid("royal", B, "1", &[at(51)]), Op::Block(41 * SEC)]]),
        // a halt has come, the first auction is postponed
        cat(&[w(cfg()), both(), first("bobby"), vec![block(55), Op::End]]),
        // a halt has come with auctions that are to end in its window, nothing settled
        cat(&[w(cfg()), both(), vec![zero()], first("bobby"), vec![bid("carol", B, "1", &[at(51)]), block(70)]]),
        // two halts, apart: the first auction ends in the first window
        cat(&[w(cfg()), both(), vec![zero()], first("bobby"), vec![block(50), block(52), bid("carol", B, "1", &[at(51)])]]),
        // three halts, nothing begun
        cat(&[w(cfg()), both(), vec![block(50), block(20), block(50), block(60)]]),
        // no postponement, no automatic settlement, in the window
        cat(&[
            w(Cfg { post: 0, ..cfg() }), both(), vec![zero()], first("carol"), vec![bid("bobby", B, "1", &[at(51)]), block(60)],
        ]),
        // sold once and offered by the buyer
        cat(&[
            w(cfg()), both(), first("bobby"),
            vec![block(26), Op::End, approve(A, "1"), create("bobby", A, "1", (s(OTHER), U(0)), 20, Some("royal"))],
        ]),
    ]
}
fn life(depth: usize) -> Scenario<Op> {
    let a = vec![
        create("alice", A, "1", n(101), 25, Some("bobby")),
        create("alice", A, "1", at(60), 30, None),
        create("bobby", A, "1", n(100), 20, Some("alice")),
        create("dorae", B, "1", n(150), 20, Some("alice")),
        reprice("alice", A, "1", n(120)),
        reprice("alice", A, "1", at(50)),
        reprice("bobby", A, "1", n(120)),
        reprice("dorae", B, "1", n(100)),
        cancel("alice", A, "1"),
        cancel("bobby", A, "1"),
        cancel("dorae", B, "1"),
        bid("bobby", A, "1", &[n(101)]),
        bid("carol", A, "1", &[n(109)]),
        bid("carol", A, "1", &[n(108)]),
        bid("royal", A, "1", &[n(115)]),
        bid("vault", A, "1", &[n(121)]),
        bid("alice", A, "1", &[n(140)]),
        bid("carol", A, "1", &[(s(OTHER), U(1))]),
        bid("carol", B, "1", &[at(50)]),
        bid("royal", B, "1", &[at(54)]),
        bid("dorae", B, "1", &[at(70)]),
        settle(A, "1"),
        settle(B, "1"),
        Op::End,
        block(1),
        Op::Block(9 * SEC + HALF),
        block(16),
        block(30),
        block(50),
        approve(A, "1"),
        Op::Transfer { coll: s(A), tok: s("1"), to: s("bobby") },
        Op::Coll { addr: s(A), royalty: Some((s("alice"), U(pct(10)))), start: None, plain: false },
        Op::Coll { addr: s(B), royalty: Some((s("carol"), U(pct(3)))), start: Some(T0 + 60 * SEC), plain: false },
        Op::Params(Upd { ext: Some(33), ..Default::default() }),
        Op::Params(Upd { ext: Some(45), ..Default::default() }),
        Op::Params(Upd { inc: Some(U(pct(1) / 2)), trading: Some(U(pct(9))), ..Default::default() }),
        Op::Params(Upd { max_settle: Some(1), ..Default::default() }),
        Op::Params(Upd { max_settle: Some(0), post: Some(0), ..Default::default() }),
        Op::Params(Upd { thr: Some(16), buf: Some(5), post: Some(9), ..Default::default() }),
        Op::Params(Upd { min_dur: Some(26), fee: Some(n(0)), ..Default::default() }),
        Op::UnsetMin(vec![s(STARS)]),
        Op::SetMin(vec![(s("uzero"), U(0)), (s("uzzz"), U(3))]),
        Op::Skip(26 * SEC),
    ];
    Scenario::new("phases in the life of auctions under changing settings", lives(), a, depth)
}
/// the same, with and without a migration: what follows is the same
fn life_migrated(depth: usize) -> Scenario<Op> {
    let mut sc = life(depth);
    sc.name = "phases in the life of auctions, with a migration".into();
    for r in &mut sc.roots {
        r.push(Op::Twin);
    }
    sc
}

/// rows of a covering array: every combination of the values of any `t` of the circumstances around an auction occurs in some
/// root; what is refused in its row is left out
fn rows(t: usize) -> Vec<Vec<Op>> {
    let levels = [
        2, // 0 trading fee
        3, // 1 increment
        2, // 2 extension
        3, // 3 creation fee
        3, // 4 settlements per block
        4, // 5 halts
        6, // 6 royalty
        4, // 7 other auctions
        4, // 8 reserve
        3, // 9 duration
        5, // 10 recipient
        2, // 11 fraction of a second
        5, // 12 bids
        2, // 13 their amounts
        3, // 14 a late bid
        4, // 15 gaps before the first bid
        3, // 16 gaps after it
        7, // 17 settings changed since
        3, // 18 the collection changed since
        5, // 19 when
        2, // 20 end of a block
        2, // 21 repriced before the first bid
        2, // 22 a second sale, by the buyer of the first
    ];
    cover(&levels, t)
        .into_iter()
        .map(|x| {
            let inc = [pct(5), ONE / 13, pct(50)][x[1]];
            let (thr, buf, post) = [(1_000_000, 30, 40), (50, 30, 40), (50, 30, 0), (16, 5, 9)][x[5]];
            let fee = [n(7), n(0), at(3)][x[3]].clone();
            let c = Cfg {
                trading: U([pct(2), ONE / 3][x[0]]), inc: U(inc), ext: [15, 33][x[2]], fee: fee.clone(),
                max_settle: [2, 0, 1][x[4]], thr, buf, post, mins: vec![n(100), at(50), (s(OTHER), U(0))], ..cfg()
            };
            let fees = || if fee.1 .0 == 0 { vec![] } else { vec![fee.clone()] };
            let put = |by: &str, coll: &str, tok: &str, reserve: C, duration: u64, recipient: Option<&str>| Op::Create {
                by: s(by), coll: s(coll), tok: s(tok), reserve, duration, recipient: recipient.map(s), funds: fees(),
            };
            let mut v = world(c, &[(A, &["1", "2"]), (B, &["1"])]);
            let royalty =
                [None, Some(("royal", 0)), Some(("royal", SHARE)), Some(("alice", SHARE)), Some(("bobby", SHARE)), Some(("carol", pct(3)))][x[6]]
                    .map(|(a, b)| (s(a), U(b)));
            v.push(Op::Coll { addr: s(A), royalty: royalty.clone(), start: None, plain: false });
            let mut seller = "alice";
            if x[22] > 0 {
                v.extend([
                    put("alice", A, "1", n(100), 20, None), bid("carol", A, "1", &[n(100)]), Op::Skip(20 * SEC), settle(A, "1"),
                    approve(A, "1"),
                ]);
                seller = "carol";
            }
            if x[7] > 0 {
                v.push(put("dorae", B, "1", at(50), 40, Some("vault")));
            }
            if x[7] > 1 {
                v.push(bid("carol", B, "1", &[at(51)]));
            }
            if x[7] > 2 {
                v.push(put("alice", A, "2", n(100), 25, None));
                v.push(bid("bobby", A, "2", &[n(111)]));
            }
            let reserve = [n(100), n(137), at(60), (s(OTHER), U(1))][x[8]].clone();
            let dur = [20, 25, 60][x[9]];
            v.push(put(seller, A, "1", reserve.clone(), dur, [None, Some("alice"), Some("vault"), Some("bobby"), Some(B)][x[10]]));
            let mut least = reserve.1 .0;
            if x[21] > 0 {
                v.push(reprice(seller, A, "1", (reserve.0.clone(), U(least + 9))));
                least += 9;
            }
            if x[11] > 0 {
                v.push(Op::Skip(HALF));
            }
            match x[15] {
                1 => v.push(block(6)),
                2 => v.push(block(50)),
                3 => v.extend([block(50), block(10), block(51)]),
                _ => {}
            }
            let mut offer = |by: &str, v: &mut Vec<Op>| {
                let amt = least + [0, 3][x[13]];
                v.push(bid(by, A, "1", &[(reserve.0.clone(), U(amt))]));
                // what exceeds amt * (1 + inc) by the least
                least = amt + (amt * inc + ONE - 1) / ONE;
            };
            for by in [&[][..], &["bobby"], &["royal"], &["bobby", "carol"], &["carol", "bobby", "royal"]][x[12]] {
                offer(by, &mut v);
            }
            match x[16] {
                1 => v.push(block(6)),
                2 => v.extend([block(50), Op::Block(SEC + HALF)]),
                _ => {}
            }
            match x[14] {
                1 => {
                    v.push(block(dur - 10));
                    offer("carol", &mut v);
                }
                2 => {
                    v.push(Op::Block((dur - 10) * SEC + HALF));
                    offer("bobby", &mut v);
                    v.push(block(9));
                    offer("royal", &mut v);
                }
                _ => {}
            }
            match x[17] {
                1 => v.push(Op::Params(Upd { ext: Some(60), ..Default::default() })),
                2 => v.push(Op::Params(Upd { inc: Some(U(pct(9))), trading: Some(U(pct(9))), ..Default::default() })),
                3 => v.push(Op::Params(Upd { fair_burn: Some(s("fairburn1")), fee: Some(n(11)), ..Default::default() })),
                4 => v.extend([Op::UnsetMin(vec![s(STARS)]), Op::SetMin(vec![(s("uzzz"), U(3))])]),
                5 => v.push(Op::Params(Upd { max_settle: Some(3), min_dur: Some(33), ..Default::default() })),
                6 => v.push(Op::Params(Upd { thr: Some(18), buf: Some(21), post: Some(17), ..Default::default() })),
                _ => {}
            }
            match x[18] {
                1 => v.push(Op::Coll { addr: s(A), royalty, start: Some(T0 + 10_000 * SEC), plain: false }),
                2 => v.push(Op::Coll { addr: s(A), royalty: Some((s("erica"), U(pct(10)))), start: None, plain: false }),
                _ => {}
            }
            if x[20] > 0 {
                v.push(Op::End);
            }
            match x[19] {
                1 => v.push(block(14)),
                2 => v.push(block(20)),
                3 => v.push(block(26)),
                4 => v.extend([block(20), block(55)]),
                _ => {}
            }
            v
        })
        .collect()
}
fn circumstances(t: usize, depth: usize) -> Scenario<Op> {
    let mut v = vec![
        Op::End,
        block(1),
        block(5),
        Op::Block(9 * SEC + HALF),
        block(20),
        block(50),
        approve(A, "1"),
        create("alice", A, "1", n(101), 25, Some("bobby")),
        create("bobby", A, "1", at(60), 33, None),
        create("carol", A, "1", n(100), 20, Some("royal")),
        create("alice", A, "2", at(60), 30, None),
        Op::Create { by: s("alice"), coll: s(A), tok: s("2"), reserve: n(100), duration: 40, recipient: Some(s("carol")), funds: vec![] },
        Op::Create { by: s("bobby"), coll: s(A), tok: s("1"), reserve: n(100), duration: 40, recipient: None, funds: vec![at(3)] },
        Op::Create { by: s("alice"), coll: s(A), tok: s("2"), reserve: n(100), duration: 40, recipient: None, funds: vec![n(11)] },
        Op::Migrate,
        cancel("dorae", B, "1"),
        reprice("dorae", B, "1", at(55)),
        bid("royal", B, "1", &[at(56)]),
        bid("carol", A, "2", &[n(175)]),
        Op::Coll { addr: s(A), royalty: Some((s("alice"), U(pct(10)))), start: None, plain: false },
        Op::Params(Upd { max_settle: Some(1), post: Some(0), ..Default::default() }),
        Op::Params(Upd { thr: Some(16), buf: Some(5), ..Default::default() }),
    ];
    for (c, t) in [(A, "1"), (A, "2"), (B, "1")] {
        for by in ["erica", "alice", "bobby"] {
            v.push(Op::Settle { by: s(by), coll: s(c), tok: s(t), funds: vec![] });
        }
    }
    for by in ["alice", "bobby", "carol"] {
        v.push(cancel(by, A, "1"));
        v.push(reprice(by, A, "1", n(120)));
        v.push(reprice(by, A, "1", at(55)));
    }
    for by in ["alice", "bobby", "carol", "royal"] {
        for x in [n(100), n(113), n(137), n(155), n(230), n(700), at(60), at(64), at(95), at(400)] {
            v.push(bid(by, A, "1", &[x]));
        }
        for x in [1, 2, 4, 7, 60] {
            v.push(bid(by, A, "1", &[(s(OTHER), U(x))]));
        }
    }
    Scenario::new(&format!("every combination of {t} circumstances"), rows(t), v, depth).skipping()
}

pub fn plan(prop: &str, thorough: bool) -> Option<PropPlan<Op>> {
    let t = thorough;
    let d = |q: usize, th: usize| if t { th } else { q };
    let l = if t { 2 } else { 1 };
    let mut scenarios = match prop {
        "R01" => vec![life(d(4, 6)), roles(d(3, 5)), odd(d(3, 4)), core(d(12, 16)), running(d(8, 11)), pair(d(10, 13)), stray(d(4, 6)), settle_env(d(7, 10)), halts2(d(4, 6))],
        "R02" => vec![life(d(4, 6)), roles(d(3, 5)), odd(d(3, 4)), first_bids(), increments(t), running(d(8, 11)), core(d(10, 14)), clock_params(d(6, 8))],
        "R03" => vec![life(d(4, 6)), roles(d(3, 5)), odd(d(3, 4)), core(d(12, 16)), running(d(8, 11)), pair(d(10, 13)), create_env(d(8, 11))],
        "R04" => vec![life(d(4, 6)), odd(d(3, 4)), clock(d(5, 6)), clock_params(d(6, 8)), running(d(6, 8)), halts2(d(4, 6))],
        "R05" => vec![life(d(4, 6)), roles(d(3, 5)), odd(d(3, 4)), payouts(t), settle_env(d(7, 10)), core(d(10, 14)), pair(d(7, 10)), end_block(d(4, 6), t), unpayable()],
        "R06" => vec![life(d(4, 6)), odd(d(3, 4)), end_block(d(5, 6), t), unpayable(), edges(d(5, 8)), clock(d(4, 6)), settle_env(d(5, 8)), halts2(d(5, 7)), pair(d(7, 10))],
        "R07" => vec![life(d(4, 6)), odd(d(3, 4)), edges(d(6, 8)), halts(d(5, 6), t), halts2(d(6, 7)), halt_params(d(6, 7))],
        "R08" => vec![life(d(4, 6)), odd(d(3, 4)), creating(), create_env(d(9, 12)), stray(d(3, 6)), core(d(10, 14))],
        "R09" => vec![life(d(2, 4)).inspected(l), odd(d(2, 3)).inspected(1), book(d(5, 7), l), full_book(l, t), long_book(t), halts2(d(3, 4)).inspected(1)],
        "R10" => vec![life_migrated(d(4, 6)), governance(d(5, 6)), inits(), create_env(d(8, 11)), halt_params(d(4, 6))],
        "R11" => vec![life(d(4, 6)), roles(d(3, 5)), odd(d(3, 4)), core(d(10, 14)), halts2(d(4, 6)), governance(d(5, 6)), settle_env(d(6, 9)), end_block(d(4, 5), t)],
        _ => return None,
    };
    match prop {
        "R09" => scenarios.push(circumstances(2, d(1, 2)).inspected(1)),
        "R10" => {
            let mut sc = circumstances(3, d(1, 2));
            sc.name = format!("{}, with a migration", sc.name);
            for r in &mut sc.roots {
                r.push(Op::Twin);
            }
            scenarios.push(sc);
        }
        _ => scenarios.extend([circumstances(4, d(1, 2)), circumstances(3, d(2, 3))]),
    }
    Some(PropPlan { scenarios, budget_s: if t { 3000 } else { 300 } })
}
