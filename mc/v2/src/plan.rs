//! Scenarios: which operation sequences are enumerated for which property.
use crate::model::*;
use crate::sys::{ATOM, OTHER, STARS};
use mchost::cli::PropPlan;
use mchost::*;

const T0: u64 = 1_700_000_000 * SEC;
const PAYERS: &[&str] = &["alice", "dorae", "bobby", "carol", "admin", "erica", "royal", "vault"];
const USERS: &[&str] = &["alice", "dorae", "bobby", "carol"];
const A: &str = "colaa";
const B: &str = "colbb";
const P: &str = "colpp";
const BPS: u128 = ONE / 10_000;
const MAXU: u128 = u128::MAX;

fn s(x: &str) -> String {
    x.to_string()
}
fn n(x: u128) -> C {
    (s(STARS), U(x))
}
fn at(x: u128) -> C {
    (s(ATOM), U(x))
}
fn os(x: u128) -> C {
    (s(OTHER), U(x))
}
fn d(p: C) -> D {
    D { price: p, rec: None, finder: None }
}
fn dd(p: C, rec: Option<&str>, finder: Option<&str>) -> D {
    D { price: p, rec: rec.map(s), finder: finder.map(s) }
}
fn cfg() -> Cfg {
    Cfg {
        manager: s("feeman"), registry: s(REGISTRY), fee: 200, max_roy: 500, maker: 4000, taker: 1000, denom: s(STARS),
    }
}
fn owner(c: &str) -> &'static str {
    if c == A {
        "alice"
    } else {
        "dorae"
    }
}
/// the NFTs belong to alice (colaa) and dorae (others) and are approved; listing costs 5ustars or 3uatom
fn world(c: Cfg, nfts: &[(&str, &[&str])]) -> Vec<Op> {
    let mut v = vec![
        Op::Universe {
            nfts: nfts.iter().map(|(c, t)| (s(c), t.iter().map(|x| s(x)).collect())).collect(),
            users: USERS.iter().map(|x| s(x)).collect(),
        },
        Op::Fund(PAYERS.iter().map(|x| s(x)).collect()),
        Op::At(T0),
    ];
    for (c, ts) in nfts {
        v.push(Op::Coll {
            addr: s(c),
            royalty: if *c == A { Some((s("royal"), U(300 * BPS))) } else { None },
            start: None,
            plain: *c == P,
        });
        for t in *ts {
            v.push(Op::Mint { coll: s(c), tok: s(t), owner: s(owner(c)) });
            v.push(approve(c, t));
        }
    }
    v.push(Op::Init(c));
    v.push(fee(n(5)));
    v.push(fee(at(3)));
    v
}
fn cat(parts: &[Vec<Op>]) -> Vec<Op> {
    parts.iter().flatten().cloned().collect()
}
fn approve(c: &str, t: &str) -> Op {
    Op::Approve { coll: s(c), tok: s(t), until: None }
}
fn fee(c: C) -> Op {
    Op::Fee { by: s("admin"), fee: c, funds: vec![] }
}
fn denom(c: &str, x: &str) -> Op {
    Op::Denom { by: s("admin"), coll: s(c), denom: s(x), funds: vec![] }
}
fn config(c: Cfg) -> Op {
    Op::Config { by: s("admin"), cfg: c, funds: vec![] }
}
fn lf(p: &C) -> Vec<C> {
    vec![if p.0 == ATOM { at(3) } else { n(5) }]
}
fn ask(by: &str, c: &str, t: &str, x: D) -> Op {
    Op::SetAsk { by: s(by), coll: s(c), tok: s(t), funds: lf(&x.price), d: x, now: false }
}
fn sell(by: &str, c: &str, t: &str, x: D) -> Op {
    Op::SetAsk { by: s(by), coll: s(c), tok: s(t), funds: lf(&x.price), d: x, now: true }
}
fn upd_ask(by: &str, r: Ref, x: D) -> Op {
    Op::UpdAsk { by: s(by), r, d: x, funds: vec![] }
}
fn del_ask(by: &str, r: Ref) -> Op {
    Op::DelAsk { by: s(by), r, funds: vec![] }
}
fn take_ask(by: &str, r: Ref, x: D, f: &[C]) -> Op {
    Op::TakeAsk { by: s(by), r, d: x, funds: f.to_vec() }
}
fn bid(by: &str, c: &str, t: &str, x: D) -> Op {
    Op::SetBid { by: s(by), coll: s(c), tok: s(t), funds: vec![x.price.clone()], d: x, now: false }
}
fn buy(by: &str, c: &str, t: &str, x: D, f: &[C]) -> Op {
    Op::SetBid { by: s(by), coll: s(c), tok: s(t), d: x, funds: f.to_vec(), now: true }
}
fn upd_bid(by: &str, r: Ref, x: D, f: &[C]) -> Op {
    Op::UpdBid { by: s(by), r, d: x, funds: f.to_vec() }
}
fn del_bid(by: &str, r: Ref) -> Op {
    Op::DelBid { by: s(by), r, funds: vec![] }
}
fn take_bid(by: &str, r: Ref, x: D) -> Op {
    Op::TakeBid { by: s(by), r, d: x, funds: vec![] }
}
fn cbid(by: &str, c: &str, x: D) -> Op {
    Op::SetCBid { by: s(by), coll: s(c), funds: vec![x.price.clone()], d: x, now: false }
}
fn cbuy(by: &str, c: &str, x: D, f: &[C]) -> Op {
    Op::SetCBid { by: s(by), coll: s(c), d: x, funds: f.to_vec(), now: true }
}
fn upd_cbid(by: &str, r: Ref, x: D, f: &[C]) -> Op {
    Op::UpdCBid { by: s(by), r, d: x, funds: f.to_vec() }
}
fn del_cbid(by: &str, r: Ref) -> Op {
    Op::DelCBid { by: s(by), r, funds: vec![] }
}
fn take_cbid(by: &str, r: Ref, t: &str, x: D) -> Op {
    Op::TakeCBid { by: s(by), r, tok: s(t), d: x, funds: vec![] }
}
const L0: Ref = Ref::Live(0);
const L1: Ref = Ref::Live(1);
const DEAD: Ref = Ref::Dead;

/// one NFT, every kind of message, two bidders
fn core(depth: usize) -> Scenario<Op> {
    let a = vec![
        ask("alice", A, "1", d(n(100))),
        ask("alice", A, "1", dd(n(110), Some("vault"), Some("finda"))),
        sell("alice", A, "1", d(n(105))),
        upd_ask("alice", L0, d(n(100))),
        upd_ask("bobby", L0, d(n(90))),
        del_ask("alice", L0),
        del_ask("carol", L0),
        take_ask("carol", L0, dd(n(110), None, Some("findb")), &[n(110)]),
        bid("bobby", A, "1", d(n(100))),
        bid("bobby", A, "1", dd(n(109), Some("vault"), Some("findb"))),
        buy("bobby", A, "1", d(n(105)), &[n(105)]),
        upd_bid("bobby", L0, d(n(105)), &[n(5)]),
        upd_bid("bobby", L0, d(n(90)), &[]),
        upd_bid("carol", L0, d(n(90)), &[]),
        del_bid("bobby", L0),
        del_bid("carol", L0),
        take_bid("alice", L0, d(n(100))),
        take_bid("alice", L1, dd(n(50), Some("vault"), Some("finda"))),
        cbid("carol", A, d(n(100))),
        cbid("carol", A, dd(n(107), None, Some("findb"))),
        cbuy("carol", A, d(n(105)), &[n(105)]),
        upd_cbid("carol", L0, d(n(108)), &[n(8)]),
        upd_cbid("bobby", L0, d(n(1)), &[]),
        del_cbid("carol", L0),
        take_cbid("alice", L0, "1", d(n(100))),
        // the buyer sells on
        approve(A, "1"),
        ask("bobby", A, "1", d(n(108))),
        take_bid("alice", DEAD, d(n(1))),
        take_cbid("alice", DEAD, "1", d(n(1))),
    ];
    Scenario::new("core", vec![world(cfg(), &[(A, &["1"])])], a, depth)
}
/// several NFTs of two collections and several bidders: who trades with whom
fn market(depth: usize) -> Scenario<Op> {
    let a = vec![
        ask("alice", A, "1", d(n(100))),
        ask("alice", A, "2", d(n(100))),
        ask("alice", A, "2", d(n(105))),
        ask("dorae", B, "1", d(n(95))),
        bid("bobby", A, "1", d(n(90))),
        bid("carol", A, "1", d(n(95))),
        bid("bobby", A, "2", d(n(102))),
        bid("bobby", B, "1", d(n(92))),
        cbid("bobby", A, d(n(93))),
        cbid("carol", A, d(n(95))),
        cbid("carol", A, d(n(105))),
        cbid("carol", B, d(n(96))),
        upd_ask("alice", L0, d(n(93))),
        upd_ask("alice", L1, d(n(96))),
        upd_bid("bobby", L0, d(n(103)), &[n(20)]),
        upd_cbid("bobby", L0, d(n(103)), &[n(20)]),
        sell("alice", A, "1", d(n(90))),
        cbuy("bobby", A, d(n(120)), &[n(120)]),
        take_cbid("alice", L0, "2", d(n(90))),
        take_bid("alice", L0, d(n(90))),
    ];
    Scenario::new("market", vec![world(cfg(), &[(A, &["1", "2"]), (B, &["1"])])], a, depth)
}
/// one account in several roles: seller, buyer, recipient, finder, creator of the collection, fee manager
fn roles(thorough: bool) -> Scenario<Op> {
    let mut roots = vec![];
    let recs = [None, Some("alice"), Some("bobby"), Some("royal")];
    let finders = [None, Some("alice"), Some("bobby"), Some("feeman")];
    for manager in ["feeman", "alice", "bobby"] {
        for royal in ["royal", "alice", "bobby", "feeman"] {
            let w = || {
                let mut w = world(Cfg { manager: s(manager), fee: 1000, ..cfg() }, &[(A, &["1"])]);
                w.push(Op::Coll { addr: s(A), royalty: Some((s(royal), U(300 * BPS))), start: None, plain: false });
                w
            };
            for rec in recs {
                for fi in finders {
                    roots.push(cat(&[w(), vec![ask("alice", A, "1", dd(n(1009), rec, fi))]]));
                    roots.push(cat(&[w(), vec![bid("bobby", A, "1", dd(n(1009), rec, fi))]]));
                    roots.push(cat(&[w(), vec![cbid("bobby", A, dd(n(1009), rec, fi))]]));
                    roots.push(cat(&[w(), vec![cbid("alice", A, dd(n(1009), rec, fi))]]));
                    roots.push(cat(&[w(), vec![bid("alice", A, "1", dd(n(1009), rec, fi))]]));
                }
            }
        }
    }
    let mut a = vec![del_ask("alice", L0), del_bid("bobby", L0), del_cbid("bobby", L0)];
    for rec in recs {
        for fi in finders {
            let (hi, lo) = (|| dd(n(1013), rec, fi), || dd(n(500), rec, fi));
            a.extend([
                take_ask("bobby", L0, hi(), &[n(1013)]),
                bid("bobby", A, "1", hi()),
                cbid("bobby", A, hi()),
                bid("alice", A, "1", hi()),
                take_bid("alice", L0, lo()),
                take_cbid("alice", L0, "1", lo()),
                ask("alice", A, "1", lo()),
                sell("alice", A, "1", lo()),
                upd_ask("alice", L0, dd(n(1011), rec, fi)),
                upd_bid("bobby", L0, dd(n(1007), rec, fi), &[]),
                upd_cbid("bobby", L0, dd(n(1007), rec, fi), &[]),
                ask("alice", A, "1", dd(n(1009), rec, fi)),
            ]);
        }
    }
    Scenario::new("one account in several roles", roots, a, if thorough { 2 } else { 1 })
}
/// amounts beyond 64 bits, odd token ids and percentages
fn odd(depth: usize) -> Scenario<Op> {
    const LONG: &str = "a token id that is as long as a sentence; with, some. punctuation?";
    const BIG: u128 = (1 << 64) * 1000 + 1;
    let toks = [LONG, "0", "00", "1/2"];
    let w = world(
        Cfg { fee: 333, max_roy: 777, maker: 3333, taker: 6666, ..cfg() },
        &[(A, &toks), (B, &["0"])],
    );
    let mut a = vec![];
    for t in toks {
        a.extend([
            ask("alice", A, t, d(n(BIG))),
            ask("alice", A, t, dd(n(BIG - 1), Some("vault"), Some("finda"))),
            sell("alice", A, t, d(n(BIG - 2))),
            bid("bobby", A, t, d(n(BIG))),
            bid("carol", A, t, dd(n(BIG - 2), Some("vault"), Some("findb"))),
            buy("bobby", A, t, d(n(BIG + 5)), &[n(BIG + 7)]),
        ]);
    }
    for x in [L0, L1] {
        a.extend([
            upd_ask("alice", x.clone(), d(n(BIG - 3))),
            del_ask("alice", x.clone()),
            take_ask("carol", x.clone(), dd(n(BIG + 1), None, Some("findb")), &[n(BIG + 1)]),
            upd_bid("bobby", x.clone(), d(n(BIG + 3)), &[n(4)]),
            upd_bid("bobby", x.clone(), d(n(1)), &[]),
            del_bid("bobby", x.clone()),
            take_bid("alice", x.clone(), d(n(BIG - 5))),
            upd_cbid("bobby", x.clone(), d(n(BIG + 3)), &[n(4)]),
            upd_cbid("bobby", x.clone(), d(n(2)), &[]),
            del_cbid("bobby", x.clone()),
            take_cbid("alice", x.clone(), "00", d(n(BIG - 5))),
            take_cbid("alice", x, LONG, d(n(BIG - 5))),
        ]);
    }
    a.extend([
        cbid("bobby", A, d(n(BIG - 1))),
        cbid("carol", A, d(n(BIG))),
        cbid("bobby", B, d(n(BIG))),
        cbuy("carol", A, d(n(BIG + 9)), &[n(BIG + 9)]),
        sell("dorae", B, "0", d(n(BIG - 9))),
    ]);
    let roots = vec![
        w.clone(),
        cat(&[w.clone(), vec![
            ask("alice", A, LONG, dd(n(BIG), Some("vault"), Some("finda"))),
            ask("alice", A, "0", d(n(BIG + 1))),
            bid("bobby", A, "0", d(n(BIG - 1))),
            bid("bobby", A, "00", d(n(BIG))),
            bid("carol", A, "1/2", d(n(BIG))),
            cbid("bobby", B, d(n(BIG))),
        ]]),
        cat(&[w, vec![
            ask("alice", A, "1/2", d(n(BIG + 2))),
            bid("bobby", A, LONG, dd(n(BIG), Some("vault"), Some("finda"))),
            cbid("bobby", A, d(n(BIG - 1))),
            cbid("carol", A, d(n(BIG + 1))),
        ]]),
    ];
    Scenario::new("amounts and token ids at the ends of their ranges", roots, a, depth)
}
/// books of three resting orders on either side, then every incoming order
fn best_price(thorough: bool) -> Scenario<Op> {
    let mut roots = vec![];
    let w = || world(cfg(), &[(A, &["1", "2", "3"]), (B, &["1"])]);
    // resting bids: on the NFT, on another, on the collection, on another collection
    let prices: &[u128] = if thorough { &[0, 98, 99, 100, 101] } else { &[0, 99, 100, 101] };
    for &p in prices {
        for &q in prices {
            for &r in prices {
                let mut v = w();
                for (i, (x, by)) in [(p, "bobby"), (q, "carol"), (r, "carol")].into_iter().enumerate() {
                    if x > 0 {
                        v.push(match i {
                            0 => bid(by, A, "1", d(n(x))),
                            1 => bid(by, A, "1", d(n(x))),
                            _ => cbid(by, A, d(n(x))),
                        });
                    }
                }
                v.push(bid("carol", A, "2", d(n(150))));
                v.push(cbid("carol", B, d(n(150))));
                roots.push(v.clone());
                if p == q && q == r && p > 0 {
                    v.push(cbid("bobby", A, d(n(p + 1))));
                    v.push(cbid("carol", A, d(n(p + 1))));
                    roots.push(v);
                }
            }
        }
    }
    // resting asks
    for &p in prices {
        for &q in prices {
            for &r in prices {
                let mut v = w();
                for (x, t) in [(p, "1"), (q, "2"), (r, "3")] {
                    if x > 0 {
                        v.push(ask("alice", A, t, d(n(x))));
                    }
                }
                v.push(ask("dorae", B, "1", d(n(50))));
                roots.push(v);
            }
        }
    }
    let mut a = vec![];
    for p in [97u128, 98, 99, 100, 101, 102, 103] {
        a.push(ask("alice", A, "1", d(n(p))));
        a.push(sell("alice", A, "1", d(n(p))));
        a.push(bid("bobby", A, "1", d(n(p))));
        a.push(buy("bobby", A, "2", d(n(p)), &[n(p)]));
        a.push(cbid("bobby", A, d(n(p))));
        a.push(cbuy("bobby", A, d(n(p)), &[n(p)]));
        a.push(upd_ask("alice", L0, d(n(p))));
        a.push(upd_ask("alice", L1, d(n(p))));
        a.push(upd_bid("bobby", L0, d(n(p)), &[n(p)]));
        a.push(upd_cbid("carol", L0, d(n(p)), &[n(p)]));
    }
    a.push(cbuy("bobby", A, d(n(MAXU)), &[n(200)]));
    a.push(buy("bobby", A, "1", d(n(MAXU)), &[n(200)]));
    a.push(cbuy("bobby", A, d(n(MAXU - 1)), &[n(200)]));
    Scenario::new("best price", roots, a, if thorough { 3 } else { 2 })
}
/// what is paid: fees, rewards, royalties, prices, along every way to sell
fn payouts(thorough: bool) -> Scenario<Op> {
    let mut roots = vec![];
    let fees: Vec<(u64, u64, u64)> = vec![
        (0, 4000, 1000), (200, 0, 0), (200, 4000, 1000), (333, 3333, 1), (9999, 5000, 4999), (1, 1, 9998), (5000, 0, 9999),
    ];
    let roys: Vec<(u64, Option<u128>)> = vec![
        (500, None), (500, Some(0)), (500, Some(300)), (500, Some(500)), (500, Some(501)), (0, Some(300)), (10_000, Some(3333)),
        (20_000, Some(5_000)), (10_000, Some(10_000)),
    ];
    let prices: &[u128] = if thorough {
        &[1, 2, 3, 4, 5, 10, 49, 50, 51, 99, 100, 101, 10_001, 333_333_333_333_333_333_333_333_333]
    } else {
        &[1, 2, 3, 4, 7, 100, 10_001, 333_333_333_333_333_333_333_333_333]
    };
    for (f, m, t) in &fees {
        for (cap, roy) in &roys {
            let mut w = world(Cfg { fee: *f, maker: *m, taker: *t, max_roy: *cap, ..cfg() }, &[(A, &["1"])]);
            for o in &mut w {
                if let Op::Coll { royalty, .. } = o {
                    *royalty = roy.map(|x| (s("royal"), U(x * BPS)));
                }
            }
            for &p in prices {
                for (rec, fi) in [(None, None), (Some("vault"), Some("finda"))] {
                    let mut r = w.clone();
                    r.push(ask("alice", A, "1", dd(n(p), rec, fi)));
                    roots.push(r);
                    let mut r = w.clone();
                    r.push(bid("bobby", A, "1", dd(n(p), rec, fi)));
                    roots.push(r);
                    let mut r = w.clone();
                    r.push(cbid("bobby", A, dd(n(p), rec, fi)));
                    roots.push(r);
                }
            }
        }
    }
    let mut a = vec![];
    let big = 400_000_000_000_000_000_000_000_000u128;
    for (rec, fi) in [(None, None), (None, Some("findb")), (Some("vault"), None), (Some("erica"), Some("findb"))] {
        let hi = || dd(n(big), rec, fi);
        let lo = || dd(n(1), rec, fi);
        a.extend([
            take_ask("carol", L0, hi(), &[n(big)]),
            bid("carol", A, "1", hi()),
            cbid("carol", A, hi()),
            take_bid("alice", L0, lo()),
            take_cbid("alice", L0, "1", lo()),
            ask("alice", A, "1", lo()),
            upd_bid("bobby", L0, hi(), &[n(big)]),
        ]);
    }
    Scenario::new("payouts", roots, a, if thorough { 2 } else { 1 })
}
/// sellers' orders in escrow meeting accepted bids, with recipients and finders everywhere
fn parties(depth: usize) -> Scenario<Op> {
    let root = world(cfg(), &[(A, &["1"])]);
    let mut a = vec![];
    for (rec, fi) in [(None, None), (Some("vault"), Some("finda")), (Some("erica"), Some("findb"))] {
        a.extend([
            ask("alice", A, "1", dd(n(1000), rec, fi)),
            upd_ask("alice", L0, dd(n(1000), rec, fi)),
            upd_ask("alice", L0, dd(n(899), rec, fi)),
            bid("bobby", A, "1", dd(n(900), rec, fi)),
            upd_bid("bobby", L0, dd(n(1000), rec, fi), &[n(100)]),
            cbid("carol", A, dd(n(901), rec, fi)),
            take_bid("alice", L0, dd(n(900), rec, fi)),
            take_cbid("alice", L0, "1", dd(n(900), rec, fi)),
            take_ask("carol", L0, dd(n(1000), rec, fi), &[n(1000)]),
        ]);
    }
    a.push(del_ask("alice", L0));
    Scenario::new("parties", vec![root], a, depth)
}
/// every payment attached to every message
fn payments(depth: usize) -> Scenario<Op> {
    let w = || world(cfg(), &[(A, &["1", "2"])]);
    let book = vec![
        ask("alice", A, "1", d(n(100))),
        bid("bobby", A, "2", d(n(80))),
        cbid("carol", A, d(n(70))),
    ];
    // bids in a denom that the collection has since left
    let moved = cat(&[book.clone(), vec![denom(A, ATOM)]]);
    let roots = vec![w(), cat(&[w(), book]), cat(&[w(), moved])];
    let pays: Vec<Vec<C>> = vec![
        vec![], vec![n(1)], vec![n(5)], vec![n(19)], vec![n(20)], vec![n(21)], vec![n(99)], vec![n(100)], vec![n(101)],
        vec![n(250)], vec![at(100)], vec![at(3), n(100)], vec![at(100), n(5)], vec![os(1), n(20)], vec![os(7)],
        vec![at(3), os(7), n(120)], vec![at(120), os(7), n(120)],
    ];
    let mut a = vec![del_ask("alice", L0), del_bid("bobby", L0), del_cbid("carol", L0)];
    for f in &pays {
        for p in [n(100), at(100)] {
            let x = d(p.clone());
            a.extend([
                Op::SetBid { by: s("bobby"), coll: s(A), tok: s("1"), d: x.clone(), now: false, funds: f.clone() },
                Op::SetBid { by: s("bobby"), coll: s(A), tok: s("1"), d: x.clone(), now: true, funds: f.clone() },
                Op::SetCBid { by: s("bobby"), coll: s(A), d: x.clone(), now: false, funds: f.clone() },
                Op::SetCBid { by: s("bobby"), coll: s(A), d: x.clone(), now: true, funds: f.clone() },
                Op::UpdBid { by: s("bobby"), r: L0, d: x.clone(), funds: f.clone() },
                Op::UpdCBid { by: s("carol"), r: L0, d: x.clone(), funds: f.clone() },
                Op::TakeAsk { by: s("carol"), r: L0, d: x.clone(), funds: f.clone() },
            ]);
        }
        for p in [n(60), n(80), n(75)] {
            let x = d(p);
            a.extend([
                Op::UpdBid { by: s("bobby"), r: L0, d: x.clone(), funds: f.clone() },
                Op::UpdCBid { by: s("carol"), r: L0, d: x.clone(), funds: f.clone() },
            ]);
        }
        a.extend([
            Op::DelAsk { by: s("alice"), r: L0, funds: f.clone() },
            Op::UpdAsk { by: s("alice"), r: L0, d: d(n(90)), funds: f.clone() },
            Op::DelBid { by: s("bobby"), r: L0, funds: f.clone() },
            Op::DelCBid { by: s("carol"), r: L0, funds: f.clone() },
            Op::TakeBid { by: s("alice"), r: L0, d: d(n(70)), funds: f.clone() },
            Op::TakeCBid { by: s("alice"), r: L0, tok: s("2"), d: d(n(70)), funds: f.clone() },
            Op::SetAsk { by: s("alice"), coll: s(A), tok: s("2"), d: d(n(100)), now: false, funds: f.clone() },
            Op::SetAsk { by: s("alice"), coll: s(A), tok: s("2"), d: d(n(75)), now: true, funds: f.clone() },
            Op::Config { by: s("admin"), cfg: Cfg { fee: 201, ..cfg() }, funds: f.clone() },
            Op::Denom { by: s("admin"), coll: s(A), denom: s(ATOM), funds: f.clone() },
            Op::Fee { by: s("admin"), fee: n(6), funds: f.clone() },
            Op::NoFee { by: s("admin"), denom: s(ATOM), funds: f.clone() },
        ]);
    }
    Scenario::new("payments", roots, a, depth)
}
/// a book with something of everything
fn full_book() -> Vec<Op> {
    cat(&[
        world(cfg(), &[(A, &["1", "2", "3"]), (B, &["1"])]),
        vec![
            ask("alice", A, "1", d(n(100))),
            ask("alice", A, "2", d(n(200))),
            ask("dorae", B, "1", d(n(150))),
            bid("bobby", A, "1", d(n(50))),
            bid("carol", A, "1", d(n(60))),
            bid("bobby", A, "3", d(n(55))),
            bid("dorae", B, "1", d(n(45))),
            cbid("bobby", A, d(n(40))),
            cbid("carol", A, d(n(45))),
            cbid("alice", B, d(n(30))),
        ],
    ])
}
/// every message about every order by everybody
fn actors(depth: usize) -> Scenario<Op> {
    let mut a = vec![];
    for by in ["alice", "dorae", "bobby", "carol", "admin", "royal"] {
        for r in [L0, L1, Ref::Live(2), Ref::Live(3), DEAD, Ref::Bogus] {
            a.extend([
                upd_ask(by, r, d(n(190))),
                del_ask(by, r),
                upd_bid(by, r, d(n(48)), &[n(48)]),
                del_bid(by, r),
                take_bid(by, r, d(n(10))),
                upd_cbid(by, r, d(n(48)), &[n(48)]),
                del_cbid(by, r),
                take_ask(by, r, d(n(300)), &[n(300)]),
            ]);
            for t in ["1", "3"] {
                a.push(take_cbid(by, r, t, d(n(10))));
            }
        }
        for (c, t) in [(A, "1"), (A, "3"), (B, "1"), (A, "9")] {
            a.push(ask(by, c, t, d(n(70))));
            a.push(sell(by, c, t, d(n(30))));
        }
        a.extend([
            Op::Config { by: s(by), cfg: Cfg { fee: 300, ..cfg() }, funds: vec![] },
            Op::Denom { by: s(by), coll: s(A), denom: s(ATOM), funds: vec![] },
            Op::Fee { by: s(by), fee: n(6), funds: vec![] },
            Op::NoFee { by: s(by), denom: s(STARS), funds: vec![] },
        ]);
    }
    for by in ["creator", "feeman", "vault", REGISTRY, CONTRACT, A] {
        a.extend([
            Op::Config { by: s(by), cfg: Cfg { fee: 300, ..cfg() }, funds: vec![] },
            Op::Denom { by: s(by), coll: s(A), denom: s(ATOM), funds: vec![] },
            Op::Fee { by: s(by), fee: n(6), funds: vec![] },
            Op::NoFee { by: s(by), denom: s(STARS), funds: vec![] },
            upd_ask(by, L0, d(n(190))),
            del_ask(by, L0),
            del_bid(by, L0),
            del_cbid(by, L0),
            take_bid(by, L0, d(n(10))),
            take_cbid(by, L0, "1", d(n(10))),
            take_cbid(by, L0, "3", d(n(10))),
        ]);
    }
    a.push(Op::Admin(None));
    a.push(Op::Admin(Some(s("carol"))));
    Scenario::new("actors", vec![full_book()], a, depth)
}
/// what acceptances are bound by
fn limits() -> Scenario<Op> {
    let mut a = vec![];
    for p in [1u128, 39, 40, 41, 49, 50, 51, 59, 60, 61, 99, 100, 101, 199, 200, 201, MAXU] {
        for x in [n(p), at(p)] {
            for r in [L0, L1] {
                a.extend([
                    take_ask("carol", r, d(x.clone()), &[at(250), n(250)]),
                    take_bid("alice", r, d(x.clone())),
                    take_cbid("alice", r, "3", d(x.clone())),
                    take_cbid("alice", r, "1", d(x.clone())),
                    take_bid("alice", Ref::Live(2), d(x.clone())),
                ]);
            }
        }
    }
    a.push(take_ask("carol", L0, d(n(0)), &[n(250)]));
    a.push(take_bid("alice", L0, d(n(0))));
    a.push(take_cbid("alice", L0, "3", d(at(0))));
    let later = cat(&[full_book(), vec![denom(A, ATOM)]]);
    // an ask in one denom and a bid in the other for the same NFT
    let mixed = cat(&[later.clone(), vec![bid("carol", A, "1", d(at(40))), cbid("dorae", A, d(at(41)))]]);
    Scenario::new("limits", vec![full_book(), later, mixed], a, 1)
}
/// the rules for an order to be accepted, in every combination
fn entering(depth: usize) -> Scenario<Op> {
    let mut roots = vec![];
    for start in [None, Some(T0 - 1), Some(T0), Some(T0 + 1), Some(T0 + SEC)] {
        for appr in [None, Some(None), Some(Some(T0 + 1)), Some(Some(T0 + SEC))] {
            for den in [None, Some(STARS), Some(ATOM)] {
                for plain in [false, true] {
                    if plain && start.is_some() {
                        continue;
                    }
                    let mut r = world(cfg(), &[(B, &["2"])]);
                    if let Op::Universe { nfts, .. } = &mut r[0] {
                        nfts.extend([(s(B), vec![s("1"), s("9")]), (s("nocoll"), vec![s("1")])]);
                    }
                    r.push(Op::Coll { addr: s(B), royalty: None, start, plain });
                    r.push(Op::Mint { coll: s(B), tok: s("1"), owner: s("dorae") });
                    if let Some(until) = appr {
                        r.push(Op::Approve { coll: s(B), tok: s("1"), until });
                    }
                    if let Some(x) = den {
                        r.push(denom(B, x));
                    }
                    roots.push(r);
                }
            }
        }
    }
    let mut a = vec![
        Op::Skip(1), Op::Skip(SEC), Op::Operator { coll: s(B), owner: s("dorae") }, Op::Revoke { coll: s(B), tok: s("1") },
        Op::Transfer { coll: s(B), tok: s("1"), to: s("bobby") },
    ];
    let fees: Vec<Vec<C>> =
        vec![vec![], vec![n(4)], vec![n(5)], vec![n(6)], vec![at(3)], vec![at(5)], vec![at(3), n(5)], vec![os(5)]];
    for p in [n(0), n(1), n(100), at(0), at(100), os(100)] {
        for by in ["dorae", "bobby"] {
            for f in if by == "dorae" { &fees[..] } else { &fees[2..3] } {
                for now in [false, true] {
                    a.push(Op::SetAsk { by: s(by), coll: s(B), tok: s("1"), d: d(p.clone()), now, funds: f.clone() });
                }
            }
        }
        let f = if p.1 .0 == 0 { vec![] } else { vec![p.clone()] };
        for now in [false, true] {
            for t in ["1", "9"] {
                let x = d(p.clone());
                a.push(Op::SetBid { by: s("carol"), coll: s(B), tok: s(t), d: x, now, funds: f.clone() });
            }
            a.push(Op::SetCBid { by: s("carol"), coll: s(B), d: d(p.clone()), now, funds: f.clone() });
        }
        a.extend([
            upd_ask("dorae", L0, d(p.clone())),
            upd_bid("carol", L0, d(p.clone()), &f),
            upd_cbid("carol", L0, d(p.clone()), &f),
        ]);
    }
    a.push(Op::SetBid { by: s("carol"), coll: s("nocoll"), tok: s("1"), d: d(n(9)), now: false, funds: vec![n(9)] });
    a.push(Op::SetAsk { by: s("carol"), coll: s("nocoll"), tok: s("1"), d: d(n(9)), now: false, funds: vec![n(5)] });
    Scenario::new("entering", roots, a, depth)
}
/// listing fees, denoms and configuration changing under the orders
fn governance(depth: usize) -> Scenario<Op> {
    let mut a = vec![
        fee(n(5)),
        fee(n(6)),
        fee(n(1)),
        fee(n(0)),
        fee(os(2)),
        Op::NoFee { by: s("admin"), denom: s(STARS), funds: vec![] },
        Op::NoFee { by: s("admin"), denom: s(OTHER), funds: vec![] },
        denom(A, ATOM),
        denom(A, STARS),
        denom(B, ATOM),
        config(Cfg { denom: s(ATOM), ..cfg() }),
        config(Cfg { manager: s("feeman2"), fee: 9999, max_roy: 0, maker: 9999, taker: 0, ..cfg() }),
        config(cfg()),
        config(Cfg { fee: 10_000, ..cfg() }),
        config(Cfg { maker: 5000, taker: 5000, ..cfg() }),
        Op::Migrate,
        Op::Skip(SEC),
    ];
    for p in [n(100), at(100)] {
        a.extend([
            ask("alice", A, "1", d(p.clone())),
            bid("bobby", A, "1", d(p.clone())),
            cbid("carol", A, d(p.clone())),
            upd_ask("alice", L0, d(p.clone())),
            upd_bid("bobby", L0, d(p.clone()), &[p.clone()]),
        ]);
    }
    for f in [vec![n(6)], vec![n(1)], vec![os(2)], vec![]] {
        a.push(Op::SetAsk { by: s("alice"), coll: s(A), tok: s("1"), d: d(n(101)), now: false, funds: f });
    }
    a.extend([
        del_ask("alice", L0),
        del_bid("bobby", L0),
        del_cbid("carol", L0),
        take_bid("alice", L0, d(n(90))),
        take_ask("carol", L0, d(n(100)), &[n(100)]),
    ]);
    Scenario::new("governance", vec![world(cfg(), &[(A, &["1"]), (B, &["1"])])], a, depth)
}
/// all configurations around the limits, at creation and as updates of a contract with orders
fn configs() -> Vec<Scenario<Op>> {
    let mut cs = vec![];
    for f in [0u64, 1, 9_999, 10_000, 10_001, u64::MAX] {
        for mr in [0u64, 500, 10_000, 10_001, u64::MAX] {
            for mk in [0u64, 1, 5_000, 9_999, 10_000, u64::MAX] {
                for tk in [0u64, 1, 4_999, 5_000, 9_999, 10_000, u64::MAX] {
                    cs.push(Cfg { fee: f, max_roy: mr, maker: mk, taker: tk, ..cfg() });
                }
            }
        }
    }
    cs.push(Cfg { manager: s("other1"), denom: s(OTHER), ..cfg() });
    let base: Vec<Op> = world(cfg(), &[(B, &["1"])])
        .into_iter()
        .filter(|o| !matches!(o, Op::Init(_) | Op::Fee { .. }))
        .collect();
    let a: Vec<Op> = cs.iter().cloned().map(Op::Init).collect();
    let b: Vec<Op> = cs.iter().cloned().map(config).chain([Op::Migrate]).collect();
    let out = vec![
        del_ask("alice", L0), del_ask("dorae", Ref::Live(2)), del_bid("bobby", L0), del_bid("carol", L1), del_cbid("bobby", L0),
        take_bid("alice", L0, d(n(1))), take_ask("carol", L0, d(n(100)), &[n(100)]), ask("alice", A, "3", d(n(56))),
        ask("alice", A, "3", d(os(56))), bid("bobby", A, "1", d(n(56))), cbid("bobby", A, d(os(56))),
    ];
    vec![Scenario::new("inits", vec![base], a, 1), Scenario::phased("configs", vec![full_book()], vec![b, out])]
}
/// where royalties come from
fn royalties(thorough: bool) -> Scenario<Op> {
    let sh: &[Option<u128>] = if thorough { &[None, Some(0), Some(1), Some(250), Some(500), Some(900)] } else { &[None, Some(0), Some(250), Some(900)] };
    let mut roots = vec![];
    for roy in sh {
        for def in sh {
            for pro in sh {
                for (cap, plain) in [(500, false), (0, false), (1000, false), (500, true)] {
                    let mut w = world(Cfg { max_roy: cap, ..cfg() }, &[(B, &["1", "2"])]);
                    w.push(Op::Coll { addr: s(B), royalty: roy.map(|x| (s("royal"), U(x * BPS))), start: Some(T0), plain });
                    w.push(Op::RegDefault { coll: s(B), entry: def.map(|x| (s("regd"), U(x * BPS))) });
                    w.push(Op::RegProtocol { coll: s(B), protocol: s(CONTRACT), entry: pro.map(|x| (s("regp"), U(x * BPS))) });
                    w.push(Op::RegProtocol { coll: s(B), protocol: s("othermarket"), entry: Some((s("regx"), U(400 * BPS))) });
                    w.push(Op::RegDefault { coll: s(A), entry: Some((s("regx"), U(400 * BPS))) });
                    roots.push(w);
                }
            }
        }
    }
    let a = vec![
        ask("dorae", B, "1", d(n(1000))),
        bid("bobby", B, "1", d(n(1000))),
        cbid("carol", B, d(n(1001))),
        take_ask("bobby", L0, d(n(1000)), &[n(1000)]),
        take_bid("dorae", L0, d(n(1000))),
        take_cbid("dorae", L0, "2", d(n(1000))),
    ];
    Scenario::new("royalties", roots, a, if thorough { 5 } else { 4 })
}
/// the sources of royalties changing between sales
fn royalty_changes(depth: usize) -> Scenario<Op> {
    let e = |x: &str, b: u128| Some((s(x), U(b * BPS)));
    let coll = |r: Option<(String, U)>| Op::Coll { addr: s(B), royalty: r, start: None, plain: false };
    let a = vec![
        coll(e("royal", 300)),
        coll(e("royal", 700)),
        coll(None),
        Op::Coll { addr: s(B), royalty: None, start: None, plain: true },
        Op::RegDefault { coll: s(B), entry: e("regd", 200) },
        Op::RegDefault { coll: s(B), entry: None },
        Op::RegProtocol { coll: s(B), protocol: s(CONTRACT), entry: e("regp", 100) },
        Op::RegProtocol { coll: s(B), protocol: s(CONTRACT), entry: None },
        config(Cfg { max_roy: 50, ..cfg() }),
        config(cfg()),
        ask("dorae", B, "1", d(n(1000))),
        bid("bobby", B, "1", d(n(1000))),
        cbid("bobby", B, d(n(1000))),
        take_cbid("dorae", L0, "2", d(n(1000))),
    ];
    Scenario::new("royalty changes", vec![world(cfg(), &[(B, &["1", "2"])])], a, depth)
}
/// books in which the listings are checked in every state
fn listings(depth: usize, level: u32) -> Scenario<Op> {
    let a = vec![
        ask("alice", A, "1", d(n(100))),
        ask("alice", A, "2", d(n(100))),
        ask("alice", A, "10", d(n(9))),
        ask("dorae", B, "1", d(n(100))),
        bid("bobby", A, "1", d(n(5))),
        bid("carol", A, "1", d(n(5))),
        bid("bobby", A, "1", d(n(8))),
        bid("bobby", A, "10", d(n(5))),
        bid("bobby", B, "1", d(n(5))),
        cbid("bobby", A, d(n(5))),
        cbid("carol", A, d(n(8))),
        cbid("bobby", B, d(n(8))),
        upd_ask("alice", L0, d(n(90))),
        upd_bid("bobby", L0, d(n(6)), &[n(3)]),
        upd_cbid("bobby", L0, d(n(6)), &[n(3)]),
        upd_bid("bobby", L0, d(at(6)), &[at(6)]),
        del_ask("alice", L0),
        del_bid("bobby", L0),
        del_cbid("bobby", L0),
        denom(A, ATOM),
        ask("alice", A, "2", d(at(7))),
        bid("carol", A, "1", d(at(7))),
    ];
    Scenario::new("listings", vec![world(cfg(), &[(A, &["1", "10", "2"]), (B, &["1"])])], a, depth).inspected(level)
}
/// many orders of a kind
fn long_lists(thorough: bool) -> Scenario<Op> {
    let sizes: &[usize] = if thorough { &[4, 5, 6, 9, 10, 11, 12, 20, 21] } else { &[5, 9, 10, 11] };
    let mut roots = vec![];
    for &k in sizes {
        let toks: Vec<String> = (1..=k).map(|i| i.to_string()).collect();
        let tr: Vec<&str> = toks.iter().map(|x| x.as_str()).collect();
        for kind in 0..3 {
            let mut r = world(cfg(), &[(A, &tr)]);
            for (i, t) in tr.iter().enumerate() {
                let p = 100 + (i as u128 * 7) % 5;
                r.push(match kind {
                    0 => ask("alice", A, t, d(n(p))),
                    1 => bid("bobby", A, "1", d(n(p))),
                    _ => cbid("bobby", A, d(n(p))),
                });
            }
            roots.push(r);
        }
    }
    let a = vec![
        del_ask("alice", L1), upd_ask("alice", L1, d(n(1))), del_bid("bobby", L1), upd_bid("bobby", L1, d(n(1)), &[]),
        del_cbid("bobby", L1), upd_cbid("bobby", L1, d(n(1)), &[]),
    ];
    Scenario::new("long lists", roots, a, 1).inspected(1)
}
/// orders that ceased to exist, used again; the same orders in one block and in several
fn ghosts(depth: usize) -> Scenario<Op> {
    let mut a = vec![
        Op::Skip(SEC),
        approve(A, "1"),
        ask("alice", A, "1", d(n(100))),
        ask("bobby", A, "1", d(n(100))),
        bid("bobby", A, "1", d(n(100))),
        cbid("bobby", A, d(n(100))),
        bid("bobby", A, "2", d(n(100))),
        del_ask("alice", L0),
        del_bid("bobby", L0),
        del_cbid("bobby", L0),
        take_bid("alice", L0, d(n(100))),
        take_cbid("alice", L0, "1", d(n(100))),
        take_ask("bobby", L0, d(n(100)), &[n(100)]),
    ];
    a.extend([
        upd_ask("alice", DEAD, d(n(99))),
        del_ask("alice", DEAD),
        take_ask("carol", DEAD, d(n(100)), &[n(100)]),
        upd_bid("bobby", DEAD, d(n(101)), &[n(1)]),
        del_bid("bobby", DEAD),
        take_bid("alice", DEAD, d(n(100))),
        upd_cbid("bobby", DEAD, d(n(101)), &[n(1)]),
        del_cbid("bobby", DEAD),
        take_cbid("alice", DEAD, "2", d(n(100))),
    ]);
    Scenario::new("ghosts", vec![world(cfg(), &[(A, &["1", "2"])])], a, depth)
}

/// books at every phase of a market's life
fn lives() -> Vec<Vec<Op>> {
    let w = |c: Cfg| world(c, &[(A, &["1", "2"]), (B, &["1"])]);
    let asks = || {
        vec![
            ask("alice", A, "1", dd(n(100), Some("vault"), Some("finda"))),
            ask("alice", A, "2", d(n(120))),
            ask("dorae", B, "1", dd(n(95), None, Some("findb"))),
        ]
    };
    let bids = || {
        vec![
            bid("bobby", A, "1", dd(n(90), Some("vault"), None)),
            bid("carol", A, "1", dd(n(95), None, Some("findb"))),
            cbid("bobby", A, dd(n(85), Some("erica"), Some("finda"))),
            cbid("carol", A, d(n(93))),
            cbid("alice", B, d(n(50))),
        ]
    };
    let e = |x: &str, b: u128| Some((s(x), U(b * BPS)));
    vec![
        // nothing yet
        w(cfg()),
        // asks only
        cat(&[w(cfg()), asks()]),
        // bids only
        cat(&[w(cfg()), bids()]),
        // both sides, made in different blocks
        cat(&[w(cfg()), bids(), vec![Op::Skip(SEC)], asks()]),
        // the collection has moved to another denom, with new orders in that
        cat(&[
            w(cfg()), asks(), bids(),
            vec![denom(A, ATOM), bid("carol", A, "1", d(at(90))), cbid("bobby", A, dd(at(95), None, Some("finda"))), upd_ask("alice", L1, d(at(100)))],
        ]),
        // it has moved and come back
        cat(&[w(cfg()), asks(), bids(), vec![denom(A, ATOM), cbid("carol", A, d(at(150))), bid("bobby", A, "2", d(at(130))), denom(A, STARS)]]),
        // the default denom has changed under collections without their own; listing costs nothing in it
        cat(&[w(cfg()), asks(), bids(), vec![config(Cfg { denom: s(OTHER), manager: s("feeman2"), ..cfg() }), cbid("carol", A, d(os(200))), fee(os(0))]]),
        // other fees than when the orders came
        cat(&[
            w(cfg()), asks(), bids(),
            vec![config(Cfg { fee: 9_000, max_roy: 1_100, maker: 1, taker: 9_998, ..cfg() }), Op::NoFee { by: s("admin"), denom: s(STARS), funds: vec![] }],
        ]),
        // no protocol fee, no cap on royalties to speak of
        cat(&[w(Cfg { fee: 0, max_roy: 10_000, ..cfg() }), bids(), vec![ask("alice", A, "2", dd(n(94), Some("royal"), None))]]),
        // a seller who also bids, on the own NFT too
        cat(&[w(cfg()), asks(), vec![bid("alice", A, "1", d(n(99))), cbid("alice", A, dd(n(98), Some("bobby"), None)), bid("alice", B, "1", d(n(94)))]]),
        // sold, and offered by the buyer; another bought by a collection bid
        cat(&[
            w(cfg()), asks(), bids(),
            vec![
                buy("bobby", A, "1", d(n(100)), &[n(130)]), Op::Skip(SEC), approve(A, "1"),
                ask("bobby", A, "1", dd(n(110), Some("alice"), Some("findb"))), take_cbid("alice", L1, "2", d(n(93))),
            ],
        ]),
        // entries in the royalty registry
        cat(&[
            w(cfg()), asks(), bids(),
            vec![
                Op::RegDefault { coll: s(A), entry: e("regd", 100) },
                Op::RegDefault { coll: s(B), entry: e("regd", 900) },
                Op::RegProtocol { coll: s(A), protocol: s(CONTRACT), entry: e("regp", 600) },
            ],
        ]),
        // no admin
        cat(&[w(cfg()), asks(), bids(), vec![Op::Admin(None)]]),
        // equally good bids and asks
        cat(&[
            w(cfg()),
            vec![
                bid("bobby", A, "1", d(n(90))), bid("carol", A, "1", d(n(90))), cbid("carol", A, d(n(90))), cbid("bobby", A, d(n(90))),
                ask("alice", A, "2", d(n(100))), ask("dorae", B, "1", d(n(100))),
            ],
        ]),
        // not tradable again
        cat(&[
            w(cfg()), asks(), bids(),
            vec![Op::Coll { addr: s(A), royalty: None, start: Some(T0 + 2 * SEC), plain: false }, Op::Skip(SEC)],
        ]),
    ]
}
/// everything that can be done then
fn life(depth: usize) -> Scenario<Op> {
    let e = |x: &str, b: u128| Some((s(x), U(b * BPS)));
    let a = vec![
        ask("alice", A, "1", d(n(93))),
        ask("alice", A, "1", dd(at(95), Some("vault"), Some("finda"))),
        ask("alice", A, "2", dd(n(90), Some("bobby"), None)),
        Op::SetAsk { by: s("alice"), coll: s(A), tok: s("1"), d: d(os(150)), now: false, funds: vec![] },
        sell("alice", A, "1", dd(n(91), None, Some("findb"))),
        sell("dorae", B, "1", d(n(50))),
        ask("bobby", A, "1", d(n(101))),
        upd_ask("alice", L0, dd(n(95), None, Some("finda"))),
        upd_ask("alice", L0, d(n(130))),
        upd_ask("alice", L0, d(at(90))),
        upd_ask("alice", L1, dd(n(98), Some("dorae"), None)),
        upd_ask("bobby", L0, d(n(80))),
        del_ask("alice", L0),
        del_ask("alice", L1),
        del_ask("vault", L0),
        take_ask("carol", L0, dd(n(120), Some("erica"), Some("findb")), &[n(125), at(3)]),
        take_ask("carol", L0, d(n(99)), &[n(200)]),
        take_ask("alice", L0, d(n(150)), &[n(150)]),
        take_ask("bobby", L1, d(at(100)), &[at(100)]),
        bid("bobby", A, "1", d(n(92))),
        bid("carol", A, "1", dd(n(100), Some("vault"), Some("finda"))),
        Op::SetBid { by: s("carol"), coll: s(A), tok: s("2"), d: d(n(125)), now: false, funds: vec![n(121), os(4)] },
        bid("bobby", A, "1", d(at(90))),
        bid("alice", A, "1", dd(n(105), Some("bobby"), None)),
        buy("bobby", A, "2", d(n(120)), &[n(120), n(1)]),
        buy("dorae", A, "1", d(at(97)), &[at(100)]),
        upd_bid("bobby", L0, dd(n(80), Some("carol"), None), &[]),
        upd_bid("bobby", L0, d(n(96)), &[n(6)]),
        upd_bid("bobby", L0, d(n(120)), &[n(10), at(2)]),
        upd_bid("bobby", L0, d(at(91)), &[at(91)]),
        upd_bid("carol", L1, dd(n(95), None, None), &[]),
        upd_bid("carol", L0, d(n(99)), &[n(99)]),
        del_bid("bobby", L0),
        del_bid("carol", L1),
        del_bid("bobby", L1),
        take_bid("alice", L0, dd(n(90), Some("dorae"), Some("findb"))),
        take_bid("alice", L1, d(n(91))),
        take_bid("bobby", L1, d(n(1))),
        cbid("bobby", A, d(n(94))),
        cbid("carol", A, dd(n(121), None, Some("finda"))),
        cbid("carol", A, d(at(96))),
        cbid("alice", A, d(n(122))),
        cbuy("bobby", A, dd(n(101), Some("alice"), None), &[n(120)]),
        cbuy("dorae", A, d(os(150)), &[os(150)]),
        upd_cbid("bobby", L0, d(n(97)), &[n(12)]),
        upd_cbid("bobby", L0, d(at(80)), &[at(80)]),
        upd_cbid("carol", L1, dd(n(60), Some("vault"), None), &[]),
        upd_cbid("carol", L1, d(n(101)), &[n(20)]),
        del_cbid("bobby", L0),
        del_cbid("carol", L1),
        del_cbid("carol", L0),
        take_cbid("alice", L0, "1", dd(n(80), Some("erica"), None)),
        take_cbid("alice", L1, "2", d(n(90))),
        take_cbid("dorae", L0, "1", d(n(80))),
        take_bid("alice", DEAD, d(n(1))),
        del_ask("alice", DEAD),
        upd_cbid("carol", DEAD, d(n(101)), &[n(101)]),
        denom(A, ATOM),
        denom(A, STARS),
        config(Cfg { denom: s(ATOM), maker: 0, taker: 9_999, ..cfg() }),
        config(Cfg { fee: 10_000, ..cfg() }),
        config(Cfg { max_roy: 0, manager: s("royal"), ..cfg() }),
        fee(n(6)),
        fee(at(0)),
        Op::NoFee { by: s("admin"), denom: s(ATOM), funds: vec![] },
        Op::Fee { by: s("feeman"), fee: n(1), funds: vec![] },
        approve(A, "1"),
        Op::Revoke { coll: s(A), tok: s("1") },
        Op::Transfer { coll: s(A), tok: s("1"), to: s("bobby") },
        Op::Coll { addr: s(A), royalty: e("carol", 700), start: None, plain: false },
        Op::RegProtocol { coll: s(A), protocol: s(CONTRACT), entry: e("regp", 0) },
        Op::Admin(Some(s("carol"))),
        Op::Skip(SEC),
    ];
    Scenario::new("books at every phase under changing settings", lives(), a, depth)
}
/// the same, with and without a migration: what follows is the same
fn life_migrated(depth: usize) -> Scenario<Op> {
    let mut sc = life(depth);
    sc.name = "books at every phase, with a migration".into();
    for r in &mut sc.roots {
        r.push(Op::Twin);
    }
    sc
}

/// rows of a covering array: every combination of the values of any `t` of the circumstances around one NFT occurs in some
/// root; what is refused in its row is left out
fn rows(t: usize) -> Vec<Vec<Op>> {
    let levels = [
        3, // 0 protocol fee
        3, // 1 largest royalty
        3, // 2 shares of the makers and takers
        5, // 3 royalty of the collection
        3, // 4 entries of the royalty registry
        3, // 5 denom of the collection
        3, // 6 ask
        4, // 7 its recipient
        4, // 8 its finder
        3, // 9 bobby's bid
        4, // 10 its recipient and finder
        3, // 11 carol's bid
        3, // 12 bobby's bid on the collection
        4, // 13 its recipient and finder
        2, // 14 carol's bid on the collection
        3, // 15 alice's own bids
        3, // 16 ask for her other NFT
        3, // 17 orders in the other collection
        2, // 18 who came first
        4, // 19 updated since
        2, // 20 orders that are no more
        3, // 21 what then happens to the NFT
        6, // 22 settings changed since
        2, // 23 trading is to start later
        2, // 24 another block
        3, // 25 listing fee
    ];
    let who = |i: usize| [(None, None), (Some("vault"), Some("findb")), (Some("alice"), None), (Some("erica"), Some("bobby"))][i];
    cover(&levels, t)
        .into_iter()
        .map(|x| {
            let den = [STARS, ATOM, STARS][x[5]];
            let c = |p: u128| (s(den), U(p * K));
            let (maker, taker) = [(4000, 1000), (0, 9_999), (3333, 0)][x[2]];
            let conf = Cfg { fee: [200, 0, 1000][x[0]], max_roy: [500, 10_000, 0][x[1]], maker, taker, ..cfg() };
            let mut v = world(conf.clone(), &[(A, &["1", "2"]), (B, &["1"])]);
            let royalty = [None, Some(("royal", 300)), Some(("alice", 300)), Some(("bobby", 300)), Some(("royal", 1100))][x[3]]
                .map(|(a, b)| (s(a), U(b * BPS)));
            v.push(Op::Coll { addr: s(A), royalty: royalty.clone(), start: None, plain: false });
            match x[4] {
                1 => v.push(Op::RegDefault { coll: s(A), entry: Some((s("regd"), U(100 * BPS))) }),
                2 => v.extend([
                    Op::RegDefault { coll: s(A), entry: Some((s("regd"), U(100 * BPS))) },
                    Op::RegProtocol { coll: s(A), protocol: s(CONTRACT), entry: Some((s("regp"), U(600 * BPS))) },
                ]),
                _ => {}
            }
            if x[5] > 0 {
                v.push(denom(A, den));
            }
            match x[25] {
                1 => v.push(fee((s(den), U(0)))),
                2 => v.push(Op::NoFee { by: s("admin"), denom: s(den), funds: vec![] }),
                _ => {}
            }
            let pay = |mut o: Op| {
                if let (1 | 2, Op::SetAsk { funds, .. }) = (x[25], &mut o) {
                    funds.clear();
                }
                o
            };
            if x[20] > 0 {
                v.extend([
                    pay(ask("alice", A, "1", d(c(200)))), del_ask("alice", L0),
                    bid("bobby", A, "1", d(c(20))), del_bid("bobby", L0),
                    cbid("bobby", A, d(c(20))), del_cbid("bobby", L0),
                    approve(A, "1"),
                ]);
            }
            let mut asks = vec![];
            if x[16] > 0 {
                asks.push(pay(ask("alice", A, "2", d(c([0, 80, 100][x[16]])))));
            }
            if x[6] > 0 {
                asks.push(pay(ask(
                    "alice", A, "1",
                    dd(
                        c([0, 100, 60][x[6]]), [None, Some("vault"), Some("bobby"), Some("alice")][x[7]],
                        [None, Some("finda"), Some("bobby"), Some("alice")][x[8]],
                    ),
                )));
            }
            let mut bids = vec![];
            if x[9] > 0 {
                let w = who(x[10]);
                bids.push(bid("bobby", A, "1", dd(c([0, 90, 55][x[9]]), w.0, w.1)));
            }
            if x[11] > 0 {
                bids.push(bid("carol", A, "1", d(c([0, 90, 95][x[11]]))));
            }
            if x[12] > 0 {
                let w = who(x[13]);
                bids.push(cbid("bobby", A, dd(c([0, 90, 85][x[12]]), w.0, w.1)));
            }
            if x[14] > 0 {
                bids.push(cbid("carol", A, dd(c(93), None, Some("finda"))));
            }
            match x[15] {
                1 => bids.push(bid("alice", A, "1", d(c(94)))),
                2 => bids.push(cbid("alice", A, dd(c(94), Some("bobby"), None))),
                _ => {}
            }
            match x[17] {
                1 => asks.push(ask("dorae", B, "1", d(n(70 * K)))),
                2 => bids.extend([bid("bobby", B, "1", d(n(97 * K))), cbid("bobby", B, d(n(97 * K)))]),
                _ => {}
            }
            if x[18] == 0 {
                v.extend(bids);
                v.push(Op::Skip(SEC));
                v.extend(asks);
            } else {
                v.extend(asks);
                v.extend(bids);
            }
            match x[19] {
                1 => v.push(upd_ask("alice", L1, dd(c(99), Some("erica"), None))),
                2 => v.extend([
                    upd_bid("bobby", L0, dd(c(91), None, Some("finda")), &[(s(den), U(40 * K))]), upd_bid("bobby", L1, d(c(50)), &[]),
                ]),
                3 => v.extend([
                    upd_cbid("bobby", L0, dd(c(92), None, Some("finda")), &[(s(den), U(40 * K))]), upd_cbid("bobby", L1, d(c(50)), &[]),
                ]),
                _ => {}
            }
            match x[21] {
                1 => v.push(Op::Revoke { coll: s(A), tok: s("1") }),
                2 => v.extend([Op::Transfer { coll: s(A), tok: s("1"), to: s("bobby") }, approve(A, "1")]),
                _ => {}
            }
            match x[22] {
                1 => v.push(config(Cfg { fee: 900, maker: 1, taker: 9_998, ..conf })),
                2 => v.push(denom(A, OTHER)),
                3 => v.push(config(Cfg { denom: s(ATOM), manager: s("royal"), ..conf })),
                4 => v.push(config(Cfg { max_roy: 250, ..conf })),
                5 => v.extend([fee(n(6)), fee(at(0))]),
                _ => {}
            }
            if x[23] > 0 {
                v.push(Op::Coll { addr: s(A), royalty, start: Some(T0 + 100 * SEC), plain: false });
            }
            if x[24] > 0 {
                v.push(Op::Skip(SEC));
            }
            v
        })
        .collect()
}
const K: u128 = 11;
fn circumstances(t: usize, depth: usize) -> Scenario<Op> {
    let mut v = vec![
        approve(A, "1"),
        Op::Skip(100 * SEC),
        Op::Coll { addr: s(A), royalty: Some((s("carol"), U(700 * BPS))), start: None, plain: false },
        take_bid("alice", DEAD, d(n(1))),
        take_cbid("alice", DEAD, "1", d(n(1))),
        upd_bid("bobby", DEAD, d(n(30)), &[n(30)]),
        upd_cbid("bobby", DEAD, d(n(30)), &[n(30)]),
        upd_ask("alice", DEAD, d(n(30))),
        del_ask("alice", DEAD),
        denom(A, ATOM),
        denom(A, STARS),
        Op::Admin(Some(s("carol"))),
        ask("dorae", B, "1", d(n(97 * K))),
        sell("dorae", B, "1", d(n(60 * K))),
        take_cbid("dorae", L0, "1", d(n(60 * K))),
        take_cbid("dorae", L1, "1", d(n(60 * K))),
        del_ask("bobby", L0),
        del_bid("carol", L0),
        del_cbid("carol", L0),
        upd_ask("bobby", L0, d(n(30))),
    ];
    for den in [STARS, ATOM] {
        let c = |p: u128| (s(den), U(p * K));
        for (rec, fi) in [(None, None), (Some("vault"), Some("findb")), (Some("bobby"), Some("carol")), (Some("carol"), Some("alice"))] {
            let o = |p: u128| dd(c(p), rec, fi);
            for r in [L0, L1] {
                v.extend([
                    take_ask("carol", r.clone(), o(101), &[c(101)]),
                    take_bid("alice", r.clone(), o(50)),
                    take_cbid("alice", r.clone(), "1", o(50)),
                    upd_bid("bobby", r.clone(), o(54), &[]),
                    upd_bid("bobby", r.clone(), o(102), &[c(47)]),
                    upd_cbid("bobby", r.clone(), o(53), &[]),
                    upd_cbid("bobby", r.clone(), o(103), &[c(50)]),
                    upd_ask("alice", r.clone(), o(88)),
                ]);
            }
            v.extend([
                bid("carol", A, "1", o(100)),
                bid("bobby", A, "1", o(59)),
                buy("bobby", A, "1", o(105), &[c(105)]),
                cbid("carol", A, o(104)),
                cbid("bobby", A, o(58)),
                cbuy("carol", A, o(105), &[c(105)]),
                ask("alice", A, "1", o(92)),
                sell("alice", A, "1", o(52)),
                sell("alice", A, "2", o(52)),
                ask("bobby", A, "1", o(90)),
            ]);
        }
        v.extend([
            take_ask("bobby", L0, d(c(80)), &[c(80)]),
            take_bid("alice", L0, d(c(95))),
            take_bid("bobby", L0, d(c(50))),
            take_cbid("alice", L0, "2", d(c(92))),
            take_cbid("bobby", L0, "1", d(c(50))),
            bid("alice", A, "1", d(c(101))),
            cbid("alice", A, d(c(101))),
            Op::SetAsk { by: s("alice"), coll: s(A), tok: s("1"), d: d(c(150)), now: false, funds: vec![] },
            Op::SetAsk { by: s("alice"), coll: s(A), tok: s("1"), d: d(c(150)), now: false, funds: vec![n(6)] },
        ]);
    }
    for (by, r) in [("alice", L0), ("alice", L1)] {
        v.push(del_ask(by, r));
    }
    for by in ["bobby", "alice"] {
        for r in [L0, L1] {
            v.push(del_bid(by, r.clone()));
            v.push(del_cbid(by, r));
        }
    }
    Scenario::new(&format!("every combination of {t} circumstances"), rows(t), v, depth).skipping()
}

pub fn plan(prop: &str, thorough: bool) -> Option<PropPlan<Op>> {
    let t = thorough;
    let x = |q: usize, th: usize| if t { th } else { q };
    let l = if t { 2 } else { 1 };
    let mut scenarios = match prop {
        "V01" => vec![life(x(3, 4)), odd(x(3, 4)), core(x(6, 8)), payments(x(3, 4)), market(x(5, 6)), governance(x(6, 7))],
        "V02" => vec![life(x(3, 4)), roles(t), odd(x(3, 4)), core(x(6, 8)), market(x(5, 6)), parties(x(5, 6)), actors(x(2, 3)), ghosts(x(7, 9))],
        "V03" => vec![life(x(3, 4)), roles(t), odd(x(3, 4)), best_price(t), limits(), core(x(6, 8)), payouts(t), governance(x(5, 7))],
        "V04" => vec![life(x(3, 4)), roles(t), odd(x(3, 4)), best_price(t), market(x(5, 6)), core(x(6, 8)), governance(x(6, 7))],
        "V05" => vec![life(x(3, 4)), roles(t), odd(x(3, 4)), payouts(t), parties(x(5, 6)), royalties(t), core(x(6, 8))],
        "V06" => vec![life(x(3, 4)), roles(t), odd(x(3, 4)), payments(x(3, 4)), core(x(6, 8)), market(x(5, 6))],
        "V07" => vec![life(x(3, 4)), odd(x(3, 4)), actors(x(2, 3)), core(x(6, 8)), governance(x(5, 7)), ghosts(x(7, 9))],
        "V08" => vec![life(x(3, 4)), odd(x(3, 4)), ghosts(x(7, 9)), market(x(5, 6)), core(x(6, 8)), best_price(t)],
        "V09" => vec![life(x(3, 4)), odd(x(3, 4)), best_price(t), core(x(6, 8)), entering(x(2, 3)), payments(x(2, 3))],
        "V10" => vec![life(x(3, 4)), odd(x(3, 4)), entering(x(2, 3)), governance(x(6, 7)), core(x(6, 8))],
        "V11" => vec![life(x(2, 3)).inspected(l), odd(x(1, 2)).inspected(1), listings(x(3, 4), l), long_lists(t), market(x(4, 5)).inspected(1)],
        "V12" => [configs(), vec![life_migrated(x(3, 4)), governance(x(5, 7)), actors(x(2, 3))]].concat(),
        "V13" => vec![life(x(3, 4)), roles(t), odd(x(3, 4)), royalties(t), royalty_changes(x(7, 9)), payouts(t)],
        "V14" => vec![life(x(3, 4)), roles(t), odd(x(3, 4)), payouts(t), parties(x(3, 4)), core(x(6, 8)), governance(x(5, 6))],
        _ => return None,
    };
    match prop {
        "V11" => scenarios.push(circumstances(2, x(1, 2)).inspected(1)),
        "V12" => {
            let mut sc = circumstances(3, x(1, 2));
            sc.name = format!("{}, with a migration", sc.name);
            for r in &mut sc.roots {
                r.push(Op::Twin);
            }
            scenarios.push(sc);
        }
        _ => scenarios.extend([circumstances(4, x(1, 2)), circumstances(x(2, 3), 2)]),
    }
    Some(PropPlan { scenarios, budget_s: if t { 3000 } else { 300 } })
}
