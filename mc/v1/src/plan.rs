//! Scenarios: which operation sequences are enumerated for which property.
use crate::model::*;
use mchost::cli::PropPlan;
use mchost::*;

// no round numbers: a fraction of a second in every time, every price odd
const T0: u64 = 1_700_000_000 * SEC + 123_456_789;
const E1: u64 = T0 + 100 * SEC + 555_555_555;
const E2: u64 = T0 + 400 * SEC + 777_777_777;
const E3: u64 = E2 + 90 * SEC;
const P: u128 = 1013;
const STALE: u64 = 10;
const USERS: &[&str] = &["alice", "bobby", "carol", "erica", "oscar", "finny", "royal", "vault"];
const A: &str = "colaa";
const B: &str = "colbb";
const SHARE: u128 = 55_500_000_000_000_000; // 5.55%

fn s(x: &str) -> String {
    x.to_string()
}
fn n(x: u128) -> (String, U) {
    (s(D), U(x))
}
fn other(x: u128) -> (String, U) {
    (s(crate::sys::OTHER), U(x))
}
fn f(x: u128) -> Vec<(String, U)> {
    if x == 0 {
        vec![]
    } else {
        vec![n(x)]
    }
}

pub fn cfg() -> Cfg {
    Cfg {
        trading: 333,
        ask_exp: (60, 1000),
        bid_exp: (60, 500),
        operators: vec![s("oscar"), s("oprah")],
        sale_hook: None,
        max_finder: 1000,
        min_price: U(100),
        stale: STALE,
        stale_height: false,
        reward: 555,
        fee: U(7),
    }
}

fn world(nfts: &[(&str, &[u32])], bidders: &[&str]) -> Vec<Op> {
    let mut v = vec![
        Op::Universe {
            nfts: nfts.iter().map(|(c, t)| (s(c), t.to_vec())).collect(),
            bidders: bidders.iter().map(|x| s(x)).collect(),
        },
        Op::Fund(USERS.iter().chain(["oprah"].iter()).map(|x| s(x)).collect()),
        Op::At(T0),
    ];
    for (c, _) in nfts {
        v.push(Op::Coll {
            addr: s(c),
            royalty: if *c == A { Some((s("royal"), U(SHARE))) } else { None },
            start: None,
            plain: false,
        });
    }
    v
}
fn mint(coll: &str, tok: u32, owner: &str, approve: bool) -> Vec<Op> {
    let mut v = vec![Op::Mint { coll: s(coll), tok, owner: s(owner) }];
    if approve {
        v.push(Op::Approve { coll: s(coll), tok, until: None });
    }
    v
}
fn ask(by: &str, coll: &str, tok: u32, price: u128, expires: u64) -> Op {
    Op::SetAsk {
        by: s(by), coll: s(coll), tok, auction: false, price: n(price), recipient: None, reserve: None, fee_bps: None,
        expires, funds: f(7),
    }
}
fn auction(by: &str, coll: &str, tok: u32, price: u128, expires: u64) -> Op {
    Op::SetAsk {
        by: s(by), coll: s(coll), tok, auction: true, price: n(price), recipient: Some(s("vault")), reserve: None,
        fee_bps: Some(250), expires, funds: f(7),
    }
}
fn ask_full(by: &str, coll: &str, tok: u32, price: u128, expires: u64, reserve: Option<&str>) -> Op {
    Op::SetAsk {
        by: s(by), coll: s(coll), tok, auction: false, price: n(price), recipient: Some(s("vault")),
        reserve: reserve.map(s), fee_bps: Some(250), expires, funds: f(7),
    }
}
fn ask_fee(by: &str, price: u128, reserve: Option<&str>, fee_bps: Option<u64>) -> Op {
    Op::SetAsk {
        by: s(by), coll: s(A), tok: 1, auction: false, price: n(price), recipient: None, reserve: reserve.map(s), fee_bps,
        expires: E3, funds: f(7),
    }
}
fn bid(kind: u8, by: &str, coll: &str, tok: u32, price: u128, expires: u64, finder: Option<&str>, fee_bps: Option<u64>) -> Op {
    Op::Bid {
        kind, by: s(by), coll: s(coll), tok, expires, finder: finder.map(s), fee_bps,
        to: if kind == 2 { Some(s("erica")) } else { None },
        funds: f(price),
    }
}
fn cbid(by: &str, coll: &str, price: u128, expires: u64, fee_bps: Option<u64>) -> Op {
    Op::SetCBid { by: s(by), coll: s(coll), expires, fee_bps, funds: f(price) }
}
fn accept(by: &str, coll: &str, tok: u32, bidder: &str, finder: Option<&str>) -> Op {
    Op::AcceptBid { by: s(by), coll: s(coll), tok, bidder: s(bidder), finder: finder.map(s), funds: vec![] }
}
fn caccept(by: &str, coll: &str, tok: u32, bidder: &str, finder: Option<&str>) -> Op {
    Op::AcceptCBid { by: s(by), coll: s(coll), tok, bidder: s(bidder), finder: finder.map(s), funds: vec![] }
}
fn rm_ask(by: &str, coll: &str, tok: u32) -> Op {
    Op::RemoveAsk { by: s(by), coll: s(coll), tok, funds: vec![] }
}
fn reprice(by: &str, coll: &str, tok: u32, p: u128) -> Op {
    Op::UpdateAskPrice { by: s(by), coll: s(coll), tok, price: n(p), funds: vec![] }
}
fn rm_bid(by: &str, coll: &str, tok: u32) -> Op {
    Op::RemoveBid { by: s(by), coll: s(coll), tok, funds: vec![] }
}
fn reject(by: &str, coll: &str, tok: u32, bidder: &str) -> Op {
    Op::RejectBid { by: s(by), coll: s(coll), tok, bidder: s(bidder), funds: vec![] }
}
fn rm_cbid(by: &str, coll: &str) -> Op {
    Op::RemoveCBid { by: s(by), coll: s(coll), funds: vec![] }
}
fn sync(by: &str, coll: &str, tok: u32) -> Op {
    Op::SyncAsk { by: s(by), coll: s(coll), tok, funds: vec![] }
}
fn stale_ask(by: &str, coll: &str, tok: u32) -> Op {
    Op::RemoveStaleAsk { by: s(by), coll: s(coll), tok, funds: vec![] }
}
fn stale_bid(by: &str, coll: &str, tok: u32, bidder: &str) -> Op {
    Op::RemoveStaleBid { by: s(by), coll: s(coll), tok, bidder: s(bidder), funds: vec![] }
}
fn stale_cbid(by: &str, coll: &str, bidder: &str) -> Op {
    Op::RemoveStaleCBid { by: s(by), coll: s(coll), bidder: s(bidder), funds: vec![] }
}
fn approve(coll: &str, tok: u32) -> Op {
    Op::Approve { coll: s(coll), tok, until: None }
}
fn revoke(coll: &str, tok: u32) -> Op {
    Op::Revoke { coll: s(coll), tok }
}
fn transfer(coll: &str, tok: u32, to: &str) -> Op {
    Op::Transfer { coll: s(coll), tok, to: s(to) }
}
fn cat(v: &[Vec<Op>]) -> Vec<Op> {
    v.concat()
}

/// one NFT, owner alice, approved
fn root1() -> Vec<Op> {
    cat(&[
        world(&[(A, &[1])], &["alice", "bobby", "carol"]),
        mint(A, 1, "alice", true),
        vec![Op::Init(cfg())],
    ])
}
fn times() -> Vec<Op> {
    vec![Op::At(E1 - 1), Op::At(E1), Op::At(E1 + STALE * SEC - 1), Op::At(E1 + STALE * SEC)]
}

/// everything that can happen around one NFT
fn core() -> Vec<Op> {
    let mut v = vec![
        ask("alice", A, 1, P, E1),
        ask_full("alice", A, 1, P, E2, Some("bobby")),
        ask_full("alice", A, 1, 1517, E2, None),
        auction("alice", A, 1, P, E1),
        ask("bobby", A, 1, P, E2),
        rm_ask("alice", A, 1),
        rm_ask("bobby", A, 1),
        reprice("alice", A, 1, 1517),
        reprice("bobby", A, 1, P - 14),
        bid(0, "bobby", A, 1, P, E1, None, None),
        bid(0, "bobby", A, 1, P - 14, E2, Some("finny"), Some(250)),
        bid(0, "carol", A, 1, 1517, E2, Some("finny"), Some(100)),
        bid(0, "carol", A, 1, P, E1, Some("finny"), None),
        bid(0, "alice", A, 1, P, E1, None, None),
        bid(1, "bobby", A, 1, P, E1, None, None),
        bid(1, "carol", A, 1, 1517, E1, Some("finny"), Some(250)),
        bid(2, "bobby", A, 1, P, E1, Some("finny"), Some(250)),
        bid(2, "carol", A, 1, P, E2, None, None),
        rm_bid("bobby", A, 1),
        rm_bid("carol", A, 1),
        accept("alice", A, 1, "bobby", None),
        accept("alice", A, 1, "carol", Some("finny")),
        accept("bobby", A, 1, "carol", None),
        accept("carol", A, 1, "bobby", Some("finny")),
        reject("alice", A, 1, "bobby"),
        reject("alice", A, 1, "carol"),
        reject("carol", A, 1, "bobby"),
        cbid("bobby", A, P, E1, None),
        cbid("carol", A, 1301, E2, Some(250)),
        rm_cbid("bobby", A),
        rm_cbid("carol", A),
        caccept("alice", A, 1, "bobby", None),
        caccept("alice", A, 1, "carol", Some("finny")),
        caccept("carol", A, 1, "bobby", None),
        sync("oscar", A, 1),
        sync("alice", A, 1),
        stale_ask("oscar", A, 1),
        stale_ask("bobby", A, 1),
        stale_bid("oscar", A, 1, "bobby"),
        stale_bid("carol", A, 1, "bobby"),
        stale_cbid("oscar", A, "bobby"),
        stale_cbid("bobby", A, "bobby"),
        approve(A, 1),
        revoke(A, 1),
        transfer(A, 1, "bobby"),
        Op::BurnNft { coll: s(A), tok: 1 },
    ];
    v.extend(times());
    v
}

/// what else may change between two messages: settings, operators, collections, the clock
fn changes() -> Vec<Op> {
    let none = || Op::Params {
        trading: None, ask_exp: None, bid_exp: None, operators: None, max_finder: None, min_price: None, stale: None,
        reward: None, fee: None,
    };
    macro_rules! set {
        ($f:ident, $v:expr) => {{
            let mut o = none();
            if let Op::Params { $f, .. } = &mut o {
                *$f = Some($v);
            }
            o
        }};
    }
    let mut v = vec![
        set!(trading, 0),
        set!(trading, 1234),
        set!(ask_exp, (10, 90)),
        set!(bid_exp, (10, 90)),
        set!(operators, vec![s("carol")]),
        set!(max_finder, 50),
        set!(min_price, U(1)),
        set!(min_price, U(1100)),
        set!(min_price, U(2000)),
        set!(stale, 0),
        set!(stale, 25),
        set!(reward, 0),
        set!(reward, 9_999),
        set!(fee, U(0)),
        set!(fee, U(11)),
        Op::AddOperator(s("bobby")),
        Op::RemoveOperator(s("oscar")),
        Op::Coll { addr: s(A), royalty: None, start: None, plain: false },
        Op::Coll { addr: s(A), royalty: Some((s("erica"), U(2 * SHARE))), start: None, plain: false },
        Op::Coll { addr: s(A), royalty: Some((s("royal"), U(SHARE))), start: Some(E1), plain: false },
        Op::At(E2),
        Op::At(E2 + STALE * SEC),
    ];
    v.extend(times());
    v
}
/// books around one NFT, each in a different phase of its life
fn lives() -> Vec<Vec<Op>> {
    let with = |x: Vec<Op>| cat(&[root1(), x]);
    vec![
        with(vec![
            ask("alice", A, 1, P, E1),
            bid(0, "bobby", A, 1, P - 14, E1, None, Some(250)),
            cbid("carol", A, 1301, E2, Some(250)),
        ]),
        with(vec![
            auction("alice", A, 1, P, E2),
            bid(0, "bobby", A, 1, P, E1, None, None),
            bid(0, "carol", A, 1, 1707, E2, None, Some(77)),
            cbid("bobby", A, 503, E1, None),
        ]),
        with(vec![
            ask_full("alice", A, 1, P, E2, Some("bobby")),
            bid(0, "bobby", A, 1, P - 14, E2, None, None),
            cbid("bobby", A, 1301, E1, None),
        ]),
        // deactivated
        with(vec![
            ask_full("alice", A, 1, P, E2, None),
            bid(0, "carol", A, 1, P - 14, E1, None, None),
            revoke(A, 1),
            sync("oscar", A, 1),
            approve(A, 1),
        ]),
        // moved on, the old ask still there
        with(vec![
            ask_full("alice", A, 1, P, E1, None),
            bid(0, "carol", A, 1, P - 14, E1, None, Some(99)),
            cbid("carol", A, 1301, E1, None),
            transfer(A, 1, "bobby"),
            approve(A, 1),
        ]),
        // no ask
        with(vec![
            bid(0, "bobby", A, 1, P, E1, None, Some(250)),
            bid(0, "carol", A, 1, 1517, E2, None, None),
            cbid("bobby", A, 1301, E1, Some(250)),
        ]),
        // sold, with orders left over
        with(vec![
            ask("alice", A, 1, P, E2),
            bid(0, "bobby", A, 1, P - 14, E1, None, None),
            cbid("carol", A, 1301, E1, None),
            bid(1, "carol", A, 1, P, E2, Some("finny"), Some(250)),
            approve(A, 1),
        ]),
        // past the expiry
        with(vec![
            ask_full("alice", A, 1, P, E1, None),
            bid(0, "bobby", A, 1, P - 14, E1, None, Some(250)),
            cbid("bobby", A, 1301, E1, None),
            Op::At(E1),
        ]),
    ]
}
fn life(depth: usize) -> Scenario<Op> {
    let mut v = core();
    v.extend([
        ask("carol", A, 1, P, E2),
        ask("alice", A, 1, P, E3),
        bid(0, "bobby", A, 1, P - 11, E3, None, None),
        bid(0, "carol", A, 1, 1511, E3, None, Some(33)),
        bid(1, "carol", A, 1, P, E3, None, None),
        cbid("bobby", A, P + 11, E3, None),
        accept("bobby", A, 1, "carol", Some("finny")),
        reprice("alice", A, 1, P + 60),
        reprice("alice", A, 1, P - 30),
        caccept("bobby", A, 1, "carol", Some("finny")),
        stale_bid("bobby", A, 1, "carol"),
        Op::SetAsk {
            by: s("alice"), coll: s(A), tok: 1, auction: false, price: n(P), recipient: None, reserve: None, fee_bps: None,
            expires: E2, funds: vec![],
        },
        Op::SetAsk {
            by: s("alice"), coll: s(A), tok: 1, auction: false, price: n(P), recipient: None, reserve: None, fee_bps: None,
            expires: E2 + 60 * SEC, funds: f(11),
        },
    ]);
    v.extend(changes());
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|o| seen.insert(format!("{o:?}")));
    Scenario::new("phases in the life of an NFT under changing settings", lives(), v, depth)
}

/// a full book over two collections: every kind of order in every place
fn world2() -> Vec<Op> {
    cat(&[
        world(&[(A, &[0, 1, 2]), (B, &[1])], &["alice", "bobby", "carol"]),
        mint(A, 0, "alice", true),
        mint(A, 1, "alice", true),
        mint(A, 2, "carol", true),
        mint(B, 1, "alice", true),
        vec![Op::Init(cfg())],
    ])
}
fn fill() -> Vec<Op> {
    vec![
        ask("alice", A, 0, 1100, E2),
        ask("alice", A, 1, P, E1),
        auction("carol", A, 2, 700, E2),
        ask_full("alice", B, 1, 1000, E1, None),
        bid(0, "bobby", A, 0, 901, E1, None, None),
        bid(0, "bobby", A, 1, 902, E1, None, None),
        bid(0, "carol", A, 1, 903, E2, None, Some(100)),
        bid(0, "bobby", A, 2, 904, E2, None, None),
        bid(0, "bobby", B, 1, 905, E1, None, None),
        bid(0, "carol", B, 1, 906, E1, None, None),
        cbid("bobby", A, 801, E1, None),
        cbid("carol", A, 802, E2, Some(250)),
        cbid("bobby", B, 803, E1, None),
        cbid("alice", B, 804, E2, None),
    ]
}
fn book() -> Vec<Op> {
    cat(&[world2(), fill()])
}
fn book_alphabet() -> Vec<Op> {
    let mut v = vec![];
    for (c, t, o) in [(A, 0, "alice"), (A, 1, "alice"), (A, 2, "carol"), (B, 1, "alice")] {
        v.push(ask(o, c, t, 950, E2));
        v.push(ask_full(o, c, t, 1000, E2, Some("bobby")));
        v.push(rm_ask(o, c, t));
        v.push(reprice(o, c, t, 1234));
        v.push(bid(0, "bobby", c, t, 777, E2, None, None));
        v.push(bid(1, "bobby", c, t, 1000, E2, Some("finny"), None));
        v.push(bid(2, "carol", c, t, 1000, E2, None, None));
        v.push(rm_bid("bobby", c, t));
        v.push(rm_bid("carol", c, t));
        v.push(accept(o, c, t, "bobby", Some("finny")));
        v.push(accept(o, c, t, "carol", None));
        v.push(reject(o, c, t, "bobby"));
        v.push(caccept(o, c, t, "bobby", None));
        v.push(caccept(o, c, t, "carol", Some("finny")));
        v.push(sync("oscar", c, t));
        v.push(stale_ask("oscar", c, t));
        v.push(stale_bid("oscar", c, t, "bobby"));
        v.push(revoke(c, t));
        v.push(transfer(c, t, "bobby"));
    }
    for c in [A, B] {
        v.push(cbid("bobby", c, 850, E2, None));
        v.push(cbid("carol", c, 851, E1, Some(100)));
        v.push(rm_cbid("bobby", c));
        v.push(rm_cbid("carol", c));
        v.push(rm_cbid("alice", c));
        v.push(stale_cbid("oscar", c, "bobby"));
    }
    v.push(Op::At(E1));
    v.push(Op::At(E1 + STALE * SEC));
    v
}

/// one account in several roles: seller, buyer, recipient, finder, creator of the collection, operator
fn roles(depth: usize) -> Scenario<Op> {
    let mut roots = vec![];
    for royal in ["alice", "bobby", "royal", "oscar"] {
        roots.push(cat(&[
            world(&[(A, &[1])], &["alice", "bobby", "royal", "oscar"]),
            vec![Op::Coll { addr: s(A), royalty: Some((s(royal), U(SHARE))), start: None, plain: false }],
            mint(A, 1, "alice", true),
            vec![Op::Init(cfg())],
        ]));
    }
    let mut orders = vec![];
    for recipient in [None, Some("alice"), Some("bobby"), Some("royal"), Some("oscar")] {
        for reserve in [None, Some("bobby"), Some("royal")] {
            for fb in [None, Some(777)] {
                orders.push(Op::SetAsk {
                    by: s("alice"), coll: s(A), tok: 1, auction: false, price: n(P), recipient: recipient.map(s),
                    reserve: reserve.map(s), fee_bps: fb, expires: E2, funds: f(7),
                });
            }
        }
    }
    for by in ["bobby", "royal", "oscar", "alice"] {
        orders.push(bid(0, by, A, 1, P, E1, None, Some(777)));
        orders.push(cbid(by, A, P, E1, Some(777)));
    }
    let mut sales = vec![];
    for by in ["bobby", "royal", "oscar", "alice"] {
        for fin in [None, Some("alice"), Some("bobby"), Some("royal"), Some("oscar")] {
            sales.push(bid(1, by, A, 1, P, E2, fin, None));
            sales.push(accept("alice", A, 1, by, fin));
            sales.push(caccept("alice", A, 1, by, fin));
            for to in ["alice", "bobby", "royal"] {
                sales.push(Op::Bid {
                    kind: 2, by: s(by), coll: s(A), tok: 1, expires: E2, finder: fin.map(s), fee_bps: None, to: Some(s(to)),
                    funds: f(P),
                });
            }
        }
        sales.push(stale_bid("oscar", A, 1, by));
        sales.push(stale_cbid("oscar", A, by));
        sales.push(reject("alice", A, 1, by));
    }
    sales.push(Op::At(E1 + STALE * SEC));
    let mut l = vec![orders];
    l.extend(vec![sales; depth]);
    Scenario::phased("one account in several roles", roots, l)
}

/// amounts beyond 64 bits and at the limits, token ids at the ends of their range
fn odd(depth: usize) -> Scenario<Op> {
    const BIG: u128 = (1 << 64) * 1000 + 1;
    const TOP: u128 = 100_000_000_000_000;
    let toks = [0, 256, u32::MAX];
    let mut w = world(&[(A, &toks), (B, &[u32::MAX])], &["alice", "bobby", "carol"]);
    for t in toks {
        w.extend(mint(A, t, "alice", true));
    }
    w.extend(mint(B, u32::MAX, "alice", true));
    w.push(Op::Init(cfg()));
    let roots = vec![
        w.clone(),
        cat(&[w.clone(), vec![
            ask("alice", A, 0, TOP, E1),
            auction("alice", A, 256, TOP, E1),
            ask_full("alice", A, u32::MAX, TOP, E2, None),
            bid(0, "bobby", A, 0, TOP - 1, E1, None, Some(333)),
            bid(0, "carol", A, 256, BIG, E1, None, Some(777)),
            bid(0, "bobby", B, u32::MAX, BIG, E1, None, None),
            cbid("bobby", A, BIG, E1, Some(333)),
            cbid("bobby", B, BIG + 1, E2, None),
        ]]),
        // past the expiry of most
        cat(&[w, vec![
            ask("alice", A, 0, TOP, E1),
            ask("alice", A, u32::MAX, TOP, E2),
            bid(0, "bobby", A, 256, BIG, E1, None, Some(333)),
            bid(0, "bobby", A, u32::MAX, TOP - 1, E1, None, Some(333)),
            bid(0, "carol", A, 0, TOP - 1, E2, None, Some(333)),
            cbid("bobby", A, BIG, E1, Some(333)),
            Op::At(E1 + STALE * SEC),
        ]]),
    ];
    let mut v = vec![];
    for t in toks {
        v.extend([
            ask("alice", A, t, TOP, E2),
            ask("alice", A, t, TOP + 1, E2),
            auction("alice", A, t, TOP, E2),
            reprice("alice", A, t, TOP),
            reprice("alice", A, t, TOP + 1),
            rm_ask("alice", A, t),
            bid(0, "bobby", A, t, BIG + 2, E2, None, Some(10)),
            bid(0, "bobby", A, t, TOP - 2, E2, None, Some(10)),
            bid(1, "carol", A, t, TOP, E2, Some("finny"), None),
            bid(2, "bobby", A, t, TOP, E2, None, None),
            rm_bid("bobby", A, t),
            rm_bid("carol", A, t),
            accept("alice", A, t, "bobby", Some("finny")),
            accept("alice", A, t, "carol", Some("finny")),
            reject("alice", A, t, "bobby"),
            reject("alice", A, t, "carol"),
            caccept("alice", A, t, "bobby", Some("finny")),
            sync("oscar", A, t),
            stale_ask("oscar", A, t),
            stale_bid("oscar", A, t, "bobby"),
            revoke(A, t),
        ]);
    }
    v.extend([
        cbid("bobby", A, BIG - 2, E2, None),
        cbid("carol", A, TOP, E2, None),
        rm_cbid("bobby", A),
        rm_cbid("bobby", B),
        rm_cbid("carol", A),
        stale_cbid("oscar", A, "bobby"),
        caccept("alice", B, u32::MAX, "bobby", None),
        rm_bid("bobby", B, u32::MAX),
        Op::At(E1),
    ]);
    Scenario::new("amounts and token ids at the ends of their ranges", roots, v, depth)
}

/// rows of a covering array: every combination of the values of any `t` of the circumstances around one NFT occurs in some
/// root; an order that is refused in its row is left out
fn rows(t: usize) -> Vec<Vec<Op>> {
    let levels = [
        2, // 0 trading fee
        5, // 1 royalty
        3, // 2 start of trading
        2, // 3 listing fee
        3, // 4 reward
        2, // 5 stale duration
        3, // 6 hooks
        3, // 7 ask
        2, // 8 its price
        3, // 9 reserved for
        4, // 10 recipient
        3, // 11 finder's fee
        2, // 12 expiry
        7, // 13 what then happens to the NFT
        4, // 14 bobby's bid
        2, // 15 its price
        2, // 16 its expiry
        2, // 17 carol's bid
        2, // 18 alice's own bid
        4, // 19 bobby's bid on the collection
        2, // 20 carol's and alice's
        2, // 21 bobby's orders in the other collection
        3, // 22 alice's other asks
        4, // 23 when
        2, // 24 least price raised since
        2, // 25 largest finder's fee lowered since
        2, // 26 spans of validity shortened since
        2, // 27 operators changed since
    ];
    let fee = [None, None, Some(0), Some(250)];
    cover(&levels, t)
        .into_iter()
        .map(|x| {
            let mut c = cfg();
            c.trading = [333, 0][x[0]];
            c.fee = U([7, 0][x[3]]);
            c.reward = [555, 0, 10_000][x[4]];
            c.stale = [STALE, 0][x[5]];
            let royalty = [None, Some(("royal", 0)), Some(("royal", SHARE)), Some(("alice", SHARE)), Some(("bobby", SHARE))][x[1]]
                .map(|(a, b)| (s(a), U(b)));
            let coll = |start| Op::Coll { addr: s(A), royalty: royalty.clone(), start, plain: false };
            let lf = |mut o: Op| {
                if let Op::SetAsk { funds, .. } = &mut o {
                    *funds = f([7, 0][x[3]]);
                }
                o
            };
            let mut v = cat(&[
                world(&[(A, &[1, 2]), (B, &[1])], &["alice", "bobby", "carol"]),
                mint(A, 1, "alice", true),
                mint(A, 2, "alice", true),
                mint(B, 1, "alice", true),
                vec![coll([None, Some(T0), None][x[2]]), Op::Init(c)],
            ]);
            v.push(Op::Hook { addr: s("hooka"), fails: false });
            v.push(Op::Hook { addr: s("hookb"), fails: true });
            for k in ["ask", "bid", "sale"] {
                for h in &["hookb", "hooka"][2 - x[6]..] {
                    v.push(Op::AddHook { kind: s(k), hook: s(h) });
                }
            }
            if x[22] > 0 {
                v.push(lf(ask("alice", A, 2, P + 2, E2)));
            }
            if x[22] > 1 {
                v.push(lf(ask("alice", B, 1, P + 4, E2)));
            }
            if x[14] > 0 {
                v.push(bid(0, "bobby", A, 1, [P, 517][x[15]], [E1, E2][x[16]], Some("finny"), fee[x[14]]));
            }
            if x[17] > 0 {
                v.push(bid(0, "carol", A, 1, P - 14, E2, None, Some(77)));
            }
            if x[18] > 0 {
                v.push(bid(0, "alice", A, 1, 701, E1, None, None));
            }
            if x[19] > 0 {
                v.push(cbid("bobby", A, [1301, 519][x[15]], [E1, E2][x[16]], fee[x[19]]));
            }
            if x[20] > 0 {
                v.push(cbid("carol", A, 1303, E2, None));
                v.push(cbid("alice", A, 703, E1, Some(10)));
            }
            if x[21] > 0 {
                v.push(bid(0, "bobby", B, 1, 703, E1, None, None));
                v.push(cbid("bobby", B, 705, E1, Some(77)));
            }
            if x[7] > 0 {
                v.push(Op::SetAsk {
                    by: s("alice"), coll: s(A), tok: 1, auction: x[7] == 2, price: n([P, 517][x[8]]),
                    recipient: [None, Some("alice"), Some("vault"), Some("bobby")][x[10]].map(s),
                    reserve: [None, Some("bobby"), Some("carol")][x[9]].map(s),
                    fee_bps: [None, Some(0), Some(250)][x[11]], expires: [E1, E2][x[12]], funds: f([7, 0][x[3]]),
                });
            }
            match x[13] {
                1 => v.push(revoke(A, 1)),
                2 => v.extend([revoke(A, 1), sync("oscar", A, 1)]),
                3 => v.extend([revoke(A, 1), sync("oscar", A, 1), approve(A, 1)]),
                4 => v.extend([transfer(A, 1, "bobby"), approve(A, 1)]),
                5 => v.push(transfer(A, 1, "bobby")),
                6 => v.push(Op::BurnNft { coll: s(A), tok: 1 }),
                _ => {}
            }
            if x[2] == 2 {
                v.push(coll(Some(E1)));
            }
            let mut p = None;
            let none = Op::Params {
                trading: None, ask_exp: None, bid_exp: None, operators: None, max_finder: None, min_price: None, stale: None,
                reward: None, fee: None,
            };
            if x[24] > 0 {
                if let Op::Params { min_price, .. } = p.get_or_insert(none.clone()) {
                    *min_price = Some(U(600));
                }
            }
            if x[25] > 0 {
                if let Op::Params { max_finder, .. } = p.get_or_insert(none.clone()) {
                    *max_finder = Some(100);
                }
            }
            if x[26] > 0 {
                if let Op::Params { ask_exp, bid_exp, .. } = p.get_or_insert(none.clone()) {
                    *ask_exp = Some((30, 90));
                    *bid_exp = Some((10, 95));
                }
            }
            if x[27] > 0 {
                if let Op::Params { operators, .. } = p.get_or_insert(none) {
                    *operators = Some(vec![s("oprah"), s("carol")]);
                }
            }
            v.extend(p);
            match x[23] {
                1 => v.push(Op::At(E1)),
                2 => v.push(Op::At(E1 + STALE * SEC - 1)),
                3 => v.push(Op::At(E1 + STALE * SEC)),
                _ => {}
            }
            v
        })
        .collect()
}
/// every message about that NFT
fn messages() -> Vec<Op> {
    let mut v = vec![];
    let fins = [None, Some("finny"), Some("alice"), Some("bobby"), Some("carol")];
    for by in ["alice", "bobby", "carol"] {
        v.extend([
            bid(0, by, A, 1, P, E3, Some("finny"), None),
            bid(0, by, A, 1, P - 2, E3, None, Some(0)),
            bid(0, by, A, 1, 1517, E3, None, Some(77)),
            cbid(by, A, P + 2, E3, Some(77)),
            rm_bid(by, A, 1),
            rm_cbid(by, A),
            rm_ask(by, A, 1),
            reprice(by, A, 1, 619),
            ask(by, A, 1, P + 6, E3),
            stale_ask(by, A, 1),
            stale_bid("oscar", A, 1, by),
            stale_bid("bobby", A, 1, by),
            stale_cbid("oscar", A, by),
            stale_cbid("bobby", A, by),
        ]);
        for who in ["alice", "bobby", "carol"] {
            v.push(reject(by, A, 1, who));
        }
    }
    for fin in fins {
        for price in [P, 517] {
            v.push(bid(0, "bobby", A, 1, price, E3, fin, Some(20)));
            v.push(bid(1, "bobby", A, 1, price, E3, fin, None));
            v.push(bid(1, "carol", A, 1, price, E3, fin, Some(0)));
            for to in ["alice", "bobby", "erica"] {
                if to == "erica" || fin.is_none() {
                    v.push(Op::Bid {
                        kind: 2, by: s("bobby"), coll: s(A), tok: 1, expires: E3, finder: fin.map(s), fee_bps: None, to: Some(s(to)),
                        funds: f(price),
                    });
                }
            }
        }
        for by in ["alice", "bobby"] {
            for who in ["alice", "bobby", "carol"] {
                v.push(accept(by, A, 1, who, fin));
                v.push(caccept(by, A, 1, who, fin));
            }
        }
    }
    for fee in [None, Some(0), Some(77)] {
        for price in [519, 1301] {
            v.push(cbid("bobby", A, price, E3, fee));
            v.push(bid(0, "bobby", A, 1, price, E3, None, fee));
        }
        v.push(ask_fee("alice", P + 14, None, fee));
        v.push(ask_fee("alice", P + 14, Some("carol"), fee));
    }
    v.extend([
        auction("alice", A, 1, P + 8, E3),
        ask_full("alice", A, 1, 1517, E3, Some("carol")),
        ask_full("bobby", A, 1, 519, E3, None),
        Op::SetAsk {
            by: s("alice"), coll: s(A), tok: 1, auction: true, price: n(P + 10), recipient: Some(s("alice")), reserve: None,
            fee_bps: Some(0), expires: E3, funds: vec![],
        },
        reprice("alice", A, 1, 1517),
        reprice("alice", A, 1, 511),
        sync("oscar", A, 1),
        sync("carol", A, 1),
        sync("oscar", A, 2),
        stale_ask("oscar", A, 1),
        stale_ask("oscar", A, 2),
        bid(0, "bobby", A, 2, P, E3, None, None),
        cbid("bobby", A, P + 2, E3, None),
        cbid("bobby", B, P + 2, E3, None),
    ]);
    v
}
fn circumstances(t: usize, depth: usize) -> Scenario<Op> {
    Scenario::new(&format!("every combination of {t} circumstances"), rows(t), messages(), depth).skipping()
}

/// every non-payable message with every kind of unwanted coin, by several senders, on a full book
fn nonpayable() -> Scenario<Op> {
    let mut v = vec![];
    for funds in [vec![], f(1), f(7), vec![other(5)], vec![n(5), other(5)], f(1000)] {
        for by in ["alice", "bobby", "carol", "erica", "oscar", "oprah"] {
            let by = s(by);
            for (c, tok) in [(A, 1u32), (B, 1), (A, 2)] {
                let coll = s(c);
                v.push(Op::RemoveAsk { by: by.clone(), coll: coll.clone(), tok, funds: funds.clone() });
                v.push(Op::UpdateAskPrice { by: by.clone(), coll: coll.clone(), tok, price: n(1200), funds: funds.clone() });
                v.push(Op::RemoveBid { by: by.clone(), coll: coll.clone(), tok, funds: funds.clone() });
                v.push(Op::SyncAsk { by: by.clone(), coll: coll.clone(), tok, funds: funds.clone() });
                v.push(Op::RemoveStaleAsk { by: by.clone(), coll: coll.clone(), tok, funds: funds.clone() });
                for bidder in ["bobby", "carol", "alice"] {
                    let bidder = s(bidder);
                    let x = (by.clone(), coll.clone(), bidder.clone(), funds.clone());
                    v.push(Op::AcceptBid { by: x.0.clone(), coll: x.1.clone(), tok, bidder: x.2.clone(), finder: None, funds: x.3.clone() });
                    v.push(Op::RejectBid { by: x.0.clone(), coll: x.1.clone(), tok, bidder: x.2.clone(), funds: x.3.clone() });
                    v.push(Op::AcceptCBid { by: x.0.clone(), coll: x.1.clone(), tok, bidder: x.2.clone(), finder: None, funds: x.3.clone() });
                    v.push(Op::RemoveStaleBid { by: x.0.clone(), coll: x.1.clone(), tok, bidder: x.2.clone(), funds: x.3.clone() });
                    v.push(Op::RemoveStaleCBid { by: x.0, coll: x.1, bidder: x.2, funds: x.3 });
                }
            }
            for c in [A, B] {
                v.push(Op::RemoveCBid { by: by.clone(), coll: s(c), funds: funds.clone() });
            }
        }
    }
    let later = cat(&[book(), vec![Op::At(E1 + STALE * SEC), revoke(A, 1)]]);
    let moved = cat(&[book(), vec![transfer(A, 1, "bobby"), approve(A, 1), transfer(B, 1, "erica")]]);
    Scenario::new("every sender and attached coin on a full book", vec![book(), later, moved], v, 1)
}

/// who may do what, when the NFT has changed hands in between
fn ownership(depth: usize) -> Scenario<Op> {
    let mut v = vec![];
    for by in ["alice", "bobby", "carol"] {
        v.push(ask(by, A, 1, 1000, E2));
        v.push(rm_ask(by, A, 1));
        v.push(reprice(by, A, 1, 1100));
        v.push(bid(1, by, A, 1, 1000, E2, None, None));
        v.push(bid(0, by, A, 1, 900, E2, None, None));
        v.push(accept(by, A, 1, "bobby", None));
        v.push(accept(by, A, 1, "carol", None));
        v.push(reject(by, A, 1, "carol"));
        v.push(caccept(by, A, 1, "carol", None));
        v.push(transfer(A, 1, by));
    }
    v.push(cbid("carol", A, 1000, E2, None));
    v.push(approve(A, 1));
    v.push(sync("oscar", A, 1));
    v.push(stale_ask("oscar", A, 1));
    Scenario::new("changing hands", vec![root1()], v, depth)
}

fn asks_validity() -> Scenario<Op> {
    // every combination of the fields of an ask, against several situations
    let mut v = vec![];
    for auction in [false, true] {
        for reserve in [None, Some("alice"), Some("bobby")] {
            for fee_bps in [None, Some(0), Some(999), Some(1000), Some(1001), Some(10_001)] {
                for expires in [T0, T0 + 60 * SEC, T0 + 60 * SEC + 1, E1, T0 + 1000 * SEC, T0 + 1000 * SEC + 1] {
                    for price in [n(0), n(99), n(100), n(5000), n(MAX_ASK), n(MAX_ASK + 1), other(5000)] {
                        let ok_fee = matches!(fee_bps, None | Some(1000) | Some(1001));
                        let ok_res = reserve != Some("alice");
                        // full product of prices x expiries, the rest pairwise with an otherwise valid ask
                        let valid_pe = price.1 .0 >= 100 && price.1 .0 <= MAX_ASK && price.0 == D && expires == E1;
                        if !valid_pe && !(ok_fee && ok_res) {
                            continue;
                        }
                        v.push(Op::SetAsk {
                            by: s("alice"), coll: s(A), tok: 1, auction, price: price.clone(), recipient: Some(s("vault")),
                            reserve: reserve.map(s), fee_bps, expires, funds: f(7),
                        });
                    }
                }
            }
        }
    }
    for funds in [vec![], f(6), f(7), f(8), f(14), vec![other(7)], vec![n(7), other(1)], f(70)] {
        for by in ["alice", "bobby", "oscar"] {
            v.push(Op::SetAsk {
                by: s(by), coll: s(A), tok: 1, auction: false, price: n(1000), recipient: None, reserve: None,
                fee_bps: None, expires: E1, funds: funds.clone(),
            });
            v.push(Op::SetAsk {
                by: s(by), coll: s(A), tok: 2, auction: false, price: n(1000), recipient: None, reserve: None,
                fee_bps: None, expires: E1, funds: funds.clone(),
            });
        }
    }
    let base = root1();
    let mut roots = vec![base.clone()];
    let with = |x: Vec<Op>| cat(&[base.clone(), x]);
    roots.push(with(vec![revoke(A, 1)]));
    roots.push(with(vec![revoke(A, 1), Op::Approve { coll: s(A), tok: 1, until: Some(T0 + 5 * SEC) }, Op::At(T0 + 5 * SEC - 1)]));
    roots.push(with(vec![revoke(A, 1), Op::Approve { coll: s(A), tok: 1, until: Some(T0 + 5 * SEC) }, Op::At(T0 + 5 * SEC)]));
    for st in [T0 - 1, T0, T0 + 1, T0 + 10 * SEC] {
        roots.push(with(vec![Op::Coll { addr: s(A), royalty: None, start: Some(st), plain: false }]));
    }
    roots.push(with(vec![Op::Coll { addr: s(A), royalty: None, start: None, plain: true }]));
    let p = |fee: Option<u128>, min: Option<u128>, mf: Option<u64>, ae: Option<(u64, u64)>| Op::Params {
        trading: None, ask_exp: ae, bid_exp: None, operators: None, max_finder: mf, min_price: min.map(U), stale: None,
        reward: None, fee: fee.map(U),
    };
    roots.push(with(vec![p(Some(0), Some(0), None, None)]));
    roots.push(with(vec![p(Some(8), Some(5000), Some(0), None)]));
    roots.push(with(vec![p(Some(1), None, Some(10_000), Some((0, 100)))]));
    roots.push(with(vec![p(Some(70), None, Some(999), Some((100, 100)))]));
    roots.push(with(vec![ask("alice", A, 1, 1000, E1)]));
    roots.push(with(vec![ask("alice", A, 1, 1000, E1), revoke(A, 1), sync("oscar", A, 1), approve(A, 1)]));
    Scenario::new("fields of an ask", roots, v, 1)
}

fn reprice_validity() -> Scenario<Op> {
    let mut v = vec![];
    for by in ["alice", "bobby"] {
        for price in [n(0), n(1), n(99), n(100), n(101), n(5000), n(MAX_ASK), n(MAX_ASK + 1), n(u64::MAX as u128), other(1000)] {
            v.push(Op::UpdateAskPrice { by: s(by), coll: s(A), tok: 1, price: price.clone(), funds: vec![] });
        }
    }
    let with = |x: Vec<Op>| cat(&[root1(), x]);
    let a = ask("alice", A, 1, 1000, E1);
    let roots = vec![
        root1(),
        with(vec![a.clone()]),
        with(vec![auction("alice", A, 1, 1000, E1)]),
        with(vec![ask_full("alice", A, 1, 1000, E1, Some("bobby"))]),
        with(vec![a.clone(), Op::At(E1 - 1)]),
        with(vec![a.clone(), Op::At(E1)]),
        with(vec![a.clone(), Op::At(E1 + 1)]),
        with(vec![a.clone(), revoke(A, 1)]),
        with(vec![a.clone(), revoke(A, 1), sync("oscar", A, 1)]),
        with(vec![a.clone(), transfer(A, 1, "bobby")]),
        with(vec![a, transfer(A, 1, "bobby"), approve(A, 1)]),
    ];
    Scenario::phased(
        "re-pricing",
        roots,
        vec![
            v,
            vec![
                bid(1, "carol", A, 1, 100, E2, None, None),
                bid(1, "carol", A, 1, 1000, E2, None, None),
                bid(0, "carol", A, 1, 5000, E2, None, None),
                bid(0, "carol", A, 1, MAX_ASK, E2, None, None),
            ],
        ],
    )
}

fn bids_validity() -> Scenario<Op> {
    let mut v = vec![];
    for kind in [0, 1, 2] {
        for finder in [None, Some("bobby"), Some("finny"), Some("alice")] {
            for fee_bps in [None, Some(0), Some(1000), Some(1001), Some(10_001)] {
                for expires in [T0, T0 + 60 * SEC, T0 + 60 * SEC + 1, E1, T0 + 500 * SEC, T0 + 500 * SEC + 1] {
                    for price in [99u128, 100, 999, 1000, 1001] {
                        let usual = expires == E1;
                        if !usual && (fee_bps.is_some() || finder.is_some()) {
                            continue;
                        }
                        v.push(bid(kind, "bobby", A, 1, price, expires, finder, fee_bps));
                    }
                }
            }
        }
        for funds in [vec![], vec![other(1000)], vec![n(1000), other(1)], vec![other(1), n(1000)], f(1000)] {
            for tok in [1, 2] {
                v.push(Op::Bid {
                    kind, by: s("bobby"), coll: s(A), tok, expires: E1, finder: None, fee_bps: None,
                    to: Some(s("erica")), funds: funds.clone(),
                });
            }
        }
    }
    for fee_bps in [None, Some(0), Some(1000), Some(1001)] {
        for expires in [T0, T0 + 60 * SEC, T0 + 60 * SEC + 1, E1, T0 + 500 * SEC, T0 + 500 * SEC + 1] {
            for funds in [f(99), f(100), f(1000), vec![], vec![other(1000)], vec![n(1000), other(1)]] {
                for by in ["bobby", "alice"] {
                    v.push(Op::SetCBid { by: s(by), coll: s(A), expires, fee_bps, funds: funds.clone() });
                }
            }
        }
    }
    let with = |x: Vec<Op>| cat(&[root1(), x]);
    let a = ask("alice", A, 1, 1000, E2);
    let p = |min: Option<u128>, mf: Option<u64>, be: Option<(u64, u64)>| Op::Params {
        trading: None, ask_exp: None, bid_exp: be, operators: None, max_finder: mf, min_price: min.map(U), stale: None,
        reward: None, fee: None,
    };
    let roots = vec![
        root1(),
        with(vec![a.clone()]),
        with(vec![auction("alice", A, 1, 1000, E2)]),
        with(vec![ask_full("alice", A, 1, 1000, E2, Some("bobby"))]),
        with(vec![ask_full("alice", A, 1, 1000, E2, Some("carol"))]),
        with(vec![a.clone(), revoke(A, 1)]),
        with(vec![a.clone(), revoke(A, 1), sync("oscar", A, 1)]),
        with(vec![a.clone(), revoke(A, 1), sync("oscar", A, 1), approve(A, 1)]),
        with(vec![a.clone(), transfer(A, 1, "carol")]),
        with(vec![a.clone(), transfer(A, 1, "carol"), approve(A, 1)]),
        with(vec![a.clone(), Op::BurnNft { coll: s(A), tok: 1 }]),
        with(vec![bid(0, "bobby", A, 1, 500, E2, None, None), cbid("bobby", A, 400, E2, None)]),
        with(vec![bid(0, "bobby", A, 1, 500, E2, None, None), a.clone()]),
        with(vec![p(Some(1000), Some(0), None)]),
        with(vec![p(Some(0), Some(10_000), Some((0, 100)))]),
        with(vec![p(None, Some(999), Some((100, 100)))]),
        with(vec![Op::Coll { addr: s(A), royalty: None, start: Some(E2), plain: false }]),
    ];
    Scenario::new("fields of a bid", roots, v, 1)
}

/// asks and bids against the clock and the sync state
fn gating(depth: usize) -> Scenario<Op> {
    let mut v = vec![
        ask("alice", A, 1, 1000, E1),
        ask_full("alice", A, 1, 1000, E2, Some("bobby")),
        auction("alice", A, 1, 1000, E1),
        bid(0, "bobby", A, 1, 1000, E2, None, None),
        bid(0, "carol", A, 1, 1000, E1 + 50 * SEC, None, None),
        bid(0, "carol", A, 1, 999, E1, None, None),
        bid(1, "carol", A, 1, 1000, E2, None, None),
        bid(2, "bobby", A, 1, 1000, E2, None, None),
        cbid("carol", A, 1000, E1, None),
        accept("alice", A, 1, "carol", None),
        caccept("alice", A, 1, "carol", None),
        revoke(A, 1),
        approve(A, 1),
        sync("oscar", A, 1),
        transfer(A, 1, "carol"),
        reprice("alice", A, 1, 999),
        Op::Coll { addr: s(A), royalty: None, start: Some(E1), plain: false },
    ];
    v.extend([Op::At(E1 - 1), Op::At(E1), Op::At(E1 + 50 * SEC - 1), Op::At(E1 + 50 * SEC)]);
    Scenario::new("expiry, activity, reservation", vec![root1()], v, depth)
}

/// all prices of a range x fee settings x royalties x ways to sell
fn payouts(thorough: bool) -> Vec<Scenario<Op>> {
    let mut roots = vec![];
    let tr: &[u64] = if thorough { &[0, 1, 50, 200, 333, 999, 5000, 9999, 10_000] } else { &[0, 1, 200, 333, 5000, 10_000] };
    let shares: &[u128] = if thorough {
        &[0, 1_000_000_000_000_000, 33_300_000_000_000_000, 100_000_000_000_000_000, 333_333_333_333_333_333, 500_000_000_000_000_000, 1_000_000_000_000_000_000]
    } else {
        &[0, 33_300_000_000_000_000, 333_333_333_333_333_333, 500_000_000_000_000_000]
    };
    for &t in tr {
        for &sh in shares {
            let mut c = cfg();
            c.trading = t;
            c.min_price = U(1);
            c.max_finder = 10_000;
            roots.push(cat(&[
                world(&[(A, &[1])], &["alice", "bobby", "carol"]),
                vec![Op::Coll { addr: s(A), royalty: Some((s("royal"), U(sh))), start: None, plain: false }],
                mint(A, 1, "alice", true),
                vec![Op::Init(c)],
            ]));
        }
    }
    roots.push(cat(&[
        world(&[(B, &[1])], &["alice", "bobby", "carol"]),
        vec![Op::Coll { addr: s(A), royalty: None, start: None, plain: false }],
        mint(A, 1, "alice", true),
        vec![Op::Init(Cfg { min_price: U(1), max_finder: 10_000, ..cfg() })],
    ]));
    let mut orders = vec![];
    let mut sales = vec![];
    let prices: Vec<u128> = if thorough {
        (1..=330).chain([9_999, 10_000, 10_001, 33_333, 1_000_003, 99_999_999_999_999, MAX_ASK, 123_456_789_012_345_678_901]).collect()
    } else {
        (1..=40).chain([99, 100, 101, 333, 1999, 10_001, 1_000_003, MAX_ASK, 123_456_789_012_345_678_901]).collect()
    };
    for p in &prices {
        for fb in [None, Some(0), Some(250), Some(4999), Some(10_000)] {
            orders.push(Op::SetAsk {
                by: s("alice"), coll: s(A), tok: 1, auction: false, price: n(*p),
                recipient: fb.map(|_| s("vault")), reserve: None, fee_bps: fb, expires: E1, funds: f(7),
            });
            orders.push(bid(0, "bobby", A, 1, *p, E1, None, fb));
            orders.push(cbid("bobby", A, *p, E1, fb));
        }
        for fin in [None, Some("finny")] {
            sales.push(bid(1, "carol", A, 1, *p, E1, fin, Some(777)));
        }
        sales.push(bid(2, "carol", A, 1, *p, E1, Some("finny"), None));
    }
    for fin in [None, Some("finny"), Some("bobby")] {
        sales.push(accept("alice", A, 1, "bobby", fin));
        sales.push(caccept("alice", A, 1, "bobby", fin));
    }
    // asks are only bought at their own price: keep the alphabet of sales small per price
    let mut out = vec![];
    for (i, p) in prices.iter().enumerate() {
        let o: Vec<Op> = orders[i * 15..(i + 1) * 15].to_vec();
        let mut sl: Vec<Op> = sales[i * 3..(i + 1) * 3].to_vec();
        sl.extend(sales[prices.len() * 3..].to_vec());
        out.push(Scenario::phased(&format!("payouts at price {p}"), roots.clone(), vec![o, sl]));
    }
    out
}

fn stale(thorough: bool) -> Vec<Scenario<Op>> {
    let mut out = vec![];
    let rewards: &[u64] = &[0, 1, 555, 3333, 5000, 9999, 10_000];
    let durs: &[u64] = &[0, 1, STALE, 100];
    let mut roots = vec![];
    let prices: Vec<u128> = if thorough { (1..=60).chain([99, 100, 101, 1999, 10_001]).collect() } else { vec![1, 2, 3, 19, 100, 101, 1999] };
    for &r in rewards {
        for &d in durs {
            roots.push(cat(&[
                world(&[(A, &[1])], &["alice", "bobby", "carol"]),
                mint(A, 1, "alice", true),
                vec![Op::Init(Cfg { reward: r, stale: d, min_price: U(1), ..cfg() })],
            ]));
        }
    }
    let mut orders = vec![];
    for p in &prices {
        orders.push(bid(0, "bobby", A, 1, *p, E1, None, None));
        orders.push(cbid("bobby", A, *p, E1, None));
    }
    let mut t = vec![];
    for &d in durs {
        for dt in [-1i64, 0, 1] {
            t.push(Op::At((E1 + d * SEC).wrapping_add(dt as u64)));
        }
    }
    let mut ends = vec![];
    for by in ["oscar", "bobby", "alice"] {
        ends.push(stale_bid(by, A, 1, "bobby"));
        ends.push(stale_cbid(by, A, "bobby"));
    }
    ends.push(rm_bid("bobby", A, 1));
    ends.push(rm_cbid("bobby", A));
    ends.push(stale_bid("oscar", A, 1, "carol"));
    out.push(Scenario::phased("stale bids", roots, vec![orders, t, ends.clone(), ends.clone()]));
    // the parameters change while bids are waiting
    let p = |stale: Option<u64>, reward: Option<u64>| Op::Params {
        trading: None, ask_exp: None, bid_exp: None, operators: None, max_finder: None, min_price: None, stale, reward, fee: None,
    };
    let mut v = vec![
        bid(0, "bobby", A, 1, 1000, E1, None, None),
        bid(0, "bobby", A, 1, 1201, E2, None, None),
        bid(0, "oscar", A, 1, 1201, E1, None, None),
        cbid("bobby", A, 901, E1, None),
        p(Some(0), None),
        p(Some(20), Some(10_000)),
        Op::RemoveOperator(s("oscar")),
        Op::AddOperator(s("carol")),
        Op::At(E1),
        Op::At(E1 + STALE * SEC),
        Op::At(E1 + 20 * SEC),
        transfer(A, 1, "carol"),
        stale_bid("oscar", A, 1, "oscar"),
    ];
    v.extend(["oscar", "carol"].iter().flat_map(|b| [stale_bid(b, A, 1, "bobby"), stale_cbid(b, A, "bobby")]));
    out.push(Scenario::new("stale bids under changing parameters", vec![root1()], v, if thorough { 12 } else { 6 }));
    out
}

fn sync_sc(depth: usize) -> Scenario<Op> {
    let mut v = vec![
        ask("alice", A, 1, 1000, E1),
        ask_full("alice", A, 1, 900, E2, Some("bobby")),
        revoke(A, 1),
        approve(A, 1),
        Op::Approve { coll: s(A), tok: 1, until: Some(T0 + 50 * SEC) },
        transfer(A, 1, "carol"),
        transfer(A, 1, "alice"),
        Op::BurnNft { coll: s(A), tok: 1 },
        Op::Mint { coll: s(A), tok: 1, owner: s("alice") },
        Op::At(T0 + 50 * SEC - 1),
        Op::At(T0 + 50 * SEC),
        Op::At(E1 - 1),
        Op::At(E1),
        sync("oscar", A, 1),
        sync("oprah", A, 1),
        sync("alice", A, 1),
        stale_ask("oscar", A, 1),
        stale_ask("alice", A, 1),
        bid(1, "bobby", A, 1, 1000, E2, None, None),
        bid(0, "bobby", A, 1, 900, E2, None, None),
        rm_ask("alice", A, 1),
        Op::RemoveOperator(s("oscar")),
    ];
    v.push(ask("carol", A, 1, 1000, E2));
    Scenario::new("keeping asks in step with the NFT", vec![root1()], v, depth)
}

fn gov(thorough: bool) -> Vec<Scenario<Op>> {
    let none = || Op::Params {
        trading: None, ask_exp: None, bid_exp: None, operators: None, max_finder: None, min_price: None, stale: None,
        reward: None, fee: None,
    };
    let mut one = vec![none()];
    let bp = [0u64, 1, 9_999, 10_000, 10_001, 100_000];
    let rg = [(0, 0), (1, 2), (5, 4), (1000, 999), (60, 60), (7, 70_000)];
    for x in bp {
        for k in 0..3 {
            let mut o = none();
            if let Op::Params { trading, max_finder, reward, .. } = &mut o {
                *[trading, max_finder, reward][k] = Some(x);
            }
            one.push(o);
        }
    }
    for x in rg {
        for k in 0..2 {
            let mut o = none();
            if let Op::Params { ask_exp, bid_exp, .. } = &mut o {
                *[ask_exp, bid_exp][k] = Some(x);
            }
            one.push(o);
        }
    }
    for x in [0u128, 1, 500, u64::MAX as u128 * 7] {
        for k in 0..2 {
            let mut o = none();
            if let Op::Params { min_price, fee, .. } = &mut o {
                *[min_price, fee][k] = Some(U(x));
            }
            one.push(o);
        }
    }
    for x in [0u64, 1, 1_000_000] {
        let mut o = none();
        if let Op::Params { stale, .. } = &mut o {
            *stale = Some(x);
        }
        one.push(o);
    }
    for ops in [vec![], vec![s("carol")], vec![s("oscar"), s("oscar")]] {
        let mut o = none();
        if let Op::Params { operators, .. } = &mut o {
            *operators = Some(ops);
        }
        one.push(o);
    }
    // combinations: one bad among good ones, all at once
    for (t, a, b, mf, r) in [
        (Some(10_001), None, None, Some(5), Some(5)),
        (Some(5), Some((2, 1)), None, Some(5), Some(5)),
        (Some(5), Some((1, 2)), Some((9, 8)), Some(5), Some(5)),
        (Some(5), Some((1, 2)), Some((8, 9)), Some(10_001), Some(5)),
        (Some(5), Some((1, 2)), Some((8, 9)), Some(50), Some(10_001)),
        (Some(5), Some((1, 2)), Some((8, 9)), Some(51), Some(52)),
        (None, Some((1, 2)), None, None, Some(53)),
    ] {
        one.push(Op::Params {
            trading: t, ask_exp: a, bid_exp: b, operators: None, max_finder: mf, min_price: Some(U(55)), stale: Some(66),
            reward: r, fee: Some(U(77)),
        });
    }
    let full = book();
    let mut out = vec![Scenario::new("parameter updates", vec![root1(), full.clone()], one.clone(), if thorough { 4 } else { 3 })];
    // creation
    let mut inits = vec![];
    for t in bp {
        for mf in bp {
            for r in [0, 10_000, 10_001] {
                for ae in [(0, 0), (60, 1000), (2, 1)] {
                    for be in [(0, 0), (60, 500), (500, 60)] {
                        inits.push(Op::Init(Cfg { trading: t, max_finder: mf, reward: r, ask_exp: ae, bid_exp: be, ..cfg() }));
                    }
                }
            }
        }
    }
    for ops in [vec![], vec!["oscar"], vec!["oscar", "carol", "oscar", "alice", "carol"]] {
        for h in [None, Some(s("hooka"))] {
            inits.push(Op::Init(Cfg { operators: ops.iter().map(|x| s(x)).collect(), sale_hook: h, ..cfg() }));
        }
    }
    inits.push(Op::Init(Cfg { stale_height: true, ..cfg() }));
    let pre = cat(&[world(&[(A, &[1])], &["alice", "bobby"]), mint(A, 1, "alice", true)]);
    out.push(Scenario::new("creation", vec![pre], inits, 1));
    // operators and hooks
    let mut v = vec![];
    for o in ["oscar", "carol", "erica"] {
        v.push(Op::AddOperator(s(o)));
        v.push(Op::RemoveOperator(s(o)));
    }
    for kind in ["ask", "bid", "sale"] {
        for h in ["hooka", "hookb"] {
            v.push(Op::AddHook { kind: s(kind), hook: s(h) });
            v.push(Op::RemoveHook { kind: s(kind), hook: s(h) });
        }
    }
    v.push(sync("carol", A, 1));
    v.push(sync("oscar", A, 1));
    v.push(revoke(A, 1));
    v.push(approve(A, 1));
    out.push(Scenario::new(
        "operators and hooks",
        vec![cat(&[root1(), vec![ask("alice", A, 1, 1000, E1)]]), full],
        v,
        if thorough { 8 } else { 5 },
    ));
    out
}

fn hooks(thorough: bool) -> Vec<Scenario<Op>> {
    let h = |a: &str, f: bool| Op::Hook { addr: s(a), fails: f };
    let add = |k: &str, a: &str| Op::AddHook { kind: s(k), hook: s(a) };
    let all = vec![
        h("hooka", false),
        h("hookb", true),
        h("hookc", false),
        add("ask", "hooka"),
        add("ask", "hookb"),
        add("bid", "hookb"),
        add("bid", "hookc"),
        add("sale", "hooka"),
        add("sale", "hookc"),
        add("sale", "hookb"),
    ];
    let one = vec![h("hooka", false), add("ask", "hooka"), add("bid", "hooka"), add("sale", "hooka")];
    let mut alpha = core();
    alpha.push(h("hooka", true));
    alpha.push(h("hookb", false));
    alpha.push(Op::RemoveHook { kind: s("sale"), hook: s("hooka") });
    let d = if thorough { 6 } else { 4 };
    let mut hooked = life(if thorough { 4 } else { 3 });
    hooked.name = "hooks and phases in the life of an NFT".into();
    hooked.roots = hooked.roots.iter().map(|r| cat(&[r.clone(), all.clone()])).collect();
    let mut shared = roles(if thorough { 3 } else { 2 });
    shared.name = "hooks and one account in several roles".into();
    shared.roots = shared.roots.iter().map(|r| cat(&[r.clone(), one.clone()])).collect();
    vec![
        hooked,
        shared,
        Scenario::new("hooks, one of them failing", vec![cat(&[root1(), all.clone()])], alpha.clone(), d),
        Scenario::new("hooks on a full book", vec![cat(&[book(), all.clone()]), cat(&[book(), one])], book_alphabet(), if thorough { 3 } else { 2 }),
        Scenario::new(
            "hooks and stale orders",
            vec![cat(&[book(), all, vec![Op::At(E1 + STALE * SEC)]])],
            book_alphabet(),
            if thorough { 3 } else { 2 },
        ),
    ]
}

fn migration(thorough: bool) -> Scenario<Op> {
    let mut v = vec![Op::Migrate];
    for (c, ver) in [
        ("crates.io:sg-marketplace", "0.0.1"),
        ("crates.io:sg-marketplace", "1.0.0"),
        ("crates.io:sg-marketplace", "1.3.99"),
        ("crates.io:sg-marketplace", crate::version()),
        ("crates.io:sg-marketplace", "1.4.0-rc"),
        ("crates.io:sg-marketplace", "1.4.0-alpha"),
        ("crates.io:sg-marketplace", "1.4.1-alpha"),
        ("crates.io:sg-marketplace", "1.4.1"),
        ("crates.io:sg-marketplace", "1.10.0"),
        ("crates.io:sg-marketplace", "2.0.0"),
        ("crates.io:sg-marketplace", "10.0.0"),
        ("crates.io:sg-marketplace", "one"),
        ("crates.io:sg-marketplacex", "1.0.0"),
        ("crates.io:other", "1.0.0"),
        ("crates.io:other", crate::version()),
    ] {
        v.push(Op::StoredVersion { contract: s(c), version: s(ver) });
    }
    let after = vec![
        rm_bid("bobby", A, 1),
        accept("alice", A, 1, "carol", None),
        bid(1, "carol", A, 1, 1000, E2, None, None),
        caccept("alice", A, 0, "bobby", None),
        rm_cbid("bobby", B),
        stale_bid("oscar", A, 1, "bobby"),
        Op::Migrate,
    ];
    let mut levels = vec![v.clone(), v.clone(), after.clone()];
    if thorough {
        levels = vec![v.clone(), v.clone(), after.clone(), v.clone(), v, after];
    }
    let mut roots = vec![book(), root1(), cat(&[book(), vec![Op::At(E1 + STALE * SEC)]])];
    roots.extend(lives());
    let h = |k: &str, a: &str| Op::AddHook { kind: s(k), hook: s(a) };
    for (i, c) in changes().into_iter().enumerate() {
        let mut r = lives()[i % 8].clone();
        r.push(Op::Hook { addr: s("hooka"), fails: false });
        r.extend([h("ask", "hooka"), h("bid", "hooka"), h("sale", "hooka")]);
        if !matches!(c, Op::At(t) if t <= E1) {
            r.push(c);
        }
        roots.push(r);
    }
    Scenario::phased("migration of full books", roots, levels).inspected(1)
}

fn query_sc(thorough: bool) -> Vec<Scenario<Op>> {
    let mut v = vec![];
    for (c, t, o) in [(A, 0, "alice"), (A, 1, "alice"), (A, 2, "carol"), (B, 1, "alice")] {
        v.push(ask(o, c, t, 1000, E2));
        v.push(reprice(o, c, t, 800));
        v.push(revoke(c, t));
        v.push(sync("oscar", c, t));
        v.push(bid(0, "bobby", c, t, 777, E1, None, None));
        v.push(bid(0, "carol", c, t, 777, E1 + 1, None, None));
        v.push(rm_bid("bobby", c, t));
        v.push(bid(1, "carol", c, t, 1000, E2, None, None));
    }
    for c in [A, B] {
        v.push(cbid("bobby", c, 850, E1, None));
        v.push(cbid("carol", c, 850, E1 + SEC, None));
        v.push(rm_cbid("bobby", c));
    }
    v.push(accept("alice", A, 1, "bobby", None));
    v.push(caccept("alice", A, 0, "bobby", None));
    v.push(rm_ask("alice", A, 1));
    let mut out = vec![
        Scenario::new("listings, from an empty book", vec![world2()], v.clone(), if thorough { 5 } else { 3 })
            .inspected(if thorough { 2 } else { 1 }),
        Scenario::new("listings, from a full book", vec![book()], book_alphabet(), if thorough { 2 } else { 1 }).inspected(2),
    ];
    // long lists: more than the default and the maximum page
    let toks: Vec<u32> = (0..if thorough { 120 } else { 30 }).collect();
    let bidders: Vec<String> = (0..14).map(|i| format!("bidder{}", (b'a' + i) as char)).collect();
    let bs: Vec<&str> = bidders.iter().map(|x| x.as_str()).collect();
    let mut r = world(&[(A, &toks), (B, &[1])], &bs[..if thorough { 3 } else { 14 }]);
    r.push(Op::Fund(bidders.clone()));
    for t in &toks {
        r.extend(mint(A, *t, "alice", true));
    }
    r.extend(mint(B, 1, "alice", true));
    r.push(Op::Init(cfg()));
    for t in &toks {
        r.push(ask("alice", A, *t, 1000 + (*t as u128 * 7) % 13, E1));
        if t % 3 == 0 {
            r.push(revoke(A, *t));
            r.push(sync("oscar", A, *t));
        }
    }
    for (i, b) in bs.iter().enumerate() {
        r.push(bid(0, b, B, 1, 900 + (i as u128 * 5) % 7, E1, None, None));
        r.push(cbid(b, A, 900 + (i as u128 * 5) % 7, E1, None));
    }
    let bb = bs[1];
    for t in toks.iter().filter(|t| **t % 3 != 0) {
        r.push(bid(0, bb, A, *t, 500 + (*t as u128 * 5) % 7, E1 + (*t as u64 % 4) * SEC, None, None));
    }
    out.push(Scenario::new(
        "long listings",
        vec![r],
        vec![rm_ask("alice", A, 7), reprice("alice", A, 10, 1), reprice("alice", A, 10, 1003), rm_bid(bb, A, 4)],
        1,
    ).inspected(if thorough { 1 } else { 2 }));
    // more than the largest page, of every kind of order
    let sizes: &[u32] = if thorough { &[99, 100, 101, 210] } else { &[101] };
    let roots = sizes.iter().map(|&k| {
        let toks: Vec<u32> = (0..k).collect();
        let bidders: Vec<String> = (0..k as u8).map(|i| format!("bid{}{}", (b'a' + i / 26) as char, (b'a' + i % 26) as char)).collect();
        let bs: Vec<&str> = bidders.iter().map(|x| x.as_str()).collect();
        let mut r = world(&[(A, &toks), (B, &[1])], &["alice", "bidaa"]);
        r.push(Op::Fund(bidders.clone()));
        for t in &toks {
            r.extend(mint(A, *t, "alice", true));
        }
        r.extend(mint(B, 1, "alice", true));
        r.push(Op::Init(cfg()));
        for t in &toks {
            r.push(ask("alice", A, *t, 1000 + (*t as u128 * 7) % 13, E1));
            r.push(bid(0, "bidaa", A, *t, 500 + (*t as u128 * 5) % 7, E1 + (*t as u64 % 4) * SEC, None, None));
        }
        for t in [5, 98] {
            r.push(revoke(A, t));
            r.push(sync("oscar", A, t));
        }
        for (i, b) in bs.iter().enumerate() {
            r.push(bid(0, b, B, 1, 900 + (i as u128 * 5) % 7, E1, None, None));
            r.push(cbid(b, A, 900 + (i as u128 * 5) % 7, E1, None));
        }
        r
    });
    out.push(Scenario::new("very long listings", roots.collect(), vec![], 0).inspected(3));
    out
}

pub fn plan(prop: &str, thorough: bool) -> Option<PropPlan<Op>> {
    let core_d = if thorough { 14 } else { 7 };
    let core_sc = || Scenario::new("one NFT, everybody", vec![root1()], core(), core_d);
    let core_listed = || {
        Scenario::new(
            "one listed NFT with bids",
            vec![
                cat(&[root1(), vec![
                    ask("alice", A, 1, 1000, E1),
                    bid(0, "bobby", A, 1, 999, E1, None, Some(250)),
                    cbid("carol", A, 1301, E2, Some(250)),
                ]]),
                cat(&[root1(), vec![
                    auction("alice", A, 1, 700, E1),
                    bid(0, "bobby", A, 1, 1000, E2, None, None),
                    bid(0, "carol", A, 1, 701, E1, None, Some(77)),
                    cbid("bobby", A, 500, E1, None),
                ]]),
            ],
            core(),
            if thorough { 7 } else { 5 },
        )
    };
    let book_sc = || Scenario::new("full book over two collections", vec![book()], book_alphabet(), if thorough { 4 } else { 3 });
    let book1 = || Scenario::new("full book over two collections", vec![book()], book_alphabet(), if thorough { 3 } else { 2 });
    let mut v: Vec<Scenario<Op>> = vec![];
    match prop {
        "M10" => v.push(life(if thorough { 3 } else { 2 }).inspected(1)),
        "M15" => {}
        "M11" => {}
        _ => v.push(life(if thorough { 5 } else { 3 })),
    }
    match prop {
        "M10" => v.push(odd(if thorough { 2 } else { 1 }).inspected(1)),
        "M05" | "M12" | "M15" => {}
        _ => v.push(odd(if thorough { 3 } else { 2 })),
    }
    match prop {
        "M10" => v.push(circumstances(2, 1).inspected(1)),
        "M12" => {}
        "M15" => {
            let mut sc = circumstances(3, 1);
            sc.name = format!("{}, with a migration", sc.name);
            for r in &mut sc.roots {
                r.push(Op::Twin);
            }
            v.push(sc);
        }
        _ if thorough => v.extend([circumstances(4, 2), circumstances(3, 3)]),
        _ => v.extend([circumstances(4, 1), circumstances(3, 2)]),
    }
    match prop {
        "M01" => {
            v.extend([core_sc(), core_listed(), book1(), nonpayable(), bids_validity()]);
            v.extend(payouts(thorough));
            v.extend(stale(false));
            v.push(asks_validity());
        }
        "M02" => {
            v.extend([core_sc(), core_listed(), book1(), nonpayable(), bids_validity(), ownership(if thorough { 30 } else { 6 })]);
            v.extend(stale(false));
        }
        "M03" => {
            v.extend([core_sc(), core_listed(), book1()]);
            v.extend(payouts(thorough));
            v.push(roles(if thorough { 3 } else { 2 }));
        }
        "M04" => {
            v.extend([core_sc(), core_listed(), ownership(if thorough { 30 } else { 6 }), book1(), nonpayable(), bids_validity()]);
            v.extend(payouts(false).into_iter().take(8));
            v.push(roles(if thorough { 3 } else { 2 }));
        }
        "M05" => {
            v.extend([gating(if thorough { 14 } else { 6 }), roles(if thorough { 3 } else { 2 }), core_sc(), bids_validity(), reprice_validity(), book1(), sync_sc(3)]);
        }
        "M06" => {
            v.extend([nonpayable(), ownership(if thorough { 30 } else { 6 }), core_sc(), core_listed(), book1(), asks_validity(), reprice_validity()]);
            v.extend(gov(false).into_iter().skip(2));
        }
        "M07" => {
            v.extend([asks_validity(), bids_validity(), reprice_validity(), core_sc(), book1()]);
        }
        "M08" => {
            v.extend(stale(thorough));
            v.extend([core_listed(), nonpayable(), roles(if thorough { 3 } else { 2 })]);
        }
        "M09" => {
            v.extend([sync_sc(if thorough { 30 } else { 8 }), core_listed(), nonpayable(), book1()]);
        }
        "M10" => {
            v.extend(query_sc(thorough));
            v.push(core_listed());
        }
        "M11" => {
            v.extend(hooks(thorough));
        }
        "M12" => {
            v.extend(gov(thorough));
        }
        "M13" => {
            v.extend([asks_validity(), core_sc(), book1(), nonpayable(), bids_validity()]);
        }
        "M14" => {
            v.extend([book_sc(), core_sc(), core_listed(), ownership(if thorough { 30 } else { 6 })]);
        }
        "M16" => {
            v.extend([core_sc(), core_listed(), sync_sc(if thorough { 12 } else { 6 }), book1(), asks_validity(), bids_validity()]);
            v.extend(payouts(false).into_iter().take(8));
            v.push(roles(if thorough { 3 } else { 2 }));
            v.extend(stale(false));
        }
        "M15" => {
            v.push(migration(thorough));
            let mut sc = life(if thorough { 4 } else { 3 });
            sc.name = format!("{}, with a migration", sc.name);
            for (i, r) in sc.roots.iter_mut().enumerate() {
                if i % 2 == 1 {
                    r.push(Op::StoredVersion { contract: s("crates.io:sg-marketplace"), version: s("1.0.0") });
                }
                r.push(Op::Twin);
            }
            v.push(sc);
        }
        _ => return None,
    }
    Some(PropPlan { scenarios: v, budget_s: if thorough { 3000 } else { 200 } })
}
