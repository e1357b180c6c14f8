//! C01-C07: routing, order, subscriptions, sessions, healing and convergence, over generated histories.

use proptest::prelude::*;

use super::{
    flow,
    hist::{self, *},
    threads,
};
use crate::engine::{fixed, part, Opts, Property};

fn join(parts: Vec<BoxedStrategy<Vec<Op>>>) -> BoxedStrategy<Vec<Op>> {
    parts.prop_map(|v| v.into_iter().flatten().collect::<Vec<Op>>()).boxed()
}

fn burst(direct: u32, bcast: u32, max: usize) -> BoxedStrategy<Op> {
    proptest::collection::vec(send(direct, bcast), 1..max).prop_map(Op::Burst).boxed()
}

fn c01() -> BoxedStrategy<Case> {
    // Keys move only when settled (rapid moves are C05's), messages fly at any time.
    let step = prop_oneof![
        6 => burst(5, 1, 12).prop_map(|b| vec![b]),
        2 => (login_op(Just(false).boxed()), burst(4, 0, 6)).prop_map(|(l, b)| vec![l, b, Op::Settle]),
        2 => (0usize..6, how(), burst(4, 0, 6)).prop_map(|(u, how, b)| vec![Op::Logout { u, nth: 0, how }, b, Op::Settle]),
        2 => prop_oneof![0u64..20, 0u64..3000].prop_map(|n| vec![Op::Pause(n)]),
        1 => Just(vec![Op::Settle]),
    ];
    let mid = proptest::collection::vec(step, 1..10).prop_map(|v| v.concat()).boxed();
    case(1..=3, join(vec![opening(), mid]))
}

fn c02() -> BoxedStrategy<Case> {
    let step = prop_oneof![
        6 => burst(0, 5, 8).prop_map(|b| vec![b]),
        2 => (0usize..6, some_topics()).prop_map(|(u, topics)| vec![Op::Sub { u, topics }]),
        2 => (0usize..6, some_topics()).prop_map(|(u, topics)| vec![Op::Unsub { u, topics }]),
        1 => (login_op(Just(false).boxed()), burst(0, 3, 4)).prop_map(|(l, b)| vec![l, b, Op::Settle]),
        1 => (0usize..6, how()).prop_map(|(u, how)| vec![Op::Logout { u, nth: 0, how }, Op::Settle]),
        2 => prop_oneof![0u64..20, 0u64..3000].prop_map(|n| vec![Op::Pause(n)]),
        3 => Just(vec![Op::Settle]),
    ];
    let mid = proptest::collection::vec(step, 1..14).prop_map(|v| v.concat()).boxed();
    case(1..=3, join(vec![opening(), mid]))
}

fn c03() -> BoxedStrategy<Case> {
    let step = prop_oneof![
        8 => burst(2, 2, 25).prop_map(|b| vec![b]),
        2 => prop_oneof![0u64..5, 0u64..300].prop_map(|n| vec![Op::Pause(n)]),
        1 => Just(vec![Op::Pause(12_000)]),
    ];
    let mid = proptest::collection::vec(step, 1..8).prop_map(|v| v.concat()).boxed();
    case(1..=3, join(vec![opening(), mid]))
}

/// Some of the messages are large, with others right behind them.
fn large(cases: BoxedStrategy<Case>) -> BoxedStrategy<Case> {
    let sizes = prop_oneof![3 => 3_000usize..70_000, 3 => 70_000usize..1_000_000, 2 => 1_000_000usize..3_000_000, 1 => Just(5_000_000usize)];
    (cases, proptest::collection::vec((0usize..60, sizes), 1..6), 1u64..6, prop_oneof![3 => Just(None), 1 => Just(Some(64usize << 20))])
        .prop_map(|(mut c, sizes, lat, pool)| {
            (c.lat, c.chunk, c.cap, c.pool) = (lat, 1 << 16, 4 << 20, pool);
            let mut sends: Vec<&mut Send> = c
                .ops
                .iter_mut()
                .flat_map(|o| match o {
                    Op::Burst(b) => b.iter_mut().collect(),
                    _ => vec![],
                })
                .collect();
            let n = sends.len();
            if n > 0 {
                for (i, len) in sizes {
                    sends[i % n].len = len;
                    sends[i % n].bare = false;
                }
            }
            c
        })
        .boxed()
}

#[derive(Clone, Copy)]
enum Crowd {
    Direct,
    Broadcast,
    Order,
    Logins,
    Faults,
    TopicFaults,
    Links,
}

/// Many users, many messages at once, many repetitions of the same thing.
fn crowd(what: Crowd) -> BoxedStrategy<Case> {
    use Crowd::*;
    let (direct, bcast) = match what {
        Direct | Logins | Faults => (5, 1),
        Broadcast | TopicFaults => (1, 5),
        Order | Links => (3, 3),
    };
    let who = || 0usize..200;
    let send = move || {
        let dest = prop_oneof![direct => who().prop_map(Dest::User), bcast => some_topics().prop_map(Dest::Topics)];
        (who(), dest, 0usize..60, 0u8..5, proptest::bool::weighted(0.15)).prop_map(|(u, to, len, layout, bare)| Send { u, to, len, layout, bare })
    };
    let flood = (send(), prop_oneof![3 => 20usize..200, 2 => 200usize..1500, 1 => 1500usize..3500])
        .prop_map(|(send, n)| Op::Flood { send, n })
        .boxed();
    let all = (0usize..8, 0usize..4, topics(), prop_oneof![2 => Just(0usize), 1 => 1usize..4])
        .prop_map(|(b, step, topics, some)| Op::LoginAll { b, step, topics, some })
        .boxed();
    let nap = || prop_oneof![0u64..30, 0u64..3000, 0u64..13_000].prop_map(Op::Pause);
    // One key that changes brokers, or a user that changes its mind, again and again.
    let moves = (who(), 100usize..600, proptest::collection::vec((0usize..6, topics()), 1..4), prop_oneof![3 => 0u64..30, 1 => 0u64..3000])
        .prop_map(|(u, n, v, p)| Op::Again {
            n: n / v.len(),
            ops: v.into_iter().flat_map(|(b, topics)| [Op::Login { u, b, topics, wait: true }, Op::Pause(p)]).collect(),
        });
    let flips = (who(), 100usize..400, some_topics(), some_topics(), prop_oneof![0u64..30, 9_000u64..12_000]).prop_map(|(u, n, x, y, p)| Op::Again {
        n: n / 2,
        ops: vec![
            Op::Sub { u, topics: x.clone() },
            Op::Unsub { u, topics: y.clone() },
            Op::Pause(p),
            Op::Unsub { u, topics: x },
            Op::Sub { u, topics: y },
            Op::Pause(p),
        ],
    });
    let moved = matches!(what, Logins | Faults | Links);
    let flipped = matches!(what, Broadcast | TopicFaults | Links);
    let faulty = matches!(what, Faults | TopicFaults);
    let mut step: Vec<(u32, BoxedStrategy<Vec<Op>>)> = vec![
        (3, flood.clone().prop_map(|f| vec![f]).boxed()),
        (2, proptest::collection::vec((who(), 500u64..3_500).prop_map(|(u, ms)| Op::Doze { u, ms }), 1..8).prop_map(|v| v).boxed()),
        (2, (proptest::collection::vec(send(), 1..120)).prop_map(|v| vec![Op::Burst(v)]).boxed()),
        (2, (all, nap()).prop_map(|(a, p)| vec![a, p]).boxed()),
        (2, proptest::collection::vec((who(), how()).prop_map(|(u, how)| Op::Logout { u, nth: 0, how }), 1..60).boxed()),
        (1, proptest::collection::vec((who(), some_topics(), any::<bool>()).prop_map(|(u, topics, on)| if on { Op::Sub { u, topics } } else { Op::Unsub { u, topics } }), 1..60).boxed()),
        (2, nap().prop_map(|p| vec![p]).boxed()),
        (2, Just(vec![Op::Settle]).boxed()),
    ];
    if moved {
        step.push((1, moves.prop_map(|m| vec![m, Op::Settle]).boxed()));
    }
    if flipped {
        step.push((1, flips.prop_map(|m| vec![m, Op::Settle]).boxed()));
    }
    if faulty {
        // Faults strike when everything before is known everywhere.
        step.push((8, outage(matches!(what, TopicFaults)).prop_map(|mut v| {
            v.insert(0, Op::Settle);
            v
        }).boxed()));
    }
    let step = proptest::strategy::Union::new_weighted(step);
    (
        1usize..=5,
        10usize..100,
        1u64..5,
        prop_oneof![Just(64usize), Just(1 << 16)],
        any::<u64>(),
        (0usize..8, prop_oneof![1 => Just(0usize), 4 => 1usize..4], topics()),
        proptest::collection::vec(step, 1..6),
        proptest::collection::vec(flood, 0..3),
    )
        .prop_map(move |(brokers, users, lat, chunk, seed, (b, step, topics), steps, floods)| {
            let mut ops = vec![Op::LoginAll { b, step, topics, some: 0 }, Op::Settle];
            ops.extend(floods);
            ops.extend(steps.into_iter().flatten());
            if !matches!(what, Direct | Order) {
                ops.extend([Op::Heal, Op::Settle, Op::Probe]);
            }
            Case {
                brokers: if matches!(what, Links | Faults | TopicFaults) { brokers.max(2) } else { brokers },
                users,
                lat,
                chunk,
                cap: 4 << 20,
                seed,
                pool: None,
                stagger: vec![],
                tap: matches!(what, Links),
                shared: false,
                lonely: false,
                ops,
            }
        })
        .boxed()
}

fn c04() -> BoxedStrategy<Case> {
    let step = prop_oneof![
        5 => burst(0, 5, 6).prop_map(|b| vec![b]),
        4 => (0usize..6, some_topics()).prop_map(|(u, topics)| vec![Op::Sub { u, topics }]),
        4 => (0usize..6, some_topics()).prop_map(|(u, topics)| vec![Op::Unsub { u, topics }]),
        // everything in one go, so that the order of the user's own messages decides
        4 => (0usize..6, proptest::collection::vec((any::<bool>(), some_topics(), burst(0, 1, 3)), 1..5)).prop_map(|(u, v)| {
            v.into_iter()
                .flat_map(|(on, topics, b)| {
                    let b = match b {
                        Op::Burst(mut s) => {
                            s.iter_mut().for_each(|s| s.u = u);
                            Op::Burst(s)
                        }
                        b => b,
                    };
                    [if on { Op::Sub { u, topics } } else { Op::Unsub { u, topics } }, b]
                })
                .collect()
        }),
        2 => (0usize..6, prop_oneof![Just(0u8), Just(1), Just(2), Just(7)]).prop_map(|(u, what)| vec![Op::Poison { u, what }, Op::Settle]),
        2 => (login_op(any::<bool>().boxed()), burst(0, 3, 4)).prop_map(|(l, b)| vec![l, b, Op::Settle]),
        1 => (0usize..6, how(), login_op(Just(true).boxed())).prop_map(|(u, how, l)| vec![Op::Logout { u, nth: 0, how }, l, Op::Settle]),
        2 => prop_oneof![0u64..20, 0u64..3000].prop_map(|n| vec![Op::Pause(n)]),
        2 => Just(vec![Op::Settle, Op::Probe]),
    ];
    let mid = proptest::collection::vec(step, 1..12).prop_map(|v| v.concat()).boxed();
    case(1..=2, join(vec![opening(), mid]))
}

fn c05() -> BoxedStrategy<Case> {
    let step = prop_oneof![
        6 => login_op(any::<bool>().boxed()).prop_map(|l| vec![l]),
        // a storm of logins of one key
        3 => (0usize..6, proptest::collection::vec((0usize..3, topics(), 0u64..60, any::<bool>()), 2..5)).prop_map(|(u, v)| {
            v.into_iter()
                .flat_map(|(b, topics, gap, far)| {
                    [Op::Login { u, b, topics, wait: false }, Op::Pause(if far { gap * 40 } else { gap })]
                })
                .collect()
        }),
        3 => (0usize..6, 0usize..4, how()).prop_map(|(u, nth, how)| vec![Op::Logout { u, nth, how }]),
        1 => (0usize..6, 0u8..9).prop_map(|(u, what)| vec![Op::Poison { u, what }]),
        3 => prop_oneof![0u64..30, 0u64..3000, 0u64..13_000].prop_map(|n| vec![Op::Pause(n)]),
        2 => burst(3, 1, 6).prop_map(|b| vec![b]),
        2 => Just(vec![Op::Settle, Op::Probe]),
    ];
    let mid = proptest::collection::vec(step, 2..16).prop_map(|v| v.concat()).boxed();
    case(1..=3, join(vec![opening(), mid, Just(vec![Op::Settle, Op::Probe]).boxed()]))
}

fn faults() -> BoxedStrategy<Op> {
    prop_oneof![
        3 => (0usize..3, 0usize..3).prop_map(|(a, b)| Op::CutLinks { a, b }),
        2 => (0usize..3, 0usize..3).prop_map(|(a, b)| Op::HalfOpen { a, b }),
        3 => (0usize..3, 0usize..3, any::<bool>(), any::<bool>()).prop_map(|(a, b, hang, hold)| Op::Partition { a, b, hang, hold }),
        3 => (0usize..3).prop_map(|b| Op::Crash { b }),
        1 => (0usize..3).prop_map(|b| Op::Restart { b }),
    ]
    .boxed()
}

/// An outage: faults, then at most one change per key while it lasts, then repair.
fn outage(topical: bool) -> BoxedStrategy<Vec<Op>> {
    let change = if topical {
        prop_oneof![
            3 => (some_topics(), any::<bool>()).prop_map(|(topics, on)| (0, 0, how_of(0), topics, on)),
            2 => (0usize..3, topics(), how()).prop_map(|(b, t, h)| (1, b, h, t, true)),
            1 => how().prop_map(|h| (2, 0, h, vec![], true)),
            2 => Just((3, 0, How::Kill, vec![], true)),
        ]
        .boxed()
    } else {
        prop_oneof![
            4 => (0usize..3, topics(), how()).prop_map(|(b, t, h)| (1, b, h, t, true)),
            2 => how().prop_map(|h| (2, 0, h, vec![], true)),
            3 => Just((3, 0, How::Kill, vec![], true)),
        ]
        .boxed()
    };
    (
        proptest::collection::vec((faults(), 0u64..12_000), 1..3),
        proptest::collection::vec((change, 0u64..6_000), 5),
        prop_oneof![0u64..40_000, 0u64..100_000],
    )
        .prop_map(|(faults, changes, rest)| {
            let mut ops = vec![];
            for (f, p) in faults {
                ops.push(f);
                ops.push(Op::Pause(p));
            }
            for (u, ((kind, b, how, topics, on), pause)) in changes.into_iter().enumerate() {
                match kind {
                    0 if on => ops.push(Op::Sub { u, topics }),
                    0 => ops.push(Op::Unsub { u, topics }),
                    1 => ops.push(Op::Login { u, b, topics, wait: true }),
                    2 => ops.push(Op::Logout { u, nth: 0, how }),
                    _ => continue,
                }
                ops.push(Op::Pause(pause));
            }
            ops.push(Op::Pause(rest));
            ops.push(Op::Heal);
            ops.push(Op::Settle);
            ops.push(Op::Probe);
            ops
        })
        .boxed()
}
fn how_of(_: u8) -> How {
    How::Kill
}

fn c06() -> BoxedStrategy<Case> {
    let mid = proptest::collection::vec(
        prop_oneof![
            4 => outage(false),
            1 => login_op(Just(true).boxed()).prop_map(|l| vec![l, Op::Settle]),
            1 => burst(3, 0, 6).prop_map(|b| vec![b]),
        ],
        1..4,
    )
    .prop_map(|v| v.concat())
    .boxed();
    case_of(2..=3, 5..=5, join(vec![opening(), mid, Just(vec![Op::Heal, Op::Settle, Op::Probe]).boxed()]))
}

/// Concurrent logins at two brokers and an early logout, which one of the brokers forgets before it hears of the other
/// login; then a login at the third.
fn concurrent_logins() -> Vec<Case> {
    vec![serde_json::from_str(include_str!("cases/concurrent_logins.json")).expect("a case")]
}

/// A logout that one broker hears of late, while another, having forgotten it, takes up the old entry again.
fn forgotten_logout() -> Vec<Case> {
    let login = |u, b| Op::Login { u, b, topics: vec![], wait: true };
    vec![Case {
        brokers: 3,
        users: 5,
        lat: 1,
        chunk: 1,
        cap: 16384,
        seed: 0,
        pool: None,
        stagger: vec![],
        tap: false,
        shared: false,
        lonely: false,
        ops: vec![
            login(0, 2),
            Op::Settle,
            Op::Partition { a: 1, b: 2, hang: false, hold: true },
            Op::Pause(9000),
            Op::CutLinks { a: 0, b: 1 },
            Op::Logout { u: 0, nth: 0, how: How::Finish },
            Op::Pause(10_000),
            Op::Heal,
            Op::Settle,
            login(0, 1),
            Op::Settle,
            Op::Probe,
        ],
    }]
}

fn c07() -> BoxedStrategy<Case> {
    let mid = proptest::collection::vec(
        prop_oneof![
            4 => outage(true),
            2 => (0usize..6, some_topics()).prop_map(|(u, topics)| vec![Op::Sub { u, topics }]),
            2 => (0usize..6, some_topics()).prop_map(|(u, topics)| vec![Op::Unsub { u, topics }]),
            2 => (burst(0, 3, 6), prop_oneof![0u64..30, 0u64..14_000]).prop_map(|(b, p)| vec![Op::Pause(p), b]),
            1 => login_op(Just(true).boxed()).prop_map(|l| vec![l, Op::Settle]),
        ],
        1..6,
    )
    .prop_map(|v| v.concat())
    .boxed();
    case_of(2..=3, 5..=5, join(vec![opening(), mid, Just(vec![Op::Heal, Op::Settle, Op::Probe]).boxed()]))
}

fn c29() -> BoxedStrategy<Case> {
    prop_oneof![2 => c01(), 2 => c02(), 1 => c04(), 1 => c05(), 3 => c07()]
        .prop_map(|mut c| {
            c.tap = true;
            c.brokers = c.brokers.max(2);
            c
        })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "generated histories of 1-3 brokers and 2-5 users over a simulated network (latency, fragmentation, back-pressure), with messages that are told apart by their bytes or are equal or empty, also with messages of megabytes, and of 1-5 brokers with 10-100 users and floods of messages, and everybody at once on real threads; non-trivial: at least 3 deliveries were required of the system (settled recipient, live sender)",
            parts: vec![part("history", Opts { quick: 25_000, thorough: 500_000, ..Opts::default() }, c01, hist::run),
                part("large", Opts { quick: 1500, thorough: 20_000, quick_s: 20, hang_s: 120, ..Opts::default() }, || large(c01()), hist::run),
                part("crowd", Opts { quick: 1000, thorough: 50_000, quick_s: 25, hang_s: 120, ..Opts::default() }, || crowd(Crowd::Direct), hist::run),
                part("threads", Opts { quick: 100, thorough: 2000, det: false, hang_s: 200, ..Opts::default() }, || flow::strat(flow::What::Direct), flow::run)],
        },
        Property {
            id: "C02",
            rule: "as C01, with broadcasts and subscription changes; non-trivial: at least 3 deliveries were required",
            parts: vec![part("history", Opts { quick: 25_000, thorough: 500_000, ..Opts::default() }, c02, hist::run),
                part("large", Opts { quick: 1500, thorough: 20_000, quick_s: 20, hang_s: 120, ..Opts::default() }, || large(c02()), hist::run),
                part("crowd", Opts { quick: 1000, thorough: 50_000, quick_s: 25, hang_s: 120, ..Opts::default() }, || crowd(Crowd::Broadcast), hist::run),
                part("threads", Opts { quick: 100, thorough: 2000, det: false, hang_s: 200, ..Opts::default() }, || flow::strat(flow::What::Broadcast), flow::run)],
        },
        Property {
            id: "C03",
            rule: "as C01, bursts of mixed direct and broadcast messages of all sizes (up to megabytes), and on real threads; non-trivial: at least 3 deliveries were required",
            parts: vec![part("history", Opts { quick: 25_000, thorough: 500_000, ..Opts::default() }, c03, hist::run),
                part("large", Opts { quick: 1500, thorough: 20_000, quick_s: 20, hang_s: 120, ..Opts::default() }, || large(c03()), hist::run),
                part("crowd", Opts { quick: 1000, thorough: 50_000, quick_s: 25, hang_s: 120, ..Opts::default() }, || crowd(Crowd::Order), hist::run),
                part("threads", Opts { quick: 100, thorough: 2000, det: false, hang_s: 200, ..Opts::default() }, || flow::strat(flow::What::Order), flow::run)],
        },
        Property {
            id: "C04",
            rule: "as C02, with many subscription changes back to back, invalid topics and re-logins; non-trivial: at least 3 deliveries were required",
            parts: vec![part("history", Opts { quick: 25_000, thorough: 500_000, ..Opts::default() }, c04, hist::run)],
        },
        Property {
            id: "C05",
            rule: "histories of repeated and concurrent logins of the same keys on several brokers, late closures of superseded connections, then a probe of every key from every broker; non-trivial: at least 3 deliveries were required",
            parts: vec![part("history", Opts { quick: 25_000, thorough: 500_000, ..Opts::default() }, c05, hist::run),
                part("crowd", Opts { quick: 1000, thorough: 50_000, quick_s: 25, hang_s: 120, ..Opts::default() }, || crowd(Crowd::Logins), hist::run),
                part("threads", Opts { quick: 12, thorough: 120, workers: 4, det: false, hang_s: 200, ..Opts::default() }, threads::strat, threads::run),
                fixed("concurrent", true, concurrent_logins, hist::run)],
        },
        Property {
            id: "C06",
            rule: "histories with link cuts, partitions, broker crashes and restarts, logins and logouts during them, then repair, settling and a probe of every key from every broker; non-trivial: at least 3 deliveries were required",
            parts: vec![part("history", Opts { quick: 25_000, thorough: 500_000, ..Opts::default() }, c06, hist::run),
                part("crowd", Opts { quick: 1000, thorough: 50_000, quick_s: 25, hang_s: 120, ..Opts::default() }, || crowd(Crowd::Faults), hist::run), fixed("stale", true, forgotten_logout, hist::run)],
        },
        Property {
            id: "C07",
            rule: "as C06 with subscription changes and broadcasts; non-trivial: at least 3 deliveries were required",
            parts: vec![part("history", Opts { quick: 25_000, thorough: 500_000, ..Opts::default() }, c07, hist::run),
                part("crowd", Opts { quick: 1000, thorough: 50_000, quick_s: 25, hang_s: 120, ..Opts::default() }, || crowd(Crowd::TopicFaults), hist::run)],
        },
        Property {
            id: "C29",
            rule: "the histories of C01, C02, C04, C05 and C07 on 2-3 brokers with everything that crosses the links between the brokers recorded; non-trivial: at least 3 deliveries were required",
            parts: vec![part("history", Opts { quick: 25_000, thorough: 500_000, ..Opts::default() }, c29, hist::run),
                part("crowd", Opts { quick: 1000, thorough: 50_000, quick_s: 25, hang_s: 120, ..Opts::default() }, || crowd(Crowd::Links), hist::run)],
        },
    ]
}
