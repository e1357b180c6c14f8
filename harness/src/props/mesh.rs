//! C22: brokers keep registering and keep the mesh complete, whatever discovery and the network do.

use std::{cell::RefCell, collections::BTreeMap, time::Duration};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::time::Instant;

use crate::{
    engine::{part, CaseResult, Opts, Property, Rec},
    net::{self, Block, NetCfg, RawListener},
    sim::*,
    wire::{self, Msg},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    brokers: usize,
    lat: u64,
    chunk: usize,
    seed: u64,
    stagger: Vec<u64>,
    ops: Vec<Op>,
    /// All brokers advertise the same public endpoint.
    #[serde(default)]
    shared: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// What becomes of broker `b`'s heartbeats, or of its questions for the other brokers.
    Fault { b: usize, heartbeat: bool, f: DFault },
    HealDiscovery,
    Partition {
        a: usize,
        b: usize,
        hang: bool,
        /// Connections are made, but are dead for ever.
        #[serde(default)]
        hole: bool,
    },
    HealNet,
    Cut { a: usize, b: usize },
    Crash { b: usize },
    Restart { b: usize },
    Login { b: usize },
    Logout { n: usize },
    /// A broker is registered that cannot be reached, does not answer, or answers nonsense.
    Ghost(Ghost),
    Traffic,
    Pause(u64),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum DFault {
    Err,
    Hang,
    Delay(u64),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Ghost {
    Absent,
    Silent,
    Garbage,
}

struct Sess {
    broker: usize,
    peer: Peer,
    user: usize,
    from: (Instant, Instant),
    until: Option<Instant>,
}
#[derive(Default)]
struct Life {
    /// From when to when, and which of discovery's calls fall into it.
    spans: Vec<(Instant, usize, Option<(Instant, usize)>)>,
}

fn run(c: &Case, rec: &mut Rec) -> CaseResult {
    let out = RefCell::new(Rec::default());
    let r = run_sim(NetCfg { lat: c.lat, chunk: c.chunk, ..NetCfg::default() }, c.seed, async {
        let nb = c.brokers;
        SHARED_PUB.set(c.shared);
        let mut w = World::default();
        let mut lives: Vec<Life> = (0..nb).map(|_| Life::default()).collect();
        for b in 0..nb {
            let first = disc(|d| d.calls.len());
            w.start(b, None).await?;
            lives[b].spans.push((Instant::now(), first, None));
            ms(c.stagger.get(b).copied().unwrap_or(0)).await;
        }
        let t0 = Instant::now();
        let mut faults: BTreeMap<(usize, bool), DFault> = BTreeMap::new();
        // When any fault of discovery was in force at a broker.
        let mut faulty: Vec<Vec<(Instant, Option<Instant>)>> = vec![vec![]; nb];
        let mut sessions: Vec<Sess> = vec![];
        let mut ghosts: Vec<(String, Option<RawListener>)> = vec![];
        let mut n = 0u64;
        let (mut disturbed, mut exchanged) = (0, 0);
        let mut ops = c.ops.clone();
        // Everything is repaired; what must be within 36 s is looked at then and after another 25 s.
        ops.extend([Op::HealDiscovery, Op::HealNet]);
        ops.extend((0..nb).map(|b| Op::Restart { b }));
        ops.push(Op::Pause(36_000));
        for (k, op) in ops.iter().enumerate() {
            match op {
                Op::Fault { b, heartbeat, f } => {
                    let b = b % nb;
                    faults.insert((b, *heartbeat), *f);
                    disc(|d| {
                        d.fault(
                            &prv_ep(b),
                            if *heartbeat { Method::Heartbeat } else { Method::Others },
                            Some(match f {
                                DFault::Err => Fault::Err,
                                DFault::Hang => Fault::Hang,
                                DFault::Delay(n) => Fault::Delay(*n),
                            }),
                        )
                    });
                    if faulty[b].last().is_none_or(|f| f.1.is_some()) {
                        faulty[b].push((Instant::now(), None));
                    }
                    disturbed += 1;
                }
                Op::HealDiscovery => {
                    for b in 0..nb {
                        for m in [Method::Heartbeat, Method::Others] {
                            disc(|d| d.fault(&prv_ep(b), m, None));
                        }
                        if let Some(f) = faulty[b].last_mut() {
                            f.1.get_or_insert(Instant::now());
                        }
                    }
                }
                Op::Partition { a, b, hang, hole } => {
                    let (a, b) = (a % nb, b % nb);
                    if a == b {
                        continue;
                    }
                    net::with(|n| {
                        n.blocked.insert((a.min(b), a.max(b)), [Block::Refuse, Block::Hang, Block::Hole][if *hole { 2 } else { usize::from(*hang) }]);
                        for l in n.links_between(a, b) {
                            l.sever();
                        }
                    });
                    disturbed += 1;
                }
                Op::HealNet => net::with(|n| n.blocked.clear()),
                Op::Cut { a, b } => {
                    net::with(|n| n.links_between(a % nb, b % nb).iter().for_each(|l| l.sever()));
                    disturbed += 1;
                }
                Op::Crash { b } => {
                    let b = b % nb;
                    if !w.nodes.contains_key(&b) {
                        continue;
                    }
                    w.crash(b).await;
                    lives[b].spans.last_mut().unwrap().2 = Some((Instant::now(), disc(|d| d.calls.len())));
                    for s in sessions.iter_mut().filter(|s| s.broker == b) {
                        s.until.get_or_insert(Instant::now());
                    }
                    disturbed += 1;
                }
                Op::Restart { b } => {
                    let b = b % nb;
                    if w.nodes.contains_key(&b) {
                        continue;
                    }
                    let first = disc(|d| d.calls.len());
                    w.start(b, None).await?;
                    lives[b].spans.push((Instant::now(), first, None));
                }
                Op::Login { b } => {
                    let b = b % nb;
                    if !w.nodes.contains_key(&b) {
                        continue;
                    }
                    let user = 1 + sessions.len();
                    let from = Instant::now();
                    let peer = login(b, user, &[0]).await.map_err(|e| format!("login at broker {b}: {e:?}"))?;
                    ms(3 * c.lat + 5).await;
                    sessions.push(Sess { broker: b, peer, user, from: (from, Instant::now()), until: None });
                }
                Op::Logout { n } => {
                    let live: Vec<usize> = (0..sessions.len()).filter(|i| sessions[*i].until.is_none()).collect();
                    if live.is_empty() {
                        continue;
                    }
                    let s = &mut sessions[live[n % live.len()]];
                    s.until = Some(Instant::now());
                    s.peer.finish();
                }
                Op::Ghost(g) => {
                    let i = ghosts.len();
                    let name = format!("z{i}");
                    disc(|d| d.brokers.insert(ident_of(&name), (0, Instant::now() + Duration::from_secs(1_000))));
                    let l = match g {
                        Ghost::Absent => None,
                        Ghost::Silent => RawListener::bind(&format!("{name}.prv"), 60 + i),
                        Ghost::Garbage => {
                            let l = RawListener::bind(&format!("{name}.prv"), 60 + i).ok_or("bind")?;
                            tokio::spawn(async move {
                                let mut held = vec![];
                                while let Some((s, k)) = l.accept().await {
                                    let p = Peer::new(s, k);
                                    p.frame(b"garbage");
                                    held.push(p);
                                }
                            });
                            None
                        }
                    };
                    ghosts.push((name, l));
                    disturbed += 1;
                }
                Op::Traffic => {
                    // Between users of the same broker nothing ever stands in the way.
                    let live: Vec<&Sess> = sessions.iter().filter(|s| s.until.is_none()).collect();
                    let mut want = vec![];
                    for s in &live {
                        for r in live.iter().filter(|r| r.broker == s.broker) {
                            n += 1;
                            let f = wire::encode(&Msg::Direct { to: user_key(r.user), body: n.to_be_bytes().to_vec() });
                            s.peer.frame(&f);
                            want.push((*r, f));
                        }
                    }
                    ms(100 + 20 * c.lat).await;
                    for (r, f) in want {
                        if r.peer.frames().iter().filter(|g| **g == f).count() != 1 {
                            return Err(format!("operation {k}: a message between users of broker {} was not delivered", r.broker));
                        }
                        exchanged += 1;
                    }
                }
                Op::Pause(n) => ms(*n).await,
            }
        }
        if disc(|d| d.spun) {
            return Err("a broker calls discovery in a loop without pausing".into());
        }
        let mut ids = vec![];
        for a in 0..nb {
            for b in a + 1..nb {
                let l: Vec<usize> = net::with(|n| n.links_between(a, b).iter().filter(|l| l.alive()).map(|l| l.id).collect());
                if l.len() != 1 {
                    return Err(format!("36 s after all was repaired, there are {} links between the brokers {a} and {b}", l.len()));
                }
                ids.push((a, b, l[0]));
            }
        }
        // The links work.
        let probes: Vec<Peer> = {
            let mut v = vec![];
            for b in 0..nb {
                let from = Instant::now();
                let peer = login(b, 200 + b, &[1]).await.map_err(|e| format!("login at broker {b}: {e:?}"))?;
                ms(3 * c.lat + 5).await;
                sessions.push(Sess { broker: b, peer: peer.clone(), user: 200 + b, from: (from, Instant::now()), until: None });
                v.push(peer);
            }
            v
        };
        ms(25_000).await;
        for (a, b, id) in &ids {
            let l: Vec<usize> = net::with(|n| n.links_between(*a, *b).iter().filter(|l| l.alive()).map(|l| l.id).collect());
            if l != vec![*id] {
                return Err(format!("the link between the brokers {a} and {b} did not last: {id} became {l:?}"));
            }
        }
        for a in 0..nb {
            for b in 0..nb {
                n += 1;
                let f = wire::encode(&Msg::Direct { to: user_key(200 + b), body: n.to_be_bytes().to_vec() });
                probes[a].frame(&f);
                ms(20 * c.lat + 20).await;
                if probes[b].frames().iter().filter(|g| **g == f).count() != 1 {
                    return Err(format!("a message from broker {a} to broker {b} was not delivered after everything was repaired"));
                }
            }
        }
        let end = Instant::now();
        for s in &sessions {
            if s.until.is_none() && s.peer.is_closed() {
                return Err(format!("a user of broker {} was disconnected", s.broker));
            }
        }
        // Judge the heartbeats.
        let calls: Vec<Call> = disc(|d| d.calls.clone());
        let mut slowest = 0;
        for b in 0..nb {
            for (from, i, to) in &lives[b].spans {
                let (to, j) = to.unwrap_or((end, calls.len()));
                let mut last = *from;
                let mut first = true;
                let beats: Vec<&Call> =
                    calls[*i..j].iter().filter(|x| x.node == prv_ep(b) && x.method == Method::Heartbeat).collect();
                for (at, x) in beats.iter().map(|x| (x.at, Some(*x))).chain([(to, None)]) {
                    let gap = (at - last).as_millis();
                    let f = faulty[b]
                        .iter()
                        .any(|(f, g)| *f <= at && g.unwrap_or(end) + Duration::from_secs(1) >= last);
                    let max = if first && x.is_some() { 1_000 } else if f { 21_000 } else { 12_000 };
                    if gap > max {
                        return Err(format!(
                            "broker {b} did not report for {gap} ms ({} faults of discovery), {} ms after the start",
                            if f { "with" } else { "without" },
                            (at - t0).as_millis()
                        ));
                    }
                    slowest = slowest.max(gap);
                    if !first && x.is_some() && gap < 2_000 {
                        return Err(format!("broker {b} reported again after {gap} ms"));
                    }
                    if let Some(x) = x {
                        if x.expiry < Duration::from_secs(30) {
                            return Err(format!("broker {b} reports with an expiry of {:?}", x.expiry));
                        }
                        let slack = Duration::from_millis(10 * c.lat + 20);
                        let here = |s: &&Sess| s.broker == b;
                        let min = sessions.iter().filter(here).filter(|s| s.from.1 <= at && s.until.is_none_or(|u| u > at)).count();
                        let max = sessions.iter().filter(here).filter(|s| s.from.0 <= at && s.until.is_none_or(|u| u + slack > at)).count();
                        if (x.num as usize) < min || x.num as usize > max {
                            return Err(format!("broker {b} reported {} users with {min} to {max} connected", x.num));
                        }
                    }
                    last = at;
                    first = false;
                }
            }
        }
        // No flood of connection attempts.
        let total = (end - t0).as_millis() as usize;
        for g in &ghosts {
            let e = format!("{}.prv", g.0);
            for b in 0..nb {
                let k = net::with(|n| n.attempts.iter().filter(|a| a.1 == b && a.2 == e).count());
                if k > total / 5_000 + 5 + 2 * c.ops.len() {
                    return Err(format!("broker {b} dialed a broker it cannot link with {k} times in {total} ms"));
                }
            }
        }
        if let Some(d) = w.dead() {
            return Err(d);
        }
        if let Some(p) = case_panics().first() {
            return Err(format!("panic: {p}"));
        }
        let mut o = out.borrow_mut();
        o.nontrivial = disturbed > 0;
        o.tag_if(!faults.is_empty(), "discovery failed");
        o.tag_if(lives.iter().any(|l| l.spans.len() > 1), "a broker restarted");
        o.tag_if(c.ops.iter().any(|o| matches!(o, Op::Partition { .. } | Op::Cut { .. })), "links were cut");
        o.tag_if(!ghosts.is_empty(), "unreachable brokers were registered");
        o.tag_if(exchanged > 0, "traffic");
        o.note = format!("{disturbed} disturbances in {total} ms, longest time between reports {slowest} ms, {exchanged} local messages");
        Ok(())
    });
    *rec = out.into_inner();
    r
}

fn strat() -> BoxedStrategy<Case> {
    let fault = prop_oneof![2 => Just(DFault::Err), 2 => Just(DFault::Hang), 1 => (1u64..9_000).prop_map(DFault::Delay)];
    let op = prop_oneof![
        4 => (0usize..5, any::<bool>(), fault).prop_map(|(b, heartbeat, f)| Op::Fault { b, heartbeat, f }),
        2 => Just(Op::HealDiscovery),
        2 => (0usize..5, 0usize..5, 0u8..3).prop_map(|(a, b, k)| Op::Partition { a, b, hang: k == 1, hole: k == 2 }),
        2 => Just(Op::HealNet),
        2 => (0usize..5, 0usize..5).prop_map(|(a, b)| Op::Cut { a, b }),
        2 => (0usize..5).prop_map(|b| Op::Crash { b }),
        2 => (0usize..5).prop_map(|b| Op::Restart { b }),
        4 => (0usize..5).prop_map(|b| Op::Login { b }),
        1 => (0usize..9).prop_map(|n| Op::Logout { n }),
        1 => prop_oneof![Just(Ghost::Absent), Just(Ghost::Silent), Just(Ghost::Garbage)].prop_map(Op::Ghost),
        2 => Just(Op::Traffic),
        6 => prop_oneof![0u64..1_000, 0u64..15_000, 0u64..90_000].prop_map(Op::Pause),
    ];
    (
        (prop_oneof![3 => 2usize..4, 1 => 4usize..6], any::<bool>()),
        prop_oneof![3 => 1u64..30, 1 => 30u64..150],
        prop_oneof![Just(1usize), 2usize..100, Just(1 << 16)],
        any::<u64>(),
        proptest::collection::vec(prop_oneof![Just(0u64), 0u64..12_000], 0..5),
        proptest::collection::vec(op, 1..20),
    )
        .prop_map(|((brokers, shared), lat, chunk, seed, stagger, ops)| Case {
            shared,
            brokers,
            lat,
            // A handshake read in single bytes over slow links would rightly time out.
            chunk: if lat > 30 { 1 << 16 } else { chunk },
            seed,
            stagger,
            ops,
        })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C22",
        rule: "generated histories of failing and hanging discovery, cut and blocked links, unreachable brokers, crashes, restarts, logins and traffic; non-trivial: something was disturbed",
        parts: vec![part("disturbances", Opts { quick: 40_000, thorough: 800_000, ..Opts::default() }, strat, run)],
    }]
}
