//! C27: unfinished admissions are bounded in time and affect nobody else.

use std::cell::RefCell;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::time::Instant;

use super::marshal::join_all;
use crate::{
    engine::{part, CaseResult, Opts, Property, Rec},
    net::{self, Finalize, NetCfg},
    sim::*,
    wire::{self, Msg},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    lat: u64,
    chunk: usize,
    seed: u64,
    offs: Vec<Off>,
    goods: Vec<Good>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Off {
    target: Target,
    kind: Kind,
    at: u64,
    count: usize,
    /// How it ends, in ms after it began: 0 never, else (time, 0 finish / 1 kill / 2 reset).
    end: Option<(u64, u8)>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Target {
    User,
    Broker,
    Marshal,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kind {
    Silent,
    Header(u8),
    Body(u32, u32),
    NeverFinal,
    FailsFinal(u64),
    /// The listener fails to accept.
    AcceptError,
    /// The first step, valid (for a user: with an honest user's key), then silence.
    First,
    /// The first step, then (users: the topics, brokers: the identifier) after so many ms.
    Late(u64),
    /// The first step, byte by byte over so many ms.
    Drip(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Good {
    at: u64,
    /// As a broker, or a new user.
    broker: bool,
}

/// A way of failing that the oracle judges.
fn bad<T>(s: String) -> Result<T, String> {
    Err(s)
}

struct Tried {
    peer: Peer,
    born: Instant,
    what: String,
    /// By when it must be given up, in ms after it was born.
    by: Option<u64>,
    /// It may become a session or link.
    may: bool,
    /// What it is to be sent at the most.
    answers: usize,
}

async fn good_user(u: usize, lat: u64) -> Result<(Peer, u64), String> {
    let t = Instant::now();
    let (permit, ep) = ask_marshal(&wire::encode(&proof(1000 + u as u64, NS_USER)))
        .await
        .map_err(|e| format!("a good user got no permit: {e:?}"))?;
    if permit < 2 {
        return bad(format!("a good user was refused by the marshal: {ep}"));
    }
    let p = dial(&ep).await.ok_or("a good user cannot connect to the broker")?;
    present(&p, permit).await.map_err(|e| format!("a good user was refused by the broker: {e:?}"))?;
    p.send(&Msg::Subscribe(vec![1]));
    let took = (Instant::now() - t).as_millis() as u64;
    ms(3 * lat + 5).await;
    Ok((p, took))
}

fn run(c: &Case, rec: &mut Rec) -> CaseResult {
    let out = RefCell::new(Rec::default());
    let r = run_sim(NetCfg { lat: c.lat, chunk: c.chunk, ..NetCfg::default() }, c.seed, async {
        let mut w = World::default();
        w.start(0, None).await?;
        start_marshal(&mut w, None).await?;
        ms(100).await;
        // Even users, whose keys are canonical.
        let mut honest: Vec<(usize, Peer)> = vec![];
        for u in [0, 2] {
            honest.push((u, good_user(u, c.lat).await?.0));
        }
        let errors = c.offs.iter().filter(|o| matches!(o.kind, Kind::AcceptError)).map(|o| o.count.min(5) as u64).sum::<u64>();
        let wait = 1_000 + 40 * c.lat + 1_000 * errors;
        let slack = 200 + 20 * c.lat + 1_000 * errors;
        let start = Instant::now();
        enum Done {
            Tried(Vec<Tried>),
            Good(usize, Peer, bool),
            None,
        }
        let slowest = RefCell::new(0u64);
        let slow = &slowest;
        let mut tasks: Vec<std::pin::Pin<Box<dyn std::future::Future<Output = Result<Done, String>> + '_>>> = vec![];
        let mut fake = 0;
        for (i, o) in c.offs.iter().enumerate() {
            let ep = match o.target {
                Target::User => pub_ep(0),
                Target::Broker => prv_ep(0),
                Target::Marshal => MARSHAL_EP.to_string(),
            };
            let base = fake;
            fake += o.count;
            tasks.push(Box::pin(async move {
                ms(o.at).await;
                if matches!(o.kind, Kind::AcceptError) {
                    for _ in 0..o.count.min(5) {
                        net::fail_accept(&ep);
                    }
                    return Ok(Done::None);
                }
                let mut all = vec![];
                for n in 0..o.count {
                    let fin = match o.kind {
                        Kind::NeverFinal => Finalize::Never,
                        Kind::FailsFinal(n) => Finalize::FailAfter(n),
                        _ => Finalize::Now,
                    };
                    let peer = dial_as(&ep, 60 + base + n, None, fin).await.ok_or_else(|| format!("nobody listens on {ep}"))?;
                    let born = Instant::now();
                    let mut t = Tried {
                        peer: peer.clone(),
                        born,
                        what: format!("{:?} to the {:?} side (number {i}.{n})", o.kind, o.target),
                        by: Some(5_000 + slack),
                        may: false,
                        answers: 0,
                    };
                    // An honest user's key, a broker's proof, a user's proof.
                    let first = match o.target {
                        Target::User => Msg::AuthPermit {
                            permit: disc(|d| d.permit(&ident(0).to_string(), &user_key(2 * (n % 2)), std::time::Duration::from_secs(60))),
                        },
                        Target::Broker => proof(BROKER_KEY, NS_BROKER),
                        Target::Marshal => proof(5_000 + n as u64, NS_USER),
                    };
                    let second = match o.target {
                        Target::User => Some(Msg::Subscribe(vec![0, 1])),
                        Target::Broker => Some(Msg::AuthResponse { permit: 1, context: format!("f{i}x{n}.pub/f{i}x{n}.prv") }),
                        Target::Marshal => None,
                    };
                    match &o.kind {
                        Kind::Silent | Kind::AcceptError => {}
                        Kind::NeverFinal => t.by = None,
                        Kind::FailsFinal(n) => t.by = Some(n + slack),
                        Kind::Header(n) => peer.raw(vec![0; 1 + (*n as usize) % 3]),
                        Kind::Body(len, part) => {
                            let len = 1 + len % 10_000;
                            let mut b = len.to_be_bytes().to_vec();
                            b.resize(4 + (part % len) as usize, 0);
                            peer.raw(b);
                        }
                        Kind::First => {
                            peer.send(&first);
                            t.answers = 2;
                            // (The marshal has nothing more to wait for.)
                            if o.target == Target::Marshal {
                                t.by = Some(slack);
                            }
                        }
                        Kind::Late(after) => {
                            peer.send(&first);
                            t.answers = 2;
                            let p = peer.clone();
                            let after = *after;
                            t.may = after < 5_000 + slack && second.is_some();
                            if o.target == Target::Marshal {
                                t.by = Some(slack);
                            } else if t.may {
                                t.by = None;
                            }
                            tokio::spawn(async move {
                                ms(after).await;
                                if let Some(m) = second {
                                    p.send(&m);
                                }
                            });
                        }
                        Kind::Drip(over) => {
                            let b = wire::frame(&wire::encode(&first));
                            let p = peer.clone();
                            let gap = over / b.len() as u64;
                            t.answers = 2;
                            if o.target == Target::Marshal {
                                t.by = Some((over + slack).min(5_000 + slack));
                            }
                            tokio::spawn(async move {
                                for x in b {
                                    p.raw(vec![x]);
                                    ms(gap).await;
                                }
                            });
                        }
                    }
                    if let Some((after, how)) = o.end {
                        let p = peer.clone();
                        tokio::spawn(async move {
                            ms(after).await;
                            match how {
                                0 => p.finish(),
                                1 => p.kill(),
                                _ => p.reset(),
                            }
                        });
                    }
                    all.push(t);
                }
                Ok(Done::Tried(all))
            }));
        }
        for (i, g) in c.goods.iter().enumerate() {
            tasks.push(Box::pin(async move {
                ms(g.at).await;
                let t = Instant::now();
                let (u, p) = if g.broker {
                    let p = tokio::time::timeout(std::time::Duration::from_secs(20), fake_dial(0, 800 + i, &format!("g{i}")))
                        .await
                        .ok()
                        .flatten()
                        .ok_or("a good broker was not linked within 20 s")?;
                    (0, p)
                } else {
                    let u = 10 + 2 * i;
                    let p = tokio::time::timeout(std::time::Duration::from_secs(20), good_user(u, c.lat))
                        .await
                        .map_err(|_| "a good user was not admitted within 20 s")??
                        .0;
                    (u, p)
                };
                let took = (Instant::now() - t).as_millis() as u64;
                let mut s = slow.borrow_mut();
                *s = took.max(*s);
                if took > wait {
                    return bad(format!(
                        "a good {} was admitted after {took} ms only (expected {wait} at the most)",
                        if g.broker { "broker" } else { "user" }
                    ));
                }
                Ok(Done::Good(u, p, g.broker))
            }));
        }
        // Messages to the honest users all the while.
        let talk: Vec<(usize, Peer)> = honest.clone();
        tasks.push(Box::pin(async move {
            for n in 0u64..14 {
                for (k, (u, _)) in talk.iter().enumerate() {
                    let f = wire::encode(&Msg::Direct { to: user_key(*u), body: (n * 2 + k as u64).to_be_bytes().to_vec() });
                    talk[1 - k].1.frame(&f);
                }
                ms(1_000).await;
            }
            Ok(Done::None)
        }));
        let mut tried = vec![];
        let mut goods = vec![];
        let displaced = c.offs.iter().any(|o| o.target == Target::User && matches!(o.kind, Kind::Late(t) if t < 5_000 + slack));
        for d in join_all(tasks).await {
            match d? {
                Done::Tried(t) => tried.extend(t),
                Done::Good(u, p, b) => goods.push((u, p, b)),
                Done::None => {}
            }
        }
        let end = c.offs.iter().map(|o| o.at).max().unwrap_or(0) + 12_000;
        ms(end.saturating_sub((Instant::now() - start).as_millis() as u64)).await;
        if let Some(d) = w.dead() {
            return Err(d);
        }
        let mut given_up = 0;
        for t in &tried {
            let frames = t.peer.frames();
            if !t.may {
                if let Some(f) = frames.iter().find(|f| !matches!(wire::decode(f), Some(Msg::AuthResponse { .. } | Msg::AuthKey { .. }))) {
                    return Err(format!("{}: was sent {:?}", t.what, wire::decode(f)));
                }
                if frames.len() > t.answers {
                    return Err(format!("{}: was sent {} messages", t.what, frames.len()));
                }
            }
            if let Some(by) = t.by {
                let closed = *t.peer.closed.lock().unwrap();
                if t.peer.link.held_by_acceptor() {
                    return Err(format!("{}: is still held", t.what));
                }
                match closed {
                    Some(at) if (at - t.born).as_millis() as u64 > by => {
                        return Err(format!("{}: was given up after {} ms only (expected {by} at the most)", t.what, (at - t.born).as_millis()));
                    }
                    _ => {}
                }
                given_up += 1;
            }
        }
        for (k, (u, p)) in honest.iter().enumerate() {
            if displaced {
                break;
            }
            if p.is_closed() {
                return Err(format!("honest user {u} lost its session"));
            }
            let got = p.frames();
            for n in 0u64..14 {
                let f = wire::encode(&Msg::Direct { to: user_key(*u), body: (n * 2 + k as u64).to_be_bytes().to_vec() });
                if got.iter().filter(|g| **g == f).count() != 1 {
                    return Err(format!("honest user {u} did not receive message {n}"));
                }
            }
        }
        // The newly admitted work.
        for (u, p, broker) in &goods {
            if p.is_closed() {
                return Err(format!("a good {} lost its connection", if *broker { "broker" } else { "user" }));
            }
            if !broker {
                let f = wire::encode(&Msg::Direct { to: user_key(*u), body: b"me".to_vec() });
                p.frame(&f);
                ms(10 * c.lat + 20).await;
                if p.frames().iter().filter(|g| **g == f).count() != 1 {
                    return Err("a good user does not receive its messages".into());
                }
            }
        }
        let (p, took) = tokio::time::timeout(std::time::Duration::from_secs(60), good_user(4, c.lat))
            .await
            .map_err(|_| "afterwards a good user is not admitted")??;
        if took > wait {
            return Err(format!("afterwards a good user was admitted after {took} ms only"));
        }
        let f = wire::encode(&Msg::Broadcast { topics: vec![1], body: b"everyone".to_vec() });
        p.frame(&f);
        ms(10 * c.lat + 20).await;
        for (q, name) in honest
            .iter()
            .filter(|_| !displaced)
            .map(|h| (&h.1, "honest"))
            .chain(goods.iter().filter(|g| !g.2).map(|g| (&g.1, "good")))
            .chain([(&p, "last")])
        {
            if q.frames().iter().filter(|g| **g == f).count() != 1 {
                return Err(format!("afterwards a broadcast does not reach a user ({name})"));
            }
        }
        for t in tried.iter().filter(|t| !t.may) {
            if t.peer.frames().iter().any(|g| *g == f) {
                return Err(format!("{}: received a broadcast", t.what));
            }
        }
        if let Some(p) = case_panics().first() {
            return Err(format!("panic: {p}"));
        }
        let mut o = out.borrow_mut();
        o.nontrivial = given_up > 0 && !goods.is_empty();
        o.tag_if(errors > 0, "accept errors");
        o.tag_if(tried.len() > 50, "more than 50 connections");
        o.tag_if(displaced, "a session was taken over in time");
        o.tag_if(tried.iter().any(|t| t.answers > 0), "first step done");
        o.note = format!("{} connections, {given_up} given up, {} good admissions, slowest {} ms", tried.len(), goods.len(), slowest.borrow());
        Ok(())
    });
    *rec = out.into_inner();
    r
}

fn strat() -> BoxedStrategy<Case> {
    let kind = prop_oneof![
        3 => Just(Kind::Silent),
        1 => any::<u8>().prop_map(Kind::Header),
        2 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Kind::Body(a, b)),
        1 => Just(Kind::NeverFinal),
        1 => (0u64..8_000).prop_map(Kind::FailsFinal),
        1 => Just(Kind::AcceptError),
        3 => Just(Kind::First),
        2 => prop_oneof![1 => 0u64..6_000, 3 => 5_600u64..9_000].prop_map(Kind::Late),
        2 => (5_500u64..12_000).prop_map(Kind::Drip),
    ];
    let off = (
        prop_oneof![Just(Target::User), Just(Target::Broker), Just(Target::Marshal)],
        kind,
        0u64..6_000,
        prop_oneof![4 => 1usize..4, 1 => 1usize..60],
        proptest::option::weighted(0.2, (0u64..8_000, 0u8..3)),
    )
        .prop_map(|(target, kind, at, count, end)| Off { target, kind, at, count, end });
    let good = (0u64..9_000, proptest::bool::weighted(0.3)).prop_map(|(at, broker)| Good { at, broker });
    (
        1u64..10,
        prop_oneof![Just(1usize), 2usize..50, Just(1 << 16)],
        any::<u64>(),
        proptest::collection::vec(off, 1..8),
        proptest::collection::vec(good, 1..6),
    )
        .prop_map(|(lat, chunk, seed, offs, goods)| Case { lat, chunk, seed, offs, goods })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C27",
        rule: "generated crowds of silent, slow, partial, dying and lying connections to both sides of a broker and to the marshal, with accept errors, concurrent with good admissions; non-trivial: some were given up and some good ones were admitted",
        parts: std::iter::once(part("crowds", Opts { quick: 16_000, thorough: 400_000, ..Opts::default() }, strat, run))
            .chain(super::handshakes::parts())
            .collect(),
    }]
}
