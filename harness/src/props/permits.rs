//! C17, at the broker: permits are single-use, bound to broker and user, and expire.

use std::{cell::RefCell, collections::BTreeMap};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::time::{Duration, Instant};

use super::marshal::join_all;
use crate::{
    engine::{CaseResult, Rec},
    net::NetCfg,
    sim::*,
    wire::{self, Msg},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    lat: u64,
    chunk: usize,
    seed: u64,
    brokers: usize,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Issue { b: usize, u: usize, ttl: u64 },
    /// Presented together: (which permit, at which broker).
    Present(Vec<(Which, usize)>),
    Fault(Option<(bool, u64)>),
    Pause(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Which {
    Slot(usize),
    Value(u64),
    Near(usize, i8),
}

struct Slot {
    value: u64,
    b: usize,
    u: usize,
    expires: Instant,
    used: bool,
}

pub fn run(c: &Case, rec: &mut Rec) -> CaseResult {
    let out = RefCell::new(Rec::default());
    let cfg = NetCfg { lat: c.lat, chunk: c.chunk, ..NetCfg::default() };
    let r = run_sim(cfg, c.seed, async {
        let mut w = World::default();
        for b in 0..c.brokers {
            w.start(b, None).await?;
        }
        let ids: Vec<usize> = (0..c.brokers).collect();
        if !meshed(&ids, 40_000).await {
            return Err("the brokers were not linked within 40 s".into());
        }
        // Watches every broker.
        let mut monitors = vec![];
        for b in 0..c.brokers {
            monitors.push(login(b, 100 + b, &[]).await.map_err(|e| format!("monitor: {e:?}"))?);
        }
        ms(12_000).await;
        let mut slots: Vec<Slot> = vec![];
        let mut sessions: BTreeMap<usize, Peer> = BTreeMap::new();
        let mut strangers: Vec<Peer> = vec![];
        let mut fault: Option<(bool, u64)> = None;
        let (mut yes, mut no, mut n) = (0, 0, 0u64);
        let mut reuse = 0;
        for op in &c.ops {
            match op {
                Op::Pause(n) => ms(*n).await,
                Op::Issue { b, u, ttl } => {
                    let b = b % c.brokers;
                    let ttl = Duration::from_millis(*ttl);
                    let value = disc(|d| d.permit(&ident(b).to_string(), &user_key(*u), ttl));
                    slots.push(Slot { value, b, u: *u, expires: Instant::now() + ttl, used: false });
                }
                Op::Fault(f) => {
                    fault = *f;
                    for b in 0..c.brokers {
                        disc(|d| {
                            d.fault(&prv_ep(b), Method::Validate, f.map(|(e, ms)| if e { Fault::Err } else { Fault::Delay(ms) }))
                        });
                    }
                }
                Op::Present(list) => {
                    let list: Vec<(u64, usize)> = list
                        .iter()
                        .map(|(w, b)| {
                            let v = match w {
                                Which::Slot(i) if !slots.is_empty() => slots[i % slots.len()].value,
                                Which::Near(i, x) if !slots.is_empty() => slots[i % slots.len()].value.wrapping_add_signed(i64::from(*x)),
                                Which::Slot(i) | Which::Near(i, _) => *i as u64,
                                Which::Value(v) => *v,
                            };
                            (v, b % c.brokers)
                        })
                        .collect();
                    let start = Instant::now();
                    let tasks: Vec<_> = list
                        .iter()
                        .map(|(v, b)| async move {
                            let p = dial(&pub_ep(*b)).await.ok_or("a broker refuses connections")?;
                            let r = present(&p, *v).await;
                            Ok::<_, String>((*v, *b, p, r))
                        })
                        .collect();
                    let mut results = vec![];
                    for r in join_all(tasks).await {
                        results.push(r?);
                    }
                    let end = Instant::now();
                    let mut winners: BTreeMap<u64, Vec<(usize, Peer)>> = BTreeMap::new();
                    let mut right: BTreeMap<u64, usize> = BTreeMap::new();
                    for (v, b, p, r) in results {
                        let ok_here = slots.iter().any(|s| s.value == v && s.b == b && !s.used && s.expires > start);
                        let surely = slots.iter().any(|s| s.value == v && s.b == b && !s.used && s.expires > end) && fault.is_none_or(|(e, d)| !e && d < 4_500);
                        match r {
                            Ok(()) => {
                                if !ok_here || fault.is_some_and(|(e, _)| e) {
                                    return Err(format!("permit {v:#x} was accepted at broker {b} although it is not valid there (any more)"));
                                }
                                winners.entry(v).or_default().push((b, p));
                            }
                            Err(Refusal::Answer(0, _)) => {
                                no += 1;
                                strangers.push(p);
                            }
                            Err(Refusal::Silence) if fault.is_some_and(|(e, d)| !e && d > 4_500) => {
                                strangers.push(p);
                            }
                            Err(e) => return Err(format!("broker {b} refused permit {v:#x} without an explicit failure: {e:?}")),
                        }
                        if surely {
                            *right.entry(v).or_default() += 1;
                        }
                    }
                    for (v, ws) in &winners {
                        if ws.len() > 1 {
                            return Err(format!("permit {v:#x} admitted {} connections", ws.len()));
                        }
                    }
                    for v in right.keys() {
                        if !winners.contains_key(v) {
                            return Err(format!("permit {v:#x} was refused although it is valid and unused"));
                        }
                        reuse += usize::from(right[v] > 1);
                    }
                    // A failed look-up may or may not have used the permit up.
                    if fault.is_some_and(|(e, d)| !e && d > 4_500) {
                        slots.retain(|s| !list.contains(&(s.value, s.b)));
                    }
                    for (v, ws) in winners {
                        let s = slots.iter_mut().find(|s| s.value == v).unwrap();
                        s.used = true;
                        let (_, p) = ws.into_iter().next().unwrap();
                        p.send(&Msg::Subscribe(vec![0]));
                        yes += 1;
                        ms(4 * c.lat + 10).await;
                        sessions.insert(s.u, p);
                    }
                    // The refused ones try their luck.
                    for s in &strangers {
                        s.send(&Msg::Subscribe(vec![0]));
                        s.send(&Msg::Broadcast { topics: vec![0], body: b"stranger".to_vec() });
                    }
                    ms(40 * c.lat + 100).await;
                    // Let the directory settle, then see who is who.
                    ms(11_000).await;
                    for u in 0..3 {
                        n += 1;
                        let d = wire::encode(&Msg::Direct { to: user_key(u), body: n.to_be_bytes().to_vec() });
                        monitors[n as usize % c.brokers].frame(&d);
                        ms(40 * c.lat + 100).await;
                        if let Some(p) = sessions.get(&u) {
                            if p.is_closed() {
                                return Err(format!("user {u}'s session was closed"));
                            }
                            if p.frames().iter().filter(|f| **f == d).count() != 1 {
                                return Err(format!("a message for user {u} did not reach the session made with its permit"));
                            }
                        }
                        for (v, p) in &sessions {
                            if *v != u && p.frames().contains(&d) {
                                return Err(format!("a message for user {u} reached the session of user {v}"));
                            }
                        }
                    }
                    for s in &strangers {
                        if s.frames().len() > s.skipped() {
                            return Err("a connection whose permit was refused received something else afterwards".into());
                        }
                        if !s.is_closed() && s.link.held_by_acceptor() {
                            return Err("a connection whose permit was refused is still held".into());
                        }
                    }
                    strangers.clear();
                    for p in sessions.values().chain(&monitors) {
                        if p.frames().iter().any(|f| matches!(wire::decode(f), Some(Msg::Broadcast { .. }))) {
                            return Err("a message of a refused connection was delivered".into());
                        }
                    }
                }
            }
            if let Some(d) = w.dead() {
                return Err(d);
            }
            if let Some(p) = case_panics().first() {
                return Err(format!("panic: {p}"));
            }
        }
        let mut o = out.borrow_mut();
        o.nontrivial = yes > 0 && no > 0;
        o.tag_if(yes > 0, "admitted");
        o.tag_if(no > 0, "refused");
        o.tag_if(reuse > 0, "presented several times at once");
        o.note = format!("{yes} admitted, {no} refused");
        Ok(())
    });
    *rec = out.into_inner();
    r
}

pub fn strat() -> BoxedStrategy<Case> {
    let which = prop_oneof![
        6 => (0usize..6).prop_map(Which::Slot),
        1 => prop_oneof![0u64..4, any::<u64>(), any::<u32>().prop_map(u64::from)].prop_map(Which::Value),
        1 => ((0usize..6), -2i8..3).prop_map(|(i, x)| Which::Near(i, x)),
    ];
    let op = prop_oneof![
        5 => (0usize..2, 0usize..3, prop_oneof![4 => Just(1_000_000u64), 1 => 0u64..40_000])
            .prop_map(|(b, u, ttl)| Op::Issue { b, u, ttl }),
        6 => proptest::collection::vec((which, 0usize..2), 1..5).prop_map(Op::Present),
        1 => proptest::option::of((any::<bool>(), prop_oneof![2 => 0u64..4_000, 1 => 5_500u64..7_000])).prop_map(Op::Fault),
        1 => prop_oneof![0u64..500, 10_000u64..40_000].prop_map(Op::Pause),
    ];
    (
        1u64..10,
        prop_oneof![Just(1usize), 2usize..30, Just(1 << 16)],
        any::<u64>(),
        1usize..3,
        proptest::collection::vec(op, 2..12),
    )
        .prop_map(|(lat, chunk, seed, brokers, ops)| Case { lat, chunk, seed, brokers, ops })
        .boxed()
}
