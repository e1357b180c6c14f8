//! C20: users dropped from the whitelist are evicted within about a minute, and nobody else is.

use std::cell::RefCell;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::time::Instant;

use crate::{
    engine::{part, CaseResult, Opts, Property, Rec},
    net::NetCfg,
    sim::*,
    wire::{self, Msg},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    brokers: usize,
    users: usize,
    lat: u64,
    seed: u64,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Login { u: usize, count: usize, b: usize },
    Logout { u: usize },
    /// One bit per user; no list at all allows everyone.
    Set(Option<u64>),
    /// What becomes of whitelist checks by broker `b`.
    Fault { b: usize, f: WFault },
    Heal,
    Pause(u64),
    Traffic,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum WFault {
    Err,
    Hang,
    Delay(u64),
}

struct Sess {
    user: usize,
    broker: usize,
    peer: Peer,
    from: Instant,
    /// Ended by the harness.
    until: Option<Instant>,
}

/// Longest time between passes over the users, with what a pass may take that began under faults.
const PERIOD: u64 = 60_000 + 5_000 + 1_000;

fn run(c: &Case, rec: &mut Rec) -> CaseResult {
    let out = RefCell::new(Rec::default());
    let r = run_sim(NetCfg { lat: c.lat, ..NetCfg::default() }, c.seed, async {
        let mut w = World::default();
        for b in 0..c.brokers {
            w.start(b, None).await?;
        }
        let ids: Vec<usize> = (0..c.brokers).collect();
        if !meshed(&ids, 40_000).await {
            return Err("the brokers were not linked within 40 s".into());
        }
        let t0 = Instant::now();
        let mut lists: Vec<(Instant, Option<u64>)> = vec![(t0, None)];
        // Per broker: when its checks were (last) disturbed.
        let mut faults: Vec<Vec<(Instant, Option<Instant>)>> = vec![vec![]; c.brokers];
        let mut sessions: Vec<Sess> = vec![];
        let mut n = 0u64;
        let (mut exchanged, mut last_change) = (0, 0u64);
        let set = |m: Option<u64>| {
            disc(|d| {
                d.whitelist = m.map(|m| (0..64).filter(|u| m >> u & 1 == 1).map(user_key).collect());
            });
        };
        let mut ops = c.ops.clone();
        ops.extend([Op::Heal, Op::Pause(PERIOD + 1_000), Op::Traffic]);
        for op in &ops {
            match op {
                Op::Login { u, count, b } => for u in *u..u + count {
                    let (u, b) = (u % c.users, b % c.brokers);
                    if sessions.iter().any(|s| s.user == u && s.until.is_none() && !s.peer.is_closed()) {
                        continue;
                    }
                    let peer = login(b, u, &[0]).await.map_err(|e| format!("login of user {u}: {e:?}"))?;
                    ms(3 * c.lat + 5).await;
                    sessions.push(Sess { user: u, broker: b, peer, from: Instant::now(), until: None });
                }
                Op::Logout { u } => {
                    for s in sessions.iter_mut().filter(|s| s.user == u % c.users && s.until.is_none()) {
                        s.peer.finish();
                        s.until = Some(Instant::now());
                    }
                    ms(10 * c.lat).await;
                }
                Op::Set(m) => {
                    set(*m);
                    lists.push((Instant::now(), *m));
                    last_change += 1;
                }
                Op::Fault { b, f } => {
                    let b = b % c.brokers;
                    disc(|d| {
                        d.fault(
                            &prv_ep(b),
                            Method::Check,
                            Some(match f {
                                WFault::Err => Fault::Err,
                                WFault::Hang => Fault::Hang,
                                WFault::Delay(n) => Fault::Delay(*n),
                            }),
                        )
                    });
                    if faults[b].last().is_none_or(|f| f.1.is_some()) {
                        faults[b].push((Instant::now(), None));
                    }
                }
                Op::Heal => {
                    for b in 0..c.brokers {
                        disc(|d| d.fault(&prv_ep(b), Method::Check, None));
                        if let Some(f) = faults[b].last_mut() {
                            f.1.get_or_insert(Instant::now());
                        }
                    }
                }
                Op::Pause(n) => ms(*n).await,
                Op::Traffic => {
                    let now = Instant::now();
                    // Those that are in for a while and are not about to be thrown out.
                    let listed = |u: usize| lists.last().unwrap().1.is_none_or(|m| m >> u & 1 == 1);
                    let mut live: Vec<&Sess> = sessions
                        .iter()
                        .filter(|s| s.until.is_none() && !s.peer.is_closed() && listed(s.user) && (now - s.from).as_millis() > 12_000)
                        .collect();
                    live.truncate(8);
                    let mut want: Vec<(usize, Vec<u8>)> = vec![];
                    for (i, s) in live.iter().enumerate() {
                        for (j, r) in live.iter().enumerate() {
                            n += 1;
                            let f = wire::encode(&Msg::Direct { to: user_key(r.user), body: n.to_be_bytes().to_vec() });
                            s.peer.frame(&f);
                            want.push((j, f));
                            let _ = i;
                        }
                        n += 1;
                        let f = wire::encode(&Msg::Broadcast { topics: vec![0], body: n.to_be_bytes().to_vec() });
                        s.peer.frame(&f);
                        want.extend((0..live.len()).map(|j| (j, f.clone())));
                    }
                    ms(200 + 20 * c.lat).await;
                    for (j, f) in want {
                        let k = live[j].peer.frames().iter().filter(|g| **g == f).count();
                        if k != 1 {
                            return Err(format!(
                                "user {}, who is whitelisted and in session at broker {}, received a message {k} times ({:?})",
                                live[j].user, live[j].broker, wire::decode(&f)
                            ));
                        }
                        exchanged += 1;
                    }
                }
            }
        }
        // Judge every session.
        let end = Instant::now();
        let slack = std::time::Duration::from_millis(10 * c.lat + 50);
        let (mut evicted, mut kept) = (0, 0);
        for s in &sessions {
            let closed = *s.peer.closed.lock().unwrap();
            let bad = |m: Option<u64>| m.is_some_and(|m| m >> s.user & 1 == 0);
            let last = s.until.unwrap_or(end);
            // The periods in which this user was not whitelisted.
            let mut out_of: Vec<(Instant, Instant)> = vec![];
            for (i, (at, m)) in lists.iter().enumerate() {
                let to = lists.get(i + 1).map_or(end, |l| l.0);
                if bad(*m) {
                    match out_of.last_mut() {
                        Some(o) if o.1 == *at => o.1 = to,
                        _ => out_of.push((*at, to)),
                    }
                }
            }
            let who = format!("user {} at broker {}", s.user, s.broker);
            if let Some(t) = closed.filter(|t| s.until.is_none_or(|u| *t < u)) {
                evicted += 1;
                if !out_of.iter().any(|(a, b)| *a <= t && t <= *b + slack) {
                    return Err(format!(
                        "{who} was disconnected {} ms after the start although whitelisted (lists {:?})",
                        (t - t0).as_millis(),
                        lists.iter().map(|(t, m)| ((*t - t0).as_millis(), *m)).collect::<Vec<_>>()
                    ));
                }
            } else {
                kept += 1;
            }
            let stayed = closed.filter(|t| *t < last).unwrap_or(last);
            for (a, b) in &out_of {
                let (a, b) = ((*a).max(s.from), (*b).min(stayed));
                if b <= a {
                    continue;
                }
                // Any part of it without faults must be shorter than the period.
                let mut cuts = vec![(a, a)];
                for (f, g) in &faults[s.broker] {
                    cuts.push(((*f).clamp(a, b), g.unwrap_or(end).clamp(a, b)));
                }
                cuts.push((b, b));
                for p in cuts.windows(2) {
                    let quiet = p[1].0.saturating_duration_since(p[0].1);
                    if quiet.as_millis() > u128::from(PERIOD) + slack.as_millis() {
                        return Err(format!(
                            "{who} was still connected after {} ms off the whitelist without any fault",
                            quiet.as_millis()
                        ));
                    }
                }
            }
        }
        if let Some(d) = w.dead() {
            return Err(d);
        }
        if let Some(p) = case_panics().first() {
            return Err(format!("panic: {p}"));
        }
        let mut o = out.borrow_mut();
        o.nontrivial = evicted > 0 && kept > 0;
        o.tag_if(evicted > 0, "someone was evicted");
        o.tag_if(evicted > 0 && kept > 0, "someone was evicted, someone kept");
        o.tag_if(faults.iter().any(|f| !f.is_empty()), "with failing checks");
        o.tag_if(exchanged > 0, "traffic");
        o.note = format!("{evicted} evicted, {kept} kept, {last_change} lists, {exchanged} messages");
        Ok(())
    });
    *rec = out.into_inner();
    r
}

fn strat() -> BoxedStrategy<Case> {
    let fault = prop_oneof![2 => Just(WFault::Err), 1 => Just(WFault::Hang), 1 => (1u64..9_000).prop_map(WFault::Delay)];
    let op = prop_oneof![
        6 => (0usize..40, prop_oneof![5 => 1usize..4, 1 => 1usize..40], 0usize..2).prop_map(|(u, count, b)| Op::Login { u, count, b }),
        1 => (0usize..40).prop_map(|u| Op::Logout { u }),
        4 => proptest::option::weighted(0.9, prop_oneof![any::<u64>(), (any::<u64>(), any::<u64>()).prop_map(|(a, b)| a | b), (0u32..40).prop_map(|b| !(1 << b)), (0u32..40).prop_map(|b| 1 << b)]).prop_map(Op::Set),
        2 => (0usize..2, fault).prop_map(|(b, f)| Op::Fault { b, f }),
        1 => Just(Op::Heal),
        5 => prop_oneof![0u64..1_000, 0u64..70_000, 55_000u64..70_000].prop_map(Op::Pause),
        2 => Just(Op::Traffic),
    ];
    (1usize..3, prop_oneof![4 => 2usize..7, 1 => 2usize..40], 1u64..30, any::<u64>(), proptest::collection::vec(op, 1..25))
        .prop_map(|(brokers, users, lat, seed, ops)| Case { brokers, users, lat, seed, ops })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C20",
        rule: "generated histories of logins, whitelist changes, failing, hanging and slow checks and traffic; non-trivial: at least one user was evicted and at least one session was kept",
        parts: vec![part("evictions", Opts { quick: 50_000, thorough: 600_000, ..Opts::default() }, strat, run)],
    }]
}
