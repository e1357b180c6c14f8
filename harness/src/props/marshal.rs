//! C16: the marshal admits exactly the users it should, and always answers.

use std::{cell::RefCell, collections::BTreeMap};

use cdn_proto::crypto::signature::Serializable;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::time::{Duration, Instant};

use super::proofs::{self, judge, Must, Proof};
use crate::{
    engine::{part, CaseResult, Opts, Property, Rec},
    net::{Finalize, NetCfg},
    sim::*,
    wire::{self, Msg},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    lat: u64,
    chunk: usize,
    seed: u64,
    /// Load and lifetime (ms) of the registered brokers.
    brokers: Vec<(u64, u64)>,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// Requests that are made together.
    Ask(Vec<(u64, Proof)>),
    Whitelist(Option<Vec<u64>>),
    Fault(u8, Option<u8>, u64),
    Silent(u8),
    Pause(u64),
    Register(usize, u64, u64),
}

fn method(n: u8) -> Method {
    [Method::Check, Method::Least, Method::Issue][n as usize % 3]
}

struct Req {
    body: Vec<u8>,
    lo: u64,
    hi: u64,
    at: Instant,
    done: Instant,
    answer: Result<(u64, String), Refusal>,
}

fn run(c: &Case, rec: &mut Rec) -> CaseResult {
    let out = RefCell::new(Rec::default());
    let cfg = NetCfg { lat: c.lat, chunk: c.chunk, ..NetCfg::default() };
    let r = run_sim(cfg, c.seed, async {
        let mut w = World::default();
        start_marshal(&mut w, None).await?;
        let mut regs: BTreeMap<usize, (u64, Instant)> = BTreeMap::new();
        let register = |regs: &mut BTreeMap<usize, (u64, Instant)>, i: usize, load: u64, life: u64| {
            let until = Instant::now() + Duration::from_millis(life);
            disc(|d| d.brokers.insert(ident(i), (load, until)));
            regs.insert(i, (load, until));
        };
        for (i, (load, life)) in c.brokers.iter().enumerate() {
            register(&mut regs, i, *load, *life);
        }
        let mut whitelist: Option<Vec<u64>> = None;
        let mut faults: BTreeMap<u8, Fault> = BTreeMap::new();
        let old: Vec<(u64, Vec<u8>)> = (0..4).map(|u| (u, Proof::Good(0).body(u, NS_USER, None))).collect();
        let (mut yes, mut no, mut odd) = (0, 0, 0);
        let mut held = vec![];
        for op in &c.ops {
            match op {
                Op::Pause(n) => ms(*n).await,
                Op::Register(i, load, life) => register(&mut regs, *i, *load, *life),
                Op::Whitelist(l) => {
                    whitelist = l.clone();
                    disc(|d| {
                        d.whitelist = l.as_ref().map(|l| l.iter().map(|u| SimKey(*u).serialize().unwrap()).collect());
                    });
                }
                Op::Fault(m, kind, delay) => {
                    let f = kind.map(|k| match k % 3 {
                        0 => Fault::Err,
                        1 => Fault::Hang,
                        _ => Fault::Delay(*delay),
                    });
                    let m = m % 3;
                    disc(|d| d.fault("marshal", method(m), f));
                    match f {
                        Some(f) => faults.insert(m, f),
                        None => faults.remove(&m),
                    };
                }
                Op::Silent(n) => {
                    for k in 0..*n {
                        let fin = match k % 3 {
                            0 => Finalize::Now,
                            1 => Finalize::Never,
                            _ => Finalize::FailAfter(100),
                        };
                        if let Some(p) = dial_as(MARSHAL_EP, CLIENT, None, fin).await {
                            if k % 2 == 0 {
                                p.raw(vec![0, 0, 0, 50, 1, 2, 3]);
                            }
                            held.push((p, fin));
                        }
                    }
                }
                Op::Ask(reqs) => {
                    let before: BTreeMap<u64, (String, Vec<u8>, Instant)> = disc(|d| d.permits.clone());
                    let tasks: Vec<_> = reqs
                        .iter()
                        .map(|(u, p)| {
                            let o = old.iter().find(|o| o.0 == *u).map(|o| o.1.as_slice());
                            let body = p.body(*u, NS_USER, o);
                            async move {
                                let (lo, at) = (unix_now(), Instant::now());
                                let answer = ask_marshal(&body).await;
                                Req { body, lo, hi: unix_now(), at, done: Instant::now(), answer }
                            }
                        })
                        .collect();
                    let reqs = join_all(tasks).await;
                    let after: BTreeMap<u64, (String, Vec<u8>, Instant)> = disc(|d| d.permits.clone());
                    let mut fresh: BTreeMap<u64, (String, Vec<u8>, Instant)> =
                        after.iter().filter(|(k, _)| !before.contains_key(k)).map(|(k, v)| (*k, v.clone())).collect();
                    let single = reqs.len() == 1;
                    for r in reqs {
                        let took = (r.done - r.at).as_millis() as u64;
                        let (mut must, key) = judge(&r.body, NS_USER, r.lo, r.hi);
                        let mut silent_ok = wire::decode(&r.body).is_none();
                        if must != Must::Refuse {
                            let key = key.unwrap();
                            // In the order in which the marshal does it.
                            let fault = |m: u8| faults.get(&m).copied();
                            let mut delay = 0;
                            let mut stop = false;
                            for m in 0..3u8 {
                                match fault(m) {
                                    Some(Fault::Err) => {
                                        must = Must::Refuse;
                                        stop = true;
                                    }
                                    Some(Fault::Hang) => {
                                        must = Must::Refuse;
                                        silent_ok = true;
                                        stop = true;
                                    }
                                    Some(Fault::Delay(d)) => {
                                        delay += d;
                                        if delay > 4_600 {
                                            silent_ok = true;
                                            must = if delay > 5_400 { Must::Refuse } else { Must::Either };
                                        }
                                    }
                                    None => {}
                                }
                                if stop {
                                    break;
                                }
                                if m == 0 && whitelist.as_ref().is_some_and(|w| !w.contains(&key)) {
                                    must = Must::Refuse;
                                    break;
                                }
                                if m == 1 {
                                    // Somebody must be alive; around an expiry both are fine.
                                    let live = |t: Instant| regs.values().any(|(_, e)| *e > t);
                                    match (live(r.at), live(r.done)) {
                                        (true, true) => {}
                                        (false, false) => {
                                            must = Must::Refuse;
                                            break;
                                        }
                                        _ => must = Must::Either,
                                    }
                                }
                            }
                        }
                        let what = || format!("{:02x?} (verdict {must:?})", wire::decode(&r.body));
                        match &r.answer {
                            Ok((p, context)) if *p > 1 => {
                                if must == Must::Refuse {
                                    return Err(format!("a permit was given for {}", what()));
                                }
                                let Some((broker, k, expires)) = fresh.remove(p) else {
                                    return Err(format!("the permit {p} that was given is not registered, or was given twice"));
                                };
                                let canonical = SimKey(key.unwrap()).serialize().unwrap();
                                if k != canonical {
                                    return Err(format!("the permit is registered for {k:02x?} instead of {canonical:02x?}"));
                                }
                                let Some((i, _)) = regs.iter().find(|(i, _)| ident(**i).to_string() == broker) else {
                                    return Err(format!("the permit is for {broker}, which is no broker"));
                                };
                                if *context != pub_ep(*i) {
                                    return Err(format!("the permit for broker {i} came with endpoint {context:?}"));
                                }
                                if expires < r.at + Duration::from_secs(15) || expires > r.done + Duration::from_secs(60) {
                                    return Err(format!("the permit is valid for {:?}", expires - r.at));
                                }
                                if regs[i].1 <= r.at {
                                    return Err(format!("the permit is for broker {i}, whose registration had expired"));
                                }
                                if single && faults.is_empty() {
                                    let load = |i: &usize, at: Instant| {
                                        regs[i].0
                                            + before
                                                .values()
                                                .filter(|(b, _, e)| *b == ident(*i).to_string() && *e > at)
                                                .count() as u64
                                    };
                                    let best = regs.iter().filter(|(_, (_, e))| *e > r.done).map(|(i, _)| load(i, r.done)).min();
                                    // Permits that expire meanwhile lower a load.
                                    if best.is_some_and(|b| load(i, r.at).min(load(i, r.done)) > b.max(regs.iter().filter(|(_, (_, e))| *e > r.done).map(|(i, _)| load(i, r.at)).min().unwrap_or(0))) {
                                        return Err(format!("broker {i} was picked although another has less load"));
                                    }
                                }
                                yes += 1;
                            }
                            Ok((0, _)) => {
                                if must == Must::Accept {
                                    return Err(format!("refused: {}", what()));
                                }
                                no += 1;
                            }
                            Ok((p, x)) => return Err(format!("the marshal answered with the reserved permit {p} ({x:?}) to {}", what())),
                            Err(Refusal::Silence) if silent_ok && must != Must::Accept => odd += 1,
                            Err(e) => return Err(format!("no answer ({e:?}) after {took} ms to {}", what())),
                        }
                        let limit = 5_000 + 20 * c.lat + 300;
                        if took > limit {
                            return Err(format!("the marshal took {took} ms over {}", what()));
                        }
                    }
                    if !fresh.is_empty() {
                        return Err(format!("permits were registered that nobody was given: {fresh:?}"));
                    }
                }
            }
            if let Some(d) = w.dead() {
                return Err(d);
            }
            if let Some(p) = case_panics().first() {
                return Err(format!("panic in the marshal: {p}"));
            }
        }
        // Everybody else is still served.
        disc(|d| {
            d.faults.clear();
            d.whitelist = None;
        });
        register(&mut regs, 0, 0, 60_000);
        match ask_marshal(&Proof::Good(0).body(77, NS_USER, None)).await {
            Ok((p, _)) if p > 1 => {}
            x => return Err(format!("after it all a good request is answered with {x:?}")),
        }
        ms(6_000).await;
        for (p, fin) in &held {
            if *fin != Finalize::Never && p.link.held_by_acceptor() {
                return Err("an unfinished connection is still held 6 s later".into());
            }
        }
        let mut o = out.borrow_mut();
        o.nontrivial = yes > 0 && no > 0;
        o.tag_if(yes > 0, "admitted");
        o.tag_if(no > 0, "refused");
        o.tag_if(odd > 0, "dropped");
        o.note = format!("{yes} admitted, {no} refused, {odd} dropped");
        Ok(())
    });
    *rec = out.into_inner();
    r
}

pub async fn join_all<F: std::future::Future>(fs: Vec<F>) -> Vec<F::Output> {
    let mut fs: Vec<_> = fs.into_iter().map(|f| (Box::pin(f), None)).collect();
    std::future::poll_fn(move |cx| {
        let mut all = true;
        for (f, out) in &mut fs {
            if out.is_none() {
                match f.as_mut().poll(cx) {
                    std::task::Poll::Ready(v) => *out = Some(v),
                    std::task::Poll::Pending => all = false,
                }
            }
        }
        if all {
            std::task::Poll::Ready(fs.iter_mut().map(|(_, o)| o.take().unwrap()).collect())
        } else {
            std::task::Poll::Pending
        }
    })
    .await
}

fn strat() -> BoxedStrategy<Case> {
    let life = || prop_oneof![4 => Just(1_000_000u64), 1 => 0u64..60_000];
    let ask = proptest::collection::vec((0u64..4, proofs::strat()), 1..4);
    let op = prop_oneof![
        8 => ask.prop_map(Op::Ask),
        2 => proptest::option::of(proptest::collection::vec(0u64..4, 0..4)).prop_map(Op::Whitelist),
        2 => (any::<u8>(), proptest::option::of(any::<u8>()), 0u64..7_000).prop_map(|(m, k, d)| Op::Fault(m, k, d)),
        1 => (0u8..20).prop_map(Op::Silent),
        2 => prop_oneof![0u64..2000, Just(7_000u64), 20_000u64..40_000].prop_map(Op::Pause),
        1 => (0usize..3, 0u64..5, life()).prop_map(|(i, l, e)| Op::Register(i, l, e)),
    ];
    (
        1u64..10,
        prop_oneof![Just(1usize), 2usize..30, Just(1 << 16)],
        any::<u64>(),
        proptest::collection::vec((prop_oneof![0u64..4, any::<u32>().prop_map(u64::from)], life()), 0..4),
        proptest::collection::vec(op, 1..12),
    )
        .prop_map(|(lat, chunk, seed, brokers, ops)| Case { lat, chunk, seed, brokers, ops })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    let _ = Msg::Subscribe(vec![]);
    vec![Property {
        id: "C16",
        rule: "generated requests (good, wrong, stale, early, malformed), whitelists, registrations, discovery faults and silent connections; non-trivial: at least one request was admitted and at least one refused with an answer",
        parts: vec![part("requests", Opts { quick: 70_000, thorough: 1_000_000, ..Opts::default() }, strat, run)],
    }]
}
