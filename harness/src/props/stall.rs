//! C09: peers that stop reading or stop in the middle of a message are shed and delay nobody for long.

use std::cell::RefCell;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::time::Instant;

use crate::{
    engine::{part, CaseResult, Opts, Property, Rec},
    net::{Finalize, NetCfg},
    sim::*,
    wire::{self, Msg},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    lat: u64,
    chunk: usize,
    cap: usize,
    wbuf: usize,
    /// In units of eight bytes.
    pool: Option<usize>,
    brokers: usize,
    seed: u64,
    stalls: Vec<Stall>,
    sends: Vec<Send>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    UserStopsReading,
    BrokerStopsReading,
    UserStopsSending,
    BrokerStopsSending,
    /// As a user, before admission.
    StrangerStopsSending,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stall {
    kind: Kind,
    broker: usize,
    /// Before which send.
    at: usize,
    /// Of the message that is not completed: its length (percent of the pool), and how much of it comes.
    len: u8,
    part: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Send {
    from: usize,
    to: To,
    size: usize,
    gap: u64,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum To {
    Other,
    Topic,
    Stalled(usize),
}

fn run(c: &Case, rec: &mut Rec) -> CaseResult {
    let out = RefCell::new(Rec::default());
    let cfg = NetCfg { lat: c.lat, chunk: c.chunk, cap: c.cap, wbuf: c.wbuf };
    // The links between the brokers hold more: a broker that waits for memory is not to be taken for a stalled one.
    let all: usize = c.sends.iter().map(|s| s.size + 200).sum();
    let mesh_cfg = NetCfg { cap: (3 * all).max(1 << 20), ..cfg };
    let r = run_sim(mesh_cfg, c.seed, async {
        let mut w = World::default();
        let pool = c.pool.map(|p| p * 8);
        for b in 0..c.brokers {
            w.start(b, pool).await?;
        }
        let ids: Vec<usize> = (0..c.brokers).collect();
        if !meshed(&ids, 40_000).await {
            return Err("the brokers were not linked within 40 s".into());
        }
        let honest = [
            login_key(0, &user_key(0), &[1], Some(cfg)).await.map_err(|e| format!("honest login: {e:?}"))?,
            login_key(c.brokers - 1, &user_key(1), &[1], Some(cfg)).await.map_err(|e| format!("honest login: {e:?}"))?,
        ];
        ms(24_000).await;
        let mut stalled: Vec<Peer> = vec![];
        for (i, s) in c.stalls.iter().enumerate() {
            let b = s.broker % c.brokers;
            let p = match s.kind {
                Kind::UserStopsReading | Kind::UserStopsSending => {
                    login_key(b, &user_key(10 + i), &[1], Some(cfg)).await.map_err(|e| format!("login: {e:?}"))?
                }
                Kind::BrokerStopsReading | Kind::BrokerStopsSending => {
                    let p = fake_dial_as(b, 60 + i, &format!("f{i}"), Some(cfg)).await.ok_or("no broker link")?;
                    // Takes the broker's own interests for its own.
                    ms(1000).await;
                    for f in p.rest() {
                        if matches!(wire::decode(&f), Some(Msg::TopicSync(_))) {
                            p.frame(&f);
                        }
                    }
                    p
                }
                Kind::StrangerStopsSending => dial_as(&pub_ep(b), CLIENT, Some(cfg), Finalize::Now).await.ok_or("no connection")?,
            };
            stalled.push(p);
            if s.kind == Kind::StrangerStopsSending {
                // Has five seconds from now; does its part at once.
                stalled.last().unwrap().raw(unfinished(s, pool));
            }
        }
        ms(2_000).await;
        let n_stalls = c.stalls.len() as u64;
        // What the network itself may take for everything that is sent, one after the other.
        let wire_time: u64 = c.sends.iter().map(|s| (s.size as u64 / c.cap as u64 + 1) * 12 * c.lat + 10 * c.lat).sum();
        let bound = 10_000 * n_stalls + 5_000 + wire_time;
        let mut expected: Vec<(usize, Vec<u8>, Instant)> = vec![];
        let mut began = vec![false; c.stalls.len()];
        let mut num = 0u64;
        for (i, s) in c.sends.iter().enumerate() {
            for (k, st) in c.stalls.iter().enumerate() {
                if !began[k] && st.at % c.sends.len() <= i {
                    began[k] = true;
                    match st.kind {
                        Kind::UserStopsReading | Kind::BrokerStopsReading => stalled[k].pause(true),
                        Kind::UserStopsSending | Kind::BrokerStopsSending => stalled[k].raw(unfinished(st, pool)),
                        Kind::StrangerStopsSending => {}
                    }
                }
            }
            num += 1;
            let mut body = num.to_be_bytes().to_vec();
            let room = pool.map_or(usize::MAX, |p| p.saturating_sub(120));
            body.resize(8 + s.size.min(room), num as u8);
            let from = s.from % 2;
            let frame = wire::encode(&match s.to {
                To::Other => Msg::Direct { to: user_key(1 - from), body },
                To::Topic => Msg::Broadcast { topics: vec![1], body },
                To::Stalled(k) => Msg::Direct { to: user_key(10 + k % c.stalls.len().max(1)), body },
            });
            honest[from].frame(&frame);
            match s.to {
                To::Other => expected.push((1 - from, frame, Instant::now())),
                To::Topic => {
                    expected.push((0, frame.clone(), Instant::now()));
                    expected.push((1, frame, Instant::now()));
                }
                To::Stalled(_) => {}
            }
            ms(s.gap).await;
        }
        ms(bound).await;
        let logs: Vec<Vec<Rcv>> = honest.iter().map(Peer::rcvs).collect();
        let mut late = 0u128;
        for (u, f, at) in &expected {
            let hits: Vec<&Rcv> = logs[*u].iter().filter(|r| r.bytes == *f).collect();
            match hits.len() {
                1 => {
                    let d = (hits[0].at - *at).as_millis();
                    late = late.max(d);
                    if d > u128::from(bound) {
                        return Err(format!("a message between honest users took {d} ms (bound {bound} ms)"));
                    }
                }
                0 => {
                    return Err(format!(
                        "a message between honest users was not delivered within {bound} ms ({} of {} were)",
                        expected.iter().filter(|(u, f, _)| logs[*u].iter().any(|r| r.bytes == *f)).count(),
                        expected.len()
                    ))
                }
                n => return Err(format!("a message between honest users was delivered {n} times")),
            }
        }
        let mut full = 0;
        let mut unfinished_n = 0;
        for (k, st) in c.stalls.iter().enumerate() {
            let l = &stalled[k].link;
            match st.kind {
                Kind::UserStopsReading | Kind::BrokerStopsReading => {
                    if l.down_full() {
                        full += 1;
                        if l.down_stuck() && l.held_by_acceptor() {
                            return Err(format!("{:?}: still connected {bound} ms after the last message to it", st.kind));
                        }
                    }
                }
                _ => {
                    unfinished_n += 1;
                    if l.held_by_acceptor() {
                        return Err(format!("{:?}: still connected {bound} ms after it stopped", st.kind));
                    }
                }
            }
        }
        for (i, h) in honest.iter().enumerate() {
            if h.is_closed() {
                return Err(format!("honest user {i} was disconnected"));
            }
        }
        // All memory is available again: messages that fill the whole pool pass, from and to every broker.
        for from in [0, 1] {
            let total = pool.unwrap_or(4096);
            let mut m = 0;
            let frame = loop {
                let f = wire::encode(&Msg::Direct { to: user_key(1 - from), body: vec![7; m] });
                if f.len() >= total {
                    break f;
                }
                m += total - f.len();
            };
            if frame.len() != total {
                return Err(format!("harness: frame of {} for a pool of {total}", frame.len()));
            }
            honest[from].frame(&frame);
            let wait = 3_000 + (total as u64 / c.cap as u64 + 1) * 12 * c.lat;
            let h = &honest[1 - from];
            if !until(wait, 50, || h.rcvs().iter().any(|r| r.bytes == frame)).await {
                return Err(format!("after it all a message of the pool's size ({total}) is not delivered within {wait} ms"));
            }
        }
        if let Some(d) = w.dead() {
            return Err(d);
        }
        if let Some(p) = case_panics().first() {
            return Err(format!("panic: {p}"));
        }
        let mut o = out.borrow_mut();
        o.nontrivial = full + unfinished_n > 0;
        o.tag_if(full > 0, "a reader stalled with its buffer full");
        o.tag_if(unfinished_n > 0, "a message was left unfinished");
        o.tag_if(late > 3_000, "others were delayed by more than 3 s");
        o.tag_if(c.wbuf > 0, "buffered writes");
        o.note = format!("{full} stalled readers with full buffers, {unfinished_n} unfinished messages, longest delay {late} ms of {bound}");
        Ok(())
    });
    *rec = out.into_inner();
    r
}

fn unfinished(s: &Stall, pool: Option<usize>) -> Vec<u8> {
    let max = pool.unwrap_or(100_000);
    let len = (max * s.len as usize / 100).clamp(1, max);
    let mut v = (len as u32).to_be_bytes().to_vec();
    v.resize(4 + (len * s.part as usize / 256).min(len - 1), 0);
    v
}

fn strat() -> BoxedStrategy<Case> {
    let kind = prop_oneof![
        3 => Just(Kind::UserStopsReading),
        2 => Just(Kind::BrokerStopsReading),
        1 => Just(Kind::UserStopsSending),
        1 => Just(Kind::BrokerStopsSending),
        1 => Just(Kind::StrangerStopsSending)
    ];
    let stall = (kind, 0usize..2, any::<usize>(), 1u8..=100, any::<u8>())
        .prop_map(|(kind, broker, at, len, part)| Stall { kind, broker, at, len, part });
    let send = (
        0usize..2,
        prop_oneof![2 => Just(To::Other), 2 => Just(To::Topic), 3 => (0usize..4).prop_map(To::Stalled)],
        prop_oneof![0usize..100, 0usize..3000, 2000usize..12_000],
        prop_oneof![4 => 0u64..50, 1 => 0u64..3000],
    )
        .prop_map(|(from, to, size, gap)| Send { from, to, size, gap });
    (
        (1u64..4, prop_oneof![Just(1usize), 2usize..50, Just(1 << 16)], 500usize..6000),
        prop_oneof![2 => Just(0usize), 1 => Just(64usize), 1 => 500usize..20_000],
        proptest::option::weighted(0.8, 200usize..4000),
        1usize..3,
        any::<u64>(),
        proptest::collection::vec(stall, 1..4),
        proptest::collection::vec(send, 1..30),
    )
        .prop_map(|((lat, chunk, cap), wbuf, pool, brokers, seed, stalls, sends)| Case {
            lat,
            chunk,
            cap,
            wbuf,
            pool,
            brokers,
            seed,
            stalls,
            sends,
        })
        .boxed()
}

/// The same, a few hundred times as large.
fn large() -> BoxedStrategy<Case> {
    (strat(), 50usize..500)
        .prop_map(|(mut c, k)| {
            c.cap *= k;
            c.chunk = c.chunk.max(1 << 14) * k;
            c.wbuf *= k;
            c.pool = c.pool.map(|p| p * k);
            c.sends.truncate(12);
            for s in &mut c.sends {
                s.size *= k;
            }
            c
        })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C09",
        rule: "generated stalls (users, brokers and strangers that stop reading or stop in a message's body) under generated traffic (messages up to megabytes) with small memory pools; non-trivial: a stalled reader's buffer filled up, or a message was left unfinished",
        parts: vec![
            part("stalls", Opts { quick: 8_000, thorough: 500_000, ..Opts::default() }, strat, run),
            part("large", Opts { quick: 1_000, thorough: 60_000, ..Opts::default() }, large, run),
        ],
    }]
}
