//! C08: whatever a peer sends, only its own connection suffers.

use std::{cell::RefCell, collections::{HashMap, HashSet}, rc::Rc};

use cdn_proto::message::Message;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{
    engine::{part, CaseResult, Opts, Property, Rec},
    net::{Finalize, NetCfg, RawListener},
    sim::*,
    wire::{self, Layout, Msg},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    lat: u64,
    chunk: usize,
    seed: u64,
    brokers: usize,
    attacks: Vec<Attack>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Attack {
    who: Who,
    broker: usize,
    pays: Vec<Pay>,
    /// How the attacker ends: 0 stays, 1 finishes, 2 drops, 3 vanishes.
    end: u8,
    wait: u64,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Who {
    User,
    RawPub,
    RawPrv,
    /// A broker that proves the key and dials in.
    BrokerIn,
    /// A registered broker that is dialed.
    BrokerOut,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Pay {
    Raw(Vec<u8>),
    Frame(Vec<u8>),
    /// A length and less than that of the body.
    Short(u32, Vec<u8>),
    Msg(Msg, u8),
    Mutated(Msg, u8, Vec<(u16, u8)>, Option<u16>),
    Sync { user: bool, muts: Vec<(u16, u8)>, cut: Option<u16> },
    /// Declares more words or segments than there are.
    Bomb(u32, u32),
}

fn layout(n: u8) -> Layout {
    match n % 4 {
        1 => Layout { segments: 3, plan: vec![1, 2, 0], ..Layout::default() },
        2 => Layout { segments: 2, plan: vec![1], double_far: true, ..Layout::default() },
        3 => Layout { extra_data: 1, extra_ptrs: 1, gap: 1, ..Layout::default() },
        _ => Layout::default(),
    }
}

fn mutate(mut b: Vec<u8>, muts: &[(u16, u8)], cut: Option<u16>) -> Vec<u8> {
    if let Some(c) = cut {
        b.truncate(c as usize % (b.len() + 1));
    }
    if !b.is_empty() {
        for (p, x) in muts {
            let i = *p as usize % b.len();
            b[i] ^= x;
        }
    }
    b
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum Verdict {
    Fine,
    Bad,
    Unknown,
}

/// What must become of a connection of this kind that sent these bytes: (verdict, a body is incomplete).
fn classify(who: Who, stream: &[u8]) -> (Verdict, bool) {
    let mut at = 0;
    let mut out = Verdict::Fine;
    while stream.len() - at >= 4 {
        let len = u32::from_be_bytes(stream[at..at + 4].try_into().unwrap());
        if len > u32::MAX / 8 {
            return (if out == Verdict::Fine { Verdict::Bad } else { out }, false);
        }
        let len = len as usize;
        if stream.len() < at + 4 + len {
            return (out, true);
        }
        let body = &stream[at + 4..at + 4 + len];
        at += 4 + len;
        let v = frame_verdict(who, body);
        if v != Verdict::Fine {
            return (v, false);
        }
        out = v;
    }
    (out, false)
}
fn frame_verdict(who: Who, body: &[u8]) -> Verdict {
    let mine = wire::decode(body);
    let real = Message::deserialize(body).ok().map(|m| Msg::from_real(&m));
    match (mine, real) {
        (None, None) => Verdict::Bad,
        (Some(a), Some(b)) if a == b => {
            let valid = |t: &[u8]| t.iter().any(|t| good(*t));
            if who == Who::User {
                match a {
                    Msg::Direct { .. } => Verdict::Fine,
                    Msg::Broadcast { topics, .. } | Msg::Subscribe(topics) | Msg::Unsubscribe(topics) => {
                        if valid(&topics) {
                            Verdict::Fine
                        } else {
                            Verdict::Bad
                        }
                    }
                    _ => Verdict::Bad,
                }
            } else {
                match a {
                    Msg::UserSync(b) | Msg::TopicSync(b) => {
                        if b.len() < 8 {
                            Verdict::Bad
                        } else {
                            Verdict::Unknown
                        }
                    }
                    _ => Verdict::Fine,
                }
            }
        }
        _ => Verdict::Unknown,
    }
}

struct Honest {
    user: usize,
    peer: Peer,
    topics: Vec<u8>,
}

fn run(c: &Case, rec: &mut Rec) -> CaseResult {
    let out = RefCell::new(Rec::default());
    let cfg = NetCfg { lat: c.lat, chunk: c.chunk, cap: 1 << 16, wbuf: 0 };
    let r = run_sim(cfg, c.seed, async {
        let mut w = World::default();
        for b in 0..c.brokers {
            w.start(b, None).await?;
        }
        // Real sync messages, for mutation.
        let mut syncs: (Vec<Vec<u8>>, Vec<Vec<u8>>) = Default::default();
        {
            let mut sac = vec![];
            for u in 0..3 {
                sac.push(login(0, 4000 + u, &[(u % 2) as u8]).await.map_err(|e| format!("{e:?}"))?);
                ms(50 + 4 * c.lat).await;
            }
            let p = fake_dial(0, 60, "capture").await.ok_or("a broker with the right key was not linked")?;
            ms(1000).await;
            for s in sac {
                s.finish();
            }
            ms(12_000).await;
            for b in p.rest() {
                match wire::decode(&b) {
                    Some(Msg::UserSync(b)) => syncs.0.push(b),
                    Some(Msg::TopicSync(b)) => syncs.1.push(b),
                    _ => {}
                }
            }
            p.finish();
            p.kill();
        }
        if syncs.0.is_empty() || syncs.1.is_empty() {
            return Err("a new broker link was not sent the users and topics".into());
        }
        // A registered broker that goes along when it is dialed.
        let zz = RawListener::bind("zz.prv", 70).ok_or("bind")?;
        let zz_links: Rc<RefCell<Vec<Peer>>> = Rc::default();
        let refresh = || {
            disc(|d| {
                d.brokers.insert(
                    ident_of("zz"),
                    (0, tokio::time::Instant::now() + std::time::Duration::from_secs(1_000_000)),
                )
            });
        };
        refresh();
        let local = tokio::task::LocalSet::new();
        let links = zz_links.clone();
        local.spawn_local(async move {
            while let Some((s, l)) = zz.accept().await {
                let p = Peer::new(s, l);
                let links = links.clone();
                tokio::task::spawn_local(async move {
                    if fake_inbound(&p, "zz").await {
                        links.borrow_mut().push(p);
                    }
                });
            }
        });
        local
            .run_until(async {
                let ids: Vec<usize> = (0..c.brokers).collect();
                if !meshed(&ids, 40_000).await {
                    return Err("the brokers were not linked within 40 s".into());
                }
                let mut honest = vec![];
                for (u, b, t) in [(1usize, 0usize, vec![0u8]), (2, c.brokers - 1, vec![1, 0])] {
                    let peer = login(b, u, &t).await.map_err(|e| format!("honest login: {e:?}"))?;
                    honest.push(Honest { user: u, peer, topics: t });
                }
                ms(24_000).await;
                let mut honest_frames: HashSet<Vec<u8>> = HashSet::new();
                let mut n = 0u64;
                let mut on_link: HashMap<usize, Vec<u8>> = HashMap::new();
                let mut bad = 0;
                let mut fine = 0;
                let mut parked = vec![];
                for (ai, a) in c.attacks.iter().enumerate() {
                    let b = a.broker % c.brokers;
                    let mut relink = false;
                    let peer = match a.who {
                        Who::User => login(b, 20 + ai, &[0]).await.map_err(|e| format!("attacker login: {e:?}"))?,
                        Who::RawPub => dial(&pub_ep(b)).await.ok_or("the broker refuses user connections")?,
                        Who::RawPrv => dial(&prv_ep(b)).await.ok_or("the broker refuses broker connections")?,
                        Who::BrokerIn => fake_dial(b, 61, &format!("in{ai}"))
                            .await
                            .ok_or("a broker with the right key was not linked")?,
                        Who::BrokerOut => {
                            let live = || zz_links.borrow().iter().rev().find(|p| p.link.from == b && p.link.alive()).cloned();
                            let ok = until(45_000, 100, || live().is_some()).await;
                            if !ok {
                                return Err(format!("a registered, reachable broker was not linked by broker {b} within 45 s"));
                            }
                            relink = true;
                            live().unwrap()
                        }
                    };
                    if a.who == Who::User {
                        ms(2 * c.lat + 5).await;
                    }
                    let mut stream = vec![];
                    for p in &a.pays {
                        let bytes = match p {
                            Pay::Raw(b) => b.clone(),
                            Pay::Frame(b) => wire::frame(b),
                            Pay::Short(len, b) => {
                                let mut v = (b.len() as u32 + 1 + len % (1 << 20)).to_be_bytes().to_vec();
                                v.extend_from_slice(b);
                                v
                            }
                            Pay::Msg(m, l) => wire::frame(&wire::encode_as(m, &layout(*l))),
                            Pay::Mutated(m, l, muts, cut) => {
                                wire::frame(&mutate(wire::encode_as(m, &layout(*l)), muts, *cut))
                            }
                            Pay::Sync { user, muts, cut } => {
                                let src = if *user { &syncs.0 } else { &syncs.1 };
                                let b = mutate(src[muts.len() % src.len()].clone(), muts, *cut);
                                wire::frame(&wire::encode(&if *user { Msg::UserSync(b) } else { Msg::TopicSync(b) }))
                            }
                            Pay::Bomb(segs, words) => {
                                let mut v = segs.to_le_bytes().to_vec();
                                for _ in 0..8 {
                                    v.extend_from_slice(&words.to_le_bytes());
                                }
                                wire::frame(&v)
                            }
                        };
                        stream.extend_from_slice(&bytes);
                        peer.raw(bytes);
                    }
                    let (verdict, cut) = {
                        // The link to a dialing broker may be used by several attacks.
                        let all = on_link.entry(peer.link.id).or_default();
                        all.extend_from_slice(&stream);
                        classify(a.who, all)
                    };
                    match a.end {
                        1 => peer.finish(),
                        2 => {
                            ms(a.wait).await;
                            peer.kill()
                        }
                        3 => peer.reset(),
                        _ => {}
                    }
                    ms(a.wait).await;
                    // Meanwhile and afterwards the others are served.
                    for (i, j) in [(0, 1), (1, 0)] {
                        n += 1;
                        let mut body = n.to_be_bytes().to_vec();
                        body.push(0xAB);
                        let d = wire::encode(&Msg::Direct { to: user_key(honest[j].user), body: body.clone() });
                        let t = wire::encode(&Msg::Broadcast { topics: vec![0], body });
                        let before = honest[j].peer.count();
                        honest[i].peer.frame(&d);
                        honest[i].peer.frame(&t);
                        honest_frames.insert(d.clone());
                        honest_frames.insert(t.clone());
                        ms(1000 + 20 * c.lat).await;
                        let got: Vec<Vec<u8>> = honest[j].peer.frames()[before..].to_vec();
                        for x in [&d, &t] {
                            if got.iter().filter(|g| *g == x).count() != 1 {
                                return Err(format!(
                                    "after attack {ai} ({:?}) a message between honest users was delivered {} times instead of once",
                                    a.who,
                                    got.iter().filter(|g| *g == x).count()
                                ));
                            }
                        }
                    }
                    for h in &honest {
                        if h.peer.is_closed() {
                            return Err(format!("after attack {ai} ({:?}) honest user {} was disconnected", a.who, h.user));
                        }
                    }
                    // The attacker's own connection.
                    ms(8_000).await;
                    let held = if a.who == Who::BrokerOut { peer.link.held_by_dialer() } else { peer.link.held_by_acceptor() };
                    let gone = a.end == 3;
                    let linked = matches!(a.who, Who::User | Who::BrokerIn | Who::BrokerOut);
                    if !gone && linked {
                        let must_close = verdict == Verdict::Bad || (cut && verdict == Verdict::Fine) || a.end == 1 || a.end == 2;
                        if must_close && held {
                            return Err(format!(
                                "attack {ai}: a {:?} that sent {} is still connected 8 s later",
                                a.who,
                                if verdict == Verdict::Bad { "bad data" } else { "an unfinished message or its end" }
                            ));
                        }
                        if a.end == 0 && verdict == Verdict::Fine && !cut && !held {
                            return Err(format!("attack {ai}: a {:?} that sent nothing wrong was disconnected", a.who));
                        }
                    }
                    bad += usize::from(verdict == Verdict::Bad && linked);
                    fine += usize::from(verdict == Verdict::Fine && linked);
                    if relink && (verdict == Verdict::Bad || a.end > 0) {
                        let ok = until(45_000, 100, || zz_links.borrow().iter().any(|p| p.link.from == b && p.link.alive())).await;
                        if !ok {
                            return Err(format!("the link that broker {b} dropped was not re-established within 45 s"));
                        }
                    }
                    parked.push(peer);
                    if let Some(d) = w.dead() {
                        return Err(format!("after attack {ai} ({:?}): {d}", a.who));
                    }
                    if let Some(p) = case_panics().first() {
                        return Err(format!("attack {ai} ({:?}) made the broker panic: {p}", a.who));
                    }
                }
                // Nothing was delivered that was not sent as a message to its recipient.
                let mut sent: HashSet<Vec<u8>> = honest_frames;
                for s in on_link.values() {
                    let mut at = 0;
                    while s.len() >= at + 4 {
                        let len = u32::from_be_bytes(s[at..at + 4].try_into().unwrap()) as usize;
                        if s.len() < at + 4 + len {
                            break;
                        }
                        sent.insert(s[at + 4..at + 4 + len].to_vec());
                        at += 4 + len;
                    }
                }
                for h in &honest {
                    for f in h.peer.rest() {
                        if !sent.contains(&f) {
                            return Err(format!("user {} received a frame that nobody sent: {:02x?}", h.user, &f[..f.len().min(64)]));
                        }
                        let ok = match wire::decode(&f) {
                            Some(Msg::Direct { to, .. }) => to == user_key(h.user),
                            Some(Msg::Broadcast { topics, .. }) => topics.iter().any(|t| h.topics.contains(t)),
                            Some(_) => false,
                            None => true,
                        };
                        if !ok {
                            return Err(format!("user {} received something that is no message to it: {:?}", h.user, wire::decode(&f)));
                        }
                    }
                }
                // New peers are still served.
                for b in 0..c.brokers {
                    let p = login(b, 10 + b, &[]).await.map_err(|e| format!("broker {b} no longer admits users: {e:?}"))?;
                    ms(10 * c.lat + 10).await;
                    if p.is_closed() {
                        return Err(format!("broker {b} no longer keeps users"));
                    }
                }
                if !meshed(&ids, 30_000).await {
                    return Err("the brokers are no longer linked".into());
                }
                let mut o = out.borrow_mut();
                o.nontrivial = bad > 0;
                o.tag_if(bad > 0, "bad data from an admitted peer");
                o.tag_if(fine > 0, "harmless data from an admitted peer");
                for a in &c.attacks {
                    o.tag(format!("{:?}", a.who));
                }
                o.note = format!("{} attackers, {bad} to be disconnected, {fine} to be kept", c.attacks.len());
                Ok(())
            })
            .await
    });
    *rec = out.into_inner();
    r
}

pub fn any_msg() -> BoxedStrategy<Msg> {
    let bytes = || proptest::collection::vec(any::<u8>(), 0..40);
    let topics = || proptest::collection::vec(prop_oneof![4 => 0u8..3, 1 => any::<u8>()], 0..5);
    prop_oneof![
        1 => (bytes(), any::<u64>(), bytes()).prop_map(|(key, ts, sig)| Msg::AuthKey { key, ts, sig }),
        1 => any::<u64>().prop_map(|permit| Msg::AuthPermit { permit }),
        1 => (any::<u64>(), "[a-z/]{0,12}").prop_map(|(permit, context)| Msg::AuthResponse { permit, context }),
        3 => (prop_oneof![(0usize..4).prop_map(user_key), bytes()], bytes()).prop_map(|(to, body)| Msg::Direct { to, body }),
        3 => (topics(), bytes()).prop_map(|(topics, body)| Msg::Broadcast { topics, body }),
        2 => topics().prop_map(Msg::Subscribe),
        2 => topics().prop_map(Msg::Unsubscribe),
        1 => bytes().prop_map(Msg::UserSync),
        1 => bytes().prop_map(Msg::TopicSync),
    ]
    .boxed()
}

fn strat() -> BoxedStrategy<Case> {
    let muts = || proptest::collection::vec((any::<u16>(), 1u8..=255), 0..4);
    let cut = || prop_oneof![3 => Just(None), 1 => any::<u16>().prop_map(Some)];
    let pay = prop_oneof![
        1 => proptest::collection::vec(any::<u8>(), 0..30).prop_map(Pay::Raw),
        2 => proptest::collection::vec(any::<u8>(), 0..80).prop_map(Pay::Frame),
        1 => (any::<u32>(), proptest::collection::vec(any::<u8>(), 0..20)).prop_map(|(l, b)| Pay::Short(l, b)),
        5 => (any_msg(), any::<u8>()).prop_map(|(m, l)| Pay::Msg(m, l)),
        4 => (any_msg(), any::<u8>(), muts(), cut()).prop_map(|(m, l, x, c)| Pay::Mutated(m, l, x, c)),
        3 => (any::<bool>(), muts(), cut()).prop_map(|(user, muts, cut)| Pay::Sync { user, muts, cut }),
        1 => (prop_oneof![Just(0u32), Just(0xffff_ffff), 0u32..600], prop_oneof![Just(0xffff_ffffu32), Just(0x1fff_ffff), 0u32..9])
            .prop_map(|(a, b)| Pay::Bomb(a, b)),
    ];
    let attack = (
        prop_oneof![
            4 => Just(Who::User),
            1 => Just(Who::RawPub),
            1 => Just(Who::RawPrv),
            3 => Just(Who::BrokerIn),
            2 => Just(Who::BrokerOut)
        ],
        0usize..2,
        proptest::collection::vec(pay, 1..5),
        prop_oneof![4 => Just(0u8), 1 => 1u8..4],
        prop_oneof![Just(0u64), 0u64..3000],
    )
        .prop_map(|(who, broker, pays, end, wait)| Attack { who, broker, pays, end, wait });
    (1u64..10, prop_oneof![Just(1usize), 2usize..20, Just(1 << 16)], any::<u64>(), 1usize..3, proptest::collection::vec(attack, 1..5))
        .prop_map(|(lat, chunk, seed, brokers, attacks)| Case { lat, chunk, seed, brokers, attacks })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    let _ = Finalize::Now;
    vec![Property {
        id: "C08",
        rule: "generated attacks (raw bytes, malformed, truncated, mutated and unexpected messages) by users, unadmitted connections and admitted brokers, with honest users probing throughout; non-trivial: an admitted peer sent something it must be disconnected for",
        parts: vec![part("attacks", Opts { quick: 35_000, thorough: 1_000_000, ..Opts::default() }, strat, run)],
    }]
}
