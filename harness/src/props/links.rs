//! C18: broker links require mutual proof of the shared broker key.

use std::{
    cell::RefCell,
    collections::{HashMap, HashSet},
    rc::Rc,
};

use cdn_proto::crypto::signature::Serializable;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::time::Instant;

use super::{
    hostile::any_msg,
    proofs::{self, judge, Must, Proof},
};
use crate::{
    engine::{fixed, part, CaseResult, Opts, Property, Rec},
    net::{NetCfg, RawListener},
    sim::*,
    wire::{self, Msg},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    lat: u64,
    chunk: usize,
    seed: u64,
    tries: Vec<Try>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Try {
    /// Whether the broker dials (a registered name), or we do.
    dialed: bool,
    broker: usize,
    proof: Proof,
    response: Response,
    /// Milliseconds before our proof and before our response.
    waits: [u64; 2],
    /// Send everything at once.
    eager: bool,
    /// Use the name of the other broker.
    posing: bool,
    /// The broker's proof comes back as ours.
    reflect: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Response {
    Good,
    Permit(u64),
    Context(String),
    Other(Msg),
    Silence,
}

const TS: &str = "a broker link";

fn run(c: &Case, rec: &mut Rec) -> CaseResult {
    let out = RefCell::new(Rec::default());
    let cfg = NetCfg { lat: c.lat, chunk: c.chunk, ..NetCfg::default() };
    let r = run_sim(cfg, c.seed, async {
        let _ = TS;
        let mut w = World::default();
        for b in 0..2 {
            w.start(b, None).await?;
        }
        if !meshed(&[0, 1], 40_000).await {
            return Err("the brokers were not linked within 40 s".into());
        }
        let mesh_link = crate::net::with(|n| n.links_between(0, 1).iter().find(|l| l.alive()).map(|l| l.id));
        let mut users = vec![];
        for u in 0..2 {
            users.push(login(u, u, &[0]).await.map_err(|e| format!("honest login: {e:?}"))?);
        }
        ms(15_000).await;
        // An old proof of broker 1's, for replays, and sync messages to repeat.
        let spy = fake_dial(1, 80, "spy").await.ok_or("a broker with the right key was not linked")?;
        ms(1_000).await;
        let spied = spy.frames();
        let old: Option<Vec<u8>> = spied.iter().find(|f| matches!(wire::decode(f), Some(Msg::AuthKey { .. }))).cloned();
        let syncs: Vec<Vec<u8>> = spied
            .iter()
            .filter(|f| matches!(wire::decode(f), Some(Msg::UserSync(_) | Msg::TopicSync(_))))
            .cloned()
            .collect();
        if syncs.is_empty() {
            return Err("a new link was sent no sync".into());
        }
        spy.kill();
        ms(8_000).await;

        let local = tokio::task::LocalSet::new();
        local
            .run_until(async {
                let mut seen_links: HashSet<usize> = HashSet::new();
                let mut n = 0u64;
                let (mut linked, mut refused, mut stalled) = (0, 0, 0);
                let mut effects: HashMap<Vec<u8>, (usize, bool)> = HashMap::new();
                for (i, t) in c.tries.iter().enumerate() {
                    let b = t.broker % 2;
                    let name = if t.posing && !t.dialed { format!("b{}", 1 - b) } else { format!("z{i}") };
                    let node = 60 + i;
                    // Connect.
                    let (p, _l) = if t.dialed {
                        let l = RawListener::bind(&format!("{name}.prv"), node).ok_or("bind")?;
                        disc(|d| {
                            d.brokers.insert(
                                ident_of(&name),
                                (0, Instant::now() + std::time::Duration::from_secs(1_000)),
                            )
                        });
                        // Both brokers come; the other one is left alone.
                        let got: Rc<RefCell<Option<Peer>>> = Rc::default();
                        let end = Instant::now() + std::time::Duration::from_secs(40);
                        let mut others = vec![];
                        loop {
                            let s = tokio::time::timeout_at(end, l.accept()).await;
                            let Ok(Some((s, k))) = s else {
                                return Err(format!("broker {b} did not dial a registered broker within 40 s"));
                            };
                            seen_links.insert(k.id);
                            let peer = Peer::new(s, k);
                            if peer.link.from == b {
                                *got.borrow_mut() = Some(peer);
                                break;
                            }
                            others.push(peer);
                        }
                        disc(|d| d.brokers.remove(&ident_of(&name)));
                        let p = got.borrow_mut().take().unwrap();
                        for o in others {
                            o.kill();
                        }
                        (p, Some(l))
                    } else {
                        (dial_as(&prv_ep(b), node, None, crate::net::Finalize::Now).await.ok_or("the broker refuses broker connections")?, None)
                    };
                    let t0 = Instant::now();
                    let late = |x: Instant| (x - t0).as_millis() as u64;
                    let deadline = 5_000;
                    // The script.
                    let response = |r: &Response| match r {
                        Response::Good => Some(Msg::AuthResponse { permit: 1, context: format!("{name}.pub/{name}.prv") }),
                        Response::Permit(p) => Some(Msg::AuthResponse { permit: *p, context: format!("{name}.pub/{name}.prv") }),
                        Response::Context(s) => Some(Msg::AuthResponse { permit: 1, context: s.clone() }),
                        Response::Other(m) => Some(m.clone()),
                        Response::Silence => None,
                    };
                    let resp_ok = match &t.response {
                        Response::Good => true,
                        Response::Permit(p) => *p == 1,
                        Response::Context(s) => s.split('/').count() >= 2,
                        Response::Other(Msg::AuthResponse { permit: 1, context }) => context.split('/').count() >= 2,
                        _ => false,
                    };
                    let resp_quiet = matches!(t.response, Response::Silence);
                    // The context may name anyone; whom the link then belongs to is not our concern unless it
                    // is one of the real brokers.
                    let (mut lo, mut hi) = (unix_now(), 0);
                    let mut body = t.proof.body(BROKER_KEY, NS_BROKER, old.as_deref());
                    let mut got_proof: Option<(Msg, u64)> = None;
                    let mut answer: Option<Msg> = None;
                    let mut slow = false;
                    let mut reflected = false;
                    let send_proof = |body: &[u8]| p.frame(body);
                    let mut replied = false;
                    if t.eager {
                        if t.dialed {
                            if let Some(m) = response(&t.response) {
                                p.send(&m);
                                replied = true;
                            }
                            send_proof(&body);
                        } else {
                            send_proof(&body);
                            if let Some(m) = response(&t.response) {
                                p.send(&m);
                                replied = true;
                            }
                        }
                    }
                    let mut sent_proof = t.eager;
                    if t.dialed {
                        // The broker proves first.
                        got_proof = expect(&p).await.map(|m| (m, unix_now()));
                        if !t.eager {
                            ms(t.waits[1]).await;
                            if let Some(m) = response(&t.response) {
                                p.send(&m);
                                replied = true;
                            }
                            if resp_ok {
                                ms(t.waits[0]).await;
                                lo = unix_now();
                                body = t.proof.body(BROKER_KEY, NS_BROKER, old.as_deref());
                                if t.reflect {
                                    if let Some((m, _)) = &got_proof {
                                        body = wire::encode(m);
                                        reflected = true;
                                    }
                                }
                                send_proof(&body);
                                sent_proof = true;
                            }
                        }
                        if resp_ok {
                            answer = expect(&p).await;
                            hi = unix_now();
                        }
                    } else {
                        if !t.eager {
                            ms(t.waits[0]).await;
                            lo = unix_now();
                            body = t.proof.body(BROKER_KEY, NS_BROKER, old.as_deref());
                            send_proof(&body);
                            sent_proof = true;
                        }
                        answer = expect(&p).await;
                        hi = unix_now();
                        if matches!(answer, Some(Msg::AuthResponse { permit: 1, .. })) {
                            got_proof = expect(&p).await.map(|m| (m, unix_now()));
                            if !t.eager {
                                ms(t.waits[1]).await;
                                if let Some(m) = response(&t.response) {
                                    p.send(&m);
                                    replied = true;
                                }
                            }
                        }
                    }
                    let _ = replied;
                    let hs = late(Instant::now());
                    if hs + 4 * c.lat + 10 > deadline - 100 {
                        slow = true;
                    }
                    let sure_slow = hs > deadline + 200;
                    // Things a linked broker might send.
                    n += 1;
                    let probe = wire::encode(&Msg::Direct { to: user_key(b), body: [b"probe".as_slice(), &n.to_be_bytes()].concat() });
                    let shout = wire::encode(&Msg::Broadcast { topics: vec![0], body: n.to_be_bytes().to_vec() });
                    for s in &syncs {
                        p.frame(s);
                    }
                    p.frame(&probe);
                    p.frame(&shout);
                    ms(8 * c.lat + 20).await;
                    // What must have come of it.
                    let (mut must, proven) = judge(&body, NS_BROKER, lo, hi.max(lo));
                    if proven.is_some() && proven != Some(BROKER_KEY) {
                        must = Must::Refuse;
                    }
                    if reflected {
                        // Somebody else's proof proves nothing.
                        must = Must::Refuse;
                    }
                    let what = format!(
                        "try {i} ({} broker {b}, proof {:?}{}, response {:?}, after {hs} ms)",
                        if t.dialed { "dialed by" } else { "dialing" },
                        t.proof,
                        if reflected { " reflected" } else { "" },
                        t.response
                    );
                    let ack = matches!(answer, Some(Msg::AuthResponse { permit: 1, .. }));
                    if ack && must == Must::Refuse && sent_proof {
                        return Err(format!("{what}: the broker accepted the proof"));
                    }
                    if let Some((m, at)) = &got_proof {
                        let (v, k) = judge(&wire::encode(m), NS_BROKER, *at, *at);
                        if v == Must::Refuse || k != Some(BROKER_KEY) {
                            return Err(format!("{what}: the broker's own proof is no good: {m:?}"));
                        }
                    }
                    let expect_answer = if t.dialed { resp_ok } else { true };
                    if expect_answer && must == Must::Refuse && !slow && wire::decode(&body).is_some() && !matches!(answer, Some(Msg::AuthResponse { permit: 0, .. })) {
                        return Err(format!("{what}: a wrong proof was answered with {answer:?} instead of an explicit failure"));
                    }
                    if expect_answer && must == Must::Accept && !slow && !ack {
                        return Err(format!("{what}: a good proof was answered with {answer:?}"));
                    }
                    let is_linked = p
                        .frames()
                        .iter()
                        .any(|f| matches!(wire::decode(f), Some(Msg::UserSync(_) | Msg::TopicSync(_))));
                    let may = must != Must::Refuse && resp_ok && !sure_slow;
                    let should = must == Must::Accept && resp_ok && !slow;
                    if is_linked && !may {
                        return Err(format!("{what}: a sync message was sent to it"));
                    }
                    if should && !is_linked {
                        return Err(format!("{what}: was not linked"));
                    }
                    if !is_linked {
                        if let Some(f) = p.frames().iter().find(|f| !matches!(wire::decode(f), Some(Msg::AuthKey { .. } | Msg::AuthResponse { .. }))) {
                            return Err(format!("{what}: was sent {:?} although it is not linked", wire::decode(f)));
                        }
                    }
                    effects.insert(probe.clone(), (b, is_linked));
                    effects.insert(shout.clone(), (b, is_linked));
                    let got = users[b].frames();
                    for (f, k) in [(&probe, "direct message"), (&shout, "broadcast")] {
                        let times = got.iter().filter(|g| *g == f).count();
                        // A Context names another; in eager mode what follows a wrong message is lost.
                        if should && times != 1 {
                            return Err(format!("{what}: its {k} was delivered {times} times"));
                        }
                        if !may && times > 0 {
                            return Err(format!("{what}: its {k} was processed"));
                        }
                    }
                    if users[1 - b].frames().iter().any(|f| *f == probe || *f == shout) {
                        return Err(format!("{what}: its message crossed to the other broker"));
                    }
                    // Failed and stalled handshakes end.
                    if !may {
                        let left = (deadline + 300 + 10 * c.lat).saturating_sub(late(Instant::now()));
                        // What was wrong is dropped at once, what stalls after five seconds.
                        let quick = !resp_quiet || must == Must::Refuse;
                        let _ = quick;
                        ms(left).await;
                        let held = if t.dialed { p.link.held_by_dialer() } else { p.link.held_by_acceptor() };
                        if held {
                            return Err(format!("{what}: still held {} ms after it began", late(Instant::now())));
                        }
                        refused += 1;
                        stalled += usize::from(sure_slow || resp_quiet);
                    } else if is_linked {
                        linked += 1;
                        ms(6_000).await;
                        if !t.posing && matches!(t.response, Response::Good) && !p.link.alive() {
                            return Err(format!("{what}: the link did not last"));
                        }
                    }
                    p.kill();
                    ms(100 + 10 * c.lat).await;
                    // Nobody else is disturbed, unless another broker's name was taken with the right key.
                    let took_name = is_linked && (t.posing || matches!(t.response, Response::Context(_)));
                    if took_name {
                        // The real one comes back.
                        ms(25_000).await;
                        if !meshed(&[0, 1], 30_000).await {
                            return Err(format!("{what}: the brokers were not linked again"));
                        }
                        return finish(&out, linked, refused, stalled);
                    }
                    let now_link = crate::net::with(|n| n.links_between(0, 1).iter().find(|l| l.alive()).map(|l| l.id));
                    if now_link != mesh_link {
                        return Err(format!("{what}: the link between the real brokers was disturbed"));
                    }
                    for u in 0..2 {
                        n += 1;
                        let d = wire::encode(&Msg::Direct { to: user_key(1 - u), body: [b"honest".as_slice(), &n.to_be_bytes()].concat() });
                        users[u].frame(&d);
                        ms(10 * c.lat + 20).await;
                        if users[1 - u].frames().iter().filter(|f| **f == d).count() != 1 {
                            return Err(format!("{what}: afterwards a message between honest users was lost"));
                        }
                    }
                    if let Some(d) = w.dead() {
                        return Err(format!("{what}: {d}"));
                    }
                    if let Some(e) = case_panics().first() {
                        return Err(format!("{what}: panic: {e}"));
                    }
                }
                finish(&out, linked, refused, stalled)
            })
            .await
    });
    *rec = out.into_inner();
    r
}

fn finish(out: &RefCell<Rec>, linked: usize, refused: usize, stalled: usize) -> CaseResult {
    let mut o = out.borrow_mut();
    o.nontrivial = refused > 0;
    o.tag_if(linked > 0, "linked");
    o.tag_if(refused > 0, "refused or abandoned");
    o.tag_if(stalled > 0, "stalled");
    o.note = format!("{linked} linked, {refused} refused or abandoned, of which {stalled} for being slow");
    Ok(())
}

fn strat() -> BoxedStrategy<Case> {
    let response = prop_oneof![
        8 => Just(Response::Good),
        1 => prop_oneof![Just(0u64), Just(2u64), any::<u64>()].prop_map(Response::Permit),
        1 => "[a-z/]{0,6}".prop_map(Response::Context),
        1 => any_msg().prop_map(Response::Other),
        1 => Just(Response::Silence),
    ];
    let wait = || prop_oneof![6 => Just(0u64), 2 => 0u64..3000, 1 => 4500u64..6000];
    let one = (
        any::<bool>(),
        0usize..2,
        proofs::strat(),
        response,
        [wait(), wait()],
        proptest::bool::weighted(0.2),
        proptest::bool::weighted(0.2),
    )
        .prop_map(|(dialed, broker, proof, response, waits, eager, posing)| Try {
            dialed,
            broker,
            proof,
            response,
            waits,
            eager,
            posing,
            reflect: false,
        });
    (
        1u64..10,
        prop_oneof![Just(1usize), 2usize..30, Just(1 << 16)],
        any::<u64>(),
        proptest::collection::vec(one, 1..6),
    )
        .prop_map(|(lat, chunk, seed, tries)| Case { lat, chunk, seed, tries })
        .boxed()
}

/// A registered impostor that answers a broker's proof with that very proof.
fn reflection() -> Vec<Case> {
    vec![Case {
        lat: 1,
        chunk: 1,
        seed: 0,
        tries: vec![Try {
            dialed: true,
            broker: 0,
            proof: Proof::Good(0),
            response: Response::Good,
            waits: [0, 0],
            eager: false,
            posing: false,
            reflect: true,
        }],
    }]
}

pub fn properties() -> Vec<Property> {
    let _ = SimKey(0).serialize();
    vec![Property {
        id: "C18",
        rule: "generated handshakes with real brokers, inbound and outbound: good, wrong, stale, replayed, malformed, slow and silent; non-trivial: at least one had to be refused or abandoned",
        parts: vec![
            part("handshakes", Opts { quick: 40_000, thorough: 600_000, ..Opts::default() }, strat, run),
            fixed("reflection", true, reflection, run),
        ],
    }]
}
