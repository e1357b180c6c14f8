//! C23-C25: the client library against a real marshal and real brokers over the simulated network.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

use cdn_client::{Client, Config};
use cdn_proto::message::{Broadcast, Direct, Message};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::{
    task::JoinHandle,
    time::{timeout, Instant},
};

use crate::{
    engine::{part, CaseResult, Opts, Property, Rec},
    live,
    net::{self, Block, NetCfg},
    sim::*,
    wire::{self, Msg},
};

/// The node that the client runs on.
const APP: usize = 98;
type C = Client<SimConn<APP>>;
const KEY: u64 = 500;

fn client_key() -> Vec<u8> {
    use cdn_proto::crypto::signature::Serializable;
    SimKey(KEY).serialize().unwrap()
}
fn client(topics: Vec<u8>) -> C {
    Client::new(Config {
        endpoint: MARSHAL_EP.into(),
        use_local_authority: true,
        keypair: keypair(KEY),
        subscribed_topics: topics,
    })
}

/// What a client received, with the time.
type Inbox = Arc<Mutex<Vec<(Instant, Vec<u8>)>>>;

fn body(m: &Message) -> Vec<u8> {
    match m {
        Message::Direct(d) => d.message.clone(),
        Message::Broadcast(b) => b.message.clone(),
        m => format!("{:?}", Msg::from_real(m)).into_bytes(),
    }
}

/// Receives for ever, with a pause after each failure.
fn receiver(c: C, inbox: Inbox, pause: u64) -> JoinHandle<()> {
    tokio::spawn(async move {
        loop {
            match c.receive_message().await {
                Ok(m) => inbox.lock().unwrap().push((Instant::now(), body(&m))),
                Err(_) => ms(pause.max(1)).await,
            }
        }
    })
}

/// The same, but the call in progress is not looked after for long times. (Only once it waits for a message, and no
/// messages come: a call that was given the client's lock, or a message, and is left alone rightly holds up the
/// others.)
fn sleepy(c: C, inbox: Inbox, pause: u64, asleep: u64, awake: Arc<AtomicBool>) -> JoinHandle<()> {
    tokio::spawn(async move {
        loop {
            if c.ensure_initialized().await.is_err() {
                ms(pause.max(1)).await;
                continue;
            }
            let call = c.receive_message();
            tokio::pin!(call);
            let r = loop {
                tokio::select! {
                    r = &mut call => break r,
                    () = ms(50) => {
                        let until = Instant::now() + Duration::from_millis(asleep);
                        while Instant::now() < until && !awake.load(Ordering::Relaxed) {
                            ms(50).await;
                        }
                    }
                }
            };
            match r {
                Ok(m) => inbox.lock().unwrap().push((Instant::now(), body(&m))),
                Err(_) => ms(pause.max(1)).await,
            }
        }
    })
}

fn app_links() -> Vec<net::Link> {
    net::with(|n| n.links_of(APP))
}
fn broker_links() -> Vec<net::Link> {
    app_links().into_iter().filter(|l| l.to < 10).collect()
}
fn attempts() -> Vec<Instant> {
    net::with(|n| n.attempts.iter().filter(|a| a.1 == APP).map(|a| a.0).collect())
}

// --- C23 -------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    brokers: usize,
    lat: u64,
    chunk: usize,
    cap: usize,
    seed: u64,
    init: Vec<u8>,
    /// 0: one receive loop; 1: two of them, on clones; 2: only sends, and receives at the end
    usage: u8,
    pause: u64,
    /// How long the second receive loop leaves its call in progress alone (0: not at all).
    #[serde(default)]
    asleep: u64,
    ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Cut,
    Half,
    Hold,
    Crash(usize),
    Restart(usize),
    /// The client cannot reach the marshal (10) or a broker.
    Block {
        who: usize,
        hang: bool,
        /// Connections to it are made, but are dead for ever.
        #[serde(default)]
        hole: bool,
    },
    /// Discovery fails or hangs for the marshal (or for the brokers).
    Disc { marshal: bool, hang: bool },
    Heal,
    Pause(u64),
    Sub(Vec<u8>),
    Unsub(Vec<u8>),
    Send { broadcast: bool, len: usize },
    Ensure,
    /// Others send to the client.
    Deliver(usize),
}

struct World23<'a> {
    c: &'a Case,
    w: World,
    client: C,
    inbox: Inbox,
    probers: BTreeMap<usize, Peer>,
    up: BTreeSet<usize>,
    record: BTreeSet<u8>,
    next: u64,
    sent: BTreeSet<Vec<u8>>,
    crashed: bool,
    /// A link may be broken without a sign of it.
    silent: bool,
    faults: usize,
    refused: usize,
    ensuring: Vec<(Instant, JoinHandle<Result<(), &'static str>>)>,
    /// When the client last had a connection to a broker.
    linked: Arc<Mutex<Instant>>,
}

impl World23<'_> {
    async fn prober(&mut self, b: usize) -> CaseRes {
        let p = login(b, 100 + b, &[]).await.map_err(|e| format!("prober at broker {b}: {e:?}"))?;
        self.probers.insert(b, p);
        Ok(())
    }
    /// How long the client may take to find out that it is disconnected.
    fn aware(&self) -> Duration {
        Duration::from_millis(self.c.pause + 200 + 20 * self.c.lat)
    }
    fn disconnected(&self) -> bool {
        broker_links().iter().all(|l| !l.alive())
    }
    fn id(&mut self) -> Vec<u8> {
        self.next += 1;
        let v = format!("message {}", self.next).into_bytes();
        self.sent.insert(v.clone());
        v
    }
    /// Makes a call that must not hang; and if the client knows that it is disconnected, it must fail at once.
    async fn call<T>(&mut self, what: &str, f: impl std::future::Future<Output = cdn_proto::error::Result<T>>) -> Result<bool, String> {
        let aware = self.aware();
        // (On a link that is stalled, the other side's disappearance cannot be seen.)
        let unseen = self.silent && broker_links().iter().any(net::Link::held_by_dialer);
        let before = !unseen && self.disconnected() && self.c.usage != 2 && self.linked.lock().unwrap().elapsed() > aware;
        let start = Instant::now();
        let Ok(r) = timeout(Duration::from_millis(6500), f).await else {
            return Err(format!("{what} hangs (no result within 6.5 s)"));
        };
        if before && self.disconnected() && !broker_links().iter().any(|l| l.alive()) {
            if r.is_ok() {
                return Err(format!("{what} reports success although the client is disconnected"));
            }
            self.refused += 1;
            if start.elapsed() > Duration::from_millis(1500) {
                return Err(format!("{what} took {:?} to fail although the client is disconnected", start.elapsed()));
            }
        }
        Ok(r.is_ok())
    }

    async fn heal(&mut self) -> CaseRes {
        net::with(|n| {
            n.blocked.clear();
            for l in n.links.clone() {
                l.hold(false);
            }
        });
        disc(|d| d.faults.clear());
        for b in 0..self.c.brokers {
            self.restart(b).await?;
        }
        Ok(())
    }
    async fn restart(&mut self, b: usize) -> CaseRes {
        if self.up.insert(b) {
            self.w.start(b, None).await?;
            ms(200).await;
            self.prober(b).await?;
        }
        Ok(())
    }

    async fn op(&mut self, op: &Op) -> CaseRes {
        let nb = self.c.brokers;
        if !self.disconnected() {
            *self.linked.lock().unwrap() = Instant::now();
        }
        match op {
            Op::Cut => {
                self.faults += 1;
                app_links().iter().for_each(net::Link::sever);
                ms(1).await;
            }
            Op::Half => {
                self.silent = true;
                self.faults += 1;
                app_links().iter().for_each(net::Link::half_open);
                ms(1).await;
            }
            Op::Hold => {
                self.silent = true;
                self.faults += 1;
                app_links().iter().for_each(|l| l.hold(true));
            }
            Op::Crash(b) => {
                let b = b % nb;
                if self.up.remove(&b) {
                    self.faults += 1;
                    self.crashed = true;
                    self.w.crash(b).await;
                    self.probers.remove(&b);
                    ms(1).await;
                }
            }
            Op::Restart(b) => {
                if disc(|d| d.faults.is_empty()) {
                    self.restart(b % nb).await?;
                }
            }
            Op::Block { who, hang, hole } => {
                self.faults += 1;
                let node = if *who >= nb { MARSHAL } else { *who };
                net::with(|n| {
                    n.blocked
                        .insert((node.min(APP), node.max(APP)), [Block::Refuse, Block::Hang, Block::Hole][if *hole { 2 } else { usize::from(*hang) }])
                });
            }
            Op::Disc { marshal, hang } => {
                self.faults += 1;
                let f = if *hang { Fault::Hang } else { Fault::Err };
                disc(|d| {
                    if *marshal {
                        for m in [Method::Least, Method::Issue] {
                            d.fault("marshal", m, Some(f));
                        }
                    } else {
                        d.fault("*", Method::Validate, Some(f));
                    }
                });
            }
            Op::Heal => self.heal().await?,
            Op::Pause(n) => ms(*n).await,
            Op::Sub(t) => {
                let c = self.client.clone();
                if self.call("subscribe", c.subscribe(t.clone())).await? {
                    self.record.extend(t);
                }
            }
            Op::Unsub(t) => {
                let c = self.client.clone();
                if self.call("unsubscribe", c.unsubscribe(t.clone())).await? {
                    self.record.retain(|x| !t.contains(x));
                }
            }
            Op::Send { broadcast, len } => {
                let c = self.client.clone();
                // (To a topic and to a user that the client itself does not hear.)
                let m = if *broadcast && (self.c.usage % 3 != 1 || self.c.asleep == 0) {
                    Message::Broadcast(Broadcast { topics: vec![0, 1], message: self.id() })
                } else {
                    Message::Direct(Direct { recipient: user_key(100), message: vec![7; *len] })
                };
                self.call("send_message", c.send_message(m)).await?;
            }
            Op::Ensure => {
                let c = self.client.clone();
                let (linked, before, silent) = (self.linked.clone(), broker_links().len(), self.silent || self.c.usage % 3 == 2);
                let aware = self.aware();
                let begun = Instant::now();
                let task = tokio::spawn(async move {
                    if c.ensure_initialized().await.is_err() {
                        return Err("ensure_initialized failed on a client that was not closed");
                    }
                    if !silent && broker_links().len() == before && *linked.lock().unwrap() + aware < begun {
                        return Err("ensure_initialized reported success although the client is not connected");
                    }
                    Ok(())
                });
                self.ensuring.push((begun, task));
                tokio::task::yield_now().await;
            }
            Op::Deliver(_) if self.c.usage % 3 == 1 && self.c.asleep > 0 => {}
            Op::Deliver(n) => {
                for _ in 0..*n {
                    for b in self.up.clone() {
                        let id = self.id();
                        let m = if id.len() % 2 == 0 {
                            Msg::Direct { to: client_key(), body: id }
                        } else {
                            Msg::Broadcast { topics: vec![0, 1], body: id }
                        };
                        if let Some(p) = self.probers.get(&b) {
                            p.send(&m);
                        }
                    }
                }
            }
        }
        Ok(())
    }

    /// From every broker, a direct message and broadcasts: each arrives once exactly if it should.
    async fn probe(&mut self) -> CaseRes {
        let mut want = vec![];
        for b in self.up.clone() {
            for t in [vec![], vec![1, 0]].into_iter().chain(GOOD.map(|t| vec![t])) {
                let id = self.id();
                let p = &self.probers[&b];
                if p.is_closed() {
                    return Err(format!("the prober at broker {b} lost its session"));
                }
                if t.is_empty() {
                    p.send(&Msg::Direct { to: client_key(), body: id.clone() });
                    want.push((b, t, id, true));
                } else {
                    p.send(&Msg::Broadcast { topics: t.clone(), body: id.clone() });
                    let on = t.iter().any(|t| self.record.contains(t));
                    want.push((b, t, id, on));
                }
            }
        }
        ms(4000).await;
        let got = self.inbox.lock().unwrap().clone();
        for (b, t, id, on) in want {
            let n = got.iter().filter(|g| g.1 == id).count();
            if n != usize::from(on) {
                return Err(format!(
                    "the client's subscriptions are {:?}, but a {} from broker {b} arrived {n} times",
                    self.record,
                    if t.is_empty() { "direct message".into() } else { format!("broadcast for {t:?}") }
                ));
            }
        }
        Ok(())
    }

    fn check_inbox(&self) -> CaseRes {
        let mut seen = BTreeSet::new();
        for (_, m) in self.inbox.lock().unwrap().iter() {
            if !self.sent.contains(m) {
                return Err(format!("the client received what nobody sent: {:?}", String::from_utf8_lossy(m)));
            }
            if !seen.insert(m.clone()) {
                return Err(format!("the client received {:?} twice", String::from_utf8_lossy(m)));
            }
        }
        Ok(())
    }
}

pub fn run23(c: &Case, rec: &mut Rec) -> CaseResult {
    let cfg = NetCfg { lat: c.lat, chunk: c.chunk, cap: c.cap, wbuf: 0 };
    let out = RefCell::new(Rec::default());
    let r = run_sim(cfg, c.seed, async {
        let mut w = World23 {
            c,
            w: World::default(),
            client: client(c.init.clone()),
            inbox: Arc::default(),
            probers: BTreeMap::new(),
            up: BTreeSet::new(),
            record: c.init.iter().copied().collect(),
            next: 0,
            sent: BTreeSet::new(),
            crashed: false,
            silent: false,
            faults: 0,
            refused: 0,
            ensuring: vec![],
            linked: Arc::new(Mutex::new(Instant::now())),
        };
        let linked = w.linked.clone();
        tokio::spawn(async move {
            loop {
                if broker_links().iter().any(net::Link::alive) {
                    *linked.lock().unwrap() = Instant::now();
                }
                ms(25).await;
            }
        });
        start_marshal(&mut w.w, None).await?;
        w.heal().await?;
        if !meshed(&(0..c.brokers).collect::<Vec<_>>(), 30_000).await {
            return Err("the brokers did not link up".into());
        }
        let awake = Arc::new(AtomicBool::new(false));
        let mut tasks = vec![];
        for i in 0..[1, 2, 0][c.usage as usize % 3] {
            tasks.push(if i == 1 && c.asleep > 0 {
                sleepy(w.client.clone(), w.inbox.clone(), c.pause, c.asleep, awake.clone())
            } else {
                receiver(w.client.clone(), w.inbox.clone(), c.pause)
            });
        }
        if c.usage % 3 == 2 {
            let cl = w.client.clone();
            let pause = c.pause;
            tasks.push(tokio::spawn(async move {
                loop {
                    let _ = cl.send_direct_message(&SimKey(1), vec![1]).await;
                    ms(pause.max(1)).await;
                }
            }));
        }
        for op in &c.ops {
            w.op(op).await?;
        }
        w.heal().await?;
        // A connection attempt in progress may take 10 s, then there is a pause of 2 s.
        ms(16_000 + 20 * c.lat).await;
        if w.disconnected() {
            return Err("the client, although in use, was not connected again 16 s after everything was reachable".into());
        }
        for (at, h) in std::mem::take(&mut w.ensuring) {
            if !h.is_finished() {
                return Err(format!("ensure_initialized, called {:?} ago, still waits although the client is connected", at.elapsed()));
            }
            h.await.unwrap_or(Err("ensure_initialized panicked"))?;
        }
        if c.usage % 3 == 2 {
            tasks.push(receiver(w.client.clone(), w.inbox.clone(), c.pause));
        }
        let links = || broker_links().iter().filter(|l| l.alive()).map(|l| l.id).collect::<Vec<_>>();
        let first = links();
        ms(if c.usage % 3 == 1 { 24_000.max(c.asleep + 10_000) } else { 24_000 }).await;
        if let Some(d) = w.w.dead() {
            return Err(d);
        }
        if links() != first {
            return Err(format!("the client's connection {first:?} became {:?} although nothing was wrong with it", links()));
        }
        awake.store(true, Ordering::Relaxed);
        ms(200).await;
        w.probe().await?;
        if links() != first {
            return Err(format!("the client's connection {first:?} became {:?} although nothing was wrong with it", links()));
        }
        w.check_inbox()?;
        let known: BTreeSet<u8> = w.client.subscribed_topics.read().await.iter().copied().collect();
        if known != w.record {
            return Err(format!("the client's record of its subscriptions is {known:?}, should be {:?}", w.record));
        }
        let mut o = out.borrow_mut();
        let links = broker_links().len();
        o.tag_if(links > 1, "reconnected");
        o.tag_if(w.crashed, "broker crash");
        o.tag_if(w.refused > 0, "calls while disconnected");
        o.tag_if(!w.record.is_empty(), "subscribed");
        o.tag_if(w.record != c.init.iter().copied().collect::<BTreeSet<u8>>(), "subscriptions changed");
        o.nontrivial = links > 1;
        o.note = format!("{} attempts, {links} connections, {} messages received", attempts().len(), w.inbox.lock().unwrap().len());
        Ok(())
    });
    *rec = out.into_inner();
    r
}

fn topic_list() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => proptest::collection::vec(0u8..2, 0..4),
        1 => proptest::collection::vec(proptest::sample::select(GOOD.to_vec()), 0..20),
    ]
    .boxed()
}

pub fn strat23() -> BoxedStrategy<Case> {
    let op = prop_oneof![
        4 => Just(Op::Cut),
        1 => Just(Op::Half),
        1 => Just(Op::Hold),
        2 => (0usize..2).prop_map(Op::Crash),
        2 => (0usize..2).prop_map(Op::Restart),
        4 => (0usize..4, 0u8..3).prop_map(|(who, k)| Op::Block { who, hang: k == 1, hole: k == 2 }),
        2 => any::<(bool, bool)>().prop_map(|(marshal, hang)| Op::Disc { marshal, hang }),
        2 => Just(Op::Heal),
        8 => prop_oneof![0u64..100, 0u64..3000, 0u64..20_000].prop_map(Op::Pause),
        3 => topic_list().prop_map(Op::Sub),
        3 => topic_list().prop_map(Op::Unsub),
        3 => (any::<bool>(), prop_oneof![0usize..20, 0usize..40_000]).prop_map(|(broadcast, len)| Op::Send { broadcast, len }),
        1 => Just(Op::Ensure),
        2 => (1usize..4).prop_map(Op::Deliver),
    ];
    (
        1usize..=2,
        prop_oneof![1u64..6, 1u64..40],
        prop_oneof![Just(1usize), 2usize..64, Just(1 << 16)],
        prop_oneof![Just(1usize << 10), Just(64 << 10)],
        any::<u64>(),
        topic_list(),
        (0u8..3, prop_oneof![Just(20u64), 20u64..1000], prop_oneof![1 => Just(0), 1 => 100u64..30_000]),
        proptest::collection::vec(op, 1..24),
    )
        .prop_map(|(brokers, lat, chunk, cap, seed, init, (usage, pause, asleep), ops)| Case {
            brokers,
            lat,
            chunk,
            cap,
            seed,
            init,
            usage,
            pause,
            asleep,
            ops,
        })
        .boxed()
}

// --- C24 -------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CloseCase {
    lat: u64,
    cap: usize,
    seed: u64,
    /// What is wrong when the client starts, and what happens next (each with a pause before).
    troubles: Vec<(u64, Trouble)>,
    /// Operations in progress, with the time at which each starts.
    ops: Vec<(u64, InOp)>,
    /// When the client is closed (possibly by several clones).
    close: u64,
    closers: Vec<u64>,
    /// Whether everything gets reachable right after.
    heal: bool,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Trouble {
    Block { marshal: bool, hang: bool },
    Hold,
    Cut,
    Disc { marshal: bool },
    Heal,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum InOp {
    Receive,
    Ensure,
    Sub(u8),
    Unsub(u8),
    Send(usize),
    SoftClose,
}

fn heal() {
    net::with(|n| {
        n.blocked.clear();
        for l in n.links.clone() {
            l.hold(false);
        }
    });
    disc(|d| d.faults.clear());
}

async fn perform(c: &C, op: InOp) -> bool {
    match op {
        InOp::Receive => c.receive_message().await.is_ok(),
        InOp::Ensure => c.ensure_initialized().await.is_ok(),
        InOp::Sub(t) => c.subscribe(vec![t]).await.is_ok(),
        InOp::Unsub(t) => c.unsubscribe(vec![t]).await.is_ok(),
        InOp::Send(n) => c
            .send_message(Message::Direct(Direct { recipient: user_key(100), message: vec![3; n] }))
            .await
            .is_ok(),
        InOp::SoftClose => c.soft_close().await.is_ok(),
    }
}

pub fn run24(c: &CloseCase, rec: &mut Rec) -> CaseResult {
    let cfg = NetCfg { lat: c.lat, chunk: 1 << 16, cap: c.cap, wbuf: 0 };
    let out = RefCell::new(Rec::default());
    let r = run_sim(cfg, c.seed, async {
        let mut w = World::default();
        start_marshal(&mut w, None).await?;
        w.start(0, None).await?;
        ms(200).await;
        let cl = client(vec![0]);
        let t0 = Instant::now();
        // Keep it busy, as a user would
        let user = {
            let cl = cl.clone();
            tokio::spawn(async move {
                loop {
                    let _ = cl.ensure_initialized().await;
                    ms(150).await;
                }
            })
        };
        let troubles = c.troubles.clone();
        tokio::spawn(async move {
            for (pause, t) in troubles {
                ms(pause).await;
                match t {
                    Trouble::Block { marshal, hang } => net::with(|n| {
                        let node: usize = if marshal { MARSHAL } else { 0 };
                        n.blocked
                            .insert((node.min(APP), node.max(APP)), if hang { Block::Hang } else { Block::Refuse });
                    }),
                    Trouble::Hold => app_links().iter().for_each(|l| l.hold(true)),
                    Trouble::Cut => app_links().iter().for_each(net::Link::sever),
                    Trouble::Disc { marshal } => disc(|d| {
                        if marshal {
                            d.fault("marshal", Method::Least, Some(Fault::Hang));
                        } else {
                            d.fault("*", Method::Validate, Some(Fault::Hang));
                        }
                    }),
                    Trouble::Heal => heal(),
                }
            }
        });
        let mut running = vec![];
        for (at, op) in &c.ops {
            let (at, op, cl) = (*at, *op, cl.clone());
            running.push((
                op,
                tokio::spawn(async move {
                    ms(at).await;
                    let begun = Instant::now();
                    let ok = perform(&cl, op).await;
                    (begun, Instant::now(), ok)
                }),
            ));
        }
        ms(c.close).await;
        user.abort();
        // Close it, from one or more clones
        let closed_at = Instant::now();
        let admitted = broker_links().iter().any(|l| l.alive());
        let mut closers = vec![];
        for d in &c.closers {
            let (d, cl) = (*d, cl.clone());
            closers.push(tokio::spawn(async move {
                ms(d).await;
                cl.close().await;
            }));
        }
        if timeout(Duration::from_millis(2500), cl.close()).await.is_err() {
            return Err("close() has not returned after 2.5 s".into());
        }
        if c.heal {
            heal();
        }
        if !cl.is_closed() {
            return Err("is_closed() is false after close()".into());
        }
        // (Those that are still to begin begin at most 300 ms later.)
        ms(3000).await;
        for (i, h) in closers.into_iter().enumerate() {
            if !h.is_finished() {
                return Err(format!("close() number {i} does not return"));
            }
        }
        let mut in_progress = 0;
        for (op, h) in running {
            if !h.is_finished() {
                return Err(format!("{op:?}, in progress when the client was closed, has not finished 3 s later"));
            }
            let (begun, done, ok) = h.await.map_err(|e| format!("{op:?}: {e}"))?;
            if done >= closed_at && begun < closed_at {
                in_progress += 1;
            }
            // Whether it was connected when it was closed
            if op == InOp::Ensure && ok && (done > closed_at || done == closed_at && !admitted) {
                return Err(format!(
                    "waiting for initialization reported success {:?} after the client was closed (it {} connected)",
                    done - closed_at,
                    if admitted { "was" } else { "was not" }
                ));
            }
            if begun > closed_at && ok {
                return Err(format!("{op:?} succeeded although it began after the client was closed"));
            }
        }
        if let Some(l) = app_links().iter().find(|l| l.held_by_dialer()) {
            return Err(format!("the client's connection to {} is still there 3 s after it was closed", l.endpoint));
        }
        let before = attempts().len();
        for op in [InOp::Receive, InOp::Ensure, InOp::Sub(1), InOp::Unsub(0), InOp::Send(3), InOp::SoftClose] {
            match timeout(Duration::from_millis(1000), perform(&cl, op)).await {
                Err(_) => return Err(format!("{op:?} on a closed client does not return")),
                Ok(true) => return Err(format!("{op:?} on a closed client succeeds")),
                Ok(false) => {}
            }
        }
        heal();
        ms(25_000).await;
        if attempts().len() > before || attempts().iter().any(|a| *a > closed_at) {
            return Err("the client tried to connect after it was closed".into());
        }
        if app_links().iter().any(net::Link::alive) {
            return Err("a closed client is connected again".into());
        }
        let mut o = out.borrow_mut();
        o.nontrivial = in_progress > 0;
        o.tag_if(in_progress > 0, "operations in progress");
        o.tag_if(admitted, "connected");
        o.tag_if(!admitted, "not connected");
        o.tag_if(c.closers.len() > 0, "several close calls");
        o.note = format!("closed after {:?}, {in_progress} operations in progress", closed_at - t0);
        Ok(())
    });
    *rec = out.into_inner();
    r
}

pub fn strat24() -> BoxedStrategy<CloseCase> {
    let trouble = prop_oneof![
        any::<(bool, bool)>().prop_map(|(marshal, hang)| Trouble::Block { marshal, hang }),
        Just(Trouble::Hold),
        Just(Trouble::Cut),
        any::<bool>().prop_map(|marshal| Trouble::Disc { marshal }),
        Just(Trouble::Heal),
    ];
    let op = prop_oneof![
        3 => Just(InOp::Receive),
        3 => Just(InOp::Ensure),
        1 => (0u8..2).prop_map(InOp::Sub),
        1 => (0u8..2).prop_map(InOp::Unsub),
        3 => prop_oneof![0usize..100, 0usize..60_000].prop_map(InOp::Send),
        2 => Just(InOp::SoftClose),
    ];
    let time = || prop_oneof![0u64..100, 0u64..1000, 0u64..15_000];
    (
        prop_oneof![1u64..6, 1u64..40],
        prop_oneof![Just(1usize << 10), Just(64 << 10)],
        any::<u64>(),
        proptest::collection::vec((time(), trouble), 0..4),
        (time(), proptest::collection::vec((any::<bool>(), 0u64..1000, op), 1..8)),
        proptest::collection::vec(0u64..5, 0..3),
        any::<bool>(),
    )
        .prop_map(|(lat, cap, seed, troubles, (close, ops), closers, heal)| CloseCase {
            lat,
            cap,
            seed,
            troubles,
            ops: ops
                .into_iter()
                // Just before the end, or at any time
                .map(|(late, n, o)| (if late { (close + 20).saturating_sub(n % 300) } else { close * n / 1000 }, o))
                .collect(),
            close,
            closers,
            heal,
        })
        .boxed()
}

/// Closing races with the start of a reconnection, on several real threads.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RaceCase {
    rounds: usize,
    threads: usize,
    users: usize,
    closers: usize,
    spread: u64,
    seed: u64,
}

pub fn run24race(c: &RaceCase, rec: &mut Rec) -> CaseResult {
    let mut rng = net::Rng(c.seed);
    live::run_live(c.threads, async {
        for round in 0..c.rounds {
            let cl: Client<live::LiveConn<live::Refusing>> = Client::new(Config {
                endpoint: String::new(),
                use_local_authority: true,
                keypair: keypair(KEY),
                subscribed_topics: vec![],
            });
            let go = Arc::new(AtomicUsize::new(0));
            let n = c.users + c.closers;
            let mut tasks = vec![];
            for i in 0..n {
                let (cl, go, spins) = (cl.clone(), go.clone(), rng.below(c.spread + 1));
                let closer = i < c.closers;
                tasks.push((closer, tokio::spawn(async move {
                    go.fetch_add(1, Ordering::SeqCst);
                    let start = std::time::Instant::now();
                    while go.load(Ordering::SeqCst) < n && start.elapsed() < Duration::from_millis(20) {
                        std::hint::spin_loop();
                    }
                    for _ in 0..spins {
                        std::hint::spin_loop();
                    }
                    if closer {
                        cl.close().await;
                    } else {
                        let _ = cl.receive_message().await;
                    }
                })));
            }
            for (closer, t) in tasks {
                if timeout(Duration::from_secs(6), t).await.is_err() {
                    return Err(format!(
                        "round {round}: {} has not returned 6 s after a client that cannot connect was closed",
                        if closer { "close()" } else { "receive_message()" }
                    ));
                }
            }
            match timeout(Duration::from_secs(6), cl.ensure_initialized()).await {
                Ok(Err(_)) => {}
                r => return Err(format!("round {round}: ensure_initialized after close: {r:?}")),
            }
        }
        Ok(())
    })?;
    rec.nontrivial = c.threads > 1;
    rec.note = format!("{} rounds of {} closers and {} users", c.rounds, c.closers, c.users);
    Ok(())
}

pub fn strat24race() -> BoxedStrategy<RaceCase> {
    (1usize..4, 1usize..3, prop_oneof![Just(0u64), 0u64..200, 0u64..3000], any::<u64>())
        .prop_map(|(users, closers, spread, seed)| RaceCase { rounds: 300, threads: users + closers, users, closers, spread, seed })
        .boxed()
}

// --- C25 -------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SubCase {
    lat: u64,
    chunk: usize,
    cap: usize,
    seed: u64,
    brokers: usize,
    init: Vec<u8>,
    /// Phases; in each, every clone makes its calls one after the other.
    phases: Vec<Vec<Vec<Call>>>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call {
    pause: u64,
    sub: bool,
    topics: Vec<u8>,
}

pub fn run25(c: &SubCase, rec: &mut Rec) -> CaseResult {
    let cfg = NetCfg { lat: c.lat, chunk: c.chunk, cap: c.cap, wbuf: 0 };
    let out = RefCell::new(Rec::default());
    let r = run_sim(cfg, c.seed, async {
        let mut w = World::default();
        start_marshal(&mut w, None).await?;
        let mut probers = vec![];
        for b in 0..c.brokers {
            w.start(b, None).await?;
        }
        if !meshed(&(0..c.brokers).collect::<Vec<_>>(), 30_000).await {
            return Err("the brokers did not link up".into());
        }
        for b in 0..c.brokers {
            probers.push(login(b, 100 + b, &[]).await.map_err(|e| format!("prober: {e:?}"))?);
        }
        let cl = client(c.init.clone());
        cl.ensure_initialized().await.map_err(|e| e.to_string())?;
        let inbox: Inbox = Arc::default();
        receiver(cl.clone(), inbox.clone(), 50);
        let mut model: Option<BTreeSet<u8>> = Some(c.init.iter().copied().collect());
        let (mut redundant, mut next) = (0, 0u64);
        for (i, phase) in c.phases.iter().enumerate() {
            if phase.len() > 1 {
                model = None;
            }
            let mut tasks = vec![];
            for calls in phase {
                if let Some(m) = &mut model {
                    for call in calls {
                        let before = m.clone();
                        if call.sub {
                            m.extend(&call.topics);
                        } else {
                            m.retain(|t| !call.topics.contains(t));
                        }
                        redundant += usize::from(*m == before);
                    }
                }
                let (cl, calls) = (cl.clone(), calls.clone());
                tasks.push(tokio::spawn(async move {
                    for call in calls {
                        ms(call.pause).await;
                        let r = if call.sub {
                            cl.subscribe(call.topics.clone()).await
                        } else {
                            cl.unsubscribe(call.topics.clone()).await
                        };
                        r.map_err(|e| format!("{call:?} failed: {e}"))?;
                    }
                    Ok::<_, String>(())
                }));
            }
            for t in tasks {
                let r = timeout(Duration::from_secs(60), t).await.map_err(|_| "a call hangs".to_string())?;
                r.map_err(|e| e.to_string())??;
            }
            // (Topics reach the other brokers with the next sync.)
            ms(if c.brokers > 1 { 12_000 } else { 1_500 }).await;
            if broker_links().len() != 1 || !broker_links()[0].alive() {
                return Err(format!(
                    "in phase {i}, the client lost its session ({} connections to brokers so far)",
                    broker_links().len()
                ));
            }
            let known: BTreeSet<u8> = cl.subscribed_topics.read().await.iter().copied().collect();
            if let Some(m) = &model {
                if *m != known {
                    return Err(format!("in phase {i}, the client's record is {known:?}, should be {m:?}"));
                }
            } else {
                model = Some(known.clone());
            }
            let mut want = vec![];
            for (b, p) in probers.iter().enumerate() {
                for t in GOOD {
                    next += 1;
                    let id = next.to_be_bytes().to_vec();
                    p.send(&Msg::Broadcast { topics: vec![t], body: id.clone() });
                    want.push((b, t, id));
                }
            }
            ms(1_500 + 100 * c.lat).await;
            let got = inbox.lock().unwrap().clone();
            for (b, t, id) in want {
                let n = got.iter().filter(|g| g.1 == id).count();
                if n != usize::from(known.contains(&t)) {
                    return Err(format!(
                        "in phase {i}, the client's record is {known:?}, but a broadcast for {t} from broker {b} arrived {n} times"
                    ));
                }
            }
        }
        if let Some(d) = w.dead() {
            return Err(d);
        }
        let mut o = out.borrow_mut();
        let calls: usize = c.phases.iter().flatten().map(Vec::len).sum();
        o.nontrivial = redundant > 0;
        o.tag_if(redundant > 0, "calls that change nothing");
        o.tag_if(c.phases.iter().any(|p| p.len() > 1), "concurrent clones");
        o.tag_if(c.brokers > 1, "two brokers");
        o.note = format!("{calls} calls in {} phases, {redundant} known to change nothing", c.phases.len());
        Ok(())
    });
    *rec = out.into_inner();
    r
}

pub fn strat25() -> BoxedStrategy<SubCase> {
    let call = (prop_oneof![Just(0u64), 0u64..30], any::<bool>(), topic_list())
        .prop_map(|(pause, sub, topics)| Call { pause, sub, topics });
    let clone = proptest::collection::vec(call, 0..8);
    let phase = prop_oneof![
        2 => proptest::collection::vec(clone.clone(), 1..=1),
        1 => proptest::collection::vec(clone, 2..4),
    ];
    (
        prop_oneof![1u64..6, 1u64..40],
        prop_oneof![Just(1usize), 2usize..64, Just(1 << 16)],
        prop_oneof![Just(1usize << 10), Just(64 << 10)],
        any::<u64>(),
        1usize..=2,
        topic_list(),
        proptest::collection::vec(phase, 1..5),
    )
        .prop_map(|(lat, chunk, cap, seed, brokers, init, phases)| SubCase { lat, chunk, cap, seed, brokers, init, phases })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C23",
        rule: "a client in use (one or two receive loops, or only sends) against a real marshal and 1-2 brokers, with its links cut or stalled, brokers crashed, marshal, brokers or discovery unreachable or hanging, and subscription calls in between; non-trivial: the client had to connect again",
        parts: vec![part("histories", Opts { quick: 15_000, thorough: 500_000, ..Opts::default() }, strat23, run23)],
    },
    Property {
        id: "C24",
        rule: "a client closed at any moment of connecting, being connected or being in trouble, with operations on clones in progress, then used further; non-trivial: at least one operation was in progress when it was closed",
        parts: vec![part("closing", Opts { quick: 35_000, thorough: 500_000, ..Opts::default() }, strat24, run24),
            part("races", Opts { quick: 300, thorough: 20_000, quick_s: 8, workers: 2, det: false, ..Opts::default() }, strat24race, run24race)],
    },
    Property {
        id: "C25",
        rule: "any sequences of (un)subscriptions to valid topics (empty, repeated, redundant lists), from one or several clones at once, on a healthy network; non-trivial: a call that is known to change nothing",
        parts: vec![part("calls", Opts { quick: 50_000, thorough: 400_000, ..Opts::default() }, strat25, run25)],
    }]
}
