//! Histories: a deployment of 1-3 real brokers, users that log in and out, subscribe, send and stall, links that
//! are cut and brokers that crash, all generated; afterwards the recorded history is judged by general oracles:
//! what may never happen, what must have happened, and in which order.

use std::{collections::{BTreeMap, BTreeSet, HashMap}, time::Duration};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::time::Instant;

use crate::{
    engine::{CaseResult, Rec},
    net::{self, Block, NetCfg},
    sim::*,
    wire::{self, Layout, Msg},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub brokers: usize,
    pub users: usize,
    pub lat: u64,
    pub chunk: usize,
    pub cap: usize,
    pub seed: u64,
    pub pool: Option<usize>,
    /// Order in which the brokers start, and pauses between the starts.
    pub stagger: Vec<(usize, u64)>,
    /// Watch the links between the brokers, and judge what crosses them.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub tap: bool,
    /// All brokers advertise the same public endpoint.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub shared: bool,
    /// Nobody is connected but the case's users: those who probe come and go.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub lonely: bool,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Logs a user in; `wait` for the admission before the next operation.
    Login { u: usize, b: usize, topics: Vec<u8>, wait: bool },
    /// Ends one of a user's sessions: the n-th newest.
    Logout { u: usize, nth: usize, how: How },
    Sub { u: usize, topics: Vec<u8> },
    Unsub { u: usize, topics: Vec<u8> },
    Burst(Vec<Send>),
    /// The same message (but for its number) n times, at once.
    Flood { send: Send, n: usize },
    /// A user does not read for this long.
    Doze { u: usize, ms: u64 },
    /// Everybody logs in (again), from this broker on in turn.
    LoginAll { b: usize, step: usize, topics: Vec<u8>, some: usize },
    /// The operations, n times.
    Again { n: usize, ops: Vec<Op> },
    Pause(u64),
    /// Waits for the mesh to be whole and for two sync periods.
    Settle,
    /// A probe user on every broker sends to every key and topic.
    Probe,
    CutLinks { a: usize, b: usize },
    /// The broker that opened the link loses it, the other one does not notice.
    HalfOpen { a: usize, b: usize },
    Partition { a: usize, b: usize, hang: bool, hold: bool },
    Heal,
    Crash { b: usize },
    Restart { b: usize },
    /// Sends something that must end this session and no other.
    Poison { u: usize, what: u8 },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    Finish,
    Kill,
    Reset,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Send {
    pub u: usize,
    pub to: Dest,
    pub len: usize,
    pub layout: u8,
    /// Nothing (or next to nothing) in it: the same bytes may be sent several times.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub bare: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Dest {
    User(usize),
    Nobody(u8),
    Topics(Vec<u8>),
}

const PROBER: usize = 100;

struct Sess {
    user: usize,
    broker: usize,
    peer: Peer,
    start: Instant,
    admitted: Instant,
    /// The mesh was whole when it was admitted.
    mesh_ok: bool,
    /// When something happened that ends it (own logout, crash, poison).
    ended: Option<Instant>,
    /// Subscriptions over time.
    subs: Vec<(Instant, BTreeSet<u8>)>,
    /// It must stay open (it was seen to be its key's survivor).
    superseded: Option<Instant>,
}

struct Sent {
    id: u64,
    sess: usize,
    at: Instant,
    frame: Vec<u8>,
    dest: Dest,
    mesh_since: Option<Instant>,
    /// The sender's own subscriptions as of this message.
    own: BTreeSet<u8>,
}

struct Run<'a> {
    c: &'a Case,
    w: World,
    sess: Vec<Sess>,
    sent: Vec<Sent>,
    pending: Vec<tokio::task::JoinHandle<Option<(usize, usize, Peer, Instant, Instant, Vec<u8>)>>>,
    /// Times of changes to a key's sessions.
    key_events: HashMap<usize, Vec<Instant>>,
    fault_times: Vec<Instant>,
    mesh_since: Option<Instant>,
    next_id: u64,
    up: BTreeSet<usize>,
    broken: bool,
    heal_at: Option<Instant>,
    rec_moves: usize,
    probes: usize,
    crashes: usize,
    cuts: usize,
    dozed: HashMap<usize, Instant>,
    floods: usize,
}

/// The operations one by one.
fn flat<'a>(ops: &'a [Op], to: &mut Vec<&'a Op>) {
    for op in ops {
        match op {
            Op::Again { n, ops } => (0..*n).for_each(|_| flat(ops, to)),
            op => to.push(op),
        }
    }
}

fn layout(n: u8) -> Layout {
    match n % 5 {
        1 => Layout { segments: 3, plan: vec![1, 2, 0], ..Layout::default() },
        2 => Layout { segments: 2, plan: vec![1, 0], double_far: true, ..Layout::default() },
        3 => Layout { extra_data: 1, extra_ptrs: 1, ..Layout::default() },
        4 => Layout { gap: 2, null_empty: true, ..Layout::default() },
        _ => Layout::default(),
    }
}

fn valid(t: &[u8]) -> BTreeSet<u8> {
    t.iter().copied().filter(|t| good(*t)).collect()
}

/// Time for everything in flight to arrive.
const AFTER: Duration = Duration::from_secs(8);
/// Time after which a change is known everywhere without faults: a sync period and slack.
const BEFORE: Duration = Duration::from_secs(12);
const SETTLE_MS: u64 = 24_000;

impl Run<'_> {
    fn hear(&self) -> Duration {
        Duration::from_millis(1500 + 10 * self.c.lat)
    }

    fn event(&mut self, user: usize) {
        self.key_events.entry(user).or_default().push(Instant::now());
    }

    async fn start(&mut self) -> CaseRes {
        let mut order: Vec<(usize, u64)> = self.c.stagger.clone();
        for b in 0..self.c.brokers {
            if !order.iter().any(|(i, _)| *i == b) {
                order.push((b, 0));
            }
        }
        for (b, pause) in order {
            if b >= self.c.brokers || self.up.contains(&b) {
                continue;
            }
            ms(pause).await;
            self.w.start(b, self.c.pool).await?;
            self.up.insert(b);
        }
        self.settle().await?;
        if !self.c.lonely {
            for b in 0..self.c.brokers {
                self.login(PROBER + b, b, vec![], true).await?;
            }
        }
        Ok(())
    }

    async fn login(&mut self, user: usize, b: usize, topics: Vec<u8>, wait: bool) -> CaseRes {
        if !self.up.contains(&b) {
            return Ok(());
        }
        let start = Instant::now();
        self.event(user);
        self.rec_moves += 1;
        let t = topics.clone();
        let h = tokio::spawn(async move {
            let p = login(b, user, &t).await.ok()?;
            Some((user, b, p, start, Instant::now(), t))
        });
        self.pending.push(h);
        if wait {
            self.collect(true).await?;
        }
        Ok(())
    }

    /// Takes in the finished logins.
    async fn collect(&mut self, all: bool) -> CaseRes {
        let mut rest = vec![];
        for h in std::mem::take(&mut self.pending) {
            if !all && !h.is_finished() {
                rest.push(h);
                continue;
            }
            if let Some((user, broker, peer, start, admitted, topics)) =
                h.await.map_err(|e| format!("login task: {e}"))?
            {
                self.key_events.entry(user).or_default().push(admitted);
                let crashed = !self.up.contains(&broker) || !net::with(|n| n.listening(&pub_ep(broker)));
                self.sess.push(Sess {
                    user,
                    broker,
                    ended: (crashed || !peer.link.held_by_acceptor()).then_some(admitted),
                    peer,
                    start,
                    admitted,
                    mesh_ok: self.mesh_since.is_some(),
                    subs: vec![(admitted, valid(&topics))],
                    superseded: None,
                });
            }
        }
        self.pending = rest;
        self.sess.sort_by_key(|s| s.admitted);
        Ok(())
    }

    /// Index of the user's newest session that nothing ended.
    fn newest(&self, user: usize) -> Option<usize> {
        (0..self.sess.len())
            .rev()
            .find(|i| self.sess[*i].user == user && self.sess[*i].ended.is_none() && self.sess[*i].superseded.is_none())
    }

    async fn settle(&mut self) -> CaseRes {
        self.collect(true).await?;
        let ids: Vec<usize> = self.up.iter().copied().collect();
        if !meshed(&ids, 60_000).await {
            let mut missing = vec![];
            for a in &ids {
                for b in &ids {
                    if a < b && live_links(*a, *b) == 0 {
                        missing.push((*a, *b));
                    }
                }
            }
            // If the generated history keeps a partition up there is nothing to wait for.
            let blocked = net::with(|n| missing.iter().all(|(a, b)| n.blocked(*a, *b).is_some()));
            if !blocked {
                return Err(format!("brokers {missing:?} are registered and reachable but were not linked within 60 s"));
            }
        } else if self.mesh_since.is_none() && net::with(|n| n.blocked.is_empty()) {
            self.mesh_since = Some(Instant::now());
        }
        ms(SETTLE_MS).await;
        if let Some(d) = self.w.dead() {
            return Err(d);
        }
        if self.mesh_since.is_some() {
            self.judge_sessions()?;
        }
        Ok(())
    }

    /// Which sessions must be open and which closed, now that everything has settled.
    fn judge_sessions(&mut self) -> CaseRes {
        let users: BTreeSet<usize> = self.sess.iter().map(|s| s.user).collect();
        for u in users {
            let idx: Vec<usize> = (0..self.sess.len()).filter(|i| self.sess[*i].user == u).collect();
            // Logins that may have happened before the brokers heard of each other form the last group.
            let candidates: Vec<usize> = idx.iter().copied().filter(|i| self.sess[*i].superseded.is_none()).collect();
            let Some(last) = candidates.last().copied() else { continue };
            let mut group = vec![last];
            let mut lower = self.sess[last].start;
            for i in candidates.iter().rev().skip(1) {
                let s = &self.sess[*i];
                if s.admitted + self.hear() > lower || !s.mesh_ok || !self.sess[last].mesh_ok {
                    group.push(*i);
                    lower = lower.min(s.start);
                } else {
                    break;
                }
            }
            let open: Vec<usize> = idx
                .iter()
                .copied()
                .filter(|i| !self.sess[*i].peer.is_closed() && self.sess[*i].ended.is_none())
                .collect();
            for i in &open {
                if !group.contains(i) {
                    return Err(format!(
                        "key of user {u}: the session admitted at broker {} is still open although the key was admitted again (at broker {})",
                        self.sess[*i].broker, self.sess[last].broker
                    ));
                }
            }
            if open.len() > 1 {
                return Err(format!(
                    "key of user {u}: {} sessions are open at the same time (brokers {:?})",
                    open.len(),
                    open.iter().map(|i| self.sess[*i].broker).collect::<Vec<_>>()
                ));
            }
            // The newest must have won if the others were over before it began - unless it began at a broker that
            // was cut off and hears later of an older one elsewhere.
            let l = &self.sess[last];
            let before = idx.iter().rev().find(|i| **i != last).map(|i| self.sess[*i].broker);
            let any_ended = if l.ended.is_none()
                && (l.mesh_ok || before.is_none_or(|b| b == l.broker))
                && group.iter().all(|i| *i == last || self.sess[*i].ended.is_some_and(|e| e + self.hear() < l.start))
            {
                false
            } else {
                group.iter().any(|i| self.sess[*i].ended.is_some())
            };
            if open.is_empty() && !any_ended {
                return Err(format!(
                    "key of user {u}: no session is left although nothing ended the newest (broker {}, closed at {:?} after its admission)",
                    self.sess[last].broker,
                    self.sess[last].peer.closed.lock().unwrap().map(|c| c - self.sess[last].admitted)
                ));
            }
            if open.is_empty() && group.len() == 1 {
                // the newest one was ended by the history
            }
            for i in idx {
                if !open.contains(&i) && self.sess[i].superseded.is_none() {
                    self.sess[i].superseded = Some(Instant::now());
                }
                if self.sess[i].ended.is_some() && !open.contains(&i) {
                    continue;
                }
            }
            // What an ended session's broker still holds open is judged by its link.
            for s in self.sess.iter().filter(|s| s.user == u) {
                if s.ended.is_some() && s.peer.link.held_by_acceptor() && !s.peer.is_closed() {
                    return Err(format!("key of user {u}: an ended session at broker {} is still held open", s.broker));
                }
            }
        }
        Ok(())
    }

    fn push(&mut self, sess: usize, dest: Dest, len: usize, lay: u8, bare: bool) {
        let id = self.next_id;
        self.next_id += 1;
        let mut body = if bare { vec![0; len % 3] } else { id.to_be_bytes().to_vec() };
        if !bare {
            body.extend((0..len).map(|i| (i as u64 ^ id) as u8));
        }
        let msg = match &dest {
            Dest::User(u) => Msg::Direct { to: user_key(*u), body },
            Dest::Nobody(n) => Msg::Direct { to: vec![0x50 ^ n; 1 + (*n as usize % 12)], body },
            Dest::Topics(t) => Msg::Broadcast { topics: t.clone(), body },
        };
        let frame = wire::encode_as(&msg, &layout(lay));
        self.sess[sess].peer.frame(&frame);
        self.sent.push(Sent {
            id,
            sess,
            at: Instant::now(),
            frame,
            dest,
            mesh_since: self.mesh_since,
            own: self.sess[sess].subs.last().map(|x| x.1.clone()).unwrap_or_default(),
        });
    }

    fn fault(&mut self) {
        self.fault_times.push(Instant::now());
        self.mesh_since = None;
        self.broken = true;
    }

    async fn op(&mut self, op: &Op) -> CaseRes {
        let nb = self.c.brokers;
        let nu = self.c.users;
        match op {
            Op::Login { u, b, topics, wait } => self.login(u % nu, b % nb, topics.clone(), *wait).await?,
            Op::Logout { u, nth, how } => {
                self.collect(false).await?;
                let u = u % nu;
                let mine: Vec<usize> = (0..self.sess.len()).rev().filter(|i| self.sess[*i].user == u).collect();
                if let Some(i) = mine.get(nth % mine.len().max(1)) {
                    let i = *i;
                    // An abrupt end destroys what is in flight: let the admission arrive first.
                    let arrived = self.sess[i].admitted + Duration::from_millis(3 * self.c.lat + 5);
                    if *how != How::Finish && Instant::now() < arrived {
                        tokio::time::sleep_until(arrived).await;
                    }
                    if self.sess[i].ended.is_none() {
                        self.sess[i].ended = Some(Instant::now());
                    }
                    match how {
                        How::Finish => self.sess[i].peer.finish(),
                        How::Kill => self.sess[i].peer.kill(),
                        How::Reset => self.sess[i].peer.reset(),
                    }
                    self.event(u);
                }
            }
            Op::Sub { u, topics } | Op::Unsub { u, topics } => {
                self.collect(false).await?;
                if let Some(i) = self.newest(u % nu) {
                    let on = matches!(op, Op::Sub { .. });
                    let s = &mut self.sess[i];
                    let v = valid(topics);
                    if v.is_empty() {
                        return Ok(());
                    }
                    s.peer.send(&if on { Msg::Subscribe(topics.clone()) } else { Msg::Unsubscribe(topics.clone()) });
                    let mut set = s.subs.last().unwrap().1.clone();
                    if on {
                        set.extend(v);
                    } else {
                        set.retain(|t| !v.contains(t));
                    }
                    s.subs.push((Instant::now(), set));
                }
            }
            Op::Poison { u, what } => {
                self.collect(false).await?;
                let u = u % nu;
                if let Some(i) = self.newest(u) {
                    let p = &self.sess[i].peer;
                    match what % 9 {
                        0 => p.send(&Msg::Subscribe(vec![9, 200])),
                        1 => p.send(&Msg::Unsubscribe(vec![2])),
                        2 => p.send(&Msg::Broadcast { topics: vec![99], body: vec![1; 30] }),
                        3 => p.send(&Msg::UserSync(vec![1, 2, 3])),
                        4 => p.send(&Msg::TopicSync(vec![0; 64])),
                        5 => p.frame(&[0xff; 40]),
                        6 => p.send(&Msg::AuthPermit { permit: 12 }),
                        7 => p.send(&Msg::Subscribe(vec![])),
                        _ => p.raw(vec![0xff, 0xff, 0xff, 0xff, 1, 2, 3]),
                    }
                    self.sess[i].ended = Some(Instant::now());
                    self.event(u);
                }
            }
            Op::Burst(sends) => {
                self.collect(false).await?;
                for s in sends {
                    if let Some(i) = self.newest(s.u % nu) {
                        let dest = match &s.to {
                            Dest::User(u) => Dest::User(u % nu),
                            Dest::Topics(t) if valid(t).is_empty() => continue,
                            d => d.clone(),
                        };
                        self.push(i, dest, s.len, s.layout, s.bare);
                    }
                }
            }
            Op::Flood { send, n } => {
                self.collect(false).await?;
                if let Some(i) = self.newest(send.u % nu) {
                    let dest = match &send.to {
                        Dest::User(u) => Dest::User(u % nu),
                        Dest::Topics(t) if valid(t).is_empty() => return Ok(()),
                        d => d.clone(),
                    };
                    self.floods += 1;
                    for _ in 0..*n {
                        self.push(i, dest.clone(), send.len, send.layout, send.bare);
                    }
                }
            }
            Op::Doze { u, ms: n } => {
                self.collect(false).await?;
                if let Some(i) = self.newest(u % nu) {
                    // Awake in between, or it would pass for a stalled one.
                    let now = Instant::now();
                    if self.dozed.get(&i).is_none_or(|t| *t < now) {
                        let n = (*n).min(3_500);
                        self.dozed.insert(i, now + Duration::from_millis(n + 6_000));
                        self.sess[i].peer.doze(n);
                    }
                }
            }
            Op::LoginAll { b, step, topics, some } => {
                for u in 0..nu {
                    if u % (some + 1) == 0 {
                        self.login(u, (b + u * step) % nb, topics.clone(), false).await?;
                    }
                }
                self.collect(true).await?;
            }
            Op::Again { .. } => {}
            Op::Pause(n) => ms(*n).await,
            Op::Settle => self.settle().await?,
            Op::Probe => {
                self.collect(true).await?;
                let keys: BTreeSet<usize> = self.sess.iter().map(|s| s.user).collect();
                if self.c.lonely {
                    for b in self.up.clone() {
                        self.login(PROBER + b, b, vec![], true).await?;
                    }
                    ms(3 * self.c.lat + 1_100).await;
                }
                for b in 0..nb {
                    if let Some(i) = self.newest(PROBER + b) {
                        for k in &keys {
                            self.push(i, Dest::User(*k), 16, 0, false);
                        }
                        let mut all: BTreeSet<u8> = self.sess.iter().flat_map(|s| s.subs.iter().flat_map(|s| s.1.clone())).collect();
                        all.extend([0, 1]);
                        for t in all.into_iter().map(|t| vec![t]).chain([vec![1, 0]]) {
                            self.push(i, Dest::Topics(t), 16, 0, false);
                        }
                        self.probes += 1;
                    }
                }
                ms(9000).await;
                if self.c.lonely {
                    for b in 0..nb {
                        if let Some(i) = self.newest(PROBER + b) {
                            self.sess[i].ended = Some(Instant::now());
                            self.sess[i].peer.finish();
                            self.event(PROBER + b);
                        }
                    }
                    ms(13_000).await;
                }
            }
            Op::CutLinks { a, b } | Op::HalfOpen { a, b } => {
                let half = matches!(op, Op::HalfOpen { .. });
                let (a, b) = (a % nb, b % nb);
                if a != b {
                    self.fault();
                    self.cuts += 1;
                    net::with(|n| n.links_between(a, b))
                        .iter()
                        .for_each(if half { net::Link::half_open } else { net::Link::sever });
                }
            }
            Op::Partition { a, b, hang, hold } => {
                let (a, b) = (a % nb, b % nb);
                if a != b {
                    self.fault();
                    self.cuts += 1;
                    net::with(|n| {
                        n.blocked
                            .insert((a.min(b), a.max(b)), if *hang { Block::Hang } else { Block::Refuse });
                        for l in n.links_between(a, b) {
                            if *hold {
                                l.hold(true);
                            } else {
                                l.sever();
                            }
                        }
                    });
                }
            }
            Op::Heal => {
                net::with(|n| {
                    n.blocked.clear();
                    for l in n.links.clone() {
                        l.hold(false);
                    }
                });
                for b in 0..nb {
                    if !self.up.contains(&b) {
                        self.restart(b).await?;
                    }
                }
            }
            Op::Crash { b } => {
                let b = b % nb;
                if self.up.remove(&b) {
                    self.collect(false).await?;
                    self.fault();
                    self.crashes += 1;
                    self.w.crash(b).await;
                    let now = Instant::now();
                    let mut users = vec![];
                    for s in self.sess.iter_mut().filter(|s| s.broker == b) {
                        if s.ended.is_none() {
                            s.ended = Some(now);
                        }
                        users.push(s.user);
                    }
                    for u in users {
                        self.event(u);
                    }
                    // What was on its way when the broker died is over well before a restart.
                    ms(11_000).await;
                }
            }
            Op::Restart { b } => self.restart(b % nb).await?,
        }
        Ok(())
    }

    async fn restart(&mut self, b: usize) -> CaseRes {
        if self.up.contains(&b) {
            return Ok(());
        }
        self.fault();
        // The broker's registration before the crash may still be there: that is part of the scenario.
        self.w.start(b, self.c.pool).await?;
        self.up.insert(b);
        if !self.c.lonely {
            self.login(PROBER + b, b, vec![], true).await?;
        }
        Ok(())
    }

    /// No change of this key's sessions between the two times.
    fn quiet(&self, user: usize, from: Instant, to: Instant) -> bool {
        self.key_events
            .get(&user)
            .is_none_or(|e| e.iter().all(|t| *t < from || *t > to))
    }

    fn no_fault(&self, from: Instant, to: Instant) -> bool {
        self.fault_times.iter().all(|t| *t < from || *t > to)
    }

    /// The one session that the key certainly has during the whole interval.
    fn holder(&self, user: usize, from: Instant, to: Instant) -> Option<usize> {
        if !self.quiet(user, from, to) {
            return None;
        }
        let live: Vec<usize> = (0..self.sess.len())
            .filter(|i| {
                let s = &self.sess[*i];
                s.user == user
                    && s.admitted < from
                    && s.ended.is_none_or(|e| e > to)
                    && s.superseded.is_none_or(|e| e > to)
                    && s.peer.closed.lock().unwrap().is_none_or(|c| c > to)
            })
            .collect();
        (live.len() == 1).then(|| live[0])
    }

    fn possibly_subscribed(&self, s: &Sess, topics: &BTreeSet<u8>, from: Instant, to: Instant) -> bool {
        let mut any = false;
        for (i, (t, set)) in s.subs.iter().enumerate() {
            let until = s.subs.get(i + 1).map(|n| n.0);
            if *t <= to && until.is_none_or(|u| u >= from) && !set.is_disjoint(topics) {
                any = true;
            }
        }
        any
    }

    fn certainly_subscribed(&self, s: &Sess, topics: &BTreeSet<u8>, from: Instant, to: Instant) -> bool {
        topics.iter().any(|tp| {
            let mut all = s.subs[0].0 <= from;
            for (i, (t, set)) in s.subs.iter().enumerate() {
                let until = s.subs.get(i + 1).map(|n| n.0);
                if *t <= to && until.is_none_or(|u| u >= from) && !set.contains(tp) {
                    all = false;
                }
            }
            all
        })
    }

    fn judge(&mut self, rec: &mut Rec) -> CaseRes {
        let (group, copies) = self.copies();
        let by_frame: HashMap<&[u8], usize> = copies.keys().map(|g| (self.sent[*g].frame.as_slice(), *g)).collect();
        let slack = Duration::from_millis(1000 + 10 * self.c.lat);
        // got[first copy][session] = times
        let mut got: Vec<BTreeMap<usize, Vec<Instant>>> = vec![BTreeMap::new(); self.sent.len()];
        for (si, s) in self.sess.iter().enumerate() {
            let skip = s.peer.skipped();
            let mut last: HashMap<usize, u64> = HashMap::new();
            let mut taken: HashMap<usize, BTreeSet<usize>> = HashMap::new();
            for r in s.peer.rcvs().into_iter().skip(skip) {
                let Some(g) = by_frame.get(r.bytes.as_slice()).copied() else {
                    return Err(format!(
                        "user {} (broker {}) received bytes that nobody sent in this form: {:?} ({:02x?})",
                        s.user,
                        s.broker,
                        wire::decode(&r.bytes),
                        &r.bytes[..r.bytes.len().min(48)]
                    ));
                };
                // Which of several equal messages this is.
                let all = &copies[&g];
                let used = taken.entry(g).or_default();
                let free = || all.iter().copied().filter(|i| !used.contains(i));
                let Some(mi) = free().find(|i| last.get(&self.sent[*i].sess).is_none_or(|l| *l <= self.sent[*i].id)).or_else(|| free().next())
                else {
                    // One too many: judged below.
                    got[g].entry(si).or_default().push(r.at);
                    continue;
                };
                let sure = all.iter().all(|i| self.sent[*i].sess == self.sent[g].sess);
                if all.len() > 1 {
                    used.insert(mi);
                }
                let m = &self.sent[mi];
                if let Some(prev) = last.get(&m.sess) {
                    if sure && *prev > m.id {
                        return Err(format!(
                            "user {} received message {} of user {} after the later message {}",
                            s.user, m.id, self.sess[m.sess].user, prev
                        ));
                    }
                }
                if sure {
                    let e = last.entry(m.sess).or_default();
                    *e = (*e).max(m.id);
                }
                got[g].entry(si).or_default().push(r.at);
                let m = &self.sent[g];
                match &m.dest {
                    Dest::User(u) if *u != s.user => {
                        return Err(format!(
                            "a direct message for user {u} was delivered to user {} (broker {})",
                            s.user, s.broker
                        ))
                    }
                    Dest::Nobody(_) => {
                        return Err(format!("a direct message for an unknown key was delivered to user {}", s.user))
                    }
                    Dest::Topics(t)
                        if !self.possibly_subscribed(s, &valid(t), m.at.checked_sub(slack).unwrap_or(m.at), r.at) =>
                    {
                        return Err(format!(
                            "user {} (broker {}) received a broadcast for topics {t:?} but was not subscribed to any of them ({:?})",
                            s.user,
                            s.broker,
                            s.subs.last()
                        ))
                    }
                    _ => {}
                }
            }
        }
        let mut must = 0;
        let mut cross = 0;
        let mut none = 0;
        let mut multi = 0;
        // How many of the copies of a message a session must have received.
        let mut need: HashMap<(usize, usize), usize> = HashMap::new();
        for (mi, m) in self.sent.iter().enumerate() {
            let mi = group[mi];
            let size = copies[&mi].len();
            let total: usize = got[mi].values().map(Vec::len).sum();
            let from = m.at.checked_sub(BEFORE).unwrap_or(m.at);
            let to = m.at + AFTER;
            let sender_user = self.sess[m.sess].user;
            let sender_ok = self.holder(sender_user, m.at.checked_sub(slack).unwrap_or(m.at), to) == Some(m.sess);
            let whole = m.mesh_since.is_some_and(|t| t + Duration::from_secs(21) <= m.at) && self.no_fault(m.at, to);
            match &m.dest {
                Dest::User(u) => {
                    if total > size {
                        return Err(format!("a direct message to user {u}, sent {size} times, was delivered {total} times"));
                    }
                    if sender_ok && whole {
                        if let Some(h) = self.holder(*u, from, to) {
                            must += 1;
                            if self.sess[h].broker != self.sess[m.sess].broker {
                                cross += 1;
                            }
                            let need = need.entry((mi, h)).or_default();
                            *need += 1;
                            if got[mi].get(&h).map_or(0, Vec::len) < *need {
                                return Err(format!(
                                    "a direct message from user {sender_user} (broker {}) never reached user {u}'s live session (broker {}), sent {:?} before the end",
                                    self.sess[m.sess].broker, self.sess[h].broker, Instant::now() - m.at
                                ));
                            }
                        } else {
                            none += 1;
                        }
                    }
                }
                Dest::Nobody(_) => none += 1,
                Dest::Topics(t) => {
                    let t = valid(t);
                    let mut reached = 0;
                    for (si, s) in self.sess.iter().enumerate() {
                        let n = got[mi].get(&si).map_or(0, Vec::len);
                        if n > size {
                            return Err(format!("user {} received a broadcast for {t:?}, sent {size} times, {n} times", s.user));
                        }
                        if !(sender_ok && whole) || self.holder(s.user, from, to) != Some(si) {
                            continue;
                        }
                        let local = s.broker == self.sess[m.sess].broker;
                        let from = if local { m.at.checked_sub(slack).unwrap_or(m.at) } else { from };
                        // A session's own requests take effect in the order of its messages.
                        let subscribed = if si == m.sess {
                            if m.own.is_disjoint(&t) && n > 0 && size == 1 {
                                return Err(format!("user {} received its own broadcast for {t:?} but was not subscribed", s.user));
                            }
                            !m.own.is_disjoint(&t)
                        } else {
                            self.certainly_subscribed(s, &t, from, to)
                        };
                        if subscribed {
                            must += 1;
                            reached += 1;
                            if !local {
                                cross += 1;
                            }
                            let need = need.entry((mi, si)).or_default();
                            *need += 1;
                            if n < *need {
                                return Err(format!(
                                    "user {} (broker {}) is subscribed to {:?} but a broadcast for {t:?} from user {sender_user} (broker {}) never reached it",
                                    s.user,
                                    s.broker,
                                    s.subs.last().map(|s| &s.1),
                                    self.sess[m.sess].broker
                                ));
                            }
                        }
                    }
                    if reached > 1 {
                        multi += 1;
                    }
                }
            }
        }
        if self.c.tap {
            self.judge_links(slack, rec)?;
        }
        rec.tag_if(must > 0, "with obligations");
        rec.tag_if(need.values().any(|n| *n > 1), "equal messages");
        rec.tag_if(cross > 0, "across brokers");
        rec.tag_if(none > 0, "to nobody");
        rec.tag_if(multi > 0, "broadcast to several");
        rec.tag_if(self.crashes > 0, "crash");
        rec.tag_if(self.cuts > 0, "link failure");
        rec.tag_if(self.probes > 0, "probed");
        rec.tag_if(self.floods > 0, "flood");
        rec.tag_if(!self.dozed.is_empty(), "a recipient that did not read for a while");
        rec.tag_if(self.c.users > 10, "many users");
        rec.tag_if(self.sess.len() > 200, "many sessions");
        rec.tag_if(self.sess.iter().any(|s| s.superseded.is_some()), "superseded session");
        rec.nontrivial = must >= 3 && (!self.c.tap || self.c.brokers > 1);
        rec.note = format!(
            "{} sessions, {} messages, {must} deliveries required ({cross} across brokers), {} received",
            self.sess.len(),
            self.sent.len(),
            got.iter().map(|g| g.values().map(Vec::len).sum::<usize>()).sum::<usize>()
        );
        Ok(())
    }
}

impl Run<'_> {
    /// No session of this key has existed for a while, and the directory cannot be in doubt about that.
    fn absent(&self, user: usize, from: Instant, to: Instant) -> bool {
        if !self.fault_times.is_empty() || !self.quiet(user, from, to) {
            return false;
        }
        let mine: Vec<&Sess> = self.sess.iter().filter(|s| s.user == user).collect();
        // Its sessions came one well after the other.
        mine.iter().all(|s| s.ended.is_some_and(|e| e < from) && s.mesh_ok)
            && mine.windows(2).all(|w| w[0].ended.is_some_and(|e| e + BEFORE < w[1].start))
    }

    /// For each message the first one with the same bytes, and for each of these all such.
    fn copies(&self) -> (Vec<usize>, BTreeMap<usize, Vec<usize>>) {
        let mut first: HashMap<&[u8], usize> = HashMap::new();
        let (mut group, mut copies) = (vec![], BTreeMap::<usize, Vec<usize>>::new());
        for (i, s) in self.sent.iter().enumerate() {
            let g = *first.entry(s.frame.as_slice()).or_insert(i);
            group.push(g);
            copies.entry(g).or_default().push(i);
        }
        (group, copies)
    }

    /// What crossed the links between the brokers.
    fn judge_links(&self, slack: Duration, rec: &mut Rec) -> CaseRes {
        let (group, copies) = self.copies();
        let by_frame: HashMap<&[u8], usize> = copies.keys().map(|g| (self.sent[*g].frame.as_slice(), *g)).collect();
        // crossings[message][(from, to)]
        let mut crossed: Vec<BTreeMap<(usize, usize), usize>> = vec![BTreeMap::new(); self.sent.len()];
        for l in net::with(|n| n.links.clone()) {
            for (p, a, b) in [(&l.up, l.from, l.to), (&l.down, l.to, l.from)] {
                for (_, f) in net::tapped(p) {
                    if let Some(mi) = by_frame.get(f.as_slice()) {
                        *crossed[*mi].entry((a, b)).or_default() += 1;
                    } else if matches!(wire::decode(&f), Some(Msg::Direct { .. } | Msg::Broadcast { .. })) {
                        return Err(format!("broker {a} sent broker {b} a message that nobody sent in this form: {:?}", wire::decode(&f)));
                    }
                }
            }
        }
        let (mut kept, mut forwarded) = (0, 0);
        for (mi, m) in self.sent.iter().enumerate() {
            if group[mi] != mi {
                continue;
            }
            let c = &crossed[mi];
            let home = self.sess[m.sess].broker;
            let size = copies[&mi].len();
            let homes: BTreeSet<usize> = copies[&mi].iter().map(|i| self.sess[self.sent[*i].sess].broker).collect();
            let what = || match &m.dest {
                Dest::User(u) => format!("a direct message for user {u}"),
                Dest::Nobody(_) => "a direct message for an unknown key".to_string(),
                Dest::Topics(t) => format!("a broadcast for {t:?}"),
            };
            if let Some(((a, b), n)) = c.iter().find(|((a, _), n)| !homes.contains(a) || **n > size) {
                return Err(if homes.contains(a) {
                    format!("{} crossed from broker {a} to broker {b} {n} times", what())
                } else {
                    format!("{}, sent by a user of broker {home}, was passed on again by broker {a} to broker {b}", what())
                });
            }
            let from = m.at.checked_sub(BEFORE).unwrap_or(m.at);
            let to = m.at + AFTER;
            let whole = m.mesh_since.is_some_and(|t| t + Duration::from_secs(21) <= m.at) && self.no_fault(m.at, to);
            let sender_ok = self.holder(self.sess[m.sess].user, m.at.checked_sub(slack).unwrap_or(m.at), to) == Some(m.sess);
            forwarded += c.len();
            if size > 1 {
                continue;
            }
            match &m.dest {
                Dest::Nobody(_) if !c.is_empty() => return Err(format!("{} crossed the mesh: {c:?}", what())),
                Dest::User(_) if c.len() > 1 => return Err(format!("{} crossed the mesh more than once: {c:?}", what())),
                Dest::User(u) if whole && sender_ok => {
                    let want = if let Some(h) = self.holder(*u, from, to) {
                        Some(usize::from(self.sess[h].broker != home))
                    } else {
                        self.absent(*u, from, to).then_some(0)
                    };
                    match want {
                        Some(0) => {
                            kept += 1;
                            if !c.is_empty() {
                                return Err(format!(
                                    "{}, who is {}, crossed the mesh: {c:?}",
                                    what(),
                                    if self.holder(*u, from, to).is_some() { "on the same broker" } else { "gone" }
                                ));
                            }
                        }
                        _ => {}
                    }
                }
                Dest::Topics(t) if whole && sender_ok => {
                    let t = valid(t);
                    for b in (0..self.c.brokers).filter(|b| *b != home && self.up.contains(b)) {
                        // A change of subscription is told at the next sync; the one before it may still be on its way.
                        let early = from.checked_sub(Duration::from_secs(2)).unwrap_or(from);
                        let maybe = self.sess.iter().any(|s| {
                            s.broker == b
                                && s.admitted <= to
                                && s.ended.is_none_or(|e| e >= early)
                                && s.peer.closed.lock().unwrap().is_none_or(|c| c >= early)
                                && self.possibly_subscribed(s, &t, early, to)
                        });
                        if !maybe {
                            kept += 1;
                            if c.contains_key(&(home, b)) {
                                return Err(format!("{} crossed to broker {b}, which has no subscriber", what()));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        rec.tag_if(kept > 0, "needed nowhere else");
        rec.tag_if(forwarded > 0, "crossed the mesh");
        Ok(())
    }
}

pub fn run(c: &Case, rec: &mut Rec) -> CaseResult {
    let cfg = NetCfg { lat: c.lat, chunk: c.chunk, cap: c.cap, wbuf: 0 };
    let out = std::cell::RefCell::new(Rec::default());
    let r = run_sim(cfg, c.seed, async {
        let mut r = Run {
            c,
            w: World::default(),
            sess: vec![],
            sent: vec![],
            pending: vec![],
            key_events: HashMap::new(),
            fault_times: vec![],
            mesh_since: None,
            next_id: 1,
            up: BTreeSet::new(),
            broken: false,
            heal_at: None,
            rec_moves: 0,
            probes: 0,
            crashes: 0,
            cuts: 0,
            dozed: HashMap::new(),
            floods: 0,
        };
        let _ = (r.heal_at, r.broken);
        SHARED_PUB.set(c.shared);
        net::with(|n| n.tap = c.tap.then_some(c.brokers));
        r.start().await?;
        let mut ops = vec![];
        flat(&c.ops, &mut ops);
        for op in ops {
            r.op(op).await?;
        }
        // Let everything arrive, heal, and look once more.
        ms(9_000).await;
        r.settle().await?;
        r.judge(&mut out.borrow_mut())
    });
    *rec = out.into_inner();
    r
}

// --- generators ------------------------------------------------------------------------------------------

pub fn topics() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => proptest::collection::vec(0u8..2, 0..4),
        1 => proptest::collection::vec(prop_oneof![0u8..2, 0u8..6, any::<u8>()], 0..5),
        1 => proptest::collection::vec(proptest::sample::select(GOOD.to_vec()), 0..16),
    ]
    .boxed()
}
pub fn some_topics() -> BoxedStrategy<Vec<u8>> {
    (topics(), 0u8..2, any::<bool>())
        .prop_map(|(mut t, x, front)| {
            if front {
                t.insert(0, x)
            } else {
                t.push(x)
            }
            t
        })
        .boxed()
}
pub fn how() -> BoxedStrategy<How> {
    prop_oneof![Just(How::Finish), Just(How::Kill), Just(How::Reset)].boxed()
}
pub fn send(direct: u32, bcast: u32) -> BoxedStrategy<Send> {
    let dest = prop_oneof![
        direct * 8 => (0usize..6).prop_map(Dest::User),
        direct.min(1) => any::<u8>().prop_map(Dest::Nobody),
        bcast * 8 => some_topics().prop_map(Dest::Topics),
    ];
    (0usize..6, dest, prop_oneof![3 => 0usize..40, 2 => 40usize..2500, 1 => Just(0usize)], 0u8..5, proptest::bool::weighted(0.15))
        .prop_map(|(u, to, len, layout, bare)| Send { u, to, len, layout, bare })
        .boxed()
}

pub fn net_params() -> BoxedStrategy<(u64, usize, usize)> {
    (
        prop_oneof![1u64..6, 1u64..40],
        prop_oneof![Just(1usize), Just(3), 2usize..64, Just(1 << 16)],
        prop_oneof![Just(16 << 10), Just(64 << 10)],
    )
        .boxed()
}

pub fn case(brokers: std::ops::RangeInclusive<usize>, ops: BoxedStrategy<Vec<Op>>) -> BoxedStrategy<Case> {
    case_of(brokers, 2..=5, ops)
}
pub fn case_of(
    brokers: std::ops::RangeInclusive<usize>,
    users: std::ops::RangeInclusive<usize>,
    ops: BoxedStrategy<Vec<Op>>,
) -> BoxedStrategy<Case> {
    (
        brokers,
        users,
        net_params(),
        any::<u64>(),
        prop_oneof![4 => Just(None), 1 => (8usize << 10..64 << 10).prop_map(Some)],
        proptest::collection::vec((0usize..3, prop_oneof![Just(0u64), 0u64..3000, 0u64..15_000]), 0..3),
        (prop_oneof![5 => Just(0u8), 1 => Just(1), 3 => Just(2)], ops),
    )
        .prop_map(|(brokers, users, (lat, chunk, cap), seed, pool, stagger, (shared, ops))| Case {
            brokers,
            users,
            lat,
            chunk,
            cap,
            seed,
            pool,
            stagger,
            tap: false,
            shared: shared & 1 != 0,
            lonely: shared & 2 != 0,
            ops,
        })
        .boxed()
}

pub fn login_op(wait: BoxedStrategy<bool>) -> BoxedStrategy<Op> {
    (0usize..6, 0usize..3, topics(), wait)
        .prop_map(|(u, b, topics, wait)| Op::Login { u, b, topics, wait })
        .boxed()
}

/// Everybody logs in somewhere and the deployment settles.
pub fn opening() -> BoxedStrategy<Vec<Op>> {
    proptest::collection::vec((0usize..3, topics()), 2..7)
        .prop_map(|v| {
            let mut ops: Vec<Op> = v
                .into_iter()
                .enumerate()
                .map(|(u, (b, topics))| Op::Login { u, b, topics, wait: false })
                .collect();
            ops.push(Op::Settle);
            ops
        })
        .boxed()
}
