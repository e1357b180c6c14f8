//! C17 (stores), C19, C21: the two real discovery stores against one model, in histories that mix everything.
//! Embedded runs on a scratch SQLite file, Redis against the harness's own small server; the wall clock is the case's.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    future::Future,
    pin::pin,
    sync::Arc,
    task::Poll,
    time::Duration,
};

use cdn_proto::discovery::{embedded::Embedded, redis::Redis, BrokerIdentifier, DiscoveryClient};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::time::timeout;

use crate::{
    clock,
    engine::{fixed, part, CaseResult, Opts, Property, Rec},
    redis::{self, Trouble},
};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Focus {
    Permits,
    Whitelist,
    Registry,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    redis: bool,
    focus: Focus,
    brokers: usize,
    ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Heartbeat { b: usize, conns: u64, secs: u64 },
    Issue { b: usize, user: usize, secs: u64 },
    /// Uses a permit issued before (by index from the end), at its own broker or at another one, possibly several
    /// times at once.
    Use { back: usize, at: Option<usize>, copies: usize },
    /// Uses a value that was not issued: near an issued one, or a reserved or extreme one.
    Bogus { b: usize, back: usize, kind: u8 },
    Advance { ms: u64 },
    Set { list: Vec<usize> },
    SetMany { from: usize, count: usize },
    /// Several updates and checks at once.
    Race { lists: Vec<Vec<usize>>, checks: usize },
    /// An update is abandoned after so many polls.
    Abandon { list: Vec<usize>, polls: usize },
    /// An update during which the store's connection breaks or a command fails (Redis).
    Broken { list: Vec<usize>, nth: usize, how: u8 },
    Check,
    Least { tick: u64 },
    Others { b: Option<usize> },
    Reopen,
}

/// Keys of all shapes.
pub fn key(i: usize) -> Vec<u8> {
    match i {
        0 => vec![],
        1 => vec![0],
        2 => vec![0, 0],
        3 => b"whitelist".to_vec(),
        4 => b"h:1/h:2/permits".to_vec(),
        5 => vec![0xff; 1024],
        6 => b"a".to_vec(),
        7 => b"A".to_vec(),
        8 => b"a'\"; --".to_vec(),
        9 => b"1".to_vec(),
        i => {
            let mut k = vec![0x5a; 32];
            k[..8].copy_from_slice(&(i as u64).to_be_bytes());
            k
        }
    }
}
const KEYS: usize = 14;

pub fn broker(i: usize) -> BrokerIdentifier {
    // One is the end of another, one its beginning, and one would match it as a pattern.
    let (public, private) = [("h:1", "h:2"), ("ah:1", "h:2"), ("h:1", "h:22"), ("_:%", "h:2")][i % 4];
    BrokerIdentifier {
        public_advertise_endpoint: public.into(),
        private_advertise_endpoint: private.into(),
    }
}

fn now_ms() -> u128 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap_or_default()
        .as_millis()
}

struct Permit {
    value: u64,
    b: usize,
    user: Vec<u8>,
    expiry: u128,
    used: bool,
}

/// Whether a record that lasts until then is there: `None` at that very moment.
fn live(expiry: u128, now: u128) -> Option<bool> {
    // (The databases round to milliseconds or floating point seconds.)
    if now + 2 < expiry {
        Some(true)
    } else if now > expiry + 2 {
        Some(false)
    } else {
        None
    }
}

#[derive(Default)]
struct Stats {
    uses: usize,
    refused: usize,
    expired: usize,
    concurrent: usize,
    sets: usize,
    repeated: usize,
    empty: usize,
    raced: usize,
    broken: usize,
    least: usize,
    least_among: usize,
    permit_decided: usize,
    others: usize,
    reopened: usize,
}

struct S<'a, D> {
    c: &'a Case,
    path: String,
    clients: Vec<D>,
    outside: D,
    hb: BTreeMap<usize, (u64, u128)>,
    permits: Vec<Permit>,
    /// The states that the whitelist may be in.
    wl: Vec<Option<BTreeSet<Vec<u8>>>>,
    db: Option<redis::Shared>,
    st: Stats,
}

type R<T = ()> = Result<T, String>;

async fn limit<T>(what: &str, f: impl Future<Output = T>) -> R<T> {
    timeout(Duration::from_secs(40), f).await.map_err(|_| format!("{what} hangs"))
}

impl<D: DiscoveryClient> S<'_, D> {
    fn on(&self, f: Focus) -> bool {
        self.c.focus == f
    }
    fn pub_keys(list: &[usize]) -> Vec<Arc<Vec<u8>>> {
        list.iter().map(|k| Arc::new(key(*k))).collect()
    }
    fn set_of(list: &[usize]) -> Option<BTreeSet<Vec<u8>>> {
        Some(list.iter().map(|k| key(*k)).collect())
    }

    async fn use_permit(&mut self, value: u64, b: usize, copies: usize, what: &str) -> R {
        let now = now_ms();
        let issued = self.permits.iter().position(|p| p.value == value && p.b == b && !p.used);
        let mut clones: Vec<D> = (0..copies).map(|_| self.clients[b].clone()).collect();
        let id = broker(b);
        let futures: Vec<_> = clones.iter_mut().map(|c| c.validate_permit(&id, value)).collect();
        let mut results = vec![];
        let all = async {
            let mut pending: Vec<_> = futures.into_iter().map(Some).collect();
            std::future::poll_fn(|cx| {
                for f in &mut pending {
                    if let Some(x) = f {
                        if let Poll::Ready(r) = x.as_mut().poll(cx) {
                            results.push(r);
                            *f = None;
                        }
                    }
                }
                if pending.iter().all(Option::is_none) {
                    Poll::Ready(())
                } else {
                    Poll::Pending
                }
            })
            .await;
        };
        limit("validate_permit", all).await?;
        let good: Vec<Vec<u8>> = results.iter().filter_map(|r| r.as_ref().ok().cloned().flatten()).collect();
        let errors = results.iter().filter(|r| r.is_err()).count();
        let valid = issued.map_or(Some(false), |i| live(self.permits[i].expiry, now));
        self.st.uses += 1;
        self.st.concurrent += usize::from(copies > 1);
        if valid == Some(false) {
            self.st.refused += 1;
            if issued.is_some() {
                self.st.expired += 1;
            }
        }
        if let Some(i) = issued {
            self.permits[i].used = true;
        }
        if self.on(Focus::Permits) {
            match valid {
                Some(false) if !good.is_empty() => {
                    return Err(format!("{what}: permit {value} was accepted at {id} for {:?}", good[0]));
                }
                Some(true) if good.len() > 1 => {
                    return Err(format!("{what}: of {copies} uses of permit {value} at {id} at once {} were accepted", good.len()));
                }
                Some(true) if good.is_empty() && errors == 0 => {
                    return Err(format!("{what}: unused, unexpired permit {value} was refused at {id}"));
                }
                Some(true) if good.is_empty() => {
                    return Err(format!("{what}: using a valid permit failed: {:?}", results));
                }
                _ => {}
            }
            if let (Some(i), Some(k)) = (issued, good.first()) {
                if *k != self.permits[i].user {
                    return Err(format!("{what}: permit {value} was issued to {:?} but yields {k:?}", self.permits[i].user));
                }
            }
        }
        Ok(())
    }

    /// All answers of the whitelist; narrows down the states it may be in.
    async fn check_whitelist(&mut self, what: &str) -> R {
        let mut answers = BTreeMap::new();
        for i in 0..KEYS {
            let k = key(i);
            let r = limit("check_whitelist", self.outside.check_whitelist(&Arc::new(k.clone()))).await?;
            match r {
                Ok(a) => {
                    answers.insert(k, a);
                }
                Err(e) if self.on(Focus::Whitelist) => return Err(format!("{what}: checking the whitelist failed: {e}")),
                Err(_) => return Ok(()),
            }
        }
        let matching: Vec<_> = self
            .wl
            .iter()
            .filter(|w| answers.iter().all(|(k, a)| *a == w.as_ref().map_or(true, |w| w.contains(k))))
            .cloned()
            .collect();
        if matching.is_empty() {
            if self.on(Focus::Whitelist) {
                let allowed: Vec<_> = (0..KEYS).filter(|i| answers[&key(*i)]).collect();
                return Err(format!(
                    "{what}: the whitelist allows keys {allowed:?}, but it should allow {}",
                    self.wl
                        .iter()
                        .map(|w| match w {
                            None => "everyone".to_string(),
                            Some(w) => format!("{:?}", (0..KEYS).filter(|i| w.contains(&key(*i))).collect::<Vec<_>>()),
                        })
                        .collect::<Vec<_>>()
                        .join(" or ")
                ));
            }
        } else {
            self.wl = matching;
        }
        Ok(())
    }

    fn live_brokers(&self, slack: u128) -> (BTreeSet<usize>, BTreeSet<usize>) {
        // (certainly live, possibly live) at some time from now on for so many milliseconds
        let now = now_ms();
        let mut sure = BTreeSet::new();
        let mut maybe = BTreeSet::new();
        for (b, (_, e)) in &self.hb {
            if live(*e, now) != Some(false) {
                maybe.insert(*b);
            }
            if live(*e, now + slack) == Some(true) {
                sure.insert(*b);
            }
        }
        (sure, maybe)
    }

    async fn least(&mut self, tick: u64) -> R {
        let tick = if self.db.is_some() { tick } else { 0 };
        if let Some(d) = &self.db {
            d.borrow_mut().tick = tick;
        }
        let before = now_ms();
        let (_, maybe) = self.live_brokers(0);
        let r = limit("get_with_least_connections", self.outside.get_with_least_connections()).await?;
        let after = now_ms();
        if let Some(d) = &self.db {
            d.borrow_mut().tick = 0;
        }
        // Between these two moments it looked.
        let sure: BTreeSet<usize> = maybe.iter().copied().filter(|b| live(self.hb[b].1, after) == Some(true)).collect();
        let load = |b: usize| {
            let (mut lo, mut hi) = (self.hb[&b].0, self.hb[&b].0);
            for p in self.permits.iter().filter(|p| p.b == b && !p.used) {
                if live(p.expiry, before) != Some(false) {
                    hi += 1;
                }
                if live(p.expiry, after) == Some(true) {
                    lo += 1;
                }
            }
            (lo, hi)
        };
        self.st.least += 1;
        if sure.len() > 1 {
            self.st.least_among += 1;
            let by_conns = sure.iter().map(|b| self.hb[b].0).min();
            let least = sure.iter().map(|b| load(*b).1).min();
            let a: BTreeSet<_> = sure.iter().filter(|b| Some(self.hb[b].0) == by_conns).collect();
            let z: BTreeSet<_> = sure.iter().filter(|b| Some(load(**b).1) == least).collect();
            self.st.permit_decided += usize::from(a.intersection(&z).count() == 0);
        }
        if !self.on(Focus::Registry) {
            return Ok(());
        }
        match r {
            Err(e) if !sure.is_empty() => Err(format!(
                "no broker could be picked ({e}), although {:?} are live",
                sure.iter().map(|b| broker(*b).to_string()).collect::<Vec<_>>()
            )),
            Err(_) => Ok(()),
            Ok(id) => {
                let Some(b) = maybe.iter().copied().find(|b| broker(*b) == id) else {
                    return Err(format!("{id} was picked, which is not registered (any more)"));
                };
                // Every other broker has at least as many.
                if let Some(better) = sure.iter().copied().find(|o| load(*o).1 < load(b).0) {
                    return Err(format!(
                        "{id} was picked, which has {:?} connections and permits, but {} has only {:?}",
                        load(b),
                        broker(better),
                        load(better)
                    ));
                }
                Ok(())
            }
        }
    }

    async fn others(&mut self, b: Option<usize>) -> R {
        let (sure, maybe) = self.live_brokers(0);
        let c = b.map_or(&mut self.outside, |b| &mut self.clients[b]);
        let r = limit("get_other_brokers", c.get_other_brokers()).await?;
        self.st.others += 1;
        if !self.on(Focus::Registry) {
            return Ok(());
        }
        let r = r.map_err(|e| format!("get_other_brokers failed: {e}"))?;
        let who = b.map_or("an outsider".to_string(), |b| broker(b).to_string());
        for id in &r {
            if !maybe.iter().any(|m| broker(*m) == *id) {
                return Err(format!("{who} is told of {id}, which is not registered (any more)"));
            }
            if b.is_some_and(|b| broker(b) == *id) {
                return Err(format!("{who} is told of itself"));
            }
        }
        for m in sure {
            if Some(m) != b && !r.contains(&broker(m)) {
                return Err(format!("{who} is not told of {}, which is live", broker(m)));
            }
        }
        Ok(())
    }

    async fn op(&mut self, op: &Op) -> R {
        let nb = self.c.brokers;
        match op {
            Op::Heartbeat { b, conns, secs } => {
                let b = b % nb;
                let r = limit("perform_heartbeat", self.clients[b].perform_heartbeat(*conns, Duration::from_secs(*secs))).await?;
                match r {
                    Ok(()) => {
                        self.hb.insert(b, (*conns, now_ms() + u128::from(*secs) * 1000));
                    }
                    Err(e) if self.on(Focus::Registry) => return Err(format!("a heartbeat failed: {e}")),
                    Err(_) => {}
                }
            }
            Op::Issue { b, user, secs } => {
                let b = b % nb;
                let user = key(*user);
                let now = now_ms();
                let r = limit(
                    "issue_permit",
                    self.outside.issue_permit(&broker(b), Duration::from_secs(*secs), user.clone()),
                )
                .await?;
                match r {
                    Ok(value) => {
                        if self.on(Focus::Permits) && value <= 1 {
                            return Err(format!("the reserved value {value} was issued as a permit"));
                        }
                        // (The same value may be issued again once it is of no use any more.)
                        self.permits.retain(|p| !(p.value == value && (p.used || live(p.expiry, now) != Some(true))));
                        if self.on(Focus::Permits) && self.permits.iter().any(|p| p.value == value && p.b == b) {
                            return Err(format!("permit {value} was issued twice"));
                        }
                        self.permits.push(Permit { value, b, user, expiry: now + u128::from(*secs) * 1000, used: false });
                    }
                    Err(e) if self.on(Focus::Permits) => return Err(format!("issuing a permit failed: {e}")),
                    Err(_) => {}
                }
            }
            Op::Use { back, at, copies } => {
                if !self.permits.is_empty() {
                    let i = self.permits.len() - 1 - back % self.permits.len();
                    let b = at.map_or(self.permits[i].b, |b| b % nb);
                    let v = self.permits[i].value;
                    self.use_permit(v, b, *copies, "use").await?;
                }
            }
            Op::Bogus { b, back, kind } => {
                let near = if self.permits.is_empty() {
                    7
                } else {
                    self.permits[self.permits.len() - 1 - back % self.permits.len()].value
                };
                let v = match kind {
                    0 => 0,
                    1 => 1,
                    2 => u64::MAX,
                    3 => near.wrapping_add(1),
                    4 => near ^ (1 << 32),
                    5 => near | (1 << 63),
                    6 => near >> 1,
                    _ => u64::from(u32::MAX),
                };
                self.use_permit(v, b % nb, 1, "use of what was not issued").await?;
            }
            Op::Advance { ms } => clock::advance(Duration::from_millis(*ms)),
            Op::Set { list } => self.set(list).await?,
            Op::SetMany { from, count } => {
                let list: Vec<usize> = (0..*count).map(|i| from + i).collect();
                self.set(&list).await?;
            }
            Op::Race { lists, checks } => {
                let old = self.wl.clone();
                let new: Vec<_> = lists.iter().map(|l| Self::set_of(l)).collect();
                let mut setters: Vec<D> = lists.iter().map(|_| self.outside.clone()).collect();
                let mut checkers: Vec<D> = (0..*checks).map(|_| self.outside.clone()).collect();
                let mut done = vec![];
                let mut seen = vec![];
                {
                    let mut sets: Vec<_> = setters
                        .iter_mut()
                        .zip(lists)
                        .map(|(c, l)| Some(c.set_whitelist(Self::pub_keys(l))))
                        .collect();
                    let keys: Vec<_> = (0..KEYS).map(|i| Arc::new(key(i))).collect();
                    let mut chks: Vec<_> = checkers
                        .iter_mut()
                        .enumerate()
                        .map(|(i, c)| {
                            let keys = &keys;
                            let seen = RefCell::new(vec![]);
                            Some(Box::pin(async move {
                                for r in 0..6 {
                                    let k = (i * 5 + r) % KEYS;
                                    let a = c.check_whitelist(&keys[k]).await;
                                    seen.borrow_mut().push((k, a));
                                }
                                seen.into_inner()
                            }))
                        })
                        .collect();
                    let all = std::future::poll_fn(|cx| {
                        for f in &mut sets {
                            if let Some(x) = f {
                                if let Poll::Ready(r) = x.as_mut().poll(cx) {
                                    done.push(r);
                                    *f = None;
                                }
                            }
                        }
                        for f in &mut chks {
                            if let Some(x) = f {
                                if let Poll::Ready(r) = x.as_mut().poll(cx) {
                                    seen.extend(r);
                                    *f = None;
                                }
                            }
                        }
                        if sets.iter().all(Option::is_none) && chks.iter().all(Option::is_none) {
                            Poll::Ready(())
                        } else {
                            Poll::Pending
                        }
                    });
                    limit("concurrent updates and checks", all).await?;
                }
                self.st.raced += 1;
                // Every answer is that of one of the lists.
                let states: Vec<_> = old.iter().chain(&new).cloned().collect();
                for (k, a) in seen {
                    if let Ok(a) = a {
                        let ok = states.iter().any(|s| s.as_ref().map_or(true, |s| s.contains(&key(k))) == a);
                        if !ok && self.on(Focus::Whitelist) {
                            return Err(format!(
                                "while the whitelist was being updated, key {k} was {}, which it is under neither the old nor the new lists",
                                if a { "allowed" } else { "refused" }
                            ));
                        }
                    }
                }
                let failed = done.iter().any(|r| r.is_err());
                self.wl = if failed { states } else { new };
                self.check_whitelist("after concurrent updates").await?;
            }
            Op::Abandon { list, polls } => {
                {
                    let mut c = self.outside.clone();
                    let f = c.set_whitelist(Self::pub_keys(list));
                    let mut f = pin!(f);
                    let mut left = *polls;
                    let r = limit(
                        "set_whitelist",
                        std::future::poll_fn(|cx| {
                            if left == 0 {
                                return Poll::Ready(None);
                            }
                            left -= 1;
                            f.as_mut().poll(cx).map(Some)
                        }),
                    )
                    .await?;
                    self.st.broken += usize::from(r.is_none());
                    let new = Self::set_of(list);
                    match r {
                        Some(Ok(())) => self.wl = vec![new],
                        _ => self.wl.push(new),
                    }
                }
                // What was sent to the store before takes effect soon or never.
                for _ in 0..3 {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
                let all = self.wl.clone();
                self.check_whitelist("after an abandoned update").await?;
                // (An update that had been sent may still come.)
                self.wl = all;
                let fresh = D::new(self.path.clone(), None).await.map_err(|e| e.to_string())?;
                self.outside = fresh;
            }
            Op::Broken { list, nth, how } => {
                let Some(db) = self.db.clone() else {
                    return self.set(list).await;
                };
                let how = [Trouble::CutBefore, Trouble::CutAfter, Trouble::Refuse][*how as usize % 3];
                db.borrow_mut().trouble = Some((*nth, how));
                let r = limit("set_whitelist", self.outside.set_whitelist(Self::pub_keys(list))).await?;
                let hit = db.borrow_mut().trouble.take().is_none();
                self.st.broken += usize::from(hit);
                let new = Self::set_of(list);
                match r {
                    Ok(()) => self.wl = vec![new],
                    Err(_) => self.wl.push(new),
                }
                // The connection comes back by itself, or else is made again.
                self.outside = D::new(self.path.clone(), None).await.map_err(|e| e.to_string())?;
                self.check_whitelist("after an update that failed").await?;
            }
            Op::Check => self.check_whitelist("check").await?,
            Op::Least { tick } => self.least(*tick).await?,
            Op::Others { b } => self.others(b.map(|b| b % nb)).await?,
            Op::Reopen => {
                self.st.reopened += 1;
                self.outside = D::new(self.path.clone(), None).await.map_err(|e| format!("opening the store again: {e}"))?;
            }
        }
        Ok(())
    }

    async fn set(&mut self, list: &[usize]) -> R {
        let r = limit("set_whitelist", self.outside.set_whitelist(Self::pub_keys(list))).await?;
        let new = Self::set_of(list);
        self.st.sets += 1;
        self.st.empty += usize::from(list.is_empty());
        self.st.repeated += usize::from(list.iter().collect::<BTreeSet<_>>().len() < list.len());
        match r {
            Ok(()) => self.wl = vec![new],
            Err(e) if self.on(Focus::Whitelist) => {
                return Err(format!("setting the whitelist to a list of {} keys failed: {e}", list.len()));
            }
            Err(_) => self.wl.push(new),
        }
        self.check_whitelist("after setting it").await
    }

    async fn all(&mut self) -> R {
        for op in &self.c.ops {
            self.op(op).await?;
        }
        self.check_whitelist("at the end").await?;
        self.others(None).await?;
        for b in 0..self.c.brokers {
            self.others(Some(b)).await?;
        }
        self.least(0).await?;
        for i in 0..self.permits.len() {
            let (v, b) = (self.permits[i].value, self.permits[i].b);
            // First where it is not valid
            if self.c.brokers > 1 && i % 2 == 0 {
                self.use_permit(v, (b + 1) % self.c.brokers, 1, "misdirected use").await?;
            }
            self.use_permit(v, b, 1, "use").await?;
            self.use_permit(v, b, 1, "second use").await?;
        }
        Ok(())
    }
}

async fn history<D: DiscoveryClient>(c: &Case, path: String, db: Option<redis::Shared>, out: &RefCell<Rec>) -> CaseResult {
    let mut clients = vec![];
    for b in 0..c.brokers {
        clients.push(D::new(path.clone(), Some(broker(b))).await.map_err(|e| format!("opening the store: {e}"))?);
    }
    let outside = D::new(path.clone(), None).await.map_err(|e| format!("opening the store: {e}"))?;
    let mut s = S {
        c,
        path,
        clients,
        outside,
        hb: BTreeMap::new(),
        permits: vec![],
        wl: vec![None],
        db: db.clone(),
        st: Stats::default(),
    };
    let r = s.all().await;
    let st = &s.st;
    let mut o = out.borrow_mut();
    o.nontrivial = match c.focus {
        Focus::Permits => st.refused > 0 && st.uses > st.refused,
        Focus::Whitelist => st.sets + st.raced + st.broken > 1,
        Focus::Registry => st.least_among > 0,
    };
    o.tag(if c.redis { "redis" } else { "embedded" });
    for (n, t) in [
        (st.expired, "expired permit used"),
        (st.concurrent, "concurrent use"),
        (st.repeated, "repeated keys"),
        (st.empty, "empty list"),
        (st.raced, "concurrent updates"),
        (st.broken, "interrupted update"),
        (st.permit_decided, "permits decide the choice"),
        (st.reopened, "reopened"),
    ] {
        o.tag_if(n > 0, t);
    }
    o.note = format!(
        "{} permit uses ({} invalid), {} list updates, {} choices, {} lookups",
        st.uses, st.refused, st.sets, st.least, st.others
    );
    if let Some(d) = &db {
        // A command that the harness's server does not know says nothing about the store.
        let d = d.borrow();
        if !d.unknown.is_empty() {
            o.nontrivial = false;
            o.tag("unknown commands");
            o.note = format!("the store uses commands that the harness's server does not know: {:?}", d.unknown);
            return Ok(());
        }
    }
    r
}

pub fn scratch(name: &str) -> Scratch {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm".into() } else { std::env::temp_dir() };
    let d = base.join(format!("verif-{}-{}-{name}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    let _ = std::fs::create_dir_all(&d);
    Scratch(d)
}
/// A scratch folder, removed when dropped.
pub struct Scratch(pub std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn run(c: &Case, rec: &mut Rec) -> CaseResult {
    clock::manual(Duration::from_millis(clock::EPOCH * 1000 + 250));
    let out = RefCell::new(Rec::default());
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| e.to_string())?;
    let local = tokio::task::LocalSet::new();
    let r = local.block_on(&rt, async {
        if c.redis {
            let (db, url) = redis::start().await;
            history::<Redis>(c, url, Some(db), &out).await
        } else {
            let dir = scratch("store");
            history::<Embedded>(c, dir.0.join("db.sqlite").to_string_lossy().into_owned(), None, &out).await
        }
    });
    *rec = out.into_inner();
    r
}

fn list() -> BoxedStrategy<Vec<usize>> {
    prop_oneof![
        4 => proptest::collection::vec(0usize..KEYS, 0..8),
        1 => Just(vec![]),
        1 => (0usize..KEYS, 2usize..4).prop_map(|(k, n)| vec![k; n]),
    ]
    .boxed()
}

fn strat(focus: Focus) -> BoxedStrategy<Case> {
    let w = |f: Focus, n: u32| if f == focus { n * 4 } else { n };
    let secs = || prop_oneof![1u64..5, 1u64..90];
    let step = prop_oneof![Just(500u64), Just(1000), (0u64..20).prop_map(|n| n * 500), (0u64..300).prop_map(|n| n * 500)];
    let op = prop_oneof![
        w(Focus::Registry, 2) => (0usize..4, prop_oneof![0u64..4, 0u64..100_000, Just(u64::from(u32::MAX))], secs())
            .prop_map(|(b, conns, secs)| Op::Heartbeat { b, conns, secs }),
        6 => (0usize..4, 0usize..KEYS, secs()).prop_map(|(b, user, secs)| Op::Issue { b, user, secs }),
        w(Focus::Permits, 2) => (0usize..6, proptest::option::weighted(0.3, 0usize..4), prop_oneof![3 => Just(1usize), 1 => 2usize..5])
            .prop_map(|(back, at, copies)| Op::Use { back, at, copies }),
        w(Focus::Permits, 1) => (0usize..4, 0usize..6, 0u8..8).prop_map(|(b, back, kind)| Op::Bogus { b, back, kind }),
        5 => step.prop_map(|ms| Op::Advance { ms }),
        w(Focus::Whitelist, 1) => list().prop_map(|list| Op::Set { list }),
        w(Focus::Whitelist, 1) => (proptest::collection::vec(list(), 1..3), 1usize..8).prop_map(|(lists, checks)| Op::Race { lists, checks }),
        w(Focus::Whitelist, 1) => (list(), 0usize..30).prop_map(|(list, polls)| Op::Abandon { list, polls }),
        w(Focus::Whitelist, 1) => (list(), 0usize..12, 0u8..3).prop_map(|(list, nth, how)| Op::Broken { list, nth, how }),
        w(Focus::Whitelist, 1) => Just(Op::Check),
        w(Focus::Registry, 2) => prop_oneof![3 => Just(0u64), 1 => Just(500u64), 1 => 0u64..2000].prop_map(|tick| Op::Least { tick }),
        w(Focus::Registry, 1) => proptest::option::weighted(0.8, 0usize..4).prop_map(|b| Op::Others { b }),
        1 => Just(Op::Reopen),
    ];
    (any::<bool>(), 1usize..=4, proptest::collection::vec(op, 1..30))
        .prop_map(move |(redis, brokers, ops)| Case { redis, focus, brokers, ops })
        .boxed()
}
pub fn strat_permits() -> BoxedStrategy<Case> {
    strat(Focus::Permits)
}
pub fn strat_whitelist() -> BoxedStrategy<Case> {
    strat(Focus::Whitelist)
}
pub fn strat_registry() -> BoxedStrategy<Case> {
    strat(Focus::Registry)
}

fn large() -> Vec<Case> {
    [true, false]
        .into_iter()
        .flat_map(|redis| {
            [1_000usize, 33_000].into_iter().map(move |count| Case {
                redis,
                focus: Focus::Whitelist,
                brokers: 1,
                ops: vec![
                    Op::Set { list: vec![1, 2] },
                    Op::SetMany { from: 5, count },
                    Op::Set { list: vec![3, 12] },
                ],
            })
        })
        .collect()
}

/// Entropy from which the generator used for permits draws a reserved value (0 or 1) first, found by search.
const RESERVED: &[u64] = &[3_299_224_125_679, 1_100_859_900_965];

pub fn reserved() -> Vec<(bool, u64)> {
    RESERVED.iter().flat_map(|s| [(true, *s), (false, *s)]).collect()
}

pub fn run_reserved(c: &(bool, u64), rec: &mut Rec) -> CaseResult {
    async fn one<D: DiscoveryClient>(path: String, seed: u64) -> CaseResult {
        let mut d = D::new(path, None).await.map_err(|e| e.to_string())?;
        for s in [seed, seed + 1, seed] {
            crate::engine::deterministic(s);
            match d.issue_permit(&broker(0), Duration::from_secs(30), key(6)).await {
                Ok(p) if p <= 1 => {
                    return Err(format!("the reserved value {p} was issued as a permit (entropy of generator state {s})"));
                }
                r if std::env::var("VERIF_VERBOSE").is_ok() => eprintln!("{s}: {r:?}"),
                // (The same entropy gives the same permit, which is taken.)
                _ => {}
            }
        }
        Ok(())
    }
    clock::manual(Duration::from_secs(clock::EPOCH));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| e.to_string())?;
    let local = tokio::task::LocalSet::new();
    rec.nontrivial = true;
    local.block_on(&rt, async {
        if c.0 {
            let (_db, url) = redis::start().await;
            one::<Redis>(url, c.1).await
        } else {
            let dir = scratch("store");
            one::<Embedded>(dir.0.join("db.sqlite").to_string_lossy().into_owned(), c.1).await
        }
    })
}

pub fn properties() -> Vec<Property> {
    let o = Opts { quick: 3_000, thorough: 100_000, ..Opts::default() };
    vec![
        Property {
            id: "C19",
            rule: "histories over the real SQLite and Redis stores (Redis against the harness's server) that set, race, abandon and break whitelist updates (empty, repeated, odd keys; up to 40000 keys) between other uses of the store; non-trivial: at least two updates",
            parts: vec![part("histories", Opts { quick: 1_500, ..o }, strat_whitelist, run), fixed("large lists", true, large, run)],
        },
        Property {
            id: "C21",
            rule: "histories of heartbeats, permits issued, used and expiring over 1-4 brokers and both stores, also with the clock moving between the store's own commands; non-trivial: a choice among at least two live brokers",
            parts: vec![part("histories", o, strat_registry, run)],
        },
    ]
}
