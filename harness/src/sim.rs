//! The simulated deployment: real brokers, marshal and clients over the simulated network, in virtual time, with
//! a discovery store and a message hook that the harness controls and observes.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    future::Future,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

use async_trait::async_trait;
use cdn_broker::{Broker, Config as BrokerConfig};
use cdn_proto::{
    connection::UserPublicKey,
    crypto::signature::{KeyPair, Serializable, SignatureScheme},
    def::{ConnectionDef, HookResult, MessageHookDef, RunDef, Topic},
    discovery::{BrokerIdentifier, DiscoveryClient},
    error::{Error, Result},
    message::Message,
};
use tokio::{
    io::{AsyncReadExt, AsyncWriteExt},
    sync::{mpsc, Notify},
    task::{AbortHandle, JoinHandle},
    time::{sleep, Instant},
};

use crate::{
    engine::hash_str,
    net::{self, Finalize, Link, NetCfg, SimNet, SimStream},
    wire::{self, Msg},
};

pub const MARSHAL: usize = 50;
pub const CLIENT: usize = 99;

// --- signatures ------------------------------------------------------------------------------------------

/// A toy signature scheme: 0x50, eight bytes of identity; like the production scheme's deserializer, bytes after
/// a complete key are ignored.
pub struct SimScheme;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SimKey(pub u64);

impl Serializable for SimKey {
    fn serialize(&self) -> anyhow::Result<Vec<u8>> {
        let mut v = vec![0x50];
        v.extend_from_slice(&self.0.to_be_bytes());
        Ok(v)
    }
    fn deserialize(b: &[u8]) -> anyhow::Result<Self> {
        if b.len() < 9 || b[0] != 0x50 {
            anyhow::bail!("malformed key");
        }
        Ok(Self(u64::from_be_bytes(b[1..9].try_into().unwrap())))
    }
}

pub fn toy_sign(private: u64, namespace: &str, message: &[u8]) -> Vec<u8> {
    let mut h = hash_str(&format!("{private}|{namespace}|"));
    for b in message {
        h = (h ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3).rotate_left(5);
    }
    h.to_be_bytes().to_vec()
}

impl SignatureScheme for SimScheme {
    type PrivateKey = u64;
    type PublicKey = SimKey;
    fn sign(private_key: &u64, namespace: &'static str, message: &[u8]) -> anyhow::Result<Vec<u8>> {
        Ok(toy_sign(*private_key, namespace, message))
    }
    fn verify(public_key: &SimKey, namespace: &'static str, message: &[u8], signature: &[u8]) -> bool {
        toy_sign(public_key.0, namespace, message) == signature
    }
}

pub fn keypair(id: u64) -> KeyPair<SimScheme> {
    KeyPair {
        public_key: SimKey(id),
        private_key: id,
    }
}

pub const BROKER_KEY: u64 = 0xB40C;

/// The serialized key of user `u`; odd users' keys are longer.
pub fn user_key(u: usize) -> Vec<u8> {
    let mut k = SimKey(1000 + u as u64).serialize().unwrap();
    if u % 2 == 1 {
        k.extend_from_slice(&vec![0xEE; u]);
    }
    k
}

// --- hook ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum HookKind {
    User,
    Broker,
}

#[derive(Clone, Debug)]
pub struct HookCall {
    pub kind: HookKind,
    pub node: usize,
    pub instance: u64,
    pub identifier: Option<u64>,
    pub nth: u64,
    pub msg: Msg,
}

#[derive(Default)]
pub struct Hooks {
    pub calls: Vec<HookCall>,
    next_instance: u64,
    /// Decides about a message; `None` processes it unchanged.
    #[allow(clippy::type_complexity)]
    pub decide: Option<fn(HookKind, usize, &mut Message) -> Option<anyhow::Result<HookResult>>>,
    pub log: bool,
}

thread_local! {
    pub static HOOKS: RefCell<Hooks> = RefCell::default();
}

pub struct SimHook {
    kind: HookKind,
    node: usize,
    instance: u64,
    identifier: Option<u64>,
    nth: u64,
}
impl SimHook {
    pub fn new(kind: HookKind, node: usize) -> Self {
        Self {
            kind,
            node,
            instance: 0,
            identifier: None,
            nth: 0,
        }
    }
}
impl Clone for SimHook {
    fn clone(&self) -> Self {
        let instance = HOOKS.with(|h| {
            let mut h = h.borrow_mut();
            h.next_instance += 1;
            h.next_instance
        });
        Self {
            kind: self.kind,
            node: self.node,
            instance,
            identifier: self.identifier,
            nth: self.nth,
        }
    }
}
impl MessageHookDef for SimHook {
    fn on_message_received(&mut self, message: &mut Message) -> anyhow::Result<HookResult> {
        self.nth += 1;
        HOOKS.with(|h| {
            let mut h = h.borrow_mut();
            if h.log {
                let c = HookCall {
                    kind: self.kind,
                    node: self.node,
                    instance: self.instance,
                    identifier: self.identifier,
                    nth: self.nth,
                    msg: Msg::from_real(message),
                };
                h.calls.push(c);
            }
            match h.decide {
                Some(d) => d(self.kind, self.node, message).unwrap_or(Ok(HookResult::ProcessMessage)),
                None => Ok(HookResult::ProcessMessage),
            }
        })
    }
    fn set_identifier(&mut self, identifier: u64) {
        self.identifier = Some(identifier);
    }
}

// --- discovery -------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Method {
    Heartbeat,
    Others,
    Least,
    Issue,
    Validate,
    Check,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    Err,
    Hang,
    Delay(u64),
}

#[derive(Clone, Debug)]
pub struct Call {
    pub at: Instant,
    pub node: String,
    pub method: Method,
    pub num: u64,
    pub expiry: Duration,
    pub key: Vec<u8>,
    pub broker: String,
}

#[derive(Default)]
pub struct Disc {
    pub brokers: BTreeMap<BrokerIdentifier, (u64, Instant2)>,
    pub permits: BTreeMap<u64, (String, Vec<u8>, Instant2)>,
    pub whitelist: Option<HashSet<Vec<u8>>>,
    pub faults: HashMap<(String, Method), Fault>,
    pub calls: Vec<Call>,
    pub next_permit: u64,
    spin: (Option<Instant2>, u64),
    /// Someone called discovery without pause.
    pub spun: bool,
}
type Instant2 = Instant;

thread_local! {
    pub static DISC: RefCell<Disc> = RefCell::default();
}
pub fn disc<T>(f: impl FnOnce(&mut Disc) -> T) -> T {
    DISC.with(|d| f(&mut d.borrow_mut()))
}

impl Disc {
    pub fn permit(&mut self, broker: &str, key: &[u8], expiry: Duration) -> u64 {
        self.next_permit += 1;
        let p = 0x1_0000_0000 + self.next_permit * 7;
        self.permits
            .insert(p, (broker.to_string(), key.to_vec(), Instant::now() + expiry));
        p
    }
    pub fn fault(&mut self, node: &str, m: Method, f: Option<Fault>) {
        match f {
            Some(f) => self.faults.insert((node.to_string(), m), f),
            None => self.faults.remove(&(node.to_string(), m)),
        };
    }
}

#[derive(Clone)]
pub struct SimDiscovery {
    identity: Option<BrokerIdentifier>,
    label: String,
}

impl SimDiscovery {
    async fn enter(&self, method: Method, num: u64, expiry: Duration, key: &[u8], broker: &str) -> Result<()> {
        let (fault, spun) = disc(|d| {
            let now = Instant::now();
            if d.spin.0 == Some(now) {
                d.spin.1 += 1;
            } else {
                d.spin = (Some(now), 0);
            }
            if d.spin.1 > 5000 {
                d.spun = true;
            } else {
                d.calls.push(Call {
                    at: now,
                    node: self.label.clone(),
                    method,
                    num,
                    expiry,
                    key: key.to_vec(),
                    broker: broker.to_string(),
                });
            }
            (
                d.faults
                    .get(&(self.label.clone(), method))
                    .or_else(|| d.faults.get(&("*".to_string(), method)))
                    .copied(),
                d.spun,
            )
        });
        if spun {
            std::future::pending::<()>().await;
        }
        match fault {
            None => Ok(()),
            Some(Fault::Err) => Err(Error::Connection("discovery is down".into())),
            Some(Fault::Hang) => {
                std::future::pending::<()>().await;
                unreachable!()
            }
            Some(Fault::Delay(ms)) => {
                sleep(Duration::from_millis(ms)).await;
                Ok(())
            }
        }
    }
}

#[async_trait]
impl DiscoveryClient for SimDiscovery {
    async fn new(_path: String, identity: Option<BrokerIdentifier>) -> Result<Self> {
        let label = identity
            .as_ref()
            .map_or_else(|| "marshal".to_string(), |i| i.private_advertise_endpoint.clone());
        Ok(Self { identity, label })
    }
    async fn perform_heartbeat(&mut self, num_connections: u64, heartbeat_expiry: Duration) -> Result<()> {
        self.enter(Method::Heartbeat, num_connections, heartbeat_expiry, &[], "").await?;
        if let Some(id) = &self.identity {
            disc(|d| {
                d.brokers
                    .insert(id.clone(), (num_connections, Instant::now() + heartbeat_expiry))
            });
        }
        Ok(())
    }
    async fn get_with_least_connections(&mut self) -> Result<BrokerIdentifier> {
        self.enter(Method::Least, 0, Duration::ZERO, &[], "").await?;
        disc(|d| {
            let now = Instant::now();
            d.brokers
                .iter()
                .filter(|(_, (_, e))| *e > now)
                .min_by_key(|(id, (n, _))| {
                    n + d
                        .permits
                        .values()
                        .filter(|(b, _, e)| *b == id.to_string() && *e > now)
                        .count() as u64
                })
                .map(|(id, _)| id.clone())
                .ok_or_else(|| Error::Connection("no brokers".into()))
        })
    }
    async fn get_other_brokers(&mut self) -> Result<HashSet<BrokerIdentifier>> {
        self.enter(Method::Others, 0, Duration::ZERO, &[], "").await?;
        disc(|d| {
            let now = Instant::now();
            Ok(d.brokers
                .iter()
                .filter(|(id, (_, e))| *e > now && Some(*id) != self.identity.as_ref())
                .map(|(id, _)| id.clone())
                .collect())
        })
    }
    async fn issue_permit(&mut self, for_broker: &BrokerIdentifier, expiry: Duration, public_key: Vec<u8>) -> Result<u64> {
        self.enter(Method::Issue, 0, expiry, &public_key, &for_broker.to_string()).await?;
        Ok(disc(|d| d.permit(&for_broker.to_string(), &public_key, expiry)))
    }
    async fn validate_permit(&mut self, broker: &BrokerIdentifier, permit: u64) -> Result<Option<Vec<u8>>> {
        self.enter(Method::Validate, permit, Duration::ZERO, &[], &broker.to_string()).await?;
        disc(|d| {
            let now = Instant::now();
            let ok = d
                .permits
                .get(&permit)
                .is_some_and(|(b, _, e)| *b == broker.to_string() && *e > now);
            Ok(if ok { d.permits.remove(&permit).map(|p| p.1) } else { None })
        })
    }
    async fn set_whitelist(&mut self, users: Vec<UserPublicKey>) -> Result<()> {
        disc(|d| d.whitelist = Some(users.iter().map(|u| u.to_vec()).collect()));
        Ok(())
    }
    async fn check_whitelist(&mut self, user: &UserPublicKey) -> Result<bool> {
        self.enter(Method::Check, 0, Duration::ZERO, user, "").await?;
        Ok(disc(|d| d.whitelist.as_ref().is_none_or(|w| w.contains(&user.to_vec()))))
    }
}

// --- run definitions -------------------------------------------------------------------------------------

/// The valid topics. (2-6 and 99 are among those that are not.)
pub const GOOD: [u8; 12] = [0, 1, 7, 8, 31, 32, 63, 64, 127, 128, 254, 255];
pub fn good(t: u8) -> bool {
    GOOD.contains(&t)
}
#[derive(Clone)]
pub struct SimTopic(u8);
impl From<SimTopic> for u8 {
    fn from(t: SimTopic) -> Self {
        t.0
    }
}
impl TryFrom<u8> for SimTopic {
    type Error = ();
    fn try_from(t: u8) -> std::result::Result<Self, ()> {
        good(t).then_some(Self(t)).ok_or(())
    }
}
impl Topic for SimTopic {}

pub struct SimRun<const N: usize>;
#[derive(Clone)]
pub struct SimConn<const N: usize>;
impl<const N: usize> RunDef for SimRun<N> {
    type Broker = SimConn<N>;
    type User = SimConn<N>;
    type DiscoveryClientType = SimDiscovery;
    type Topic = SimTopic;
}
impl<const N: usize> ConnectionDef for SimConn<N> {
    type Scheme = SimScheme;
    type Protocol = SimNet<N>;
    type MessageHook = SimHook;
}

pub fn pub_ep(i: usize) -> String {
    format!("b{i}.pub")
}
pub fn prv_ep(i: usize) -> String {
    format!("b{i}.prv")
}
thread_local! {
    /// The brokers advertise the same public endpoint (as behind a load balancer).
    pub static SHARED_PUB: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn advertised(i: usize) -> String {
    if SHARED_PUB.get() {
        "all.pub".into()
    } else {
        pub_ep(i)
    }
}
pub fn ident(i: usize) -> BrokerIdentifier {
    BrokerIdentifier {
        public_advertise_endpoint: advertised(i),
        private_advertise_endpoint: prv_ep(i),
    }
}

// --- raw peers -------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rcv {
    pub at: Instant,
    pub bytes: Vec<u8>,
}

enum Cmd {
    Bytes(Vec<u8>),
    Close,
}

/// A harness-made endpoint of a connection that speaks the wire format directly.
#[derive(Clone)]
pub struct Peer {
    pub link: Link,
    pub log: Arc<Mutex<Vec<Rcv>>>,
    pub closed: Arc<Mutex<Option<Instant>>>,
    pub partial: Arc<Mutex<usize>>,
    tx: mpsc::UnboundedSender<Cmd>,
    paused: Arc<AtomicBool>,
    resume: Arc<Notify>,
    news: Arc<Notify>,
    tasks: Arc<Vec<AbortHandle>>,
    cursor: Arc<Mutex<usize>>,
}

impl Peer {
    pub fn new(stream: SimStream, link: Link) -> Self {
        let (mut rd, mut wr) = tokio::io::split(stream);
        let log: Arc<Mutex<Vec<Rcv>>> = Arc::default();
        let closed: Arc<Mutex<Option<Instant>>> = Arc::default();
        let partial: Arc<Mutex<usize>> = Arc::default();
        let paused = Arc::new(AtomicBool::new(false));
        let resume = Arc::new(Notify::new());
        let news = Arc::new(Notify::new());
        let (tx, mut rx) = mpsc::unbounded_channel::<Cmd>();
        let r = {
            let (log, closed, paused, resume, news, partial) = (
                log.clone(),
                closed.clone(),
                paused.clone(),
                resume.clone(),
                news.clone(),
                partial.clone(),
            );
            tokio::spawn(async move {
                let mut buf = vec![];
                let mut tmp = vec![0; 1 << 16];
                loop {
                    while paused.load(Ordering::Relaxed) {
                        resume.notified().await;
                    }
                    match rd.read(&mut tmp).await {
                        Ok(n) if n > 0 => {
                            buf.extend_from_slice(&tmp[..n]);
                            while buf.len() >= 4 {
                                let len = u32::from_be_bytes(buf[..4].try_into().unwrap()) as usize;
                                if buf.len() < 4 + len {
                                    break;
                                }
                                let body = buf[4..4 + len].to_vec();
                                buf.drain(..4 + len);
                                log.lock().unwrap().push(Rcv {
                                    at: Instant::now(),
                                    bytes: body,
                                });
                            }
                            *partial.lock().unwrap() = buf.len();
                            news.notify_waiters();
                        }
                        _ => {
                            *closed.lock().unwrap() = Some(Instant::now());
                            news.notify_waiters();
                            return;
                        }
                    }
                }
            })
        };
        let w = tokio::spawn(async move {
            while let Some(cmd) = rx.recv().await {
                match cmd {
                    Cmd::Bytes(b) => {
                        if wr.write_all(&b).await.is_err() {
                            // keep draining the queue
                            continue;
                        }
                    }
                    Cmd::Close => {
                        let _ = wr.shutdown().await;
                        return;
                    }
                }
            }
        });
        Self {
            link,
            log,
            closed,
            partial,
            tx,
            paused,
            resume,
            news,
            tasks: Arc::new(vec![r.abort_handle(), w.abort_handle()]),
            cursor: Arc::default(),
        }
    }
    pub fn raw(&self, bytes: Vec<u8>) {
        let _ = self.tx.send(Cmd::Bytes(bytes));
    }
    pub fn frame(&self, body: &[u8]) {
        self.raw(wire::frame(body));
    }
    pub fn send(&self, msg: &Msg) {
        self.frame(&wire::encode(msg));
    }
    /// Ends the writing side (what was written before still arrives).
    pub fn finish(&self) {
        let _ = self.tx.send(Cmd::Close);
    }
    /// Drops the connection at once: both halves go.
    pub fn kill(&self) {
        for t in self.tasks.iter() {
            t.abort();
        }
        let mut c = self.closed.lock().unwrap();
        if c.is_none() {
            *c = Some(Instant::now());
        }
    }
    /// As if the machine vanished.
    pub fn reset(&self) {
        self.link.sever();
    }
    pub fn pause(&self, on: bool) {
        self.paused.store(on, Ordering::Relaxed);
        if !on {
            self.resume.notify_waiters();
            self.resume.notify_one();
        }
    }
    /// Reads again after a while.
    pub fn doze(&self, n: u64) {
        self.pause(true);
        let (paused, resume) = (self.paused.clone(), self.resume.clone());
        tokio::spawn(async move {
            ms(n).await;
            paused.store(false, Ordering::Relaxed);
            resume.notify_waiters();
            resume.notify_one();
        });
    }
    pub fn is_closed(&self) -> bool {
        self.closed.lock().unwrap().is_some()
    }
    pub fn frames(&self) -> Vec<Vec<u8>> {
        self.log.lock().unwrap().iter().map(|r| r.bytes.clone()).collect()
    }
    pub fn rcvs(&self) -> Vec<Rcv> {
        self.log.lock().unwrap().clone()
    }
    pub fn count(&self) -> usize {
        self.log.lock().unwrap().len()
    }
    /// The next frame after those `next` returned before; `None` on closure or after `ms`.
    pub async fn next(&self, ms: u64) -> Option<Vec<u8>> {
        let deadline = Instant::now() + Duration::from_millis(ms);
        loop {
            {
                let mut c = self.cursor.lock().unwrap();
                let l = self.log.lock().unwrap();
                if *c < l.len() {
                    *c += 1;
                    return Some(l[*c - 1].bytes.clone());
                }
            }
            if self.is_closed() {
                return None;
            }
            let n = self.news.notified();
            if tokio::time::timeout_at(deadline, n).await.is_err() {
                let c = *self.cursor.lock().unwrap();
                if c >= self.log.lock().unwrap().len() {
                    return None;
                }
            }
        }
    }
    /// How many frames `next` returned so far: what came during admission.
    pub fn skipped(&self) -> usize {
        *self.cursor.lock().unwrap()
    }
    /// The frames after those that `next` returned.
    pub fn rest(&self) -> Vec<Vec<u8>> {
        let c = *self.cursor.lock().unwrap();
        self.log.lock().unwrap()[c..].iter().map(|r| r.bytes.clone()).collect()
    }
}

pub async fn dial(endpoint: &str) -> Option<Peer> {
    dial_as(endpoint, CLIENT, None, Finalize::Now).await
}
pub async fn dial_as(endpoint: &str, from: usize, cfg: Option<NetCfg>, fin: Finalize) -> Option<Peer> {
    let (s, l) = net::open(endpoint, from, cfg, fin).await.ok()?;
    Some(Peer::new(s, l))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Refusal {
    NoConnection,
    Answer(u64, String),
    Silence,
    Other(String),
}

/// Presents a permit; `Ok` once the broker answered with success. The topics are not sent yet.
pub async fn present(peer: &Peer, permit: u64) -> std::result::Result<(), Refusal> {
    peer.send(&Msg::AuthPermit { permit });
    match peer.next(60_000).await {
        None => Err(Refusal::Silence),
        Some(b) => match wire::decode(&b) {
            Some(Msg::AuthResponse { permit: 1, .. }) => Ok(()),
            Some(Msg::AuthResponse { permit, context }) => Err(Refusal::Answer(permit, context)),
            m => Err(Refusal::Other(format!("{m:?}"))),
        },
    }
}

/// Logs a key in at a broker with a permit made by the harness. The admission's last step (the topics) has been
/// sent on return; it takes effect after the one-way latency.
pub async fn login_key(broker: usize, key: &[u8], topics: &[u8], cfg: Option<NetCfg>) -> std::result::Result<Peer, Refusal> {
    let permit = disc(|d| d.permit(&ident(broker).to_string(), key, Duration::from_secs(30)));
    let peer = dial_as(&pub_ep(broker), CLIENT, cfg, Finalize::Now)
        .await
        .ok_or(Refusal::NoConnection)?;
    present(&peer, permit).await?;
    peer.send(&Msg::Subscribe(topics.to_vec()));
    Ok(peer)
}
pub async fn login(broker: usize, user: usize, topics: &[u8]) -> std::result::Result<Peer, Refusal> {
    login_key(broker, &user_key(user), topics, None).await
}

// --- brokers ---------------------------------------------------------------------------------------------

pub struct Node {
    pub idx: usize,
    pub task: JoinHandle<()>,
    pub exited: Arc<Mutex<Option<String>>>,
}

async fn launch<const N: usize>(pool: Option<usize>) -> Result<Node> {
    let broker = Broker::<SimRun<N>>::new(BrokerConfig {
        public_advertise_endpoint: advertised(N),
        public_bind_endpoint: pub_ep(N),
        private_advertise_endpoint: prv_ep(N),
        private_bind_endpoint: prv_ep(N),
        metrics_bind_endpoint: None,
        discovery_endpoint: "sim".into(),
        keypair: keypair(BROKER_KEY),
        ca_cert_path: None,
        ca_key_path: None,
        global_memory_pool_size: pool,
        user_message_hook: SimHook::new(HookKind::User, N),
        broker_message_hook: SimHook::new(HookKind::Broker, N),
    })
    .await?;
    let exited: Arc<Mutex<Option<String>>> = Arc::default();
    let ex = exited.clone();
    let task = tokio::spawn(async move {
        let r = broker.start().await;
        *ex.lock().unwrap() = Some(format!("{r:?}"));
    });
    Ok(Node { idx: N, task, exited })
}

#[derive(Default)]
pub struct World {
    pub nodes: BTreeMap<usize, Node>,
}

impl World {
    pub async fn start(&mut self, i: usize, pool: Option<usize>) -> CaseRes {
        net::with(|n| {
            n.down.insert(i, false);
        });
        let node = match i {
            0 => launch::<0>(pool).await,
            1 => launch::<1>(pool).await,
            2 => launch::<2>(pool).await,
            3 => launch::<3>(pool).await,
            4 => launch::<4>(pool).await,
            _ => unreachable!(),
        }
        .map_err(|e| format!("broker {i} did not start: {e}"))?;
        self.nodes.insert(i, node);
        Ok(())
    }
    /// Kills broker `i`: nothing of it runs or reaches anyone afterwards.
    pub async fn crash(&mut self, i: usize) {
        if let Some(n) = self.nodes.remove(&i) {
            n.task.abort();
        }
        net::with(|n| {
            n.down.insert(i, true);
            *n.gen.entry(i).or_insert(0) += 1;
            for l in n.links_of(i) {
                l.sever();
            }
        });
        for _ in 0..8 {
            tokio::task::yield_now().await;
        }
        net::with(|n| {
            for l in n.links_of(i) {
                l.sever();
            }
        });
    }
    /// A broker whose start() returned although nobody stopped it.
    pub fn dead(&self) -> Option<String> {
        self.nodes.values().find_map(|n| {
            n.exited
                .lock()
                .unwrap()
                .as_ref()
                .map(|e| format!("broker {} exited: {e}", n.idx))
        })
    }
}
pub type CaseRes = std::result::Result<(), String>;

pub async fn ms(n: u64) {
    sleep(Duration::from_millis(n)).await;
}

/// Polls `f` every `step` ms until it holds, at most for `limit` ms.
pub async fn until(limit: u64, step: u64, mut f: impl FnMut() -> bool) -> bool {
    let end = Instant::now() + Duration::from_millis(limit);
    loop {
        if f() {
            return true;
        }
        if Instant::now() >= end {
            return false;
        }
        ms(step).await;
    }
}

/// Runs an async case in a paused-time, single-threaded runtime with a fresh network and discovery store.
pub fn run_sim<F: Future<Output = CaseRes>>(cfg: NetCfg, seed: u64, f: F) -> CaseRes {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .map_err(|e| format!("runtime: {e}"))?;
    net::reset(cfg, seed);
    SHARED_PUB.set(false);
    DISC.with(|d| *d.borrow_mut() = Disc::default());
    HOOKS.with(|h| *h.borrow_mut() = Hooks::default());
    let r = rt.block_on(async {
        crate::clock::follow(Duration::from_secs(crate::clock::EPOCH));
        f.await
    });
    crate::clock::real();
    let spun = disc(|d| d.spun);
    drop(rt);
    r?;
    if spun {
        return Err("a task calls discovery in a loop without pausing".into());
    }
    Ok(())
}

/// The number of live links between two brokers as the network sees them.
pub fn live_links(a: usize, b: usize) -> usize {
    net::with(|n| n.links_between(a, b).iter().filter(|l| l.alive()).count())
}

/// Waits until every pair of the given brokers is linked (at most `limit` ms).
pub async fn meshed(ids: &[usize], limit: u64) -> bool {
    let ids = ids.to_vec();
    until(limit, 50, move || {
        ids.iter()
            .all(|a| ids.iter().all(|b| a >= b || live_links(*a, *b) >= 1))
    })
    .await
}

pub fn case_panics() -> Vec<String> {
    crate::engine::PANICS.with(|p| p.borrow().clone())
}

pub type Topics = BTreeSet<u8>;

// --- broker handshakes -----------------------------------------------------------------------------------

pub const NS_BROKER: &str = "espresso-cdn-broker-broker-auth";
pub const NS_USER: &str = "espresso-cdn-user-marshal-auth";

pub fn unix_now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs())
}

/// A correct proof of possession of a private key.
pub fn proof(id: u64, ns: &str) -> Msg {
    let ts = unix_now();
    Msg::AuthKey {
        key: SimKey(id).serialize().unwrap(),
        ts,
        sig: toy_sign(id, ns, &ts.to_le_bytes()),
    }
}

/// Launches a marshal listening on `m.pub`.
pub async fn start_marshal(w: &mut World, pool: Option<usize>) -> CaseRes {
    use cdn_marshal::{Config, Marshal};
    let m = Marshal::<SimRun<MARSHAL>>::new(Config {
        bind_endpoint: MARSHAL_EP.into(),
        discovery_endpoint: "sim".into(),
        metrics_bind_endpoint: None,
        ca_cert_path: None,
        ca_key_path: None,
        global_memory_pool_size: pool,
    })
    .await
    .map_err(|e| format!("the marshal did not start: {e}"))?;
    let exited: Arc<Mutex<Option<String>>> = Arc::default();
    let ex = exited.clone();
    let task = tokio::spawn(async move {
        let r = m.start().await;
        *ex.lock().unwrap() = Some(format!("{r:?}"));
    });
    w.nodes.insert(MARSHAL, Node { idx: MARSHAL, task, exited });
    Ok(())
}
pub const MARSHAL_EP: &str = "m.pub";

/// Asks the marshal for a permit with these proof bytes; the answer's permit and context.
pub async fn ask_marshal(body: &[u8]) -> std::result::Result<(u64, String), Refusal> {
    let p = dial(MARSHAL_EP).await.ok_or(Refusal::NoConnection)?;
    p.frame(body);
    match p.next(60_000).await {
        None => Err(Refusal::Silence),
        Some(b) => match wire::decode(&b) {
            Some(Msg::AuthResponse { permit, context }) => Ok((permit, context)),
            m => Err(Refusal::Other(format!("{m:?}"))),
        },
    }
}

/// The next message within a minute.
pub async fn expect(p: &Peer) -> Option<Msg> {
    p.next(60_000).await.and_then(|b| wire::decode(&b))
}

/// Links up with broker `b` as a broker of the given name, dialing in. `None` if the broker does not go along.
pub async fn fake_dial(b: usize, node: usize, name: &str) -> Option<Peer> {
    fake_dial_as(b, node, name, None).await
}
pub async fn fake_dial_as(b: usize, node: usize, name: &str, cfg: Option<NetCfg>) -> Option<Peer> {
    let p = dial_as(&prv_ep(b), node, cfg, Finalize::Now).await?;
    fake_outbound(&p, name).await.then_some(p)
}
pub async fn fake_outbound(p: &Peer, name: &str) -> bool {
    p.send(&proof(BROKER_KEY, NS_BROKER));
    if !matches!(expect(p).await, Some(Msg::AuthResponse { permit: 1, .. })) {
        return false;
    }
    if !matches!(expect(p).await, Some(Msg::AuthKey { .. })) {
        return false;
    }
    p.send(&Msg::AuthResponse {
        permit: 1,
        context: format!("{name}.pub/{name}.prv"),
    });
    true
}
/// Goes along with a broker that dialed in.
pub async fn fake_inbound(p: &Peer, name: &str) -> bool {
    if !matches!(expect(p).await, Some(Msg::AuthKey { .. })) {
        return false;
    }
    p.send(&Msg::AuthResponse {
        permit: 1,
        context: format!("{name}.pub/{name}.prv"),
    });
    p.send(&proof(BROKER_KEY, NS_BROKER));
    matches!(expect(p).await, Some(Msg::AuthResponse { permit: 1, .. }))
}

pub fn ident_of(name: &str) -> BrokerIdentifier {
    BrokerIdentifier {
        public_advertise_endpoint: format!("{name}.pub"),
        private_advertise_endpoint: format!("{name}.prv"),
    }
}

/// Frames of `got` that are not sync messages.
pub fn not_sync(got: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    got.into_iter()
        .filter(|b| !matches!(wire::decode(b), Some(Msg::UserSync(_) | Msg::TopicSync(_))))
        .collect()
}
