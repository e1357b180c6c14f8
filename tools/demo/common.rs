//! A little CDN on the loopback network: a toy signature scheme, a discovery store in memory, the real TCP transport.
#![allow(dead_code)]
use std::collections::{BTreeMap, HashSet};
use std::net::TcpListener;
use std::sync::Mutex;
use std::time::{Duration, Instant};

use async_trait::async_trait;
use cdn_broker::{Broker, Config};
use cdn_proto::connection::auth::user::UserAuth;
use cdn_proto::connection::limiter::Limiter;
use cdn_proto::connection::protocols::{tcp::Tcp, Connection, Protocol};
use cdn_proto::connection::UserPublicKey;
use cdn_proto::crypto::signature::{KeyPair, Serializable, SignatureScheme};
use cdn_proto::def::{ConnectionDef, NoMessageHook, RunDef, TestTopic};
use cdn_proto::discovery::{BrokerIdentifier, DiscoveryClient};
use cdn_proto::error::{Error, Result};
use cdn_proto::message::Message;

pub struct Toy;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Key(pub u64);
impl Serializable for Key {
    fn serialize(&self) -> anyhow::Result<Vec<u8>> {
        Ok(self.0.to_be_bytes().to_vec())
    }
    fn deserialize(b: &[u8]) -> anyhow::Result<Self> {
        if b.len() < 8 {
            anyhow::bail!("malformed key");
        }
        Ok(Self(u64::from_be_bytes(b[..8].try_into().unwrap())))
    }
}
pub fn sign(k: u64, ns: &str, m: &[u8]) -> Vec<u8> {
    let mut h = k ^ 0x1234_5678;
    for b in ns.bytes().chain(m.iter().copied()) {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3).rotate_left(5);
    }
    h.to_be_bytes().to_vec()
}
impl SignatureScheme for Toy {
    type PrivateKey = u64;
    type PublicKey = Key;
    fn sign(k: &u64, ns: &'static str, m: &[u8]) -> anyhow::Result<Vec<u8>> {
        Ok(sign(*k, ns, m))
    }
    fn verify(k: &Key, ns: &'static str, m: &[u8], s: &[u8]) -> bool {
        sign(k.0, ns, m) == s
    }
}
pub fn pair(k: u64) -> KeyPair<Toy> {
    KeyPair { public_key: Key(k), private_key: k }
}

#[derive(Default)]
pub struct Store {
    pub brokers: BTreeMap<BrokerIdentifier, (u64, Instant)>,
    pub permits: BTreeMap<u64, (String, Vec<u8>)>,
    pub next: u64,
    pub whitelist: Option<HashSet<Vec<u8>>>,
    pub beats: Vec<(u64, Duration)>,
    pub fail: bool,
    pub hidden: bool,
}
pub static STORE: Mutex<Option<Store>> = Mutex::new(None);
pub fn store<T>(f: impl FnOnce(&mut Store) -> T) -> T {
    f(STORE.lock().unwrap().get_or_insert_with(|| Store { next: 2, ..Store::default() }))
}
#[derive(Clone)]
pub struct Disc(Option<BrokerIdentifier>);
#[async_trait]
impl DiscoveryClient for Disc {
    async fn new(_: String, id: Option<BrokerIdentifier>) -> Result<Self> {
        Ok(Self(id))
    }
    async fn perform_heartbeat(&mut self, n: u64, e: Duration) -> Result<()> {
        store(|s| {
            s.beats.push((n, e));
            if s.fail {
                return Err(Error::Connection("down".into()));
            }
            s.brokers.insert(self.0.clone().unwrap(), (n, Instant::now() + e));
            Ok(())
        })
    }
    async fn get_with_least_connections(&mut self) -> Result<BrokerIdentifier> {
        store(|s| {
            s.brokers.iter().min_by_key(|(_, v)| v.0).map(|(k, _)| k.clone()).ok_or(Error::Connection("none".into()))
        })
    }
    async fn get_other_brokers(&mut self) -> Result<HashSet<BrokerIdentifier>> {
        store(|s| {
            if s.fail {
                return Err(Error::Connection("down".into()));
            }
            if s.hidden {
                return Ok(HashSet::new());
            }
            Ok(s.brokers.keys().filter(|k| Some(*k) != self.0.as_ref()).cloned().collect())
        })
    }
    async fn issue_permit(&mut self, b: &BrokerIdentifier, _: Duration, key: Vec<u8>) -> Result<u64> {
        Ok(permit(b, key))
    }
    async fn validate_permit(&mut self, b: &BrokerIdentifier, p: u64) -> Result<Option<Vec<u8>>> {
        store(|s| {
            Ok(match s.permits.get(&p) {
                Some((x, _)) if *x == b.to_string() => s.permits.remove(&p).map(|p| p.1),
                _ => None,
            })
        })
    }
    async fn set_whitelist(&mut self, u: Vec<UserPublicKey>) -> Result<()> {
        store(|s| s.whitelist = Some(u.iter().map(|u| u.to_vec()).collect()));
        Ok(())
    }
    async fn check_whitelist(&mut self, u: &UserPublicKey) -> Result<bool> {
        store(|s| {
            if s.fail {
                return Err(Error::Connection("down".into()));
            }
            Ok(s.whitelist.as_ref().is_none_or(|w| w.contains(&u.to_vec())))
        })
    }
}
pub fn permit(b: &BrokerIdentifier, key: Vec<u8>) -> u64 {
    store(|s| {
        s.next += 1;
        s.permits.insert(s.next, (b.to_string(), key));
        s.next
    })
}

pub struct Run;
pub struct Conn;
impl ConnectionDef for Conn {
    type Scheme = Toy;
    type Protocol = Tcp;
    type MessageHook = NoMessageHook;
}
impl RunDef for Run {
    type Broker = Conn;
    type User = Conn;
    type DiscoveryClientType = Disc;
    type Topic = TestTopic;
}

pub fn port() -> u16 {
    TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}
pub fn addr() -> String {
    format!("127.0.0.1:{}", port())
}
pub struct Node {
    pub id: BrokerIdentifier,
    pub task: tokio::task::JoinHandle<()>,
}
/// A broker whose advertised private endpoint may differ from the one it binds to (a proxy in between).
pub async fn broker_via(advertise: Option<String>, bind: String, public: String, pool: Option<usize>) -> Node {
    let private = advertise.unwrap_or_else(|| bind.clone());
    let b = Broker::<Run>::new(Config {
        public_advertise_endpoint: public.clone(),
        public_bind_endpoint: public.clone(),
        private_advertise_endpoint: private.clone(),
        private_bind_endpoint: bind,
        metrics_bind_endpoint: None,
        discovery_endpoint: String::new(),
        keypair: pair(7),
        ca_cert_path: None,
        ca_key_path: None,
        global_memory_pool_size: pool,
        user_message_hook: NoMessageHook,
        broker_message_hook: NoMessageHook,
    })
    .await
    .expect("broker");
    let task = tokio::spawn(async move {
        let _ = b.start().await;
    });
    Node { id: BrokerIdentifier { public_advertise_endpoint: public, private_advertise_endpoint: private }, task }
}
pub async fn broker() -> Node {
    broker_via(None, addr(), addr(), Some(1 << 28)).await
}
pub fn key(u: u64) -> Vec<u8> {
    Key(u).serialize().unwrap()
}
pub async fn dial(endpoint: &str) -> Connection {
    for _ in 0..50 {
        if let Ok(c) = Tcp::connect(endpoint, true, Limiter::none()).await {
            return c;
        }
        ms(50).await;
    }
    panic!("cannot connect to {endpoint}");
}
pub async fn login(n: &Node, user: u64, topics: &[u8]) -> Connection {
    let p = permit(&n.id, key(user));
    let c = dial(&n.id.public_advertise_endpoint).await;
    UserAuth::<Conn>::authenticate_with_broker(&c, p, topics.iter().copied().collect()).await.expect("login");
    c
}
pub async fn ms(n: u64) {
    tokio::time::sleep(Duration::from_millis(n)).await;
}
pub async fn recv(c: &Connection, limit: u64) -> Option<Message> {
    tokio::time::timeout(Duration::from_millis(limit), c.recv_message()).await.ok()?.ok()
}
/// Whether the connection ends within the limit.
pub async fn ended(c: &Connection, limit: u64) -> bool {
    let until = Instant::now() + Duration::from_millis(limit);
    loop {
        let left = until.saturating_duration_since(Instant::now());
        match tokio::time::timeout(left, c.recv_message_raw()).await {
            Err(_) => return false,
            Ok(Err(_)) => return true,
            Ok(Ok(_)) => {}
        }
    }
}
pub async fn direct(c: &Connection, to: u64, m: &[u8]) {
    use cdn_proto::message::Direct;
    let _ = c.send_message(Message::Direct(Direct { recipient: key(to), message: m.to_vec() })).await;
}
pub async fn broadcast(c: &Connection, topics: &[u8], m: &[u8]) {
    use cdn_proto::message::Broadcast;
    let _ = c.send_message(Message::Broadcast(Broadcast { topics: topics.to_vec(), message: m.to_vec() })).await;
}
pub fn text(m: &Message) -> Vec<u8> {
    match m {
        Message::Direct(d) => d.message.clone(),
        Message::Broadcast(b) => b.message.clone(),
        _ => vec![],
    }
}
/// Brings a message from `from` to `to` through, within the limit, trying again and again.
pub async fn reaches(from: &Connection, to: &Connection, key: u64, limit: u64) -> bool {
    let until = Instant::now() + Duration::from_millis(limit);
    let mut n = 0u64;
    while Instant::now() < until {
        n += 1;
        let body = format!("probe {n}").into_bytes();
        direct(from, key, &body).await;
        while let Some(m) = recv(to, 400).await {
            if text(&m) == body {
                return true;
            }
        }
    }
    false
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("WRONG: {what}");
        std::process::exit(1);
    }
    println!("ok: {what}");
}

/// A TCP proxy. `cut` ends its current connections for the dialer; with `half` the accepting side does not hear of it.
pub struct Proxy {
    pub addr: String,
    stop: tokio::sync::watch::Sender<(u64, bool)>,
}
impl Proxy {
    pub fn cut(&self, half: bool) {
        self.stop.send_modify(|s| *s = (s.0 + 1, half));
    }
}
pub async fn proxy(to: String) -> Proxy {
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let (stop, watch) = tokio::sync::watch::channel((0, false));
    let p = Proxy { addr: l.local_addr().unwrap().to_string(), stop };
    tokio::spawn(async move {
        loop {
            let Ok((x, _)) = l.accept().await else { continue };
            let Ok(y) = tokio::net::TcpStream::connect(&to).await else { continue };
            let (mut xr, mut xw) = x.into_split();
            let (mut yr, mut yw) = y.into_split();
            let (mut w1, mut w2) = (watch.clone(), watch.clone());
            w1.mark_unchanged();
            w2.mark_unchanged();
            tokio::spawn(async move {
                tokio::select! {
                    _ = tokio::io::copy(&mut xr, &mut yw) => {}
                    _ = w1.changed() => if w1.borrow().1 { std::mem::forget(yw) },
                }
            });
            tokio::spawn(async move {
                tokio::select! {
                    _ = tokio::io::copy(&mut yr, &mut xw) => {}
                    _ = w2.changed() => if w2.borrow().1 { std::mem::forget(yr) },
                }
            });
        }
    });
    p
}
