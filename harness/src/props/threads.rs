//! C05 and C28 in real time: a real broker on several threads, sessions that begin and end at the same moments.

use std::{
    collections::{HashMap, HashSet},
    sync::{Arc, Mutex, OnceLock},
    time::{Duration, Instant},
};

use async_trait::async_trait;
use cdn_broker::{Broker, Config};
use cdn_proto::{
    connection::{
        limiter::Limiter,
        protocols::{memory::Memory, Connection, Listener, Protocol},
        Bytes, UserPublicKey,
    },
    crypto::signature::Serializable,
    def::{NoMessageHook, RunDef, TestTopic},
    discovery::{BrokerIdentifier, DiscoveryClient},
    error::{Error, Result},
    message::{AuthenticateWithPermit, Broadcast, Direct, Message},
};
use proptest::prelude::*;
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use serde::{Deserialize, Serialize};
use tokio::time::{sleep, timeout};

use crate::{
    engine::{CaseResult, Rec},
    live::{run_live, LiveConn, Nothing},
    net::Rng,
    sim::{keypair, SimKey, BROKER_KEY},
};

/// A protocol that listens but that nobody connects to.
pub struct Waiting;
pub struct Forever;
#[async_trait]
impl Listener<Nothing> for Forever {
    async fn accept(&self) -> Result<Nothing> {
        std::future::pending().await
    }
}
#[async_trait]
impl Protocol for Waiting {
    type UnfinalizedConnection = Nothing;
    type Listener = Forever;
    async fn connect(_: &str, _: bool, _: Limiter) -> Result<Connection> {
        Err(Error::Connection("refused".into()))
    }
    async fn bind(_: &str, _: CertificateDer<'static>, _: PrivateKeyDer<'static>) -> Result<Forever> {
        Ok(Forever)
    }
}

#[derive(Default)]
struct Store {
    permits: HashMap<u64, Vec<u8>>,
    next: u64,
    heartbeats: Vec<(Instant, u64)>,
}
fn store<T>(path: &str, f: impl FnOnce(&mut Store) -> T) -> T {
    static STORES: OnceLock<Mutex<HashMap<String, Store>>> = OnceLock::new();
    let mut s = STORES.get_or_init(Mutex::default).lock().unwrap();
    f(s.entry(path.to_string()).or_default())
}

#[derive(Clone)]
pub struct LiveDisc(String);
#[async_trait]
impl DiscoveryClient for LiveDisc {
    async fn new(path: String, _: Option<BrokerIdentifier>) -> Result<Self> {
        Ok(Self(path))
    }
    async fn perform_heartbeat(&mut self, n: u64, _: Duration) -> Result<()> {
        store(&self.0, |s| s.heartbeats.push((Instant::now(), n)));
        Ok(())
    }
    async fn get_with_least_connections(&mut self) -> Result<BrokerIdentifier> {
        Err(Error::Connection("not here".into()))
    }
    async fn get_other_brokers(&mut self) -> Result<HashSet<BrokerIdentifier>> {
        Ok(HashSet::new())
    }
    async fn issue_permit(&mut self, _: &BrokerIdentifier, _: Duration, key: Vec<u8>) -> Result<u64> {
        Ok(store(&self.0, |s| {
            s.next += 1;
            s.permits.insert(s.next + 1, key);
            s.next + 1
        }))
    }
    async fn validate_permit(&mut self, _: &BrokerIdentifier, permit: u64) -> Result<Option<Vec<u8>>> {
        Ok(store(&self.0, |s| s.permits.remove(&permit)))
    }
    async fn set_whitelist(&mut self, _: Vec<UserPublicKey>) -> Result<()> {
        Ok(())
    }
    async fn check_whitelist(&mut self, _: &UserPublicKey) -> Result<bool> {
        Ok(true)
    }
}

struct LiveRun;
impl RunDef for LiveRun {
    type Broker = LiveConn<Waiting>;
    type User = LiveConn<Memory>;
    type DiscoveryClientType = LiveDisc;
    type Topic = TestTopic;
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Turn {
    /// The key's session breaks and another begins.
    Relogin,
    /// Two begin at once.
    Both,
    /// One begins, with an invalid message right after it.
    Garbage,
    /// One begins, with another subscription right after it.
    Subscribe,
    /// One begins while an older one still changes its subscriptions.
    Late,
    /// One begins and breaks at once. Of another key.
    Hit,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    threads: usize,
    users: usize,
    rounds: usize,
    turns: Vec<Turn>,
    seed: u64,
}

pub fn strat() -> BoxedStrategy<Case> {
    (
        2..=8usize,
        1..=24usize,
        prop::collection::vec(
            prop_oneof![4 => Just(Turn::Relogin), 2 => Just(Turn::Both), 3 => Just(Turn::Garbage), 3 => Just(Turn::Subscribe), 3 => Just(Turn::Late), 1 => Just(Turn::Hit)],
            1..6,
        ),
        any::<u64>(),
    )
        .prop_map(|(threads, users, turns, seed)| Case {
            threads,
            users,
            rounds: 150,
            turns,
            seed,
        })
        .boxed()
}

fn raw(m: &Message) -> Bytes {
    Bytes::from_unchecked(m.serialize().expect("serializes"))
}

/// Begins a session; `then` is sent in the same breath.
async fn login(path: &str, key: &[u8], then: Option<Vec<u8>>) -> std::result::Result<Connection, String> {
    let permit = store(path, |s| {
        s.next += 1;
        s.permits.insert(s.next + 1, key.to_vec());
        s.next + 1
    });
    let c = Memory::connect(path, true, Limiter::none())
        .await
        .map_err(|e| format!("connecting failed: {e}"))?;
    let e = |e: Error| format!("the admission failed: {e}");
    c.send_message(Message::AuthenticateWithPermit(AuthenticateWithPermit { permit }))
        .await
        .map_err(e)?;
    match timeout(Duration::from_secs(10), c.recv_message()).await {
        Ok(Ok(Message::AuthenticateResponse(r))) if r.permit == 1 => {}
        other => return Err(format!("a valid permit was answered by {:?}", other.map(|r| r.map_err(|e| e.to_string())))),
    }
    c.send_message_raw(raw(&Message::Subscribe(vec![0]))).await.map_err(e)?;
    if let Some(b) = then {
        c.send_message_raw(Bytes::from_unchecked(b)).await.map_err(e)?;
    }
    Ok(c)
}

const PATIENCE: Duration = Duration::from_secs(4);

/// Whether the session is the key's: it gets a message to the key.
async fn serves(c: &Connection, key: &[u8], tag: u64) -> std::result::Result<bool, String> {
    let m = Message::Direct(Direct {
        recipient: key.to_vec(),
        message: tag.to_be_bytes().to_vec(),
    });
    // The session may be in the middle of beginning: the message follows the subscription, so it is read after it
    if c.send_message_raw(raw(&m)).await.is_err() {
        return Ok(false);
    }
    let until = Instant::now() + PATIENCE;
    loop {
        match timeout(until.saturating_duration_since(Instant::now()), c.recv_message()).await {
            Ok(Ok(got)) if got == m => return Ok(true),
            Ok(Ok(Message::Direct(_) | Message::Broadcast(_))) => {}
            Ok(Ok(got)) => return Err(format!("got {got:?}")),
            Ok(Err(_)) => return Ok(false),
            Err(_) => return Err("the session is open but gets no answer".into()),
        }
    }
}

/// Begins a session; it has begun when this returns.
async fn begin(path: &str, key: &[u8], tag: u64) -> std::result::Result<Connection, String> {
    let c = login(path, key, None).await?;
    if serves(&c, key, tag).await? {
        Ok(c)
    } else {
        Err("the only session of the key was ended".into())
    }
}

/// Whether the session ends by itself.
async fn ends(c: &Connection) -> bool {
    let until = Instant::now() + PATIENCE;
    loop {
        match timeout(until.saturating_duration_since(Instant::now()), c.recv_message_raw()).await {
            Ok(Ok(_)) => {}
            Ok(Err(_)) => return true,
            Err(_) => return false,
        }
    }
}

async fn user(path: Arc<str>, i: usize, c: Case) -> std::result::Result<usize, String> {
    let mut rng = Rng(c.seed ^ ((i as u64) << 32));
    let key = SimKey(5000 + i as u64).serialize().unwrap();
    let mut turns = 0;
    let mut current: Option<Connection> = None;
    for round in 0..c.rounds {
        let turn = c.turns[(round + i) % c.turns.len()];
        let at = |m: &str| format!("user {i}, round {round} ({turn:?}): {m}");
        let tag = (i * 100_000 + round) as u64;
        match turn {
            Turn::Relogin => {
                let old = match current.take() {
                    Some(o) => o,
                    None => begin(&path, &key, tag | 1 << 61).await.map_err(|e| at(&e))?,
                };
                let spins = rng.below(400);
                let dropper = tokio::spawn(async move {
                    for _ in 0..spins * 20 {
                        std::hint::spin_loop();
                    }
                    drop(old);
                });
                let new = login(&path, &key, None).await.map_err(|e| at(&e))?;
                dropper.await.unwrap();
                if !serves(&new, &key, tag).await.map_err(|e| at(&e))? {
                    return Err(at("the newest session of the key was ended, although only an older one broke"));
                }
                current = Some(new);
            }
            Turn::Both => {
                current = None;
                let (a, b) = tokio::join!(
                    tokio::spawn({
                        let (path, key) = (path.clone(), key.clone());
                        async move { login(&path, &key, None).await }
                    }),
                    tokio::spawn({
                        let (path, key) = (path.clone(), key.clone());
                        async move { login(&path, &key, None).await }
                    })
                );
                let (a, b) = (a.unwrap().map_err(|e| at(&e))?, b.unwrap().map_err(|e| at(&e))?);
                // The second may begin a little later than it was admitted
                let until = Instant::now() + PATIENCE;
                for n in 0u64.. {
                    let tag = tag | n << 32;
                    let (a_ok, b_ok) = tokio::join!(serves(&a, &key, tag), serves(&b, &key, tag | 1 << 60));
                    match (a_ok.map_err(|e| at(&e))?, b_ok.map_err(|e| at(&e))?) {
                        (true, false) => current = Some(a),
                        (false, true) => current = Some(b),
                        (true, true) if Instant::now() < until => {
                            sleep(Duration::from_millis(1)).await;
                            continue;
                        }
                        (true, true) => return Err(at("two sessions of the key are served")),
                        (false, false) => return Err(at("of two sessions that began at once, neither remained")),
                    }
                    break;
                }
            }
            Turn::Garbage => {
                current = None;
                let new = login(&path, &key, Some(vec![1, 2, 3])).await.map_err(|e| at(&e))?;
                if !ends(&new).await {
                    return Err(at("the session of a user that sent an invalid message goes on"));
                }
            }
            Turn::Subscribe => {
                current = None;
                let new = login(&path, &key, Some(Message::Subscribe(vec![1]).serialize().unwrap()))
                    .await
                    .map_err(|e| at(&e))?;
                let m = Message::Broadcast(Broadcast {
                    topics: vec![1],
                    message: tag.to_be_bytes().to_vec(),
                });
                let _ = new.send_message_raw(raw(&m)).await;
                let until = Instant::now() + PATIENCE;
                loop {
                    match timeout(until.saturating_duration_since(Instant::now()), new.recv_message()).await {
                        Ok(Ok(got)) if got == m => break,
                        Ok(Ok(_)) => {}
                        Ok(Err(_)) => return Err(at("the session of a user that subscribed at once was ended")),
                        Err(_) => return Err(at("a subscription made right after the beginning of the session was lost")),
                    }
                }
                current = Some(new);
            }
            Turn::Late => {
                let old = match current.take() {
                    Some(o) => o,
                    None => begin(&path, &key, tag | 1 << 61).await.map_err(|e| at(&e))?,
                };
                let changes = 20 + rng.below(60);
                let changer = tokio::spawn(async move {
                    for n in 0..changes {
                        let m = if n % 2 == 0 { Message::Subscribe(vec![1]) } else { Message::Unsubscribe(vec![0]) };
                        if old.send_message_raw(raw(&m)).await.is_err() {
                            break;
                        }
                        tokio::task::yield_now().await;
                    }
                    old
                });
                let new = login(&path, &key, None).await.map_err(|e| at(&e))?;
                if !serves(&new, &key, tag).await.map_err(|e| at(&e))? {
                    return Err(at("the newest session of the key was ended"));
                }
                let _old = changer.await.unwrap();
                for topic in [1, 0] {
                    let m = Message::Broadcast(Broadcast {
                        topics: vec![topic],
                        message: tag.to_be_bytes().to_vec(),
                    });
                    let _ = new.send_message_raw(raw(&m)).await;
                }
                let mark = Message::Direct(Direct {
                    recipient: key.clone(),
                    message: vec![7],
                });
                let _ = new.send_message_raw(raw(&mark)).await;
                let mut got = vec![];
                loop {
                    match timeout(PATIENCE, new.recv_message()).await {
                        Ok(Ok(m)) if m == mark => break,
                        Ok(Ok(Message::Broadcast(b))) if b.message == tag.to_be_bytes() => got.extend(b.topics),
                        Ok(Ok(_)) => {}
                        _ => return Err(at("the newest session of the key was ended")),
                    }
                }
                if got != [0] {
                    return Err(at(&format!("the session asked for topic 0 and got messages of {got:?}: an older session's requests changed its subscriptions")));
                }
                current = Some(new);
            }
            Turn::Hit => {
                // Its session may begin after it broke. That would be its key's newest, so the key is another one
                let key = SimKey(900_000 + i as u64).serialize().unwrap();
                drop(login(&path, &key, None).await.map_err(|e| at(&e))?);
            }
        }
        turns += 1;
    }
    drop(current);
    Ok(turns)
}

pub fn run(c: &Case, rec: &mut Rec) -> CaseResult {
    static N: Mutex<u64> = Mutex::new(0);
    let n = {
        let mut n = N.lock().unwrap();
        *n += 1;
        *n
    };
    let path: Arc<str> = format!("threads-{n}").into();
    let r = run_live(c.threads, async {
        let broker: Broker<LiveRun> = Broker::new(Config {
            public_advertise_endpoint: path.to_string(),
            public_bind_endpoint: path.to_string(),
            private_advertise_endpoint: format!("p{path}"),
            private_bind_endpoint: format!("p{path}"),
            metrics_bind_endpoint: None,
            discovery_endpoint: path.to_string(),
            keypair: keypair(BROKER_KEY),
            user_message_hook: NoMessageHook,
            broker_message_hook: NoMessageHook,
            ca_cert_path: None,
            ca_key_path: None,
            global_memory_pool_size: None,
        })
        .await
        .map_err(|e| format!("no broker: {e}"))?;
        let broker = tokio::spawn(broker.start());
        let users: Vec<_> = (0..c.users).map(|i| tokio::spawn(user(path.clone(), i, c.clone()))).collect();
        let mut turns = 0;
        for u in users {
            turns += u.await.map_err(|e| format!("a user panicked: {e}"))??;
        }
        if broker.is_finished() {
            return Err("the broker exited".to_string());
        }
        // Everybody left: the broker says so with a heartbeat that begins a second from now or later
        let from = Instant::now() + Duration::from_secs(1);
        let until = from + Duration::from_secs(16);
        let last = loop {
            let hb = store(&path, |s| s.heartbeats.iter().find(|h| h.0 > from).copied());
            if let Some((_, n)) = hb {
                break n;
            }
            if Instant::now() > until {
                return Err("no heartbeat within 16 s".to_string());
            }
            sleep(Duration::from_millis(20)).await;
        };
        broker.abort();
        if last != 0 {
            return Err(format!("{last} sessions are counted after all {} users left", c.users));
        }
        Ok(turns)
    });
    let turns = r?;
    rec.nontrivial();
    rec.note = format!("{turns} turns");
    for t in &c.turns {
        rec.tag(format!("{t:?}"));
    }
    Ok(())
}
