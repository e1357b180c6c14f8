//! C01-C03 in real time: real brokers on several threads, everybody sends and receives at once.

use std::{
    collections::{HashMap, HashSet},
    sync::{Arc, Mutex, OnceLock},
    time::{Duration, Instant},
};

use async_trait::async_trait;
use cdn_broker::{Broker, Config};
use cdn_proto::{
    connection::{
        limiter::Limiter,
        protocols::{memory::Memory, Connection, Protocol},
        UserPublicKey,
    },
    crypto::signature::Serializable,
    def::{NoMessageHook, RunDef, TestTopic},
    discovery::{BrokerIdentifier, DiscoveryClient},
    error::{Error, Result},
    message::{AuthenticateWithPermit, Broadcast, Direct, Message},
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::time::{sleep, timeout};

use crate::{
    engine::{CaseResult, Rec},
    live::{run_live, LiveConn},
    net::Rng,
    sim::{keypair, SimKey, BROKER_KEY},
};

#[derive(Default)]
struct Store {
    permits: HashMap<u64, Vec<u8>>,
    next: u64,
    brokers: HashSet<BrokerIdentifier>,
}
fn store<T>(path: &str, f: impl FnOnce(&mut Store) -> T) -> T {
    static STORES: OnceLock<Mutex<HashMap<String, Store>>> = OnceLock::new();
    let mut s = STORES.get_or_init(Mutex::default).lock().unwrap();
    f(s.entry(path.to_string()).or_default())
}

#[derive(Clone)]
pub struct FlowDisc(String, Option<BrokerIdentifier>);
#[async_trait]
impl DiscoveryClient for FlowDisc {
    async fn new(path: String, id: Option<BrokerIdentifier>) -> Result<Self> {
        Ok(Self(path, id))
    }
    async fn perform_heartbeat(&mut self, _: u64, _: Duration) -> Result<()> {
        let id = self.1.clone().expect("a broker");
        store(&self.0, |s| s.brokers.insert(id));
        Ok(())
    }
    async fn get_with_least_connections(&mut self) -> Result<BrokerIdentifier> {
        Err(Error::Connection("not here".into()))
    }
    async fn get_other_brokers(&mut self) -> Result<HashSet<BrokerIdentifier>> {
        Ok(store(&self.0, |s| s.brokers.iter().filter(|b| Some(*b) != self.1.as_ref()).cloned().collect()))
    }
    async fn issue_permit(&mut self, _: &BrokerIdentifier, _: Duration, _: Vec<u8>) -> Result<u64> {
        Err(Error::Connection("not here".into()))
    }
    async fn validate_permit(&mut self, _: &BrokerIdentifier, permit: u64) -> Result<Option<Vec<u8>>> {
        Ok(store(&self.0, |s| s.permits.remove(&permit)))
    }
    async fn set_whitelist(&mut self, _: Vec<UserPublicKey>) -> Result<()> {
        Ok(())
    }
    async fn check_whitelist(&mut self, _: &UserPublicKey) -> Result<bool> {
        Ok(true)
    }
}

struct FlowRun;
impl RunDef for FlowRun {
    type Broker = LiveConn<Memory>;
    type User = LiveConn<Memory>;
    type DiscoveryClientType = FlowDisc;
    type Topic = TestTopic;
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
    Direct,
    Broadcast,
    /// Both; only the order is judged.
    Order,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    what: What,
    threads: usize,
    brokers: usize,
    /// For every user, its broker and its topics (bits).
    users: Vec<(usize, u8)>,
    msgs: usize,
    /// One in so many messages is large.
    large: u64,
    pool: Option<usize>,
    seed: u64,
}

pub fn strat(what: What) -> BoxedStrategy<Case> {
    (
        2..=8usize,
        1..=3usize,
        prop::collection::vec((0..3usize, 0..4u8), 2..10),
        20..400usize,
        prop_oneof![Just(1_000_000u64), 20..200u64],
        prop_oneof![2 => Just(None), 1 => Just(Some(8usize << 20))],
        any::<u64>(),
    )
        .prop_map(move |(threads, brokers, users, msgs, large, pool, seed)| Case {
            what,
            threads,
            brokers,
            users,
            msgs,
            large,
            pool,
            seed,
        })
        .boxed()
}

#[derive(Clone, Copy, Debug)]
enum Dest {
    User(usize),
    Topics(u8),
}
fn topics(bits: u8) -> Vec<u8> {
    (0..2).filter(|t| bits >> t & 1 == 1).collect()
}
fn key(i: usize) -> Vec<u8> {
    SimKey(7000 + i as u64).serialize().unwrap()
}
/// Who sent the message, which of its messages it is, and then bytes that depend on both.
fn body(sender: usize, seq: usize, len: usize) -> Vec<u8> {
    let mut b = (sender as u32).to_be_bytes().to_vec();
    b.extend((seq as u32).to_be_bytes());
    b.extend((0..len).map(|i| (i as u64 * 31 ^ (seq as u64) ^ (sender as u64) << 4) as u8));
    b
}
fn message(dest: Dest, body: Vec<u8>) -> Message {
    match dest {
        Dest::User(u) => Message::Direct(Direct {
            recipient: key(u),
            message: body,
        }),
        Dest::Topics(t) => Message::Broadcast(Broadcast {
            topics: topics(t),
            message: body,
        }),
    }
}
fn plan(c: &Case, i: usize) -> Vec<(Dest, usize)> {
    let mut rng = Rng(c.seed ^ ((i as u64 + 1) << 40));
    // What is large may fill everybody's buffers: not too much of it
    let mut budget = 6_000_000usize / c.users.len();
    (0..c.msgs)
        .map(|_| {
            let direct = match c.what {
                What::Direct => true,
                What::Broadcast => false,
                What::Order => rng.below(2) == 0,
            };
            let dest = if direct {
                Dest::User(rng.below(c.users.len() as u64) as usize)
            } else {
                Dest::Topics(1 + rng.below(3) as u8)
            };
            let mut len = rng.below(90) as usize;
            if rng.below(c.large) == 0 {
                let l = [5_000, 100_000, 600_000, 1_200_000][rng.below(4) as usize];
                if l <= budget {
                    budget -= l;
                    len = l;
                }
            }
            (dest, len)
        })
        .collect()
}

async fn login(path: &str, endpoint: &str, i: usize, bits: u8) -> std::result::Result<Connection, String> {
    let permit = store(path, |s| {
        s.next += 1;
        s.permits.insert(s.next + 1, key(i));
        s.next + 1
    });
    let e = |e: Error| format!("user {i} is not admitted: {e}");
    let c = Memory::connect(endpoint, true, Limiter::none()).await.map_err(e)?;
    c.send_message(Message::AuthenticateWithPermit(AuthenticateWithPermit { permit })).await.map_err(e)?;
    match timeout(Duration::from_secs(10), c.recv_message()).await {
        Ok(Ok(Message::AuthenticateResponse(r))) if r.permit == 1 => {}
        other => return Err(format!("a valid permit was answered by {:?}", other.map(|r| r.map_err(|e| e.to_string())))),
    }
    c.send_message(Message::Subscribe(topics(bits))).await.map_err(e)?;
    Ok(c)
}

/// Waits until everything reaches whom it should.
async fn settle(c: &Case, conns: &[Connection]) -> std::result::Result<(), String> {
    let n = conns.len();
    let until = Instant::now() + Duration::from_secs(45);
    for round in 0u32.. {
        let tag = |from: usize| [b"settle".as_slice(), &round.to_be_bytes(), &(from as u32).to_be_bytes()].concat();
        for (i, s) in conns.iter().enumerate() {
            let mut all: Vec<Dest> = (0..n).map(Dest::User).collect();
            all.extend([Dest::Topics(1), Dest::Topics(2)]);
            for d in all {
                s.send_message(message(d, tag(i))).await.map_err(|e| format!("user {i} was disconnected: {e}"))?;
            }
        }
        let mut whole = true;
        for (u, s) in conns.iter().enumerate() {
            let mut want = n * (1 + topics(c.users[u].1).len());
            while want > 0 {
                match timeout(Duration::from_millis(300), s.recv_message()).await {
                    Ok(Ok(Message::Direct(Direct { message: m, .. }) | Message::Broadcast(Broadcast { message: m, .. }))) => {
                        if m[..10] == tag(0)[..10] {
                            want -= 1;
                        }
                    }
                    Ok(Ok(m)) => return Err(format!("user {u} received {m:?}")),
                    Ok(Err(e)) => return Err(format!("user {u} was disconnected: {e}")),
                    Err(_) => break,
                }
            }
            whole &= want == 0;
        }
        if whole {
            return Ok(());
        }
        if Instant::now() > until {
            return Err("after 45 s there still is somebody who is not reached".into());
        }
        sleep(Duration::from_millis(700)).await;
    }
    unreachable!()
}

async fn receive(c: Case, plans: Arc<Vec<Vec<(Dest, usize)>>>, me: usize, conn: Connection) -> std::result::Result<usize, String> {
    let mine = |d: &Dest| match d {
        Dest::User(u) => *u == me,
        Dest::Topics(t) => t & c.users[me].1 != 0,
    };
    // What is still to come, per sender
    let mut to_come: Vec<Vec<usize>> = plans
        .iter()
        .map(|p| (0..p.len()).rev().filter(|s| mine(&p[*s].0)).collect())
        .collect();
    let mut left: usize = to_come.iter().map(Vec::len).sum();
    let mut got = 0;
    loop {
        let patience = if left == 0 { Duration::from_millis(300) } else { Duration::from_secs(20) };
        let m = match timeout(patience, conn.recv_message()).await {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => return Err(format!("user {me} was disconnected: {e}")),
            Err(_) => break,
        };
        let b = match &m {
            Message::Direct(d) => &d.message,
            Message::Broadcast(b) => &b.message,
            m => return Err(format!("user {me} received {m:?}")),
        };
        if b.starts_with(b"settle") {
            continue;
        }
        let sender = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
        let seq = u32::from_be_bytes(b[4..8].try_into().unwrap()) as usize;
        let Some((dest, len)) = plans.get(sender).and_then(|p| p.get(seq)) else {
            return Err(format!("user {me} received a message that nobody sent"));
        };
        if m != message(*dest, body(sender, seq, *len)) {
            return Err(format!("message {seq} of user {sender} was changed on its way to user {me}"));
        }
        if !mine(dest) {
            return Err(format!("user {me} received message {seq} of user {sender}, which is for {dest:?}"));
        }
        let Some(at) = to_come[sender].iter().rposition(|s| *s == seq) else {
            return Err(if c.what == What::Order {
                format!("user {me} received message {seq} of user {sender} again, or after a later one")
            } else {
                format!("user {me} received message {seq} of user {sender} again")
            });
        };
        if c.what == What::Order {
            // Those in between are lost, or they come later
            left -= to_come[sender].len() - 1 - at;
            to_come[sender].truncate(at);
        } else {
            to_come[sender].remove(at);
        }
        left -= 1;
        got += 1;
    }
    if left > 0 && c.what != What::Order {
        let (s, q) = to_come.iter().enumerate().find(|q| !q.1.is_empty()).unwrap();
        return Err(format!("{left} messages never reached user {me}, the first is message {:?} of user {s} ({:?})", q.last(), plans[s][*q.last().unwrap()]));
    }
    Ok(got)
}

pub fn run(c: &Case, rec: &mut Rec) -> CaseResult {
    static N: Mutex<u64> = Mutex::new(0);
    let n = {
        let mut n = N.lock().unwrap();
        *n += 1;
        *n
    };
    let path: Arc<str> = format!("flow-{n}").into();
    let r = run_live(c.threads, async {
        let mut brokers = vec![];
        // The last one that starts dials the others
        for b in (0..c.brokers).rev() {
            let broker: Broker<FlowRun> = Broker::new(Config {
                public_advertise_endpoint: format!("{path}-{b}"),
                public_bind_endpoint: format!("{path}-{b}"),
                private_advertise_endpoint: format!("p{path}-{b}"),
                private_bind_endpoint: format!("p{path}-{b}"),
                metrics_bind_endpoint: None,
                discovery_endpoint: path.to_string(),
                keypair: keypair(BROKER_KEY),
                user_message_hook: NoMessageHook,
                broker_message_hook: NoMessageHook,
                ca_cert_path: None,
                ca_key_path: None,
                global_memory_pool_size: c.pool,
            })
            .await
            .map_err(|e| format!("no broker: {e}"))?;
            brokers.push(tokio::spawn(broker.start()));
            sleep(Duration::from_millis(30)).await;
        }
        let mut conns = vec![];
        for (i, (b, bits)) in c.users.iter().enumerate() {
            conns.push(login(&path, &format!("{path}-{}", b % c.brokers), i, *bits).await?);
        }
        settle(c, &conns).await?;

        let plans: Arc<Vec<_>> = Arc::new((0..c.users.len()).map(|i| plan(c, i)).collect());
        let mut tasks = vec![];
        for (i, conn) in conns.iter().enumerate() {
            tasks.push(tokio::spawn(receive(c.clone(), plans.clone(), i, conn.clone())));
            let (plans, conn, pauses) = (plans.clone(), conn.clone(), c.seed >> (i % 8) & 1 == 1);
            tasks.push(tokio::spawn(async move {
                for (seq, (dest, len)) in plans[i].iter().enumerate() {
                    conn.send_message(message(*dest, body(i, seq, *len)))
                        .await
                        .map_err(|e| format!("user {i} was disconnected: {e}"))?;
                    if pauses && seq % 16 == 0 {
                        tokio::task::yield_now().await;
                    }
                }
                Ok(0)
            }));
        }
        let mut got = 0;
        for t in tasks {
            got += t.await.map_err(|e| format!("a user panicked: {e}"))??;
        }
        if brokers.iter().any(tokio::task::JoinHandle::is_finished) {
            return Err("a broker exited".to_string());
        }
        brokers.iter().for_each(tokio::task::JoinHandle::abort);
        Ok(got)
    });
    let got: usize = r?;
    rec.nontrivial = got >= 3;
    rec.note = format!("{got} messages received");
    rec.tag(format!("{} brokers", c.brokers));
    rec.tag_if(c.large < 1_000_000, "large messages");
    Ok(())
}
