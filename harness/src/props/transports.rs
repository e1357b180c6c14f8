//! C11 and C12: the real transports, in real time over the loopback interface.

use std::{
    sync::{
        atomic::{AtomicU16, Ordering},
        Arc, Mutex, OnceLock,
    },
    time::{Duration, Instant},
};

use cdn_proto::{
    connection::{
        limiter::Limiter,
        protocols::{memory::Memory, quic::Quic, tcp::Tcp, tcp_tls::TcpTls, Connection, Listener, Protocol, UnfinalizedConnection},
        Bytes,
    },
    crypto::tls::{generate_cert_from_ca, load_ca, LOCAL_CA_CERT, LOCAL_CA_KEY, PROD_CA_CERT},
};
use proptest::prelude::*;
use rcgen::{date_time_ymd, BasicConstraints, CertificateParams, DnType, IsCa, KeyPair, SanType};
use rustls::pki_types::{CertificateDer, PrivateKeyDer, PrivatePkcs8KeyDer};
use serde::{Deserialize, Serialize};
use tokio::time::{sleep, timeout};

use super::codec::Blob;
use crate::{
    engine::{boxed, fixed, part, CaseResult, Opts, Property, Rec},
    live::run_live,
};

/// An address nobody else uses.
fn address() -> String {
    static PORT: AtomicU16 = AtomicU16::new(0);
    static BASE: OnceLock<u16> = OnceLock::new();
    let base = *BASE.get_or_init(|| 10_000 + (std::process::id() % 40) as u16 * 100);
    format!("127.0.0.1:{}", base + PORT.fetch_add(1, Ordering::Relaxed) % 18_000)
}

pub(super) type Identity = (CertificateDer<'static>, PrivateKeyDer<'static>);

pub(super) fn local_identity() -> Identity {
    static ID: OnceLock<Identity> = OnceLock::new();
    let (c, k) = ID.get_or_init(|| generate_cert_from_ca(LOCAL_CA_CERT, LOCAL_CA_KEY).expect("a certificate"));
    (c.clone(), k.clone_key())
}

/// Binds to a free address.
pub(super) async fn bind<P: Protocol>(id: Identity) -> Result<(P::Listener, String), String> {
    let mut last = String::new();
    for _ in 0..50 {
        let at = address();
        match P::bind(&at, id.0.clone(), id.1.clone_key()).await {
            Ok(l) => return Ok((l, at)),
            Err(e) => last = e.to_string(),
        }
    }
    Err(format!("cannot bind: {last}"))
}

/// A failure that a very slow machine might cause, too: it has to happen every time.
pub(super) const SLOW: &str = "(each of 3 times) ";

pub(super) fn thrice(mut f: impl FnMut() -> CaseResult) -> CaseResult {
    let mut last = Ok(());
    for _ in 0..3 {
        last = f();
        match &last {
            Err(m) if m.starts_with(SLOW) => {}
            _ => return last,
        }
    }
    last
}

// --- C11 -------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Proto {
    Tcp,
    Tls,
    Quic,
    Memory,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Finale {
    /// This side closes softly after its last message, and drops the connection at once.
    SoftClose { client: bool },
    /// Both wait for everything, then this side drops the connection.
    Drop { client: bool },
    /// This side drops the connection without waiting for anything.
    Abandon { client: bool },
    /// Both close softly after their last messages.
    Mutual,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Session {
    up: Vec<Blob>,
    down: Vec<Blob>,
    finale: Finale,
    /// Microseconds before it connects.
    delay: u16,
    /// Microseconds between an accept and its finalization.
    slow: u16,
    /// Whether a side that closes has been reading what the other sends.
    reads: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    proto: Proto,
    sessions: Vec<Session>,
    cap: Option<usize>,
    threads: usize,
}

fn strat() -> BoxedStrategy<Case> {
    strat_of(|| {
        boxed(prop_oneof![
            4 => proptest::collection::vec(any::<u8>(), 0..40).prop_map(Blob::Lit),
            3 => (0..5_000u32, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }),
            1 => (0..80_000u32, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }),
        ])
    })
}
fn strat_large() -> BoxedStrategy<Case> {
    strat_of(|| boxed((0..4_000_000u32, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed })))
}

fn strat_of(msg: fn() -> BoxedStrategy<Blob>) -> BoxedStrategy<Case> {
    let finale = prop_oneof![
        4 => any::<bool>().prop_map(|client| Finale::SoftClose { client }),
        2 => any::<bool>().prop_map(|client| Finale::Drop { client }),
        1 => any::<bool>().prop_map(|client| Finale::Abandon { client }),
        2 => Just(Finale::Mutual),
    ];
    let session = (
        proptest::collection::vec(msg(), 0..5),
        proptest::collection::vec(msg(), 0..5),
        finale,
        prop_oneof![3 => Just(0u16), 1 => 0..3_000u16],
        prop_oneof![3 => Just(0u16), 1 => 0..3_000u16],
        prop_oneof![3 => Just(true), 1 => Just(false)],
    )
        .prop_map(|(up, down, finale, delay, slow, reads)| Session { up, down, finale, delay, slow, reads });
    boxed((
        prop_oneof![Just(Proto::Tcp), Just(Proto::Tls), Just(Proto::Quic), Just(Proto::Memory)],
        prop_oneof![2 => proptest::collection::vec(session.clone(), 1..3), 2 => proptest::collection::vec(session, 3..10)],
        proptest::option::weighted(0.3, 1..3usize),
        1..4usize,
    )
        .prop_map(|(proto, sessions, cap, threads)| Case { proto, sessions, cap, threads }))
}

const WAIT: Duration = Duration::from_secs(20);

/// Sends, receives, and ends as one side of a session.
async fn play(conn: Connection, client: bool, s: &Session, proto: Proto, who: &str) -> CaseResult {
    let (mine, theirs) = if client { (&s.up, &s.down) } else { (&s.down, &s.up) };
    let theirs: Vec<Vec<u8>> = theirs.iter().map(Blob::bytes).collect();
    let mine: Vec<Vec<u8>> = mine.iter().map(Blob::bytes).collect();
    let quic = proto == Proto::Quic;
    let lingers = matches!(proto, Proto::Quic | Proto::Memory);
    let (soft, closes, abandons) = match s.finale {
        Finale::Mutual => (true, false, false),
        Finale::SoftClose { client: c } => (c == client, c == client, false),
        Finale::Drop { .. } => (false, false, false),
        Finale::Abandon { client: c } => (false, false, c == client),
    };
    // Whether the other side may go before it has everything, or before it has sent everything.
    let other_may_go = match s.finale {
        Finale::SoftClose { client: c } | Finale::Abandon { client: c } => c != client,
        _ => false,
    };
    let other_soft = match s.finale {
        Finale::Mutual => true,
        Finale::SoftClose { client: c } => c != client,
        _ => false,
    };
    let send_all = async {
        for (i, m) in mine.iter().enumerate() {
            match timeout(WAIT, conn.send_message_raw(Bytes::from_unchecked(m.clone()))).await {
                Err(_) => return Err(format!("{SLOW}{who}: sending message {i} hangs")),
                Ok(Err(e)) if !other_may_go => return Err(format!("{who}: sending message {i} fails: {e}")),
                _ => {}
            }
        }
        if soft {
            match timeout(WAIT, conn.soft_close()).await {
                Err(_) => return Err(format!("{SLOW}{who}: closing softly hangs")),
                // (Over QUIC it may fail if the other side goes right after it has received everything: quinn does
                // not tell the peer of a closed connection while it may not send, so nothing is acknowledged.)
                Ok(Err(e)) if !other_may_go && !quic => return Err(format!("{who}: closing softly fails: {e}")),
                _ => {}
            }
        }
        Ok(())
    };
    // How many messages must come, and whether the connection is then over
    let must = match s.finale {
        _ if closes || abandons => 0,
        Finale::Abandon { .. } => 0,
        _ => theirs.len(),
    };
    let receive_all = async {
        if closes && lingers && !s.reads || abandons {
            return Ok(());
        }
        for (i, m) in theirs.iter().enumerate() {
            match timeout(WAIT, conn.recv_message_raw()).await {
                Ok(Ok(b)) if *b == *m => {}
                Ok(Ok(b)) => return Err(format!("{who}: message {i} should have {} bytes; {} others came", m.len(), b.len())),
                Ok(Err(e)) if i < must => {
                    return Err(format!("{who}: receiving message {i} of {} fails: {e}", theirs.len()));
                }
                Ok(Err(_)) => return Ok(()),
                Err(_) => return Err(format!("{SLOW}{who}: message {i} does not come, nor does receiving fail")),
            }
        }
        Ok(())
    };
    if closes {
        // It goes as soon as it has closed. (Where a soft close does not wait for the other side, a connection
        // on which data came that nobody received is reset when it is dropped: K3, the part "unread".)
        if !lingers {
            let (a, b) = tokio::join!(send_all, receive_all);
            a?;
            b?;
        } else {
            tokio::pin!(receive_all);
            tokio::pin!(send_all);
            let mut reading = true;
            loop {
                tokio::select! {
                    r = &mut send_all => { r?; break }
                    r = &mut receive_all, if reading => { r?; reading = false }
                }
            }
        }
        drop(conn);
        return Ok(());
    }
    let (a, b) = tokio::join!(send_all, receive_all);
    a?;
    b?;
    let goes = match s.finale {
        Finale::Drop { client: c } | Finale::Abandon { client: c } => c == client,
        Finale::Mutual => client,
        Finale::SoftClose { .. } => false,
    };
    if goes {
        if let Finale::Drop { .. } = s.finale {
            // The other side says when it has everything
            match timeout(WAIT, conn.recv_message_raw()).await {
                Ok(Ok(b)) if *b == DONE => {}
                Ok(o) => return Err(format!("{who}: something else came at the end: {:?}", o.map(|b| b.len()).map_err(|e| e.to_string()))),
                Err(_) => return Err(format!("{SLOW}{who}: the last message does not come")),
            }
        }
        drop(conn);
        return Ok(());
    }
    if let Finale::Drop { .. } = s.finale {
        let _ = conn.send_message_raw(Bytes::from_unchecked(DONE.to_vec())).await;
    }
    let _ = other_soft;
    // The other side is gone, or will be
    // (which QUIC may find out only when it has been idle for 30 s)
    match timeout(WAIT + Duration::from_secs(20), conn.recv_message_raw()).await {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(b)) => Err(format!("{who}: {} bytes that nobody sent are received", b.len())),
        Err(_) => Err(format!("{SLOW}{who}: receiving hangs though the other side is gone")),
    }
}
const DONE: &[u8] = b"that is all";

async fn session<P: Protocol>(c: &Case) -> CaseResult {
    let proto = c.proto;
    let (listener, at) = bind::<P>(local_identity()).await?;
    let n = c.sessions.len();
    let sessions = Arc::new(c.sessions.clone());
    let limiter = Limiter::new(None, c.cap);
    let seen: Arc<Mutex<Vec<usize>>> = Arc::default();
    let mut servers = tokio::task::JoinSet::new();
    let mut clients = tokio::task::JoinSet::new();
    for i in 0..n {
        let (at, sessions, limiter) = (at.clone(), sessions.clone(), limiter.clone());
        clients.spawn(async move {
            let s = &sessions[i];
            let who = format!("client {i}");
            if s.delay > 0 {
                sleep(Duration::from_micros(s.delay.into())).await;
            }
            let conn = match timeout(WAIT, P::connect(&at, true, limiter)).await {
                Err(_) => return Err(format!("{SLOW}{who}: connecting hangs")),
                Ok(Err(e)) => return Err(format!("{SLOW}{who}: cannot connect: {e}")),
                Ok(Ok(c)) => c,
            };
            let hello = [b"hello".to_vec(), vec![i as u8]].concat();
            conn.send_message_raw(Bytes::from_unchecked(hello)).await.map_err(|e| format!("{who}: {e}"))?;
            match timeout(WAIT, conn.recv_message_raw()).await {
                Err(_) => return Err(format!("{SLOW}{who}: no answer to the first message")),
                Ok(Err(e)) => return Err(format!("{who}: receiving the first answer fails: {e}")),
                Ok(Ok(b)) if b.len() == 3 && b[..2] == *b"ok" && usize::from(b[2]) == i => {}
                Ok(Ok(b)) => return Err(format!("{who}: received what was meant for another: {:?}", &b[..b.len().min(20)])),
            }
            // The server may go as soon as it knows that its answer came
            conn.send_message_raw(Bytes::from_unchecked(b"go".to_vec())).await.map_err(|e| format!("{who}: {e}"))?;
            play(conn, true, s, proto, &who).await
        });
    }
    for k in 0..n {
        let un = match timeout(WAIT, listener.accept()).await {
            Err(_) => return Err(format!("{SLOW}the listener does not accept connection {k}")),
            Ok(Err(e)) => return Err(format!("the listener fails at connection {k}: {e}")),
            Ok(Ok(u)) => u,
        };
        let (sessions, limiter, seen) = (sessions.clone(), limiter.clone(), seen.clone());
        servers.spawn(async move {
            let slow = sessions[k].slow;
            if slow > 0 {
                sleep(Duration::from_micros(slow.into())).await;
            }
            let conn = match timeout(WAIT, un.finalize(limiter)).await {
                Err(_) => return Err(format!("{SLOW}accepted {k}: finalizing hangs")),
                Ok(Err(e)) => return Err(format!("{SLOW}accepted {k}: finalizing fails: {e}")),
                Ok(Ok(c)) => c,
            };
            let hello = match timeout(WAIT, conn.recv_message_raw()).await {
                Err(_) => return Err(format!("{SLOW}accepted {k}: no first message")),
                Ok(Err(e)) => return Err(format!("accepted {k}: receiving the first message fails: {e}")),
                Ok(Ok(b)) => b,
            };
            if hello.len() != 6 || hello[..5] != *b"hello" || usize::from(hello[5]) >= sessions.len() {
                return Err(format!("accepted {k}: the first message is garbled"));
            }
            let i = usize::from(hello[5]);
            {
                let mut seen = seen.lock().unwrap();
                if seen.contains(&i) {
                    return Err(format!("two accepted connections are paired with client {i}"));
                }
                seen.push(i);
            }
            conn.send_message_raw(Bytes::from_unchecked(vec![b'o', b'k', i as u8])).await.map_err(|e| e.to_string())?;
            match timeout(WAIT, conn.recv_message_raw()).await {
                Ok(Ok(b)) if b[..] == *b"go" => {}
                // A client that abandons its connection may take this message back
                Ok(Err(_)) if sessions[i].finale == (Finale::Abandon { client: true }) => return Ok(()),
                o => return Err(format!("accepted {k}: the second message: {o:?}", o = o.map(|r| r.map(|b| b.len())))),
            }
            play(conn, false, &sessions[i], proto, &format!("the server of client {i}")).await
        });
    }
    let mut slow = None;
    for set in [&mut servers, &mut clients] {
        while let Some(r) = set.join_next().await {
            match r {
                Ok(Ok(())) => {}
                Ok(Err(m)) if m.starts_with(SLOW) => {
                    slow.get_or_insert(m);
                }
                Ok(Err(m)) => return Err(m),
                Err(e) => return Err(format!("a task panicked: {e}")),
            }
        }
    }
    drop(listener);
    slow.map_or(Ok(()), Err)
}

fn run(c: &Case, rec: &mut Rec) -> CaseResult {
    thrice(|| {
        let begun = Instant::now();
        let r = run_live(c.threads, async {
            match c.proto {
                Proto::Tcp => session::<Tcp>(c).await,
                Proto::Tls => session::<TcpTls>(c).await,
                Proto::Quic => session::<Quic>(c).await,
                Proto::Memory => session::<Memory>(c).await,
            }
        });
        rec.note = format!("{:?}: {} sessions in {:?}", c.proto, c.sessions.len(), begun.elapsed());
        r.map_err(|m| match m.strip_prefix(SLOW) {
            Some(x) => format!("{SLOW}{:?}: {x}", c.proto),
            None => format!("{:?}: {m}", c.proto),
        })
    })?;
    rec.tag(format!("{:?}", c.proto));
    rec.tag_if(c.sessions.len() > 1, "several at once");
    for s in &c.sessions {
        rec.tag(format!("{:?}", s.finale));
    }
    if c.sessions.iter().any(|s| !s.up.is_empty() || !s.down.is_empty()) {
        rec.nontrivial();
    }
    Ok(())
}

/// A sender that closes softly and goes, and a receiver that takes its time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unhurried {
    proto: Proto,
    from_client: bool,
    msgs: Vec<Blob>,
    cap: Option<usize>,
    /// Milliseconds that the receiver waits: before it looks at the connection, and before each of its first messages.
    first: u16,
    each: Vec<u16>,
    threads: usize,
    #[serde(default)]
    way: Option<Way>,
}

fn unhurried_strat() -> BoxedStrategy<Unhurried> {
    let msg = prop_oneof![
        2 => (0..3_000u32, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }),
        2 => (0..200_000u32, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }),
        1 => (0..3_000_000u32, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }),
    ];
    boxed((
        prop_oneof![Just(Proto::Tcp), Just(Proto::Tls), Just(Proto::Quic), Just(Proto::Memory)],
        any::<bool>(),
        proptest::collection::vec(msg, 1..6),
        proptest::option::weighted(0.7, 1..3usize),
        prop_oneof![1 => Just(0u16), 2 => 0..300u16],
        proptest::collection::vec(0..200u16, 0..3),
        1..4usize,
    )
        .prop_map(|(proto, from_client, msgs, cap, first, each, threads)| Unhurried { proto, from_client, msgs, cap, first, each, threads, way: None }))
}
fn distant_strat() -> BoxedStrategy<Unhurried> {
    let msg = prop_oneof![
        2 => (0..3_000u32, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }),
        1 => (0..40_000u32, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }),
    ];
    let way = (prop_oneof![1 => Just(0u16), 3 => 0..120u16], prop_oneof![1 => Just(0u16), 1 => 0..100u16], any::<u64>(), prop_oneof![9 => Just(false), 1 => Just(true)])
        .prop_map(|(delay, loss, seed, severed)| Way { delay, loss, seed, severed });
    boxed((any::<bool>(), proptest::collection::vec(msg, 1..6), proptest::option::weighted(0.3, 1..3usize), 1..4usize, way).prop_map(
        |(from_client, msgs, cap, threads, way)| Unhurried { proto: Proto::Quic, from_client, msgs, cap, first: 0, each: vec![], threads, way: Some(way) },
    ))
}

/// What is between the two (for QUIC).
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
struct Way {
    /// Milliseconds each way.
    delay: u16,
    /// Of 1000 packets, how many are lost.
    loss: u16,
    seed: u64,
    /// Nothing gets through any more once the messages are sent.
    severed: bool,
}

/// Forwards packets to an address, for one client. Returns where it listens.
async fn relay(to: String, way: Way, severed: Arc<std::sync::atomic::AtomicBool>) -> Result<String, String> {
    use tokio::net::UdpSocket;
    let front = Arc::new(UdpSocket::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?);
    let back = Arc::new(UdpSocket::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?);
    back.connect(&to).await.map_err(|e| e.to_string())?;
    let at = front.local_addr().map_err(|e| e.to_string())?.to_string();
    let client: Arc<Mutex<Option<std::net::SocketAddr>>> = Arc::default();
    for up in [true, false] {
        let (front, back, client, way, severed) = (front.clone(), back.clone(), client.clone(), way.clone(), severed.clone());
        tokio::spawn(async move {
            let mut rng = way.seed ^ u64::from(up);
            let mut buf = vec![0; 70_000];
            loop {
                let n = if up {
                    match front.recv_from(&mut buf).await {
                        Ok((n, from)) => {
                            *client.lock().unwrap() = Some(from);
                            n
                        }
                        Err(_) => continue,
                    }
                } else {
                    match back.recv(&mut buf).await {
                        Ok(n) => n,
                        Err(_) => continue,
                    }
                };
                rng = rng.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
                if severed.load(Ordering::SeqCst) || (rng >> 33) % 1000 < u64::from(way.loss) {
                    continue;
                }
                let packet = buf[..n].to_vec();
                let (front, back, client) = (front.clone(), back.clone(), client.clone());
                let delay = way.delay;
                tokio::spawn(async move {
                    sleep(Duration::from_millis(delay.into())).await;
                    if up {
                        let _ = back.send(&packet).await;
                    } else {
                        let to = *client.lock().unwrap();
                        if let Some(to) = to {
                            let _ = front.send_to(&packet, to).await;
                        }
                    }
                });
            }
        });
    }
    Ok(at)
}

async fn unhurried<P: Protocol>(c: &Unhurried, rec: &mut Rec) -> CaseResult {
    let (listener, mut at) = bind::<P>(local_identity()).await?;
    let severed = Arc::new(std::sync::atomic::AtomicBool::new(false));
    if let Some(way) = &c.way {
        at = relay(at, way.clone(), severed.clone()).await?;
    }
    let sever = c.way.as_ref().is_some_and(|w| w.severed);
    let limiter = Limiter::new(None, c.cap);
    let accept = async {
        let c = listener.accept().await?.finalize(limiter.clone()).await?;
        // A QUIC stream is not there before something is sent on it
        let _ = c.recv_message_raw().await?;
        Ok::<_, cdn_proto::error::Error>(c)
    };
    let connect = async {
        let c = P::connect(&at, true, limiter.clone()).await?;
        c.send_message_raw(Bytes::from_unchecked(vec![0])).await?;
        Ok::<_, cdn_proto::error::Error>(c)
    };
    let (server, client) = match timeout(WAIT, async { tokio::join!(accept, connect) }).await {
        Err(_) => return Err(format!("{SLOW}connecting hangs")),
        Ok((Ok(a), Ok(b))) => (a, b),
        Ok((a, b)) => return Err(format!("{SLOW}connecting fails: {:?} {:?}", a.err(), b.err())),
    };
    let (from, to) = if c.from_client { (client, server) } else { (server, client) };
    let msgs: Vec<Vec<u8>> = c.msgs.iter().map(Blob::bytes).collect();
    let sent = msgs.clone();
    severed.store(sever, Ordering::SeqCst);
    let sender = tokio::spawn(async move {
        for m in sent {
            if from.send_message_raw(Bytes::from_unchecked(m)).await.is_err() {
                return false;
            }
        }
        let closed = from.soft_close().await.is_ok();
        drop(from);
        closed
    });
    sleep(Duration::from_millis(c.first.into())).await;
    let mut got = vec![];
    let end = loop {
        if sever && got.is_empty() {
            break Ok("severed".into());
        }
        if let Some(ms) = c.each.get(got.len()) {
            sleep(Duration::from_millis((*ms).into())).await;
        }
        match timeout(WAIT, to.recv_message_raw()).await {
            Err(_) => break Err(format!("{SLOW}receiving hangs after {} messages though the other side closed", got.len())),
            Ok(Err(e)) => break Ok(e.to_string()),
            Ok(Ok(b)) => got.push(b.to_vec()),
        }
    };
    let end: String = end?;
    let closed = match timeout(WAIT, sender).await {
        Err(_) => return Err(format!("{SLOW}closing softly hangs")),
        Ok(r) => r.map_err(|e| e.to_string())?,
    };
    if got.len() > msgs.len() || got.iter().zip(&msgs).any(|(a, b)| a != b) {
        return Err("other messages were received than were sent".into());
    }
    rec.tag(if closed { "closed" } else { "not closed" });
    if closed && got.len() < msgs.len() {
        return Err(format!("soft close succeeded, but only {} of {} messages arrived: {end}", got.len(), msgs.len()));
    }
    let waits = u64::from(c.first) + c.each.iter().map(|x| u64::from(*x)).sum::<u64>();
    if !closed && waits < 2_000 && !sever && c.way.as_ref().is_none_or(|w| w.loss == 0) {
        return Err(format!("{SLOW}soft close fails though the other side receives ({} of {})", got.len(), msgs.len()));
    }
    Ok(())
}

fn run_unhurried(c: &Unhurried, rec: &mut Rec) -> CaseResult {
    thrice(|| {
        run_live(c.threads, async {
            match c.proto {
                Proto::Tcp => unhurried::<Tcp>(c, rec).await,
                Proto::Tls => unhurried::<TcpTls>(c, rec).await,
                Proto::Quic => unhurried::<Quic>(c, rec).await,
                Proto::Memory => unhurried::<Memory>(c, rec).await,
            }
        })
        .map_err(|m| match m.strip_prefix(SLOW) {
            Some(x) => format!("{SLOW}{:?}: {x}", c.proto),
            None => format!("{:?}: {m}", c.proto),
        })
    })?;
    rec.tag(format!("{:?}", c.proto));
    if c.first > 0 || !c.each.is_empty() || c.way.is_some() {
        rec.nontrivial();
    }
    Ok(())
}

/// Receivers that pause for longer than a sender waits for them.
fn stalled() -> Vec<Unhurried> {
    [Proto::Quic]
        .into_iter()
        .map(|proto| Unhurried {
            proto,
            from_client: true,
            msgs: (0..5).map(|seed| Blob::Gen { len: 1_000_000, seed }).collect(),
            cap: Some(1),
            first: 4_300,
            each: vec![],
            threads: 2,
            way: None,
        })
        .collect()
}

/// Connections over which nothing is said for a while, and one whose other side vanishes without a word.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Idle {
    secs: u64,
}

async fn idle_of<P: Protocol>(c: &Idle, quic: bool) -> CaseResult {
    let (listener, at) = bind::<P>(local_identity()).await?;
    let severed = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mut pairs = vec![];
    for vanish in [false, true] {
        if vanish && !quic {
            continue;
        }
        let at = if vanish { relay(at.clone(), Way::default(), severed.clone()).await? } else { at.clone() };
        let accept = async {
            let c = listener.accept().await?.finalize(Limiter::none()).await?;
            let _ = c.recv_message_raw().await?;
            Ok::<_, cdn_proto::error::Error>(c)
        };
        let connect = async {
            let c = P::connect(&at, true, Limiter::none()).await?;
            c.send_message_raw(Bytes::from_unchecked(vec![0])).await?;
            Ok::<_, cdn_proto::error::Error>(c)
        };
        match timeout(WAIT, async { tokio::join!(accept, connect) }).await {
            Err(_) => return Err(format!("{SLOW}connecting hangs")),
            Ok((Ok(a), Ok(b))) => pairs.push((a, b)),
            Ok((a, b)) => return Err(format!("{SLOW}connecting fails: {:?} {:?}", a.err(), b.err())),
        }
    }
    severed.store(true, Ordering::SeqCst);
    sleep(Duration::from_secs(c.secs)).await;
    for (x, y) in [(&pairs[0].0, &pairs[0].1), (&pairs[0].1, &pairs[0].0)] {
        x.send_message_raw(Bytes::from_unchecked(vec![3; 300])).await.map_err(|e| format!("sending after {} s of silence fails: {e}", c.secs))?;
        match timeout(WAIT, y.recv_message_raw()).await {
            Ok(Ok(b)) if *b == [3; 300] => {}
            Ok(r) => return Err(format!("receiving after {} s of silence gives {:?}", c.secs, r.map(|b| b.len()))),
            Err(_) => return Err(format!("{SLOW}receiving after {} s of silence hangs", c.secs)),
        }
    }
    if let Some((x, y)) = pairs.get(1) {
        for x in [x, y] {
            match timeout(Duration::from_secs(40), x.recv_message_raw()).await {
                Ok(Err(_)) => {}
                Ok(r) => return Err(format!("receiving from a vanished peer gives {:?}", r.map(|b| b.len()))),
                Err(_) => return Err(format!("receiving from a peer that vanished more than {} s ago hangs", c.secs + 40)),
            }
        }
    }
    Ok(())
}

fn run_idle(c: &Idle, rec: &mut Rec) -> CaseResult {
    rec.nontrivial();
    thrice(|| {
        run_live(3, async {
            let name = |n: &'static str, r: CaseResult| r.map_err(|m| match m.strip_prefix(SLOW) {
                Some(x) => format!("{SLOW}{n}: {x}"),
                None => format!("{n}: {m}"),
            });
            let (a, b, c, d) = tokio::join!(idle_of::<Tcp>(c, false), idle_of::<TcpTls>(c, false), idle_of::<Quic>(c, true), idle_of::<Memory>(c, false));
            name("Tcp", a)?;
            name("Tls", b)?;
            name("Quic", c)?;
            name("Memory", d)
        })
    })
}

/// K3: messages were sent to the one that closes softly and that it did not receive.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unread {
    tls: bool,
    unread: u8,
    len: u32,
}

fn unread() -> Vec<Unread> {
    vec![Unread { tls: false, unread: 3, len: 3500000 }, Unread { tls: true, unread: 3, len: 3500000 }]
}

async fn unread_of<P: Protocol>(c: &Unread) -> CaseResult {
    let (listener, at) = bind::<P>(local_identity()).await?;
    let accept = async { listener.accept().await?.finalize(Limiter::new(None, Some(1))).await };
    let (server, client) = tokio::join!(accept, P::connect(&at, true, Limiter::new(None, Some(1))));
    let (server, client) = (server.map_err(|e| e.to_string())?, client.map_err(|e| e.to_string())?);
    for i in 0..c.unread {
        server.send_message_raw(Bytes::from_unchecked(vec![i; 100])).await.map_err(|e| e.to_string())?;
    }
    server.soft_close().await.map_err(|e| e.to_string())?;
    sleep(Duration::from_millis(100)).await;
    let m = Blob::Gen { len: c.len, seed: 5 }.bytes();
    for _ in 0..3 {
        client.send_message_raw(Bytes::from_unchecked(m.clone())).await.map_err(|e| e.to_string())?;
    }
    if client.soft_close().await.is_err() {
        return Ok(());
    }
    drop(client);
    sleep(Duration::from_millis(200)).await;
    for i in 0..3 {
        match timeout(WAIT, server.recv_message_raw()).await {
            Ok(Ok(b)) if *b == *m => {}
            Ok(Err(_)) => return Err(format!("soft close succeeded, but messages sent before it are lost if the closing side leaves messages to it unreceived ({i} of 3 arrive)")),
            _ => return Err("receiving hangs".into()),
        }
    }
    Ok(())
}

fn run_unread(c: &Unread, rec: &mut Rec) -> CaseResult {
    rec.nontrivial();
    run_live(2, async {
        if c.tls {
            unread_of::<TcpTls>(c).await
        } else {
            unread_of::<Tcp>(c).await
        }
    })
}

// --- C12 -------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Issuer {
    /// What the program makes from the local authority.
    Made,
    /// Signed with the local authority's key.
    Local,
    /// By an authority that has the same name.
    Namesake,
    MadeByNamesake,
    /// By one with the name of the production authority.
    Prod,
    MadeByProd,
    Itself,
    /// By an authority that the local one certified (and that the server does not present).
    Intermediate,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum San {
    Right,
    RightAmongOthers,
    None,
    Other(u8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Valid {
    Now,
    Past,
    Future,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tls {
    quic: bool,
    use_local: bool,
    issuer: Issuer,
    san: San,
    valid: Valid,
    ca: bool,
    alg: u8,
}

fn tls_strat() -> BoxedStrategy<Tls> {
    boxed((
        any::<bool>(),
        prop_oneof![3 => Just(true), 1 => Just(false)],
        prop_oneof![
            2 => Just(Issuer::Made), 6 => Just(Issuer::Local), 1 => Just(Issuer::Namesake), 1 => Just(Issuer::MadeByNamesake),
            1 => Just(Issuer::Prod), 1 => Just(Issuer::MadeByProd), 1 => Just(Issuer::Itself), 1 => Just(Issuer::Intermediate)
        ],
        prop_oneof![3 => Just(San::Right), 1 => Just(San::RightAmongOthers), 1 => Just(San::None), 3 => (0..8u8).prop_map(San::Other)],
        prop_oneof![3 => Just(Valid::Now), 1 => Just(Valid::Past), 1 => Just(Valid::Future)],
        prop_oneof![4 => Just(false), 1 => Just(true)],
        0..3u8,
    )
        .prop_map(|(quic, use_local, issuer, san, valid, ca, alg)| Tls { quic, use_local, issuer, san, valid, ca, alg }))
}

fn new_key(alg: u8) -> KeyPair {
    KeyPair::generate_for(match alg % 3 {
        0 => &rcgen::PKCS_ECDSA_P256_SHA256,
        1 => &rcgen::PKCS_ECDSA_P384_SHA384,
        _ => &rcgen::PKCS_ED25519,
    })
    .expect("a key")
}

fn dns(s: &str) -> SanType {
    SanType::DnsName(s.try_into().expect("a name"))
}

fn names(s: San) -> Vec<SanType> {
    match s {
        San::Right => vec![dns("espresso")],
        San::RightAmongOthers => vec![dns("example.com"), dns("espresso"), SanType::IpAddress([127, 0, 0, 1].into())],
        San::None => vec![],
        San::Other(0) => vec![SanType::IpAddress([127, 0, 0, 1].into())],
        San::Other(1) => vec![dns("localhost")],
        San::Other(2) => vec![dns("espress")],
        San::Other(3) => vec![dns("espresso.com"), dns("espresso-cdn")],
        San::Other(4) => vec![dns("www.espresso")],
        San::Other(5) => vec![dns("*.espresso")],
        San::Other(6) => vec![SanType::Rfc822Name("espresso".try_into().expect("a name"))],
        San::Other(_) => vec![SanType::URI("espresso".try_into().expect("a name"))],
    }
}

fn certificate(c: &Tls) -> Result<Identity, String> {
    let err = |e: rcgen::Error| format!("harness: {e}");
    let made = |cert: &str, key: &str| generate_cert_from_ca(cert, key).map_err(|e| format!("no certificate can be made: {e}"));
    let local = || CertificateParams::from_ca_cert_pem(LOCAL_CA_CERT).map_err(err);
    let local_key = KeyPair::from_pem(LOCAL_CA_KEY).map_err(err)?;
    if c.issuer == Issuer::Made {
        return made(LOCAL_CA_CERT, LOCAL_CA_KEY);
    }
    let mut p = CertificateParams::default();
    p.distinguished_name.push(DnType::CommonName, "a server");
    p.subject_alt_names = names(c.san);
    (p.not_before, p.not_after) = match c.valid {
        Valid::Now => (date_time_ymd(2000, 1, 1), date_time_ymd(2200, 1, 1)),
        Valid::Past => (date_time_ymd(2000, 1, 1), date_time_ymd(2010, 1, 1)),
        Valid::Future => (date_time_ymd(2190, 1, 1), date_time_ymd(2200, 1, 1)),
    };
    if c.ca {
        p.is_ca = IsCa::Ca(BasicConstraints::Unconstrained);
    }
    let key = new_key(c.alg);
    let (ca, ca_key) = match c.issuer {
        Issuer::Local => (local()?.self_signed(&local_key).map_err(err)?, local_key),
        Issuer::Namesake | Issuer::MadeByNamesake => {
            let k = new_key(0);
            (local()?.self_signed(&k).map_err(err)?, k)
        }
        Issuer::Prod | Issuer::MadeByProd => {
            let mut q = CertificateParams::from_ca_cert_pem(PROD_CA_CERT).map_err(err)?;
            q.is_ca = IsCa::Ca(BasicConstraints::Unconstrained);
            let k = new_key(0);
            (q.self_signed(&k).map_err(err)?, k)
        }
        Issuer::Intermediate => {
            let mut q = CertificateParams::default();
            q.distinguished_name.push(DnType::CommonName, "in between");
            q.is_ca = IsCa::Ca(BasicConstraints::Unconstrained);
            let k = new_key(0);
            let root = local()?.self_signed(&local_key).map_err(err)?;
            (q.signed_by(&k, &root, &local_key).map_err(err)?, k)
        }
        Issuer::Made | Issuer::Itself => {
            let cert = p.self_signed(&key).map_err(err)?;
            return Ok((cert.der().clone(), PrivatePkcs8KeyDer::from(key.serialize_der()).into()));
        }
    };
    if matches!(c.issuer, Issuer::MadeByNamesake | Issuer::MadeByProd) {
        return made(&ca.pem(), &ca_key.serialize_pem());
    }
    let cert = p.signed_by(&key, &ca, &ca_key).map_err(err)?;
    Ok((cert.der().clone(), PrivatePkcs8KeyDer::from(key.serialize_der()).into()))
}

/// Whether a client gets through to a server with this certificate (a message must arrive).
async fn reaches<P: Protocol>(id: Identity, use_local: bool) -> Result<Result<(), String>, String> {
    let (listener, at) = bind::<P>(id).await?;
    let server = tokio::spawn(async move {
        let c = listener.accept().await?.finalize(Limiter::none()).await?;
        let m = c.recv_message_raw().await?;
        c.send_message_raw(m).await?;
        let _ = c.recv_message_raw().await;
        Ok::<_, cdn_proto::error::Error>(())
    });
    let r = match timeout(WAIT, P::connect(&at, use_local, Limiter::none())).await {
        Err(_) => return Err(format!("{SLOW}connecting hangs")),
        Ok(Err(e)) => Err(e.to_string()),
        Ok(Ok(c)) => {
            let _ = c.send_message_raw(Bytes::from_unchecked(vec![1, 2, 3])).await;
            match timeout(WAIT, c.recv_message_raw()).await {
                Ok(Ok(_)) => Ok(()),
                Ok(Err(_)) => return Err("the client considers itself connected, but it is not".into()),
                Err(_) => return Err(format!("{SLOW}the client considers itself connected, but hears nothing")),
            }
        }
    };
    server.abort();
    Ok(r)
}

fn run_tls(c: &Tls, rec: &mut Rec) -> CaseResult {
    let id = certificate(c)?;
    let trusted = c.use_local && matches!(c.issuer, Issuer::Made | Issuer::Local);
    let sound = c.issuer == Issuer::Made || matches!(c.san, San::Right | San::RightAmongOthers) && c.valid == Valid::Now;
    thrice(|| {
        let got = run_live(1, async {
            if c.quic {
                reaches::<Quic>((id.0.clone(), id.1.clone_key()), c.use_local).await
            } else {
                reaches::<TcpTls>((id.0.clone(), id.1.clone_key()), c.use_local).await
            }
        })?;
        match &got {
            Ok(()) if !trusted => return Err("the client accepted a server that its authority did not certify".into()),
            Ok(()) if !sound => return Err("the client accepted a certificate of another name or time".into()),
            Err(e) if c.issuer == Issuer::Made && c.use_local => {
                return Err(format!("{SLOW}a server with a certificate made from the local authority is refused: {e}"))
            }
            _ => {}
        }
        rec.tag(format!("{:?}{}", c.issuer, if got.is_ok() { " accepted" } else { " refused" }));
        rec.note = format!("{got:?}");
        Ok(())
    })?;
    rec.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Authority {
    alg: u8,
    name: String,
    san: bool,
    /// Whether the clients trust this authority, or another one
    trusted: bool,
    usages: bool,
    years: (u8, u8),
    /// The authority is read from files.
    #[serde(default)]
    files: bool,
}

fn authority_strat() -> BoxedStrategy<Authority> {
    boxed((0..3u8, "[a-zA-Z ]{0,12}", any::<bool>(), prop_oneof![2 => Just(true), 1 => Just(false)], any::<bool>(), (0..20u8, 0..100u8), any::<bool>())
        .prop_map(|(alg, name, san, trusted, usages, years, files)| Authority { alg, name, san, trusted, usages, years, files }))
}

/// A certificate made from any authority, presented by a server of the program to clients of another TLS setup.
fn run_authority(c: &Authority, rec: &mut Rec) -> CaseResult {
    let err = |e: rcgen::Error| format!("harness: {e}");
    let make = |alg: u8| -> Result<(rcgen::Certificate, KeyPair), String> {
        let mut p = CertificateParams::default();
        p.distinguished_name.push(DnType::CommonName, c.name.clone());
        p.is_ca = IsCa::Ca(BasicConstraints::Unconstrained);
        if c.san {
            p.subject_alt_names = vec![dns("authority")];
        }
        if c.usages {
            p.key_usages = vec![rcgen::KeyUsagePurpose::KeyCertSign, rcgen::KeyUsagePurpose::CrlSign];
        }
        p.not_before = date_time_ymd(2000 + i32::from(c.years.0), 1, 1);
        p.not_after = date_time_ymd(2030 + i32::from(c.years.1), 1, 1);
        let k = new_key(alg);
        Ok((p.self_signed(&k).map_err(err)?, k))
    };
    let (ca, ca_key) = make(c.alg)?;
    let other = make(c.alg)?.0;
    let (mut ca_pem, mut key_pem) = (ca.pem(), ca_key.serialize_pem());
    if c.files {
        static N: AtomicU16 = AtomicU16::new(0);
        let dir = std::env::temp_dir().join(format!("verif-ca-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir(&dir).map_err(|e| format!("harness: {e}"))?;
        let path = |n: &str, text: &str| {
            let p = dir.join(n);
            std::fs::write(&p, text).map(|()| p.to_string_lossy().into_owned()).map_err(|e| format!("harness: {e}"))
        };
        let loaded = path("ca.crt", &ca_pem).and_then(|a| path("ca.key", &key_pem).map(|b| (a, b))).map(|(a, b)| load_ca(Some(a), Some(b)));
        let _ = std::fs::remove_dir_all(&dir);
        (ca_pem, key_pem) = loaded?.map_err(|e| format!("the authority cannot be read from its files: {e}"))?;
        rec.tag("authority from files");
    }
    let id = generate_cert_from_ca(&ca_pem, &key_pem).map_err(|e| format!("no certificate can be made: {e}"))?;
    let trust = if c.trusted { ca.der().clone() } else { other.der().clone() };
    thrice(|| {
        let mut roots = rustls::RootCertStore::empty();
        roots.add(trust.clone()).map_err(|e| format!("harness: {e}"))?;
        let config = Arc::new(rustls::ClientConfig::builder().with_root_certificates(roots).with_no_client_auth());
        let id = (id.0.clone(), id.1.clone_key());
        let shaken = run_live(1, async move {
            let (listener, at) = bind::<TcpTls>(id).await?;
            let server = tokio::spawn(async move {
                let c = listener.accept().await?.finalize(Limiter::none()).await?;
                let _ = c.recv_message_raw().await;
                Ok::<_, cdn_proto::error::Error>(())
            });
            let r = tokio::task::spawn_blocking(move || {
                let mut tcp = std::net::TcpStream::connect(&at).map_err(|e| format!("{SLOW}harness: {e}"))?;
                let _ = tcp.set_read_timeout(Some(WAIT));
                let mut tls = rustls::ClientConnection::new(config, "espresso".try_into().unwrap()).map_err(|e| format!("harness: {e}"))?;
                while tls.is_handshaking() {
                    if let Err(e) = tls.complete_io(&mut tcp) {
                        return Ok(Err(e.to_string()));
                    }
                }
                Ok::<_, String>(Ok(()))
            })
            .await
            .map_err(|e| e.to_string())?;
            server.abort();
            r
        })?;
        match shaken {
            Ok(()) if !c.trusted => Err("a client that trusts another authority accepts the certificate".into()),
            Err(e) if c.trusted => Err(format!("{SLOW}a client that trusts the authority refuses the certificate made from it: {e}")),
            _ => Ok(()),
        }
    })?;
    rec.tag(if c.trusted { "trusted" } else { "not trusted" });
    rec.nontrivial();
    Ok(())
}

pub fn properties() -> Vec<Property> {
    let live = Opts { det: false, hang_s: 200, ..Opts::default() };
    vec![
        Property {
            id: "C11",
            rule: "sets of concurrent connections over each real transport with messages in both directions and ways to end them; non-trivial: messages are sent after the first exchange",
            parts: vec![
                part("sessions", Opts { quick: 1_500, thorough: 60_000, ..live }, strat, run),
                part("large messages", Opts { quick: 60, thorough: 3_000, ..live }, strat_large, run),
                part("slow receivers", Opts { quick: 80, thorough: 4_000, ..live }, unhurried_strat, run_unhurried),
                part("distance", Opts { quick: 80, thorough: 4_000, ..live }, distant_strat, run_unhurried),
                fixed("stalled receivers", false, stalled, run_unhurried),
                fixed("idle", false, || vec![Idle { secs: 36 }], run_idle),
                fixed("unread", false, unread, run_unread),
            ],
        },
        Property {
            id: "C12",
            rule: "server certificates varying in issuer, names, validity and kind, over both encrypted transports and both trust settings; every case is non-trivial",
            parts: vec![
                part("certificates", Opts { quick: 16_000, thorough: 250_000, ..live }, tls_strat, run_tls),
                part("authorities", Opts { quick: 5_000, thorough: 100_000, ..live }, authority_strat, run_authority),
            ],
        },
    ]
}
