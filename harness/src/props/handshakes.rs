//! C27, over the real transports: handshakes that are begun and never finished.

use std::{
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use cdn_proto::connection::{
    limiter::Limiter,
    protocols::{quic::Quic, tcp_tls::TcpTls, Listener, Protocol, UnfinalizedConnection},
    Bytes,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::{
    io::{AsyncReadExt, AsyncWriteExt},
    net::{TcpListener, TcpStream, UdpSocket},
    time::{sleep, timeout},
};

use super::transports::{bind, local_identity, thrice, SLOW};
use crate::{
    engine::{part, CaseResult, Opts, Part, Rec},
    live::run_live,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    quic: bool,
    offs: Vec<Off>,
    /// When well-behaved clients come, in ms.
    goods: Vec<u64>,
}
/// A client between which and the server so much gets through (bytes over TLS, packets over QUIC), and then nothing
/// more, although neither side goes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Off {
    at: u64,
    up: usize,
    down: usize,
    /// What is beyond `up` gets through at one unit in so many ms.
    drip: Option<u64>,
}

/// For the attempt to be given up: 5 s for each of its two steps.
const GIVEN_UP: Duration = Duration::from_millis(11_500);
const LONG: Duration = Duration::from_secs(13);

async fn tcp_relay(to: String, off: Off) -> Result<String, String> {
    let l = TcpListener::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?;
    let at = l.local_addr().map_err(|e| e.to_string())?.to_string();
    tokio::spawn(async move {
        let Ok((client, _)) = l.accept().await else { return };
        let Ok(server) = TcpStream::connect(&to).await else { return };
        let _ = server.set_nodelay(true);
        let (mut cr, mut cw) = client.into_split();
        let (mut sr, mut sw) = server.into_split();
        tokio::spawn(async move {
            let mut left = off.down;
            let mut b = vec![0; 4096];
            while let Ok(n) = sr.read(&mut b).await {
                if n == 0 {
                    break;
                }
                let n = n.min(left);
                left -= n;
                let _ = cw.write_all(&b[..n]).await;
            }
            // (Not told of the end.)
            sleep(LONG).await;
            drop((sr, cw));
        });
        let mut left = off.up;
        let mut b = vec![0; 4096];
        while let Ok(n) = cr.read(&mut b).await {
            if n == 0 {
                break;
            }
            let m = n.min(left);
            left -= m;
            let _ = sw.write_all(&b[..m]).await;
            if let Some(ms) = off.drip {
                for x in &b[m..n] {
                    sleep(Duration::from_millis(ms)).await;
                    if sw.write_all(&[*x]).await.is_err() {
                        break;
                    }
                }
            }
        }
        sleep(LONG).await;
        drop((cr, sw));
    });
    Ok(at)
}

async fn udp_relay(to: String, off: Off) -> Result<String, String> {
    let front = Arc::new(UdpSocket::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?);
    let back = Arc::new(UdpSocket::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?);
    back.connect(&to).await.map_err(|e| e.to_string())?;
    let at = front.local_addr().map_err(|e| e.to_string())?.to_string();
    let client: Arc<Mutex<Option<std::net::SocketAddr>>> = Arc::default();
    let (f, b, c) = (front.clone(), back.clone(), client.clone());
    tokio::spawn(async move {
        let mut buf = vec![0; 70_000];
        let mut left = off.up;
        let mut last = Instant::now();
        loop {
            let Ok((n, from)) = f.recv_from(&mut buf).await else { continue };
            *c.lock().unwrap() = Some(from);
            if left > 0 {
                left -= 1;
            } else if off.drip.is_some_and(|ms| last.elapsed() >= Duration::from_millis(ms)) {
                last = Instant::now();
            } else {
                continue;
            }
            let _ = b.send(&buf[..n]).await;
        }
    });
    tokio::spawn(async move {
        let mut buf = vec![0; 70_000];
        let mut left = off.down;
        loop {
            let Ok(n) = back.recv(&mut buf).await else { continue };
            if left == 0 {
                continue;
            }
            left -= 1;
            let to = *client.lock().unwrap();
            if let Some(to) = to {
                let _ = front.send_to(&buf[..n], to).await;
            }
        }
    });
    Ok(at)
}

async fn run_on<P: Protocol>(c: &Case, rec: &mut Rec) -> CaseResult {
    let (listener, at) = bind::<P>(local_identity()).await?;
    let waiting: Arc<Mutex<Vec<(Instant, Option<(Instant, bool)>)>>> = Arc::default();
    let w = waiting.clone();
    let server = tokio::spawn(async move {
        loop {
            let Ok(u) = listener.accept().await else { continue };
            let mut v = w.lock().unwrap();
            let i = v.len();
            v.push((Instant::now(), None));
            drop(v);
            let w = w.clone();
            tokio::spawn(async move {
                let r = u.finalize(Limiter::none()).await;
                w.lock().unwrap()[i].1 = Some((Instant::now(), r.is_ok()));
                if let Ok(c) = r {
                    while let Ok(m) = c.recv_message_raw().await {
                        if c.send_message_raw(m).await.is_err() {
                            break;
                        }
                    }
                }
            });
        }
    });
    let begun = Arc::new(AtomicUsize::new(0));
    for o in c.offs.clone() {
        let to = at.clone();
        let begun = begun.clone();
        tokio::spawn(async move {
            sleep(Duration::from_millis(o.at)).await;
            let relay = if c_quic::<P>() { udp_relay(to, o).await } else { tcp_relay(to, o).await };
            if let Ok(at) = relay {
                begun.fetch_add(1, Ordering::Relaxed);
                let c = P::connect(&at, true, Limiter::none()).await;
                sleep(LONG).await;
                drop(c);
            }
        });
    }
    let mut goods = vec![];
    for g in c.goods.clone() {
        let at = at.clone();
        goods.push(tokio::spawn(async move {
            sleep(Duration::from_millis(g)).await;
            let begun = Instant::now();
            let c = timeout(LONG, P::connect(&at, true, Limiter::none()))
                .await
                .map_err(|_| "connecting hangs".to_string())?
                .map_err(|e| e.to_string())?;
            c.send_message_raw(Bytes::from_unchecked(vec![7])).await.map_err(|e| e.to_string())?;
            let m = timeout(LONG, c.recv_message_raw()).await.map_err(|_| "there is no answer".to_string())?;
            m.map_err(|e| e.to_string())?;
            Ok::<_, String>(begun.elapsed())
        }));
    }
    let mut slowest = Duration::ZERO;
    for g in goods {
        match g.await.map_err(|e| e.to_string())? {
            Err(e) => return Err(format!("{SLOW}among unfinished handshakes, a well-behaved client did not get through: {e}")),
            Ok(t) if t > Duration::from_secs(4) => {
                return Err(format!("{SLOW}among unfinished handshakes, a well-behaved client needed {t:?}"))
            }
            Ok(t) => slowest = slowest.max(t),
        }
    }
    let last = c.offs.iter().map(|o| o.at).max().unwrap_or(0);
    let begin = Instant::now();
    loop {
        sleep(Duration::from_millis(100)).await;
        let v = waiting.lock().unwrap();
        if let Some(x) = v.iter().find(|x| x.1.map_or_else(Instant::now, |e| e.0) - x.0 > GIVEN_UP) {
            return Err(format!(
                "{SLOW}the server waits {} for a handshake that does not get on",
                x.1.map_or("still, after more than 11.5 s,".to_string(), |e| format!("{:?}", e.0 - x.0))
            ));
        }
        let all = v.iter().all(|x| x.1.is_some());
        if all && begin.elapsed() > Duration::from_millis(last + 7_000) {
            break;
        }
        if begin.elapsed() > Duration::from_secs(30) {
            break;
        }
    }
    server.abort();
    let v = waiting.lock().unwrap();
    let failed = v.iter().filter(|x| !x.1.is_some_and(|e| e.1)).count();
    rec.tag(if c.quic { "QUIC" } else { "TLS" });
    rec.tag_if(failed > 0, "given up");
    rec.nontrivial = failed > 0;
    rec.note = format!(
        "{} handshakes begun, {failed} given up, the longest after {:?}; well-behaved clients within {slowest:?}",
        v.len(),
        v.iter().filter_map(|x| x.1.filter(|e| !e.1).map(|e| e.0 - x.0)).max()
    );
    Ok(())
}
fn c_quic<P: Protocol>() -> bool {
    std::any::type_name::<P>().contains("Quic")
}

fn run(c: &Case, rec: &mut Rec) -> CaseResult {
    thrice(|| {
        let mut r = Rec::default();
        let x = run_live(2, async {
            if c.quic {
                run_on::<Quic>(c, &mut r).await
            } else {
                run_on::<TcpTls>(c, &mut r).await
            }
        });
        *rec = r;
        x
    })
}

fn strat() -> BoxedStrategy<Case> {
    any::<bool>()
        .prop_flat_map(|quic| {
            let up = if quic { prop_oneof![0usize..6, Just(1_000)].boxed() } else { prop_oneof![0usize..8, 0usize..700, 0usize..5000].boxed() };
            let down = if quic { (0usize..8).boxed() } else { prop_oneof![Just(0usize), 0usize..3000].boxed() };
            let off = (0u64..500, up, down, proptest::option::weighted(0.3, 300u64..2_000))
                .prop_map(|(at, up, down, drip)| Off { at, up, down, drip });
            (Just(quic), proptest::collection::vec(off, 1..30), proptest::collection::vec(0u64..5_000, 0..4))
        })
        .prop_map(|(quic, offs, goods)| Case { quic, offs, goods })
        .boxed()
}

pub fn parts() -> Vec<Part> {
    vec![part(
        "handshakes",
        Opts { quick: 16, thorough: 400, det: false, hang_s: 200, ..Opts::default() },
        strat,
        run,
    )]
}
