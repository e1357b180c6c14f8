//! C28: connection and traffic metrics tell the truth.

use std::cell::RefCell;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{
    engine::{fixed, part, CaseResult, Opts, Property, Rec},
    net::{self, NetCfg},
    sim::*,
    wire::{self, Msg},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    brokers: usize,
    lat: u64,
    chunk: usize,
    seed: u64,
    /// The brokers' memory pool
    #[serde(default)]
    pool: Option<usize>,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Login { u: usize, b: usize, topics: Vec<u8> },
    /// Several logins of the same user at the same time.
    Race { u: usize, n: usize },
    /// 0 finish, 1 kill, 2 reset, 3 sends what it must not.
    Logout { n: usize, how: u8 },
    /// A harness-made broker, by its name.
    Link { name: usize, b: usize },
    Unlink { n: usize, how: u8 },
    CutMesh,
    Evict { keep: u8 },
    Refused { b: usize, prv: bool },
    Traffic(Vec<(usize, usize, usize)>),
    Pause(u64),
}

fn metric(name: &str) -> f64 {
    for f in prometheus::gather() {
        if f.get_name() == name {
            let m = &f.get_metric()[0];
            if f.get_field_type() == prometheus::proto::MetricType::HISTOGRAM {
                return m.get_histogram().get_sample_count() as f64;
            }
            return m.get_gauge().get_value();
        }
    }
    // (Registered on first use.)
    0.0
}
fn all() -> [f64; 5] {
    ["num_users_connected", "num_brokers_connected", "total_bytes_sent", "total_bytes_recv", "latency"].map(metric)
}

struct Sess {
    user: usize,
    broker: usize,
    peer: Peer,
    ours: bool,
}
struct Fake {
    name: usize,
    broker: usize,
    peer: Peer,
    ours: bool,
}

fn run(c: &Case, rec: &mut Rec) -> CaseResult {
    let out = RefCell::new(Rec::default());
    let r = run_sim(NetCfg { lat: c.lat, chunk: c.chunk, ..NetCfg::default() }, c.seed, async {
        let base = all();
        let mut w = World::default();
        for b in 0..c.brokers {
            w.start(b, c.pool).await?;
        }
        let ids: Vec<usize> = (0..c.brokers).collect();
        if !meshed(&ids, 40_000).await {
            return Err("the brokers were not linked within 40 s".into());
        }
        let mut sessions: Vec<Sess> = vec![];
        let mut fakes: Vec<Fake> = vec![];
        let (mut changes, mut bytes, mut most, mut dup) = (0, 0.0, 0, 0);
        for (k, op) in c.ops.iter().chain([&Op::Pause(1_000)]).enumerate() {
            match op {
                Op::Login { u, b, topics } => {
                    let b = b % c.brokers;
                    let peer = login(b, *u, topics).await.map_err(|e| format!("login: {e:?}"))?;
                    ms(3 * c.lat + 5).await;
                    if sessions.iter().any(|s| s.user == *u && !s.peer.is_closed()) {
                        dup += 1;
                    }
                    sessions.push(Sess { user: *u, broker: b, peer, ours: false });
                    changes += 1;
                }
                Op::Race { u, n } => {
                    let all = super::marshal::join_all((0..*n).map(|i| login(i % c.brokers, *u, &[])).collect()).await;
                    for (i, p) in all.into_iter().enumerate() {
                        sessions.push(Sess {
                            user: *u,
                            broker: i % c.brokers,
                            peer: p.map_err(|e| format!("login: {e:?}"))?,
                            ours: false,
                        });
                    }
                    changes += 1;
                    dup += 1;
                }
                Op::Logout { n, how } => {
                    let live: Vec<usize> = (0..sessions.len()).filter(|i| !sessions[*i].ours && !sessions[*i].peer.is_closed()).collect();
                    if live.is_empty() {
                        continue;
                    }
                    let s = &mut sessions[live[n % live.len()]];
                    end(&s.peer, *how);
                    s.ours = true;
                    changes += 1;
                }
                Op::Link { name, b } => {
                    let b = b % c.brokers;
                    let peer = fake_dial(b, 60 + k, &format!("f{name}")).await.ok_or("a good broker was not linked")?;
                    ms(10 * c.lat + 10).await;
                    fakes.push(Fake { name: *name, broker: b, peer, ours: false });
                    changes += 1;
                }
                Op::Unlink { n, how } => {
                    let live: Vec<usize> = (0..fakes.len()).filter(|i| !fakes[*i].ours && !fakes[*i].peer.is_closed()).collect();
                    if live.is_empty() {
                        continue;
                    }
                    let s = &mut fakes[live[n % live.len()]];
                    end(&s.peer, *how);
                    s.ours = true;
                    changes += 1;
                }
                Op::CutMesh => {
                    if c.brokers > 1 {
                        net::with(|n| n.links_between(0, 1).iter().for_each(|l| l.sever()));
                        changes += 1;
                    }
                }
                Op::Evict { keep } => {
                    disc(|d| d.whitelist = Some((0..8).filter(|u| keep >> u & 1 == 1).map(user_key).collect()));
                    ms(62_000).await;
                    disc(|d| d.whitelist = None);
                    changes += 1;
                }
                Op::Refused { b, prv } => {
                    let b = b % c.brokers;
                    let p = dial(&if *prv { prv_ep(b) } else { pub_ep(b) }).await.ok_or("no connection")?;
                    p.send(&Msg::AuthPermit { permit: 77 });
                    ms(1_000).await;
                }
                Op::Traffic(list) => {
                    // A quiet moment before: whoever is no longer there is known to be gone.
                    ms(500 + 20 * c.lat).await;
                    let live: Vec<&Sess> = sessions.iter().filter(|s| !s.ours && !s.peer.is_closed()).collect();
                    if live.is_empty() {
                        continue;
                    }
                    let peers: Vec<&Peer> = sessions.iter().map(|s| &s.peer).chain(fakes.iter().map(|f| &f.peer)).collect();
                    until(2_000, 1, || net::with(|n| n.quiet())).await;
                    let marks: Vec<usize> = peers.iter().map(|p| p.count()).collect();
                    let before = all();
                    let mut sent = 0;
                    for (from, to, len) in list {
                        let s = live[from % live.len()];
                        let m = if to % 3 == 0 {
                            Msg::Broadcast { topics: vec![(to / 3 % 2) as u8], body: vec![9; *len] }
                        } else {
                            Msg::Direct { to: user_key(to % 8), body: vec![8; *len] }
                        };
                        let f = wire::encode(&m);
                        sent += f.len();
                        s.peer.frame(&f);
                    }
                    ms(500 + 40 * c.lat).await;
                    until(2_000, 1, || net::with(|n| n.quiet())).await;
                    let after = all();
                    let got: usize = peers.iter().zip(&marks).map(|(p, m)| p.frames()[*m..].iter().map(Vec::len).sum::<usize>()).sum();
                    let (ds, dr) = (after[2] - before[2], after[3] - before[3]);
                    // What the brokers sent each other counts on both sides.
                    let (xs, xr) = (ds - got as f64, dr - sent as f64);
                    if xs != xr || xs < 0.0 || (c.brokers == 1 && xs != 0.0) {
                        return Err(format!(
                            "operation {k}: total_bytes_sent grew by {ds} with {got} bytes sent to the outside, total_bytes_recv by {dr} with {sent} received from the outside"
                        ));
                    }
                    // With a memory pool, the time each message spends there is measured, once.
                    let measured = after[4] - before[4];
                    let fewest = if c.pool.is_some() { list.len() as f64 } else { 0.0 };
                    let most = if c.pool.is_none() { 0.0 } else if c.brokers == 1 { fewest } else { f64::MAX };
                    if measured < fewest || measured > most {
                        return Err(format!("operation {k}: of {} messages, {measured} latencies were measured", list.len()));
                    }
                    bytes += ds + dr;
                    if live.iter().any(|s| s.peer.is_closed()) {
                        return Err(format!("operation {k}: a user was disconnected by ordinary traffic"));
                    }
                }
                Op::Pause(n) => ms(*n).await,
            }
            // A quiet moment.
            ms(500 + 20 * c.lat).await;
            if !meshed(&ids, 40_000).await {
                return Err(format!("operation {k}: the brokers are not linked"));
            }
            ms(500 + 20 * c.lat).await;
            let users = sessions.iter().filter(|s| !s.ours && !s.peer.is_closed()).count();
            let links = fakes.iter().filter(|s| !s.ours && !s.peer.is_closed()).count() + c.brokers * (c.brokers - 1);
            most = most.max(users + links);
            let now = all();
            let (gu, gb) = (now[0] - base[0], now[1] - base[1]);
            if gu != users as f64 || gb != links as f64 {
                return Err(format!(
                    "operation {k} ({op:?}): num_users_connected is {gu} with {users} users in session, num_brokers_connected is {gb} with {links} links"
                ));
            }
            // What is counted is there: the sessions answer.
            let _ = sessions.iter().map(|s| s.broker).chain(fakes.iter().map(|f| f.broker + f.name)).max();
        }
        if let Some(d) = w.dead() {
            return Err(d);
        }
        if let Some(p) = case_panics().first() {
            return Err(format!("panic: {p}"));
        }
        let mut o = out.borrow_mut();
        o.nontrivial = changes > 1;
        o.tag_if(dup > 0, "duplicate logins");
        o.tag_if(bytes > 0.0, "traffic was counted");
        o.tag_if(!fakes.is_empty(), "other brokers linked");
        o.note = format!("{changes} changes, at most {most} connections, {bytes} bytes counted");
        Ok(())
    });
    *rec = out.into_inner();
    r
}

fn end(p: &Peer, how: u8) {
    match how % 4 {
        0 => p.finish(),
        1 => p.kill(),
        2 => p.reset(),
        _ => p.frame(b"garbage"),
    }
}

fn strat() -> BoxedStrategy<Case> {
    let op = prop_oneof![
        8 => (0usize..8, 0usize..2, proptest::collection::vec(0u8..3, 0..3)).prop_map(|(u, b, topics)| Op::Login { u, b, topics }),
        1 => (0usize..8, 2usize..4).prop_map(|(u, n)| Op::Race { u, n }),
        3 => (0usize..9, any::<u8>()).prop_map(|(n, how)| Op::Logout { n, how }),
        3 => (0usize..3, 0usize..2).prop_map(|(name, b)| Op::Link { name, b }),
        2 => (0usize..9, any::<u8>()).prop_map(|(n, how)| Op::Unlink { n, how }),
        1 => Just(Op::CutMesh),
        1 => any::<u8>().prop_map(|keep| Op::Evict { keep }),
        1 => (0usize..2, any::<bool>()).prop_map(|(b, prv)| Op::Refused { b, prv }),
        4 => proptest::collection::vec((0usize..9, 0usize..30, prop_oneof![10 => 0usize..50, 10 => 0usize..3000, 1 => 0usize..200_000]), 1..8).prop_map(Op::Traffic),
        1 => (0u64..15_000).prop_map(Op::Pause),
    ];
    (
        1usize..3,
        1u64..10,
        prop_oneof![Just(1usize), 2usize..50, Just(1 << 16)],
        (any::<u64>(), prop_oneof![Just(None), Just(Some(1usize << 20))]),
        proptest::collection::vec(op, 1..20),
    )
        .prop_map(|(brokers, lat, chunk, (seed, pool), ops)| Case { brokers, lat, chunk, seed, pool, ops })
        .boxed()
}

// --- the running latency -----------------------------------------------------------------------------------

/// Latencies measured in each window of 30 s, with the time in the window.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Running {
    windows: Vec<Vec<(u64, u32)>>,
}

fn run_running(c: &Running, rec: &mut Rec) -> CaseResult {
    let out = RefCell::new(Rec::default());
    let r = run_sim(NetCfg::default(), 0, async {
        let latency = cdn_proto::connection::metrics::LATENCY.as_ref().ok_or("the latency is not measured")?;
        let task = tokio::spawn(cdn_proto::metrics::running_latency_calculator());
        // The first window includes everything since the start of the process.
        latency.observe(1.0);
        ms(30_500).await;
        let mut want = metric("running_latency");
        if want <= 0.0 {
            return Err(format!("after the first window, with positive latencies, the running latency is {want}"));
        }
        let (mut empty, mut full) = (0, 0);
        for (i, w) in c.windows.iter().enumerate() {
            let mut w = w.clone();
            w.sort_unstable();
            let mut now = 0;
            for (at, x) in &w {
                ms(at - now).await;
                now = *at;
                latency.observe(f64::from(*x) / 1e3);
            }
            ms(30_000 - now).await;
            if w.is_empty() {
                empty += 1;
            } else {
                full += 1;
                want = w.iter().map(|x| f64::from(x.1) / 1e3).sum::<f64>() / w.len() as f64;
            }
            let is = metric("running_latency");
            if (is - want).abs() > 1e-6 * (1.0 + want) {
                return Err(format!("after window {i} with {w:?} (ms into it, ms of latency), the running latency is {is}, should be {want}"));
            }
        }
        if task.is_finished() {
            return Err("the calculation of the running latency ended".into());
        }
        task.abort();
        let mut o = out.borrow_mut();
        o.nontrivial = full > 1;
        o.tag_if(empty > 0, "windows without messages");
        o.note = format!("{full} windows with messages, {empty} without");
        Ok(())
    });
    *rec = out.into_inner();
    r
}

fn running_strat() -> BoxedStrategy<Running> {
    let window = proptest::collection::vec((0u64..29_400, prop_oneof![0u32..100, 0u32..20_000]), 0..6);
    proptest::collection::vec(prop_oneof![3 => window, 1 => Just(vec![])], 1..8)
        .prop_map(|windows| Running { windows })
        .boxed()
}

// --- what is served ----------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Served {
    clients: usize,
}

fn run_served(c: &Served, rec: &mut Rec) -> CaseResult {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    let body = crate::live::run_live(2, async {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?;
        let at = l.local_addr().map_err(|e| e.to_string())?;
        drop(l);
        tokio::spawn(cdn_proto::metrics::serve_metrics(at));
        let mut bodies = vec![];
        for _ in 0..c.clients {
            let mut s = None;
            for _ in 0..100 {
                if let Ok(x) = tokio::net::TcpStream::connect(at).await {
                    s = Some(x);
                    break;
                }
                tokio::time::sleep(std::time::Duration::from_millis(50)).await;
            }
            let mut s = s.ok_or("nobody serves the metrics")?;
            s.write_all(b"GET /metrics HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n").await.map_err(|e| e.to_string())?;
            let mut b = vec![];
            tokio::time::timeout(std::time::Duration::from_secs(10), s.read_to_end(&mut b))
                .await
                .map_err(|_| "the metrics are not answered")?
                .map_err(|e| e.to_string())?;
            bodies.push(String::from_utf8_lossy(&b).to_string());
        }
        Ok::<_, String>(bodies)
    })?;
    for b in &body {
        if !b.starts_with("HTTP/1.1 200") {
            return Err(format!("asked for the metrics, the answer is {b:?}"));
        }
        for name in ["num_users_connected", "num_brokers_connected", "total_bytes_sent", "total_bytes_recv"] {
            let line = format!("{name} {}", metric(name));
            if metric(name) != 0.0 && !b.lines().any(|l| l == line) {
                return Err(format!("the metrics served do not say {line:?}: {b:?}"));
            }
        }
    }
    rec.nontrivial();
    rec.note = format!("{} answers", body.len());
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C28",
        rule: "generated histories of logins (also duplicate and concurrent), logouts, faults, evictions, broker links and traffic against the gathered metrics; non-trivial: at least two changes of what is connected",
        parts: vec![part(
            "metrics",
            Opts { quick: 5_000, thorough: 150_000, workers: 1, ..Opts::default() },
            strat,
            run,
        ),
        part("running latency", Opts { quick: 3_000, thorough: 100_000, workers: 1, quick_s: 8, ..Opts::default() }, running_strat, run_running),
        fixed("served", false, || vec![Served { clients: 3 }], run_served)],
    }]
}
