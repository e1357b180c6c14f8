//! A simulated network: byte streams with latency, fragmentation, back-pressure, stalls and cuts, all in virtual
//! time and all on one thread. `SimNet<N>` is the protocol as used by node N.

use std::{
    cell::RefCell,
    future::Future,
    collections::{BTreeMap, HashMap, VecDeque},
    io,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
    time::Duration,
};

use async_trait::async_trait;
use cdn_proto::{
    connection::{
        limiter::Limiter,
        protocols::{Connection, Listener, Protocol, UnfinalizedConnection},
    },
    error::{Error, Result},
};
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use tokio::{
    io::{AsyncRead, AsyncWrite, ReadBuf},
    sync::mpsc,
    time::{sleep, sleep_until, Instant, Sleep},
};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct NetCfg {
    /// One-way latency is between `lat` and `2*lat` milliseconds.
    pub lat: u64,
    /// A read returns at most 1..=chunk bytes.
    pub chunk: usize,
    /// Bytes a direction holds before writes block.
    pub cap: usize,
    /// If not 0, the program under test's writes go to a buffer of this size that flushing empties (as with TLS).
    pub wbuf: usize,
}
impl Default for NetCfg {
    fn default() -> Self {
        Self {
            lat: 5,
            chunk: 1 << 16,
            cap: 1 << 16,
            wbuf: 0,
        }
    }
}

pub struct Pipe {
    q: VecDeque<(Instant, Vec<u8>, usize)>,
    buffered: usize,
    writer_gone: bool,
    reader_gone: bool,
    broken: bool,
    /// The dialer's end is gone, and the acceptor will not hear of it.
    half: bool,
    /// Nothing ever arrives, and neither end hears of the other.
    hole: bool,
    /// Nothing is delivered while held.
    held: bool,
    last: Instant,
    reader: Option<Waker>,
    writer: Option<Waker>,
    cfg: NetCfg,
    rng: Rng,
    pub total_in: u64,
    /// Everything that was written, if the deployment's links are tapped.
    pub log: Option<Vec<(Instant, Vec<u8>)>>,
}
impl Pipe {
    fn new(cfg: NetCfg, seed: u64) -> Self {
        Self {
            q: VecDeque::new(),
            buffered: 0,
            writer_gone: false,
            reader_gone: false,
            broken: false,
            half: false,
            hole: false,
            held: false,
            last: Instant::now(),
            reader: None,
            writer: None,
            cfg,
            rng: Rng(seed),
            total_in: 0,
            log: None,
        }
    }
    fn wake(&mut self) {
        if let Some(w) = self.reader.take() {
            w.wake();
        }
        if let Some(w) = self.writer.take() {
            w.wake();
        }
    }
}
pub type SharedPipe = Arc<Mutex<Pipe>>;

pub struct SimStream {
    rd: SharedPipe,
    wr: SharedPipe,
    timer: Option<(Instant, Pin<Box<Sleep>>)>,
    wbuf: (usize, Vec<u8>),
    dialer: bool,
}
impl SimStream {
    fn buffered(mut self) -> Self {
        let n = self.wr.lock().unwrap().cfg.wbuf;
        self.wbuf.0 = n;
        self
    }
    fn poll_pipe(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut p = self.wr.lock().unwrap();
        if p.broken {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if p.half && self.dialer {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if (p.reader_gone && !p.half && !p.hole) || p.writer_gone {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if p.buffered >= p.cfg.cap {
            p.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(p.cfg.cap - p.buffered);
        let lat = p.cfg.lat;
        let d = Duration::from_millis(lat + p.rng.below(lat.max(1)));
        let at = (Instant::now() + d).max(p.last);
        p.last = at;
        p.buffered += n;
        p.total_in += n as u64;
        if let Some(log) = &mut p.log {
            log.push((Instant::now(), buf[..n].to_vec()));
        }
        p.q.push_back((at, buf[..n].to_vec(), 0));
        if let Some(w) = p.reader.take() {
            w.wake();
        }
        Poll::Ready(Ok(n))
    }
    fn poll_drain(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        while !self.wbuf.1.is_empty() {
            let b = std::mem::take(&mut self.wbuf.1);
            match self.poll_pipe(cx, &b) {
                Poll::Ready(Ok(n)) => self.wbuf.1 = b[n..].to_vec(),
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => {
                    self.wbuf.1 = b;
                    return Poll::Pending;
                }
            }
        }
        Poll::Ready(Ok(()))
    }
}
impl Drop for SimStream {
    fn drop(&mut self) {
        let mut w = self.wr.lock().unwrap();
        w.writer_gone = true;
        w.wake();
        drop(w);
        let mut r = self.rd.lock().unwrap();
        r.reader_gone = true;
        r.wake();
    }
}

impl AsyncRead for SimStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let this = self.get_mut();
        let now = Instant::now();
        let mut p = this.rd.lock().unwrap();
        if p.broken {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if p.half && this.dialer {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        p.reader = Some(cx.waker().clone());
        if p.held || p.half || p.hole {
            return Poll::Pending;
        }
        let at = match p.q.front() {
            None => {
                return if p.writer_gone {
                    Poll::Ready(Ok(()))
                } else {
                    Poll::Pending
                }
            }
            Some((at, _, _)) => *at,
        };
        if at > now {
            if this.timer.as_ref().is_none_or(|(t, _)| *t != at) {
                this.timer = Some((at, Box::pin(sleep_until(at))));
            }
            let t = &mut this.timer.as_mut().unwrap().1;
            drop(p);
            return match t.as_mut().poll(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(()) => {
                    this.timer = None;
                    cx.waker().wake_by_ref();
                    Poll::Pending
                }
            };
        }
        let chunk = p.cfg.chunk as u64;
        let max = 1 + p.rng.below(chunk) as usize;
        let mut left = max.min(buf.remaining());
        while left > 0 {
            let Some((at, data, pos)) = p.q.front_mut() else { break };
            if *at > now {
                break;
            }
            let n = left.min(data.len() - *pos);
            buf.put_slice(&data[*pos..*pos + n]);
            *pos += n;
            left -= n;
            let done = *pos == data.len();
            p.buffered -= n;
            if done {
                p.q.pop_front();
            }
        }
        if let Some(w) = p.writer.take() {
            w.wake();
        }
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for SimStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let this = self.get_mut();
        if this.wbuf.0 == 0 {
            return this.poll_pipe(cx, buf);
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if this.wbuf.1.len() >= this.wbuf.0 {
            match this.poll_drain(cx) {
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                _ if this.wbuf.1.len() >= this.wbuf.0 => return Poll::Pending,
                _ => {}
            }
        }
        let n = buf.len().min(this.wbuf.0 - this.wbuf.1.len());
        this.wbuf.1.extend_from_slice(&buf[..n]);
        // As much as possible goes out at once.
        match this.poll_drain(cx) {
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            _ => Poll::Ready(Ok(n)),
        }
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.get_mut().poll_drain(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut p = self.wr.lock().unwrap();
        p.writer_gone = true;
        p.wake();
        Poll::Ready(Ok(()))
    }
}

#[derive(Clone)]
pub struct Link {
    pub id: usize,
    pub from: usize,
    pub to: usize,
    pub endpoint: String,
    pub up: SharedPipe,
    pub down: SharedPipe,
}
impl Link {
    pub fn sever(&self) {
        for p in [&self.up, &self.down] {
            let mut p = p.lock().unwrap();
            p.broken |= !p.hole;
            p.wake();
        }
    }
    /// The dialer loses the connection; the acceptor hears nothing, and what it sends is lost.
    pub fn half_open(&self) {
        for p in [&self.up, &self.down] {
            let mut p = p.lock().unwrap();
            p.half = true;
            p.wake();
        }
    }
    pub fn hold(&self, on: bool) {
        for p in [&self.up, &self.down] {
            let mut p = p.lock().unwrap();
            p.held = on;
            p.wake();
        }
    }
    /// Neither side has given it up and it is not cut.
    pub fn alive(&self) -> bool {
        let u = self.up.lock().unwrap();
        let d = self.down.lock().unwrap();
        !u.broken && !d.broken && !u.half && !u.hole && !u.writer_gone && !u.reader_gone && !d.writer_gone && !d.reader_gone
    }
    /// The side that accepted the connection still holds it.
    pub fn held_by_acceptor(&self) -> bool {
        let u = self.up.lock().unwrap();
        let d = self.down.lock().unwrap();
        !u.broken && !(u.reader_gone && d.writer_gone)
    }
}

impl Link {
    /// The connection's acceptor has more to send than fits.
    pub fn down_full(&self) -> bool {
        let d = self.down.lock().unwrap();
        d.buffered >= d.cfg.cap
    }
    /// The acceptor tried to send more than fits, and could not.
    pub fn down_stuck(&self) -> bool {
        let d = self.down.lock().unwrap();
        d.buffered >= d.cfg.cap && d.writer.is_some()
    }
    /// The side that opened the connection still holds it.
    pub fn held_by_dialer(&self) -> bool {
        let u = self.up.lock().unwrap();
        let d = self.down.lock().unwrap();
        !u.broken && !(d.reader_gone && u.writer_gone)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Block {
    Refuse,
    Hang,
    /// Connections are made, but nothing sent over them ever arrives.
    Hole,
}

struct Incoming {
    stream: SimStream,
    link: Link,
    finalize: Finalize,
}

/// What the simulated transport handshake of an incoming connection does.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Finalize {
    Now,
    Never,
    FailAfter(u64),
}

#[derive(Default)]
pub struct Net {
    listeners: HashMap<String, (usize, usize, mpsc::UnboundedSender<Option<Incoming>>)>,
    next: usize,
    pub links: Vec<Link>,
    pub cfg: NetCfg,
    pub rng: Option<Rng>,
    pub down: BTreeMap<usize, bool>,
    pub gen: BTreeMap<usize, u64>,
    pub blocked: BTreeMap<(usize, usize), Block>,
    /// Connection attempts (virtual ms since the start, from, endpoint).
    pub attempts: Vec<(Instant, usize, String)>,
    /// Record what goes over the links to these nodes from these nodes.
    pub tap: Option<usize>,
}

thread_local! {
    pub static NET: RefCell<Net> = RefCell::default();
}

pub fn reset(cfg: NetCfg, seed: u64) {
    NET.with(|n| {
        *n.borrow_mut() = Net {
            cfg,
            rng: Some(Rng(seed)),
            ..Net::default()
        }
    });
}

pub fn with<T>(f: impl FnOnce(&mut Net) -> T) -> T {
    NET.with(|n| f(&mut n.borrow_mut()))
}

impl Net {
    pub fn is_down(&self, n: usize) -> bool {
        *self.down.get(&n).unwrap_or(&false)
    }
    pub fn blocked(&self, a: usize, b: usize) -> Option<Block> {
        self.blocked.get(&(a.min(b), a.max(b))).copied()
    }
    pub fn links_between(&self, a: usize, b: usize) -> Vec<Link> {
        self.links
            .iter()
            .filter(|l| (l.from == a && l.to == b) || (l.from == b && l.to == a))
            .cloned()
            .collect()
    }
    pub fn links_of(&self, a: usize) -> Vec<Link> {
        self.links
            .iter()
            .filter(|l| l.from == a || l.to == a)
            .cloned()
            .collect()
    }
    /// Nothing is on its way.
    pub fn quiet(&self) -> bool {
        self.links
            .iter()
            .filter(|l| l.alive())
            .all(|l| l.up.lock().unwrap().q.is_empty() && l.down.lock().unwrap().q.is_empty())
    }
    pub fn listening(&self, endpoint: &str) -> bool {
        self.listeners.contains_key(endpoint)
    }
}

/// Opens a connection from `from` to whoever listens on `endpoint`.
pub async fn open(endpoint: &str, from: usize, cfg: Option<NetCfg>, fin: Finalize) -> io::Result<(SimStream, Link)> {
    let (blocked, lat, gen) = with(|n| {
        n.attempts.push((Instant::now(), from, endpoint.to_string()));
        let to = n.listeners.get(endpoint).map(|l| l.0);
        (
            if n.is_down(from) {
                Some(Block::Refuse)
            } else {
                to.and_then(|t| n.blocked(from, t))
            },
            n.cfg.lat,
            n.gen.get(&from).copied().unwrap_or(0),
        )
    });
    if blocked == Some(Block::Hang) {
        sleep(Duration::from_secs(5)).await;
        return Err(io::ErrorKind::TimedOut.into());
    }
    sleep(Duration::from_millis(lat * 2)).await;
    with(|n| {
        if n.is_down(from) || n.gen.get(&from).copied().unwrap_or(0) != gen {
            return Err(io::ErrorKind::ConnectionAborted.into());
        }
        let Some((to, _, tx)) = n.listeners.get(endpoint).cloned() else {
            return Err(io::ErrorKind::ConnectionRefused.into());
        };
        let block = n.blocked(from, to);
        if n.is_down(to) || matches!(block, Some(Block::Refuse | Block::Hang)) {
            return Err(io::ErrorKind::ConnectionRefused.into());
        }
        let cfg = cfg.unwrap_or(n.cfg);
        let rng = n.rng.as_mut().expect("net is set up");
        let (s1, s2) = (rng.next(), rng.next());
        let up: SharedPipe = Arc::new(Mutex::new(Pipe::new(cfg, s1)));
        let down: SharedPipe = Arc::new(Mutex::new(Pipe::new(cfg, s2)));
        if n.tap.is_some_and(|t| from < t && to < t) {
            up.lock().unwrap().log = Some(vec![]);
            down.lock().unwrap().log = Some(vec![]);
        }
        if block == Some(Block::Hole) {
            up.lock().unwrap().hole = true;
            down.lock().unwrap().hole = true;
        }
        let id = n.next;
        n.next += 1;
        let link = Link {
            id,
            from,
            to,
            endpoint: endpoint.to_string(),
            up: up.clone(),
            down: down.clone(),
        };
        n.links.push(link.clone());
        let mine = SimStream {
            rd: down.clone(),
            wr: up.clone(),
            timer: None,
            wbuf: (0, vec![]),
            dialer: true,
        };
        let theirs = SimStream {
            rd: up,
            wr: down,
            timer: None,
            wbuf: (0, vec![]),
            dialer: false,
        };
        tx.send(Some(Incoming {
            stream: theirs,
            link: link.clone(),
            finalize: fin,
        }))
        .map_err(|_| io::Error::from(io::ErrorKind::ConnectionRefused))?;
        Ok((mine, link))
    })
}

/// The whole messages written to a tapped pipe, each with the time at which it was complete.
pub fn tapped(p: &SharedPipe) -> Vec<(Instant, Vec<u8>)> {
    let p = p.lock().unwrap();
    let mut out = vec![];
    let mut rest: Vec<u8> = vec![];
    for (at, b) in p.log.iter().flatten() {
        rest.extend_from_slice(b);
        let mut pos = 0;
        while rest.len() >= pos + 4 {
            let n = u32::from_be_bytes(rest[pos..pos + 4].try_into().unwrap()) as usize;
            if rest.len() < pos + 4 + n {
                break;
            }
            out.push((*at, rest[pos + 4..pos + 4 + n].to_vec()));
            pos += 4 + n;
        }
        rest.drain(..pos);
    }
    out
}

/// Makes whoever listens on `endpoint` fail to accept once.
pub fn fail_accept(endpoint: &str) {
    with(|n| {
        if let Some(l) = n.listeners.get(endpoint) {
            let _ = l.2.send(None);
        }
    });
}

pub struct SimNet<const N: usize>;

pub struct SimListener {
    endpoint: String,
    id: usize,
    rx: tokio::sync::Mutex<mpsc::UnboundedReceiver<Option<Incoming>>>,
}
impl Drop for SimListener {
    fn drop(&mut self) {
        let _ = NET.try_with(|n| {
            if let Ok(mut n) = n.try_borrow_mut() {
                if n.listeners.get(&self.endpoint).is_some_and(|l| l.1 == self.id) {
                    n.listeners.remove(&self.endpoint);
                }
            }
        });
    }
}

pub struct SimUnfinalized(Incoming);

// SimStream is only ever used from one thread; the timer makes it !Sync, which the trait asks for.
unsafe impl Sync for SimUnfinalized {}

#[async_trait]
impl<const N: usize> Protocol for SimNet<N> {
    type UnfinalizedConnection = SimUnfinalized;
    type Listener = SimListener;

    async fn connect(remote_endpoint: &str, _use_local_authority: bool, limiter: Limiter) -> Result<Connection> {
        let (s, _) = open(remote_endpoint, N, None, Finalize::Now)
            .await
            .map_err(|e| Error::Connection(format!("sim connect: {e}")))?;
        Ok(Connection::verif_from_stream(s.buffered(), limiter))
    }

    async fn bind(
        bind_endpoint: &str,
        _certificate: CertificateDer<'static>,
        _key: PrivateKeyDer<'static>,
    ) -> Result<Self::Listener> {
        let (l, _) = bind_raw(bind_endpoint, N).ok_or_else(|| Error::Connection("sim bind: address in use".into()))?;
        Ok(l)
    }
}

fn bind_raw(endpoint: &str, node: usize) -> Option<(SimListener, usize)> {
    with(|n| {
        if n.listeners.contains_key(endpoint) {
            return None;
        }
        let (tx, rx) = mpsc::unbounded_channel();
        n.next += 1;
        let id = n.next;
        n.listeners.insert(endpoint.to_string(), (node, id, tx));
        Some((
            SimListener {
                endpoint: endpoint.to_string(),
                id,
                rx: tokio::sync::Mutex::new(rx),
            },
            id,
        ))
    })
}

/// A listener for harness-made (raw) servers.
pub struct RawListener(SimListener);
impl RawListener {
    pub fn bind(endpoint: &str, node: usize) -> Option<Self> {
        bind_raw(endpoint, node).map(|(l, _)| Self(l))
    }
    pub async fn accept(&self) -> Option<(SimStream, Link)> {
        self.0.rx.lock().await.recv().await.flatten().map(|i| (i.stream, i.link))
    }
}

#[async_trait]
impl Listener<SimUnfinalized> for SimListener {
    async fn accept(&self) -> Result<SimUnfinalized> {
        match self.rx.lock().await.recv().await {
            Some(Some(i)) => Ok(SimUnfinalized(i)),
            Some(None) => Err(Error::Connection("sim accept error".into())),
            None => Err(Error::Connection("sim listener closed".into())),
        }
    }
}

#[async_trait]
impl UnfinalizedConnection for SimUnfinalized {
    async fn finalize(self, limiter: Limiter) -> Result<Connection> {
        match self.0.finalize {
            Finalize::Now => Ok(Connection::verif_from_stream(self.0.stream.buffered(), limiter)),
            Finalize::Never => {
                std::future::pending::<()>().await;
                unreachable!()
            }
            Finalize::FailAfter(ms) => {
                sleep(Duration::from_millis(ms)).await;
                Err(Error::Connection("sim handshake failed".into()))
            }
        }
    }
}
