//! C10 and C13: frames over an arbitrary byte stream, and the memory pool they share.

use std::{
    collections::VecDeque,
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll},
    time::Duration,
};

use cdn_proto::connection::{limiter::Limiter, protocols::Connection, Bytes};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::{
    io::{AsyncRead, AsyncWrite, AsyncWriteExt, DuplexStream, ReadBuf},
    time::{sleep, sleep_until, timeout, Instant, Sleep},
};

use super::codec::{gmsg, GMsg};
use crate::{
    engine::{boxed, part, CaseResult, Opts, Property, Rec},
    wire::{self, Msg},
};

fn paused<F: Future<Output = CaseResult>>(f: F) -> CaseResult {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .map_err(|e| format!("runtime: {e}"))?;
    rt.block_on(f)
}
async fn ms(n: u64) {
    sleep(Duration::from_millis(n)).await;
}

// --- a scripted stream -----------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum End {
    /// The peer finishes.
    Eof,
    Reset,
    Silence,
}

#[derive(Default)]
struct Out {
    /// What was written and flushed (or needs no flushing), and when each byte was.
    got: Vec<u8>,
    at: Vec<Instant>,
    held: Vec<u8>,
    broke: bool,
}

struct Scripted {
    /// Arrival times of the bytes.
    chunks: VecDeque<(Instant, Vec<u8>)>,
    end: End,
    rsleep: Option<Pin<Box<Sleep>>>,
    out: Arc<Mutex<Out>>,
    /// Cycled: at most so many bytes, after so many milliseconds.
    accept: Vec<(u16, u16)>,
    turn: usize,
    wsleep: Option<Pin<Box<Sleep>>>,
    /// Written bytes stay in a buffer until flushed.
    buffered: bool,
    break_after: Option<usize>,
    stall_after: Option<usize>,
}

impl Scripted {
    fn quiet(end: End) -> Self {
        Self {
            chunks: VecDeque::new(),
            end,
            rsleep: None,
            out: Arc::default(),
            accept: vec![],
            turn: 0,
            wsleep: None,
            buffered: false,
            break_after: None,
            stall_after: None,
        }
    }
}

impl AsyncRead for Scripted {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let me = &mut *self;
        if let Some((t, _)) = me.chunks.front() {
            if *t > Instant::now() {
                let s = me.rsleep.insert(Box::pin(sleep_until(*t)));
                if s.as_mut().poll(cx).is_pending() {
                    return Poll::Pending;
                }
            }
            me.rsleep = None;
            let (_, b) = me.chunks.front_mut().unwrap();
            let n = b.len().min(buf.remaining());
            buf.put_slice(&b[..n]);
            b.drain(..n);
            if b.is_empty() {
                me.chunks.pop_front();
            }
            return Poll::Ready(Ok(()));
        }
        match me.end {
            End::Eof => Poll::Ready(Ok(())),
            End::Reset => Poll::Ready(Err(std::io::ErrorKind::ConnectionReset.into())),
            End::Silence => Poll::Pending,
        }
    }
}

impl AsyncWrite for Scripted {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        let me = &mut *self;
        let mut max = b.len();
        if !me.accept.is_empty() {
            let (n, delay) = me.accept[me.turn % me.accept.len()];
            if delay > 0 {
                let s = me.wsleep.get_or_insert_with(|| Box::pin(sleep(Duration::from_millis(u64::from(delay)))));
                if s.as_mut().poll(cx).is_pending() {
                    return Poll::Pending;
                }
                me.wsleep = None;
            }
            me.turn += 1;
            max = max.min(usize::from(n.max(1)));
        }
        let mut o = me.out.lock().unwrap();
        let total = o.got.len() + o.held.len();
        if let Some(k) = me.break_after {
            if total >= k {
                o.broke = true;
                return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
            }
            max = max.min(k - total);
        }
        if let Some(k) = me.stall_after {
            if total >= k {
                o.broke = true;
                return Poll::Pending;
            }
            max = max.min(k - total);
        }
        let now = Instant::now();
        o.at.extend(std::iter::repeat_n(now, max));
        if me.buffered {
            o.held.extend_from_slice(&b[..max]);
        } else {
            o.got.extend_from_slice(&b[..max]);
        }
        Poll::Ready(Ok(max))
    }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let me = &mut *self;
        let mut o = me.out.lock().unwrap();
        let h = std::mem::take(&mut o.held);
        o.got.extend(h);
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.poll_flush(cx)
    }
}

// --- receiving -------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tail {
    None,
    /// So many bytes of a length.
    HalfLength(u8),
    /// A length and part of the body (permille).
    HalfBody(u32, u16),
    /// A length that is too large, by this much, and some bytes.
    TooLong(u32, u8),
    /// A length that is not quite too large.
    Longest(u32, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Receive {
    msgs: Vec<GMsg>,
    /// Raw bodies instead of messages.
    raw: bool,
    tail: Tail,
    end: End,
    /// Cycled: sizes of the chunks that arrive and the pause in front of each, in ms.
    chunks: Vec<(u16, u16)>,
    cap: Option<usize>,
    /// Cycled: pauses of the receiver.
    pauses: Vec<u16>,
}

const MAX: u32 = u32::MAX / 8;

fn receive() -> BoxedStrategy<Receive> {
    let pause = || prop_oneof![6 => Just(0u16), 3 => 1..200u16, 1 => 1_000..7_000u16];
    let size = prop_oneof![4 => 1..8u16, 2 => 1..100u16, 4 => 500..20_000u16];
    boxed((
        proptest::collection::vec(gmsg(6_000), 0..6),
        any::<bool>(),
        prop_oneof![
            3 => Just(Tail::None),
            1 => (1..4u8).prop_map(Tail::HalfLength),
            3 => (1..6_000u32, 0..1_000u16).prop_map(|(n, k)| Tail::HalfBody(n, k)),
            2 => (prop_oneof![1..4u32, 0..=u32::MAX - MAX - 1], any::<u8>()).prop_map(|(n, k)| Tail::TooLong(n.max(1), k)),
            1 => (0..3u32, any::<u8>()).prop_map(|(n, k)| Tail::Longest(n, k)),
        ],
        prop_oneof![Just(End::Eof), Just(End::Reset), Just(End::Silence)],
        proptest::collection::vec((size, pause()), 1..12),
        proptest::option::of(1..4usize),
        proptest::collection::vec(pause(), 1..4),
    )
        .prop_map(|(msgs, raw, tail, end, chunks, cap, pauses)| Receive { msgs, raw, tail, end, chunks, cap, pauses }))
}

fn body_of(m: &GMsg, raw: bool) -> Vec<u8> {
    if !raw {
        return wire::encode(&m.build());
    }
    match m.build() {
        Msg::Direct { body, .. } | Msg::Broadcast { body, .. } => body,
        Msg::Subscribe(b) | Msg::Unsubscribe(b) | Msg::UserSync(b) | Msg::TopicSync(b) => b,
        Msg::AuthKey { key, .. } => key,
        Msg::AuthPermit { permit } => permit.to_le_bytes().to_vec(),
        Msg::AuthResponse { .. } => vec![],
    }
}

async fn recv(c: &Connection, raw: bool) -> Result<Vec<u8>, String> {
    if raw {
        c.recv_message_raw().await.map(|b| b.to_vec()).map_err(|e| e.to_string())
    } else {
        c.recv_message().await.map(|m| wire::encode(&Msg::from_real(&m))).map_err(|e| e.to_string())
    }
}

fn run_receive(c: &Receive, rec: &mut Rec) -> CaseResult {
    paused(async {
        let bodies: Vec<Vec<u8>> = c.msgs.iter().map(|m| body_of(m, c.raw)).collect();
        let mut stream = vec![];
        // Where each frame's length ends, and where it ends.
        let mut marks = vec![];
        for b in &bodies {
            stream.extend_from_slice(&wire::frame(b));
            marks.push((stream.len() - b.len(), stream.len()));
        }
        let mut bad_header = None;
        match c.tail {
            Tail::None => {}
            Tail::HalfLength(n) => stream.extend_from_slice(&[0, 0, 1][..n.min(3) as usize]),
            Tail::HalfBody(n, k) => {
                stream.extend_from_slice(&n.to_be_bytes());
                bad_header = Some(stream.len());
                stream.extend(std::iter::repeat_n(7u8, (n as usize * k as usize / 1000).min(n as usize - 1)));
            }
            Tail::TooLong(n, k) => {
                stream.extend_from_slice(&(MAX + n).to_be_bytes());
                bad_header = Some(stream.len());
                stream.extend(std::iter::repeat_n(0u8, k as usize));
            }
            Tail::Longest(n, k) => {
                stream.extend_from_slice(&(MAX - n).to_be_bytes());
                bad_header = Some(stream.len());
                stream.extend(std::iter::repeat_n(0u8, k as usize));
            }
        }
        let start = Instant::now();
        let mut s = Scripted::quiet(c.end);
        let mut t = start;
        let mut pos = 0;
        let mut arrival = vec![];
        let mut i = 0;
        while pos < stream.len() {
            let (n, pause) = c.chunks[i % c.chunks.len()];
            // Long histories of tiny chunks: hurry up.
            let (n, pause) = if i > 400 { (n.max(5_000), 0) } else { (n.max(1), pause) };
            i += 1;
            t += Duration::from_millis(u64::from(pause));
            let e = (pos + usize::from(n)).min(stream.len());
            s.chunks.push_back((t, stream[pos..e].to_vec()));
            arrival.extend(std::iter::repeat_n(t, e - pos));
            pos = e;
        }
        let when = |end: usize| if end == 0 { start } else { arrival[end - 1] };
        // How many messages come: those whose bodies surely come in time; and whether that is certain.
        let mut sure = 0;
        let mut certain = true;
        let mut late = None;
        for (h, e) in &marks {
            let gap = when(*e) - when(*h);
            if gap >= Duration::from_millis(4_950) {
                if gap < Duration::from_millis(5_050) || c.cap.is_some() {
                    certain = false;
                }
                late = Some(when(*h));
                break;
            }
            sure += 1;
        }
        rec.tag_if(late.is_some(), "a body comes too late");
        let conn = Connection::verif_from_stream(s, Limiter::new(None, c.cap));
        let mut got: Vec<Vec<u8>> = vec![];
        let failed_at;
        let mut i = 0;
        loop {
            ms(u64::from(c.pauses[i % c.pauses.len()])).await;
            i += 1;
            match timeout(Duration::from_secs(60), recv(&conn, c.raw)).await {
                Ok(Ok(b)) => got.push(b),
                Ok(Err(e)) => {
                    failed_at = Some((Instant::now(), e));
                    break;
                }
                Err(_) => {
                    failed_at = None;
                    break;
                }
            }
            if got.len() > bodies.len() + 2 {
                return Err("more messages are received than were sent".into());
            }
        }
        if got.len() > bodies.len() || got[..] != bodies[..got.len()] {
            let k = got.iter().zip(&bodies).take_while(|(a, b)| a == b).count();
            return Err(format!(
                "message {k} of {} was received as {:?} bytes instead of {:?}",
                bodies.len(),
                got.get(k).map(Vec::len),
                bodies.get(k).map(Vec::len)
            ));
        }
        if got.len() < sure {
            return Err(format!(
                "{} of {} messages were received, though {sure} came completely and in time (then: {:?})",
                got.len(),
                bodies.len(),
                failed_at.map(|f| f.1)
            ));
        }
        if certain && got.len() > sure {
            return Err("a message was received whose body came more than 5 s after its length".into());
        }
        // Must receiving fail, and how soon?
        let slow: u64 = c.pauses.iter().map(|p| u64::from(*p)).max().unwrap_or(0) * (got.len() as u64 + 1) + 100;
        let ended = if let Some(h) = late.filter(|_| certain) {
            Some(h + Duration::from_secs(5))
        } else {
            match c.tail {
                Tail::TooLong(..) => bad_header.map(when),
                Tail::HalfBody(..) | Tail::Longest(..) => {
                    let h = when(bad_header.unwrap());
                    if c.end == End::Silence || when(stream.len()) > h + Duration::from_secs(5) {
                        Some(h + Duration::from_secs(5))
                    } else {
                        Some(when(stream.len()))
                    }
                }
                _ if c.end == End::Silence => None,
                _ => Some(when(stream.len())),
            }
        };
        match (&ended, &failed_at) {
            (None, Some((_, e))) if certain => return Err(format!("receiving failed ({e}) although the connection is fine")),
            (Some(_), None) => return Err("receiving did not fail: the connection is over, or its peer too slow".into()),
            (Some(t), Some((f, _))) if c.cap.is_none() && certain => {
                if *f > *t + Duration::from_millis(slow) {
                    return Err(format!("receiving failed only {:?} after the connection was lost", *f - *t));
                }
                if *f + Duration::from_millis(50) < *t {
                    return Err(format!("receiving failed {:?} early", *t - *f));
                }
            }
            _ => {}
        }
        if failed_at.is_some() {
            match timeout(Duration::from_secs(1), recv(&conn, c.raw)).await {
                Ok(Err(_)) => {}
                o => return Err(format!("receiving again after it failed: {o:?}")),
            }
        }
        rec.tag(format!("{:?}", c.tail).split('(').next().unwrap().to_string());
        rec.tag_if(c.cap.is_some(), "bounded");
        rec.tag_if(c.raw, "raw");
        if !bodies.is_empty() && c.chunks.iter().any(|x| x.0 < 100) {
            rec.nontrivial();
        }
        rec.note = format!("{} of {} messages received, then {:?}", got.len(), bodies.len(), failed_at.map(|f| f.1));
        Ok(())
    })
}

// --- sending ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Send_ {
    msgs: Vec<GMsg>,
    raw: bool,
    accept: Vec<(u16, u16)>,
    buffered: bool,
    break_after: Option<u16>,
    stall_after: Option<u16>,
    cap: Option<usize>,
    pauses: Vec<u16>,
    /// 0: soft close at the end; 1: just wait; 2: soft close after every message
    close: u8,
}

fn send() -> BoxedStrategy<Send_> {
    let pause = || prop_oneof![6 => Just(0u16), 3 => 1..100u16, 1 => 1_000..7_000u16];
    let size = prop_oneof![4 => 1..8u16, 2 => 1..100u16, 4 => 500..20_000u16];
    boxed((
        proptest::collection::vec(gmsg(6_000), 1..6),
        any::<bool>(),
        proptest::collection::vec((size, prop_oneof![5 => Just(0u16), 3 => 1..20u16, 1 => 100..3_000u16]), 1..8),
        any::<bool>(),
        proptest::option::weighted(0.25, 0..3_000u16),
        proptest::option::weighted(0.15, 0..3_000u16),
        proptest::option::of(1..4usize),
        proptest::collection::vec(pause(), 1..4),
        0..3u8,
    )
        .prop_map(|(msgs, raw, accept, buffered, break_after, stall_after, cap, pauses, close)| Send_ {
            msgs,
            raw,
            accept,
            buffered,
            break_after,
            stall_after,
            cap,
            pauses,
            close,
        }))
}

fn run_send(c: &Send_, rec: &mut Rec) -> CaseResult {
    paused(async {
        let mut s = Scripted::quiet(End::Silence);
        s.accept = c.accept.clone();
        s.buffered = c.buffered;
        s.break_after = c.break_after.map(usize::from);
        s.stall_after = c.stall_after.map(usize::from);
        let out = s.out.clone();
        let conn = Connection::verif_from_stream(s, Limiter::new(None, c.cap));
        let mut want = vec![];
        let mut ends = vec![];
        let mut flushed_ok = 0;
        let mut failed = false;
        for (i, m) in c.msgs.iter().enumerate() {
            ms(u64::from(c.pauses[i % c.pauses.len()])).await;
            let body = if c.raw { body_of(m, true) } else { m.build().to_real().serialize().map_err(|e| e.to_string())? };
            want.extend_from_slice(&wire::frame(&body));
            ends.push(want.len());
            let sent = if c.raw {
                timeout(Duration::from_secs(600), conn.send_message_raw(Bytes::from_unchecked(body))).await
            } else {
                timeout(Duration::from_secs(600), conn.send_message(m.build().to_real())).await
            };
            match sent {
                Err(_) => return Err("sending hangs".into()),
                Ok(Err(_)) => {
                    failed = true;
                    break;
                }
                Ok(Ok(())) => {}
            }
            if c.close == 2 || c.close == 0 && i + 1 == c.msgs.len() {
                match timeout(Duration::from_secs(600), conn.soft_close()).await {
                    Err(_) => return Err("closing softly hangs".into()),
                    Ok(Err(_)) => {
                        failed = true;
                        break;
                    }
                    Ok(Ok(())) => {
                        let o = out.lock().unwrap();
                        flushed_ok += 1;
                        if o.got != want {
                            return Err(format!("after a soft close, {} of {} bytes are on the wire", o.got.len(), want.len()));
                        }
                    }
                }
            }
        }
        ms(60_000).await;
        let o = out.lock().unwrap();
        let all = [&o.got[..], &o.held[..]].concat();
        if all.len() > want.len() || want[..all.len()] != all[..] {
            let k = all.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return Err(format!("the bytes on the wire differ from the frames at {k} of {} (frames end at {ends:?})", want.len()));
        }
        // Did the peer take each message in good time? (The length, the body: 5 s each.)
        let mut begin = 0;
        let mut slow = false;
        for e in &ends {
            if *e > o.at.len() {
                slow = true;
                break;
            }
            let from = if begin == 0 { o.at[0] } else { o.at[begin - 1] };
            slow |= o.at[e - 1] - from > Duration::from_millis(4_000);
            begin = *e;
        }
        // The first write may wait, too
        slow |= c.accept.iter().map(|a| u64::from(a.1)).max().unwrap_or(0) > 4_500;
        let broken = o.broke;
        if !broken && !slow && (failed || o.got != want) {
            return Err(format!(
                "{} of {} bytes are on the wire (sending failed: {failed}), though the peer took everything",
                o.got.len(),
                want.len()
            ));
        }
        if broken && !failed {
            // Later operations must not pretend
            drop(o);
            let r = timeout(Duration::from_secs(30), async {
                conn.send_message_raw(Bytes::from_unchecked(vec![1])).await?;
                conn.soft_close().await
            })
            .await;
            match r {
                Err(_) => return Err("a soft close on a broken connection hangs".into()),
                Ok(Ok(())) => return Err("a soft close on a broken connection succeeds".into()),
                Ok(Err(_)) => {}
            }
        }
        rec.tag_if(broken, "broken");
        rec.tag_if(slow, "slow peer");
        rec.tag_if(c.buffered, "buffered");
        rec.tag_if(flushed_ok > 0, "soft close");
        if c.accept.iter().any(|a| a.0 < 100) && want.len() > 30 {
            rec.nontrivial();
        }
        rec.note = format!("{} bytes in {} frames; broken {broken}, slow {slow}", want.len(), ends.len());
        Ok(())
    })
}

// --- both ends -------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Both {
    a: Vec<GMsg>,
    b: Vec<GMsg>,
    buf: usize,
    caps: (Option<usize>, Option<usize>),
    pauses: Vec<u16>,
    raw: bool,
}
fn both() -> BoxedStrategy<Both> {
    let cap = || proptest::option::of(1..4usize);
    let pause = prop_oneof![6 => Just(0u16), 3 => 1..100u16];
    boxed((
        proptest::collection::vec(gmsg(20_000), 0..8),
        proptest::collection::vec(gmsg(20_000), 0..8),
        prop_oneof![1..10usize, 1..300usize, 300..30_000usize],
        (cap(), cap()),
        proptest::collection::vec(pause, 1..6),
        any::<bool>(),
    )
        .prop_map(|(a, b, buf, caps, pauses, raw)| Both { a, b, buf, caps, pauses, raw }))
}

fn run_both(c: &Both, rec: &mut Rec) -> CaseResult {
    paused(async {
        let (x, y) = tokio::io::duplex(c.buf);
        let x = Connection::verif_from_stream(x, Limiter::new(None, c.caps.0));
        let y = Connection::verif_from_stream(y, Limiter::new(None, c.caps.1));
        let dir = |from: Connection, to: Connection, msgs: Vec<GMsg>, name: &'static str, shift: usize| {
            let pauses = c.pauses.clone();
            let raw = c.raw;
            let bodies: Vec<Vec<u8>> = msgs.iter().map(|m| body_of(m, raw)).collect();
            let bodies2 = bodies.clone();
            let p2 = pauses.clone();
            let tx = async move {
                for (i, m) in msgs.iter().enumerate() {
                    ms(u64::from(pauses[(i + shift) % pauses.len()])).await;
                    let r = if raw {
                        from.send_message_raw(Bytes::from_unchecked(bodies2[i].clone())).await
                    } else {
                        from.send_message(m.build().to_real()).await
                    };
                    r.map_err(|e| format!("{name}: sending failed: {e}"))?;
                }
                from.soft_close().await.map_err(|e| format!("{name}: soft close: {e}"))
            };
            let rx = async move {
                for (i, b) in bodies.iter().enumerate() {
                    ms(u64::from(p2[(i + shift + 1) % p2.len()])).await;
                    let got = timeout(Duration::from_secs(300), recv(&to, raw))
                        .await
                        .map_err(|_| format!("{name}: message {i} does not arrive"))?
                        .map_err(|e| format!("{name}: message {i}: {e}"))?;
                    if got != *b {
                        return Err(format!("{name}: message {i} differs"));
                    }
                }
                Ok(())
            };
            async move { tokio::try_join!(tx, rx).map(|_| ()) }
        };
        tokio::try_join!(dir(x.clone(), y.clone(), c.a.clone(), "a to b", 0), dir(y.clone(), x.clone(), c.b.clone(), "b to a", 1))?;
        drop(x);
        match timeout(Duration::from_secs(10), recv(&y, c.raw)).await {
            Ok(Err(_)) => {}
            o => return Err(format!("after the other end is gone, receiving gives {o:?}")),
        }
        if c.a.len() + c.b.len() > 0 {
            rec.nontrivial();
        }
        rec.tag_if(c.buf < 10, "tiny buffer");
        Ok(())
    })
}

// --- the pool --------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pool {
    size: usize,
    conns: usize,
    cap: Option<usize>,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// A frame of this many bytes arrives.
    Feed(u8, u16),
    /// A length arrives, and part of the body (permille); the rest later, if at all.
    Part(u8, u16, u16),
    /// What is missing of the last frame.
    Rest(u8),
    /// A length that is too large, or that no pool this size can hold.
    Huge(u8, u32),
    /// The peer finishes.
    Finish(u8),
    /// The connection is closed on this side.
    Close(u8),
    Recv(u8),
    Clone(u8),
    Drop(u8),
    Wait(u16),
    Open,
}

fn pool() -> BoxedStrategy<Pool> {
    let frame = || prop_oneof![12 => 0..40u16, 8 => 0..200u16, 1 => 200..u16::MAX];
    let op = prop_oneof![
        8 => (any::<u8>(), frame()).prop_map(|(c, n)| Op::Feed(c, n)),
        3 => (any::<u8>(), frame(), 0..1000u16).prop_map(|(c, n, k)| Op::Part(c, n, k)),
        3 => any::<u8>().prop_map(Op::Rest),
        1 => (any::<u8>(), prop_oneof![0..400u32, any::<u32>()]).prop_map(|(c, n)| Op::Huge(c, n)),
        1 => any::<u8>().prop_map(Op::Finish),
        1 => any::<u8>().prop_map(Op::Close),
        7 => any::<u8>().prop_map(Op::Recv),
        3 => any::<u8>().prop_map(Op::Clone),
        6 => any::<u8>().prop_map(Op::Drop),
        3 => prop_oneof![3 => 1..50u16, 2 => 100..1_500u16, 1 => 1_500..12_000u16].prop_map(Op::Wait),
        1 => Just(Op::Open),
    ];
    boxed((
        prop_oneof![2 => 0..60usize, 4 => 30..300usize, 1 => 1_000..400_000usize],
        1..6usize,
        proptest::option::weighted(0.3, 1..4usize),
        proptest::collection::vec(op, 1..60),
    )
        .prop_map(|(size, conns, cap, ops)| Pool { size, conns, cap, ops }))
}

struct Line {
    real: Option<Connection>,
    raw: Option<DuplexStream>,
    /// The bodies of the complete frames.
    fed: Vec<Vec<u8>>,
    /// How many of those must come: the others might be lost to a timeout.
    sure: usize,
    /// No more frames can be expected.
    over: bool,
    partial: Option<(Vec<u8>, usize, Instant)>,
    ghost: usize,
    got: usize,
    /// A frame that can never be received arrived.
    bad: bool,
}

fn body(c: usize, k: usize, n: usize) -> Vec<u8> {
    let mut v = vec![(c * 31 + k * 7 + 1) as u8; n];
    if n > 1 {
        v[n - 1] = n as u8;
    }
    v
}

fn run_pool(c: &Pool, rec: &mut Rec) -> CaseResult {
    paused(async {
        let limiter = Limiter::new(Some(c.size), c.cap);
        let mut lines: Vec<Line> = vec![];
        let open = |lines: &mut Vec<Line>| {
            let (a, b) = tokio::io::duplex(1 << 23);
            lines.push(Line {
                real: Some(Connection::verif_from_stream(a, limiter.clone())),
                raw: Some(b),
                fed: vec![],
                sure: 0,
                over: false,
                partial: None,
                ghost: 0,
                got: 0,
                bad: false,
            });
        };
        for _ in 0..c.conns {
            open(&mut lines);
        }
        // Messages the application holds, with the number of clones of each.
        let mut held: Vec<Vec<Bytes>> = vec![];
        let mut waited = false;
        let mut frames = 0;
        for op in &c.ops {
            let nl = lines.len();
            let pick = |n: u8| usize::from(n) % nl;
            match *op {
                Op::Open => {
                    if nl < 8 {
                        open(&mut lines);
                    }
                }
                Op::Feed(n, len) | Op::Part(n, len, _) => {
                    let i = pick(n);
                    let l = &mut lines[i];
                    if l.partial.is_some() || l.raw.is_none() {
                        continue;
                    }
                    let b = body(i, frames, len.into());
                    frames += 1;
                    let cut = match *op {
                        Op::Part(_, n, k) if n > 0 => usize::from(k) * usize::from(n) / 1000,
                        _ => b.len(),
                    };
                    let f = wire::frame(&b);
                    let _ = l.raw.as_mut().unwrap().write_all(&f[..4 + cut]).await;
                    if cut < b.len() {
                        l.partial = Some((b, cut, Instant::now()));
                    } else {
                        if b.len() > c.size {
                            l.bad = true;
                        }
                        if !l.bad {
                            l.fed.push(b);
                            if !l.over {
                                l.sure = l.fed.len();
                            }
                        }
                    }
                }
                Op::Rest(n) => {
                    let l = &mut lines[pick(n)];
                    if l.raw.is_none() {
                        continue;
                    }
                    if let Some((b, cut, since)) = l.partial.take() {
                        let _ = l.raw.as_mut().unwrap().write_all(&b[cut..]).await;
                        if b.len() > c.size {
                            l.bad = true;
                        }
                        if !l.bad {
                            l.fed.push(b);
                            // Whether it comes late depends on when it got its memory
                            l.over |= since.elapsed() >= Duration::from_millis(4_900);
                            if !l.over {
                                l.sure = l.fed.len();
                            }
                        }
                    }
                }
                Op::Huge(n, by) => {
                    let l = &mut lines[pick(n)];
                    if l.partial.is_some() || l.raw.is_none() {
                        continue;
                    }
                    let len = (c.size as u32).saturating_add(1).saturating_add(by);
                    let _ = l.raw.as_mut().unwrap().write_all(&len.to_be_bytes()).await;
                    l.bad = true;
                    rec.tag("can never fit");
                }
                Op::Finish(n) => {
                    let l = &mut lines[pick(n)];
                    if l.raw.take().is_some() {
                        // It may still be waiting for the memory
                        l.ghost = l.partial.take().map_or(0, |p| p.0.len());
                        rec.tag("the peer finishes");
                    }
                }
                Op::Close(n) => {
                    let l = &mut lines[pick(n)];
                    if let Some(r) = l.real.take() {
                        drop(r);
                        l.over = true;
                        l.sure = l.got;
                        rec.tag("closed");
                    }
                }
                Op::Recv(n) => {
                    ms(2).await;
                    let i = pick(n);
                    let fits = held.iter().map(|h| h[0].len()).sum::<usize>()
                        + lines
                            .iter()
                            .filter(|l| l.real.is_some())
                            .map(|l| {
                                l.fed[l.got.min(l.fed.len())..].iter().map(Vec::len).sum::<usize>()
                                    + l.ghost + l.partial.as_ref().map_or(0, |p| p.0.len())
                            })
                            .sum::<usize>()
                        <= c.size;
                    let l = &mut lines[i];
                    let Some(r) = &l.real else { continue };
                    match timeout(Duration::from_millis(20), r.recv_message_raw()).await {
                        Ok(Ok(b)) => {
                            if l.fed.get(l.got) != Some(&*b) {
                                return Err(format!("connection {i}: received {} bytes that are not what was sent", b.len()));
                            }
                            l.got += 1;
                            held.push(vec![b]);
                        }
                        Ok(Err(_)) => {
                            if !l.bad && !l.over && l.raw.is_some() && l.partial.is_none() {
                                return Err(format!("connection {i} failed although nothing is wrong with it"));
                            }
                            if l.got < l.sure {
                                return Err(format!("connection {i} failed before message {} was received, which came in full", l.got));
                            }
                        }
                        Err(_) => {
                            waited = true;
                            if fits && l.got < l.sure {
                                return Err(format!("message {} of connection {i} is not received, though there is memory for everything", l.got));
                            }
                        }
                    }
                }
                Op::Clone(n) => {
                    if !held.is_empty() {
                        let k = usize::from(n) % held.len();
                        let b = held[k][0].clone();
                        held[k].push(b);
                    }
                }
                Op::Drop(n) => {
                    if !held.is_empty() {
                        let k = usize::from(n) % held.len();
                        held[k].pop();
                        if held[k].is_empty() {
                            held.swap_remove(k);
                        }
                    }
                }
                Op::Wait(n) => ms(u64::from(n)).await,
            }
            let sum: usize = held.iter().map(|h| h[0].len()).sum();
            if sum > c.size {
                return Err(format!("{sum} bytes of messages are held with a pool of {}", c.size));
            }
        }
        // While the application holds what it has, the pool is that much smaller
        ms(1).await;
        let sum: usize = held.iter().map(|h| h[0].len()).sum();
        let probe = |n: usize| {
            let limiter = limiter.clone();
            async move {
                let n = u32::try_from(n).unwrap();
                timeout(Duration::from_millis(50), limiter.allocate_message_bytes(n)).await.is_ok()
            }
        };
        if probe(c.size - sum + 1).await {
            return Err(format!("{} bytes could be allocated with {sum} of {} held", c.size - sum + 1, c.size));
        }
        held.clear();
        // Everything that came in full is now received; partial messages time out, one after the other at worst
        let mut idle = 0;
        while idle < 2 {
            let mut any = false;
            for (i, l) in lines.iter_mut().enumerate() {
                let Some(r) = &l.real else { continue };
                while let Ok(Ok(b)) = timeout(Duration::from_millis(20), r.recv_message_raw()).await {
                    if l.fed.get(l.got) != Some(&*b) {
                        return Err(format!("connection {i}: received {} bytes that are not what was sent", b.len()));
                    }
                    l.got += 1;
                    any = true;
                }
            }
            if any {
                idle = 0;
            } else {
                ms(6_000 * (lines.len() as u64 + 1)).await;
                idle += 1;
            }
        }
        for (i, l) in lines.iter().enumerate() {
            if l.real.is_some() && l.got < l.sure {
                return Err(format!(
                    "connection {i} received {} of {} messages although all memory is free (a pool of {})",
                    l.got, l.sure, c.size
                ));
            }
            if let (Some(r), true) = (&l.real, l.bad) {
                // Behind a frame that cannot be received there is nothing, and the connection is over
                match timeout(Duration::from_millis(100), r.recv_message_raw()).await {
                    Ok(Err(_)) => {}
                    Ok(Ok(_)) => return Err(format!("connection {i} receives a message after one that cannot be received")),
                    Err(_) => return Err(format!("connection {i} still waits for a message that can never fit in the pool")),
                }
            }
        }
        // And nothing is left behind
        if !probe(c.size).await {
            return Err("some memory of the pool is never released".into());
        }
        if probe(c.size + 1).await {
            return Err("the pool has grown".into());
        }
        let got: usize = lines.iter().map(|l| l.got).sum();
        rec.tag_if(waited, "a message had to wait");
        rec.tag_if(c.cap.is_some(), "bounded channel");
        if got > 1 && waited {
            rec.nontrivial();
        }
        rec.note = format!("pool of {}: {got} of {frames} messages over {} connections", c.size, lines.len());
        Ok(())
    })
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C10",
            rule: "message sequences over scripted byte streams: chunking, pauses, truncation, false lengths, slow and failing writers, bounded channels; non-trivial: there are messages and the stream is fragmented",
            parts: vec![
                part("receive", Opts { quick: 60_000, thorough: 1_000_000, ..Opts::default() }, receive, run_receive),
                part("send", Opts { quick: 60_000, thorough: 1_000_000, ..Opts::default() }, send, run_send),
                part("both ends", Opts { quick: 15_000, thorough: 300_000, ..Opts::default() }, both, run_both),
            ],
        },
        Property {
            id: "C13",
            rule: "histories of frames, partial frames, impossible frames, receives, clones, drops, closes and waits over connections that share a pool; non-trivial: messages were received and some had to wait",
            parts: vec![part("pool", Opts { quick: 150_000, thorough: 1_500_000, ..Opts::default() }, pool, run_pool)],
        },
    ]
}
