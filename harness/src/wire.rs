//! An independent implementation of the wire format, written from cdn-proto/schema/messages.capnp and the
//! Cap'n Proto encoding specification: nothing here uses the repository's codec or the capnp crate.

use cdn_proto::message as m;
use serde::{Deserialize, Serialize};

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Msg {
    AuthKey { key: Vec<u8>, ts: u64, sig: Vec<u8> },
    AuthPermit { permit: u64 },
    AuthResponse { permit: u64, context: String },
    Direct { to: Vec<u8>, body: Vec<u8> },
    Broadcast { topics: Vec<u8>, body: Vec<u8> },
    Subscribe(Vec<u8>),
    Unsubscribe(Vec<u8>),
    UserSync(Vec<u8>),
    TopicSync(Vec<u8>),
}

impl Msg {
    pub fn to_real(&self) -> m::Message {
        match self.clone() {
            Msg::AuthKey { key, ts, sig } => m::Message::AuthenticateWithKey(m::AuthenticateWithKey {
                public_key: key,
                timestamp: ts,
                signature: sig,
            }),
            Msg::AuthPermit { permit } => {
                m::Message::AuthenticateWithPermit(m::AuthenticateWithPermit { permit })
            }
            Msg::AuthResponse { permit, context } => {
                m::Message::AuthenticateResponse(m::AuthenticateResponse { permit, context })
            }
            Msg::Direct { to, body } => m::Message::Direct(m::Direct { recipient: to, message: body }),
            Msg::Broadcast { topics, body } => m::Message::Broadcast(m::Broadcast { topics, message: body }),
            Msg::Subscribe(t) => m::Message::Subscribe(t),
            Msg::Unsubscribe(t) => m::Message::Unsubscribe(t),
            Msg::UserSync(b) => m::Message::UserSync(b),
            Msg::TopicSync(b) => m::Message::TopicSync(b),
        }
    }
    pub fn from_real(x: &m::Message) -> Self {
        match x.clone() {
            m::Message::AuthenticateWithKey(a) => Msg::AuthKey { key: a.public_key, ts: a.timestamp, sig: a.signature },
            m::Message::AuthenticateWithPermit(a) => Msg::AuthPermit { permit: a.permit },
            m::Message::AuthenticateResponse(a) => Msg::AuthResponse { permit: a.permit, context: a.context },
            m::Message::Direct(d) => Msg::Direct { to: d.recipient, body: d.message },
            m::Message::Broadcast(b) => Msg::Broadcast { topics: b.topics, body: b.message },
            m::Message::Subscribe(t) => Msg::Subscribe(t),
            m::Message::Unsubscribe(t) => Msg::Unsubscribe(t),
            m::Message::UserSync(b) => Msg::UserSync(b),
            m::Message::TopicSync(b) => Msg::TopicSync(b),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Msg::AuthKey { .. } => "auth-key",
            Msg::AuthPermit { .. } => "auth-permit",
            Msg::AuthResponse { .. } => "auth-response",
            Msg::Direct { .. } => "direct",
            Msg::Broadcast { .. } => "broadcast",
            Msg::Subscribe(_) => "subscribe",
            Msg::Unsubscribe(_) => "unsubscribe",
            Msg::UserSync(_) => "user-sync",
            Msg::TopicSync(_) => "topic-sync",
        }
    }
}

/// How an independent implementation may lay a message out.
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Layout {
    /// Segment of each object in allocation order, modulo `segments` (cycled).
    pub plan: Vec<u8>,
    pub segments: u8,
    /// Use double-far pointers between segments.
    pub double_far: bool,
    /// Encode empty lists and blobs as null pointers.
    pub null_empty: bool,
    /// Extra data words / pointers in structs (a newer schema).
    pub extra_data: u8,
    pub extra_ptrs: u8,
    /// Words of unused space in front of each object.
    pub gap: u8,
}

struct Enc<'a> {
    segs: Vec<Vec<u64>>,
    lay: &'a Layout,
    n: usize,
}

#[derive(Clone, Copy)]
struct At {
    seg: usize,
    off: usize,
}

impl Enc<'_> {
    fn alloc(&mut self, words: usize, root: bool) -> At {
        let nseg = self.segs.len();
        let seg = if root || self.lay.plan.is_empty() {
            0
        } else {
            self.lay.plan[self.n % self.lay.plan.len()] as usize % nseg
        };
        if !root {
            self.n += 1;
            for _ in 0..self.lay.gap {
                self.segs[seg].push(0);
            }
        }
        let off = self.segs[seg].len();
        self.segs[seg].resize(off + words, 0);
        At { seg, off }
    }
    /// Writes at `p` a pointer to the object at `to` whose upper half (and kind) is `tag`.
    fn point(&mut self, p: At, to: At, tag: u64) {
        if p.seg == to.seg {
            let rel = to.off as i64 - (p.off as i64 + 1);
            self.segs[p.seg][p.off] = tag | (((rel as u64) & 0x3fff_ffff) << 2);
        } else if !self.lay.double_far {
            let pad = self.segs[to.seg].len();
            let rel = to.off as i64 - (pad as i64 + 1);
            self.segs[to.seg].push(tag | (((rel as u64) & 0x3fff_ffff) << 2));
            self.segs[p.seg][p.off] = 2 | ((pad as u64) << 3) | ((to.seg as u64) << 32);
        } else {
            let pseg = (to.seg + 1) % self.segs.len();
            let pad = self.segs[pseg].len();
            self.segs[pseg].push(2 | ((to.off as u64) << 3) | ((to.seg as u64) << 32));
            self.segs[pseg].push(tag);
            self.segs[p.seg][p.off] = 2 | 4 | ((pad as u64) << 3) | ((pseg as u64) << 32);
        }
    }
    fn structure(&mut self, p: At, data: &[u64], ptrs: usize, root: bool) -> (At, At) {
        let d = data.len() + self.lay.extra_data as usize;
        let n = ptrs + self.lay.extra_ptrs as usize;
        let at = self.alloc(d + n, false);
        self.segs[at.seg][at.off..at.off + data.len()].copy_from_slice(data);
        let _ = root;
        self.point(p, at, ((d as u64) << 32) | ((n as u64) << 48));
        (at, At { seg: at.seg, off: at.off + d })
    }
    fn bytes(&mut self, p: At, b: &[u8], text: bool) {
        let mut v = b.to_vec();
        if text {
            v.push(0);
        }
        if b.is_empty() && self.lay.null_empty {
            return;
        }
        let n = v.len();
        let words = n.div_ceil(8);
        let at = self.alloc(words, false);
        v.resize(words * 8, 0);
        for (i, c) in v.chunks(8).enumerate() {
            self.segs[at.seg][at.off + i] = u64::from_le_bytes(c.try_into().unwrap());
        }
        self.point(p, at, 1 | (2 << 32) | ((n as u64) << 35));
    }
}

/// Encodes a message in the given layout.
pub fn encode_as(msg: &Msg, lay: &Layout) -> Vec<u8> {
    let mut e = Enc {
        segs: vec![vec![]; usize::from(lay.segments.max(1))],
        lay,
        n: 0,
    };
    let rootp = e.alloc(1, true);
    let which: u64 = match msg {
        Msg::AuthKey { .. } => 0,
        Msg::AuthPermit { .. } => 1,
        Msg::AuthResponse { .. } => 2,
        Msg::Direct { .. } => 3,
        Msg::Broadcast { .. } => 4,
        Msg::Subscribe(_) => 5,
        Msg::Unsubscribe(_) => 6,
        Msg::UserSync(_) => 7,
        Msg::TopicSync(_) => 8,
    };
    let (_, p) = e.structure(rootp, &[which], 1, true);
    let nth = |at: At, i: usize| At { seg: at.seg, off: at.off + i };
    match msg {
        Msg::AuthKey { key, ts, sig } => {
            let (_, q) = e.structure(p, &[*ts], 2, false);
            e.bytes(nth(q, 0), key, false);
            e.bytes(nth(q, 1), sig, false);
        }
        Msg::AuthPermit { permit } => {
            e.structure(p, &[*permit], 0, false);
        }
        Msg::AuthResponse { permit, context } => {
            let (_, q) = e.structure(p, &[*permit], 1, false);
            e.bytes(q, context.as_bytes(), true);
        }
        Msg::Direct { to, body } => {
            let (_, q) = e.structure(p, &[], 2, false);
            e.bytes(nth(q, 0), to, false);
            e.bytes(nth(q, 1), body, false);
        }
        Msg::Broadcast { topics, body } => {
            let (_, q) = e.structure(p, &[], 2, false);
            e.bytes(nth(q, 0), topics, false);
            e.bytes(nth(q, 1), body, false);
        }
        Msg::Subscribe(t) | Msg::Unsubscribe(t) => e.bytes(p, t, false),
        Msg::UserSync(b) | Msg::TopicSync(b) => e.bytes(p, b, false),
    }
    // Segment table
    let mut out = vec![];
    out.extend_from_slice(&(e.segs.len() as u32 - 1).to_le_bytes());
    for s in &e.segs {
        out.extend_from_slice(&(s.len() as u32).to_le_bytes());
    }
    if out.len() % 8 != 0 {
        out.extend_from_slice(&[0; 4]);
    }
    for s in &e.segs {
        for w in s {
            out.extend_from_slice(&w.to_le_bytes());
        }
    }
    out
}

pub fn encode(msg: &Msg) -> Vec<u8> {
    encode_as(msg, &Layout::default())
}

// --- reading ---------------------------------------------------------------------------------------------

struct Dec {
    segs: Vec<Vec<u64>>,
}

enum Obj {
    Null,
    Struct { at: At, data: usize, ptrs: usize },
    List { at: At, size: u8, count: usize },
}

impl Dec {
    fn word(&self, at: At) -> Option<u64> {
        self.segs.get(at.seg)?.get(at.off).copied()
    }
    fn follow(&self, p: At) -> Option<Obj> {
        let w = self.word(p)?;
        if w == 0 {
            return Some(Obj::Null);
        }
        if w & 3 == 2 {
            let seg = (w >> 32) as usize;
            let off = ((w as u32) >> 3) as usize;
            let pad = At { seg, off };
            if w & 4 == 0 {
                let inner = self.word(pad)?;
                return self.object(inner, At { seg, off: off + 1 });
            }
            let far = self.word(pad)?;
            let tag = self.word(At { seg, off: off + 1 })?;
            if far & 3 != 2 {
                return None;
            }
            let target = At {
                seg: (far >> 32) as usize,
                off: ((far as u32) >> 3) as usize,
            };
            return self.object(tag & !0xffff_fffc, target);
        }
        self.object(w, At { seg: p.seg, off: p.off + 1 })
    }
    fn object(&self, w: u64, base: At) -> Option<Obj> {
        let rel = i64::from((w as u32 as i32) >> 2);
        let off = usize::try_from(base.off as i64 + rel).ok()?;
        let at = At { seg: base.seg, off };
        let len = self.segs.get(at.seg)?.len();
        match w & 3 {
            0 => {
                let data = ((w >> 32) & 0xffff) as usize;
                let ptrs = (w >> 48) as usize;
                (off + data + ptrs <= len).then_some(Obj::Struct { at, data, ptrs })
            }
            1 => {
                let size = ((w >> 32) & 7) as u8;
                let count = (w >> 35) as usize;
                let words = match size {
                    2 => count.div_ceil(8),
                    _ => return None,
                };
                (off + words <= len).then_some(Obj::List { at, size, count })
            }
            _ => None,
        }
    }
    fn bytes(&self, s: &(At, usize, usize), i: usize) -> Option<Vec<u8>> {
        if i >= s.2 {
            return Some(vec![]);
        }
        match self.follow(At { seg: s.0.seg, off: s.0.off + s.1 + i })? {
            Obj::Null => Some(vec![]),
            Obj::List { at, size: 2, count } => {
                let mut v = Vec::with_capacity(count);
                for k in 0..count {
                    v.push((self.word(At { seg: at.seg, off: at.off + k / 8 })? >> ((k % 8) * 8)) as u8);
                }
                Some(v)
            }
            _ => None,
        }
    }
    fn u64(&self, s: &(At, usize, usize), i: usize) -> Option<u64> {
        if i >= s.1 {
            return Some(0);
        }
        self.word(At { seg: s.0.seg, off: s.0.off + i })
    }
    fn structure(&self, p: At) -> Option<(At, usize, usize)> {
        match self.follow(p)? {
            Obj::Null => Some((p, 0, 0)),
            Obj::Struct { at, data, ptrs } => Some((at, data, ptrs)),
            Obj::List { .. } => None,
        }
    }
}

/// Decodes a message; `None` if this reader cannot make sense of it.
pub fn decode(b: &[u8]) -> Option<Msg> {
    let n = u32::from_le_bytes(b.get(..4)?.try_into().ok()?) as usize + 1;
    if n > 512 {
        return None;
    }
    let mut lens = vec![];
    for i in 0..n {
        lens.push(u32::from_le_bytes(b.get(4 + 4 * i..8 + 4 * i)?.try_into().ok()?) as usize);
    }
    let mut pos = (4 + 4 * n).div_ceil(8) * 8;
    let mut segs = vec![];
    for l in lens {
        let end = pos.checked_add(l.checked_mul(8)?)?;
        let s = b.get(pos..end)?;
        segs.push(s.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect());
        pos = end;
    }
    let d = Dec { segs };
    let root = d.structure(At { seg: 0, off: 0 })?;
    let which = d.u64(&root, 0)? & 0xffff;
    let pp = At { seg: root.0.seg, off: root.0.off + root.1 };
    let inner = || -> Option<(At, usize, usize)> {
        if root.2 == 0 {
            Some((pp, 0, 0))
        } else {
            d.structure(pp)
        }
    };
    Some(match which {
        0 => {
            let s = inner()?;
            Msg::AuthKey { key: d.bytes(&s, 0)?, ts: d.u64(&s, 0)?, sig: d.bytes(&s, 1)? }
        }
        1 => Msg::AuthPermit { permit: d.u64(&inner()?, 0)? },
        2 => {
            let s = inner()?;
            let mut t = d.bytes(&s, 0)?;
            if !t.is_empty() && t.pop() != Some(0) {
                return None;
            }
            Msg::AuthResponse { permit: d.u64(&s, 0)?, context: String::from_utf8(t).ok()? }
        }
        3 => {
            let s = inner()?;
            Msg::Direct { to: d.bytes(&s, 0)?, body: d.bytes(&s, 1)? }
        }
        4 => {
            let s = inner()?;
            Msg::Broadcast { topics: d.bytes(&s, 0)?, body: d.bytes(&s, 1)? }
        }
        5 => Msg::Subscribe(d.bytes(&root, 0)?),
        6 => Msg::Unsubscribe(d.bytes(&root, 0)?),
        7 => Msg::UserSync(d.bytes(&root, 0)?),
        8 => Msg::TopicSync(d.bytes(&root, 0)?),
        _ => return None,
    })
}

pub fn frame(body: &[u8]) -> Vec<u8> {
    let mut v = (body.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(body);
    v
}
