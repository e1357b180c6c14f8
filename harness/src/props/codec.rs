//! C14 and C15: the message codec.

use cdn_proto::{discovery::BrokerIdentifier, message::Message, MAX_MESSAGE_SIZE};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{
    engine::{boxed, fixed, mem, part, CaseResult, Opts, Property, Rec},
    wire::{self, Layout, Msg},
};

/// Some bytes, in a form that stays short in a replay file.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Blob {
    Lit(Vec<u8>),
    Gen { len: u32, seed: u64 },
}
impl Blob {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Blob::Lit(v) => v.clone(),
            Blob::Gen { len, seed } => {
                let mut r = crate::net::Rng(*seed);
                let mut v = Vec::with_capacity(*len as usize + 8);
                while v.len() < *len as usize {
                    v.extend_from_slice(&r.next().to_le_bytes());
                }
                v.truncate(*len as usize);
                v
            }
        }
    }
    fn text(&self) -> String {
        let b = self.bytes();
        match b.first() {
            // Any characters at all
            Some(x) if x % 2 == 0 => b
                .chunks(3)
                .filter_map(|c| {
                    let n = c.iter().fold(0u32, |a, x| (a << 8) | u32::from(*x));
                    char::from_u32(n % 0x11_0000)
                })
                .collect(),
            _ => b.iter().map(|x| char::from(x % 128)).collect(),
        }
    }
}

pub fn blob(max: u32) -> BoxedStrategy<Blob> {
    boxed(prop_oneof![
        6 => proptest::collection::vec(any::<u8>(), 0..40).prop_map(Blob::Lit),
        2 => (0..=64u32, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }),
        2 => (0..=9_000u32.min(max), any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }),
        // Around a segment of the encoder (1024 words) and its successors
        2 => (0..4u32, 0..40u32, any::<u64>()).prop_map(move |(k, d, seed)| Blob::Gen { len: ((8192 << k) - 20 + d).min(max), seed }),
        1 => (0..=max, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }),
    ])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GMsg {
    kind: u8,
    a: Blob,
    b: Blob,
    n: u64,
}
impl GMsg {
    pub fn build(&self) -> Msg {
        match self.kind % 9 {
            0 => Msg::AuthKey { key: self.a.bytes(), ts: self.n, sig: self.b.bytes() },
            1 => Msg::AuthPermit { permit: self.n },
            2 => Msg::AuthResponse { permit: self.n, context: self.a.text() },
            3 => Msg::Direct { to: self.a.bytes(), body: self.b.bytes() },
            4 => Msg::Broadcast { topics: self.a.bytes(), body: self.b.bytes() },
            5 => Msg::Subscribe(self.a.bytes()),
            6 => Msg::Unsubscribe(self.a.bytes()),
            7 => Msg::UserSync(self.a.bytes()),
            _ => Msg::TopicSync(self.a.bytes()),
        }
    }
}
pub fn gmsg(max: u32) -> BoxedStrategy<GMsg> {
    boxed(
        (0..9u8, blob(max), blob(max), prop_oneof![any::<u64>(), 0..4u64, Just(u64::MAX), (0..64u32).prop_map(|s| 1 << s)])
            .prop_map(|(kind, a, b, n)| GMsg { kind, a, b, n }),
    )
}

fn layout() -> BoxedStrategy<Layout> {
    boxed((
        proptest::collection::vec(0..8u8, 0..6),
        prop_oneof![3 => 1..6u8, 1 => 6..=200u8],
        any::<bool>(),
        any::<bool>(),
        0..3u8,
        0..3u8,
        0..3u8,
    )
        .prop_map(|(plan, segments, double_far, null_empty, extra_data, extra_ptrs, gap)| Layout {
            plan,
            segments,
            double_far,
            null_empty,
            extra_data,
            extra_ptrs,
            gap,
        }))
}

fn short(m: &Msg) -> String {
    let s = format!("{m:?}");
    if s.len() < 200 {
        return s;
    }
    format!("{}… ({} characters)", s.chars().take(160).collect::<String>(), s.len())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Trip {
    msg: GMsg,
    lay: Layout,
}

fn run_trip(c: &Trip, rec: &mut Rec) -> CaseResult {
    let m = c.msg.build();
    let real = m.to_real();
    rec.tag(m.kind());
    let bytes = real.serialize().map_err(|e| format!("serializing {} failed: {e}", short(&m)))?;
    let back = Message::deserialize(&bytes)
        .map_err(|e| format!("what {} serializes to does not deserialize: {e}", short(&m)))?;
    if back != real {
        return Err(format!("{} becomes {} when serialized and deserialized", short(&m), short(&Msg::from_real(&back))));
    }
    match wire::decode(&bytes) {
        None => return Err(format!("an independent reader of the schema cannot read what {} serializes to", short(&m))),
        Some(x) if x != m => {
            return Err(format!("an independent reader of the schema reads {} where {} was serialized", short(&x), short(&m)))
        }
        _ => {}
    }
    let segs = u32::from_le_bytes(bytes[..4].try_into().unwrap()) + 1;
    rec.tag_if(segs > 1, "several segments written");
    let alt = wire::encode_as(&m, &c.lay);
    let got = Message::deserialize(&alt)
        .map_err(|e| format!("a valid encoding of {} by another implementation is refused: {e}", short(&m)))?;
    if got != real {
        return Err(format!("another implementation's encoding of {} is read as {}", short(&m), short(&Msg::from_real(&got))));
    }
    let far = c.lay.segments > 1 && c.lay.plan.iter().any(|p| p % c.lay.segments != 0);
    rec.tag_if(far, "far pointers read");
    rec.tag_if(far && c.lay.double_far, "double-far pointers read");
    if bytes.len() > 24 {
        rec.nontrivial();
    }
    rec.note = format!("{}: {} bytes in {segs} segments; alternative {} bytes in {}", m.kind(), bytes.len(), alt.len(), c.lay.segments.max(1));
    Ok(())
}

fn big() -> Vec<Trip> {
    [1 << 20, 9_000_000, 20_000_000]
        .into_iter()
        .flat_map(|len| {
            [(3, false), (4, true), (7, false)].into_iter().map(move |(kind, swap)| {
                let large = Blob::Gen { len, seed: u64::from(len) };
                let small = Blob::Lit(vec![0, 1]);
                let (a, b) = if kind == 7 || swap && len < 2 << 20 { (large, small) } else { (small, large) };
                Trip {
                    msg: GMsg { kind, a, b, n: 0 },
                    lay: Layout { segments: 2, plan: vec![1], ..Layout::default() },
                }
            })
        })
        .collect()
}

/// Messages about as large as one can be.
fn limits() -> Vec<GMsg> {
    let most = MAX_MESSAGE_SIZE;
    [(3u8, most - 100), (4, most), (3, most + 1), (7, most + 1), (0, most + 1)]
        .into_iter()
        .map(|(kind, len)| GMsg { kind, a: Blob::Lit(vec![1]), b: Blob::Gen { len, seed: 1 }, n: 0 })
        .map(|mut m| {
            if !matches!(m.kind, 3 | 4) {
                std::mem::swap(&mut m.a, &mut m.b);
            }
            m
        })
        .collect()
}

fn run_limit(c: &GMsg, rec: &mut Rec) -> CaseResult {
    let real = c.build().to_real();
    rec.nontrivial();
    match real.serialize() {
        Ok(bytes) => {
            rec.tag("serialized");
            if bytes.len() > MAX_MESSAGE_SIZE as usize {
                return Err(format!("a message was serialized to {} bytes, which nobody would receive", bytes.len()));
            }
            let back = Message::deserialize(&bytes).map_err(|e| format!("a message of {} bytes does not deserialize: {e}", bytes.len()))?;
            if back != real {
                return Err(format!("a message of {} bytes becomes another when serialized and deserialized", bytes.len()));
            }
        }
        Err(e) => {
            rec.tag("refused");
            let size = c.a.bytes().len() + c.b.bytes().len();
            if size + 1_000 < MAX_MESSAGE_SIZE as usize {
                return Err(format!("a message of {size} bytes is refused: {e}"));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum W {
    Raw(u64),
    Struct { off: i16, data: u16, ptrs: u16 },
    List { off: i16, size: u8, count: u32 },
    Tag { count: u32, data: u16, ptrs: u16 },
    Far { double: bool, off: u16, seg: u8 },
    Cap(u32),
}
impl W {
    fn word(&self) -> u64 {
        match *self {
            W::Raw(x) => x,
            W::Struct { off, data, ptrs } => {
                ((i64::from(off) as u64 & 0x3fff_ffff) << 2) | (u64::from(data) << 32) | (u64::from(ptrs) << 48)
            }
            W::List { off, size, count } => {
                1 | ((i64::from(off) as u64 & 0x3fff_ffff) << 2) | (u64::from(size & 7) << 32) | (u64::from(count & 0x1fff_ffff) << 35)
            }
            W::Tag { count, data, ptrs } => (u64::from(count & 0x3fff_ffff) << 2) | (u64::from(data) << 32) | (u64::from(ptrs) << 48),
            W::Far { double, off, seg } => 2 | (u64::from(double) << 2) | (u64::from(off) << 3) | (u64::from(seg) << 32),
            W::Cap(n) => 3 | (u64::from(n) << 32),
        }
    }
}
fn word() -> BoxedStrategy<W> {
    boxed(prop_oneof![
        2 => any::<u64>().prop_map(W::Raw),
        2 => (0..12u64).prop_map(W::Raw),
        1 => Just(W::Raw(0)),
        5 => (-4..8i16, 0..4u16, 0..4u16).prop_map(|(off, data, ptrs)| W::Struct { off, data, ptrs }),
        5 => (-4..8i16, prop_oneof![4 => Just(2u8), 1 => 0..8u8], prop_oneof![4 => 0..60u32, 1 => any::<u32>()])
            .prop_map(|(off, size, count)| W::List { off, size, count }),
        1 => (prop_oneof![0..20u32, any::<u32>()], 0..3u16, 0..3u16).prop_map(|(count, data, ptrs)| W::Tag { count, data, ptrs }),
        2 => (any::<bool>(), 0..12u16, 0..4u8).prop_map(|(double, off, seg)| W::Far { double, off, seg }),
        1 => any::<u32>().prop_map(W::Cap),
    ])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Input {
    Bytes(Blob),
    /// Segments, what is declared instead of their number and of the size of the first, and what is cut off.
    Words { segs: Vec<Vec<W>>, count: Option<u32>, size: Option<u32>, cut: u8 },
    /// A message: bytes changed, words replaced (or inserted), cut.
    Mutant { msg: GMsg, lay: Layout, xor: Vec<(u16, u8)>, words: Vec<(u16, W)>, cut: Option<u16>, more: u8 },
    /// A plausible message whose fields overlap.
    Overlap { kind: u8, first: (i8, u32), second: (i8, u32), body: Vec<u8> },
}
impl Input {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Input::Bytes(b) => b.bytes(),
            Input::Words { segs, count, size, cut } => {
                let mut out = count.unwrap_or(segs.len().max(1) as u32 - 1).to_le_bytes().to_vec();
                for (i, s) in segs.iter().enumerate() {
                    let n = if i == 0 { size.unwrap_or(s.len() as u32) } else { s.len() as u32 };
                    out.extend_from_slice(&n.to_le_bytes());
                }
                if out.len() % 8 != 0 {
                    out.extend_from_slice(&[0; 4]);
                }
                for w in segs.iter().flatten() {
                    out.extend_from_slice(&w.word().to_le_bytes());
                }
                out.truncate(out.len().saturating_sub(usize::from(*cut)));
                out
            }
            Input::Mutant { msg, lay, xor, words, cut, more } => {
                let mut b = wire::encode_as(&msg.build(), lay);
                for (p, w) in words {
                    let n = b.len() / 8;
                    // The pointers are at the beginning
                    let i = if p % 2 == 0 { usize::from(*p) / 2 % n.min(10) } else { usize::from(*p) / 2 % n };
                    b[i * 8..i * 8 + 8].copy_from_slice(&w.word().to_le_bytes());
                }
                for (p, x) in xor {
                    let n = b.len();
                    let i = if p % 2 == 0 { usize::from(*p) / 2 % n.min(80) } else { usize::from(*p) / 2 % n };
                    b[i] ^= x;
                }
                if let Some(c) = cut {
                    b.truncate(usize::from(*c) % (b.len() + 1));
                }
                b.extend(std::iter::repeat_n(0xA5, usize::from(*more)));
                b
            }
            Input::Overlap { kind, first, second, body } => {
                let which = u64::from(*kind);
                let list = |(off, n): (i8, u32)| W::List { off: i16::from(off), size: 2, count: n }.word();
                let mut w = vec![
                    W::Struct { off: 0, data: 1, ptrs: 1 }.word(),
                    which,
                    W::Struct { off: 0, data: 1, ptrs: 2 }.word(),
                    7,
                    list(*first),
                    list(*second),
                ];
                let mut b = body.clone();
                b.resize(b.len().div_ceil(8) * 8, 0);
                w.extend(b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                let mut out = 0u32.to_le_bytes().to_vec();
                out.extend_from_slice(&(w.len() as u32).to_le_bytes());
                for x in w {
                    out.extend_from_slice(&x.to_le_bytes());
                }
                out
            }
        }
    }
}

fn input() -> BoxedStrategy<Input> {
    let seg = || proptest::collection::vec(word(), 0..16);
    boxed(prop_oneof![
        1 => blob(3_000).prop_map(Input::Bytes),
        4 => (proptest::collection::vec(seg(), 1..4), proptest::option::weighted(0.1, any::<u32>()),
              proptest::option::weighted(0.1, prop_oneof![any::<u32>(), 0..40u32]), prop_oneof![4 => Just(0u8), 1 => 0..40u8])
            .prop_map(|(segs, count, size, cut)| Input::Words { segs, count, size, cut }),
        // A root that leads somewhere
        4 => (0..11u64, proptest::collection::vec(word(), 0..20), proptest::collection::vec(word(), 0..8))
            .prop_map(|(which, rest, other)| {
                let mut s = vec![W::Struct { off: 0, data: 1, ptrs: 1 }, W::Raw(which)];
                s.extend(rest);
                Input::Words { segs: vec![s, other], count: None, size: None, cut: 0 }
            }),
        6 => (gmsg(2_000), layout(), proptest::collection::vec((any::<u16>(), any::<u8>()), 0..4),
              proptest::collection::vec((any::<u16>(), word()), 0..3), proptest::option::weighted(0.2, any::<u16>()),
              prop_oneof![3 => Just(0u8), 1 => any::<u8>()])
            .prop_map(|(msg, lay, xor, words, cut, more)| Input::Mutant { msg, lay, xor, words, cut, more }),
        2 => (0..9u8, (-8..6i8, 0..120u32), (-8..6i8, 0..120u32), proptest::collection::vec(any::<u8>(), 0..80))
            .prop_map(|(kind, first, second, body)| Input::Overlap { kind, first, second, body }),
    ])
}

fn size_of(m: &Msg) -> usize {
    match m {
        Msg::AuthKey { key, sig, .. } => key.len() + sig.len(),
        Msg::AuthPermit { .. } => 0,
        Msg::AuthResponse { context, .. } => context.len(),
        Msg::Direct { to: a, body: b } | Msg::Broadcast { topics: a, body: b } => a.len() + b.len(),
        Msg::Subscribe(x) | Msg::Unsubscribe(x) | Msg::UserSync(x) | Msg::TopicSync(x) => x.len(),
    }
}

fn check_bytes(b: &[u8], rec: &mut Rec) -> CaseResult {
    let (got, used) = mem::peak(|| Message::deserialize(b));
    // What it yields is at most 8 times the input; growing a list can double that twice.
    if used > 40 * b.len() + 20_000 {
        return Err(format!("decoding {} bytes took {used} bytes of memory", b.len()));
    }
    let Ok(m) = got else {
        rec.tag("refused");
        return Ok(());
    };
    let mine = Msg::from_real(&m);
    rec.nontrivial();
    rec.tag(format!("accepted {}", mine.kind()));
    if size_of(&mine) > 8 * b.len() {
        return Err(format!("{} bytes decode to {} bytes of fields", b.len(), size_of(&mine)));
    }
    if let Some(x) = wire::decode(b) {
        rec.tag("also read independently");
        if x != mine {
            return Err(format!("an independent reader reads {} where the system reads {}", short(&x), short(&mine)));
        }
    }
    let again = m.serialize().map_err(|e| format!("what was decoded, {}, cannot be serialized: {e}", short(&mine)))?;
    let back = Message::deserialize(&again)
        .map_err(|e| format!("what was decoded, {}, serializes to what cannot be decoded: {e}", short(&mine)))?;
    if back != m {
        return Err(format!("{} changes when serialized again", short(&mine)));
    }
    rec.note = format!("{} bytes decode to {}", b.len(), short(&mine));
    Ok(())
}

fn run_input(c: &Input, rec: &mut Rec) -> CaseResult {
    check_bytes(&c.bytes(), rec)
}
fn run_inputs(c: &Vec<Input>, rec: &mut Rec) -> CaseResult {
    c.iter().try_for_each(|i| run_input(i, rec))
}

/// Bytes that declare much more than they contain.
fn bombs() -> Vec<Input> {
    let mut v = vec![];
    for segs in [0u32, 1, 2, 511, 512, u32::MAX - 1, u32::MAX] {
        for words in [0u32, 1, 0x0fff_ffff, u32::MAX] {
            let mut b = segs.to_le_bytes().to_vec();
            for _ in 0..20 {
                b.extend_from_slice(&words.to_le_bytes());
            }
            v.push(Input::Bytes(Blob::Lit(b.clone())));
            b.resize(4000, 0);
            v.push(Input::Bytes(Blob::Lit(b)));
        }
    }
    // Lists of nothing, and of structures of nothing, with very many elements
    for which in 0..10u64 {
        for w in [
            W::List { off: 0, size: 0, count: 0x1fff_ffff },
            W::List { off: 0, size: 1, count: 0x1fff_ffff },
            W::List { off: 0, size: 7, count: 0 },
            W::List { off: 0, size: 7, count: 1 },
        ] {
            for nested in [false, true] {
                let mut s = vec![W::Struct { off: 0, data: 1, ptrs: 1 }, W::Raw(which)];
                if nested {
                    s.push(W::Struct { off: 0, data: 1, ptrs: 2 });
                    s.push(W::Raw(1));
                    s.push(w.clone());
                    s.push(w.clone());
                } else {
                    s.push(w.clone());
                }
                s.push(W::Tag { count: 0x3fff_ffff, data: 0, ptrs: 0 });
                s.push(W::Tag { count: 0x3fff_ffff, data: 0, ptrs: 0 });
                v.push(Input::Words { segs: vec![s], count: None, size: None, cut: 0 });
            }
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Name {
    public: String,
    private: String,
    other: String,
}

fn name() -> BoxedStrategy<Name> {
    let endpoint = || {
        prop_oneof![
            "[a-z0-9.-]{1,20}:[0-9]{1,5}",
            Just(String::new()),
            "[^/]{0,30}",
            (any::<[u8; 4]>(), any::<u16>()).prop_map(|(a, p)| format!("{}.{}.{}.{}:{p}", a[0], a[1], a[2], a[3])),
            Just("[::1]:80".to_string()),
        ]
    };
    boxed((endpoint(), endpoint(), prop_oneof!["[a-c/]{0,12}", "\\PC{0,20}", any::<String>()])
        .prop_map(|(public, private, other)| Name { public, private, other }))
}

fn run_name(c: &Name, rec: &mut Rec) -> CaseResult {
    let id = BrokerIdentifier {
        public_advertise_endpoint: c.public.clone(),
        private_advertise_endpoint: c.private.clone(),
    };
    let text = id.to_string();
    match BrokerIdentifier::try_from(text.clone()) {
        Ok(x) if x == id => {}
        Ok(x) => return Err(format!("{id:?}, written {text:?}, is read as {x:?}")),
        Err(e) => return Err(format!("{id:?}, written {text:?}, cannot be read: {e}")),
    }
    if !c.public.is_empty() && !c.private.is_empty() {
        rec.nontrivial();
    }
    if let Ok(x) = BrokerIdentifier::try_from(c.other.clone()) {
        rec.tag("arbitrary text accepted");
        match BrokerIdentifier::try_from(x.to_string()) {
            Ok(y) if y == x => {}
            o => return Err(format!("{:?} is read as {x:?}, which in turn is written and read as {o:?}", c.other)),
        }
    } else {
        rec.tag("arbitrary text refused");
    }
    rec.note = text;
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C14",
            rule: "messages of all kinds, field sizes around and beyond the encoder's segments, and random alternative layouts by an independent encoder; non-trivial: the message has contents",
            parts: vec![
                part(
                    "round trip",
                    Opts { quick: 40_000, thorough: 2_000_000, ..Opts::default() },
                    || boxed((gmsg(200_000), layout()).prop_map(|(msg, lay)| Trip { msg, lay })),
                    run_trip,
                ),
                fixed("large", true, big, run_trip),
                fixed("limits", true, limits, run_limit),
            ],
        },
        Property {
            id: "C15",
            rule: "lists of inputs: random bytes, pointer soups, mutated and truncated valid encodings, overlapping fields, false declarations; broker identifiers; non-trivial: the decoder accepted some",
            parts: vec![
                part(
                    "bytes",
                    Opts { quick: 80_000, thorough: 2_000_000, ..Opts::default() },
                    || boxed(proptest::collection::vec(input(), 1..16)),
                    run_inputs,
                ),
                fixed("declared sizes", true, bombs, run_input),
                part("identifiers", Opts { quick: 40_000, thorough: 500_000, ..Opts::default() }, name, run_name),
            ],
        },
    ]
}
