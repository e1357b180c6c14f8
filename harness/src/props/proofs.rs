//! Generated proofs of key possession, and what a verifier must think of them.

use cdn_proto::crypto::signature::Serializable;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::hostile::any_msg;
use crate::{
    sim::{toy_sign, unix_now, SimKey, NS_BROKER, NS_USER},
    wire::{self, Msg},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Proof {
    /// With this many extra bytes after the key.
    Good(u8),
    /// So many seconds ago (negative: ahead).
    Age(i64),
    /// By somebody else's key.
    Key(u64),
    Domain(u8),
    /// The signature changed or shortened.
    Sig(Vec<(u8, u8)>, u8),
    KeyBytes(Vec<u8>),
    /// Signed by a key other than the one that is presented.
    Foreign(u64),
    /// The signature is over another timestamp.
    OtherTime(u64),
    Other(Msg),
    Bytes(Vec<u8>),
    /// An older proof of a broker.
    Replay,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Must {
    Accept,
    Refuse,
    Either,
}

pub fn domain(n: u8) -> &'static str {
    match n % 5 {
        0 => NS_USER,
        1 => NS_BROKER,
        2 => "",
        3 => "espresso-cdn-user-broker-auth",
        _ => "espresso-cdn",
    }
}

impl Proof {
    pub fn body(&self, id: u64, ns: &str, old: Option<&[u8]>) -> Vec<u8> {
        let now = unix_now();
        let make = |key: u64, by: u64, ns: &str, ts: u64, signed_ts: u64, extra: u8| {
            let mut k = SimKey(key).serialize().unwrap();
            k.extend_from_slice(&vec![0xCC; extra as usize]);
            Msg::AuthKey { key: k, ts, sig: toy_sign(by, ns, &signed_ts.to_le_bytes()) }
        };
        let m = match self {
            Self::Good(x) => make(id, id, ns, now, now, *x),
            Self::Age(a) => {
                let ts = now.wrapping_add_signed(a.wrapping_neg());
                make(id, id, ns, ts, ts, 0)
            }
            Self::Key(k) => make(*k, *k, ns, now, now, 0),
            Self::Domain(d) => make(id, id, domain(*d), now, now, 0),
            Self::Sig(muts, cut) => {
                let mut s = toy_sign(id, ns, &now.to_le_bytes());
                for (i, x) in muts {
                    let n = s.len();
                    s[*i as usize % n] ^= x;
                }
                s.truncate(s.len() - (*cut as usize % (s.len() + 1)));
                Msg::AuthKey { key: SimKey(id).serialize().unwrap(), ts: now, sig: s }
            }
            Self::KeyBytes(b) => Msg::AuthKey { key: b.clone(), ts: now, sig: toy_sign(id, ns, &now.to_le_bytes()) },
            Self::Foreign(k) => make(id, *k, ns, now, now, 0),
            Self::OtherTime(t) => make(id, id, ns, now, *t, 0),
            Self::Other(m) => m.clone(),
            Self::Bytes(b) => return b.clone(),
            Self::Replay => match old {
                Some(b) => return b.to_vec(),
                None => make(id, id, ns, now.wrapping_sub(7), now.wrapping_sub(7), 0),
            },
        };
        wire::encode(&m)
    }
}

/// What a verifier must do with this body if it looks at it at a time in lo..=hi; and the key it proves.
pub fn judge(body: &[u8], ns: &str, lo: u64, hi: u64) -> (Must, Option<u64>) {
    let Some(Msg::AuthKey { key, ts, sig }) = wire::decode(body) else {
        return (Must::Refuse, None);
    };
    let Ok(key) = SimKey::deserialize(&key) else {
        return (Must::Refuse, None);
    };
    if toy_sign(key.0, ns, &ts.to_le_bytes()) != sig {
        return (Must::Refuse, None);
    }
    let at = |now: u64| {
        if ts <= now {
            if now - ts <= 5 {
                Must::Accept
            } else {
                Must::Refuse
            }
        } else if ts - now <= 5 {
            Must::Either
        } else {
            Must::Refuse
        }
    };
    let (a, b) = (at(lo), at(hi));
    (if a == b { a } else { Must::Either }, Some(key.0))
}

pub fn strat() -> BoxedStrategy<Proof> {
    prop_oneof![
        6 => prop_oneof![3 => Just(0u8), 1 => 0u8..40].prop_map(Proof::Good),
        3 => prop_oneof![
            4 => 0i64..9,
            2 => -9i64..0,
            1 => any::<i32>().prop_map(i64::from),
            1 => any::<i64>(),
            1 => Just(i64::MIN)
        ].prop_map(Proof::Age),
        1 => any::<u64>().prop_map(Proof::Key),
        1 => any::<u8>().prop_map(Proof::Domain),
        1 => (proptest::collection::vec((any::<u8>(), 1u8..=255), 0..3), prop_oneof![Just(0u8), any::<u8>()]).prop_map(|(m, c)| Proof::Sig(m, c)),
        1 => proptest::collection::vec(any::<u8>(), 0..12).prop_map(Proof::KeyBytes),
        1 => any::<u64>().prop_map(Proof::Foreign),
        1 => any::<u64>().prop_map(Proof::OtherTime),
        1 => any_msg().prop_map(Proof::Other),
        1 => proptest::collection::vec(any::<u8>(), 0..60).prop_map(Proof::Bytes),
        1 => Just(Proof::Replay),
    ]
    .boxed()
}
