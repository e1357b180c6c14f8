//! C26: message hooks decide the fate of messages and nothing else.

use std::{
    cell::RefCell,
    collections::{BTreeSet, HashMap},
};

use cdn_proto::{def::HookResult, message::Message};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{
    engine::{part, CaseResult, Opts, Property, Rec},
    net::NetCfg,
    sim::*,
    wire::{self, Msg},
};

/// Users 0 to 2 are at broker 0, user 3 is at broker 1; a harness-made broker F is linked to broker 0.
const USERS: usize = 4;
fn home(u: usize) -> usize {
    usize::from(u == 3)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    lat: u64,
    chunk: usize,
    seed: u64,
    topics: Vec<Vec<u8>>,
    bursts: Vec<Burst>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Burst {
    /// A user, or F.
    from: usize,
    msgs: Vec<Planned>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Planned {
    what: What,
    /// What the first hook that sees it says, and that of the next broker.
    first: Dec,
    then: Dec,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    Direct(usize),
    Broadcast(Vec<u8>),
    Sub(Vec<u8>),
    Unsub(Vec<u8>),
    /// A message that has no business here.
    Odd(u64),
    /// From F: the interests of broker 0 at the time F was linked, as F's own.
    Interests,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Dec {
    Process,
    Skip,
    Err,
    /// Only the payload changes: what is forwarded does not.
    Scribble,
    Into(What),
}

thread_local! {
    static PLAN: RefCell<HashMap<(HookKind, usize, Vec<u8>), usize>> = RefCell::default();
    static DECS: RefCell<Vec<(Dec, Option<Msg>)>> = RefCell::default();
}

fn decide(kind: HookKind, node: usize, m: &mut Message) -> Option<anyhow::Result<HookResult>> {
    let content = wire::encode(&Msg::from_real(m));
    let i = PLAN.with(|p| p.borrow().get(&(kind, node, content)).copied())?;
    DECS.with(|d| match &d.borrow()[i] {
        (Dec::Process, _) => Some(Ok(HookResult::ProcessMessage)),
        (Dec::Skip, _) => Some(Ok(HookResult::SkipMessage)),
        (Dec::Err, _) => Some(Err(anyhow::anyhow!("the hook says no"))),
        (_, Some(to)) => {
            *m = to.to_real();
            Some(Ok(HookResult::ProcessMessage))
        }
        _ => None,
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum To {
    User(usize),
    F,
    Broker(usize),
}
enum Fate {
    Fine(Vec<To>),
    Gone,
}

struct Model {
    /// Valid topics of each user in session.
    users: Vec<Option<BTreeSet<u8>>>,
    f: Option<BTreeSet<u8>>,
    /// What F was told of broker 0's interests.
    f_told: BTreeSet<u8>,
}
impl Model {
    fn interests(&self, b: usize) -> BTreeSet<u8> {
        (0..USERS).filter(|u| home(*u) == b).filter_map(|u| self.users[u].clone()).flatten().collect()
    }
    fn from_user(&mut self, u: usize, m: &Msg) -> Fate {
        let b = home(u);
        match m {
            Msg::Direct { to, .. } => match (0..USERS).find(|v| user_key(*v) == *to && self.users[*v].is_some()) {
                Some(v) if home(v) == b => Fate::Fine(vec![To::User(v)]),
                Some(v) => Fate::Fine(vec![To::Broker(home(v))]),
                None => Fate::Fine(vec![]),
            },
            Msg::Broadcast { topics, .. } => {
                let t: BTreeSet<u8> = topics.iter().copied().filter(|t| good(*t)).collect();
                if t.is_empty() {
                    return Fate::Gone;
                }
                let mut out = self.local(b, &t);
                if !self.interests(1 - b).is_disjoint(&t) {
                    out.push(To::Broker(1 - b));
                }
                if b == 0 && self.f.as_ref().is_some_and(|f| !f.is_disjoint(&t)) {
                    out.push(To::F);
                }
                Fate::Fine(out)
            }
            Msg::Subscribe(t) | Msg::Unsubscribe(t) => {
                let t: BTreeSet<u8> = t.iter().copied().filter(|t| good(*t)).collect();
                if t.is_empty() {
                    return Fate::Gone;
                }
                let mine = self.users[u].as_mut().unwrap();
                if matches!(m, Msg::Subscribe(_)) {
                    mine.extend(t);
                } else {
                    mine.retain(|x| !t.contains(x));
                }
                Fate::Fine(vec![])
            }
            _ => Fate::Gone,
        }
    }
    fn from_broker(&mut self, b: usize, m: &Msg, is_f: bool) -> Vec<To> {
        match m {
            Msg::Direct { to, .. } => (0..USERS)
                .filter(|v| home(*v) == b && user_key(*v) == *to && self.users[*v].is_some())
                .map(To::User)
                .collect(),
            Msg::Broadcast { topics, .. } => self.local(b, &topics.iter().copied().collect()),
            Msg::TopicSync(_) if is_f => {
                self.f.as_mut().unwrap().extend(self.f_told.clone());
                vec![]
            }
            _ => vec![],
        }
    }
    fn local(&self, b: usize, t: &BTreeSet<u8>) -> Vec<To> {
        (0..USERS)
            .filter(|v| home(*v) == b && self.users[*v].as_ref().is_some_and(|x| !x.is_disjoint(t)))
            .map(To::User)
            .collect()
    }
}

fn run(c: &Case, rec: &mut Rec) -> CaseResult {
    let out = RefCell::new(Rec::default());
    PLAN.with(|p| p.borrow_mut().clear());
    DECS.with(|p| p.borrow_mut().clear());
    let r = run_sim(NetCfg { lat: c.lat, chunk: c.chunk, ..NetCfg::default() }, c.seed, async {
        HOOKS.with(|h| {
            let mut h = h.borrow_mut();
            h.log = true;
            h.decide = Some(decide);
        });
        let mut w = World::default();
        for b in 0..2 {
            w.start(b, None).await?;
        }
        if !meshed(&[0, 1], 40_000).await {
            return Err("the brokers were not linked within 40 s".into());
        }
        let mut model = Model { users: vec![None; USERS], f: None, f_told: BTreeSet::new() };
        let mut peers: Vec<Option<Peer>> = vec![None; USERS];
        let mut f_peer: Option<(Peer, Vec<u8>)> = None;
        // Which connection a hook's instance belongs to, and which peer its identifier.
        let mut conns: HashMap<u64, String> = HashMap::new();
        let mut instances: HashMap<String, u64> = HashMap::new();
        let mut ids: HashMap<u64, String> = HashMap::new();
        let mut names: HashMap<String, u64> = HashMap::new();
        let mut epoch = vec![0usize; USERS];
        let (mut f_epoch, mut mesh_epoch) = (0, 0);
        let mut n = 0u64;
        let (mut skipped, mut failed, mut changed, mut processed) = (0, 0, 0, 0);
        let topics_of = |u: usize| c.topics.get(u).cloned().unwrap_or_default();
        for (k, burst) in c.bursts.iter().enumerate() {
            // Everyone is there.
            let mut fresh = false;
            for u in 0..USERS {
                if model.users[u].is_none() {
                    let p = login(home(u), u, &topics_of(u)).await.map_err(|e| format!("login: {e:?}"))?;
                    peers[u] = Some(p);
                    model.users[u] = Some(topics_of(u).into_iter().filter(|t| good(*t)).collect());
                    epoch[u] += 1;
                    fresh = true;
                }
            }
            if fresh {
                ms(22_000).await;
            }
            if model.f.is_none() {
                f_epoch += 1;
                let p = fake_dial(0, 60 + f_epoch, &format!("f{f_epoch}")).await.ok_or("F was not linked")?;
                ms(1_000).await;
                let sync = p.frames().into_iter().find(|f| matches!(wire::decode(f), Some(Msg::TopicSync(_))));
                model.f = Some(BTreeSet::new());
                // What broker 0 no longer wants is not repeated by this: it was told the interests as they are.
                model.f_told = model.interests(0);
                f_peer = Some((p, sync.unwrap_or_default()));
            }
            let from_f = burst.from % (USERS + 1) == USERS;
            let u = burst.from % (USERS + 1);
            let sender = if from_f { f_peer.as_ref().unwrap().0.clone() } else { peers[u].clone().unwrap() };
            let before = (model.interests(0), model.interests(1));
            let marks: Vec<usize> = peers.iter().map(|p| p.as_ref().map_or(0, Peer::count)).collect();
            let f_mark = f_peer.as_ref().map_or(0, |f| f.0.count());
            let call_mark = HOOKS.with(|h| h.borrow().calls.len());
            let mut want: HashMap<To, Vec<Vec<u8>>> = HashMap::new();
            let mut calls: HashMap<(HookKind, usize), Vec<Msg>> = HashMap::new();
            let mut gone = false;
            let mut cut = false;
            let mut send = vec![];
            let mut repeated = false;
            for p in &burst.msgs {
                let real = |what: &What, n: &mut u64, sync: &[u8]| {
                    *n += 1;
                    let mut body = n.to_be_bytes().to_vec();
                    body.resize(8 + (*n as usize * 37) % 200, 3);
                    // Topics that do not exist make each message unique.
                    let nonce = |t: &Vec<u8>, n: u64| {
                        let mut t = t.clone();
                        t.extend([100 + (n % 100) as u8, 100 + (n / 100 % 100) as u8]);
                        t
                    };
                    match what {
                        What::Direct(v) => Msg::Direct { to: user_key(*v), body },
                        What::Broadcast(t) => Msg::Broadcast { topics: t.clone(), body },
                        What::Sub(t) => Msg::Subscribe(nonce(t, *n)),
                        What::Unsub(t) => Msg::Unsubscribe(nonce(t, *n)),
                        What::Odd(x) => Msg::AuthPermit { permit: (*x << 32) + *n },
                        What::Interests => wire::decode(sync).unwrap_or(Msg::AuthPermit { permit: (1 << 40) + *n }),
                    }
                };
                let mut sync = vec![];
                if from_f && matches!(p.what, What::Interests) && !repeated {
                    sync = f_peer.as_ref().unwrap().1.clone();
                    repeated = true;
                }
                let msg = real(&p.what, &mut n, &sync);
                let resolve = |d: &Dec, n: &mut u64| match d {
                    Dec::Scribble => Some(match msg.clone() {
                        Msg::Direct { to, .. } => Msg::Direct { to, body: b"scribbled".to_vec() },
                        Msg::Broadcast { topics, .. } => Msg::Broadcast { topics, body: b"scribbled".to_vec() },
                        m => m,
                    }),
                    Dec::Into(w) => Some(real(w, n, &[])),
                    _ => None,
                };
                let first = (p.first.clone(), resolve(&p.first, &mut n));
                let then = (p.then.clone(), resolve(&p.then, &mut n));
                let (own, other) = if from_f { (HookKind::Broker, HookKind::User) } else { (HookKind::User, HookKind::Broker) };
                let bytes = wire::encode(&msg);
                let here = if from_f { 0 } else { home(u) };
                for (kind, node, d) in [(own, here, &first), (other, 1 - here, &then)] {
                    let i = DECS.with(|x| {
                        x.borrow_mut().push(d.clone());
                        x.borrow().len() - 1
                    });
                    PLAN.with(|x| x.borrow_mut().insert((kind, node, bytes.clone()), i));
                }
                send.push(bytes.clone());
                if gone {
                    // Comes after the end.
                    continue;
                }
                let b = if from_f { 0 } else { home(u) };
                calls.entry((own, b)).or_default().push(msg.clone());
                let as_left = match &first {
                    (Dec::Skip, _) => {
                        skipped += 1;
                        continue;
                    }
                    (Dec::Err, _) => {
                        failed += 1;
                        gone = true;
                        continue;
                    }
                    (_, Some(m)) => {
                        changed += 1;
                        m.clone()
                    }
                    _ => {
                        processed += 1;
                        msg.clone()
                    }
                };
                let to = if from_f {
                    model.from_broker(0, &as_left, true)
                } else {
                    match model.from_user(u, &as_left) {
                        Fate::Gone => {
                            gone = true;
                            continue;
                        }
                        Fate::Fine(to) => to,
                    }
                };
                let mut end = false;
                for t in to {
                    let To::Broker(o) = t else {
                        want.entry(t).or_default().push(bytes.clone());
                        continue;
                    };
                    calls.entry((HookKind::Broker, o)).or_default().push(msg.clone());
                    let m = match &then {
                        (Dec::Skip, _) => {
                            skipped += 1;
                            continue;
                        }
                        (Dec::Err, _) => {
                            failed += 1;
                            cut = true;
                            end = true;
                            continue;
                        }
                        (_, Some(m)) => {
                            changed += 1;
                            m.clone()
                        }
                        _ => msg.clone(),
                    };
                    for t in model.from_broker(o, &m, false) {
                        want.entry(t).or_default().push(bytes.clone());
                    }
                }
                if end {
                    break;
                }
            }
            for b in &send {
                sender.frame(b);
            }
            ms(300 + 40 * c.lat).await;
            let what = format!("burst {k} from {}", if from_f { "F".into() } else { format!("user {u}") });
            // What was delivered.
            for v in 0..USERS {
                let Some(p) = &peers[v] else { continue };
                let got = p.frames()[marks[v]..].to_vec();
                let w = want.remove(&To::User(v)).unwrap_or_default();
                // (A user that is thrown out may miss what it sent itself before.)
                let same = if gone && v == u && !from_f { w.starts_with(&got) } else { got == w };
                if !same {
                    return Err(format!(
                        "{what}: user {v} received {:?} instead of {:?}",
                        got.iter().map(|b| wire::decode(b)).collect::<Vec<_>>(),
                        w.iter().map(|b| wire::decode(b)).collect::<Vec<_>>()
                    ));
                }
            }
            if let Some((p, _)) = &f_peer {
                let got = not_sync(p.frames()[f_mark..].to_vec());
                let w = want.remove(&To::F).unwrap_or_default();
                if got != w {
                    return Err(format!(
                        "{what}: F received {:?} instead of {:?}",
                        got.iter().map(|b| wire::decode(b)).collect::<Vec<_>>(),
                        w.iter().map(|b| wire::decode(b)).collect::<Vec<_>>()
                    ));
                }
            }
            // Who is connected.
            for v in 0..USERS {
                if let Some(p) = &peers[v] {
                    let end = gone && !from_f && v == u;
                    if p.is_closed() != end {
                        return Err(format!("{what}: user {v} {}", if end { "is still connected" } else { "was disconnected" }));
                    }
                }
            }
            let f_end = gone && from_f;
            if let Some((p, _)) = &f_peer {
                if p.is_closed() != f_end {
                    return Err(format!("{what}: F {}", if f_end { "is still linked" } else { "lost its link" }));
                }
            }
            // What the hooks saw.
            let f_sync = f_peer.as_ref().and_then(|f| wire::decode(&f.1));
            let seen: Vec<HookCall> = HOOKS.with(|h| h.borrow().calls[call_mark..].to_vec());
            let mut by: HashMap<(HookKind, usize), Vec<HookCall>> = HashMap::new();
            for s in seen {
                let sync = matches!(s.msg, Msg::UserSync(_) | Msg::TopicSync(_));
                if sync && !(s.node == 0 && from_f && Some(&s.msg) == f_sync.as_ref()) {
                    continue;
                }
                by.entry((s.kind, s.node)).or_default().push(s);
            }
            for key in [(HookKind::User, 0), (HookKind::User, 1), (HookKind::Broker, 0), (HookKind::Broker, 1)] {
                let got = by.remove(&key).unwrap_or_default();
                let w = calls.remove(&key).unwrap_or_default();
                if got.iter().map(|g| &g.msg).ne(w.iter()) {
                    return Err(format!(
                        "{what}: the {:?} hook of broker {} saw {:?} instead of {w:?}",
                        key.0,
                        key.1,
                        got.iter().map(|g| &g.msg).collect::<Vec<_>>()
                    ));
                }
                if got.is_empty() {
                    continue;
                }
                // One instance per connection, one identifier per peer.
                let name = match key.0 {
                    HookKind::User => format!("user {u}"),
                    HookKind::Broker if from_f => format!("broker f{f_epoch}"),
                    HookKind::Broker => format!("broker b{}", 1 - key.1),
                };
                let conn = match key.0 {
                    HookKind::User => format!("{name} {}", epoch[u]),
                    HookKind::Broker if from_f => name.clone(),
                    HookKind::Broker => format!("{name} {mesh_epoch}"),
                };
                for g in &got {
                    let Some(id) = g.identifier else {
                        return Err(format!("{what}: a hook was given no identifier"));
                    };
                    if *names.entry(name.clone()).or_insert(id) != id || *ids.entry(id).or_insert(name.clone()) != name {
                        return Err(format!("{what}: the identifier of {name} is {id}, {names:?}"));
                    }
                    if *instances.entry(conn.clone()).or_insert(g.instance) != g.instance
                        || *conns.entry(g.instance).or_insert(conn.clone()) != conn
                    {
                        return Err(format!("{what}: the hooks of connections are mixed up: {conn} has {}, {instances:?}", g.instance));
                    }
                }
                if got.windows(2).any(|p| p[1].nth <= p[0].nth) {
                    return Err(format!("{what}: the hook lost its state"));
                }
            }
            // Prepare for the next one.
            PLAN.with(|p| p.borrow_mut().clear());
            if gone {
                if from_f {
                    model.f = None;
                    f_peer = None;
                } else {
                    model.users[u] = None;
                }
            }
            let after = (model.interests(0), model.interests(1));
            if cut {
                ms(1_000).await;
                if !meshed(&[0, 1], 40_000).await {
                    return Err(format!("{what}: the brokers were not linked again"));
                }
                mesh_epoch += 1;
                ms(22_000).await;
            } else if gone || before != after {
                ms(22_000).await;
            }
        }
        if let Some(d) = w.dead() {
            return Err(d);
        }
        if let Some(p) = case_panics().first() {
            return Err(format!("panic: {p}"));
        }
        let mut o = out.borrow_mut();
        o.nontrivial = skipped + failed + changed > 0 && processed > 0;
        o.tag_if(skipped > 0, "a hook skipped");
        o.tag_if(failed > 0, "a hook failed");
        o.tag_if(changed > 0, "a hook changed a message");
        o.tag_if(f_epoch > 1 || mesh_epoch > 0, "a broker link was dropped");
        o.note = format!("{processed} processed, {skipped} skipped, {failed} failed, {changed} changed");
        Ok(())
    });
    *rec = out.into_inner();
    r
}

fn strat() -> BoxedStrategy<Case> {
    let topics = || proptest::collection::vec(prop_oneof![5 => 0u8..2, 1 => 2u8..5], 0..3);
    let some = move || proptest::collection::vec(prop_oneof![8 => 0u8..2, 1 => 2u8..5], 1..3);
    let what = move || {
        prop_oneof![
            5 => (0usize..5).prop_map(What::Direct),
            5 => some().prop_map(What::Broadcast),
            2 => some().prop_map(What::Sub),
            2 => some().prop_map(What::Unsub),
            1 => (0u64..4).prop_map(What::Odd),
            2 => Just(What::Interests),
        ]
    };
    let dec = move || {
        prop_oneof![
            8 => Just(Dec::Process),
            3 => Just(Dec::Skip),
            1 => Just(Dec::Err),
            2 => Just(Dec::Scribble),
            3 => what().prop_map(Dec::Into),
        ]
    };
    let planned = (what(), dec(), dec()).prop_map(|(what, first, then)| Planned { what, first, then });
    let burst = (0usize..USERS + 1, proptest::collection::vec(planned, 1..8)).prop_map(|(from, msgs)| Burst {
        // Only F repeats interests.
        msgs: msgs
            .into_iter()
            .map(|mut p| {
                if matches!(p.what, What::Interests) && from < USERS {
                    p.what = What::Direct(0);
                }
                p
            })
            .collect(),
        from,
    });
    (
        1u64..10,
        prop_oneof![Just(1usize), 2usize..50, Just(1 << 16)],
        any::<u64>(),
        proptest::collection::vec(topics(), USERS),
        proptest::collection::vec(burst, 1..7),
    )
        .prop_map(|(lat, chunk, seed, topics, bursts)| Case { lat, chunk, seed, topics, bursts })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C26",
        rule: "generated messages on user and broker connections with generated decisions of the hooks (process, skip, fail, change) at both brokers; non-trivial: some were processed, and some were skipped, failed or changed",
        parts: vec![part("decisions", Opts { quick: 32_000, thorough: 800_000, ..Opts::default() }, strat, run)],
    }]
}
