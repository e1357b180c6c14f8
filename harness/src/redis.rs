//! A small Redis/KeyDB server for the store checks: the commands a discovery store may reasonably use, on the case
//! thread's wall clock, with faults (connections cut or commands refused at a chosen point).

use std::{
    cell::RefCell,
    collections::BTreeMap,
    rc::Rc,
    time::{SystemTime, UNIX_EPOCH},
};

use tokio::{
    io::{AsyncReadExt, AsyncWriteExt},
    net::{TcpListener, TcpStream},
};

type Bs = Vec<u8>;
type Ms = u128;

#[derive(Clone, Debug)]
enum Val {
    Str(Bs),
    /// Members with their own expiry
    Set(BTreeMap<Bs, Option<Ms>>),
    Hash(BTreeMap<Bs, Bs>),
    Z(BTreeMap<Bs, i64>),
}

#[derive(Clone, Debug)]
enum R {
    Ok,
    Int(i64),
    Bulk(Bs),
    Nil,
    Arr(Vec<R>),
    Err(String),
}
impl R {
    fn write(&self, o: &mut Bs) {
        match self {
            R::Ok => o.extend(b"+OK\r\n"),
            R::Int(i) => o.extend(format!(":{i}\r\n").bytes()),
            R::Bulk(b) => {
                o.extend(format!("${}\r\n", b.len()).bytes());
                o.extend(b);
                o.extend(b"\r\n");
            }
            R::Nil => o.extend(b"$-1\r\n"),
            R::Arr(v) => {
                o.extend(format!("*{}\r\n", v.len()).bytes());
                v.iter().for_each(|r| r.write(o));
            }
            R::Err(e) => o.extend(format!("-{e}\r\n").bytes()),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Trouble {
    /// The connection is cut before this command is executed.
    CutBefore,
    /// It is executed, but the connection is cut before its answer.
    CutAfter,
    /// It is refused.
    Refuse,
}

#[derive(Default)]
pub struct Db {
    keys: BTreeMap<Bs, (Val, Option<Ms>)>,
    /// Trouble for the n-th command from now (connection setup not counted).
    pub trouble: Option<(usize, Trouble)>,
    /// Before each command, the clock advances by this much.
    pub tick: u64,
    pub commands: u64,
    pub unknown: Vec<String>,
}

fn now() -> Ms {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap_or_default().as_millis()
}
fn int(b: &[u8]) -> Option<i64> {
    std::str::from_utf8(b).ok()?.parse().ok()
}

impl Db {
    fn purge(&mut self) {
        let t = now();
        for (v, _) in self.keys.values_mut() {
            if let Val::Set(s) = v {
                s.retain(|_, e| e.map_or(true, |e| e > t));
            }
        }
        self.keys.retain(|_, (v, e)| {
            e.map_or(true, |e| e > t)
                && match v {
                    Val::Set(s) => !s.is_empty(),
                    Val::Hash(s) => !s.is_empty(),
                    Val::Z(s) => !s.is_empty(),
                    Val::Str(_) => true,
                }
        });
    }

    fn exec(&mut self, a: &[Bs]) -> R {
        self.purge();
        let r = self.exec_(a);
        self.purge();
        r
    }

    fn exec_(&mut self, a: &[Bs]) -> R {
        let t = now();
        let name = String::from_utf8_lossy(&a[0]).to_uppercase();
        let n = a.len();
        let wrong = || R::Err("WRONGTYPE Operation against a key holding the wrong kind of value".into());
        let arity = || R::Err("ERR wrong number of arguments".into());
        let not_int = || R::Err("ERR value is not an integer or out of range".into());
        macro_rules! set {
            ($k:expr) => {
                match &mut self.keys.entry($k.clone()).or_insert((Val::Set(BTreeMap::new()), None)).0 {
                    Val::Set(s) => s,
                    _ => return wrong(),
                }
            };
        }
        macro_rules! need {
            ($m:expr) => {
                if n < $m {
                    return arity();
                }
            };
        }
        match name.as_str() {
            "PING" => R::Bulk(b"PONG".to_vec()),
            "SELECT" | "CLIENT" | "AUTH" | "READONLY" | "WATCH" | "UNWATCH" => R::Ok,
            "FLUSHALL" | "FLUSHDB" => {
                self.keys.clear();
                R::Ok
            }
            "TIME" => R::Arr(vec![
                R::Bulk((t / 1000).to_string().into_bytes()),
                R::Bulk(((t % 1000) * 1000).to_string().into_bytes()),
            ]),
            "SET" => {
                need!(3);
                let (mut exp, mut nx, mut xx, mut get, mut keep) = (None, false, false, false, false);
                let mut i = 3;
                while i < n {
                    let o = String::from_utf8_lossy(&a[i]).to_uppercase();
                    match o.as_str() {
                        "EX" | "PX" | "EXAT" | "PXAT" => {
                            let Some(v) = a.get(i + 1).and_then(|v| int(v)) else { return not_int() };
                            if v <= 0 {
                                return R::Err("ERR invalid expire time in 'set' command".into());
                            }
                            let v = v as Ms;
                            exp = Some(match o.as_str() {
                                "EX" => t + v * 1000,
                                "PX" => t + v,
                                "EXAT" => v * 1000,
                                _ => v,
                            });
                            i += 1;
                        }
                        "NX" => nx = true,
                        "XX" => xx = true,
                        "GET" => get = true,
                        "KEEPTTL" => keep = true,
                        _ => return R::Err("ERR syntax error".into()),
                    }
                    i += 1;
                }
                let old = self.keys.get(&a[1]).cloned();
                if keep {
                    exp = old.as_ref().and_then(|o| o.1);
                }
                let done = !(nx && old.is_some() || xx && old.is_none());
                if done {
                    self.keys.insert(a[1].clone(), (Val::Str(a[2].clone()), exp));
                }
                match (get, old) {
                    (true, Some((Val::Str(s), _))) => R::Bulk(s),
                    (true, Some(_)) => wrong(),
                    (true, None) => R::Nil,
                    (false, _) if done => R::Ok,
                    _ => R::Nil,
                }
            }
            "SETEX" | "PSETEX" => {
                need!(4);
                let Some(v) = int(&a[2]).filter(|v| *v > 0) else { return not_int() };
                let v = v as Ms * if name == "SETEX" { 1000 } else { 1 };
                self.keys.insert(a[1].clone(), (Val::Str(a[3].clone()), Some(t + v)));
                R::Ok
            }
            "SETNX" => {
                need!(3);
                if self.keys.contains_key(&a[1]) {
                    return R::Int(0);
                }
                self.keys.insert(a[1].clone(), (Val::Str(a[2].clone()), None));
                R::Int(1)
            }
            "GET" | "GETDEL" | "GETEX" => {
                need!(2);
                match self.keys.get(&a[1]) {
                    None => R::Nil,
                    Some((Val::Str(s), _)) => {
                        let s = s.clone();
                        if name == "GETDEL" {
                            self.keys.remove(&a[1]);
                        }
                        R::Bulk(s)
                    }
                    Some(_) => wrong(),
                }
            }
            "MGET" => R::Arr(
                a[1..]
                    .iter()
                    .map(|k| match self.keys.get(k) {
                        Some((Val::Str(s), _)) => R::Bulk(s.clone()),
                        _ => R::Nil,
                    })
                    .collect(),
            ),
            "MSET" => {
                for c in a[1..].chunks(2) {
                    if c.len() == 2 {
                        self.keys.insert(c[0].clone(), (Val::Str(c[1].clone()), None));
                    }
                }
                R::Ok
            }
            "DEL" | "UNLINK" => R::Int(a[1..].iter().filter(|k| self.keys.remove(*k).is_some()).count() as i64),
            "EXISTS" => R::Int(a[1..].iter().filter(|k| self.keys.contains_key(*k)).count() as i64),
            "EXPIRE" | "PEXPIRE" | "EXPIREAT" | "PEXPIREAT" => {
                need!(3);
                let Some(v) = int(&a[2]) else { return not_int() };
                let at = match name.as_str() {
                    "EXPIRE" => t as i64 + v * 1000,
                    "PEXPIRE" => t as i64 + v,
                    "EXPIREAT" => v * 1000,
                    _ => v,
                };
                match self.keys.get_mut(&a[1]) {
                    None => R::Int(0),
                    Some(e) => {
                        e.1 = Some(at.max(0) as Ms);
                        R::Int(1)
                    }
                }
            }
            "PERSIST" => match self.keys.get_mut(&a[1]) {
                Some(e) if e.1.is_some() => {
                    e.1 = None;
                    R::Int(1)
                }
                _ => R::Int(0),
            },
            "TTL" | "PTTL" => {
                need!(2);
                match self.keys.get(&a[1]) {
                    None => R::Int(-2),
                    Some((_, None)) => R::Int(-1),
                    Some((_, Some(e))) => R::Int((e - t) as i64 / if name == "TTL" { 1000 } else { 1 }),
                }
            }
            "INCR" | "DECR" | "INCRBY" | "DECRBY" => {
                need!(2);
                let by = if name.ends_with("BY") {
                    match a.get(2).and_then(|v| int(v)) {
                        Some(v) => v,
                        None => return not_int(),
                    }
                } else {
                    1
                } * if name.starts_with("DECR") { -1 } else { 1 };
                let e = self.keys.entry(a[1].clone()).or_insert((Val::Str(b"0".to_vec()), None));
                let Val::Str(s) = &mut e.0 else { return wrong() };
                let Some(v) = int(s) else { return not_int() };
                *s = (v + by).to_string().into_bytes();
                R::Int(v + by)
            }
            "SADD" => {
                need!(3);
                let s = set!(a[1]);
                let mut c = 0;
                for m in &a[2..] {
                    if !s.contains_key(m) {
                        s.insert(m.clone(), None);
                        c += 1;
                    }
                }
                R::Int(c)
            }
            "SREM" => {
                need!(3);
                let s = set!(a[1]);
                R::Int(a[2..].iter().filter(|m| s.remove(*m).is_some()).count() as i64)
            }
            "SMEMBERS" => {
                need!(2);
                R::Arr(set!(a[1]).keys().map(|k| R::Bulk(k.clone())).collect())
            }
            "SCARD" => {
                need!(2);
                R::Int(set!(a[1]).len() as i64)
            }
            "SISMEMBER" => {
                need!(3);
                R::Int(i64::from(set!(a[1]).contains_key(&a[2])))
            }
            "SMISMEMBER" => {
                need!(3);
                let s = set!(a[1]);
                R::Arr(a[2..].iter().map(|m| R::Int(i64::from(s.contains_key(m)))).collect())
            }
            "EXPIREMEMBER" | "EXPIREMEMBERAT" => {
                need!(4);
                let Some(v) = int(&a[3]) else { return not_int() };
                let unit = match a.get(4).map(|u| u.to_ascii_lowercase()) {
                    Some(u) if u == b"ms" => 1,
                    _ => 1000,
                };
                let s = set!(a[1]);
                match s.get_mut(&a[2]) {
                    None => R::Int(0),
                    Some(e) => {
                        *e = Some(if name == "EXPIREMEMBER" { t + v.max(0) as Ms * unit } else { v.max(0) as Ms * 1000 });
                        R::Int(1)
                    }
                }
            }
            "KEYS" | "SCAN" => {
                let pat = if name == "KEYS" {
                    a.get(1).cloned()
                } else {
                    a.iter()
                        .position(|x| x.eq_ignore_ascii_case(b"MATCH"))
                        .and_then(|i| a.get(i + 1).cloned())
                }
                .unwrap_or_else(|| b"*".to_vec());
                let v = R::Arr(
                    self.keys
                        .keys()
                        .filter(|k| glob(&pat, k))
                        .map(|k| R::Bulk(k.clone()))
                        .collect(),
                );
                if name == "KEYS" {
                    v
                } else {
                    R::Arr(vec![R::Bulk(b"0".to_vec()), v])
                }
            }
            "RENAME" => {
                need!(3);
                match self.keys.remove(&a[1]) {
                    None => R::Err("ERR no such key".into()),
                    Some(v) => {
                        self.keys.insert(a[2].clone(), v);
                        R::Ok
                    }
                }
            }
            "HSET" | "HGET" | "HDEL" | "HGETALL" | "HEXISTS" | "HLEN" => {
                need!(2);
                let h = match &mut self.keys.entry(a[1].clone()).or_insert((Val::Hash(BTreeMap::new()), None)).0 {
                    Val::Hash(h) => h,
                    _ => return wrong(),
                };
                match name.as_str() {
                    "HSET" => {
                        let mut c = 0;
                        for p in a[2..].chunks(2) {
                            if p.len() == 2 {
                                c += i64::from(h.insert(p[0].clone(), p[1].clone()).is_none());
                            }
                        }
                        R::Int(c)
                    }
                    "HGET" => a.get(2).and_then(|k| h.get(k)).map_or(R::Nil, |v| R::Bulk(v.clone())),
                    "HDEL" => R::Int(a[2..].iter().filter(|k| h.remove(*k).is_some()).count() as i64),
                    "HEXISTS" => R::Int(i64::from(a.get(2).is_some_and(|k| h.contains_key(k)))),
                    "HLEN" => R::Int(h.len() as i64),
                    _ => R::Arr(h.iter().flat_map(|(k, v)| [R::Bulk(k.clone()), R::Bulk(v.clone())]).collect()),
                }
            }
            "ZADD" | "ZCARD" | "ZREM" | "ZCOUNT" | "ZREMRANGEBYSCORE" => {
                need!(2);
                let z = match &mut self.keys.entry(a[1].clone()).or_insert((Val::Z(BTreeMap::new()), None)).0 {
                    Val::Z(z) => z,
                    _ => return wrong(),
                };
                let bound = |b: &Bs, low: bool| -> (i64, bool) {
                    let (b, excl) = b.strip_prefix(b"(").map_or((&b[..], false), |b| (b, true));
                    match b {
                        b"-inf" => (i64::MIN, false),
                        b"+inf" | b"inf" => (i64::MAX, false),
                        b => (int(b).unwrap_or(if low { i64::MIN } else { i64::MAX }), excl),
                    }
                };
                match name.as_str() {
                    "ZADD" => {
                        let mut c = 0;
                        for p in a[2..].chunks(2) {
                            let Some(s) = p.first().and_then(|s| int(s)) else { return not_int() };
                            if p.len() == 2 {
                                c += i64::from(z.insert(p[1].clone(), s).is_none());
                            }
                        }
                        R::Int(c)
                    }
                    "ZCARD" => R::Int(z.len() as i64),
                    "ZREM" => R::Int(a[2..].iter().filter(|k| z.remove(*k).is_some()).count() as i64),
                    _ => {
                        need!(4);
                        let (lo, le) = bound(&a[2], true);
                        let (hi, he) = bound(&a[3], false);
                        let hit = |s: i64| (s > lo || !le && s == lo) && (s < hi || !he && s == hi);
                        let c = z.values().filter(|s| hit(**s)).count() as i64;
                        if name == "ZREMRANGEBYSCORE" {
                            z.retain(|_, s| !hit(*s));
                        }
                        R::Int(c)
                    }
                }
            }
            _ => {
                self.unknown.push(name.clone());
                R::Err(format!("ERR unknown command '{name}'"))
            }
        }
    }

    /// Everything stored, for reports.
    pub fn dump(&self) -> String {
        self.keys
            .iter()
            .map(|(k, v)| format!("{}={v:?}", String::from_utf8_lossy(k)))
            .collect::<Vec<_>>()
            .join("; ")
    }
}

fn glob(p: &[u8], s: &[u8]) -> bool {
    match (p.first(), s.first()) {
        (None, None) => true,
        (Some(b'*'), _) => glob(&p[1..], s) || !s.is_empty() && glob(p, &s[1..]),
        (Some(b'?'), Some(_)) => glob(&p[1..], &s[1..]),
        (Some(x), Some(y)) if x == y => glob(&p[1..], &s[1..]),
        _ => false,
    }
}

/// Takes one command off the buffer.
fn take(buf: &mut Bs) -> Option<Vec<Bs>> {
    fn line(b: &[u8], at: usize) -> Option<(&[u8], usize)> {
        let end = b[at..].windows(2).position(|w| w == b"\r\n")? + at;
        Some((&b[at..end], end + 2))
    }
    let (l, mut at) = line(buf, 0)?;
    let n: usize = std::str::from_utf8(l.strip_prefix(b"*")?).ok()?.parse().ok()?;
    let mut out = vec![];
    for _ in 0..n {
        let (l, next) = line(buf, at)?;
        let len: usize = std::str::from_utf8(l.strip_prefix(b"$")?).ok()?.parse().ok()?;
        out.push(buf.get(next..next + len)?.to_vec());
        buf.get(next + len..next + len + 2)?;
        at = next + len + 2;
    }
    buf.drain(..at);
    Some(out)
}

pub type Shared = Rc<RefCell<Db>>;

async fn serve(mut s: TcpStream, db: Shared) {
    let mut buf = vec![];
    let mut multi: Option<(Vec<Vec<Bs>>, bool)> = None;
    let mut tmp = vec![0; 64 << 10];
    loop {
        while let Some(cmd) = take(&mut buf) {
            if cmd.is_empty() {
                continue;
            }
            let name = String::from_utf8_lossy(&cmd[0]).to_uppercase();
            let setup = name == "CLIENT" || name == "HELLO";
            let mut out = vec![];
            let mut hit = None;
            if !setup {
                let mut d = db.borrow_mut();
                d.commands += 1;
                if d.tick > 0 {
                    crate::clock::advance(std::time::Duration::from_millis(d.tick));
                }
                match &mut d.trouble {
                    Some((0, t)) => {
                        hit = Some(*t);
                        d.trouble = None;
                    }
                    Some((n, _)) => *n -= 1,
                    None => {}
                }
            }
            if hit == Some(Trouble::CutBefore) {
                return;
            }
            let r = if hit == Some(Trouble::Refuse) {
                if let Some(m) = &mut multi {
                    m.1 = true;
                }
                if name == "EXEC" {
                    multi = None;
                }
                R::Err("OOM command not allowed when used memory > 'maxmemory'.".into())
            } else {
                match (name.as_str(), &mut multi) {
                    ("MULTI", None) => {
                        multi = Some((vec![], false));
                        R::Ok
                    }
                    ("DISCARD", Some(_)) => {
                        multi = None;
                        R::Ok
                    }
                    ("EXEC", Some(_)) => {
                        let (cmds, bad) = multi.take().unwrap_or_default();
                        if bad {
                            R::Err("EXECABORT Transaction discarded because of previous errors.".into())
                        } else {
                            let mut d = db.borrow_mut();
                            R::Arr(cmds.iter().map(|c| d.exec(c)).collect())
                        }
                    }
                    (_, Some(m)) if !setup => {
                        m.0.push(cmd);
                        out.extend(b"+QUEUED\r\n");
                        R::Ok
                    }
                    _ => db.borrow_mut().exec(&cmd),
                }
            };
            if hit == Some(Trouble::CutAfter) {
                return;
            }
            if out.is_empty() {
                r.write(&mut out);
            }
            if s.write_all(&out).await.is_err() {
                return;
            }
        }
        match s.read(&mut tmp).await {
            Ok(n) if n > 0 => buf.extend(&tmp[..n]),
            _ => return,
        }
    }
}

/// Starts a server within the current `LocalSet`; the result is its database and its URL.
pub async fn start() -> (Shared, String) {
    let db: Shared = Rc::default();
    let l = TcpListener::bind("127.0.0.1:0").await.expect("bind");
    let url = format!("redis://{}", l.local_addr().expect("address"));
    let db_ = db.clone();
    tokio::task::spawn_local(async move {
        while let Ok((s, _)) = l.accept().await {
            let _ = s.set_nodelay(true);
            tokio::task::spawn_local(serve(s, db_.clone()));
        }
    });
    (db, url)
}

