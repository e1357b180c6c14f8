//! The exploration engine: seeded generation (proptest strategies), one fresh deterministic thread per case,
//! shrinking, replay files, statistics and evidence.

use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        mpsc, Arc, Mutex,
    },
    time::{Duration, Instant},
};

use proptest::{
    strategy::{BoxedStrategy, Strategy},
    test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

// ---------------------------------------------------------------------------------------------------------
// Determinism: every source of randomness inside a case thread (hash maps' keys, StdRng::from_entropy, tokio's
// scheduler seed) goes through getrandom(2), which this override answers from a generator seeded by the case.

thread_local! {
    static DET: Cell<Option<u64>> = const { Cell::new(None) };
    /// Panics observed on this thread by the hook below.
    pub static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static IS_CASE: Cell<bool> = const { Cell::new(false) };
}

fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// The system call itself.
///
/// # Safety
/// As syscall(2).
pub unsafe fn raw_syscall(num: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") num => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
        in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
}
unsafe fn with_errno(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

unsafe fn fill(buf: *mut u8, len: usize) -> bool {
    let Ok(Some(mut state)) = DET.try_with(Cell::get) else {
        return false;
    };
    if len > 0 {
        for chunk in std::slice::from_raw_parts_mut(buf, len).chunks_mut(8) {
            let v = splitmix(&mut state).to_le_bytes();
            chunk.copy_from_slice(&v[..chunk.len()]);
        }
        let _ = DET.try_with(|d| d.set(Some(state)));
    }
    true
}

/// # Safety
/// As getrandom(2).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if fill(buf, len) {
        return len as isize;
    }
    with_errno(raw_syscall(318, buf as usize, len, flags as usize, 0, 0, 0))
}

/// Some libraries make the system call by its number. (Variadic arguments are passed like others.)
///
/// # Safety
/// As syscall(2).
#[no_mangle]
pub unsafe extern "C" fn syscall(num: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if num == 318 && fill(a as *mut u8, b) {
        return b as isize;
    }
    with_errno(raw_syscall(num, a, b, c, d, e, f))
}

/// Makes this thread's randomness a function of `seed`.
pub fn deterministic(seed: u64) {
    DET.with(|d| d.set(Some(seed)));
    IS_CASE.with(|d| d.set(true));
}

/// What a thread allocates.
pub mod mem {
    use std::{
        alloc::{GlobalAlloc, Layout, System},
        cell::Cell,
    };

    thread_local! {
        static NOW: Cell<isize> = const { Cell::new(0) };
        static PEAK: Cell<isize> = const { Cell::new(0) };
    }
    struct Counting;
    fn count(d: isize) {
        let _ = NOW.try_with(|n| {
            let v = n.get() + d;
            n.set(v);
            let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
        });
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            count(l.size() as isize);
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            count(l.size() as isize);
            System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            count(-(l.size() as isize));
            System.dealloc(p, l);
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            // Both may exist for a moment
            count(n as isize);
            let r = System.realloc(p, l, n);
            count(-(l.size() as isize));
            r
        }
    }
    #[global_allocator]
    static ALLOC: Counting = Counting;

    /// The most memory this thread held at a time while `f` ran, beyond what it held before.
    pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
        let before = NOW.with(Cell::get);
        PEAK.with(|p| p.set(before));
        let r = f();
        (r, (PEAK.with(Cell::get) - before).max(0) as usize)
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let text = format!(
            "{msg} at {}",
            info.location()
                .map_or_else(|| "?".to_string(), |l| format!("{}:{}", l.file(), l.line()))
        );
        let is_case = IS_CASE.try_with(Cell::get).unwrap_or(false);
        let _ = PANICS.try_with(|p| p.borrow_mut().push(text.clone()));
        GLOBAL_PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(text.clone());
        if !is_case || std::env::var("VERIF_VERBOSE").is_ok() {
            eprintln!("panic: {text}");
        }
    }));
}

/// Panics of all threads (for the real-time parts, where the code under test runs on a pool of threads).
pub static GLOBAL_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

// ---------------------------------------------------------------------------------------------------------

/// What a case tells about itself.
#[derive(Default, Clone)]
pub struct Rec {
    pub nontrivial: bool,
    pub tags: Vec<String>,
    pub note: String,
}
impl Rec {
    pub fn tag(&mut self, t: impl Into<String>) {
        self.tags.push(t.into());
    }
    pub fn tag_if(&mut self, cond: bool, t: &str) {
        if cond {
            self.tags.push(t.into());
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

pub type CaseResult = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub tags: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub parts: BTreeMap<String, Value>,
}

#[derive(Clone)]
pub struct Failure {
    pub part: String,
    pub message: String,
    pub case: Value,
}

pub struct Ctx {
    pub id: &'static str,
    pub seed: u64,
    pub tier: Tier,
    pub stats: Mutex<Stats>,
    /// The known findings that were seen.
    pub known: Mutex<Vec<String>>,
}

/// How a part runs its cases.
#[derive(Clone, Copy)]
pub struct Opts {
    /// Cases in the quick tier, in total.
    pub quick: u64,
    /// Cases in the thorough tier, in total.
    pub thorough: u64,
    /// Time limits in seconds; whichever of count and time comes first ends the part.
    pub quick_s: u64,
    pub thorough_s: u64,
    pub workers: usize,
    /// Whether a case gets the deterministic randomness.
    pub det: bool,
    /// A case that takes longer than this in real time is reported as not terminating.
    pub hang_s: u64,
}
impl Default for Opts {
    fn default() -> Self {
        Self {
            quick: 2_000,
            thorough: 200_000,
            quick_s: 30,
            thorough_s: 400,
            workers: 8,
            det: true,
            hang_s: 60,
        }
    }
}

pub struct Part {
    pub name: &'static str,
    #[allow(clippy::type_complexity)]
    pub run: Box<dyn Fn(&Ctx) -> Result<(), Failure> + Send + Sync>,
    #[allow(clippy::type_complexity)]
    pub replay: Box<dyn Fn(Value) -> CaseResult + Send + Sync>,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub parts: Vec<Part>,
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.as_bytes() {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

fn stack_size() -> usize {
    8 << 20
}

/// Runs one case on a thread of its own.
pub fn run_isolated<C: Send + 'static>(
    case: C,
    det: Option<u64>,
    hang: Duration,
    f: fn(&C, &mut Rec) -> CaseResult,
) -> (CaseResult, Rec) {
    let (tx, rx) = mpsc::channel();
    let handle = std::thread::Builder::new()
        .name("case".into())
        .stack_size(stack_size())
        .spawn(move || {
            if let Some(seed) = det {
                deterministic(seed);
            } else {
                IS_CASE.with(|d| d.set(true));
            }
            let mut rec = Rec::default();
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&case, &mut rec)));
            let res = match res {
                Ok(r) => r,
                Err(_) => Err(format!(
                    "panic: {}",
                    PANICS.with(|p| p.borrow().last().cloned().unwrap_or_default())
                )),
            };
            let _ = tx.send((res, rec));
        })
        .expect("thread");
    match rx.recv_timeout(hang) {
        Ok(r) => {
            let _ = handle.join();
            r
        }
        Err(_) => (
            Err(format!(
                "HANG: the case did not terminate within {} s of real time (livelock or deadlock in the code under test)",
                hang.as_secs()
            )),
            Rec::default(),
        ),
    }
}

/// A part made of generated cases.
pub fn part<C>(
    name: &'static str,
    opts: Opts,
    strat: fn() -> BoxedStrategy<C>,
    f: fn(&C, &mut Rec) -> CaseResult,
) -> Part
where
    C: Clone + Debug + Serialize + DeserializeOwned + Send + 'static,
{
    Part {
        name,
        run: Box::new(move |ctx| explore(ctx, name, opts, strat, f)),
        replay: Box::new(move |v| {
            let case: C = serde_json::from_value(v).map_err(|e| format!("bad replay file: {e}"))?;
            let text = serde_json::to_string(&case).unwrap_or_default();
            let mut last = Ok(());
            for _ in 0..if opts.det { 1 } else { 5 } {
                let (r, rec) = run_isolated(
                    case.clone(),
                    opts.det.then(|| hash_str(&text)),
                    Duration::from_secs(opts.hang_s),
                    f,
                );
                if std::env::var("VERIF_VERBOSE").is_ok() {
                    eprintln!("note: {}\ntags: {:?}", rec.note, rec.tags);
                }
                last = r;
                if last.is_err() {
                    break;
                }
            }
            last
        }),
    }
}

/// A part that is a fixed list of cases (boundary values, regression histories).
pub fn fixed<C>(
    name: &'static str,
    det: bool,
    cases: fn() -> Vec<C>,
    f: fn(&C, &mut Rec) -> CaseResult,
) -> Part
where
    C: Clone + Debug + Serialize + DeserializeOwned + Send + 'static,
{
    let one = move |case: &C| {
        let text = serde_json::to_string(case).unwrap_or_default();
        run_isolated(case.clone(), det.then(|| hash_str(&text)), Duration::from_secs(60), f)
    };
    Part {
        name,
        run: Box::new(move |ctx| {
            for case in cases() {
                if let Some(dir) = trace() {
                    let _ = std::fs::write(
                        dir.join("fixed.json"),
                        json!({"property": ctx.id, "part": name, "message": "the process died",
                            "case": serde_json::to_value(&case).unwrap_or(Value::Null)}).to_string(),
                    );
                }
                let (r, rec) = one(&case);
                record(ctx, name, &case, &rec);
                if let Err(message) = r {
                    let f = Failure {
                        part: name.into(),
                        message,
                        case: serde_json::to_value(&case).unwrap_or(Value::Null),
                    };
                    match crate::known::matches(ctx.id, &f) {
                        Some(k) => ctx.known.lock().unwrap().push(k),
                        None => return Err(f),
                    }
                }
            }
            Ok(())
        }),
        replay: Box::new(move |v| {
            let case: C = serde_json::from_value(v).map_err(|e| format!("bad replay file: {e}"))?;
            one(&case).0
        }),
    }
}

/// Where to leave the cases that are running, to find out which of them ends the process.
fn trace() -> Option<PathBuf> {
    std::env::var_os("VERIF_TRACE").map(PathBuf::from)
}

fn clip(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() <= 3000 {
        v.clone()
    } else {
        let mut end = 3000;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        Value::String(format!("{}... ({} bytes)", &s[..end], s.len()))
    }
}

fn record<C: Serialize>(ctx: &Ctx, part: &str, case: &C, rec: &Rec) {
    let v = serde_json::to_value(case).unwrap_or(Value::Null);
    let key = hash_str(&format!("{part}:{v}"));
    let mut st = ctx.stats.lock().unwrap();
    st.evaluations += 1;
    let e = st.parts.entry(part.to_string()).or_insert_with(|| json!({"evaluations": 0, "nontrivial": 0}));
    e["evaluations"] = json!(e["evaluations"].as_u64().unwrap_or(0) + 1);
    if rec.nontrivial {
        e["nontrivial"] = json!(e["nontrivial"].as_u64().unwrap_or(0) + 1);
    }
    let nth = e["nontrivial"].as_u64().unwrap_or(0);
    for t in &rec.tags {
        *st.tags.entry(format!("{part}/{t}")).or_insert(0) += 1;
    }
    if rec.nontrivial {
        st.distinct.insert(key);
        if nth == 1 || nth == 40 {
            st.samples.push(json!({"part": part, "case": clip(&v), "observed": rec.note}));
        }
    }
}

fn explore<C>(
    ctx: &Ctx,
    name: &'static str,
    opts: Opts,
    strat: fn() -> BoxedStrategy<C>,
    f: fn(&C, &mut Rec) -> CaseResult,
) -> Result<(), Failure>
where
    C: Clone + Debug + Serialize + DeserializeOwned + Send + 'static,
{
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let (cases, secs) = match ctx.tier {
        Tier::Quick => (opts.quick, opts.quick_s),
        Tier::Thorough => (opts.thorough, opts.thorough_s),
    };
    let cases = ((cases as f64) * scale).max(1.0) as u64;
    let deadline = Instant::now() + Duration::from_secs_f64(secs as f64 * scale.max(1.0));
    let workers = opts.workers.min(cases as usize).max(1);
    let stop = Arc::new(AtomicBool::new(false));
    let failure: Arc<Mutex<Option<Failure>>> = Arc::default();
    let started = Instant::now();
    let longest = AtomicU64::new(0);
    std::thread::scope(|scope| {
        for w in 0..workers {
            let stop = stop.clone();
            let failure = failure.clone();
            let longest = &longest;
            let share = cases / workers as u64 + u64::from((w as u64) < cases % workers as u64);
            std::thread::Builder::new()
                .stack_size(stack_size())
                .spawn_scoped(scope, move || {
                    IS_CASE.with(|d| d.set(true));
                    let mut seed = [0u8; 32];
                    let mut st = hash_str(&format!("{}/{}/{}/{}", ctx.id, name, ctx.seed, w));
                    for c in seed.chunks_mut(8) {
                        c.copy_from_slice(&splitmix(&mut st).to_le_bytes());
                    }
                    let mut runner = TestRunner::new_with_rng(
                        Config {
                            cases: u32::try_from(share).unwrap_or(u32::MAX),
                            failure_persistence: None,
                            max_shrink_iters: 3000,
                            max_shrink_time: if ctx.tier == Tier::Quick { 15_000 } else { 60_000 },
                            max_global_rejects: 1_000_000,
                            ..Config::default()
                        },
                        TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
                    );
                    let mine = Cell::new(false);
                    let hung = Cell::new(false);
                    let last = RefCell::new(None);
                    let res = runner.run(&strat(), |case| {
                        if !mine.get() && (stop.load(Ordering::Relaxed) || Instant::now() > deadline) {
                            return Ok(());
                        }
                        if hung.get() {
                            // A hung thread cannot be stopped: do not pile up more of them by shrinking.
                            return Ok(());
                        }
                        let text = serde_json::to_string(&case).unwrap_or_default();
                        if let Some(dir) = trace() {
                            let _ = std::fs::write(
                                dir.join(format!("{w}.json")),
                                json!({"property": ctx.id, "part": name, "message": "the process died",
                                    "case": serde_json::to_value(&case).unwrap_or(Value::Null)}).to_string(),
                            );
                        }
                        let begun = Instant::now();
                        let (r, rec) = run_isolated(
                            case.clone(),
                            opts.det.then(|| hash_str(&text)),
                            Duration::from_secs(opts.hang_s),
                            f,
                        );
                        longest.fetch_max(begun.elapsed().as_millis() as u64, Ordering::Relaxed);
                        if !mine.get() {
                            record(ctx, name, &case, &rec);
                        }
                        r.map_err(|m| {
                            hung.set(m.starts_with("HANG"));
                            mine.set(true);
                            stop.store(true, Ordering::Relaxed);
                            *last.borrow_mut() = Some((m.clone(), case));
                            TestCaseError::fail(m)
                        })
                    });
                    if let Err(TestError::Fail(reason, case)) = res {
                        let mut fl = failure.lock().unwrap();
                        if fl.is_none() {
                            *fl = Some(Failure {
                                part: name.into(),
                                message: reason.to_string(),
                                case: serde_json::to_value(&case).unwrap_or(Value::Null),
                            });
                        }
                    } else if let Err(TestError::Abort(reason)) = res {
                        eprintln!("generation aborted: {reason}");
                        std::process::exit(3);
                    }
                })
                .expect("worker");
        }
    });
    {
        let mut st = ctx.stats.lock().unwrap();
        let e = st.parts.entry(name.to_string()).or_insert_with(|| json!({}));
        e["planned"] = json!(cases);
        e["wall_s"] = json!((started.elapsed().as_secs_f64() * 10.0).round() / 10.0);
        e["longest_case_ms"] = json!(longest.load(Ordering::Relaxed));
    }
    let f = failure.lock().unwrap().take();
    match f {
        Some(f) => Err(f),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------------------------------------------------

pub fn run_property(prop: &Property, seed: u64, tier: Tier, out: &PathBuf) -> i32 {
    let started = Instant::now();
    let ctx = Ctx {
        id: prop.id,
        seed,
        tier,
        stats: Mutex::default(),
        known: Mutex::default(),
    };
    let only = std::env::var("VERIF_PART").ok();
    let mut failures: Vec<Failure> = vec![];
    for p in &prop.parts {
        if only.as_ref().is_some_and(|o| o != p.name) {
            continue;
        }
        if let Err(f) = (p.run)(&ctx) {
            if let Some(k) = crate::known::matches(prop.id, &f) {
                ctx.known.lock().unwrap().push(k);
                continue;
            }
            failures.push(f);
            break;
        }
    }
    let known = std::mem::take(&mut *ctx.known.lock().unwrap());
    let st = ctx.stats.lock().unwrap();
    let evidence = json!({
        "property": prop.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.distinct.len(),
            "rule": prop.rule,
            "samples": st.samples,
            "parts": st.parts,
            "classes": st.tags,
            "known_findings_seen": known,
        },
        "violations": failures.iter().map(|f| json!({"part": f.part, "message": f.message, "case": clip(&f.case)})).collect::<Vec<_>>(),
        "wall_s": (started.elapsed().as_secs_f64() * 100.0).round() / 100.0,
    });
    let dir = out.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(
        dir.join(format!("{}.json", prop.id)),
        serde_json::to_string_pretty(&evidence).unwrap(),
    ) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", prop.id, k);
    }
    println!(
        "{} {:?} seed={} evaluations={} distinct_nontrivial={} {:.1}s",
        prop.id,
        tier,
        seed,
        st.evaluations,
        st.distinct.len(),
        started.elapsed().as_secs_f64()
    );
    if std::env::var("VERIF_VERBOSE").is_ok() {
        println!("{}", serde_json::to_string_pretty(&evidence["coverage"]["parts"]).unwrap());
        println!("{}", serde_json::to_string_pretty(&evidence["coverage"]["classes"]).unwrap());
    }
    if let Some(f) = failures.first() {
        let rdir = out.join(".work/replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!(
            "{}-{}-{:08x}.json",
            prop.id,
            f.part,
            hash_str(&f.case.to_string()) as u32
        ));
        let _ = std::fs::write(
            &path,
            serde_json::to_string_pretty(&json!({
                "property": prop.id, "part": f.part, "message": f.message, "case": f.case
            }))
            .unwrap(),
        );
        println!("part {}: {}", f.part, f.message);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    0
}

pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value>
where
    S::Value: Debug,
{
    s.boxed()
}
