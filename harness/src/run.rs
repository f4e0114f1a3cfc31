//! The engine: drives proptest's `TestRunner` over generated cases, counts what was
//! generated, shrinks failures and turns the minimal case into a replay file.

use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::Hasher;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

pub const SHARDS: u64 = 8;

pub struct Cfg {
    pub seed: u64,
    pub thorough: bool,
    pub profile: String,
    pub scale: f64,
    /// report the case whose transcript has this value
    pub find: Option<u64>,
    /// directory in which each shard notes the case it is about to run
    pub journal: Option<String>,
}
impl Cfg {
    pub fn note<C: Serialize>(&self, group: &str, shard: u64, c: &C) {
        if let Some(d) = &self.journal {
            let v = serde_json::json!({ "group": group, "case": c });
            let _ = std::fs::write(format!("{}/{}", d, shard), v.to_string());
        }
    }
}

/// What one execution of a check observed about its case.
#[derive(Default)]
pub struct Obs {
    labels: Vec<&'static str>,
    nontrivial: bool,
    trace: Option<u64>,
}
impl Obs {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// Fold an observable result into the transcript of this case.  Transcripts are
    /// compared between builds of the library.
    pub fn trace(&mut self, b: &[u8]) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        h.write_u64(self.trace.unwrap_or(0));
        h.write(b);
        self.trace = Some(h.finish());
    }
    /// mark the case as non-trivial
    pub fn nt(&mut self) {
        self.nontrivial = true;
    }
}

pub type Res = Result<(), String>;

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub hashes: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violation: Option<(String, Value, String)>, // group, case, reason
    pub groups: BTreeMap<String, u64>,
    pub trace: Vec<u64>,
    pub found: Option<Value>,
    /// places in the instrumented library that were reached
    pub edges: std::collections::BTreeSet<u32>,
}
impl Report {
    pub fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        self.hashes.extend(o.hashes);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.groups {
            *self.groups.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
        self.trace.extend(o.trace);
        self.edges.extend(o.edges);
        if self.found.is_none() {
            self.found = o.found;
        }
        if self.violation.is_none() {
            self.violation = o.violation;
        }
    }
}

pub trait Group: Sync + Send {
    fn name(&self) -> &'static str;
    fn explore(&self, prop: &str, cfg: &Cfg) -> Report;
    fn replay(&self, case: &Value) -> Result<(Res, Option<u64>), String>;
    /// coverage-guided search, where it applies
    fn guided(&self, _prop: &str, _cfg: &Cfg, _budget: std::time::Duration) -> Option<Report> {
        None
    }
    fn can_be_guided(&self) -> bool {
        false
    }
}

/// A generated check: `gen` makes a case from random choices, `check` decides it.
pub struct Gen<C> {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub gen: fn(&Rg) -> C,
    pub check: fn(&C, &mut Obs) -> Res,
}

/// A complete enumeration of a finite case space.
pub struct Enumerate<C> {
    pub name: &'static str,
    pub cases: fn(thorough: bool) -> Vec<C>,
    pub check: fn(&C, &mut Obs) -> Res,
}

/// Random source handed to generators: proptest's own RNG.
pub struct Rg<'a>(RefCell<&'a mut TestRng>);
impl<'a> Rg<'a> {
    pub fn new(r: &'a mut TestRng) -> Rg<'a> {
        Rg(RefCell::new(r))
    }
    pub fn u64(&self) -> u64 {
        use proptest::prelude::Rng;
        self.0.borrow_mut().next_u64()
    }
    pub fn u32(&self) -> u32 {
        self.u64() as u32
    }
    /// uniform in [0, n)
    pub fn below(&self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn idx(&self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn one_in(&self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn coin(&self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn pick<T: Clone>(&self, s: &[T]) -> T {
        s[self.idx(s.len())].clone()
    }
    pub fn bytes(&self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

// ------------------------------------------------------------------ shrinking

/// Candidate simplifications of a JSON value; the case type decides which deserialise.
pub fn shrink_json(v: &Value, out: &mut Vec<Value>) {
    match v {
        Value::Null => {}
        Value::Bool(true) => out.push(Value::Bool(false)),
        Value::Bool(false) => {}
        Value::Number(n) => {
            if let Some(x) = n.as_u64() {
                let mut c = vec![];
                for y in [0, 1, x / 2, x.wrapping_sub(1)] {
                    if y < x && !c.contains(&y) {
                        c.push(y);
                    }
                }
                out.extend(c.into_iter().map(Value::from));
            } else if let Some(x) = n.as_i64() {
                for y in [0, -1, x / 2, x + 1] {
                    if y > x {
                        out.push(Value::from(y));
                    }
                }
            }
        }
        Value::String(s) => {
            let hexish = s.len() % 2 == 0
                && !s.is_empty()
                && s.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b));
            if hexish {
                shrink_hex(s, out);
            } else if !s.is_empty() {
                let ch: Vec<char> = s.chars().collect();
                out.push(Value::from(""));
                out.push(Value::from(ch[..ch.len() / 2].iter().collect::<String>()));
                for i in 0..ch.len().min(80) {
                    let mut t = ch.clone();
                    t.remove(i);
                    out.push(Value::from(t.into_iter().collect::<String>()));
                }
            }
        }
        Value::Array(a) => {
            let n = a.len();
            if n > 0 {
                out.push(Value::Array(vec![]));
                let mut k = n / 2;
                while k >= 1 {
                    let mut i = 0;
                    while i + k <= n {
                        let mut t = a.clone();
                        t.drain(i..i + k);
                        out.push(Value::Array(t));
                        i += k;
                    }
                    k /= 2;
                }
            }
            for i in 0..n {
                let mut sub = vec![];
                shrink_json(&a[i], &mut sub);
                for s in sub {
                    let mut t = a.clone();
                    t[i] = s;
                    out.push(Value::Array(t));
                }
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                let mut sub = vec![];
                shrink_json(x, &mut sub);
                for s in sub {
                    let mut t = m.clone();
                    t.insert(k.clone(), s);
                    out.push(Value::Object(t));
                }
            }
        }
    }
}

fn shrink_hex(s: &str, out: &mut Vec<Value>) {
    let b = match crate::refm::unhex(s) {
        Some(b) => b,
        None => return,
    };
    let n = b.len();
    let mut push = |v: Vec<u8>| {
        if v != b {
            out.push(Value::from(crate::refm::hex(&v)))
        }
    };
    // same length, simpler contents
    let zero = vec![0u8; n];
    push(zero.clone());
    for last in [1u8, 2] {
        let mut t = zero.clone();
        t[n - 1] = last;
        if b > t {
            push(t);
        }
    }
    let mut k = n / 2;
    while k >= 1 {
        let mut i = 0;
        while i < n {
            let e = (i + k).min(n);
            if b[i..e].iter().any(|x| *x != 0) {
                let mut t = b.clone();
                t[i..e].iter_mut().for_each(|x| *x = 0);
                push(t);
            }
            i += k;
        }
        k /= 2;
    }
    // shorter strings (only deserialise where the length is free)
    if n <= 4096 {
        push(b[..n / 2].to_vec());
        push(b[n / 2..].to_vec());
        if n > 1 {
            push(b[..n - 1].to_vec());
            push(b[1..].to_vec());
        }
        if n <= 100 {
            for i in 0..n {
                let mut t = b.clone();
                t.remove(i);
                push(t);
            }
        }
    }
    if n <= 100 {
        for i in 0..n {
            let mut x = b[i];
            while x != 0 {
                let bit = 1u8 << (7 - x.leading_zeros());
                x &= !bit;
                let mut t = b.clone();
                t[i] &= !bit;
                push(t);
            }
        }
    }
}

struct GenStrategy<C> {
    gen: fn(&Rg) -> C,
}
impl<C> Debug for GenStrategy<C> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("GenStrategy")
    }
}
struct GenTree<C> {
    best: C,
    cur: C,
    cands: Option<std::vec::IntoIter<Value>>,
}
impl<C: Clone + Debug + Serialize + DeserializeOwned> GenTree<C> {
    fn advance(&mut self) -> bool {
        if let Some(it) = self.cands.as_mut() {
            for v in it {
                if let Ok(c) = serde_json::from_value::<C>(v) {
                    self.cur = c;
                    return true;
                }
            }
        }
        self.cur = self.best.clone();
        false
    }
}
impl<C: Clone + Debug + Serialize + DeserializeOwned> ValueTree for GenTree<C> {
    type Value = C;
    fn current(&self) -> C {
        self.cur.clone()
    }
    fn simplify(&mut self) -> bool {
        // `cur` is known to fail
        self.best = self.cur.clone();
        let mut out = vec![];
        if let Ok(v) = serde_json::to_value(&self.best) {
            shrink_json(&v, &mut out);
        }
        self.cands = Some(out.into_iter());
        self.advance()
    }
    fn complicate(&mut self) -> bool {
        self.advance()
    }
}
impl<C: Clone + Debug + Serialize + DeserializeOwned> Strategy for GenStrategy<C> {
    type Tree = GenTree<C>;
    type Value = C;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let c = (self.gen)(&Rg::new(runner.rng()));
        Ok(GenTree {
            best: c.clone(),
            cur: c,
            cands: None,
        })
    }
}

// ------------------------------------------------------------------ running

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = IN_CHECK.with(|c| c.get());
        let msg = info.to_string();
        PANIC_MSG.with(|m| *m.borrow_mut() = msg);
        if !quiet {
            default(info);
        }
    }));
}
thread_local! {
    static IN_CHECK: Cell<bool> = Cell::new(false);
}

/// No case takes more than a few seconds; one that runs for this long does not return.
const CASE_LIMIT_S: u64 = 60;
/// exit status of a run that was stuck in a case
pub const STUCK: i32 = 142;

static CLOCKS: Mutex<Vec<Arc<AtomicU64>>> = Mutex::new(Vec::new());
thread_local! {
    /// when the case this thread is working on began (0: none)
    static CLOCK: Arc<AtomicU64> = {
        let c = Arc::new(AtomicU64::new(0));
        CLOCKS.lock().unwrap().push(c.clone());
        c
    };
}
fn now_s() -> u64 {
    static START: OnceLock<Instant> = OnceLock::new();
    START.get_or_init(Instant::now).elapsed().as_secs()
}
/// End the process when a case does not return.
pub fn install_watchdog() {
    now_s();
    std::thread::spawn(|| {
        let mut ticks = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            // counted in own ticks too: a stalled machine does not look like a stuck case
            ticks += 1;
            let now = now_s().min(ticks + 30);
            for c in CLOCKS.lock().unwrap().iter() {
                let t = c.load(Ordering::Relaxed);
                if t != 0 && now > t + CASE_LIMIT_S {
                    eprintln!("vh: a case has not returned for {} s", CASE_LIMIT_S);
                    std::process::exit(STUCK);
                }
            }
        }
    });
}

/// Run one check, turning a panic of the code under test into a failure.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    let old = IN_CHECK.with(|c| c.replace(true));
    let outer = !old;
    if outer {
        CLOCK.with(|c| c.store(now_s() + 1, Ordering::Relaxed));
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if outer {
        CLOCK.with(|c| c.store(0, Ordering::Relaxed));
    }
    IN_CHECK.with(|c| c.set(old));
    match r {
        Ok(r) => r,
        Err(_) => Err(format!(
            "panicked: {}",
            PANIC_MSG.with(|m| m.borrow().replace('\n', " "))
        )),
    }
}

fn fnv(data: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write(data);
    h.finish()
}
fn case_hash<C: Serialize>(group: &str, c: &C) -> u64 {
    let mut b = group.as_bytes().to_vec();
    b.push(0);
    bincode::serialize_into(&mut b, c).expect("case serialises");
    fnv(&b)
}

pub fn shard_seed(cfg: &Cfg, prop: &str, group: &str, shard: u64) -> [u8; 32] {
    use sha2::{Digest, Sha256};
    let mut h = Sha256::new();
    h.update(format!(
        "{}|{}|{}|{}|{}",
        cfg.seed,
        // C18 runs the same cases in every build and compares
        if prop == "C18" { "all" } else { &cfg.profile },
        prop,
        group,
        shard
    ));
    let mut r = [0u8; 32];
    r.copy_from_slice(&h.finalize());
    r
}

pub struct Tally {
    pub rep: Report,
    group: &'static str,
    sampled: u32,
}
impl Tally {
    pub fn new(group: &'static str) -> Tally {
        Tally { rep: Report::default(), group, sampled: 0 }
    }
    pub fn count<C: Serialize>(&mut self, c: &C, o: &Obs, max_samples: u32, find: Option<u64>) {
        self.rep.evaluations += 1;
        if let Some(t) = o.trace {
            // make transcripts of different cases differ
            let t = t ^ case_hash(self.group, c);
            self.rep.trace.push(t);
            if find == Some(t) {
                self.rep.found = Some(serde_json::json!({ "group": self.group, "case": c }));
            }
        }
        for l in &o.labels {
            let k = format!("{}: {}", self.group, l);
            *self.rep.labels.entry(k).or_insert(0) += 1;
        }
        if o.nontrivial {
            let fresh = self.rep.hashes.insert(case_hash(self.group, c));
            if fresh && self.sampled < max_samples {
                self.sampled += 1;
                self.rep.samples.push(serde_json::json!({
                    "group": self.group,
                    "case": serde_json::to_value(c).unwrap_or(Value::Null),
                    "labels": o.labels,
                }));
            }
        }
    }
}

impl<C> Group for Gen<C>
where
    C: Clone + Debug + Serialize + DeserializeOwned + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn guided(&self, prop: &str, cfg: &Cfg, budget: std::time::Duration) -> Option<Report> {
        Some(crate::guided::explore(self, prop, cfg, budget))
    }
    fn can_be_guided(&self) -> bool {
        true
    }
    fn explore(&self, prop: &str, cfg: &Cfg) -> Report {
        let total = if cfg.thorough { self.thorough } else { self.quick };
        let total = ((total as f64 * cfg.scale) as u64).max(8);
        let stop = AtomicBool::new(false);
        let merged = Mutex::new(Vec::new());
        std::thread::scope(|s| {
            for shard in 0..SHARDS {
                let (stop, merged) = (&stop, &merged);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let cases = total / SHARDS + (shard < total % SHARDS) as u64;
                        let r = self.shard(prop, cfg, shard, cases as u32, stop);
                        merged.lock().unwrap().push((shard, r));
                    })
                    .unwrap();
            }
        });
        let mut parts = merged.into_inner().unwrap();
        parts.sort_by_key(|x| x.0);
        let mut rep = Report::default();
        for (_, p) in parts {
            rep.merge(p);
        }
        let n = rep.evaluations;
        rep.groups.insert(self.name.to_string(), n);
        rep
    }
    fn replay(&self, case: &Value) -> Result<(Res, Option<u64>), String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        let mut obs = Obs::default();
        let r = guarded(|| (self.check)(&c, &mut obs));
        Ok((r, obs.trace))
    }
}

impl<C> Gen<C>
where
    C: Clone + Debug + Serialize + DeserializeOwned + 'static,
{
    fn shard(&self, prop: &str, cfg: &Cfg, shard: u64, cases: u32, stop: &AtomicBool) -> Report {
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 20_000,
            max_shrink_time: if cfg.thorough { 120_000 } else { 25_000 },
            verbose: 0,
            ..Config::default()
        };
        let rng = TestRng::from_seed(
            RngAlgorithm::ChaCha,
            &shard_seed(cfg, prop, self.name, shard),
        );
        let mut runner = TestRunner::new_with_rng(config, rng);
        let tally = RefCell::new(Tally {
            rep: Report::default(),
            group: self.name,
            sampled: 0,
        });
        let failed: RefCell<Option<(C, String)>> = RefCell::new(None);
        let max_samples = if shard == 0 { 2 } else { 0 };
        let r = runner.run(&GenStrategy { gen: self.gen }, |c| {
            let shrinking = failed.borrow().is_some();
            if !shrinking && stop.load(Ordering::Relaxed) {
                return Ok(());
            }
            let mut obs = Obs::default();
            cfg.note(self.name, shard, &c);
            let res = guarded(|| (self.check)(&c, &mut obs));
            if !shrinking {
                tally.borrow_mut().count(&c, &obs, max_samples, cfg.find);
            }
            match res {
                Ok(()) => Ok(()),
                Err(e) => {
                    *failed.borrow_mut() = Some((c, e.clone()));
                    stop.store(true, Ordering::Relaxed);
                    Err(TestCaseError::fail(e))
                }
            }
        });
        let mut rep = tally.into_inner().rep;
        match r {
            Ok(()) => {}
            Err(TestError::Fail(..)) => {
                // `failed` holds the last (smallest) case seen to fail
                let (c, why) = failed.into_inner().expect("failing case recorded");
                rep.violation = Some((
                    self.name.to_string(),
                    serde_json::to_value(&c).expect("case serialises"),
                    why,
                ));
            }
            Err(TestError::Abort(e)) => panic!("generator aborted: {}", e),
        }
        rep
    }
}

impl<C> Group for Enumerate<C>
where
    C: Clone + Debug + Serialize + DeserializeOwned + Sync + Send + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn explore(&self, _prop: &str, cfg: &Cfg) -> Report {
        let cases = (self.cases)(cfg.thorough);
        let merged = Mutex::new(Vec::new());
        let chunk = (cases.len() + SHARDS as usize - 1) / SHARDS as usize;
        std::thread::scope(|s| {
            for (i, part) in cases.chunks(chunk.max(1)).enumerate() {
                let merged = &merged;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut t = Tally {
                            rep: Report::default(),
                            group: self.name,
                            sampled: 0,
                        };
                        for c in part {
                            let mut obs = Obs::default();
                            cfg.note(self.name, i as u64, c);
                            let res = guarded(|| (self.check)(c, &mut obs));
                            t.count(c, &obs, if i == 0 { 2 } else { 0 }, cfg.find);
                            if let Err(e) = res {
                                t.rep.violation = Some((
                                    self.name.to_string(),
                                    serde_json::to_value(c).expect("case serialises"),
                                    e,
                                ));
                                break;
                            }
                        }
                        merged.lock().unwrap().push((i, t.rep));
                    })
                    .unwrap();
            }
        });
        let mut parts = merged.into_inner().unwrap();
        parts.sort_by_key(|x| x.0);
        let mut rep = Report::default();
        for (_, p) in parts {
            rep.merge(p);
        }
        let n = rep.evaluations;
        rep.groups.insert(self.name.to_string(), n);
        rep
    }
    fn replay(&self, case: &Value) -> Result<(Res, Option<u64>), String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        let mut obs = Obs::default();
        let r = guarded(|| (self.check)(&c, &mut obs));
        Ok((r, obs.trace))
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !$c {
            return Err(format!($($arg)*));
        }
    };
}
#[macro_export]
macro_rules! same {
    ($got:expr, $want:expr, $($arg:tt)*) => {{
        let (got, want) = (&$got, &$want);
        if got != want {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), got, want));
        }
    }};
}
