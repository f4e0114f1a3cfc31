//! Coverage- and comparison-guided search over the same cases and checks.
//!
//! The library is built with callbacks at its branches and comparisons (tools/cov.c).  Cases
//! that reach something new are kept and mutated; where a comparison's operand is found
//! in the case that led to it, it is replaced by the value it was compared with.

use crate::gen::{forget, learn, Word};
use crate::run::*;
use proptest::test_runner::{RngAlgorithm, TestRng};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[repr(C)]
#[derive(Clone, Copy, Default)]
struct Pair {
    pc: u64,
    want: u64,
    got: u64,
    size: u32,
    /// where the map notes that the operands were equal
    slot: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Blob {
    a: [u8; 72],
    b: [u8; 72],
    n: u32,
}
#[cfg(feature = "guided")]
extern "C" {
    fn vh_begin();
    fn vh_end();
    fn vh_map() -> *const u8;
    fn vh_map_size() -> u32;
    fn vh_guards() -> u32;
    fn vh_pairs(out: *mut Pair, max: u32) -> u32;
    fn vh_blobs(out: *mut Blob, max: u32) -> u32;
}
#[cfg(not(feature = "guided"))]
mod absent {
    use super::{Blob, Pair};
    pub unsafe fn vh_begin() {}
    pub unsafe fn vh_end() {}
    pub unsafe fn vh_map() -> *const u8 {
        core::ptr::null()
    }
    pub unsafe fn vh_map_size() -> u32 {
        0
    }
    pub unsafe fn vh_guards() -> u32 {
        0
    }
    pub unsafe fn vh_pairs(_: *mut Pair, _: u32) -> u32 {
        0
    }
    pub unsafe fn vh_blobs(_: *mut Blob, _: u32) -> u32 {
        0
    }
}
#[cfg(not(feature = "guided"))]
use absent::*;

pub fn available() -> bool {
    unsafe { vh_guards() > 0 }
}

/// what one thread's last execution touched
fn touched(seen: &mut [u8]) -> bool {
    let n = unsafe { vh_map_size() } as usize;
    if n == 0 {
        return false;
    }
    let m = unsafe { std::slice::from_raw_parts(vh_map(), n) };
    let mut fresh = false;
    for (s, c) in seen.iter_mut().zip(m) {
        if *c == 0 {
            continue;
        }
        let bit = match c {
            1 => 1,
            2..=7 => 2,
            8..=63 => 4,
            _ => 8,
        };
        if *s & bit == 0 {
            *s |= bit;
            fresh = true;
        }
    }
    fresh
}

struct Entry {
    case: Value,
    /// comparisons seen, turned into changes of the case
    steps: Vec<Step>,
}
#[derive(Clone)]
enum Step {
    /// overwrite bytes of a hexadecimal string
    Bytes(String, usize, Vec<u8>),
    /// overwrite part of the 32 bytes from this offset
    Part(String, usize, Word),
    Number(String, u64),
    Length(String, usize),
}

fn hexish(s: &str) -> bool {
    s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b))
}

fn walk(v: &Value, at: &mut String, out: &mut Vec<String>) {
    out.push(at.clone());
    let n = at.len();
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate().take(400) {
                at.push_str(&format!("/{}", i));
                walk(x, at, out);
                at.truncate(n);
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                at.push('/');
                at.push_str(k);
                walk(x, at, out);
                at.truncate(n);
            }
        }
        _ => {}
    }
}
fn nodes(v: &Value) -> Vec<String> {
    let mut out = vec![];
    walk(v, &mut String::new(), &mut out);
    out
}

fn set_hex(v: &mut Value, b: &[u8]) {
    *v = Value::from(crate::refm::hex(b));
}
fn get_hex(v: &Value) -> Option<Vec<u8>> {
    match v {
        Value::String(s) if hexish(s) => crate::refm::unhex(s),
        _ => None,
    }
}

fn find(hay: &[u8], needle: &[u8], out: &mut Vec<usize>) {
    if needle.is_empty() || hay.len() < needle.len() {
        return;
    }
    for i in 0..=hay.len() - needle.len() {
        if &hay[i..i + needle.len()] == needle {
            out.push(i);
        }
    }
}

/// the operands of the last execution's comparisons
fn compared() -> (Vec<Pair>, Vec<Blob>) {
    let mut pairs = vec![Pair::default(); 8192];
    let k = unsafe { vh_pairs(pairs.as_mut_ptr(), pairs.len() as u32) } as usize;
    pairs.truncate(k);
    let mut blobs = vec![Blob { a: [0; 72], b: [0; 72], n: 0 }; 64];
    let k = unsafe { vh_blobs(blobs.as_mut_ptr(), blobs.len() as u32) } as usize;
    blobs.truncate(k);
    (pairs, blobs)
}

/// the changes of `case` that the comparisons of its execution suggest
fn steps(rg: &Rg, case: &Value, seen: &[u8], new: bool) -> Vec<Step> {
    let (mut pairs, blobs) = compared();
    if !new {
        // only comparisons that never came out equal
        pairs.retain(|q| seen[q.slot as usize] == 0);
    }
    let never = |q: &Pair| seen[q.slot as usize] == 0;
    let at = nodes(case);
    // (weak: small operands match by chance, so only a few places are tried)
    let (mut strong, mut weak) = (vec![], vec![]);
    for p in &at {
        let v = case.pointer(p).unwrap();
        match v {
            Value::Number(n) => {
                if let Some(n) = n.as_u64() {
                    for q in pairs.iter().filter(|q| q.got == n || q.got == n.wrapping_add(1) || q.got == n.wrapping_sub(1)) {
                        for w in [q.want, q.want.wrapping_add(1), q.want.wrapping_sub(1)] {
                            let s = Step::Number(p.clone(), w);
                            if n > 255 && w == q.want && never(q) { strong.push(s) } else { weak.push(s) }
                        }
                    }
                }
            }
            Value::Array(a) => {
                for q in pairs.iter().filter(|q| q.got == a.len() as u64 && q.want < 300) {
                    weak.push(Step::Length(p.clone(), q.want as usize));
                    weak.push(Step::Length(p.clone(), q.want as usize + 1));
                }
            }
            _ => {
                let b = match get_hex(v) {
                    Some(b) if b.len() <= 4096 => b,
                    _ => continue,
                };
                for q in &pairs {
                    for (s, w) in limbs(&b, q) {
                        strong.push(Step::Part(p.clone(), s, w));
                    }
                    if q.got == b.len() as u64 && q.want <= 5000 {
                        for w in [q.want, q.want + 1, q.want.wrapping_sub(1)] {
                            if w <= 5000 {
                                weak.push(Step::Length(p.clone(), w as usize));
                            }
                        }
                    }
                    for size in [8usize, 4, 2, 1] {
                        let lim = if size == 8 { u64::MAX } else { (1 << (8 * size)) - 1 };
                        if size > q.size as usize || q.got > lim || q.want > lim {
                            continue;
                        }
                        // an operand narrower than the comparison was widened
                        if size > 1 && q.got < 256 {
                            continue;
                        }
                        for big in [true, false] {
                            let enc = |x: u64| -> Vec<u8> {
                                if big { x.to_be_bytes()[8 - size..].to_vec() } else { x.to_le_bytes()[..size].to_vec() }
                            };
                            let mut pos = vec![];
                            find(&b, &enc(q.got), &mut pos);
                            while pos.len() > 6 {
                                pos.swap_remove(rg.idx(pos.len()));
                            }
                            for i in pos {
                                for w in [q.want, q.want.wrapping_add(1), q.want.wrapping_sub(1)] {
                                    let s = Step::Bytes(p.clone(), i, enc(w & lim));
                                    if size >= 4 && never(q) { strong.push(s) } else { weak.push(s) }
                                }
                            }
                            if size == 1 {
                                break;
                            }
                        }
                        if size <= 2 && q.size as usize > size {
                            break;
                        }
                    }
                }
                for q in &blobs {
                    let n = q.n as usize;
                    for (got, want) in [(&q.a[..n], &q.b[..n]), (&q.b[..n], &q.a[..n])] {
                        for rev in [false, true] {
                            let o = |x: &[u8]| -> Vec<u8> {
                                let mut x = x.to_vec();
                                if rev {
                                    x.reverse();
                                }
                                x
                            };
                            let mut pos = vec![];
                            find(&b, &o(got), &mut pos);
                            for i in pos.into_iter().take(4) {
                                strong.push(Step::Bytes(p.clone(), i, o(want)));
                            }
                        }
                    }
                }
            }
        }
    }
    for (v, cap) in [(&mut strong, 1500), (&mut weak, 500)] {
        while v.len() > cap {
            v.swap_remove(rg.idx(v.len()));
        }
    }
    strong.extend(weak);
    strong
}

fn resize(v: &mut Value, n: usize, rg: &Rg) {
    match v {
        Value::Array(a) => {
            if a.is_empty() {
                return;
            }
            a.truncate(n);
            while a.len() < n {
                let x = rg.pick(&a[..]);
                a.push(x);
            }
        }
        _ => {
            if let Some(mut b) = get_hex(v) {
                b.resize(n, rg.pick(&[0, 1, 0xff]));
                set_hex(v, &b);
            }
        }
    }
}

fn apply(s: &Step, case: &mut Value, rg: &Rg) {
    match s {
        Step::Bytes(p, i, w) => {
            if let Some(v) = case.pointer_mut(p) {
                if let Some(mut b) = get_hex(v) {
                    if i + w.len() <= b.len() {
                        b[*i..i + w.len()].copy_from_slice(w);
                        set_hex(v, &b);
                    }
                }
            }
        }
        Step::Part(p, i, w) => {
            if let Some(v) = case.pointer_mut(p) {
                if let Some(mut b) = get_hex(v) {
                    if i + 32 <= b.len() {
                        w.put(&mut b[*i..i + 32]);
                        set_hex(v, &b);
                    }
                }
            }
        }
        Step::Number(p, n) => {
            if let Some(v) = case.pointer_mut(p) {
                *v = Value::from(*n);
            }
        }
        Step::Length(p, n) => {
            if let Some(v) = case.pointer_mut(p) {
                resize(v, *n, rg);
            }
        }
    }
}

/// where bytes `i..i+n` of a leaf of `len` bytes stand in a 32-byte value
fn within(len: usize, i: usize, n: usize) -> Option<usize> {
    let at = match len {
        32 => i,
        33 if i >= 1 => i - 1,
        64 => i % 32,
        65 if i >= 1 => (i - 1) % 32,
        _ => return None,
    };
    if at + n <= 32 { Some(at) } else { None }
}

/// limbs of 26 bits, as field elements have them, that the comparison met: offset of the 32
/// bytes, and what to put there
fn limbs(b: &[u8], q: &Pair) -> Vec<(usize, Word)> {
    let mut out = vec![];
    if q.got < 1 << 12 || q.got >= 1 << 26 || q.want >= 1 << 26 || q.got == (1 << 26) - 1 || q.got == (1 << 22) - 1 {
        return out;
    }
    let starts: &[usize] = match b.len() {
        32 => &[0],
        33 => &[1],
        64 => &[0, 32],
        65 => &[1, 33],
        _ => return out,
    };
    for &s in starts {
        let v = crate::refm::U::from_be(&crate::gen::arr(&b[s..s + 32]));
        for i in 0..10 {
            let cnt = if i == 9 { 22 } else { 26 };
            if v.bits(26 * i, cnt) == q.got && q.want < 1 << cnt {
                out.push((s, Word::bits(26 * i, cnt, q.want)));
            }
        }
    }
    out
}

/// the words that the last execution compared parts of the case with
fn words(case: &Value) -> Vec<Word> {
    let (pairs, blobs) = compared();
    let mut out = vec![];
    for p in nodes(case) {
        let b = match get_hex(case.pointer(&p).unwrap()) {
            Some(b) if matches!(b.len(), 32 | 33 | 64 | 65) => b,
            _ => continue,
        };
        for q in &pairs {
            for (_, w) in limbs(&b, q) {
                out.push(w);
            }
        }
        let mut put = |got: &[u8], want: &[u8]| {
            let mut pos = vec![];
            find(&b, got, &mut pos);
            // a plain value, or one that stands in several places, matches by chance
            if pos.len() > 1 || got.iter().collect::<HashSet<_>>().len() < 3 {
                return;
            }
            for i in pos {
                if let Some(at) = within(b.len(), i, want.len()) {
                    out.push(Word::bytes(at, want));
                }
            }
        };
        for q in &pairs {
            for size in [4usize, 8] {
                if size > q.size as usize || (size == 4 && (q.got >> 32 != 0 || q.want >> 32 != 0)) {
                    continue;
                }
                let (g, w) = (q.got.to_be_bytes(), q.want.to_be_bytes());
                put(&g[8 - size..], &w[8 - size..]);
                let (g, w) = (q.got.to_le_bytes(), q.want.to_le_bytes());
                put(&g[..size], &w[..size]);
            }
        }
        for q in &blobs {
            let n = q.n as usize;
            if n < 4 {
                continue;
            }
            for (got, want) in [(&q.a[..n], &q.b[..n]), (&q.b[..n], &q.a[..n])] {
                put(got, want);
                let (mut g, mut w) = (got.to_vec(), want.to_vec());
                g.reverse();
                w.reverse();
                put(&g, &w);
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

/// one random change; `other` is another case to borrow from
fn havoc(case: &mut Value, other: &Value, rg: &Rg) {
    let at = nodes(case);
    let p = at[rg.idx(at.len())].clone();
    if rg.one_in(4) {
        if let Some(x) = other.pointer(&p) {
            *case.pointer_mut(&p).unwrap() = x.clone();
            return;
        }
    }
    let v = case.pointer_mut(&p).unwrap();
    match v {
        Value::Bool(b) => *b = !*b,
        Value::Number(n) => {
            if let Some(n) = n.as_u64() {
                let w = match rg.below(6) {
                    0 => n.wrapping_add(1),
                    1 => n.wrapping_sub(1),
                    2 => rg.below(256),
                    3 => rg.below(8),
                    4 => n ^ (1 << rg.below(16)),
                    _ => n.wrapping_mul(2),
                };
                *v = Value::from(w);
            }
        }
        Value::Array(a) if !a.is_empty() => {
            let (i, j) = (rg.idx(a.len()), rg.idx(a.len()));
            match rg.below(5) {
                0 => a.swap(i, j),
                1 => {
                    a.remove(i);
                }
                2 => {
                    let x = a[i].clone();
                    a.insert(j, x);
                }
                3 => a[j] = a[i].clone(),
                _ => {
                    if let Some(Value::Array(o)) = other.pointer(&p) {
                        if !o.is_empty() {
                            a.insert(j, o[rg.idx(o.len())].clone());
                        }
                    }
                }
            }
        }
        _ => {
            if let Some(mut b) = get_hex(v) {
                if b.is_empty() {
                    b = rg.bytes(1 + rg.idx(80));
                } else {
                    let i = rg.idx(b.len());
                    match rg.below(9) {
                        0 | 1 => b[i] ^= 1 << rg.below(8),
                        2 => b[i] = rg.pick(&[0, 1, 2, 0x7f, 0x80, 0xff]),
                        3 => b[i] = rg.u64() as u8,
                        4 => {
                            let w = rg.pick(&[2usize, 4, 8, 16]);
                            let i = i / w * w;
                            let e = (i + w).min(b.len());
                            let f = rg.pick(&[0u8, 0xff]);
                            b[i..e].iter_mut().for_each(|x| *x = f);
                        }
                        5 => {
                            for k in (0..=i).rev() {
                                b[k] = b[k].wrapping_add(1);
                                if b[k] != 0 {
                                    break;
                                }
                            }
                        }
                        6 => {
                            for k in (0..=i).rev() {
                                b[k] = b[k].wrapping_sub(1);
                                if b[k] != 0xff {
                                    break;
                                }
                            }
                        }
                        7 => {
                            b.insert(i, rg.u64() as u8);
                        }
                        _ => {
                            b.remove(i);
                        }
                    }
                }
                set_hex(v, &b);
            }
        }
    }
}

struct Shared {
    /// cases found by any thread
    found: Mutex<Vec<Value>>,
    seen: Mutex<Vec<u8>>,
    /// words met by at least two cases: constants, not passing values
    words: Mutex<Vec<Word>>,
    stop: AtomicBool,
}

pub fn explore<C>(g: &Gen<C>, prop: &str, cfg: &Cfg, budget: Duration) -> Report
where
    C: Clone + Debug + Serialize + DeserializeOwned + 'static,
{
    let n = unsafe { vh_map_size() } as usize;
    let sh = Shared { found: Mutex::new(vec![]), seen: Mutex::new(vec![0; n]), words: Mutex::new(vec![]), stop: AtomicBool::new(false) };
    let merged = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for shard in 0..SHARDS {
            let (sh, merged) = (&sh, &merged);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let r = work(g, prop, cfg, shard, budget, sh);
                    merged.lock().unwrap().push((shard, r));
                })
                .unwrap();
        }
    });
    let mut parts = merged.into_inner().unwrap();
    parts.sort_by_key(|x| x.0);
    let mut rep = Report::default();
    for (_, p) in parts {
        rep.merge(p);
    }
    rep.groups.insert(format!("{} (guided)", g.name), rep.evaluations);
    let seen = sh.seen.into_inner().unwrap();
    let guards = unsafe { vh_guards() } as usize;
    rep.edges = seen[..(guards + 1).min(n)].iter().enumerate().filter(|x| *x.1 != 0).map(|x| x.0 as u32).collect();
    *rep.labels.entry(format!("{}: cases kept by the guided search", g.name)).or_insert(0) +=
        sh.found.into_inner().unwrap().len() as u64;
    rep
}

fn work<C>(g: &Gen<C>, prop: &str, cfg: &Cfg, shard: u64, budget: Duration, sh: &Shared) -> Report
where
    C: Clone + Debug + Serialize + DeserializeOwned + 'static,
{
    let t0 = Instant::now();
    let n = unsafe { vh_map_size() } as usize;
    let mut seed_rng = TestRng::from_seed(RngAlgorithm::ChaCha, &shard_seed(cfg, prop, &format!("{} guided", g.name), shard));
    let rg = Rg::new(&mut seed_rng);
    let mut seen = vec![0u8; n];
    let mut corpus: Vec<Entry> = vec![];
    let mut taken = 0;
    let mut todo: Vec<(usize, Step)> = vec![];
    let mut tally = Tally::new(g.name);
    let mut turn = 0u64;
    let mut once: HashMap<Word, u8> = HashMap::new();
    let mut learnt = 0;
    forget();
    while !sh.stop.load(Ordering::Relaxed) && t0.elapsed() < budget {
        turn += 1;
        // what other threads found
        let mut next: Option<Value> = None;
        if turn % 8 == 0 {
            if let Ok(f) = sh.found.try_lock() {
                if taken < f.len() {
                    next = Some(f[taken].clone());
                    taken += 1;
                }
            }
        }
        if turn % 64 == 0 {
            if let Ok(w) = sh.words.try_lock() {
                for x in &w[learnt..] {
                    learn(x.clone());
                }
                learnt = w.len();
            }
        }
        let adopted = next.is_some();
        let typed: Option<C> = if let Some(v) = &next {
            serde_json::from_value(v.clone()).ok()
        } else if corpus.is_empty() || rg.below(8) < 2 {
            Some((g.gen)(&rg))
        } else {
            let mut v;
            if !todo.is_empty() && rg.below(4) != 0 {
                let i = rg.idx(todo.len());
                let (e, s) = todo.swap_remove(i);
                v = corpus[e].case.clone();
                apply(&s, &mut v, &rg);
            } else {
                // recent finds more often
                let k = corpus.len();
                let i = if rg.coin() { k - 1 - rg.idx(k.min(8)) } else { rg.idx(k) };
                v = corpus[i].case.clone();
                if rg.one_in(3) && !corpus[i].steps.is_empty() {
                    let s = rg.pick(&corpus[i].steps);
                    apply(&s, &mut v, &rg);
                }
                for _ in 0..1 + rg.below(3) {
                    let o = &corpus[rg.idx(k)].case;
                    havoc(&mut v, o, &rg);
                }
            }
            let c = serde_json::from_value(v.clone()).ok();
            next = Some(v);
            c
        };
        let c = match typed {
            Some(c) => c,
            None => continue,
        };
        cfg.note(g.name, shard, &c);
        let mut obs = Obs::default();
        let res = guarded(|| {
            unsafe { vh_begin() };
            (g.check)(&c, &mut obs)
        });
        unsafe { vh_end() };
        tally.count(&c, &obs, 0, None);
        if let Err(e) = res {
            sh.stop.store(true, Ordering::Relaxed);
            let (c, why) = shrink(g, c, e);
            tally.rep.violation =
                Some((g.name.to_string(), serde_json::to_value(&c).expect("case serialises"), why));
            break;
        }
        let fresh = touched(&mut seen);
        if !fresh && rg.one_in(40) && learnt < 400 {
            let case = next.clone().unwrap_or_else(|| serde_json::to_value(&c).expect("case serialises"));
            note_words(&case, &mut once, sh);
        }
        if !fresh && todo.len() < 2000 && rg.one_in(64) && corpus.len() < 3000 {
            // an ordinary case, for the sake of comparisons that never came out equal
            let case = next.clone().unwrap_or_else(|| serde_json::to_value(&c).expect("case serialises"));
            let mut st = steps(&rg, &case, &seen, false);
            while st.len() > 100 {
                st.swap_remove(rg.idx(st.len()));
            }
            let e = corpus.len();
            todo.extend(st.into_iter().map(|s| (e, s)));
            corpus.push(Entry { case, steps: vec![] });
        }
        if fresh {
            let case = next.unwrap_or_else(|| serde_json::to_value(&c).expect("case serialises"));
            let st = steps(&rg, &case, &seen, true);
            note_words(&case, &mut once, sh);
            let e = corpus.len();
            todo.extend(st.iter().cloned().map(|s| (e, s)));
            while todo.len() > 20_000 {
                let i = rg.idx(todo.len());
                todo.swap_remove(i);
            }
            if !adopted {
                let fresh = {
                    let mut all = sh.seen.lock().unwrap();
                    touched(&mut all)
                };
                if fresh {
                    let mut f = sh.found.lock().unwrap();
                    if taken == f.len() {
                        taken += 1;
                    }
                    f.push(case.clone());
                }
            }
            corpus.push(Entry { case, steps: st });
        }
    }
    tally.rep
}

fn note_words(case: &Value, once: &mut HashMap<Word, u8>, sh: &Shared) {
    for w in words(case) {
        if once.len() > 20_000 {
            once.clear();
        }
        let k = once.entry(w.clone()).or_insert(0);
        *k = k.saturating_add(1);
        if *k == 2 {
            let mut all = sh.words.lock().unwrap();
            if all.len() < 400 && !all.contains(&w) {
                all.push(w);
            }
        }
    }
}

/// the smallest failing case that greedy simplification reaches
fn shrink<C>(g: &Gen<C>, c: C, why: String) -> (C, String)
where
    C: Clone + Debug + Serialize + DeserializeOwned + 'static,
{
    let t0 = Instant::now();
    let (mut best, mut reason) = (c, why);
    'again: loop {
        let mut out = vec![];
        shrink_json(&serde_json::to_value(&best).expect("case serialises"), &mut out);
        for v in out {
            if t0.elapsed() > Duration::from_secs(20) {
                break 'again;
            }
            if let Ok(c) = serde_json::from_value::<C>(v) {
                let mut obs = Obs::default();
                if let Err(e) = guarded(|| (g.check)(&c, &mut obs)) {
                    best = c;
                    reason = e;
                    continue 'again;
                }
            }
        }
        break;
    }
    (best, reason)
}
