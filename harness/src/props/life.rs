//! C18 no panics, C25 purity, C26 clearing.

use super::group::{rep, Rep};
use super::mult;
use crate::conv::*;
use crate::gen::*;
use crate::ops;
use crate::refm::*;
use crate::run::{Gen, Group, Obs, Res, Rg};
use crate::{ensure, same};
use libsecp256k1::curve::{Affine, AffineStorage, Field, Jacobian, Scalar};
use libsecp256k1::{
    Message, PublicKey, PublicKeyFormat, RecoveryId, SecretKey, SharedSecret, Signature,
};
use serde::{Deserialize, Serialize};
use std::convert::TryFrom;
use std::sync::OnceLock;

// ------------------------------------------------------------------ C18

/// one step of a program over whatever values parsing yields
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    op: u8,
    i: u8,
    j: u8,
    k: u8,
    b: Hx,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    steps: Vec<Step>,
}
const PARSERS: u64 = 13;
const OPS: u64 = 32;

fn der_ish(rg: &Rg) -> Vec<u8> {
    let mut b = if rg.coin() { super::der::any_der(rg).0 } else { super::der::any_lax(rg).0 };
    if rg.one_in(3) {
        mutate(rg, &mut b);
    }
    b
}
fn step_bytes(rg: &Rg, op: u8) -> Vec<u8> {
    let two = |rg: &Rg| {
        let mut b = u256(rg).be().to_vec();
        b.extend(u256(rg).be());
        if rg.one_in(6) {
            mutate(rg, &mut b);
        }
        b
    };
    match op {
        0 | 4 => {
            if rg.one_in(4) {
                any_bytes(rg, 70, &[0, 32])
            } else if rg.coin() {
                seckey(rg).be().to_vec()
            } else {
                u256(rg).be().to_vec()
            }
        }
        1 | 2 | 10 | 11 => super::keys::any_parse(rg).1 .0,
        3 => point(rg).compressed().to_vec(),
        5 | 6 => two(rg),
        7 | 8 | 12 => {
            if rg.one_in(4) {
                any_bytes(rg, 300, &[8, 70, 72, 128, 200])
            } else {
                der_ish(rg)
            }
        }
        9 => rg.bytes(2),
        _ => vec![],
    }
}
fn step(rg: &Rg, op: u8) -> Step {
    Step {
        op,
        i: rg.u64() as u8,
        j: rg.u64() as u8,
        k: rg.u64() as u8,
        b: Hx(step_bytes(rg, op)),
    }
}
fn parse_gen(rg: &Rg) -> Prog {
    let op = rg.below(PARSERS) as u8;
    Prog { steps: vec![step(rg, op)] }
}
fn prog_gen(rg: &Rg) -> Prog {
    // something of every kind to work on, then anything
    let mut steps = vec![];
    for op in [0u8, 1, 3, 4, 5] {
        if !rg.one_in(5) {
            steps.push(step(rg, op));
        }
    }
    for _ in 0..1 + rg.idx(12) {
        let op = rg.below(OPS) as u8;
        steps.push(step(rg, op));
    }
    Prog { steps }
}

#[derive(Default)]
struct World {
    sk: Vec<SecretKey>,
    pk: Vec<PublicKey>,
    msg: Vec<Message>,
    sig: Vec<Signature>,
    rid: Vec<RecoveryId>,
    log: Vec<u8>,
}
impl World {
    fn say(&mut self, tag: &str, b: &[u8]) {
        self.log.extend_from_slice(tag.as_bytes());
        self.log.extend_from_slice(&(b.len() as u32).to_le_bytes());
        self.log.extend_from_slice(b);
    }
    fn got<T>(&mut self, tag: &str, r: Result<T, libsecp256k1::Error>) -> Option<T> {
        match r {
            Ok(v) => {
                self.say(tag, b"ok");
                Some(v)
            }
            Err(e) => {
                self.say(tag, format!("{:?}", e).as_bytes());
                None
            }
        }
    }
    fn key(&mut self, k: Option<PublicKey>) {
        if let Some(k) = k {
            self.say("key", &k.serialize());
            self.say("key", &k.serialize_compressed());
            self.pk.push(k);
        }
    }
    fn sec(&mut self, k: Option<SecretKey>) {
        if let Some(k) = k {
            self.say("secret", &k.serialize());
            self.sk.push(k);
        }
    }
    fn signature(&mut self, s: Option<Signature>) {
        if let Some(s) = s {
            self.say("signature", &s.serialize());
            self.say("signature", s.serialize_der().as_ref());
            self.sig.push(s);
        }
    }
}
fn at<T: Copy>(v: &[T], i: u8) -> Option<T> {
    if v.is_empty() {
        None
    } else {
        Some(v[i as usize % v.len()])
    }
}

fn decoder(w: &mut World, b: &[u8], mut prog: u32) {
    let mut d = libsecp256k1::util::Decoder::new(b);
    for _ in 0..8 {
        let n = (prog >> 4) as usize & 0x3ff;
        let r = match prog & 15 {
            0 => format!("{:?}", d.read()),
            1 => format!("{:?}", d.peek(n)),
            2 => format!("{:?}", d.peek_slice(n)),
            3 => format!("{:?}", d.skip(n & 7)),
            4 => format!("{:?}", d.skip(n)),
            5 => format!("{:?}", d.read_constructed_sequence()),
            6 | 7 => format!("{:?}", d.read_len()),
            8 | 9 => format!("{:?}", d.read_integer()),
            10 => format!("{:?}", d.read_seq_len_lax()),
            11 | 12 => format!("{:?}", d.read_len_lax()),
            _ => format!("{:?}", d.read_integer_lax()),
        };
        w.say("decoder", r.as_bytes());
        w.say("left", &(d.remaining_len() as u64).to_le_bytes());
        prog = prog.rotate_right(5).wrapping_mul(0x9e3779b1) ^ 0x55;
    }
}

/// None when the step does not apply
fn exec(w: &mut World, s: &Step) -> Option<()> {
    let b = &s.b.0[..];
    let fmt = || match s.i % 4 {
        0 => None,
        1 => Some(PublicKeyFormat::Compressed),
        2 => Some(PublicKeyFormat::Raw),
        _ => Some(PublicKeyFormat::Full),
    };
    let a32 = || <[u8; 32]>::try_from(b).ok();
    let a64 = || <[u8; 64]>::try_from(b).ok();
    match s.op {
        // parsers
        0 => {
            let r = SecretKey::parse_slice(b);
            let k = w.got("sk", r);
            w.sec(k);
            if let Some(a) = a32() {
                let r = SecretKey::parse(&a);
                w.got("sk32", r);
            }
        }
        1 | 2 => {
            let r = PublicKey::parse_slice(b, fmt());
            let k = w.got("pk", r);
            w.key(k);
            if let Ok(a) = <[u8; 65]>::try_from(b) {
                let r = PublicKey::parse(&a);
                let k = w.got("pk65", r);
                w.key(k);
            }
        }
        3 => {
            if let Ok(a) = <[u8; 33]>::try_from(b) {
                let r = PublicKey::parse_compressed(&a);
                let k = w.got("pk33", r);
                w.key(k);
            }
        }
        4 => {
            let r = Message::parse_slice(b);
            if let Some(m) = w.got("msg", r) {
                w.say("msg", &m.serialize());
                w.msg.push(m);
            }
            if let Some(a) = a32() {
                w.msg.push(Message::parse(&a));
            }
        }
        5 => {
            let r = Signature::parse_standard_slice(b);
            let x = w.got("std", r);
            w.signature(x);
            if let Some(a) = a64() {
                let r = Signature::parse_standard(&a);
                w.got("std64", r);
            }
        }
        6 => {
            let r = Signature::parse_overflowing_slice(b);
            let x = w.got("ovf", r);
            w.signature(x);
            if let Some(a) = a64() {
                let x = Signature::parse_overflowing(&a);
                w.signature(Some(x));
            }
        }
        7 => {
            let r = Signature::parse_der(b);
            let x = w.got("der", r);
            w.signature(x);
        }
        8 => {
            let r = Signature::parse_der_lax(b);
            let x = w.got("lax", r);
            w.signature(x);
        }
        9 => {
            let v = b.first().copied()?;
            for r in [RecoveryId::parse(v), RecoveryId::parse_rpc(v)] {
                if let Some(i) = w.got("rid", r) {
                    w.say("rid", &[i.serialize(), i.into()]);
                    let n: i32 = i.into();
                    w.say("rid", &n.to_le_bytes());
                    w.rid.push(i);
                }
            }
        }
        10 => {
            // binary decoding: a length-prefixed string, or anything
            let mut t = (b.len() as u64 ^ (s.j as u64 & s.k as u64 & 7)).to_le_bytes().to_vec();
            t.extend_from_slice(b);
            for t in [&t[..], b] {
                match bincode::deserialize::<PublicKey>(t) {
                    Ok(k) => w.key(Some(k)),
                    Err(_) => w.say("bincode", b"err"),
                }
            }
        }
        11 => {
            // text decoding, well-formed base64 or not
            let good = serde_json::to_string(&b64enc(b)).ok()?;
            let mut bad: Vec<char> = b64enc(b).chars().collect();
            if !bad.is_empty() {
                let i = s.j as usize % bad.len();
                bad[i] = ['=', '-', ' ', '\u{e9}', 'A', '/', '\0', '!'][s.k as usize % 8];
            }
            let bad = serde_json::to_string(&bad.into_iter().collect::<String>()).ok()?;
            for t in [good, bad] {
                match serde_json::from_str::<PublicKey>(&t) {
                    Ok(k) => w.key(Some(k)),
                    Err(_) => w.say("json", b"err"),
                }
            }
        }
        12 => decoder(w, b, u32::from_le_bytes([s.i, s.j, s.k, s.i ^ s.k])),
        // operations
        13 => {
            let k = at(&w.sk, s.i)?;
            let p = PublicKey::from_secret_key(&k);
            w.key(Some(p));
        }
        14 | 15 => {
            let (k, m) = (at(&w.sk, s.i)?, at(&w.msg, s.j)?);
            let (g, i) = libsecp256k1::sign(&m, &k);
            w.rid.push(i);
            w.say("recid", &[i.serialize()]);
            w.signature(Some(g));
        }
        16 | 17 => {
            let (p, m, g) = (at(&w.pk, s.i)?, at(&w.msg, s.j)?, at(&w.sig, s.k)?);
            let ok = libsecp256k1::verify(&m, &g, &p);
            w.say("verify", &[ok as u8]);
        }
        18 | 19 => {
            let (m, g) = (at(&w.msg, s.i)?, at(&w.sig, s.j)?);
            let i = at(&w.rid, s.k).unwrap_or(RecoveryId::parse(s.k % 4).ok()?);
            let r = libsecp256k1::recover(&m, &g, &i);
            let k = w.got("recover", r);
            w.key(k);
        }
        20 => {
            let (p, k) = (at(&w.pk, s.i)?, at(&w.sk, s.j)?);
            let r = SharedSecret::<sha2::Sha256>::new(&p, &k);
            if let Some(x) = w.got("ecdh", r) {
                w.say("ecdh", x.as_ref());
                let y = x.clone();
                w.say("eq", &[(x.as_ref() == y.as_ref()) as u8]);
            }
        }
        21 | 22 => {
            let (mut p, k) = (at(&w.pk, s.i)?, at(&w.sk, s.j)?);
            let r = if s.op == 21 { p.tweak_add_assign(&k) } else { p.tweak_mul_assign(&k) };
            let ok = w.got("ptweak", r);
            w.key(ok.map(|_| p));
        }
        23 | 24 => {
            let (mut x, k) = (at(&w.sk, s.i)?, at(&w.sk, s.j)?);
            let r = if s.op == 23 { x.tweak_add_assign(&k) } else { x.tweak_mul_assign(&k) };
            let ok = w.got("stweak", r);
            w.sec(ok.map(|_| x));
        }
        25 => {
            let k = at(&w.sk, s.i)?;
            w.sec(Some(k.inv()));
        }
        26 => {
            let n = s.i as usize % (w.pk.len() + 1);
            let mut v = w.pk[..n].to_vec();
            if let Some(p) = at(&w.pk, s.j) {
                if s.k & 1 == 1 {
                    v.push(p);
                }
            }
            let r = PublicKey::combine(&v);
            let k = w.got("combine", r);
            w.key(k);
        }
        27 => {
            let mut g = at(&w.sig, s.i)?;
            g.normalize_s();
            w.signature(Some(g));
        }
        28 => {
            // encode and decode again
            let p = at(&w.pk, s.i)?;
            let mut out = vec![];
            out.push(PublicKey::parse(&p.serialize()).ok().map(|q| q == p));
            out.push(PublicKey::parse_compressed(&p.serialize_compressed()).ok().map(|q| q == p));
            let j = serde_json::to_string(&p).ok()?;
            out.push(serde_json::from_str::<PublicKey>(&j).ok().map(|q| q == p));
            let c = bincode::serialize(&p).ok()?;
            out.push(bincode::deserialize::<PublicKey>(&c).ok().map(|q| q == p));
            let a: Affine = p.into();
            out.push(PublicKey::try_from(a).ok().map(|q| q == p));
            w.say("reencode", format!("{:?} {} {}", out, j, hex(&c)).as_bytes());
        }
        29 => {
            let g = at(&w.sig, s.i)?;
            let d = g.serialize_der();
            w.say("der", &[d.len() as u8, d.is_empty() as u8]);
            let (x, y) = (Signature::parse_der(d.as_ref()), Signature::parse_der_lax(d.as_ref()));
            w.say("again", format!("{:?} {:?}", x.map(|x| x == g), y.map(|y| y == g)).as_bytes());
            let r = Signature::parse_standard(&g.serialize());
            w.say("again", format!("{:?}", r.map(|x| x == g)).as_bytes());
        }
        30 => {
            let k = at(&w.sk, s.i)?;
            let t: Scalar = k.into();
            let r = SecretKey::try_from(t);
            w.got("scalar", r);
            w.say("hex", format!("{:x} {:x}", k, t).as_bytes());
            let mut c = k;
            c.clear();
            w.say("clear", &[c.is_zero() as u8, k.is_zero() as u8, (c == k) as u8]);
        }
        _ => {
            // formatting and comparing anything
            if let Some(p) = at(&w.pk, s.i) {
                let a: Affine = p.into();
                let st: AffineStorage = a.into();
                let _ = (format!("{:?}", p), format!("{:?}", st));
                w.say("storage", format!("{:?}", un_storage(&st)).as_bytes());
                if let Some(q) = at(&w.pk, s.j) {
                    w.say("cmp", &[(p == q) as u8]);
                }
            }
            if let (Some(a), Some(b)) = (at(&w.sk, s.i), at(&w.sk, s.j)) {
                w.say("cmp", &[(a == b) as u8]);
                w.say("debug", &[!format!("{:?}", a).is_empty() as u8]);
            }
            if let (Some(a), Some(b)) = (at(&w.msg, s.i), at(&w.msg, s.j)) {
                w.say("cmp", &[(a == b) as u8]);
                w.say("debug", format!("{:?}", a).as_bytes());
            }
            if let (Some(a), Some(b)) = (at(&w.sig, s.i), at(&w.sig, s.k)) {
                w.say("cmp", &[(a == b) as u8]);
                w.say("debug", format!("{:?}", a).as_bytes());
            }
        }
    }
    Some(())
}
fn prog_check(c: &Prog, o: &mut Obs) -> Res {
    let mut w = World::default();
    let mut ran = 0;
    for s in &c.steps {
        // rules out programs that only the shrinker would make
        if w.pk.len() + w.sk.len() + w.sig.len() > 200 {
            break;
        }
        if exec(&mut w, s).is_some() {
            ran += 1;
            if s.op >= PARSERS as u8 {
                o.label("an operation on parsed values");
            }
        }
    }
    if ran >= 1 && c.steps.iter().any(|s| !s.b.0.is_empty()) {
        o.nt();
    }
    o.label_if(!w.pk.is_empty(), "a public key");
    o.label_if(!w.sig.is_empty(), "a signature");
    o.label_if(w.pk.is_empty() && w.sig.is_empty() && w.sk.is_empty() && w.msg.is_empty(), "nothing parsed");
    o.trace(&w.log);
    Ok(())
}

/// the vocabulary of calls used elsewhere, transcripts compared between builds
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    ops: Vec<ops::Op>,
}
fn trace_gen(rg: &Rg) -> Hist {
    Hist { ops: ops::history(rg, 4) }
}
fn trace_check(c: &Hist, o: &mut Obs) -> Res {
    if c.ops.iter().any(|x| !x.valid()) {
        return Ok(());
    }
    o.nt();
    let cx = &mult::contexts()[0].1;
    for x in &c.ops {
        o.label(x.name());
        o.trace(x.exec(cx).as_bytes());
    }
    Ok(())
}

// ------------------------------------------------------------------ C25

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shuffled {
    ops: Vec<ops::Op>,
    seed: u64,
}
fn shuffled_gen(rg: &Rg) -> Shuffled {
    Shuffled { ops: ops::history(rg, 12), seed: rg.u64() >> 16 }
}
fn permutation(n: usize, mut seed: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.swap(i, (seed >> 33) as usize % (i + 1));
    }
    v
}
struct Tables {
    m: Vec<Vec<AffineStorage>>,
    g: Vec<Vec<[AffineStorage; 16]>>,
}
fn tables_now() -> Tables {
    Tables {
        m: (0..2).map(|i| mult::mctx(i).inspect_raw().to_vec()).collect(),
        g: (0..2).map(|i| mult::gen_ctx(i).inspect_raw().to_vec()).collect(),
    }
}
fn tables_before() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(tables_now)
}
fn tables_unchanged() -> Res {
    let t = tables_before();
    for i in 0..2 {
        ensure!(mult::mctx(i).inspect_raw()[..] == t.m[i][..], "multiplication table {} changed", i);
        ensure!(mult::gen_ctx(i).inspect_raw()[..] == t.g[i][..], "generator table {} changed", i);
    }
    Ok(())
}
fn one_call(x: &ops::Op, when: &str) -> Res {
    let got = x.exec(&mult::contexts()[0].1);
    ensure!(x.accepts(&got), "{} {}: got {}, expected {}", x.line(), when, got, x.want());
    Ok(())
}
fn shuffled_check(c: &Shuffled, o: &mut Obs) -> Res {
    if c.ops.iter().any(|x| !x.valid()) {
        return Ok(());
    }
    if c.ops.len() >= 2 {
        o.nt();
    }
    o.label_if(c.ops.len() >= 8, "8 calls or more");
    tables_before();
    for (i, x) in c.ops.iter().enumerate() {
        one_call(x, &format!("as call {}", i))?;
    }
    for i in permutation(c.ops.len(), c.seed) {
        one_call(&c.ops[i], "in another order")?;
    }
    tables_unchanged()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Threaded {
    ops: Vec<ops::Op>,
    threads: u8,
    seed: u64,
}
fn threaded_gen(rg: &Rg) -> Threaded {
    Threaded { ops: ops::history(rg, 10), threads: 2 + rg.below(5) as u8, seed: rg.u64() >> 16 }
}
fn threaded_check(c: &Threaded, o: &mut Obs) -> Res {
    if c.ops.iter().any(|x| !x.valid()) || !(1..=8).contains(&c.threads) {
        return Ok(());
    }
    if c.ops.len() >= 2 && c.threads >= 2 {
        o.nt();
    }
    tables_before();
    let n = c.threads as usize;
    let gate = std::sync::Barrier::new(n);
    let mut res = vec![];
    std::thread::scope(|s| {
        let mut hs = vec![];
        for t in 0..n {
            let (gate, ops, seed) = (&gate, &c.ops, c.seed.wrapping_add(t as u64));
            hs.push(s.spawn(move || {
                // even threads in the given order, odd ones in their own
                let order = if t % 2 == 0 { (0..ops.len()).collect() } else { permutation(ops.len(), seed) };
                gate.wait();
                crate::run::guarded(|| {
                    for i in order {
                        one_call(&ops[i], &format!("in thread {} of {}", t, n))?;
                    }
                    Ok(())
                })
            }));
        }
        for h in hs {
            res.push(h.join().unwrap_or_else(|_| Err("thread died".into())));
        }
    });
    for r in res {
        r?;
    }
    tables_unchanged()
}

/// calls that share the very same objects
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shared {
    keys: Vec<U>,
    msgs: Vec<U>,
    /// scalars added to some of the signatures' s to make them wrong
    bad: Vec<U>,
    calls: Vec<(u8, u8, u8, u8)>,
    threads: u8,
}
fn shared_gen(rg: &Rg) -> Shared {
    let pool = ops::Pool::new(rg);
    let n = rg.pick(&[1u8, 1, 1, 3]);
    Shared {
        keys: pool.keys,
        msgs: pool.msgs.iter().map(|m| FN.red(*m)).collect(),
        bad: (0..3).map(|_| if rg.coin() { ZERO } else { scalar(rg) }).collect(),
        calls: (0..2 + rg.idx(14))
            .map(|_| (rg.below(9) as u8, rg.below(6) as u8, rg.below(6) as u8, rg.below(6) as u8))
            .collect(),
        threads: n,
    }
}
struct Objects {
    sk: Vec<SecretKey>,
    pk: Vec<PublicKey>,
    msg: Vec<Message>,
    sig: Vec<Signature>,
    rid: Vec<RecoveryId>,
}
type Row = (U, U, u8);
fn shared_call(b: &Objects, d: &[U], q: &[Pt], z: &[U], g: &[Row], call: &(u8, u8, u8, u8)) -> Res {
    let (i, j, k) = (call.1 as usize % d.len(), call.2 as usize % z.len(), call.3 as usize % g.len());
    let i2 = call.3 as usize % d.len();
    let say = |r: Result<PublicKey, libsecp256k1::Error>| r.ok().map(|k| k.serialize().to_vec());
    let pt = |p: Option<Pt>| p.filter(|p| !p.is_inf()).map(|p| p.full().to_vec());
    match call.0 {
        0 => same!(un_pk(&PublicKey::from_secret_key(&b.sk[i])), q[i], "key of shared secret {}", i),
        1 => {
            let (s, r) = libsecp256k1::sign(&b.msg[j], &b.sk[i]);
            let w = ecdsa_sign(&d[i], &z[j]);
            same!((un_sig(&s), r.serialize()), ((w.0, w.1), w.2), "signature {} {}", i, j);
        }
        2 | 3 => {
            let got = libsecp256k1::verify(&b.msg[j], &b.sig[k], &b.pk[i]);
            same!(got, ecdsa_verify(&z[j], &g[k].0, &g[k].1, &q[i]), "verify {} {} {}", i, j, k);
        }
        4 | 5 => {
            let got = libsecp256k1::recover(&b.msg[j], &b.sig[k], &b.rid[k]);
            same!(say(got), pt(ecdsa_recover(&z[j], &g[k].0, &g[k].1, g[k].2)), "recover {} {}", j, k);
        }
        6 => {
            use sha2::{Digest, Sha256};
            let got = SharedSecret::<Sha256>::new(&b.pk[i], &b.sk[i2]).map_err(|e| format!("ECDH: {:?}", e))?;
            same!(hex(got.as_ref()), hex(&Sha256::digest(&q[i].mul(&d[i2]).compressed())), "ECDH {} {}", i, i2);
        }
        7 => {
            same!(say(PublicKey::combine(&[b.pk[i], b.pk[i2]])), pt(Some(q[i].add(&q[i2]))), "combine {} {}", i, i2);
        }
        _ => {
            let mut t = b.pk[i];
            let r = t.tweak_add_assign(&b.sk[i2]).map(|_| t);
            same!(say(r), pt(Some(q[i].add(&q[i2]))), "tweak {} {}", i, i2);
            let mut t = b.pk[i];
            let r = t.tweak_mul_assign(&b.sk[i2]).map(|_| t);
            same!(say(r), pt(Some(q[i].mul(&d[i2]))), "tweak mul {} {}", i, i2);
        }
    }
    Ok(())
}
fn shared_check(c: &Shared, o: &mut Obs) -> Res {
    if c.keys.is_empty() || c.msgs.is_empty() || c.bad.is_empty() || !(1..=8).contains(&c.threads) {
        return Ok(());
    }
    if c.keys.iter().any(|d| d.is_zero() || *d >= N) || c.msgs.iter().chain(&c.bad).any(|z| *z >= N) {
        return Ok(());
    }
    if c.calls.len() >= 2 {
        o.nt();
    }
    o.label_if(c.threads > 1, "several threads");
    let (d, z) = (&c.keys, &c.msgs);
    let q: Vec<Pt> = d.iter().map(gmul).collect();
    let mut g: Vec<Row> = vec![];
    for (i, bad) in c.bad.iter().enumerate() {
        let (r, s, id) = ecdsa_sign(&d[i % d.len()], &z[i % z.len()]);
        g.push((r, FN.add(&s, bad), id));
    }
    let b = Objects {
        sk: d.iter().map(sk).collect::<Result<_, _>>()?,
        pk: q.iter().map(|p| repr_pk(p, 0)).collect::<Result<_, _>>()?,
        msg: z.iter().map(msg).collect(),
        sig: g.iter().map(|x| sig(&x.0, &x.1)).collect(),
        rid: g.iter().map(|x| rid(x.2)).collect::<Result<_, _>>()?,
    };
    if c.threads == 1 {
        for call in c.calls.iter().chain(c.calls.iter().rev()) {
            shared_call(&b, d, &q, z, &g, call)?;
        }
    } else {
        let mut res = vec![];
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..c.threads as usize)
                .map(|t| {
                    let (b, q, g, c) = (&b, &q, &g, &c);
                    s.spawn(move || {
                        crate::run::guarded(|| {
                            for i in permutation(c.calls.len(), t as u64) {
                                shared_call(b, &c.keys, q, &c.msgs, g, &c.calls[i])?;
                            }
                            Ok(())
                        })
                    })
                })
                .collect();
            for h in hs {
                res.push(h.join().unwrap_or_else(|_| Err("thread died".into())));
            }
        });
        for r in res {
            r?;
        }
    }
    // the objects are what they were
    for i in 0..d.len() {
        same!(U::from_be(&b.sk[i].serialize()), d[i], "secret key {} afterwards", i);
        same!(un_pk(&b.pk[i]), q[i], "public key {} afterwards", i);
    }
    for j in 0..z.len() {
        same!(U::from_be(&b.msg[j].serialize()), z[j], "message {} afterwards", j);
    }
    for k in 0..g.len() {
        same!((un_sig(&b.sig[k]), b.rid[k].serialize()), ((g[k].0, g[k].1), g[k].2), "signature {} afterwards", k);
    }
    Ok(())
}

// ------------------------------------------------------------------ C26

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ClearCase {
    v: U,
    p: Rep,
}
fn clear_gen(rg: &Rg) -> ClearCase {
    let pt = point(rg);
    ClearCase { v: if rg.coin() { random(rg) } else { u256(rg) }, p: rep(rg, pt) }
}
fn memory<T>(x: &T) -> Vec<u8> {
    let p = x as *const T as *const u8;
    (0..std::mem::size_of::<T>())
        .map(|i| unsafe { std::ptr::read_volatile(p.add(i)) })
        .collect()
}
/// Words of an object that hold digits of its value: the rest is flags and padding.
struct Shape(Vec<usize>);
impl Shape {
    /// `x` was built from digits 0x5a000000 + i, i < n
    fn of<T>(x: &T, n: u32) -> Shape {
        let m = word_list(&memory(x));
        Shape(
            (0..n)
                .map(|d| m.iter().position(|w| *w == 0x5a00_0000 + d).expect("digit not found"))
                .collect(),
        )
    }
    /// digits that say something about the value
    fn words(&self, b: &[u8]) -> Vec<u32> {
        let m = word_list(b);
        self.0.iter().map(|i| m[*i]).filter(|w| *w > 0xffff).collect()
    }
    fn gone(&self, before: &[u8], after: &[u8], what: &str) -> Res {
        let secret = self.words(before);
        for w in self.words(after) {
            ensure!(!secret.contains(&w), "{}: the word {:08x} is still in memory", what, w);
        }
        Ok(())
    }
    fn released<T: Clone>(&self, x: &T, end: fn(Box<T>), what: &str) -> Res {
        let before = memory(x);
        match crate::watch::at_release(Box::new(x.clone()), end) {
            Some(after) => self.gone(&before, &after, what),
            None => Err(format!("{}: release of the block not seen", what)),
        }
    }
}
fn word_list(b: &[u8]) -> Vec<u32> {
    b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}
struct Shapes {
    scalar: Shape,
    field: Shape,
    affine: Shape,
    jacobian: Shape,
}
fn shapes() -> &'static Shapes {
    static S: std::sync::OnceLock<Shapes> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut b = [0u8; 32];
        for i in 0..8 {
            b[28 - 4 * i..32 - 4 * i].copy_from_slice(&(0x5a00_0000 + i as u32).to_be_bytes());
        }
        let f = |k: u32| {
            let d = |i: u32| 0x5a00_0000 + 10 * k + i;
            Field::new_raw(d(9), d(8), d(7), d(6), d(5), d(4), d(3), d(2), d(1), d(0))
        };
        let mut a = Affine::default();
        a.x = f(0);
        a.y = f(1);
        let mut j = Jacobian::default();
        j.x = f(0);
        j.y = f(1);
        j.z = f(2);
        Shapes {
            scalar: Shape::of(&sc(&U::from_be(&b)), 8),
            field: Shape::of(&f(0), 10),
            affine: Shape::of(&a, 20),
            jacobian: Shape::of(&j, 30),
        }
    })
}
#[inline(never)]
fn drop_sk(mut b: Box<SecretKey>) {
    b.clear();
}
#[inline(never)]
fn drop_scalar(mut b: Box<Scalar>) {
    b.clear();
}
#[inline(never)]
fn drop_field(mut b: Box<Field>) {
    b.clear();
}
#[inline(never)]
fn drop_affine(mut b: Box<Affine>) {
    b.clear();
}
#[inline(never)]
fn drop_jacobian(mut b: Box<Jacobian>) {
    b.clear();
}
fn clear_check(c: &ClearCase, o: &mut Obs) -> Res {
    if !c.p.ok() || c.p.pt.is_inf() {
        return Ok(());
    }
    let v = FN.red(c.v);
    let h = shapes();
    if h.scalar.words(&memory(&sc(&v))).len() >= 4 {
        o.nt();
    }
    // scalar
    let s = sc(&v);
    let before = memory(&s);
    let mut b = Box::new(s);
    b.clear();
    h.scalar.gone(&before, &memory(&*b), "scalar after clear")?;
    same!(un_sc(&b), ZERO, "scalar after clear");
    ensure!(*b == Scalar::default(), "cleared scalar differs from the default");
    h.scalar.released(&s, drop_scalar, "scalar cleared before release")?;
    // secret key
    if !v.is_zero() {
        let k = sk(&v)?;
        let before = memory(&k);
        let mut b = Box::new(k);
        b.clear();
        h.scalar.gone(&before, &memory(&*b), "secret key after clear")?;
        ensure!(b.is_zero(), "cleared secret key is not zero");
        same!(hex(&b.serialize()), hex(&[0; 32]), "cleared secret key");
        let t: Scalar = (*b).into();
        ensure!(t.is_zero(), "scalar of a cleared secret key is not zero");
        h.scalar.released(&k, drop_sk, "secret key cleared before release")?;
    }
    // coordinates, in any representation
    let j: Jacobian = c.p.jac();
    let a: Affine = c.p.aff();
    for (n, f) in [j.x, j.y, j.z, a.x, a.y, fe(&FP.red(c.v))].iter().enumerate() {
        let f: &Field = f;
        let before = memory(f);
        let mut b = Box::new(*f);
        b.clear();
        h.field.gone(&before, &memory(&*b), &format!("field element {} after clear", n))?;
        h.field.released(f, drop_field, &format!("field element {} cleared before release", n))?;
        ensure!(b.is_zero() && b.normalizes_to_zero_var(), "cleared field element is not zero");
        ensure!(*b == Field::default(), "cleared field element differs from the default");
        same!(hex(&b.b32()), hex(&[0; 32]), "cleared field element");
        let mut t = *b;
        t += Field::from_int(1);
        same!(un_fe(&t), ONE, "cleared field element + 1");
    }
    for inf in [false, true] {
        let mut a = a;
        a.infinity = inf;
        let before = memory(&a);
        let mut b = Box::new(a);
        b.clear();
        h.affine.gone(&before, &memory(&*b), "affine point after clear")?;
        h.affine.released(&a, drop_affine, "affine point cleared before release")?;
        ensure!(*b == Affine::default(), "cleared affine point differs from the default");
        let mut j = j;
        j.infinity = inf;
        let before = memory(&j);
        let mut b = Box::new(j);
        b.clear();
        h.jacobian.gone(&before, &memory(&*b), "Jacobian point after clear")?;
        h.jacobian.released(&j, drop_jacobian, "Jacobian point cleared before release")?;
        ensure!(
            b.x.is_zero() && b.y.is_zero() && b.z.is_zero() && b.infinity == Jacobian::default().infinity,
            "cleared Jacobian point differs from the default"
        );
    }
    Ok(())
}

pub fn groups(id: &str) -> Option<(&'static str, Vec<Box<dyn Group>>)> {
    Some(match id {
        "C18" => (
            "byte strings for every parser, programs of operations over whatever parsed, and call histories; the transcripts of builds with and without debug assertions are compared; non-trivial: at least one step executed with some input bytes",
            vec![
                Box::new(Gen { name: "parsers", quick: 400_000, thorough: 20_000_000, gen: parse_gen, check: prog_check }),
                Box::new(Gen { name: "programs", quick: 60_000, thorough: 3_000_000, gen: prog_gen, check: prog_check }),
                Box::new(Gen { name: "calls", quick: 10_000, thorough: 500_000, gen: trace_gen, check: trace_check }),
            ],
        ),
        "C25" => (
            "histories of calls that repeat and vary each other's arguments, executed in two orders, in several threads, and on shared objects; every answer is compared with that of the stateless reference model; non-trivial: at least 2 calls (and 2 threads)",
            vec![
                Box::new(Gen { name: "orders", quick: 8_000, thorough: 400_000, gen: shuffled_gen, check: shuffled_check }),
                Box::new(Gen { name: "threads", quick: 1_500, thorough: 60_000, gen: threaded_gen, check: threaded_check }),
                Box::new(Gen { name: "shared objects", quick: 6_000, thorough: 300_000, gen: shared_gen, check: shared_check }),
            ],
        ),
        "C26" => (
            "random and special values in random digit representations and magnitudes; non-trivial: at least four telling words in the scalar",
            vec![Box::new(Gen { name: "clear", quick: 100_000, thorough: 5_000_000, gen: clear_gen, check: clear_check })],
        ),
        _ => return None,
    })
}
