//! C05 - C14: keys, encodings, tweaks, ECDH.

use super::ecdsa::{csecp, pt_ok};
use crate::conv::*;
use crate::gen::{self, *};
use crate::refm::*;
use crate::run::{Gen, Group, Obs, Res, Rg};
use crate::{ensure, same};
use libsecp256k1::curve::Scalar;
use libsecp256k1::{Error, Message, PublicKey, PublicKeyFormat, RecoveryId, SecretKey, SharedSecret, Signature};
use serde::{Deserialize, Serialize};
use std::convert::TryFrom;

fn valid_key(d: &U) -> bool {
    !d.is_zero() && *d < N
}
/// Zero stands for a key that was cleared after use.
fn sk_or_cleared(d: &U) -> Result<SecretKey, String> {
    if d.is_zero() {
        let mut k = sk(&U::from_u64(0xc1ea4))?;
        k.clear();
        Ok(k)
    } else {
        sk(d)
    }
}

// ------------------------------------------------------------ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KeyCase {
    d: U,
    e: U,
}
fn c05_gen(rg: &Rg) -> KeyCase {
    let d = seckey(rg);
    let e = match rg.below(4) {
        0 => FN.neg(&d),
        1 => FN.mul(&d, &LAMBDA),
        2 => FN.red(d.xor(&U::pow2(rg.idx(256)))),
        _ => FN.add(&d, &ONE),
    };
    KeyCase { d, e }
}
fn c05_check(c: &KeyCase, o: &mut Obs) -> Res {
    if !valid_key(&c.d) {
        return Ok(());
    }
    o.nt();
    let q = gmul(&c.d);
    let key = sk(&c.d)?;
    let p = PublicKey::from_secret_key(&key);
    same!(un_pk(&p), q, "public key of {:?}", c.d);
    same!(p.serialize(), q.full(), "65-byte form");
    same!(p.serialize_compressed(), q.compressed(), "33-byte form");
    let pb = PublicKey::from_secret_key_with_context(&key, boxed_gctx());
    ensure!(pb == p, "heap context gives {:?}", un_pk(&pb));
    same!(pb.serialize(), q.full(), "65-byte form, heap context");
    let ck = secp256k1::SecretKey::from_slice(&c.d.be()).map_err(|e| e.to_string())?;
    let cp = secp256k1::PublicKey::from_secret_key(csecp(), &ck);
    same!(p.serialize(), cp.serialize_uncompressed(), "C library");
    if valid_key(&c.e) && c.e != c.d {
        let p2 = PublicKey::from_secret_key(&sk(&c.e)?);
        ensure!(p2 != p, "keys {:?} and {:?} share a public key", c.d, c.e);
        ensure!(p2.serialize() != p.serialize(), "same bytes for two keys");
        o.label_if(c.e == FN.neg(&c.d), "negated pair");
    }
    Ok(())
}

// ------------------------------------------------------------ C06

/// A "digest" that returns exactly the 33 bytes it was fed, zero padded (up to 40),
/// followed by the number of bytes: makes the preimage observable.
#[derive(Clone, Default)]
pub struct Tape(Vec<u8>);
impl digest::Update for Tape {
    fn update(&mut self, d: impl AsRef<[u8]>) {
        self.0.extend_from_slice(d.as_ref());
    }
}
impl digest::Reset for Tape {
    fn reset(&mut self) {
        self.0.clear();
    }
}
impl digest::FixedOutput for Tape {
    type OutputSize = digest::generic_array::typenum::U41;
    fn finalize_into(self, out: &mut digest::generic_array::GenericArray<u8, Self::OutputSize>) {
        for (i, o) in out.iter_mut().enumerate() {
            *o = self.0.get(i).copied().unwrap_or(0);
        }
        out[40] = self.0.len() as u8;
    }
    fn finalize_into_reset(
        &mut self,
        out: &mut digest::generic_array::GenericArray<u8, Self::OutputSize>,
    ) {
        let t = std::mem::take(self);
        digest::FixedOutput::finalize_into(t, out)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DhCase {
    d: U,
    q: Pt,
    e: U, // when non-zero, q is replaced by e*G and the exchange is checked both ways
    route: u8,
}
pub fn const_scalar(rg: &Rg) -> U {
    // exceptional values of the constant-time recoding
    let d = U::from_u64(rg.below(20));
    match rg.below(8) {
        0 => half_order().wadd(&d),
        1 => half_order().wsub(&d),
        2 => N.wsub(&ONE).wsub(&d),
        3 => d.wadd(&ONE),
        4 => U::pow2(rg.idx(256)).wsub(&d),
        _ => seckey(rg),
    }
}
fn c06_gen(rg: &Rg) -> DhCase {
    let d = if rg.one_in(200) { ZERO } else { FN.red(const_scalar(rg)) };
    let both = rg.one_in(3);
    DhCase {
        d,
        q: if both {
            G
        } else if rg.one_in(4) {
            related(rg, &G)
        } else if rg.one_in(3) && !d.is_zero() {
            // the product is a special point
            point(rg).mul(&FN.inv(&d))
        } else {
            point(rg)
        },
        e: if both { FN.red(const_scalar(rg)) } else { ZERO },
        route: rg.below(REPRS) as u8,
    }
}
fn c06_check(c: &DhCase, o: &mut Obs) -> Res {
    use sha2::{Digest, Sha256, Sha512};
    if c.d >= N || c.e >= N || !pt_ok(&c.q) {
        return Ok(());
    }
    o.nt();
    if c.d.is_zero() {
        o.label("cleared secret key");
        let p = repr_pk(&c.q, c.route)?;
        let key = sk_or_cleared(&c.d)?;
        for r in [
            SharedSecret::<Sha256>::new(&p, &key),
            SharedSecret::<Sha256>::new_with_context(&p, &key, boxed_ctx()),
        ] {
            ensure!(
                matches!(r, Err(Error::InvalidSecretKey)),
                "ECDH with a cleared key: {:?}",
                r.map(|s| hex(s.as_ref()))
            );
        }
        return Ok(());
    }
    let both = !c.e.is_zero();
    let q = if both { gmul(&c.e) } else { c.q };
    let prod = q.mul(&c.d);
    let pre = prod.compressed();
    let key = sk(&c.d)?;
    let p = repr_pk(&q, c.route)?;
    let s = SharedSecret::<Sha256>::new(&p, &key).map_err(|e| format!("ECDH failed: {:?}", e))?;
    same!(hex(s.as_ref()), hex(&Sha256::digest(&pre)), "SHA-256 secret of {:?} * {:?}", c.d, q);
    let tape = SharedSecret::<Tape>::new(&p, &key).map_err(|e| format!("ECDH failed: {:?}", e))?;
    let mut want = pre.to_vec();
    want.resize(41, 0);
    want[40] = 33;
    same!(hex(tape.as_ref()), hex(&want), "digest input");
    match c.route % 3 {
        0 => {
            let s = SharedSecret::<Sha512>::new(&p, &key).map_err(|e| format!("{:?}", e))?;
            same!(hex(s.as_ref()), hex(&Sha512::digest(&pre)), "SHA-512 secret");
        }
        1 => {
            let s = SharedSecret::<sha2::Sha224>::new(&p, &key).map_err(|e| format!("{:?}", e))?;
            same!(hex(s.as_ref()), hex(&sha2::Sha224::digest(&pre)), "SHA-224 secret");
        }
        _ => {}
    }
    let b = SharedSecret::<Sha256>::new_with_context(&p, &key, boxed_ctx())
        .map_err(|e| format!("{:?}", e))?;
    ensure!(b.as_ref() == s.as_ref(), "heap context gives another secret");
    if both {
        o.label("both directions");
        let pd = PublicKey::from_secret_key(&key);
        let s2 = SharedSecret::<Sha256>::new(&pd, &sk(&c.e)?).map_err(|e| format!("{:?}", e))?;
        ensure!(s2.as_ref() == s.as_ref(), "the two parties disagree");
    }
    let cp = secp256k1::PublicKey::from_slice(&q.full()).map_err(|e| e.to_string())?;
    let ck = secp256k1::SecretKey::from_slice(&c.d.be()).map_err(|e| e.to_string())?;
    let cs = secp256k1::ecdh::SharedSecret::new(&cp, &ck);
    same!(hex(s.as_ref()), hex(&cs[..]), "C library");
    o.label_if(c.d > half_order(), "d above n/2");
    o.label_if(c.d.is_odd(), "d odd");
    Ok(())
}

// ------------------------------------------------------------ C07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ParseCase {
    b: Hx,
    fmt: u8,
}
fn c07_gen(rg: &Rg) -> ParseCase {
    let fmt = if rg.coin() { 0 } else { rg.below(4) as u8 };
    let p = point(rg);
    let mut b = match rg.below(6) {
        0 | 1 => p.full().to_vec(),
        2 | 3 => p.compressed().to_vec(),
        4 => p.full()[1..].to_vec(),
        _ => {
            let mut f = p.full().to_vec();
            f[0] = 6 + (p.y().is_odd() as u8);
            f
        }
    };
    match rg.below(16) {
        0..=3 => {}
        4 => b[0] = rg.u64() as u8,
        5 => b[0] = rg.pick(&[0, 2, 3, 4, 5, 6, 7, 8]),
        6 | 7 => mutate(rg, &mut b),
        8 => {
            // arbitrary coordinates, also at and beyond p
            let over = b.len() % 2;
            for ch in b[over..].chunks_mut(32) {
                if rg.coin() {
                    let d = U::from_u64(rg.below(1 << 34));
                    let v = match rg.below(6) {
                        0 => P.wadd(&d),
                        1 => P.wsub(&d),
                        2 => MAX.wsub(&d),
                        3 => P,
                        4 => N.wadd(&d),
                        _ => u256(rg),
                    };
                    ch.copy_from_slice(&v.be());
                }
            }
        }
        9 | 10 => {
            // a valid small coordinate written as itself + p
            let q = loop {
                // x < 2^256 - p
                let x = U::from_u64(rg.below(1 << 32));
                if let Some(q) = lift_x(&x, rg.coin()) {
                    break q;
                }
            };
            b = if rg.coin() { q.full().to_vec() } else { q.compressed().to_vec() };
            let x = q.x().wadd(&P);
            if rg.one_in(4) {
                // canonical twin, must parse
            } else {
                b[1..33].copy_from_slice(&x.be());
            }
        }
        11 => {
            // small y written as y + p
            let mut y = U::from_u64(rg.below(1 << 20));
            let q = loop {
                if let Some(x) = cbrt_p(&FP.sub(&FP.sqr(&y), &U::from_u64(7))) {
                    if on_curve(&x, &y) {
                        break Pt::A(x, y);
                    }
                }
                y = FP.add(&y, &ONE);
            };
            b = q.full().to_vec();
            if rg.coin() {
                b[33..].copy_from_slice(&q.y().wadd(&P).be());
                b[0] = rg.pick(&[4, 6, 7]);
            }
        }
        12 => {
            // not on the curve, but nearly: twist, b = 0, negated parts, swapped
            let (x, y) = (p.x(), p.y());
            let (x, y) = match rg.below(6) {
                0 => (y, x),
                1 => (x, FP.add(&y, &ONE)),
                2 => (FP.neg(&x), y),
                3 => (FP.mul(&x, &BETA), FP.neg(&y)), // still valid
                4 => {
                    // y^2 = x^3 + b' for another b'
                    let x = felem(rg);
                    let c = FP.add(&FP.mul(&FP.sqr(&x), &x), &U::from_u64(rg.below(8)));
                    (x, sqrt_p(&c).unwrap_or(ONE))
                }
                _ => (ZERO, ZERO),
            };
            b = vec![rg.pick(&[4, 4, 6, 7])];
            b.extend(x.be());
            b.extend(y.be());
            if rg.coin() {
                b.remove(0);
            }
        }
        13 => {
            // compressed with arbitrary x: half of them are non-residues
            b = vec![2 + rg.below(2) as u8];
            b.extend(felem(rg).be());
        }
        14 => {
            let k = rg.idx(4);
            for _ in 0..=k {
                mutate(rg, &mut b);
            }
        }
        _ => b = any_bytes(rg, 200, &[0, 33, 64, 65]),
    }
    if rg.one_in(80) {
        overlong(rg, &mut b);
    }
    ParseCase { b: Hx(b), fmt }
}
pub fn any_parse(rg: &Rg) -> (u8, Hx) {
    let c = c07_gen(rg);
    (c.fmt, c.b)
}
fn fmt_of(k: u8) -> (Option<PublicKeyFormat>, Option<usize>) {
    match k {
        1 => (Some(PublicKeyFormat::Compressed), Some(33)),
        2 => (Some(PublicKeyFormat::Raw), Some(64)),
        3 => (Some(PublicKeyFormat::Full), Some(65)),
        _ => (None, None),
    }
}
pub fn expect_parse(got: Result<PublicKey, Error>, want: &Result<Pt, bool>, what: &str) -> Res {
    match (got, want) {
        (Ok(k), Ok(p)) => {
            same!(un_pk(&k), *p, "{}", what);
            same!(k.serialize(), p.full(), "{} bytes", what);
            Ok(())
        }
        (Err(Error::InvalidInputLength), Err(true)) => Ok(()),
        (Err(Error::InvalidPublicKey), Err(false)) => Ok(()),
        (g, w) => Err(format!("{}: got {:?}, expected {:?} (Err(true) = length, Err(false) = key)", what, g.map(|k| un_pk(&k)), w)),
    }
}
fn c07_check(c: &ParseCase, o: &mut Obs) -> Res {
    let (f, len) = fmt_of(c.fmt);
    let b = &c.b.0;
    let want = parse_pubkey(b, len);
    match &want {
        Ok(_) => o.label("valid"),
        Err(true) => o.label("wrong length"),
        Err(false) => o.label("right length, invalid"),
    }
    if want != Err(true) {
        o.nt();
    }
    expect_parse(PublicKey::parse_slice(b, f), &want, &format!("parse_slice({}, {:?})", hex(b), len))?;
    if b.len() == 65 {
        let mut a = [0u8; 65];
        a.copy_from_slice(b);
        expect_parse(PublicKey::parse(&a), &parse_pubkey(b, None), &format!("parse({})", hex(b)))?;
    }
    if b.len() == 33 {
        let mut a = [0u8; 33];
        a.copy_from_slice(b);
        expect_parse(PublicKey::parse_compressed(&a), &parse_pubkey(b, None), &format!("parse_compressed({})", hex(b)))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AffCase {
    x: U,
    y: U,
    inf: bool,
    style: u32,
}
fn c07_aff_gen(rg: &Rg) -> AffCase {
    let p = point(rg);
    let (mut x, mut y) = (p.x(), p.y());
    match rg.below(6) {
        0 => y = FP.add(&y, &ONE),
        1 => x = FP.neg(&x),
        2 => {
            x = felem(rg);
            y = felem(rg);
        }
        _ => {}
    }
    AffCase { x, y, inf: rg.one_in(8), style: rg.u32() & 0xffffff }
}
fn c07_aff_check(c: &AffCase, o: &mut Obs) -> Res {
    if c.x >= P || c.y >= P || c.style > 0xffffff {
        return Ok(());
    }
    o.nt();
    let ok = !c.inf && on_curve(&c.x, &c.y);
    o.label(if ok { "valid" } else { "invalid" });
    let mut a = excess_aff(&Pt::A(c.x, c.y), c.style);
    a.infinity = c.inf;
    match (PublicKey::try_from(a), ok) {
        (Ok(k), true) => {
            same!(un_pk(&k), Pt::A(c.x, c.y), "key from affine");
            Ok(())
        }
        (Err(Error::InvalidAffine), false) => Ok(()),
        (g, _) => Err(format!("try_from({:?}): got {:?}", c, g.map(|k| un_pk(&k)))),
    }
}

// ------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum KOp {
    Add(U),
    Mul(U),
    Comb(Pt),
    Via(u8),
    Affine(u32),
    /// recover the key from a signature made for it: only while the key's scalar is known
    Recover(U),
    Serde(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChainCase {
    d: U, // starting scalar; zero: start at p with unknown scalar
    p: Pt,
    ops: Vec<KOp>,
}
fn c08_gen(rg: &Rg) -> ChainCase {
    let known = rg.coin();
    let d = if known { seckey(rg) } else { ZERO };
    let p = if known { gmul(&d) } else { point(rg) };
    let n = rg.range(1, 6);
    let mut cur = p;
    let ops = (0..n)
        .map(|_| match rg.below(12) {
            0 | 1 => {
                let t = seckey(rg);
                cur = cur.add(&gmul(&t));
                KOp::Add(t)
            }
            2 | 3 => {
                let t = seckey(rg);
                cur = cur.mul(&t);
                KOp::Mul(t)
            }
            4 => {
                let q = related(rg, &cur);
                cur = cur.add(&q);
                KOp::Comb(q)
            }
            10 | 11 => {
                // the sum is a special point
                let t = point(rg);
                let q = t.add(&cur.neg());
                cur = t;
                KOp::Comb(q)
            }
            5 => KOp::Via(rg.below(REPRS) as u8),
            6 => KOp::Affine(rg.u32() & 0xffffff),
            7 | 8 => KOp::Recover(seckey(rg)),
            _ => KOp::Serde(rg.coin()),
        })
        .collect();
    ChainCase { d, p, ops }
}
fn canonical(k: &PublicKey, p: &Pt, what: &str) -> Res {
    same!(hex(&k.serialize()), hex(&p.full()), "serialize {}", what);
    same!(hex(&k.serialize_compressed()), hex(&p.compressed()), "serialize_compressed {}", what);
    for how in [0u8, 1, 4] {
        let c = repr_pk(p, how)?;
        ensure!(c == *k && *k == c, "{}: not equal to the same point via route {}", what, how);
    }
    let neg = repr_pk(&p.neg(), 0)?;
    ensure!(neg != *k && *k != neg, "{}: equal to its negation", what);
    let e = repr_pk(&endo(p), 0)?;
    ensure!(e != *k && *k != e, "{}: equal to another point with the same y", what);
    // a point whose x differs in a single bit, picked by the point itself
    let from = p.x().be()[31] as usize;
    for i in 0..6 {
        let x = p.x().xor(&U::pow2((from + 41 * i) % 256));
        if let Some(q) = if x < P { lift_x(&x, p.y().is_odd()) } else { None } {
            let n = repr_pk(&q, 0)?;
            ensure!(n != *k && *k != n, "{}: equal to a point whose x differs in a bit", what);
            break;
        }
    }
    Ok(())
}
fn c08_check(c: &ChainCase, o: &mut Obs) -> Res {
    if c.d >= N || !pt_ok(&c.p) {
        return Ok(());
    }
    let mut d = if c.d.is_zero() { None } else { Some(c.d) };
    let (mut k, mut p) = match d {
        Some(d) => (PublicKey::from_secret_key(&sk(&d)?), gmul(&d)),
        None => (repr_pk(&c.p, 1)?, c.p),
    };
    canonical(&k, &p, "start")?;
    let mut done = 0;
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            KOp::Add(t) if valid_key(t) => {
                let np = p.add(&gmul(t));
                if np.is_inf() {
                    continue;
                }
                k.tweak_add_assign(&sk(t)?).map_err(|e| format!("tweak add: {:?}", e))?;
                p = np;
                d = d.map(|d| FN.add(&d, t));
            }
            KOp::Mul(t) if valid_key(t) => {
                k.tweak_mul_assign(&sk(t)?).map_err(|e| format!("tweak mul: {:?}", e))?;
                p = p.mul(t);
                d = d.map(|d| FN.mul(&d, t));
            }
            KOp::Comb(q) if pt_ok(q) => {
                let np = p.add(q);
                if np.is_inf() {
                    continue;
                }
                k = PublicKey::combine(&[k, repr_pk(q, i as u8)?]).map_err(|e| format!("combine: {:?}", e))?;
                p = np;
                d = None;
            }
            KOp::Via(r) => {
                k = match r % 3 {
                    0 => PublicKey::parse(&k.serialize()).map_err(|e| format!("reparse: {:?}", e))?,
                    1 => PublicKey::parse_compressed(&k.serialize_compressed()).map_err(|e| format!("reparse: {:?}", e))?,
                    _ => repr_pk(&p, *r)?,
                };
            }
            KOp::Affine(style) if *style <= 0xffffff => {
                k = PublicKey::try_from(excess_aff(&p, *style)).map_err(|e| format!("affine: {:?}", e))?;
            }
            KOp::Recover(n) if valid_key(n) => {
                if let Some(dd) = d {
                    let z = FN.mul(n, n);
                    if let Some((r, s, id)) = ecdsa_sign_k(&dd, &z, n) {
                        k = libsecp256k1::recover(&msg(&z), &sig(&r, &s), &rid(id)?)
                            .map_err(|e| format!("recover: {:?}", e))?;
                        o.label("recovered");
                    }
                }
            }
            KOp::Serde(json) => {
                k = if *json {
                    let t = serde_json::to_string(&k).map_err(|e| e.to_string())?;
                    serde_json::from_str(&t).map_err(|e| e.to_string())?
                } else {
                    let t = bincode::serialize(&k).map_err(|e| e.to_string())?;
                    bincode::deserialize(&t).map_err(|e| e.to_string())?
                };
            }
            _ => continue,
        }
        done += 1;
        canonical(&k, &p, &format!("after step {} {:?}", i, op))?;
    }
    if done > 0 {
        o.nt();
    }
    Ok(())
}

/// Two points that agree except in a short range of bits of one coordinate.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PairCase {
    p: Pt,
    q: Pt,
}
fn c08_pair_gen(rg: &Rg) -> PairCase {
    // both x have the same y iff they differ by a factor BETA: x * (BETA - 1) = difference
    let inv = FP.inv(&FP.sub(&BETA, &ONE));
    loop {
        let k = if rg.coin() { 26 * rg.below(10) } else { rg.below(256) } as usize;
        let width = rg.range(1, 26.min(256 - k as u64).max(2)) as usize;
        let t = U::from_u64(1 + rg.below((1u64 << width) - 1));
        let diff = FP.mul(&FP.red(t), &FP.red(U::pow2(k)));
        let x = FP.mul(&FP.red(diff), &inv);
        if let Some(p) = lift_x(&x, rg.coin()) {
            return PairCase { p, q: endo(&p) };
        }
    }
}
fn c08_pair_check(c: &PairCase, o: &mut Obs) -> Res {
    if !pt_ok(&c.p) || !pt_ok(&c.q) {
        return Ok(());
    }
    let same = c.p == c.q;
    let d = c.p.x().xor(&c.q.x());
    o.label_if(d.0.iter().filter(|w| **w != 0).count() == 1, "x differ in one 64-bit word");
    o.nt();
    for (i, j) in [(0u8, 1u8), (1, 4), (4, 0)] {
        let (a, b) = (repr_pk(&c.p, i)?, repr_pk(&c.q, j)?);
        same!((a == b, b == a), (same, same), "{:?} == {:?}", c.p, c.q);
        same!(a.serialize() == b.serialize(), same, "encodings of {:?} and {:?} agree", c.p, c.q);
        same!(a.serialize_compressed() == b.serialize_compressed(), same, "short encodings of {:?} and {:?} agree", c.p, c.q);
    }
    Ok(())
}

// ------------------------------------------------------------ C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SerdeCase {
    Key(Pt, u8),
    /// a JSON document
    Json(String),
    /// the bytes of a bincode byte string
    Bin(Hx),
    /// a whole bincode stream
    BinRaw(Hx),
}
fn c09_gen(rg: &Rg) -> SerdeCase {
    let payload = |rg: &Rg| -> Vec<u8> { c07_gen(rg).b.0 };
    match rg.below(8) {
        0 | 1 => SerdeCase::Key(point(rg), rg.below(REPRS) as u8),
        2 | 3 => SerdeCase::Json(format!("\"{}\"", b64enc(&payload(rg)))),
        4 | 5 => {
            // damaged base64 or JSON
            let good = point(rg);
            let mut s = b64enc(&match rg.below(3) {
                0 => good.full().to_vec(),
                1 => good.compressed().to_vec(),
                _ => good.full()[1..].to_vec(),
            });
            match rg.below(9) {
                0 => {
                    s.truncate(rg.idx(s.len()));
                }
                1 => {
                    let i = rg.idx(s.len());
                    let ch = rg.pick(&['-', '_', '=', ' ', '\t', '*', 'A', '/', 'é', '\u{0}']);
                    let mut c: Vec<char> = s.chars().collect();
                    c[i] = ch;
                    s = c.into_iter().collect();
                }
                2 => {
                    let i = rg.idx(s.len() + 1);
                    let ins = rg.pick(&["=", "A", " ", "==", "\\n", "AAAA"]);
                    s.insert_str(i, ins);
                }
                3 => s = s.trim_end_matches('=').to_string(),
                4 => {
                    // non-zero trailing bits
                    if let Some(p) = s.find('=') {
                        let b = s.as_bytes()[p - 1];
                        let al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
                        let i = al.bytes().position(|x| x == b).unwrap_or(0);
                        let r = &al[(i ^ 1)..(i ^ 1) + 1];
                        s.replace_range(p - 1..p, r);
                    }
                }
                5 => s = s.replace('+', "-").replace('/', "_"),
                6 => s.push('='),
                7 => s = hex(&good.full()),
                _ => {}
            }
            let q: String = serde_json::to_string(&s).unwrap();
            SerdeCase::Json(match rg.below(8) {
                0 => format!("[{}]", q),
                1 => format!("{{\"a\":{}}}", q),
                2 => rg.pick(&["null", "0", "true", "[]", "{}", "\"\"", "[4,1,2]", ""]).to_string(),
                3 => {
                    let v: Vec<u8> = good.full().to_vec();
                    serde_json::to_string(&v).unwrap()
                }
                _ => q,
            })
        }
        6 => SerdeCase::Bin(Hx(payload(rg))),
        _ => {
            let p = payload(rg);
            let mut v = (p.len() as u64).to_le_bytes().to_vec();
            v.extend(p);
            for _ in 0..rg.below(3) {
                mutate(rg, &mut v);
            }
            SerdeCase::BinRaw(Hx(v))
        }
    }
}
fn expect_serde<E: std::fmt::Debug>(got: Result<PublicKey, E>, want: Option<Pt>, what: &str) -> Res {
    match (got, want) {
        (Ok(k), Some(p)) => {
            same!(un_pk(&k), p, "{}", what);
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (g, w) => Err(format!("{}: got {:?}, expected {:?}", what, g.map(|k| un_pk(&k)), w)),
    }
}
fn c09_check(c: &SerdeCase, o: &mut Obs) -> Res {
    match c {
        SerdeCase::Key(p, route) => {
            if !pt_ok(p) {
                return Ok(());
            }
            o.nt();
            o.label("round trip");
            let k = repr_pk(p, *route)?;
            let j = serde_json::to_string(&k).map_err(|e| e.to_string())?;
            same!(j, format!("\"{}\"", b64enc(&p.full())), "JSON of {:?}", p);
            let b = bincode::serialize(&k).map_err(|e| e.to_string())?;
            let mut want = 65u64.to_le_bytes().to_vec();
            want.extend(p.full());
            same!(hex(&b), hex(&want), "bincode of {:?}", p);
            expect_serde(serde_json::from_str(&j), Some(*p), "from_str")?;
            expect_serde(serde_json::from_slice(j.as_bytes()), Some(*p), "from_slice")?;
            expect_serde(serde_json::from_reader(j.as_bytes()), Some(*p), "from_reader")?;
            let v = serde_json::to_value(&k).map_err(|e| e.to_string())?;
            expect_serde(serde_json::from_value(v), Some(*p), "from_value")?;
            expect_serde(bincode::deserialize(&b), Some(*p), "bincode slice")?;
            expect_serde(bincode::deserialize_from(&b[..]), Some(*p), "bincode reader")?;
            // inside a larger structure
            let pair = (k, vec![k]);
            let b = bincode::serialize(&pair).map_err(|e| e.to_string())?;
            let back: (PublicKey, Vec<PublicKey>) = bincode::deserialize(&b).map_err(|e| e.to_string())?;
            ensure!(back.0 == k && back.1 == vec![k], "nested bincode");
        }
        SerdeCase::Json(doc) => {
            let want = serde_json::from_str::<String>(doc)
                .ok()
                .and_then(|s| b64dec(&s))
                .and_then(|b| parse_pubkey(&b, None).ok());
            o.label(if want.is_some() { "valid JSON form" } else { "invalid JSON form" });
            if doc.len() > 40 {
                o.nt();
            }
            expect_serde(serde_json::from_str(doc), want, &format!("from_str({})", doc))?;
            expect_serde(serde_json::from_reader(doc.as_bytes()), want, &format!("from_reader({})", doc))?;
        }
        SerdeCase::Bin(b) => {
            o.nt();
            let mut v = (b.0.len() as u64).to_le_bytes().to_vec();
            v.extend(&b.0);
            let want = parse_pubkey(&b.0, None).ok();
            o.label(if want.is_some() { "valid binary form" } else { "invalid binary form" });
            expect_serde(bincode::deserialize(&v), want, &format!("bincode({})", hex(&v)))?;
            expect_serde(bincode::deserialize_from(&v[..]), want, &format!("bincode reader({})", hex(&v)))?;
        }
        SerdeCase::BinRaw(v) => {
            // bincode's own framing: 8-byte little-endian length, trailing bytes allowed
            let v = &v.0;
            let want = if v.len() < 8 {
                None
            } else {
                let mut l = [0u8; 8];
                l.copy_from_slice(&v[..8]);
                let l = u64::from_le_bytes(l);
                if l > 10_000 {
                    return Ok(()); // would ask bincode for a huge buffer
                }
                let rest = &v[8..];
                if (l as usize) > rest.len() {
                    None
                } else {
                    parse_pubkey(&rest[..l as usize], None).ok()
                }
            };
            o.nt();
            expect_serde(bincode::deserialize(v), want, &format!("bincode stream {}", hex(v)))?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BytesCase {
    b: Hx,
}
fn near_n_bytes(rg: &Rg) -> U {
    let d = gen::random(rg).shr(130 + rg.idx(126));
    match rg.below(8) {
        0 => N,
        1 => N.wsub(&ONE),
        2 => N.wadd(&ONE),
        3 => N.wadd(&d),
        4 => N.wsub(&d),
        5 => {
            // limbs of n, one changed
            let mut l = N.limbs32();
            let i = rg.idx(8);
            l[i] = rg.pick(&[l[i].wrapping_add(1), l[i].wrapping_sub(1), 0, u32::MAX]);
            for x in l.iter_mut().take(i) {
                if rg.coin() {
                    *x = rg.u32();
                }
            }
            U::from_limbs32(&l)
        }
        6 => rg.pick(&[ZERO, ONE, MAX, P, P.wsub(&ONE)]),
        _ => u256(rg),
    }
}
fn c10_gen(rg: &Rg) -> BytesCase {
    let b = if rg.one_in(8) {
        any_bytes(rg, 100, &[32])
    } else {
        let mut b = near_n_bytes(rg).be().to_vec();
        if rg.one_in(16) {
            mutate(rg, &mut b);
        } else if rg.one_in(100) {
            overlong(rg, &mut b);
        }
        b
    };
    BytesCase { b: Hx(b) }
}
fn c10_check(c: &BytesCase, o: &mut Obs) -> Res {
    let b = &c.b.0;
    let got = SecretKey::parse_slice(b);
    if b.len() != 32 {
        o.label("wrong length");
        return match got {
            Err(Error::InvalidInputLength) => Ok(()),
            g => Err(format!("parse_slice({}): {:?}", hex(b), g.map(|k| hex(&k.serialize())))),
        };
    }
    o.nt();
    let v = U::from_slice(b);
    let a = v.be();
    let ok = valid_key(&v);
    o.label(if ok { "valid" } else { "out of range" });
    let got2 = SecretKey::parse(&a);
    ensure!(got == got2, "parse and parse_slice differ on {}", hex(b));
    match (got, ok) {
        (Ok(k), true) => {
            same!(hex(&k.serialize()), hex(b), "serialize after parse");
            same!(format!("{:x}", k), hex(b), "hex format");
            same!(format!("{:#x}", k).trim_start_matches("0x").to_string(), hex(b).trim_start_matches("0x").to_string(), "hex format, alternate form");
            let s: Scalar = k.into();
            same!(un_sc(&s), v, "scalar of the key");
            same!(format!("{:x}", s), hex(b), "hex format of the scalar");
            ensure!(!k.is_zero(), "is_zero on a valid key");
            let k2 = SecretKey::try_from(s).map_err(|e| format!("try_from: {:?}", e))?;
            ensure!(k2 == k, "scalar round trip");
            let other = FN.add(&v, &U::pow2(v.0[0] as usize % 255));
            if valid_key(&other) {
                ensure!(sk(&other)? != k, "different keys compare equal");
            }
        }
        (Err(Error::InvalidSecretKey), false) => {}
        (g, _) => return Err(format!("parse({}): {:?}", hex(b), g.map(|k| hex(&k.serialize())))),
    }
    // any canonical scalar converts unless zero
    let r = FN.red(v);
    match SecretKey::try_from(sc(&r)) {
        Ok(k) if !r.is_zero() => same!(hex(&k.serialize()), hex(&r.be()), "key from scalar"),
        Err(Error::InvalidSecretKey) if r.is_zero() => {}
        g => return Err(format!("try_from({:?}): {:?}", r, g.map(|k| hex(&k.serialize())))),
    }
    same!(hex(&SecretKey::default().serialize()), hex(&ONE.be()), "default key");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RandCase {
    draws: Vec<U>,
    tail: U,
    /// the generator has no more than this many bytes and then fails, which `fill_bytes`
    /// reports by a panic and `try_fill_bytes` by an error
    #[serde(default)]
    limit: Option<usize>,
}
fn c10_rand_gen(rg: &Rg) -> RandCase {
    let k = if rg.one_in(100) { rg.below(300) } else { rg.below(5) };
    let draws = (0..k)
        .map(|_| match rg.below(3) {
            0 => ZERO,
            1 => N.wadd(&U::from_u64(rg.below(3))),
            _ => MAX.wsub(&gen::random(rg).shr(129)),
        })
        .chain(std::iter::once(near_n_bytes(rg)))
        .collect();
    let limit = if rg.one_in(8) { Some(rg.below(32 * k + 34) as usize) } else { None };
    RandCase { draws, tail: seckey(rg), limit }
}
/// A generator whose output stream is the concatenation of the draws.
struct Script {
    stream: Vec<u8>,
    pos: usize,
    tail: Vec<u8>,
    limit: Option<usize>,
}
impl Script {
    fn byte(&mut self) -> u8 {
        let b = if self.pos < self.stream.len() {
            self.stream[self.pos]
        } else {
            self.tail[(self.pos - self.stream.len()) % 32]
        };
        self.pos += 1;
        b
    }
}
impl rand::RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.try_fill_bytes(d).expect("the generator failed")
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        for x in d.iter_mut() {
            if self.limit.map_or(false, |l| self.pos >= l) {
                return Err(rand::Error::from(std::num::NonZeroU32::new(0xdead).unwrap()));
            }
            *x = self.byte();
        }
        Ok(())
    }
}
fn c10_rand_check(c: &RandCase, o: &mut Obs) -> Res {
    if !valid_key(&c.tail) {
        return Ok(());
    }
    let mut s = Script { stream: vec![], pos: 0, tail: c.tail.be().to_vec(), limit: c.limit };
    for d in &c.draws {
        s.stream.extend(d.be());
    }
    let (i, want) = c
        .draws
        .iter()
        .enumerate()
        .find(|(_, d)| valid_key(d))
        .map(|(i, d)| (i, *d))
        .unwrap_or((c.draws.len(), c.tail));
    o.label_if(i > 0, "invalid draws skipped");
    if i > 0 {
        o.nt();
    }
    if c.limit.map_or(false, |l| l < 32 * (i + 1)) {
        // there is no valid draw before it fails: there must not be a key
        o.label("failing generator");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| SecretKey::random(&mut s)));
        ensure!(r.is_err(), "a key from a failing generator: {}", r.map(|k| hex(&k.serialize())).unwrap_or_default());
        return Ok(());
    }
    let k = SecretKey::random(&mut s);
    same!(hex(&k.serialize()), hex(&want.be()), "random() from {:?}", c.draws);
    same!(s.pos, 32 * (i + 1), "bytes drawn");
    Ok(())
}

// ------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    Add(U),
    Mul(U),
    Inv,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SecCase {
    d: U,
    ops: Vec<SOp>,
}
fn tweak_for(rg: &Rg, d: &U) -> U {
    if rg.one_in(60) {
        return ZERO; // a cleared key
    }
    let k = U::from_u64(rg.below(4));
    let t = match rg.below(8) {
        0 => FN.neg(d),
        1 => FN.sub(&k, d),          // sum = k
        2 => FN.sub(&FN.neg(&k), d), // sum = n - k
        3 => *d,
        4 => FN.inv(d),
        _ => seckey(rg),
    };
    if t.is_zero() {
        ONE
    } else {
        t
    }
}
fn c11_gen(rg: &Rg) -> SecCase {
    let d = seckey(rg);
    let mut cur = d;
    let n = if rg.one_in(200) { rg.range(20, 300) } else { rg.range(1, 8) };
    let mut ops = vec![];
    for _ in 0..n {
        match rg.below(5) {
            0 | 1 => {
                let t = tweak_for(rg, &cur);
                let s = FN.add(&cur, &t);
                if !s.is_zero() {
                    cur = s;
                }
                ops.push(SOp::Add(t));
            }
            2 | 3 => {
                let t = if rg.coin() {
                    // the product is an edge value
                    FN.mul(&seckey(rg), &FN.inv(&cur))
                } else {
                    tweak_for(rg, &cur)
                };
                if !t.is_zero() {
                    cur = FN.mul(&cur, &t);
                }
                ops.push(SOp::Mul(t));
            }
            _ => {
                cur = FN.inv(&cur);
                ops.push(SOp::Inv);
            }
        }
    }
    SecCase { d, ops }
}
fn c11_check(c: &SecCase, o: &mut Obs) -> Res {
    if !valid_key(&c.d) {
        return Ok(());
    }
    let mut k = sk(&c.d)?;
    let mut v = c.d;
    for (i, op) in c.ops.iter().enumerate() {
        o.nt();
        match op {
            SOp::Add(t) => {
                if *t >= N {
                    continue;
                }
                o.label_if(t.is_zero(), "cleared tweak");
                let tk = sk_or_cleared(t)?;
                let (raw, cy) = v.adc(t);
                o.label_if(cy, "sum carries out of 256 bits");
                o.label_if(!cy && raw >= N, "sum in [n, 2^256)");
                let s = FN.add(&v, t);
                match (k.tweak_add_assign(&tk), s.is_zero()) {
                    (Ok(()), false) => v = s,
                    (Err(Error::TweakOutOfRange), true) => o.label("cancelling tweak"),
                    (g, _) => return Err(format!("step {}: {:?} + {:?}: {:?}", i, v, t, g)),
                }
                same!(hex(&tk.serialize()), hex(&t.be()), "tweak after use");
            }
            SOp::Mul(t) => {
                if *t >= N {
                    continue;
                }
                let r = k.tweak_mul_assign(&sk_or_cleared(t)?);
                if t.is_zero() {
                    o.label("cleared tweak");
                    same!(r, Err(Error::TweakOutOfRange), "step {}: {:?} times a cleared key", i, v);
                } else {
                    ensure!(r.is_ok(), "step {}: {:?} * {:?}: {:?}", i, v, t, r);
                    v = FN.mul(&v, t);
                }
            }
            SOp::Inv => {
                let inv = k.inv();
                let mut one = inv;
                ensure!(one.tweak_mul_assign(&k).is_ok(), "inverse times key");
                same!(hex(&one.serialize()), hex(&ONE.be()), "inverse of {:?} times it", v);
                same!(hex(&k.serialize()), hex(&v.be()), "key after inv");
                k = inv;
                v = FN.inv(&v);
            }
        }
        same!(hex(&k.serialize()), hex(&v.be()), "key after step {} {:?}", i, op);
        ensure!(k == sk(&v)?, "key after step {} compares unequal", i);
    }
    Ok(())
}

// ------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TweakCase {
    d: U, // zero: p has no known scalar
    p: Pt,
    route: u8,
    boxed: bool,
    ops: Vec<(bool, U)>, // (mul?, tweak)
}
fn c12_gen(rg: &Rg) -> TweakCase {
    let known = rg.below(3) > 0;
    let d = if known { seckey(rg) } else { ZERO };
    if !known && rg.one_in(3) {
        // the result is a special point
        let (mul, t, want) = (rg.coin(), seckey(rg), point(rg));
        let p = if mul { want.mul(&FN.inv(&t)) } else { want.add(&gmul(&t).neg()) };
        if !p.is_inf() {
            return TweakCase { d, p, route: rg.below(REPRS) as u8, boxed: rg.one_in(4), ops: vec![(mul, t)] };
        }
    }
    let p = if known { gmul(&d) } else { point(rg) };
    let n = if rg.one_in(200) { rg.range(20, 60) } else { rg.range(1, 4) };
    let mut cur = d;
    let ops = (0..n)
        .map(|_| {
            let mul = rg.below(5) < 2;
            let t = if known { tweak_for(rg, &cur) } else { seckey(rg) };
            if mul {
                if !t.is_zero() {
                    cur = FN.mul(&cur, &t);
                }
            } else {
                let s = FN.add(&cur, &t);
                if !s.is_zero() {
                    cur = s;
                }
            }
            (mul, t)
        })
        .collect();
    TweakCase { d, p, route: rg.below(REPRS) as u8, boxed: rg.one_in(4), ops }
}
fn c12_check(c: &TweakCase, o: &mut Obs) -> Res {
    if c.d >= N || !pt_ok(&c.p) {
        return Ok(());
    }
    let mut secret = if c.d.is_zero() { None } else { Some(sk(&c.d)?) };
    let mut p = if c.d.is_zero() { c.p } else { gmul(&c.d) };
    let mut k = repr_pk(&p, c.route)?;
    let cx = if c.boxed { boxed_ctx() } else { ctx() };
    for (i, (mul, t)) in c.ops.iter().enumerate() {
        if *t >= N {
            continue;
        }
        o.nt();
        o.label_if(t.is_zero(), "cleared tweak");
        let tk = sk_or_cleared(t)?;
        let before = k.serialize();
        let want = if *mul { p.mul(t) } else { p.add(&gmul(t)) };
        let got = match (*mul, c.boxed) {
            (true, true) => k.tweak_mul_assign_with_context(&tk, cx),
            (true, false) => k.tweak_mul_assign(&tk),
            (false, true) => k.tweak_add_assign_with_context(&tk, cx),
            (false, false) => k.tweak_add_assign(&tk),
        };
        o.label_if(!*mul && gmul(t) == p, "tweak point equals key");
        match (got, want) {
            (Ok(()), Pt::A(..)) => p = want,
            (Err(Error::TweakOutOfRange), Pt::Inf) => {
                o.label_if(!t.is_zero(), "cancelling tweak");
                same!(hex(&k.serialize()), hex(&before), "key after a failed tweak");
            }
            (g, w) => return Err(format!("step {}: {:?} tweaked by {:?} (mul {}): {:?}, expected {:?}", i, p, t, mul, g, w)),
        }
        same!(un_pk(&k), p, "step {} (mul {}) by {:?}", i, mul, t);
        same!(hex(&k.serialize()), hex(&p.full()), "bytes after step {}", i);
        if let Some(s) = secret.as_mut() {
            let r = if *mul { s.tweak_mul_assign(&tk) } else { s.tweak_add_assign(&tk) };
            ensure!(r.is_ok() == got.is_ok(), "secret and public tweak disagree: {:?} {:?}", r, got);
            let q = PublicKey::from_secret_key(s);
            ensure!(q == k, "public key of tweaked secret differs after step {}", i);
            same!(q.serialize_compressed(), k.serialize_compressed(), "bytes of both keys");
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CombCase {
    pts: Vec<(Pt, u8)>,
    rot: u8,
    split: u8,
}
fn c13_gen(rg: &Rg) -> CombCase {
    let n = match rg.below(16) {
        0 => 0,
        1 => 1,
        2..=7 => 2,
        _ => rg.range(3, 8),
    };
    let mut pts: Vec<(Pt, u8)> = vec![];
    let mut sum = Pt::Inf;
    for _ in 0..n {
        let p = match (rg.below(4), sum) {
            // in a special relation to the running sum
            (0, s @ Pt::A(..)) => related(rg, &s),
            // in a special relation to an earlier key
            (1, _) if !pts.is_empty() => {
                let b = pts[rg.idx(pts.len())].0;
                related(rg, &b)
            }
            _ => point(rg),
        };
        sum = sum.add(&p);
        let route = if rg.coin() { 0 } else { rg.below(8) as u8 };
        pts.push((p, route));
    }
    match (rg.below(6), sum) {
        (0, Pt::A(..)) => pts.push((sum.neg(), 0)),
        (1, _) => {
            // the sum is a special point
            let last = point(rg).add(&sum.neg());
            if !last.is_inf() {
                pts.push((last, rg.below(8) as u8));
            }
        }
        _ => {}
    }
    CombCase { pts, rot: rg.u64() as u8, split: rg.u64() as u8 }
}
fn c13_check(c: &CombCase, o: &mut Obs) -> Res {
    if c.pts.iter().any(|p| !pt_ok(&p.0)) {
        return Ok(());
    }
    let mut keys = vec![];
    let mut sum = Pt::Inf;
    for (p, r) in &c.pts {
        keys.push(repr_pk(p, *r)?);
        if !sum.is_inf() {
            o.label_if(sum == *p, "running sum equals next key");
            o.label_if(sum == p.neg(), "running sum cancels");
            o.label_if(sum == endo(p).neg() || sum == endo(&endo(p)).neg(), "degenerate pair");
        } else if keys.len() > 1 {
            o.label("adding to an infinite running sum");
        }
        sum = sum.add(p);
    }
    if c.pts.len() >= 2 {
        o.nt();
    }
    o.label_if(sum.is_inf(), "sum infinite");
    let expect = |ks: &[PublicKey], what: &str| -> Res {
        match (PublicKey::combine(ks), sum) {
            (Ok(k), Pt::A(..)) => {
                same!(un_pk(&k), sum, "combine {} of {:?}", what, c.pts);
                same!(hex(&k.serialize()), hex(&sum.full()), "bytes, {}", what);
                Ok(())
            }
            (Err(Error::InvalidPublicKey), Pt::Inf) => Ok(()),
            (g, w) => Err(format!("combine {} of {:?}: {:?}, expected {:?}", what, c.pts, g.map(|k| un_pk(&k)), w)),
        }
    };
    expect(&keys, "in order")?;
    if keys.len() > 1 {
        let mut rev = keys.clone();
        rev.reverse();
        expect(&rev, "reversed")?;
        let mut rot = keys.clone();
        rot.rotate_left(c.rot as usize % keys.len());
        expect(&rot, "rotated")?;
        let at = 1 + c.split as usize % (keys.len() - 1).max(1);
        let (a, b) = keys.split_at(at.min(keys.len()));
        if let (Ok(x), Ok(y)) = (PublicKey::combine(a), PublicKey::combine(b)) {
            expect(&[x, y], "grouped")?;
        }
    }
    Ok(())
}

/// Lists too long to compare every partial sum: keys come from a small set, so sums
/// meet, repeat and cancel.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongCase {
    base: Vec<(Pt, u8)>,
    /// (index into base, negated, times)
    runs: Vec<(u8, bool, u16)>,
}
fn long_gen(rg: &Rg) -> LongCase {
    let base: Vec<(Pt, u8)> = (0..rg.range(1, 5)).map(|_| (point(rg), rg.below(8) as u8)).collect();
    let mut left = rg.pick(&[9u64, 17, 33, 65, 130, 257, 300, 600]);
    let mut runs = vec![];
    while left > 0 {
        let t = 1 + rg.below(rg.pick(&[1, 2, 8, 300]).min(left));
        left -= t;
        runs.push((rg.u64() as u8, rg.one_in(3), t as u16));
    }
    if rg.one_in(4) {
        // everything cancels, or all but the last key does
        let mut back: Vec<(u8, bool, u16)> = runs.iter().map(|r| (r.0, !r.1, r.2)).collect();
        if rg.coin() {
            back.reverse();
        }
        runs.extend(back);
        if rg.coin() {
            runs.push((rg.u64() as u8, false, 1));
        }
    }
    LongCase { base, runs }
}
/// More keys than 16 bits can count.
fn huge_cases(_: bool) -> Vec<LongCase> {
    let p = |k: u64| G.mul(&U::from_u64(k));
    vec![
        LongCase { base: vec![(p(1), 0)], runs: vec![(0, false, 65535)] },
        LongCase { base: vec![(p(1), 0)], runs: vec![(0, false, 65535), (0, false, 1)] },
        LongCase { base: vec![(p(1), 0), (p(7), 1)], runs: vec![(0, false, 65535), (1, false, 300)] },
        LongCase { base: vec![(p(5), 0), (p(3), 2)], runs: vec![(0, false, 40000), (0, true, 40000), (1, false, 1)] },
        LongCase { base: vec![(p(5), 0)], runs: vec![(0, false, 40000), (0, true, 40000)] },
    ]
}
fn long_check(c: &LongCase, o: &mut Obs) -> Res {
    if c.base.is_empty() || c.base.iter().any(|p| !pt_ok(&p.0)) {
        return Ok(());
    }
    if c.runs.len() > 10_000 {
        return Ok(());
    }
    let mut keys = vec![];
    let mut sum = Pt::Inf;
    for (i, negated, times) in &c.runs {
        let (p, route) = &c.base[*i as usize % c.base.len()];
        let p = if *negated { p.neg() } else { *p };
        let k = repr_pk(&p, *route)?;
        for _ in 0..*times {
            keys.push(k);
        }
        sum = sum.add(&p.mul(&U::from_u64(*times as u64)));
    }
    if keys.len() > 8 {
        o.nt();
    }
    o.label_if(keys.len() >= 256, "256 keys or more");
    o.label_if(sum.is_inf(), "sum infinite");
    for what in ["in order", "reversed"] {
        match (PublicKey::combine(&keys), sum) {
            (Ok(k), Pt::A(..)) => {
                same!(un_pk(&k), sum, "sum of {} keys {}", keys.len(), what);
                same!(hex(&k.serialize()), hex(&sum.full()), "bytes, {}", what);
            }
            (Err(Error::InvalidPublicKey), Pt::Inf) => {}
            (g, w) => return Err(format!("sum of {} keys {}: {:?}, expected {:?}", keys.len(), what, g.map(|k| un_pk(&k)), w)),
        }
        keys.reverse();
    }
    Ok(())
}

// ------------------------------------------------------------ C14

fn c14_gen(rg: &Rg) -> BytesCase {
    let mut b = match rg.below(8) {
        0 => any_bytes(rg, 130, &[32, 64]),
        1 => near_n_bytes(rg).be().to_vec(),
        2 => vec![rg.u64() as u8],
        _ => {
            let mut b = near_n_bytes(rg).be().to_vec();
            b.extend(near_n_bytes(rg).be());
            b
        }
    };
    if rg.one_in(80) {
        overlong(rg, &mut b);
    }
    BytesCase { b: Hx(b) }
}
fn c14_check(c: &BytesCase, o: &mut Obs) -> Res {
    let b = &c.b.0;
    let (st, ov, ms) = (
        Signature::parse_standard_slice(b),
        Signature::parse_overflowing_slice(b),
        Message::parse_slice(b),
    );
    if b.len() != 64 {
        same!(st, Err(Error::InvalidInputLength), "parse_standard_slice({})", hex(b));
        same!(ov, Err(Error::InvalidInputLength), "parse_overflowing_slice({})", hex(b));
    } else {
        o.nt();
        let (r, s) = (U::from_slice(&b[..32]), U::from_slice(&b[32..]));
        let ok = r < N && s < N;
        o.label(if ok { "standard signature" } else { "overflowing signature" });
        o.label_if((r >= N) != (s >= N), "exactly one half overflows");
        let mut a = [0u8; 64];
        a.copy_from_slice(b);
        same!(Signature::parse_standard(&a), st, "array and slice forms");
        match st {
            Ok(g) if ok => {
                same!(un_sig(&g), (r, s), "parse_standard");
                same!(hex(&g.serialize()), hex(b), "serialize");
            }
            Err(Error::InvalidSignature) if !ok => {}
            g => return Err(format!("parse_standard({}): {:?}", hex(b), g.map(|g| un_sig(&g)))),
        }
        let g = ov.map_err(|e| format!("parse_overflowing({}): {:?}", hex(b), e))?;
        same!(un_sig(&g), (FN.red(r), FN.red(s)), "parse_overflowing({})", hex(b));
        same!(Signature::parse_overflowing(&a), g, "array and slice forms");
        let mut want = FN.red(r).be().to_vec();
        want.extend(FN.red(s).be());
        same!(hex(&g.serialize()), hex(&want), "serialize");
        // equal exactly to what is the same; `near` differs from r or s in one bit
        let bit = U::pow2(b[63] as usize);
        for (r2, s2) in [(FN.red(r), FN.red(s.xor(&bit))), (FN.red(r.xor(&bit)), FN.red(s)), (FN.red(s), FN.red(r))] {
            let h = sig(&r2, &s2);
            let eq = (r2, s2) == (FN.red(r), FN.red(s));
            same!((g == h, h == g, g != h), (eq, eq, !eq), "equality of {} and {}", hex(&g.serialize()), hex(&h.serialize()));
        }
    }
    if b.len() != 32 {
        same!(ms, Err(Error::InvalidInputLength), "Message::parse_slice({})", hex(b));
    } else {
        o.nt();
        let z = U::from_slice(b);
        o.label_if(z >= N, "overflowing message");
        let m = ms.map_err(|e| format!("message: {:?}", e))?;
        same!(un_sc(&m.0), FN.red(z), "Message::parse({})", hex(b));
        same!(Message::parse(&z.be()), m, "array and slice forms");
        same!(hex(&m.serialize()), hex(&FN.red(z).be()), "message serialize");
        let z2 = z.xor(&U::pow2(b[31] as usize));
        let m2 = Message::parse(&z2.be());
        same!(m == m2, FN.red(z) == FN.red(z2), "equality of messages {:?} and {:?}", z, z2);
    }
    // all recovery bytes
    for v in b.iter().take(4).copied() {
        let want = if v < 4 { Ok(v) } else { Err(Error::InvalidRecoveryId) };
        same!(RecoveryId::parse(v).map(|r| r.serialize()), want, "RecoveryId::parse({})", v);
        let want = if (27..31).contains(&v) { Ok(v - 27) } else { Err(Error::InvalidRecoveryId) };
        same!(RecoveryId::parse_rpc(v).map(|r| r.serialize()), want, "parse_rpc({})", v);
        if let Ok(r) = RecoveryId::parse(v) {
            let (x, y): (u8, i32) = (r.into(), r.into());
            same!((x, y), (v, v as i32), "recovery id conversions");
            for w in 0..4 {
                same!(RecoveryId::parse(w) == Ok(r), w == v, "recovery ids {} and {} equal", v, w);
            }
        }
    }
    Ok(())
}
fn all_bytes(_: bool) -> Vec<BytesCase> {
    (0..=255u8).map(|v| BytesCase { b: Hx(vec![v]) }).collect()
}
fn c14_rec_check(c: &BytesCase, o: &mut Obs) -> Res {
    o.nt();
    c14_check(c, &mut Obs::default())
}

pub fn groups(id: &str) -> Option<(&'static str, Vec<Box<dyn Group>>)> {
    Some(match id {
        "C05" => (
            "a case is a secret key (uniform, window/bit/limb patterns, near 0, n, the blinding scalar) and a related second key; non-trivial: valid key, compared with the reference multiple of G, the C library and the heap-built table",
            vec![Box::new(Gen { name: "pubkey", quick: 80_000, thorough: 3_000_000, gen: c05_gen, check: c05_check })],
        ),
        "C06" => (
            "a case is (secret key, public key or second secret key, representation); scalars over-represent 1, n-1, (n+-1)/2, powers of two, window patterns; non-trivial: valid, so SHA-256, a pass-through digest and the C library were compared",
            vec![Box::new(Gen { name: "ecdh", quick: 32_000, thorough: 1_000_000, gen: c06_gen, check: c06_check })],
        ),
        "C07" => (
            "a case is (byte string, requested format): valid encodings, wrong tags, coordinates at/above p, value + p aliases, off-curve and twist points, non-residue x, hybrid parity, mutations, random strings; or an affine point with unnormalised coordinates; non-trivial: the length is acceptable so the contents decide",
            vec![
                Box::new(Gen { name: "parse", quick: 160_000, thorough: 6_000_000, gen: c07_gen, check: c07_check }),
                Box::new(Gen { name: "affine", quick: 40_000, thorough: 1_000_000, gen: c07_aff_gen, check: c07_aff_check }),
            ],
        ),
        "C08" => (
            "a case is a starting key and a chain of up to six operations (tweaks, combine, reparse, affine conversion with unnormalised coordinates, recovery, serde); after each, bytes and equality are compared with the reference point; or two keys whose x coordinates differ in a short range of bits while y is the same; non-trivial: at least one step applied, or such a pair compared",
            vec![
                Box::new(Gen { name: "chain", quick: 16_000, thorough: 500_000, gen: c08_gen, check: c08_check }),
                Box::new(Gen { name: "nearly equal", quick: 12_000, thorough: 1_000_000, gen: c08_pair_gen, check: c08_pair_check }),
            ],
        ),
        "C09" => (
            "a case is a key in some representation to round-trip, a JSON document, a bincode byte string or a damaged bincode stream; non-trivial: a round trip, or an input long enough to be a key encoding",
            vec![Box::new(Gen { name: "serde", quick: 100_000, thorough: 3_000_000, gen: c09_gen, check: c09_check })],
        ),
        "C10" => (
            "a case is a byte string (mostly 32 bytes near 0, n, 2^256 or limb-wise neighbours of n) or a scripted generator output with leading invalid draws; non-trivial: 32 bytes, or at least one draw had to be skipped",
            vec![
                Box::new(Gen { name: "parse", quick: 600_000, thorough: 20_000_000, gen: c10_gen, check: c10_check }),
                Box::new(Gen { name: "random", quick: 100_000, thorough: 2_000_000, gen: c10_rand_gen, check: c10_rand_check }),
            ],
        ),
        "C11" => (
            "a case is a key and up to eight tweaks/inversions, with tweaks chosen relative to the current key (negation, sums next to 0 and n, inverse, product = edge value); non-trivial: at least one operation",
            vec![Box::new(Gen { name: "secret", quick: 200_000, thorough: 6_000_000, gen: c11_gen, check: c11_check })],
        ),
        "C12" => (
            "a case is a public key (known or unknown scalar, any representation) and up to four tweaks, chosen relative to the current key (doubling, cancellation, edges); non-trivial: at least one valid tweak applied",
            vec![Box::new(Gen { name: "tweak", quick: 24_000, thorough: 800_000, gen: c12_gen, check: c12_check })],
        ),
        "C13" => (
            "a case is a list of 0..9 keys, many related to the running sum or each other (equal, opposite, endomorphism images), in several representations, plus a rotation and a split, and lists of up to 1200 keys from a small set that may cancel; non-trivial: two or more keys (long lists: nine or more)",
            vec![
                Box::new(Gen { name: "combine", quick: 32_000, thorough: 1_000_000, gen: c13_gen, check: c13_check }),
                Box::new(Gen { name: "long lists", quick: 3_000, thorough: 150_000, gen: long_gen, check: long_check }),
                Box::new(crate::run::Enumerate { name: "huge lists", cases: huge_cases, check: long_check }),
            ],
        ),
        "C14" => (
            "a case is a byte string: 64 bytes with halves near 0, n, 2^256, 32 bytes, other lengths, and every recovery byte; non-trivial: a length some parser accepts, or an enumerated recovery byte",
            vec![
                Box::new(Gen { name: "codec", quick: 600_000, thorough: 20_000_000, gen: c14_gen, check: c14_check }),
                Box::new(crate::run::Enumerate { name: "recovery bytes", cases: all_bytes, check: c14_rec_check }),
            ],
        ),
        _ => return None,
    })
}
