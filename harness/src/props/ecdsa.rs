//! C01 C02 C03 C04 C15 C27: signing, verification, recovery, normalisation.

use crate::conv::*;
use crate::gen::{self, *};
use crate::refm::*;
use crate::run::{Gen, Group, Obs, Res, Rg};
use crate::{ensure, same};
use libsecp256k1::{Error, Message, PublicKey, RecoveryId, Signature};
use serde::{Deserialize, Serialize};

fn valid_key(d: &U) -> bool {
    !d.is_zero() && *d < N
}

// ------------------------------------------------------------ C01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SignCase {
    d: U,
    m: U, // raw 32 message bytes
}
fn c01_gen(rg: &Rg) -> SignCase {
    let d = seckey(rg);
    let m = if rg.one_in(8) { u256_high(rg) } else { u256(rg) };
    SignCase { d, m }
}
/// Numbers of keys and messages whose signatures have a rare r or s: many leading or trailing
/// zeros or ones, or s next to n/2; found by search over RFC 6979 signatures.
static MINED: &str = include_str!("../mined.txt");
fn mined() -> impl Iterator<Item = (U, U)> {
    MINED.lines().map(|l| {
        let i: u64 = l.parse().unwrap();
        (U::from_u64(1 + i % 7), U::from_u64(i))
    })
}
fn c01_mined(_: bool) -> Vec<SignCase> {
    mined().map(|(d, m)| SignCase { d, m }).collect()
}
fn c02_mined(_: bool) -> Vec<TripCase> {
    let mut v = vec![];
    for (d, m) in mined() {
        for route in 0..5u8 {
            let k = m.0[0] as u8;
            v.push(TripCase {
                d,
                m,
                key_route: k.wrapping_add(route) % REPRS as u8,
                sig_route: route,
                rpc: k & 1 == 1,
                flip_msg: k,
                other: G,
            });
        }
    }
    v
}
/// values in [n, 2^256)
fn u256_high(rg: &Rg) -> U {
    let k = rg.pick(&[0usize, 1, 8, 64, 100, 126]);
    let d = gen::random(rg).shr(255 - k);
    if rg.coin() {
        N.wadd(&d)
    } else {
        MAX.wsub(&d)
    }
}
fn c01_check(c: &SignCase, o: &mut Obs) -> Res {
    if !valid_key(&c.d) {
        return Ok(());
    }
    o.nt();
    let z = FN.red(c.m);
    o.label_if(c.m >= N, "message >= n");
    o.label_if(z.is_zero(), "message = 0 mod n");
    let want = ecdsa_sign(&c.d, &z);
    let key = sk(&c.d)?;
    let m = Message::parse(&c.m.be());
    let (s, id) = libsecp256k1::sign(&m, &key);
    let got = (un_sc(&s.r), un_sc(&s.s), id.serialize());
    same!(got, want, "sign({:?}, {:?}) (r, s, id)", c.m, c.d);
    ensure!(got.1 <= half_order(), "high s {:?}", got.1);
    let again = libsecp256k1::sign(&m, &key);
    same!(again, (s, id), "second signature");
    let boxed = libsecp256k1::sign_with_context(&m, &key, boxed_gctx());
    same!(boxed, (s, id), "signature with heap context");
    same!(key.serialize(), c.d.be(), "key after signing");
    same!(m.serialize(), z.be(), "message after signing");
    // the C library feeds the unreduced message to RFC 6979; they agree below n
    if c.m < N {
        let cctx = csecp();
        let ck = secp256k1::SecretKey::from_slice(&c.d.be()).map_err(|e| e.to_string())?;
        let cm = secp256k1::Message::from_slice(&c.m.be()).map_err(|e| e.to_string())?;
        let (cid, cs) = cctx.sign_recoverable(&cm, &ck).serialize_compact();
        same!(&s.serialize()[..], &cs[..], "compact signature vs C library");
        same!(id.serialize() as i32, cid.to_i32(), "recovery id vs C library");
    }
    Ok(())
}

pub fn csecp() -> &'static secp256k1::Secp256k1<secp256k1::All> {
    static C: std::sync::OnceLock<secp256k1::Secp256k1<secp256k1::All>> =
        std::sync::OnceLock::new();
    C.get_or_init(secp256k1::Secp256k1::new)
}

// ------------------------------------------------------------ C02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TripCase {
    d: U,
    m: U,
    key_route: u8,
    sig_route: u8,
    rpc: bool,
    flip_msg: u8,
    other: Pt,
}
fn c02_gen(rg: &Rg) -> TripCase {
    let d = seckey(rg);
    let p = gmul(&d);
    TripCase {
        d,
        m: u256(rg),
        key_route: rg.below(REPRS) as u8,
        sig_route: rg.below(5) as u8,
        rpc: rg.coin(),
        flip_msg: rg.u64() as u8,
        other: related(rg, &p),
    }
}
fn c02_check(c: &TripCase, o: &mut Obs) -> Res {
    if !valid_key(&c.d) || c.other.is_inf() {
        return Ok(());
    }
    if let Pt::A(x, y) = c.other {
        if !on_curve(&x, &y) {
            return Ok(());
        }
    }
    o.nt();
    let z = FN.red(c.m);
    let q = gmul(&c.d);
    let key = sk(&c.d)?;
    let m0 = Message::parse(&c.m.be());
    let pk0 = PublicKey::from_secret_key(&key);
    let (s0, id0) = libsecp256k1::sign(&m0, &key);
    ensure!(libsecp256k1::verify(&m0, &s0, &pk0), "fresh signature does not verify");
    match libsecp256k1::recover(&m0, &s0, &id0) {
        Ok(k) => ensure!(k == pk0, "recovery gives {:?} not {:?}", un_pk(&k), q),
        Err(e) => return Err(format!("recovery of a fresh signature fails: {:?}", e)),
    }
    // through the encodings
    let m = Message::parse_slice(&m0.serialize()).map_err(|e| format!("message: {:?}", e))?;
    same!(m, m0, "message round trip");
    let der = s0.serialize_der();
    let s = match c.sig_route {
        0 => Signature::parse_standard(&s0.serialize()),
        1 => Signature::parse_standard_slice(&s0.serialize()),
        2 => Signature::parse_overflowing_slice(&s0.serialize()),
        3 => Signature::parse_der(der.as_ref()),
        _ => Signature::parse_der_lax(der.as_ref()),
    }
    .map_err(|e| format!("signature route {}: {:?}", c.sig_route, e))?;
    o.label(["compact", "compact slice", "overflowing", "DER", "lax DER"][c.sig_route.min(4) as usize]);
    same!(s, s0, "signature round trip {}", c.sig_route);
    let id = if c.rpc {
        RecoveryId::parse_rpc(id0.serialize() + 27)
    } else {
        RecoveryId::parse(id0.serialize())
    }
    .map_err(|e| format!("recovery id: {:?}", e))?;
    same!(id, id0, "recovery id round trip");
    let pk = repr_pk(&q, c.key_route)?;
    ensure!(pk == pk0, "key route {} differs", c.key_route);
    ensure!(libsecp256k1::verify(&m, &s, &pk), "does not verify after round trips");
    let k = libsecp256k1::recover(&m, &s, &id).map_err(|e| format!("recover: {:?}", e))?;
    ensure!(k == pk, "recovers another key after round trips");
    same!(k.serialize(), q.full(), "recovered key bytes");
    // negatives, decided by the ECDSA equation
    let (r_, s_) = un_sig(&s);
    let z2 = {
        let i = c.flip_msg as usize;
        FN.red(c.m.xor(&U::pow2(i)))
    };
    let exp = ecdsa_verify(&z2, &r_, &s_, &q);
    same!(libsecp256k1::verify(&msg(&z2), &s, &pk), exp, "verify with changed message");
    o.label_if(!exp, "changed message rejected");
    let exp = ecdsa_verify(&z, &r_, &s_, &c.other);
    let other = repr_pk(&c.other, 0)?;
    same!(libsecp256k1::verify(&m, &s, &other), exp, "verify with other key {:?}", c.other);
    o.label_if(!exp, "other key rejected");
    o.label_if(exp && c.other != q, "other key legitimately accepted");
    Ok(())
}

// ------------------------------------------------------------ C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VerCase {
    z: U,
    r: U,
    s: U,
    q: Pt,
    route: u8,
}
/// r, s, z so that u1*G + u2*Q = R for given u1, u2, Q (u2 != 0)
fn from_u(u1: &U, u2: &U, q: &Pt) -> Option<(U, U, U)> {
    let rp = lincomb(u2, q, u1);
    let x = match rp {
        Pt::Inf => return None,
        Pt::A(x, _) => FN.red(x),
    };
    if x.is_zero() || u2.is_zero() {
        return None;
    }
    let s = FN.mul(&x, &FN.inv(u2));
    Some((x, s, FN.mul(u1, &s)))
}
pub fn high_x_point(rg: &Rg) -> Pt {
    // x in [n, p)
    let span = p_minus_n();
    let d = match rg.below(3) {
        0 => U::from_u64(rg.below(64)),
        1 => span.wsub(&U::from_u64(1 + rg.below(64))),
        _ => gen::random(rg).shr(128),
    };
    let d = if d >= span { ZERO } else { d };
    let mut x = N.wadd(&d);
    loop {
        if let Some(p) = lift_x(&x, rg.coin()) {
            return p;
        }
        x = x.wadd(&ONE);
        if x >= P {
            x = N;
        }
    }
}
fn c03_gen(rg: &Rg) -> VerCase {
    let route = rg.below(8) as u8;
    let mk = |z, r, s, q| VerCase { z, r, s, q, route };
    match rg.below(20) {
        // genuine, s possibly high
        0 | 1 | 2 => {
            let (d, k, z) = (seckey(rg), seckey(rg), scalar(rg));
            let q = gmul(&d);
            match ecdsa_sign_k(&d, &z, &k) {
                Some((r, s, _)) => mk(z, r, if rg.coin() { FN.neg(&s) } else { s }, q),
                None => mk(z, ZERO, ZERO, q),
            }
        }
        // chosen u1, u2, Q
        3 | 4 | 5 => {
            let (u1, u2) = (scalar(rg), seckey(rg));
            let q = if rg.coin() { related(rg, &G) } else { point(rg) };
            match from_u(&u1, &u2, &q) {
                Some((r, s, z)) => mk(z, r, s, q),
                None => mk(u1, u2, u2, q),
            }
        }
        // x(R) in [n, p)
        6 | 7 => {
            let rp = high_x_point(rg);
            let (u1, u2) = (scalar(rg), seckey(rg));
            let q = rp.add(&gmul(&u1).neg()).mul(&FN.inv(&u2));
            let r = FN.red(rp.x());
            if q.is_inf() || r.is_zero() {
                return mk(u1, u2, u2, G);
            }
            let s = FN.mul(&r, &FN.inv(&u2));
            mk(FN.mul(&u1, &s), r, s, q)
        }
        // r + n = x(R) + p: must not be accepted by wrapping around
        8 | 9 => {
            let x0 = U::from_u64(1 + rg.below(if rg.coin() { 8 } else { 1 << 40 }));
            let rp = lift_near(x0, rg.coin());
            let r = rp.x().wadd(&p_minus_n());
            let (u1, u2) = (scalar(rg), seckey(rg));
            let q = rp.add(&gmul(&u1).neg()).mul(&FN.inv(&u2));
            if q.is_inf() || r >= N {
                return mk(u1, u2, u2, G);
            }
            let s = FN.mul(&r, &FN.inv(&u2));
            mk(FN.mul(&u1, &s), r, s, q)
        }
        // u1*G + u2*Q infinite
        10 => {
            let (d, r, s) = (seckey(rg), seckey(rg), seckey(rg));
            mk(FN.neg(&FN.mul(&r, &d)), r, s, gmul(&d))
        }
        // u1*G = u2*Q: the final addition is a doubling
        11 => {
            let (u1, u2) = (seckey(rg), seckey(rg));
            let q = gmul(&FN.mul(&u1, &FN.inv(&u2)));
            match from_u(&u1, &u2, &q) {
                Some((r, s, z)) => mk(z, r, s, q),
                None => mk(u1, u2, u2, q),
            }
        }
        // s at the half-order boundary or another chosen value: z = s*k - r*d
        12 | 13 => {
            let (d, k) = (seckey(rg), seckey(rg));
            let r = FN.red(gmul(&k).x());
            let s = match rg.below(4) {
                0 => half_order(),
                1 => half_order().wadd(&ONE),
                2 => rg.pick(&[ONE, N.wsub(&ONE)]),
                _ => seckey(rg),
            };
            mk(FN.sub(&FN.mul(&s, &k), &FN.mul(&r, &d)), r, s, gmul(&d))
        }
        // nearly genuine
        14 | 15 | 16 => {
            let (d, k, z) = (seckey(rg), seckey(rg), scalar(rg));
            let q = gmul(&d);
            let (r, s, _) = match ecdsa_sign_k(&d, &z, &k) {
                Some(t) => t,
                None => return mk(z, ZERO, ZERO, q),
            };
            let one_bit = U::pow2(rg.idx(256));
            match rg.below(10) {
                0 => mk(z, FN.red(r.xor(&one_bit)), s, q),
                1 => mk(z, r, FN.red(s.xor(&one_bit)), q),
                2 => mk(FN.red(z.xor(&one_bit)), r, s, q),
                3 => mk(z, FN.neg(&r), s, q),
                4 => mk(z, s, r, q),
                5 => mk(z, r, s, q.neg()),
                6 => mk(FN.neg(&z), r, s, q),
                7 => mk(z, FN.red(FP.mul(&r, &BETA)), s, q),
                8 => mk(z, FN.add(&r, &ONE), s, q),
                _ => {
                    let q2 = related(rg, &q);
                    mk(z, r, s, q2)
                }
            }
        }
        // the other key that satisfies the equation (R and -R)
        17 => {
            let (d, k, z) = (seckey(rg), seckey(rg), scalar(rg));
            match ecdsa_sign_k(&d, &z, &k) {
                Some((r, s, id)) => match ecdsa_recover(&z, &r, &s, id ^ 1) {
                    Some(q) => mk(z, r, s, q),
                    None => mk(z, r, s, gmul(&d)),
                },
                None => mk(z, ZERO, ZERO, G),
            }
        }
        // zero components
        18 => {
            let (r, s, z) = (scalar(rg), scalar(rg), scalar(rg));
            let q = point(rg);
            match rg.below(4) {
                0 => mk(z, ZERO, s, q),
                1 => mk(z, r, ZERO, q),
                2 => mk(z, ZERO, ZERO, q),
                _ => mk(ZERO, r, s, q),
            }
        }
        _ => {
            let (r, s, z) = (scalar(rg), scalar(rg), scalar(rg));
            mk(z, r, s, point(rg))
        }
    }
}
pub fn any_verify(rg: &Rg) -> crate::ops::Op {
    let c = c03_gen(rg);
    crate::ops::Op::Verify(c.z, c.r, c.s, c.q)
}
pub fn any_recover(rg: &Rg) -> crate::ops::Op {
    let c = c04_gen(rg);
    crate::ops::Op::Recover(c.z, c.r, c.s, c.id)
}
pub fn pt_ok(p: &Pt) -> bool {
    match p {
        Pt::Inf => false,
        Pt::A(x, y) => on_curve(x, y),
    }
}
fn c03_check(c: &VerCase, o: &mut Obs) -> Res {
    if c.z >= N || c.r >= N || c.s >= N || !pt_ok(&c.q) {
        return Ok(());
    }
    let want = ecdsa_verify(&c.z, &c.r, &c.s, &c.q);
    if !c.r.is_zero() && !c.s.is_zero() {
        o.nt();
        let w = FN.inv(&c.s);
        let rp = lincomb(&FN.mul(&c.r, &w), &c.q, &FN.mul(&c.z, &w));
        match rp {
            Pt::Inf => o.label("R infinite"),
            Pt::A(x, _) => {
                o.label_if(x >= N && want, "valid with x(R) >= n");
                let (t, cy) = c.r.adc(&N);
                o.label_if((cy || t >= P) && t.wsub(&P) == x, "r + n wraps to x(R)");
            }
        }
    }
    o.label(if want { "valid" } else { "invalid" });
    o.label_if(want && c.s > half_order(), "valid with high s");
    let (m, s) = (msg(&c.z), sig(&c.r, &c.s));
    let q = repr_pk(&c.q, c.route)?;
    let got = libsecp256k1::verify(&m, &s, &q);
    same!(got, want, "verify(z={:?}, r={:?}, s={:?}, Q={:?})", c.z, c.r, c.s, c.q);
    if c.route == 1 {
        let b = libsecp256k1::verify_with_context(&m, &s, &q, boxed_ctx());
        same!(b, want, "verify with heap context");
    }
    if c.route == 2 {
        let a = excess_aff(&c.q, 0x2aa << 11 | 0x155);
        same!(ctx().verify_raw(&s.r, &s.s, &a, &m.0), want, "verify_raw");
    }
    Ok(())
}

// ------------------------------------------------------------ C04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RecCase {
    z: U,
    r: U,
    s: U,
    id: u8,
}
fn c04_gen(rg: &Rg) -> RecCase {
    match rg.below(18) {
        0 | 1 => {
            let (d, k, z) = (seckey(rg), seckey(rg), scalar(rg));
            match ecdsa_sign_k(&d, &z, &k) {
                Some((r, s, id)) => {
                    if rg.one_in(4) {
                        RecCase { z, r, s: FN.neg(&s), id: id ^ 1 }
                    } else if rg.one_in(4) {
                        RecCase { z, r, s, id: rg.below(4) as u8 }
                    } else {
                        RecCase { z, r, s, id }
                    }
                }
                None => RecCase { z, r: ZERO, s: ZERO, id: 0 },
            }
        }
        2..=4 => {
            // x = r + n in [n, p)
            let p = high_x_point(rg);
            RecCase { z: scalar(rg), r: p.x().wsub(&N), s: scalar(rg), id: 2 + rg.below(2) as u8 }
        }
        5 => {
            // r + n wraps around p to a valid x
            let p = lift_near(U::from_u64(1 + rg.below(1 << rg.range(1, 40))), rg.coin());
            RecCase {
                z: scalar(rg),
                r: p.x().wadd(&p_minus_n()),
                s: scalar(rg),
                id: 2 + rg.below(2) as u8,
            }
        }
        6 => {
            // ids 2, 3 with r around p - n
            let d = U::from_u64(rg.below(16));
            let r = if rg.coin() { p_minus_n().wadd(&d) } else { p_minus_n().wsub(&d) };
            RecCase { z: scalar(rg), r, s: scalar(rg), id: rg.below(4) as u8 }
        }
        7 | 8 => {
            // Q infinite, or -z*G = s*R (doubling)
            let (k, s) = (seckey(rg), seckey(rg));
            let p = gmul(&k);
            let sk = FN.mul(&s, &k);
            let z = if rg.coin() { sk } else { FN.neg(&sk) };
            let hi = p.x() >= N;
            RecCase {
                z,
                r: FN.red(p.x()),
                s,
                id: (if hi { 2 } else { 0 }) | p.y().is_odd() as u8,
            }
        }
        9 => {
            // u1, u2 chosen, R a related point
            let (u1, u2) = (scalar(rg), seckey(rg));
            let p = if rg.coin() { related(rg, &G) } else { point(rg) };
            let r = FN.red(p.x());
            let hi = p.x() >= N;
            RecCase {
                z: FN.mul(&FN.neg(&u1), &r),
                r,
                s: FN.mul(&u2, &r),
                id: (if hi { 2 } else { 0 }) | p.y().is_odd() as u8,
            }
        }
        14 | 15 => {
            // the recovered key is a special point
            let (u1, u2, q) = (scalar(rg), seckey(rg), point(rg));
            let p = lincomb(&u2, &q, &u1);
            let r = match p {
                Pt::Inf => ZERO,
                Pt::A(x, _) => FN.red(x),
            };
            if r.is_zero() {
                return RecCase { z: u1, r: u2, s: u2, id: 0 };
            }
            let s = FN.mul(&r, &FN.inv(&u2));
            let hi = p.x() >= N;
            RecCase {
                z: FN.mul(&u1, &s),
                r,
                s,
                id: (if hi { 2 } else { 0 }) | p.y().is_odd() as u8,
            }
        }
        10 => {
            let (r, s, z) = (scalar(rg), scalar(rg), scalar(rg));
            let id = rg.below(4) as u8;
            match rg.below(3) {
                0 => RecCase { z, r: ZERO, s, id },
                1 => RecCase { z, r, s: ZERO, id },
                _ => RecCase { z: ZERO, r, s, id },
            }
        }
        11 => RecCase {
            z: scalar(rg),
            r: FN.red(gen::random(rg).shr(120 + rg.idx(130))),
            s: scalar(rg),
            id: rg.below(4) as u8,
        },
        12 | 13 => {
            // any valid x
            let p = point(rg);
            let hi = p.x() >= N;
            RecCase {
                z: scalar(rg),
                r: FN.red(p.x()),
                s: seckey(rg),
                id: (if hi { 2 } else { 0 }) | rg.below(2) as u8,
            }
        }
        _ => RecCase { z: scalar(rg), r: scalar(rg), s: scalar(rg), id: rg.below(4) as u8 },
    }
}
fn c04_check(c: &RecCase, o: &mut Obs) -> Res {
    if c.z >= N || c.r >= N || c.s >= N || c.id > 3 {
        return Ok(());
    }
    let want = ecdsa_recover(&c.z, &c.r, &c.s, c.id);
    if !c.r.is_zero() && !c.s.is_zero() {
        o.nt();
    }
    let (t, cy) = c.r.adc(&N);
    if c.id & 2 != 0 {
        o.label_if(want.is_some(), "recovered with x = r + n");
        o.label_if(cy || t >= P, "r + n out of field");
    } else {
        o.label_if(want.is_some(), "recovered with x = r");
        o.label_if(
            want.is_none() && !c.s.is_zero() && lift_x(&c.r, false).is_some(),
            "Q infinite",
        );
    }
    o.label_if(want.is_none(), "no key");
    let (m, s) = (msg(&c.z), sig(&c.r, &c.s));
    let got = libsecp256k1::recover(&m, &s, &rid(c.id)?);
    let boxed = libsecp256k1::recover_with_context(&m, &s, &rid(c.id)?, boxed_ctx());
    match (want, got) {
        (None, Err(_)) => {
            ensure!(boxed.is_err(), "heap context recovers a key");
        }
        (Some(q), Ok(k)) => {
            same!(un_pk(&k), q, "recover({:?})", c);
            same!(k.serialize(), q.full(), "recovered key bytes");
            ensure!(boxed == Ok(k), "heap context recovers {:?}", boxed);
            ensure!(libsecp256k1::verify(&m, &s, &k), "recovered key does not verify");
        }
        (w, g) => return Err(format!("recover({:?}): got {:?}, expected {:?}", c, g.map(|k| un_pk(&k)), w)),
    }
    Ok(())
}

// ------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NormCase {
    r: U,
    s: U,
    /// verification is compared under the key and message that make (r, s) valid with this d
    d: U,
    raw_r: bool,
}
fn near_half(rg: &Rg) -> U {
    let h = half_order();
    match rg.below(10) {
        0 => h,
        1 => h.wadd(&ONE),
        2 => h.wsub(&ONE),
        3 => h.wadd(&U::from_u64(2)),
        4 => {
            // same high limbs as the half order, one limb different
            let mut l = h.limbs32();
            let i = rg.idx(8);
            l[i] = rg.pick(&[l[i].wrapping_add(1), l[i].wrapping_sub(1), 0, u32::MAX, rg.u32()]);
            U::from_limbs32(&l)
        }
        5 => {
            let mut l = h.limbs32();
            let i = rg.idx(8);
            l[i] = l[i].wrapping_add(if rg.coin() { 1 } else { u32::MAX });
            for x in l.iter_mut().take(i) {
                *x = rg.u32();
            }
            U::from_limbs32(&l)
        }
        6 => h.wadd(&gen::random(rg).shr(128 + rg.idx(128))),
        7 => h.wsub(&gen::random(rg).shr(128 + rg.idx(128))),
        8 => rg.pick(&[ZERO, ONE, N.wsub(&ONE), N.wsub(&U::from_u64(2))]),
        _ => scalar(rg),
    }
}
fn c15_gen(rg: &Rg) -> NormCase {
    let k = seckey(rg);
    let raw_r = !rg.one_in(4);
    let r = if raw_r { scalar(rg) } else { k };
    let s = FN.red(near_half(rg));
    NormCase { r, s, d: seckey(rg), raw_r }
}
fn c15_check(c: &NormCase, o: &mut Obs) -> Res {
    if c.r >= N || c.s >= N || !valid_key(&c.d) {
        return Ok(());
    }
    // with raw_r = false, c.r is a nonce and the signature is valid for (z, d*G)
    let (r, verify) = if c.raw_r || c.r.is_zero() {
        (c.r, false)
    } else {
        (FN.red(gmul(&c.r).x()), true)
    };
    o.nt();
    let high = c.s > half_order();
    o.label(if high { "high s" } else { "low s" });
    o.label_if(c.s == half_order(), "s = (n-1)/2");
    o.label_if(c.s == half_order().wadd(&ONE), "s = (n+1)/2");
    let low = if high { FN.neg(&c.s) } else { c.s };
    let orig = sig(&r, &c.s);
    same!(orig.s.is_high(), high, "is_high({:?})", c.s);
    let mut n1 = orig;
    n1.normalize_s();
    same!(un_sig(&n1), (r, low), "normalize_s of ({:?}, {:?})", r, c.s);
    let mut n2 = n1;
    n2.normalize_s();
    same!(n2, n1, "normalising twice");
    let mut other = sig(&r, &FN.neg(&c.s));
    other.normalize_s();
    same!(un_sig(&other), (r, low), "normal form of the negated signature");
    if verify {
        o.label("verified before and after");
        let z = FN.sub(&FN.mul(&c.s, &c.r), &FN.mul(&r, &c.d));
        let q = repr_pk(&gmul(&c.d), 0)?;
        let exp = ecdsa_verify(&z, &r, &c.s, &gmul(&c.d));
        same!(libsecp256k1::verify(&msg(&z), &orig, &q), exp, "before");
        same!(libsecp256k1::verify(&msg(&z), &n1, &q), exp, "after");
    }
    Ok(())
}

// ------------------------------------------------------------ C27

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawCase {
    d: U,
    z: U,
    k: U,
}
fn c27_gen(rg: &Rg) -> RawCase {
    let (d, k) = (seckey(rg), seckey(rg));
    match rg.below(8) {
        0..=2 => RawCase { d, k, z: scalar(rg) },
        3 => {
            // s = 0
            let r = FN.red(gmul(&k).x());
            RawCase { d, k, z: FN.neg(&FN.mul(&r, &d)) }
        }
        _ => {
            // s chosen
            let r = FN.red(gmul(&k).x());
            let s = FN.red(near_half(rg));
            RawCase { d, k, z: FN.sub(&FN.mul(&s, &k), &FN.mul(&r, &d)) }
        }
    }
}
fn c27_check(c: &RawCase, o: &mut Obs) -> Res {
    if !valid_key(&c.d) || !valid_key(&c.k) || c.z >= N {
        return Ok(());
    }
    o.nt();
    let want = ecdsa_sign_k(&c.d, &c.z, &c.k);
    o.label_if(want.is_none(), "s = 0");
    if let Some((_, s, _)) = want {
        o.label_if(s == half_order(), "s = (n-1)/2");
    }
    let got = gctx().sign_raw(&sc(&c.d), &sc(&c.z), &sc(&c.k));
    match (want, got) {
        (None, Err(Error::InvalidMessage)) => {}
        (Some(w), Ok((r, s, id))) => {
            let g = (un_sc(&r), un_sc(&s), id);
            same!(g, w, "sign_raw({:?})", c);
            // the recovery id names the nonce point of the returned signature
            let q = ecdsa_recover(&c.z, &g.0, &g.1, g.2);
            same!(q, Some(gmul(&c.d)), "key recovered from the raw signature");
        }
        (w, g) => {
            return Err(format!(
                "sign_raw({:?}): got {:?}, expected {:?}",
                c,
                g.map(|(r, s, i)| (un_sc(&r), un_sc(&s), i)),
                w
            ))
        }
    }
    let b = boxed_gctx().sign_raw(&sc(&c.d), &sc(&c.z), &sc(&c.k));
    same!(b, got, "heap context");
    Ok(())
}

pub fn groups(id: &str) -> Option<(&'static str, Vec<Box<dyn Group>>)> {
    Some(match id {
        "C01" => (
            "a case is (secret key, raw 32-byte message); keys and messages are drawn from uniform values and from edges (around 0, n, n/2, 2^256, limb/bit patterns, messages >= n), plus a list of pairs found by search whose signatures have rare values (leading or trailing zeros or ones, s next to n/2); non-trivial: the key is valid, so the full signature was compared with the RFC 6979 + ECDSA reference (and the C library when the message is below n)",
            vec![
                Box::new(Gen { name: "sign", quick: 48_000, thorough: 1_500_000, gen: c01_gen, check: c01_check }),
                Box::new(crate::run::Enumerate { name: "rare signatures", cases: c01_mined, check: c01_check }),
            ],
        ),
        "C02" => (
            "a case is (key, message, encodings to pass through, message bit to flip, another key), plus the list of pairs with rare signatures; non-trivial: valid key and point, so sign, verify, recover, the round trips and both negative checks ran",
            vec![
                Box::new(Gen { name: "trip", quick: 24_000, thorough: 600_000, gen: c02_gen, check: c02_check }),
                Box::new(crate::run::Enumerate { name: "rare signatures", cases: c02_mined, check: c02_check }),
            ],
        ),
        "C03" => (
            "a case is (z, r, s, Q, representation of Q): genuine, chosen-(u1,u2), x(R) in [n,p), wrapped x, infinite sum, doubling, chosen s, near-genuine, zero components, random; non-trivial: r and s non-zero so the equation was evaluated",
            vec![Box::new(Gen { name: "verify", quick: 60_000, thorough: 2_000_000, gen: c03_gen, check: c03_check })],
        ),
        "C04" => (
            "a case is (z, r, s, recovery id): genuine, x = r + n, wrapped r + n, r next to p - n, Q infinite or sum a doubling, chosen (u1,u2,R), zero components, random; non-trivial: r and s non-zero",
            vec![Box::new(Gen { name: "recover", quick: 60_000, thorough: 2_000_000, gen: c04_gen, check: c04_check })],
        ),
        "C15" => (
            "a case is a signature (r, s) with s concentrated around 0, (n-1)/2, (n+1)/2, n-1 and limb-wise neighbours of the half order, plus optionally a key and message that make it valid; non-trivial: r, s canonical, so normalisation was compared",
            vec![Box::new(Gen { name: "normalize", quick: 400_000, thorough: 8_000_000, gen: c15_gen, check: c15_check })],
        ),
        "C27" => (
            "a case is (key, message scalar, nonce); the message is often solved for so that s is 0, (n-1)/2, its neighbours or another chosen value; non-trivial: key and nonce valid",
            vec![Box::new(Gen { name: "sign_raw", quick: 40_000, thorough: 1_500_000, gen: c27_gen, check: c27_check })],
        ),
        _ => return None,
    })
}
