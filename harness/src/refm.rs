//! Reference model: integers modulo p and n, the secp256k1 group, ECDSA, RFC 6979
//! and the DER grammars, written from the standards (SEC 1, SEC 2, RFC 6979, X.690)
//! with 4x64-bit limbs and textbook formulas.  It shares no code with /repo.

use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct U(pub [u64; 4]); // little endian limbs

impl std::fmt::Debug for U {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "0x{}", hex(&self.be()))
    }
}
impl PartialOrd for U {
    fn partial_cmp(&self, o: &U) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for U {
    fn cmp(&self, o: &U) -> std::cmp::Ordering {
        for i in (0..4).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        std::cmp::Ordering::Equal
    }
}
impl Serialize for U {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() {
            s.serialize_str(&hex(&self.be()))
        } else {
            self.0.serialize(s)
        }
    }
}
impl<'de> Deserialize<'de> for U {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<U, D::Error> {
        let s = String::deserialize(d)?;
        let v = unhex(&s).ok_or_else(|| serde::de::Error::custom("hex"))?;
        if v.len() != 32 {
            return Err(serde::de::Error::custom("length"));
        }
        Ok(U::from_slice(&v))
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok())
        .collect()
}

pub const ZERO: U = U([0; 4]);
pub const ONE: U = U([1, 0, 0, 0]);
pub const MAX: U = U([u64::MAX; 4]);
/// field prime 2^256 - 2^32 - 977
pub const P: U = U([
    0xFFFFFFFEFFFFFC2F,
    0xFFFFFFFFFFFFFFFF,
    0xFFFFFFFFFFFFFFFF,
    0xFFFFFFFFFFFFFFFF,
]);
/// group order
pub const N: U = U([
    0xBFD25E8CD0364141,
    0xBAAEDCE6AF48A03B,
    0xFFFFFFFFFFFFFFFE,
    0xFFFFFFFFFFFFFFFF,
]);
/// 2^256 - p
pub const PC: U = U([0x1000003D1, 0, 0, 0]);
/// 2^256 - n
pub const NC: U = U([0x402DA1732FC9BEBF, 0x4551231950B75FC4, 1, 0]);
pub const GX: U = U([
    0x59F2815B16F81798,
    0x029BFCDB2DCE28D9,
    0x55A06295CE870B07,
    0x79BE667EF9DCBBAC,
]);
pub const GY: U = U([
    0x9C47D08FFB10D4B8,
    0xFD17B448A6855419,
    0x5DA4FBFC0E1108A8,
    0x483ADA7726A3C465,
]);

impl U {
    pub fn from_u64(v: u64) -> U {
        U([v, 0, 0, 0])
    }
    pub fn from_be(b: &[u8; 32]) -> U {
        let mut r = [0u64; 4];
        for i in 0..4 {
            let mut w = [0u8; 8];
            w.copy_from_slice(&b[8 * i..8 * i + 8]);
            r[3 - i] = u64::from_be_bytes(w);
        }
        U(r)
    }
    pub fn from_slice(b: &[u8]) -> U {
        let mut a = [0u8; 32];
        a.copy_from_slice(b);
        U::from_be(&a)
    }
    pub fn be(&self) -> [u8; 32] {
        let mut r = [0u8; 32];
        for i in 0..4 {
            r[8 * i..8 * i + 8].copy_from_slice(&self.0[3 - i].to_be_bytes());
        }
        r
    }
    pub fn pow2(k: usize) -> U {
        let mut r = [0u64; 4];
        r[k / 64] = 1 << (k % 64);
        U(r)
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn is_odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
    pub fn bit(&self, i: usize) -> bool {
        (self.0[i / 64] >> (i % 64)) & 1 == 1
    }
    /// bits [off, off+cnt) as an integer, cnt < 64
    pub fn bits(&self, off: usize, cnt: usize) -> u64 {
        let mut v = 0u64;
        for i in 0..cnt {
            if off + i < 256 && self.bit(off + i) {
                v |= 1 << i;
            }
        }
        v
    }
    pub fn limbs32(&self) -> [u32; 8] {
        let mut r = [0u32; 8];
        for i in 0..4 {
            r[2 * i] = self.0[i] as u32;
            r[2 * i + 1] = (self.0[i] >> 32) as u32;
        }
        r
    }
    pub fn from_limbs32(l: &[u32; 8]) -> U {
        let mut r = [0u64; 4];
        for i in 0..4 {
            r[i] = l[2 * i] as u64 | ((l[2 * i + 1] as u64) << 32);
        }
        U(r)
    }
    /// wrapping add, carry out
    pub fn adc(&self, o: &U) -> (U, bool) {
        let mut r = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            c += self.0[i] as u128 + o.0[i] as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        (U(r), c != 0)
    }
    pub fn sbb(&self, o: &U) -> (U, bool) {
        let mut r = [0u64; 4];
        let mut b = 0i128;
        for i in 0..4 {
            let mut d = self.0[i] as i128 - o.0[i] as i128 + b;
            b = 0;
            if d < 0 {
                d += 1i128 << 64;
                b = -1;
            }
            r[i] = d as u64;
        }
        (U(r), b != 0)
    }
    pub fn wadd(&self, o: &U) -> U {
        self.adc(o).0
    }
    pub fn wsub(&self, o: &U) -> U {
        self.sbb(o).0
    }
    pub fn mul_wide(&self, o: &U) -> [u64; 8] {
        let mut r = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += r[i + j] as u128 + (self.0[i] as u128) * (o.0[j] as u128);
                r[i + j] = c as u64;
                c >>= 64;
            }
            r[i + 4] = c as u64;
        }
        r
    }
    pub fn shr(&self, k: usize) -> U {
        let mut r = U::default();
        if k >= 256 {
            return r;
        }
        let (w, b) = (k / 64, k % 64);
        for i in 0..4 - w {
            r.0[i] = self.0[i + w] >> b;
            if b > 0 && i + w + 1 < 4 {
                r.0[i] |= self.0[i + w + 1] << (64 - b);
            }
        }
        r
    }
    pub fn shl(&self, k: usize) -> U {
        let mut r = U::default();
        if k >= 256 {
            return r;
        }
        let (w, b) = (k / 64, k % 64);
        for i in (w..4).rev() {
            r.0[i] = self.0[i - w] << b;
            if b > 0 && i - w >= 1 {
                r.0[i] |= self.0[i - w - 1] >> (64 - b);
            }
        }
        r
    }
    /// floor((n-1)/2) etc. helper: self >> 1
    pub fn half(&self) -> U {
        self.shr(1)
    }
    pub fn xor(&self, o: &U) -> U {
        U([
            self.0[0] ^ o.0[0],
            self.0[1] ^ o.0[1],
            self.0[2] ^ o.0[2],
            self.0[3] ^ o.0[3],
        ])
    }
}

/// Arithmetic modulo m = 2^256 - c.
#[derive(Clone, Copy)]
pub struct Md {
    pub m: U,
    pub c: U,
}
pub const FP: Md = Md { m: P, c: PC };
pub const FN: Md = Md { m: N, c: NC };

impl Md {
    pub fn red(&self, a: U) -> U {
        let mut a = a;
        while a >= self.m {
            a = a.wsub(&self.m);
        }
        a
    }
    pub fn red_wide(&self, w: [u64; 8]) -> U {
        let mut lo = U([w[0], w[1], w[2], w[3]]);
        let mut hi = U([w[4], w[5], w[6], w[7]]);
        while !hi.is_zero() {
            let t = hi.mul_wide(&self.c);
            let tlo = U([t[0], t[1], t[2], t[3]]);
            let thi = U([t[4], t[5], t[6], t[7]]);
            let (s, c) = lo.adc(&tlo);
            lo = s;
            hi = if c { thi.wadd(&ONE) } else { thi };
        }
        self.red(lo)
    }
    pub fn add(&self, a: &U, b: &U) -> U {
        let (s, c) = a.adc(b);
        if c || s >= self.m {
            s.wsub(&self.m)
        } else {
            s
        }
    }
    pub fn neg(&self, a: &U) -> U {
        if a.is_zero() {
            ZERO
        } else {
            self.m.wsub(a)
        }
    }
    pub fn sub(&self, a: &U, b: &U) -> U {
        self.add(a, &self.neg(b))
    }
    pub fn mul(&self, a: &U, b: &U) -> U {
        self.red_wide(a.mul_wide(b))
    }
    pub fn sqr(&self, a: &U) -> U {
        self.mul(a, a)
    }
    pub fn pow(&self, a: &U, e: &U) -> U {
        let mut r = ONE;
        for i in (0..256).rev() {
            r = self.sqr(&r);
            if e.bit(i) {
                r = self.mul(&r, a);
            }
        }
        r
    }
    /// Inverse by the binary extended Euclidean algorithm; 0 for 0.
    pub fn inv(&self, a: &U) -> U {
        if a.is_zero() {
            return ZERO;
        }
        let (mut u, mut v) = (*a, self.m);
        let (mut x1, mut x2) = (ONE, ZERO);
        let halve = |x: &U| -> U {
            if x.is_odd() {
                let (s, c) = x.adc(&self.m);
                let mut h = s.shr(1);
                if c {
                    h.0[3] |= 1 << 63;
                }
                h
            } else {
                x.shr(1)
            }
        };
        while u != ONE && v != ONE {
            while !u.is_odd() {
                u = u.shr(1);
                x1 = halve(&x1);
            }
            while !v.is_odd() {
                v = v.shr(1);
                x2 = halve(&x2);
            }
            if u >= v {
                u = u.wsub(&v);
                x1 = self.sub(&x1, &x2);
            } else {
                v = v.wsub(&u);
                x2 = self.sub(&x2, &x1);
            }
        }
        if u == ONE {
            x1
        } else {
            x2
        }
    }
}

pub fn half_order() -> U {
    N.shr(1) // (n-1)/2
}
pub fn p_minus_n() -> U {
    P.wsub(&N)
}

/// square root mod p (p = 3 mod 4)
pub fn sqrt_p(a: &U) -> Option<U> {
    let e = P.wadd(&ONE).shr(2); // (p+1)/4
    let r = FP.pow(a, &e);
    if FP.sqr(&r) == *a {
        Some(r)
    } else {
        None
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Pt {
    Inf,
    A(U, U),
}

pub const G: Pt = Pt::A(GX, GY);

pub fn curve_rhs(x: &U) -> U {
    FP.add(&FP.mul(&FP.sqr(x), x), &U::from_u64(7))
}
pub fn on_curve(x: &U, y: &U) -> bool {
    *x < P && *y < P && FP.sqr(y) == curve_rhs(x)
}
pub fn lift_x(x: &U, odd: bool) -> Option<Pt> {
    if *x >= P {
        return None;
    }
    let y = sqrt_p(&curve_rhs(x))?;
    let y = if y.is_odd() != odd { FP.neg(&y) } else { y };
    Some(Pt::A(*x, y))
}

impl Pt {
    pub fn neg(&self) -> Pt {
        match self {
            Pt::Inf => Pt::Inf,
            Pt::A(x, y) => Pt::A(*x, FP.neg(y)),
        }
    }
    /// textbook affine chord-and-tangent addition
    pub fn add(&self, o: &Pt) -> Pt {
        let (x1, y1, x2, y2) = match (self, o) {
            (Pt::Inf, _) => return *o,
            (_, Pt::Inf) => return *self,
            (Pt::A(a, b), Pt::A(c, d)) => (a, b, c, d),
        };
        let l = if x1 == x2 {
            if y1 != y2 || y1.is_zero() {
                return Pt::Inf;
            }
            let num = FP.mul(&U::from_u64(3), &FP.sqr(x1));
            FP.mul(&num, &FP.inv(&FP.add(y1, y1)))
        } else {
            FP.mul(&FP.sub(y2, y1), &FP.inv(&FP.sub(x2, x1)))
        };
        let x3 = FP.sub(&FP.sub(&FP.sqr(&l), x1), x2);
        let y3 = FP.sub(&FP.mul(&l, &FP.sub(x1, &x3)), y1);
        Pt::A(x3, y3)
    }
    pub fn x(&self) -> U {
        match self {
            Pt::A(x, _) => *x,
            Pt::Inf => panic!("x of infinity"),
        }
    }
    pub fn y(&self) -> U {
        match self {
            Pt::A(_, y) => *y,
            Pt::Inf => panic!("y of infinity"),
        }
    }
    pub fn is_inf(&self) -> bool {
        *self == Pt::Inf
    }
    pub fn mul(&self, k: &U) -> Pt {
        let base = match self {
            Pt::Inf => return Pt::Inf,
            Pt::A(..) => J::from(self),
        };
        // 4-bit fixed window
        let mut t = [J::INF; 16];
        for i in 1..16 {
            t[i] = t[i - 1].add(&base);
        }
        let mut r = J::INF;
        for w in (0..64).rev() {
            for _ in 0..4 {
                r = r.dbl();
            }
            r = r.add(&t[k.bits(4 * w, 4) as usize]);
        }
        r.affine()
    }
    pub fn full(&self) -> [u8; 65] {
        let mut r = [0u8; 65];
        r[0] = 4;
        r[1..33].copy_from_slice(&self.x().be());
        r[33..].copy_from_slice(&self.y().be());
        r
    }
    pub fn compressed(&self) -> [u8; 33] {
        let mut r = [0u8; 33];
        r[0] = 2 + self.y().is_odd() as u8;
        r[1..].copy_from_slice(&self.x().be());
        r
    }
}

/// Jacobian coordinates (x = X/Z^2, y = Y/Z^3), Z = 0 is infinity.
#[derive(Clone, Copy)]
struct J {
    x: U,
    y: U,
    z: U,
}
impl J {
    const INF: J = J {
        x: ONE,
        y: ONE,
        z: ZERO,
    };
    fn from(p: &Pt) -> J {
        match p {
            Pt::Inf => J::INF,
            Pt::A(x, y) => J {
                x: *x,
                y: *y,
                z: ONE,
            },
        }
    }
    fn dbl(&self) -> J {
        if self.z.is_zero() {
            return J::INF;
        }
        let a = FP.sqr(&self.x);
        let b = FP.sqr(&self.y);
        let c = FP.sqr(&b);
        let xb = FP.mul(&self.x, &b);
        let s = FP.add(&xb, &xb);
        let s = FP.add(&s, &s); // 4 x y^2
        let m = FP.add(&FP.add(&a, &a), &a); // 3 x^2
        let x3 = FP.sub(&FP.sqr(&m), &FP.add(&s, &s));
        let c2 = FP.add(&c, &c);
        let c4 = FP.add(&c2, &c2);
        let c8 = FP.add(&c4, &c4);
        let y3 = FP.sub(&FP.mul(&m, &FP.sub(&s, &x3)), &c8);
        let yz = FP.mul(&self.y, &self.z);
        J {
            x: x3,
            y: y3,
            z: FP.add(&yz, &yz),
        }
    }
    fn add(&self, o: &J) -> J {
        if self.z.is_zero() {
            return *o;
        }
        if o.z.is_zero() {
            return *self;
        }
        let z1z1 = FP.sqr(&self.z);
        let z2z2 = FP.sqr(&o.z);
        let u1 = FP.mul(&self.x, &z2z2);
        let u2 = FP.mul(&o.x, &z1z1);
        let s1 = FP.mul(&FP.mul(&self.y, &o.z), &z2z2);
        let s2 = FP.mul(&FP.mul(&o.y, &self.z), &z1z1);
        let h = FP.sub(&u2, &u1);
        let r = FP.sub(&s2, &s1);
        if h.is_zero() {
            if r.is_zero() {
                return self.dbl();
            }
            return J::INF;
        }
        let hh = FP.sqr(&h);
        let hhh = FP.mul(&hh, &h);
        let v = FP.mul(&u1, &hh);
        let x3 = FP.sub(&FP.sub(&FP.sqr(&r), &hhh), &FP.add(&v, &v));
        let y3 = FP.sub(&FP.mul(&r, &FP.sub(&v, &x3)), &FP.mul(&s1, &hhh));
        J {
            x: x3,
            y: y3,
            z: FP.mul(&FP.mul(&self.z, &o.z), &h),
        }
    }
    fn affine(&self) -> Pt {
        if self.z.is_zero() {
            return Pt::Inf;
        }
        let zi = FP.inv(&self.z);
        let zi2 = FP.sqr(&zi);
        Pt::A(FP.mul(&self.x, &zi2), FP.mul(&self.y, &FP.mul(&zi2, &zi)))
    }
}

fn gtable() -> &'static Vec<[J; 16]> {
    static T: OnceLock<Vec<[J; 16]>> = OnceLock::new();
    T.get_or_init(|| {
        let mut base = G;
        let mut out = Vec::new();
        for _ in 0..64 {
            let mut row = [J::INF; 16];
            let mut acc = Pt::Inf;
            for e in row.iter_mut() {
                *e = J::from(&acc);
                acc = acc.add(&base);
            }
            out.push(row);
            base = acc; // 16 * base
        }
        out
    })
}

/// k*G
pub fn gmul(k: &U) -> Pt {
    let t = gtable();
    let mut r = J::INF;
    for w in 0..64 {
        r = r.add(&t[w][k.bits(4 * w, 4) as usize]);
    }
    r.affine()
}

/// a*A + b*G
pub fn lincomb(a: &U, pt: &Pt, b: &U) -> Pt {
    pt.mul(a).add(&gmul(b))
}

// Endomorphism constants: lambda^3 = 1 mod n, beta^3 = 1 mod p, lambda*(x,y) = (beta*x, y)
pub const LAMBDA: U = U([
    0xDF02967C1B23BD72,
    0x122E22EA20816678,
    0xA5261C028812645A,
    0x5363AD4CC05C30E0,
]);
pub const BETA: U = U([
    0xC1396C28719501EE,
    0x9CF0497512F58995,
    0x6E64479EAC3434E9,
    0x7AE96A2B657C0710,
]);

// ---------------------------------------------------------------- ECDSA

/// SEC 1 verification, no low-s rule. r, s, z in [0, n-1].
pub fn ecdsa_verify(z: &U, r: &U, s: &U, q: &Pt) -> bool {
    if r.is_zero() || s.is_zero() || *r >= N || *s >= N {
        return false;
    }
    let w = FN.inv(s);
    let rp = lincomb(&FN.mul(r, &w), q, &FN.mul(z, &w));
    match rp {
        Pt::Inf => false,
        Pt::A(x, _) => FN.red(x) == *r,
    }
}

/// SEC 1 public key recovery.
pub fn ecdsa_recover(z: &U, r: &U, s: &U, id: u8) -> Option<Pt> {
    if r.is_zero() || s.is_zero() || *r >= N || *s >= N {
        return None;
    }
    let x = if id & 2 != 0 {
        let (x, c) = r.adc(&N);
        if c || x >= P {
            return None;
        }
        x
    } else {
        *r
    };
    let rp = lift_x(&x, id & 1 != 0)?;
    let ri = FN.inv(r);
    let q = lincomb(&FN.mul(s, &ri), &rp, &FN.neg(&FN.mul(z, &ri)));
    if q.is_inf() {
        None
    } else {
        Some(q)
    }
}

/// Sign with a given nonce; low-s. None if r or s is zero.
pub fn ecdsa_sign_k(d: &U, z: &U, k: &U) -> Option<(U, U, u8)> {
    let rp = gmul(k);
    let (x, y) = match rp {
        Pt::Inf => return None,
        Pt::A(x, y) => (x, y),
    };
    let r = FN.red(x);
    if r.is_zero() {
        return None;
    }
    let mut id = (if x >= N { 2 } else { 0 }) | y.is_odd() as u8;
    let mut s = FN.mul(&FN.inv(k), &FN.add(z, &FN.mul(&r, d)));
    if s.is_zero() {
        return None;
    }
    if s > half_order() {
        s = FN.neg(&s);
        id ^= 1;
    }
    Some((r, s, id))
}

pub fn hmac_sha256(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    use sha2::{Digest, Sha256};
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&Sha256::digest(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut h = Sha256::new();
    h.update(&k.iter().map(|b| b ^ 0x36).collect::<Vec<u8>>());
    for p in parts {
        h.update(p);
    }
    let inner = h.finalize();
    let mut h = Sha256::new();
    h.update(&k.iter().map(|b| b ^ 0x5c).collect::<Vec<u8>>());
    h.update(&inner);
    let mut r = [0u8; 32];
    r.copy_from_slice(&h.finalize());
    r
}

/// RFC 6979 section 3.2 nonce sequence for qlen = hlen = 256.
pub struct Rfc6979 {
    k: [u8; 32],
    v: [u8; 32],
    first: bool,
}
impl Rfc6979 {
    pub fn new(d: &U, z: &U) -> Rfc6979 {
        let (db, zb) = (d.be(), z.be());
        let mut k = [0u8; 32];
        let mut v = [1u8; 32];
        k = hmac_sha256(&k, &[&v, &[0], &db, &zb]);
        v = hmac_sha256(&k, &[&v]);
        k = hmac_sha256(&k, &[&v, &[1], &db, &zb]);
        v = hmac_sha256(&k, &[&v]);
        Rfc6979 { k, v, first: true }
    }
    pub fn next(&mut self) -> U {
        loop {
            if !self.first {
                self.k = hmac_sha256(&self.k, &[&self.v, &[0]]);
                self.v = hmac_sha256(&self.k, &[&self.v]);
            }
            self.first = false;
            self.v = hmac_sha256(&self.k, &[&self.v]);
            let c = U::from_be(&self.v);
            if !c.is_zero() && c < N {
                return c;
            }
        }
    }
}

/// d in [1, n-1], z already reduced mod n
pub fn ecdsa_sign(d: &U, z: &U) -> (U, U, u8) {
    let mut g = Rfc6979::new(d, z);
    loop {
        let k = g.next();
        if let Some(r) = ecdsa_sign_k(d, z, &k) {
            return r;
        }
    }
}

// ---------------------------------------------------------------- encodings

/// Reference public key decoder. fmt: None / Some(33|65|64).
/// Err(true) = wrong length, Err(false) = invalid key.
pub fn parse_pubkey(b: &[u8], fmt: Option<usize>) -> Result<Pt, bool> {
    if let Some(f) = fmt {
        if b.len() != f {
            return Err(true);
        }
    }
    match b.len() {
        65 => {
            let (x, y) = (U::from_slice(&b[1..33]), U::from_slice(&b[33..]));
            let tag_ok = match b[0] {
                4 => true,
                6 => !y.is_odd(),
                7 => y.is_odd(),
                _ => false,
            };
            if tag_ok && on_curve(&x, &y) {
                Ok(Pt::A(x, y))
            } else {
                Err(false)
            }
        }
        64 => {
            let (x, y) = (U::from_slice(&b[..32]), U::from_slice(&b[32..]));
            if on_curve(&x, &y) {
                Ok(Pt::A(x, y))
            } else {
                Err(false)
            }
        }
        33 => {
            if b[0] != 2 && b[0] != 3 {
                return Err(false);
            }
            lift_x(&U::from_slice(&b[1..]), b[0] == 3).ok_or(false)
        }
        _ => Err(true),
    }
}

/// minimal big-endian two's complement content octets of a non-negative integer
pub fn der_int(v: &U) -> Vec<u8> {
    let b = v.be();
    let mut i = 0;
    while i < 31 && b[i] == 0 {
        i += 1;
    }
    let mut out = Vec::new();
    if b[i] & 0x80 != 0 {
        out.push(0);
    }
    out.extend_from_slice(&b[i..]);
    out
}
pub fn der_sig(r: &U, s: &U) -> Vec<u8> {
    let (a, b) = (der_int(r), der_int(s));
    let mut out = vec![0x30, (4 + a.len() + b.len()) as u8, 2, a.len() as u8];
    out.extend_from_slice(&a);
    out.push(2);
    out.push(b.len() as u8);
    out.extend_from_slice(&b);
    out
}

/// integer content octets -> value if in [0, n-1]
fn int_value(c: &[u8]) -> Option<U> {
    let mut i = 0;
    while i < c.len() && c[i] == 0 {
        i += 1;
    }
    let c = &c[i..];
    if c.len() > 32 {
        return None;
    }
    let mut b = [0u8; 32];
    b[32 - c.len()..].copy_from_slice(c);
    let v = U::from_be(&b);
    if v < N {
        Some(v)
    } else {
        None
    }
}

/// X.690 DER length octets: definite, minimal.
fn der_len(b: &[u8]) -> Option<(usize, &[u8])> {
    let f = *b.first()?;
    if f < 0x80 {
        return Some((f as usize, &b[1..]));
    }
    if f == 0x80 || f == 0xff {
        return None;
    }
    let k = (f & 0x7f) as usize;
    if b.len() < 1 + k {
        return None;
    }
    let l = &b[1..1 + k];
    if l[0] == 0 {
        return None; // not minimal
    }
    if k > 8 {
        return None; // cannot fit any buffer
    }
    let mut v: u128 = 0;
    for x in l {
        v = (v << 8) | *x as u128;
    }
    if v < 128 || v > usize::MAX as u128 {
        return None;
    }
    Some((v as usize, &b[1 + k..]))
}

fn der_integer(b: &[u8]) -> Option<(&[u8], &[u8])> {
    if *b.first()? != 2 {
        return None;
    }
    let (l, rest) = der_len(&b[1..])?;
    if l == 0 || l > rest.len() {
        return None;
    }
    let (c, rest) = rest.split_at(l);
    if l > 1 && c[0] == 0 && c[1] & 0x80 == 0 {
        return None; // padding
    }
    if l > 1 && c[0] == 0xff && c[1] & 0x80 != 0 {
        return None; // padding of a negative number
    }
    Some((c, rest))
}

/// Strict DER ECDSA-Sig-Value. None = malformed; component None = outside [0, n-1].
pub fn parse_der(b: &[u8]) -> Option<(Option<U>, Option<U>)> {
    if *b.first()? != 0x30 {
        return None;
    }
    let (l, rest) = der_len(&b[1..])?;
    if l != rest.len() {
        return None;
    }
    let (r, rest) = der_integer(rest)?;
    let (s, rest) = der_integer(rest)?;
    if !rest.is_empty() {
        return None;
    }
    let v = |c: &[u8]| if c[0] & 0x80 != 0 { None } else { int_value(c) };
    Some((v(r), v(s)))
}

/// Bitcoin's ecdsa_signature_parse_der_lax.
pub fn parse_der_lax(b: &[u8]) -> Option<(Option<U>, Option<U>)> {
    let mut pos = 0usize;
    let len = b.len();
    if pos == len || b[pos] != 0x30 {
        return None;
    }
    pos += 1;
    if pos == len {
        return None;
    }
    let lb = b[pos];
    pos += 1;
    if lb & 0x80 != 0 {
        let k = (lb - 0x80) as usize;
        if k > len - pos {
            return None;
        }
        pos += k;
    }
    let mut ints: [Option<U>; 2] = [None; 2];
    for slot in ints.iter_mut() {
        if pos == len || b[pos] != 2 {
            return None;
        }
        pos += 1;
        if pos == len {
            return None;
        }
        let lb = b[pos];
        pos += 1;
        let mut il: usize;
        if lb & 0x80 != 0 {
            let mut k = (lb - 0x80) as usize;
            if k > len - pos {
                return None;
            }
            while k > 0 && b[pos] == 0 {
                pos += 1;
                k -= 1;
            }
            if k >= std::mem::size_of::<usize>() {
                return None;
            }
            il = 0;
            while k > 0 {
                il = (il << 8) + b[pos] as usize;
                pos += 1;
                k -= 1;
            }
        } else {
            il = lb as usize;
        }
        if il > len - pos {
            return None;
        }
        *slot = int_value(&b[pos..pos + il]);
        pos += il;
    }
    Some((ints[0], ints[1]))
}

// ---------------------------------------------------------------- base64 (RFC 4648, padded, canonical)

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64enc(d: &[u8]) -> String {
    let mut s = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16
            | (*c.get(1).unwrap_or(&0) as u32) << 8
            | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(B64[((v >> (18 - 6 * i)) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
/// canonical decoding: padding required, trailing bits zero
pub fn b64dec(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let mut out = Vec::new();
    let nch = b.len() / 4;
    for (ci, c) in b.chunks(4).enumerate() {
        let pad = if ci + 1 == nch {
            c.iter().rev().take_while(|x| **x == b'=').count()
        } else {
            0
        };
        if pad > 2 {
            return None;
        }
        let mut v = 0u32;
        for (i, x) in c.iter().enumerate() {
            let d = if i >= 4 - pad {
                0
            } else {
                B64.iter().position(|y| y == x)? as u32
            };
            v = v << 6 | d;
        }
        let bytes = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
        for i in 3 - pad..3 {
            if bytes[i] != 0 {
                return None;
            }
        }
        out.extend_from_slice(&bytes[..3 - pad]);
    }
    Some(out)
}
