//! Generators.  All randomness comes from the `Rg` handed in (proptest's RNG).
//! Every generator is biased to the places where 256-bit modular arithmetic on
//! 26/32/64-bit limbs, windowed multiplication and ECDSA have special cases.

use crate::refm::*;
use crate::run::Rg;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// bytes that serialise as a hex string (so that the generic shrinker understands them)
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Hx(pub Vec<u8>);
impl std::fmt::Debug for Hx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", hex(&self.0))
    }
}
impl Serialize for Hx {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> Deserialize<'de> for Hx {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Hx, D::Error> {
        let s = String::deserialize(d)?;
        unhex(&s)
            .map(Hx)
            .ok_or_else(|| serde::de::Error::custom("hex"))
    }
}

fn small(rg: &Rg) -> U {
    match rg.below(4) {
        0 => U::from_u64(rg.below(4)),
        1 => U::from_u64(rg.below(64)),
        2 => U::from_u64(rg.below(1 << 17)),
        _ => {
            let k = rg.range(0, 130) as usize;
            U::from_be(&arr(&rg.bytes(32))).shr(255 - k)
        }
    }
}
pub fn arr(b: &[u8]) -> [u8; 32] {
    let mut a = [0u8; 32];
    a.copy_from_slice(b);
    a
}
pub fn random(rg: &Rg) -> U {
    seasoned(rg, U([rg.u64(), rg.u64(), rg.u64(), rg.u64()]))
}

/// part of a 32-byte argument as the library compared it with something else
/// (only the guided search collects them)
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Word {
    pub mask: [u8; 32],
    pub value: [u8; 32],
}
impl Word {
    pub fn bytes(at: usize, b: &[u8]) -> Word {
        let mut w = Word { mask: [0; 32], value: [0; 32] };
        w.mask[at..at + b.len()].iter_mut().for_each(|x| *x = 0xff);
        w.value[at..at + b.len()].copy_from_slice(b);
        w
    }
    /// bits `off..off+cnt` of the number
    pub fn bits(off: usize, cnt: usize, v: u64) -> Word {
        let m = U::from_u64((1 << cnt) - 1).shl(off);
        Word { mask: m.be(), value: U::from_u64(v).shl(off).be() }
    }
    pub fn put(&self, b: &mut [u8]) {
        for i in 0..32 {
            b[i] = b[i] & !self.mask[i] | self.value[i];
        }
    }
}
thread_local! {
    static WORDS: std::cell::RefCell<Vec<Word>> = const { std::cell::RefCell::new(vec![]) };
}
pub fn learn(w: Word) {
    WORDS.with(|d| d.borrow_mut().push(w));
}
pub fn forget() {
    WORDS.with(|d| d.borrow_mut().clear());
}
fn seasoned(rg: &Rg, v: U) -> U {
    WORDS.with(|d| {
        let d = d.borrow();
        if d.is_empty() || !rg.one_in(4) {
            return v;
        }
        let mut b = v.be();
        for _ in 0..rg.pick(&[1, 1, 1, 2, 2, 4, 8]) {
            // the latest words come from the deepest places
            let k = d.len();
            let w = &d[if rg.coin() { k - 1 - rg.idx(k.min(8)) } else { rg.idx(k) }];
            w.put(&mut b);
        }
        U::from_be(&b)
    })
}

fn anchors(rg: &Rg) -> U {
    let a = [
        ZERO,
        N,
        P,
        half_order(),
        half_order().wadd(&ONE),
        MAX,
        p_minus_n(),
        U::pow2(255),
        P.shr(1),
        LAMBDA,
        N.wsub(&LAMBDA),
        FN.sqr(&LAMBDA),
        BETA,
        FP.sqr(&BETA),
        NC,
        PC,
        GX,
        GY,
        N.wadd(&N.wsub(&P)), // 2n - p
        U::pow2(128),
        FN.inv(&U::from_u64(2)),
        FP.inv(&U::from_u64(2)),
        // the generator table's blinding scalar and its negation
        GEN_BLIND,
        N.wsub(&GEN_BLIND),
    ];
    rg.pick(&a)
}

pub const GEN_BLIND: U = U([
    850875797 << 32 | 2217680822,
    1330484644 << 32 | 1046150361,
    2466086288 << 32 | 4015777837,
    2084507480 << 32 | 2052467175,
]);

/// limbs of `w` bits, each drawn from a small set of special values
fn limb_pattern(rg: &Rg, w: usize) -> U {
    let mask: u64 = if w == 64 { u64::MAX } else { (1 << w) - 1 };
    let base = [N, P, NC, half_order(), GEN_BLIND][rg.idx(5)];
    let mut r = ZERO;
    let mut off = 0;
    let style = rg.below(4);
    while off < 256 {
        let cnt = w.min(256 - off);
        let m = if cnt == 64 { u64::MAX } else { (1 << cnt) - 1 };
        let b = if cnt == 64 {
            base.0[off / 64]
        } else {
            base.bits(off, cnt)
        };
        let v = match (style, rg.below(10)) {
            (0, k) if k < 8 => rg.pick(&[0, mask]),
            (1, k) if k < 8 => rg.pick(&[b, b.wrapping_add(1), b.wrapping_sub(1), mask]),
            (_, 0) | (_, 1) => 0,
            (_, 2) | (_, 3) => mask,
            (_, 4) => 1,
            (_, 5) => mask - 1,
            (_, 6) => 1 << (w - 1),
            (_, 7) => (1 << (w - 1)) - 1,
            (_, 8) => b,
            _ => rg.u64(),
        } & m;
        for i in 0..cnt {
            if (v >> i) & 1 == 1 {
                r.0[(off + i) / 64] |= 1 << ((off + i) % 64);
            }
        }
        off += w;
    }
    r
}

/// alternating runs of zeros and ones
fn bit_runs(rg: &Rg) -> U {
    let mut r = ZERO;
    let mut bit = rg.coin();
    let mut i = 0usize;
    let maxrun = rg.pick(&[4u64, 16, 40, 130, 256]);
    while i < 256 {
        let l = 1 + rg.below(maxrun) as usize;
        for _ in 0..l {
            if i < 256 && bit {
                r.0[i / 64] |= 1 << (i % 64);
            }
            i += 1;
        }
        bit = !bit;
    }
    r
}

/// the same digit repeated in every window, or only a few non-zero windows
fn windows(rg: &Rg) -> U {
    let w = rg.pick(&[1usize, 2, 4, 5, 8, 15, 16, 17]);
    let mut r = ZERO;
    let digit = match rg.below(4) {
        0 => (1u64 << w) - 1,
        1 => 1u64 << (w - 1),
        _ => rg.below(1 << w),
    };
    let sparse = rg.coin();
    let start = if rg.coin() { 0 } else { rg.below(w as u64) as usize };
    let mut off = start;
    while off + w <= 256 {
        let d = if sparse && !rg.one_in(8) {
            0
        } else if rg.one_in(4) {
            rg.below(1 << w)
        } else {
            digit
        };
        for i in 0..w {
            if (d >> i) & 1 == 1 {
                r.0[(off + i) / 64] |= 1 << ((off + i) % 64);
            }
        }
        off += w;
    }
    r
}

/// any 256-bit integer
pub fn u256(rg: &Rg) -> U {
    let v = plain(rg);
    seasoned(rg, v)
}
fn plain(rg: &Rg) -> U {
    match rg.below(16) {
        0..=3 => random(rg),
        4..=6 => {
            let a = anchors(rg);
            let d = small(rg);
            match rg.below(3) {
                0 => a.wadd(&d),
                1 => a.wsub(&d),
                _ => a,
            }
        }
        7 => small(rg),
        8 | 9 => {
            let w = rg.pick(&[32usize, 26, 64]);
            limb_pattern(rg, w)
        }
        10 => bit_runs(rg),
        11 => {
            let a = U::pow2(rg.idx(256));
            match rg.below(4) {
                0 => a,
                1 => a.wsub(&small(rg)),
                2 => a.wadd(&small(rg)),
                _ => a.wadd(&U::pow2(rg.idx(256))),
            }
        }
        12 => windows(rg),
        13 => {
            // small fraction a/b mod n or p
            let m = if rg.coin() { FN } else { FP };
            let (a, b) = (U::from_u64(1 + rg.below(64)), U::from_u64(1 + rg.below(64)));
            let v = m.mul(&a, &m.inv(&b));
            if rg.coin() {
                m.neg(&v)
            } else {
                v
            }
        }
        14 => {
            // u + v * lambda with short u, v
            let (u, v) = (small(rg), small(rg));
            FN.add(&FN.red(u), &FN.mul(&FN.red(v), &LAMBDA))
        }
        _ => random(rg).shr(rg.idx(256)),
    }
}

pub fn scalar(rg: &Rg) -> U {
    let v = u256(rg);
    if v >= N {
        // keep the neighbourhood of n visible on the canonical side as well
        if rg.coin() {
            FN.red(v)
        } else {
            FN.neg(&FN.red(v))
        }
    } else {
        v
    }
}
pub fn seckey(rg: &Rg) -> U {
    let v = scalar(rg);
    if v.is_zero() {
        ONE
    } else {
        v
    }
}
pub fn felem(rg: &Rg) -> U {
    let v = u256(rg);
    if v >= P {
        FP.red(v)
    } else {
        v
    }
}

/// cube root mod p (p = 7 mod 9), if it exists
pub fn cbrt_p(a: &U) -> Option<U> {
    // e = (p + 2) / 9
    let mut e = ZERO;
    let mut rem = 0u64;
    let n = P.wadd(&U::from_u64(2));
    for i in (0..256).rev() {
        rem = rem * 2 + n.bit(i) as u64;
        if rem >= 9 {
            rem -= 9;
            e.0[i / 64] |= 1 << (i % 64);
        }
    }
    let r = FP.pow(a, &e);
    if FP.mul(&FP.sqr(&r), &r) == *a {
        Some(r)
    } else {
        None
    }
}

/// point with x the first valid coordinate at or after `x`
pub fn lift_near(x: U, odd: bool) -> Pt {
    let mut x = FP.red(x);
    loop {
        if let Some(p) = lift_x(&x, odd) {
            return p;
        }
        x = FP.add(&x, &ONE);
    }
}

/// any finite curve point
pub fn point(rg: &Rg) -> Pt {
    match rg.below(12) {
        0 | 1 => gmul(&seckey(rg)),
        2 => {
            let k = U::from_u64(1 + rg.below(40));
            gmul(&if rg.coin() { FN.neg(&k) } else { k })
        }
        3..=5 => lift_near(random(rg), rg.coin()),
        6 | 7 => {
            let x = felem(rg);
            lift_near(x, rg.coin())
        }
        8 => {
            // x in [n, p)
            let d = random(rg).shr(128).wadd(&ONE);
            lift_near(if rg.coin() { N.wadd(&small(rg)) } else { P.wsub(&d) }, rg.coin())
        }
        9 => lift_near(small(rg), rg.coin()),
        10 => {
            // special y
            let mut y = felem(rg);
            loop {
                let c = FP.sub(&FP.sqr(&y), &U::from_u64(7));
                if let Some(x) = cbrt_p(&c) {
                    if on_curve(&x, &y) {
                        // any of the three x with this y
                        let x = match rg.below(3) {
                            0 => x,
                            1 => FP.mul(&x, &BETA),
                            _ => FP.mul(&x, &FP.sqr(&BETA)),
                        };
                        return Pt::A(x, y);
                    }
                }
                y = FP.add(&y, &ONE);
            }
        }
        _ => {
            let p = lift_near(P.wsub(&small(rg)), rg.coin());
            p
        }
    }
}

/// a point standing in a special relation to `p` (or unrelated)
pub fn related(rg: &Rg, p: &Pt) -> Pt {
    match rg.below(12) {
        0 => *p,
        1 => p.neg(),
        2 => endo(p),
        3 => endo(p).neg(),
        4 => endo(&endo(p)),
        5 => endo(&endo(p)).neg(),
        6 => p.add(p),
        7 => p.add(p).neg(),
        8 => p.add(&G),
        _ => point(rg),
    }
}
/// lambda * p = (beta * x, y)
pub fn endo(p: &Pt) -> Pt {
    match p {
        Pt::Inf => Pt::Inf,
        Pt::A(x, y) => Pt::A(FP.mul(x, &BETA), *y),
    }
}

// ------------------------------------------------------------ products

/// floor(t / a) for a 512-bit t, truncated to 256 bits (None when it does not fit)
fn div_wide(t: &[u64; 8], a: &U) -> Option<U> {
    if a.is_zero() {
        return None;
    }
    let hi = U([t[4], t[5], t[6], t[7]]);
    if hi >= *a {
        return None;
    }
    let lo = U([t[0], t[1], t[2], t[3]]);
    let mut rem = hi;
    let mut q = ZERO;
    for i in (0..256).rev() {
        let top = rem.bit(255);
        rem = rem.shl(1);
        if lo.bit(i) {
            rem.0[0] |= 1;
        }
        if top || rem >= *a {
            rem = rem.wsub(a);
            q.0[i / 64] |= 1 << (i % 64);
        }
    }
    Some(q)
}
/// inverse of an odd a modulo 2^256
fn inv_pow2(a: &U) -> U {
    let mut x = ONE;
    for _ in 0..8 {
        let ax = lo(a.mul_wide(&x));
        let t = U::from_u64(2).wsub(&ax);
        x = lo(x.mul_wide(&t));
    }
    x
}
fn lo(w: [u64; 8]) -> U {
    U([w[0], w[1], w[2], w[3]])
}

/// two factors below m = 2^256 - c whose product has (almost always) the given high half
fn with_high(rg: &Rg, m: &Md, hi: &U) -> Option<(U, U)> {
    let a = m.m.wsub(&ONE).wsub(&random(rg).shr(33));
    let t = [u64::MAX, u64::MAX, u64::MAX, u64::MAX, hi.0[0], hi.0[1], hi.0[2], hi.0[3]];
    div_wide(&t, &a).filter(|b| *b < m.m).map(|b| (a, b))
}
/// Factors that make a schoolbook reduction modulo n, folding the high half in with multiples of
/// 2^256 - n word by word, meet a column sum whose middle word is all ones when the last word is
/// added: the carry then has to travel two words.  (Chance hits that with probability 2^-36.  It
/// needs four products of words near 2^32, since the words of 2^256 - n are about 2^30; the second
/// fold has fewer products per column and cannot reach it.)
pub fn carry_pair(rg: &Rg) -> Option<(U, U)> {
    let cw = ZERO.wsub(&N).limbs32();
    let mut n = [0u32; 8];
    for w in n.iter_mut() {
        *w = rg.below(1 << 32) as u32;
    }
    let k = 4 + rg.idx(4);
    n[k - 4] = u32::MAX - rg.below(1 << rg.idx(31)) as u32;
    let free = k - 3 + rg.idx(4);
    let mut rest = 0u128;
    for j in k - 3..=k {
        n[j] = u32::MAX - rg.below(0x0600_0000) as u32;
        if j == 7 {
            n[j] = n[j].min(u32::MAX - 1);
        }
        if j != free {
            rest += n[j] as u128 * cw[k - j] as u128;
        }
    }
    // what comes from below: the previous columns' carry and one word
    let below = rg.below(1 << 34) as u128;
    let goal = (1u128 << 64) - (1 << 32) + (rg.below(1 << 32) as u128);
    let w = goal.checked_sub(rest + below)? / cw[k - free] as u128;
    n[free] = u32::try_from(w).ok()?;
    with_high(rg, &FN, &U::from_limbs32(&n))
}
/// the sites (0..4) at which a reduction of a * b meets that carry
pub fn carry_sites(a: &U, b: &U) -> [bool; 4] {
    let cw = ZERO.wsub(&N).limbs32();
    let w = a.mul_wide(b);
    let l: Vec<u128> = (0..16).map(|i| (w[i / 2] >> (32 * (i % 2)) & 0xffff_ffff) as u128).collect();
    let mut acc = 0u128;
    let mut hit = [false; 4];
    for k in 0..8 {
        acc += l[k];
        for j in k.saturating_sub(3)..=k {
            acc += l[8 + j] * cw[k - j] as u128;
        }
        if k >= 4 {
            let n = l[8 + k - 4];
            hit[k - 4] = (acc >> 32) & 0xffff_ffff == 0xffff_ffff && (acc & 0xffff_ffff) + n > 0xffff_ffff;
            acc += n;
        }
        acc >>= 32;
    }
    hit
}

/// a pair of residues whose product (or its reduction) lies near a boundary
pub fn mul_pair(rg: &Rg, m: &Md) -> (U, U) {
    let a = m.red(u256(rg));
    let b = m.red(u256(rg));
    match rg.below(8) {
        0 | 1 => (a, b),
        2 => {
            // a*b = edge value (mod m)
            let t = m.red(u256(rg));
            if a.is_zero() {
                return (a, b);
            }
            (a, m.mul(&t, &m.inv(&a)))
        }
        3 | 4 => {
            // the high half of the product is a chosen pattern
            let a = if a.shr(200).is_zero() { m.m.wsub(&ONE).wsub(&a) } else { a };
            let hi = u256(rg);
            let hi = if hi >= a { hi.shr(1 + rg.idx(3)) } else { hi };
            let l = u256(rg);
            let t = [
                l.0[0], l.0[1], l.0[2], l.0[3], hi.0[0], hi.0[1], hi.0[2], hi.0[3],
            ];
            match div_wide(&t, &a) {
                Some(q) => (a, m.red(q)),
                None => (a, b),
            }
        }
        5 => {
            // the low half of the product is a chosen pattern
            let a = U([a.0[0] | 1, a.0[1], a.0[2], a.0[3]]);
            let t = u256(rg);
            (m.red(a), m.red(lo(inv_pow2(&a).mul_wide(&t))))
        }
        6 => {
            // small a, b near (k*m + d)/a: the unreduced product is next to a multiple of m
            let a = U::from_u64(2 + rg.below(1 << 20));
            let k = U::from_u64(1 + rg.below(a.0[0]));
            let w = k.mul_wide(&m.m);
            let d = small(rg);
            let (l, c) = lo(w).adc(&d);
            let t = [l.0[0], l.0[1], l.0[2], l.0[3], w[4] + c as u64, 0, 0, 0];
            match div_wide(&t, &a) {
                Some(q) => (a, m.red(q)),
                None => (a, b),
            }
        }
        _ => {
            // powers of two and their neighbours
            let j = rg.idx(256);
            let a = m.red(U::pow2(j));
            (a, if rg.coin() { m.red(U::pow2(rg.idx(256))) } else { b })
        }
    }
}

// ------------------------------------------------------------ byte strings

/// damage a byte string in one of the usual ways
pub fn mutate(rg: &Rg, b: &mut Vec<u8>) {
    let n = b.len();
    match rg.below(8) {
        0 if n > 0 => {
            let i = rg.idx(n);
            b[i] ^= 1 << rg.below(8);
        }
        1 if n > 0 => {
            let i = rg.idx(n);
            b[i] = rg.pick(&[0, 1, 0x7f, 0x80, 0x81, 0xff, 2, 0x30, b[i].wrapping_add(1)]);
        }
        2 if n > 0 => {
            let i = rg.idx(n);
            b.remove(i);
        }
        3 => {
            let i = rg.idx(n + 1);
            let v = rg.pick(&[0u8, 0xff, 0x02, 0x30, 0x80, 0x81, 1]);
            b.insert(i, v);
        }
        4 if n > 0 => {
            let k = rg.idx(n);
            b.truncate(k);
        }
        5 => {
            let k = 1 + rg.idx(4);
            let mut t = rg.bytes(k);
            if rg.coin() {
                t.iter_mut().for_each(|x| *x = 0);
            }
            b.extend(t);
        }
        6 if n > 1 => {
            let (i, j) = (rg.idx(n), rg.idx(n));
            b.swap(i, j);
        }
        _ if n > 0 => {
            let i = rg.idx(n);
            b[i] = rg.u64() as u8;
        }
        _ => b.push(rg.u64() as u8),
    }
}

/// longer by a multiple of 256: the length is right modulo 2^8 or 2^16
pub fn overlong(rg: &Rg, b: &mut Vec<u8>) {
    let more = match rg.below(40) {
        0 => 65536,
        k if k < 30 => 256,
        _ => 256 * (1 + rg.below(8)),
    };
    b.resize(b.len() + more as usize, rg.pick(&[0u8, 0, 1, 0xff]));
}

/// arbitrary bytes, length up to `max`, favouring the lengths given
pub fn any_bytes(rg: &Rg, max: u64, favour: &[usize]) -> Vec<u8> {
    let n = if rg.coin() && !favour.is_empty() {
        let f = rg.pick(favour) as i64 + rg.pick(&[-1i64, 0, 0, 0, 1]);
        f.max(0) as usize
    } else {
        rg.below(max + 1) as usize
    };
    match rg.below(4) {
        0 => vec![rg.pick(&[0u8, 0xff, 0x80, 0x30, 0x02, 1]); n],
        _ => rg.bytes(n),
    }
}
