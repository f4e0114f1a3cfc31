//! C20: field arithmetic in every allowed representation.

use crate::conv::*;
use crate::gen::*;
use crate::refm::*;
use crate::run::{Gen, Group, Obs, Res, Rg};
use crate::{ensure, same};
use libsecp256k1::curve::{Field, FieldStorage};
use serde::{Deserialize, Serialize};

const LIMB: u32 = 0x3ffffff;
const TOP: u32 = 0x3fffff;

/// how a register starts out
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Init {
    kind: u8,
    v: U,
    digits: [u32; 10],
    style: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    op: u8,
    d: u8,
    x: u8,
    y: u8,
    k: u32,
    t: U,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    init: Vec<Init>,
    steps: Vec<Step>,
}

fn digits(rg: &Rg) -> [u32; 10] {
    const PD: [u32; 10] = [
        0x3fffc2f, 0x3ffffbf, LIMB, LIMB, LIMB, LIMB, LIMB, LIMB, LIMB, TOP,
    ];
    let mut d = [0u32; 10];
    let style = rg.below(6);
    for i in 0..10 {
        let m = if i == 9 { TOP } else { LIMB };
        d[i] = match (style, rg.below(8)) {
            (0, _) => 2 * m,
            (1, k) if k < 7 => PD[i],
            (2, k) if k < 7 => 2 * PD[i],
            (3, k) if k < 7 => rg.pick(&[0, m, 2 * m]),
            (_, 0) => 0,
            (_, 1) => m,
            (_, 2) => 2 * m,
            (_, 3) => m + 1,
            (_, 4) => (PD[i] as i64 + rg.pick(&[-1i64, 0, 1, 0x3d0, 0x3d1, 0x40])).clamp(0, 2 * m as i64) as u32,
            (_, 5) => rg.pick(&[1u32, 2, 0x3d0, 0x3d1, 0x40, 0x3f]),
            _ => rg.below(2 * m as u64 + 1) as u32,
        };
    }
    d
}
fn value(rg: &Rg) -> U {
    match rg.below(6) {
        0 => U::from_u64(rg.below(3)),
        1 => FP.neg(&U::from_u64(rg.below(3))),
        // around 2^256 - p and its multiples
        2 => FP.add(&U::from_u64(0x1000003d1u64 * rg.range(1, 66)), &FP.red(U::from_u64(rg.below(3)))),
        _ => felem(rg),
    }
}
fn init(rg: &Rg) -> Init {
    Init { kind: rg.below(6) as u8, v: value(rg), digits: digits(rg), style: rg.u32() & 0x7ff }
}

#[derive(Clone)]
struct Reg {
    f: Field,
    v: U,
    mag: u32,
    norm: bool,
}
fn raw_value(d: &[u32; 10]) -> U {
    let mut v = ZERO;
    for i in (0..10).rev() {
        v = FP.add(&FP.mul(&v, &U::from_u64(1 << 26)), &U::from_u64(d[i] as u64));
    }
    v
}
fn start(i: &Init) -> Option<Reg> {
    if i.v >= P || i.style > 0x7ff {
        return None;
    }
    Some(match i.kind {
        0 => Reg { f: fe(&i.v), v: i.v, mag: 1, norm: true },
        1 => {
            let mut f = Field::default();
            if !f.set_b32(&i.v.be()) {
                return None; // decided by the bytes group
            }
            Reg { f, v: i.v, mag: 1, norm: true }
        }
        2 => Reg { f: fe_raw(&excess_digits(&i.v, i.style)), v: i.v, mag: 1, norm: false },
        3 => {
            let k = i.digits[0] & LIMB;
            Reg { f: Field::from_int(k), v: U::from_u64(k as u64), mag: 1, norm: true }
        }
        4 => Reg { f: FieldStorage(i.v.limbs32()).into(), v: i.v, mag: 1, norm: true },
        _ => {
            for (j, d) in i.digits.iter().enumerate() {
                if *d > 2 * if j == 9 { TOP } else { LIMB } {
                    return None;
                }
            }
            Reg { f: fe_raw(&i.digits), v: raw_value(&i.digits), mag: 1, norm: false }
        }
    })
}

const OPS: u64 = 28;
fn gen_prog(rg: &Rg, len: u64) -> Prog {
    let n = rg.range(2, 4);
    Prog {
        init: (0..n).map(|_| init(rg)).collect(),
        steps: (0..rg.range(1, len))
            .map(|_| Step {
                op: rg.below(OPS) as u8,
                d: rg.below(n) as u8,
                x: rg.below(n) as u8,
                y: rg.below(n) as u8,
                k: rg.u32(),
                t: value(rg),
            })
            .collect(),
    }
}
fn prog_gen(rg: &Rg) -> Prog {
    gen_prog(rg, 24)
}

/// bring a register's magnitude to at most `m`
fn limit(r: &mut Reg, m: u32, how: u32) -> Res {
    if r.mag > m {
        match how % 3 {
            0 => {
                r.f.normalize();
                r.norm = true;
            }
            1 => {
                r.f.normalize_var();
                r.norm = true;
            }
            _ => {
                r.f.normalize_weak();
                r.norm = false;
            }
        }
        r.mag = 1;
        same!(un_fe(&r.f), r.v, "value after normalisation {}", how % 3);
    }
    Ok(())
}
fn normal(r: &mut Reg, how: u32) {
    if !r.norm {
        if how & 1 == 0 {
            r.f.normalize();
        } else {
            r.f.normalize_var();
        }
        r.norm = true;
        r.mag = 1;
    }
}
/// a root of `a`, or of -a
fn root_pair(a: &U) -> (U, bool) {
    match sqrt_p(a) {
        Some(r) => (r, true),
        None => (sqrt_p(&FP.neg(a)).expect("-1 is not a square mod p"), false),
    }
}

fn prog_check(c: &Prog, o: &mut Obs) -> Res {
    let mut r = vec![];
    for i in &c.init {
        match start(i) {
            Some(x) => r.push(x),
            None => return Ok(()),
        }
    }
    let n = r.len();
    if n == 0 {
        return Ok(());
    }
    for (i, x) in r.iter().enumerate() {
        same!(un_fe(&x.f), x.v, "initial register {}", i);
    }
    let mut used = 0;
    for (num, s) in c.steps.iter().enumerate() {
        if s.t >= P {
            return Ok(());
        }
        let (d, x, y) = (s.d as usize % n, s.x as usize % n, s.y as usize % n);
        let at = |w: &str| format!("step {} ({})", num, w);
        used += 1;
        match s.op {
            // addition
            0 | 1 => {
                limit(&mut r[x], 30, s.k)?;
                let room = 31 - r[x].mag;
                limit(&mut r[y], room, s.k / 3)?;
                if r[x].mag + r[y].mag > 31 {
                    continue;
                }
                let (a, b) = (r[x].clone(), r[y].clone());
                let f = match s.k >> 8 & 3 {
                    0 => a.f + b.f,
                    1 => &a.f + &b.f,
                    2 => {
                        let mut t = a.f;
                        t += b.f;
                        t
                    }
                    _ => {
                        let mut t = a.f;
                        t += &b.f;
                        t
                    }
                };
                r[d] = Reg { f, v: FP.add(&a.v, &b.v), mag: a.mag + b.mag, norm: false };
            }
            // negation, with a bound at or above the magnitude
            2 | 3 => {
                let a = r[x].clone();
                let m = if s.k & 1 == 0 { a.mag } else { a.mag + (s.k >> 4) % (32 - a.mag.min(31)) };
                if m > 31 {
                    continue;
                }
                let f = if s.k & 2 == 0 {
                    a.f.neg(m)
                } else {
                    let mut t = r[y].f;
                    t.neg_in_place(&a.f, m);
                    t
                };
                o.label_if(m == 31, "negation at the magnitude limit");
                r[d] = Reg { f, v: FP.neg(&a.v), mag: m + 1, norm: false };
            }
            // small multiples
            4 | 5 => {
                let k = s.k % 32;
                let m = if k == 0 { 31 } else { 31 / k };
                limit(&mut r[x], m, s.k >> 5)?;
                if r[x].mag > m {
                    continue;
                }
                let a = r[x].clone();
                let mut f = a.f;
                f.mul_int(k);
                r[d] = Reg { f, v: FP.mul(&a.v, &U::from_u64(k as u64)), mag: a.mag * k, norm: false };
            }
            // product
            6 | 7 => {
                limit(&mut r[x], 8, s.k)?;
                limit(&mut r[y], 8, s.k / 3)?;
                let (a, b) = (r[x].clone(), r[y].clone());
                o.label_if(a.mag == 8 && b.mag == 8, "product of magnitude-8 operands");
                let f = match s.k >> 8 & 7 {
                    0 => a.f * b.f,
                    1 => &a.f * &b.f,
                    2 => {
                        let mut t = a.f;
                        t *= b.f;
                        t
                    }
                    3 => {
                        let mut t = a.f;
                        t *= &b.f;
                        t
                    }
                    _ => {
                        let mut t = r[d].f;
                        t.mul_in_place(&a.f, &b.f);
                        t
                    }
                };
                r[d] = Reg { f, v: FP.mul(&a.v, &b.v), mag: 1, norm: false };
            }
            // product with a chosen value
            8 => {
                limit(&mut r[x], 8, s.k)?;
                let a = r[x].clone();
                if a.v.is_zero() {
                    continue;
                }
                let b = FP.mul(&s.t, &FP.inv(&a.v));
                let mut g = excess(&b, s.k & 0x7ff);
                g.mul_int(1 + (s.k >> 12) % 8);
                let b = FP.mul(&b, &U::from_u64(1 + ((s.k >> 12) % 8) as u64));
                same!(un_fe(&(&a.f * &g)), FP.mul(&a.v, &b), "{}", at("product"));
                r[d] = Reg { f: &g * &a.f, v: FP.mul(&a.v, &b), mag: 1, norm: false };
            }
            // square
            9 | 10 => {
                limit(&mut r[x], 8, s.k)?;
                let a = r[x].clone();
                let f = if s.k & 32 == 0 {
                    a.f.sqr()
                } else {
                    let mut t = r[d].f;
                    t.sqr_in_place(&a.f);
                    t
                };
                r[d] = Reg { f, v: FP.sqr(&a.v), mag: 1, norm: false };
            }
            // square with a chosen value
            11 => {
                let (q, ok) = root_pair(&s.t);
                let mut f = excess(&q, s.k & 0x7ff);
                if s.k & 0x800 != 0 {
                    f = heavier(&f);
                }
                let v = if ok { s.t } else { FP.neg(&s.t) };
                r[d] = Reg { f: f.sqr(), v, mag: 1, norm: false };
            }
            // inverse
            12 => {
                limit(&mut r[x], 8, s.k)?;
                let a = r[x].clone();
                let f = if s.k & 8 == 0 { a.f.inv() } else { a.f.inv_var() };
                // the inverse of zero is conventionally zero
                r[d] = Reg { f, v: if a.v.is_zero() { ZERO } else { FP.inv(&a.v) }, mag: 1, norm: false };
            }
            // square root
            13 | 14 => {
                // the comparison at its end negates the square, so 30 would do; 8 is the bound
                limit(&mut r[x], 8, s.k)?;
                if s.op == 14 {
                    // a square, or its negation
                    let f = r[x].f.sqr();
                    let neg = s.k & 16 != 0;
                    let v = FP.sqr(&r[x].v);
                    r[x] = Reg {
                        f: if neg { f.neg(1) } else { f },
                        v: if neg { FP.neg(&v) } else { v },
                        mag: 1 + neg as u32,
                        norm: false,
                    };
                }
                let a = r[x].clone();
                let (q, ok) = a.f.sqrt();
                let qv = un_fe(&q);
                let (want, wok) = root_pair(&a.v);
                same!(ok, wok, "{} of {:?}: is a square", at("sqrt"), a.v);
                same!(a.f.is_quad_var(), wok, "{} of {:?}", at("is_quad_var"), a.v);
                ensure!(qv == want || qv == FP.neg(&want), "{} of {:?} gives {:?}", at("sqrt"), a.v, qv);
                ensure!(qv.is_zero() || sqrt_p(&qv).is_some(), "{}: root {:?} of {:?} is not a square", at("sqrt"), qv, a.v);
                o.label_if(ok, "root of a square");
                o.label_if(!ok, "root of a non-square");
                r[d] = Reg { f: q, v: qv, mag: 1, norm: false };
            }
            // normalisations
            15 => {
                r[x].f.normalize();
                r[x].norm = true;
                r[x].mag = 1;
                same!(U::from_be(&r[x].f.b32()), r[x].v, "{}", at("normalize"));
            }
            16 => {
                r[x].f.normalize_var();
                r[x].norm = true;
                r[x].mag = 1;
                same!(U::from_be(&r[x].f.b32()), r[x].v, "{}", at("normalize_var"));
            }
            17 => {
                r[x].f.normalize_weak();
                r[x].norm = false;
                r[x].mag = 1;
            }
            // zero tests
            18 => {
                let a = &r[x];
                same!(a.f.normalizes_to_zero(), a.v.is_zero(), "{} of {:?}", at("normalizes_to_zero"), a.v);
                same!(a.f.normalizes_to_zero_var(), a.v.is_zero(), "{} of {:?}", at("normalizes_to_zero_var"), a.v);
            }
            // a sum congruent to (nearly) zero
            19 | 20 => {
                limit(&mut r[x], 27, s.k)?;
                let a = r[x].clone();
                let delta = match s.k & 3 {
                    0 | 1 => ZERO,
                    2 => ONE,
                    _ => FP.red(s.t),
                };
                let w = FP.sub(&delta, &a.v);
                let mut g = excess(&w, s.k >> 2 & 0x7ff);
                let mut mag = a.mag + 1;
                if s.k & 0x8000 != 0 {
                    g = heavier(&g);
                    mag += 3;
                }
                let f = a.f + g;
                o.label_if(delta.is_zero(), "representation of zero");
                same!(f.normalizes_to_zero(), delta.is_zero(), "{} of a sum equal to {:?}", at("normalizes_to_zero"), delta);
                same!(f.normalizes_to_zero_var(), delta.is_zero(), "{} of a sum equal to {:?}", at("normalizes_to_zero_var"), delta);
                r[d] = Reg { f, v: delta, mag, norm: false };
            }
            // equality
            21 => {
                limit(&mut r[x], 1, s.k)?;
                limit(&mut r[y], 29, s.k / 3)?;
                let (a, b) = (&r[x], &r[y]);
                same!(a.f.eq_var(&b.f), a.v == b.v, "{} of {:?}, {:?}", at("eq_var"), a.v, b.v);
                if 2 + a.mag + b.mag <= 31 {
                    same!(a.f == b.f, a.v == b.v, "{} of {:?}, {:?}", at("=="), a.v, b.v);
                }
            }
            22 => {
                limit(&mut r[x], 15, s.k)?;
                let m = 31 - 1 - r[x].mag - 3;
                let a = r[x].clone();
                // the same value, or a neighbour, in another form
                let w = if s.k & 1 == 0 { a.v } else { FP.add(&a.v, &s.t) };
                let mut g = excess(&w, s.k >> 2 & 0x7ff);
                if m >= 4 && s.k & 0x8000 != 0 {
                    g = heavier(&g);
                }
                same!(a.f == g, a.v == w, "{} of {:?}, {:?}", at("=="), a.v, w);
                same!(g == a.f, a.v == w, "{} of {:?}, {:?}", at("=="), w, a.v);
                let mut one = a.f;
                one.normalize_weak();
                same!(one.eq_var(&g), a.v == w, "{} of {:?}, {:?}", at("eq_var"), a.v, w);
            }
            // order, parity and exports of normalised values
            23 => {
                normal(&mut r[x], s.k);
                normal(&mut r[y], s.k >> 1);
                let (a, b) = (&r[x], &r[y]);
                same!(a.f.cmp_var(&b.f), a.v.cmp(&b.v), "{} of {:?}, {:?}", at("cmp_var"), a.v, b.v);
                same!(a.f.cmp(&b.f), a.v.cmp(&b.v), "{} of {:?}, {:?}", at("cmp"), a.v, b.v);
                same!(a.f.partial_cmp(&b.f), Some(a.v.cmp(&b.v)), "{} of {:?}, {:?}", at("partial_cmp"), a.v, b.v);
                same!(a.f.is_odd(), a.v.is_odd(), "{} of {:?}", at("is_odd"), a.v);
                same!(a.f.is_zero(), a.v.is_zero(), "{} of {:?}", at("is_zero"), a.v);
                same!(a.f.b32(), a.v.be(), "{} of {:?}", at("b32"), a.v);
                let mut out = b.v.be();
                a.f.fill_b32(&mut out);
                same!(out, a.v.be(), "{} of {:?}", at("fill_b32"), a.v);
                let st: FieldStorage = a.f.into();
                same!(st.0, a.v.limbs32(), "{} of {:?}", at("storage"), a.v);
                let back: Field = st.into();
                same!(back.b32(), a.v.be(), "{} of {:?}", at("from storage"), a.v);
                for flag in [false, true] {
                    let mut t: FieldStorage = b.f.into();
                    t.cmov(&st, flag);
                    same!(t.0, if flag { a.v.limbs32() } else { b.v.limbs32() }, "{}", at("storage cmov"));
                }
            }
            // conditional move
            24 => {
                let flag = s.k & 1 == 1;
                let b = r[y].clone();
                r[x].f.cmov(&b.f, flag);
                if flag {
                    r[x] = Reg { f: r[x].f, ..b };
                }
            }
            // up to magnitude 8, in one or two registers
            25 | 26 => {
                for i in [x, y] {
                    let k = if r[i].mag == 0 { 1 } else { 8 / r[i].mag };
                    if k > 1 {
                        r[i].f.mul_int(k);
                        r[i].v = FP.mul(&r[i].v, &U::from_u64(k as u64));
                        r[i].mag *= k;
                        r[i].norm = false;
                    }
                }
            }
            // overwrite
            _ => match s.k & 3 {
                0 => {
                    r[x].f.clear();
                    r[x] = Reg { f: r[x].f, v: ZERO, mag: 0, norm: true };
                }
                1 => {
                    let k = (s.k >> 2) & LIMB;
                    r[x].f.set_int(k);
                    r[x] = Reg { f: r[x].f, v: U::from_u64(k as u64), mag: 1, norm: true };
                }
                2 => {
                    ensure!(r[x].f.set_b32(&s.t.be()), "{}: {:?} rejected", at("set_b32"), s.t);
                    r[x] = Reg { f: r[x].f, v: s.t, mag: 1, norm: true };
                }
                _ => r[x] = Reg { f: Field::default(), v: ZERO, mag: 0, norm: true },
            },
        }
        for (i, q) in r.iter().enumerate() {
            if i == d || i == x || i == y {
                same!(un_fe(&q.f), q.v, "{}: register {} after op {}", at("value"), i, s.op);
            }
        }
    }
    if used >= 3 {
        o.nt();
    }
    o.label_if(used >= 12, "12 steps or more");
    // every register, through every normalisation
    for (i, q) in r.iter().enumerate() {
        let mut a = q.f;
        a.normalize_var();
        let mut b = q.f;
        b.normalize_weak();
        b.normalize();
        let mut c = q.f;
        c.normalize_weak();
        c.normalize_var();
        for f in [a, b, c] {
            same!(f.b32(), q.v.be(), "register {} at the end", i);
        }
        same!(q.f.normalizes_to_zero(), q.v.is_zero(), "normalizes_to_zero of register {} at the end", i);
        same!(q.f.normalizes_to_zero_var(), q.v.is_zero(), "normalizes_to_zero_var of register {} at the end", i);
    }
    Ok(())
}

/// products of operands at the limb and magnitude limits
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Heavy {
    a: [u32; 10],
    b: [u32; 10],
    ka: u32,
    kb: u32,
}
fn heavy_gen(rg: &Rg) -> Heavy {
    Heavy {
        a: digits(rg),
        b: digits(rg),
        ka: rg.pick(&[1, 2, 4, 8, 8, 1 + rg.u32() % 8]),
        kb: rg.pick(&[1, 2, 4, 8, 8, 1 + rg.u32() % 8]),
    }
}
fn heavy_check(c: &Heavy, o: &mut Obs) -> Res {
    for d in [&c.a, &c.b] {
        for (j, x) in d.iter().enumerate() {
            if *x > 2 * if j == 9 { TOP } else { LIMB } {
                return Ok(());
            }
        }
    }
    if !(1..=8).contains(&c.ka) || !(1..=8).contains(&c.kb) {
        return Ok(());
    }
    o.nt();
    let (mut a, mut b) = (fe_raw(&c.a), fe_raw(&c.b));
    a.mul_int(c.ka);
    b.mul_int(c.kb);
    let va = FP.mul(&raw_value(&c.a), &U::from_u64(c.ka as u64));
    let vb = FP.mul(&raw_value(&c.b), &U::from_u64(c.kb as u64));
    same!(un_fe(&a), va, "small multiple {}", c.ka);
    same!(un_fe(&(a * b)), FP.mul(&va, &vb), "product");
    same!(un_fe(&a.sqr()), FP.sqr(&va), "square");
    same!(un_fe(&(a * a)), FP.sqr(&va), "product with itself");
    same!(un_fe(&(a + b)), FP.add(&va, &vb), "sum");
    same!(un_fe(&a.neg(c.ka)), FP.neg(&va), "negation");
    let diff = a + b.neg(c.kb);
    same!(un_fe(&diff), FP.sub(&va, &vb), "difference");
    same!(diff.normalizes_to_zero(), va == vb, "difference is zero");
    same!(diff.normalizes_to_zero_var(), va == vb, "difference is zero (var)");
    // 31 copies
    let mut m = fe_raw(&c.a);
    m.mul_int(31);
    let v = FP.mul(&raw_value(&c.a), &U::from_u64(31));
    let mut t = m;
    t.normalize();
    same!(t.b32(), v.be(), "31 copies, normalize");
    let mut t = m;
    t.normalize_var();
    same!(t.b32(), v.be(), "31 copies, normalize_var");
    let mut t = m;
    t.normalize_weak();
    same!(un_fe(&t), v, "31 copies, normalize_weak");
    same!(m.normalizes_to_zero(), v.is_zero(), "31 copies, zero test");
    same!(m.normalizes_to_zero_var(), v.is_zero(), "31 copies, zero test (var)");
    Ok(())
}

/// decoding of 32 bytes
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bytes {
    a: U,
    junk: Init,
}
fn bytes_gen(rg: &Rg) -> Bytes {
    let a = match rg.below(4) {
        // in [p, 2^256), or just below p
        0 => P.wadd(&U::from_u64(rg.below(0x1000003d1))),
        1 => P.wadd(&U::from_u64(rg.below(6))).wsub(&U::from_u64(3)),
        2 => {
            // p with one limb disturbed
            let mut p = P.be();
            let i = rg.idx(32);
            p[i] = p[i].wrapping_add(rg.pick(&[1u8, 0xff, 2, 0x80, 4]));
            U::from_be(&p)
        }
        _ => u256(rg),
    };
    Bytes { a, junk: init(rg) }
}
fn bytes_check(c: &Bytes, o: &mut Obs) -> Res {
    o.nt();
    let mut f = match start(&c.junk) {
        Some(r) => r.f,
        None => return Ok(()),
    };
    let ok = f.set_b32(&c.a.be());
    same!(ok, c.a < P, "set_b32 accepts {:?}", c.a);
    o.label_if(!ok, "not below p");
    if ok {
        same!(f.b32(), c.a.be(), "round trip of {:?}", c.a);
        same!(f.is_odd(), c.a.is_odd(), "parity of {:?}", c.a);
        same!(f.is_zero(), c.a.is_zero(), "zero test of {:?}", c.a);
        let g = fe(&c.a);
        same!(g.b32(), c.a.be(), "words to bytes of {:?}", c.a);
        same!(f.cmp_var(&g), std::cmp::Ordering::Equal, "decoded against built, {:?}", c.a);
        ensure!(f == g, "decoded and built {:?} differ", c.a);
    }
    Ok(())
}

pub fn groups(id: &str) -> Option<(&'static str, Vec<Box<dyn Group>>)> {
    if id != "C20" {
        return None;
    }
    Some((
        "programs over 2-4 registers that start in normalised and excess representations, operands at the limb and magnitude limits, and 32-byte strings; non-trivial: a program of at least 3 executed operations, or any limit/byte case",
        vec![
            Box::new(Gen { name: "program", quick: 500_000, thorough: 20_000_000, gen: prog_gen, check: prog_check }),
            Box::new(Gen { name: "limits", quick: 3_000_000, thorough: 100_000_000, gen: heavy_gen, check: heavy_check }),
            Box::new(Gen { name: "bytes", quick: 2_000_000, thorough: 50_000_000, gen: bytes_gen, check: bytes_check }),
        ],
    ))
}
