//! Core operations with generated arguments and the reference model's answer, as lines for
//! the probes (probe/src/low.rs executes them).

use crate::conv::excess_digits;
use crate::gen::*;
use crate::ops::Op;
use crate::props::der;
use crate::refm::*;
use crate::run::Rg;

fn u(v: &U) -> String {
    hex(&v.be())
}
fn p(v: &Pt) -> String {
    if v.is_inf() {
        "-".into()
    } else {
        hex(&v.full())
    }
}
fn xy(v: &Pt) -> String {
    if v.is_inf() {
        "inf".into()
    } else {
        format!("{} {}", u(&v.x()), u(&v.y()))
    }
}
/// a field element as an argument: 32 bytes, or limbs of some other representation
fn f(rg: &Rg, v: &U) -> String {
    if rg.coin() {
        return u(v);
    }
    excess_digits(v, rg.u64() as u32 & 0x7ff).iter().rev().map(|d| format!("{:08x}", d)).collect()
}
fn z(rg: &Rg) -> String {
    let v = if rg.one_in(4) { ONE } else { felem(rg) };
    f(rg, &if v.is_zero() { ONE } else { v })
}

pub fn line(rg: &Rg) -> (String, String) {
    // length octets depend on the width of usize: many of these
    if rg.one_in(5) {
        let b = if rg.coin() { der::any_der(rg) } else { der::any_lax(rg) };
        let o = if rg.one_in(3) { Op::Der(b) } else { Op::Lax(b) };
        return (o.line(), o.want());
    }
    match rg.below(29) {
        0 => {
            let (a, b) = (scalar(rg), scalar(rg));
            let b = if rg.one_in(4) { FN.sub(&FN.neg(&a), &U::from_u64(rg.below(3))) } else { b };
            (format!("s.add {} {}", u(&a), u(&b)), u(&FN.add(&a, &b)))
        }
        1 | 2 => {
            let (a, b) = mul_pair(rg, &FN);
            (format!("s.mul {} {}", u(&a), u(&b)), u(&FN.mul(&a, &b)))
        }
        3 => {
            let a = scalar(rg);
            (format!("s.sqr {}", u(&a)), u(&FN.sqr(&a)))
        }
        4 => {
            let a = scalar(rg);
            (format!("s.neg {}", u(&a)), u(&FN.neg(&a)))
        }
        5 => {
            let a = scalar(rg);
            (format!("s.inv {}", u(&a)), u(&if a.is_zero() { a } else { FN.inv(&a) }))
        }
        6 => {
            let a = u256(rg);
            (format!("s.red {}", u(&a)), format!("{} {}", u(&FN.red(a)), a >= N))
        }
        7 => {
            let (a, n) = (scalar(rg), rg.range(1, 31) as usize);
            let o = rg.idx(257 - n);
            (format!("s.bits {} {:04x} {:02x}", u(&a), o, n), format!("{:x}", a.bits(o, n)))
        }
        8 => {
            let (a, n) = (scalar(rg), rg.range(1, 15) as usize);
            (format!("s.shr {} {:02x}", u(&a), n), format!("{} {:x}", u(&a.shr(n)), a.bits(0, n)))
        }
        9 => {
            let a = scalar(rg);
            (
                format!("s.is {}", u(&a)),
                format!("{} {} {} {}", a.is_zero(), a == ONE, a > half_order(), !a.is_odd()),
            )
        }
        10 => {
            let (a, b) = (felem(rg), felem(rg));
            let b = if rg.one_in(4) { FP.neg(&a) } else { b };
            (format!("f.add {} {}", f(rg, &a), f(rg, &b)), u(&FP.add(&a, &b)))
        }
        11 | 12 => {
            let (a, b) = mul_pair(rg, &FP);
            (format!("f.mul {} {}", f(rg, &a), f(rg, &b)), u(&FP.mul(&a, &b)))
        }
        13 => {
            let a = felem(rg);
            (format!("f.sqr {}", f(rg, &a)), u(&FP.sqr(&a)))
        }
        14 => {
            let a = felem(rg);
            (format!("f.neg {}", f(rg, &a)), u(&FP.neg(&a)))
        }
        15 => {
            let (a, n) = (felem(rg), rg.below(32));
            (format!("f.int {} {:02x}", f(rg, &a), n), u(&FP.mul(&a, &U::from_u64(n))))
        }
        16 => {
            let a = felem(rg);
            (format!("f.inv {}", f(rg, &a)), u(&if a.is_zero() { a } else { FP.inv(&a) }))
        }
        17 => {
            let a = if rg.coin() { FP.sqr(&felem(rg)) } else { felem(rg) };
            (
                format!("f.sqrt {}", f(rg, &a)),
                if sqrt_p(&a).is_some() { u(&a) } else { "none".into() },
            )
        }
        18 => {
            let a = felem(rg);
            (
                format!("f.norm {}", f(rg, &a)),
                format!("{} {} {}", u(&a), a.is_zero(), a.is_odd()),
            )
        }
        19 => {
            let a = felem(rg);
            let b = match rg.below(3) {
                0 => a,
                1 => FP.red(a.xor(&U::pow2(rg.idx(256)))),
                _ => felem(rg),
            };
            (
                format!("f.cmp {} {}", f(rg, &a), f(rg, &b)),
                format!("{} {:?}", a == b, a.cmp(&b)),
            )
        }
        20 => {
            let a = u256(rg);
            (format!("f.parse {}", u(&a)), if a < P { u(&a) } else { "none".into() })
        }
        21 | 22 => {
            let a = if rg.one_in(12) { Pt::Inf } else { point(rg) };
            let b = match rg.below(12) {
                0 => Pt::Inf,
                1..=5 if !a.is_inf() => related(rg, &a),
                _ => point(rg),
            };
            (format!("g.add {} {} {} {}", p(&a), z(rg), p(&b), z(rg)), xy(&a.add(&b)))
        }
        23 => {
            let a = if rg.one_in(12) { Pt::Inf } else { point(rg) };
            (format!("g.dbl {} {}", p(&a), z(rg)), xy(&a.add(&a)))
        }
        24 => {
            let (a, odd) = (if rg.coin() { point(rg).x() } else { felem(rg) }, rg.coin());
            (
                format!("g.lift {} {:02x}", f(rg, &a), odd as u8),
                lift_x(&a, odd).map_or("none".into(), |q| xy(&q)),
            )
        }
        25 => {
            let (a, na, ng) = (point(rg), scalar(rg), scalar(rg));
            let ng = if rg.one_in(6) { ZERO } else { ng };
            (
                format!("m.ec {} {} {} {}", p(&a), z(rg), u(&na), u(&ng)),
                xy(&lincomb(&na, &a, &ng)),
            )
        }
        26 => {
            if rg.coin() {
                let (a, n) = (point(rg), scalar(rg));
                (format!("m.const {} {}", p(&a), u(&n)), xy(&a.mul(&n)))
            } else {
                let n = scalar(rg);
                (format!("m.gen {}", u(&n)), xy(&gmul(&n)))
            }
        }
        27 => {
            let (d, v, q) = (seckey(rg), felem(rg), point(rg));
            let v = if v.is_zero() { ONE } else { v };
            (
                format!("clr {} {} {}", u(&d), f(rg, &v), p(&q)),
                format!("true {} true true {}", u(&ZERO), u(&ZERO)),
            )
        }
        _ => {
            if rg.coin() {
                let (d, k, m) = (seckey(rg), seckey(rg), scalar(rg));
                (
                    format!("m.raw {} {} {}", u(&m), u(&d), u(&k)),
                    ecdsa_sign_k(&d, &m, &k)
                        .map_or("err:InvalidMessage".into(), |(r, s, i)| format!("{} {} {:02x}", u(&r), u(&s), i)),
                )
            } else {
                // the first 32 bytes of the source that are a valid key
                let mut t = vec![];
                let mut want = None;
                for _ in 0..rg.range(1, 4) {
                    let v = match rg.below(4) {
                        0 => ZERO,
                        1 => MAX.wsub(&random(rg).shr(129)),
                        _ => u256(rg),
                    };
                    t.extend(v.be());
                    if want.is_none() && !v.is_zero() && v < N {
                        want = Some(v);
                    }
                }
                let want = want.unwrap_or(U::from_be(&[1; 32]));
                (format!("rnd {}", hex(&t)), u(&want))
            }
        }
    }
}
