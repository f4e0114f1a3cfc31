//! C19: scalar arithmetic.

use crate::conv::*;
use crate::gen::*;
use crate::refm::*;
use crate::run::{Gen, Group, Obs, Res, Rg};
use crate::{ensure, same};
use libsecp256k1::curve::Scalar;
use serde::{Deserialize, Serialize};
use subtle::Choice;

fn canon(s: &Scalar, want: &U, what: &str) -> Res {
    same!(un_sc(s), *want, "{}", what);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PairCase {
    a: U,
    b: U,
    junk: U,
}
fn pair_gen(rg: &Rg) -> PairCase {
    let (a, b) = match rg.below(8) {
        0..=1 => mul_pair(rg, &FN),
        2 => carry_pair(rg).unwrap_or_else(|| mul_pair(rg, &FN)),
        3 => {
            // sums at and around n and 2^256
            let a = scalar(rg);
            let t = u256(rg);
            let b = match rg.below(4) {
                0 => N.wsub(&a),
                1 => N.wsub(&a).wadd(&U::from_u64(rg.below(4))),
                2 => N.wsub(&a).wsub(&U::from_u64(rg.below(4))),
                _ => t.wsub(&a),
            };
            (a, FN.red(b))
        }
        4 => {
            let a = scalar(rg);
            (a, a)
        }
        _ => (scalar(rg), scalar(rg)),
    };
    PairCase { a, b, junk: u256(rg) }
}
fn pair_check(c: &PairCase, o: &mut Obs) -> Res {
    if c.a >= N || c.b >= N {
        return Ok(());
    }
    o.nt();
    let (a, b) = (sc(&c.a), sc(&c.b));
    let junk = Scalar(c.junk.limbs32());
    let say = |op: &str| format!("{} of {:?}, {:?}", op, c.a, c.b);

    let sum = FN.add(&c.a, &c.b);
    o.label_if(c.a.adc(&c.b).1, "sum carries out of 256 bits");
    o.label_if(!c.a.adc(&c.b).1 && c.a.wadd(&c.b) >= N, "sum in [n, 2^256)");
    o.label_if(sum.is_zero(), "sum = 0 mod n");
    canon(&(a + b), &sum, &say("add"))?;
    canon(&(&a + &b), &sum, &say("add by reference"))?;
    let mut t = a;
    t += b;
    canon(&t, &sum, &say("add_assign"))?;
    let mut t = a;
    t += &b;
    canon(&t, &sum, &say("add_assign by reference"))?;

    let prod = FN.mul(&c.a, &c.b);
    let w = c.a.mul_wide(&c.b);
    o.label_if(w[4..].iter().all(|x| *x == 0), "product below 2^256");
    o.label_if(w[4..].iter().any(|x| *x == u64::MAX), "all-ones limb in the high half");
    let far = carry_sites(&c.a, &c.b);
    for i in 0..4 {
        o.label_if(far[i], ["far carry in column 4", "far carry in column 5", "far carry in column 6", "far carry in column 7"][i]);
    }
    o.label_if(prod.bits(200, 56) == 0 || N.wsub(&prod).bits(200, 56) == 0, "product near 0 mod n");
    canon(&(a * b), &prod, &say("mul"))?;
    canon(&(&a * &b), &prod, &say("mul by reference"))?;
    let mut t = a;
    t *= b;
    canon(&t, &prod, &say("mul_assign"))?;
    let mut t = a;
    t *= &b;
    canon(&t, &prod, &say("mul_assign by reference"))?;
    let mut t = junk;
    t.mul_in_place(&a, &b);
    canon(&t, &prod, &say("mul_in_place"))?;

    let sq = FN.sqr(&c.a);
    canon(&a.sqr(), &sq, &say("sqr"))?;
    let mut t = junk;
    t.sqr_in_place(&a);
    canon(&t, &sq, &say("sqr_in_place"))?;

    let neg = FN.neg(&c.a);
    canon(&-a, &neg, &say("neg"))?;
    canon(&-&a, &neg, &say("neg by reference"))?;
    for f in [0u8, 1] {
        let mut t = a;
        t.cond_neg_assign(Choice::from(f));
        canon(&t, if f == 1 { &neg } else { &c.a }, &say("cond_neg_assign"))?;
    }
    same!(a.is_zero(), c.a.is_zero(), "is_zero {:?}", c.a);
    same!(a.is_one(), c.a == ONE, "is_one {:?}", c.a);
    same!(a.is_high(), c.a > half_order(), "is_high {:?}", c.a);
    same!(a.is_even(), !c.a.is_odd(), "is_even {:?}", c.a);
    same!(a == b, c.a == c.b, "{}", say("equality"));
    // operands untouched
    canon(&a, &c.a, "left operand after use")?;
    canon(&b, &c.b, "right operand after use")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InvCase {
    a: U,
    junk: U,
}
fn inv_gen(rg: &Rg) -> InvCase {
    InvCase {
        a: if rg.one_in(8) { FN.inv(&seckey(rg)) } else { scalar(rg) },
        junk: u256(rg),
    }
}
fn inv_check(c: &InvCase, o: &mut Obs) -> Res {
    if c.a >= N || c.a.is_zero() {
        return Ok(());
    }
    o.nt();
    let (a, want) = (sc(&c.a), FN.inv(&c.a));
    canon(&a.inv(), &want, &format!("inv {:?}", c.a))?;
    canon(&a.inv_var(), &want, &format!("inv_var {:?}", c.a))?;
    let mut t = Scalar(c.junk.limbs32());
    t.inv_in_place(&a);
    canon(&t, &want, &format!("inv_in_place {:?}", c.a))?;
    canon(&a, &c.a, "operand after inversion")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BitCase {
    a: U, // any 256-bit value for the codecs, reduced for the rest
    off: u8,
    cnt: u8,
    sh: u8,
    bit: u8,
    small: u32,
    junk: U,
}
fn bit_gen(rg: &Rg) -> BitCase {
    BitCase {
        a: u256(rg),
        off: rg.below(256) as u8,
        cnt: rg.range(1, 31) as u8,
        sh: rg.range(1, 15) as u8,
        bit: rg.below(256) as u8,
        small: rg.pick(&[0u32, 1, 2, 0x7fffffff, 0x80000000, u32::MAX, rg.u32()]),
        junk: u256(rg),
    }
}
fn bit_check(c: &BitCase, o: &mut Obs) -> Res {
    if !(1..=31).contains(&c.cnt) || !(1..=15).contains(&c.sh) {
        return Ok(());
    }
    o.nt();
    // bytes
    let mut s = Scalar(c.junk.limbs32());
    let over = bool::from(s.set_b32(&c.a.be()));
    same!(over, c.a >= N, "overflow flag for {:?}", c.a);
    o.label_if(over, "bytes not below n");
    let v = FN.red(c.a);
    canon(&s, &v, &format!("set_b32 {:?}", c.a))?;
    same!(s.b32(), v.be(), "b32 {:?}", v);
    let mut out = c.junk.be();
    s.fill_b32(&mut out);
    same!(out, v.be(), "fill_b32 {:?}", v);
    same!(format!("{:x}", s), hex(&v.be()), "hex");
    // small integers
    canon(&Scalar::from_int(c.small), &U::from_u64(c.small as u64), "from_int")?;
    let mut t = Scalar(c.junk.limbs32());
    t.set_int(c.small);
    canon(&t, &U::from_u64(c.small as u64), "set_int")?;
    canon(&Scalar::default(), &ZERO, "default")?;
    // bits
    let (off, cnt) = (c.off as usize, (c.cnt as usize).min(256 - c.off as usize));
    let want = v.bits(off, cnt) as u32;
    same!(s.bits_var(off, cnt), want, "bits_var({}, {}) of {:?}", off, cnt, v);
    if off / 32 == (off + cnt - 1) / 32 {
        same!(s.bits(off, cnt), want, "bits({}, {}) of {:?}", off, cnt, v);
    } else {
        o.label("bits across limbs");
    }
    // shift
    let mut t = s;
    let low = t.shr_int(c.sh as usize);
    same!(low, v.bits(0, c.sh as usize) as u32, "bits shifted out by {} of {:?}", c.sh, v);
    canon(&t, &v.shr(c.sh as usize), &format!("shr_int {} of {:?}", c.sh, v))?;
    // conditional bit
    let (sum, cy) = v.adc(&U::pow2(c.bit as usize));
    if !cy && sum < N {
        for f in [false, true] {
            let mut t = s;
            t.cadd_bit(c.bit as usize, f);
            canon(&t, if f { &sum } else { &v }, &format!("cadd_bit({}, {}) of {:?}", c.bit, f, v))?;
        }
        o.label("bit added");
    }
    canon(&s, &v, "operand after use")?;
    let mut t = s;
    t.clear();
    canon(&t, &ZERO, "cleared")?;
    ensure!(t.is_zero() && !t.is_one() && t.is_even() && !t.is_high(), "predicates of zero");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Chain {
    init: Vec<U>,
    steps: Vec<(u8, u8, u8, u8)>,
}
fn chain_gen(rg: &Rg) -> Chain {
    let n = 2 + rg.idx(3);
    Chain {
        init: (0..n).map(|_| scalar(rg)).collect(),
        steps: (0..1 + rg.idx(24))
            .map(|_| (rg.below(7) as u8, rg.idx(n) as u8, rg.idx(n) as u8, rg.idx(n) as u8))
            .collect(),
    }
}
fn chain_check(c: &Chain, o: &mut Obs) -> Res {
    let n = c.init.len();
    if n == 0 || c.init.iter().any(|x| *x >= N) {
        return Ok(());
    }
    if c.steps.len() > 3 {
        o.nt();
    }
    let mut m = c.init.clone();
    let mut s: Vec<Scalar> = m.iter().map(sc).collect();
    for (k, (op, d, x, y)) in c.steps.iter().enumerate() {
        let (d, x, y) = (*d as usize % n, *x as usize % n, *y as usize % n);
        match op {
            0 => {
                s[d] = s[x] + s[y];
                m[d] = FN.add(&m[x], &m[y]);
            }
            1 => {
                let (p, q) = (s[x], s[y]);
                s[d].mul_in_place(&p, &q);
                m[d] = FN.mul(&m[x], &m[y]);
            }
            2 => {
                let p = s[x];
                s[d].sqr_in_place(&p);
                m[d] = FN.sqr(&m[x]);
            }
            3 => {
                s[d] = -s[x];
                m[d] = FN.neg(&m[x]);
            }
            4 => {
                if !m[x].is_zero() {
                    s[d] = s[x].inv_var();
                    m[d] = FN.inv(&m[x]);
                }
            }
            5 => {
                let f = m[y].is_odd();
                let mut t = s[x];
                t.cond_neg_assign(Choice::from(f as u8));
                s[d] = t;
                m[d] = if f { FN.neg(&m[x]) } else { m[x] };
            }
            _ => {
                let b = s[x].b32();
                let mut t = Scalar::default();
                ensure!(!bool::from(t.set_b32(&b)), "own bytes overflow");
                s[d] = t;
                m[d] = m[x];
            }
        }
        canon(&s[d], &m[d], &format!("step {} of the chain", k))?;
    }
    Ok(())
}

pub fn groups(id: &str) -> Option<(&'static str, Vec<Box<dyn Group>>)> {
    if id != "C19" {
        return None;
    }
    Some((
        "operand pairs with boundary sums and products, invertible scalars, bit positions and 32-byte strings, and chains of operations over a register file; non-trivial: operands canonical (chains: more than 3 steps)",
        vec![
            Box::new(Gen { name: "binary", quick: 600_000, thorough: 30_000_000, gen: pair_gen, check: pair_check }),
            Box::new(Gen { name: "inverse", quick: 40_000, thorough: 2_000_000, gen: inv_gen, check: inv_check }),
            Box::new(Gen { name: "bits and bytes", quick: 400_000, thorough: 20_000_000, gen: bit_gen, check: bit_check }),
            Box::new(Gen { name: "chain", quick: 60_000, thorough: 3_000_000, gen: chain_gen, check: chain_check }),
        ],
    ))
}
