//! Conversions between the reference model's values and the library's.

use crate::refm::{Pt, U, P};
use libsecp256k1::curve::{
    Affine, AffineStorage, ECMultContext, ECMultGenContext, Field, Jacobian, Scalar,
};
use libsecp256k1::{Message, PublicKey, RecoveryId, SecretKey, Signature};
use std::convert::TryFrom;

pub fn ctx() -> &'static ECMultContext {
    &libsecp256k1::ECMULT_CONTEXT
}
pub fn gctx() -> &'static ECMultGenContext {
    &libsecp256k1::ECMULT_GEN_CONTEXT
}

pub fn sc(v: &U) -> Scalar {
    Scalar(v.limbs32())
}
pub fn un_sc(s: &Scalar) -> U {
    U::from_limbs32(&s.0)
}
pub fn sk(v: &U) -> Result<SecretKey, String> {
    SecretKey::parse(&v.be()).map_err(|e| format!("secret key {:?} rejected: {:?}", v, e))
}
pub fn msg(v: &U) -> Message {
    Message(sc(v))
}
pub fn sig(r: &U, s: &U) -> Signature {
    Signature { r: sc(r), s: sc(s) }
}
pub fn un_sig(s: &Signature) -> (U, U) {
    (un_sc(&s.r), un_sc(&s.s))
}
pub fn rid(i: u8) -> Result<RecoveryId, String> {
    RecoveryId::parse(i).map_err(|e| format!("recovery id {} rejected: {:?}", i, e))
}

/// normalised field element with value v < p
pub fn fe(v: &U) -> Field {
    assert!(*v < P, "reference value out of range");
    let l = v.limbs32();
    Field::new(l[7], l[6], l[5], l[4], l[3], l[2], l[1], l[0])
}
/// the residue a field element stands for
pub fn un_fe(f: &Field) -> U {
    let mut g = *f;
    g.normalize();
    U::from_be(&g.b32())
}
/// Field element whose limbs hold the 26-bit digits `d` (least significant first).
pub fn fe_raw(d: &[u32; 10]) -> Field {
    Field::new_raw(
        d[9], d[8], d[7], d[6], d[5], d[4], d[3], d[2], d[1], d[0],
    )
}
/// Affine point with normalised coordinates
pub fn aff(p: &Pt) -> Affine {
    match p {
        Pt::Inf => libsecp256k1::util::AFFINE_INFINITY,
        Pt::A(x, y) => Affine::new(fe(x), fe(y)),
    }
}
pub fn un_aff(a: &Affine) -> Pt {
    if a.is_infinity() {
        Pt::Inf
    } else {
        Pt::A(un_fe(&a.x), un_fe(&a.y))
    }
}
pub fn un_storage(a: &AffineStorage) -> (U, U) {
    (U::from_limbs32(&a.x.0), U::from_limbs32(&a.y.0))
}
/// Jacobian -> affine using the reference model's inversion
pub fn un_jac(j: &Jacobian) -> Pt {
    use crate::refm::FP;
    if j.is_infinity() {
        return Pt::Inf;
    }
    let (x, y, z) = (un_fe(&j.x), un_fe(&j.y), un_fe(&j.z));
    let zi = FP.inv(&z);
    let zi2 = FP.sqr(&zi);
    Pt::A(FP.mul(&x, &zi2), FP.mul(&y, &FP.mul(&zi2, &zi)))
}
/// a public key built through the affine conversion
pub fn pk(p: &Pt) -> Result<PublicKey, String> {
    PublicKey::try_from(aff(p)).map_err(|e| format!("valid point {:?} rejected: {:?}", p, e))
}
pub fn un_pk(k: &PublicKey) -> Pt {
    let a: Affine = (*k).into();
    un_aff(&a)
}

/// A field element of magnitude 1 with value `v` whose limbs are not normalised:
/// the digits of v + k*p (k = 0..2), with carries "lent" back to lower limbs.
/// `style` selects among the representations; style 0 gives plain digits.
pub fn excess_digits(v: &U, style: u32) -> [u32; 10] {
    const PD: [u32; 10] = [
        0x3fffc2f, 0x3ffffbf, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3ffffff, 0x3ffffff,
        0x3ffffff, 0x03fffff,
    ];
    let mut d = [0u64; 10];
    for (i, x) in d.iter_mut().enumerate() {
        *x = v.bits(26 * i, 26.min(256 - 26 * i));
    }
    let k = ((style & 3) % 3) as u64;
    for _ in 0..k {
        let mut t = d;
        let mut c = 0u64;
        for i in 0..10 {
            let s = t[i] + PD[i] as u64 + c;
            if i < 9 {
                t[i] = s & 0x3ffffff;
                c = s >> 26;
            } else {
                t[i] = s;
            }
        }
        if t[9] <= 2 * 0x03fffff {
            d = t;
        }
    }
    for i in 0..9 {
        if style >> (2 + i) & 1 == 1 && d[i + 1] > 0 && d[i] + (1 << 26) <= 2 * 0x3ffffff {
            d[i] += 1 << 26;
            d[i + 1] -= 1;
        }
    }
    let mut r = [0u32; 10];
    for i in 0..10 {
        r[i] = d[i] as u32;
    }
    r
}
pub fn excess(v: &U, style: u32) -> Field {
    if style == 0 {
        fe(v)
    } else {
        fe_raw(&excess_digits(v, style))
    }
}
/// adds a representation of zero: value unchanged, magnitude grows by 3
pub fn heavier(f: &Field) -> Field {
    let mut d = [0x3ffffffu32; 10];
    d[9] = 0x3fffff;
    let g = fe_raw(&d);
    let z = g + g.neg(1);
    *f + z
}

pub fn excess_aff(p: &Pt, style: u32) -> Affine {
    match p {
        Pt::Inf => aff(p),
        Pt::A(x, y) => {
            let (mut fx, mut fy) = (excess(x, style & 0x7ff), excess(y, (style >> 11) & 0x7ff));
            if style >> 22 & 1 == 1 {
                fx = heavier(&fx);
            }
            if style >> 23 & 1 == 1 {
                fy = heavier(&fy);
            }
            Affine::new(fx, fy)
        }
    }
}

pub const REPRS: u64 = 12;
/// The key for `p`, obtained along different routes.
pub fn repr_pk(p: &Pt, how: u8) -> Result<PublicKey, String> {
    use crate::refm::{gmul, FN};
    let e = |e: libsecp256k1::Error| format!("route {} to valid key {:?} failed: {:?}", how, p, e);
    let t = U::from_u64(0x1234_5678_9abc_def1 ^ how as u64);
    match how as u64 % REPRS {
        0 => PublicKey::parse(&p.full()).map_err(e),
        1 => PublicKey::parse_compressed(&p.compressed()).map_err(e),
        2 => PublicKey::parse_slice(&p.full()[1..], None).map_err(e),
        3 => {
            let mut f = p.full();
            f[0] = 6 + p.y().is_odd() as u8;
            PublicKey::parse(&f).map_err(e)
        }
        4 => PublicKey::try_from(aff(p)).map_err(e),
        5 => PublicKey::try_from(excess_aff(p, 0x155 << 11 | 0x2a9)).map_err(e),
        6 => PublicKey::try_from(excess_aff(p, 0x3fffff)).map_err(e),
        7 => PublicKey::try_from(excess_aff(p, 0xc00a52)).map_err(e),
        8 => {
            let b = p.add(&gmul(&t).neg());
            if b.is_inf() {
                return repr_pk(p, 0);
            }
            let mut k = PublicKey::parse(&b.full()).map_err(e)?;
            k.tweak_add_assign(&sk(&t)?).map_err(e)?;
            Ok(k)
        }
        9 => {
            let b = p.mul(&FN.inv(&t));
            let mut k = PublicKey::parse(&b.full()).map_err(e)?;
            k.tweak_mul_assign(&sk(&t)?).map_err(e)?;
            Ok(k)
        }
        10 => {
            let o = gmul(&t);
            let b = p.add(&o.neg());
            if b.is_inf() {
                return repr_pk(p, 0);
            }
            PublicKey::combine(&[
                PublicKey::parse(&b.full()).map_err(e)?,
                PublicKey::parse(&o.full()).map_err(e)?,
            ])
            .map_err(e)
        }
        _ => PublicKey::parse_slice(
            &p.compressed(),
            Some(libsecp256k1::PublicKeyFormat::Compressed),
        )
        .map_err(e),
    }
}

pub fn boxed_ctx() -> &'static ECMultContext {
    static C: std::sync::OnceLock<Box<ECMultContext>> = std::sync::OnceLock::new();
    C.get_or_init(ECMultContext::new_boxed)
}
pub fn boxed_gctx() -> &'static ECMultGenContext {
    static C: std::sync::OnceLock<Box<ECMultGenContext>> = std::sync::OnceLock::new();
    C.get_or_init(ECMultGenContext::new_boxed)
}
