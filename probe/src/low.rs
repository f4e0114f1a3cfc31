//! Operations of the core crate (scalars, field elements, points, multiplication), from
//! textual arguments to textual results.
use super::exec::{a32, hex, sc, Ctx};
use alloc::{format, string::String};
use libsecp256k1::curve::{Affine, Field, Jacobian, Scalar};
use libsecp256k1::util::{AFFINE_INFINITY, JACOBIAN_INFINITY};

fn fe(b: &[u8]) -> Field {
    if b.len() == 40 {
        // ten limbs, most significant first
        let l = |i: usize| u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        return Field::new_raw(l(0), l(1), l(2), l(3), l(4), l(5), l(6), l(7), l(8), l(9));
    }
    let mut f = Field::default();
    assert!(f.set_b32(&a32(b)));
    f
}
fn fe_hex(f: &Field) -> String {
    let mut g = *f;
    g.normalize();
    hex(&g.b32())
}
fn sc_hex(s: &Scalar) -> String {
    hex(&s.b32())
}
fn ge(b: &[u8]) -> Affine {
    if b.is_empty() {
        return AFFINE_INFINITY;
    }
    let mut p = Affine::default();
    p.set_xy(&fe(&b[1..33]), &fe(&b[33..65]));
    p
}
/// the point `b` with z coordinate `z`
fn gej(b: &[u8], z: &[u8]) -> Jacobian {
    if b.is_empty() {
        return JACOBIAN_INFINITY;
    }
    let mut j = Jacobian::from_ge(&ge(b));
    let mut z = fe(z);
    z.normalize();
    j.rescale(&z);
    j
}
fn ge_hex(p: &Affine) -> String {
    if p.is_infinity() {
        return "inf".into();
    }
    format!("{} {}", fe_hex(&p.x), fe_hex(&p.y))
}
fn gej_hex(j: &Jacobian) -> String {
    if j.is_infinity() {
        return "inf".into();
    }
    let (mut a, mut b) = (Affine::default(), Affine::default());
    a.set_gej(j);
    b.set_gej_var(j);
    let (a, b) = (ge_hex(&a), ge_hex(&b));
    if a != b {
        return format!("diff: {} / {}", a, b);
    }
    a
}
fn num(b: &[u8]) -> usize {
    b.iter().fold(0, |n, x| n * 256 + *x as usize)
}

pub fn run(op: &str, a: &[alloc::vec::Vec<u8>], c: &Ctx) -> Option<String> {
    Some(match op {
        "s.add" => sc_hex(&(sc(&a[0]) + sc(&a[1]))),
        "s.mul" => sc_hex(&(sc(&a[0]) * sc(&a[1]))),
        "s.sqr" => sc_hex(&sc(&a[0]).sqr()),
        "s.neg" => sc_hex(&-sc(&a[0])),
        "s.inv" => {
            let (x, y) = (sc(&a[0]).inv(), sc(&a[0]).inv_var());
            if x == y {
                sc_hex(&x)
            } else {
                "diff".into()
            }
        }
        "s.red" => {
            let mut s = Scalar::default();
            let o: bool = s.set_b32(&a32(&a[0])).into();
            format!("{} {}", sc_hex(&s), o)
        }
        "s.bits" => {
            let s = sc(&a[0]);
            let (o, n) = (num(&a[1]), num(&a[2]));
            let v = s.bits_var(o, n);
            if o >> 5 == (o + n - 1) >> 5 && s.bits(o, n) != v {
                return Some("diff".into());
            }
            format!("{:x}", v)
        }
        "s.shr" => {
            let mut s = sc(&a[0]);
            let low = s.shr_int(num(&a[1]));
            format!("{} {:x}", sc_hex(&s), low)
        }
        "s.is" => {
            let s = sc(&a[0]);
            format!("{} {} {} {}", s.is_zero(), s.is_one(), s.is_high(), s.is_even())
        }
        "f.add" => fe_hex(&(fe(&a[0]) + fe(&a[1]))),
        "f.mul" => fe_hex(&(fe(&a[0]) * fe(&a[1]))),
        "f.sqr" => fe_hex(&fe(&a[0]).sqr()),
        "f.neg" => fe_hex(&fe(&a[0]).neg(1)),
        "f.int" => {
            let mut f = fe(&a[0]);
            f.mul_int(num(&a[1]) as u32);
            fe_hex(&f)
        }
        "f.inv" => {
            let (x, y) = (fe_hex(&fe(&a[0]).inv()), fe_hex(&fe(&a[0]).inv_var()));
            if x == y {
                x
            } else {
                format!("diff: {} / {}", x, y)
            }
        }
        "f.sqrt" => {
            let (r, ok) = fe(&a[0]).sqrt();
            if ok {
                fe_hex(&r.sqr())
            } else {
                "none".into()
            }
        }
        "f.norm" => {
            let (mut x, mut y, mut w) = (fe(&a[0]), fe(&a[0]), fe(&a[0]));
            x.normalize();
            y.normalize_var();
            w.normalize_weak();
            let z = (fe(&a[0]).normalizes_to_zero(), fe(&a[0]).normalizes_to_zero_var());
            if hex(&x.b32()) != hex(&y.b32()) || fe_hex(&w) != fe_hex(&x) || z.0 != z.1 {
                return Some("diff".into());
            }
            format!("{} {} {}", hex(&x.b32()), z.0, x.is_odd())
        }
        "f.cmp" => {
            let (mut x, mut y) = (fe(&a[0]), fe(&a[1]));
            let e = x.eq_var(&y);
            x.normalize();
            y.normalize();
            format!("{} {:?}", e, x.cmp(&y))
        }
        "f.parse" => {
            let mut f = Field::default();
            if f.set_b32(&a32(&a[0])) {
                hex(&f.b32())
            } else {
                "none".into()
            }
        }
        "g.add" => {
            let (p, q) = (gej(&a[0], &a[1]), gej(&a[2], &a[3]));
            let mut rzr = Field::default();
            let s = p.add_var(&q, if p.is_infinity() { None } else { Some(&mut rzr) });
            let t = p.add_ge_var(&ge(&a[2]), None);
            let (s, t) = (gej_hex(&s), gej_hex(&t));
            if s != t {
                return Some(format!("diff: {} / {}", s, t));
            }
            if !q.is_infinity() {
                let u = gej_hex(&p.add_ge(&ge(&a[2])));
                if s != u {
                    return Some(format!("diff: {} / {}", s, u));
                }
            }
            s
        }
        "g.dbl" => gej_hex(&gej(&a[0], &a[1]).double_var(None)),
        "g.lift" => {
            let mut p = Affine::default();
            if p.set_xo_var(&fe(&a[0]), num(&a[1]) == 1) {
                ge_hex(&p)
            } else {
                "none".into()
            }
        }
        "m.ec" => {
            let mut r = Jacobian::default();
            c.m.ecmult(&mut r, &gej(&a[0], &a[1]), &sc(&a[2]), &sc(&a[3]));
            gej_hex(&r)
        }
        "m.const" => {
            let mut r = Jacobian::default();
            c.m.ecmult_const(&mut r, &ge(&a[0]), &sc(&a[1]));
            gej_hex(&r)
        }
        "m.gen" => {
            let mut r = Jacobian::default();
            c.g.ecmult_gen(&mut r, &sc(&a[0]));
            gej_hex(&r)
        }
        "m.raw" => match c.g.sign_raw(&sc(&a[1]), &sc(&a[0]), &sc(&a[2])) {
            Ok((r, s, i)) => format!("{} {} {:02x}", sc_hex(&r), sc_hex(&s), i),
            Err(e) => format!("err:{:?}", e),
        },
        "clr" => {
            let (mut s, mut f, mut p) = (sc(&a[0]), fe(&a[1]), ge(&a[2]));
            let mut j = gej(&a[2], &a[1]);
            let mut k = libsecp256k1::SecretKey::parse(&a32(&a[0])).expect("valid secret");
            s.clear();
            f.clear();
            p.clear();
            j.clear();
            k.clear();
            p.x.normalize();
            p.y.normalize();
            j.x.normalize();
            j.y.normalize();
            j.z.normalize();
            let z = |f: &Field| f.is_zero();
            format!(
                "{} {} {} {} {}",
                s.is_zero(),
                fe_hex(&f),
                z(&p.x) && z(&p.y),
                z(&j.x) && z(&j.y) && z(&j.z),
                hex(&k.serialize())
            )
        }
        // the generator table built afresh
        "ctx.gen" => {
            let g = libsecp256k1::curve::ECMultGenContext::new_boxed();
            let t = g.inspect_raw();
            let same = t.iter().flatten().zip(c.g.inspect_raw().iter().flatten());
            format!("{}", same.filter(|(x, y)| x.x.0 == y.x.0 && x.y.0 == y.y.0).count())
        }
        _ => return None,
    })
}
