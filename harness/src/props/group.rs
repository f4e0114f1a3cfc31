//! C21: the group law in affine and Jacobian coordinates.

use crate::conv::*;
use crate::gen::*;
use crate::refm::*;
use crate::run::{Gen, Group, Obs, Res, Rg};
use crate::{ensure, same};
use libsecp256k1::curve::{Affine, AffineStorage, Field, Jacobian};
use libsecp256k1::util::{
    globalz_set_table_gej, odd_multiples_table, set_table_gej_var, AFFINE_INFINITY,
    JACOBIAN_INFINITY,
};
use serde::{Deserialize, Serialize};

/// A point together with the representation it is to be given in.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rep {
    pub pt: Pt,
    z: U,
    /// digit styles of x, y, z
    sx: u16,
    sy: u16,
    sz: u16,
    /// magnitudes, as produced inside the library: x up to 6, y up to 4, z up to 2
    mx: u8,
    my: u8,
    mz: u8,
}
pub fn pt_ok(p: &Pt) -> bool {
    match p {
        Pt::Inf => true,
        Pt::A(x, y) => on_curve(x, y),
    }
}
impl Rep {
    pub fn plain(pt: Pt) -> Rep {
        Rep { pt, z: ONE, sx: 0, sy: 0, sz: 0, mx: 1, my: 1, mz: 1 }
    }
    pub fn ok(&self) -> bool {
        pt_ok(&self.pt)
            && self.z < P
            && !self.z.is_zero()
            && [self.sx, self.sy, self.sz].iter().all(|s| *s <= 0x7ff)
            && (1..=6).contains(&self.mx)
            && (1..=4).contains(&self.my)
            && (1..=2).contains(&self.mz)
    }
    pub fn aff(&self) -> Affine {
        match self.pt {
            Pt::Inf if self.mx & 1 == 1 => AFFINE_INFINITY,
            Pt::Inf => {
                // as a conversion from Jacobian coordinates may leave it
                let mut a = Affine::new(excess(&GX, self.sx as u32), excess(&GY, self.sy as u32));
                a.infinity = true;
                a
            }
            Pt::A(x, y) => Affine::new(weigh(&x, self.sx, self.mx), weigh(&y, self.sy, self.my)),
        }
    }
    pub fn jac(&self) -> Jacobian {
        match self.pt {
            Pt::Inf => {
                if self.mx & 1 == 1 {
                    JACOBIAN_INFINITY
                } else {
                    // infinity as additions leave it: coordinates of something else
                    let mut j = Jacobian::default();
                    j.x = excess(&GX, self.sx as u32);
                    j.y = excess(&GY, self.sy as u32);
                    j.z = excess(&self.z, self.sz as u32);
                    j.infinity = true;
                    j
                }
            }
            Pt::A(x, y) => {
                let zz = FP.sqr(&self.z);
                let mut j = Jacobian::default();
                j.x = weigh(&FP.mul(&x, &zz), self.sx, self.mx);
                j.y = weigh(&FP.mul(&y, &FP.mul(&zz, &self.z)), self.sy, self.my);
                j.z = weigh(&self.z, self.sz, self.mz);
                j
            }
        }
    }
    /// coordinates scaled so that (x * zi^2, y * zi^3) is the point
    fn scaled(&self, zi: &U) -> Affine {
        match self.pt {
            Pt::Inf => AFFINE_INFINITY,
            Pt::A(x, y) => {
                let z = FP.inv(zi);
                let z2 = FP.sqr(&z);
                Affine::new(
                    weigh(&FP.mul(&x, &z2), self.sx, self.mx),
                    weigh(&FP.mul(&y, &FP.mul(&z2, &z)), self.sy, self.my),
                )
            }
        }
    }
}
/// value v with digits of the given style and magnitude m
fn weigh(v: &U, style: u16, m: u8) -> Field {
    if m == 1 {
        return excess(v, style as u32);
    }
    let w = FP.mul(v, &FP.inv(&U::from_u64(m as u64)));
    let mut f = excess(&w, style as u32);
    f.mul_int(m as u32);
    f
}
fn zval(rg: &Rg) -> U {
    let z = match rg.below(8) {
        0 => ONE,
        1 => P.wsub(&ONE),
        2 => BETA,
        3 => FP.inv(&U::from_u64(2)),
        4 => U::from_u64(1 + rg.below(8)),
        _ => felem(rg),
    };
    if z.is_zero() {
        ONE
    } else {
        z
    }
}
pub fn rep(rg: &Rg, pt: Pt) -> Rep {
    let wild = rg.coin();
    let st = || if wild { (rg.u64() & 0x7ff) as u16 } else { 0 };
    let (sx, sy, sz) = (st(), st(), st());
    Rep {
        pt,
        z: zval(rg),
        sx,
        sy,
        sz,
        mx: if wild { 1 + rg.below(6) as u8 } else { 1 },
        my: if wild { 1 + rg.below(4) as u8 } else { 1 },
        mz: if wild { 1 + rg.below(2) as u8 } else { 1 },
    }
}
fn maybe_inf(rg: &Rg, p: Pt) -> Pt {
    if rg.one_in(12) {
        Pt::Inf
    } else {
        p
    }
}
fn is(j: &Jacobian, want: &Pt, what: &str) -> Res {
    same!(un_jac(j), *want, "{}", what);
    Ok(())
}
fn isa(a: &Affine, want: &Pt, what: &str) -> Res {
    same!(un_aff(a), *want, "{}", what);
    Ok(())
}

// ------------------------------------------------------------------ pairs

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PairCase {
    p: Rep,
    q: Rep,
    zi: U,
    junk: Rep,
}
fn pair_gen(rg: &Rg) -> PairCase {
    let p = point(rg);
    let q = related(rg, &p);
    let (p, q) = (maybe_inf(rg, p), maybe_inf(rg, q));
    let mut p = rep(rg, p);
    let q = rep(rg, q);
    if rg.one_in(6) {
        p.z = q.z;
    }
    PairCase { p, q, zi: zval(rg), junk: rep(rg, G) }
}
fn ratio(r: &Jacobian, a: &Jacobian, rzr: &Field, what: &str) -> Res {
    let got = FP.mul(&un_fe(&a.z), &un_fe(rzr));
    if r.is_infinity() {
        ensure!(got.is_zero(), "{}: infinite result with z ratio {:?}", what, un_fe(rzr));
    } else {
        same!(got, un_fe(&r.z), "{}: a.z * ratio", what);
    }
    Ok(())
}
fn pair_check(c: &PairCase, o: &mut Obs) -> Res {
    if !(c.p.ok() && c.q.ok() && c.junk.ok()) || c.zi.is_zero() || c.zi >= P || c.junk.pt.is_inf() {
        return Ok(());
    }
    o.nt();
    let (p, q) = (&c.p.pt, &c.q.pt);
    let sum = p.add(q);
    o.label_if(p == q && !p.is_inf(), "equal operands");
    o.label_if(*p == q.neg() && !p.is_inf(), "opposite operands");
    o.label_if(p.is_inf() || q.is_inf(), "an infinite operand");
    if let (Pt::A(x1, y1), Pt::A(x2, y2)) = (p, q) {
        o.label_if(x1 != x2 && *y1 == FP.neg(y2), "degenerate: y1 = -y2, x1 != x2");
        o.label_if(x1 != x2 && y1 == y2, "y1 = y2, x1 != x2");
    }
    let (a, b) = (c.p.jac(), c.q.jac());
    let bg = c.q.aff();
    let bs = c.q.scaled(&c.zi);
    let bzi = excess(&c.zi, c.q.sz as u32);
    let junk = c.junk.jac();
    let say = |w: &str| format!("{} of {:?} and {:?}", w, p, q);

    is(&a.add_var(&b, None), &sum, &say("add_var"))?;
    is(&a.add_ge_var(&bg, None), &sum, &say("add_ge_var"))?;
    let mut a2 = a;
    is(&a2.add_zinv_var(&bs, &bzi), &sum, &say("add_zinv_var"))?;
    is(&a2, p, "left operand of add_zinv_var")?;
    let mut r = junk;
    r.add_var_in_place(&a, &b, None);
    is(&r, &sum, &say("add_var_in_place"))?;
    let mut r = junk;
    r.add_ge_var_in_place(&a, &bg, None);
    is(&r, &sum, &say("add_ge_var_in_place"))?;
    let mut r = junk;
    r.add_zinv_var_in_place(&a, &bs, &bzi);
    is(&r, &sum, &say("add_zinv_var_in_place"))?;
    if !q.is_inf() {
        is(&a.add_ge(&bg), &sum, &say("add_ge"))?;
        let mut r = junk;
        r.add_ge_in_place(&a, &bg);
        is(&r, &sum, &say("add_ge_in_place"))?;
    }
    if !p.is_inf() {
        let mut z = junk.y;
        let r = a.add_var(&b, Some(&mut z));
        is(&r, &sum, &say("add_var with ratio"))?;
        ratio(&r, &a, &z, &say("add_var"))?;
        let mut z = junk.y;
        let r = a.add_ge_var(&bg, Some(&mut z));
        is(&r, &sum, &say("add_ge_var with ratio"))?;
        ratio(&r, &a, &z, &say("add_ge_var"))?;
    }
    // operands are untouched
    is(&a, p, "left operand")?;
    is(&b, q, "right operand")?;
    isa(&bg, q, "affine operand")?;
    // a result is a usable operand: (P + Q) - Q, and twice the sum
    if !q.is_inf() {
        let r = a.add_var(&b, None).add_var(&b.neg(), None);
        is(&r, p, &say("adding and subtracting"))?;
        let r = a.add_ge(&bg);
        let r = r.add_ge(&bg.neg());
        is(&r, p, &say("adding and subtracting (constant time)"))?;
        let mut z = junk.x;
        let s = a.add_ge(&bg);
        let d = s.double_var(Some(&mut z));
        is(&d, &sum.add(&sum), &say("doubled sum"))?;
        if !sum.is_inf() {
            ratio(&d, &s, &z, &say("doubled sum"))?;
        }
    }
    // comparison of x with that of another point
    if let (Pt::A(x1, _), Pt::A(x2, _)) = (p, q) {
        same!(a.eq_x_var(&bg.x), x1 == x2, "{}", say("eq_x_var"));
        if c.q.mx <= 1 {
            same!(a.eq_x_var(&fe(x2)), x1 == x2, "{}", say("eq_x_var"));
        }
    }
    // storage
    if let (Pt::A(x1, y1), Pt::A(x2, y2)) = (p, q) {
        let sa: AffineStorage = c.p.aff().into();
        let sb: AffineStorage = bg.into();
        same!(un_storage(&sa), (*x1, *y1), "storage of {:?}", p);
        for f in [false, true] {
            let mut t = sa;
            t.cmov(&sb, f);
            same!(un_storage(&t), if f { (*x2, *y2) } else { (*x1, *y1) }, "storage cmov");
        }
        let back: Affine = sa.into();
        isa(&back, p, "point from storage")?;
        same!(c.p.aff() == bg, p == q, "{}", say("affine equality"));
    }
    Ok(())
}

// ------------------------------------------------------------------ one point

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OneCase {
    p: Rep,
    s: U,
    ss: u16,
    x: U,
    y: U,
    junk: Rep,
}
fn one_gen(rg: &Rg) -> OneCase {
    let p = point(rg);
    let y = match rg.below(4) {
        0 => p.y(),
        1 => FP.neg(&p.y()),
        2 => FP.add(&p.y(), &ONE),
        _ => felem(rg),
    };
    let x = match rg.below(4) {
        0 => p.x(),
        1 => FP.mul(&p.x(), &BETA),
        2 => FP.neg(&p.x()),
        _ => felem(rg),
    };
    let pt = maybe_inf(rg, p);
    OneCase { p: rep(rg, pt), s: zval(rg), ss: (rg.u64() & 0x7ff) as u16, x, y, junk: rep(rg, G) }
}
fn one_check(c: &OneCase, o: &mut Obs) -> Res {
    if !c.p.ok() || !c.junk.ok() || c.s.is_zero() || c.s >= P || c.x >= P || c.y >= P || c.ss > 0x7ff || c.junk.pt.is_inf() {
        return Ok(());
    }
    o.nt();
    let p = &c.p.pt;
    o.label_if(p.is_inf(), "infinity");
    let (a, g) = (c.p.jac(), c.p.aff());
    let junk = c.junk.jac();
    let dbl = p.add(p);
    same!(a.is_infinity(), p.is_inf(), "is_infinity of {:?}", p);
    same!(g.is_infinity(), p.is_inf(), "affine is_infinity of {:?}", p);
    is(&a.double_var(None), &dbl, "double_var")?;
    let mut z = junk.x;
    let mut r = junk;
    r.double_var_in_place(&a, Some(&mut z));
    is(&r, &dbl, "double_var_in_place")?;
    if !p.is_inf() {
        ratio(&r, &a, &z, "double_var_in_place")?;
        let mut r = junk;
        let mut z = junk.x;
        r.double_nonzero_in_place(&a, Some(&mut z));
        is(&r, &dbl, "double_nonzero_in_place")?;
        ratio(&r, &a, &z, "double_nonzero_in_place")?;
        let mut r = a;
        r.rescale(&fe(&c.s));
        is(&r, p, "rescale")?;
        same!(un_fe(&r.z), FP.mul(&c.p.z, &c.s), "z after rescale");
        same!(a.has_quad_y_var(), sqrt_p(&p.y()).is_some(), "has_quad_y_var of {:?}", p);
        same!(a.eq_x_var(&excess(&c.x, c.ss as u32)), c.x == p.x(), "eq_x_var of {:?}, {:?}", p, c.x);
    } else {
        same!(a.has_quad_y_var(), false, "has_quad_y_var of infinity");
    }
    is(&a.neg(), &p.neg(), "neg")?;
    let mut r = junk;
    r.neg_in_place(&a);
    is(&r, &p.neg(), "neg_in_place")?;
    isa(&g.neg(), &p.neg(), "affine neg")?;
    let mut r = c.junk.aff();
    r.neg_in_place(&g);
    isa(&r, &p.neg(), "affine neg_in_place")?;
    // conversions
    isa(&Affine::from_gej(&a), p, "from_gej")?;
    for k in 0..3 {
        let mut r = c.junk.aff();
        match k {
            0 => r.set_gej(&a),
            1 => r.set_gej_var(&a),
            _ => {
                if p.is_inf() {
                    r.set_gej_zinv(&a, &fe(&c.s));
                } else {
                    r.set_gej_zinv(&a, &excess(&FP.inv(&c.p.z), c.ss as u32));
                }
            }
        }
        isa(&r, p, &format!("Jacobian to affine, {}", k))?;
    }
    is(&Jacobian::from_ge(&g), p, "from_ge")?;
    let mut r = junk;
    r.set_ge(&g);
    is(&r, p, "set_ge")?;
    let mut r = a;
    r.set_infinity();
    is(&r, &Pt::Inf, "set_infinity")?;
    is(&r.add_ge(&c.junk.aff()), &c.junk.pt, "after set_infinity")?;
    if let Pt::A(x, y) = p {
        is(&Jacobian::new(g.x, g.y), p, "Jacobian::new")?;
        let mut r = AFFINE_INFINITY;
        r.set_xy(&fe(x), &fe(y));
        isa(&r, p, "set_xy")?;
    }
    // curve membership
    same!(g.is_valid_var(), !p.is_inf(), "is_valid_var of {:?}", p);
    let off = Affine::new(weigh(&c.x, c.p.sx, c.p.mx), weigh(&c.y, c.p.sy, c.p.my));
    let on = on_curve(&c.x, &c.y);
    o.label_if(on, "other coordinates on the curve");
    o.label_if(!on, "coordinates off the curve");
    same!(off.is_valid_var(), on, "is_valid_var of ({:?}, {:?})", c.x, c.y);
    is(&a, p, "operand")?;
    isa(&g, p, "affine operand")
}

// ------------------------------------------------------------------ x coordinates

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct XCase {
    x: U,
    s: u16,
    m: u8,
    junk: Rep,
}
fn x_gen(rg: &Rg) -> XCase {
    let x = if rg.coin() { felem(rg) } else { point(rg).x() };
    XCase { x, s: (rg.u64() & 0x7ff) as u16, m: 1 + rg.below(6) as u8, junk: rep(rg, if rg.coin() { G } else { Pt::Inf }) }
}
fn x_check(c: &XCase, o: &mut Obs) -> Res {
    if c.x >= P || c.s > 0x7ff || !(1..=6).contains(&c.m) || !c.junk.ok() {
        return Ok(());
    }
    o.nt();
    let want = lift_x(&c.x, false);
    o.label_if(want.is_some(), "x of a point");
    o.label_if(want.is_none(), "x of no point");
    let f = weigh(&c.x, c.s, c.m);
    for odd in [false, true] {
        let mut r = c.junk.aff();
        same!(r.set_xo_var(&f, odd), want.is_some(), "set_xo_var of {:?}", c.x);
        if let Some(p) = &want {
            let p = if odd { p.neg() } else { *p };
            isa(&r, &p, "set_xo_var")?;
            ensure!(r.is_valid_var(), "decompressed point {:?} is not valid", p);
        }
    }
    let mut r = c.junk.aff();
    same!(r.set_xquad(&f), want.is_some(), "set_xquad of {:?}", c.x);
    if let Some(p) = &want {
        let q = if sqrt_p(&p.y()).is_some() { *p } else { p.neg() };
        isa(&r, &q, "set_xquad")?;
    }
    Ok(())
}

// ------------------------------------------------------------------ tables

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TabCase {
    a: Rep,
    len: u8,
    /// points and z ratios of an arbitrary table
    pts: Vec<(Rep, U)>,
}
fn tab_gen(rg: &Rg) -> TabCase {
    let p = point(rg);
    let n = rg.idx(10);
    TabCase {
        a: rep(rg, p),
        len: 1 + rg.below(32) as u8,
        pts: (0..n).map(|_| { let q = point(rg); (rep(rg, q), zval(rg)) }).collect(),
    }
}
fn tab_check(c: &TabCase, o: &mut Obs) -> Res {
    if !c.a.ok() || c.a.pt.is_inf() || !(1..=32).contains(&c.len) {
        return Ok(());
    }
    if c.pts.iter().any(|(r, z)| !r.ok() || r.pt.is_inf() || z.is_zero() || *z >= P) {
        return Ok(());
    }
    o.nt();
    let n = c.len as usize;
    let mut pre = vec![Jacobian::default(); n];
    let mut zr = vec![Field::default(); n];
    odd_multiples_table(&mut pre, &mut zr, &c.a.jac());
    let d = c.a.pt.add(&c.a.pt);
    let mut want = vec![c.a.pt];
    for i in 1..n {
        let w = want[i - 1].add(&d);
        want.push(w);
    }
    // The last entry is on the curve itself and the z ratios lead from each entry to the next.
    is(&pre[n - 1], &want[n - 1], "last odd multiple")?;
    let mut conv = vec![Affine::default(); n];
    set_table_gej_var(&mut conv, &pre, &zr);
    for i in 0..n {
        isa(&conv[i], &want[i], &format!("odd multiple {} through set_table_gej_var", 2 * i + 1))?;
    }
    let mut conv = vec![AFFINE_INFINITY; n];
    let mut gz = Field::default();
    globalz_set_table_gej(&mut conv, &mut gz, &pre, &zr);
    for i in 0..n {
        // all entries share the denominator gz
        let mut j = Jacobian::from_ge(&conv[i]);
        ensure!(!conv[i].is_infinity(), "odd multiple {} is infinite", 2 * i + 1);
        j.z = gz;
        is(&j, &want[i], &format!("odd multiple {} through globalz_set_table_gej", 2 * i + 1))?;
    }
    // a table of arbitrary points whose z follow arbitrary ratios
    let m = c.pts.len();
    o.label_if(m == 0, "empty table");
    let mut js = vec![];
    let mut rs = vec![];
    let mut z = ONE;
    for (i, (r, ratio)) in c.pts.iter().enumerate() {
        z = if i == 0 { r.z } else { FP.mul(&z, ratio) };
        let mut r = r.clone();
        r.z = z;
        // magnitudes as the additions produce them
        r.mx = r.mx.min(5);
        r.my = r.my.min(3);
        r.mz = 1;
        js.push(r.jac());
        rs.push(excess(ratio, r.sz as u32));
    }
    let mut conv = vec![AFFINE_INFINITY; m];
    set_table_gej_var(&mut conv, &js, &rs);
    for i in 0..m {
        isa(&conv[i], &c.pts[i].0.pt, &format!("entry {} through set_table_gej_var", i))?;
    }
    let mut conv = vec![AFFINE_INFINITY; m];
    let mut gz = fe(&c.a.z);
    globalz_set_table_gej(&mut conv, &mut gz, &js, &rs);
    for i in 0..m {
        ensure!(!conv[i].is_infinity(), "entry {} is infinite", i);
        let mut j = Jacobian::from_ge(&conv[i]);
        j.z = gz;
        is(&j, &c.pts[i].0.pt, &format!("entry {} through globalz_set_table_gej", i))?;
    }
    if m > 0 {
        same!(un_fe(&gz), z, "common z");
    }
    Ok(())
}

// ------------------------------------------------------------------ chains

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Chain {
    init: Vec<Rep>,
    steps: Vec<(u8, u8, u8, u8, u32)>,
}
fn chain_gen(rg: &Rg) -> Chain {
    let n = 2 + rg.idx(2);
    let p = point(rg);
    Chain {
        init: (0..n)
            .map(|_| {
                let q = related(rg, &p);
                let q = maybe_inf(rg, q);
                rep(rg, q)
            })
            .collect(),
        steps: (0..1 + rg.idx(16))
            .map(|_| (rg.below(12) as u8, rg.idx(n) as u8, rg.idx(n) as u8, rg.idx(n) as u8, rg.u32()))
            .collect(),
    }
}
fn chain_check(c: &Chain, o: &mut Obs) -> Res {
    let n = c.init.len();
    if n == 0 || c.init.iter().any(|r| !r.ok()) {
        return Ok(());
    }
    if c.steps.len() >= 3 {
        o.nt();
    }
    let mut m: Vec<Pt> = c.init.iter().map(|r| r.pt).collect();
    let mut j: Vec<Jacobian> = c.init.iter().map(|r| r.jac()).collect();
    for (k, (op, d, x, y, v)) in c.steps.iter().enumerate() {
        let (d, x, y) = (*d as usize % n, *x as usize % n, *y as usize % n);
        let (a, b) = (j[x], j[y]);
        match op {
            0 => {
                j[d].add_var_in_place(&a, &b, None);
                m[d] = m[x].add(&m[y]);
            }
            1 => {
                j[d] = a.add_var(&b, None);
                m[d] = m[x].add(&m[y]);
            }
            2 | 3 => {
                let g = Affine::from_gej(&b);
                if *op == 2 || g.is_infinity() {
                    j[d].add_ge_var_in_place(&a, &g, None);
                } else {
                    j[d].add_ge_in_place(&a, &g);
                }
                m[d] = m[x].add(&m[y]);
            }
            4 => {
                // b scaled by its own z
                let mut g = AFFINE_INFINITY;
                if !b.is_infinity() {
                    g.set_xy(&b.x, &b.y);
                }
                let zi = if b.is_infinity() { fe(&ONE) } else { b.z.inv() };
                j[d].add_zinv_var_in_place(&a, &g, &zi);
                m[d] = m[x].add(&m[y]);
            }
            5 => {
                j[d].double_var_in_place(&a, None);
                m[d] = m[x].add(&m[x]);
            }
            6 => {
                j[d] = a.neg();
                m[d] = m[x].neg();
            }
            7 => {
                if !a.is_infinity() {
                    let s = U::from_u64(*v as u64 + 1);
                    j[d] = a;
                    j[d].rescale(&fe(&s));
                    m[d] = m[x];
                }
            }
            8 => {
                let mut g = AFFINE_INFINITY;
                g.set_gej_var(&a);
                j[d].set_ge(&g);
                m[d] = m[x];
            }
            9 => {
                // subtract
                j[d] = a.add_var(&b.neg(), None);
                m[d] = m[x].add(&m[y].neg());
            }
            10 => {
                j[d].set_infinity();
                m[d] = Pt::Inf;
            }
            _ => {
                if !a.is_infinity() {
                    let s: AffineStorage = Affine::from_gej(&a).into();
                    j[d].set_ge(&s.into());
                    m[d] = m[x];
                }
            }
        }
        o.label_if(m[d].is_inf(), "infinity on the way");
        is(&j[d], &m[d], &format!("step {} (op {})", k, op))?;
    }
    Ok(())
}

pub fn groups(id: &str) -> Option<(&'static str, Vec<Box<dyn Group>>)> {
    if id != "C21" {
        return None;
    }
    Some((
        "pairs of related points, single points, x coordinates, tables and chains, in random z scalings, digit representations and magnitudes; non-trivial: representable inputs (chains: at least 3 steps)",
        vec![
            Box::new(Gen { name: "pair", quick: 60_000, thorough: 3_000_000, gen: pair_gen, check: pair_check }),
            Box::new(Gen { name: "one", quick: 60_000, thorough: 3_000_000, gen: one_gen, check: one_check }),
            Box::new(Gen { name: "x", quick: 60_000, thorough: 3_000_000, gen: x_gen, check: x_check }),
            Box::new(Gen { name: "tables", quick: 10_000, thorough: 400_000, gen: tab_gen, check: tab_check }),
            Box::new(Gen { name: "chain", quick: 40_000, thorough: 2_000_000, gen: chain_gen, check: chain_check }),
        ],
    ))
}
