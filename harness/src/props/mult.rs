//! C22 scalar multiplication, C23 precomputed tables.

use super::group::{pt_ok, rep, Rep};
use super::keys::const_scalar;
use crate::conv::*;
use crate::exec::Ctx;
use crate::gen::*;
use crate::ops;
use crate::refm::*;
use crate::run::{Enumerate, Gen, Group, Obs, Res, Rg};
use crate::{ensure, same};
use libsecp256k1::curve::{Affine, AffineStorage, ECMultContext, ECMultGenContext, Jacobian};
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

fn junk() -> Jacobian {
    let mut j = Jacobian::default();
    j.x = fe(&GY);
    j.y = fe(&GX);
    j.z = fe(&BETA);
    j
}
fn is(j: &Jacobian, want: &Pt, what: &str) -> Res {
    same!(un_jac(j), *want, "{}", what);
    Ok(())
}

// ------------------------------------------------------------------ contexts

/// every way to obtain the contexts
pub fn contexts() -> &'static [(&'static str, Ctx)] {
    static C: OnceLock<Vec<(&'static str, Ctx)>> = OnceLock::new();
    C.get_or_init(|| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(|| unsafe {
                // rebuilt from the raw tables of the static and of the heap contexts
                let m = Box::new(ECMultContext::new_from_raw(*ctx().inspect_raw()));
                let g = Box::new(ECMultGenContext::new_from_raw(*gctx().inspect_raw()));
                let (bm, bg) = (ECMultContext::new_boxed(), ECMultGenContext::new_boxed());
                let m2 = Box::new(ECMultContext::new_from_raw(*bm.inspect_raw()));
                let g2 = Box::new(ECMultGenContext::new_from_raw(*bg.inspect_raw()));
                vec![
                    ("heap", Ctx { m: bm, g: bg }),
                    ("static tables, rebuilt", Ctx { m, g }),
                    ("heap tables, rebuilt", Ctx { m: m2, g: g2 }),
                ]
            })
            .unwrap()
            .join()
            .unwrap()
    })
}
pub const CTXS: usize = 4;
pub fn mctx(i: usize) -> &'static ECMultContext {
    match i % CTXS {
        0 => ctx(),
        k => &contexts()[k - 1].1.m,
    }
}
pub fn gen_ctx(i: usize) -> &'static ECMultGenContext {
    match i % CTXS {
        0 => gctx(),
        k => &contexts()[k - 1].1.g,
    }
}

// ------------------------------------------------------------------ C22

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DoubleCase {
    a: Rep,
    na: U,
    ng: U,
    cx: u8,
}
fn double_gen(rg: &Rg) -> DoubleCase {
    let (mut na, mut ng) = (scalar(rg), scalar(rg));
    let cx = rg.below(CTXS as u64) as u8;
    let known = rg.one_in(3);
    if !known {
        let p = point(rg);
        if rg.one_in(6) {
            na = ZERO;
        }
        if rg.one_in(6) {
            ng = ZERO;
        }
        return DoubleCase { a: rep(rg, p), na, ng, cx };
    }
    // A = t*G: partial sums and results meet, cancel or vanish
    let t = match rg.below(5) {
        0 | 1 => {
            let k = FN.red(U::from_u64(1 + rg.below(40)));
            if rg.coin() { FN.neg(&k) } else { k }
        }
        2 => FN.red(U::pow2(rg.idx(256))),
        3 => {
            let k = rg.pick(&[LAMBDA, FN.sqr(&LAMBDA), FN.inv(&U::from_u64(2)), FN.inv(&U::from_u64(3))]);
            if rg.coin() { FN.neg(&k) } else { k }
        }
        _ => seckey(rg),
    };
    match rg.below(8) {
        0..=3 => {
            // na*t + ng = delta
            let delta = match rg.below(4) {
                0 | 1 => ZERO,
                2 => FN.red(U::from_u64(rg.below(4))),
                _ => FN.neg(&U::from_u64(1 + rg.below(4))),
            };
            ng = FN.sub(&delta, &FN.mul(&na, &t));
        }
        4 => {
            // the leading part of one sum cancels the other
            let k = rg.idx(255);
            let low = FN.red(random(rg).shr(256 - k.max(1)));
            ng = FN.add(&FN.neg(&FN.mul(&FN.red(na.shr(k).shl(k)), &t)), &low);
        }
        5 => ng = na,
        6 => ng = FN.mul(&na, &t),
        _ => {}
    }
    if na >= N {
        na = FN.red(na);
    }
    DoubleCase { a: rep(rg, gmul(&t)), na, ng, cx }
}
fn double_check(c: &DoubleCase, o: &mut Obs) -> Res {
    if !c.a.ok() || c.a.pt.is_inf() || c.na >= N || c.ng >= N {
        return Ok(());
    }
    o.nt();
    let want = lincomb(&c.na, &c.a.pt, &c.ng);
    o.label_if(want.is_inf(), "sum at infinity");
    o.label_if(c.na.is_zero() || c.ng.is_zero(), "zero scalar");
    o.label_if(c.na.is_zero() && c.ng.is_zero(), "both scalars zero");
    let cx = mctx(c.cx as usize);
    let a = c.a.jac();
    let (na, ng) = (sc(&c.na), sc(&c.ng));
    let mut r = junk();
    cx.ecmult(&mut r, &a, &na, &ng);
    is(&r, &want, &format!("{:?} * {:?} + {:?} * G", c.na, c.a.pt, c.ng))?;
    is(&a, &c.a.pt, "operand")?;
    same!((un_sc(&na), un_sc(&ng)), (c.na, c.ng), "scalars");
    // the result is a usable operand
    is(&r.double_var(None), &want.add(&want), "doubled result")?;
    isa(&Affine::from_gej(&r), &want, "affine result")
}
fn isa(a: &Affine, want: &Pt, what: &str) -> Res {
    same!(un_aff(a), *want, "{}", what);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConstCase {
    a: Rep,
    k: U,
    cx: u8,
}
fn const_gen(rg: &Rg) -> ConstCase {
    let p = if rg.one_in(4) { related(rg, &G) } else { point(rg) };
    let k = match rg.below(4) {
        0 => FN.red(const_scalar(rg)),
        1 => FN.red(windows4(rg)),
        _ => scalar(rg),
    };
    ConstCase { a: rep(rg, p), k, cx: rg.below(CTXS as u64) as u8 }
}
/// nibbles from a small alphabet
fn windows4(rg: &Rg) -> U {
    let al = [rg.below(16) as u8, rg.below(16) as u8];
    let mut b = [0u8; 32];
    for x in b.iter_mut() {
        *x = rg.pick(&al) << 4 | rg.pick(&al);
    }
    U::from_be(&b)
}
fn const_check(c: &ConstCase, o: &mut Obs) -> Res {
    if !c.a.ok() || c.a.pt.is_inf() || c.k >= N {
        return Ok(());
    }
    o.nt();
    let want = c.a.pt.mul(&c.k);
    o.label_if(want.is_inf(), "zero scalar");
    o.label_if(c.k > half_order(), "scalar above half the order");
    o.label_if(c.k.is_odd(), "odd scalar");
    let a = c.a.aff();
    let k = sc(&c.k);
    let mut r = junk();
    mctx(c.cx as usize).ecmult_const(&mut r, &a, &k);
    is(&r, &want, &format!("{:?} * {:?}, constant time", c.k, c.a.pt))?;
    isa(&a, &c.a.pt, "operand")?;
    same!(un_sc(&k), c.k, "scalar");
    isa(&Affine::from_gej(&r), &want, "affine result")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GenCase {
    k: U,
    cx: u8,
}
fn gen_gen(rg: &Rg) -> GenCase {
    let k = match rg.below(6) {
        // special once the blinding is added
        0 => FN.sub(&FN.red(windows4(rg)), &GEN_BLIND),
        1 => FN.sub(&scalar(rg), &GEN_BLIND),
        2 => FN.red(windows4(rg)),
        _ => scalar(rg),
    };
    GenCase { k, cx: rg.below(CTXS as u64) as u8 }
}
fn gen_check(c: &GenCase, o: &mut Obs) -> Res {
    if c.k >= N {
        return Ok(());
    }
    o.nt();
    o.label_if(c.k.is_zero(), "zero scalar");
    let want = G.mul(&c.k);
    let k = sc(&c.k);
    let mut r = junk();
    gen_ctx(c.cx as usize).ecmult_gen(&mut r, &k);
    is(&r, &want, &format!("{:?} * G", c.k))?;
    same!(un_sc(&k), c.k, "scalar");
    // the three multiplications agree
    let mut q = junk();
    mctx(c.cx as usize).ecmult(&mut q, &aff_jac(), &sc(&ZERO), &k);
    is(&q, &want, &format!("0 * G + {:?} * G", c.k))?;
    mctx(c.cx as usize).ecmult(&mut q, &aff_jac(), &k, &sc(&ZERO));
    is(&q, &want, &format!("{:?} * G + 0 * G", c.k))
}
fn aff_jac() -> Jacobian {
    Jacobian::from_ge(&aff(&G))
}

/// every table digit of every algorithm, and every short scalar
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DigitCase {
    kind: u8,
    i: u32,
}
fn digit_cases(_: bool) -> Vec<DigitCase> {
    let mut v = vec![];
    // each odd digit of the generator's window table, both signs
    v.extend((0..2 * 16384).map(|i| DigitCase { kind: 0, i }));
    // each digit at each position of the fixed-base comb
    v.extend((0..1024).map(|i| DigitCase { kind: 1, i }));
    // short scalars and their negations, variable base
    v.extend((0..2048).map(|i| DigitCase { kind: 2, i }));
    v.extend((0..2048).map(|i| DigitCase { kind: 3, i }));
    // 2^k + d
    v.extend((0..256 * 5).map(|i| DigitCase { kind: 4, i }));
    v.extend((0..256 * 5).map(|i| DigitCase { kind: 5, i }));
    v
}
fn signed(i: u32) -> U {
    let v = U::from_u64((i / 2) as u64);
    if i & 1 == 1 {
        FN.neg(&v)
    } else {
        v
    }
}
fn digit_check(c: &DigitCase, o: &mut Obs) -> Res {
    o.nt();
    let near_pow = |i: u32| {
        let p = FN.red(U::pow2((i / 5) as usize));
        FN.add(&p, &FN.sub(&U::from_u64((i % 5) as u64), &U::from_u64(2)))
    };
    match c.kind {
        0 => {
            o.label("generator window digit");
            let (d, s) = (c.i / 2, c.i & 1);
            let k = U::from_u64(2 * d as u64 + 1);
            let k = if s == 1 { FN.neg(&k) } else { k };
            let want = gmul(&k);
            let mut r = junk();
            ctx().ecmult(&mut r, &aff_jac(), &sc(&ZERO), &sc(&k));
            is(&r, &want, &format!("0 * G + {:?} * G", k))
        }
        1 => {
            o.label("comb digit");
            let (j, i) = (c.i as usize / 16, c.i as u64 % 16);
            let k = FN.sub(&FN.red(U::from_u64(i).shl(4 * j)), &GEN_BLIND);
            gen_check(&GenCase { k, cx: 0 }, o)?;
            gen_check(&GenCase { k: FN.add(&k, &GEN_BLIND), cx: 1 }, o)
        }
        2 | 4 => {
            let k = if c.kind == 2 { signed(c.i) } else { near_pow(c.i) };
            const_check(&ConstCase { a: Rep::plain(fixed_point()), k, cx: 0 }, o)
        }
        _ => {
            let k = if c.kind == 3 { signed(c.i) } else { near_pow(c.i) };
            let a = Rep::plain(fixed_point());
            double_check(&DoubleCase { a: a.clone(), na: k, ng: ZERO, cx: 0 }, o)?;
            double_check(&DoubleCase { a, na: U::from_u64(1 + c.i as u64 % 32), ng: k, cx: 0 }, o)
        }
    }
}
/// some point without a known small multiple
fn fixed_point() -> Pt {
    static P: OnceLock<Pt> = OnceLock::new();
    *P.get_or_init(|| lift_near(BETA, true))
}

// ------------------------------------------------------------------ C23

fn odd_multiples() -> &'static Vec<Pt> {
    static T: OnceLock<Vec<Pt>> = OnceLock::new();
    T.get_or_init(|| {
        let two = G.add(&G);
        let mut v = vec![G];
        for i in 1..16384 {
            let n = v[i - 1].add(&two);
            v.push(n);
        }
        v
    })
}
/// [j][i] = i * 16^j * G
fn comb() -> &'static Vec<Vec<Pt>> {
    static T: OnceLock<Vec<Vec<Pt>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut base = G;
        (0..64)
            .map(|_| {
                let mut row = vec![Pt::Inf];
                for i in 1..16 {
                    let n = row[i - 1usize].add(&base);
                    row.push(n);
                }
                base = row[15].add(&base);
                row
            })
            .collect()
    })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EntryCase {
    cx: u8,
    gen: bool,
    i: u16,
}
fn entry_cases(_: bool) -> Vec<EntryCase> {
    let mut v = vec![];
    for cx in 0..CTXS as u8 {
        v.extend((0..1024).map(|i| EntryCase { cx, gen: true, i }));
        v.push(EntryCase { cx, gen: true, i: 1024 });
        v.extend((0..16384).map(|i| EntryCase { cx, gen: false, i }));
    }
    v
}
fn stored(s: &AffineStorage, what: &str) -> Result<Pt, String> {
    let (x, y) = un_storage(s);
    ensure!(on_curve(&x, &y), "{}: ({:?}, {:?}) is not a normalised curve point", what, x, y);
    let a: Affine = (*s).into();
    ensure!(a.is_valid_var(), "{}: not valid", what);
    same!(un_aff(&a), Pt::A(x, y), "{}", what);
    Ok(Pt::A(x, y))
}
fn entry_check(c: &EntryCase, o: &mut Obs) -> Res {
    let i = c.i as usize;
    if c.gen {
        if i > 1024 {
            return Ok(());
        }
        o.nt();
        let t = gen_ctx(c.cx as usize).inspect_raw();
        if i == 1024 {
            o.label("offsets cancel");
            let mut sum = Pt::Inf;
            for row in t.iter() {
                let (x, y) = un_storage(&row[0]);
                sum = sum.add(&Pt::A(x, y));
            }
            // What is left over is compensated by the starting point; observable as 0 * G.
            let mut r = junk();
            gen_ctx(c.cx as usize).ecmult_gen(&mut r, &sc(&ZERO));
            is(&r, &Pt::Inf, "0 * G")?;
            same!(sum, Pt::Inf, "sum of the offsets");
            return Ok(());
        }
        o.label("comb entry");
        let (j, k) = (i / 16, i % 16);
        let what = format!("context {}: comb entry [{}][{}]", c.cx % CTXS as u8, j, k);
        let e = stored(&t[j][k], &what)?;
        let u = stored(&t[j][0], &what)?;
        same!(e, u.add(&comb()[j][k]), "{} minus its offset", what);
    } else {
        let t = mctx(c.cx as usize).inspect_raw();
        if i >= t.len() {
            return Ok(());
        }
        o.nt();
        o.label("odd multiple");
        let what = format!("context {}: multiple {} of G", c.cx % CTXS as u8, 2 * i + 1);
        same!(stored(&t[i], &what)?, odd_multiples()[i], "{}", what);
    }
    Ok(())
}

/// any operation gives the same answer with every context
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SameCase {
    op: ops::Op,
}
fn same_gen(rg: &Rg) -> SameCase {
    loop {
        let pool = ops::Pool::new(rg);
        let op = ops::op(rg, &pool);
        if matches!(op.name(), "pk" | "sign" | "verify" | "recover" | "ecdh" | "tadd" | "tmul") {
            return SameCase { op };
        }
    }
}
fn same_check(c: &SameCase, o: &mut Obs) -> Res {
    if !c.op.valid() {
        return Ok(());
    }
    o.nt();
    o.label(c.op.name());
    for (name, cx) in contexts() {
        let got = c.op.exec(cx);
        ensure!(
            c.op.accepts(&got),
            "{} with context '{}': got {}, expected {}",
            c.op.line(),
            name,
            got,
            c.op.want()
        );
    }
    Ok(())
}

/// Contexts built again, several at once, while other calls run, hold the same tables.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BuildCase {
    /// per thread: kind of context to build
    threads: Vec<u8>,
    ops: Vec<ops::Op>,
}
fn build_gen(rg: &Rg) -> BuildCase {
    BuildCase {
        threads: (0..rg.range(1, 4)).map(|_| rg.below(3) as u8).collect(),
        ops: ops::history(rg, 4),
    }
}
fn build_check(c: &BuildCase, o: &mut Obs) -> Res {
    if c.ops.iter().any(|x| !x.valid()) || c.threads.len() > 8 {
        return Ok(());
    }
    o.nt();
    o.label_if(c.threads.len() > 1, "several at once");
    let call = |cx: &Ctx, what: &str| -> Res {
        for x in &c.ops {
            let got = x.exec(cx);
            ensure!(x.accepts(&got), "{} {}: got {}, expected {}", x.line(), what, got, x.want());
        }
        Ok(())
    };
    let mut res = vec![];
    std::thread::scope(|s| {
        let mut hs = vec![];
        for (i, k) in c.threads.iter().enumerate() {
            let call = &call;
            // (the copies of the static contexts below pass through the stack)
            let t = std::thread::Builder::new().stack_size(if *k == 2 { 2 << 20 } else { 16 << 20 });
            let t = if *k == 2 && crate::guided::available() { std::thread::Builder::new() } else { t };
            hs.push(t.spawn_scoped(s, move || {
                crate::run::guarded(|| {
                    let cx = Ctx {
                        m: if *k != 1 { ECMultContext::new_boxed() } else { unsafe { copy_m() } },
                        g: if *k != 0 { ECMultGenContext::new_boxed() } else { unsafe { copy_g() } },
                    };
                    ensure!(
                        cx.m.inspect_raw()[..] == ctx().inspect_raw()[..],
                        "multiplication table of build {} differs from the static one",
                        i
                    );
                    call(&cx, "with a new context")?;
                    // generator tables of heap contexts may use other offsets than the
                    // static one: compare with another build
                    ensure!(
                        *k == 0 || cx.g.inspect_raw()[..] == boxed_gctx().inspect_raw()[..],
                        "generator table of build {} differs from another one",
                        i
                    );
                    Ok(())
                })
            }).expect("a thread"));
        }
        res.push(crate::run::guarded(|| call(&contexts()[0].1, "while contexts are built")));
        for h in hs {
            res.push(h.join().unwrap_or_else(|_| Err("thread died".into())));
        }
    });
    for r in res {
        r?;
    }
    call(&contexts()[0].1, "after contexts were built and dropped")
}
unsafe fn copy_m() -> Box<ECMultContext> {
    Box::new(ECMultContext::new_from_raw(*ctx().inspect_raw()))
}
unsafe fn copy_g() -> Box<ECMultGenContext> {
    Box::new(ECMultGenContext::new_from_raw(*gctx().inspect_raw()))
}

pub fn groups(id: &str) -> Option<(&'static str, Vec<Box<dyn Group>>)> {
    let _ = pt_ok;
    Some(match id {
        "C22" => (
            "a finite point in a random representation with a pair of scalars (special patterns, or chosen so that sums cancel), every digit of every window table, and every short scalar; non-trivial: arguments in range",
            vec![
                Box::new(Enumerate { name: "digits", cases: digit_cases, check: digit_check }),
                Box::new(Gen { name: "double", quick: 60_000, thorough: 3_000_000, gen: double_gen, check: double_check }),
                Box::new(Gen { name: "constant time", quick: 60_000, thorough: 3_000_000, gen: const_gen, check: const_check }),
                Box::new(Gen { name: "generator", quick: 30_000, thorough: 2_000_000, gen: gen_gen, check: gen_check }),
            ],
        ),
        "C23" => (
            "every table entry of the static, heap-built and raw-rebuilt contexts, generated calls of every operation that takes a context, with each context, and contexts built again, several at once while calls run; non-trivial: every entry; calls with arguments in their domain",
            vec![
                Box::new(Enumerate { name: "entries", cases: entry_cases, check: entry_check }),
                Box::new(Gen { name: "interchangeable", quick: 20_000, thorough: 1_000_000, gen: same_gen, check: same_check }),
                Box::new(Gen { name: "built again", quick: 160, thorough: 8_000, gen: build_gen, check: build_check }),
            ],
        ),
        _ => return None,
    })
}
