//! A vocabulary of public operations with generated arguments and the reference model's
//! answer, used where whole programs of calls matter (C18, C24, C25).

use crate::gen::*;
use crate::props::{der, ecdsa, keys};
use crate::refm::*;
use crate::run::Rg;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Sk(Hx),
    SkHex(U),
    Pk(U),
    Sign(U, U),
    Verify(U, U, U, Pt),
    Recover(U, U, U, u8),
    Ecdh(U, Pt),
    ParsePk(u8, Hx),
    Tadd(Pt, U),
    Tmul(Pt, U),
    STadd(U, U),
    STmul(U, U),
    SkInv(U),
    Combine(Vec<Pt>),
    Der(Hx),
    Lax(Hx),
    ToDer(U, U),
    Std(Hx),
    Ovf(Hx),
    Norm(U, U),
    Msg(Hx),
    Rid(u8),
    Rpc(u8),
    Serde(Pt),
}
use Op::*;

pub const ANY_ZERO: &str = "any zero";
pub const ERR_OR_ZERO: &str = "error or any zero";

fn h(b: &[u8]) -> String {
    if b.is_empty() {
        "-".into()
    } else {
        hex(b)
    }
}
fn u(v: &U) -> String {
    hex(&v.be())
}
fn p(v: &Pt) -> String {
    hex(&v.full())
}
fn rs(r: &U, s: &U) -> String {
    format!("{} {}", u(r), u(s))
}
fn pk_or(q: Option<Pt>, e: &str) -> String {
    match q {
        Some(q) if !q.is_inf() => p(&q),
        _ => format!("err:{}", e),
    }
}
fn key_ok(d: &U) -> bool {
    !d.is_zero() && *d < N
}

impl Op {
    /// are the arguments within the domain of the operation?
    pub fn valid(&self) -> bool {
        match self {
            SkHex(d) | Pk(d) | SkInv(d) => key_ok(d),
            Sign(d, _) => key_ok(d),
            Verify(z, r, s, q) => *z < N && *r < N && *s < N && ecdsa::pt_ok(q),
            Recover(z, r, s, i) => *z < N && *r < N && *s < N && *i < 4,
            Ecdh(d, q) | Tadd(q, d) | Tmul(q, d) => key_ok(d) && ecdsa::pt_ok(q),
            ParsePk(f, _) => *f < 4,
            STadd(a, b) | STmul(a, b) => key_ok(a) && key_ok(b),
            Combine(l) => l.iter().all(ecdsa::pt_ok),
            ToDer(r, s) | Norm(r, s) => *r < N && *s < N,
            Serde(q) => ecdsa::pt_ok(q),
            Sk(_) | Der(_) | Lax(_) | Std(_) | Ovf(_) | Msg(_) | Rid(_) | Rpc(_) => true,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Sk(_) => "sk",
            SkHex(_) => "skhex",
            Pk(_) => "pk",
            Sign(..) => "sign",
            Verify(..) => "verify",
            Recover(..) => "recover",
            Ecdh(..) => "ecdh",
            ParsePk(..) => "parsepk",
            Tadd(..) => "tadd",
            Tmul(..) => "tmul",
            STadd(..) => "stadd",
            STmul(..) => "stmul",
            SkInv(_) => "skinv",
            Combine(_) => "combine",
            Der(_) => "der",
            Lax(_) => "lax",
            ToDer(..) => "toder",
            Std(_) => "std",
            Ovf(_) => "ovf",
            Norm(..) => "norm",
            Msg(_) => "msg",
            Rid(_) => "rid",
            Rpc(_) => "rpc",
            Serde(_) => "serde",
        }
    }
    pub fn args(&self) -> Vec<Vec<u8>> {
        let b = |v: &U| v.be().to_vec();
        let k = |v: &Pt| v.full().to_vec();
        match self {
            Sk(x) | Der(x) | Lax(x) | Std(x) | Ovf(x) | Msg(x) => vec![x.0.clone()],
            SkHex(d) | Pk(d) | SkInv(d) => vec![b(d)],
            Sign(d, m) => vec![b(d), b(m)],
            Verify(z, r, s, q) => vec![b(z), b(r), b(s), k(q)],
            Recover(z, r, s, i) => vec![b(z), b(r), b(s), vec![*i]],
            Ecdh(d, q) => vec![b(d), k(q)],
            ParsePk(f, x) => vec![vec![*f], x.0.clone()],
            Tadd(q, t) | Tmul(q, t) => vec![k(q), b(t)],
            STadd(x, t) | STmul(x, t) | ToDer(x, t) | Norm(x, t) => vec![b(x), b(t)],
            Combine(l) => l.iter().map(k).collect(),
            Rid(i) | Rpc(i) => vec![vec![*i]],
            Serde(q) => vec![k(q)],
        }
    }
    pub fn line(&self) -> String {
        let mut s = self.name().to_string();
        for a in self.args() {
            s.push(' ');
            s.push_str(&h(&a));
        }
        s
    }
    /// the reference model's answer
    pub fn want(&self) -> String {
        match self {
            Sk(b) => {
                if b.0.len() != 32 {
                    "err:InvalidInputLength".into()
                } else if key_ok(&U::from_slice(&b.0)) {
                    hex(&b.0)
                } else {
                    "err:InvalidSecretKey".into()
                }
            }
            SkHex(d) => u(d),
            Pk(d) => p(&gmul(d)),
            Sign(d, m) => {
                let (r, s, i) = ecdsa_sign(d, &FN.red(*m));
                format!("{} {:02x}", rs(&r, &s), i)
            }
            Verify(z, r, s, q) => ecdsa_verify(z, r, s, q).to_string(),
            Recover(z, r, s, i) => pk_or(ecdsa_recover(z, r, s, *i), "InvalidSignature"),
            Ecdh(d, q) => {
                use sha2::{Digest, Sha256};
                hex(&Sha256::digest(&q.mul(d).compressed()))
            }
            ParsePk(f, b) => {
                let len = [None, Some(33), Some(64), Some(65)][*f as usize];
                match parse_pubkey(&b.0, len) {
                    Ok(q) => format!("{} {}", p(&q), hex(&q.compressed())),
                    Err(true) => "err:InvalidInputLength".into(),
                    Err(false) => "err:InvalidPublicKey".into(),
                }
            }
            Tadd(q, t) => pk_or(Some(q.add(&gmul(t))), "TweakOutOfRange"),
            Tmul(q, t) => p(&q.mul(t)),
            STadd(a, b) => {
                let v = FN.add(a, b);
                if v.is_zero() {
                    "err:TweakOutOfRange".into()
                } else {
                    u(&v)
                }
            }
            STmul(a, b) => u(&FN.mul(a, b)),
            SkInv(d) => u(&FN.inv(d)),
            Combine(l) => {
                let mut a = Pt::Inf;
                for q in l {
                    a = a.add(q);
                }
                pk_or(Some(a), "InvalidPublicKey")
            }
            Der(b) => match parse_der(&b.0) {
                None => "err:InvalidSignature".into(),
                Some((Some(r), Some(s))) => rs(&r, &s),
                Some(_) => ERR_OR_ZERO.into(),
            },
            Lax(b) => match parse_der_lax(&b.0) {
                None => "err:InvalidSignature".into(),
                Some((Some(r), Some(s))) => rs(&r, &s),
                Some(_) => ANY_ZERO.into(),
            },
            ToDer(r, s) => hex(&der_sig(r, s)),
            Std(b) => {
                if b.0.len() != 64 {
                    return "err:InvalidInputLength".into();
                }
                let (r, s) = (U::from_slice(&b.0[..32]), U::from_slice(&b.0[32..]));
                if r < N && s < N {
                    rs(&r, &s)
                } else {
                    "err:InvalidSignature".into()
                }
            }
            Ovf(b) => {
                if b.0.len() != 64 {
                    return "err:InvalidInputLength".into();
                }
                rs(&FN.red(U::from_slice(&b.0[..32])), &FN.red(U::from_slice(&b.0[32..])))
            }
            Norm(r, s) => rs(r, &if *s > half_order() { FN.neg(s) } else { *s }),
            Msg(b) => {
                if b.0.len() != 32 {
                    "err:InvalidInputLength".into()
                } else {
                    u(&FN.red(U::from_slice(&b.0)))
                }
            }
            Rid(i) => {
                if *i < 4 {
                    format!("{:02x}", i)
                } else {
                    "err:InvalidRecoveryId".into()
                }
            }
            Rpc(i) => {
                if (27..31).contains(i) {
                    format!("{:02x}", i - 27)
                } else {
                    "err:InvalidRecoveryId".into()
                }
            }
            Serde(q) => {
                let f = q.full();
                let mut bin = vec![65, 0, 0, 0, 0, 0, 0, 0];
                bin.extend_from_slice(&f);
                format!("{} {} {} {}", b64enc(&f), hex(&bin), hex(&f), hex(&f))
            }
        }
    }
    pub fn exec(&self, c: &crate::exec::Ctx) -> String {
        crate::exec::run(self.name(), &self.args(), c)
    }
    pub fn accepts(&self, got: &str) -> bool {
        let want = self.want();
        if want == ERR_OR_ZERO && got == "err:InvalidSignature" {
            return true;
        }
        if want != ANY_ZERO && want != ERR_OR_ZERO {
            return got == want;
        }
        let z = u(&ZERO);
        let v: Vec<&str> = got.split(' ').collect();
        v.len() == 2 && v.contains(&&z[..])
    }
}

/// Values that several operations of one program share.
pub struct Pool {
    pub keys: Vec<U>,
    pub pts: Vec<Pt>,
    pub msgs: Vec<U>,
}
impl Pool {
    pub fn new(rg: &Rg) -> Pool {
        let mut keys: Vec<U> = (0..2).map(|_| seckey(rg)).collect();
        keys.push(FN.neg(&keys[0]));
        let mut pts: Vec<Pt> = keys.iter().map(gmul).collect();
        pts.push(point(rg));
        let q = pts[0];
        pts.push(related(rg, &q));
        let mut msgs: Vec<U> = (0..2).map(|_| u256(rg)).collect();
        // same value in a part only
        msgs.push(msgs[0].xor(&U::pow2(rg.idx(256))));
        pts.retain(|x| !x.is_inf());
        Pool { keys, pts, msgs }
    }
}

pub fn op(rg: &Rg, pool: &Pool) -> Op {
    let key = |rg: &Rg| if rg.one_in(4) { seckey(rg) } else { rg.pick(&pool.keys) };
    let pt = |rg: &Rg| if rg.one_in(4) { point(rg) } else { rg.pick(&pool.pts) };
    let m = |rg: &Rg| if rg.one_in(4) { u256(rg) } else { rg.pick(&pool.msgs) };
    match rg.below(28) {
        0 => Sk(Hx(if rg.one_in(4) { any_bytes(rg, 40, &[32]) } else { u256(rg).be().to_vec() })),
        1 => SkHex(key(rg)),
        2 | 3 => Pk(key(rg)),
        4 | 5 => Sign(key(rg), m(rg)),
        6 | 7 => {
            let (d, msg) = (key(rg), m(rg));
            let z = FN.red(msg);
            let (r, s, _) = ecdsa_sign(&d, &z);
            match rg.below(5) {
                0 => Verify(z, r, s, pt(rg)),
                1 => Verify(FN.red(m(rg)), r, s, gmul(&d)),
                2 => ecdsa::any_verify(rg),
                _ => Verify(z, r, s, gmul(&d)),
            }
        }
        8 | 9 => {
            let (d, msg) = (key(rg), m(rg));
            let z = FN.red(msg);
            let (r, s, i) = ecdsa_sign(&d, &z);
            match rg.below(4) {
                0 => ecdsa::any_recover(rg),
                1 => Recover(FN.red(m(rg)), r, s, rg.below(4) as u8),
                _ => Recover(z, r, s, i),
            }
        }
        10 | 11 => Ecdh(key(rg), pt(rg)),
        12 | 13 => {
            let (f, b) = keys::any_parse(rg);
            ParsePk(f, b)
        }
        14 => Tadd(pt(rg), key(rg)),
        15 => Tmul(pt(rg), key(rg)),
        16 => STadd(key(rg), key(rg)),
        17 => STmul(key(rg), key(rg)),
        18 => SkInv(key(rg)),
        19 => Combine((0..rg.idx(5)).map(|_| pt(rg)).collect()),
        20 => Der(der::any_der(rg)),
        21 => Lax(der::any_lax(rg)),
        22 => ToDer(scalar(rg), scalar(rg)),
        23 => {
            let mut b = u256(rg).be().to_vec();
            b.extend(u256(rg).be());
            if rg.one_in(6) {
                mutate(rg, &mut b);
            }
            if rg.coin() {
                Std(Hx(b))
            } else {
                Ovf(Hx(b))
            }
        }
        24 => Norm(scalar(rg), scalar(rg)),
        25 => Msg(Hx(if rg.one_in(4) { any_bytes(rg, 40, &[32]) } else { u256(rg).be().to_vec() })),
        26 => {
            let i = if rg.coin() { rg.below(40) as u8 } else { rg.u64() as u8 };
            if rg.coin() {
                Rid(i)
            } else {
                Rpc(i)
            }
        }
        _ => Serde(pt(rg)),
    }
}

/// The same operation with one argument changed in a way that keeps much of it.
pub fn variant(rg: &Rg, o: &Op, pool: &Pool) -> Op {
    let flip = |rg: &Rg, m: &U| m.xor(&U::pow2(rg.idx(256)));
    let okey = |rg: &Rg, d: &U| {
        let v = match rg.below(3) {
            0 => FN.neg(d),
            1 => FN.red(flip(rg, d)),
            _ => rg.pick(&pool.keys),
        };
        if v.is_zero() {
            ONE
        } else {
            v
        }
    };
    let opt = |rg: &Rg, q: &Pt| match rg.below(4) {
        0 => endo(q),
        1 | 2 => q.neg(),
        _ => rg.pick(&pool.pts),
    };
    let bytes = |rg: &Rg, b: &Hx| {
        let mut b = b.clone();
        mutate(rg, &mut b.0);
        b
    };
    match o {
        Sk(b) => Sk(bytes(rg, b)),
        SkHex(d) => SkHex(okey(rg, d)),
        Pk(d) => Pk(okey(rg, d)),
        Sign(d, m) => {
            if rg.coin() {
                Sign(okey(rg, d), *m)
            } else {
                Sign(*d, flip(rg, m))
            }
        }
        Verify(z, r, s, q) => match rg.below(4) {
            0 => Verify(FN.red(flip(rg, z)), *r, *s, *q),
            1 => Verify(*z, FN.red(flip(rg, r)), *s, *q),
            2 => Verify(*z, *r, FN.neg(s), *q),
            _ => Verify(*z, *r, *s, opt(rg, q)),
        },
        Recover(z, r, s, i) => match rg.below(4) {
            0 => Recover(FN.red(flip(rg, z)), *r, *s, *i),
            1 => Recover(*z, *r, FN.neg(s), *i),
            2 => Recover(*z, *r, *s, i ^ 1),
            _ => Recover(*z, *r, *s, rg.below(4) as u8),
        },
        Ecdh(d, q) => {
            if rg.coin() {
                Ecdh(okey(rg, d), *q)
            } else {
                Ecdh(*d, opt(rg, q))
            }
        }
        ParsePk(f, b) => {
            if rg.one_in(3) {
                ParsePk(rg.below(4) as u8, b.clone())
            } else {
                ParsePk(*f, bytes(rg, b))
            }
        }
        Tadd(q, t) => {
            if rg.coin() {
                Tadd(opt(rg, q), *t)
            } else {
                Tadd(*q, okey(rg, t))
            }
        }
        Tmul(q, t) => {
            if rg.coin() {
                Tmul(opt(rg, q), *t)
            } else {
                Tmul(*q, okey(rg, t))
            }
        }
        STadd(a, b) => STadd(*a, okey(rg, b)),
        STmul(a, b) => STmul(okey(rg, a), *b),
        SkInv(d) => SkInv(okey(rg, d)),
        Combine(l) => {
            let mut l = l.clone();
            if l.is_empty() || rg.one_in(4) {
                l.push(rg.pick(&pool.pts));
            } else {
                let i = rg.idx(l.len());
                l[i] = opt(rg, &l[i]);
            }
            Combine(l)
        }
        Der(b) => Der(bytes(rg, b)),
        Lax(b) => {
            if rg.one_in(4) {
                Der(b.clone())
            } else {
                Lax(bytes(rg, b))
            }
        }
        ToDer(r, s) => ToDer(*r, FN.neg(s)),
        Std(b) => {
            if rg.coin() {
                Ovf(b.clone())
            } else {
                Std(bytes(rg, b))
            }
        }
        Ovf(b) => {
            if rg.coin() {
                Std(b.clone())
            } else {
                Ovf(bytes(rg, b))
            }
        }
        Norm(r, s) => Norm(*r, FN.neg(s)),
        Msg(b) => Msg(bytes(rg, b)),
        Rid(i) => Rid(i.wrapping_add(1)),
        Rpc(i) => Rpc(i.wrapping_sub(1)),
        Serde(q) => Serde(opt(rg, q)),
    }
}

/// A history: fresh calls, repeated calls and calls that differ in one argument.
pub fn history(rg: &Rg, max: u64) -> Vec<Op> {
    let pool = Pool::new(rg);
    let n = rg.range(2, max);
    let mut v: Vec<Op> = vec![op(rg, &pool)];
    while (v.len() as u64) < n {
        let prev = rg.pick(&v);
        let next = match rg.below(8) {
            0 | 1 => prev,
            2..=5 => variant(rg, &prev, &pool),
            _ => op(rg, &pool),
        };
        if next.valid() {
            v.push(next);
        }
    }
    v
}
