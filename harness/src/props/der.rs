//! C16 C17: DER encodings of signatures.

use super::ecdsa::csecp;
use crate::conv::*;
use crate::gen::*;
use crate::refm::*;
use crate::run::{Enumerate, Gen, Group, Obs, Res, Rg};
use crate::{ensure, same};
use libsecp256k1::{Error, Signature};
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------ round trip

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SigCase {
    r: U,
    s: U,
}
fn trip_gen(rg: &Rg) -> SigCase {
    // every encoded length is produced: shifted values, sign-bit boundaries, zero
    let comp = |rg: &Rg| match rg.below(6) {
        0 => scalar(rg).shr(rg.idx(257)),
        1 => {
            let k = rg.idx(33) * 8;
            let v = if k == 256 { ZERO } else { U::pow2(k) };
            match rg.below(3) {
                0 => v,
                1 => v.wsub(&ONE),
                _ => v.half(),
            }
        }
        2 => random(rg).shr(8 * rg.idx(32)),
        3 => U::pow2(rg.idx(256)).wsub(&U::from_u64(rg.below(3))),
        _ => scalar(rg),
    };
    SigCase {
        r: FN.red(comp(rg)),
        s: FN.red(comp(rg)),
    }
}
fn trip_check(c: &SigCase, o: &mut Obs) -> Res {
    if c.r >= N || c.s >= N {
        return Ok(());
    }
    o.nt();
    let s = sig(&c.r, &c.s);
    let d = s.serialize_der();
    let want = der_sig(&c.r, &c.s);
    same!(hex(d.as_ref()), hex(&want), "DER of r={:?} s={:?}", c.r, c.s);
    same!(d.len(), want.len(), "reported length");
    ensure!(!d.is_empty() && d.len() <= 72, "length {}", d.len());
    o.label_if(d.len() == 72, "72 bytes");
    o.label_if(d.len() <= 8, "8 bytes or fewer");
    o.label_if(c.r.is_zero() || c.s.is_zero(), "zero component");
    let b: &[u8] = d.as_ref();
    let p = Signature::parse_der(b)
        .map_err(|e| format!("strict parse of own encoding {}: {:?}", hex(b), e))?;
    same!(un_sig(&p), (c.r, c.s), "strict round trip of {}", hex(b));
    let p = Signature::parse_der_lax(b)
        .map_err(|e| format!("lax parse of own encoding {}: {:?}", hex(b), e))?;
    same!(un_sig(&p), (c.r, c.s), "lax round trip of {}", hex(b));
    let mut m = s.serialize_der();
    same!(hex(m.as_mut()), hex(&want), "as_mut view");
    Ok(())
}

// ------------------------------------------------------------ parsing

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BytesCase {
    b: Hx,
}

fn length_octets(rg: &Rg, n: usize, good: u64) -> Vec<u8> {
    let minimal = |n: usize| {
        if n < 128 {
            vec![n as u8]
        } else if n < 256 {
            vec![0x81, n as u8]
        } else {
            vec![0x82, (n >> 8) as u8, n as u8]
        }
    };
    if rg.below(10) < good {
        return minimal(n);
    }
    match rg.below(11) {
        0 => minimal(n.saturating_sub(1)),
        1 => minimal(n + 1),
        2 => minimal((n as i64 + rg.range(0, 60) as i64 - 30).max(0) as usize),
        3 => vec![0x81, n as u8],
        4 => vec![0x82, (n >> 8) as u8, n as u8],
        5 => {
            let k = 1 + rg.idx(126);
            let mut v = vec![0x80 + k as u8];
            v.resize(k, 0);
            v.push((n >> 8) as u8);
            v.push(n as u8);
            v.truncate(1 + k.max(2));
            v
        }
        6 => vec![0x80],
        7 => vec![0xff],
        8 => {
            // as many octets as a usize, or one fewer or more
            let k = rg.pick(&[3usize, 4, 7, 8, 9]);
            let mut v = vec![0x80 + k as u8];
            v.extend(if rg.coin() { vec![0; k] } else { rg.bytes(k) });
            if rg.coin() {
                *v.last_mut().unwrap() = n as u8;
            }
            v
        }
        9 if rg.coin() => {
            // values which are right modulo a power of two
            let k = rg.pick(&[2usize, 3, 4, 5, 7, 8, 9, 10, 16, 17, 18, 20]);
            let mut v = vec![0x80 + k as u8];
            v.resize(1 + k, 0);
            v[1 + rg.idx(k.min(2))] = 1 << rg.below(8);
            v[k] |= n as u8;
            if k > 2 {
                v[k - 1] |= (n >> 8) as u8;
            }
            v
        }
        9 => {
            // huge values that wrap when added to a position
            let k = 8;
            let mut v = vec![0x80 + k];
            v.extend(vec![0xff; 8]);
            let j = v.len() - 1;
            v[j] = rg.u64() as u8;
            v
        }
        _ => vec![rg.u64() as u8],
    }
}

fn int_content(rg: &Rg) -> Vec<u8> {
    let mut c = match rg.below(14) {
        0 => der_int(&N.wadd(&U::from_u64(rg.below(3))).wsub(&ONE)),
        1 => der_int(&MAX.wsub(&U::from_u64(rg.below(3)))),
        2 => vec![],
        3 => vec![0],
        4 => vec![rg.u64() as u8],
        5 => {
            // more than 32 significant octets
            let n = 33 + rg.idx(5);
            let mut v = rg.bytes(n);
            v[0] |= 1;
            v
        }
        6 => {
            // long content that itself contains the encoding of an integer
            let mut v = vec![1 + rg.below(0x7f) as u8];
            v.extend(vec![2, rg.pick(&[30u8, 29, 1, 0, 28])]);
            let n = rg.pick(&[30usize, 31, 33, 40]);
            v.extend(rg.bytes(n));
            v
        }
        7 => {
            // 128 octets and more: long form lengths become legitimate
            let n = rg.pick(&[127usize, 128, 129, 200, 255, 256, 257, 300]);
            let mut v = rg.bytes(n);
            v[0] &= 0x7f;
            v
        }
        8 => der_int(&random(rg).shr(8 * rg.idx(32))),
        _ => der_int(&scalar(rg)),
    };
    match rg.below(24) {
        0 => c.insert(0, 0),
        1 => {
            for _ in 0..rg.range(1, 40) {
                c.insert(0, 0)
            }
        }
        2 => c.insert(0, 0xff),
        3 if !c.is_empty() => c[0] |= 0x80,
        4 if c.len() > 1 && c[0] == 0 => {
            c.remove(0);
        }
        5 => c = vec![0xff, rg.u64() as u8, 1],
        6 => {
            c.truncate(31);
            c.insert(0, rg.u64() as u8 | 0x80);
            c.insert(0, 0xff)
        }
        _ => {}
    }
    c
}

fn der_gen(rg: &Rg) -> BytesCase {
    if rg.one_in(16) {
        return BytesCase {
            b: Hx(any_bytes(rg, 90, &[8, 70, 71, 72, 73])),
        };
    }
    let good = rg.pick(&[10u64, 10, 9, 7]);
    let mut body = vec![];
    let n = if rg.one_in(20) { rg.idx(4) } else { 2 };
    for _ in 0..n {
        let c = int_content(rg);
        body.push(if rg.one_in(40) { rg.u64() as u8 } else { 2 });
        body.extend(length_octets(rg, c.len(), good));
        body.extend(c);
    }
    if rg.one_in(16) {
        let k = 1 + rg.idx(4);
        body.extend(if rg.coin() { vec![0; k] } else { rg.bytes(k) });
    }
    let mut b = vec![if rg.one_in(40) { rg.pick(&[0x31u8, 0x10, 0, 2, 0xb0]) } else { 0x30 }];
    b.extend(length_octets(rg, body.len(), good));
    b.extend(body);
    if rg.one_in(16) {
        let k = 1 + rg.idx(4);
        b.extend(if rg.coin() { vec![0; k] } else { rg.bytes(k) });
    }
    if rg.one_in(3) {
        for _ in 0..rg.range(1, 3) {
            mutate(rg, &mut b);
        }
    }
    BytesCase { b: Hx(b) }
}

/// all ways to write one of a few values with lengths and contents near their limits
fn der_enum(_: bool) -> Vec<BytesCase> {
    let mut contents: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 0], vec![0x7f], vec![0x80], vec![0, 0x80], vec![0, 0x7f]];
    for x in [0x00u8, 0x01, 0x7f, 0x80, 0xfe, 0xff] {
        for y in [0x00u8, 0x01, 0x7f, 0x80, 0x81, 0xff] {
            contents.push(vec![x, y]);
            contents.push(vec![x, y, 5]);
        }
    }
    for v in [ONE, N.wsub(&ONE), N, N.wadd(&ONE), MAX, U::pow2(255), U::pow2(255).wsub(&ONE), half_order()] {
        let c = der_int(&v);
        contents.push(c.clone());
        let mut z = c.clone();
        z.insert(0, 0);
        contents.push(z);
        contents.push(v.be().to_vec());
    }
    for n in [31usize, 32, 33, 34, 64, 127, 128, 255] {
        for first in [0u8, 1, 0x7f, 0x80, 0xff] {
            let mut v = vec![0x11; n];
            v[0] = first;
            contents.push(v);
        }
    }
    let lens = |n: usize| -> Vec<Vec<u8>> {
        let mut v = vec![];
        if n < 128 {
            v.push(vec![n as u8]);
        }
        v.push(vec![0x81, n as u8]);
        v.push(vec![0x82, (n >> 8) as u8, n as u8]);
        v.push(vec![0x84, 0, 0, (n >> 8) as u8, n as u8]);
        if n < 127 {
            v.push(vec![n as u8 + 1]);
        }
        v
    };
    let mut out = vec![];
    let fixed = vec![2u8, 1, 5];
    for c in &contents {
        for l in lens(c.len()) {
            let mut i = vec![2u8];
            i.extend(&l);
            i.extend(c);
            for order in 0..2 {
                let mut body = vec![];
                if order == 0 {
                    body.extend(&i);
                    body.extend(&fixed);
                } else {
                    body.extend(&fixed);
                    body.extend(&i);
                }
                for sl in lens(body.len()) {
                    let mut b = vec![0x30];
                    b.extend(sl);
                    b.extend(&body);
                    out.push(BytesCase { b: Hx(b.clone()) });
                    b.push(0);
                    out.push(BytesCase { b: Hx(b.clone()) });
                    b.pop();
                    b.pop();
                    out.push(BytesCase { b: Hx(b) });
                }
            }
        }
    }
    out.extend(long_lengths().into_iter().map(|b| BytesCase { b }));
    // every prefix of a few encodings
    for (r, s) in [(ONE, ONE), (N.wsub(&ONE), half_order()), (MAX, U::from_u64(128))] {
        let b = der_sig(&r, &s);
        for k in 0..b.len() {
            out.push(BytesCase { b: Hx(b[..k].to_vec()) });
        }
    }
    out
}

fn strict_check(c: &BytesCase, o: &mut Obs) -> Res {
    let b = &c.b.0;
    let want = parse_der(b);
    if b.first() == Some(&0x30) && b.len() > 2 {
        o.nt();
    }
    let got = Signature::parse_der(b);
    match (&got, &want) {
        (Err(e), None) => {
            same!(*e, Error::InvalidSignature, "error for {:?}", c.b);
            o.label("malformed");
        }
        (Err(e), Some((r, s_))) if r.is_none() || s_.is_none() => {
            same!(*e, Error::InvalidSignature, "error for {:?}", c.b);
            o.label("integer out of range, rejected");
        }
        (Ok(s), Some((r, s_))) => {
            same!(un_sc(&s.r), r.unwrap_or(ZERO), "r of {:?}", c.b);
            same!(un_sc(&s.s), s_.unwrap_or(ZERO), "s of {:?}", c.b);
            o.label(if r.is_some() && s_.is_some() { "well formed" } else { "integer out of range, zeroed" });
            if r.is_none() || s_.is_none() {
                let k = repr_pk(&G, 0)?;
                ensure!(!libsecp256k1::verify(&msg(&ONE), s, &k), "out-of-range signature verifies");
            } else {
                same!(hex(s.serialize_der().as_ref()), hex(b), "re-encoding");
            }
        }
        (Ok(s), None) => return Err(format!("malformed {:?} accepted as {:?}", c.b, un_sig(s))),
        (Err(e), Some(v)) => return Err(format!("well formed {:?} = {:?} rejected: {:?}", c.b, v, e)),
    }
    // the C library on the same input
    let cs = secp256k1::Signature::from_der(b);
    if !matches!(want, Some((None, _)) | Some((_, None))) {
        same!(cs.is_ok(), got.is_ok(), "C library accepts {:?}", c.b);
    }
    if let (Ok(cs), Some((Some(r), Some(s)))) = (cs, want) {
        same!(hex(&cs.serialize_compact()), hex(&[r.be(), s.be()].concat()), "C library value");
    }
    // whatever the strict parser takes, the lax one takes with the same value
    if let Ok(s) = got {
        let l = Signature::parse_der_lax(b).map_err(|e| format!("{:?} is strict DER, lax says {:?}", c.b, e))?;
        if let Some((Some(_), Some(_))) = want {
            same!(un_sig(&l), un_sig(&s), "strict and lax value of {:?}", c.b);
        }
    }
    Ok(())
}

fn lax_check(c: &BytesCase, o: &mut Obs) -> Res {
    let b = &c.b.0;
    let want = parse_der_lax(b);
    if b.first() == Some(&0x30) && b.len() > 2 {
        o.nt();
    }
    let got = Signature::parse_der_lax(b);
    match (&got, &want) {
        (Err(e), None) => {
            same!(*e, Error::InvalidSignature, "error for {:?}", c.b);
            o.label("rejected");
        }
        (Ok(s), Some((Some(r), Some(s_)))) => {
            same!(un_sig(s), (*r, *s_), "value of {:?}", c.b);
            o.label("accepted");
            o.label_if(parse_der(b).is_none(), "accepted, not strict DER");
        }
        (Ok(s), Some(v)) => {
            o.label("integer out of range");
            ensure!(s.r.is_zero() || s.s.is_zero(), "{:?} = {:?} parsed as {:?}", c.b, v, un_sig(s));
            ensure!(un_sc(&s.r) < N && un_sc(&s.s) < N, "non-canonical {:?}", un_sig(s));
            let k = repr_pk(&G, 0)?;
            ensure!(!libsecp256k1::verify(&msg(&ONE), s, &k), "out-of-range signature verifies");
        }
        (Ok(s), None) => return Err(format!("{:?} accepted as {:?}", c.b, un_sig(s))),
        (Err(e), Some(v)) => return Err(format!("{:?} = {:?} rejected: {:?}", c.b, v, e)),
    }
    let cs = secp256k1::Signature::from_der_lax(b);
    same!(cs.is_ok(), got.is_ok(), "C library accepts {:?}", c.b);
    let _ = csecp();
    if let (Ok(cs), Some((Some(r), Some(s)))) = (cs, want) {
        same!(hex(&cs.serialize_compact()), hex(&[r.be(), s.be()].concat()), "C library value");
    }
    Ok(())
}

// --------------------------------------------- integers of 2^16 octets and more

/// 30 [sequence length] 02 [n + tail] (lead) 0... tail 02 01 05, or the two integers swapped
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BigCase {
    lead: u8,
    zeros: u32,
    tail: Hx,
    first: bool,
    off: i8,
}
fn big_length(n: usize) -> Vec<u8> {
    let b: Vec<u8> = (n as u64).to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
    let mut v = vec![0x80 + b.len() as u8];
    v.extend(b);
    v
}
impl BigCase {
    fn bytes(&self) -> Vec<u8> {
        let n = 1 + self.zeros as usize + self.tail.0.len();
        let mut i = vec![2u8];
        i.extend(big_length((n as i64 + self.off as i64) as usize));
        i.push(self.lead);
        i.resize(i.len() + self.zeros as usize, 0);
        i.extend(&self.tail.0);
        let mut body = if self.first { i.clone() } else { vec![2, 1, 5] };
        body.extend(if self.first { vec![2, 1, 5] } else { i });
        let mut b = vec![0x30];
        b.extend(big_length(body.len()));
        b.extend(body);
        b
    }
}
fn big_enum(thorough: bool) -> Vec<BigCase> {
    let mut sizes = vec![0xfffdu32, 0xfffe, 0xffff, 0x10000, 0x10001, 0xffffff, 0x1000000];
    if thorough {
        sizes.extend([0x1ffff, 0x20000, 0xfffff0, 0xfffffe, 0x1000001, 0x1010101]);
    }
    let mut out = vec![];
    for zeros in sizes {
        let offs: &[i8] = if zeros < 0x20000 || thorough { &[0, 1, -1, 3, 5] } else { &[0, 4] };
        for &off in offs {
            for first in [true, false] {
                for (lead, tail) in [(0, vec![9]), (1, vec![])] {
                    out.push(BigCase { lead, zeros, tail: Hx(tail), first, off });
                }
            }
        }
    }
    out
}
fn brief(r: Res) -> Res {
    r.map_err(|e| if e.len() <= 400 { e } else { format!("{} ... {}", &e[..200], &e[e.len() - 150..]) })
}
fn big_strict(c: &BigCase, o: &mut Obs) -> Res {
    brief(strict_check(&BytesCase { b: Hx(c.bytes()) }, o))
}
fn big_lax(c: &BigCase, o: &mut Obs) -> Res {
    brief(lax_check(&BytesCase { b: Hx(c.bytes()) }, o))
}

/// One length in a signature takes up to 20 octets, one of which is not zero: with the octets
/// before the last left out, or reduced modulo 2^32 or 2^64, the length would be right.
pub fn long_lengths() -> Vec<Hx> {
    let mut out = vec![];
    for k in 1usize..=20 {
        for j in 0..k {
            for hi in [0u8, 1, 0x80, 0xff] {
                if hi == 0 && j > 0 || j == k - 1 && hi != 0 {
                    continue;
                }
                let octets = |n: usize| {
                    let mut v = vec![0x80 + k as u8];
                    v.resize(1 + k, 0);
                    v[k] = n as u8;
                    if hi != 0 {
                        v[1 + j] = hi;
                    }
                    v
                };
                for field in 0..3 {
                    let mut body = vec![];
                    for (i, content) in [[0x11u8; 31], [0x7f; 31]].iter().enumerate() {
                        // short ones too
                        let c = &content[..if k & 1 == 0 { 31 } else { 1 }];
                        body.push(2);
                        body.extend(if field == i { octets(c.len()) } else { vec![c.len() as u8] });
                        body.extend(c);
                    }
                    let mut b = vec![0x30];
                    b.extend(if field == 2 { octets(body.len()) } else { vec![body.len() as u8] });
                    b.extend(body);
                    out.push(Hx(b));
                }
            }
        }
    }
    out
}

fn lax_gen(rg: &Rg) -> BytesCase {
    let mut c = der_gen(rg);
    if rg.one_in(4) && c.b.0.len() > 2 {
        // any sequence length octets will do
        let k = rg.idx(3);
        let mut b = vec![0x30, 0x80 + k as u8];
        b.extend(rg.bytes(k));
        b.extend(&c.b.0[2..]);
        c.b.0 = b;
    }
    c
}

pub fn any_der(rg: &Rg) -> Hx {
    if rg.coin() {
        let c = trip_gen(rg);
        Hx(der_sig(&c.r, &c.s))
    } else {
        der_gen(rg).b
    }
}
pub fn any_lax(rg: &Rg) -> Hx {
    lax_gen(rg).b
}

pub fn groups(id: &str) -> Option<(&'static str, Vec<Box<dyn Group>>)> {
    Some(match id {
        "C16" => (
            "encode: (r, s) over all encoded lengths and sign-bit boundaries, every one non-trivial; parse: byte strings from a DER grammar with faulty lengths, padding, negative and oversized integers, trailing data and mutations, plus an enumerated set of boundary encodings; non-trivial: starts with a SEQUENCE tag and is longer than 2 bytes",
            vec![
                Box::new(Enumerate { name: "boundary encodings", cases: der_enum, check: strict_check }),
                Box::new(Enumerate { name: "very long integers", cases: big_enum, check: big_strict }),
                Box::new(Gen { name: "encode", quick: 200_000, thorough: 8_000_000, gen: trip_gen, check: trip_check }),
                Box::new(Gen { name: "parse", quick: 600_000, thorough: 30_000_000, gen: der_gen, check: strict_check }),
            ],
        ),
        "C17" => (
            "byte strings from a DER grammar with faulty and non-minimal lengths, arbitrary sequence length octets, padding, oversized integers and mutations, plus an enumerated set of boundary encodings; non-trivial: starts with a SEQUENCE tag and is longer than 2 bytes",
            vec![
                Box::new(Enumerate { name: "boundary encodings", cases: der_enum, check: lax_check }),
                Box::new(Enumerate { name: "very long integers", cases: big_enum, check: big_lax }),
                Box::new(Gen { name: "parse", quick: 800_000, thorough: 40_000_000, gen: lax_gen, check: lax_check }),
            ],
        ),
        _ => return None,
    })
}
