//! The reference model against the C library and against its own definitions.
use crate::gen::*;
use crate::props::ecdsa::csecp;
use crate::refm::*;
use crate::run::Rg;
use proptest::test_runner::{RngAlgorithm, TestRng};

pub fn main() {
    let mut r = TestRng::from_seed(RngAlgorithm::ChaCha, &[7; 32]);
    let rg = Rg::new(&mut r);
    let c = csecp();
    assert_eq!(FN.mul(&FN.sqr(&LAMBDA), &LAMBDA), ONE);
    assert_eq!(FP.mul(&FP.sqr(&BETA), &BETA), ONE);
    assert_eq!(gmul(&LAMBDA), endo(&G));
    assert!(gmul(&N).is_inf());
    for m in [FN, FP] {
        for _ in 0..20_000 {
            let (a, b) = mul_pair(&rg, &m);
            assert!(a < m.m && b < m.m);
            let k = m.add(&a, &b);
            assert_eq!(m.mul(&k, &k), m.add(&m.add(&m.sqr(&a), &m.sqr(&b)), &m.mul(&m.add(&a, &a), &b)));
            if !a.is_zero() {
                assert_eq!(m.mul(&a, &m.inv(&a)), ONE);
            }
            assert!(m.add(&a, &m.neg(&a)).is_zero());
        }
    }
    for i in 0..3000 {
        let d = seckey(&rg);
        let q = gmul(&d);
        let csk = secp256k1::SecretKey::from_slice(&d.be()).unwrap();
        let cpk = secp256k1::PublicKey::from_secret_key(c, &csk);
        assert_eq!(cpk.serialize_uncompressed(), q.full());
        assert_eq!(cpk.serialize(), q.compressed());
        assert_eq!(G.mul(&d), q);
        let p2 = point(&rg);
        let cp2 = secp256k1::PublicKey::from_slice(&p2.full()).unwrap();
        match cpk.combine(&cp2) {
            Ok(s) => assert_eq!(s.serialize_uncompressed(), q.add(&p2).full()),
            Err(_) => assert!(q.add(&p2).is_inf()),
        }
        let mut t = cp2;
        t.mul_assign(c, &d.be()).unwrap();
        assert_eq!(t.serialize_uncompressed(), p2.mul(&d).full());
        let z = u256(&rg);
        if z < N {
            let cm = secp256k1::Message::from_slice(&z.be()).unwrap();
            let s = c.sign_recoverable(&cm, &csk);
            let (cid, cb) = s.serialize_compact();
            let (r, s_, id) = ecdsa_sign(&d, &z);
            assert_eq!(&cb[..32], &r.be()[..]);
            assert_eq!(&cb[32..], &s_.be()[..]);
            assert_eq!(cid.to_i32(), id as i32);
            assert!(ecdsa_verify(&z, &r, &s_, &q));
            assert_eq!(ecdsa_recover(&z, &r, &s_, id), Some(q));
            let mut sig = secp256k1::Signature::from_compact(&cb).unwrap();
            assert_eq!(&sig.serialize_der()[..], &der_sig(&r, &s_)[..]);
            sig.normalize_s();
        }
        // DER parsers
        let mut b = der_sig(&scalar(&rg), &scalar(&rg));
        for _ in 0..rg.below(4) {
            mutate(&rg, &mut b);
        }
        let val = |r: Result<secp256k1::Signature, secp256k1::Error>| {
            r.ok().map(|s| {
                let x = s.serialize_compact();
                (U::from_slice(&x[..32]), U::from_slice(&x[32..]))
            })
        };
        // the C library turns a signature with an out-of-range part into (0, 0)
        let cz = |o: Option<(Option<U>, Option<U>)>| o;
        let want = cz(parse_der(&b));
        let got = val(secp256k1::Signature::from_der(&b));
        chk(i, &b, got, want, "der");
        let want = cz(parse_der_lax(&b));
        let got = val(secp256k1::Signature::from_der_lax(&b));
        chk(i, &b, got, want, "lax");
        // public keys
        let mut k = if rg.coin() { p2.full().to_vec() } else { p2.compressed().to_vec() };
        if rg.coin() {
            mutate(&rg, &mut k);
        }
        let got = secp256k1::PublicKey::from_slice(&k).ok().map(|x| x.serialize_uncompressed());
        let want = parse_pubkey(&k, None).ok().map(|x| x.full());
        if k.len() == 33 || k.len() == 65 {
            assert_eq!(got, want, "pubkey {}", hex(&k));
        }
    }
    println!("selftest ok");
}
fn chk(i: u32, b: &[u8], got: Option<(U, U)>, want: Option<(Option<U>, Option<U>)>, what: &str) {
    match (got, want) {
        (None, None) => {}
        (Some((r, s)), Some((Some(wr), Some(ws)))) => assert_eq!((r, s), (wr, ws), "{} {} {}", what, i, hex(b)),
        (Some((r, s)), Some(_)) => assert!(r.is_zero() || s.is_zero(), "{} {} {}", what, i, hex(b)),
        x => panic!("{} {} {}: {:?}", what, i, hex(b), x),
    }
}
