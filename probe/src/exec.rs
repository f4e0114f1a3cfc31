//! One operation of the library, from textual arguments to a textual result.
//! Shared by the probes (every feature configuration, other platforms, instrumented builds)
//! and the harness.
use alloc::{boxed::Box, format, string::String, vec, vec::Vec};
use libsecp256k1::curve::{ECMultContext, ECMultGenContext, Scalar};
use libsecp256k1::*;

pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn err(e: Error) -> String {
    format!("err:{:?}", e)
}
pub fn a32(b: &[u8]) -> [u8; 32] {
    let mut a = [0; 32];
    a.copy_from_slice(b);
    a
}
pub fn sc(b: &[u8]) -> Scalar {
    let mut s = Scalar::default();
    let _ = s.set_b32(&a32(b));
    s
}
fn sc_hex(s: &Scalar) -> String {
    hex(&s.b32())
}
fn sig(r: &[u8], s: &[u8]) -> Signature {
    Signature { r: sc(r), s: sc(s) }
}
fn sig_hex(s: Result<Signature, Error>) -> String {
    s.map_or_else(err, |s| format!("{} {}", sc_hex(&s.r), sc_hex(&s.s)))
}
fn key(b: &[u8]) -> PublicKey {
    PublicKey::parse_slice(b, None).expect("valid key")
}
fn pk_hex(k: Result<PublicKey, Error>) -> String {
    k.map_or_else(err, |k| hex(&k.serialize()))
}
fn sk(b: &[u8]) -> SecretKey {
    SecretKey::parse_slice(b).expect("valid secret")
}

pub struct Ctx {
    pub m: Box<ECMultContext>,
    pub g: Box<ECMultGenContext>,
}
impl Ctx {
    pub fn new() -> Ctx {
        Ctx { m: ECMultContext::new_boxed(), g: ECMultGenContext::new_boxed() }
    }
    /// from the built-in tables: building them takes an interpreter too long
    #[cfg(all(feature = "static-context", not(feature = "lazy-static-context")))]
    pub fn copied() -> Ctx {
        unsafe {
            Ctx {
                m: Box::new(ECMultContext::new_from_raw(*ECMULT_CONTEXT.inspect_raw())),
                g: Box::new(ECMultGenContext::new_from_raw(*ECMULT_GEN_CONTEXT.inspect_raw())),
            }
        }
    }
}

/// a random source that gives out the bytes it was made of, then ones
#[derive(Clone)]
struct Tape<'a>(&'a [u8]);
impl rand::RngCore for Tape<'_> {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            match self.0.split_first() {
                Some((f, r)) => {
                    *x = *f;
                    self.0 = r;
                }
                None => *x = 1,
            }
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// result with a context of our own, and with the built-in one where there is one
fn both(own: String, built_in: Option<String>) -> String {
    match built_in {
        Some(b) if b != own => format!("diff: {} / {}", own, b),
        _ => own,
    }
}
macro_rules! if_static {
    ($e:expr) => {{
        #[cfg(feature = "static-context")]
        {
            Some($e)
        }
        #[cfg(not(feature = "static-context"))]
        {
            None
        }
    }};
}

pub fn run(op: &str, a: &[Vec<u8>], c: &Ctx) -> String {
    match op {
        "sk" => SecretKey::parse_slice(&a[0]).map_or_else(err, |k| hex(&k.serialize())),
        "skhex" => format!("{:x}", sk(&a[0])),
        "pk" => {
            let d = sk(&a[0]);
            both(
                pk_hex(Ok(PublicKey::from_secret_key_with_context(&d, &c.g))),
                if_static!(pk_hex(Ok(PublicKey::from_secret_key(&d)))),
            )
        }
        "sign" => {
            #[cfg(feature = "hmac")]
            {
                let f = |(s, i): (Signature, RecoveryId)| {
                    format!("{} {:02x}", sig_hex(Ok(s)), i.serialize())
                };
                let (d, m) = (sk(&a[0]), Message::parse(&a32(&a[1])));
                both(f(sign_with_context(&m, &d, &c.g)), if_static!(f(sign(&m, &d))))
            }
            #[cfg(not(feature = "hmac"))]
            {
                "n/a".into()
            }
        }
        "verify" => {
            let (m, s, k) = (Message(sc(&a[0])), sig(&a[1], &a[2]), key(&a[3]));
            both(
                format!("{}", verify_with_context(&m, &s, &k, &c.m)),
                if_static!(format!("{}", verify(&m, &s, &k))),
            )
        }
        "recover" => {
            let (m, s) = (Message(sc(&a[0])), sig(&a[1], &a[2]));
            let i = RecoveryId::parse(a[3][0]).expect("valid id");
            both(
                pk_hex(recover_with_context(&m, &s, &i, &c.m)),
                if_static!(pk_hex(recover(&m, &s, &i))),
            )
        }
        "ecdh" => {
            let (d, k) = (sk(&a[0]), key(&a[1]));
            let f = |r: Result<SharedSecret<sha2::Sha256>, Error>| {
                r.map_or_else(err, |s| hex(s.as_ref()))
            };
            both(
                f(SharedSecret::new_with_context(&k, &d, &c.m)),
                if_static!(f(SharedSecret::new(&k, &d))),
            )
        }
        "parsepk" => {
            let f = match a[0][0] {
                0 => None,
                1 => Some(PublicKeyFormat::Compressed),
                2 => Some(PublicKeyFormat::Raw),
                _ => Some(PublicKeyFormat::Full),
            };
            PublicKey::parse_slice(&a[1], f)
                .map_or_else(err, |k| format!("{} {}", hex(&k.serialize()), hex(&k.serialize_compressed())))
        }
        "tadd" | "tmul" => {
            let t = sk(&a[1]);
            let go = |own: bool| {
                let mut k = key(&a[0]);
                let r = if own {
                    if op == "tadd" {
                        k.tweak_add_assign_with_context(&t, &c.m)
                    } else {
                        k.tweak_mul_assign_with_context(&t, &c.m)
                    }
                } else {
                    #[cfg(feature = "static-context")]
                    {
                        if op == "tadd" {
                            k.tweak_add_assign(&t)
                        } else {
                            k.tweak_mul_assign(&t)
                        }
                    }
                    #[cfg(not(feature = "static-context"))]
                    {
                        unreachable!()
                    }
                };
                pk_hex(r.map(|_| k))
            };
            both(go(true), if_static!(go(false)))
        }
        "stadd" | "stmul" => {
            let (mut d, t) = (sk(&a[0]), sk(&a[1]));
            let r = if op == "stadd" { d.tweak_add_assign(&t) } else { d.tweak_mul_assign(&t) };
            r.map_or_else(err, |_| hex(&d.serialize()))
        }
        "skinv" => hex(&sk(&a[0]).inv().serialize()),
        "combine" => pk_hex(PublicKey::combine(&a.iter().map(|x| key(x)).collect::<Vec<_>>())),
        "der" => sig_hex(Signature::parse_der(&a[0])),
        "lax" => sig_hex(Signature::parse_der_lax(&a[0])),
        "toder" => hex(sig(&a[0], &a[1]).serialize_der().as_ref()),
        "std" => sig_hex(Signature::parse_standard_slice(&a[0])),
        "ovf" => sig_hex(Signature::parse_overflowing_slice(&a[0])),
        "norm" => {
            let mut s = sig(&a[0], &a[1]);
            s.normalize_s();
            sig_hex(Ok(s))
        }
        "msg" => Message::parse_slice(&a[0]).map_or_else(err, |m| hex(&m.serialize())),
        "rid" => RecoveryId::parse(a[0][0]).map_or_else(err, |i| hex(&[i.serialize()])),
        "rpc" => RecoveryId::parse_rpc(a[0][0]).map_or_else(err, |i| hex(&[i.serialize()])),
        "serde" => {
            #[cfg(feature = "std")]
            {
                let k = key(&a[0]);
                let j = serde_json::to_string(&k).unwrap();
                let b = bincode::serialize(&k).unwrap();
                let jk: PublicKey = serde_json::from_str(&j).unwrap();
                let bk: PublicKey = bincode::deserialize(&b).unwrap();
                format!("{} {} {} {}", j.trim_matches('"'), hex(&b), pk_hex(Ok(jk)), pk_hex(Ok(bk)))
            }
            #[cfg(not(feature = "std"))]
            {
                "n/a".into()
            }
        }
        "rnd" => hex(&SecretKey::random(&mut Tape(&a[0])).serialize()),
        _ => crate::low::run(op, a, c).expect("known operation"),
    }
}

