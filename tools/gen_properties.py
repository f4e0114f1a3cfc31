#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=observe, hook_needed=None)))

p("C01", "Signing is exactly RFC 6979 deterministic, low-S ECDSA",
  "For every valid secret key and every message, signing returns exactly the ECDSA signature (r, s) whose nonce is the RFC 6979 HMAC-SHA256 nonce for that key and the message reduced modulo the group order, with s in the lower half of the range, together with the recovery id that designates the nonce point. The result depends on nothing else: signing twice, or with an explicit context, gives the same bytes.",
  ["inputs"], "all secret keys in [1, n-1], all 32-byte messages (including 0, n and values above n)",
  "The suite signs two constant messages with random keys and only checks that the result verifies; a biased, repeated or non-standard nonce, a high s or a message-dependent deviation would still verify.",
  ["src/lib.rs", "core/src/ecdsa.rs"],
  [("sign_with_context HMAC-DRBG nonce loop", "src/lib.rs: sign_with_context"), ("sign_raw", "core/src/ecdsa.rs: ECMultGenContext::sign_raw")],
  ["libsecp256k1::sign", "libsecp256k1::sign_with_context"])

p("C02", "Every produced signature verifies and recovers, through every encoding",
  "For every valid secret key and message, the signature produced by signing verifies under the public key of that secret key, and recovery with the returned recovery id yields that same public key. This stays true after the signature, recovery id, message and public key each make a round trip through any of their supported encodings, and for any other message or public key the signature verifies only where the ECDSA equation itself holds for it.",
  ["inputs"], "all (secret key, message) pairs x all encodings of signature (compact, DER, lax DER), public key (65, 64, 33 bytes, hybrid) and recovery id (0-based, 27-based); all single-bit changes of message/key",
  "Tests exercise one constant message per run with one random key and no negative cases other than two altered r values.",
  ["src/lib.rs", "core/src/ecdsa.rs", "core/src/der.rs", "core/src/ecmult.rs"],
  [("sign / verify / recover", "src/lib.rs"), ("verify_raw, recover_raw, sign_raw", "core/src/ecdsa.rs")],
  ["sign", "verify", "recover"])

p("C03", "Verification accepts exactly the signatures satisfying the ECDSA equation",
  "For every message, public key and signature (r, s), verification returns true if and only if r and s are both non-zero and the x coordinate of s^-1*(z*G + r*Q) is congruent to r modulo the group order, with the point at infinity rejected. Low and high s are treated alike, and x coordinates in the gap between the group order and the field prime are honoured.",
  ["inputs"], "all (r, s) in [0, n-1]^2, all messages, all valid public keys, including constructed cases: x(R) >= n, r in [p-n, n-1], u1*G + u2*Q infinite or equal/opposite intermediate points, high s, zero r/s/z",
  "Wycheproof has a few hundred fixed vectors; the verify tests use one message. Branches such as x(R) = r + n have probability 2^-128 on random input and only appear when constructed.",
  ["core/src/ecdsa.rs", "core/src/ecmult.rs", "core/src/group.rs", "core/src/scalar.rs"],
  [("verify_raw", "core/src/ecdsa.rs: ECMultContext::verify_raw"), ("ecmult", "core/src/ecmult.rs"), ("eq_x_var", "core/src/group.rs")],
  ["verify", "verify_with_context", "ECMultContext::verify_raw"])

p("C04", "Recovery returns exactly the designated public key or an error",
  "For every message, signature (r, s) and recovery id, recovery succeeds if and only if r and s are non-zero, the x coordinate designated by r and the id (r, or r plus the group order when that is still below the field prime) belongs to a curve point R with the designated y parity, and Q = r^-1*(s*R - z*G) is not infinity; on success it returns exactly Q. Any recovered key verifies the signature.",
  ["inputs"], "all messages, all (r, s) in [0, n-1]^2, all four recovery ids, including r below and above p-n, non-residue x, and Q at infinity",
  "The tests recover one freshly made signature; ids 2 and 3, failing x coordinates and infinity never occur.",
  ["core/src/ecdsa.rs", "core/src/group.rs"],
  [("recover_raw", "core/src/ecdsa.rs: ECMultContext::recover_raw"), ("set_xo_var", "core/src/group.rs")],
  ["recover", "recover_with_context", "ECMultContext::recover_raw"])

p("C05", "A public key is exactly the secret scalar times the generator",
  "For every secret key d in [1, n-1], the derived public key is the curve point d*G; its serialisations equal those of the reference C library, and different secret keys give different public keys.",
  ["inputs"], "all secret keys, with bit-pattern, window-boundary and near-n scalars over-represented",
  "Two fixed keys and a handful of random ones are compared; a wrong precomputed table entry or blinding error shows only for scalars that select it.",
  ["src/lib.rs", "core/src/ecmult.rs", "gen/genmult/src/lib.rs"],
  [("ecmult_gen", "core/src/ecmult.rs: ECMultGenContext::ecmult_gen"), ("from_secret_key", "src/lib.rs")],
  ["PublicKey::from_secret_key", "PublicKey::from_secret_key_with_context"])

p("C06", "ECDH shared secrets are the digest of the compressed product point",
  "For every valid public key Q and secret key d and every digest, the shared secret equals the digest of the 33-byte compressed encoding of d*Q; so both parties of an exchange obtain the same secret, it does not depend on how Q was represented or obtained, and it equals what the reference C library computes for SHA-256. With a secret key that was cleared after use there is no shared secret but an invalid-secret-key error.",
  ["inputs"], "all public keys, all secret keys (incl. 1, 2, n-1, (n+-1)/2, powers of two, long runs of ones), several digest algorithms and output sizes",
  "One random pair is compared with the C library; exceptional scalars of the constant-time multiplication (skew, -1, halves) are never hit.",
  ["src/lib.rs", "core/src/ecdh.rs", "core/src/ecmult.rs"],
  [("ecdh_raw", "core/src/ecdh.rs"), ("ecmult_const, ecmult_wnaf_const", "core/src/ecmult.rs")],
  ["SharedSecret::new", "SharedSecret::new_with_context"])

p("C07", "Public key parsing accepts exactly the valid point encodings",
  "A byte string parses as a public key if and only if it is a 65-byte uncompressed (tag 4) or hybrid (tag 6/7 with matching y parity), 64-byte raw, or 33-byte compressed (tag 2/3) encoding whose coordinates are below the field prime and which denotes a finite point of the curve, and the length agrees with the explicitly requested format if any; the parsed key is exactly that point. Otherwise the parse returns an error: wrong length (for the requested format) is reported as an input-length error, everything else as an invalid public key.",
  ["inputs"], "all byte strings of lengths 0..200 x all format arguments; coordinates on, next to and beyond p; all 256 tags; points on the twist or other invalid curves",
  "Tests parse only valid encodings made by the library itself or the C library; no rejection path is exercised.",
  ["src/lib.rs", "core/src/field.rs", "core/src/group.rs"],
  [("parse, parse_compressed, parse_slice, TryFrom<Affine>", "src/lib.rs"), ("Field::set_b32 range check", "core/src/field.rs"), ("is_valid_var, set_xo_var", "core/src/group.rs")],
  ["PublicKey::parse", "PublicKey::parse_compressed", "PublicKey::parse_slice", "PublicKey::try_from(Affine)"])

p("C08", "Public key serialisation and equality are canonical",
  "Two public keys compare equal if and only if they denote the same point, however they were obtained (parsing any format, derivation, recovery, tweaking, combining, conversion from affine coordinates), and equal keys serialise to identical 65-byte and 33-byte strings that are the standard encodings of the point and parse back to the same key.",
  ["inputs", "histories"], "all points x all ways and chains of operations that produce them",
  "The equality test covers three representations of ten random keys; keys that come out of tweak, combine or recover (non-normalised coordinates) are not compared.",
  ["src/lib.rs", "core/src/field.rs", "core/src/group.rs"],
  [("serialize, serialize_compressed, Eq", "src/lib.rs"), ("Field::eq, normalize_var, fill_b32", "core/src/field.rs")],
  ["PublicKey::serialize", "PublicKey::serialize_compressed", "PublicKey: Eq"])

p("C09", "Serde of public keys round-trips and rejects every invalid encoding",
  "Serialising any public key gives, for human-readable formats, the base64 string of its 65-byte encoding and, for binary formats, those 65 bytes; deserialising that gives the same key. Deserialising any string or byte string yields a key if and only if the decoded bytes are a valid 33-, 64- or 65-byte public key encoding, the key being that point, and is an error otherwise.",
  ["inputs"], "all public keys; all JSON strings / bincode byte sequences, including corrupted base64, wrong lengths, wrong JSON types and invalid points",
  "Tests use one fixed key in one format and never a malformed input.",
  ["src/lib.rs"],
  [("Serialize/Deserialize for PublicKey, PublicKeyStrVisitor, PublicKeyBytesVisitor", "src/lib.rs")],
  ["serde_json::{to_string,from_str}", "bincode::{serialize,deserialize}"])

p("C10", "Secret keys are exactly the integers 1..n-1, with faithful encodings",
  "A 32-byte string parses as a secret key if and only if it is a big-endian integer in [1, n-1]; slices of any other length give an input-length error and everything else an invalid-key error; serialising returns the same bytes, and lower-case hex formatting of a key or scalar is the hex of those bytes. Random generation returns the first valid 32-byte draw of the supplied generator (and no key at all when the generator fails before), and conversion between scalars and secret keys rejects exactly zero.",
  ["inputs", "histories"], "all byte strings of lengths 0..100, values around 0, n, 2^256-1; all RNG output sequences including runs of invalid draws",
  "Tests parse valid keys only; range limits, the rejection loop and hex formatting are not exercised.",
  ["src/lib.rs", "core/src/scalar.rs"],
  [("parse, parse_slice, random, serialize, LowerHex, TryFrom<Scalar>", "src/lib.rs: SecretKey"), ("Scalar::set_b32, check_overflow", "core/src/scalar.rs")],
  ["SecretKey::parse", "SecretKey::parse_slice", "SecretKey::random", "SecretKey::serialize", "format!(\"{:x}\")"])

p("C11", "Secret key tweaks and inverses are arithmetic modulo the group order",
  "Adding a tweak replaces the key by the sum modulo n, and fails with a tweak-out-of-range error leaving the key unchanged exactly when the sum is zero; multiplying replaces it by the product modulo n (and by a key that was cleared after use: the same error, key unchanged); the inverse of a key times the key is one. All results are valid canonical secret keys.",
  ["inputs", "histories"], "all pairs of secret keys, including t = n-d and sums on both sides of n; arbitrary sequences of tweaks and inversions",
  "Only the inverse of one constant key is tested; tweaks are untested.",
  ["src/lib.rs", "core/src/scalar.rs"],
  [("tweak_add_assign, tweak_mul_assign, inv", "src/lib.rs: SecretKey")],
  ["SecretKey::tweak_add_assign", "SecretKey::tweak_mul_assign", "SecretKey::inv"])

p("C12", "Public key tweaks commute with secret key tweaks",
  "For every key pair (d, d*G) and tweak t, tweaking the public key by addition or multiplication gives the public key of the equally tweaked secret key; the operation fails with a tweak-out-of-range error, leaving the key unchanged, exactly when the result would be the point at infinity (a sum that cancels, or multiplication by a key that was cleared after use). This holds for arbitrary sequences of tweaks and whatever the representation of the starting key.",
  ["inputs", "histories"], "all keys and tweaks, including t*G = P (doubling), t*G = -P (cancellation), t = 1, n-1; sequences of mixed tweaks (hierarchical derivation)",
  "No test calls a public key tweak.",
  ["src/lib.rs", "core/src/ecmult.rs", "core/src/group.rs"],
  [("tweak_add_assign, tweak_mul_assign", "src/lib.rs: PublicKey"), ("ecmult", "core/src/ecmult.rs")],
  ["PublicKey::tweak_add_assign", "PublicKey::tweak_mul_assign", "*_with_context"])

p("C13", "Combining public keys is the group sum",
  "Combining any list of public keys returns their sum as curve points, independent of order, grouping and representation, and returns an invalid-public-key error exactly when the list is empty or the sum is the point at infinity; intermediate sums may be infinite, equal or opposite to the next key.",
  ["inputs"], "all lists of public keys including duplicates, negations, cancelling prefixes, and pairs related by the curve endomorphism (degenerate addition case)",
  "One fixed pair of distinct keys is combined.",
  ["src/lib.rs", "core/src/group.rs"],
  [("combine", "src/lib.rs: PublicKey::combine"), ("add_ge_in_place", "core/src/group.rs")],
  ["PublicKey::combine"])

p("C14", "Compact signature, message and recovery id codecs are exact",
  "Standard signature parsing accepts a 64-byte string if and only if both 32-byte halves are below n and then reproduces them bit for bit on serialisation; overflowing parsing always yields both halves reduced modulo n, as message parsing does for 32 bytes; every slice of another length is an input-length error. Recovery ids parse exactly from 0..3 (or 27..30 in RPC form) and serialise back to 0..3. Signatures, messages and recovery ids compare equal exactly when their values are.",
  ["inputs"], "all byte strings of lengths 0..130 with halves around 0, n, 2^256-1; all 256 recovery bytes",
  "Tests parse valid 64-byte signatures only.",
  ["src/lib.rs", "core/src/scalar.rs"],
  [("Signature::parse_standard/parse_overflowing/serialize, Message::parse, RecoveryId::parse", "src/lib.rs"), ("Scalar::set_b32, reduce", "core/src/scalar.rs")],
  ["Signature::parse_standard(_slice)", "Signature::parse_overflowing(_slice)", "Signature::serialize", "Message::parse(_slice)", "RecoveryId::parse/parse_rpc"])

p("C15", "S normalisation yields the unique low-S form of the same signature",
  "Normalising any signature leaves r unchanged and replaces s by n - s exactly when s is greater than (n-1)/2, so the result always has s at most (n-1)/2, normalising again changes nothing, (r, s) and (r, n-s) normalise to the same signature, and verification gives the same answer before and after for every message and key.",
  ["inputs"], "all signatures, with s at and around 0, (n-1)/2, (n+1)/2, n-1",
  "One historic transaction is normalised; the boundary is not tested.",
  ["src/lib.rs", "core/src/scalar.rs"],
  [("normalize_s", "src/lib.rs"), ("Scalar::is_high", "core/src/scalar.rs")],
  ["Signature::normalize_s", "Scalar::is_high"])

p("C16", "Strict DER: exact grammar and lossless round trip",
  "Serialising any signature gives the unique DER encoding of its (r, s), at most 72 bytes, and strict parsing of that encoding returns the same signature. Strict parsing accepts only byte strings that are one DER SEQUENCE, spanning the whole input, of exactly two DER INTEGERs with minimal length and minimal integer encodings; it accepts every such string whose integers both lie in [0, n-1] and returns exactly those integers; where an integer lies outside that range the string is rejected or that component becomes zero, so that it can never verify.",
  ["inputs"], "all signatures; all byte strings, generated from a DER grammar with mutations (non-minimal lengths, padding, negative, oversized, nested, truncated, trailing data)",
  "Wycheproof vectors are all derived from one signature shape and accept either outcome for many malformed inputs; zero components, over-long integers whose content is itself DER, and long-form lengths are not covered.",
  ["src/lib.rs", "core/src/der.rs"],
  [("parse_der, serialize_der", "src/lib.rs"), ("Decoder::read_len, read_integer", "core/src/der.rs")],
  ["Signature::parse_der", "Signature::serialize_der"])

p("C17", "Lax DER parsing accepts what Bitcoin's lax parser accepts",
  "Lax parsing accepts a byte string if and only if the Bitcoin consensus lax DER parser (as in the reference C library) does, and returns the same integers r and s; when either integer is out of range the result can never verify. In particular every input the strict parser accepts is accepted by the lax one, with the same value when both integers are in [0, n-1].",
  ["inputs"], "all byte strings, generated from a BER-like grammar: garbage and long-form sequence lengths, zero-padded lengths, leading zeros, oversized integers, trailing data, truncation",
  "Seven historic signatures are checked for acceptance only; neither values nor rejections are compared.",
  ["src/lib.rs", "core/src/der.rs"],
  [("parse_der_lax", "src/lib.rs"), ("read_seq_len_lax, read_len_lax, read_integer_lax", "core/src/der.rs")],
  ["Signature::parse_der_lax"])

p("C18", "No input makes a public operation panic, in checked or release builds",
  "Every parsing function returns a value or an error on every byte string of any length, and every operation on successfully parsed values returns normally, without panic, overflow, failed internal assertion or out-of-bounds access; builds with and without debug assertions give identical results.",
  ["inputs", "histories", "configurations"], "all byte strings for all parsers; all sequences of operations over the values that parse; debug-assertion and release builds",
  "Malformed inputs reach only parse_der (Wycheproof), and only in the debug profile; combinations of operations (compressed parse, tweak, combine, recover, re-serialise) are not exercised.",
  ["src/lib.rs", "core/src/der.rs", "core/src/field.rs", "core/src/group.rs", "core/src/scalar.rs", "core/src/ecmult.rs"],
  [("Decoder bounds checks", "core/src/der.rs"), ("magnitude/normalisation discipline (debug assertions)", "core/src/field.rs")],
  ["all public parse functions and operations"])

p("C19", "Scalar arithmetic is exact arithmetic modulo the group order",
  "For all canonical scalars, addition, multiplication, squaring, negation, inversion, bit access, right shift, conditional operations, comparisons with zero, one and half the order, and conversion from and to 32 bytes (with overflow flag) give exactly the result of integer arithmetic modulo n in canonical form, in all their by-value, by-reference and in-place forms.",
  ["inputs", "histories"], "all scalars and pairs, biased to limb patterns, carries, values near 0, n/2, n, 2^256, and products engineered to land next to reduction boundaries; chains of operations",
  "No scalar operation is tested directly; signatures exercise them on random values, where carries past the reduction boundary have probability around 2^-32 to 2^-128.",
  ["core/src/scalar.rs"],
  [("reduce, reduce_512, mul_512, sqr_512, inv_in_place, check_overflow, is_high, cadd_bit, shr_int, bits", "core/src/scalar.rs")],
  ["curve::Scalar"])

p("C20", "Field arithmetic is exact in every allowed internal representation",
  "For all field elements, in every representation (limb values, magnitude, normalisation) reachable within the documented magnitude limits, addition, multiplication, squaring, negation, small-integer multiplication, inversion, square root, normalisation, zero test, comparison, conditional move and conversion from and to bytes and storage give exactly the result of arithmetic modulo p; decoding rejects exactly the values not below p.",
  ["inputs", "histories"], "all representations with limbs up to the allowed excess and magnitudes up to 8/32; values congruent to 0, p-1, values in [p, 2^256) before normalisation; sequences of operations under the magnitude discipline",
  "No field operation is tested directly; unnormalised extremes occur with negligible probability in end-to-end tests.",
  ["core/src/field.rs"],
  [("normalize*, normalizes_to_zero*, mul_inner, sqr_inner, sqrt, inv, set_b32, neg, mul_int, cmp_var, eq", "core/src/field.rs")],
  ["curve::Field", "curve::FieldStorage"])

p("C21", "Point operations implement the curve group law, including special cases",
  "For all points in affine or Jacobian form (any z, any representation, infinity where permitted), every addition, doubling, negation, rescaling, coordinate conversion, x comparison, batch table conversion and point decompression returns exactly the group-law or curve-equation result, including equal, opposite, infinite and degenerate operands, and the reported z ratios are correct.",
  ["inputs"], "all pairs of points with random z scalings, P = Q, P = -Q, infinity, Q = -lambda*P (same y^2 class), non-normalised coordinates; all x coordinates for decompression",
  "End-to-end tests practically never meet equal, opposite or endomorphism-related operands.",
  ["core/src/group.rs", "core/src/ecmult.rs"],
  [("double_var, add_var, add_ge, add_ge_var, add_zinv_var, set_gej*, set_xo_var, set_xquad, eq_x_var, rescale, is_valid_var", "core/src/group.rs"), ("odd_multiples_table, globalz_set_table_gej, set_table_gej_var", "core/src/ecmult.rs, core/src/group.rs")],
  ["curve::{Affine, Jacobian}", "util::{odd_multiples_table, globalz_set_table_gej, set_table_gej_var}"])

p("C22", "Scalar multiplication is correct for every scalar and point",
  "For every finite point A and all scalars a, b: the double multiplication returns a*A + b*G, the constant-time multiplication returns a*A, and the generator multiplication returns b*G, including results at infinity and all scalars whose window decomposition is exceptional.",
  ["inputs"], "all scalars (0, 1, n-1, n-2, halves, powers of two, window-aligned runs, sparse and dense patterns), all points, and linear relations that make partial sums meet or cancel",
  "Tests reach it only through random signatures and keys.",
  ["core/src/ecmult.rs"],
  [("ecmult, ecmult_const, ecmult_gen, ecmult_wnaf, ecmult_wnaf_const", "core/src/ecmult.rs")],
  ["ECMultContext::ecmult", "ECMultContext::ecmult_const", "ECMultGenContext::ecmult_gen"])

p("C23", "All precomputed tables hold exactly the multiples they stand for",
  "Every entry of the static, lazily built and heap-built multiplication tables is a valid normalised curve point equal to its mathematical definition (odd multiples of G; for the generator table, window multiples offset so that the offsets and blinding cancel), so all context objects are interchangeable and give identical results for every operation.",
  ["inputs", "configurations"], "all 16384 + 1024 table entries of each context x static, heap-built and raw-rebuilt contexts; all operations taking a context",
  "Tests use only the static tables and touch a small random subset of entries.",
  ["core/src/ecmult.rs", "gen/ecmult/src/lib.rs", "gen/genmult/src/lib.rs", "src/lib.rs"],
  [("ECMultContext::new_boxed/new_from_raw, ECMultGenContext::new_boxed/new_from_raw", "core/src/ecmult.rs"), ("generate_to", "gen/ecmult/src/lib.rs, gen/genmult/src/lib.rs")],
  ["ECMULT_CONTEXT", "ECMULT_GEN_CONTEXT", "inspect_raw"])

p("C24", "Every feature configuration builds and computes the same results",
  "The library builds with every combination of its features (std, hmac, static-context, lazy-static-context), including no_std builds without std, and every operation available in a configuration gives the same result as in the default configuration for all inputs.",
  ["configurations", "inputs"], "all 10 distinct feature combinations x generated keys, messages, signatures, tweaks and malformed encodings",
  "The suite is compiled with default features only.",
  ["Cargo.toml", "src/lib.rs", "core/src/lib.rs", "core/src/ecmult.rs"],
  [("cfg(feature) gates, lazy_static contexts", "src/lib.rs")],
  ["all public operations in each configuration"])

p("C25", "Operations are pure: independent of history, interleaving and threads",
  "The result of every operation depends only on its arguments: it is the same whatever operations ran before, in whatever order, on whichever thread, concurrently or not, with shared or separate contexts, and no operation changes its inputs or the shared contexts.",
  ["histories", "schedules"], "all sequences of operations over small pools of keys, messages, signatures and encodings that share parts, and their execution by many concurrent threads",
  "Every test performs each operation once on fresh values in one thread.",
  ["src/lib.rs", "core/src/ecmult.rs"],
  [("immutable contexts, by-value arithmetic", "src/lib.rs, core/src/ecmult.rs")],
  ["all public operations", "ECMULT_CONTEXT", "ECMULT_GEN_CONTEXT"])

p("C26", "Clearing a value leaves no trace of it in its memory",
  "After clearing a secret key, scalar, field element or point, whatever its previous value and representation, the object equals the zero (or default) value and its memory holds none of the previous coordinate or scalar data, also in optimised builds.",
  ["inputs", "configurations"], "all values and internal representations, debug-assertion and release builds",
  "One constant key is cleared and compared with zero.",
  ["src/lib.rs", "core/src/scalar.rs", "core/src/field.rs", "core/src/group.rs"],
  [("clear", "src/lib.rs, core/src/scalar.rs, core/src/field.rs, core/src/group.rs")],
  ["SecretKey::clear", "Scalar::clear", "Field::clear", "Affine::clear", "Jacobian::clear"])

p("C27", "Raw signing is correct for every nonce and flags a zero s",
  "For every secret key, message and non-zero nonce k, the raw signing primitive returns r = x(k*G) mod n, the low one of the two candidates +-k^-1*(z + r*d), and the recovery id naming the corresponding nonce point, and fails with an invalid-message error exactly when that s is zero.",
  ["inputs"], "all (key, message, nonce) triples, including z = -r*d (s = 0), s at the half-order boundary, nonces 1, n-1, and both y parities",
  "The nonce is never under test control; the zero-s path and the half-order boundary have probability 2^-256 through the signing API.",
  ["core/src/ecdsa.rs"],
  [("sign_raw", "core/src/ecdsa.rs: ECMultGenContext::sign_raw")],
  ["ECMultGenContext::sign_raw"])

p("C28", "Results do not depend on pointer width or byte order",
  "Every operation gives the same result on every platform the library compiles for: on 32-bit targets and on big-endian targets it returns, for all inputs, exactly what it returns on a 64-bit little-endian one, including which malformed encodings are rejected, and without arithmetic overflow.",
  ["configurations", "inputs"], "all inputs of the public and core operations on 32-bit (i686, without the standard library) and big-endian (s390x) targets",
  "The suite only ever runs on the 64-bit little-endian host.",
  ["src/lib.rs", "core/src/der.rs", "core/src/scalar.rs", "core/src/field.rs", "core/src/ecmult.rs", "gen/ecmult/src/lib.rs", "gen/genmult/src/lib.rs"],
  [("usize lengths in Decoder::read_len, read_len_lax", "core/src/der.rs"), ("limb and byte conversions", "core/src/scalar.rs, core/src/field.rs")],
  ["all public operations", "core arithmetic"])

p("C29", "No safe use has undefined behaviour",
  "Whatever the inputs, the order of calls and the number of threads, no operation reached through the safe API reads or writes outside its objects, reads uninitialised memory, produces an invalid value, breaks aliasing rules or races with another thread; this includes building contexts on the heap, clearing secrets and the first concurrent use of the lazy contexts.",
  ["inputs", "schedules"], "all inputs, including malformed encodings in exactly sized buffers, and all interleavings of operations on shared and separate contexts",
  "Undefined behaviour need not change any result, so assertions about results cannot see it.",
  ["core/src/ecmult.rs", "core/src/scalar.rs", "core/src/field.rs", "core/src/der.rs", "src/lib.rs"],
  [("unsafe blocks: new_boxed, new_from_raw, clear", "core/src/ecmult.rs, core/src/scalar.rs, core/src/field.rs, src/lib.rs")],
  ["all public operations", "ECMultContext::new_boxed", "ECMultGenContext::new_boxed", "lazy contexts"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
