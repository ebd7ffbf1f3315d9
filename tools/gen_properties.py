#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "SHA-2 digests equal FIPS 180-4 for every message",
 "For every message, sha224, sha256, sha384 and sha512 (and the matching HashFunction types fed the message in one update) return exactly the digest FIPS 180-4 defines, with the documented digest and block sizes. No message length (empty, just below, at or above a block or padding boundary, several blocks) is treated differently from the standard.",
 ["inputs"], "every message content and every message length, for each of the four functions",
 "The unit tests hash five fixed messages; the compression function and padding must be right for every content and each of the 64/128 residues of the length.",
 ["src/sha2.rs"], [("compression, message schedule and constants", "sha2.rs impl_processor::process, K256, K512"), ("padding and length field", "sha2.rs impl_processor::pad"), ("initial states", "sha2.rs SHA224..SHA512")],
 ["sha2::sha224/sha256/sha384/sha512", "HashFunction::write_digest"])
prop("C02", "SHA-2 streaming is independent of how the message is split",
 "Feeding a message to a hash function through any sequence of update calls (including empty ones) gives the same digest as feeding the concatenation in one call. This holds at every total length up to the supported limit of 2^64-8 bits, so no split position, buffered amount or number of bytes already hashed can change the result.",
 ["inputs", "histories"], "every sequence of updates: any split points, any number of bytes already buffered, any total length already processed",
 "Tests split only into 4-byte pieces, and never hash a message with a large running length; split positions x buffered amounts x lengths cannot be enumerated by examples.",
 ["src/sha2.rs"], [("buffering of partial blocks", "sha2.rs impl_processor::update"), ("running length", "sha2.rs Processor256/512.len"), ("padding", "sha2.rs impl_processor::pad")],
 ["HashFunction::update", "HashFunction::write_digest"], [("offset/buffer", "bytes waiting for a full block", "sha2.rs Processor256/512"), ("len", "total bytes seen", "sha2.rs Processor256/512")])
prop("C03", "HMAC equals RFC 2104 for every key and message",
 "For every key of any length (shorter than, equal to, or longer than the block size) and every message fed in any pieces, the HMAC tag equals H((K' xor opad) || H((K' xor ipad) || message)) of RFC 2104. This holds for the generic construction over any hash function and for the four SHA-2 wrappers, whose tags have the digest's length.",
 ["inputs", "histories"], "every key length and content, every message, every chunking, every hash function",
 "Tests use six key/message pairs, with key lengths 4, 20, 25 and 131 only; in particular no key of exactly the block size or of the length next to it.",
 ["src/hmac.rs"], [("key normalisation", "hmac.rs Hmac::new"), ("padding of the key", "hmac.rs Hmac::keyed_hash_function"), ("outer hash", "hmac.rs Hmac::write_tag")],
 ["hmac::Hmac", "hmac::hmac_sha224/256/384/512"])
prop("C04", "HMAC verification accepts exactly the genuine tag",
 "hmac::verify returns true if and only if the supplied tag is byte-for-byte the tag of that key and message, whole length included. A tag of any other length, or differing in any bit at any position, is rejected without a panic.",
 ["inputs"], "every key, message and candidate tag of every length",
 "The tests only verify genuine tags (a TODO says bad tags are untested); forged tags at every position and every length cannot be sampled.",
 ["src/hmac.rs", "src/util.rs"], [("length check and comparison", "hmac.rs verify"), ("accumulating comparison", "util.rs verify_inner")], ["hmac::verify"])
prop("C05", "HKDF equals RFC 5869 for every permitted length",
 "hkdf::extract writes HMAC(salt, ikm) and hkdf::expand writes the first okm.len() bytes of T(1) || T(2) || ... of RFC 5869, for every salt, input, info, prk of at least the digest size and every output length from 0 up to and including 255 times the digest size. Within those documented limits neither call panics in any build profile.",
 ["inputs"], "every salt, ikm, info, prk and every output length up to 255*digest size, for every hash function",
 "Tests use three vectors of SHA-256 with at most three output blocks; the block counter is never near its limit.",
 ["src/hkdf.rs"], [("block chaining and counter", "hkdf.rs expand"), ("length limits", "hkdf.rs expand assertions")], ["hkdf::extract", "hkdf::expand"])
prop("C06", "AES-128/192/256 encrypt exactly as FIPS 197",
 "For every key of the right length and every 16-byte block, Aes128, Aes192 and Aes256 permute outputs exactly the FIPS 197 cipher text of that block under that key.",
 ["inputs"], "every key and every block, for the three key sizes",
 "Tests cover one block per key size and one key schedule; a fault that depends on key or data values (S-box logic, reduction, a round constant of a late round) escapes them.",
 ["src/aes.rs"], [("key schedule", "aes.rs key_expansion"), ("composite-field S-box", "aes.rs s_box"), ("round function", "aes.rs permute, shift_rows, mix_columns")], ["aes::BlockCipher::permute"])
prop("C07", "GCM encryption equals SP 800-38D for every input",
 "For every key, 12-byte nonce, associated data and message of any length (multiples of 16 or not, empty or not, independently), Gcm::encrypt writes the CTR-mode cipher text and returns the tag that SP 800-38D prescribes, over any block cipher and with AES-128/192/256. It writes exactly the output buffer.",
 ["inputs"], "every key, nonce, associated data and message, of every pair of lengths, for every block cipher",
 "Nine fixed vectors with three message lengths and two associated-data lengths; other lengths, paddings and value patterns are untested.",
 ["src/gcm.rs", "src/ghash.rs"], [("counter mode", "gcm.rs Processor::process"), ("tag", "gcm.rs Processor::tag"), ("hash of data, cipher text and lengths", "ghash.rs ghash")], ["gcm::AeadCipher::encrypt for Gcm<E>"])
prop("C08", "GCM decryption accepts exactly genuine tags and releases nothing else",
 "Gcm::decrypt returns true if and only if the tag is the full 16-byte tag of that key, nonce, associated data and cipher text, and then the output is the plain text that encrypts to it. On any other tag (any length, any difference) it returns false and leaves the output buffer untouched.",
 ["inputs"], "every key, nonce, associated data, cipher text and candidate tag of every length",
 "The tests only decrypt genuine cipher texts (a TODO says bad tags are untested) and never look at the output of a rejected one.",
 ["src/gcm.rs", "src/util.rs"], [("verify before decrypt", "gcm.rs decrypt"), ("comparison", "util.rs verify_16")], ["gcm::AeadCipher::decrypt for Gcm<E>"])
prop("C09", "GHASH is the SP 800-38D polynomial hash over GF(2^128)",
 "The authentication hash inside GCM computes Y_i = (Y_{i-1} xor X_i) * H in GF(2^128) for every hash key, every accumulator value and every block, over associated data, cipher text and the two 64-bit bit-lengths, each zero-padded to whole blocks. It is exact for inputs of any number of blocks.",
 ["inputs", "histories"], "every hash key, every accumulator value reached after any number of blocks, every block",
 "Tests use six hash keys and at most nine blocks; the field multiplication must hold for all 2^256 operand pairs.",
 ["src/ghash.rs"], [("field multiplication", "ghash.rs PolyFunction::process"), ("length block and padding", "ghash.rs GHash")], ["tag returned by gcm encrypt"], [("state", "the accumulator Y_i", "ghash.rs PolyFunction.state")])
prop("C10", "ChaCha20 stream equals RFC 8439 and never loses or repeats position",
 "For every key and nonce, byte n of a Stream is byte n mod 64 of the RFC 8439 block with counter n div 64, however the stream is consumed (iterator steps, encrypt and decrypt calls of any lengths, interleaved). encrypt and decrypt write input xor the next input.len() keystream bytes and advance the position by exactly that many.",
 ["inputs", "histories"], "every key, nonce, and every sequence of operations up to the documented 256 GB",
 "One 114-byte message and a handful of blocks with counters 0 to 2 are tested; neither arbitrary keys nor arbitrary positions, nor a sequence of calls.",
 ["src/chacha20.rs"], [("block function", "chacha20.rs ChaCha20::transform_state, quarter_round"), ("position", "chacha20.rs Stream::next")], ["chacha20::Stream"], [("counter/block_index", "position in the stream", "chacha20.rs Stream")])
prop("C11", "ChaCha20-Poly1305 encryption equals RFC 8439 for every input",
 "For every key, 12-byte nonce, associated data and message of any length, ChaCha20Poly1305::encrypt writes the RFC 8439 cipher text (keystream blocks from counter 1) and returns the RFC 8439 tag (one-time key from block 0; padded data, padded cipher text and both byte lengths authenticated).",
 ["inputs"], "every key, nonce, associated data and message of every pair of lengths",
 "Three vectors with one pair of lengths each; other lengths and contents are untested.",
 ["src/poly1305.rs", "src/chacha20.rs"], [("counter mode", "poly1305.rs ChaCha20Poly1305::process"), ("one-time key", "poly1305.rs poly_key_gen"), ("MAC input layout", "poly1305.rs Poly1305")], ["poly1305::ChaCha20Poly1305 encrypt"])
prop("C12", "ChaCha20-Poly1305 decryption accepts exactly genuine tags",
 "ChaCha20Poly1305::decrypt returns true if and only if the tag is the full 16-byte RFC 8439 tag of that key, nonce, associated data and cipher text, and then the output is the plain text that encrypts to it. On any other tag (any length, any difference) it returns false and leaves the output buffer untouched.",
 ["inputs"], "every key, nonce, associated data, cipher text and candidate tag of every length",
 "Only genuine cipher texts are decrypted by the tests, and a rejected output is never inspected.",
 ["src/poly1305.rs", "src/util.rs"], [("verify before decrypt", "poly1305.rs decrypt"), ("comparison", "util.rs verify_16")], ["poly1305::ChaCha20Poly1305 decrypt"])
prop("C13", "Poly1305 arithmetic is exact modulo 2^130-5",
 "For every one-time key and every sequence of 16-byte blocks, of any number, the Poly1305 authenticator equals ((sum of (block_i + 2^128) r^(n-i+1) mod 2^130-5) + s) mod 2^128 with r clamped as in RFC 8439. No carry is lost at any accumulator value, including accumulators at or above 2^130-5 before the final reduction.",
 ["inputs", "histories"], "every key, every block, every accumulator value reached after any number of blocks",
 "Tests authenticate three messages; the carries that matter (near 2^130-5, all-ones limbs) have vanishing probability in samples.",
 ["src/poly1305.rs"], [("multiply and partial reduction", "poly1305.rs PolyFunction::mulmod, squeeze"), ("final reduction", "poly1305.rs PolyFunction::freeze"), ("clamping", "poly1305.rs load_r")], ["tag returned by ChaCha20Poly1305::encrypt"], [("h", "accumulator, 17 limbs", "poly1305.rs PolyFunction.h")])
prop("C14", "X25519 equals RFC 7748 for every scalar and every u-coordinate",
 "For every 32-byte secret and every 32-byte public value (non-canonical, zero, low-order and high-bit-set ones included) curve25519::dh returns the RFC 7748 X25519 result, with the scalar clamped and the top bit of u ignored, and gen_pk(secret) is that function at u = 9. The result is the canonical encoding (below 2^255-19).",
 ["inputs"], "every secret key and every public value",
 "Tests run five scalar multiplications; edge u values, ladder swaps for other scalars and field carries are not reachable by sampling.",
 ["src/curve25519.rs"], [("Montgomery ladder and clamping", "curve25519.rs scalarmult"), ("field arithmetic", "curve25519.rs Fe")], ["curve25519::dh", "curve25519::gen_pk"])
prop("C15", "Field arithmetic modulo 2^255-19 is exact and never overflows",
 "Every field operation under X25519 and Ed25519 (multiplication, squaring, doubled squaring, multiplication by 121666, addition, subtraction, negation, inversion, square-root power, conditional swap/move, decoding, canonical encoding) is exact modulo 2^255-19 on every operand the callers can produce, whatever internal representation of it is used. No intermediate value overflows its machine word, in debug or release builds, and encodings are always the unique representative below 2^255-19.",
 ["inputs"], "every pair of internal representations within the bounds the library's own operations maintain",
 "The limb values at which a carry or an overflow matters form a negligible fraction of the 2^500 operand pairs, and the vectors never reach them.",
 ["src/curve25519.rs", "src/ed25519.rs"], [("carry chains", "curve25519.rs fe_mul, fe_sq, mul121666; ed25519.rs assign_twice_square"), ("final reduction", "curve25519.rs Fe::write_bytes"), ("addition chains", "curve25519.rs fe_invert, pow22523")], ["curve25519::dh", "ed25519::sign", "ed25519::verify"])
prop("C16", "Ed25519 keys and signatures equal RFC 8032",
 "For every 32-byte secret key, ed25519::gen_pk returns the RFC 8032 public key, and for every message of any length ed25519::sign returns the RFC 8032 deterministic signature R || S of that key and message.",
 ["inputs"], "every secret key and every message",
 "Five vectors; the fixed-base table has 256 points and 64 signed digits, most combinations of which no vector touches.",
 ["src/ed25519.rs", "src/const_curve25519.rs"], [("key derivation and signing", "ed25519.rs gen_pk, sign"), ("fixed-base multiplication", "ed25519.rs GeP3::from_scalarmult_base, select"), ("tables", "const_curve25519.rs BASE")], ["ed25519::gen_pk", "ed25519::sign"])
prop("C17", "Ed25519 scalar arithmetic is exact and canonical modulo the group order",
 "The S half of a signature is exactly (r + H(R,A,M)*a) mod L in its unique representative below L, and every 512-bit hash is reduced to its unique representative below L, for all values. No intermediate value overflows.",
 ["inputs"], "every 512-bit hash value, and every triple of 256-bit scalars",
 "The carry chains fold 24 limbs; a lost carry or a non-canonical result shows on few of the 2^768 operand triples.",
 ["src/ed25519.rs"], [("reduction", "ed25519.rs sc_reduce"), ("multiply-add", "ed25519.rs sc_muladd")], ["ed25519::sign", "ed25519::verify"])
prop("C18", "Ed25519 verification accepts exactly when the signature equation holds",
 "For a well-formed public key A and a 64-byte signature R || S with S below L, ed25519::verify returns true if and only if the canonical encoding of [S]B - [H(R,A,M)]A equals R. Any change of message, R or S that breaks this equation is rejected.",
 ["inputs"], "every message, signature and decodable public key",
 "The tests verify five genuine signatures and never a bad one (a TODO says so); the sliding-window recoding depends on all bits of both scalars.",
 ["src/ed25519.rs", "src/const_curve25519.rs"], [("double scalar multiplication", "ed25519.rs GeP2::from_double_scalarmult_vartime, slide"), ("comparison", "curve25519.rs verify_32"), ("table", "const_curve25519.rs BI")], ["ed25519::verify"])
prop("C19", "Ed25519 verification rejects malformed signatures and keys",
 "ed25519::verify returns false, and does not panic, for every signature whose length is not 64 bytes, every signature whose S is not below the group order L (so a signature cannot be mauled into a second valid one), and every 32-byte public key that RFC 8032 decoding refuses (not on the curve, y not below 2^255-19, or x = 0 with the sign bit set).",
 ["inputs"], "every message, every byte string as signature, every 32-byte public key",
 "No test passes a malformed signature or key; the refused encodings are specific values among 2^256.",
 ["src/ed25519.rs"], [("range check of S", "ed25519.rs verify"), ("point decoding", "ed25519.rs GeP3::from_bytes_negate_vartime")], ["ed25519::verify"])
prop("C20", "Length preconditions are enforced exactly as documented",
 "Every public function documented to panic on a wrong key, nonce, buffer, digest, prk or message length does panic for every such length and for no permitted one, and it does so before writing any output. Functions that report failure by returning false (tag and signature checks) never panic on a wrong-length tag or signature.",
 ["inputs"], "every combination of argument lengths, up to the largest slice a program can hold",
 "No existing test passes a wrong length.",
 ["src/aes.rs", "src/gcm.rs", "src/poly1305.rs", "src/chacha20.rs", "src/hkdf.rs", "src/sha2.rs", "src/curve25519.rs", "src/ed25519.rs"], [("assertions at entry", "gcm.rs check_bounds; aes.rs key_expansion; hkdf.rs; chacha20.rs; poly1305.rs; sha2.rs write_digest; curve25519.rs scalarmult; ed25519.rs")], ["panics at the public API"])
prop("C21", "Secrets never decide a branch or a memory address",
 "While hashing, MACing, encrypting, decrypting, computing X25519 and generating Ed25519 keys and signatures, the sequence of branches taken and memory addresses accessed does not depend on keys, plain texts, or on where a wrong tag differs; it may depend on lengths and on whether verification succeeded. (Ed25519 verification works on public data and is exempt.)",
 ["inputs"], "every pair of secrets with equal lengths and public inputs",
 "A timing leak changes no output, so no functional test can see it, and it is a property of pairs of executions.",
 ["src/aes.rs", "src/ghash.rs", "src/util.rs", "src/chacha20.rs", "src/poly1305.rs", "src/sha2.rs", "src/curve25519.rs", "src/ed25519.rs"], [("mask arithmetic instead of branches", "ghash.rs process; aes.rs xtime, g256_newbasis; poly1305.rs freeze; curve25519.rs cswap_with; ed25519.rs select, cmov"), ("accumulating comparison", "util.rs verify_inner; curve25519.rs verify_32"), ("S-box without table", "aes.rs s_box")], ["branch conditions and addresses in the compiled code"])
prop("C22", "verify_16 is exactly equality of 16-byte strings",
 "util::verify_16 returns true if and only if the second argument has 16 bytes and equals the first; it never panics.",
 ["inputs"], "every 16-byte array and every byte slice of any length",
 "Ten hand-picked pairs; a mask or accumulator fault on some bit or position escapes them.",
 ["src/util.rs"], [("length check and accumulation", "util.rs verify_16, verify_inner")], ["util::verify_16"])
prop("C23", "Valid calls never panic, overflow or touch memory out of bounds",
 "For all arguments that meet the documented length preconditions, no public function panics, overflows an integer (so debug and release builds agree), indexes outside a buffer, or writes anything but the output it documents.",
 ["inputs", "histories"], "every content of every permitted argument",
 "Panics and overflows that need specific contents (limb bounds, counters at their limit, carries) are not sampled by fixed vectors, and tests run only the debug profile.",
 ["src/aes.rs", "src/gcm.rs", "src/ghash.rs", "src/poly1305.rs", "src/chacha20.rs", "src/hkdf.rs", "src/hmac.rs", "src/sha2.rs", "src/curve25519.rs", "src/ed25519.rs", "src/util.rs"], [("wrapping operations where wrap is meant", "chacha20.rs, sha2.rs"), ("limb bounds", "curve25519.rs, ed25519.rs, poly1305.rs")], ["every public function"])
prop("C24", "X25519 agreement: both parties derive the same secret",
 "For all secret keys a and b, dh(gen_pk(a), b) equals dh(gen_pk(b), a).",
 ["inputs"], "every pair of secret keys",
 "One pair is tested.", ["src/curve25519.rs"], [("ladder", "curve25519.rs scalarmult")], ["curve25519::dh", "curve25519::gen_pk"])
prop("C25", "Every Ed25519 signature verifies under its own public key",
 "For every secret key and message, verify(message, sign(message, sk), gen_pk(sk)) is true.",
 ["inputs"], "every secret key and message",
 "Five pairs are tested.", ["src/ed25519.rs"], [("sign/verify", "ed25519.rs")], ["ed25519::sign", "ed25519::verify"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P: assert len(p["title"]) <= 80, p["id"]
print(len(P))
