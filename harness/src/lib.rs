//! Entry points over crypto-pure's public API.  The same functions are executed
//! symbolically (from their LLVM IR) and natively (from `vreplay`).
#![allow(clippy::missing_safety_doc)]
use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
use crypto_pure::chacha20::Stream;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::hkdf;
use crypto_pure::hmac::{self, Hmac};
use crypto_pure::poly1305::ChaCha20Poly1305;
use crypto_pure::sha2::{self, HashFunction, Sha224, Sha256, Sha384, Sha512};
use crypto_pure::{curve25519, ed25519, util};

// ------------------------------------------------------------------ stubs
// Uninterpreted functions for the symbolic engine; mixing functions natively
// (implemented identically in vlib/stubs.py).
extern "C" {
    fn vstub_absorb(state: u64, byte: u8) -> u64;
    fn vstub_digest(state: u64, index: u8) -> u8;
    fn vstub_permute(key: u64, hi: u64, lo: u64, index: u8) -> u8;
}

/// A hash function whose digest is an arbitrary function of the absorbed byte sequence.
pub struct StubHash<const D: usize, const B: usize>(u64);

impl<const D: usize, const B: usize> Default for StubHash<D, B> {
    fn default() -> Self {
        StubHash(0)
    }
}

impl<const D: usize, const B: usize> HashFunction for StubHash<D, B> {
    const DIGEST_SIZE: usize = D;
    const BLOCK_SIZE: usize = B;

    fn update(&mut self, input: &[u8]) {
        for &b in input {
            self.0 = unsafe { vstub_absorb(self.0, b) };
        }
    }

    fn write_digest(self, output: &mut [u8]) {
        assert_eq!(D, output.len());
        let mut i = 0;
        while i < D {
            output[i] = unsafe { vstub_digest(self.0, i as u8) };
            i += 1;
        }
    }
}

/// A block cipher that is an arbitrary function of its key bytes and its input block.
pub struct StubCipher(u64);

impl BlockCipher for StubCipher {
    fn new(key: &[u8]) -> Self {
        let mut s = 1;
        for &b in key {
            s = unsafe { vstub_absorb(s, b) };
        }
        StubCipher(s)
    }

    fn permute(&self, input: &[u8; 16]) -> [u8; 16] {
        let mut h = [0; 8];
        let mut l = [0; 8];
        let mut i = 0;
        while i < 8 {
            h[i] = input[i];
            l[i] = input[i + 8];
            i += 1;
        }
        let h = u64::from_be_bytes(h);
        let l = u64::from_be_bytes(l);
        let mut out = [0; 16];
        let mut i = 0;
        while i < 16 {
            out[i] = unsafe { vstub_permute(self.0, h, l, i as u8) };
            i += 1;
        }
        out
    }
}

type SmallHash = StubHash<4, 8>;
type WideHash = StubHash<64, 128>;
type MidHash = StubHash<32, 64>;

// ------------------------------------------------------------------ plumbing
#[inline(always)]
unsafe fn get<'a>(ins: *const &'a [u8], i: usize) -> &'a [u8] {
    *ins.add(i)
}

#[inline(always)]
unsafe fn outs<'a>(out: *mut u8, len: usize) -> &'a mut [u8] {
    core::slice::from_raw_parts_mut(out, len)
}

/// Copies the bytes of an object; returns its size.
unsafe fn snapshot<T>(t: &T, out: &mut [u8]) -> u32 {
    let p = t as *const T as *const u8;
    let mut i = 0;
    while i < core::mem::size_of::<T>() && i < out.len() {
        out[i] = core::ptr::read_volatile(p.add(i));
        i += 1;
    }
    core::mem::size_of::<T>() as u32
}

/// The object whose bytes these are.
unsafe fn from_image<T>(image: &[u8]) -> T {
    assert_eq!(core::mem::size_of::<T>(), image.len());
    let mut m = core::mem::MaybeUninit::<T>::uninit();
    core::ptr::copy_nonoverlapping(image.as_ptr(), m.as_mut_ptr() as *mut u8, image.len());
    m.assume_init()
}

macro_rules! op {
    ($name:ident, |$ins:ident, $n:ident, $out:ident| $body:block) => {
        #[no_mangle]
        pub unsafe extern "C-unwind" fn $name(
            $ins: *const &[u8],
            $n: usize,
            out: *mut u8,
            outlen: usize,
        ) -> u32 {
            let $out: &mut [u8] = outs(out, outlen);
            let _ = &$out;
            $body
        }
    };
}

// ------------------------------------------------------------------ sha2
macro_rules! hash_ops {
    ($h:ident, $func:path, $one:ident, $chunks:ident, $snap:ident, $step:ident, $image:ident) => {
        op!($one, |ins, _n, out| {
            let d = $func(get(ins, 0));
            out.copy_from_slice(&d);
            0
        });
        op!($chunks, |ins, n, out| {
            let mut h = $h::default();
            let mut i = 0;
            while i < n {
                h.update(get(ins, i));
                i += 1;
            }
            h.write_digest(out);
            0
        });
        // the object after feeding the chunks, as bytes
        op!($snap, |ins, n, out| {
            let mut h = $h::default();
            let mut i = 0;
            while i < n {
                h.update(get(ins, i));
                i += 1;
            }
            snapshot(&h, out)
        });
        // in0 = object as bytes, in1.. = chunks; out = the object after feeding them, as bytes
        op!($step, |ins, n, out| {
            let mut h: $h = from_image(get(ins, 0));
            let mut i = 1;
            while i < n {
                h.update(get(ins, i));
                i += 1;
            }
            snapshot(&h, out)
        });
        // in0 = object as bytes, in1.. = chunks; out = digest
        op!($image, |ins, n, out| {
            let mut h: $h = from_image(get(ins, 0));
            let mut i = 1;
            while i < n {
                h.update(get(ins, i));
                i += 1;
            }
            h.write_digest(out);
            0
        });
    };
}

hash_ops!(Sha224, sha2::sha224, vh_sha224, vh_sha224_chunks, vh_sha224_snap, vh_sha224_step, vh_sha224_image);
hash_ops!(Sha256, sha2::sha256, vh_sha256, vh_sha256_chunks, vh_sha256_snap, vh_sha256_step, vh_sha256_image);
hash_ops!(Sha384, sha2::sha384, vh_sha384, vh_sha384_chunks, vh_sha384_snap, vh_sha384_step, vh_sha384_image);
hash_ops!(Sha512, sha2::sha512, vh_sha512, vh_sha512_chunks, vh_sha512_snap, vh_sha512_step, vh_sha512_image);

// ------------------------------------------------------------------ hmac / hkdf
// in0 = key, in1.. = message chunks
macro_rules! hmac_ops {
    ($h:ty, $tag:ident, $verify:ident, $extract:ident, $expand:ident) => {
        op!($tag, |ins, n, out| {
            let mut m = Hmac::<$h>::new(get(ins, 0));
            let mut i = 1;
            while i < n {
                m.update(get(ins, i));
                i += 1;
            }
            let t = m.tag();
            out.copy_from_slice(&t);
            t.len() as u32
        });
        // key, message, tag
        op!($verify, |ins, _n, _out| {
            hmac::verify::<$h>(get(ins, 0), get(ins, 1), get(ins, 2)) as u32
        });
        // salt, ikm
        op!($extract, |ins, _n, out| {
            hkdf::extract::<$h>(get(ins, 0), get(ins, 1), out);
            0
        });
        // prk, info
        op!($expand, |ins, _n, out| {
            hkdf::expand::<$h>(get(ins, 0), get(ins, 1), out);
            0
        });
    };
}

hmac_ops!(Sha224, vh_hmac224, vh_hmacv224, vh_extract224, vh_expand224);
hmac_ops!(Sha256, vh_hmac256, vh_hmacv256, vh_extract256, vh_expand256);
hmac_ops!(Sha384, vh_hmac384, vh_hmacv384, vh_extract384, vh_expand384);
hmac_ops!(Sha512, vh_hmac512, vh_hmacv512, vh_extract512, vh_expand512);
hmac_ops!(SmallHash, vh_hmac_small, vh_hmacv_small, vh_extract_small, vh_expand_small);
hmac_ops!(MidHash, vh_hmac_mid, vh_hmacv_mid, vh_extract_mid, vh_expand_mid);
hmac_ops!(WideHash, vh_hmac_wide, vh_hmacv_wide, vh_extract_wide, vh_expand_wide);

macro_rules! hmac_fn {
    ($name:ident, $f:path) => {
        op!($name, |ins, _n, out| {
            let t = $f(get(ins, 0), get(ins, 1));
            out.copy_from_slice(&t);
            0
        });
    };
}
hmac_fn!(vh_hmacf224, hmac::hmac_sha224);
hmac_fn!(vh_hmacf256, hmac::hmac_sha256);
hmac_fn!(vh_hmacf384, hmac::hmac_sha384);
hmac_fn!(vh_hmacf512, hmac::hmac_sha512);

// Tag through both of its views: Deref and AsRef
op!(vh_tag_views, |ins, _n, out| {
    let mut m = Hmac::<SmallHash>::new(get(ins, 0));
    m.update(get(ins, 1));
    let t = m.tag();
    let a: &[u8] = t.as_ref();
    out[..a.len()].copy_from_slice(a);
    let l = a.len();
    let d: &[u8] = &t;
    out[l..l + d.len()].copy_from_slice(d);
    (l + d.len()) as u32
});

// ------------------------------------------------------------------ aes
macro_rules! aes_op {
    ($name:ident, $c:ident) => {
        // key, block
        op!($name, |ins, _n, out| {
            let c = $c::new(get(ins, 0));
            let mut b = [0u8; 16];
            b.copy_from_slice(get(ins, 1));
            let o = c.permute(&b);
            out.copy_from_slice(&o);
            0
        });
    };
}
aes_op!(vh_aes128, Aes128);
aes_op!(vh_aes192, Aes192);
aes_op!(vh_aes256, Aes256);

// ------------------------------------------------------------------ aead
macro_rules! aead_ops {
    ($c:ty, $enc:ident, $dec:ident) => {
        // key, input, nonce, data; out = ciphertext || tag
        op!($enc, |ins, _n, out| {
            let c = <$c>::new(get(ins, 0));
            let m = out.len() - 16;
            let (ct, tg) = out.split_at_mut(m);
            let t = c.encrypt(get(ins, 1), get(ins, 2), get(ins, 3), ct);
            tg.copy_from_slice(&t);
            0
        });
        // key, input, nonce, data, tag; out = plaintext
        op!($dec, |ins, _n, out| {
            let c = <$c>::new(get(ins, 0));
            c.decrypt(get(ins, 1), get(ins, 2), get(ins, 3), get(ins, 4), out) as u32
        });
    };
}
aead_ops!(Gcm<Aes128>, vh_gcm128_enc, vh_gcm128_dec);
aead_ops!(Gcm<Aes192>, vh_gcm192_enc, vh_gcm192_dec);
aead_ops!(Gcm<Aes256>, vh_gcm256_enc, vh_gcm256_dec);
aead_ops!(Gcm<StubCipher>, vh_gcms_enc, vh_gcms_dec);
aead_ops!(ChaCha20Poly1305, vh_ccp_enc, vh_ccp_dec);

// one cipher object, two messages: key, in, nonce, data, in2, nonce2, data2
macro_rules! aead_two {
    ($c:ty, $name:ident) => {
        op!($name, |ins, _n, out| {
            let c = <$c>::new(get(ins, 0));
            let m1 = get(ins, 1).len();
            let (a, b) = out.split_at_mut(m1 + 16);
            let (ct, tg) = a.split_at_mut(m1);
            let t = c.encrypt(get(ins, 1), get(ins, 2), get(ins, 3), ct);
            tg.copy_from_slice(&t);
            let m2 = get(ins, 4).len();
            let (ct, tg) = b.split_at_mut(m2);
            let t = c.encrypt(get(ins, 4), get(ins, 5), get(ins, 6), ct);
            tg.copy_from_slice(&t);
            0
        });
    };
}
aead_two!(Gcm<StubCipher>, vh_gcms_two);
aead_two!(ChaCha20Poly1305, vh_ccp_two);

// ------------------------------------------------------------------ chacha20
// key, nonce, chunks...; out = concatenated ciphertext
op!(vh_chacha_enc, |ins, n, out| {
    let mut s = Stream::new(get(ins, 0), get(ins, 1));
    let mut o = 0;
    let mut i = 2;
    while i < n {
        let c = get(ins, i);
        s.encrypt(c, &mut out[o..o + c.len()]);
        o += c.len();
        i += 1;
    }
    0
});
op!(vh_chacha_dec, |ins, n, out| {
    let mut s = Stream::new(get(ins, 0), get(ins, 1));
    let mut o = 0;
    let mut i = 2;
    while i < n {
        let c = get(ins, i);
        s.decrypt(c, &mut out[o..o + c.len()]);
        o += c.len();
        i += 1;
    }
    0
});
// key, nonce; keystream bytes through the iterator
op!(vh_chacha_iter, |ins, _n, out| {
    let mut s = Stream::new(get(ins, 0), get(ins, 1));
    let mut i = 0;
    while i < out.len() {
        match s.next() {
            Some(b) => out[i] = b,
            None => return 1 + i as u32,
        }
        i += 1;
    }
    0
});
// key, nonce, chunks...; out = the object afterwards, as bytes
op!(vh_stream_snap, |ins, n, out| {
    let mut s = Stream::new(get(ins, 0), get(ins, 1));
    let mut i = 2;
    let mut buf = [0u8; 1024];
    while i < n {
        let c = get(ins, i);
        s.encrypt(c, &mut buf[..c.len()]);
        i += 1;
    }
    snapshot(&s, out)
});
// in0 = object as bytes; out = keystream through the iterator
op!(vh_stream_image, |ins, _n, out| {
    let mut s: Stream = from_image(get(ins, 0));
    let mut i = 0;
    while i < out.len() {
        match s.next() {
            Some(b) => out[i] = b,
            None => return 1 + i as u32,
        }
        i += 1;
    }
    0
});
// in0 = object as bytes, in1.. = chunks; out = concatenated ciphertext
op!(vh_stream_image_enc, |ins, n, out| {
    let mut s: Stream = from_image(get(ins, 0));
    let mut o = 0;
    let mut i = 1;
    while i < n {
        let c = get(ins, i);
        s.encrypt(c, &mut out[o..o + c.len()]);
        o += c.len();
        i += 1;
    }
    0
});

// ------------------------------------------------------------------ mismatched lengths
// key, input, nonce, data; out is the ciphertext buffer alone
macro_rules! aead_raw {
    ($c:ty, $enc:ident) => {
        op!($enc, |ins, _n, out| {
            let c = <$c>::new(get(ins, 0));
            let t = c.encrypt(get(ins, 1), get(ins, 2), get(ins, 3), out);
            u32::from(t[0])
        });
    };
}
// key, input, nonce, data, tag; out is the plain-text buffer
macro_rules! aead_draw {
    ($c:ty, $dec:ident) => {
        op!($dec, |ins, _n, out| {
            let c = <$c>::new(get(ins, 0));
            c.decrypt(get(ins, 1), get(ins, 2), get(ins, 3), get(ins, 4), out) as u32
        });
    };
}
aead_raw!(Gcm<StubCipher>, vh_gcms_raw);
aead_raw!(Gcm<Aes128>, vh_gcm128_raw);
aead_raw!(Gcm<Aes192>, vh_gcm192_raw);
aead_raw!(Gcm<Aes256>, vh_gcm256_raw);
aead_raw!(ChaCha20Poly1305, vh_ccp_raw);
aead_draw!(Gcm<StubCipher>, vh_gcms_draw);
aead_draw!(Gcm<Aes128>, vh_gcm128_draw);
aead_draw!(Gcm<Aes192>, vh_gcm192_draw);
aead_draw!(Gcm<Aes256>, vh_gcm256_draw);
aead_draw!(ChaCha20Poly1305, vh_ccp_draw);
op!(vh_chacha_raw, |ins, _n, out| {
    let mut s = Stream::new(get(ins, 0), get(ins, 1));
    s.encrypt(get(ins, 2), out);
    0
});
op!(vh_chacha_raw_dec, |ins, _n, out| {
    let mut s = Stream::new(get(ins, 0), get(ins, 1));
    s.decrypt(get(ins, 2), out);
    0
});

// ------------------------------------------------------------------ curve25519 / ed25519
op!(vh_x25519_gen_pk, |ins, _n, out| {
    out.copy_from_slice(&curve25519::gen_pk(get(ins, 0)));
    0
});
// public key, secret key
op!(vh_x25519_dh, |ins, _n, out| {
    out.copy_from_slice(&curve25519::dh(get(ins, 0), get(ins, 1)));
    0
});
op!(vh_ed25519_gen_pk, |ins, _n, out| {
    out.copy_from_slice(&ed25519::gen_pk(get(ins, 0)));
    0
});
// message, secret key
op!(vh_ed25519_sign, |ins, _n, out| {
    out.copy_from_slice(&ed25519::sign(get(ins, 0), get(ins, 1)));
    0
});
// message, signature, public key
op!(vh_ed25519_verify, |ins, _n, _out| {
    ed25519::verify(get(ins, 0), get(ins, 1), get(ins, 2)) as u32
});

// ------------------------------------------------------------------ private operations (guarded hooks)
// Limbs are given as 10 little-endian words, each the limb plus a bias that makes it non-negative.
#[cfg(crypto_pure_verif)]
const BIAS: u32 = 1 << 27;

#[cfg(crypto_pure_verif)]
fn limbs(b: &[u8]) -> [i32; 10] {
    let mut r = [0; 10];
    for i in 0..10 {
        let w = u32::from(b[4 * i]) | u32::from(b[4 * i + 1]) << 8 | u32::from(b[4 * i + 2]) << 16 | u32::from(b[4 * i + 3]) << 24;
        r[i] = w.wrapping_sub(BIAS) as i32;
    }
    r
}

// operation, f, g
#[cfg(crypto_pure_verif)]
op!(vh_i_fe, |ins, _n, out| {
    out.copy_from_slice(&curve25519::verif::field(get(ins, 0)[0], limbs(get(ins, 1)), limbs(get(ins, 2))));
    0
});
#[cfg(crypto_pure_verif)]
op!(vh_i_ed_fe, |ins, _n, out| {
    out.copy_from_slice(&ed25519::verif::field(get(ins, 0)[0], limbs(get(ins, 1)), limbs(get(ins, 2))));
    0
});
#[cfg(crypto_pure_verif)]
op!(vh_i_recode, |ins, _n, out| {
    let mut s = [0; 32];
    s.copy_from_slice(get(ins, 0));
    out.copy_from_slice(&curve25519::verif::recode(&s));
    0
});
#[cfg(crypto_pure_verif)]
op!(vh_i_reduce, |ins, _n, out| {
    let mut s = [0; 64];
    s.copy_from_slice(get(ins, 0));
    ed25519::verif::reduce(&mut s);
    out.copy_from_slice(&s[..32]);
    0
});
#[cfg(crypto_pure_verif)]
op!(vh_i_muladd, |ins, _n, out| {
    let mut a = [0; 64];
    let mut b = [0; 64];
    let mut c = [0; 64];
    a[..32].copy_from_slice(get(ins, 0));
    b[..32].copy_from_slice(get(ins, 1));
    c[..32].copy_from_slice(get(ins, 2));
    out.copy_from_slice(&ed25519::verif::muladd(&a, &b, &c));
    0
});
#[cfg(crypto_pure_verif)]
op!(vh_i_decode, |ins, _n, out| {
    match ed25519::verif::decode(get(ins, 0)) {
        Some(s) => {
            for i in 0..4 {
                out[32 * i..32 * i + 32].copy_from_slice(&s[i]);
            }
            1
        }
        None => 0,
    }
});
#[cfg(crypto_pure_verif)]
op!(vh_i_slide, |ins, _n, out| {
    let r = ed25519::verif::recode(get(ins, 0));
    for i in 0..256 {
        out[i] = r[i] as u8;
    }
    0
});
// scalar, point, scalar of the base point
#[cfg(crypto_pure_verif)]
op!(vh_i_double, |ins, _n, out| {
    let mut a = [0; 64];
    a[..32].copy_from_slice(get(ins, 0));
    match ed25519::verif::double_scalarmult(&a, get(ins, 1), get(ins, 2)) {
        Some(s) => {
            out.copy_from_slice(&s);
            1
        }
        None => 0,
    }
});

// ------------------------------------------------------------------ util
// x (16 bytes), y
op!(vh_verify16, |ins, _n, _out| {
    let mut x = [0u8; 16];
    x.copy_from_slice(get(ins, 0));
    util::verify_16(&x, get(ins, 1)) as u32
});
