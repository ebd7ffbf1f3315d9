"""Reference definitions, written from the standards.  They compute on Python ints and on symbolic
terms alike (every operation goes through vlib.terms constructors).  Constants are derived here
(primes, field inversion) and not copied from the implementation."""
from . import terms as T
from .terms import mk_xor, mk_and, mk_or, mk_add, mk_not, mk_eq, mk_ult, extract, concat, ite, zext
from .prog import stub_term


# ---------------------------------------------------------------- helpers
def be_word(bs):
    """big-endian bytes -> word"""
    return concat([(b, 8) for b in reversed(bs)])


def le_word(bs):
    return concat([(b, 8) for b in bs])


def be_bytes(x, n):
    return [extract(x, 8 * i + 7, 8 * i) for i in range(n - 1, -1, -1)]


def le_bytes(x, n):
    return [extract(x, 8 * i + 7, 8 * i) for i in range(n)]


def rotr(x, k, w):
    return T.fshr(x, x, k, w)


def rotl(x, k, w):
    return T.fshl(x, x, k, w)


def _primes(n):
    ps = []
    k = 2
    while len(ps) < n:
        if all(k % p for p in ps):
            ps.append(k)
        k += 1
    return ps


def _iroot(x, k):
    lo, hi = 0, 1 << (x.bit_length() // k + 2)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= x:
            lo = m
        else:
            hi = m - 1
    return lo


def _frac(p, k, bits):
    """first `bits` bits of the fractional part of the k-th root of p"""
    return _iroot(p << (k * bits), k) & ((1 << bits) - 1)


_P80 = _primes(80)
K256 = [_frac(p, 3, 32) for p in _P80[:64]]
K512 = [_frac(p, 3, 64) for p in _P80]
H256 = [_frac(p, 2, 32) for p in _P80[:8]]
H512 = [_frac(p, 2, 64) for p in _P80[:8]]
H384 = [_frac(p, 2, 64) for p in _P80[8:16]]
H224 = [h & 0xffffffff for h in H384]


class Sha2Params:
    def __init__(self, bits):
        self.bits = bits
        self.D = bits // 8
        if bits in (224, 256):
            self.w, self.B, self.rounds, self.K = 32, 64, 64, K256
            self.H = H224 if bits == 224 else H256
            self.S0, self.S1, self.s0, self.s1 = (2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10)
            self.L = 8
        else:
            self.w, self.B, self.rounds, self.K = 64, 128, 80, K512
            self.H = H384 if bits == 384 else H512
            self.S0, self.S1, self.s0, self.s1 = (28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6)
            self.L = 16


SHA = {b: Sha2Params(b) for b in (224, 256, 384, 512)}


def sha2_compress(P, H, block):
    w = P.w
    n = w // 8

    def big(x, r):
        return mk_xor(mk_xor(rotr(x, r[0], w), rotr(x, r[1], w), w), rotr(x, r[2], w), w)

    def small(x, r):
        return mk_xor(mk_xor(rotr(x, r[0], w), rotr(x, r[1], w), w), T.mk_lshr(x, r[2], w), w)
    W = [be_word(block[n * i:n * i + n]) for i in range(16)]
    for t in range(16, P.rounds):
        W.append(mk_add(mk_add(mk_add(small(W[t - 2], P.s1), W[t - 7], w), small(W[t - 15], P.s0), w), W[t - 16], w))
    a, b, c, d, e, f, g, h = H
    for t in range(P.rounds):
        ch = mk_xor(mk_and(e, f, w), mk_and(mk_not(e, w), g, w), w)
        maj = mk_xor(mk_xor(mk_and(a, b, w), mk_and(a, c, w), w), mk_and(b, c, w), w)
        t1 = mk_add(mk_add(mk_add(mk_add(h, big(e, P.S1), w), ch, w), P.K[t], w), W[t], w)
        t2 = mk_add(big(a, P.S0), maj, w)
        h, g, f, e, d, c, b, a = g, f, e, mk_add(d, t1, w), c, b, a, mk_add(t1, t2, w)
    return [mk_add(x, y, w) for x, y in zip(H, (a, b, c, d, e, f, g, h))]


def sha2(bits, msg):
    P = SHA[bits]
    n = len(msg)
    pad = [0x80] + [0] * ((P.B - P.L - 1 - n) % P.B)
    m = list(msg) + pad + list((8 * n).to_bytes(P.L, 'big'))
    H = list(P.H)
    for i in range(0, len(m), P.B):
        H = sha2_compress(P, H, m[i:i + P.B])
    out = []
    for x in H:
        out += be_bytes(x, P.w // 8)
    return out[:P.D]


# ---------------------------------------------------------------- stub hash
class StubHash:
    def __init__(self, D, B):
        self.D, self.B = D, B

    def __call__(self, msg):
        s = 0
        for b in msg:
            s = stub_term('vstub_absorb', s, b)
        return [stub_term('vstub_digest', s, i) for i in range(self.D)]


class ShaHash:
    def __init__(self, bits):
        self.bits = bits
        self.D, self.B = SHA[bits].D, SHA[bits].B

    def __call__(self, msg):
        return sha2(self.bits, msg)


HASHES = {'small': StubHash(4, 8), 'mid': StubHash(32, 64), 'wide': StubHash(64, 128),
          '224': ShaHash(224), '256': ShaHash(256), '384': ShaHash(384), '512': ShaHash(512)}


def hmac(H, key, msg):
    k = list(key)
    if len(k) > H.B:
        k = H(k)
    k = k + [0] * (H.B - len(k))
    inner = H([mk_xor(b, 0x36, 8) for b in k] + list(msg))
    return H([mk_xor(b, 0x5c, 8) for b in k] + inner)


def hkdf_extract(H, salt, ikm):
    return hmac(H, salt, ikm)


def hkdf_expand(H, prk, info, n):
    out = []
    t = []
    i = 1
    while len(out) < n:
        t = hmac(H, prk, t + list(info) + [i])
        out += t
        i += 1
    return out[:n]


# ---------------------------------------------------------------- AES (FIPS 197)
def gf8_mul(a, b):
    r = 0
    for i in range(8):
        if (b >> i) & 1:
            r ^= a << i
    for i in range(14, 7, -1):
        if (r >> i) & 1:
            r ^= 0x11b << (i - 8)
    return r


def _sbox_table():
    out = []
    for x in range(256):
        inv = 0
        for y in range(256):
            if gf8_mul(x, y) == 1:
                inv = y
        s = 0
        for i in range(8):
            b = 0
            for k in (0, 4, 5, 6, 7):
                b ^= inv >> ((i + k) % 8)
            s |= ((b ^ (0x63 >> i)) & 1) << i
        out.append(s)
    return out


SBOX = _sbox_table()


def _sbox_z3(x):
    import z3
    bits = [z3.Extract(i, i, x) == 1 for i in range(8)]

    def tree(lo, k):
        if k < 0:
            return z3.BitVecVal(SBOX[lo], 8)
        return z3.If(bits[k], tree(lo | (1 << k), k - 1), tree(lo, k - 1))
    return tree(0, 7)


T.UFDEF['SBOX'] = (lambda x: SBOX[x], _sbox_z3)


def sbox(x):
    if type(x) is int:
        return SBOX[x]
    T.nopush.add(x)
    return T.uf('SBOX', (x,), 8)


def xtime(x):
    if type(x) is int:
        return gf8_mul(x, 2)
    return mk_xor(T.mk_shl(x, 1, 8), mk_and(T.sext(extract(x, 7, 7), 1, 8), 0x1b, 8), 8)


def aes_expand(key):
    nk = len(key) // 4
    nr = nk + 6
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rcon = 1
    for i in range(nk, 4 * (nr + 1)):
        t = list(w[i - 1])
        if i % nk == 0:
            t = [sbox(b) for b in t[1:] + t[:1]]
            t[0] = mk_xor(t[0], rcon, 8)
            rcon = gf8_mul(rcon, 2)
        elif nk > 6 and i % nk == 4:
            t = [sbox(b) for b in t]
        w.append([mk_xor(a, b, 8) for a, b in zip(w[i - nk], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(nr + 1)]


def aes_encrypt(key, block):
    rk = aes_expand(key)
    nr = len(rk) - 1
    s = [mk_xor(a, b, 8) for a, b in zip(block, rk[0])]
    for r in range(1, nr + 1):
        s = [sbox(b) for b in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < nr:
            o = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                x = [xtime(b) for b in a]
                for i in range(4):
                    v = mk_xor(x[i], mk_xor(x[(i + 1) % 4], a[(i + 1) % 4], 8), 8)
                    o.append(mk_xor(mk_xor(v, a[(i + 2) % 4], 8), a[(i + 3) % 4], 8))
            s = o
        s = [mk_xor(a, b, 8) for a, b in zip(s, rk[r])]
    return s


def stub_cipher(key, block):
    s = 1
    for b in key:
        s = stub_term('vstub_absorb', s, b)
    h, l = be_word(block[:8]), be_word(block[8:])
    return [stub_term('vstub_permute', s, h, l, i) for i in range(16)]


# ---------------------------------------------------------------- GCM (SP 800-38D)
def gf128_mul(X, Y):
    """blocks as lists of 128 bits, index 0 = leftmost bit of the block"""
    Z = [0] * 128
    V = list(Y)
    for i in range(128):
        x = X[i]
        if not (type(x) is int and x == 0):
            for j in range(128):
                v = V[j]
                if not (type(v) is int and v == 0):
                    Z[j] = mk_xor(Z[j], mk_and(x, v, 1), 1)
        lsb = V[127]
        V = [0] + V[:127]
        for j in (0, 1, 2, 7):
            V[j] = mk_xor(V[j], lsb, 1)
    return Z


def blockbits(bs):
    return [extract(b, 7 - k, 7 - k) if type(b) is not int else (b >> (7 - k)) & 1 for b in bs for k in range(8)]


def bitsblock(z):
    return [concat([(z[8 * i + 7 - k], 1) for k in range(8)]) for i in range(len(z) // 8)]


def gf128_mul_int(x, y):
    z = 0
    v = y
    R = 0xe1 << 120
    for i in range(127, -1, -1):
        if (x >> i) & 1:
            z ^= v
        v = (v >> 1) ^ (R if v & 1 else 0)
    return z


def ghash(h, data):
    if all(type(b) is int for b in h) and all(type(b) is int for b in data):
        H = int.from_bytes(bytes(h), 'big')
        y = 0
        for i in range(0, len(data), 16):
            y = gf128_mul_int(y ^ int.from_bytes(bytes(data[i:i + 16]), 'big'), H)
        return list(y.to_bytes(16, 'big'))
    Y = [0] * 128
    H = blockbits(h)
    for i in range(0, len(data), 16):
        X = blockbits(data[i:i + 16])
        Y = gf128_mul([mk_xor(a, b, 1) for a, b in zip(X, Y)], H)
    return bitsblock(Y)


def pad16(b):
    return list(b) + [0] * (-len(b) % 16)


T.UFDEF['BOX'] = (lambda x: x, lambda x: x)


def box(x):
    """identity; marks a point where the implementation's terms are to be aligned"""
    return x if type(x) is int else T.uf('BOX', (x,), x.w)


def aes_boxed(key, blk):
    return [box(x) for x in aes_encrypt(key, blk)]


def gcm(E, key, nonce, aad, pt):
    """returns ciphertext, tag"""
    H = E(key, [0] * 16)
    ct = []
    for i in range(0, len(pt), 16):
        ks = E(key, list(nonce) + list((2 + i // 16).to_bytes(4, 'big')))
        ct += [mk_xor(a, b, 8) for a, b in zip(pt[i:i + 16], ks)]
    return ct, gcm_tag(E, key, nonce, aad, ct, H)


def gcm_open(E, key, nonce, aad, ct):
    """returns the plain text and the tag that must have been supplied"""
    pt = []
    for i in range(0, len(ct), 16):
        ks = E(key, list(nonce) + list((2 + i // 16).to_bytes(4, 'big')))
        pt += [mk_xor(a, b, 8) for a, b in zip(ct[i:i + 16], ks)]
    return pt, gcm_tag(E, key, nonce, aad, ct)


def gcm_tag(E, key, nonce, aad, ct, H=None):
    H = H or E(key, [0] * 16)
    S = ghash(H, pad16(aad) + pad16(ct) + list((8 * len(aad)).to_bytes(8, 'big')) + list((8 * len(ct)).to_bytes(8, 'big')))
    J0 = E(key, list(nonce) + [0, 0, 0, 1])
    return [mk_xor(a, b, 8) for a, b in zip(S, J0)]


# ---------------------------------------------------------------- ChaCha20 (RFC 8439)
def chacha_block(key, counter, nonce):
    c = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]
    s = c + [le_word(key[4 * i:4 * i + 4]) for i in range(8)] + [counter] + [le_word(nonce[4 * i:4 * i + 4]) for i in range(3)]
    x = list(s)

    def qr(a, b, c, d):
        x[a] = mk_add(x[a], x[b], 32)
        x[d] = rotl(mk_xor(x[d], x[a], 32), 16, 32)
        x[c] = mk_add(x[c], x[d], 32)
        x[b] = rotl(mk_xor(x[b], x[c], 32), 12, 32)
        x[a] = mk_add(x[a], x[b], 32)
        x[d] = rotl(mk_xor(x[d], x[a], 32), 8, 32)
        x[c] = mk_add(x[c], x[d], 32)
        x[b] = rotl(mk_xor(x[b], x[c], 32), 7, 32)
    for _ in range(10):
        qr(0, 4, 8, 12)
        qr(1, 5, 9, 13)
        qr(2, 6, 10, 14)
        qr(3, 7, 11, 15)
        qr(0, 5, 10, 15)
        qr(1, 6, 11, 12)
        qr(2, 7, 8, 13)
        qr(3, 4, 9, 14)
    out = []
    for a, b in zip(x, s):
        out += le_bytes(mk_add(a, b, 32), 4)
    return out


def chacha_stream(key, nonce, n, counter=0):
    out = []
    i = counter
    while len(out) < n:
        out += chacha_block(key, i, nonce)
        i += 1
    return out[:n]


def xor_bytes(a, b):
    return [mk_xor(x, y, 8) for x, y in zip(a, b)]


# ---------------------------------------------------------------- Poly1305 (concrete)
P1305 = (1 << 130) - 5


def poly1305(key, msg):
    r = int.from_bytes(bytes(key[:16]), 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = int.from_bytes(bytes(key[16:32]), 'little')
    acc = 0
    for i in range(0, len(msg), 16):
        b = bytes(msg[i:i + 16])
        acc = (acc + int.from_bytes(b + b'\1', 'little')) * r % P1305
    return list(((acc + s) & ((1 << 128) - 1)).to_bytes(16, 'little'))


def ccp_macdata(aad, ct):
    return pad16(aad) + pad16(ct) + list(len(aad).to_bytes(8, 'little')) + list(len(ct).to_bytes(8, 'little'))


def ccp_encrypt(key, nonce, aad, pt):
    otk = chacha_block(key, 0, nonce)[:32]
    ct = xor_bytes(pt, chacha_stream(key, nonce, len(pt), 1))
    return ct, poly1305(otk, ccp_macdata(aad, ct))


# ---------------------------------------------------------------- curve25519 / ed25519 (concrete)
P255 = (1 << 255) - 19
L = (1 << 252) + 27742317777372353535851937790883648493
D_ED = -121665 * pow(121666, P255 - 2, P255) % P255
SQRT_M1 = pow(2, (P255 - 1) // 4, P255)


def x25519(k, u):
    k = bytearray(k)
    k[0] &= 248
    k[31] = (k[31] & 127) | 64
    k = int.from_bytes(k, 'little')
    u = int.from_bytes(bytes(u), 'little') & ((1 << 255) - 1)
    p = P255
    x1, x2, z2, x3, z3, swap = u % p, 1, 0, u % p, 1, 0
    for t in range(254, -1, -1):
        kt = (k >> t) & 1
        swap ^= kt
        if swap:
            x2, x3, z2, z3 = x3, x2, z3, z2
        swap = kt
        A = (x2 + z2) % p
        AA = A * A % p
        B = (x2 - z2) % p
        BB = B * B % p
        E = (AA - BB) % p
        C = (x3 + z3) % p
        D = (x3 - z3) % p
        DA = D * A % p
        CB = C * B % p
        x3 = (DA + CB) ** 2 % p
        z3 = x1 * (DA - CB) ** 2 % p
        x2 = AA * BB % p
        z2 = E * (AA + 121665 * E) % p
    if swap:
        x2, x3, z2, z3 = x3, x2, z3, z2
    return (x2 * pow(z2, p - 2, p) % p).to_bytes(32, 'little')


def ed_recover_x(y, sign):
    if y >= P255:
        return None
    x2 = (y * y - 1) * pow(D_ED * y * y + 1, P255 - 2, P255) % P255
    if x2 == 0:
        return None if sign else 0
    x = pow(x2, (P255 + 3) // 8, P255)
    if (x * x - x2) % P255:
        x = x * SQRT_M1 % P255
    if (x * x - x2) % P255:
        return None
    if (x & 1) != sign:
        x = P255 - x
    return x


ED_BY = 4 * pow(5, P255 - 2, P255) % P255
ED_BX = ed_recover_x(ED_BY, 0)
ED_B = (ED_BX, ED_BY, 1, ED_BX * ED_BY % P255)


def ed_add(P, Q):
    p = P255
    A = (P[1] - P[0]) * (Q[1] - Q[0]) % p
    B = (P[1] + P[0]) * (Q[1] + Q[0]) % p
    C = 2 * P[3] * Q[3] * D_ED % p
    D = 2 * P[2] * Q[2] % p
    E, F, G, H = B - A, D - C, D + C, B + A
    return (E * F % p, G * H % p, F * G % p, E * H % p)


def ed_mul(s, P):
    Q = (0, 1, 1, 0)
    while s > 0:
        if s & 1:
            Q = ed_add(Q, P)
        P = ed_add(P, P)
        s >>= 1
    return Q


def ed_eq(P, Q):
    return (P[0] * Q[2] - Q[0] * P[2]) % P255 == 0 and (P[1] * Q[2] - Q[1] * P[2]) % P255 == 0


def ed_compress(P):
    zi = pow(P[2], P255 - 2, P255)
    x, y = P[0] * zi % P255, P[1] * zi % P255
    return (y | ((x & 1) << 255)).to_bytes(32, 'little')


def ed_decompress(s):
    y = int.from_bytes(bytes(s), 'little')
    sign = y >> 255
    y &= (1 << 255) - 1
    x = ed_recover_x(y, sign)
    if x is None:
        return None
    return (x, y, 1, x * y % P255)


def _sha512b(b):
    import hashlib
    return hashlib.sha512(bytes(b)).digest()


def _ed_secret(sk):
    h = _sha512b(sk)
    a = int.from_bytes(h[:32], 'little')
    a &= (1 << 254) - 8
    a |= 1 << 254
    return a, h[32:]


def ed_gen_pk(sk):
    a, _ = _ed_secret(sk)
    return ed_compress(ed_mul(a, ED_B))


def ed_sign(msg, sk):
    a, prefix = _ed_secret(sk)
    A = ed_compress(ed_mul(a, ED_B))
    r = int.from_bytes(_sha512b(prefix + bytes(msg)), 'little') % L
    R = ed_compress(ed_mul(r, ED_B))
    h = int.from_bytes(_sha512b(R + A + bytes(msg)), 'little') % L
    return R + ((r + h * a) % L).to_bytes(32, 'little')


def ed_sign_s(msg, sk, R, A):
    """the S half that belongs to R and A"""
    a, prefix = _ed_secret(sk)
    r = int.from_bytes(_sha512b(prefix + bytes(msg)), 'little') % L
    h = int.from_bytes(_sha512b(bytes(R) + bytes(A) + bytes(msg)), 'little') % L
    return ((r + h * a) % L).to_bytes(32, 'little')


def ed_verify(msg, sig, pk):
    """RFC 8032 5.1.7 with the cofactorless equation, comparing encodings (R is the encoding of
    [S]B - [k]A)"""
    if len(sig) != 64 or len(pk) != 32:
        return False
    A = ed_decompress(pk)
    if A is None:
        return False
    S = int.from_bytes(bytes(sig[32:]), 'little')
    if S >= L:
        return False
    h = int.from_bytes(_sha512b(bytes(sig[:32]) + bytes(pk) + bytes(msg)), 'little') % L
    nA = (P255 - A[0], A[1], 1, (P255 - A[3]) % P255)
    return ed_compress(ed_add(ed_mul(S, ED_B), ed_mul(h, nA))) == bytes(sig[:32])
