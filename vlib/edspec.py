"""Ed25519 (RFC 8032) over field values: the specification the implementation is compared with.

Group operations are the formulas of RFC 8032 section 5.1.4 (complete on the curve, so that a chain of them computes the
multiple that the chain of digits stands for); the multiples of the base point are computed independently (spec.ed_mul)."""
from . import field as F, spec, terms as T
import z3
from .spec import box

D2 = 2 * spec.D_ED % F.P
IDENT = (0, 1, 1, 0)


def affine(Q):
    """(y+x, y-x, 2dxy) of a point in extended coordinates"""
    X, Y, Z, _ = Q
    z = pow(Z, -1, F.P)
    x, y = X * z % F.P, Y * z % F.P
    return (y + x) % F.P, (y - x) % F.P, D2 * x * y % F.P


def madd(p, q, neg=False):
    """completed sum of an extended point and (y+x, y-x, 2dxy)"""
    X, Y, Z, S = p
    a, b, c = q
    if neg:
        a, b = b, a
    A = F.mul(F.add(Y, X), a)
    B = F.mul(F.sub(Y, X), b)
    C = F.mul(c, S)
    D = F.scale(Z, 2)
    if neg:
        return F.sub(A, B), F.add(A, B), F.sub(D, C), F.add(D, C)
    return F.sub(A, B), F.add(A, B), F.add(D, C), F.sub(D, C)


def cached(p):
    X, Y, Z, S = p
    return F.add(Y, X), F.sub(Y, X), Z, F.scale(S, D2)


def cadd(p, q, neg=False):
    """completed sum of two extended points, the second as (Y+X, Y-X, Z, 2dT)"""
    X, Y, Z, S = p
    a, b, z, c = q
    if neg:
        a, b = b, a
    A = F.mul(F.add(Y, X), a)
    B = F.mul(F.sub(Y, X), b)
    C = F.mul(c, S)
    D = F.scale(F.mul(Z, z), 2)
    if neg:
        return F.sub(A, B), F.add(A, B), F.sub(D, C), F.add(D, C)
    return F.sub(A, B), F.add(A, B), F.add(D, C), F.sub(D, C)


def dbl(p):
    X, Y, Z = p[:3]
    XX, YY, B = F.mul(X, X), F.mul(Y, Y), F.scale(F.mul(Z, Z), 2)
    s = F.add(X, Y)
    A = F.mul(s, s)
    y, z = F.add(YY, XX), F.sub(YY, XX)
    return F.sub(A, y), y, z, F.sub(B, z)


def p3(c):
    X, Y, Z, S = c
    return F.mul(X, S), F.mul(Y, Z), F.mul(Z, S), F.mul(X, Y)


def p2(c):
    X, Y, Z, S = c
    return F.mul(X, S), F.mul(Y, Z), F.mul(Z, S)


_ok = {}


def digit_range(n, last):
    """the ranges given to digits hold"""
    hi = T.urange(n)[1] if type(n) is T.T else n
    if type(n) is T.T and n.op == 'extract' and n.a[0].ur is not None:
        hi = min(hi, n.a[0].ur[1] >> n.a[2]) if n.a[1] == n.a[0].w - 1 else hi
    if last:
        assert hi <= 7
    k = (last, hi)
    if k not in _ok:
        x, c = z3.BitVec('n', 8), z3.BitVec('c', 8)
        e = x + c
        s = z3.Solver()
        s.add(z3.ULE(x, hi), z3.ULE(c, 1))
        if not last:
            k1 = z3.Extract(4, 4, e + 8)
            # the carry is worth sixteen and the digit is small
            d = e - z3.ZeroExt(7, k1) * 16
            s.add(z3.Not(z3.And(d >= -8, d <= 7)))
        else:
            s.add(z3.Not(z3.And(e >= 0, e <= 8)))
        assert s.check() == z3.unsat
        _ok[k] = True


def digits(s):
    """64 signed radix-16 digits of 32 bytes, least significant first, each but the last in [-8,7]"""
    out = []
    carry = 0
    for i in range(64):
        n = T.extract(s[i // 2], 4 * (i % 2) + 3, 4 * (i % 2))
        e = T.mk_add(T.zext(n, 4, 8), carry, 8)
        if i < 63:
            c = T.extract(T.mk_add(e, 8, 8), 4, 4)
            c = box(c)
            e = T.mk_sub(e, T.concat([(0, 4), (c, 1), (0, 3)]), 8)
            carry = T.concat([(c, 1), (0, 7)])
        e = box(e)
        if type(e) is T.T:
            e.sr = (-8, 7) if i < 63 else (0, 8)
            digit_range(n, i == 63)
        out.append(e)
    return out


_tab = {}


def multiples(i):
    """j * 256^i * B for j = 0..8 as (y+x, y-x, 2dxy)"""
    if i not in _tab:
        if not _tab:
            _tab['B'] = spec.ED_B
        b = spec.ed_mul(256 ** i % spec.L, spec.ED_B)
        r = [(1, 1, 0)]
        q = b
        for j in range(8):
            r.append(affine(q))
            q = spec.ed_add(q, b)
        _tab[i] = r
    return _tab[i]


def pick(i, e):
    """digit * 256^i * B"""
    m = multiples(i)
    r = m[0]
    for j in range(8, 0, -1):
        pos = m[j]
        neg = (pos[1], pos[0], -pos[2] % F.P)
        for v, k in ((pos, j), (neg, 256 - j)):
            lo, hi = T.sr_of(e, 8)
            c = T.mk_eq(e, k, 8) if lo <= T.tosigned(k, 8) <= hi else 0
            r = tuple(T.ite(c, v[n], r[n], 256) for n in range(3))
    return r


def mul_base(s):
    """the multiple of the base point by 32 bytes: sum of digit_i 16^i B"""
    e = digits(s)
    h = IDENT
    for i in range(1, 64, 2):
        h = p3(madd(h, pick(i // 2, e[i])))
    s = dbl(h)
    for _ in range(3):
        s = dbl(p2(s))
    h = p3(s)
    for i in range(0, 64, 2):
        h = p3(madd(h, pick(i // 2, e[i])))
    return h


def encode(p):
    r = F.power(p[2], F.P - 2)
    b = F.to_bytes(F.mul(p[1], r))
    x = F.mul(p[0], r)
    b[31] = T.concat([(T.extract(b[31], 6, 0), 7), (T.mk_xor(T.extract(x, 0, 0), T.extract(b[31], 7, 7), 1), 1)])
    return b


def secret(sk):
    h = [box(b) for b in spec.sha2(512, sk)]
    az = list(h)
    az[0] = T.concat([(0, 3), (T.extract(h[0], 7, 3), 5)])
    az[31] = T.concat([(T.extract(h[31], 5, 0), 6), (1, 1), (0, 1)])
    return az


def gen_pk(sk):
    return encode(mul_base(secret(sk)[:32]))


def hint(bs):
    """a 512-bit hash as a scalar"""
    return F.SC.from_bytes([box(b) for b in bs])


def muladd(k, a, r):
    """k * a + r modulo the group order, a as 32 bytes"""
    s = r
    for m, c in F.SC.pd(F.SC.from_bytes(a)).items():
        s = F.SC.add(s, F.SC.scale(F.SC.mul(k, F.SC.mk({m: 1})), c))
    return s


def sign(msg, sk):
    az = secret(sk)
    A = encode(mul_base(az[:32]))
    r = hint(spec.sha2(512, az[32:] + list(msg)))
    Rb = encode(mul_base(F.to_bytes(r)))
    k = hint(spec.sha2(512, Rb + A + list(msg)))
    return Rb + F.to_bytes(muladd(k, az[:32], r))


def bitand(*xs):
    r = 1
    for x in xs:
        r = T.mk_and(r, x, 1)
    return r


def decode_neg(pk):
    """(accepted?, x, y, xy) of the negated point that 32 bytes encode (RFC 8032 5.1.3; x for the smallest root the formula gives)"""
    low = list(pk[:31]) + [T.zext(T.extract(pk[31], 6, 0), 7, 8)]
    sign = T.extract(pk[31], 7, 7)
    y = F.from_bytes(low)
    canon = bitand(*[T.mk_eq(a, b, 8) for a, b in zip(F.to_bytes(y), low)])
    yy = F.mul(y, y)
    u, v = F.sub(yy, 1), F.add(F.mul(yy, spec.D_ED), 1)
    v3 = F.mul(F.mul(v, v), v)
    x = F.mul(F.mul(F.power(F.mul(F.mul(F.mul(v3, v3), v), u), (F.P - 5) // 8), v3), u)
    vxx = F.mul(F.mul(x, x), v)
    zero = lambda z: T.mk_eq(z, 0, 256)
    c1, c2 = zero(F.sub(vxx, u)), zero(F.add(vxx, u))
    # the two candidates apart
    refuse = lambda x: T.mk_and(zero(x), sign, 1)
    pos = lambda x, m: F.mul(F.select(T.mk_eq(T.extract(x, 0, 0), sign, 1), F.sub(0, x), x), m)
    x2 = F.mul(x, spec.SQRT_M1)
    ok = bitand(canon, T.mk_or(c1, c2, 1), T.mk_not(T.ite(c1, refuse(x), refuse(x2), 1), 1))
    return ok, T.ite(c1, pos(x, 1), pos(x2, 1), 256), y, T.ite(c1, pos(x, y), pos(x2, y), 256)
