"""Ed25519 verification with the double scalar multiplication replaced by an arbitrary point (its arguments checked), and
signatures and keys that tell verifiers apart, for the search after a failed proof."""
import hashlib
from . import edspec, field as F, spec, terms as T
from .engine import Unsupported
from .spec import box

P, L = F.P, spec.L


class Double:
    """[h](-A) + [S]B: the arguments under the condition in which it is called, and any result"""
    name = 'from_double_scalarmult_vartime'
    faithful = True     # on nearly all inputs
    RANGES = [(-int(1.1 * (1 << (24 if i % 2 else 25))), int(1.1 * (1 << (24 if i % 2 else 25)))) for i in range(10)]

    def __init__(self, cond, h, x, y, t, S, args=True):
        self.cond = cond
        self.args = args
        self.want = [(h, 256), (x, 256), (y, 256), (1, 256), (t, 256)] + [(b, 8) for b in S]
        self.Q = [T.var('Q' + n, 256, ur=(0, P - 1)) for n in 'xyz']
        self.pairs = []

    def roots(self):
        return [T.ite(self.cond, v, 0, w) for v, w in self.want] + self.Q

    def __call__(self, E, hook, args):
        if len(args) != 5 or self.pairs:
            raise Unsupported('double scalar multiplication with other arguments than expected')
        r, a, g, b, n = args
        if E.concrete(n) != 32:
            raise Unsupported('length of the second scalar')
        get = lambda p, k, w: E.load(p + k, w, 8 * w)
        got = [T.concat([(get(a, i, 1), 8) for i in range(32)])]
        for i in range(4):
            got.append(hook.A.value([get(g, 40 * i + 4 * j, 4) for j in range(10)])[0])
        got += [get(b, i, 1) for i in range(32)]
        pc = edspec.bitand(self.cond, *E.pc)
        self.pairs = [(T.ite(pc, v, 0, w), T.ite(self.cond, e, 0, w), w) for v, (e, w) in zip(got, self.want)] if self.args else [(1, 1, 1)]
        for i, q in enumerate(self.Q):
            for j, l in enumerate(F.new_limbs(q, self.RANGES)):
                E.store(r + 40 * i + 4 * j, l, 4, 32)
        return None


def below_order(S):
    return T.mk_ult(T.concat([(b, 8) for b in S]), L, 256)


def plumbing(R, n, wellformed):
    """verify with a message of n bytes.  wellformed: the answer on well-formed input; else: false on the rest"""
    msg, sig, pk = R.sym('m', n), R.sym('s', 64), R.sym('A', 32)
    Rb, S = sig[:32], sig[32:]
    ok, x, y, t = edspec.decode_neg(pk)
    good = T.mk_and(ok, below_order(S), 1)
    h = edspec.hint(spec.sha2(512, Rb + pk + msg))
    st = Double(good, h, x, y, t, S, wellformed)
    same = edspec.bitand(*[T.mk_eq(a, b, 8) for a, b in zip(edspec.encode(st.Q), Rb)])

    def judge(cin, cout):
        m, s, k = cin
        if (spec.ed_decompress(k) is not None and le(s[32:]) < L) != wellformed:
            return None, None
        return int(wellformed and spec.ed_verify(m, s, k)), None

    def tries(rnd):
        for m, s, k in forgeries(rnd, n):
            yield [(msg, m), (sig, s), (pk, k)]

    def post(o):
        r = T.mk_eq(o.ret, 1, 32)
        no = T.mk_eq(o.ret, 0, 32)
        yield T.mk_or(r, no, 1)
        if wellformed:
            yield T.ite(good, T.mk_not(T.mk_xor(r, same, 1), 1), 1, 1)
        else:
            yield T.mk_or(good, no, 1)
    def sampler(env, rnd):
        # all outcomes of decoding and of the range check
        for v, x in zip(pk, somekey(rnd)):
            env[v] = x
        k = rnd.randrange(3)
        if k:
            for v, x in zip(S, (rnd.randrange(L) if k == 1 else L + rnd.randrange(-3, 3)).to_bytes(32, 'little')):
                env[v] = x
    R.check('vh_ed25519_verify', [msg, sig, pk], [], None, None, what='Ed25519 verification', sampler=sampler, nsim=24,
            field=True, tries=tries, concrete_spec=judge, stub=st, post=post, more=[good, same, T.mk_and(good, same, 1)])


# ---------------------------------------------------------------- inputs for the search
def torsion():
    """encodings of points of small order, canonical or not, with either sign bit"""
    ys = {0, 1, P - 1}
    # order 8: y^2 solutions of 2y^2 = 1 + d y^4
    q = spec.ed_decompress(bytes.fromhex('c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a'))
    ys |= {q[1], P - q[1]}
    for y in sorted(ys):
        for e in (y, y + P):
            if e < 1 << 255:
                for s in (0, 1):
                    yield (e + (s << 255)).to_bytes(32, 'little')


def loose(pk):
    """decoding that overlooks what should be refused"""
    y = (int.from_bytes(pk, 'little') & ((1 << 255) - 1)) % P
    s = pk[31] >> 7
    x = spec.ed_recover_x(y, 0)
    if x is None:
        return None
    if x & 1 != s and x:
        x = P - x
    return x, y, 1, x * y % P


def le(b):
    return int.from_bytes(b, 'little')


KEYS = [spec.ed_gen_pk(bytes([i]) * 32) for i in range(12)]


def somekey(rnd):
    k = rnd.randrange(4)
    if k == 0:
        return (rnd.choice((1, P - 1, 1, P - 1, 0, P, P + 1, (1 << 255) - 1)) + (rnd.randrange(2) << 255)).to_bytes(32, 'little')
    if k == 1:
        return rnd.randbytes(32)
    return rnd.choice(KEYS)


def forgeries(rnd, n):
    msg = rnd.randbytes(n)
    sk = rnd.randbytes(32)
    a, _ = spec._ed_secret(sk)
    A = spec.ed_gen_pk(sk)
    r = rnd.randrange(L)
    R = spec.ed_compress(spec.ed_mul(r, spec.ED_B))
    H = lambda R_, A_, m: le(hashlib.sha512(R_ + A_ + m).digest()) % L
    b32 = lambda v: v.to_bytes(32, 'little')
    S = (r + H(R, A, msg) * a) % L
    # genuine signatures, then the other forms of the same scalar
    yield msg, spec.ed_sign(msg, sk), A
    yield msg, R + b32(S), A
    for k in range(1, 16):
        if S + k * L < 1 << 256:
            yield msg, R + b32(S + k * L), A
    # an R that differs from the computed one, everything else fitting
    for i in range(256):
        x = bytearray(R)
        x[i // 8] ^= 1 << (i % 8)
        x = bytes(x)
        yield msg, x + b32((r + H(x, A, msg) * a) % L), A
    for i in range(32):
        for j in range(i):
            x = bytearray(R)
            k = rnd.randrange(1, 256)
            x[i] ^= k
            x[j] ^= k
            x = bytes(x)
            yield msg, x + b32((r + H(x, A, msg) * a) % L), A
    # the hash of something else
    for alt in (A + R + msg, R + msg + A, R + msg, A + msg, R + A, R + A + msg[1:], R + A + msg[:-1], R + A + msg + b'\0'):
        yield msg, R + b32((r + le(hashlib.sha512(alt).digest()) % L * a) % L), A
    h = H(R, A, msg)
    for v in ((r - h * a) % L, (-r + h * a) % L, (-r - h * a) % L, S ^ 1, S ^ (1 << 252), 0):
        yield msg, R + b32(v), A
    # S near the bounds
    for v in (0, 1, 2, L - 1, L, L + 1, 2 * L - 1, 2 * L, (1 << 252) - 1, 1 << 252, (1 << 253) - 1, (1 << 255) - 1, (1 << 256) - 1):
        r2 = (v - h * a)
        Q = spec.ed_mul(v % L, spec.ED_B)
        yield msg, spec.ed_compress(Q) + b32(v), b32(1)
    for i in range(32):
        # equal to L from the top down to byte i
        v = L + ((rnd.randrange(-255, 256)) << (8 * i))
        if 0 <= v < 1 << 256:
            yield msg, spec.ed_compress(spec.ed_mul(v % L, spec.ED_B)) + b32(v), b32(1)
    # keys of small order and encodings that are refused
    for pk in torsion():
        for _ in range(24):
            s = rnd.choice((0, 1, rnd.randrange(L)))
            Q = spec.ed_mul(s, spec.ED_B)
            for Rb in {spec.ed_compress(Q)} | ({b32(P + 1), b32(1 + (1 << 255)), b32(P + 1 + (1 << 255))} if s == 0 else set()):
                T_ = loose(pk)
                if T_ is None:
                    continue
                m = rnd.randbytes(n)
                k = H(Rb, pk, m)
                nA = ((P - T_[0]) % P, T_[1], 1, (P - T_[3]) % P)
                E_ = spec.ed_compress(spec.ed_add(Q, spec.ed_mul(k % 8 or 8, nA)))
                if E_ == spec.ed_compress(Q):
                    yield m, Rb + b32(s), pk
    for i in range(40):
        m = bytearray(msg)
        s = bytearray(R + b32(S))
        k = bytearray(A)
        c = rnd.randrange(3) if n else rnd.randrange(2)
        z = (s, k, m)[c]
        z[rnd.randrange(len(z))] ^= 1 << rnd.randrange(8)
        yield bytes(m), bytes(s), bytes(k)


# ---------------------------------------------------------------- [a](-A) + [b]B from any digits
class Digits:
    """the recoding of both scalars: any digits that are 0 or odd and at most 15 in size, at the given positions"""
    name = '5slide'
    faithful = False

    def __init__(self, a, b, da, db):
        self.of = {a[0]: da, b[0]: db}
        self.pairs = []

    def roots(self):
        return [d for l in self.of.values() for d in l if type(d) is T.T]

    def __call__(self, E, hook, args):
        if len(args) != 3:
            raise Unsupported('recoding with other arguments than expected')
        r, p, n = args
        d = self.of.get(E.load(p, 1, 8))
        if d is None:
            raise Unsupported('recoding of something else')
        for i in range(256):
            E.store(r + i, d[i], 1, 8)
        self.pairs.append((1, 1, 1))
        return None


def digit(name):
    z, j = T.var(name + 'z', 1), T.var(name + 'j', 4)
    return T.ite(z, 0, T.concat([(1, 1), (j, 4), (T.extract(j, 3, 3), 1), (T.extract(j, 3, 3), 1), (T.extract(j, 3, 3), 1)]), 8)


def chain(da, db, A):
    """sum of the digits' multiples of A and the base point, high to low, each step doubling"""
    odd = [A]
    two = edspec.p3(edspec.dbl(A))
    for _ in range(7):
        odd.append(edspec.p3(edspec.cadd(two, edspec.cached(odd[-1]))))
    odd = [edspec.cached(u) for u in odd]
    base, q = [], spec.ED_B
    two = spec.ed_add(q, q)
    for _ in range(8):
        base.append(edspec.affine(q))
        q = spec.ed_add(q, two)

    def case(c, x, y):
        return tuple(T.ite(c, F.FE.push(p), F.FE.push(q), 256) for p, q in zip(x, y))

    def among(d, tab, sign):
        if type(d) is int:
            return tab[(d if d < 128 else 256 - d) // 2]
        j = T.extract(d.a[2], 4, 1) if d.op == 'ite' else None
        # in the order in which the engine lists the targets of an address
        r = tab[7] if sign > 0 else tab[0]
        for k in range(6, -1, -1):
            r = case(T.mk_eq(j, k if sign > 0 else 8 + k, 4), tab[k if sign > 0 else 7 - k], r)
        return r
    top = max(i for i in range(256) if da[i] != 0 or db[i] != 0 or type(da[i]) is T.T or type(db[i]) is T.T)
    r = (0, 1, 1)
    for i in range(top, -1, -1):
        t = edspec.dbl(r)
        for d, tab, addf in ((da[i], odd, edspec.cadd), (db[i], base, edspec.madd)):
            if type(d) is int and d == 0:
                continue
            u = edspec.p3(t)
            pos = T.mk_slt(0, d, 8)
            neg = T.mk_slt(d, 0, 8)
            t = case(pos, addf(u, among(d, tab, 1)), case(neg, addf(u, among(d, tab, -1), neg=True), t))
        r = edspec.p2(t)
    return r


def double(R, lo, hi, key=None):
    """digits at positions lo..hi are arbitrary, except that of the base point at hi, which is 1"""
    a, b = R.sym('a', 32), R.sym('b', 32)
    da = [digit('a%d' % i) if lo <= i <= hi else 0 for i in range(256)]
    db = [digit('b%d' % i) if lo <= i < hi else int(i == hi) for i in range(256)]
    pk = list(key) if key is not None else R.sym('A', 32)
    ok, x, y, t = edspec.decode_neg(pk)
    want = edspec.encode(chain(da, db, (x, y, 1, t)))

    def judge(cin, cout):
        A = spec.ed_decompress(cin[1])
        if A is None:
            return 0, None
        if max(le(cin[0]), le(cin[2])) >= L:
            return None, None
        nA = ((P - A[0]) % P, A[1], 1, (P - A[3]) % P)
        return 1, spec.ed_compress(spec.ed_add(spec.ed_mul(le(cin[2]), spec.ED_B), spec.ed_mul(le(cin[0]), nA)))

    def tries(rnd):
        for x, y in scalars(rnd):
            yield [(a, x.to_bytes(32, 'little')), (b, y.to_bytes(32, 'little'))] + ([(pk, spec.ed_gen_pk(rnd.randbytes(32)))] if key is None else [])
    st = Digits(a, b, da, db)

    def small(env, rnd):
        for z in (a, b):
            for v, x in zip(z, rnd.randrange(L).to_bytes(32, 'little')):
                env[v] = x
    R.check('vh_i_double', [a, pk, b], [0xAA] * 32, T.zext(ok, 1, 32), [T.ite(ok, v, 0xAA, 8) for v in want], what='double scalar multiplication',
            field=True, tries=tries, concrete_spec=judge, stub=st, sampler=small)


def scalars(rnd):
    """pairs of scalars: sparse, dense, and with digits of all kinds"""
    def some():
        k = rnd.randrange(4)
        if k == 0:
            return rnd.randrange(L)
        if k == 1:
            return sum(rnd.choice((0, 1, 3, 15, 31, 17)) << i for i in range(0, 245, rnd.randrange(4, 9))) % L
        if k == 2:
            return (1 << rnd.randrange(253)) - rnd.randrange(2)
        return rnd.choice((0, 1, 2, 15, 16, 17, L - 1, L - 2, (1 << 252) - 1, 1 << 252))
    for _ in range(400):
        yield some(), some()


# ---------------------------------------------------------------- the recoding itself
def recoded(a, d):
    """conditions for d[0..255] to stand for the scalar of 32 bytes a"""
    z = 0
    out = []
    w = 264
    for i, x in enumerate(d):
        if type(x) is int and x == 0:
            continue
        s = T.mk_slt(x, 0, 8)
        out.append(T.mk_or(T.mk_eq(x, 0, 8), edspec.bitand(T.extract(x, 0, 0), T.mk_not(T.mk_slt(x, (-15) & 255, 8), 1), T.mk_not(T.mk_slt(15, x, 8), 1)), 1))
        if type(x) is int:
            z = T.mk_add(z, ((x if x < 128 else x - 256) << i) & ((1 << w) - 1), w)
        else:
            z = T.mk_add(z, T.mk_shl(T.sext(x, 8, w), i, w), w)
    out.append(T.mk_eq(z, T.concat([(b, 8) for b in a] + [(0, 8)]), w))
    return out


def slide(R, k, n, base):
    """scalars with n arbitrary bits from bit k on, the others as in base"""
    bits = [T.var('w%d' % (i - k), 1) if k <= i < k + n else base >> i & 1 for i in range(256)]
    a = [T.concat([(bits[8 * i + j], 1) for j in range(8)]) for i in range(32)]

    def judge(cin, cout):
        r = R.native().run('vh_i_slide', cin, cout)
        if r[0] != 'R':
            return 0, [0] * 256
        d = [x - 256 if x > 127 else x for x in r[2]]
        ok = sum(x << i for i, x in enumerate(d)) == le(cin[0]) and all(x == 0 or x & 1 and -15 <= x <= 15 for x in d)
        return None, None if ok else naf(le(cin[0]))
    R.check('vh_i_slide', [a], [0xAA] * 256, None, None, what='recoding of a scalar', post=lambda o: recoded(a, o.out), concrete_spec=judge, online=False)


def naf(x):
    out = []
    while len(out) < 256:
        d = 0
        if x & 1:
            d = x & 31
            d = d - 32 if d > 15 else d
            x -= d
        out.append(d & 255)
        x >>= 1
    return out
