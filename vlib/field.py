"""Arithmetic modulo p = 2^255-19 on arrays of ten signed 32-bit limbs.

A field value is a 256-bit term with a value in [0,p): an int, an opaque term, an if-then-else of field
values, or FPOLY, a polynomial over atoms in a normal form.  LIMB(v, n, i, lo, hi) is the i-th limb of *some*
representation n of v whose limbs lie in the given ranges; nothing else is known of it.

While an implementation runs, FieldHook watches calls: when a function returns having written ten-limb arrays
whose words are arithmetic over limbs, each word is lifted to an integer polynomial (vlib.lift), the array's
value  sum w_i 2^ceil(25.5 i)  is reduced mod p, and if limbs and carries cancel so that a polynomial in the
operands' field values remains, the words are replaced by the limbs of a new representation of it, with the ranges
proved for them.  32-byte strings computed from limbs are replaced by the bytes of the value when they are proved to
be its canonical encoding.  Nothing is assumed about which function does what, and nothing is assumed to be right: words
that do not cancel are left as they are.  A function called again on operands of the same shape and ranges is not executed again:
its recorded effect is applied."""
import time
from math import gcd
import z3
from . import terms as T
from .lift import Lift, LIA, padd, pmul, pconst, frozen, ONE, TooBig
from .engine import cellsof, cellbyte, PathDead, MemError, merge_cells, _val

P = (1 << 255) - 19
WT = [0, 26, 51, 77, 102, 128, 153, 179, 204, 230]


# ---------------------------------------------------------------- residues modulo a prime
_choice = {}


def choice(t):
    """t is a tree of selections between constants"""
    if type(t) is int:
        return True
    r = _choice.get(t)
    if r is None:
        r = _choice[t] = t.op == 'ite' and choice(t.a[1]) and choice(t.a[2])
    return r


def decode(a):
    r = {}
    i = 0
    while i < len(a):
        c, n = a[i], a[i + 1]
        i += 2
        r[tuple((a[i + 2 * j], a[i + 2 * j + 1]) for j in range(n))] = c
        i += 2 * n
    return r


def monokey(m):
    return tuple((t.id, e) for t, e in m)


def mono_mul(m, n):
    d = dict(m)
    for t, e in n:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


class Ring:
    """polynomials modulo p over atoms; `name` is the function symbol of a polynomial in normal form"""

    def __init__(self, p, name):
        self.p = p
        self.name = name
        self._pd = {}
        T.UFEVAL[name] = self.evalpoly
        T.RINGS[name] = self

    def pd(self, x):
        """{monomial: coefficient}; a monomial is a tuple of (atom, exponent) in id order"""
        if type(x) is int:
            return {(): x % self.p} if x % self.p else {}
        r = self._pd.get(x)
        if r is None:
            if x.op == 'concat':
                r = {}
                pos = 0
                for y, w in x.a:
                    r = self.fold(r, self.pd(y), 1 << pos)
                    pos += w
            elif x.op == 'extract' and x.a[1] < x.a[0].w - 1:
                # slices are expressed by those that reach the top
                y, hi, lo = x.a
                r = self.fold(self.pd(T.extract(y, y.w - 1, lo)), self.pd(T.extract(y, y.w - 1, hi + 1)), -(1 << (hi - lo + 1)))
            elif x.op == 'uf' and x.a[0] == self.name:
                r = decode(x.a[1])
            else:
                r = {((x, 1),): 1}
            self._pd[x] = r
        return r

    def fold(self, a, b, k=1):
        p = self.p
        r = dict(a)
        for m, c in b.items():
            v = (r.get(m, 0) + k * c) % p
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mk(self, d):
        if not d:
            return 0
        if len(d) == 1:
            (m, c), = d.items()
            if m == ():
                return c
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].w == 256:
                return m[0][0]
            # a factor that is a value or its negation
            for i, (x, e) in enumerate(m):
                if x.op == 'ite' and x.w == 256 and type(x.a[1]) is T.T and type(x.a[2]) is T.T:
                    a, b = self.pd(x.a[1]), self.pd(x.a[2])
                    if len(a) == 1 and a.keys() == b.keys() and not self.fold(a, b):
                        (n, k), = b.items()
                        d = {mono_mul(m[:i] + m[i + 1:], tuple((t, f * e) for t, f in n)): c * pow(k, e, self.p) % self.p}
                        v = self.mk(d)
                        return v if e % 2 == 0 else T.ite(x.a[0], self.mk({n: self.p - k for n, k in d.items()}), v, 256)
        args = []
        for m in sorted(d, key=monokey):
            args += [d[m], len(m)]
            for t, e in m:
                args += [t, e]
        t = T.uf(self.name, args, 256)
        if t.op == 'uf' and t.a[0] == self.name:
            t.ur = (0, self.p - 1)
        return t

    def push(self, x):
        """an affine function of a choice between constants is a choice between constants"""
        if type(x) is T.T and x.op == 'uf':
            d = self.pd(x)
            if len(d) <= 2:
                l = [m for m in d if m]
                if len(l) == 1 and len(l[0]) == 1 and l[0][0][1] == 1 and choice(l[0][0][0]):
                    return self.affine(l[0][0][0], d[l[0]], d.get((), 0), {})
        return x

    def affine(self, t, k, c, memo):
        if type(t) is int:
            return (t * k + c) % self.p
        r = memo.get(t)
        if r is None:
            r = memo[t] = T.ite(t.a[0], self.affine(t.a[1], k, c, memo), self.affine(t.a[2], k, c, memo), 256)
        return r

    def evalpoly(self, a):
        i = 0
        r = 0
        p = self.p
        while i < len(a):
            c, n = a[i], a[i + 1]
            i += 2
            for _ in range(n):
                c = c * pow(a[i], a[i + 1], p) % p
                i += 2
            r += c
        return r % p

    def add(self, a, b, k=1):
        return self.mk(self.fold(self.pd(a), self.pd(b), k))

    def sub(self, a, b):
        return self.add(a, b, -1)

    def scale(self, a, k):
        return self.mk({m: c * k % self.p for m, c in self.pd(a).items()}) if k % self.p else 0

    def factor(self, a):
        """a as coefficient and monomial (sums become atoms, made monic)"""
        d = self.pd(a)
        if len(d) == 1:
            (m, c), = d.items()
            return c, m
        lead = min(d, key=monokey)
        c = d[lead]
        if c != 1:
            i = pow(c, -1, self.p)
            d = {m: v * i % self.p for m, v in d.items()}
        return c, ((self.mk(d), 1),)

    def mul(self, a, b):
        if a == 0 and type(a) is int or b == 0 and type(b) is int:
            return 0
        if type(a) is int:
            return self.scale(b, a)
        if type(b) is int:
            return self.scale(a, b)
        c, m = self.factor(a)
        d, n = self.factor(b)
        return self.mk({mono_mul(m, n): c * d % self.p})

    def power(self, a, n):
        if n == 0:
            return 1
        if type(a) is int:
            return pow(a, n, self.p)
        c, m = self.factor(a)
        return self.mk({tuple((t, e * n) for t, e in m): pow(c, n, self.p)})

    def select(self, c, a, b):
        x, y = self.push(a), self.push(b)
        if choice(x) and choice(y):
            a, b = x, y
        return T.ite(c, a, b, 256)

    def from_bytes(self, bs):
        """the little-endian integer of the bytes, reduced"""
        r = {}
        for i, b in enumerate(bs):
            r = self.fold(r, self.pd(b), 1 << (8 * i))
        return self.mk(r)


def to_bytes(v):
    if type(v) is int:
        return list(v.to_bytes(32, 'little'))
    return [T.extract(v, 8 * i + 7, 8 * i) for i in range(32)]


FE = Ring(P, 'FPOLY')
pd, fold, mk, add, sub, scale, mul, power, select, from_bytes = (
    FE.pd, FE.fold, FE.mk, FE.add, FE.sub, FE.scale, FE.mul, FE.power, FE.select, FE.from_bytes)
# scalars: modulo the order of the base point of Ed25519
ORDER = (1 << 252) + 27742317777372353535851937790883648493
SC = Ring(ORDER, 'SPOLY')


# ---------------------------------------------------------------- limbs
_serial = [0]
_limbcache = {}


def balanced(v):
    r = _limbcache.get(v)
    if r is None:
        if len(_limbcache) > 20000:
            _limbcache.clear()
        x = v if v <= P // 2 else v - P
        r = []
        for i in range(10):
            w = 26 if i % 2 == 0 else 25
            y = x & ((1 << w) - 1)
            if i == 9:
                y = x
            elif y >> (w - 1):
                y -= 1 << w
            r.append(y)
            x = (x - y) >> w
        _limbcache[v] = r
    return r


T.UFEVAL['LIMB'] = lambda a: balanced(a[0])[a[2]] & 0xffffffff


def new_limbs(v, ranges):
    _serial[0] += 1
    n = _serial[0]
    out = []
    for i, (lo, hi) in enumerate(ranges):
        if lo == hi:
            lo, hi = min(lo, 0), max(hi, 1)
        t = T.uf('LIMB', (v, n, i, lo, hi), 32)
        t.sr = (lo, hi)
        if lo >= 0:
            t.ur = (lo, hi)
        out.append(t)
    return out


def islimb(t):
    return type(t) is T.T and t.op == 'uf' and t.a[0] == 'LIMB'


def roundup(lo, hi):
    def up(x):
        if x <= 0:
            return 0
        b = max(x.bit_length() - 6, 0)
        return ((x >> b) + (1 if x & ((1 << b) - 1) else 0)) << b
    m = 1 << 31
    return max(-up(-lo) if lo < 0 else 0, -m), min(up(hi) if hi > 0 else 0, m - 1)


class Fail(Exception):
    pass


_haslimb = {}


def haslimb(t):
    r = _haslimb.get(t)
    if r is None:
        st = [t]
        while st:
            x = st[-1]
            if x in _haslimb:
                st.pop()
                continue
            if x.op == 'uf':
                _haslimb[x] = x.a[0] == 'LIMB'
                st.pop()
                continue
            ch = T.children(x)
            new = [c for c in ch if c not in _haslimb]
            if new:
                st += new
                continue
            _haslimb[x] = any(_haslimb[c] for c in ch)
            st.pop()
        r = _haslimb[t]
    return r


_hasmul = {}


def hasmul(t):
    """products occur in the arithmetic of t"""
    r = _hasmul.get(t)
    if r is None:
        st = [t]
        while st:
            x = st[-1]
            if x in _hasmul:
                st.pop()
                continue
            if x.op in ('uf', 'var', 'mul') or x.w == 256:
                _hasmul[x] = x.op == 'mul'
                st.pop()
                continue
            ch = T.children(x)
            new = [c for c in ch if c not in _hasmul]
            if new:
                st += new
                continue
            _hasmul[x] = any(_hasmul[c] for c in ch)
            st.pop()
        r = _hasmul[t]
    return r


def selectors(words):
    """maximal one-bit terms that select between words and do not themselves depend on limbs"""
    ts = [w for w in words if type(w) is T.T and not islimb(w)]
    anyl = any(haslimb(w) for w in words if type(w) is T.T)
    out = set()
    seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.w == 1:
            if anyl and not haslimb(t):
                out.add(t)
            continue
        if t.op == 'var' or t.op == 'uf':
            continue
        if not anyl and t.op == 'ite':
            out.add(t.a[0])
            st += [x for x in t.a[1:] if type(x) is T.T]
            continue
        st += list(T.children(t))
    return out


def cofactor(words, sub):
    """substitution that leaves limbs alone"""
    M = dict(sub)
    st = [w for w in words if type(w) is T.T]
    while st:
        t = st[-1]
        if t in M:
            st.pop()
            continue
        if t.op == 'var' or t.op == 'uf':
            M[t] = t
            continue
        ch = [c for c in T.children(t) if c not in M]
        if ch:
            st += ch
            continue
        M[t] = T.rebuild(t, lambda x: x if type(x) is int else M[x])
        st.pop()
    return [w if type(w) is int else M[w] for w in words]


class Abstract:
    def __init__(self, stats=None):
        self.st = stats
        self.queries = 0

    # -------------------------------------------------------- ten words -> field value and ranges
    def value(self, words, depth=0):
        """(field value, [(lo,hi)], recipe); recipe: [(coefficient, [representation numbers])] or None"""
        if all(type(w) is int for w in words):
            v = [w - (1 << 32) if w >> 31 else w for w in words]
            c = sum(x << k for x, k in zip(v, WT)) % P
            return c, [(x, x) for x in v], [(c, [])]
        ls = [w for w in words if islimb(w)]
        if ls:
            n, v = ls[0].a[1][1], ls[0].a[1][0]
            if all(islimb(w) and w.a[1][1] == n and w.a[1][2] == i for i, w in enumerate(words)):
                return v, [w.sr for w in words], [(1, [n])]
        sel = selectors(words)
        if sel:
            if depth > 24:
                raise Fail('too many selectors')
            c = max(sel, key=lambda t: t.id)
            a = cofactor(words, {c: 1})
            b = cofactor(words, {c: 0})
            x, rx, _ = self.value(a, depth + 1)
            y, ry, _ = self.value(b, depth + 1)
            return select(c, x, y), [(min(p[0], q[0]), max(p[1], q[1])) for p, q in zip(rx, ry)], None
        return self.lift(words)

    def lift(self, words):
        L = FLift()
        E = {}
        rs = []
        for w, k in zip(words, WT):
            if type(w) is int:
                v = w - (1 << 32) if w >> 31 else w
                r = (pconst(v), v, v)
            else:
                r = L.get(w, 32)
                r = L.signed(r, 32)
            rs.append((r[1], r[2]))
            E = padd(E, r[0], 1 << k)
        v, rec = self.reduce(L, E)
        return v, rs, rec

    def reduce(self, L, E):
        """the field value of an integer polynomial"""
        E = {m: c % P for m, c in E.items() if c % P}
        E = L.expand(E, P)
        E0 = E
        # limbs of one representation: the 0-th is the value minus the others
        reps = {}
        for a in L.at:
            if a.kind == 't' and islimb(a.data):
                reps.setdefault(a.data.a[1][1], {})[a.data.a[1][2]] = a
        defs = {}
        for n, d in reps.items():
            if not any(x in m for m in E for x in (a.n for a in d.values())):
                continue
            if 0 not in d:
                raise Fail('limb 0 is not used')
            f = L.atom(('f', n), 'f', d[0].data.a[1][0], 0, P - 1)
            L.fser[f] = n
            q = {(f,): 1}
            for i, a in d.items():
                if i:
                    q[(a.n,)] = -(1 << WT[i]) % P
            defs[d[0].n] = q
        for x, q in defs.items():
            while True:
                hit = [m for m in E if x in m]
                if not hit:
                    break
                R = {m: c for m, c in E.items() if x not in m}
                for m in hit:
                    l = list(m)
                    l.remove(x)
                    for n, d in q.items():
                        k = tuple(sorted(tuple(l) + n))
                        v = (R.get(k, 0) + E[m] * d) % P
                        if v:
                            R[k] = v
                        else:
                            R.pop(k, None)
                E = R
        out = []
        rec = []
        for m, c in E.items():
            v = None
            rs = []
            for n in m:
                a = L.at[n]
                if a.kind == 'f':
                    y = a.data
                    rs.append(L.fser[n])
                elif a.kind == 't' and not islimb(a.data):
                    y = self.plain(a.data)
                elif a.kind == 'q':
                    y = self.bits(L, a)
                else:
                    raise Fail('limbs do not cancel')
                if a.kind != 'f':
                    rec = None
                v = y if v is None else mul(v, y)
            out.append((c, 1 if v is None else v))
            if rec is not None:
                rec.append((c, rs))
        # confirmation: the polynomial with limb 0 replaced by its definition
        back = E
        fs = {L.key[('f', n)]: d for n, d in reps.items() if ('f', n) in L.key}
        for f, d in fs.items():
            q = {(a.n,): 1 << WT[i] for i, a in d.items()}
            R = {}
            for m, c in back.items():
                parts = {(): c}
                for n in m:
                    parts = pmul(parts, q if n == f else {(n,): 1}, P)
                R = {k: (R.get(k, 0) + parts.get(k, 0)) % P for k in set(R) | set(parts)}
            back = {k: v for k, v in R.items() if v}
        Z = LIA(L, self.st)
        if not Z.congruent(E0, back, P):
            raise Fail('not confirmed')
        r = 0
        for c, v in out:
            r = add(r, scale(v, c))
        return r, rec

    def plain(self, t, ring=FE):
        # an unsigned leaf
        if (t.op == 'var' or islimb(t)) and t.sr is not None and t.sr[0] < 0 and t.ur is None:
            raise Fail('signed leaf')
        return ring.mk(ring.pd(t)) if t.w != 256 else t

    def bits(self, L, a, ring=FE):
        """floor atom of a plain leaf: a slice of it"""
        Pq, k, lo, hi = a.data
        if len(Pq) == 1:
            (m, c), = Pq.items()
            if c == 1 and len(m) == 1 and L.at[m[0]].kind == 't' and lo >= 0:
                t = L.at[m[0]].data
                if not islimb(t) and k < t.w:
                    return ring.mk(ring.pd(T.extract(t, t.w - 1, k)))
        raise Fail('carry does not cancel')

    # -------------------------------------------------------- 32 bytes -> canonical encoding
    def encoding(self, bs):
        L = FLift()
        L.flat = True
        R = {}
        for i, b in enumerate(bs):
            r = (pconst(b), b, b) if type(b) is int else L.unsigned(L.get(b, 8), 8)
            R = padd(R, r[0], 1 << (8 * i))
        return self.reduce2(L, R)

    def reduce2(self, L, R):
        D = L.expand(R, None)
        H = {m: c for m, c in D.items() if m == ONE or any(L.at[n].kind == 't' for n in m)}
        ns = set(L.at[n].data.a[1][1] for m in H for n in m if islimb(L.at[n].data))
        if len(ns) != 1 or any(len(m) != 1 or not islimb(L.at[m[0]].data) for m in H):
            raise Fail('not the limbs of one value')
        want = {}
        v = None
        for m in H:
            t = L.at[m[0]].data
            want[m] = 1 << WT[t.a[1][2]]
            v = t.a[1][0]
        if len(H) != 10 or want != H:
            raise Fail('not the sum of the limbs')
        rest = padd(D, H, -1)
        Z = LIA(L, self.st)
        facts = Z.facts([D])
        cands = [None] + [m for m in rest if len(m) == 1]
        for m in cands:
            k = {} if m is None else {m: -P}
            # D == H + k with k a multiple of p
            if not Z.valid(facts, Z.expr(padd(padd(D, H, -1), k, -1)) == 0):
                continue
            e = Z.expr(D)
            if Z.valid(facts, z3.And(e >= 0, e < P)):
                return v, [(1, list(ns))]
        raise Fail('not a canonical encoding')


    # -------------------------------------------------------- 32 bytes -> scalar
    def scalar(self, bs):
        """the bytes as a residue modulo ORDER, if they are proved to be its canonical encoding"""
        L = SLift()
        R = {}
        for i, b in enumerate(bs):
            r = (pconst(b), b, b) if type(b) is int else L.unsigned(L.get(b, 8), 8)
            R = padd(R, r[0], 1 << (8 * i))
        X = L.expand({m: c % ORDER for m, c in R.items() if c % ORDER}, ORDER)
        # range: carries out of the top must vanish, and unfolding the last carry chain bounds the rest
        depth = {}

        def deep(x):
            d = depth.get(x)
            if d is None:
                a = L.at[x]
                d = 0
                if a.kind in 'qy':
                    d = 1 + max([deep(y) for m in (a.data[0] if a.kind == 'q' else a.data) for y in m] or [0])
                depth[x] = d
            return d
        for a in L.at:
            deep(a.n)
        Y = R
        for _ in range(400):
            top = {m: c for m, c in Y.items() if len(m) == 1 and L.at[m[0]].kind == 'q' and c % (1 << 256) == 0}
            rest = {m: c for m, c in Y.items() if m not in top}
            lo, hi = L.bounds(rest)
            if lo >= 0 and hi < ORDER:
                break
            ys = [x for m in Y for x in m if L.at[x].kind == 'y']
            if not ys:
                raise Fail('not a canonical scalar')
            Y = L.unfold(Y, max(ys, key=lambda x: (depth[x], x)))
        else:
            raise Fail('not a canonical scalar')
        Z = LIA(L, self.st)
        facts = [Z.expr(Y) >= 0, Z.expr(Y) < 1 << 256]
        for m in rest:
            if m:
                lo, hi = L.bounds({m: 1})
                a = L.at[m[0]]
                derived = False
                if len(m) == 1 and a.kind == 'y':
                    facts.append(Z.expr(a.data) == Z.mono(m))
                    for n in a.data:
                        if len(n) == 1 and L.at[n[0]].kind == 'q':
                            B, k = L.at[n[0]].data[:2]
                            x = Z.expr(B) - Z.mono(n) * (1 << k)
                            facts += [x >= 0, x < 1 << k]
                            derived = True
                if not derived:
                    facts += [Z.mono(m) >= lo, Z.mono(m) <= hi]
        e = Z.expr(rest)
        if not Z.valid(facts, z3.And([e >= 0, e < ORDER] + [Z.mono(m) == 0 for m in top])):
            raise Fail('not confirmed')
        ms = list(top)
        # the polynomial over plain leaves
        E = {}
        for m, c in X.items():
            if m in ms:
                continue
            parts = {(): c}
            for x in m:
                a = L.at[x]
                if a.kind == 't' and not islimb(a.data):
                    y = self.slices(a.data)
                elif a.kind == 'q' and self.isbits(L, a):
                    t = L.at[next(iter(a.data[0]))[0]].data
                    y = self.slices(T.extract(t, t.w - 1, a.data[1]))
                else:
                    raise Fail('not a function of plain words')
                parts = {tuple(sorted(k + (l,), key=lambda t: t.id)): c * d for k, c in parts.items() for l, d in y.items()}
            for k, c in parts.items():
                k = tuple(t for t in k if t is not UNIT)
                E[k] = (E.get(k, 0) + c) % ORDER
            if len(E) > 50000:
                raise Fail('too large')
        out = 0
        for k, c in E.items():
            if c:
                v = 1
                for t in k:
                    v = SC.mul(v, t if t.w == 256 else SC.mk({((t, 1),): 1}))
                out = SC.add(out, SC.scale(v, c))
        return out

    def isbits(self, L, a):
        Q, k, lo, hi = a.data
        if len(Q) == 1:
            (m, c), = Q.items()
            if c == 1 and len(m) == 1 and L.at[m[0]].kind == 't' and lo >= 0:
                t = L.at[m[0]].data
                return not islimb(t) and k < t.w
        return False

    def slices(self, t):
        """an unsigned leaf as a sum of slices that reach the top of their word"""
        if type(t) is int:
            return {UNIT: t} if t else {}
        if t.op == 'concat':
            r = {}
            pos = 0
            for y, w in t.a:
                for k, c in self.slices(y).items():
                    r[k] = r.get(k, 0) + (c << pos)
                pos += w
            return r
        if t.op == 'extract' and t.a[1] < t.a[0].w - 1:
            y, hi, lo = t.a
            r = dict(self.slices(T.extract(y, y.w - 1, lo)))
            for k, c in self.slices(T.extract(y, y.w - 1, hi + 1)).items():
                r[k] = r.get(k, 0) - (c << (hi - lo + 1))
            return r
        if t.sr is not None and t.sr[0] < 0 and t.ur is None and t.op == 'var':
            raise Fail('signed leaf')
        return {t: 1}


UNIT = T.var('one', 8)


class FLift(Lift):
    def __init__(self, ranges=None):
        Lift.__init__(self, ranges)
        self.fser = {}

    """carries  x - 2^k floor((x+c)/2^k)  have their exact range"""

    def step(self, t):
        r = Lift.step(self, t)
        if t.op in ('sub', 'add') and type(t.a[1]) is T.T:
            p, lo, hi = r
            if hi - lo > 1 << 20:
                y = self.get(t.a[1], t.w)[0]
                for m in y:
                    if len(m) == 1 and m in p and self.at[m[0]].kind == 'q':
                        B, k, a, b = self.at[m[0]].data
                        if p[m] == -(1 << k):
                            d = padd(padd(p, {m: 1 << k}), B, -1)
                            if not d or (len(d) == 1 and ONE in d):
                                c = d.get(ONE, 0)
                                lo, hi = max(lo, c), min(hi, c + (1 << k) - 1)
                                return self.tight(t, (p, lo, hi))
        return r

    flat = False

    def floor(self, p, lo, hi, k):
        """with flat: nested floors are one floor"""
        if self.flat and k:
            m = 1 << k
            B = {x: c for x, c in p.items() if c % m}
            qs = [x for x, c in B.items() if c == 1 and len(x) == 1 and self.at[x[0]].kind == 'q']
            if qs and len(B) > 1:
                x = max(qs)
                A = {y: c >> k for y, c in p.items() if c % m == 0}
                bl, bh = self.bounds(B) if A else (lo, hi)
                Q, k0, a, b = self.at[x[0]].data
                B.pop(x)
                q, a, b = self.floor(padd(Q, {y: c << k0 for y, c in B.items()}), bl << k0, ((bh + 1) << k0) - 1, k0 + k)
                r = padd(A, q)
                if A:
                    a, b = self.bounds(r)
                return r, max(a, lo >> k), min(b, hi >> k)
        return Lift.floor(self, p, lo, hi, k)

    def leaf(self, t, lo=None, hi=None):
        if lo is None and t not in self.ranges and t.sr is not None and t.sr[0] < 0 and islimb(t):
            n = self.atom(('t', t), 't', t, t.sr[0], t.sr[1])
            return {(n,): 1}, t.sr[0], t.sr[1]
        return Lift.leaf(self, t, lo, hi)

    def unfold(self, E, y, mod=None):
        """replace one defined atom"""
        q = self.at[y].data
        R = {m: c for m, c in E.items() if y not in m}
        for m, c in E.items():
            if y in m:
                l = list(m)
                l.remove(y)
                for n, d in q.items():
                    k = tuple(sorted(tuple(l) + n))
                    v = R.get(k, 0) + c * d
                    if mod:
                        v %= mod
                    if v:
                        R[k] = v
                    else:
                        R.pop(k, None)
        return R

    def expand(self, E, mod):
        """replace defined atoms by their definitions"""
        for _ in range(1000):
            ys = set(n for m in E for n in m if self.at[n].kind == 'y')
            if not ys:
                return E
            E = self.unfold(E, max(ys), mod)
            if len(E) > 20000:
                raise Fail('too large')
        raise Fail('too deep')


class SLift(FLift):
    """remainders of carries are atoms with their exact range; low parts that cannot matter to a floor are dropped"""

    def __init__(self, ranges=None):
        FLift.__init__(self, ranges)
        self.alias = {}

    def remainder(self, p, lo, hi):
        if len(p) < 2:
            return p, lo, hi
        n = self.atom(('y', frozen(p)), 'y', p, lo, hi)
        return {(n,): 1}, lo, hi

    def step(self, t):
        r = Lift.step(self, t)
        if t.op in ('sub', 'add') and type(t.a[1]) is T.T:
            p, lo, hi = r
            for m in p:
                if len(m) == 1 and self.at[m[0]].kind == 'q':
                    B, k, a, b = self.at[m[0]].data
                    if p[m] == -(1 << k):
                        d = padd(padd(p, {m: 1 << k}), B, -1)
                        if not d or (len(d) == 1 and ONE in d):
                            c = d.get(ONE, 0)
                            return self.remainder(p, max(lo, c), min(hi, c + (1 << k) - 1))
        return r

    def bitwise(self, t):
        # modulo 2 the sum
        if t.op == 'xor' and t.w == 1 and len(t.a) <= 4:
            p, lo, hi = {}, 0, 0
            for x in t.a:
                q, a, b = self.get(x, 1)
                p, lo, hi = padd(p, q), lo + a, hi + b
            return p, lo, hi
        return None

    def unsigned(self, r, w):
        s = FLift.unsigned(self, r, w)
        return s if s is r else self.remainder(*s)

    def floor(self, p, lo, hi, k):
        f = frozen(p) if k else None
        if f in self.alias:
            p, l, h, k0 = self.alias[f]
            return self.floor(p, max(l, lo << k0), min(h, ((hi + 1) << k0) - 1), k + k0)
        r = self.floor1(p, lo, hi, k)
        if k and len(r[0]) > 1:
            self.alias.setdefault(frozen(r[0]), (p, lo, hi, k))
        return r

    def floor1(self, p, lo, hi, k):
        if k and len(p) > 1:
            g = sorted(set((c & -c) for m, c in p.items()))
            for j in reversed(g):
                if j > 1:
                    low = {m: c for m, c in p.items() if c % j}
                    if low:
                        a, b = self.bounds(low)
                        if 0 <= a and b < j and j <= 1 << k:
                            return self.floor({m: c for m, c in p.items() if c % j == 0}, lo - b, hi - a, k)
        if k and p:
            g = 0
            for c in p.values():
                g = gcd(g, c)
            j = (g & -g).bit_length() - 1
            j = min(j, k)
            if j:
                return self.floor({m: c >> j for m, c in p.items()}, lo >> j, hi >> j, k - j)
        return Lift.floor(self, p, lo, hi, k)


# ---------------------------------------------------------------- watching calls
class Rec:
    __slots__ = ('ok', 'start', 'roots', 'rootno', 'reads', 'writes', 'seen', 'why', 'nabs')


def merge_words(c, a, b):
    """merge_cells by aligned words"""
    out = []
    for i in range(0, len(a) - 3, 4):
        x, y = a[i:i + 4], b[i:i + 4]
        if x == y:
            out += x
            continue
        u, v = _val(x), _val(y)
        if u is None or v is None:
            raise MemError('uninitialised memory selected')
        if type(u) is int and type(v) is int or type(u) is T.T or type(v) is T.T:
            r = T.ite(c, u, v, 32)
            out += list(r.to_bytes(4, 'little')) if type(r) is int else cellsof(r)
    return out + merge_cells(c, a[len(out):], b[len(out):])


class FieldHook:
    stubs = {}

    MAXREC = 40

    def __init__(self, E, prover):
        self.E = E
        self.P = prover
        self.A = Abstract(prover.st)
        self.stack = []
        self.memo = {}
        self.plain = {}
        self.stats = {'calls': 0, 'hits': 0, 'abstracted': 0, 'encodings': 0, 'scalars': 0, 'failed': 0}
        self.fails = []
        self.base_load = E.load
        self.base_store = E.store
        self.base_memcpy = E.memcpy
        self.base_memset = E.memset
        self.bad = {}
        E.fnhook = self
        E.load = self.load
        E.store = self.store
        E.memcpy = self.memcpy
        E.memset = self.memset
        E.mergehook = self.merged

    # ------------------------------------------------------------ recording
    def load(self, a, n, w):
        v = self.base_load(a, n, w)
        if self.stack and n:
            r = self.stack[-1]
            if r.ok:
                self.note(r, a, n, v)
        return v

    def note(self, r, a, n, v):
        if type(a) is not int:
            r.ok = False
            r.why = 'symbolic address'
            return
        oid = a >> 32
        if oid > r.start or oid < (1 << 16):
            return
        off = a & 0xffffffff
        k = 0
        for i in range(n):
            if (oid, off + i) in r.writes:
                k += 1
        if k == n:
            return
        if k or (type(v) is T.T and not (n == 4 and islimb(v))):
            r.ok = False
            r.why = 'mixed read' if k else 'reads a term'
            return
        if (a, n) in r.seen:
            return
        r.seen.add((a, n))
        j = self.rootof(r, a)
        if j is None:
            r.ok = False
            r.why = 'no root'
            return
        r.reads.append((j, a - r.roots[j], n, v))
        if type(v) is int and n == 8:
            self.addroot(r, v)

    def addroot(self, r, v):
        o = v >> 32
        if o >= (1 << 16) and o <= r.start and o in self.E.objs and v not in r.rootno:
            r.rootno[v] = len(r.roots)
            r.roots.append(v)

    def rootof(self, r, a):
        best = None
        for j, b in enumerate(r.roots):
            if b >> 32 == a >> 32 and b <= a and (best is None or b > r.roots[best]):
                best = j
        return best

    def store(self, a, v, n, w):
        self.base_store(a, v, n, w)
        if self.stack:
            r = self.stack[-1]
            if type(a) is not int:
                r.ok = False
                return
            self.wrote(r, a, n)

    def wrote(self, r, a, n):
        oid = a >> 32
        if oid > r.start:
            return
        off = a & 0xffffffff
        for i in range(n):
            r.writes.add((oid, off + i))

    def selected(self, a):
        """a read-only object with what a symbolic pointer points to"""
        E = self.E
        cs = E.addr_cases(a)
        n = min(E.obj(x >> 32).size - (x & 0xffffffff) for _, x in cs)
        if n <= 0 or n > 4096 or len(cs) > 64:
            raise MemError('symbolic pointer')
        cov = 0
        for c, _ in cs:
            cov = T.mk_or(cov, 1 if c is None else c, 1)
        E.oblige(T.mk_not(cov, 1), 'symbolic pointer out of bounds')
        cell = lambda x: E.obj(x >> 32).cells[x & 0xffffffff:(x & 0xffffffff) + n]
        r = list(cell(cs[-1][1]))
        for c, x in reversed(cs[:-1]):
            r = merge_words(c, list(cell(x)), r)
        p = E.alloc(r, 'selected', True)
        if n % 40 == 0:
            o = E.obj(p >> 32)
            for i in range(0, n, 40):
                self.ten(o, i)
        return p

    def memcpy(self, d, s, n):
        n = self.E.concrete(n)
        if type(s) is T.T and n:
            s = self.selected(s)
        if n and self.stack:
            r = self.stack[-1]
            d = self.E.concrete(d)
            s = self.E.concrete(s)
            if r.ok and s >> 32 <= r.start and s >> 32 >= 1 << 16:
                o = self.E.obj(s >> 32)
                i = s & 0xffffffff
                e = i + n
                while i < e and r.ok:
                    c = o.cells[i]
                    if type(c) is tuple:
                        if c[1] == 0 and i + c[2] <= e and o.cells[i:i + c[2]] == c[0].z and c[2] * 8 == c[0].w:
                            self.note(r, (s >> 32 << 32) + i, c[2], c[0])
                            i += c[2]
                            continue
                        r.ok = False
                    elif type(c) is int:
                        k = 1
                        while k < 8 and i + k < e and type(o.cells[i + k]) is int:
                            k += 1
                        if k == 8 and (i % 8) == 0:
                            self.note(r, (s >> 32 << 32) + i, 8, int.from_bytes(bytes(o.cells[i:i + 8]), 'little'))
                            i += 8
                        else:
                            k = min(k, 4) if i % 4 == 0 else 1
                            self.note(r, (s >> 32 << 32) + i, k, int.from_bytes(bytes(o.cells[i:i + k]), 'little'))
                            i += k
                    elif c is None:
                        r.ok = False
                        r.why = 'copies undefined bytes'
                    else:
                        self.note(r, (s >> 32 << 32) + i, 1, c)
                        i += 1
        self.base_memcpy(d, s, n)
        if n and self.stack:
            self.wrote(self.stack[-1], d, n)

    def memset(self, d, v, n):
        self.base_memset(d, v, n)
        n = self.E.concrete(n)
        if n and self.stack:
            self.wrote(self.stack[-1], self.E.concrete(d), n)

    # ------------------------------------------------------------ calls
    def __call__(self, E, fn, args):
        self.stats['calls'] += 1
        if any(type(a) is T.T and a.w == 64 and fn.rt[1 + i] is not None and fn.rt[1 + i][0] == 'p' for i, a in enumerate(args)):
            args = tuple(self.selected(a) if type(a) is T.T and fn.rt[1 + i][0] == 'p' else a for i, a in enumerate(args))
        for k, f in self.stubs.items():
            if k in fn.name:
                if self.stack:
                    self.stack[-1].ok = False
                    self.stack[-1].why = 'replaced'
                return (f(E, self, args),)
        memoable = self.plain.get(fn.name, 0) < 6 and any(type(a) is int and a >> 32 >= (1 << 16) for a in args) and all(type(a) is int for a in args)
        if memoable:
            for rec in self.memo.get(fn.name, ()):
                m = self.match(rec, args)
                if m is not None:
                    self.apply(rec, m)
                    E.funcs[fn.name] = E.funcs.get(fn.name, 0) + 1
                    self.stats['hits'] += 1
                    if self.stack:
                        r = self.stack[-1]
                        r.ok = False
                        r.why = 'calls an abstracted function'
                        r.nabs += 1
                    return (rec['ret'],)
        r = Rec()
        r.ok = all(type(a) is int for a in args)
        r.start = E.nobj
        r.roots = []
        r.rootno = {}
        r.reads = []
        r.writes = set()
        r.seen = set()
        r.why = ''
        r.nabs = 0
        if r.ok:
            for a in args:
                self.addroot(r, a)
        self.stack.append(r)
        n = len(self.stack)
        pc0, ob0 = len(E.pc), len(E.obligations)
        try:
            ret = E.run(fn, args)
        finally:
            del self.stack[n - 1:]
        if self.stack:
            p = self.stack[-1]
            if p.ok and not r.ok:
                p.ok = False
                p.why = r.why
            if p.ok:
                for j, off, k, v in r.reads:
                    if p.ok:
                        self.note(p, r.roots[j] + off, k, v)
            for x in r.writes:
                if x[0] <= p.start:
                    p.writes.add(x)
        if not r.writes:
            return (ret,)
        try:
            out = self.outputs(r)
        except MemError:
            return (ret,)
        if out and self.stack:
            self.stack[-1].ok = False
            self.stack[-1].why = 'calls an abstracted function'
            self.stack[-1].nabs += 1
        if out and r.ok and memoable and type(ret) is not T.T and len(self.memo.get(fn.name, ())) < self.MAXREC:
            okob = True
            for pc, cond, info, where in E.obligations[ob0:]:
                st, env = self.P.prove_unsat(pc[pc0:] + [cond])
                if st != 'proved':
                    okob = False
            if okob:
                del E.obligations[ob0:]
                for c in E.pc[pc0:]:
                    E.facts.pop(c, None)
                del E.pc[pc0:]
                self.remember(fn, args, r, ret, out)
        elif memoable:
            self.plain[fn.name] = self.plain.get(fn.name, 0) + (0 if out else 1)
        return (ret,)

    # ------------------------------------------------------------ outputs
    def runs(self, writes):
        by = {}
        for oid, off in writes:
            by.setdefault(oid, []).append(off)
        for oid, offs in by.items():
            offs.sort()
            s = p = offs[0]
            for x in offs[1:] + [None]:
                if x is None or x != p + 1:
                    yield oid, s, p + 1
                    s = x
                p = x

    def word(self, cells, i):
        s = cells[i:i + 4]
        c = s[0]
        if type(c) is tuple and c[1] == 0 and c[2] == 4 and s == c[0].z and c[0].w == 32:
            return c[0]
        if any(x is None for x in s):
            return None
        if all(type(x) is int for x in s):
            return int.from_bytes(bytes(s), 'little')
        return T.concat([(cellbyte(x), 8) for x in s])

    def outputs(self, r):
        """abstract what was written; list of (oid, off, kind, data) for new values, [] if nothing was abstracted"""
        out = []
        for oid, s, e in self.runs(r.writes):
            o = self.E.objs[oid]
            if (e - s) % 40 == 0:
                for i in range(s, e, 40):
                    x = self.ten(o, i)
                    if x is not None:
                        out.append((oid, i, 'limbs', x))
            elif e - s == 32 or (e - s) % 64 == 0:
                for i in range(s, e, 32):
                    x = self.thirtytwo(o, i)
                    if x is not None:
                        out.append((oid, i, 'bytes', x))
        return out

    def ten(self, o, i):
        words = [self.word(o.cells, i + 4 * k) for k in range(10)]
        if any(w is None for w in words) or all(type(w) is int for w in words):
            return None
        if all(type(w) is int or islimb(w) for w in words):
            # limbs of one value and constants that are limbs of it
            n = set(w.a[1][1] for w in words if islimb(w))
            if len(n) == 1 and all(type(w) is int or w.a[1][2] == k for k, w in enumerate(words)):
                return None
        key = tuple(words)
        if key in self.bad:
            return None
        try:
            v, rs, rec = self.A.value(words)
        except (Fail, TooBig) as x:
            self.bad[key] = 1
            self.stats['failed'] += 1
            self.fails.append((str(x), self.E.where()))
            return None
        rs = [roundup(lo, hi) for lo, hi in rs]
        ls = new_limbs(v, rs)
        self.put(o, i, ls)
        self.stats['abstracted'] += 1
        return v, rs, rec

    def put(self, o, i, ls):
        c = []
        for l in ls:
            c += list(l.to_bytes(4, 'little')) if type(l) is int else cellsof(l)
        o.cells[i:i + 40] = c

    def thirtytwo(self, o, i):
        if any(c is None for c in o.cells[i:i + 32]) or all(type(c) is int for c in o.cells[i:i + 32]):
            return None
        bs = [cellbyte(c) for c in o.cells[i:i + 32]]
        ts = [b for b in bs if type(b) is T.T]
        limbs = any(haslimb(b) for b in ts)
        if not limbs and not any(hasmul(b) for b in ts):
            return None
        key = tuple(bs)
        if key in self.bad:
            return None
        try:
            if limbs:
                v, rec = self.A.encoding(bs)
            else:
                v, rec = self.A.scalar(bs), None
        except (Fail, TooBig) as x:
            self.bad[key] = 1
            self.stats['failed'] += 1
            self.fails.append((str(x), self.E.where()))
            return None
        o.cells[i:i + 32] = to_bytes(v)
        self.stats['encodings' if limbs else 'scalars'] += 1
        return v, None, rec

    def merged(self, old, o):
        """a memory object after a merge of two paths"""
        n = len(o.cells)
        i = 0
        bases = []
        while i + 4 <= n:
            c = o.cells[i]
            if type(c) is tuple and c[1] == 0 and c[2] == 4 and c[0].op == 'ite' and c is not old[i]:
                for x in c[0].a[1:]:
                    if islimb(x):
                        b = i - 4 * x.a[1][2]
                        if b >= 0 and b + 40 <= n and b not in bases:
                            bases.append(b)
                        break
                i += 4
            else:
                i += 1
        for b in bases:
            self.ten(o, b)

    # ------------------------------------------------------------ memoised effects
    def remember(self, fn, args, r, ret, out):
        ser = {}
        for j, off, n, v in r.reads:
            if islimb(v):
                ser.setdefault(v.a[1][1], v.a[1][0])
        idx = {n: k for k, n in enumerate(ser)}
        hull = {}
        for j, off, n, v in r.reads:
            h = hull.setdefault(j, [off, off + n])
            h[0], h[1] = min(h[0], off), max(h[1], off + n)
        for oid, s, e in self.runs(r.writes):
            j = self.rootof(r, (oid << 32) + s)
            if j is None:
                return
            off = (oid << 32) + s - r.roots[j]
            h = hull.setdefault(j, [off, off + e - s])
            h[0], h[1] = min(h[0], off), max(h[1], off + e - s)
        if not disjoint([(r.roots[j] + h[0], r.roots[j] + h[1]) for j, h in hull.items()]):
            return
        effects = []
        done = set()
        for oid, i, kind, x in out:
            j = self.rootof(r, (oid << 32) + i)
            off = (oid << 32) + i - r.roots[j]
            if x[2] is None or any(n not in idx for c, l in x[2] for n in l):
                return
            rec = [(c, [idx[n] for n in l]) for c, l in x[2]]
            effects.append((j, off, kind, rec, x[1]))
            done.update((oid, i + k) for k in range(40 if kind == 'limbs' else 32))
        for oid, s, e in self.runs([w for w in r.writes if w not in done]):
            o = self.E.objs[oid]
            i = s
            while i < e:
                c = o.cells[i]
                j = self.rootof(r, (oid << 32) + i)
                off = (oid << 32) + i - r.roots[j]
                if type(c) is int:
                    effects.append((j, off, 'int', c, None))
                    i += 1
                elif type(c) is tuple and islimb(c[0]) and c[1] == 0 and c[0].a[1][1] in idx and o.cells[i:i + 4] == c[0].z:
                    effects.append((j, off, 'copy', (idx[c[0].a[1][1]],) + tuple(c[0].a[1][2:]), None))
                    i += 4
                else:
                    return
        shape = tuple(('p', r.rootno[a]) if a in r.rootno else ('i', a) for a in args)
        self.memo.setdefault(fn.name, []).append({'shape': shape, 'reads': list(r.reads), 'roots': list(r.roots), 'rootno': dict(r.rootno),
                                                  'hull': hull, 'effects': effects, 'ret': ret, 'nser': len(ser)})

    def build(self, rec, vals):
        r = 0
        for c, l in rec:
            v = c
            for k in l:
                v = mul(v, vals[k])
            r = add(r, v)
        return r

    def match(self, rec, args):
        E = self.E
        base = {}
        used = {}
        for a, (k, x) in zip(args, rec['shape']):
            if k == 'i':
                if a != x:
                    return None
            elif not self.bind(base, used, x, a):
                return None
        ser = {}
        inv = {}
        vals = {}
        for j, off, n, v in rec['reads']:
            b = base.get(j)
            if b is None:
                return None
            a = b + off
            o = E.objs.get(a >> 32)
            if o is None:
                return None
            i = a & 0xffffffff
            s = o.cells[i:i + n]
            if type(v) is int:
                for c in s:
                    if type(c) is not int:
                        return None
                if len(s) != n:
                    return None
                x = int.from_bytes(bytes(s), 'little')
                if v in rec['rootno'] and n == 8:
                    if not self.bind(base, used, rec['rootno'][v], x):
                        return None
                elif x != v:
                    return None
            else:
                if not s:
                    return None
                c = s[0]
                if type(c) is not tuple or c[1] or not islimb(c[0]) or s != c[0].z:
                    return None
                p, q = v.a[1], c[0].a[1]
                if p[2:] != q[2:]:
                    return None
                y = ser.get(p[1])
                if y is None:
                    if q[1] in inv:
                        return None
                    ser[p[1]] = q[1]
                    inv[q[1]] = p[1]
                    vals[len(vals)] = q[0]
                elif y != q[1]:
                    return None
        if len(base) != len(rec['roots']):
            return None
        if not disjoint([(base[j] + h[0], base[j] + h[1]) for j, h in rec['hull'].items()]):
            return None
        return base, vals, list(ser.values())

    def bind(self, base, used, k, a):
        if a >> 32 < (1 << 16) or a >> 32 not in self.E.objs:
            return False
        if k in base:
            return base[k] == a
        if a in used:
            return False
        base[k] = a
        used[a] = k
        return True

    def apply(self, rec, m):
        base, vals, sers = m
        E = self.E
        for j, off, kind, x, rs in rec['effects']:
            a = base[j] + off
            o = E.writable(a)
            i = a & 0xffffffff
            if kind == 'limbs':
                v = self.build(x, vals)
                ls = new_limbs(v, rs)
                self.put(o, i, ls)
                n = 40
            elif kind == 'bytes':
                o.cells[i:i + 32] = to_bytes(self.build(x, vals))
                n = 32
            elif kind == 'int':
                o.cells[i] = x
                n = 1
            else:
                t = T.uf('LIMB', (vals[x[0]], sers[x[0]]) + x[1:], 32)
                o.cells[i:i + 4] = cellsof(t)
                n = 4
            if self.stack:
                self.wrote(self.stack[-1], a, n)


def disjoint(hs):
    hs = sorted(hs)
    return all(hs[i][1] <= hs[i + 1][0] for i in range(len(hs) - 1))


class PolyEq:
    """equality of two residues whose normal forms differ: their difference is expanded until it vanishes"""

    def __init__(self, prover, ring=FE):
        self.P = prover
        self.ring = ring

    def __call__(self, a, b):
        pd, fold, P, name = self.ring.pd, self.ring.fold, self.ring.p, self.ring.name
        d = fold(pd(a), pd(b), -1)
        for _ in range(400):
            if not d:
                return True
            fs = [(t, e) for m in d for t, e in m if t.op == 'uf' and t.a[0] == name]
            if not fs:
                return False
            t = max((x for x, _ in fs), key=lambda x: x.id)
            if max(e for x, e in fs if x is t) > 4:
                return False
            q = pd(t)
            r = {}
            for m, c in d.items():
                k = 0
                rest = []
                for x, e in m:
                    if x is t:
                        k = e
                    else:
                        rest.append((x, e))
                ms = {tuple(rest): c}
                for _ in range(k):
                    n = {}
                    for x, y in ms.items():
                        for u, v in q.items():
                            w = mono_mul(x, u)
                            n[w] = (n.get(w, 0) + y * v) % P
                    ms = n
                r = fold(r, ms)
                if len(r) > 3000:
                    return False
            d = r
        return False
