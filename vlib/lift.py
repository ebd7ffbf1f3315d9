"""Integer lifting: a w-bit term t is represented by a polynomial P over integer atoms and an interval
[lo,hi] with  t == P (mod 2^w)  and  P in [lo,hi]  over the integers.  Adding, subtracting and multiplying need
no side condition; slicing introduces floor atoms q_k(P) = floor(P / 2^k), which telescope in carry chains.
Polynomials are dicts {monomial: coefficient}; a monomial is a sorted tuple of atom numbers."""
from math import gcd
import z3
from . import terms as T

ONE = ()


def padd(a, b, k=1):
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def pmul(a, b, mod=None):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)) if m and n else (m or n)
            v = r.get(k, 0) + c * d
            r[k] = v
    if mod:
        return {m: c % mod for m, c in r.items() if c % mod}
    return {m: c for m, c in r.items() if c}


def pconst(c):
    return {ONE: c} if c else {}


def frozen(p):
    return frozenset(p.items())


class Atom:
    __slots__ = ('n', 'kind', 'data', 'lo', 'hi')


class TooBig(Exception):
    pass


class Lift:
    LIM = 6000

    def __init__(self, ranges=None):
        self.at = []
        self.key = {}
        self.memo = {}
        self.ranges = ranges or {}      # proved facts: term -> (lo, hi) unsigned

    # ------------------------------------------------------------ atoms
    def atom(self, key, kind, data, lo, hi):
        n = self.key.get(key)
        if n is None:
            a = Atom()
            a.n = n = len(self.at)
            a.kind, a.data, a.lo, a.hi = kind, data, lo, hi
            self.at.append(a)
            self.key[key] = n
        return n

    def bounds(self, p):
        lo = hi = 0
        for m, c in p.items():
            a = b = 1
            prev = None
            for x in m:
                y = self.at[x]
                v = (a * y.lo, a * y.hi, b * y.lo, b * y.hi)
                a, b = min(v), max(v)
            if len(m) == 2 and m[0] == m[1]:
                y = self.at[m[0]]
                b = max(y.lo * y.lo, y.hi * y.hi)
                a = 0 if y.lo <= 0 <= y.hi else min(y.lo * y.lo, y.hi * y.hi)
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        return lo, hi

    def floor(self, p, lo, hi, k):
        """polynomial and interval of floor(p / 2^k)"""
        if k == 0:
            return p, lo, hi
        m = 1 << k
        A = {}
        B = {}
        for x, c in p.items():
            if c % m == 0:
                A[x] = c >> k
            else:
                B[x] = c
        if len(B) == 1 and ONE in B:
            v = B[ONE] >> k
            A = padd(A, pconst(v))
            return A, lo >> k, hi >> k
        if not B:
            return A, lo >> k, hi >> k
        if A:
            bl, bh = self.bounds(B)
        else:
            bl, bh = lo, hi
        if bl >> k == bh >> k:
            return padd(A, pconst(bl >> k)), lo >> k, hi >> k
        if len(B) == 1:
            (x, c), = B.items()
            if c == 1 and len(x) == 1 and self.at[x[0]].kind == 'q':
                P0, k0, l0, h0 = self.at[x[0]].data
                q, a, b = self.floor(P0, l0, h0, k0 + k)
                return padd(A, q), lo >> k, hi >> k
        if bl >= -m and bh < m and bl < 0:
            # only the sign matters: the least power that decides it
            while k > 0 and bl >= -(m >> 1) and bh < m >> 1:
                k -= 1
                m >>= 1
            n = self.atom(('q', frozen(B), k), 'q', (B, k, bl, bh), -1, 0)
        else:
            n = self.atom(('q', frozen(B), k), 'q', (B, k, bl, bh), bl >> k, bh >> k)
        r = padd(A, {(n,): 1})
        if A:
            a, b = self.bounds(r)
        else:
            a, b = self.at[n].lo, self.at[n].hi
        return r, max(a, lo >> k), min(b, hi >> k)

    def unsigned(self, r, w):
        p, lo, hi = r
        if lo >= 0 and hi < 1 << w:
            return r
        q, a, b = self.floor(p, lo, hi, w)
        return padd(p, q, -(1 << w)), 0, (1 << w) - 1

    def signed(self, r, w):
        p, lo, hi = r
        h = 1 << (w - 1)
        if lo >= -h and hi < h:
            return r
        if lo >= h and hi < 2 * h:
            return padd(p, pconst(-2 * h)), lo - 2 * h, hi - 2 * h
        q, a, b = self.floor(padd(p, pconst(h)), lo + h, hi + h, w)
        return padd(p, q, -(1 << w)), -h, h - 1

    # ------------------------------------------------------------ terms
    def leaf(self, t, lo=None, hi=None):
        if lo is None:
            if t in self.ranges:
                lo, hi = self.ranges[t]
            else:
                lo, hi = T.urange(t)
                if t.op == 'var' and t.sr is not None and t.sr[0] < 0:
                    lo, hi = t.sr
        n = self.atom(('t', t), 't', t, lo, hi)
        return {(n,): 1}, lo, hi

    def get(self, x, w):
        if type(x) is int:
            return pconst(x), x, x
        r = self.memo.get(x)
        if r is None:
            self.run(x)
            r = self.memo[x]
        return r

    def run(self, root):
        st = [root]
        memo = self.memo
        while st:
            t = st[-1]
            if t in memo:
                st.pop()
                continue
            if t in self.ranges or t.op in ('var', 'uf', 'and', 'or', 'xor', 'eq', 'ult', 'slt', 'udiv', 'urem', 'sdiv', 'srem'):
                ch = ()
                if t.op in ('xor', 'and', 'or') and t not in self.ranges:
                    r = self.bitwise(t)
                    if r is not None:
                        memo[t] = r
                        st.pop()
                        continue
                memo[t] = self.leaf(t)
                st.pop()
                continue
            ch = [c for c in T.children(t) if c not in memo and not (t.op == 'ite' and c is t.a[0])]
            if ch:
                st.extend(ch)
                continue
            memo[t] = self.step(t)
            st.pop()

    def bitwise(self, t):
        return None

    def step(self, t):
        op, w, a = t.op, t.w, t.a
        if op in ('add', 'sub'):
            x, y = self.get(a[0], w), self.get(a[1], w)
            # constants: the representative nearest zero
            if type(a[1]) is int and a[1] >> (w - 1):
                y = (pconst(a[1] - (1 << w)), a[1] - (1 << w), a[1] - (1 << w))
            if type(a[0]) is int and a[0] >> (w - 1):
                x = (pconst(a[0] - (1 << w)), a[0] - (1 << w), a[0] - (1 << w))
            if op == 'add':
                r = padd(x[0], y[0]), x[1] + y[1], x[2] + y[2]
            else:
                r = padd(x[0], y[0], -1), x[1] - y[2], x[2] - y[1]
            return self.tight(t, r)
        if op == 'mul':
            x, y = self.get(a[0], w), self.get(a[1], w)
            if type(a[0]) is int and a[0] >> (w - 1):
                x = (pconst(a[0] - (1 << w)), a[0] - (1 << w), a[0] - (1 << w))
            if type(a[1]) is int and a[1] >> (w - 1):
                y = (pconst(a[1] - (1 << w)), a[1] - (1 << w), a[1] - (1 << w))
            if not self.isconst(x[0]) and not self.isconst(y[0]):
                x, y = self.small(x), self.small(y)
            v = (x[1] * y[1], x[1] * y[2], x[2] * y[1], x[2] * y[2])
            lo, hi = min(v), max(v)
            if a[0] is a[1] and lo < 0:
                lo = 0
            return self.tight(t, (pmul(x[0], y[0]), lo, hi))
        if op == 'concat':
            p, lo, hi = {}, 0, 0
            off = 0
            n = len(a)
            for i, (x, pw) in enumerate(a):
                r = self.get(x, pw)
                if i < n - 1:
                    r = self.unsigned(r, pw)
                elif type(x) is int and x >> (pw - 1):
                    x -= 1 << pw
                    r = (pconst(x), x, x)
                p = padd(p, r[0], 1 << off)
                lo += r[1] << off
                hi += r[2] << off
                off += pw
            return self.tight(t, (p, lo, hi))
        if op == 'extract':
            x = a[0]
            r = self.get(x, x.w)
            if x.op == 'ite':
                return self.leaf(t)
            r = self.floor(r[0], r[1], r[2], a[2])
            return self.tight(t, r)
        if op == 'sext':
            x = a[0]
            return self.tight(t, self.signed(self.get(x, x.w), x.w))
        if op == 'ite':
            x, y = self.get(a[1], w), self.get(a[2], w)
            n = self.leaf(a[0], 0, 1)[0]
            d = padd(x[0], y[0], -1)
            if len(d) <= 12:
                return self.tight(t, (padd(y[0], pmul(d, n)), min(x[1], y[1]), max(x[2], y[2])))
            return self.leaf(t)
        return self.leaf(t)

    def isconst(self, p):
        return not p or (len(p) == 1 and ONE in p)

    def small(self, r):
        """a factor of a product: many-term polynomials become one atom"""
        p, lo, hi = r
        if len(p) <= 2 and all(len(m) <= 1 for m in p):
            return r
        g = 0
        for c in p.values():
            g = gcd(g, c)
            if g == 1:
                break
        if g > 1:
            p = {m: c // g for m, c in p.items()}
        n = self.atom(('y', frozen(p)), 'y', p, -(-lo // g), hi // g)
        return {(n,): g}, lo, hi

    def tight(self, t, r):
        p, lo, hi = r
        if len(p) > self.LIM:
            raise TooBig()
        if len(p) <= 40:
            a, b = self.bounds(p)
            if a > lo:
                lo = a
            if b < hi:
                hi = b
        if lo >= 0 and hi < 1 << t.w:
            # the representative is the value itself: the rewriter's own interval applies too
            a, b = T.urange(t)
            if a > lo:
                lo = a
            if b < hi:
                hi = b
        return p, lo, hi


# ---------------------------------------------------------------- discharge
class LIA:
    """polynomial claims put to z3's linear integer arithmetic: monomials are integer unknowns; the
    defining bounds of floor atoms may be added"""

    def __init__(self, L, stats=None, timeout=20):
        self.L = L
        self.st = stats
        self.timeout = timeout
        self.v = {}

    def mono(self, m):
        if m == ONE:
            return z3.IntVal(1)
        e = self.v.get(m)
        if e is None:
            e = self.v[m] = z3.Int('m' + '_'.join(map(str, m)))
        return e

    def expr(self, p):
        if not p:
            return z3.IntVal(0)
        return z3.Sum([z3.IntVal(c) * self.mono(m) if m != ONE else z3.IntVal(c) for m, c in p.items()])

    def facts(self, roots, depth=40):
        """bounds of the atoms that occur and, recursively, the definitions of floor atoms"""
        cs = []
        seen = set()
        todo = [m for p in roots for m in p]
        while todo:
            m = todo.pop()
            if m == ONE or m in seen:
                continue
            seen.add(m)
            if len(m) == 1:
                a = self.L.at[m[0]]
                e = self.mono(m)
                cs += [e >= a.lo, e <= a.hi]
                if a.kind == 'q':
                    P, k, lo, hi = a.data
                    x = self.expr(P)
                    cs += [x - (e * (1 << k)) >= 0, x - (e * (1 << k)) < (1 << k)]
                    todo += list(P)
                elif a.kind == 'y':
                    cs.append(self.expr(a.data) == e)
                    todo += list(a.data)
            else:
                lo, hi = self.L.bounds({m: 1})
                cs += [self.mono(m) >= lo, self.mono(m) <= hi]
        return cs

    def valid(self, facts, claim):
        import time
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', int(self.timeout * 1000))
        s.add(*facts)
        s.add(z3.Not(claim))
        r = s.check()
        if self.st is not None:
            self.st.queries += 1
            self.st.solver_s += time.time() - t0
            if r == z3.unsat:
                self.st.unsat += 1
            elif r == z3.sat:
                self.st.sat += 1
            else:
                self.st.unknown += 1
        return r == z3.unsat

    def congruent(self, a, b, mod):
        """a == b (mod mod) for all values of the monomials"""
        d = padd(a, b, -1)
        if any(c % mod for c in d.values()):
            return False
        w = {m: c // mod for m, c in d.items()}
        return self.valid([], self.expr(a) - self.expr(b) == z3.IntVal(mod) * self.expr(w))
