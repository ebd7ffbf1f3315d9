"""Deciding that the implementation's Poly1305 tag bytes are those of RFC 8439.

The specification's tag byte is the opaque term POLY1305(i, key, message).  For an implementation term e
with the same values on random vectors:
 1. the cone of e is cut at slices of non-linear words (sums of products): leaves g_1..g_n;
 2. weights W_j with  sum W_j g_j == accumulator (mod p)  are found by linear algebra on sampled values and
    then proved for every value: each leaf is lifted to an integer polynomial (vlib.lift), carries telescope,
    the clamped key r is factored out and what is left is matched against the blocks, block by block;
 3. e over unconstrained leaves (within their proved ranges) == byte i of ((sum W_j g_j mod p) + s) mod 2^128
    is decided by z3 over bit-vectors."""
from . import terms as T
from . import spec
from .lift import Lift, LIA, padd, pscale, pmul, pconst, ONE, TooBig

P = (1 << 130) - 5
_cache = {}
T.UFEVAL["POLY1305"] = lambda a: concrete(a[1:])[a[0]]


def concrete(args):
    key = tuple(args)
    r = _cache.get(key)
    if r is None:
        if len(_cache) > 4000:
            _cache.clear()
        r = _cache[key] = spec.poly1305(args[:32], args[32:])
    return r


def tag_terms(key, msg):
    if all(type(x) is int for x in list(key) + list(msg)):
        return spec.poly1305(key, msg)
    return [T.uf('POLY1305', (i,) + tuple(key) + tuple(msg), 8) for i in range(16)]


def free(x):
    """the variable a message byte can be set with"""
    if x.op == 'var' and x.w == 8:
        return x
    if x.op == 'xor' and x.w == 8:
        for y in x.a:
            if type(y) is T.T and y.op == 'var' and y.w == 8:
                return y
    return None


def nonlinear(order):
    nl = set()
    for t in order:
        if t.op == 'mul' and type(t.a[0]) is T.T and type(t.a[1]) is T.T:
            nl.add(t)
        elif t.op == 'extract' or t.op == 'uf':
            continue
        elif any(c in nl for c in T.children(t)):
            nl.add(t)
    return nl


def cut(e, sbytes=()):
    """leaves: list of (base, lo, hi), or None"""
    order = T.topo([e])
    nl = nonlinear(order)
    if e in nl:
        return None
    used = {}
    seen = set([e])
    st = [e]
    while st:
        t = st.pop()
        if t.op == 'extract' and t.a[0] in nl:
            used.setdefault(t.a[0], set()).update(range(t.a[2], t.a[1] + 1))
            continue
        if t in nl:
            return None
        if t.op == 'extract' and t.a[0].op in ('uf', 'var'):
            if t.a[0] not in sbytes:
                used.setdefault(t.a[0], set()).update(range(t.a[2], t.a[1] + 1))
            continue
        if t.op in ('uf', 'var'):
            if t not in sbytes:
                used.setdefault(t, set()).update(range(t.w))
            continue
        for c in T.children(t):
            if c not in seen:
                seen.add(c)
                st.append(c)
    g = []
    for b in sorted(used, key=lambda t: t.id):
        bits = sorted(used[b])
        lo = prev = bits[0]
        for x in bits[1:] + [None]:
            if x is None or x != prev + 1:
                g.append((b, lo, prev))
                lo = x
            prev = x
    return g


def solve_mod(rows, rhs, p):
    """unique solution of rows * w = rhs mod p (columns that are zero everywhere get weight 0), or None"""
    n = len(rows[0])
    A = [r[:] + [v] for r, v in zip(rows, rhs)]
    piv = []
    r = 0
    for c in range(n):
        k = next((i for i in range(r, len(A)) if A[i][c] % p), None)
        if k is None:
            if any(row[c] for row in rows):
                return None
            continue
        A[r], A[k] = A[k], A[r]
        inv = pow(A[r][c], -1, p)
        A[r] = [x * inv % p for x in A[r]]
        for i in range(len(A)):
            if i != r and A[i][c]:
                f = A[i][c]
                A[i] = [(x - f * y) % p for x, y in zip(A[i], A[r])]
        piv.append(c)
        r += 1
    if any(row[n] % p for row in A[r:]):
        return None
    w = [0] * n
    for i, c in enumerate(piv):
        w[c] = A[i][n]
    return w


class PolyMac:
    def __init__(self, prover):
        self.P = prover
        self.weights = {}
        self.subs = {}
        self.L = Lift()
        self.log = []
        self.open = {}                  # (key, message) -> accumulator values at which e may differ

    def __call__(self, e, S):
        try:
            r = self.prove(e, S)
        except TooBig:
            r = False
        if not r:
            self.open.setdefault(S.a[1][1:], set())
        return r

    # ------------------------------------------------------------ concrete candidates
    def suspects(self, vs, n=60):
        """inputs that drive the accumulator to chosen values (inverting the polynomial): those of the
        solver's counterexamples first, then values with extreme limbs"""
        for km, found in list(self.open.items()):
            key, msg = km[:32], km[32:]
            order = T.topo([x for x in km if type(x) is T.T])
            nb = len(msg) // 16
            tries = [(v, nb - 1) for v in sorted(found)]
            for v in list(range(0, 8)) + [P - 1, P - 2, (1 << 128) - 1, 1 << 128, (1 << 129), P >> 1]:
                tries += [(v, j) for j in range(nb - 1, max(-1, nb - 4), -1)]
            for _ in range(n):
                v = int.from_bytes(bytes(self.P.rnd.choice((0, 255, 1, 128, self.P.rnd.randrange(256))) for _ in range(17)), 'little')
                tries.append((v % P, self.P.rnd.randrange(nb)))
            for v, j in tries:
                for _ in range(16):
                    env = self.steer(vs, key, msg, order, v, j)
                    if env is not None and self.P.holds(self.P.assumptions, env):
                        yield env
                        break

    def steer(self, vs, key, msg, order, v, j):
        env = self.P.sample(vs)
        V = T.evaluate(None, env, self.P.uf, order)
        r = int.from_bytes(bytes(T.val(x, V) for x in key[:16]), 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
        if r == 0:
            return None
        ri = pow(r, -1, P)
        while j >= 0:
            blk = msg[16 * j:16 * j + 16]
            v = v * ri % P
            if all(type(x) is T.T and free(x) for x in blk):
                break
            v = (v - int.from_bytes(bytes(T.val(x, V) for x in blk), 'little') - (1 << 128)) % P
            j -= 1
        else:
            return None
        acc = 0
        for i in range(j):
            acc = (acc + int.from_bytes(bytes(T.val(x, V) for x in msg[16 * i:16 * i + 16]) + b'\1', 'little')) * r % P
        m = (v - acc - (1 << 128)) % P
        if m >> 128:
            return None
        for x, b in zip(blk, m.to_bytes(16, 'little')):
            y = free(x)
            env[y] = env[y] ^ T.val(x, V) ^ b
        return env

    def prove(self, e, S):
        args = S.a[1]
        i, key, msg = args[0], args[1:33], args[33:]
        g = cut(e, set(x for x in key[16:] if type(x) is T.T))
        if not g:
            return False
        k = (tuple(g), args[1:])
        if k not in self.weights:
            self.weights[k] = self.find(g, S, key, msg)
        w = self.weights[k]
        if w is None:
            return False
        return self.final(e, i, g, w, key, msg)

    def value(self, b, lo, hi):
        L = self.L
        r = L.get(b, b.w)
        r = L.floor(r[0], r[1], r[2], lo)
        return L.unsigned(r, hi - lo + 1)

    def find(self, g, S, key, msg):
        n = len(g)
        bases = [b for b, _, _ in g]
        ks = [x for x in list(key) + list(msg) if type(x) is T.T]
        order = T.topo(bases + ks)
        vs = [t for t in order if t.op == 'var']
        rows, rhs = [], []
        for _ in range(n + 4):
            V = T.evaluate(None, self.P.sample(vs) if _ % 4 == 0 else {v: self.P.rnd.getrandbits(v.w) for v in vs}, self.P.uf, order)
            rows.append([(V[b] >> lo) & ((1 << (hi - lo + 1)) - 1) for b, lo, hi in g])
            acc = 0
            kk = bytes(T.val(x, V) for x in key)
            mm = bytes(T.val(x, V) for x in msg)
            r = int.from_bytes(kk[:16], 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
            for j in range(0, len(mm), 16):
                acc = (acc + int.from_bytes(mm[j:j + 16] + b'\1', 'little')) * r % P
            rhs.append(acc)
        w = solve_mod(rows, rhs, P)
        if w is None:
            return None
        return w if self.modular(g, w, key, msg) else None

    def modular(self, g, w, key, msg):
        L = self.L
        Z = LIA(L, self.P.st)
        # r as a linear form
        R = {}
        for j in range(16):
            x = key[j]
            if j % 4 == 3:
                x = (T.extract(x, 3, 0), 4, 0)
            elif j % 4 == 0 and j:
                x = (T.extract(x, 7, 2), 6, 2)
            else:
                x = (x, 8, 0)
            R = padd(R, L.unsigned(L.get(x[0], x[1]), x[1])[0], 1 << (8 * j + x[2]))
        if any(len(m) != 1 for m in R):
            return False
        katoms = set(m[0] for m in R)
        piv = max(R)[0]
        rho = pow(R[(piv,)], -1, P)
        E = {}
        for (b, lo, hi), c in zip(g, w):
            if c:
                E = padd(E, self.value(b, lo, hi)[0], c)
        E = {m: c % P for m, c in E.items() if c % P}
        n = len(msg) // 16
        for i in range(n + 1):
            # expand defined atoms
            for _ in range(200):
                ys = [m for m in E if len(m) == 1 and L.at[m[0]].kind == 'y']
                if not ys:
                    break
                F = {m: c for m, c in E.items() if m not in set(ys)}
                for m in ys:
                    for x, d in L.at[m[0]].data.items():
                        v = (F.get(x, 0) + E[m] * d) % P
                        if v:
                            F[x] = v
                        else:
                            F.pop(x, None)
                E = F
            base, nxt = {}, {}
            for m, c in E.items():
                if len(m) <= 1:
                    base[m] = c
                elif len(m) == 2 and piv in m:
                    x = m[0] if m[1] == piv else m[1]
                    nxt[(x,)] = (nxt.get((x,), 0) + c * rho) % P
                elif len(m) == 2 and (m[0] in katoms or m[1] in katoms):
                    pass
                else:
                    return False
            nxt = {m: c for m, c in nxt.items() if c}
            # products of the constant part of a factor with r
            lin = {m: c for m, c in base.items() if m != ONE and m[0] in katoms}
            if (piv,) in lin:
                c = lin[(piv,)] * rho % P
                nxt = padd(nxt, pconst(c))
                base = {m: (d - c * R.get(m, 0)) % P for m, d in {**{(a,): 0 for a in katoms}, **base}.items()}
                base = {m: d for m, d in base.items() if d}
            # E == base + r * nxt  (mod p)
            if not Z.congruent(E, padd(base, pmul(nxt, R)), P):
                return False
            want = {}
            if 1 <= i <= n:
                blk = msg[16 * (n - i):16 * (n - i) + 16]
                want = pconst(1 << 128)
                for j, x in enumerate(blk):
                    want = padd(want, L.unsigned(L.get(x, 8), 8)[0], 1 << (8 * j))
            if not Z.congruent(base, want, P):
                return False
            E = nxt
            if not E and i == n:
                return True
        return not E

    def final(self, e, i, g, w, key, msg):
        sub = {}
        vs = []
        tot = 0
        for n, (b, lo, hi) in enumerate(g):
            L = self.value(b, lo, hi)
            v = T.var('g%d' % n, hi - lo + 1, ur=(max(0, L[1]), min(L[2], (1 << (hi - lo + 1)) - 1)))
            v.ur = (max(0, L[1]), min(L[2], (1 << (hi - lo + 1)) - 1))
            vs.append((v, b, lo, hi))
            tot += w[n] * v.ur[1]
        order = T.topo([e])
        for v, b, lo, hi in vs:
            if b.w == v.w:
                sub[b] = v
        for t in order:
            if t.op == 'extract':
                for v, b, lo, hi in vs:
                    if t.a[0] is b and lo <= t.a[2] and t.a[1] <= hi:
                        sub[t] = T.extract(v, t.a[1] - lo, t.a[2] - lo)
                        break
        s = []
        for j in range(16):
            x = key[16 + j]
            if type(x) is T.T:
                v = T.var('s%d' % j, 8)
                sub[x] = v
                s.append(v)
            else:
                s.append(x)
        e2, = substitute_top(e, sub)
        rest = [t for t in T.topo([e2]) if t.op in ('var', 'uf') and t not in s and not any(t is v[0] for v in vs)]
        if rest:
            return False
        W = max(tot.bit_length(), 131) + 2
        a = 0
        for n, (v, b, lo, hi) in enumerate(vs):
            if w[n]:
                a = T.mk_add(a, T.mk_mul(T.zext(v, v.w, W), w[n], W), W)
        while tot >> 130 > 1:
            lo, hi = T.extract(a, 129, 0), T.extract(a, W - 1, 130)
            a = ripple(T.zext(lo, 130, W), T.mk_mul(T.zext(hi, W - 130, W), 5, W), W)
            tot = (1 << 130) - 1 + 5 * (tot >> 130)
        # a < 2^130 + p: subtract p once exactly when a + 5 reaches 2^130
        t = ripple(a, 5, W)
        c = T.mk_not(T.mk_eq(T.extract(t, W - 1, 130), 0, W - 130), 1)
        r = ripple(T.ite(c, T.extract(t, 127, 0), T.extract(a, 127, 0), 128), spec.le_word(s), 128)
        sp = T.extract(r, 8 * i + 7, 8 * i)
        key2 = (e2, sp)
        if key2 not in self.subs:
            from .equiv import Prover
            Q = Prover(seed=self.P.rnd.randrange(1 << 30), nsim=120, timeout=60, sampler=edges)
            Q.st = self.P.st
            Q.cache = self.P.cache
            st, env = Q.prove_eq([(e2, sp, 8)], minw=1, split=False)
            self.subs[key2] = st == 'proved'
            if st == 'cex':
                acc = sum(c * env.get(v, 0) for (v, _, _, _), c in zip(vs, w)) % P
                self.open.setdefault(key + msg, set()).add(acc)
        return self.subs[key2]


def edges(env, rnd):
    """long carry chains"""
    k = rnd.randrange(4)
    if k < 3:
        for v in env:
            if rnd.randrange(3):
                m = (1 << v.w) - 1
                x = rnd.choice(((0, m), (m, m - 1, m - 4, 0), (m,))[k])
                env[v] = x if v.ur is None or v.ur[0] <= x <= v.ur[1] else v.ur[1]


def ripple(a, b, w, n=8):
    """a + b with the carries between bytes explicit"""
    out = []
    c = 0
    for lo in range(0, w, n):
        k = min(n, w - lo)
        x, y = T.extract(a, lo + k - 1, lo), T.extract(b, lo + k - 1, lo)
        s = T.mk_add(T.mk_add(T.zext(x, k, k + 1), T.zext(y, k, k + 1), k + 1), T.zext(c, 1, k + 1), k + 1)
        out.append((T.extract(s, k - 1, 0), k))
        c = T.extract(s, k, k)
    return T.concat(out)


def substitute_top(e, sub):
    """substitute without descending below replaced nodes"""
    M = dict(sub)
    st = [e]
    while st:
        t = st[-1]
        if t in M:
            st.pop()
            continue
        ch = [c for c in T.children(t) if c not in M]
        if ch:
            st.extend(ch)
            continue
        M[t] = T.rebuild(t, lambda x: x if type(x) is int else M[x])
        st.pop()
    return [M[e]]


