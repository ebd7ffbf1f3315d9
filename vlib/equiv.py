"""Deciding equality and unreachability of terms with z3.

prove_eq uses SAT sweeping: nodes of the two sides that agree on random vectors are candidates;
each candidate is decided by z3 over a cut (the cut's leaves become unconstrained variables, which
can only make the query harder), innermost first, so that a long computation is decided step by
step.  A "sat" answer over a cut proves nothing and is refined; only a model of the complete,
uncut formula is a counterexample, and it is replayed by the caller."""
import heapq
import random
import time
import z3
from . import terms as T
from .engine import add_ranges
from .prog import stub_uf


# opaque functions of which only the range is known to the solver
OPAQUE = {'LIMB', 'FPOLY', 'SPOLY'}


NOSIG = 'nosig'


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.cached = 0
        self.solver_s = 0.0
        self.merged = 0
        self.nodes = 0
        self.normal = 0

    def add(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + (o[k] if type(o) is dict else getattr(o, k)))


def rand_value(rnd, t):
    w = t.w
    if t.sr is not None and t.sr[0] < 0:
        lo, hi = t.sr
    elif t.ur is not None:
        lo, hi = t.ur
    else:
        lo, hi = 0, (1 << w) - 1
    k = rnd.randrange(8)
    if k == 0:
        v = rnd.choice((lo, hi))
    else:
        v = rnd.randint(lo, hi)
    return v & ((1 << w) - 1)


class Prover:
    def __init__(self, assumptions=(), seed=1, sampler=None, nsim=12, timeout=20.0, uf=stub_uf):
        self.assumptions = [a for a in assumptions if type(a) is T.T]
        self.rnd = random.Random(seed)
        self.sampler = sampler
        self.nsim = nsim
        self.timeout = timeout
        self.uf = uf
        self.st = Stats()
        self.cache = {}
        self.plugins = {}
        self.model = None
        self.log = None

    # ------------------------------------------------------------ simulation
    def suspects(self, vs):
        for p in self.plugins.values():
            if hasattr(p, 'suspects'):
                yield from p.suspects(vs)

    def sample(self, vs):
        env = {}
        mode = self.rnd.randrange(6)
        for v in vs:
            if mode == 0:
                x = self.rnd.choice((0, (1 << v.w) - 1))
                if v.ur is not None and not v.ur[0] <= x <= v.ur[1]:
                    x = rand_value(self.rnd, v)
            elif mode == 1 and v.w <= 64 and v.ur is None and v.sr is None:
                x = (1 << self.rnd.randrange(v.w))
            else:
                x = rand_value(self.rnd, v)
            env[v] = x
        if self.sampler is not None:
            self.sampler(env, self.rnd)
        return env

    def holds(self, conds, env, V=None):
        V = T.evaluate(conds, env, self.uf)
        return all(T.val(c, V) for c in conds)

    # ------------------------------------------------------------ queries
    def check(self, es, timeout, ranges=None):
        """es: list of z3 boolean expressions"""
        t0 = time.time()
        s = z3.SolverFor('QF_AUFBV') if False else z3.Solver()
        s.set('timeout', int(timeout * 1000))
        s.add(*es)
        r = s.check()
        self.st.queries += 1
        self.st.solver_s += time.time() - t0
        if r == z3.unsat:
            self.st.unsat += 1
            return 'unsat', None
        if r == z3.sat:
            self.st.sat += 1
            return 'sat', s.model()
        self.st.unknown += 1
        return 'unknown', None

    def cone(self, a, b, limit, expand):
        """descend from a and b; leaves = nodes reached from both sides (not in `expand`),
        variables.  Returns (nodes in id order, leaves)"""
        marks = {}
        hp = []
        for x, m in ((a, 1), (b, 2)):
            if type(x) is T.T:
                if x in marks:
                    marks[x] |= m
                else:
                    marks[x] = m
                    heapq.heappush(hp, -x.id)
        byid = {x.id: x for x in marks}
        leaves = []
        nodes = []
        while hp:
            t = byid[-heapq.heappop(hp)]
            m = marks[t]
            if t.op == 'var' or (m == 3 and t not in expand) or len(nodes) >= limit or t.op == 'uf' and (
                    t.a[0] in OPAQUE or t.a[0] == 'BOX' and t not in expand):
                leaves.append(t)
                continue
            nodes.append(t)
            for c in T.children(t):
                k = marks.get(c)
                if k is None:
                    marks[c] = m
                    byid[c.id] = c
                    heapq.heappush(hp, -c.id)
                else:
                    marks[c] = k | m
        nodes.reverse()
        return nodes, leaves

    def canon(self, a, b, nodes, leaves):
        num = {}
        key = []
        ls = set(leaves)

        def ref(x):
            if type(x) is int:
                return ('c', x)
            return num[x]

        # number by traversal order of a then b (dfs), so that isomorphic queries get equal keys
        def visit(r):
            if type(r) is int:
                return
            st = [(r, False)]
            while st:
                t, done = st.pop()
                if t in num:
                    continue
                if t in ls:
                    num[t] = len(num)
                    key.append(('L', t.w, T.urange(t), T.srange(t)))
                    continue
                if done:
                    if t.op == 'uf':
                        aa = (t.a[0],) + tuple(ref(x) for x in t.a[1])
                    elif t.op == 'concat':
                        aa = tuple((ref(p), w) for p, w in t.a)
                    elif t.op == 'extract':
                        aa = (ref(t.a[0]), t.a[1], t.a[2])
                    elif t.op in ('ult', 'slt'):
                        aa = (ref(t.a[0]), ref(t.a[1]), t.a[2])
                    else:
                        aa = tuple(ref(x) for x in t.a)
                        if t.op in ('xor', 'and', 'or', 'add', 'mul', 'eq'):
                            aa = tuple(sorted(aa, key=str))
                    num[t] = len(num)
                    key.append((t.op, t.w, aa))
                else:
                    st.append((t, True))
                    for c in reversed(list(T.children(t))):
                        if c not in num:
                            st.append((c, False))
        visit(a)
        visit(b)
        for x, y, _ in self.negated(leaves):
            if x in num and y in num:
                key.append(('N', num[x], num[y]))
        for x, y in self.divides(leaves):
            if x in num and y in num:
                key.append(('D', num[x], num[y]))
        key.append((ref(a), ref(b)))
        return tuple(key)

    def negated(self, leaves):
        """pairs of polynomials whose sum is zero"""
        seen = {}
        out = []
        for t in leaves:
            if t.w != 256:
                continue
            r = T.RINGS.get(t.a[0]) if t.op == 'uf' else None
            if r is not None:
                d = r.pd(t)
                n = (r.name, frozenset((m, r.p - c) for m, c in d.items()))
                if n in seen:
                    out.append((seen[n], t, r.p))
                seen[r.name, frozenset(d.items())] = t
            else:
                for r in T.RINGS.values():
                    n = (r.name, frozenset([(((t, 1),), r.p - 1)]))
                    if n in seen:
                        out.append((seen[n], t, r.p))
                    seen[r.name, frozenset([(((t, 1),), 1)])] = t
        return out

    def divides(self, leaves):
        """pairs of products, the second a multiple of the first"""
        ms = []
        for t in leaves:
            r = T.RINGS.get(t.a[0]) if t.op == 'uf' and t.w == 256 else None
            if r is not None:
                d = r.pd(t)
                if len(d) == 1:
                    m, = d
                    ms.append((r, dict(m), t))
        if len(ms) < 2:
            return []
        return [(x, y) for r, a, x in ms for q, b, y in ms if x is not y and r is q and all(b.get(t, 0) >= e for t, e in a.items())]

    def leaf_constraints(self, lm):
        cs = []
        for x, y in self.divides(lm):
            cs.append(z3.Implies(lm[x] == 0, lm[y] == 0))
        for x, y, p in self.negated(lm):
            cs.append(lm[y] == z3.If(lm[x] == 0, lm[x], p - lm[x]))
        for t, e in lm.items():
            w = t.w
            lo, hi = T.urange(t)
            if (lo, hi) != (0, (1 << w) - 1):
                cs.append(z3.UGE(e, lo))
                cs.append(z3.ULE(e, hi))
            else:
                lo, hi = T.srange(t)
                if (lo, hi) != (-(1 << (w - 1)), (1 << (w - 1)) - 1):
                    cs.append(e >= lo)
                    cs.append(e <= hi)
        return cs

    def local_eq(self, a, b, w, timeout, rounds=3, limit=4000):
        """True if a == b is proved over some cut"""
        if type(b) is T.T and b.op == 'uf' and b.a[0] in self.plugins and type(a) is T.T:
            k = (a, b)
            if k not in self.cache:
                self.cache[k] = self.plugins[b.a[0]](a, b)
            return self.cache[k]
        expand = set()
        used = boxes = 0
        for r in range(rounds + 6):
            nodes, leaves = self.cone(a, b, limit, expand)
            if len(nodes) >= limit:
                return False
            key = self.canon(a, b, nodes, leaves) if len(nodes) < 1500 else None
            if key is not None and key in self.cache:
                if self.cache[key]:
                    self.st.cached += 1
                    return True
            else:
                lm = {t: z3.BitVec('l%d' % t.id, t.w) for t in leaves}
                (ea, eb), _ = T.to_z3([a, b], lm)
                if type(ea) is int:
                    ea = z3.BitVecVal(ea, w)
                if type(eb) is int:
                    eb = z3.BitVecVal(eb, w)
                res, _ = self.check(self.leaf_constraints(lm) + [ea != eb], timeout)
                if key is not None:
                    self.cache[key] = res == 'unsat'
                if res == 'unsat':
                    return True
                if res == 'unknown':
                    return False
            new = [t for t in leaves if t.op != 'var' and not (t.op == 'uf' and t.a[0] in OPAQUE)]
            if not new or len(nodes) >= limit:
                return False
            # marked points last, the latest first
            other = [t for t in new if not (t.op == 'uf' and t.a[0] == 'BOX')]
            if other:
                used += 1
                if used >= rounds and len(nodes) > 150 or used >= rounds + 4:
                    return False
            boxes += not other
            if len(nodes) < 150:
                # selections are expanded down to their marked points
                st = [t for t in other if t.w == 256]
                while st and len(expand) < 400:
                    t = st.pop()
                    for c in T.children(t):
                        if c.op != 'var' and c.op != 'uf' and c not in expand:
                            expand.add(c)
                            st.append(c)
            expand.update(other or (new if boxes > 2 else [max(new, key=lambda t: t.id)]))
        return False

    def full(self, conds, timeout):
        """satisfiability of the conjunction of 1-bit terms, uncut.  Returns
        ('unsat'|'sat'|'unknown', env)"""
        es, vs = T.to_z3(conds)
        cs = []
        for e in es:
            if type(e) is int:
                if not e:
                    return 'unsat', None
            else:
                cs.append(e == 1)

        class A:
            def add(self, *x):
                cs.extend(x)
        add_ranges(A(), vs)
        r, m = self.check(cs, timeout)
        if r != 'sat':
            return r, None
        env = {}
        for t, e in vs.items():
            v = m.eval(e, model_completion=True)
            env[t] = v.as_long()
        return r, env

    # ------------------------------------------------------------ top level
    def prove_unsat(self, conds, timeout=None):
        """conds: 1-bit terms.  ('proved',None) | ('cex',env) | ('unknown',None)"""
        conds = [c for c in conds if not (type(c) is int and c)]
        if any(type(c) is int for c in conds):
            return 'proved', None
        conds = self.assumptions + conds
        key = tuple(conds)
        if self.cache.get(key):
            self.st.cached += 1
            return 'proved', None
        # shallow cut first
        for limit in (8, 60, 400):
            nodes, leaves = [], []
            seen = set()
            hp = [-c.id for c in conds]
            byid = {c.id: c for c in conds}
            heapq.heapify(hp)
            seen.update(conds)
            while hp:
                t = byid[-heapq.heappop(hp)]
                if t.op == 'var' or len(nodes) >= limit and t not in conds or t.op == 'uf' and t.a[0] in OPAQUE:
                    leaves.append(t)
                    continue
                nodes.append(t)
                for c in T.children(t):
                    if c not in seen:
                        seen.add(c)
                        byid[c.id] = c
                        heapq.heappush(hp, -c.id)
            lm = {t: z3.BitVec('l%d' % t.id, t.w) for t in leaves}
            es, _ = T.to_z3(conds, lm)
            r, _ = self.check(self.leaf_constraints(lm) + [e == 1 for e in es], 5)
            if r == 'unsat':
                self.cache[key] = True
                return 'proved', None
            if all(t.op == 'var' for t in leaves):
                break
        r, env = self.full(conds, timeout or self.timeout)
        if r == 'unsat':
            self.cache[key] = True
            return 'proved', None
        if r == 'sat':
            return 'cex', env
        return 'unknown', None

    def prove_eq(self, pairs, timeout=None, minw=2, split=True):
        """pairs: list of (impl, spec, width).  Assumptions are used only in the final queries and
        by the sampler.  ('proved',None) | ('cex',env) | ('unknown', list of undecided pairs)"""
        timeout = timeout or self.timeout
        todo = []
        same = []
        for a, b, w in pairs:
            if a is b or (type(a) is int and type(b) is int and a == b):
                same.append((a, b, w))
                continue
            if w <= 8 and w > 1 and split:
                for i in range(w):
                    x, y = T.extract(a, i, i), T.extract(b, i, i)
                    if x is y or (type(x) is int and type(y) is int and x == y):
                        same.append((x, y, 1))
                    else:
                        todo.append((x, y, 1))
                continue
            todo.append((a, b, w))
        if todo and len(todo) > 64 and any(p[2] == 1 for p in todo):
            # mostly different: keep words whole
            todo = [p for p in pairs if p[0] is not p[1]]
            same = [p for p in same if p[0] is p[1]]
        self.confirm(same)
        if not todo:
            return 'proved', None
        impl = T.topo([a for a, _, _ in todo])
        spec = T.topo([b for _, b, _ in todo])
        allr = [x for p in todo for x in p[:2]] + self.assumptions
        order = T.topo(allr)
        self.st.nodes += len(order)
        vs = [t for t in order if t.op == 'var']
        sims = []
        nsim = self.nsim
        for k in range(nsim):
            env = self.sample(vs)
            V = T.evaluate(None, env, self.uf, order)
            if all(T.val(c, V) for c in self.assumptions):
                for a, b, w in todo:
                    if T.val(a, V) != T.val(b, V):
                        return 'cex', env
            sims.append(V)
        sig = {}
        inspec = set(spec)
        for t in spec:
            if t.w >= minw and t.op != 'var':
                s = (t.w,) + tuple(V[t] for V in sims)
                if s not in sig:
                    sig[s] = t
        M = {}
        lt = min(5.0, timeout)
        failed = 0
        for t in impl:
            if t in inspec:
                M[t] = t
                continue
            ch = T.children(t)
            n = t if all(M[c] is c for c in ch) else T.rebuild(t, lambda x: x if type(x) is int else M[x])
            if type(n) is T.T and n not in inspec and t.w >= minw:
                s = sig.get((t.w,) + tuple(V[t] for V in sims))
                if s is not None and s is not n and failed < 200:
                    if self.local_eq(n, s, t.w, lt):
                        self.st.merged += 1
                        n = s
                    else:
                        failed += 1
            M[t] = n
        bad = []
        same = []
        for a, b, w in todo:
            aa = a if type(a) is int else M[a]
            if aa is b or (type(aa) is int and type(b) is int and aa == b):
                same.append((aa, b, w))
                continue
            if type(aa) is T.T and (type(b) is T.T or w == 1) and self.local_eq(aa, b, w, timeout, rounds=4, limit=20000 if type(b) is T.T else 4000):
                continue
            ne = T.mk_not(T.mk_eq(aa, b, w), 1)
            r, env = self.full(self.assumptions + [ne], timeout)
            if r == 'unsat':
                continue
            if r == 'sat':
                # complete the model and confirm it on the original terms
                e2 = {v: env.get(v, 0) for v in vs}
                V = T.evaluate([a, b] + self.assumptions, e2, self.uf)
                if T.val(a, V) != T.val(b, V) and all(T.val(c, V) for c in self.assumptions):
                    return 'cex', e2
                bad.append((a, b, w))
                continue
            bad.append((a, b, w))
        if bad:
            return 'unknown', bad
        return 'proved', None

    def confirm(self, same):
        """pairs whose sides have one normal form: the disjunction of their disequalities is put to
        the solver (over a cut when the cone is large)"""
        if not same:
            return
        self.st.normal += len(same)
        es = []
        roots = [x for p in same for x in p[:2] if type(x) is T.T]
        order = T.topo(roots)
        lm = {}
        if len(order) > 300:
            keep = set(roots) | set(order[-300:])
            lm = {t: z3.BitVec('l%d' % t.id, t.w) for t in order if t not in keep}
        for a, b, w in same:
            (x, y), _ = T.to_z3([a, b], lm)
            if type(x) is int and type(y) is int:
                x = z3.BitVecVal(x, w)
            es.append(x != y)
        r, _ = self.check([z3.Or(es)], self.timeout)
        if r != 'unsat':
            raise AssertionError('normal form not confirmed')


class Online:
    """SAT sweeping while the implementation is being executed: each new term whose values on NS
    random vectors are those of a node of the specification is, if z3 proves them equal over a cut,
    replaced by that node.  Keeps the implementation's terms small and aligned with the
    specification, whatever its function boundaries are."""
    NS = 64

    def __init__(self, prover, roots, extra_vars=()):
        self.P = prover
        self.order = T.topo([r for r in roots if type(r) is T.T])
        self.env = {}
        self.failed = 0
        self.busy = False
        self.full = (1 << self.NS) - 1
        # single bits of outputs of defined functions are candidates too
        us = [t for t in self.order if t.op == 'uf' and t.a[0] in T.UFDEF]
        us += [x for t in us for x in t.a[1] if type(x) is T.T and x.op != 'concat']
        bits = [T.mk('extract', 1, (t, i, i)) for t in us if 1 < t.w < 256 for i in range(t.w)]
        self.order = T.topo(self.order + [b for b in bits if type(b) is T.T])
        vs = [t for t in self.order if t.op == 'var']
        seen = set(vs)
        vs += [v for v in extra_vars if v not in seen]
        envs = [prover.sample(vs) for _ in range(self.NS)]
        for v in vs:
            if v.x is None:
                self.setvals(v, [e[v] for e in envs])
        self.table = {}
        self.spec = set()
        for t in self.order:
            self.sig(t)
            self.spec.add(t)
            if t.op != 'var':
                k = (t.w, t.x)
                b = t.a[0] if t.op == 'extract' and t.w == 1 else t
                if b.op == 'uf' and b.a[0] == 'BOX':
                    self.table[k] = t
                elif t.w == 256 and t.op == 'ite':
                    # selections may agree on the samples without being equal: the outermost first
                    o = self.table.get(k, [])
                    self.table[k] = [t] + (o if type(o) is list else [o])
                else:
                    o = self.table.setdefault(k, t)
                    if type(o) is list:
                        o.append(t)
        # constants are not candidates: a 1-bit node that is constant on all vectors is usually just rare
        self.table.pop((1, 0), None)
        self.table.pop((1, self.full), None)
        for k in [k for k in self.table if k[0] == 256 and len(set(k[1])) == 1]:
            del self.table[k]

    def setvals(self, t, vals):
        if t.w == 1:
            x = 0
            for k, v in enumerate(vals):
                x |= v << k
            t.x = x
        else:
            t.x = tuple(vals)

    def vals(self, x, w):
        if type(x) is int:
            return (x,) * self.NS
        if x.x is None:
            self.deep(x)
        if w == 1:
            return [(x.x >> k) & 1 for k in range(self.NS)]
        return x.x

    def deep(self, t):
        for c in T.topo([t]):
            if c.x is None:
                self.sig(c)

    def sig(self, t):
        if t.x is not None:
            return
        op, w, a = t.op, t.w, t.a
        for c in T.children(t):
            if c.x is None:
                self.deep(c)
        N = self.NS
        if w == 1 and op in ('xor', 'and', 'or', 'ite'):
            f = self.full
            v = [(f if x else 0) if type(x) is int else x.x for x in a]
            if op == 'xor':
                r = 0
                for x in v:
                    r ^= x
            elif op == 'and':
                r = f
                for x in v:
                    r &= x
            elif op == 'or':
                r = 0
                for x in v:
                    r |= x
            else:
                r = (v[0] & v[1]) | (~v[0] & v[2] & f)
            t.x = r
            return
        if op == 'var':
            self.setvals(t, [rand_value(self.P.rnd, t) for _ in range(N)])
            return
        m = (1 << w) - 1
        if op == 'extract':
            lo = a[2]
            if w == 1:
                r = 0
                for k, v in enumerate(a[0].x):
                    r |= ((v >> lo) & 1) << k
                t.x = r
            else:
                t.x = tuple([(v >> lo) & m for v in a[0].x])
            return
        if op == 'concat':
            acc = None
            pos = 0
            for p, pw in a:
                if type(p) is int:
                    s = p << pos
                    acc = [s] * N if acc is None else [x | s for x in acc]
                elif pw == 1:
                    b = p.x
                    if acc is None:
                        acc = [(b >> k) & 1 for k in range(N)]
                    else:
                        acc = [x | ((b >> k) & 1) << pos for k, x in enumerate(acc)]
                elif acc is None:
                    acc = p.x
                else:
                    acc = [x | (v << pos) for x, v in zip(acc, p.x)]
                pos += pw
            t.x = tuple(acc)
            return
        if op == 'xor' and w > 1:
            acc = self.vals(a[0], w)
            for y in a[1:]:
                acc = [u ^ v for u, v in zip(acc, self.vals(y, w))]
            t.x = tuple(acc)
            return
        if op == 'add' or op == 'sub':
            u, v = self.vals(a[0], w), self.vals(a[1], w)
            t.x = tuple([(p + q) & m for p, q in zip(u, v)] if op == 'add' else [(p - q) & m for p, q in zip(u, v)])
            return
        out = []
        ch = list(T.children(t))
        cv = [self.vals(c, c.w) for c in ch]
        for k in range(N):
            out.append(T.eval1(t, {c: v[k] for c, v in zip(ch, cv)}, self.P.uf))
        self.setvals(t, out)

    def __call__(self, t):
        if self.busy:
            return t
        # limbs are not functions of the inputs: nothing built on them is a candidate
        if t.op == 'uf':
            if t.a[0] == 'LIMB':
                t.x = NOSIG
                return t
        elif t.op != 'var':
            for c in T.children(t):
                if c.x is NOSIG:
                    t.x = NOSIG
                    return t
        self.sig(t)
        s = self.table.get((t.w, t.x))
        if s is not None and self.skip is not None and self.skip(t):
            return t
        if s is None or s is t or t.op == 'var' or self.failed > 400:
            return t
        if type(s) is list:
            if t in s:
                return t
            for x in s[:6]:
                self.busy = True
                ok = self.P.local_eq(t, x, t.w, 3.0, limit=700)
                self.busy = False
                if ok:
                    self.P.st.merged += 1
                    return x
            self.failed += 1
            return t
        if t.op == 'extract' and s.op == 'extract' and t.a[0] is s.a[0]:
            return t
        self.busy = True
        ok = False
        if s.op == 'uf' and s.a[0] == 'BOX' and t.w <= 8:
            b = s.a[1][0]
            bits = [(T.extract(t, i, i), T.extract(b, i, i), 1) for i in range(t.w)]
            if all(x is y or type(x) is int and type(y) is int and x == y for x, y, _ in bits):
                self.P.confirm(bits)
                ok = True
        ok = ok or self.P.local_eq(t, s, t.w, 3.0, limit=700)
        self.busy = False
        if ok:
            self.P.st.merged += 1
            return s
        self.failed += 1
        return t

    skip = None

    def __enter__(self):
        self.old = T.set_online(self)
        # a term that is already in the table as the argument of a BOX becomes the BOX
        self.saved = []
        for t in self.order:
            if t.op == 'uf' and t.a[0] == 'BOX':
                x = t.a[1][0]
                if type(x) is T.T and x.op != 'var':
                    k = (x.op, x.w, x.a)
                    if T._tab.get(k) is x:
                        self.saved.append((k, x))
                        T._tab[k] = t
        return self

    def __exit__(self, *a):
        T.set_online(self.old)
        for k, x in self.saved:
            T._tab[k] = x
