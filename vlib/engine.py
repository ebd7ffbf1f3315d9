"""Symbolic executor over compiled LLVM IR.

Memory is a set of byte-addressed objects (address = object id << 32 | offset).  Branches on
symbolic conditions run both sides up to the immediate post-dominator and merge the states with
if-then-else terms; branches into code that can only panic are turned into obligations
(path condition & branch condition must be unsatisfiable)."""
import time
import z3
from . import terms as T
from .ir import Module
from .terms import ite, extract, concat, mk_and, mk_not, mk_or, mk_eq, mk_add, mk_sub, mk_ult


class PathDead(Exception):
    def __init__(self, info):
        self.info = info


class MemError(Exception):
    pass


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ('cells', 'size', 'name', 'ro')

    def __init__(self, cells, name, ro=False):
        self.cells = cells
        self.size = len(cells)
        self.name = name
        self.ro = ro


PANIC_WORDS = ('core9panicking', 'len_mismatch_fail', 'slice_index_fail', 'unwrap_failed', 'expect_failed',
               'slice_start_index', 'slice_end_index', 'panic_', '9panicking', 'handle_alloc_error', 'split_at')


def cellsof(t):
    """tuple cells of a multi-byte term"""
    z = t.z
    if z is None:
        n = (t.w + 7) // 8
        z = t.z = [(t, k, n) for k in range(n)]
    return z


def cellbyte(c):
    """a byte cell as int/T of width 8"""
    if type(c) is tuple:
        t, k, n = c
        hi = min(8 * k + 7, t.w - 1)
        b = extract(t, hi, 8 * k)
        return T.zext(b, hi - 8 * k + 1, 8)
    return c


class Engine:
    def __init__(self, mod):
        self.mod = mod
        self.objs = {}
        self.nobj = 1 << 16
        self.ic = 0
        self.pc = []
        self.facts = {}
        self.journal = None
        self.obligations = []      # (pc list, cond, info)
        self.funcs = {}            # executed functions -> count
        self.hooks = {}
        self.fnhook = None         # called as fnhook(E, fn, args) -> (True, ret) to replace a call
        self.nforks = 0
        self.ctlog = None          # list: (kind, term, where) for constant-time checking
        self.stack = []
        self.maxdepth = 200
        self.solver_checks = 0
        self.solver_time = 0.0
        self.feas_timeout = 3000
        self.extra = []            # extra assumptions (1-bit terms) on inputs
        self.oob = []
        self.last_dead = None

    # ------------------------------------------------------------ memory
    mergehook = None                # called as mergehook(old cells, object) for objects two paths have changed
    watch = None
    watch_out = False
    dirty = ()

    def alloc(self, cells, name='', ro=False):
        self.nobj += 1
        self.objs[self.nobj] = Obj(cells, name, ro)
        return self.nobj << 32

    def alloca(self, size, name):
        self.nobj += 1
        self.objs[self.nobj] = Obj([None] * size, name)
        return self.nobj << 32

    def obj(self, oid):
        o = self.objs.get(oid)
        if o is None:
            if 0 < oid <= len(self.mod.gobjs) and self.mod.gobjs[oid - 1] is not None:
                k, name, cells = self.mod.gobjs[oid - 1]
                if k == 'fn':
                    raise MemError('data access to function ' + name)
                o = Obj(list(cells), '@' + name, k == 'const')
                self.objs[oid] = o
            else:
                raise MemError('wild pointer %#x' % (oid << 32))
        return o

    def load(self, a, n, w):
        if type(a) is not int:
            return self.symload(a, n, w)
        if n == 0:
            return 0
        o = self.objs.get(a >> 32)
        if o is None:
            o = self.obj(a >> 32)
        off = a & 0xffffffff
        s = o.cells[off:off + n]
        if len(s) != n:
            raise MemError('load of %d at %s+%d (size %d)' % (n, o.name, off, o.size))
        c = s[0]
        if type(c) is int:
            if n == 1:
                return c & ((1 << w) - 1)
            try:
                return int.from_bytes(bytes(s), 'little') & ((1 << w) - 1)
            except TypeError:
                pass
        elif n == 1:
            if c is None:
                raise MemError('uninitialised read at %s+%d' % (o.name, off))
            c = cellbyte(c)
            return c if w == 8 else extract(c, w - 1, 0)
        elif type(c) is tuple:
            t = c[0]
            if t.w == w and c[2] == n and s == t.z:
                return t
        ps = []
        for c in s:
            if c is None:
                raise MemError('uninitialised read at %s+%d' % (o.name, off))
            ps.append((cellbyte(c), 8))
        r = concat(ps)
        if w != 8 * n:
            r = extract(r, w - 1, 0)
        return r

    def store(self, a, v, n, w):
        if type(a) is not int:
            return self.symstore(a, v, n, w)
        oid = a >> 32
        o = self.objs.get(oid)
        if o is None:
            o = self.obj(oid)
        off = a & 0xffffffff
        if off + n > o.size:
            raise MemError('store of %d at %s+%d (size %d)' % (n, o.name, off, o.size))
        if o.ro:
            raise MemError('store to constant %s' % o.name)
        j = self.journal
        if j is not None and oid not in j:
            j[oid] = o.cells
            o.cells = list(o.cells)
        if type(v) is int:
            if n == 1:
                o.cells[off] = v
            else:
                o.cells[off:off + n] = v.to_bytes(n, 'little')
        elif n == 1:
            o.cells[off] = v if w == 8 else T.zext(v, w, 8)
        else:
            if w != 8 * n:
                v = T.zext(v, w, 8 * n)
                if type(v) is int:
                    o.cells[off:off + n] = v.to_bytes(n, 'little')
                    return
            o.cells[off:off + n] = v.z or cellsof(v)

    def writable(self, a):
        oid = a >> 32
        o = self.obj(oid)
        if o.ro:
            raise MemError('store to constant %s' % o.name)
        j = self.journal
        if j is not None and oid not in j:
            j[oid] = o.cells
            o.cells = list(o.cells)
        return o

    def memcpy(self, d, s, n):
        n = self.concrete(n)
        if n == 0:
            return
        d = self.concrete(d)
        s = self.concrete(s)
        so = self.obj(s >> 32)
        sf = s & 0xffffffff
        c = so.cells[sf:sf + n]
        if len(c) != n:
            raise MemError('memcpy source %s+%d len %d' % (so.name, sf, n))
        do = self.writable(d)
        df = d & 0xffffffff
        if df + n > do.size:
            raise MemError('memcpy dest %s+%d len %d' % (do.name, df, n))
        do.cells[df:df + n] = c

    def memset(self, d, v, n):
        n = self.concrete(n)
        if n == 0:
            return
        d = self.concrete(d)
        do = self.writable(d)
        df = d & 0xffffffff
        if df + n > do.size:
            raise MemError('memset %s+%d len %d' % (do.name, df, n))
        do.cells[df:df + n] = [v] * n

    # symbolic addresses -------------------------------------------------
    def addr_cases(self, a):
        """list of (cond or None, concrete address) covering the values of a"""
        if type(a) is int:
            return [(None, a)]
        if a.op == 'ite':
            out = []
            c = a.a[0]
            for cc, br in ((c, a.a[1]), (mk_not(c, 1), a.a[2])):
                for d, x in self.addr_cases(br):
                    out.append((cc if d is None else mk_and(cc, d, 1), x))
            return out
        lo, hi = T.urange(a)
        if (lo >> 32) != (hi >> 32) or hi - lo > (1 << 20):
            cs = self.few(a)
            if cs is not None:
                return cs
            lo, hi = self.solver_range(a)
        # stride: strip a constant addend
        rest, base = a, 0
        if a.op == 'add' and type(a.a[1]) is int:
            rest, base = a.a[0], a.a[1]
        k = 1 << min(T._lowzeros(rest, 64), 16)
        if k > 1:
            lo = lo + ((base - lo) % k)
        n = (hi - lo) // k + 1
        if n > 4096:
            raise Unsupported('symbolic address with %d candidates' % n)
        out = []
        o = self.obj(lo >> 32)
        for i in range(n):
            x = lo + i * k
            if (x >> 32) != (lo >> 32) or (x & 0xffffffff) >= o.size:
                break
            out.append((mk_eq(a, x, 64), x))
        return out

    def few(self, a):
        """cases of an address that depends on at most eight bits: each value under the path condition"""
        vs = [t for t in T.topo([a]) if t.op == 'var']
        if sum(v.w for v in vs) > 8:
            return None
        own = set(vs)
        pc = [c for c in self.pc if type(c) is T.T and all(t in own for t in T.topo([c]) if t.op == 'var')]
        order = T.topo([a] + pc)
        by = {}
        envs = [{}]
        for v in vs:
            lo, hi = v.sr if v.sr is not None and v.sr[0] < 0 else v.ur or (0, (1 << v.w) - 1)
            envs = [dict(e, **{}) | {v: k & ((1 << v.w) - 1)} for e in envs for k in range(lo, hi + 1)]
        for e in envs:
            V = T.evaluate(None, dict(e), T.defuf, order)
            if all(T.val(c, V) for c in pc):
                by.setdefault(T.val(a, V), []).append(e)
        if not by:
            raise PathDead('no address')
        varying = [v for v in vs if len(set(e[v] for es in by.values() for e in es)) > 1]
        out = []
        for x, es in by.items():
            c = 0
            for k in sorted(set(tuple(e[v] for v in varying) for e in es)):
                q = 1
                for v, y in zip(varying, k):
                    q = mk_and(q, mk_eq(v, y, v.w), 1)
                c = mk_or(c, q, 1)
            out.append((c, x))
        return out

    def solver_range(self, a):
        raise Unsupported('unbounded symbolic address %s' % T.show(a, 3))

    def symload(self, a, n, w):
        if self.ctlog is not None:
            self.ctlog.append(('load address', a, self.where(), list(self.pc)))
        cs = self.addr_cases(a)
        vals = []
        for c, x in cs:
            try:
                vals.append((c, self.load(x, n, w)))
            except MemError:
                self.oblige(c, 'symbolic address out of bounds')
        if not vals:
            raise MemError('symbolic load has no valid target')
        # out-of-range addresses are an obligation
        cov = 0
        for c, _ in vals:
            cov = mk_or(cov, c, 1) if c is not None else 1
        self.oblige(mk_not(cov, 1), 'symbolic load out of bounds')
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            r = ite(c, v, r, w)
        return r

    def symstore(self, a, v, n, w):
        if self.ctlog is not None:
            self.ctlog.append(('store address', a, self.where(), list(self.pc)))
        cs = self.addr_cases(a)
        cov = 0
        for c, x in cs:
            try:
                old = self.load(x, n, w)
            except MemError:
                continue
            self.store(x, ite(c, v, old, w) if c is not None else v, n, w)
            cov = mk_or(cov, c, 1) if c is not None else 1
        self.oblige(mk_not(cov, 1), 'symbolic store out of bounds')

    def concrete(self, x):
        if type(x) is int:
            return x
        v = self.known_value(x)
        if v is not None:
            return v
        raise Unsupported('symbolic value where a concrete one is needed: %s at %s' % (T.show(x, 3), self.where()))

    def known_value(self, x):
        lo, hi = T.urange(x)
        if lo == hi:
            return lo
        for c in self.pc:
            if c.op == 'eq' and c.a[0] is x and type(c.a[1]) is int:
                return c.a[1]
        return None

    # ------------------------------------------------------------ control
    def where(self):
        return ' < '.join(reversed(self.stack[-4:]))

    def oblige(self, cond, info):
        """cond (1-bit) must be unsatisfiable under the path condition"""
        if cond is None:
            cond = 1
        if type(cond) is int:
            if cond:
                raise PathDead(info)
            return
        k = self.facts.get(cond)
        if k == 0:
            return
        self.obligations.append((list(self.pc), cond, info, self.where()))
        self.note_watch(list(self.pc) + [cond])

    def note_watch(self, conds):
        """a panic under conds: has the watched object been written by then?"""
        if self.watch is not None:
            oid, init = self.watch
            cells = self.objs[oid].cells
            if any(x is not y and x != y for x, y in zip(cells, init)):
                self.dirty.append(conds)

    def unreachable(self):
        raise PathDead('unreachable at ' + self.where())

    def divcheck(self, a, b, w):
        if self.ctlog is not None and (type(a) is not int or type(b) is not int):
            for x in (a, b):
                if type(x) is not int:
                    self.ctlog.append(('division operand', x, self.where(), list(self.pc)))
        if type(b) is int:
            if b == 0:
                raise PathDead('division by zero')
        else:
            self.oblige(mk_eq(b, 0, w), 'division by zero')

    def shiftsym(self, b):
        pass

    def bitcount(self, k, a, w):
        if type(a) is int:
            if k == 'ctpop':
                return bin(a).count('1')
            if k == 'ctlz':
                return w - a.bit_length()
            return w if a == 0 else (a & -a).bit_length() - 1
        if k == 'ctpop':
            r = 0
            for i in range(w):
                r = mk_add(r, T.zext(extract(a, i, i), 1, w), w)
            return r
        r = w
        rng = range(w) if k == 'ctlz' else range(w - 1, -1, -1)
        for i in rng:
            r = ite(extract(a, i, i), (w - 1 - i) if k == 'ctlz' else i, r, w)
        return r

    def select(self, c, a, b, w):
        if self.ctlog is not None and w == 0:
            pass
        if w == 0:
            return tuple(ite(c, x, y, x.w if type(x) is T.T else y.w if type(y) is T.T else 64) for x, y in zip(a, b))
        return ite(c, a, b, w)

    def assume(self, c):
        if type(c) is int:
            if not c:
                raise PathDead('assumption is false')
            return
        self.pc.append(c)
        self.learn(c)

    def learn(self, c):
        self.facts[c] = 1
        nc = mk_not(c, 1)
        if type(nc) is T.T:
            self.facts[nc] = 0
        if c.op == 'and':
            for x in c.a:
                if type(x) is T.T:
                    self.learn(x)
        elif c.op == 'xor' and type(c.a[0]) is int and c.a[0] == 1 and len(c.a) == 2 and c.a[1].op == 'or':
            for x in c.a[1].a:
                if type(x) is T.T:
                    y = mk_not(x, 1)
                    if type(y) is T.T:
                        self.learn(y)
                    self.facts[x] = 0

    def lookup(self, c):
        f = self.facts
        if not f:
            return c
        v = f.get(c)
        if v is not None:
            return v
        if c.op in ('and', 'or'):
            vals = [f.get(x) for x in c.a]
            if c.op == 'and':
                if 0 in vals:
                    return 0
                if all(v == 1 for v in vals):
                    return 1
            else:
                if 1 in vals:
                    return 1
                if all(v == 0 for v in vals):
                    return 0
        elif c.op == 'xor' and len(c.a) == 2 and type(c.a[0]) is int:
            v = self.lookup(c.a[1])
            if type(v) is int:
                return v ^ c.a[0]
        return c

    def feasible(self, conds):
        """may answer True when undecided (sound: the infeasible side is merged away)"""
        t0 = time.time()
        if len(conds) > 1 and len(T.topo([c for c in conds if type(c) is T.T])) > 2500:
            # deep path conditions (mostly "no overflow happened") are left out
            last = conds[-1]
            own = set(t for t in T.topo([last]) if t.op == 'var') if type(last) is T.T else set()
            keep = []
            for c in conds[:-1]:
                if type(c) is T.T:
                    o = T.topo([c])
                    if len(o) > 300 or not any(t in own for t in o if t.op == 'var'):
                        continue
                keep.append(c)
            conds = keep + [last]
        self.solver_checks += 1
        s = z3.Solver()
        s.set('timeout', self.feas_timeout)
        try:
            es, vs = T.to_z3(conds)
        except KeyError:
            return True
        for e in es:
            if type(e) is int:
                if not e:
                    return False
            else:
                s.add(e == 1)
        add_ranges(s, vs)
        r = s.check()
        self.solver_time += time.time() - t0
        return r != z3.unsat

    def call(self, name, args):
        h = self.hooks.get(name)
        if h is not None:
            return h(self, *args)
        fn = self.mod.funcs.get(name)
        if fn is None:
            for p in PANIC_WORDS:
                if p in name:
                    raise PathDead('panic: %s at %s' % (self.mod.dem.get(name, name), self.where()))
            raise Unsupported('external function ' + self.mod.dem.get(name, name))
        return self.callfn(fn, args)

    def callptr(self, p, args):
        p = self.concrete(p)
        k = self.mod.gobjs[(p >> 32) - 1]
        if k[0] != 'fn':
            raise MemError('call through data pointer')
        return self.call(k[1], args)

    def callfn(self, fn, args):
        if fn.compiled is None:
            fn.compile(self)
        if self.fnhook is not None:
            r = self.fnhook(self, fn, args)
            if r is not None:
                return r[0]
        return self.run(fn, args)

    def run(self, fn, args):
        self.funcs[fn.name] = self.funcs.get(fn.name, 0) + 1
        R = [None] * fn.nregs
        R[1:1 + len(args)] = args
        st = self.stack
        st.append(fn.name)
        if len(st) > self.maxdepth:
            raise Unsupported('call depth')
        bl = fn.blockfns
        n = 0
        while n != -1:
            n = bl[n](self, R)
            if type(n) is tuple:
                n = self.branch(fn, R, n, -1)
        st.pop()
        return R[0]

    def region(self, fn, R, n, stop):
        bl = fn.blockfns
        while n != stop and n != -1:
            n = bl[n](self, R)
            if type(n) is tuple:
                n = self.branch(fn, R, n, stop)
        return n

    def branch(self, fn, R, br, stop):
        if len(br) == 5:
            return self.switch(fn, R, br, stop)
        c, cur, a, b = br
        v = self.lookup(c)
        if type(v) is int:
            j = a if v else b
            fn.edgefns[(cur, j)](R)
            return j
        if self.ctlog is not None:
            self.ctlog.append(('branch', c, self.where() + ' block %d' % cur, list(self.pc)))
        da, db = a not in fn.reach, b not in fn.reach
        nc = mk_not(c, 1)
        if da or db:
            if da and db:
                raise PathDead('panic at ' + self.where())
            if da:
                self.oblige(c, 'panic branch in %s' % self.mod.dem.get(fn.name, fn.name))
                self.assume(nc)
                j = b
            else:
                self.oblige(nc, 'panic branch in %s' % self.mod.dem.get(fn.name, fn.name))
                self.assume(c)
                j = a
            fn.edgefns[(cur, j)](R)
            return j
        # real fork
        if not self.feasible(self.extra + self.pc + [c]):
            self.assume(nc)
            fn.edgefns[(cur, b)](R)
            return b
        if not self.feasible(self.extra + self.pc + [nc]):
            self.assume(c)
            fn.edgefns[(cur, a)](R)
            return a
        self.nforks += 1
        P = fn.ipdom[cur]
        return self.fork(fn, R, [(c, cur, a), (nc, cur, b)], P, stop)

    def switch(self, fn, R, br, stop):
        x, cur, dflt, cases, w = br
        x0 = x
        rest = 1
        for cv, j in cases:
            c = mk_eq(x, cv, w)
            v = c if type(c) is int else self.lookup(c)
            if type(v) is int:
                if v:
                    fn.edgefns[(cur, j)](R)
                    return j
                continue
        # chain of binary forks through merging
        if self.ctlog is not None:
            self.ctlog.append(('switch', x, self.where(), list(self.pc)))
        P = fn.ipdom[cur]
        sides = []
        rest = []
        for cv, j in cases:
            c = mk_eq(x, cv, w)
            if type(c) is int or type(self.lookup(c)) is int:
                continue
            if self.feasible(self.extra + self.pc + [c]):
                sides.append((c, cur, j))
            rest.append(mk_not(c, 1))
        d = 1
        for r in rest:
            d = mk_and(d, r, 1)
        if type(d) is not int and self.feasible(self.extra + self.pc + [d]):
            sides.append((d, cur, dflt))
        live = []
        for c, cc, j in sides:
            if j not in fn.reach:
                self.oblige(c, 'panic branch in %s' % fn.name)
            else:
                live.append((c, cc, j))
        if not live:
            raise PathDead('panic at ' + self.where())
        self.nforks += 1
        return self.fork(fn, R, live, P, stop)

    def fork(self, fn, R, sides, P, stop):
        depth = len(self.stack)
        pc0 = self.pc
        facts0 = self.facts
        jo = self.journal
        results = []
        dead = None
        for c, cur, j in sides:
            self.pc = list(pc0)
            self.facts = dict(facts0)
            self.pc.append(c)
            self.learn(c)
            self.journal = {}
            R2 = list(R)
            fn.edgefns[(cur, j)](R2)
            try:
                n = self.region(fn, R2, j, P)
                ok = True
            except PathDead as e:
                # the whole side panics: obligation that it cannot happen
                self.note_watch(list(self.pc))
                ok = False
                dead = e
                del self.stack[depth:]
            jr = self.journal
            mods = {}
            for oid, old in jr.items():
                o = self.objs[oid]
                mods[oid] = (old, o.cells)
                o.cells = old
            if ok:
                results.append((c, R2, mods, self.pc, self.facts, n))
            else:
                self.obligations.append((list(pc0), c, dead.info, self.where()))
        self.journal = jo
        if not results:
            self.pc, self.facts = pc0, facts0
            raise dead
        if len(results) == 1:
            c, R2, mods, pc, facts, n = results[0]
            for oid, (old, new) in mods.items():
                if jo is not None and oid not in jo:
                    jo[oid] = old
                self.objs[oid].cells = new
            R[:] = R2
            self.pc, self.facts = pc, facts
            return n
        self.pc, self.facts = pc0, facts0
        n = results[0][5]
        for r in results[1:]:
            if r[5] != n:
                raise Unsupported('merge points differ')
        # merge pairwise, last result as default
        c, Rm, mm, _, _, _ = results[-1]
        memm = {oid: new for oid, (old, new) in mm.items()}
        olds = {oid: old for oid, (old, new) in mm.items()}
        for c, R2, mods, _, _, _ in reversed(results[:-1]):
            for oid, (old, new) in mods.items():
                olds.setdefault(oid, old)
            for i in range(len(Rm)):
                x, y = R2[i], Rm[i]
                if x is y or x == y and type(x) is type(y):
                    continue
                Rm[i] = self.mergeval(c, x, y, fn.rt[i])
            for oid in set(mods) | set(memm):
                a = mods[oid][1] if oid in mods else olds[oid]
                b = memm.get(oid, olds[oid])
                memm[oid] = merge_cells(c, a, b)
        for oid, new in memm.items():
            if jo is not None and oid not in jo:
                jo[oid] = olds[oid]
            self.objs[oid].cells = new
            if self.mergehook is not None:
                self.mergehook(olds[oid], self.objs[oid])
        R[:] = Rm
        return n

    def mergeval(self, c, x, y, t):
        if x is y:
            return x
        if x is None or y is None:
            return None
        if type(x) is tuple:
            return tuple(self.mergeval(c, p, q, tt) for p, q, tt in zip(x, y, t[1]))
        if t is None:
            raise Unsupported('merge of a register of unknown type')
        return ite(c, x, y, 64 if t[0] == 'p' else t[1])


def add_ranges(s, vs):
    for t, e in vs.items():
        if t.op != 'var':
            continue
        w = t.w
        if t.sr is not None:
            lo, hi = t.sr
            if (lo, hi) != (-(1 << (w - 1)), (1 << (w - 1)) - 1) and (lo, hi) != (0, (1 << w) - 1):
                s.add(e >= lo, e <= hi)
        if t.ur is not None and t.ur != (0, (1 << w) - 1):
            s.add(z3.UGE(e, t.ur[0]), z3.ULE(e, t.ur[1]))


def merge_cells(c, a, b):
    if a is b:
        return a
    out = list(a)
    n = len(a)
    i = 0
    while i < n:
        x, y = a[i], b[i]
        if x is y or (type(x) is int and type(y) is int and x == y) or (type(x) is tuple and type(y) is tuple and x == y):
            i += 1
            continue
        k = 0
        for s in (x, y):
            if type(s) is tuple and s[1] == 0:
                m = s[2]
                if a[i:i + m] == s[0].z or b[i:i + m] == s[0].z:
                    k = max(k, m)
        if k:
            u = _val(a[i:i + k])
            v = _val(b[i:i + k])
            if u is not None and v is not None:
                r = ite(c, u, v, 8 * k)
                if type(r) is int:
                    out[i:i + k] = r.to_bytes(k, 'little')
                else:
                    out[i:i + k] = cellsof(r)
                i += k
                continue
        if x is None or y is None:
            # what was never written is arbitrary: safe code does not read it where it matters
            out[i] = y if x is None else x
        else:
            out[i] = ite(c, cellbyte(x), cellbyte(y), 8)
        i += 1
    return out


def _val(s):
    if any(x is None for x in s):
        return None
    c = s[0]
    if type(c) is tuple and c[1] == 0 and c[2] == len(s) and s == c[0].z and c[0].w == 8 * len(s):
        return c[0]
    return concat([(cellbyte(x), 8) for x in s])
