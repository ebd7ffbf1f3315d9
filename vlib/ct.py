"""Control flow and addresses: which of them depend on secrets.

The operation is executed symbolically with the contents of its inputs symbolic, and every symbolic
branch condition, switch value, memory address and division operand is recorded.  For each of them a
solver query over two copies of the execution (equal public inputs, independent secrets) decides
whether it can take two values.  Deep terms are cut: a term beyond a depth is replaced by a fresh
variable of the same range, secret if anything below it is (this over-approximates what the term can
do).  Candidates are confirmed on the real code: two runs of the native binary under valgrind must
execute different instructions or access different addresses."""
import os
import subprocess
import time
import z3
from . import build, prog
from . import terms as T
from .engine import PathDead, Unsupported
from .case import Undecided, Violation

DEPTH = 14


class Enough(Exception):
    pass


class Log(list):
    def append(self, x):
        list.append(self, x)
        if len(self) >= 160:
            raise Enough()


class Cut:
    """hook on new terms.  t.x = 2 * depth + (depends on a secret)"""

    def __init__(self, secret):
        self.secret = secret
        self.cuts = 0

    def __call__(self, t):
        if t.op == 'var':
            t.x = int(t.a[0].split('[')[0] in self.secret)
            return t
        d = s = 0
        for c in T.children(t):
            x = c.x
            if x is None:
                x = self(c) and c.x
            s |= x & 1
            if x >> 1 > d:
                d = x >> 1
        if d >= DEPTH and t.w > 1:
            self.cuts += 1
            v = T.var('%s%d' % ('cut' if s else 'pub', t.id), t.w, T.urange(t))
            v.x = s
            if t.op == 'add':
                T.sums[v] = t.a
            return v
        t.x = 2 * (d + 1) + s
        return t

    def __enter__(self):
        self.old = T.set_online(self)
        # terms made meanwhile are not for later use
        self.tab = T._tab
        T._tab = dict(T._tab)
        T._bitmemo.clear()
        return self

    def __exit__(self, *a):
        T.set_online(self.old)
        T._tab = self.tab
        T.sums.clear()
        T._bitmemo.clear()


def leaves(ts):
    seen, out, st = set(), [], [t for t in ts if type(t) is T.T]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ('var', 'uf'):
            out.append(t)
        else:
            st.extend(T.children(t))
    return out


def copies(ts):
    """the terms over two copies of their secret leaves"""
    ls = leaves(ts)
    out = []
    cs = []
    maps = []
    for k in (0, 1):
        m = {}
        for t in ls:
            sec = t.x is None or t.x & 1
            v = z3.BitVec('l%d%s' % (t.id, 'ab'[k] if sec else ''), t.w)
            m[t] = v
            if not k or sec:
                lo, hi = T.urange(t)
                if (lo, hi) != (0, (1 << t.w) - 1):
                    cs += [z3.UGE(v, lo), z3.ULE(v, hi)]
        es, _ = T.to_z3(ts, dict(m))
        out.append([z3.BitVecVal(e, 64) if type(e) is int else e for e in es])
        maps.append(m)
    return out, cs, maps


class Trace:
    """executed instructions and data accesses of the native binary, from valgrind"""

    def __init__(self):
        self.exe = os.path.join(build.BUILD, 'native', 'debug', 'vreplay')
        r = subprocess.run(['valgrind', '-q', '--tool=none', self.exe], input='mark\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        a = int(r.stdout.split()[1])
        self.marks = [b'%08x,8' % a, b'%08x,8' % (a + 8)]

    def start(self, op, ins, out):
        r, w = os.pipe()
        p = subprocess.Popen(['valgrind', '--tool=lackey', '--basic-counts=no', '--trace-mem=yes', '--log-fd=%d' % w, self.exe], stdin=subprocess.PIPE,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, pass_fds=(w,))
        os.close(w)
        p.stdin.write(' '.join([op, prog.arg(out)] + [prog.arg(i) for i in ins]).encode() + b'\n')
        p.stdin.close()
        return p, os.fdopen(r, 'rb', 1 << 20)

    def lines(self, f):
        on = False
        for l in f:
            if not on:
                on = l.rstrip().endswith(self.marks[0])
            elif l.rstrip().endswith(self.marks[1]):
                return
            else:
                yield l

    def differ(self, op, one, two, out, limit=120):
        """None, or the first difference of the two runs"""
        ps = [self.start(op, one, out), self.start(op, two, out)]
        t0 = time.time()
        try:
            n = 0
            a, b = self.lines(ps[0][1]), self.lines(ps[1][1])
            while True:
                x, y = next(a, None), next(b, None)
                if x != y:
                    return '%d: %s / %s' % (n, x and x.decode().strip(), y and y.decode().strip())
                if x is None:
                    if not n:
                        raise Undecided('no trace')
                    return None
                n += 1
                if not n & 0xffff and time.time() - t0 > limit:
                    raise Undecided('trace too long')
        finally:
            for p, f in ps:
                p.kill()
                f.close()
                p.wait()


def secret_free(R, op, ins, out, names, declassify=False, pairs=None, what=''):
    """ins: [(name, bytes or length)]; names: the secret ones.  declassify: two runs with the same result are compared."""
    E = R.engine('ct')
    E.ctlog = log = Log()
    what = what or op
    stopped = None
    with Cut(set(names)) as cut:
        syms = [R.sym(n, k) for n, k in ins]
        try:
            o = prog.run_op(E, op, syms, [0] * out)
            if o.panic is not None:
                raise Undecided('%s panics: %s' % (what, o.panic))
        except Enough:
            o, stopped = None, 'many secret-dependent choices'
        except Unsupported as e:
            if not len(log):
                raise
            o, stopped = None, str(e)
    R.absorb(E)
    R.notes.append('%s: %d recorded choices over symbolic values, %d cuts' % (what, len(log), cut.cuts))
    bad = []
    for kind, t, where, pc in log:
        R.obligations += 1
        ret = [o.ret] if declassify and o is not None else []
        (a, b), cs, maps = copies([t] + list(pc) + ret)
        s = z3.Solver()
        s.set('timeout', 30000)
        s.add(cs)
        s.add(a[0] != b[0])
        for x in a[1:1 + len(pc)] + b[1:1 + len(pc)]:
            s.add(x == 1)
        if ret:
            s.add(a[-1] == b[-1])
        t0 = time.time()
        r = s.check()
        R.stats.queries += 1
        R.stats.solver_s += time.time() - t0
        if r == z3.unsat:
            R.stats.unsat += 1
            continue
        R.stats.sat += r == z3.sat
        bad.append((kind, where, (s.model(), maps) if r == z3.sat else None))
    if not bad:
        if stopped:
            raise Undecided('%s: %s' % (what, stopped))
        return
    # confirm on the real code
    tr = Trace()
    tried = 0
    t0 = time.time()

    def models():
        """inputs of which the solver says that they choose differently; bytes beyond a cut are random"""
        for kind, where, m in bad:
            if m is None:
                continue
            model, maps = m
            base = [R.rnd.randbytes(k) for _, k in ins]
            runs = []
            for k in (0, 1):
                run = []
                for s, (n, w), b in zip(syms, ins, base):
                    rand = b if n not in names else R.rnd.randbytes(w)
                    got = [model.eval(maps[k][x]) if x in maps[k] else None for x in s]
                    run.append(bytes(g.as_long() if z3.is_bv_value(g) else r for g, r in zip(got, rand)))
                runs.append(run)
            yield runs

    def randoms():
        while True:
            base = [R.rnd.randbytes(k) for n, k in ins]

            def other(i):
                j = R.rnd.randrange(6)
                return [b if n not in names else bytes(k) if j == 0 else b'\xff' * k if j == 1 else R.rnd.randbytes(k) for (n, k), b in zip(ins, base)]
            yield [other(0), other(1)]

    def candidates():
        gs = [pairs(R) if pairs is not None else iter(()), randoms(), models()]
        for i in range(60):
            for g in gs:
                x = next(g, None)
                if x is not None and x[0] != x[1]:
                    yield x
    for one, two in candidates():
        if tried and time.time() - t0 > 300:
            break
        if any(x != y for (n, k), x, y in zip(ins, one, two) if n not in names):
            continue
        if declassify and R.native().run(op, one, bytes(out))[:2] != R.native().run(op, two, bytes(out))[:2]:
            continue
        tried += 1
        d = tr.differ(op, one, two, bytes(out))
        if d is not None:
            rec = {'kind': 'trace', 'profile': 'debug', 'op': op, 'in': [prog.arg(x) for x in one], 'in2': [prog.arg(x) for x in two], 'out_initial': bytes(out).hex(),
                   'observed': 'first difference of the executed instructions and addresses: ' + d, 'where': ['%s in %s' % (k, w) for k, w, _ in bad[:6]],
                   'why': '%s: %s depends on a secret in %s' % (what, bad[0][0], bad[0][1])}
            raise Violation(rec)
    raise Undecided('%s: %s in %s may depend on a secret; no two runs found that differ (%d pairs)' % (what, bad[0][0], bad[0][1], tried))


def in_bounds(R, op, ins, out):
    """no panic, overflow or access out of bounds: first with deep terms cut, then, if that leaves obligations open, exactly"""
    E = R.engine('chk')
    P = R.prover()
    try:
        with Cut(()) as cut:
            o = prog.run_op(E, op, [R.sym('i%d' % i, n) for i, n in enumerate(ins)], R.sym('o', out))
            ok = o.panic is None
        ok = ok and all(P.prove_unsat(pc + [c])[0] == 'proved' for pc, c, _, _ in E.obligations)
    except (Unsupported, PathDead):
        ok = False
    if ok:
        R.absorb(E)
        R.obligations += len(E.obligations) + 1
        data = [R.rnd.randbytes(n) for n in ins]
        if R.native().run(op, data, bytes(out))[0] != 'R':
            raise Undecided('%s: native run panics' % op)
        R.validated += 1
        if not R.samples:
            R.samples.append({'op': op, 'in': [x.hex()[:160] for x in data]})
        return
    R.safety = True
    R.check(op, [R.sym('i%d' % i, n) for i, n in enumerate(ins)], R.sym('o', out), None, None, what='%s %s' % (op[3:], ins), nsim=4, online=False)
