"""Hash-consed bit-vector terms with a bit-level normal form.

Values are Python ints (constants) or T (symbolic).  Widths are carried by the
caller for ints and by T.w for terms.  All mk_* functions return int or T.
"""
import sys
sys.setrecursionlimit(1000000)

_tab = {}
_cnt = 0


class T:
    __slots__ = ('op', 'w', 'a', 'id', 'ur', 'sr', 'z', 'x')

    def __repr__(self):
        return show(self, 3)


def reset():
    global _cnt
    _tab.clear()
    _bitmemo.clear()
    nopush.clear()
    _cnt = 0


def nterms():
    return _cnt


def mk(op, w, a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        global _cnt
        t = T()
        t.op = op
        t.w = w
        t.a = a
        _cnt += 1
        t.id = _cnt
        t.ur = t.sr = t.z = t.x = None
        _tab[k] = t
        if _online is not None:
            r = _online(t)
            if r is not t:
                _tab[k] = r
                return r
    return t


# variables standing for a sum -> its operands (see ct.Cut)
sums = {}

# terms whose bits are kept as bits of that term
nopush = set()

# called on every new term while an implementation is executed (see equiv.Online); may return an
# equal term to use instead
_online = None


def set_online(f):
    global _online
    o = _online
    _online = f
    return o


# functions with a definition: name -> (python function, z3 expression builder)
UFDEF = {}
# functions with a concrete meaning only: name -> python function of the argument list
UFEVAL = {}


def show(t, d=4):
    if type(t) is int:
        return hex(t)
    if t.op == 'var':
        return '%s:%d' % (t.a[0], t.w)
    if d == 0:
        return '#%d:%d' % (t.id, t.w)
    if t.op == 'concat':
        return 'cat(' + ','.join('%s' % (show(p, d - 1) if type(p) is not int else '%#x:%d' % (p, w)) for p, w in reversed(t.a)) + ')'
    if t.op == 'extract':
        return '%s[%d:%d]' % (show(t.a[0], d - 1), t.a[1], t.a[2])
    if t.op == 'uf':
        return '%s#%d:%d' % (t.a[0], t.id, t.w)
    return '%s%d(%s)' % (t.op, t.w, ','.join(show(x, d - 1) if type(x) in (int, T) else str(x) for x in t.a))


def children(t):
    op = t.op
    if op == 'var':
        return ()
    if op == 'concat':
        return [p for p, _ in t.a if type(p) is T]
    if op == 'uf':
        return [p for p in t.a[1] if type(p) is T]
    return [p for p in t.a if type(p) is T]


RINGS = {}      # symbol of a polynomial in normal form -> its ring


def var(name, w, ur=None, sr=None):
    t = mk('var', w, (name,))
    if ur is not None:
        t.ur = ur
        if ur[1] < (1 << (w - 1)):
            t.sr = ur
    if sr is not None:
        t.sr = sr
        if sr[0] >= 0:
            t.ur = sr
    return t


def uf(name, args, w):
    """args: tuple of int/T (widths implicit in the UF's signature)."""
    return mk('uf', w, (name, tuple(args)))


def tosigned(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ---------------------------------------------------------------- pieces
def pieces(x, w):
    if type(x) is T and x.op == 'concat':
        return x.a
    return ((x, w),)


def concat(ps):
    """ps: low->high list of (value,width)."""
    out = []
    for x, w in ps:
        if w == 0:
            continue
        if type(x) is T and x.op == 'concat':
            sub = x.a
        else:
            sub = ((x, w),)
        for p, pw in sub:
            if out:
                q, qw = out[-1]
                if type(p) is int:
                    if type(q) is int:
                        out[-1] = (q | (p << qw), qw + pw)
                        continue
                elif type(q) is T:
                    # merge adjacent extracts
                    if p.op == 'extract':
                        b, hi, lo = p.a
                        if q.op == 'extract':
                            if q.a[0] is b and q.a[1] + 1 == lo:
                                m = extract(b, hi, q.a[2])
                                out[-1] = (m, qw + pw)
                                continue
                        elif False:
                            pass
                    elif p.op == 'sext' and p.a[0].w == 1:
                        # sign bits above: sext(bit) on top of something ending in that bit
                        b = p.a[0]
                        if q is b or (q.op == 'sext' and q.a[0] is b):
                            out[-1] = (sext(b, 1, qw + pw), qw + pw)
                            continue
                    if p.op == 'ite' and q.op == 'ite' and p.a[0] is q.a[0]:
                        c = p.a[0]
                        m = ite(c, concat(((q.a[1], qw), (p.a[1], pw))),
                                concat(((q.a[2], qw), (p.a[2], pw))), qw + pw)
                        out[-1] = (m, qw + pw)
                        continue
                    if p is q and p.w == 1 and qw == 1:
                        out[-1] = (sext(p, 1, 2), 2)
                        continue
                    if q.op == 'sext' and q.a[0] is p and pw == 1:
                        out[-1] = (sext(p, 1, qw + 1), qw + 1)
                        continue
            out.append((p, pw))
    if len(out) == 1:
        return out[0][0]
    # merging may have produced concats inside (from ite/concat); flatten again if needed
    for p, pw in out:
        if type(p) is T and p.op == 'concat':
            return concat(out)
    w = 0
    for p, pw in out:
        w += pw
    return mk('concat', w, tuple(out))


def extract(x, hi, lo):
    n = hi - lo + 1
    if type(x) is int:
        return (x >> lo) & ((1 << n) - 1)
    w = x.w
    if n == w:
        return x
    op = x.op
    if n == 1 and w > 8 and op != 'var':
        k = (x, lo)
        r = _bitmemo.get(k)
        if r is None:
            r = _extract(x, hi, lo, n, w, op)
            _bitmemo[k] = r
        return r
    return _extract(x, hi, lo, n, w, op)


_bitmemo = {}


def _extract(x, hi, lo, n, w, op):
    if op == 'concat':
        if len(x.a) == w:
            if n == 1:
                return x.a[lo][0]
            return concat(x.a[lo:hi + 1])
        res = []
        pos = 0
        for p, pw in x.a:
            end = pos + pw
            if end > lo:
                if pos > hi:
                    break
                l = lo - pos if lo > pos else 0
                h = (hi - pos) if hi < end - 1 else pw - 1
                if l == 0 and h == pw - 1:
                    res.append((p, pw))
                else:
                    res.append((extract(p, h, l), h - l + 1))
            pos = end
        if len(res) == 1:
            return res[0][0]
        return concat(res)
    if op == 'extract':
        b, _, l0 = x.a
        return extract(b, hi + l0, lo + l0)
    if op == 'sext':
        y = x.a[0]
        yw = y.w
        if hi < yw:
            return extract(y, hi, lo)
        if lo >= yw - 1:
            return sext(extract(y, yw - 1, yw - 1), 1, n)
        return sext(extract(y, yw - 1, lo), yw - lo, n)
    if op == 'xor' or op == 'and' or op == 'or':
        a = x.a
        push = (n == 1 or w <= 8) and x not in nopush
        if not push and x not in nopush:
            for y in a:
                if type(y) is int or y.op == 'ite':
                    push = True
                    break
        if push:
            if op == 'xor' and n > 1 and len(a) > 16:
                return concat([(extract(x, i, i), 1) for i in range(lo, hi + 1)])
            if op == 'xor' and n == 1 and len(a) > 2:
                return xor_bits([extract(y, hi, lo) for y in a])
            f = {'xor': mk_xor, 'and': mk_and, 'or': mk_or}[op]
            r = extract(a[0], hi, lo)
            for y in a[1:]:
                r = f(r, extract(y, hi, lo), n)
            return r
    elif op == 'ite':
        c, a, b = x.a
        return ite(c, extract(a, hi, lo), extract(b, hi, lo), n)
    elif lo == 0 and hi == 0 and w < 64 and (op == 'add' or op == 'sub'):
        return mk_xor(extract(x.a[0], 0, 0), extract(x.a[1], 0, 0), 1)
    return mk('extract', n, (x, hi, lo))


def zext(x, w0, w):
    if type(x) is int:
        return x
    if w0 == w:
        return x
    return concat(((x, w0), (0, w - w0)))


def sext(x, w0, w):
    if type(x) is int:
        if x >> (w0 - 1):
            return x | (((1 << (w - w0)) - 1) << w0)
        return x
    if w0 == w:
        return x
    if x.op == 'sext':
        x = x.a[0]
        return mk('sext', w, (x,))
    if x.op == 'concat':
        p, pw = x.a[-1]
        if type(p) is int:
            if (p >> (pw - 1)) & 1:
                return concat(x.a + (((1 << (w - w0)) - 1, w - w0),))
            return concat(x.a + ((0, w - w0),))
        return concat(x.a[:-1] + ((sext(p, pw, w - w0 + pw), w - w0 + pw),))
    if x.op == 'ite' and (type(x.a[1]) is int or type(x.a[2]) is int):
        return ite(x.a[0], sext(x.a[1], w0, w), sext(x.a[2], w0, w), w)
    return mk('sext', w, (x,))


def trunc(x, w0, w):
    if type(x) is int:
        return x & ((1 << w) - 1)
    return extract(x, w - 1, 0)


# ---------------------------------------------------------------- bitwise
def _split(f, a, b, w, pa, pb):
    out = []
    i = j = 0
    ia = ib = 0
    na, nb = len(pa), len(pb)
    while i < na and j < nb:
        xa, wa = pa[i]
        xb, wb = pb[j]
        n = min(wa - ia, wb - ib)
        u = xa if (ia == 0 and n == wa) else extract(xa, ia + n - 1, ia)
        v = xb if (ib == 0 and n == wb) else extract(xb, ib + n - 1, ib)
        out.append((f(u, v, n), n))
        ia += n
        ib += n
        if ia == wa:
            i += 1
            ia = 0
        if ib == wb:
            j += 1
            ib = 0
    return concat(out)


def _aligned(pa, pb):
    if len(pa) != len(pb):
        return False
    for (x, u), (y, v) in zip(pa, pb):
        if u != v:
            return False
    return True


def _disjoint(pa, pb):
    """every overlapping region has a const on at least one side"""
    i = j = 0
    ia = ib = 0
    while i < len(pa) and j < len(pb):
        xa, wa = pa[i]
        xb, wb = pb[j]
        if type(xa) is T and type(xb) is T:
            return False
        n = min(wa - ia, wb - ib)
        ia += n
        ib += n
        if ia == wa:
            i += 1
            ia = 0
        if ib == wb:
            j += 1
            ib = 0
    return True


def _key(t):
    return t.id


def _isnot(t, w):
    """if t == ~u return u"""
    if type(t) is T and t.op == 'xor' and type(t.a[0]) is int and t.a[0] == (1 << w) - 1:
        if len(t.a) == 2:
            return t.a[1]
        return mk('xor', w, t.a[1:])
    return None


def mk_not(a, w):
    return mk_xor(a, (1 << w) - 1, w)


def mk_and(a, b, w):
    ta, tb = type(a) is int, type(b) is int
    if ta and tb:
        return a & b
    if ta:
        a, b, ta, tb = b, a, tb, ta
    m = (1 << w) - 1
    if tb:
        if b == 0:
            return 0
        if b == m:
            return a
        if a.op == 'ite' and (type(a.a[1]) is int or type(a.a[2]) is int):
            return ite(a.a[0], mk_and(a.a[1], b, w), mk_and(a.a[2], b, w), w)
        if a.op == 'sext' and a.a[0].w == 1:
            return ite(a.a[0], b, 0, w)
        # runs of mask
        out = []
        pos = 0
        while pos < w:
            bit = (b >> pos) & 1
            e = pos
            while e < w and ((b >> e) & 1) == bit:
                e += 1
            if bit:
                out.append((extract(a, e - 1, pos), e - pos))
            else:
                out.append((0, e - pos))
            pos = e
        return concat(out)
    if a is b:
        return a
    if a.op == 'sext' and a.a[0].w == 1 and w > 1:
        return ite(a.a[0], b, 0, w)
    if b.op == 'sext' and b.a[0].w == 1 and w > 1:
        return ite(b.a[0], a, 0, w)
    if w == 1:
        na = _isnot(a, 1)
        if na is b:
            return 0
        nb = _isnot(b, 1)
        if nb is a:
            return 0
    ca, cb = a.op == 'concat', b.op == 'concat'
    if ca or cb:
        pa, pb = pieces(a, w), pieces(b, w)
        if any(type(p) is int for p, _ in pa) or any(type(p) is int for p, _ in pb) or _aligned(pa, pb):
            return _split(mk_and, a, b, w, pa, pb)
    s = set()
    for x in (a, b):
        if x.op == 'and':
            s.update(x.a)
        else:
            s.add(x)
    l = sorted(s, key=_key)
    if len(l) == 1:
        return l[0]
    return mk('and', w, tuple(l))


def mk_or(a, b, w):
    ta, tb = type(a) is int, type(b) is int
    if ta and tb:
        return a | b
    if ta:
        a, b, ta, tb = b, a, tb, ta
    m = (1 << w) - 1
    if tb:
        if b == 0:
            return a
        if b == m:
            return m
        out = []
        pos = 0
        while pos < w:
            bit = (b >> pos) & 1
            e = pos
            while e < w and ((b >> e) & 1) == bit:
                e += 1
            if bit:
                out.append(((1 << (e - pos)) - 1, e - pos))
            else:
                out.append((extract(a, e - 1, pos), e - pos))
            pos = e
        return concat(out)
    if a is b:
        return a
    if a.op == 'sext' and a.a[0].w == 1 and w > 1:
        return ite(a.a[0], m, b, w)
    if b.op == 'sext' and b.a[0].w == 1 and w > 1:
        return ite(b.a[0], m, a, w)
    if w == 1:
        if _isnot(a, 1) is b or _isnot(b, 1) is a:
            return 1
    if a.op == 'concat' or b.op == 'concat':
        pa, pb = pieces(a, w), pieces(b, w)
        if _aligned(pa, pb) or _disjoint(pa, pb):
            return _split(mk_or, a, b, w, pa, pb)
    if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]:
        return ite(a.a[0], mk_or(a.a[1], b.a[1], w), mk_or(a.a[2], b.a[2], w), w)
    s = set()
    for x in (a, b):
        if x.op == 'or':
            s.update(x.a)
        else:
            s.add(x)
    l = sorted(s, key=_key)
    if len(l) == 1:
        return l[0]
    return mk('or', w, tuple(l))


def mk_xor(a, b, w):
    ta, tb = type(a) is int, type(b) is int
    if ta and tb:
        return a ^ b
    if ta:
        a, b, ta, tb = b, a, tb, ta
    if tb:
        if b == 0:
            return a
        if a.op == 'concat' and any(type(p) is int for p, _ in a.a):
            return _split(mk_xor, a, b, w, a.a, ((b, w),))
        if a.op == 'ite' and type(a.a[1]) is int and type(a.a[2]) is int:
            return ite(a.a[0], a.a[1] ^ b, a.a[2] ^ b, w)
        if a.op == 'xor':
            if type(a.a[0]) is int:
                c = a.a[0] ^ b
                if c == 0:
                    r = a.a[1:]
                    return r[0] if len(r) == 1 else mk('xor', w, r)
                return mk('xor', w, (c,) + a.a[1:])
            return mk('xor', w, (b,) + a.a)
        return mk('xor', w, (b, a))
    if a is b:
        return 0
    if a.op == 'concat' or b.op == 'concat':
        pa, pb = pieces(a, w), pieces(b, w)
        if _aligned(pa, pb) or _disjoint(pa, pb):
            return _split(mk_xor, a, b, w, pa, pb)
    if a.op == 'xor' or b.op == 'xor':
        xa = a.a if a.op == 'xor' else (a,)
        xb = b.a if b.op == 'xor' else (b,)
        c = 0
        if type(xa[0]) is int:
            c ^= xa[0]
            xa = xa[1:]
        if type(xb[0]) is int:
            c ^= xb[0]
            xb = xb[1:]
        s = set(xa).symmetric_difference(xb)
        l = sorted(s, key=_key)
    else:
        c = 0
        l = [a, b] if a.id < b.id else [b, a]
    return _xorn(c, l, w)


def xor_bits(xs):
    c = 0
    s = set()
    for x in xs:
        if type(x) is int:
            c ^= x
        elif x.op == 'xor':
            y = x.a
            if type(y[0]) is int:
                c ^= y[0]
                y = y[1:]
            s.symmetric_difference_update(y)
        elif x in s:
            s.remove(x)
        else:
            s.add(x)
    return _xorn(c, sorted(s, key=_key), 1)


def _xorn(c, l, w):
    if not l:
        return c
    if w > 1:
        its = [x for x in l if x.op == 'ite']
        if its and len(l) > 1:
            conds = set()
            sl = None
            for x in its:
                cc, p, q = x.a
                hit = cc in conds
                conds.add(cc)
                if not hit and len(l) <= 6:
                    if sl is None:
                        sl = set(l)
                    for y in (p, q):
                        if type(y) is T and (y in sl or y.op == 'xor' and 2 * len(sl.intersection(y.a)) >= len(y.a)):
                            hit = True
                            break
                if hit:
                    pp = []
                    qq = []
                    for y in l:
                        if y is x:
                            continue
                        if y.op == 'ite' and y.a[0] is cc:
                            pp.append(y.a[1])
                            qq.append(y.a[2])
                        else:
                            pp.append(y)
                            qq.append(y)
                    r1 = mk_xor(p, c, w)
                    for y in pp:
                        r1 = mk_xor(r1, y, w)
                    r2 = mk_xor(q, c, w)
                    for y in qq:
                        r2 = mk_xor(r2, y, w)
                    return ite(cc, r1, r2, w)
    if c == 0:
        if len(l) == 1:
            return l[0]
        return mk('xor', w, tuple(l))
    if len(l) == 1:
        return mk_xor(l[0], c, w)
    return mk('xor', w, (c,) + tuple(l))


def ite(c, a, b, w):
    if type(c) is int:
        return a if c else b
    if a is b:
        return a
    if type(a) is int and type(b) is int and a == b:
        return a
    nc = _isnot(c, 1)
    if nc is not None:
        c, a, b = nc, b, a
    if type(a) is T and a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
        if a is b:
            return a
    if type(b) is T and b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
        if a is b:
            return a
    if w == 1:
        if type(a) is int:
            if a:
                return mk_or(c, b, 1)
            return mk_and(mk_not(c, 1), b, 1)
        if type(b) is int:
            if b:
                return mk_or(mk_not(c, 1), a, 1)
            return mk_and(c, a, 1)
    elif type(a) is int and type(b) is int:
        m = (1 << w) - 1
        if a == m and b == 0:
            return sext(c, 1, w)
        if a == 0 and b == m:
            return sext(mk_not(c, 1), 1, w)
        if a == 1 and b == 0:
            return zext(c, 1, w)
        if a == 0 and b == 1:
            return zext(mk_not(c, 1), 1, w)
    return mk('ite', w, (c, a, b))


# ---------------------------------------------------------------- arithmetic
def _lowzeros(x, w):
    if type(x) is int:
        if x == 0:
            return w
        return (x & -x).bit_length() - 1
    if x.op == 'concat':
        p, pw = x.a[0]
        if type(p) is int:
            return (_lowzeros(p, pw) if p else pw)
    return 0


def _bitlen(x, w):
    """number of significant bits by structure (highest possibly-set bit)"""
    if type(x) is int:
        return x.bit_length()
    if x.op == 'concat':
        p, pw = x.a[-1]
        if type(p) is int and p == 0:
            return w - pw
    return w


def mk_add(a, b, w):
    ta, tb = type(a) is int, type(b) is int
    if ta and tb:
        return (a + b) & ((1 << w) - 1)
    if ta:
        a, b, ta, tb = b, a, tb, ta
    if tb:
        if b == 0:
            return a
        if a.op == 'add' and type(a.a[1]) is int:
            return mk_add(a.a[0], (a.a[1] + b) & ((1 << w) - 1), w)
        if a.op == 'concat':
            if _disjoint(a.a, ((b, w),)) and _addable(a, b, w):
                return mk_or(a, b, w)
        return mk('add', w, (a, b))
    if w == 1:
        return mk_xor(a, b, 1)
    if a.op == 'concat' and b.op == 'concat':
        if _zdisjoint(a.a, b.a):
            return mk_or(a, b, w)
    # (x - y) + y -> x
    if a.op == 'sub' and a.a[1] is b:
        return a.a[0]
    if b.op == 'sub' and b.a[1] is a:
        return b.a[0]
    # pull constants outwards
    if a.op == 'add' and type(a.a[1]) is int:
        return mk_add(mk_add(a.a[0], b, w), a.a[1], w)
    if b.op == 'add' and type(b.a[1]) is int:
        return mk_add(mk_add(a, b.a[0], w), b.a[1], w)
    # (x with low bits cleared) + (low bits of x) is handled as concat/or above
    if a.id > b.id:
        a, b = b, a
    return mk('add', w, (a, b))


def _addable(a, b, w):
    # adding const b to concat a without carries: every T piece region has zero bits in b
    pos = 0
    for p, pw in a.a:
        seg = (b >> pos) & ((1 << pw) - 1)
        if type(p) is T:
            if seg:
                return False
        elif p & seg:
            return False
        pos += pw
    return True


def _zdisjoint(pa, pb):
    i = j = 0
    ia = ib = 0
    while i < len(pa) and j < len(pb):
        xa, wa = pa[i]
        xb, wb = pb[j]
        n = min(wa - ia, wb - ib)
        m = (1 << n) - 1
        za = type(xa) is int and ((xa >> ia) & m) == 0
        zb = type(xb) is int and ((xb >> ib) & m) == 0
        if not (za or zb):
            return False
        ia += n
        ib += n
        if ia == wa:
            i += 1
            ia = 0
        if ib == wb:
            j += 1
            ib = 0
    return True


def mk_sub(a, b, w):
    ta, tb = type(a) is int, type(b) is int
    if ta and tb:
        return (a - b) & ((1 << w) - 1)
    if tb:
        return mk_add(a, (-b) & ((1 << w) - 1), w)
    if a is b:
        return 0
    if w == 1:
        return mk_xor(a, b, 1)
    if ta and a == 0:
        # neg of a zero-extended bit -> sext
        if b.op == 'concat' and len(b.a) == 2 and b.a[0][1] == 1 and b.a[1][0] == 0 and type(b.a[1][0]) is int:
            return sext(b.a[0][0], 1, w)
        if b.op == 'ite' and type(b.a[1]) is int and type(b.a[2]) is int:
            return ite(b.a[0], -b.a[1] & ((1 << w) - 1), -b.a[2] & ((1 << w) - 1), w)
        if b.op == 'sub' and type(b.a[0]) is int and b.a[0] == 0:
            return b.a[1]
        if b.op == 'sext' and b.a[0].w == 1:
            return zext(b.a[0], 1, w)
    # x - (y & ~low) with y = x + c   ->  low(y) - c
    if b.op == 'concat' and not ta:
        k = _lowzeros(b, w)
        if k and len(b.a) == 2 and type(b.a[1][0]) is T and b.a[1][0].op == 'extract':
            y, hi, lo = b.a[1][0].a
            if lo == k and y.w == w and hi == w - 1:
                c = None
                if y is a:
                    c = 0
                elif y.op == 'add' and type(y.a[1]) is int:
                    if y.a[0] is a:
                        c = y.a[1]
                    elif a.op == 'add' and type(a.a[1]) is int and a.a[0] is y.a[0]:
                        c = (y.a[1] - a.a[1]) & ((1 << w) - 1)
                elif a.op == 'add' and type(a.a[1]) is int and a.a[0] is y:
                    c = -a.a[1] & ((1 << w) - 1)
                if c is not None:
                    return mk_sub(zext(extract(y, k - 1, 0), k, w), c, w)
    if not ta:
        if a.op == 'add':
            if a.a[0] is b:
                return a.a[1]
            if a.a[1] is b:
                return a.a[0]
        # constants outwards
        if a.op == 'add' and type(a.a[1]) is int:
            return mk_add(mk_sub(a.a[0], b, w), a.a[1], w)
        if b.op == 'add' and type(b.a[1]) is int:
            return mk_add(mk_sub(a, b.a[0], w), (-b.a[1]) & ((1 << w) - 1), w)
    return mk('sub', w, (a, b))


def mk_mul(a, b, w):
    ta, tb = type(a) is int, type(b) is int
    if ta and tb:
        return (a * b) & ((1 << w) - 1)
    if ta:
        a, b, ta, tb = b, a, tb, ta
    if tb:
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return mk_shl(a, b.bit_length() - 1, w)
        if b == (1 << w) - 1:
            return mk_sub(0, a, w)
        if a.op == 'ite' and type(a.a[1]) is int and type(a.a[2]) is int:
            m = (1 << w) - 1
            return ite(a.a[0], a.a[1] * b & m, a.a[2] * b & m, w)
        if a.op == 'mul' and type(a.a[1]) is int:
            return mk_mul(a.a[0], a.a[1] * b & ((1 << w) - 1), w)
        return mk('mul', w, (a, b))
    if w == 1:
        return mk_and(a, b, 1)
    for x, y in ((a, b), (b, a)):
        if x.op == 'concat' and len(x.a) == 2 and x.a[0][1] == 1 and type(x.a[1][0]) is int and x.a[1][0] == 0:
            return ite(x.a[0][0], y, 0, w)
    if a.id > b.id:
        a, b = b, a
    return mk('mul', w, (a, b))


def mk_shl(a, k, w):
    if type(k) is int:
        if k >= w:
            return 0
        if type(a) is int:
            return (a << k) & ((1 << w) - 1)
        if k == 0:
            return a
        return concat(((0, k), (extract(a, w - 1 - k, 0), w - k)))
    return _symshift('shl', a, k, w)


def mk_lshr(a, k, w):
    if type(k) is int:
        if k >= w:
            return 0
        if type(a) is int:
            return a >> k
        if k == 0:
            return a
        return concat(((extract(a, w - 1, k), w - k), (0, k)))
    return _symshift('lshr', a, k, w)


def mk_ashr(a, k, w):
    if type(k) is int:
        if k >= w:
            k = w - 1
        if k == 0:
            return a
        return sext(extract(a, w - 1, k), w - k, w)
    return _symshift('ashr', a, k, w)


def _symshift(op, a, k, w):
    # barrel shifter over the low bits of k; bits beyond log2(w) force the overshift value
    if type(a) is int and a == 0:
        return 0
    f = {'shl': mk_shl, 'lshr': mk_lshr, 'ashr': mk_ashr}[op]
    nb = (w - 1).bit_length()
    r = a
    for i in range(nb):
        bit = extract(k, i, i)
        r = ite(bit, f(r, 1 << i, w), r, w)
    if k.w > nb:
        hi = extract(k, k.w - 1, nb)
        if not (type(hi) is int and hi == 0):
            big = mk_not(mk_eq(hi, 0, k.w - nb), 1)
            r = ite(big, f(a, w, w) if op != 'ashr' else mk_ashr(a, w - 1, w), r, w)
    return r


def fshl(a, b, k, w):
    if type(k) is int:
        k %= w
        if k == 0:
            return a
        if type(a) is int and type(b) is int:
            return ((a << k) | (b >> (w - k))) & ((1 << w) - 1)
        return concat(((extract(b, w - 1, w - k), k), (extract(a, w - 1 - k, 0), w - k)))
    kk = mk_and(k, w - 1, w)
    return mk_or(mk_shl(a, kk, w), mk_lshr(mk_lshr(b, 1, w), mk_sub(w - 1, kk, w), w), w)


def fshr(a, b, k, w):
    if type(k) is int:
        k %= w
        if k == 0:
            return b
        return fshl(a, b, w - k, w)
    kk = mk_and(k, w - 1, w)
    return mk_or(mk_shl(mk_shl(a, 1, w), mk_sub(w - 1, kk, w), w), mk_lshr(b, kk, w), w)


def bswap(a, w):
    n = w // 8
    if type(a) is int:
        return int.from_bytes(a.to_bytes(n, 'little'), 'big')
    return concat([(extract(a, 8 * i + 7, 8 * i), 8) for i in range(n - 1, -1, -1)])


def bitreverse(a, w):
    if type(a) is int:
        return int(bin(a)[2:].zfill(w)[::-1], 2)
    return concat([(extract(a, i, i), 1) for i in range(w - 1, -1, -1)])


def _canbe(t, v, depth):
    """False only when the term t cannot take the value v."""
    if type(t) is int:
        return t == v
    if t.op == 'ite' and depth:
        return _canbe(t.a[1], v, depth - 1) or _canbe(t.a[2], v, depth - 1)
    lo, hi = urange(t)
    return lo <= v <= hi


def mk_eq(a, b, w):
    ta, tb = type(a) is int, type(b) is int
    if ta and tb:
        return 1 if a == b else 0
    if a is b:
        return 1
    if ta:
        a, b, ta, tb = b, a, tb, ta
    if w == 1:
        if tb:
            return a if b else mk_not(a, 1)
        return mk_not(mk_xor(a, b, 1), 1)
    if tb:
        lo, hi = urange(a)
        if b < lo or b > hi:
            return 0
        if a.op == 'concat':
            # drop constant pieces
            pos = 0
            rest = []
            cst = False
            for p, pw in a.a:
                seg = (b >> pos) & ((1 << pw) - 1)
                if type(p) is int:
                    cst = True
                    if p != seg:
                        return 0
                else:
                    rest.append((p, pw, seg))
                pos += pw
            if cst:
                if len(rest) == 1:
                    return mk_eq(rest[0][0], rest[0][2], rest[0][1])
                v = 0
                pos = 0
                for p, pw, seg in rest:
                    v |= seg << pos
                    pos += pw
                return mk_eq(concat([(p, pw) for p, pw, _ in rest]), v, pos)
        elif a.op == 'xor' and type(a.a[0]) is int:
            r = a.a[1:]
            return mk_eq(r[0] if len(r) == 1 else mk('xor', w, r), a.a[0] ^ b, w)
        elif a.op == 'add' and type(a.a[1]) is int:
            return mk_eq(a.a[0], (b - a.a[1]) & ((1 << w) - 1), w)
        elif a.op == 'ite' and (type(a.a[1]) is int or type(a.a[2]) is int):
            return ite(a.a[0], mk_eq(a.a[1], b, w), mk_eq(a.a[2], b, w), 1)
        elif a.op == 'ite' and not _canbe(a.a[2], b, 8):
            return ite(a.a[0], mk_eq(a.a[1], b, w), 0, 1)
        elif a.op == 'ite' and not _canbe(a.a[1], b, 8):
            return ite(a.a[0], 0, mk_eq(a.a[2], b, w), 1)
        elif a.op == 'sext':
            y = a.a[0]
            c = extract(b, y.w - 1, 0)
            if sext(c, y.w, w) != b:
                return 0
            return mk_eq(y, c, y.w)
        return mk('eq', 1, (a, b))
    if a.id > b.id:
        a, b = b, a
    return mk('eq', 1, (a, b))


def mk_ult(a, b, w):
    ta, tb = type(a) is int, type(b) is int
    if ta and tb:
        return 1 if a < b else 0
    if a is b:
        return 0
    la, ha = (a, a) if ta else urange(a)
    lb, hb = (b, b) if tb else urange(b)
    if ha < lb:
        return 1
    if la >= hb:
        return 0
    if not ta and (a.op == 'add' or a in sums) and not tb:
        # an addition that cannot wrap is at least each operand
        x, y = a.a if a.op == 'add' else sums[a]
        if (x is b or y is b) and (x if type(x) is int else urange(x)[1]) + (y if type(y) is int else urange(y)[1]) < 1 << w:
            return 0
    if tb:
        if b == 1:
            return mk_eq(a, 0, w)
        # strip zero high bits
        n = _bitlen(a, w)
        if n < w and b < (1 << n):
            return mk_ult(extract(a, n - 1, 0), b, n)
        if b == 1 << (w - 1):
            return mk_not(extract(a, w - 1, w - 1), 1)
    elif ta:
        if a == 0:
            return mk_not(mk_eq(b, 0, w), 1)
        n = _bitlen(b, w)
        if n < w and a < (1 << n):
            return mk_ult(a, extract(b, n - 1, 0), n)
        if a == (1 << (w - 1)) - 1:
            return extract(b, w - 1, w - 1)
    return mk('ult', 1, (a, b, w))


def mk_slt(a, b, w):
    ta, tb = type(a) is int, type(b) is int
    if ta and tb:
        return 1 if tosigned(a, w) < tosigned(b, w) else 0
    if a is b:
        return 0
    la, ha = (tosigned(a, w),) * 2 if ta else srange(a)
    lb, hb = (tosigned(b, w),) * 2 if tb else srange(b)
    if ha < lb:
        return 1
    if la >= hb:
        return 0
    if la >= 0 and lb >= 0:
        return mk_ult(a, b, w)
    if tb and b == 0:
        return extract(a, w - 1, w - 1)
    if ta and a == (1 << w) - 1:
        return mk_not(extract(b, w - 1, w - 1), 1)
    return mk('slt', 1, (a, b, w))


def mk_udiv(a, b, w):
    if type(b) is int:
        if type(a) is int:
            return a // b
        if b & (b - 1) == 0:
            return mk_lshr(a, b.bit_length() - 1, w)
    return mk('udiv', w, (a, b))


def mk_urem(a, b, w):
    if type(b) is int:
        if type(a) is int:
            return a % b
        if b & (b - 1) == 0:
            return mk_and(a, b - 1, w)
    return mk('urem', w, (a, b))


def mk_sdiv(a, b, w):
    if type(a) is int and type(b) is int:
        x, y = tosigned(a, w), tosigned(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & ((1 << w) - 1)
    if type(b) is int and 0 < b < (1 << (w - 1)):
        if srange(a)[0] >= 0:
            return mk_udiv(a, b, w)
        s = extract(a, w - 1, w - 1)
        q1 = mk_udiv(a, b, w)
        q2 = mk_sub(0, mk_udiv(mk_sub(0, a, w), b, w), w)
        return ite(s, q2, q1, w)
    return mk('sdiv', w, (a, b))


def mk_srem(a, b, w):
    if type(a) is int and type(b) is int:
        x, y = tosigned(a, w), tosigned(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & ((1 << w) - 1)
    if type(b) is int and 0 < b < (1 << (w - 1)):
        if srange(a)[0] >= 0:
            return mk_urem(a, b, w)
        s = extract(a, w - 1, w - 1)
        return ite(s, mk_sub(0, mk_urem(mk_sub(0, a, w), b, w), w), mk_urem(a, b, w), w)
    return mk('srem', w, (a, b))


# overflow flags ------------------------------------------------------------
def ovf(kind, signed, a, b, w):
    if type(a) is int and type(b) is int:
        x, y = (tosigned(a, w), tosigned(b, w)) if signed else (a, b)
        r = x + y if kind == 'add' else x - y if kind == 'sub' else x * y
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        return 0 if lo <= r <= hi else 1
    if signed:
        (la, ha), (lb, hb) = sr_of(a, w), sr_of(b, w)
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    else:
        (la, ha), (lb, hb) = ur_of(a, w), ur_of(b, w)
        lo, hi = 0, (1 << w) - 1
    if kind == 'add':
        l, h = la + lb, ha + hb
    elif kind == 'sub':
        l, h = la - hb, ha - lb
    else:
        c = (la * lb, la * hb, ha * lb, ha * hb)
        l, h = min(c), max(c)
    if lo <= l and h <= hi:
        return 0
    if h < lo or l > hi:
        return 1
    if kind == 'add' and not signed:
        return mk_ult(mk_add(a, b, w), a, w)
    if kind == 'sub' and not signed:
        return mk_ult(a, b, w)
    # general: compute in wider width
    if kind == 'mul':
        W = 2 * w
    else:
        W = w + 1
    e = sext if signed else zext
    A, B = e(a, w, W), e(b, w, W)
    r = {'add': mk_add, 'sub': mk_sub, 'mul': mk_mul}[kind](A, B, W)
    return mk_not(mk_eq(r, e(trunc(r, W, w), w, W), W), 1)


def ur_of(x, w):
    return (x, x) if type(x) is int else urange(x)


def sr_of(x, w):
    if type(x) is int:
        v = tosigned(x, w)
        return (v, v)
    return srange(x)


# ---------------------------------------------------------------- ranges
def urange(t):
    r = t.ur
    if r is not None:
        return r
    w = t.w
    full = (0, (1 << w) - 1)
    op = t.op
    r = full
    if op == 'concat':
        lo = hi = 0
        pos = 0
        for p, pw in t.a:
            l, h = (p, p) if type(p) is int else urange(p)
            lo += l << pos
            hi += h << pos
            pos += pw
        r = (lo, hi)
    elif op == 'add':
        (a, b), (c, d) = ur_of(t.a[0], w), ur_of(t.a[1], w)
        if b + d <= full[1]:
            r = (a + c, b + d)
        elif type(t.a[1]) is int:
            # x + (-c): treat as subtraction if never wraps below zero
            c = (1 << w) - t.a[1]
            if a - c >= 0:
                r = (a - c, b - c)
    elif op == 'sub':
        (a, b), (c, d) = ur_of(t.a[0], w), ur_of(t.a[1], w)
        if a - d >= 0:
            r = (a - d, b - c)
    elif op == 'mul':
        (a, b), (c, d) = ur_of(t.a[0], w), ur_of(t.a[1], w)
        if b * d <= full[1]:
            r = (a * c, b * d)
    elif op == 'ite':
        (a, b), (c, d) = ur_of(t.a[1], w), ur_of(t.a[2], w)
        r = (min(a, c), max(b, d))
    elif op == 'extract':
        x, hi, lo = t.a
        l, h = urange(x)
        if (l >> (hi + 1)) == (h >> (hi + 1)):
            m = (1 << (hi + 1)) - 1
            r = ((l & m) >> lo, (h & m) >> lo)
    elif op == 'udiv':
        if type(t.a[1]) is int and t.a[1]:
            a, b = ur_of(t.a[0], w)
            r = (a // t.a[1], b // t.a[1])
    elif op == 'urem':
        if type(t.a[1]) is int and t.a[1]:
            a, b = ur_of(t.a[0], w)
            r = (0, min(b, t.a[1] - 1))
    elif op == 'and':
        r = (0, min(ur_of(x, w)[1] for x in t.a))
    elif op in ('or', 'xor'):
        rs = [ur_of(x, w) for x in t.a]
        r = (max(l for l, _ in rs) if op == 'or' else 0, (1 << max(h for _, h in rs).bit_length()) - 1)
    elif op == 'sext':
        a, b = srange(t.a[0])
        if a >= 0:
            r = (a, b)
        elif b < 0:
            r = (a + (1 << w), b + (1 << w))
    if r == full and t.sr is not None:
        a, b = t.sr
        if a >= 0:
            r = (a, b)
    t.ur = r
    return r


def srange(t):
    r = t.sr
    if r is not None:
        return r
    w = t.w
    h = 1 << (w - 1)
    full = (-h, h - 1)
    op = t.op
    r = full
    if op == 'add':
        (a, b), (c, d) = sr_of(t.a[0], w), sr_of(t.a[1], w)
        if a + c >= -h and b + d < h:
            r = (a + c, b + d)
    elif op == 'sub':
        (a, b), (c, d) = sr_of(t.a[0], w), sr_of(t.a[1], w)
        if a - d >= -h and b - c < h:
            r = (a - d, b - c)
    elif op == 'mul':
        (a, b), (c, d) = sr_of(t.a[0], w), sr_of(t.a[1], w)
        v = (a * c, a * d, b * c, b * d)
        if min(v) >= -h and max(v) < h:
            r = (min(v), max(v))
            if t.a[0] is t.a[1] and r[0] < 0:
                r = (0, r[1])
    elif op == 'sext':
        r = srange(t.a[0])
    elif op == 'ite':
        (a, b), (c, d) = sr_of(t.a[1], w), sr_of(t.a[2], w)
        r = (min(a, c), max(b, d))
    elif op == 'concat':
        p, pw = t.a[-1]
        if type(p) is T:
            lo = hi = 0
            pos = 0
            for p, pw in t.a[:-1]:
                l, hh = (p, p) if type(p) is int else urange(p)
                lo += l << pos
                hi += hh << pos
                pos += pw
            l, hh = srange(t.a[-1][0])
            r = (lo + (l << pos), hi + (hh << pos))
    elif op == 'extract':
        x, hi, lo = t.a
        if hi == x.w - 1:
            a, b = srange(x)
            r = (a >> lo, b >> lo)
        else:
            a, b = srange(x)
            if -(1 << hi) <= a and b < (1 << hi):
                r = (a >> lo, b >> lo)
    if r == full:
        a, b = urange(t) if t.ur is None else t.ur
        if b < h:
            r = (a, b)
        elif a >= h:
            r = (a - 2 * h, b - 2 * h)
    if op != 'var' or r != full:
        # a variable with a signed range is meant as a signed number
        t.sr = r
    return r


# ---------------------------------------------------------------- evaluation
def topo(roots):
    """all T reachable from roots, children before parents (ids are topological)"""
    seen = set()
    st = [r for r in roots if type(r) is T]
    out = []
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        out.append(t)
        for c in children(t):
            if c not in seen:
                st.append(c)
    out.sort(key=_key)
    return out


def eval1(t, V, UF):
    """value of t given dict V of T->int for its children"""
    op = t.op
    a = t.a
    w = t.w
    if op == 'concat':
        r = 0
        pos = 0
        for p, pw in a:
            r |= (p if type(p) is int else V[p]) << pos
            pos += pw
        return r
    if op == 'extract':
        return (V[a[0]] >> a[2]) & ((1 << w) - 1)
    if op == 'xor':
        r = 0
        for x in a:
            r ^= x if type(x) is int else V[x]
        return r
    if op == 'and':
        r = (1 << w) - 1
        for x in a:
            r &= x if type(x) is int else V[x]
        return r
    if op == 'or':
        r = 0
        for x in a:
            r |= x if type(x) is int else V[x]
        return r
    if op == 'ite':
        x = a[1] if V[a[0]] else a[2]
        return x if type(x) is int else V[x]
    if op == 'uf':
        return UF(a[0], [x if type(x) is int else V[x] for x in a[1]], w)
    if op == 'sext':
        return sext(V[a[0]], a[0].w, w)
    if op == 'var':
        return V[t]
    x = a[0] if type(a[0]) is int else V[a[0]]
    y = a[1] if type(a[1]) is int else V[a[1]]
    m = (1 << w) - 1
    if op == 'add':
        return (x + y) & m
    if op == 'sub':
        return (x - y) & m
    if op == 'mul':
        return (x * y) & m
    if op == 'eq':
        return 1 if x == y else 0
    if op == 'ult':
        return 1 if x < y else 0
    if op == 'slt':
        return 1 if tosigned(x, a[2]) < tosigned(y, a[2]) else 0
    if op == 'udiv':
        return m if y == 0 else x // y
    if op == 'urem':
        return x if y == 0 else x % y
    if op == 'sdiv':
        return mk_sdiv(x, y, w) if y else m
    if op == 'srem':
        return mk_srem(x, y, w) if y else x
    raise NotImplementedError(op)


def defuf(name, args, w):
    """default UF interpretation for simulation: a fixed pseudo-random function"""
    import hashlib
    h = b''
    s = (name + '|' + ','.join('%x' % x for x in args)).encode()
    i = 0
    while len(h) * 8 < w:
        h += hashlib.blake2b(s + b'#%d' % i).digest()
        i += 1
    return int.from_bytes(h, 'little') & ((1 << w) - 1)


def evaluate(roots, env, UF=defuf, order=None):
    """env: dict T(var)->int or a function var->int.  Returns dict T->int"""
    V = {}
    for t in (order if order is not None else topo(roots)):
        if t.op == 'var':
            V[t] = env(t) if callable(env) else env.get(t, 0)
        else:
            V[t] = eval1(t, V, UF)
    return V


def val(x, V):
    return x if type(x) is int else V[x]


def substitute(roots, sub):
    """Rebuild roots with sub: dict T -> int/T (any node)."""
    M = {}
    for t in topo(roots):
        if t in sub:
            M[t] = sub[t]
            continue
        ch = children(t)
        if all(M[c] is c for c in ch):
            M[t] = t
            continue
        M[t] = rebuild(t, lambda x: x if type(x) is int else M[x])
    return [r if type(r) is int else M[r] for r in roots]


def rebuild(t, g):
    op = t.op
    a = t.a
    w = t.w
    if op == 'concat':
        return concat([(g(p), pw) for p, pw in a])
    if op == 'extract':
        return extract(g(a[0]), a[1], a[2])
    if op == 'sext':
        return sext(g(a[0]), a[0].w, w)
    if op in ('xor', 'and', 'or'):
        f = {'xor': mk_xor, 'and': mk_and, 'or': mk_or}[op]
        r = g(a[0])
        for x in a[1:]:
            r = f(r, g(x), w)
        return r
    if op == 'ite':
        return ite(g(a[0]), g(a[1]), g(a[2]), w)
    if op == 'uf':
        return uf(a[0], [g(x) for x in a[1]], w)
    if op == 'var':
        return t
    x, y = g(a[0]), g(a[1])
    if op in ('ult', 'slt'):
        return (mk_ult if op == 'ult' else mk_slt)(x, y, a[2])
    if op == 'eq':
        return mk_eq(x, y, a[0].w if type(a[0]) is T else a[1].w)
    return {'add': mk_add, 'sub': mk_sub, 'mul': mk_mul, 'udiv': mk_udiv, 'urem': mk_urem,
            'sdiv': mk_sdiv, 'srem': mk_srem}[op](x, y, w)


# ---------------------------------------------------------------- z3
def to_z3(roots, leafmap=None, ufs=None):
    """Convert; leafmap: dict T -> z3 expr overriding nodes (cuts). Returns list of z3 exprs
    and the dict of variable T -> z3 const."""
    import z3
    M = dict(leafmap) if leafmap else {}
    vs = {}
    ufs = {} if ufs is None else ufs

    def g(x, w):
        return z3.BitVecVal(x, w) if type(x) is int else M[x]

    # topological walk stopping at cuts
    seen = set(M)
    st = [r for r in roots if type(r) is T]
    out = []
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        out.append(t)
        st.extend(c for c in children(t) if c not in seen)
    out.sort(key=_key)
    one = z3.BitVecVal(1, 1)
    zero = z3.BitVecVal(0, 1)
    for t in out:
        op, a, w = t.op, t.a, t.w
        if op == 'var':
            e = z3.BitVec('%s!%d' % (a[0], t.id), w)
            vs[t] = e
        elif op == 'concat':
            e = z3.Concat([g(p, pw) for p, pw in reversed(a)])
        elif op == 'extract':
            e = z3.Extract(a[1], a[2], M[a[0]])
        elif op == 'sext':
            e = z3.SignExt(w - a[0].w, M[a[0]])
        elif op == 'xor':
            e = g(a[0], w)
            for x in a[1:]:
                e = e ^ g(x, w)
        elif op == 'and':
            e = g(a[0], w)
            for x in a[1:]:
                e = e & g(x, w)
        elif op == 'or':
            e = g(a[0], w)
            for x in a[1:]:
                e = e | g(x, w)
        elif op == 'ite':
            e = z3.If(M[a[0]] == one, g(a[1], w), g(a[2], w))
        elif op == 'uf':
            ws = []
            args = []
            for x in a[1]:
                if type(x) is int:
                    args.append(x)
                    ws.append(None)
                else:
                    args.append(x)
                    ws.append(x.w)
            if a[0] in UFDEF:
                M[t] = UFDEF[a[0]][1](*[M[x] for x in a[1]])
                continue
            sig = UFSIG.get(a[0])
            if sig is None:
                # a fresh constant per term (equal terms are one term): weaker than congruence, so sound
                M[t] = z3.BitVec('%s!%d' % (a[0], t.id), w)
                continue
            f = ufs.get(a[0])
            if f is None:
                f = z3.Function(a[0], *[z3.BitVecSort(x) for x in sig], z3.BitVecSort(w))
                ufs[a[0]] = f
            e = f(*[g(x, sw) for x, sw in zip(a[1], sig)])
        elif op == 'eq':
            ww = a[0].w if type(a[0]) is T else a[1].w
            e = z3.If(g(a[0], ww) == g(a[1], ww), one, zero)
        elif op == 'ult':
            e = z3.If(z3.ULT(g(a[0], a[2]), g(a[1], a[2])), one, zero)
        elif op == 'slt':
            e = z3.If(g(a[0], a[2]) < g(a[1], a[2]), one, zero)
        else:
            x, y = g(a[0], w), g(a[1], w)
            e = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y,
                 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
                 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
        M[t] = e
    res = []
    for r in roots:
        if type(r) is int:
            res.append(r)
        else:
            res.append(M[r])
    return res, vs


UFSIG = {}


def declare_uf(name, argw):
    UFSIG[name] = tuple(argw)
