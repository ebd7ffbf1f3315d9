"""LLVM IR (textual) front end: parses a linked module and compiles each function, lazily, into
Python closures that work on Python ints or symbolic terms (vlib.terms)."""
import re
import subprocess
from . import terms as T

I_RE = re.compile(r'^i(\d+)$')


class Module:
    def __init__(self, path):
        self.funcs = {}      # name -> Func
        self.decls = set()
        self.globals = {}    # name -> (type, init text, const)
        self.types = {}
        self.parse(open(path).read())
        names = list(self.funcs) + list(self.decls)
        out = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True).stdout.split('\n')
        self.dem = dict(zip(names, out))
        self.gaddr = {}
        self.gobjs = []

    def parse(self, txt):
        lines = txt.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = Func(self, l, lines[i + 1:j])
                self.funcs[f.name] = f
                i = j
            elif l.startswith('declare '):
                m = re.search(r'@"?([\w.$]+)"?\(', l)
                self.decls.add(m.group(1))
            elif l.startswith('@'):
                m = re.match(r'^@("(?:[^"]*)"|[\w.$]+) = (.*)$', l)
                self.globals[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('%'):
                m = re.match(r'^%("(?:[^"]*)"|[\w.$:]+) = type (.*)$', l)
                self.types['%' + m.group(1)] = m.group(2)
            i += 1

    # ---------------------------------------------------------------- types
    def parse_type(self, s):
        """parse a type at the start of s; returns (type, rest).  type: ('i',w) ('p',) ('v',)
        ('a',n,t) ('s',(t..),packed)"""
        s = s.lstrip()
        if s.startswith('ptr'):
            return ('p',), s[3:]
        if s.startswith('void'):
            return ('v',), s[4:]
        m = re.match(r'i(\d+)', s)
        if m:
            return ('i', int(m.group(1))), s[m.end():]
        if s[0] == '[':
            m = re.match(r'\[\s*(\d+) x ', s)
            t, r = self.parse_type(s[m.end():])
            r = r.lstrip()
            assert r[0] == ']', r
            return ('a', int(m.group(1)), t), r[1:]
        if s[0] == '{' or s.startswith('<{'):
            packed = s[0] == '<'
            r = s[2 if packed else 1:].lstrip()
            ts = []
            while not r.startswith('}'):
                t, r = self.parse_type(r)
                ts.append(t)
                r = r.lstrip()
                if r[0] == ',':
                    r = r[1:].lstrip()
            return ('s', tuple(ts), packed), r[2 if packed else 1:]
        if s[0] == '%':
            m = re.match(r'%("[^"]*"|[\w.$:]+)', s)
            t, _ = self.parse_type(self.types[m.group(0)])
            return t, s[m.end():]
        if s.startswith('float') or s.startswith('double') or s[0] == '<':
            raise NotImplementedError('type ' + s[:30])
        raise NotImplementedError('type ' + s[:40])

    def sizeof(self, t):
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = self.alignof(t)
            return (b + a - 1) // a * a
        if k == 'p':
            return 8
        if k == 'a':
            return t[1] * self.sizeof(t[2])
        if k == 's':
            o, al = 0, 1
            for x in t[1]:
                if not t[2]:
                    a = self.alignof(x)
                    al = max(al, a)
                    o = (o + a - 1) // a * a
                o += self.sizeof(x)
            return (o + al - 1) // al * al
        raise NotImplementedError(t)

    def alignof(self, t):
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if k == 'p':
            return 8
        if k == 'a':
            return self.alignof(t[2])
        return 1 if t[2] else max([self.alignof(x) for x in t[1]] or [1])

    def fieldoff(self, t, i):
        o = 0
        for k, x in enumerate(t[1]):
            if not t[2]:
                a = self.alignof(x)
                o = (o + a - 1) // a * a
            if k == i:
                return o
            o += self.sizeof(x)
        raise IndexError

    # ---------------------------------------------------------------- globals
    def global_addr(self, name):
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.funcs or name in self.decls:
            oid = len(self.gobjs) + 1
            self.gobjs.append(('fn', name, None))
            a = self.gaddr[name] = oid << 32
            return a
        text = self.globals[name]
        m = re.search(r'\b(constant|global)\b', text)
        const = m.group(1) == 'constant'
        rest = text[m.end():].lstrip()
        t, r = self.parse_type(rest)
        oid = len(self.gobjs) + 1
        a = self.gaddr[name] = oid << 32
        self.gobjs.append(None)
        cells, _ = self.init_cells(t, r.lstrip())
        self.gobjs[oid - 1] = ('const' if const else 'data', name, cells)
        return a

    def init_cells(self, t, s):
        s = s.lstrip()
        k = t[0]
        if s.startswith('zeroinitializer'):
            return [0] * self.sizeof(t), s[15:]
        if s.startswith('undef') or s.startswith('poison'):
            return [None] * self.sizeof(t), s[5 if s[0] == 'u' else 6:]
        if k == 'i':
            m = re.match(r'-?\d+|true|false', s)
            v = {'true': 1, 'false': 0}.get(m.group(0))
            if v is None:
                v = int(m.group(0))
            return list((v & ((1 << (8 * self.sizeof(t))) - 1)).to_bytes(self.sizeof(t), 'little')), s[m.end():]
        if k == 'p':
            if s.startswith('null'):
                return [0] * 8, s[4:]
            m = re.match(r'@("[^"]*"|[\w.$]+)', s)
            if m:
                return list(self.global_addr(m.group(1).strip('"')).to_bytes(8, 'little')), s[m.end():]
            m = re.match(r'inttoptr \(i64 (\d+) to ptr\)', s)
            if m:
                return list(int(m.group(1)).to_bytes(8, 'little')), s[m.end():]
            raise NotImplementedError(s[:60])
        if k == 'a':
            if s[0] == 'c':
                out = []
                i = 2
                while s[i] != '"':
                    if s[i] == '\\':
                        if s[i + 1] == '\\':
                            out.append(0x5c)
                            i += 2
                        else:
                            out.append(int(s[i + 1:i + 3], 16))
                            i += 3
                    else:
                        out.append(ord(s[i]))
                        i += 1
                return out, s[i + 1:]
            assert s[0] == '[', s[:50]
            s = s[1:].lstrip()
            out = []
            while s[0] != ']':
                et, s = self.parse_type(s)
                c, s = self.init_cells(et, s)
                out += c
                s = s.lstrip()
                if s[0] == ',':
                    s = s[1:].lstrip()
            return out, s[1:]
        if k == 's':
            s = s[2 if t[2] else 1:].lstrip()
            out = [0] * self.sizeof(t)
            i = 0
            while s[0] != '}':
                et, s = self.parse_type(s)
                c, s = self.init_cells(et, s)
                o = self.fieldoff(t, i)
                out[o:o + len(c)] = c
                i += 1
                s = s.lstrip()
                if s[0] == ',':
                    s = s[1:].lstrip()
            return out, s[2 if t[2] else 1:]
        raise NotImplementedError(s[:60])


ATTR = re.compile(r'^(?:noundef|zeroext|signext|inreg|noalias|nonnull|readonly|readnone|writeonly|returned|nocapture|immarg|'
                  r'inrange\([^)]*\)|captures\([^)]*\)|range\([^)]*\)|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|'
                  r'align \d+|sret\((?:[^()]|\([^()]*\))*\)|byval\((?:[^()]|\([^()]*\))*\)|initializes\((?:[^()]|\([^()]*\))*\)|dead_on_unwind|dead_on_return|writable|nofree|noreturn|samesign|allocptr)\s+')


def strip_attrs(s):
    while True:
        m = ATTR.match(s)
        if not m:
            return s
        s = s[m.end():]


def split_args(s):
    out = []
    d = 0
    cur = ''
    q = False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{<':
                d += 1
            elif ch in ')]}>':
                d -= 1
            elif ch == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def match_paren(s, i):
    d = 0
    q = False
    while True:
        ch = s[i]
        if ch == '"':
            q = not q
        elif not q:
            if ch == '(':
                d += 1
            elif ch == ')':
                d -= 1
                if d == 0:
                    return i
        i += 1


class Func:
    def __init__(self, mod, header, body):
        self.mod = mod
        self.header = header
        self.body = body
        m = re.search(r'@"?([\w.$]+)"?\(', header)
        self.name = m.group(1)
        self.compiled = None
        self.ninstr = 0

    def params(self):
        h = self.header
        m = re.search(r'@"?([\w.$]+)"?\(', h)
        i = m.end() - 1
        j = match_paren(h, i)
        ps = []
        for a in split_args(h[i + 1:j]):
            t, r = self.mod.parse_type(a)
            nm = re.search(r'(%[\w.$"-]+)$', a)
            ps.append((t, nm.group(1) if nm else None, a))
        return ps

    def compile(self, E):
        if self.compiled is None:
            Compiler(self, E)
        return self


class Compiler:
    def __init__(self, fn, E):
        self.fn = fn
        self.mod = fn.mod
        self.E = E
        self.regs = {}
        self.types = {}
        self.rt = {}
        self.blocks = []      # (label, [lines])
        self.parse_blocks()
        self.gen()

    def reg(self, name):
        r = self.regs.get(name)
        if r is None:
            r = self.regs[name] = len(self.regs) + 1   # slot 0 = return value
        return r

    def parse_blocks(self):
        cur = None
        lines = []
        pend = None
        for l in self.fn.body:
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            l = re.sub(r'\s+; preds = .*$', '', l) if not l.startswith(' ') else l
            if not l.startswith(' '):
                m = re.match(r'^("[^"]*"|[\w.$-]+):', l)
                cur = m.group(1)
                lines = []
                self.blocks.append((cur, lines))
                continue
            if cur is None:
                cur = 'entry'
                lines = []
                self.blocks.append((cur, lines))
            s = l.strip()
            if pend is not None:
                pend += ' ' + s
                if s == ']' or s.startswith(']'):
                    lines.append(pend)
                    pend = None
                continue
            if s.startswith('switch ') and not s.endswith(']'):
                pend = s
                continue
            # strip metadata
            s = re.sub(r', ![a-zA-Z_.]+ ![0-9]+', '', s)
            s = re.sub(r', !(noundef|range|prof|noalias|alias\.scope|llvm\.loop|srcloc|nonnull|align|guid|callees) [^,]*', '', s)
            lines.append(s)

    def const(self, t, s):
        s = s.strip()
        if s in ('true',):
            return 1
        if s in ('false', 'null'):
            return 0
        if s in ('undef', 'poison', 'zeroinitializer'):
            if t[0] == 's':
                return '(%s)' % ','.join([str(self.const(x, s)) for x in t[1]] + [''])
            return 0
        if re.match(r'^-?\d+$', s):
            return int(s) & ((1 << t[1]) - 1)
        if s.startswith('@'):
            return self.mod.global_addr(s[1:].strip('"'))
        if s.startswith('{') and t[0] == 's':
            inner = s[1:-1]
            vs = []
            for a in split_args(inner):
                et, r = self.mod.parse_type(a)
                vs.append(str(self.operand(et, r.strip())))
            return '(%s,)' % ','.join(vs)
        m = re.match(r'^inttoptr \(i64 (-?\d+) to ptr\)$', s)
        if m:
            return int(m.group(1))
        m = re.match(r'^getelementptr (?:inbounds |nuw |nusw )*\((.*)\)$', s)
        if m:
            parts = split_args(m.group(1))
            bt, _ = self.mod.parse_type(parts[0])
            base = self.const(('p',), parts[1].split(' ', 1)[1])
            off = self.gep_offset(bt, parts[2:])
            if type(base) is int and isinstance(off, int):
                return base + off
        raise NotImplementedError('const %s' % s[:80])

    def operand(self, t, s):
        s = s.strip()
        if s.startswith('%'):
            return 'R[%d]' % self.reg(s)
        return self.const(t, s)

    def typed(self, s):
        """'i32 %x' -> (type, operand)"""
        t, r = self.mod.parse_type(s)
        r = strip_attrs(r.lstrip())
        return t, self.operand(t, r)

    def gep_offset(self, bt, idx):
        """returns int or python expr string list"""
        off = 0
        dyn = []
        t = None
        for k, a in enumerate(idx):
            it, v = self.typed(a)
            if k == 0:
                sz = self.mod.sizeof(bt)
                t = bt
            else:
                if t[0] == 's':
                    off += self.mod.fieldoff(t, v)
                    t = t[1][v]
                    continue
                t = t[2]
                sz = self.mod.sizeof(t)
            if isinstance(v, int):
                off += T.tosigned(v, it[1]) * sz
            else:
                dyn.append((v, sz, it[1]))
        if not dyn:
            return off
        return (off, dyn)

    def gen(self):
        fn = self.fn
        ps = fn.params()
        for t, nm, _ in ps:
            self.rt[self.reg(nm)] = t
        self.label = {l: i for i, (l, _) in enumerate(self.blocks)}
        # gather phis
        self.phis = []
        for l, lines in self.blocks:
            ph = []
            for s in lines:
                m = re.match(r'^(%[\w.$"-]+) = phi (.*)$', s)
                if not m:
                    break
                t, r = self.mod.parse_type(m.group(2))
                inc = {}
                for a in split_args(r):
                    a = a.strip()
                    assert a[0] == '[', a
                    v, lb = split_args(a[1:-1])
                    inc[lb.strip()[1:]] = self.operand(t, v)
                ph.append((self.reg(m.group(1)), inc))
                self.rt[self.reg(m.group(1))] = t
            self.phis.append(ph)
        src = []
        ninstr = []
        succ = []
        panicky = []
        for i, (l, lines) in enumerate(self.blocks):
            body, ss, pan = self.block(i, l, lines[len(self.phis[i]):])
            succ.append(ss)
            panicky.append(pan)
            ninstr.append(len(lines))
            src.append('def b%d(E, R):\n' % i + ''.join('  ' + x + '\n' for x in body))
        # edges
        for (i, j) in self.edges_needed():
            e = self.edge(i, j)
            src.append('def e%d_%d(R):\n  %s\n' % (i, j, e or 'pass'))
        g = {'mk_add': T.mk_add, 'mk_sub': T.mk_sub, 'mk_mul': T.mk_mul, 'mk_and': T.mk_and, 'mk_or': T.mk_or,
             'mk_xor': T.mk_xor, 'mk_shl': T.mk_shl, 'mk_lshr': T.mk_lshr, 'mk_ashr': T.mk_ashr,
             'mk_eq': T.mk_eq, 'mk_ult': T.mk_ult, 'mk_slt': T.mk_slt, 'mk_not': T.mk_not, 'ite': T.ite,
             'mk_udiv': T.mk_udiv, 'mk_urem': T.mk_urem, 'mk_sdiv': T.mk_sdiv, 'mk_srem': T.mk_srem,
             'zext': T.zext, 'sext': T.sext, 'trunc': T.trunc, 'ovf': T.ovf, 'fshl': T.fshl, 'fshr': T.fshr,
             'bswap': T.bswap, 'bitreverse': T.bitreverse, 'sx': T.tosigned}
        exec(compile('\n'.join(src), fn.name, 'exec'), g)
        fn.blockfns = [g['b%d' % i] for i in range(len(self.blocks))]
        fn.edgefns = {(i, j): g['e%d_%d' % (i, j)] for (i, j) in self.edges_needed()}
        fn.succ = succ
        fn.nregs = len(self.regs) + 1
        fn.rt = [self.rt.get(i) for i in range(fn.nregs)]
        fn.nparams = len(ps)
        fn.paramtypes = [p[0] for p in ps]
        fn.ptext = [p[2] for p in ps]
        fn.ninstr_b = ninstr
        fn.panics = panicky
        fn.ipdom, fn.reach = postdoms(succ, panicky)
        fn.compiled = True
        fn.src = src

    def edges_needed(self):
        if not hasattr(self, '_edges'):
            self._edges = set()
        return sorted(self._edges)

    def edge(self, i, j):
        li = self.blocks[i][0]
        ph = self.phis[j]
        if not ph:
            return ''
        ds = []
        vs = []
        for r, inc in ph:
            v = inc.get(li)
            if v is None:
                v = inc.get('"%s"' % li)
            if v is None:
                v = inc[li.strip('"')]
            if v == 'R[%d]' % r:
                continue
            ds.append('R[%d]' % r)
            vs.append(str(v))
        if not ds:
            return ''
        return '%s = %s' % (','.join(ds), ','.join(vs))

    def block(self, bi, label, lines):
        out = []
        succ = []
        pan = False
        out.append('E.ic += %d' % len(lines))
        if not hasattr(self, '_edges'):
            self._edges = set()

        def goto(lb):
            j = self.label[lb]
            if j not in succ:
                succ.append(j)
            self._edges.add((bi, j))
            return j

        for s in lines:
            m = re.match(r'^(%(?:"[^"]*"|[\w.$-]+)) = (.*)$', s)
            d = None
            if m:
                d = self.reg(m.group(1))
                s = m.group(2)
            op = s.split(' ', 1)[0]
            if op == 'br':
                if s.startswith('br label '):
                    j = goto(s[len('br label %'):].split(',')[0].strip())
                    e = self.edge(bi, j)
                    if e:
                        out.append(e)
                    out.append('return %d' % j)
                else:
                    m = re.match(r'^br i1 ([^,]+), label %("[^"]*"|[\w.$-]+), label %("[^"]*"|[\w.$-]+)', s)
                    c = self.operand(('i', 1), m.group(1))
                    a, b = goto(m.group(2)), goto(m.group(3))
                    if isinstance(c, int):
                        j = a if c else b
                        e = self.edge(bi, j)
                        if e:
                            out.append(e)
                        out.append('return %d' % j)
                    else:
                        out.append('c = %s' % c)
                        out.append('if type(c) is int:')
                        out.append('  if c:')
                        e = self.edge(bi, a)
                        if e:
                            out.append('    ' + e)
                        out.append('    return %d' % a)
                        e = self.edge(bi, b)
                        if e:
                            out.append('  ' + e)
                        out.append('  return %d' % b)
                        out.append('return (c, %d, %d, %d)' % (bi, a, b))
            elif op == 'switch':
                m = re.match(r'^switch (i\d+) ([^,]+), label %("[^"]*"|[\w.$-]+) \[(.*)\]', s)
                t, _ = self.mod.parse_type(m.group(1))
                v = self.operand(t, m.group(2))
                dflt = goto(m.group(3))
                cases = []
                for mm in re.finditer(r'i\d+ (-?\d+), label %("[^"]*"|[\w.$-]+)', m.group(4)):
                    cases.append((int(mm.group(1)) & ((1 << t[1]) - 1), goto(mm.group(2))))
                out.append('c = %s' % v)
                out.append('if type(c) is int:')
                for cv, j in cases:
                    out.append('  if c == %d:' % cv)
                    e = self.edge(bi, j)
                    if e:
                        out.append('    ' + e)
                    out.append('    return %d' % j)
                e = self.edge(bi, dflt)
                if e:
                    out.append('  ' + e)
                out.append('  return %d' % dflt)
                out.append('return (c, %d, %d, %r, %d)' % (bi, dflt, cases, t[1]))
            elif op == 'ret':
                if s != 'ret void':
                    t, v = self.typed(s[4:])
                    self.rt[0] = t
                    out.append('R[0] = %s' % v)
                out.append('return -1')
            elif op == 'unreachable':
                out.append('E.unreachable()')
                pan = True
            elif op in ('call', 'tail', 'musttail', 'notail'):
                out += self.call(d, s)
            else:
                out += self.instr(d, op, s)
        return out, succ, pan and not succ

    def fin(self, d, expr):
        return ['R[%d] = %s' % (d, expr)]

    def bin(self, d, a, b, fast, slow):
        """emit with int fast path"""
        ia, ib = isinstance(a, int), isinstance(b, int)
        if ia and ib:
            return ['a = %d; b = %d' % (a, b), 'R[%d] = %s' % (d, fast)]
        out = ['a = %s; b = %s' % (a, b)]
        test = ' and '.join(x for x in ('type(a) is int' if not ia else '', 'type(b) is int' if not ib else '') if x)
        out.append('R[%d] = %s if %s else %s' % (d, fast, test, slow))
        return out

    def result_type(self, op, rest):
        rest = re.sub(r'^((nuw|nsw|exact|disjoint|nneg|samesign|volatile|atomic|inbounds|nusw) )+', '', rest)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem',
                  'load', 'freeze', 'insertvalue'):
            return self.mod.parse_type(rest)[0]
        if op == 'icmp':
            return ('i', 1)
        if op in ('getelementptr', 'alloca', 'inttoptr'):
            return ('p',)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'bitcast'):
            return self.mod.parse_type(rest.rsplit(' to ', 1)[1])[0]
        if op == 'select':
            return self.mod.parse_type(split_args(rest)[1])[0]
        if op == 'extractvalue':
            p = split_args(rest)
            t = self.mod.parse_type(p[0])[0]
            for k in p[1:]:
                t = t[1][int(k)] if t[0] == 's' else t[2]
            return t
        return None

    def instr(self, d, op, s):
        rest = s.split(' ', 1)[1]
        self.rt[d] = self.result_type(op, rest)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            rest = re.sub(r'^((nuw|nsw|exact|disjoint) )+', '', rest)
            t, r = self.mod.parse_type(rest)
            x, y = split_args(r)
            a, b = self.operand(t, x), self.operand(t, y)
            w = t[1]
            M = (1 << w) - 1
            if op in ('add', 'sub', 'mul'):
                fast = '(a %s b) & %d' % ({'add': '+', 'sub': '-', 'mul': '*'}[op], M)
            elif op in ('and', 'or', 'xor'):
                fast = 'a %s b' % {'and': '&', 'or': '|', 'xor': '^'}[op]
            elif op == 'shl':
                fast = '((a << b) & %d if b < %d else 0)' % (M, w)
            elif op == 'lshr':
                fast = 'a >> b'
            elif op == 'ashr':
                fast = '(sx(a, %d) >> b) & %d' % (w, M)
            elif op == 'udiv':
                fast = 'a // b'
            elif op == 'urem':
                fast = 'a %% b'.replace('%%', '%')
            else:
                fast = 'mk_%s(a, b, %d)' % (op, w)
            out = []
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                return ['a = %s; b = %s' % (a, b), 'E.divcheck(a, b, %d)' % w,
                        'R[%d] = %s if type(a) is int and type(b) is int else mk_%s(a, b, %d)' % (d, fast, op, w)]
            if op in ('shl', 'lshr', 'ashr') and not isinstance(b, int):
                return ['a = %s; b = %s' % (a, b), 'if type(b) is not int: E.shiftsym(b)',
                        'R[%d] = %s if type(a) is int and type(b) is int else mk_%s(a, b, %d)' % (d, fast, op, w)]
            return self.bin(d, a, b, fast, 'mk_%s(a, b, %d)' % (op, w))
        if op == 'icmp':
            rest = re.sub(r'^samesign ', '', rest)
            cc, rest = rest.split(' ', 1)
            t, r = self.mod.parse_type(rest)
            x, y = split_args(r)
            a, b = self.operand(t, x), self.operand(t, y)
            w = 64 if t[0] == 'p' else t[1]
            if cc in ('ugt', 'sgt'):
                a, b, cc = b, a, {'ugt': 'ult', 'sgt': 'slt'}[cc]
            if cc in ('uge', 'sge'):   # a>=b == !(a<b)
                cc2 = {'uge': 'ult', 'sge': 'slt'}[cc]
                neg = True
            elif cc in ('ule', 'sle'):  # a<=b == !(b<a)
                a, b = b, a
                cc2 = {'ule': 'ult', 'sle': 'slt'}[cc]
                neg = True
            elif cc == 'ne':
                cc2, neg = 'eq', True
            else:
                cc2, neg = cc, False
            if cc2 == 'eq':
                fast = '(1 if a %s b else 0)' % ('!=' if neg else '==')
            elif cc2 == 'ult':
                fast = '(1 if a %s b else 0)' % ('>=' if neg else '<')
            else:
                fast = '(1 if sx(a,%d) %s sx(b,%d) else 0)' % (w, '>=' if neg else '<', w)
            slow = 'mk_%s(a, b, %d)' % (cc2, w)
            if neg:
                slow = 'mk_not(%s, 1)' % slow
            return self.bin(d, a, b, fast, slow)
        if op in ('zext', 'sext', 'trunc'):
            rest = re.sub(r'^((nneg|nuw|nsw) )+', '', rest)
            m = re.match(r'^(.*) to (i\d+)$', rest)
            t, a = self.typed(m.group(1))
            w0, w = t[1], int(m.group(2)[1:])
            if op == 'zext':
                return self.fin(d, 'zext(%s, %d, %d)' % (a, w0, w))
            if op == 'sext':
                return self.fin(d, 'sext(%s, %d, %d)' % (a, w0, w))
            return ['a = %s' % a, 'R[%d] = a & %d if type(a) is int else trunc(a, %d, %d)' % (d, (1 << w) - 1, w0, w)]
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            m = re.match(r'^(.*) to (.*)$', rest)
            t, a = self.typed(m.group(1))
            return self.fin(d, str(a))
        if op == 'freeze':
            t, a = self.typed(rest)
            return self.fin(d, str(a))
        if op == 'select':
            p = split_args(rest)
            _, c = self.typed(p[0])
            t, a = self.typed(p[1])
            _, b = self.typed(p[2])
            w = 64 if t[0] == 'p' else t[1] if t[0] == 'i' else 0
            if isinstance(c, int):
                return self.fin(d, str(a if c else b))
            return ['c = %s; a = %s; b = %s' % (c, a, b),
                    'R[%d] = (a if c else b) if type(c) is int else E.select(c, a, b, %d)' % (d, w)]
        if op == 'getelementptr':
            rest = re.sub(r'^((inbounds|nuw|nusw|inrange\([^)]*\)) )+', '', rest)
            p = split_args(rest)
            bt, _ = self.mod.parse_type(p[0])
            _, base = self.typed(p[1])
            off = self.gep_offset(bt, p[2:])
            if isinstance(off, int):
                if off == 0:
                    return self.fin(d, str(base))
                M = (1 << 64) - 1
                return ['a = %s' % base, 'R[%d] = (a + %d) & %d if type(a) is int else mk_add(a, %d, 64)' % (d, off, M, off & M)]
            c, dyn = off
            out = ['a = %s' % base]
            if c:
                out.append('a = mk_add(a, %d, 64)' % (c & ((1 << 64) - 1)))
            for v, sz, iw in dyn:
                out.append('b = %s' % v)
                out.append('a = (a + (sx(b, %d)) * %d) & 0xffffffffffffffff if type(a) is int and type(b) is int else mk_add(a, mk_mul(sext(b, %d, 64), %d, 64), 64)' % (iw, sz, iw, sz))
            out.append('R[%d] = a' % d)
            return out
        if op == 'load':
            rest = re.sub(r'^((volatile|atomic) )+', '', rest)
            p = split_args(rest)
            t, _ = self.mod.parse_type(p[0])
            _, a = self.typed(p[1])
            if t[0] in ('i', 'p'):
                w = 64 if t[0] == 'p' else t[1]
                n = (w + 7) // 8
                return self.fin(d, 'E.load(%s, %d, %d)' % (a, n, w))
            parts = []
            for i, ft in enumerate(t[1] if t[0] == 's' else [t[2]] * t[1]):
                o = self.mod.fieldoff(t, i) if t[0] == 's' else i * self.mod.sizeof(t[2])
                w = 64 if ft[0] == 'p' else ft[1]
                parts.append('E.load(mk_add(%s, %d, 64), %d, %d)' % (a, o, (w + 7) // 8, w))
            return self.fin(d, '(%s,)' % ','.join(parts))
        if op == 'store':
            rest = re.sub(r'^((volatile|atomic) )+', '', rest)
            p = split_args(rest)
            t, v = self.typed(p[0])
            _, a = self.typed(p[1])
            if t[0] in ('i', 'p'):
                w = 64 if t[0] == 'p' else t[1]
                return ['E.store(%s, %s, %d, %d)' % (a, v, (w + 7) // 8, w)]
            out = ['v = %s' % v]
            for i, ft in enumerate(t[1] if t[0] == 's' else [t[2]] * t[1]):
                o = self.mod.fieldoff(t, i) if t[0] == 's' else i * self.mod.sizeof(t[2])
                w = 64 if ft[0] == 'p' else ft[1]
                out.append('E.store(mk_add(%s, %d, 64), v[%d], %d, %d)' % (a, o, i, (w + 7) // 8, w))
            return out
        if op == 'alloca':
            p = split_args(rest)
            t, _ = self.mod.parse_type(p[0])
            return self.fin(d, 'E.alloca(%d, %r)' % (self.mod.sizeof(t), self.fn.name))
        if op == 'extractvalue':
            p = split_args(rest)
            t, v = self.typed(p[0])
            e = str(v)
            for k in p[1:]:
                e += '[%s]' % k
            return self.fin(d, e)
        if op == 'insertvalue':
            p = split_args(rest)
            t, v = self.typed(p[0])
            et, x = self.typed(p[1])
            k = int(p[2])
            return ['v = %s' % v, 'R[%d] = v[:%d] + (%s,) + v[%d:]' % (d, k, x, k + 1)]
        raise NotImplementedError('instruction %s' % s[:100])

    def call(self, d, s):
        s = re.sub(r'^(tail |musttail |notail )', '', s)
        s = s[5:]
        s = re.sub(r'^(fastcc |coldcc |cc\d+ )', '', s)
        s = strip_attrs(s)
        rt, r = self.mod.parse_type(s)
        if d is not None:
            self.rt[d] = rt
        r = r.lstrip()
        i = r.index('(')
        callee = r[:i].strip()
        # function type in parens, e.g. "void (ptr) %f"
        if callee == '':
            raise NotImplementedError(s[:80])
        j = match_paren(r, i)
        args = []
        for a in split_args(r[i + 1:j]):
            if a.startswith('metadata'):
                return []
            t, x = self.mod.parse_type(a)
            x = strip_attrs(x.lstrip())
            args.append((t, self.operand(t, x)))
        av = [str(a) for _, a in args]
        if callee.startswith('%'):
            e = 'E.callptr(%s, (%s))' % (self.operand(('p',), callee), ''.join(x + ',' for x in av))
            return ['R[%d] = %s' % (d, e)] if d is not None else [e]
        name = callee[1:].strip('"')
        if name.startswith('llvm.'):
            return self.intrinsic(d, name, args, av)
        e = 'E.call(%r, (%s))' % (name, ''.join(x + ',' for x in av))
        return ['R[%d] = %s' % (d, e)] if d is not None else [e]

    def intrinsic(self, d, name, args, av):
        p = name.split('.')
        k = p[1]
        if k in ('lifetime', 'dbg', 'assume', 'experimental', 'donothing', 'invariant'):
            return []
        if k in ('memcpy', 'memmove'):
            return ['E.memcpy(%s, %s, %s)' % (av[0], av[1], av[2])]
        if k == 'memset':
            return ['E.memset(%s, %s, %s)' % (av[0], av[1], av[2])]
        w = args[0][0][1] if args and args[0][0][0] == 'i' else 64
        M = (1 << w) - 1
        if len(p) >= 4 and p[2] == 'with':
            signed = 1 if k[0] == 's' else 0
            o = k[1:]
            out = ['a = %s; b = %s' % (av[0], av[1])]
            sym = {'add': '+', 'sub': '-', 'mul': '*'}[o]
            out.append('if type(a) is int and type(b) is int:')
            if signed:
                out.append('  r = sx(a,%d) %s sx(b,%d)' % (w, sym, w))
                out.append('  R[%d] = (r & %d, 0 if %d <= r <= %d else 1)' % (d, M, -(1 << (w - 1)), (1 << (w - 1)) - 1))
            else:
                out.append('  r = a %s b' % sym)
                out.append('  R[%d] = (r & %d, 0 if 0 <= r <= %d else 1)' % (d, M, M))
            out.append('else:')
            out.append('  R[%d] = (mk_%s(a, b, %d), ovf(%r, %d, a, b, %d))' % (d, o, w, o, signed, w))
            return out
        if k in ('fshl', 'fshr'):
            out = []
            if not re.match(r'^\d+$', av[2]):
                out.append('if type(%s) is not int: E.shiftsym(%s)' % (av[2], av[2]))
            return out + self.fin(d, '%s(%s, %s, %s, %d)' % (k, av[0], av[1], av[2], w))
        if k == 'bswap':
            return self.fin(d, 'bswap(%s, %d)' % (av[0], w))
        if k == 'bitreverse':
            return self.fin(d, 'bitreverse(%s, %d)' % (av[0], w))
        if k in ('umin', 'umax', 'smin', 'smax'):
            f = 'mk_ult' if k[0] == 'u' else 'mk_slt'
            c = '%s(%s, %s, %d)' % (f, av[0], av[1], w)
            x, y = (av[0], av[1]) if k.endswith('min') else (av[1], av[0])
            return self.fin(d, 'ite(%s, %s, %s, %d)' % (c, x, y, w))
        if k == 'abs':
            return self.fin(d, 'ite(mk_slt(%s, 0, %d), mk_sub(0, %s, %d), %s, %d)' % (av[0], w, av[0], w, av[0], w))
        if k == 'usub' and p[2] == 'sat':
            return self.fin(d, 'ite(mk_ult(%s, %s, %d), 0, mk_sub(%s, %s, %d), %d)' % (av[0], av[1], w, av[0], av[1], w, w))
        if k == 'uadd' and p[2] == 'sat':
            return self.fin(d, 'ite(ovf("add", 0, %s, %s, %d), %d, mk_add(%s, %s, %d), %d)' % (av[0], av[1], w, M, av[0], av[1], w, w))
        if k in ('ctpop', 'ctlz', 'cttz'):
            return self.fin(d, 'E.bitcount(%r, %s, %d)' % (k, av[0], w))
        if k == 'expect':
            return self.fin(d, av[0])
        if k == 'trap':
            return ['E.unreachable()']
        if k == 'scmp' or k == 'ucmp':
            f = 'mk_ult' if k[0] == 'u' else 'mk_slt'
            rw = int(p[2][1:])
            return self.fin(d, 'ite(%s(%s,%s,%d), %d, ite(mk_eq(%s,%s,%d),0,1,%d), %d)' % (
                f, av[0], av[1], w, (1 << rw) - 1, av[0], av[1], w, rw, rw))
        raise NotImplementedError('intrinsic ' + name)


def postdoms(succ, panicky):
    """immediate post-dominator per block; -1 = function exit.  Blocks that cannot reach a
    return (panic paths) are ignored as successors."""
    n = len(succ)
    # reach-exit
    reach = set(i for i in range(n) if not succ[i] and not panicky[i])
    ch = True
    while ch:
        ch = False
        for i in range(n):
            if i not in reach and any(j in reach for j in succ[i]):
                reach.add(i)
                ch = True
    EX = n
    full = None
    pd = {EX: {EX}}
    nodes = [i for i in range(n) if i in reach]
    for i in nodes:
        pd[i] = None
    s2 = {i: [j for j in succ[i] if j in reach] or [EX] for i in nodes}
    # add exit edge for ret blocks
    changed = True
    order = list(reversed(nodes))
    while changed:
        changed = False
        for i in order:
            cur = None
            for j in s2[i]:
                if pd[j] is None:
                    continue
                cur = set(pd[j]) if cur is None else cur & pd[j]
            if cur is None:
                continue
            cur = cur | {i}
            if cur != pd[i]:
                pd[i] = cur
                changed = True
    ip = [-1] * n
    for i in nodes:
        c = pd[i] - {i} if pd[i] else set()
        best = -1
        # immediate: the candidate whose pd set is largest
        bl = -1
        for x in c:
            if x == EX:
                continue
            if len(pd[x]) > bl:
                bl = len(pd[x])
                best = x
        ip[i] = best
    return ip, reach
