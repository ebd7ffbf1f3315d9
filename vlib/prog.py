"""Running harness entry points in the engine and natively."""
import os
import select
import subprocess
import time
from . import terms as T
from . import build
from .engine import Engine, PathDead, MemError, cellbyte, cellsof, Unsupported
from .ir import Module

_mods = {}


def module(kind='chk'):
    m = _mods.get(kind)
    if m is None:
        m = _mods[kind] = Module(os.path.join(build.BUILD, kind + '.ll'))
    return m


M64 = (1 << 64) - 1


def _mix(x):
    x ^= x >> 30
    x = x * 0xbf58476d1ce4e5b9 & M64
    x ^= x >> 27
    x = x * 0x94d049bb133111eb & M64
    return x ^ (x >> 31)


def stub_absorb(s, b):
    return (_mix(s ^ _mix((b + 0x1001) & M64)) + 1) & M64


def stub_digest(s, i):
    return (_mix(s ^ _mix(i + 0x2002)) >> 5) & 0xff


def stub_permute(k, h, l, i):
    return (_mix(k ^ _mix(h ^ _mix(l ^ _mix(i + 0x3003)))) >> 7) & 0xff


STUBS = {'vstub_absorb': (stub_absorb, 64), 'vstub_digest': (stub_digest, 8), 'vstub_permute': (stub_permute, 8)}
T.declare_uf('vstub_absorb', (64, 8))
T.declare_uf('vstub_digest', (64, 8))
T.declare_uf('vstub_permute', (64, 64, 64, 8))


def stub_uf(name, args, w):
    """interpretation of the UFs for concrete evaluation: stubs as in the native driver"""
    d = T.UFDEF.get(name)
    if d is not None:
        return d[0](*args)
    s = STUBS.get(name)
    if s is not None:
        return s[0](*args)
    s = T.UFEVAL.get(name)
    if s is not None:
        return s(args)
    return T.defuf(name, args, w)


def stub_hook(name):
    f, w = STUBS[name]

    def h(E, *args):
        if all(type(a) is int for a in args):
            return f(*args)
        return T.uf(name, args, w)
    return h


def stub_term(name, *args):
    f, w = STUBS[name]
    if all(type(a) is int for a in args):
        return f(*args)
    return T.uf(name, args, w)


def load_bytes(E, a, n):
    a = E.concrete(a)
    return [E.load(a + i, 1, 8) for i in range(n)]


def note_compare(E, x, y):
    """a C library may compare byte by byte and stop at the first difference"""
    if E.ctlog is not None:
        pc = list(E.pc)
        for p, q in zip(x, y):
            c = T.mk_eq(p, q, 8)
            if type(c) is int:
                if not c:
                    break
                continue
            E.ctlog.append(('early exit of memcmp', c, E.where(), list(pc)))
            pc.append(c)


def libc_memcmp(E, a, b, n):
    n = E.concrete(n)
    if not n:
        return 0
    x, y = load_bytes(E, a, n), load_bytes(E, b, n)
    note_compare(E, x, y)
    r = 0
    for p, q in zip(reversed(x), reversed(y)):
        r = T.ite(T.mk_eq(p, q, 8), r, T.ite(T.mk_ult(p, q, 8), 0xffffffff, 1, 32), 32)
    return r


def libc_bcmp(E, a, b, n):
    n = E.concrete(n)
    if not n:
        return 0
    r = 1
    x, y = load_bytes(E, a, n), load_bytes(E, b, n)
    note_compare(E, x, y)
    for p, q in zip(x, y):
        r = T.mk_and(r, T.mk_eq(p, q, 8), 1)
    return T.zext(T.mk_not(r, 1), 1, 32)


def libc_memcpy(E, d, s, n):
    E.memcpy(d, s, n)
    return d


def libc_memset(E, d, v, n):
    E.memset(d, T.trunc(v, 32, 8) if type(v) is T.T else v & 255, n)
    return d


LIBC = {'memcmp': libc_memcmp, 'bcmp': libc_bcmp, 'memcpy': libc_memcpy, 'memmove': libc_memcpy, 'memset': libc_memset}


def new_engine(kind='chk'):
    E = Engine(module(kind))
    E.hooks.update(LIBC)
    for n in STUBS:
        E.hooks[n] = stub_hook(n)
    return E


def sym_bytes(name, n):
    return [T.var('%s[%d]' % (name, i), 8) for i in range(n)]


class Outcome:
    """ok: out (list of byte values), ret; panic: info"""

    def __init__(self):
        self.panic = None
        self.ret = None
        self.out = None


def put_bytes(E, b, name):
    return E.alloc(list(b), name)


def run_op(E, op, ins, out, lens=None, outlen=None):
    """lens: {index: 64-bit term} for slices of symbolic length.  ins: list of lists of byte values; out: initial contents (list)."""
    o = Outcome()
    slices = []
    for k, b in enumerate(ins):
        a = put_bytes(E, b, 'in%d' % k) if len(b) else 1
        slices.append((a, (lens or {}).get(k, len(b))))
    tab = []
    for a, n in slices:
        tab += list(a.to_bytes(8, 'little')) + ([cellbyte(c) for c in cellsof(n)] if type(n) is T.T else list(n.to_bytes(8, 'little')))
    ta = E.alloc(tab, 'slices') if tab else 8
    oa = put_bytes(E, out, 'out') if len(out) else 1
    if E.watch_out and len(out):
        E.dirty = []
        E.watch = (oa >> 32, list(E.obj(oa >> 32).cells))
    try:
        o.ret = E.call(op, (ta, len(ins), oa, len(out) if outlen is None else outlen))
    except PathDead as e:
        o.panic = e.info
        E.note_watch(list(E.pc))
    if len(out):
        o.out = read_bytes(E, oa, len(out))
    else:
        o.out = []
    return o


def read_bytes(E, a, n):
    ob = E.obj(a >> 32)
    off = a & 0xffffffff
    return [cellbyte(c) for c in ob.cells[off:off + n]]


class Huge:
    """a buffer too long to write out: address space only, read-only, zero"""

    def __init__(self, n):
        self.n = n

    def hex(self):
        return '@%d:' % self.n

    def __len__(self):
        return self.n


def arg(b):
    return b.hex() if isinstance(b, Huge) else bytes(b).hex() or '-'


def unarg(s):
    return Huge(int(s[1:].split(':')[0])) if s.startswith('@') else bytes.fromhex(s)


class Native:
    def __init__(self, profile='debug'):
        self.exe = os.path.join(build.BUILD, 'native', profile, 'vreplay')
        self.p = None

    def run(self, op, ins, out):
        """ins: list of bytes; out: bytes.  returns ('R', ret, bytes) or ('PANIC', None, bytes)"""
        big = any(isinstance(b, Huge) for b in [out] + list(ins))
        line = ' '.join([op, arg(out)] + [arg(i) for i in ins]) + '\n'
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.p.stdin.write(line)
        self.p.stdin.flush()
        if big and not select.select([self.p.stdout], [], [], 20)[0]:
            self.p.kill()
            self.p.wait()
            self.p = None
            return ('RUNS-ON', None, b'')
        r = self.p.stdout.readline().split()
        if not r:
            self.p = None
            return ('CRASH', None, b'')
        if r[0] == 'R':
            return ('R', int(r[1]), b'' if r[2] == '-' else bytes.fromhex(r[2]))
        if r[0] == 'PANIC':
            return ('PANIC', None, b'' if r[1] == '-' else bytes.fromhex(r[1]))
        return (r[0], None, b'')

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait()
            self.p = None
