"""Arithmetic modulo 2^255-19"""
from vlib import field as F, terms as T
from . import c14, c16

META = {'bounds': 'every pair of ten-limb operands with limbs in the stated ranges, every 32-byte string, and every intermediate value of X25519 and of '
                  'Ed25519 key generation and signing for every input',
        'outside': 'limb ranges larger than callers produce'}

BIAS = 1 << 27
W = F.WT


class Operand:
    """ten signed limbs with |f_i| <= b 2^26 (even i), b 2^25 (odd i)"""

    def __init__(self, name, b):
        self.r = [int(b * (1 << (25 if i % 2 else 26))) for i in range(10)]
        self.v = [T.var('%s%d' % (name, i), 32, ur=(BIAS - r, BIAS + r)) for i, r in enumerate(self.r)]
        self.bytes = [T.extract(v, 8 * j + 7, 8 * j) for v in self.v for j in range(4)]
        k = -sum(BIAS << w for w in W)
        x = k % F.P
        for v, w in zip(self.v, W):
            x = F.add(x, F.scale(F.mk({((v, 1),): 1}), 1 << w))
        self.value = x

    def data(self, limbs):
        return self.v, [BIAS + max(-r, min(r, x)) for x, r in zip(limbs, self.r)]

    def some(self, rnd):
        k = rnd.randrange(6)
        pick = lambda r: rnd.choice((r, -r, r - 1, 0, 1, -1, 1 << 25, (1 << 25) - 1, 1 << 24, (1 << 24) - 1, -(1 << 25), -(1 << 24), (1 << 26) - 1, 1 << 26, rnd.randint(-r, r)))
        if k == 0:
            return list(self.r)
        if k == 1:
            return [-r for r in self.r]
        if k == 2:
            return [rnd.choice((r, -r)) for r in self.r]
        if k == 3:
            # near a multiple of p, limbs in radix order
            x = rnd.choice((0, F.P, 2 * F.P, -F.P, 1 << 255, (1 << 255) - 1)) + rnd.choice((-20, -19, -18, -1, 0, 1, 18, 19, 20, rnd.randrange(1 << rnd.randrange(1, 254))))
            out = []
            for i in range(9, 0, -1):
                q = x >> W[i]
                out.append(q)
                x -= q << W[i]
            return [x] + out[::-1]
        return [pick(r) for r in self.r]


def run(R, op, code, b, want, two, what):
    f, g = Operand('f', b), Operand('g', b if two else 0)

    def tries(rnd):
        for _ in range(600):
            yield [f.data(f.some(rnd)), g.data(g.some(rnd))]
    R.check(op, [[code], f.bytes, g.bytes if two else list(BIAS.to_bytes(4, 'little')) * 10], [0xAA] * 32, None,
            F.to_bytes(want(f.value, g.value)), what=what, field=True, tries=tries)


def recode(R):
    s = R.sym('s', 32)

    def tries(rnd):
        for x in list(range(0, 20)) + list(range(F.P - 20, F.P + 20)) + [(1 << 255) - 1, 1 << 254] + [1 << k for k in range(255)]:
            for t in (0, 1 << 255):
                yield [(s, (x + t).to_bytes(32, 'little'))]
    R.check('vh_i_recode', [s], [0xAA] * 32, None, F.to_bytes(F.from_bytes(list(s[:31]) + [T.zext(T.extract(s[31], 6, 0), 7, 8)])),
            what='decoding and encoding', field=True, tries=tries)


OPS = [
    ('product', 'vh_i_fe', 0, 1.65, F.mul, True),
    ('square', 'vh_i_fe', 1, 1.65, lambda f, g: F.mul(f, f), False),
    ('121666', 'vh_i_fe', 2, 1.1, lambda f, g: F.scale(f, 121666), False),
    ('sum', 'vh_i_fe', 3, 0.55, F.add, True),
    ('difference', 'vh_i_fe', 4, 0.55, F.sub, True),
    ('inverse', 'vh_i_fe', 5, 1.65, lambda f, g: F.power(f, F.P - 2), False),
    ('pow22523', 'vh_i_fe', 6, 1.65, lambda f, g: F.power(f, (F.P - 5) // 8), False),
    ('no swap', 'vh_i_fe', 7, 1.1, lambda f, g: f, True),
    ('swap', 'vh_i_fe', 8, 1.1, lambda f, g: g, True),
    ('encode', 'vh_i_fe', 9, 1.1, lambda f, g: f, False),
    ('twice square', 'vh_i_ed_fe', 0, 1.65, lambda f, g: F.scale(F.mul(f, f), 2), False),
    ('negation', 'vh_i_ed_fe', 1, 1.1, lambda f, g: F.sub(0, f), False),
    ('negation in place', 'vh_i_ed_fe', 2, 1.1, lambda f, g: F.sub(0, f), False),
    ('no move', 'vh_i_ed_fe', 3, 1.1, lambda f, g: f, True),
    ('move', 'vh_i_ed_fe', 4, 1.1, lambda f, g: g, True),
]


def jobs(tier):
    js = [(n, run, (op, code, b, want, two, n)) for n, op, code, b, want, two in OPS]
    js.append(('recode', recode, ()))
    # whole runs: overflow checks and canonical encodings with the operands that callers produce
    return js + [('X25519', c14.dh, ()), ('Ed25519', c16.sign, (0,))]
