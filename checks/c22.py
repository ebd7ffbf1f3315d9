"""verify_16 is exact equality"""
from vlib import terms as T

META = {'bounds': 'x: all 2^128 values; y: every length 0..64 plus 128, 256, 1024, all contents',
        'outside': 'y longer than 64 bytes other than the listed lengths'}


def one(R, n):
    x = R.sym('x', 16)
    if n == 16:
        d = R.sym('d', 16)
        y = [T.mk_xor(a, b, 8) for a, b in zip(x, d)]
        eq = 1
        for b in d:
            eq = T.mk_and(eq, T.mk_eq(b, 0, 8), 1)
        exp = T.zext(eq, 1, 32)
    else:
        y = R.sym('y', n)
        exp = 0
    R.check('vh_verify16', [x, y], [], exp, None, what='verify_16 with %d-byte y' % n)


def prefix(R, n):
    """the right 16 bytes followed or cut: still unequal"""
    x = R.sym('x', 16)
    y = (x + R.sym('y', 64))[:n] if n > 16 else x[:n]
    R.check('vh_verify16', [x, y], [], 0, None, what='verify_16 with a %d-byte extension/prefix of x' % n)


def jobs(tier):
    ls = list(range(0, 65)) + [128, 256, 1024]
    return [('len%d' % n, one, (n,)) for n in ls] + [('prefix%d' % n, prefix, (n,)) for n in range(0, 49) if n != 16]
