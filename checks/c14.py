"""X25519 equals RFC 7748"""
from vlib import field as F, terms as T

META = {'bounds': 'every 32-byte scalar and every 32-byte u-coordinate (2^512 inputs), all 255 ladder steps',
        'outside': 'nothing within the documented preconditions (both arguments 32 bytes)'}


def ladder(sk, u):
    """RFC 7748 section 5 over field values"""
    bit = lambda i: 0 if i < 3 else 1 if i == 254 else T.extract(sk[i // 8], i % 8, i % 8)
    x1, x2, z2, x3, z3, swap = u, 1, 0, u, 1, 0
    for t in range(254, -1, -1):
        k = bit(t)
        s = T.mk_xor(swap, k, 1)
        swap = k
        x2, x3 = F.select(s, x3, x2), F.select(s, x2, x3)
        z2, z3 = F.select(s, z3, z2), F.select(s, z2, z3)
        a = F.add(x2, z2)
        aa = F.mul(a, a)
        b = F.sub(x2, z2)
        bb = F.mul(b, b)
        e = F.sub(aa, bb)
        c = F.add(x3, z3)
        d = F.sub(x3, z3)
        da = F.mul(d, a)
        cb = F.mul(c, b)
        x3 = F.mul(F.add(da, cb), F.add(da, cb))
        z3 = F.mul(x1, F.mul(F.sub(da, cb), F.sub(da, cb)))
        x2 = F.mul(aa, bb)
        z2 = F.mul(e, F.add(aa, F.scale(e, 121665)))
    x2, z2 = F.select(swap, x3, x2), F.select(swap, z3, z2)
    return F.to_bytes(F.mul(x2, F.power(z2, F.P - 2)))


def point(pk):
    """decodeUCoordinate: little endian, top bit ignored, then mod p"""
    return F.from_bytes(list(pk[:31]) + [T.zext(T.extract(pk[31], 6, 0), 7, 8)])


LOW = [0, 1, 325606250916557431795983626356110631294008115727848805560023387167927233504,
       39382357235489614581723060781553021112529911719440698176882885853963445705823]


def special(pk, sk):
    def tries(rnd):
        p = F.P
        us = [x + d for x in LOW + [p - 1, p - 2, 2, 9] for d in (0, p, 1 << 255) if x + d < 1 << 256]
        us += list(range(2, 19)) + list(range(p - 20, p + 20)) + [(1 << 255) - 1, (1 << 256) - 1, 1 << 254, (1 << 255) - 20]
        us += [sum(rnd.choice((0, 0x1ffffff, 0x1000000, 0xffffff, 0x2000000)) << (51 * (i // 2) + 26 * (i % 2)) for i in range(10)) % (1 << 256) for _ in range(40)]
        for u in us:
            yield [(pk, u.to_bytes(32, 'little'))]
    return tries


def dh(R):
    pk, sk = R.sym('u', 32), R.sym('k', 32)
    R.check('vh_x25519_dh', [pk, sk], [0xAA] * 32, None, ladder(sk, point(pk)), what='X25519', field=True, tries=special(pk, sk))


def gen_pk(R):
    sk = R.sym('k', 32)
    R.check('vh_x25519_gen_pk', [sk], [0xAA] * 32, None, ladder(sk, 9), what='X25519 public key', field=True)


def jobs(tier):
    return [('dh', dh, ()), ('gen_pk', gen_pk, ())]
