"""Ed25519 scalar arithmetic is exact and canonical modulo the group order"""
from vlib import edspec, field as F, spec

META = {'bounds': 'reduction: every 512-bit string; k*a+r: every three 256-bit strings (2^768 inputs); S half of signatures: '
                  'every secret key and every message of 0 and 40 bytes',
        'outside': 'the S half for other message lengths follows from the first two, as the message only enters through SHA-512 (C01, C02)'}

L = F.ORDER


def numbers(rnd, bits):
    """integers where carries and the last subtractions matter"""
    top = 1 << bits
    out = [0, 1, L - 1, L, L + 1, 2 * L - 1, 2 * L, top - 1, (top // L) * L - 1, (top // L) * L, (1 << 252) - 1, 1 << 252, (1 << 253) - 1, 1 << 255]
    for k in range(21, bits, 21):
        out += [1 << k, (1 << k) - 1, (1 << k) + (1 << (k - 1)), top - (1 << k)]
    for _ in range(150):
        out.append(rnd.randrange(top // L + 1) * L + rnd.choice((-2, -1, 0, 1, 1 << 20, 1 << 21)))
        out.append(sum(rnd.choice((0, 1, (1 << 20) - 1, 1 << 20, (1 << 21) - 1, (1 << 21) - 2)) << (21 * i) for i in range(bits // 21 + 1)))
        out.append(L * rnd.randrange(1 << rnd.randrange(1, bits - 252)) + rnd.randrange(1 << rnd.randrange(1, 253)))
    return [x % top for x in out]


def reduce(R):
    s = R.sym('s', 64)

    def tries(rnd):
        for x in numbers(rnd, 512):
            yield [(s, x.to_bytes(64, 'little'))]
    R.check('vh_i_reduce', [s], [0xAA] * 32, None, F.to_bytes(F.SC.from_bytes(s)), what='reduction modulo the group order', field=True, tries=tries)


def muladd(R):
    a, b, c = [R.sym(n, 32) for n in 'abc']
    want = F.SC.from_bytes(c)
    for i in range(32):
        for j in range(32):
            want = F.SC.add(want, F.SC.scale(F.SC.mul(F.SC.mk({((a[i], 1),): 1}), F.SC.mk({((b[j], 1),): 1})), 256 ** (i + j)))

    def tries(rnd):
        n = numbers(rnd, 256)
        for _ in range(400):
            yield [(x, rnd.choice(n).to_bytes(32, 'little')) for x in (a, b, c)]
    R.check('vh_i_muladd', [a, b, c], [0xAA] * 32, None, F.to_bytes(want), what='k*a+r modulo the group order', field=True, tries=tries)


def sign(R, n):
    """S alone: R and the public key are taken from the code under test when a counterexample is judged"""
    sk, msg = R.sym('k', 32), R.sym('m', n)

    def judge(cin, cout):
        m, k = cin
        r = R.native().run('vh_ed25519_sign', [m, k], bytes(64))
        A = R.native().run('vh_ed25519_gen_pk', [k], bytes(32))
        if r[0] != 'R' or A[0] != 'R':
            return None, [None] * 64
        return None, [None] * 32 + list(spec.ed_sign_s(m, k, r[2][:32], A[2]))
    R.check('vh_ed25519_sign', [msg, sk], [0xAA] * 64, None, [None] * 32 + edspec.sign(msg, sk)[32:],
            what='S of a signature', field=True, concrete_spec=judge)


def jobs(tier):
    return [('reduce', reduce, ()), ('muladd', muladd, ()), ('S 0', sign, (0,)), ('S 40', sign, (40,))]
