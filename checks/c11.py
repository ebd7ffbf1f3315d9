"""ChaCha20-Poly1305 encryption equals RFC 8439"""
from checks import c13
from vlib import spec

META = {'bounds': 'message lengths x data lengths listed in per_case, every key, nonce, message and data content; two messages on one object',
        'outside': 'longer messages (the block counter beyond the lengths listed: from 256 GB on it would wrap); nonces of other lengths are C20'}


def two(R, m1, a1, m2, a2):
    k, n1, n2 = R.sym('k', 32), R.sym('n', 12), R.sym('o', 12)
    p1, d1, p2, d2 = R.sym('p', m1), R.sym('a', a1), R.sym('q', m2), R.sym('b', a2)
    c1, t1 = c13.ccp(k, n1, d1, p1)
    c2, t2 = c13.ccp(k, n2, d2, p2)
    R.check('vh_ccp_two', [k, p1, n1, d1, p2, n2, d2], [0xAA] * (m1 + m2 + 32), 0, c1 + t1 + c2 + t2,
            what='two messages on one ChaCha20-Poly1305 object')


def jobs(tier):
    out = []
    ms = [0, 1, 2, 3, 7, 8, 12, 15, 16, 17, 20, 31, 32, 33, 48, 63, 64, 65, 79, 80, 96, 127, 128, 129, 192, 193, 255, 256, 257]
    for m in sorted(ms, reverse=True):
        out.append(('m%d-a0' % m, c13.enc, (m, 0)))
    for a in (1, 2, 4, 8, 12, 13, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65):
        out.append(('m0-a%d' % a, c13.enc, (0, a)))
    for m, a in ((1, 1), (15, 17), (16, 16), (17, 15), (20, 33), (64, 5), (65, 20), (114, 12), (128, 32)):
        out.append(('m%d-a%d' % (m, a), c13.enc, (m, a)))
    out.append(('two', two, (17, 3, 70, 20)))
    if tier == 'thorough':
        for m in list(range(0, 200)) + [300, 511, 512, 513, 1000]:
            for a in (0, 7, 16, 40):
                out.append(('m%d-a%d' % (m, a), c13.enc, (m, a)))
        out += [('m%d-a0' % m, c13.enc, (m, 0)) for m in (4096, 64 * 257)]
    return out
