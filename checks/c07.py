"""AES-GCM encryption equals SP 800-38D"""
from vlib import spec, prog

META = {'bounds': 'generic cipher (an arbitrary function of key and block): message lengths x data lengths listed in per_case, every content; two messages on one object; AES-128/192/256 instances end to end at small lengths; quick: up to 5 message blocks',
        'outside': 'longer messages (per-block behaviour repeats; the 32-bit counter beyond 16 blocks is exercised only through C23-style obligations)'}
KEYLEN = {'s': 16, '128': 16, '192': 24, '256': 32}


def cipher(which):
    return spec.stub_cipher if which == 's' else spec.aes_boxed


def enc(R, which, m, a):
    k, p, n, d = R.sym('k', KEYLEN[which] if which != 's' else 3), R.sym('p', m), R.sym('n', 12), R.sym('a', a)
    ct, tag = spec.gcm(cipher(which), k, n, d, p)
    R.check('vh_gcm%s_enc' % which, [k, p, n, d], [0xAA] * (m + 16), 0, ct + tag,
            what='GCM(%s) encrypt %d bytes, %d bytes of data' % (which, m, a), nsim=6)


def two(R, m1, a1, m2, a2):
    k, n1, n2 = R.sym('k', 3), R.sym('n', 12), R.sym('o', 12)
    p1, d1, p2, d2 = R.sym('p', m1), R.sym('a', a1), R.sym('q', m2), R.sym('b', a2)
    c1, t1 = spec.gcm(spec.stub_cipher, k, n1, d1, p1)
    c2, t2 = spec.gcm(spec.stub_cipher, k, n2, d2, p2)
    R.check('vh_gcms_two', [k, p1, n1, d1, p2, n2, d2], [0xAA] * (m1 + m2 + 32), 0, c1 + t1 + c2 + t2,
            what='two messages on one GCM object')


def jobs(tier):
    out = []
    ms = list(range(0, 36)) + [47, 48, 49, 64, 65, 80]
    for m in sorted(ms, reverse=True):
        out.append(('m%d-a0' % m, enc, ('s', m, 0)))
    for a in list(range(1, 36)) + [47, 48, 49, 64]:
        out.append(('m0-a%d' % a, enc, ('s', 0, a)))
    for m, a in ((1, 1), (15, 17), (16, 16), (17, 15), (20, 33), (33, 5), (5, 20), (40, 40), (31, 32)):
        out.append(('m%d-a%d' % (m, a), enc, ('s', m, a)))
    out.append(('two', two, (17, 3, 5, 20)))
    for w in ('128', '192', '256'):
        out.append(('aes%s' % w, enc, (w, 17, 5)))
    if tier == 'thorough':
        for m in range(36, 130, 3):
            for a in (0, 7, 16, 40):
                out.append(('m%d-a%d' % (m, a), enc, ('s', m, a)))
        out.append(('long', enc, ('s', 16 * 260 + 3, 0)))
    return out
