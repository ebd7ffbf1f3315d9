"""ChaCha20-Poly1305 decryption accepts exactly genuine tags"""
from checks import c13
from checks.c08 import delta_sampler, nonzero
from vlib import spec, polymac, terms as T

META = {'bounds': 'cipher-text lengths x data lengths x tag lengths listed in per_case, every key, nonce and content, every tag of each length (the tag is the genuine one xor an arbitrary difference), output buffer with arbitrary previous content',
        'outside': 'longer cipher texts; tag lengths beyond those listed'}


def opened(k, n, d, c):
    ks = []
    for i in range((len(c) + 63) // 64):
        ks += c13.box_block(k, 1 + i, n)
    return spec.xor_bytes(c, ks), polymac.tag_terms(c13.box_block(k, 0, n)[:32], spec.ccp_macdata(d, c))


def dec(R, m, a):
    k, c, n, d = R.sym('k', 32), R.sym('c', m), R.sym('n', 12), R.sym('a', a)
    z, dl = R.sym('z', m), R.sym('d', 16)
    pt, tag = opened(k, n, d, c)
    bad = nonzero(dl)
    R.check('vh_ccp_dec', [k, c, n, d, [T.mk_xor(t, x, 8) for t, x in zip(tag, dl)]], z,
            T.ite(bad, 0, 1, 32), [T.ite(bad, u, v, 8) for u, v in zip(z, pt)],
            what='ChaCha20-Poly1305 decrypt %d bytes, %d bytes of data' % (m, a), nsim=8, sampler=delta_sampler(dl))


def taglen(R, m, a, tl):
    k, c, n, d = R.sym('k', 32), R.sym('c', m), R.sym('n', 12), R.sym('a', a)
    z, dl = R.sym('z', m), R.sym('d', min(tl, 16))
    pt, tag = opened(k, n, d, c)
    t = [T.mk_xor(t, x, 8) for t, x in zip(tag, dl)] + R.sym('e', max(0, tl - 16))
    R.check('vh_ccp_dec', [k, c, n, d, t], z, 0, z, what='ChaCha20-Poly1305 decrypt with a %d-byte tag' % tl, nsim=8,
            sampler=delta_sampler(dl) if dl else None)


def jobs(tier):
    out = []
    sizes = [(m, 0) for m in (0, 1, 2, 8, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 80, 127, 128, 129, 192, 257)] + \
        [(0, a) for a in (1, 8, 12, 15, 16, 17, 32, 33, 65)] + \
        [(1, 1), (15, 17), (16, 16), (17, 15), (20, 33), (64, 5), (65, 20), (114, 12)]
    for m, a in sorted(sizes, key=lambda x: -x[0] - x[1]):
        out.append(('m%d-a%d' % (m, a), dec, (m, a)))
    for tl in list(range(0, 16)) + [17, 18, 24, 31, 32, 33, 48, 64, 256, 272]:
        out.append(('taglen%d' % tl, taglen, (5, 3, tl)))
    if tier == 'thorough':
        for m in list(range(0, 200, 3)) + [300, 512, 1000]:
            for a in (0, 7, 16, 40):
                out.append(('m%d-a%d' % (m, a), dec, (m, a)))
    return out
