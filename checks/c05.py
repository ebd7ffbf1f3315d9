"""HKDF equals RFC 5869"""
from vlib import spec

META = {'bounds': 'arbitrary hash function with (digest, block) = (4,8), (32,64), (64,128): every okm length 0..=1020 for the 4-byte digest at the listed steps including all block boundaries up to 255 blocks, every content of salt, ikm, prk, info at the listed lengths; SHA-2 instances end to end for 1-3 blocks',
        'outside': 'longer salts, ikm, prk and info; okm lengths not listed'}


def op(n, h):
    return 'vh_%s%s%s' % (n, '' if h.isdigit() else '_', h)


def extract(R, h, sl, il):
    H = spec.HASHES[h]
    s, i = R.sym('s', sl), R.sym('i', il)
    R.check(op('extract', h), [s, i], [0xAA] * H.D, 0, spec.hkdf_extract(H, s, i), what='extract(%s) salt %d ikm %d' % (h, sl, il), nsim=6)


def expand(R, h, pl, il, n):
    H = spec.HASHES[h]
    p, i = R.sym('p', pl), R.sym('i', il)
    R.check(op('expand', h), [p, i], R.sym('z', n), 0, spec.hkdf_expand(H, p, i, n), what='expand(%s) prk %d info %d okm %d' % (h, pl, il, n), nsim=4)


def jobs(tier):
    out = []
    for n in (255 * 4, 255 * 4 - 1, 255 * 4 - 3, 254 * 4 + 1, 254 * 4, 254 * 4 - 1, 253 * 4 + 2, 200 * 4, 129 * 4, 128 * 4 + 1, 128 * 4, 127 * 4, 127 * 4 - 1):
        out.append(('small-n%d' % n, expand, ('small', 4, 2, n)))
    out.append(('mid-n%d' % (255 * 32), expand, ('mid', 32, 1, 255 * 32)))
    out.append(('mid-n%d' % (254 * 32 + 1), expand, ('mid', 32, 1, 254 * 32 + 1)))
    for n in list(range(0, 42)) + [60, 64, 100]:
        out.append(('small-n%d' % n, expand, ('small', 5, 3, n)))
    for h in ('mid', 'wide'):
        D = spec.HASHES[h].D
        for n in (0, 1, D - 1, D, D + 1, 2 * D - 1, 2 * D, 2 * D + 1, 3 * D, 5 * D + 7):
            out.append(('%s-n%d' % (h, n), expand, (h, D, 3, n)))
    for h in ('small', 'mid', 'wide'):
        H = spec.HASHES[h]
        for pl in (H.D, H.D + 1, H.B - 1, H.B, H.B + 1, 2 * H.B + 1):
            out.append(('%s-p%d' % (h, pl), expand, (h, pl, 2, 2 * H.D + 1)))
        for il in (0, 1, 2, 10, 64, 129):
            out.append(('%s-i%d' % (h, il), expand, (h, H.D, il, 2 * H.D + 1)))
        for sl, il in ((0, 0), (0, 3), (1, 1), (H.B - 1, 5), (H.B, 5), (H.B + 1, 5), (2 * H.B + 1, 0), (5, 65), (7, 130)):
            out.append(('%s-ext%d-%d' % (h, sl, il), extract, (h, sl, il)))
    for h in ('512', '384', '256', '224'):
        H = spec.HASHES[h]
        for n in (0, 1, H.D, H.D + 1, 3 * H.D - 1):
            out.append(('sha%s-n%d' % (h, n), expand, (h, H.D, 3, n)))
        out.append(('sha%s-ext' % h, extract, (h, 6, 7)))
        out.append(('sha%s-extb' % h, extract, (h, H.B + 1, 0)))
    if tier == 'thorough':
        for n in range(42, 1021, 7):
            out.append(('small-n%d-t' % n, expand, ('small', 4, 1, n)))
        out.append(('wide-n%d' % (255 * 64), expand, ('wide', 64, 0, 255 * 64)))
    return out
