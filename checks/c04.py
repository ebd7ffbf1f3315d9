"""hmac::verify accepts exactly the genuine tag"""
from vlib import spec, terms as T
from .c08 import delta_sampler, nonzero

META = {'bounds': 'arbitrary hash function with digest sizes 4, 32 and 64 and the four SHA-2 instances; every tag of every length listed in per_case (the genuine tag xor an arbitrary difference, cut or extended), keys and messages of the listed lengths, every content',
        'outside': 'other key, message and tag lengths (C03 covers how the tag depends on key and message)'}


def ver(R, h, kl, n, tl):
    H = spec.HASHES[h]
    k, m = R.sym('k', kl), R.sym('m', n)
    dl = R.sym('d', min(tl, H.D))
    t = [spec.box(x) for x in spec.hmac(H, k, m)]
    tag = [T.mk_xor(x, y, 8) for x, y in zip(t, dl)] + R.sym('e', max(0, tl - H.D))
    exp = T.ite(nonzero(dl), 0, 1, 32) if tl == H.D else 0
    R.check('vh_hmacv%s%s' % ('' if h.isdigit() else '_', h), [k, m, tag], [], exp, [],
            what='hmac::verify(%s) with a %d-byte tag' % (h, tl), nsim=12, sampler=delta_sampler(dl) if dl else None)


def jobs(tier):
    out = []
    for h in ('wide', 'mid', 'small'):
        D = spec.HASHES[h].D
        tls = sorted(set(list(range(0, 21)) + [D - 2, D - 1, D, D + 1, D + 2, 2 * D, 64, 65, D + 256, 256, D + 64]))
        for tl in tls:
            out.append(('%s-t%d' % (h, tl), ver, (h, 3, 2, tl)))
        for kl, n in ((0, 0), (8, 1), (9, 0), (64, 3), (65, 3), (129, 4), (1, 130)):
            out.append(('%s-k%d-m%d' % (h, kl, n), ver, (h, kl, n, D)))
    for h in ('512', '384', '256', '224'):
        D = spec.HASHES[h].D
        for tl in (0, 1, 16, D - 1, D, D + 1, 64, 65):
            out.append(('sha%s-t%d' % (h, tl), ver, (h, 4, 3, tl)))
    if tier == 'thorough':
        for h in ('wide', 'mid', 'small'):
            for tl in range(0, 140):
                out.append(('%s-t%d-b' % (h, tl), ver, (h, 10, 3, tl)))
    return out
