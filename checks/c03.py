"""HMAC equals RFC 2104"""
from vlib import spec, terms as T

META = {'bounds': 'generic construction over an arbitrary hash function with (digest, block) = (4,8), (32,64), (64,128): key and message lengths listed in per_case, every content, message fed in every listed way; the four SHA-2 instances and wrappers end to end',
        'outside': 'longer keys and messages; other (digest, block) shapes'}


def tag(R, h, kl, chunks):
    H = spec.HASHES[h]
    k = R.sym('k', kl)
    cs = [R.sym('m%d' % i, n) for i, n in enumerate(chunks)]
    m = [x for c in cs for x in c]
    R.check('vh_hmac%s%s' % ('' if h.isdigit() else '_', h), [k] + cs, [0xAA] * H.D, H.D, spec.hmac(H, k, m),
            what='HMAC(%s) key %d bytes, message in pieces %s' % (h, kl, list(chunks)), nsim=6)


def wrapper(R, h, kl, n):
    H = spec.HASHES[h]
    k, m = R.sym('k', kl), R.sym('m', n)
    R.check('vh_hmacf%s' % h, [k, m], [0xAA] * H.D, 0, spec.hmac(H, k, m), what='hmac_sha%s key %d message %d' % (h, kl, n), nsim=6)


def views(R, kl, n):
    H = spec.HASHES['small']
    k, m = R.sym('k', kl), R.sym('m', n)
    t = spec.hmac(H, k, m)
    R.check('vh_tag_views', [k, m], [0xAA] * (2 * H.D), 2 * H.D, t + t, what='Tag views')


def jobs(tier):
    out = []
    for h, ks in (('wide', [0, 1, 2, 31, 63, 64, 65, 100, 126, 127, 128, 129, 130, 191, 192, 255, 256, 257, 300]),
                  ('mid', [0, 1, 31, 32, 33, 62, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 200]),
                  ('small', list(range(0, 26)) + [31, 32, 33, 64, 127, 128, 129])):
        for kl in ks:
            out.append(('%s-k%d-m5' % (h, kl), tag, (h, kl, (5,))))
        for n in (0, 1, 2, 3, 7, 8, 9, 16, 63, 64, 65, 127, 128, 129, 200):
            out.append(('%s-k3-m%d' % (h, n), tag, (h, 3, (n,))))
        for ch in ((), (0,), (0, 3), (3, 0, 4), (1, 1, 1), (7, 8, 9), (64, 64), (0, 0, 1, 0)):
            out.append(('%s-k9-m%s' % (h, '.'.join(map(str, ch))), tag, (h, 9, ch)))
    for h in ('512', '384', '256', '224'):
        B = spec.HASHES[h].B
        for kl in (0, 1, B - 1, B, B + 1, 2 * B + 3):
            out.append(('sha%s-k%d' % (h, kl), tag, (h, kl, (3, 2))))
            out.append(('wrap%s-k%d' % (h, kl), wrapper, (h, kl, 5)))
        for n in (0, 1, B - 1, B, B + 1):
            out.append(('wrap%s-m%d' % (h, n), wrapper, (h, 20, n)))
    out.append(('views', views, (5, 3)))
    if tier == 'thorough':
        for h in ('wide', 'mid', 'small'):
            for kl in range(0, 3 * spec.HASHES[h].B):
                out.append(('%s-k%d-m2.1' % (h, kl), tag, (h, kl, (2, 1))))
            for n in range(0, 300):
                out.append(('%s-k4-m%d' % (h, n), tag, (h, 4, (n,))))
    return out
