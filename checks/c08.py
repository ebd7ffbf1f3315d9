"""AES-GCM decryption accepts exactly genuine tags"""
from vlib import spec, terms as T

META = {'bounds': 'generic cipher: cipher-text lengths x data lengths x tag lengths listed in per_case, every content, every tag of each length (the tag is the genuine one xor an arbitrary difference), output buffer with arbitrary previous content; AES-128/192/256 instances end to end at small lengths',
        'outside': 'longer cipher texts; tag lengths beyond those listed'}
KEYLEN = {'s': 3, '128': 16, '192': 24, '256': 32}


def cipher(which):
    return spec.stub_cipher if which == 's' else spec.aes_boxed


def delta_sampler(ds):
    def f(env, rnd):
        k = rnd.randrange(4)
        if k < 2:
            for d in ds:
                if d in env:
                    env[d] = 0
        if k == 1:
            d = rnd.choice(ds)
            if d in env:
                env[d] = 1 << rnd.randrange(8)
    return f


def nonzero(ds):
    z = 1
    for d in ds:
        z = T.mk_and(z, T.mk_eq(d, 0, 8), 1)
    return T.mk_not(z, 1)


def dec(R, which, m, a):
    k, c, n, d = R.sym('k', KEYLEN[which]), R.sym('c', m), R.sym('n', 12), R.sym('a', a)
    z, dl = R.sym('z', m), R.sym('d', 16)
    pt, tag = spec.gcm_open(cipher(which), k, n, d, c)
    tag = [spec.box(t) for t in tag]
    bad = nonzero(dl)
    R.check('vh_gcm%s_dec' % which, [k, c, n, d, [T.mk_xor(t, x, 8) for t, x in zip(tag, dl)]], z,
            T.ite(bad, 0, 1, 32), [T.ite(bad, u, v, 8) for u, v in zip(z, pt)],
            what='GCM(%s) decrypt %d bytes, %d bytes of data' % (which, m, a), nsim=8, sampler=delta_sampler(dl))


def taglen(R, m, a, tl):
    """a tag of any other length, with the genuine bytes as far as they go"""
    k, c, n, d = R.sym('k', 3), R.sym('c', m), R.sym('n', 12), R.sym('a', a)
    z, dl = R.sym('z', m), R.sym('d', min(tl, 16))
    pt, tag = spec.gcm_open(spec.stub_cipher, k, n, d, c)
    t = [T.mk_xor(spec.box(t), x, 8) for t, x in zip(tag, dl)] + R.sym('e', max(0, tl - 16))
    R.check('vh_gcms_dec', [k, c, n, d, t], z, 0, z, what='GCM decrypt with a %d-byte tag' % tl, nsim=8,
            sampler=delta_sampler(dl) if dl else None)


def jobs(tier):
    out = []
    sizes = [(m, 0) for m in list(range(0, 34)) + [47, 48, 49, 65]] + \
        [(0, a) for a in (1, 2, 3, 7, 8, 12, 15, 16, 17, 31, 32, 33)] + \
        [(1, 1), (15, 17), (16, 16), (17, 15), (20, 33), (33, 5), (40, 40)]
    for m, a in sorted(sizes, key=lambda x: -x[0] - x[1]):
        out.append(('m%d-a%d' % (m, a), dec, ('s', m, a)))
    for w in ('128', '192', '256'):
        out.append(('aes%s' % w, dec, (w, 17, 5)))
    for tl in list(range(0, 16)) + [17, 18, 24, 31, 32, 33, 48, 64]:
        out.append(('taglen%d' % tl, taglen, (5, 3, tl)))
    for tl in (272, 256):
        out.append(('taglen%d' % tl, taglen, (1, 0, tl)))
    if tier == 'thorough':
        for m in range(34, 130, 5):
            for a in (0, 7, 16, 40):
                out.append(('m%d-a%d' % (m, a), dec, ('s', m, a)))
    return out
