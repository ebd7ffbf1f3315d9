"""Length preconditions are enforced exactly as documented"""
from vlib import spec, terms as T

META = {'bounds': 'every length: the offending slice length is a symbolic 64-bit value constrained only to violate (or, for the calls that must not panic, only to differ from the genuine length); the other arguments have representative lengths and arbitrary content',
        'outside': 'the 2^36-32 / 2^61 upper limits of GCM for buffers that really are that long (the limit on data and equal-length message/buffer pairs is checked with symbolic lengths)'}
BIG = (1 << 63) - 1


def length(name, lo, hi):
    return T.var(name, 64, ur=(lo, hi))


def small(env, rnd):
    for v in env:
        if v.a[0].startswith('len') and v.ur is not None:
            lo, hi = v.ur
            top = min(hi, lo + 200)
            env[v] = rnd.choice((lo, min(hi, lo + 1), rnd.randint(lo, top), rnd.randint(lo, top)))


def two_ranges(ok, lo=0, hi=BIG):
    """the lengths other than `ok`"""
    r = []
    if ok > lo:
        r.append((lo, ok - 1))
    r.append((ok + 1, min(hi, ok + 4096)))
    r.append((ok + 1, hi))
    return r


def must_panic(R, op, lens_, which, lo, hi, outn):
    """argument `which` ('out' or an index) has any length in lo..hi"""
    ins = [R.sym('i%d.' % i, n) for i, n in enumerate(lens_)]
    out = R.sym('z', outn)
    L = length('len', lo, hi)
    R.check(op, ins, out, None, None, panic=True, sampler=small, nsim=4, what='%s with a length of argument %s in %d..%d' % (op, which, lo, hi),
            lens=None if which == 'out' else {which: L}, outlen=L if which == 'out' else None)


def must_refuse(R, op, lens_, which, lo, hi, outn):
    """argument `which` has any length in lo..hi: returns 0, output untouched"""
    ins = [R.sym('i%d.' % i, n) for i, n in enumerate(lens_)]
    z = R.sym('z', outn)
    L = length('len', lo, hi)
    R.check(op, ins, z, 0, z, sampler=small, nsim=4, what='%s with a length of argument %s in %d..%d' % (op, which, lo, hi), lens={which: L}, online=False)


def jobs(tier):
    out = []

    def panics(op, lens_, which, ok, outn, lo=0, ranges=None, hi=BIG):
        for a, b in ranges or two_ranges(ok, lo, hi):
            out.append(('%s-%s-%d..%d' % (op[3:], which, a, b), must_panic, (op, lens_, which, a, b, outn)))

    def refuses(op, lens_, which, ok, outn):
        for a, b in two_ranges(ok):
            out.append(('%s-%s-%d..%d' % (op[3:], which, a, b), must_refuse, (op, lens_, which, a, b, outn)))
    # digests
    for h in (224, 256, 384, 512):
        D = h // 8
        panics('vh_sha%d_chunks' % h, [5], 'out', D, 8)
        panics('vh_extract%d' % h, [3, 4], 'out', D, 8)
        panics('vh_expand%d' % h, [D, 4], 0, D, D + 3, ranges=[(0, D - 1)])
        panics('vh_expand%d' % h, [D, 4], 'out', 255 * D, 8, ranges=[(255 * D + 1, 255 * D + 4096), (255 * D + 1, BIG)])
    for h in ('small', 'mid', 'wide'):
        D = spec.HASHES[h].D
        panics('vh_extract_%s' % h, [3, 4], 'out', D, 8)
        panics('vh_expand_%s' % h, [D, 4], 0, D, D + 3, ranges=[(0, D - 1)])
        panics('vh_expand_%s' % h, [D, 4], 'out', 255 * D, 8, ranges=[(255 * D + 1, 255 * D + 4096), (255 * D + 1, BIG)])
        refuses('vh_hmacv_%s' % h, [3, 4, 2], 2, D, 0)
        # two preconditions broken at once
    # block ciphers
    for n in (128, 192, 256):
        panics('vh_aes%d' % n, [n // 8, 16], 0, n // 8, 16)
        panics('vh_gcm%d_raw' % n, [n // 8, 3, 12, 2], 0, n // 8, 3)
        panics('vh_gcm%d_draw' % n, [n // 8, 3, 12, 2, 16], 0, n // 8, 3)
    # AEAD
    for c, kl in (('gcms', 3), ('ccp', 32)):
        if c == 'ccp':
            panics('vh_ccp_raw', [32, 3, 12, 2], 0, 32, 3)
            panics('vh_ccp_draw', [32, 3, 12, 2, 16], 0, 32, 3)
        for op, ls in (('vh_%s_raw' % c, [kl, 3, 12, 2]), ('vh_%s_draw' % c, [kl, 3, 12, 2, 16])):
            for m in (0, 3, 16, 70):
                ls2 = list(ls)
                ls2[1] = m
                panics(op, ls2, 2, 12, m)
                panics(op, ls2, 1, m, m)
                panics(op, ls2, 'out', m, m)
        # nonce refused even when there is nothing to encrypt and whatever the data
        panics('vh_%s_raw' % c, [kl, 0, 12, 0], 2, 12, 0)
        for m, a in ((0, 0), (3, 2), (16, 16), (33, 0)):
            refuses('vh_%s_draw' % c, [kl, m, 12, a, 2], 4, 16, m)
    # message and data limits of GCM
    out.append(('gcm-limit-both', gcm_limit, ('vh_gcms_raw', [3, 0, 12, 2])))
    out.append(('gcm-limit-both-dec', gcm_limit, ('vh_gcms_draw', [3, 0, 12, 2, 16])))
    for op, ls in (('vh_gcms_raw', [3, 3, 12, 2]), ('vh_gcms_draw', [3, 3, 12, 2, 16])):
        panics(op, ls, 3, 0, 3, ranges=[(1 << 61, BIG)])
    # stream
    panics('vh_chacha_enc', [32, 12, 4], 0, 32, 4)
    panics('vh_chacha_enc', [32, 12, 4], 1, 12, 4)
    panics('vh_stream_snap', [32, 12], 0, 32, 4)
    panics('vh_stream_snap', [32, 12], 1, 12, 4)
    for op in ('vh_chacha_raw', 'vh_chacha_raw_dec'):
        for m in (0, 4, 64, 65):
            panics(op, [32, 12, m], 2, m, m)
            panics(op, [32, 12, m], 'out', m, m)
    # curve25519 / ed25519
    panics('vh_x25519_gen_pk', [32], 0, 32, 32)
    panics('vh_x25519_dh', [32, 32], 0, 32, 32)
    panics('vh_x25519_dh', [32, 32], 1, 32, 32)
    panics('vh_ed25519_gen_pk', [32], 0, 32, 32)
    panics('vh_ed25519_sign', [4, 32], 1, 32, 64)
    panics('vh_ed25519_verify', [4, 64, 32], 2, 32, 0)
    for m in (0, 3, 63):
        panics('vh_ed25519_verify', [4, m, 32], 2, 32, 0)
    refuses('vh_ed25519_verify', [4, 64, 32], 1, 64, 0)
    refuses('vh_verify16', [16, 3], 1, 16, 0)
    return out


def gcm_limit(R, op, ls):
    """input and output of one length, at or above the limit"""
    ins = [R.sym('i%d.' % i, n) for i, n in enumerate(ls)]
    L = length('len', (1 << 36) - 32, BIG)
    R.check(op, ins, [], None, None, panic=True, sampler=small, nsim=4, what='GCM message of 2^36-32 bytes or more', lens={1: L}, outlen=L)
