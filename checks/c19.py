"""Ed25519 verification rejects malformed signatures and keys"""
from vlib import edspec, edverify, field as F, spec, terms as T

META = {'bounds': 'keys: every 32 bytes; S: every 32 bytes, with every R, key and message of 0 and 33 bytes; signature lengths: every length but 64',
        'outside': 'messages of other lengths'}


def keys(rnd):
    p = F.P
    ys = list(range(0, 30)) + list(range(p - 30, 1 << 255)) + [1 << 254] + [rnd.randrange(p) for _ in range(60)]
    for y in ys:
        for s in (0, 1):
            yield (y + (s << 255)).to_bytes(32, 'little')


def decode(R):
    pk = R.sym('A', 32)
    ok, x, y, t = edspec.decode_neg(pk)
    out = F.to_bytes(x) + F.to_bytes(y) + F.to_bytes(1) + F.to_bytes(t)
    R.check('vh_i_decode', [pk], [0xAA] * 128, T.zext(ok, 1, 32), [T.ite(ok, b, 0xAA, 8) for b in out], what='decoding of a public key', field=True,
            tries=lambda rnd: ([(pk, k)] for k in keys(rnd)))


def length(R, lo, hi):
    msg, sig, pk = R.sym('m', 3), R.sym('s', 64), R.sym('A', 32)
    n = T.var('len', 64, ur=(lo, hi))

    def small(env, rnd):
        env[n] = rnd.choice((lo, min(hi, lo + 1), rnd.randint(lo, min(hi, lo + 100))))

    def tries(rnd):
        for m, s, k in edverify.forgeries(rnd, 3):
            for l in (63, 65, 96, 128, 32, 33, 0):
                if lo <= l <= hi:
                    yield [(msg, m), (sig, s), (pk, k), ([n], [l])]
    R.check('vh_ed25519_verify', [msg, sig, pk], [], 0, None, what='verify with a signature of %d to %d bytes' % (lo, hi),
            sampler=small, lens={1: n}, tries=tries, online=False)


def jobs(tier):
    return [('decode', decode, ()), ('verify 0', edverify.plumbing, (0, False)), ('verify 33', edverify.plumbing, (33, False)),
            ('shorter', length, (0, 63)), ('longer', length, (65, 4096)), ('much longer', length, (4097, (1 << 63) - 1))]
