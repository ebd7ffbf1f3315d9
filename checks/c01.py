"""SHA-2 digests equal FIPS 180-4"""
from vlib import spec

META = {'bounds': 'message lengths 0..2 blocks+16 (quick: every length up to one block+20, then around the second and third block/padding boundary), all contents, four functions, one-shot function and HashFunction::update in one call',
        'outside': 'longer messages: covered inductively by C02 (arbitrary hash state and running length)'}


def one(R, bits, n, op):
    m = R.sym('m', n)
    P = spec.SHA[bits]
    R.check('vh_sha%d%s' % (bits, op), [m], [0xAA] * P.D, 0, spec.sha2(bits, m), what='sha%d%s of %d bytes' % (bits, op, n))


def jobs(tier):
    out = []
    for bits in (224, 256, 384, 512):
        B, L = spec.SHA[bits].B, spec.SHA[bits].L
        full = set(range(0, B + 20))
        if tier == 'thorough':
            full |= set(range(B, 3 * B + 2))
        full |= {2 * B - L - 2, 2 * B - L - 1, 2 * B - L, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B - L - 1, 3 * B - L}
        out += [('sha%d/%d' % (bits, n), one, (bits, n, '')) for n in sorted(full, reverse=True)]
        out += [('sha%d-update/%d' % (bits, n), one, (bits, n, '_chunks')) for n in (0, 3, B - L - 1, B - L, B, B + 5)]
    return out
