"""AES equals FIPS 197"""
from vlib import spec

META = {'bounds': 'none on values: every key and every block, three key sizes (all loops have constant trip counts and are fully unrolled)',
        'outside': 'nothing'}


def one(R, bits):
    k = R.sym('k', bits // 8)
    b = R.sym('b', 16)
    R.check('vh_aes%d' % bits, [k, b], [0xAA] * 16, 0, spec.aes_encrypt(k, b), what='AES-%d' % bits, nsim=6)


def badkey(R, bits, n):
    k = R.sym('k', n)
    b = R.sym('b', 16)
    R.check('vh_aes%d' % bits, [k, b], [0xAA] * 16, None, None, what='AES-%d with a %d-byte key' % (bits, n), panic=True)


def jobs(tier):
    return [('aes%d' % b, one, (b,)) for b in (256, 192, 128)]
