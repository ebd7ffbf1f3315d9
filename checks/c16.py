"""Ed25519 key generation and signing equal RFC 8032"""
from vlib import edspec

META = {'bounds': 'gen_pk: every 32-byte secret key; sign: every 32-byte secret key and every message of 0, 1, 47, 48, 64, 80 bytes (thorough: 15 more lengths up to 256)',
        'outside': 'messages of other lengths (the message only enters through SHA-512, whose streaming over every length is C01 and C02)'}


def gen_pk(R):
    sk = R.sym('k', 32)
    R.check('vh_ed25519_gen_pk', [sk], [0xAA] * 32, None, edspec.gen_pk(sk), what='Ed25519 public key', field=True)


def sign(R, n):
    sk, msg = R.sym('k', 32), R.sym('m', n)
    R.check('vh_ed25519_sign', [msg, sk], [0xAA] * 64, None, edspec.sign(msg, sk), what='Ed25519 signature', field=True)


LENS = [0, 1, 47, 48, 64, 80]
MORE = [15, 16, 31, 32, 63, 95, 111, 112, 127, 128, 175, 176, 200, 255, 256]


def jobs(tier):
    return [('gen_pk', gen_pk, ())] + [('sign %d' % n, sign, (n,)) for n in LENS + (MORE if tier == 'thorough' else [])]
