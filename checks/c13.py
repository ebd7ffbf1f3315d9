"""Poly1305 arithmetic is exact modulo 2^130-5"""
from vlib import spec, polymac, terms as T

META = {'bounds': 'ChaCha20-Poly1305 tags (the authenticator has no public API of its own) with an arbitrary one-time key, 1 to N blocks of arbitrary content, N in per_case',
        'outside': 'more blocks than listed; 2^32 blocks and beyond'}


def box_block(key, ctr, nonce):
    return [spec.box(x) for x in spec.chacha_block(key, ctr, nonce)]


def ccp(key, nonce, aad, pt):
    ks = []
    for i in range((len(pt) + 63) // 64):
        ks += box_block(key, 1 + i, nonce)
    ct = spec.xor_bytes(pt, ks)
    return ct, polymac.tag_terms(box_block(key, 0, nonce)[:32], spec.ccp_macdata(aad, ct))


def enc(R, m, a):
    k, p, n, d = R.sym('k', 32), R.sym('p', m), R.sym('n', 12), R.sym('a', a)
    ct, tag = ccp(k, n, d, p)
    R.check('vh_ccp_enc', [k, p, n, d], [0xAA] * (m + 16), 0, ct + tag,
            what='ChaCha20-Poly1305 encrypt %d bytes, %d bytes of data' % (m, a), nsim=6)


def jobs(tier):
    ns = [0, 1, 2, 3, 4, 5, 6, 8, 12, 16, 24, 32, 48, 64]
    out = [('m0-a%d' % (16 * n), enc, (0, 16 * n)) for n in reversed(ns)]
    out += [('m%d-a0' % (16 * n), enc, (16 * n, 0)) for n in (1, 2, 4, 8)]
    if tier == 'thorough':
        out += [('m0-a%d' % (16 * n), enc, (0, 16 * n)) for n in list(range(7, 64)) + [100, 128, 200, 256, 512]]
    return out
