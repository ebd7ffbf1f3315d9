"""GHASH is the SP 800-38D polynomial hash over GF(2^128)"""
from checks import c07

META = {'bounds': 'GCM tags (the hash has no public API of its own) with an arbitrary hash key (the block cipher is an arbitrary function), 1 to N blocks of arbitrary content, N in per_case, in the data, in the cipher text, and in both with partial last blocks',
        'outside': 'more blocks than listed; inputs of 2^61 bytes and more (the bit length would wrap)'}


def jobs(tier):
    ns = (0, 1, 2, 3, 4, 5, 6, 8, 10, 12)
    out = [('m0-a%d' % (16 * n), c07.enc, ('s', 0, 16 * n)) for n in reversed(ns)]
    out += [('m%d-a0' % m, c07.enc, ('s', m, 0)) for m in (1, 15, 16, 17, 32, 64)]
    out += [('m%d-a%d' % ma, c07.enc, ('s',) + ma) for ma in ((1, 31), (15, 1), (16, 48), (7, 9), (33, 20))]
    out += [('m0-a%d' % a, c07.enc, ('s', 0, a)) for a in (1, 4, 8, 12, 15, 17, 30)]
    if tier == 'thorough':
        out += [('m0-a%d' % (16 * n), c07.enc, ('s', 0, 16 * n)) for n in (16, 24, 32, 48, 64)]
        out += [('m%d-a%d' % (m, a), c07.enc, ('s', m, a)) for m in range(0, 40, 3) for a in range(0, 40, 3)]
    return out
