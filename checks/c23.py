"""valid calls never panic, overflow or touch memory out of bounds"""
import importlib
from vlib import ct, spec

META = {'bounds': 'every content of the arguments at the lengths listed in per_case (messages up to several blocks around every block boundary, okm up to 255 blocks, streams in any internal state); every overflow check, bounds check, panic branch and memory access of the functions executed is an obligation',
        'outside': 'other lengths; Ed25519 verification: digit strings and recoding windows as in C18'}


def safe(R, fn, *args):
    R.safety = True
    fn(R, *args)


def jobs(tier):
    big = tier == 'thorough'
    out = []

    def take(m, names):
        for j in importlib.import_module('checks.' + m).jobs(tier):
            if names is None or any(n in j[0] for n in names):
                out.append((m.upper() + ' ' + j[0], safe, (j[1],) + tuple(j[2])))

    def add(op, ins, o):
        out.append(('%s %s %d' % (op[3:], ','.join(map(str, ins)), o), ct.in_bounds, (op, ins, o)))
    take('c18', None if big else ('digits 2', 'verify 0', 'verify 48', 'recoding'))
    take('c16', None if big else ('gen_pk', 'sign 0', 'sign 80'))
    take('c14', None)
    take('c19', None if big else ('decode', 'shorter', 'longer', 'much'))
    for a, kl in (('128', 16), ('192', 24), ('256', 32)):
        add('vh_aes' + a, [kl, 16], 16)
        for n, d in ((0, 0), (33, 17)):
            add('vh_gcm%s_enc' % a, [kl, n, 12, d], n + 16)
            add('vh_gcm%s_dec' % a, [kl, n, 12, d, 16], n)
    step = 1 if big else 3
    for c, kl in (('gcms', 8), ('ccp', 32)):
        for n in sorted(set(list(range(0, 70, step)) + [15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 191, 193, 256] + ([255, 257, 512, 1000] if big else []))):
            for d in (0, 16, 21):
                if n > 70 and d:
                    continue
                add('vh_%s_enc' % c, [kl, n, 12, d], n + 16)
                add('vh_%s_dec' % c, [kl, n, 12, d, 16], n)
        for t in (0, 1, 15, 17, 32):
            add('vh_%s_dec' % c, [kl, 20, 12, 3, t], 20)
    for ks in ((0,), (1, 63), (64,), (63, 1, 1), (65, 64), (1, 1, 62, 64, 65), (200,), (0, 130, 0, 62)):
        add('vh_chacha_enc', [32, 12] + list(ks), sum(ks))
        add('vh_chacha_dec', [32, 12] + list(ks), sum(ks))
    add('vh_chacha_iter', [32, 12], 200)
    for h in ('224', '256', '384', '512'):
        D, B = spec.HASHES[h].D, spec.HASHES[h].B
        for n in range(0, 3 * B + 2, 1 if big else 5):
            add('vh_sha' + h, [n], D)
        for ks in ((B - 1, 1), (B, B), (1, 2 * B), (B - 9, 9, B - 8), (3, 3 * B - 3, 0, 1), (0, 0), (B - 17, 17, B - 16, B)):
            add('vh_sha%s_chunks' % h, list(ks), D)
        for k in (0, 1, D, B - 1, B, B + 1, 2 * B + 1):
            add('vh_hmac' + h, [k, 7, B], D)
        for t in (0, 1, D - 1, D, D + 1, B):
            add('vh_hmacv' + h, [20, 9, t], 0)
        for s, i in ((0, 0), (D, 9), (B + 1, B)):
            add('vh_extract' + h, [s, i], D)
        for p, i, n in ((D, 0, 0), (D, 3, 1), (D + 1, 10, D), (D, B, 2 * D + 1), (D, 1, 5 * D - 1)):
            add('vh_expand' + h, [p, i], n)
    for n in (255 * 4, 255 * 4 - 1, 254 * 4 + 1, 254 * 4, 128 * 4, 129 * 4, 127 * 4 + 1):
        add('vh_expand_small', [4, 2], n)
    for n in (255 * 32, 254 * 32 + 1, 255 * 32 - 1):
        add('vh_expand_mid', [32, 1], n)
    add('vh_expand_wide', [64, 1], 20 * 64)
    for n in list(range(0, 40)) + [255, 256, 257]:
        add('vh_verify16', [16, n], 0)
    take('c02', ('step', 'digest'))
    take('c10', ('ind',))
    return out
