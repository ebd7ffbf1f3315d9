"""secrets never decide a branch or a memory address"""
from vlib import ct, spec

IR = ('ct',)
META = {'ir': 'ct',
        'bounds': 'every secret and every public input of the lengths listed in per_case; every branch, switch, address and division of the compiled crate (LLVM IR before optimisation)',
        'outside': 'other lengths; Ed25519 verification (public data); what the optimiser and the processor make of straight-line code'}


def keys_and_tags(op, enc, kl, nl):
    """pairs of keys that both reject the same message, the tag being wrong at different places"""
    def pairs(R):
        for i in range(12):
            k1, k2, n, ad = (R.rnd.randbytes(x) for x in (kl, kl, 12, 5))
            ct_ = R.rnd.randbytes(nl)
            pos = R.rnd.choice((15, 14, 8, 1, 15))
            # the genuine tag under k1: encrypt what ct_ decrypts to
            z = R.native().run(enc, [k1, bytes(nl), n, ad], bytes(nl + 16))[2]
            pt = bytes(a ^ b for a, b in zip(ct_, z))
            g = bytearray(R.native().run(enc, [k1, pt, n, ad], bytes(nl + 16))[2][nl:])
            g[pos] ^= 1 << R.rnd.randrange(8)
            yield [k1, ct_, n, ad, bytes(g)], [k2, ct_, n, ad, bytes(g)]
    return pairs


def hmac_tags(op, h, kl, nl):
    def pairs(R):
        H = spec.HASHES[h]
        for i in range(12):
            k1, k2, m1, m2 = (R.rnd.randbytes(x) for x in (kl, kl, nl, nl))
            g = bytearray(R.native().run('vh_hmac' + h, [k1, m1], bytes(H.D))[2])
            g[-1 - R.rnd.randrange(3)] ^= 1
            yield [k1, m1, bytes(g)], [k2, m2, bytes(g)]
    return pairs


def tags16(R):
    for i in range(8):
        b = R.rnd.randbytes(16)
        c = bytearray(b)
        c[15 - i % 4] ^= 1
        yield [bytes(c), b], [R.rnd.randbytes(16), b]


def jobs(tier):
    out = []

    def add(op, ins, o, secret, **k):
        out.append(('%s %s' % (op[3:], ' '.join(str(n) for _, n in ins)), lambda R: ct.secret_free(R, op, ins, o, secret.split(), **k), ()))
    big = tier == 'thorough'
    add('vh_x25519_dh', [('pk', 32), ('sk', 32)], 32, 'sk')
    add('vh_x25519_gen_pk', [('sk', 32)], 32, 'sk')
    add('vh_ed25519_gen_pk', [('sk', 32)], 32, 'sk')
    for n in (0, 50) + ((1, 47, 48, 111, 200) if big else ()):
        add('vh_ed25519_sign', [('m', n), ('sk', 32)], 64, 'sk')
    for b in (128, 192, 256):
        add('vh_aes%d' % b, [('k', b // 8), ('b', 16)], 16, 'k b')
        for n, a in ((0, 0), (16, 0), (37, 5), (5, 21)) + (((64, 32), (100, 40), (0, 16)) if big else ()):
            add('vh_gcm%d_enc' % b, [('k', b // 8), ('p', n), ('n', 12), ('d', a)], n + 16, 'k p')
            add('vh_gcm%d_dec' % b, [('k', b // 8), ('c', n), ('n', 12), ('d', a), ('t', 16)], n, 'k', declassify=True,
                pairs=keys_and_tags('vh_gcm%d_dec' % b, 'vh_gcm%d_enc' % b, b // 8, n) if a == 5 else None)
    for n, a in ((0, 0), (64, 0), (100, 5), (16, 33), (65, 16)) + (((200, 40), (1, 1)) if big else ()):
        add('vh_ccp_enc', [('k', 32), ('p', n), ('n', 12), ('d', a)], n + 16, 'k p')
        add('vh_ccp_dec', [('k', 32), ('c', n), ('n', 12), ('d', a), ('t', 16)], n, 'k', declassify=True,
            pairs=keys_and_tags('vh_ccp_dec', 'vh_ccp_enc', 32, n) if a == 5 else None)
    for n in (3, 64, 130):
        add('vh_chacha_enc', [('k', 32), ('n', 12), ('p', n), ('q', 70)], n + 70, 'k p q')
    for h in ('224', '256', '384', '512'):
        for n in (0, 3, 55, 56, 64, 111, 112, 128, 200) if big else (0, 3, 64, 119):
            add('vh_sha' + h, [('m', n)], spec.HASHES[h].D, 'm')
        for k, n in ((5, 7), (64, 0), (65, 70), (128, 3), (129, 3)):
            add('vh_hmac' + h, [('k', k), ('m', n)], spec.HASHES[h].D, 'k m')
        add('vh_hmacv' + h, [('k', 20), ('m', 9), ('t', spec.HASHES[h].D)], 0, 'k m', declassify=True, pairs=hmac_tags('vh_hmacv' + h, h, 20, 9))
        add('vh_extract' + h, [('s', 13), ('i', 22)], spec.HASHES[h].D, 'i')
        add('vh_expand' + h, [('k', spec.HASHES[h].D), ('i', 10)], 2 * spec.HASHES[h].D + 5, 'k')
    add('vh_verify16', [('a', 16), ('b', 16)], 0, 'a', declassify=True, pairs=tags16)
    return out
