"""Ed25519 verification accepts exactly when the signature equation holds"""
from vlib import edverify, spec

META = {'bounds': 'the answer of verify in terms of [h](-A) + [S]B: every key, R, S and message of 0, 1, 47, 48, 80 bytes (thorough: 8 more lengths). '
                  'That combination, from the digits of both scalars: every key and every string of digits at positions 0..60 and 240..255 '
                  '(thorough: all 256 positions). Recoding: scalars with 8 to 10 arbitrary consecutive bits in ten places and surroundings '
                  '(thorough: windows of 10 bits in steps of 5 over all positions, four surroundings)',
        'outside': 'scalars whose recoding depends on more than those bits at once; messages of other lengths (they only enter through SHA-512, C01 and C02)'}

WINDOWS = [(0, 10, 0), (3, 9, (1 << 252) - 1), (0, 8, spec.L - 1), (100, 9, (1 << 252) // 7), (100, 9, (1 << 252) // 255 * 127), (120, 9, 1 << 124),
           (242, 10, (1 << 240) - 1), (243, 10, 0), (60, 9, 0x5a827999 << 40), (249, 3, (1 << 249) - 1)]


def key(n):
    return spec.ed_gen_pk(bytes([n]) * 32)


def jobs(tier):
    thorough = tier == 'thorough'
    js = [('verify %d' % n, edverify.plumbing, (n, True)) for n in [0, 1, 47, 48, 80] + ([31, 32, 63, 64, 111, 112, 175, 176] if thorough else [])]
    js += [('digits %d..%d' % (a, b), edverify.double, (a, b)) for a, b in [(0, 60), (240, 255)] + ([(0, 255)] if thorough else [])]
    js.append(('digits of one key', edverify.double, (0, 3, key(1))))
    ws = list(WINDOWS)
    if thorough:
        ws += [(k, 10, b) for k in range(0, 243, 5) for b in (0, (1 << 252) - 1, (1 << 252) // 7, 0x123456789abcdef0fedcba9876543210ff00ff00aaaa5555123456789abcdef)]
    return js + [('recoding %d %x' % (k, b), edverify.slide, (k, n, b)) for k, n, b in ws]
