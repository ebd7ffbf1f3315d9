"""ChaCha20 stream equals RFC 8439"""
from vlib import spec, layout, terms as T

META = {'bounds': 'every key and nonce; fresh streams consumed through the iterator and through encrypt/decrypt in the listed interleavings; inductively, streams at an arbitrary block counter (any value below 2^32-8) and every position in the block',
        'outside': 'positions past 2^32-8 blocks (documented to overflow); single calls longer than about three blocks'}


def flow(R, op, chunks):
    k, n = R.sym('k', 32), R.sym('n', 12)
    cs = [R.sym('m%d.' % i, c) for i, c in enumerate(chunks)]
    m = [x for c in cs for x in c]
    ks = spec.chacha_stream(k, n, len(m))
    R.check(op, [k, n] + cs, [0xAA] * len(m), 0, spec.xor_bytes(m, ks), what='%s %s' % (op, list(chunks)), nsim=6)


def iterate(R, n):
    k, no = R.sym('k', 32), R.sym('n', 12)
    R.check('vh_chacha_iter', [k, no], [0xAA] * n, 0, spec.chacha_stream(k, no, n), what='iterator %d bytes' % n, nsim=6)


def find_layout(R):
    nat = R.native()
    ims, ks, ns, bl, ints = [], [], [], [], []
    for i, n in enumerate((1, 5, 63, 64, 65, 100, 127, 128, 129, 200, 300, 961)):
        key = bytes((i * 37 + 3 * j + 1) % 256 for j in range(32))
        non = bytes((i * 91 + 7 * j + 2) % 256 for j in range(12))
        r = nat.run('vh_stream_snap', [key, non, bytes(n)], bytes(1024))
        if r[0] != 'R' or r[1] > 1024:
            return None
        ims.append(r[2][:r[1]])
        ks.append(key)
        ns.append(non)
        c = (n - 1) // 64
        bl.append(bytes(spec.chacha_block(list(key), c, list(non))))
        ints.append({'c': c, 'c1': c + 1, 'i': n - 64 * c, 'p': n, 'left': 64 * c + 64 - n})
    return layout.explain(ims, [('k', ks), ('n', ns), ('b', bl)], [(x, [d[x] for d in ints]) for x in ('c', 'c1', 'i', 'p', 'left')])


def arbitrary(R, lay, k, n, c, i):
    """stream object whose current block is c and of which i bytes (1..64) are used up"""
    blk = spec.chacha_block(k, c, n)
    v = {'c': T.zext(c, 32, 64), 'c1': T.mk_add(T.zext(c, 32, 64), 1, 64), 'i': i, 'left': 64 - i,
         'p': T.mk_add(T.mk_mul(T.zext(c, 32, 64), 64, 64), i, 64)}
    out = []
    o = 0
    while o < len(lay):
        d = lay[o]
        if d[0] == 'blob':
            out.append({'k': k, 'n': n, 'b': blk}[d[1]][d[2]])
            o += 1
        elif d[0] == 'const':
            out.append(d[1])
            o += 1
        else:
            x = v[d[1]]
            x = T.zext(x, 64, 8 * d[2]) if d[2] > 8 else T.extract(x, 8 * d[2] - 1, 0)
            out += [T.extract(x, 8 * b + 7, 8 * b) for b in range(d[2])]
            o += d[2]
    return out


def inductive(R, i, n, chunks):
    lay = find_layout(R)
    if lay is None:
        R.notes.append('object layout not recognised: inductive cases skipped')
        return
    k, no = R.sym('k', 32), R.sym('n', 12)
    c = T.var('c', 32, ur=(0, 0xffffffff - 8))
    im = arbitrary(R, lay, k, no, c, i)
    ks = []
    for b in range(0, 6):
        ks += spec.chacha_block(k, T.mk_add(c, b, 32), no)
        if len(ks) - i >= max(n, sum(chunks or [0])):
            break
    if chunks is None:
        R.check('vh_stream_image', [im], [0xAA] * n, 0, ks[i:i + n], what='iterator from an arbitrary block, position %d' % i, nsim=6)
    else:
        cs = [R.sym('m%d.' % j, x) for j, x in enumerate(chunks)]
        m = [x for y in cs for x in y]
        R.check('vh_stream_image_enc', [im] + cs, [0xAA] * len(m), 0, spec.xor_bytes(m, ks[i:i + len(m)]),
                what='encrypt from an arbitrary block, position %d' % i, nsim=6)


def many(R, f, args):
    for a in args:
        f(R, *a)


def chunked(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def jobs(tier):
    out = []
    for n in (1, 63, 64, 65, 128, 129, 200):
        out.append(('iter%d' % n, iterate, (n,)))
    fl = []
    for op in ('vh_chacha_enc', 'vh_chacha_dec'):
        for ch in [(n,) for n in (0, 1, 2, 31, 32, 63, 64, 65, 127, 128, 129, 192)] + \
                [(0, 5), (1, 1), (1, 63), (1, 64), (63, 1), (63, 2), (64, 1), (64, 64), (65, 63), (10, 60, 70), (3, 0, 0, 61, 1), (64, 0, 1), (130, 10), (7,) * 12]:
            fl.append((op, ch))
    if tier == 'thorough':
        for a in range(0, 130, 3):
            for b in (1, 64, 65):
                fl.append(('vh_chacha_enc', (a, b)))
    for g in chunked(fl, 8):
        out.append(('flow-%s' % '.'.join(map(str, g[0][1])), many, (flow, g)))
    ind = [(i, 64 - i + 2, None) for i in range(1, 65)]
    ind += [(64, 130, None), (1, 200, None)]
    ind += [(i, 0, ch) for i in (1, 2, 31, 60, 63, 64) for ch in ((1,), (0, 1), (64,), (65,), (64 - i, 1), (64 - i + 1,), (3, 70), (128,))]
    if tier == 'thorough':
        ind += [(i, 0, (s,)) for i in range(1, 65) for s in (0, 1, 63, 64, 65, 128)]
    for g in chunked(ind, 10):
        out.append(('ind-%d-%s' % (g[0][0], g[0][1]), many, (inductive, g)))
    return out
