"""SHA-2 streaming is independent of how the message is split"""
from vlib import spec, layout, prog, terms as T

META = {'bounds': 'inductive step from an arbitrary state (every chaining value, every buffered content, every total length below 2^61 bytes congruent to the buffered amount): one update of the listed sizes from every buffered amount leads to the state of the concatenation, and the digest of every state is that of FIPS 180-4; plus every listed split of whole messages from a fresh object',
        'outside': 'single update calls longer than about three blocks; totals of 2^61 bytes or more'}


def feats(P, total, msg):
    B = P.B
    return {'total': total, 'mod': total % B, 'bits': 8 * total, 'blocks': total // B, 'full': total // B * B, 'space': B - total % B}


_lay = {}


def find_layout(R, h):
    """how the object stores chaining value, buffer and lengths"""
    if h in _lay:
        return _lay[h]
    P = spec.SHA[h]
    nat = R.native()
    ims, Hs, bufs, ints = [], [], [], []
    for n in (1, 5, P.B - 1, P.B, P.B + 1, P.B + 9, 2 * P.B + 33, 3 * P.B + 2, 5 * P.B + 40, 7 * P.B):
        msg = bytes((17 * i + 29 * n + 101) % 251 + 1 for i in range(n))
        r = nat.run('vh_sha%d_snap' % h, [msg[:n // 2], msg[n // 2:]], bytes(1024))
        if r[0] != 'R' or r[1] > 1024:
            return None
        ims.append(r[2][:r[1]])
        H = list(P.H)
        for i in range(0, n - P.B + 1, P.B):
            H = spec.sha2_compress(P, H, msg[i:i + P.B])
        Hs.append(b''.join(x.to_bytes(P.w // 8, 'little') for x in H))
        bufs.append(msg[n // P.B * P.B:])
        ints.append(feats(P, n, msg))
    names = ('total', 'mod', 'bits', 'blocks', 'full', 'space')
    # the buffer may be kept at the end or start; only the buffered part is matched
    lay = layout.explain(ims, [('H', Hs), ('buf', [b + bytes(0) for b in bufs])], [(n, [f[n] for f in ints]) for n in names]) \
        if False else explain_sha(P, ims, Hs, bufs, [(n, [f[n] for f in ints]) for n in names])
    _lay[h] = lay
    return lay


def explain_sha(P, ims, Hs, bufs, ints):
    n = len(ims[0])
    for o in range(0, n - P.B + 1):
        if all(im[o:o + len(b)] == b for im, b in zip(ims, bufs)):
            # blank the buffer: what is stale is looked at separately
            im2 = [im[:o] + bytes(P.B) + im[o + P.B:] for im in ims]
            lay = layout.explain(im2, [('H', Hs)], ints)
            if lay is None or not any(d[0] == 'blob' for d in lay):
                continue
            if any(d[0] == 'const' and False for d in lay):
                continue
            stale_zero = all(set(im[o + len(b):o + P.B]) <= {0} for im, b in zip(ims, bufs))
            for k in range(P.B):
                lay[o + k] = ('blob', 'buf', k)
            return lay, stale_zero
    return None


def value(name, P, q, j, tot):
    B = P.B
    if name == 'total':
        return tot
    if name == 'mod':
        return j
    if name == 'space':
        return B - j
    if name == 'bits':
        return T.mk_mul(tot, 8, 64)
    if name == 'blocks':
        return q
    return T.mk_mul(q, B, 64)


def image(lay, P, H, buf, q, j):
    tot = T.mk_add(T.mk_mul(q, P.B, 64), j, 64)
    hb = []
    for x in H:
        hb += reversed(spec.be_bytes(x, P.w // 8))
    out = []
    i = 0
    while i < len(lay):
        d = lay[i]
        if d[0] == 'blob':
            out.append((hb if d[1] == 'H' else buf)[d[2]])
            i += 1
        elif d[0] == 'const':
            out.append(d[1])
            i += 1
        else:
            v = value(d[1], P, q, j, tot)
            w = d[2]
            v = T.zext(v, 64, 8 * w) if w > 8 else T.extract(v, 8 * w - 1, 0)
            out += [T.extract(v, 8 * k + 7, 8 * k) for k in range(w)]
            i += w
    return out


def state(R, P, j, stale_zero):
    H = [T.var('H%d' % i, P.w) for i in range(8)]
    # q*B + j < 2^61 - 2^16
    q = T.var('q', 64, ur=(0, (1 << 61) // P.B - (1 << 10)))
    buf = R.sym('b', j) + ([0] * (P.B - j) if stale_zero else R.sym('g', P.B - j))
    return H, q, buf


def finish(P, H, data, q, j, total_extra):
    """digest of chaining value H after q blocks, with data still to be hashed; j + total_extra = len(data)"""
    B, L = P.B, P.L
    n = len(data)
    tot = T.mk_add(T.mk_mul(q, B, 64), n, 64)
    bits = T.mk_mul(tot, 8, 64)
    lb = [0] * (L - 8) + spec.be_bytes(bits, 8)
    m = list(data) + [0x80] + [0] * ((B - L - 1 - n) % B) + lb
    for i in range(0, len(m), B):
        H = spec.sha2_compress(P, H, m[i:i + B])
    out = []
    for x in H:
        out += spec.be_bytes(x, P.w // 8)
    return out[:P.D]


def sampler(P):
    def f(env, rnd):
        for v in env:
            if v.op == 'var' and v.a[0] == 'q':
                k = rnd.randrange(4)
                top = v.ur[1]
                env[v] = (rnd.randrange(0, 4), rnd.randrange(0, top), ((1 << 29) // P.B) + rnd.randrange(-2, 3), ((1 << 32) // P.B) + rnd.randrange(-2, 3))[k]
    return f


def digest_of(R, h, j, chunks):
    P = spec.SHA[h]
    L = find_layout(R, h)
    if L is None:
        R.notes.append('object layout not recognised: inductive cases skipped')
        raise Skip()
    lay, sz = L
    H, q, buf = state(R, P, j, sz)
    cs = [R.sym('m%d' % i, n) for i, n in enumerate(chunks)]
    data = buf[:j] + [x for c in cs for x in c]
    R.check('vh_sha%d_image' % h, [image(lay, P, H, buf, q, j)] + cs, [0xAA] * P.D, 0, finish(P, H, data, q, j, 0),
            what='SHA-%d digest from an arbitrary state with %d bytes buffered, then updates of %s bytes' % (h, j, list(chunks)), nsim=6, sampler=sampler(P))


def step(R, h, j, s):
    """one update of s bytes from an arbitrary state with j bytes buffered"""
    P = spec.SHA[h]
    L = find_layout(R, h)
    if L is None:
        raise Skip()
    lay, sz = L
    H, q, buf = state(R, P, j, sz)
    c = R.sym('m', s)
    data = buf[:j] + c
    H2 = list(H)
    k = len(data) // P.B
    for i in range(k):
        H2 = spec.sha2_compress(P, H2, data[P.B * i:P.B * i + P.B])
    rest = data[k * P.B:]
    exp = image(lay, P, H2, rest + [None] * (P.B - len(rest)), T.mk_add(q, k, 64), len(rest))
    R.check('vh_sha%d_step' % h, [image(lay, P, H, buf, q, j), c], [0xAA] * len(lay), len(lay), exp,
            what='SHA-%d update of %d bytes with %d buffered' % (h, s, j), nsim=6, sampler=sampler(P))


class Skip(Exception):
    pass


def steps(R, h, pairs):
    for j, s in pairs:
        try:
            step(R, h, j, s)
        except Skip:
            return


def digests(R, h, js):
    for j in js:
        try:
            digest_of(R, h, j, ())
            digest_of(R, h, j, (3,))
        except Skip:
            return


def whole(R, h, lists):
    P = spec.SHA[h]
    for chunks in lists:
        cs = [R.sym('m%d.' % i, n) for i, n in enumerate(chunks)]
        m = [x for c in cs for x in c]
        R.check('vh_sha%d_chunks' % h, cs, [0xAA] * P.D, 0, spec.sha2(h, m), what='SHA-%d fed %s' % (h, list(chunks)), nsim=6)


def splits(P, tier):
    B = P.B
    out = []
    for n in (1, 5, B - 9, B - 1, B, B + 1, B + 20, 2 * B, 2 * B + 3) + ((3 * B - 7, 4 * B + 1) if tier == 'thorough' else ()):
        for i in sorted(set(list(range(0, min(n, 9))) + [n // 2, B - 1, B, B + 1, n - 2, n - 1, n])):
            if 0 <= i <= n:
                out.append((i, n - i))
    for a in (1, 7, B - 1):
        for b in (0, 1, B - a, B - a + 1, B, 2 * B - a):
            for c in (0, 1, B - 2, B):
                out.append((a, b, c))
    out += [(0,) * 4 + (1,), (1,) * 20, (1, 0, 1, 0), (B // 2,) * 5, (B - 1, 1, B, 1), (3, B, B, 2)]
    return out


def chunked(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def jobs(tier):
    out = []
    for h in (512, 384, 256, 224):
        P = spec.SHA[h]
        B = P.B
        pairs = []
        for j in range(0, B):
            ss = {0, 1, B - j - 1, B - j, B - j + 1, 2 * B - j, 2 * B - j + 5, B, B + 1, 7}
            if tier == 'thorough':
                ss |= set(range(0, 2 * B + 2, 5)) | {3 * B - j, 3 * B - j - 1, 3 * B + 9}
            elif h in (384, 224):
                ss = {0, 1, B - j - 1, B - j, B - j + 1, 2 * B - j + 5}
            for s in sorted(ss):
                if s >= 0:
                    pairs.append((j, s))
        for i, g in enumerate(chunked(pairs, 40)):
            out.append(('sha%d-step-%d.%d' % (h, g[0][0], i), steps, (h, g)))
        for g in chunked(list(range(0, B)), 16):
            out.append(('sha%d-digest-%d' % (h, g[0]), digests, (h, g)))
        for i, g in enumerate(chunked(splits(P, tier), 24)):
            out.append(('sha%d-split-%d' % (h, i), whole, (h, g)))
    return out
