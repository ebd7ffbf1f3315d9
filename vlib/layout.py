"""Discovers how an object stores its abstract state by comparing snapshots of its bytes, taken
natively after known histories, with the values the abstract state has then.  Nothing about the
implementation's field names, order or widths is assumed; if some byte is left unexplained there is
no layout and the caller falls back."""


def explain(images, blobs, ints):
    """images: list of bytes objects of one size.
    blobs: list of (name, [bytes per image]); ints: list of (name, [int per image]).
    Returns list of (offset, width, name | None, const-or-index) or None.
      ('blob', name, k): byte k of the blob;  ('int', name, width);  ('const', value)"""
    n = len(images[0])
    if any(len(i) != n for i in images):
        return None
    done = {}
    for name, vals in blobs:
        m = max(len(v) for v in vals)
        # offsets where every image holds its value
        offs = [o for o in range(0, n) if all(im[o:o + len(v)] == v for im, v in zip(images, vals)) and o + m <= n]
        offs = [o for o in offs if not any(o + k in done for k in range(m))]
        for o in offs[:1]:
            for k in range(m):
                done[o + k] = ('blob', name, k)
    for w in (16, 8, 4, 2, 1):
        for o in range(0, n - w + 1, w):
            if any(o + k in done for k in range(w)):
                continue
            got = [int.from_bytes(im[o:o + w], 'little') for im in images]
            if w > 1 and len(set(im[o + w - 1] for im in images)) == 1 and images[0][o + w - 1] != 0:
                continue
            for name, vals in ints:
                if len(set(vals)) > 1 and got == [v % (1 << (8 * w)) for v in vals]:
                    done[o] = ('int', name, w)
                    for k in range(1, w):
                        done[o + k] = ('cont',)
                    break
    for o in range(n):
        if o not in done:
            if len(set(im[o] for im in images)) != 1:
                return None
            done[o] = ('const', images[0][o])
    return [done[o] for o in range(n)]
