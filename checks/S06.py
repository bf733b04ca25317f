"""Compression of arrays and strings: lossless round trips, damaged input rejected."""
import itertools, struct
import numpy as np
import rcmod

META = {'bounds': 'arrays: 20 types x lengths 0..40 and around 2^8, 2^12, 2^16, 2^17 (zstd block), 2^18 x 5 contents x 9 levels x checksum on and off; every array of length <= 3 over 5 boundary values; '
                  'contiguous, strided, reversed and read-only views; batches of 0..4 arrays in every order; strings: every string of length <= 5 over 4 bytes (thorough: 6), lengths 0..700 and around the block sizes at every level 1..22; '
                  'damage: every truncation, every single-byte substitution (255 values at every position), every single-byte insertion of 3 values, every deletion of compressed strings and arrays of several types; thorough: also every pair of bit flips.',
        'assumptions': ['arrays are one-dimensional, native byte order, of the types the library handles (no datetime, half or object)',
                        'the header of a compressed array is not protected by the checksum: a changed type of the same size is not damage that can be seen; the bytes must still be the same',
                        'without the checksum damage inside the compressed data need not be noticed, but must not crash']}
rc = None
TIER = 'quick'
TYPES = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'q', 'Q', 'f4', 'f8', 'g', 'F', 'D', 'S1', 'S3', 'U2', 'V5']
LENS = list(range(0, 41)) + [255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 131071, 131072, 131073, 262145]
LEVELS = [None, -1, 0, 1, 3, 7, 12, 19, 22, 23]


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier)


def child_init():
    global rc
    _, rc = rcmod.load()


def lcg(n, seed=1):
    return np.random.Generator(np.random.PCG64(seed)).integers(0, 256, n, dtype=np.uint8)


def raw(n, kind):
    if kind == 'zero':
        return np.zeros(n, 'u1')
    if kind == 'ff':
        return np.full(n, 255, 'u1')
    if kind == 'count':
        return (np.arange(n) & 255).astype('u1')
    if kind == 'period':
        return (np.arange(n) % 7 * 37).astype('u1')
    return lcg(n)


CONTENT = ['zero', 'ff', 'count', 'period', 'rand']


def make(ty, n, kind):
    dt = np.dtype(ty)
    b = raw(n * dt.itemsize, kind)
    if ty == '?':
        b = b & 1
    elif ty[0] == 'U':
        return np.frombuffer(b.reshape(-1, 4).astype('u1').tobytes() if n == 0 else (b.view('u4') % 0x10ffff).astype('u4').tobytes(), dt).copy()
    return np.frombuffer(b.tobytes(), dt).copy()


def units(tier):
    u = [['len', ty, cs] for ty in TYPES for cs in (0, 1)]
    u += [['level', ty] for ty in (TYPES if tier == 'thorough' else ['?', 'i4', 'g', 'S3', 'U2'])]
    u += [['small', ty] for ty in TYPES]
    u += [['batch', k] for k in range(5)]
    u += [['strsmall', a] for a in range(4)] + [['strlen', k] for k in CONTENT] + [['strlevel']]
    u += [['damage', ty, n, kind, part, cs] for ty, n, kind in DAM for part in range(4) for cs in (0, 1)]
    u += [['sdamage', k, part, cs] for k in range(len(SDAM)) for part in range(4) for cs in (0, 1)]
    u += [['bad']]
    if tier == 'thorough':
        u += [['pairs', k, part] for k in range(len(SDAM)) for part in range(16)]
    return u


DAM = [('i4', 10, 'period'), ('f8', 0, 'zero'), ('u1', 60, 'count'), ('S3', 9, 'rand'), ('U2', 4, 'period'), ('i8', 200, 'zero')]
SDAM = [b'', b'a', b'hello hello hello hello', bytes(300), raw(90, 'rand').tobytes(), b'ab' * 200]


def same(r, a):
    return isinstance(r, np.ndarray) and r.dtype == a.dtype and r.shape == a.shape and r.tobytes() == a.tobytes()


def rt(t, arrs, level, cs):
    rc.SetZstdChecksumming(bool(cs))
    args = (list(arrs), 0) if level is None else (list(arrs), 0, level)
    keep = [a.tobytes() for a in arrs]
    t.calls += 2
    c = rc.CompressDecompressArrays(*args)
    if len(c) != len(arrs):
        return t.fail('%d arrays give %d' % (len(arrs), len(c)))
    for i, x in enumerate(c):
        if not (isinstance(x, np.ndarray) and x.dtype == np.uint8 and x.ndim == 1):
            return t.fail('compressed array %d is %r' % (i, x))
    r = rc.CompressDecompressArrays(list(c), 1)
    t.outcome(tuple(len(x) for x in c))
    if len(r) != len(arrs):
        return t.fail('%d compressed arrays give %d' % (len(arrs), len(r)))
    for i, a in enumerate(arrs):
        if not same(r[i], a):
            return t.fail('array %d: %s %s of %s comes back as %s %s of %s' % (i, a.dtype, a.shape, a.tobytes()[:40], r[i].dtype, r[i].shape, r[i].tobytes()[:40]))
        if a.tobytes() != keep[i]:
            return t.fail('input modified')


def srt(t, s, level=None):
    t.calls += 2
    c = rc.CompressString(s) if level is None else rc.CompressString(s, level)
    d = rc.DecompressString(c)
    t.outcome(c)
    if d != s or type(c) is not bytes:
        t.fail('%r... of length %d comes back as %r... of length %d' % (s[:40], len(s), d[:40], len(d)))


def damaged(b, part=None, n=1):
    """every truncation, substitution, insertion, deletion of one byte"""
    j = 0
    for i in range(len(b)):
        j += 1
        if part is not None and i % n != part:
            continue
        yield ('cut', i), b[:i]
        for v in range(256):
            if v != b[i]:
                yield ('set', i, v), b[:i] + bytes([v]) + b[i + 1:]
        for v in (0, 1, 255):
            yield ('ins', i, v), b[:i] + bytes([v]) + b[i:]
        yield ('del', i), b[:i] + b[i + 1:]
    if part in (None, 0):
        for v in (0, 1, 255):
            yield ('ins', len(b), v), b + bytes([v])


def sdam(t, c, s, cs):
    t.calls += 1
    try:
        d = rc.DecompressString(c)
    except (ValueError, MemoryError):
        t.outcome('error')
        return
    t.outcome(d)
    if cs and d != s:
        t.fail('damaged data are accepted and give %r (length %d) instead of %r (length %d)' % (d[:60], len(d), s[:60], len(s)))


def run_unit(u, t):
    kind = u[0]
    if kind == 'len':
        _, ty, cs = u
        for n in LENS:
            for k in CONTENT:
                if TIER == 'quick' and (n > 5000 and k in ('ff', 'count') or n > 131072 and np.dtype(ty).itemsize > 2):
                    continue
                if t.begin([ty, n, k, cs]):
                    rt(t, [make(ty, n, k)], None, cs)
    elif kind == 'level':
        for lv in LEVELS:
            for n in (0, 1, 5, 100, 3000):
                for k in CONTENT:
                    for cs in (0, 1):
                        if t.begin([u[1], n, k, cs, lv]):
                            rt(t, [make(u[1], n, k)], lv, cs)
    elif kind == 'small':
        dt = np.dtype(u[1])
        pool = [make(u[1], 1, k) for k in CONTENT]
        for n in range(1, 4):
            for c in itertools.product(range(5), repeat=n):
                a = np.concatenate([pool[i] for i in c])
                for view in ('plain', 'stride', 'reverse', 'readonly', 'offset'):
                    if not t.begin([u[1], c, view]):
                        continue
                    b = a
                    if view == 'stride':
                        b = np.repeat(a, 3)[1::3]
                    elif view == 'reverse':
                        b = a[::-1].copy()[::-1]
                    elif view == 'readonly':
                        b = a.copy(); b.flags.writeable = False
                    elif view == 'offset':
                        b = np.frombuffer(b'x' + a.tobytes(), dt, len(a), 1)
                    rt(t, [b], None, 1)
    elif kind == 'batch':
        k = u[1]
        for tys in itertools.product(['i4', 'S3', 'f8', '?'], repeat=k):
            for n in (0, 1, 6):
                if t.begin([tys, n]):
                    rt(t, [make(ty, n, CONTENT[i]) for i, ty in enumerate(tys)], None, 1)
    elif kind == 'strsmall':
        rc.SetZstdChecksumming(True)
        al = [0, 97, 98, 255]
        for n in range(0, 6 if TIER == 'quick' else 7):
            for c in itertools.product(al, repeat=n):
                if (c[0] if c else 0) == al[u[1]] and t.begin(c):
                    srt(t, bytes(c))
    elif kind == 'strlen':
        for cs in (0, 1):
            rc.SetZstdChecksumming(bool(cs))
            for n in list(range(0, 701)) + LENS[41:]:
                if t.begin([n, u[1], cs]):
                    srt(t, raw(n, u[1]).tobytes())
    elif kind == 'strlevel':
        rc.SetZstdChecksumming(True)
        for lv in range(-2, 24):
            for n in (0, 1, 17, 1000) + ((70000,) if TIER == 'thorough' or lv % 5 == 0 else ()):
                for k in CONTENT:
                    if t.begin([lv, n, k]):
                        srt(t, raw(n, k).tobytes(), lv)
    elif kind == 'damage':
        _, ty, n, k, part, cs = u
        a = make(ty, n, k)
        rc.SetZstdChecksumming(bool(cs))
        c = rc.CompressDecompressArrays([a], 0)[0].tobytes()
        c = c[:48] + bytes(8) + c[56:] if len(c) > 56 else c      # a pointer which is not used
        good = rc.CompressDecompressArrays([np.frombuffer(c, 'u1')], 1)[0]
        if not same(good, a):
            if t.begin('good'):
                t.fail('the undamaged array does not come back')
            return
        for d, b in damaged(c, part, 4):
            if not t.begin(d):
                continue
            t.calls += 1
            try:
                r = rc.CompressDecompressArrays([np.frombuffer(b, 'u1')], 1)[0]
            except (ValueError, MemoryError):
                t.outcome('error')
                continue
            t.outcome(r.tobytes())
            if cs and r.tobytes() != a.tobytes():
                t.fail('damaged data are accepted and give %s %s %s' % (r.dtype, r.shape, r.tobytes()[:60]))
            if len(r.tobytes()) != len(a.tobytes()):
                t.fail('damaged data are accepted with %d instead of %d bytes' % (len(r.tobytes()), len(a.tobytes())))
    elif kind in ('sdamage', 'pairs'):
        s = SDAM[u[1]]
        cs = u[3] if kind == 'sdamage' else 1
        rc.SetZstdChecksumming(bool(cs))
        c = rc.CompressString(s)
        if kind == 'sdamage':
            for d, b in damaged(c, u[2], 4):
                if t.begin(d):
                    sdam(t, b, s, cs)
        else:
            for i, j in itertools.combinations(range(len(c) * 8), 2):
                if i % 16 != u[2]:
                    continue
                if t.begin([i, j]):
                    b = bytearray(c)
                    b[i >> 3] ^= 1 << (i & 7); b[j >> 3] ^= 1 << (j & 7)
                    sdam(t, bytes(b), s, 1)
    elif kind == 'bad':
        ok = rc.CompressDecompressArrays([np.arange(9)], 0)[0]
        bad = [('none', [None]), ('obj', [np.array([1, 'a'], object)]), ('int', [ok.view('i1')[:8]]), ('2d', [np.zeros((4, 60), 'u1')]), ('wide', [np.zeros(100, 'i8')]),
               ('0d', [np.array(5, 'u1')]), ('zeros', [np.zeros(200, 'u1')]), ('second', [ok, np.zeros(200, 'u1')]), ('first', [np.zeros(200, 'u1'), ok]), ('str', ['abc']), ('empty', [np.zeros(0, 'u1')]),
               ('ff', [np.full(300, 255, 'u1')]), ('magic', [np.full(300, 253, 'u1')])]
        for name, arg in bad:
            for mode in (0, 1, 2, 3, 4, 5, -1):
                if mode == 0 and name not in ('none', 'obj', '2d', '0d', 'str'):
                    continue
                if t.begin([name, mode]):
                    t.calls += 1
                    try:
                        r = rc.CompressDecompressArrays(arg, mode)
                    except (ValueError, TypeError):
                        continue
                    t.fail('accepted: %r' % (r,))
        for off in (8, 12, 16, 24, 32, 40):           # header words of a compressed array
            for v in (-1, 2**31, 2**62, -2**63, 10**9, 0):
                for w in ('i4', 'i8'):
                    if w == 'i4' and not -2**31 <= v < 2**31:
                        continue
                    b = bytearray(ok.tobytes())
                    b[off:off + np.dtype(w).itemsize] = np.array([v], w).tobytes()
                    if t.begin(['word', off, v, w]):
                        t.calls += 1
                        try:
                            r = rc.CompressDecompressArrays([np.frombuffer(bytes(b), 'u1')], 1)[0]
                        except (ValueError, MemoryError):
                            continue
                        if r.tobytes() != np.arange(9).tobytes():
                            t.fail('accepted: %r' % (r,))
