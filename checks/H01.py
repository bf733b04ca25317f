"""Array assembly utilities against their definitions: stack, upcast, homogenize, shift, records to columns, bit count, CRC, trailing spaces."""
import itertools
import numpy as np
import rcmod
from dp import *
import D04

META = {'bounds': 'HStack: every ordered pair of the 14 numeric types (both 64-bit type numbers) and every triple over 7 types x lengths 0..3 each x boundary values, requested result types, strided and misaligned parts, byte and unicode strings of widths 1..9 (every '
                  'pair), lengths around 16384; GetUpcastNum: every sequence of <= 3 types; HomogenizeArrays: every pair and every target; ShiftArrays: every shift -n-1..n+1 of every length 0..40, 1-d and 2-d in both orders, item sizes 1..17; '
                  'RecordArrayToColMajor: every pair of field sizes 1..17 with offsets, lengths 0..40 and at the chunk limits; BitCount: all values of 8/16 bit types, all single bits, pairs of bits and their complements of 32/64 bit types; '
                  'CalculateCRC: every length 0..200, every single-byte change position, all one- and two-byte contents; RemoveTrailingSpaces: every string of length <= 4 over {space, NUL, letter}.',
        'assumptions': ['a finite float outside the range of an integer target has no documented result', 'ShiftArrays works in place on contiguous arrays: by rows for Fortran order, by elements otherwise; vacated elements keep their data']}
rc = None
TIER = 'quick'
TYS = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'l', 'L', 'q', 'Q', 'f4', 'f8', 'g']


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier)


def child_init():
    global rc
    _, rc = rcmod.load()


def bits_of(d):
    """number of bits of an integer type needed, signed?"""
    return d.itemsize * 8


def upcast(ts):
    """smallest type that holds all types: signed integers for mixed ones, floats when no integer does; float32 only with integers of 16 bits"""
    ds = [np.dtype(x) for x in ts]
    fl = [d for d in ds if d.kind == 'f']
    si = [d for d in ds if d.kind in 'ib']
    un = [d for d in ds if d.kind == 'u']
    if fl:
        m = max(fl, key=lambda d: d.itemsize)
        if m.itemsize > 4:
            return m.str[1:] if m.itemsize < 16 else 'g'
        return 'f8' if any(d.itemsize > 2 for d in si + un) else 'f4'
    if not un:
        m = max(si, key=lambda d: (d.kind == 'i', d.itemsize))
        return '?' if m.kind == 'b' else m.str[1:]
    mu = max(un, key=lambda d: d.itemsize)
    if not si:
        return mu.str[1:]
    ms = max(si, key=lambda d: (d.kind == 'i', d.itemsize))
    if ms.kind == 'i' and ms.itemsize > mu.itemsize:
        return ms.str[1:]
    return {1: 'i2', 2: 'i4', 4: 'i8', 8: 'f8'}[mu.itemsize]


def vals_for(ty, target=None):
    v = vals('f8').astype('g') if ty == 'g' else vals(ty)
    if target is not None:
        v = v[D04.representable(v, target, True)]
    return v


def cvt(a, t2):
    return D04.ref('safe', a, t2)


def eqt(g, e):
    return isinstance(g, np.ndarray) and (same(g, e) if e.dtype.kind not in 'SU' else g.dtype == e.dtype and g.tobytes() == e.tobytes())


def units(tier):
    return [['h2', a] for a in TYS] + [['h3', a] for a in ('?', 'i1', 'u2', 'i4', 'u8', 'f4', 'f8')] + [['hs', k] for k in 'SU'] + [['upcast', a] for a in TYS] + [['homo', a] for a in TYS] + \
        [['shift', s] for s in (1, 2, 4, 8, 3, 16, 17)] + [['rec', s] for s in range(1, 18)] + [['bits'], ['crc'], ['trail', 'S'], ['trail', 'U'], ['refuse']]


def chk(t, name, g, e, key=None):
    t.calls += 1
    if not eqt(g, e):
        t.fail('%s: %s' % (name, diff(g, e) if not isinstance(g, np.ndarray) or e.dtype.kind not in 'SU' else 'got %r expected %r' % (g.tolist()[:5], e.tolist()[:5])), key)
    else:
        t.outcome(e.tobytes()[:48])


def run_h2(u, t):
    a = u[1]
    for b in TYS:
        r = upcast([a, b])
        va, vb = vals_for(a), vals_for(b)
        if t.begin((u, b, 'all values')):
            e = np.concatenate([cvt(va, r), cvt(vb, r)])
            chk(t, 'HStack', rc.HStack([va, vb]), e)
            chk(t, 'HStack tuple', rc.HStack((va, vb)), e)
        for n in range(0, 4):
            for m in range(0, 4):
                if t.begin((u, b, n, m)):
                    x, y = va[:n], vb[len(vb) - m:]
                    chk(t, 'HStack', rc.HStack([x, y]), np.concatenate([cvt(x, r), cvt(y, r)]))
        for la in ('s2', 's-1', 'm1', 'c'):
            for lb in ('s2', 's-1', 'm1', 'c'):
                if t.begin((u, b, la, lb)):
                    chk(t, 'HStack', rc.HStack([lay(va, la), lay(vb, lb)]), np.concatenate([cvt(va, r), cvt(vb, r)]))
        for req in ('?', 'i1', 'u2', 'i4', 'i8', 'u8', 'f4', 'f8', 'g'):
            if t.begin((u, b, 'as', req)):
                x, y = vals_for(a, req), vals_for(b, req)
                chk(t, 'HStack(dtype)', rc.HStack([x, y], np.dtype(req).num), np.concatenate([cvt(x, req), cvt(y, req)]))
        for n, m in ((16383, 1), (16384, 0), (16384, 1), (8000, 9000), (1, 40000)):
            if t.begin((u, b, n, m)):
                x, y = np.resize(va, n), np.resize(vb, m)
                chk(t, 'HStack', rc.HStack([x, y]), np.concatenate([cvt(x, r), cvt(y, r)]))


def lay(a, kind):
    if kind == 's2':
        b = np.zeros(len(a) * 2 + 1, a.dtype)
        v = b[1::2]
        v[...] = a
        return v
    if kind == 's-1':
        return np.ascontiguousarray(a[::-1])[::-1]
    return place(a, kind)[0] if kind != 'c' else a.copy()


def run_h3(u, t):
    ts = ('?', 'i1', 'u2', 'i4', 'u8', 'f4', 'f8')
    a = u[1]
    for b in ts:
        for c in ts:
            r = upcast([a, b, c])
            for n, m, k in itertools.product((0, 1, 2), repeat=3):
                if t.begin((u, b, c, n, m, k)):
                    x, y, z = vals_for(a)[:n], vals_for(b)[:m], vals_for(c)[:k]
                    chk(t, 'HStack', rc.HStack([x, y, z]), np.concatenate([cvt(x, r), cvt(y, r), cvt(z, r)]))
    if t.begin((u, 'one')):
        v = vals_for(a)
        chk(t, 'HStack', rc.HStack([v]), v)
    if t.begin((u, 'many')):
        v = vals_for(a)
        p = [v[i % len(v):] for i in range(40)]
        chk(t, 'HStack', rc.HStack(p), np.concatenate(p))


def strs(k, w, n):
    return np.array([''.join(chr(65 + (i * 7 + j) % 26) for j in range(max(1, w - i % 3))) for i in range(n)], '%s%d' % (k, w)) if n else np.empty(0, '%s%d' % (k, w))


def run_hs(u, t):
    k = u[1]
    for wa in range(1, 10):
        for wb in range(1, 10):
            for n, m in ((0, 0), (0, 2), (1, 0), (1, 1), (3, 2), (2, 5)):
                if t.begin((u, wa, wb, n, m)):
                    a, b = strs(k, wa, n), strs(k, wb, m)
                    d = '%s%d' % (k, max(wa, wb))
                    chk(t, 'HStack', rc.HStack([a, b]), np.concatenate([a, b]).astype(d))
    for wa, wb, wc in itertools.product((1, 3, 8), repeat=3):
        for lay_ in ('c', 's2', 's-1', 'm1'):
            for n in (1, 2, 6000):
                if t.begin((u, wa, wb, wc, lay_, n)):
                    p = [strs(k, w, n) for w in (wa, wb, wc)]
                    chk(t, 'HStack', rc.HStack([lay(x, lay_) for x in p]), np.concatenate(p))


def run_upcast(u, t):
    a = u[1]
    for L in range(0, 3):
        for q in itertools.product(TYS, repeat=L):
            if t.begin((u, q)):
                arrs = [np.zeros(2, x) for x in (a,) + q]
                g = rc.GetUpcastNum(arrs)
                t.calls += 1
                e = np.dtype(upcast((a,) + q))
                if g < 0 or g > 13 or np.dtype(rc_type(g)) != e:
                    t.fail('GetUpcastNum(%s) = %d, expected %s' % ((a,) + q, g, e))


def rc_type(n):
    return ['?', 'b', 'B', 'h', 'H', 'i', 'I', 'l', 'L', 'q', 'Q', 'f', 'd', 'g'][n]


def run_homo(u, t):
    a = u[1]
    for b in TYS:
        for req in (-1,) + tuple(range(0, 14)):
            r = upcast([a, b]) if req < 0 else rc_type(req)
            for n in (0, 1, 2, 50):
                if not t.begin((u, b, req, n)):
                    continue
                p = [np.resize(v, n) if len(v) else v[:0] for v in (vals_for(a, r), vals_for(b, r))]
                if any(len(x) != n for x in p):
                    continue
                src = [x.copy() for x in p]
                g = rc.HomogenizeArrays(p, req)
                if not isinstance(g, list) or len(g) != 2:
                    t.fail('HomogenizeArrays returned %r' % (g,))
                    continue
                for x, y, s in zip(g, p, src):
                    chk(t, 'HomogenizeArrays', x, cvt(s, r))
                    if not same(y, s):
                        t.fail('input changed')


def item(n, size):
    """n items of a size, distinct bytes"""
    b = (np.arange(n * size) * 31 + np.arange(n * size) // 251 + 1).astype('u1')
    ty = {1: 'i1', 2: 'i2', 4: 'i4', 8: 'i8', 16: 'S16'}.get(size, 'S%d' % size)
    return b.view(ty)


def run_shift(u, t):
    size = u[1]
    for n in list(range(0, 41)) + [20000]:
        for s in range(-n - 1, n + 2) if n < 41 else (-n, -1, 0, 1, 7, n - 1, n + 5):
            if not t.begin((u, n, s)):
                continue
            a, b = item(n, size), item(5, size)
            a, b = a.copy(), b.copy()
            lst = [a, b]
            e = []
            for x in lst:
                y = x.copy()
                m = len(x)
                if s >= 0 and m - s > 0:
                    y[:m - s] = x[s:]
                elif s < 0 and m + s > 0:
                    y[-s:] = x[:m + s]
                e.append(y)
            g = rc.ShiftArrays(lst, s)
            if g is not lst:
                t.fail('ShiftArrays returned another object')
            chk(t, 'ShiftArrays', a, e[0])
            chk(t, 'ShiftArrays', b, e[1])
    for rows, cols in ((1, 1), (2, 3), (3, 2), (5, 4), (4, 1), (1, 4), (7, 9)):
        for s in range(-rows - 1, rows + 2):
            if not t.begin((u, 'F', rows, cols, s)):
                continue
            x = item(rows * cols, size).reshape(cols, rows).T.copy(order='F')
            y = x.copy(order='F')
            if rows == 1 or cols == 1:         # both orders: one dimension
                f, h = x.ravel(order='A').copy(), y.ravel(order='A').copy()
                m = len(f)
                if rows == 1 and cols > 1:
                    continue
            else:
                f, h, m = x.copy(), y.copy(), rows
            if s >= 0 and m - s > 0:
                h[:m - s] = f[s:]
            elif s < 0 and m + s > 0:
                h[-s:] = f[:m + s]
            rc.ShiftArrays([x], s)
            chk(t, 'ShiftArrays 2-d', x.ravel(order='F') if h.ndim == 2 else x.ravel(order='A'), h.ravel(order='F'))


def run_rec(u, t):
    s1 = u[1]
    for s2 in range(1, 18):
        for gap in (0, 1, 5):
            for n in list(range(0, 22)) + [100] + ([16383, 16384, 16385, 33000] if gap == 1 and s2 in (1, 4, 8, 17) else []):
                if not t.begin((u, s2, gap, n)):
                    continue
                size = gap + s1 + s2 + (3 if gap == 5 else 0)
                raw = item(n, size) if n else np.empty(0, 'S%d' % size)
                rec = raw.view(np.dtype({'names': ['a', 'b'], 'formats': ['V%d' % s1, 'V%d' % s2], 'offsets': [gap, gap + s1], 'itemsize': size}))
                by = np.frombuffer(raw.tobytes(), 'u1').reshape(n, size)
                # the columns are surrounded by guard bytes
                outs, bufs = [], []
                for w in (s1, s2):
                    buf = np.full(n * w + 64, 0x77, 'u1')
                    bufs.append(buf)
                    outs.append(buf[32:32 + n * w].view('V%d' % w))
                arr = np.empty(2, object)
                arr[0], arr[1] = outs
                rc.RecordArrayToColMajor(rec, np.array([gap, gap + s1], 'i8'), arr)
                for w, o, buf in ((s1, gap, bufs[0]), (s2, gap + s1, bufs[1])):
                    e = np.full(n * w + 64, 0x77, 'u1')
                    e[32:32 + n * w] = by[:, o:o + w].reshape(-1)
                    chk(t, 'RecordArrayToColMajor', buf, e)


def run_bits(t):
    for ty in ('?',) + tuple(INTS) + ('q', 'Q'):
        d = np.dtype(ty)
        w = d.itemsize * 8
        if d.itemsize <= 2:
            v = full(ty)
        else:
            x = [0] + [1 << i for i in range(w)] + [(1 << i) | (1 << j) for i in range(w) for j in range(i)] + [(1 << i) - 1 for i in range(w + 1)]
            x += [((1 << w) - 1) ^ y for y in x]
            v = np.array([y & ((1 << w) - 1) for y in x], 'u%d' % d.itemsize).view(ty)
        raw = v.view('u%d' % d.itemsize).tolist()
        e = np.array([bin(int(y)).count('1') for y in raw], 'i1')
        if t.begin((ty, 'all')):
            chk(t, 'BitCount', rc.BitCount(v), e)
        if t.begin((ty, 'bytes')) and d.kind == 'b':
            chk(t, 'BitCount', rc.BitCount(np.arange(256).astype('u1').view('?')), np.array([0] + [1] * 255, 'i1'))
        for n in range(0, 40):
            for o in (0, 1, 3):
                if t.begin((ty, n, o)):
                    x = np.resize(v, n + o)[o:]
                    chk(t, 'BitCount', rc.BitCount(x), np.resize(e, n + o)[o:])
        if t.begin((ty, '2d')):
            x = np.resize(v, (5, 7))
            chk(t, 'BitCount', rc.BitCount(x), np.resize(e, (5, 7)))


POLY = 0xC96C5795D7870F42


def crc_table():
    T = []
    for i in range(256):
        c = i
        for _ in range(8):
            c = (c >> 1) ^ POLY if c & 1 else c >> 1
        T.append(c)
    return T


def crc(b, T):
    c = (1 << 64) - 1
    for x in b:
        c = T[(c ^ x) & 255] ^ (c >> 8)
    c ^= (1 << 64) - 1
    return c - (1 << 64) if c >> 63 else c


def run_crc(t):
    T = crc_table()

    def go(b, a=None):
        t.calls += 1
        g = rc.CalculateCRC(np.frombuffer(bytes(b), 'u1') if a is None else a)
        e = crc(b, T)
        t.outcome(e)
        if g != e:
            t.fail('CRC %d expected %d' % (g, e))
    for n in range(0, 201):
        if t.begin(('len', n)):
            for o in (0, 1, 5):
                a = (np.arange(n + o) * 37 + 5).astype('u1')[o:]
                go(a.tobytes(), a)
    for x in range(256):
        if t.begin(('one', x)):
            go([x])
            for y in range(256):
                go([x, y])
    for n in (7, 8, 63, 64, 65, 71, 72, 130):
        for p in range(n):
            if t.begin(('change', n, p)):
                b = bytearray(n)
                for v in (1, 128, 255):
                    b[p] = v
                    go(b)
    for ty in ALL + ['g', 'S3', 'U2']:
        for n in (0, 1, 5, 33):
            if t.begin(('type', ty, n)):
                a = np.frombuffer((np.arange(n * np.dtype(ty).itemsize) * 3 % 251).astype('u1').tobytes(), 'V1').view('u1').copy()
                a = (a & 1).view('?') if ty == '?' else a.view(ty)
                go(a.tobytes(), a)
    if t.begin(('2d',)):
        a = np.arange(35, dtype='i4').reshape(5, 7)
        go(a.tobytes(), a)


def run_trail(u, t):
    k = u[1]
    ch = [' ', '\0', 'a']
    for w in range(1, 6 if TIER == 'quick' else 8):
        for L in range(0, 4):
            al = [''.join(x) for x in itertools.product(ch, repeat=w)]
            if L > 1:
                al = al[::7] if w > 2 else al
                if len(al) > 12:
                    al = al[:6] + al[-6:]
            for q in itertools.product(al, repeat=L):
                if not t.begin((k, w, q)):
                    continue
                a = np.frombuffer(''.join(q).encode('latin1' if k == 'S' else 'utf-32-le'), '%s%d' % (k, w)).copy() if L else np.empty(0, '%s%d' % (k, w))
                e = ''.join(x.rstrip(' \0').ljust(w, '\0') for x in q).encode('latin1' if k == 'S' else 'utf-32-le')
                g = rc.RemoveTrailingSpaces(a)
                t.calls += 1
                if g is not a or a.tobytes() != e:
                    t.fail('got %r expected %r' % (a.tobytes(), e))


def run_refuse(t):
    i4 = np.zeros(3, 'i4')
    for name, args in [('HStack', ([i4, np.zeros(3, 'S2')],)), ('HStack', ([i4, np.zeros(3, 'U2')],)), ('HStack', ([np.zeros(3, 'U2'), np.zeros(3, 'S2')],)), ('HStack', ([i4, np.zeros(3, 'c16')],)), ('HStack', ([i4, 5],)), ('HStack', (5,)), ('HStack', ([i4], 22)),
                       ('HStack', ([i4, np.zeros((2, 2), 'i4')],)), ('HStack', ([i4, None],)), ('HomogenizeArrays', ([i4, np.zeros(2, 'i4')], -1)), ('HomogenizeArrays', ([i4, np.zeros(3, 'S2')], -1)), ('HomogenizeArrays', ([np.zeros(3, 'S2'), i4], 7)),
                       ('HomogenizeArrays', ([i4], 22)), ('HomogenizeArrays', ([i4],)), ('HomogenizeArrays', (5, -1)), ('HomogenizeArrays', ([np.zeros(3, 'c16')], -1)), ('HomogenizeArrays', ([np.zeros(3, 'S2'), np.zeros(3, 'S3')], 5)),
                       ('BitCount', (np.zeros(3, 'S3'),)), ('BitCount', (5,)), ('CalculateCRC', (i4[::2],)), ('CalculateCRC', (5,)), ('RemoveTrailingSpaces', (i4,)), ('RemoveTrailingSpaces', (5,)), ('ShiftArrays', ([i4, 5], 1)), ('ShiftArrays', (5, 1)),
                       ('GetUpcastNum', (5,)), ('GetUpcastNum', ([5],))]:
        if not t.begin((name, str(args))):
            continue
        t.calls += 1
        try:
            r = getattr(rc, name)(*args)
            t.fail('%s: no error, returned %r' % (name, r))
        except (ValueError, TypeError):
            pass


def run_unit(u, t):
    k = u[0]
    f = globals()['run_' + k]
    if k in ('bits', 'crc', 'refuse'):
        f(t)
    else:
        f(u, t)
