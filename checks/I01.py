"""Gather, scatter, masks: every mask and every short index array against plain Python indexing."""
import itertools
import numpy as np
import rcmod
from dp import *

META = {'bounds': 'gather (MBGet): 23 value types x 8 index types x value lengths 0..4 x every index sequence of length <= 2 (thorough: 3) over an alphabet of in-range, negative, just-out-of-range and extreme indices, and every length 0..70, '
                  'strided and misaligned layouts, default values; boolean get, sum and fancy conversion: every mask of length <= 9 (thorough: 12), every single true/false position in lengths 0..70 and at the vector and chunk limits (8159..8193, 16383..16385, 49151..49153); '
                  'SetItem/PutMask: every mask of length <= 6 (thorough: 8) x value counts x types (PutMask: all numeric type pairs) x layouts; Where: every mask of length <= 5 x scalar/array operands x types and strings; '
                  'ReverseShuffle: every permutation of <= 6 (thorough: 7) and every index array over an out-of-range alphabet; ReIndex: every index sequence.',
        'assumptions': ['SetItem and PutMask may decline (return False): then nothing may have changed; Where may decline (None)', 'ReIndex documents that it does not check indices: only valid ones are used']}
rc = None
TIER = 'quick'
CACHE = {}
VT = ALL + ['g', 'S1', 'S2', 'S3', 'S4', 'S5', 'S8', 'S9', 'S16', 'S17', 'U1', 'U2', 'U4', 'U5', 'S1500', 'U300']
LAY = ['c', 'a1', 's2', 's-1', 'm1']


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier)


def child_init():
    global rc
    _, rc = rcmod.load()


def content(ty, n):
    k = (np.dtype(ty), n)
    if k not in CACHE:
        CACHE[k] = content_(ty, n)
    return CACHE[k].copy()


def content_(ty, n):
    """n distinct values (as far as the type allows)"""
    d = np.dtype(ty)
    if d.kind == 'b':
        return np.arange(n) % 3 == 1
    if d.kind in 'iu':
        return (np.arange(n) * 37 + 11).astype(d)
    if d.kind == 'f':
        return (np.arange(n) * 1.25 - 2).astype(d)
    w = d.itemsize // (4 if d.kind == 'U' else 1)
    s = [''.join(chr(65 + (i * 7 + j * 3 + (i >> 4)) % 26) for j in range(w if i % 3 else max(1, w - 1))) for i in range(n)]
    return np.array(s, d) if n else np.empty(0, d)


def lay(a, kind):
    """a with the given layout"""
    if kind == 's2':
        b = np.zeros(len(a) * 2 + 2, a.dtype)
        b[:] = content(a.dtype, len(b))[::-1]
        v = b[1:1 + 2 * len(a):2]
        v[...] = a
        return v
    if kind == 's-1':
        return np.ascontiguousarray(a[::-1])[::-1]
    if kind == 'c':
        return a.copy()
    return place(a, kind)[0]


def default(ty):
    d = np.dtype(ty)
    if d.kind == 'b':
        return np.array([False])[0]
    if d.kind in 'SU':
        return np.zeros(1, d)[0]
    return invalid(ty)


def eq(g, e):
    if not isinstance(g, np.ndarray):
        return False
    if e.dtype.kind in 'SU':
        return g.dtype == e.dtype and g.shape == e.shape and g.tobytes() == np.ascontiguousarray(e).tobytes()
    return same(g, e)


def show(g, e):
    if isinstance(g, np.ndarray) and e.dtype.kind in 'SU':
        return 'got %s %s expected %s %s' % (g.dtype, g[:6].tolist(), e.dtype, e[:6].tolist())
    return diff(g, e)


def ref_get(v, ix, dv):
    n = len(v)
    o = np.zeros(len(ix), v.dtype)
    for k, i in enumerate(ix):
        i = int(i)
        o[k] = v[i] if -n <= i < n else dv
    return o


def units(tier):
    return [['get', v, i] for v in VT for i in INTS] + [['bool', v] for v in VT] + [['fancy']] + [['set', v] for v in VT] + [['put', a] for a in ALL] + \
        [['where', v] for v in VT] + [['reverse', i] for i in ['i1', 'i2', 'i4', 'i8']] + [['reindex', v] for v in VT] + [['refuse']]


def check_get(t, v, ix, dv=None, args=()):
    g = rc.MBGet(v, ix, *args)
    t.calls += 1
    e = ref_get(v, ix, default(v.dtype) if dv is None else dv)
    if not eq(g, e):
        t.fail('MBGet: ' + show(g, e))
    t.outcome(e.tobytes()[:64])


def run_get(u, t):
    vt, it = u[1:]
    d = np.dtype(it)
    lo, hi = int(np.iinfo(d).min), int(np.iinfo(d).max)
    big = np.dtype(vt).itemsize > 600
    for n in range(0, 5):
        v = content(vt, n)
        al = sorted(x for x in {lo, lo + 1, -n - 1, -n, -1, 0, 1, n - 1, n, n + 1, hi // 2 + 1, hi - 1, hi} if lo <= x <= hi)
        for L in range(0, 2 if big else 3 if TIER == 'quick' else 4):
            for q in itertools.product(al, repeat=L):
                if t.begin(('get', vt, it, n, q)):
                    check_get(t, v, np.array(q, d))
        for lv in LAY:
            for li in LAY:
                if (lv, li) != ('c', 'c') and t.begin(('getlay', vt, it, n, lv, li)):
                    x = lay(v, lv)
                    for q in [[i] for i in al] + [[i, j] for i in al for j in (0, -1, n) if lo <= j <= hi and TIER != 'quick']:
                        check_get(t, x, lay(np.array(q, d), li))
                    check_get(t, x, lay(np.array(al, d), li))
    # lengths and layouts
    for L in list(range(0, 71)) + [250, 1000]:
        ix = np.array([min(max(k * 7 % 23 - (5 if lo else 0), lo), hi) for k in range(L)], d)
        v = content(vt, 13)
        for lv in LAY:
            for li in LAY:
                if L > 20 and (lv, li) not in (('c', 'c'), ('s2', 's-1')):
                    continue
                if t.begin(('getlen', vt, it, L, lv, li)):
                    w, x = lay(v, lv), lay(ix, li)
                    check_get(t, w, x)
                    if not eq(w, v) or not eq(x, ix):
                        t.fail('input changed')
    # more values than half of the index range
    if d.itemsize <= 2 and not big:
        for n in ((100, 127, 128, 129, 200, 255, 256, 300) if d.itemsize == 1 else (32767, 32768, 40000, 65536)):
            if t.begin(('getbig', vt, it, n)):
                v = content(vt, n)
                ix = np.unique(np.array([x for x in (lo, lo + 1, 0, 1, 99, 126, 127, 128, 129, 199, 200, 254, 255, 32766, 32767, 32768, 39999, 40000, 65534, 65535, -1, -2, -100, -128) if lo <= x <= hi])).astype(d)
                check_get(t, v, ix)
    # explicit defaults
    ix = np.array([0, 99, 1, 100], d)
    k = np.dtype(vt).kind
    dvs = [True, False] if k == 'b' else [0, 5, True] if k in 'iu' else [0.0, 2.5, 7] if vt != 'g' and k == 'f' else [b'', b'x', b'abcdefghijklmnopqrstuvwxyz'] if k == 'S' else ['', 'x', 'abcdefghijkl'] if k == 'U' else []
    for dv in dvs:
        if t.begin(('getdef', vt, it, repr(dv))):
            check_get(t, content(vt, 3), ix, np.array([dv], vt)[0] if k in 'SU' else np.dtype(vt).type(dv), (dv,))


def masks(tier):
    for n in range(0, 10 if tier == 'quick' else 13):
        for m in range(1 << n):
            yield np.array([(m >> j) & 1 for j in range(n)], bool)


def long_masks():
    for n in range(0, 71):
        z = np.zeros(n, bool)
        yield 'zeros%d' % n, z
        yield 'ones%d' % n, ~z
        for p in range(n):
            m = z.copy(); m[p] = True
            yield 'one%d@%d' % (n, p), m
            yield 'hole%d@%d' % (n, p), ~m
    for n in (8159, 8160, 8161, 8191, 8192, 8193, 16383, 16384, 16385, 49151, 49152, 49153):
        yield 'ones%d' % n, np.ones(n, bool)
        yield 'mod3%d' % n, np.arange(n) % 3 == 0
        for p in (0, 31, 32, 8159, 8160, n - 1):
            if p < n:
                m = np.zeros(n, bool); m[p] = True
                yield 'one%d@%d' % (n, p), m


def run_bool(u, t):
    vt = u[1]
    big = np.dtype(vt).itemsize > 600

    def one(m, lv, lm, f):
        v = content(vt, len(m))
        w, x = lay(v, lv), lay(m, lm)
        g = f(w, x)
        t.calls += 1
        e = v[m]
        if not eq(g, e):
            t.fail('boolean get: ' + show(g, e))
        if not eq(w, v) or not eq(x, m):
            t.fail('input changed')
    for m in masks(TIER):
        if big and len(m) > 6:
            break
        if t.begin(('mask', vt, m.tobytes())):
            one(m, 'c', 'c', rc.BooleanIndex)
            if len(m) <= 5:
                for lv in LAY:
                    for lm in LAY:
                        one(m, lv, lm, rc.MBGet)
    for name, m in long_masks():
        if (big or vt[0] == 'U') and len(m) > 100:
            break
        if t.begin(('mask', vt, name)):
            one(m, 'c', 'c', rc.MBGet)
            if len(m) < 30 or name[:3] != 'one':
                for lv, lm in (('s2', 'c'), ('c', 's2'), ('s-1', 's-1'), ('m1', 'm3')):
                    one(m, lv, lm, rc.BooleanIndex)


def run_fancy(t):
    def one(m, lm):
        x = lay(m, lm)
        g = rc.BooleanToFancy(x)
        e = np.nonzero(m)[0].astype('i4')
        if not same(g, e):
            t.fail('BooleanToFancy (%s): ' % lm + diff(g, e))
        r = rc.BooleanToFancy(x, both=True)
        e2 = np.concatenate([e, np.nonzero(~m)[0].astype('i4')])
        if not same(r[0], e2) or r[1] != len(e):
            t.fail('BooleanToFancy both (%s): %r, %s' % (lm, r[1], diff(r[0], e2)))
        s = rc.BooleanSum(x)
        if s != len(e):
            t.fail('BooleanSum (%s) %r expected %d' % (lm, s, len(e)))
        t.calls += 3
        t.outcome(s)
    for m in masks(TIER):
        if t.begin(('fancy', m.tobytes())):
            for lm in LAY if len(m) <= 6 else ['c']:
                one(m, lm)
    for name, m in long_masks():
        if t.begin(('fancy', name)):
            for lm in ('c', 's2', 's-1', 'm5'):
                one(m, lm)
    # n-d masks: refused or taken in row-major order
    for shape in ((2, 3), (3, 4), (1, 5), (4, 1), (2, 2, 3)):
        n = int(np.prod(shape))
        for k in range(1 << min(n, 8)):
            if not t.begin(('fancynd', shape, k)):
                continue
            base = np.array([(k >> (j % 8)) & 1 for j in range(n)], bool).reshape(shape)
            for name, x in (('C', base), ('sub', np.repeat(base, 2, axis=-1)[..., ::2]), ('T', np.ascontiguousarray(base.T).T)):
                t.calls += 2
                try:
                    s = rc.BooleanSum(x)
                    if s != base.sum():
                        t.fail('BooleanSum %s %r expected %d' % (name, s, base.sum()))
                except ValueError:
                    pass
                try:
                    g = rc.BooleanToFancy(x)
                    if name == 'C' and not same(g, np.nonzero(base.ravel())[0].astype('i4')):
                        t.fail('BooleanToFancy nd ' + repr(g))
                except ValueError:
                    pass


def run_set(u, t):
    vt = u[1]
    big = np.dtype(vt).itemsize > 600

    def one(m, nv, la, lm, lv):
        n = len(m)
        a0 = content(vt, n)
        vv = content(vt, nv + 3)[::-1][:nv]
        a, x, v = lay(a0, la), lay(m, lm), lay(vv, lv)
        r = rc.SetItem(a, x, v)
        t.calls += 1
        e = a0.copy()
        if r is True:
            if nv == 1:
                e[m] = vv[0]
            elif nv == int(m.sum()):
                e[m] = vv
            else:
                t.fail('SetItem accepted %d values for %d places' % (nv, m.sum()))
                return
        if not eq(a, e):
            t.fail('SetItem (%r; %s %s %s): ' % (r, la, lm, lv) + show(a, e))
        if not eq(v, vv) or not eq(x, m):
            t.fail('input changed')
    for m in masks('quick'):
        if len(m) > (4 if big else 6 if TIER == 'quick' else 8):
            break
        c = int(m.sum())
        for nv in sorted({0, 1, c, c + 1, max(0, c - 1), len(m)}):
            if t.begin(('set', vt, m.tobytes(), nv)):
                one(m, nv, 'c', 'c', 'c')
                if len(m) in (2, 3, 5):
                    for l3 in itertools.product(LAY, repeat=3):
                        one(m, nv, *l3)
    for name, m in long_masks():
        if (big or vt[0] == 'U') and len(m) > 100:
            break
        if t.begin(('set', vt, name)):
            c = int(m.sum())
            for nv in sorted({1, c, c + 1}):
                one(m, nv, 'c', 'c', 'c')
    base = content(vt, 12).reshape(3, 4)
    for arr in (base, base.T, base[:, ::2]):
        if t.begin(('setnd', vt, arr.shape, arr.strides)):
            a = arr.copy(order='K')
            m = np.ones(a.shape, bool)
            try:
                r = rc.SetItem(a, m, content(vt, a.size))
            except (ValueError, TypeError):
                r = False
            t.calls += 1
            if r is False and not np.array_equal(a, arr):
                t.fail('SetItem declined but changed the array')


def run_put(u, t):
    at = u[1]
    for bt in ALL:
        v0 = vals(bt)
        if np.dtype(at).kind != 'f' and np.dtype(bt).kind == 'f':
            # out-of-range floats have no defined value
            lo, hi = (0, 1) if at == '?' else (np.iinfo(at).min, np.iinfo(at).max)
            v0 = np.array([x for x in v0 if np.isnan(x) or float(lo) < x < float(hi)], bt)
        e0 = conv_ref(v0, at)
        if np.dtype(at).kind == 'b':
            e0 = v0.astype(bool) if np.dtype(bt).kind != 'f' else None
        if e0 is None or (np.dtype(at).kind != 'b' and np.dtype(bt).kind in 'iu' and np.dtype(at).kind == 'b'):
            continue
        if t.begin(('putall', at, bt)) and at != '?':
            a = content(at, len(v0))
            r = rc.PutMask(a, np.ones(len(v0), bool), v0)
            t.calls += 1
            if r is True and not same(a, e0):
                t.fail('PutMask values: ' + diff(a, e0))
        for m in masks('quick'):
            n = len(m)
            if n > (6 if TIER == 'quick' else 8):
                break
            if not t.begin(('put', at, bt, m.tobytes())):
                continue
            vv = (np.arange(n) % 2 if '?' in (at, bt) else np.arange(n) + 3).astype(bt)
            for la, lm, lv in itertools.product(LAY, repeat=3) if n in (2, 3) else [('c', 'c', 'c'), ('c', 'a1', 'a1')]:
                a0 = content(at, n)
                a, x, v = lay(a0, la), lay(m, lm), lay(vv, lv)
                r = rc.PutMask(a, x, v)
                t.calls += 1
                e = a0.copy()
                if r is True:
                    e[m] = vv.astype(at)[m]
                if not same(np.ascontiguousarray(a), e):
                    t.fail('PutMask (%r; %s %s %s): ' % (r, la, lm, lv) + diff(np.ascontiguousarray(a), e))
                if not same(np.ascontiguousarray(v), vv) or not same(np.ascontiguousarray(x), m):
                    t.fail('input changed')
            for nv in (1, n + 1):
                if nv == n:
                    continue
                a = content(at, n)
                r = rc.PutMask(a, m, np.ones(nv, bt))
                t.calls += 1
                e = content(at, n)
                if r is True:
                    e[m] = np.ones(nv, bt)[0]
                if not same(a, e):
                    t.fail('PutMask with %d values (%r): ' % (nv, r) + diff(a, e))
    for n in (16383, 16384, 16385, 49153):
        if t.begin(('putlong', at, n)):
            m = np.arange(n) % 3 == 0
            a = content(at, n); v = content(at, n)[::-1].copy()
            e = np.where(m, v, a)
            if rc.PutMask(a, m, v) is True and not same(a, e):
                t.fail('PutMask: ' + diff(a, e))
            t.calls += 1


def run_where(u, t):
    vt = u[1]
    d = np.dtype(vt)
    k = d.kind
    big = d.itemsize > 600
    if d.char == 'g':
        return
    sc = {'b': [True, False], 'i': [0, -3, 5], 'u': [0, 5], 'f': [0.0, 2.5, -1.0], 'S': [b'', b'Q'], 'U': ['', 'Q']}[k]
    if k == 'i':
        sc += [int(np.iinfo(d).min), int(np.iinfo(d).max)]
    if k == 'u':
        sc += [int(np.iinfo(d).max)]

    def one(m, x, y, lx, ly, lm):
        n = len(m)

        def op(o, l):
            if isinstance(o, np.ndarray):
                return lay(o, l)
            return o
        a, b, c = op(x, lx), op(y, ly), lay(m, lm)
        r = rc.Where(c, (a, b), d.num, d.itemsize)
        t.calls += 1
        if r is None:
            t.count('declined')
            return
        e = np.empty(n, d)
        X = x if isinstance(x, np.ndarray) else np.full(n, x, d)
        Y = y if isinstance(y, np.ndarray) else np.full(n, y, d)
        for i in range(n):
            e[i] = X[i] if m[i] else Y[i]
        if not eq(r, e):
            t.fail('Where (%s %s %s): ' % (lx, ly, lm) + show(r, e))
        for p, q, l in ((a, x, lx), (b, y, ly)):
            if isinstance(q, np.ndarray) and not eq(np.ascontiguousarray(p), q):
                t.fail('input changed')
    for m in masks('quick'):
        n = len(m)
        if n > (4 if big else 5) or n < 2:
            if n < 2:
                continue
            break
        x, y = content(vt, n), content(vt, n + 2)[::-1][:n].copy()
        if not t.begin(('where', vt, m.tobytes())):
            continue
        ops = [(x, y)] + [(x, s) for s in sc] + [(s, y) for s in sc] + [(s, q) for s in sc for q in sc]
        for a, b in ops:
            one(m, a, b, 'c', 'c', 'c')
        if n <= 4:
            for l3 in itertools.product(LAY, repeat=3):
                one(m, x, y, *l3)
                one(m, x, sc[0], *l3)
                one(m, sc[1], y, *l3)
    for n in list(range(6, 71)) + [16383, 16384, 16385, 49153]:
        if n > 100 and d.itemsize > 20:
            continue
        if t.begin(('wherelen', vt, n)):
            m = np.arange(n) % 3 == 1
            x, y = content(vt, n), content(vt, n + 2)[::-1][:n].copy()
            for a, b in ((x, y), (x, sc[0]), (sc[0], y), (sc[0], sc[1])):
                for l3 in (('c', 'c', 'c'), ('s2', 'c', 'c'), ('c', 's-1', 'c')):
                    one(m, a, b, *l3)


def run_reverse(u, t):
    it = u[1]
    d = np.dtype(it)
    lo, hi = int(np.iinfo(d).min), int(np.iinfo(d).max)
    for n in range(0, 7 if TIER == 'quick' else 8):
        for p in itertools.permutations(range(n)):
            if not t.begin(('perm', it, p)):
                continue
            a = np.array(p, d)
            g = rc.ReverseShuffle(a)
            t.calls += 1
            e = np.empty(n, d)
            for i, x in enumerate(p):
                e[x] = i
            if not same(g, e):
                t.fail('ReverseShuffle: ' + diff(g, e))
    for n in range(1, 5):
        al = sorted({lo, -1, 0, 1, n - 1, n, hi})
        for q in itertools.product(al, repeat=n):
            ok = [x for x in q if 0 <= x < n]
            if len(set(ok)) < len(ok):
                continue
            if not t.begin(('partial', it, q)):
                continue
            for l in LAY:
                try:
                    g = rc.ReverseShuffle(lay(np.array(q, d), l))
                except ValueError:
                    if l == 'c' or l == 'a1':
                        raise
                    continue
                t.calls += 1
                for i, x in enumerate(q):
                    if 0 <= x < n and g[x] != i:
                        t.fail('ReverseShuffle (%s): position %d is %d expected %d' % (l, x, g[x], i))
    for n in (100, 127, 16384, 16385, 32767, 40000, 70000):
        if n > hi:
            continue
        if t.begin(('permlong', it, n)):
            p = (np.arange(n) * 7 + 3) % n if n % 7 else np.arange(n)[::-1]
            g = rc.ReverseShuffle(p.astype(d))
            t.calls += 1
            e = np.empty(n, d); e[p] = np.arange(n)
            if not same(g, e):
                t.fail('ReverseShuffle: ' + diff(g, e))


def run_reindex(u, t):
    vt = u[1]
    for it in ('i4', 'i8', 'u4', 'u8'):
        for n in range(1, 5 if TIER == 'quick' else 6):
            v = content(vt, n)
            for L in (n,):
                for q in itertools.product(range(n), repeat=L):
                    if t.begin(('reindex', vt, it, n, q)):
                        ix = np.array(q, it)
                        v2 = v
                        g = rc.ReIndex(ix, v2)
                        t.calls += 1
                        if g is None:
                            continue
                        if not eq(np.asarray(g), v2[ix.astype(int)]):
                            t.fail('ReIndex: ' + show(np.asarray(g), v2[ix.astype(int)]))


def run_refuse(t):
    """arguments that cannot be handled: an exception or 'declined', nothing else"""
    odd = [np.zeros(4, 'c16'), np.zeros(4, 'M8[ns]'), np.zeros(4, 'V5'), np.zeros(4, 'O'), np.zeros(4, 'f2'), np.zeros(4, 'c8'), np.zeros(4, 'm8[s]')]
    ix = np.array([0, 9, 1], 'i4')
    mk = np.array([True, False, True, True])
    for a in odd:
        if t.begin(('refuse', str(a.dtype))):
            for f in (lambda: rc.MBGet(a, ix), lambda: rc.MBGet(np.arange(4), a), lambda: rc.BooleanIndex(a, mk), lambda: rc.PutMask(a.copy(), mk, a), lambda: rc.PutMask(np.zeros(4), mk, a),
                      lambda: rc.SetItem(a.copy(), mk, a), lambda: rc.Where(mk, (a, a), a.dtype.num, a.itemsize), lambda: rc.Where(mk, (a, np.zeros(4)), 12, 8), lambda: rc.ReverseShuffle(a),
                      lambda: rc.BooleanSum(a), lambda: rc.BooleanToFancy(a)):
                t.calls += 1
                try:
                    f()
                except (ValueError, TypeError, SystemError):
                    pass
    for v in (None, 'abc', [1, 2], [[1], [1, 2]], 3, 2.5, {}, object()):
        if t.begin(('refuseval', str(v)[:10])):
            for f in (lambda: rc.PutMask(np.zeros(4), mk, v), lambda: rc.SetItem(np.zeros(4), mk, v), lambda: rc.PutMask(np.zeros(4), v, np.zeros(4)), lambda: rc.PutMask(v, mk, np.zeros(4)),
                      lambda: rc.SetItem(v, mk, np.zeros(4)), lambda: rc.MBGet(np.arange(4), ix, v), lambda: rc.MBGet(np.zeros(4, 'S3'), ix, v), lambda: rc.MBGet(np.zeros(4, 'U3'), ix, v),
                      lambda: rc.Where(mk, (v, np.zeros(4)), 12, 8), lambda: rc.Where(mk, (np.zeros(4), v), 12, 8), lambda: rc.Where(mk, (np.zeros(4, 'S3'), v), 18, 3),
                      lambda: rc.Where(mk, (np.zeros(4, 'S3'), b'abcdefgh'), 18, 3), lambda: rc.Where(mk, (np.zeros(4, 'S3'), np.zeros(4, 'S5')), 18, 5), lambda: rc.Where(mk, (np.zeros(3), np.zeros(4)), 12, 8)):
                t.calls += 1
                try:
                    f()
                except (ValueError, TypeError, SystemError):
                    pass


def run_unit(u, t):
    k = u[0]
    if k == 'get':
        run_get(u, t)
    elif k == 'bool':
        run_bool(u, t)
    elif k == 'fancy':
        run_fancy(t)
    elif k == 'set':
        run_set(u, t)
    elif k == 'put':
        run_put(u, t)
    elif k == 'where':
        run_where(u, t)
    elif k == 'reverse':
        run_reverse(u, t)
    elif k == 'reindex':
        run_reindex(u, t)
    else:
        run_refuse(t)
