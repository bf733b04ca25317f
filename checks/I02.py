"""Combining filters and group arrays, first/last rows, re-indexing, merging of binned and sorted keys - against loops."""
import itertools
import numpy as np
import rcmod
from dp import *

META = {'bounds': 'CombineFilter, CombineAccum1Filter, MakeiFirst (first and last): 4 index types x every index array of length <= 4 (thorough: 5) over bins -1..4, the extremes of the type x every filter or none x bin maxima 0..4 and above; '
                  'CombineAccum2Filter: 16 type pairs x every pair of index arrays of length <= 2 (thorough: 3) over 0..max x maxima 0..3 x filters, and maxima at the output type switches (119/120, 31999/32000, > 2e9); '
                  'ReIndexGroups: 4 types x every key array of length <= 3 (thorough: 4) x every split in 1..3 partitions x uniques; '
                  'MergeBinnedAndSorted: 2 key types x 4 value types x every pair of sorted value arrays of length <= 3 (thorough: 4) x every bin assignment over 3 bins; '
                  'every function also at lengths 0..70, 16384, 32768, 40000.',
        'assumptions': ['index arrays are contiguous', 'CombineAccum2Filter without a filter is given bins within the stated maxima']}
rc = None
TIER = 'quick'
IT = ['i1', 'i2', 'i4', 'i8']
INV64 = -(1 << 63)


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier)


def child_init():
    global rc
    _, rc = rcmod.load()


def units(tier):
    return [['one', i, L] for i in IT for L in range(0, 5 if tier == 'quick' else 6)] + [['long', i] for i in IT] + [['two', a, b] for a in IT for b in IT] + \
        [['reindex', i] for i in IT] + [['merge', k, v] for k in ('i4', 'i8') for v in ('i4', 'i8', 'f4', 'f8')] + [['refuse']]


def filters(L):
    yield None
    for m in itertools.product([False, True], repeat=L):
        yield np.array(m, bool)


def chk(t, name, g, e):
    t.calls += 1
    if isinstance(e, np.ndarray):
        if not isinstance(g, np.ndarray) or not same(g, e):
            t.fail('%s: %s' % (name, diff(g, e)))
        t.outcome(e.tobytes()[:64])
    elif g != e:
        t.fail('%s: got %r expected %r' % (name, g, e))


def one(t, ix, mx, f):
    """the one-array functions; bins of ix above mx or below 1 count as filtered"""
    it = ix.dtype
    l = ix.tolist()
    keep = [True] * len(l) if f is None else f.tolist()
    src = ix.copy()
    ren, first, out = {}, [], []
    ifirst, ilast = [INV64] * (mx + 1), [INV64] * (mx + 1)
    for k, (x, ok) in enumerate(zip(l, keep)):
        if ok and 0 < x <= mx:
            if x not in ren:
                ren[x] = len(ren) + 1
                first.append(k)
                ifirst[x] = k
            ilast[x] = k
            out.append(ren[x])
        else:
            out.append(0)
    g = rc.CombineAccum1Filter(ix, mx, f)
    chk(t, 'CombineAccum1Filter keys', g[0], np.array(out, it))
    chk(t, 'CombineAccum1Filter first', g[1], np.array(first, 'i4'))
    chk(t, 'CombineAccum1Filter count', int(g[2]), len(first))
    chk(t, 'MakeiFirst', rc.MakeiFirst(ix, mx, f, 0), np.array(ifirst, 'i8'))
    chk(t, 'MakeiLast', rc.MakeiFirst(ix, mx, f, 1), np.array(ilast, 'i8'))
    if f is not None:
        chk(t, 'CombineFilter', rc.CombineFilter(ix, f), np.where(f, ix, 0).astype(it))
        if not np.array_equal(f, np.array(keep, bool)):
            t.fail('filter changed')
    if not same(ix, src):
        t.fail('index changed')


def run_one(u, t):
    it, L = u[1:]
    d = np.dtype(it)
    lo, hi = int(np.iinfo(d).min), int(np.iinfo(d).max)
    al = [0, 1, 2, 3, -1, lo] if L > 3 else [0, 1, 2, 3, 4, -1, lo, hi]
    if L == 5:
        al = [0, 1, 2, 3, hi]
    for q in itertools.product(al, repeat=L):
        for f in filters(L):
            fk = None if f is None else f.tolist()
            for mx in (0, 1, 2, 3, 200) if L <= 3 else (2, 3):
                if t.begin((it, q, fk, mx)):
                    one(t, np.array(q, d), mx, f)


def run_long(u, t):
    d = np.dtype(u[1])
    hi = int(np.iinfo(d).max)
    for n in list(range(5, 71)) + [255, 256, 16383, 16384, 32767, 32768, 40000]:
        for mode in range(4):
            for mx in (1, 5, 126, 127, 128, 300, 40000):
                if n > 70 and mode in (1, 3) and mx in (5, 126, 128):
                    continue
                if not t.begin((u[1], n, mode, mx)):
                    continue
                k = np.arange(n)
                m = min(mx, hi)
                v = {0: k % (m + 1), 1: m - k % (m + 1), 2: (k * 7919) % (m + 2) - 1, 3: k * 0 + m}[mode]
                v = np.minimum(v, hi).astype(d)
                for f in (None, k % 3 != 0, k < n - 1, k >= n - 1):
                    one(t, v, mx, f)


def out2(h):
    return np.dtype('i1' if h < 120 else 'i2' if h < 32000 else 'i4' if h < 2000000000 else 'i8')


def two(t, a, b, ma, mb, f):
    g, c = rc.CombineAccum2Filter(a, b, ma, mb, f)
    e = b.astype('i8') * (ma + 1) + a.astype('i8')
    if f is not None:
        e = np.where(f, e, 0)
    chk(t, 'CombineAccum2Filter', g, e.astype(out2((ma + 1) * (mb + 1))))
    if c is not None:
        t.fail('count array %r' % (c,))


def run_two(u, t):
    da, db = np.dtype(u[1]), np.dtype(u[2])
    for ma in range(0, 4):
        for mb in range(0, 4):
            for L in range(0, 3 if TIER == 'quick' else 4):
                for qa in itertools.product(range(ma + 1), repeat=L):
                    for qb in itertools.product(range(mb + 1), repeat=L):
                        if not t.begin((u, ma, mb, qa, qb)):
                            continue
                        for f in filters(L):
                            two(t, np.array(qa, da), np.array(qb, db), ma, mb, f)
    # result type switches, and bins near the maxima; with a filter bins outside become 0 (documented in the code)
    for ma, mb in ((118, 0), (0, 118), (119, 0), (0, 119), (10, 9), (11, 9), (119, 1), (126, 126), (127, 127), (254, 124), (255, 124), (199, 159), (178, 177), (179, 177), (31999, 0), (32767, 32767), (46340, 43156), (44720, 44720), (44721, 44720),
                   (100000, 100000), (1 << 31, 3)):
        for n in (1, 5, 33):
            if not t.begin((u, 'switch', ma, mb, n)):
                continue
            ha, hb = min(ma, int(np.iinfo(da).max)), min(mb, int(np.iinfo(db).max))
            k = np.arange(n)
            for a, b in ((ha - k % (ha + 1), hb - (k * 3) % (hb + 1)), ((k * 7) % (ha + 1), hb - k * 0), (ha - k * 0, (k * 5) % (hb + 1))):
                a, b = a.astype(da), b.astype(db)
                for f in (None, k % 2 == 0, k % 2 == 1):
                    two(t, a, b, ma, mb, f)
    for n in list(range(3, 71)) + [16384, 32768, 40000]:
        if t.begin((u, 'len', n)):
            k = np.arange(n)
            a, b = (k % 6).astype(da), (k * 3 % 5).astype(db)
            for f in (None, k % 3 == 0):
                two(t, a, b, 5, 4, f)
                two(t, a, b, 5, 40, f)


def run_reindex(u, t):
    d = np.dtype(u[1])
    lo, hi = int(np.iinfo(d).min), int(np.iinfo(d).max)
    al = [0, 1, 2, 3, -1, lo, hi]
    for L in range(0, 4 if TIER == 'quick' else 5):
        for q in itertools.product(al, repeat=L):
            for parts in range(1, 4):
                for ic in itertools.combinations_with_replacement(range(L + 1), parts - 1):
                    for ucs in ((2,) * parts, (3, 3, 4)[:parts], (1, 2, 3)[:parts], (0, 2, 2)[:parts]):
                        if not t.begin((u[1], q, ic, ucs)):
                            continue
                        icut = np.array(list(ic) + [L], 'i8')
                        ucut = np.array(ucs, 'i8')
                        uk = np.array([5, 3, 7, 4][:int(ucut[-1])], 'i4')
                        e = []
                        for p in range(parts):
                            s, us = (int(icut[p - 1]), int(ucut[p - 1])) if p else (0, 0)
                            for x in q[s:int(icut[p])]:
                                e.append(int(uk[us + x - 1]) if 0 < x <= len(uk) - us else 0)
                        a = np.array(q, d)
                        r = rc.ReIndexGroups(a, uk, ucut, icut)
                        if r is not a:
                            t.fail('result is not the array itself')
                        chk(t, 'ReIndexGroups', a, np.array(e, d))


def run_merge(u, t):
    kt, vt = np.dtype(u[1]), np.dtype(u[2])
    bad = int(np.iinfo(kt).min)
    va = [0, 1, 2]
    N = 3 if TIER == 'quick' else 4

    def go(k1, v1, k2, v2, n):
        e = []
        for x, v in zip(k1, v1):
            m = [j for j in range(len(k2)) if k2[j] == x and v2[j] <= v]
            e.append(m[-1] if m else bad)
        g = rc.MergeBinnedAndSorted(np.array(k1, kt), np.array(k2, kt), np.array(v1, vt), np.array(v2, vt), n)
        chk(t, 'MergeBinnedAndSorted', g, np.array(e, kt))
    for n1 in range(N + 1):
        for n2 in range(N + 1):
            for v1 in itertools.combinations_with_replacement(va, n1):
                for v2 in itertools.combinations_with_replacement(va, n2):
                    for k1 in itertools.product(range(3 if n1 + n2 < 6 else 2), repeat=n1):
                        for k2 in itertools.product(range(3 if n1 + n2 < 6 else 2), repeat=n2):
                            if t.begin((u, k1, v1, k2, v2)):
                                go(k1, v1, k2, v2, 3)
    for n1 in (0, 1, 7, 300):
        for n2 in (0, 1, 8, 200):
            if t.begin((u, 'len', n1, n2)):
                go([(i * 7) % 5 for i in range(n1)], [i // 3 for i in range(n1)], [(i * 3) % 5 for i in range(n2)], [i // 2 for i in range(n2)], 5)


def run_refuse(t):
    i4, b = np.zeros(3, 'i4'), np.zeros(3, bool)
    for name, args in [('CombineFilter', (i4, np.zeros(2, bool))), ('CombineFilter', (i4, i4)), ('CombineFilter', (np.zeros(3, 'f4'), b)), ('CombineFilter', (np.zeros(3, 'u4'), b)),
                       ('CombineAccum1Filter', (i4, 3, np.zeros(2, bool))), ('CombineAccum1Filter', (i4, 3, i4)), ('CombineAccum1Filter', (np.zeros(3, 'f4'), 3, None)), ('CombineAccum1Filter', (i4, -5, None)),
                       ('CombineAccum2Filter', (i4, np.zeros(2, 'i4'), 3, 3, None)), ('CombineAccum2Filter', (i4, i4, 3, 3, np.zeros(2, bool))), ('CombineAccum2Filter', (i4, i4, 3, 3, i4)), ('CombineAccum2Filter', (i4, i4, 3, 3, 5)),
                       ('CombineAccum2Filter', (np.zeros(3, 'f4'), i4, 3, 3, None)), ('CombineAccum2Filter', (i4, i4, -5, 3, None)), ('MakeiFirst', (i4, 3, np.zeros(2, bool), 0)), ('MakeiFirst', (i4, 3, i4, 0)), ('MakeiFirst', (np.zeros(3, 'f4'), 3, None, 0)),
                       ('MakeiFirst', (i4, -5, None, 1)), ('ReIndexGroups', (i4, i4, i4, np.zeros(3, 'i8'))), ('ReIndexGroups', (i4, np.zeros(3, 'i8'), np.zeros(1, 'i8'), np.zeros(1, 'i8'))),
                       ('MergeBinnedAndSorted', (i4, np.zeros(3, 'i8'), i4, i4, 3)), ('MergeBinnedAndSorted', (i4, i4, i4, np.zeros(3, 'i8'), 3)), ('MergeBinnedAndSorted', (np.zeros(3, 'i1'),) * 2 + (i4, i4, 3)),
                       ('MergeBinnedAndSorted', (i4, i4, np.zeros(3, 'S2'), np.zeros(3, 'S2'), 3))]:
        if not t.begin((name, str(args))):
            continue
        t.calls += 1
        try:
            r = getattr(rc, name)(*args)
            t.fail('%s: no error, returned %r' % (name, r))
        except (ValueError, TypeError):
            pass


def run_unit(u, t):
    k = u[0]
    if k == 'refuse':
        run_refuse(t)
    else:
        globals()['run_' + k](u, t)
