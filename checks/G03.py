"""Group index structures: bin counts, group-sorted rows, first/next/previous chains describe one partition of the rows."""
import itertools
import numpy as np
import rcmod
from dp import *

META = {'bounds': 'every group sequence of length <= 6 (thorough 8) over 3 groups and of length <= 4 (thorough 6) with out of range and invalid group numbers added, for 5 integer types and 1..4 declared groups, so also with empty groups, the group of filtered rows, and only that group; '
                  'packing split into 1, 2, 3, 5 and 31 ranges of rows; with and without the next-row chain supplied; '
                  'lengths 126..130, 254..258, 999..1001, 32766..32770, 65535..65537 and 100000 for every type (row numbers larger than the group type, sections of the parallel code); 1..40000 groups; strided arrays, refused types',
        'assumptions': ['GroupFromBinCount receives the counts of the same group array', 'GroupByPack32 receives group numbers between 0 and the declared count; with a supplied chain the groups are numbered by first appearance, as the grouping functions do']}
rc = None
TIER = 'quick'
KT = ['i1', 'i2', 'i4', 'i8', 'q']


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier)


def child_init():
    global rc
    _, rc = rcmod.load()


def ref(k, n):
    """rows of every group 0..n-1, in row order"""
    g = [[] for _ in range(n)]
    for i, x in enumerate(k):
        if 0 <= x < n:
            g[x].append(i)
    return g


def cut(ig, first, cnt):
    ig, first, cnt = ig.tolist(), first.tolist(), cnt.tolist()
    return [ig[f:f + c] if c else [] for f, c in zip(first, cnt)]


def refbig(a, n):
    o = np.argsort(a, kind='stable')
    b = a[o]
    lo, hi = np.searchsorted(b, np.arange(n)), np.searchsorted(b, np.arange(n), side='right')
    return [o[x:y].tolist() for x, y in zip(lo, hi)]


def i32(*xs):
    return all(x.dtype == np.int32 for x in xs)


def counts(t, a, n, g=None):
    """bin counts and packing with n bins, group 0 included"""
    if g is None:
        g = ref(a.tolist(), n)
    want = [len(x) for x in g]
    inside = sum(want)
    t.calls += 3
    nc = rc.BinCount(a, n)
    if nc.tolist() != want or not i32(nc):
        t.fail('BinCount(%r, %d): got %r expected %r' % (a[:10], n, nc.tolist()[:10], want[:10]))
        return
    t.outcome(nc.tobytes()[:40])
    nc2, ig, first = rc.BinCount(a, n, pack=True)
    if not i32(nc2, ig, first) or nc2.tolist() != want or len(first) != n or len(ig) != len(a) or cut(ig, first, nc2) != g:
        t.fail('BinCount(%r, %d, pack=True): got %r %r %r expected groups %r' % (a[:10], n, nc2.tolist()[:10], ig.tolist()[:10], first.tolist()[:10], g[:6]))
        return
    if first.tolist() != [sum(want[:i]) for i in range(n)] if n < 50 else first.tolist() != [0] + np.cumsum(want)[:-1].tolist():
        t.fail('BinCount(%r, %d, pack=True): offsets %r' % (a[:10], n, first.tolist()[:10]))
    ig2, first2 = rc.GroupFromBinCount(a, nc)
    if not i32(ig2, first2) or first2.tolist() != first.tolist() or len(ig2) != len(a) or ig2.tolist()[:inside] != ig.tolist()[:inside]:
        t.fail('GroupFromBinCount(%r, %r): got %r %r expected %r %r' % (a[:10], nc[:10], ig2.tolist()[:10], first2.tolist()[:10], ig.tolist()[:10], first.tolist()[:10]))


def chains(t, a, n, g=None):
    """next and previous row of the same group; n counts the groups without group 0"""
    if g is None:
        g = ref(a.tolist(), n + 1)
    d = a.dtype
    if len(a) > 127 and d.itemsize == 1:
        d = np.dtype('i2')
    if len(a) > 32767 and d.itemsize == 2:
        d = np.dtype('i4')
    inv = int(invalid(d))
    r = []
    for mode in (0, 1):
        e = [inv] * len(a)
        for rows in g:
            for x, y in zip(rows, rows[1:]):
                if mode == 0:
                    e[x] = y
                else:
                    e[y] = x
        t.calls += 1
        q = rc.MakeiNext(a, n, mode)
        if q.dtype.itemsize != d.itemsize or q.dtype.kind != 'i' or q.tolist() != e:
            ql = q.tolist()
            bad = [i for i in range(len(e)) if i >= len(ql) or ql[i] != e[i]][:4]
            t.fail('MakeiNext(%r, %d, mode=%d): %s, got %r expected %r (rows %r)' % (a[:10], n, mode, q.dtype, [ql[i] for i in bad] if len(ql) == len(e) else ql, [e[i] for i in bad], bad))
        r.append(q)
    return r


def pack(t, a, n, nxt=None, g=None):
    """n counts the groups without group 0"""
    if g is None:
        g = ref(a.tolist(), n + 1)
    t.calls += 1
    ig, first, cnt = rc.GroupByPack32(a, nxt, n)
    if not i32(ig, first, cnt) or len(ig) != len(a) or len(first) != n + 1 or len(cnt) != n + 1 or cut(ig, first, cnt) != g or sum(cnt.tolist()) != len(a) \
            or cnt.tolist() != [len(x) for x in g] or sorted(ig.tolist()) != list(range(len(a))):
        t.fail('GroupByPack32(%r, %r, %d): got %r %r %r expected groups %r' % (a[:10], None if nxt is None else nxt[:10], n, ig.tolist()[:10], first.tolist()[:10], cnt.tolist()[:10], g[:6]))
    else:
        t.outcome(ig.tobytes()[:40])


def byfirst(w):
    """are the non zero groups numbered by first appearance, without gaps?"""
    top = 0
    for x in w:
        if x > top:
            if x != top + 1:
                return False
            top = x
    return True


def units(tier):
    u = [['small', k, s] for k in KT for s in range(3)] + [['odd', k] for k in KT] + [['segments', k] for k in KT] + [['long', k, s] for k in KT for s in range(4)]
    u += [['many', k] for k in KT[1:]] + [['strided'], ['refuse'], ['chain']]
    return u


def run_small(u, t):
    d = np.dtype(u[1])
    L = 7 if TIER == "quick" else 9
    for n in range(0, L + 1):
        for w in itertools.product(range(3), repeat=n):
            if sum(w) % 3 != u[2]:
                continue
            if not t.begin((u, w)):
                continue
            a = np.array(w, d)
            for k in (3, 4):
                if n:
                    counts(t, a, k)
                chains(t, a, k - 1)
                pack(t, a, k - 1)
            if n and max(w) < 2:
                counts(t, a, 2)
                pack(t, a, 1)
                if max(w) == 0:
                    counts(t, a, 1)
                    pack(t, a, 0)
            if d.itemsize >= 4 and byfirst(w):
                nx, pv = chains(t, a, 2)
                for bad in (-1, -2**31):
                    pack(t, a, 2, np.where(nx < 0, bad, nx).astype('i4'))
            if t.calls < 30 and n == 4:
                t.sample({'groups': w, 'rows of each group': ref(w, 3)})


def run_odd(u, t):
    d = np.dtype(u[1])
    al = [0, 1, 2, -1, 3, int(invalid(d)), np.iinfo(d).max]
    L = 5 if TIER == "quick" else 7
    for n in range(1, L + 1):
        for w in itertools.product(range(len(al)), repeat=n):
            if not any(x > 2 for x in w) or n > 4 and sum(w) % 3:
                continue
            if not t.begin((u, w)):
                continue
            a = np.array([al[x] for x in w], d)
            counts(t, a, 3)
            chains(t, a, 2)


def run_segments(u, t):
    d = np.dtype(u[1])
    old = None
    for seg in (1, 2, 3, 5, 31):
        for n in range(1, 7):
            for w in itertools.product(range(3), repeat=n):
                if n == 6 and sum(w) % 4 or not t.begin((u, seg, w)):
                    continue
                p = rc.SetThreadWakeUp(seg)
                old = p if old is None else old
                counts(t, np.array(w, d), 3)
    rc.SetThreadWakeUp(11)


LONG = [126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 999, 1000, 1001, 32766, 32767, 32768, 32769, 32770, 65535, 65536, 65537, 100000]


def patterns(n, d):
    i = np.arange(n)
    yield 'one', np.zeros(n, d), 1
    yield 'two', (i % 2).astype(d), 2
    yield 'edges', np.where((i == 0) | (i == n - 1), 1, 0).astype(d), 3
    yield 'blocks', (i * 3 // n).astype(d), 3
    yield 'down', (2 - i * 3 // n).astype(d), 5
    yield 'mod', (i * 7 % 100).astype(d), 100
    yield 'mod127', (i * 5 % 127).astype(d), 127


def run_long(u, t):
    d = np.dtype(u[1])
    for i, n in enumerate(LONG):
        if i % 4 != u[2]:
            continue
        for nm, a, k in patterns(n, d):
            if not t.begin((u, n, nm)):
                continue
            g = refbig(a, k)
            counts(t, a, k, g)
            chains(t, a, k - 1, g)
            pack(t, a, k - 1, None, g)


def run_many(u, t):
    d = np.dtype(u[1])
    for k in (128, 129, 1000, 32766, 32767, 40000):
        if k > np.iinfo(d).max:
            continue
        for n in (1, 130, 40001):
            if not t.begin((u, k, n)):
                continue
            a = ((np.arange(n) * 31 + k - 1) % k).astype(d)
            g = refbig(a, k)
            counts(t, a, k, g)
            chains(t, a, k - 1, g)
            pack(t, a, k - 1, None, g)


def run_strided(u, t):
    for k in KT:
        for w in itertools.product(range(3), repeat=4):
            for st in (2, -1, -3):
                if not t.begin((u, k, w, st)):
                    continue
                big = np.full(12, 1, k)
                a = big[::st][:4]
                a[:] = w
                counts(t, a, 3)
                nx, _ = chains(t, a, 2)
                pack(t, a, 2)
                if byfirst(w):
                    nb = np.zeros(12, 'i4')
                    v = nb[::st][:4]
                    v[:] = np.where(nx < 0, -2**31, nx)
                    pack(t, a, 2, v)
                cb = np.zeros(9, 'i4')
                v = cb[::st][:3]
                v[:] = rc.BinCount(np.array(w, k), 3)
                ig, first = rc.GroupFromBinCount(a, v)
                if cut(ig, first, v) != ref(w, 3):
                    t.fail('GroupFromBinCount(%r, strided counts %r): %r %r' % (a, v, ig, first))


def run_chain(u, t):
    """grouping -> every structure, and back to the values"""
    for n in range(1, 6 if TIER == 'quick' else 8):
        for w in itertools.product(range(3), repeat=n):
            if not t.begin((u, w)):
                continue
            x = np.array(w) * 10.0
            ik, fi, cnt = rc.MultiKeyGroupBy32([x], 0, None, 2)
            seen = []
            for v in w:
                if v not in seen:
                    seen.append(v)
            k = len(seen)
            if ik.tolist() != [seen.index(v) + 1 for v in w]:
                t.fail('grouping of %r: %r' % (w, ik))
                continue
            counts(t, ik, k + 1)
            nx, pv = chains(t, ik, k)
            pack(t, ik, k)
            pack(t, ik, k, np.where(nx < 0, -1, nx).astype('i4'))


def run_refuse(u, t):
    ok = np.array([0, 1, 1], 'i4')
    calls = {}
    for ty in ('?', 'u1', 'u2', 'u4', 'u8', 'f4', 'f8', 'g', 'S3', 'U2', 'O', 'M8[ns]'):
        a = np.zeros(3, ty)
        calls['BinCount %s' % ty] = lambda a=a: rc.BinCount(a, 2)
        calls['BinCount pack %s' % ty] = lambda a=a: rc.BinCount(a, 2, pack=True)
        calls['GroupFromBinCount %s' % ty] = lambda a=a: rc.GroupFromBinCount(a, np.array([3, 0], 'i4'))
        if ty != '?':
            calls['GroupFromBinCount count %s' % ty] = lambda a=a: rc.GroupFromBinCount(ok, a)
        calls['MakeiNext %s' % ty] = lambda a=a: rc.MakeiNext(a, 2, 0)
        calls['GroupByPack32 %s' % ty] = lambda a=a: rc.GroupByPack32(a, None, 2)
    calls['BinCount no bins'] = lambda: rc.BinCount(ok, 0)
    calls['BinCount negative bins'] = lambda: rc.BinCount(ok, -1)
    calls['BinCount no rows'] = lambda: rc.BinCount(ok[:0], 2)
    calls['GroupByPack32 next length'] = lambda: rc.GroupByPack32(ok, ok[:2], 2)
    calls['GroupByPack32 next type'] = lambda: rc.GroupByPack32(ok, ok.astype('i8'), 2)
    for nm, f in calls.items():
        if not t.begin((u, nm)):
            continue
        t.calls += 1
        try:
            r = f()
        except (ValueError, TypeError):
            continue
        t.fail('%s: accepted, result %r' % (nm, r))


def run_unit(u, t):
    globals()['run_' + u[0]](u, t)
