"""Membership and alignment against their definition."""
import itertools
import numpy as np
import rcmod
import G01
from G01 import alphabets, words, distinct, rows, colliding
from dp import *

META = {'bounds': 'every pair of arrays with |a| <= 3, |b| <= 3 (thorough |a| <= 3, |b| <= 5, 4 values) over 3..4 demanding values (values that meet in one slot and across the end of the table, NaN, both zeros, extremes, invalids), for 13 key types, byte and unicode '
                  'strings of widths 1..17 against strings of the same and of other widths; hash modes 1, 2 and the implementation selected with RT_NEW_HASH=1 (pairs with |a| + |b| <= 3 and long arrays), hints 0, exact, larger; composite keys of 16 type pairs; index type thresholds: every |b| in 0, 1, 98..101, 126..130, 29998..30001, 32766..32769, 33000; 60000 distinct keys; strided arguments; '
                  'alignment: every key sequence over 2 keys x every sorted value sequence over {invalid, 1, 2, 3} with lengths <= 3 x 3 (thorough 4 x 4), forward/backward, exact or not, 6 value types; categorical re-mapping: every bin sequence of length <= 3 over <= 3 categories, both base offsets, 4 bin types',
        'assumptions': ['numbers compare with == (NaN is never a member, -0.0 equals 0.0); composite keys compare bit for bit', 'a hint is 0 or at least the number of distinct values', 'alignment values are sorted, apart from invalid values', 'A missing index is the smallest value of the index type (0 in the categorical form)']}
rc = None
TIER = 'quick'


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier)


def child_init():
    global rc
    _, rc = rcmod.load()
    G01.rc = rc


def index_type(n):
    return np.dtype('i1' if n < 100 else 'i2' if n < 30000 else 'i4')


def first(a, b):
    d = {}
    for i, x in enumerate(b):
        if x == x:
            d.setdefault(x, i)
    return [d.get(x, -1) if x == x else -1 for x in a]


def plain(a):
    return a.tolist()


def chk_ism(t, a, b, mode, hint, e=None):
    if e is None:
        e = first(plain(a), plain(b))
    t.calls += 2
    g, ix = rc.IsMember32(a, b, mode, hint)
    want = [i >= 0 for i in e]
    st = a.dtype.kind in 'SU'
    d = index_type(max(len(a), len(b)) if st and not (a.dtype == b.dtype and a.dtype.itemsize in (1, 2, 4, 8)) else len(b))
    bad = np.iinfo(ix.dtype).min if ix.dtype.kind == 'i' else None
    if g.dtype != bool or ix.dtype != d or g.tolist() != want or ix.tolist() != [i if i >= 0 else bad for i in e]:
        t.fail('IsMember32(%r, %r, mode=%d, hint=%d): got %r %r (%s) expected %r (%s)' % (a[:8], b[:8], mode, hint, g.tolist()[:8], ix.tolist()[:8], ix.dtype, e[:8], d))
        return
    t.outcome(ix.tobytes()[:64])
    m, ix = rc.IsMemberCategorical(a, b, mode, hint)
    d = index_type(len(b)) if st else np.dtype('i4')
    if m != (0 if all(want) else 1) or ix.dtype != d or ix.tolist() != [i + 1 for i in e]:
        t.fail('IsMemberCategorical(%r, %r, mode=%d, hint=%d): got %r %r (%s) expected %r (%s)' % (a[:8], b[:8], mode, hint, m, ix.tolist()[:8], ix.dtype, [i + 1 for i in e][:8], d))


def chk_mk(t, ka, kb, hint, e=None):
    ra, rb = ka[0], kb[0]
    if e is None:
        e = first(rows(ka), rows(kb))
    t.calls += 1
    g, ix = rc.MultiKeyIsMember32((list(ka),), (list(kb),), hint)
    d = index_type(max(len(ra), len(rb)))
    bad = np.iinfo(d).min
    if g.dtype != bool or ix.dtype != d or g.tolist() != [i >= 0 for i in e] or ix.tolist() != [i if i >= 0 else bad for i in e]:
        t.fail('MultiKeyIsMember32(%r, %r, hint=%d): got %r %r (%s) expected %r (%s)' % ([k[:6] for k in ka], [k[:6] for k in kb], hint, g.tolist()[:8], ix.tolist()[:8], ix.dtype, e[:8], d))
    else:
        t.outcome(ix.tobytes()[:64])


TYPES = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'q', 'f4', 'f8']
MIX = [('l', 'q'), ('q', 'l'), ('L', 'Q')]
STR = [('S1', 'S1'), ('S2', 'S2'), ('S4', 'S4'), ('S8', 'S8'), ('S3', 'S3'), ('S5', 'S5'), ('S9', 'S9'), ('S17', 'S17'), ('S3', 'S5'), ('S5', 'S3'), ('S1', 'S9'), ('S9', 'S1'), ('S4', 'S8'), ('S8', 'S4'),
       ('U1', 'U1'), ('U2', 'U2'), ('U3', 'U3'), ('U9', 'U9'), ('U1', 'U4'), ('U4', 'U1'), ('U2', 'U3'), ('U5', 'U2')]
VALT = ['i4', 'u4', 'i8', 'u8', 'f4', 'f8', 'q']


def units(tier):
    u = [['num', x, x] for x in TYPES] + [['num'] + list(x) for x in MIX] + [['str'] + list(x) for x in STR]
    u += [['pair', i] for i in range(len(G01.PAIRS))] + [['one', x] for x in TYPES + ['g', 'S3', 'S4', 'U2']]
    u += [['len', x] for x in ('i1', 'u2', 'i4', 'i8', 'f4', 'f8', 'S4', 'S7', 'U2', 'i4+i8')]
    u += [['full', x] for x in ('i4', 'i8', 'f4', 'f8', 'S7', 'U3', 'i4+i8')]
    u += [['all', x] for x in ('?', 'i1', 'u1', 'i2', 'u2')]
    u += [['align', v, k] for v in VALT for k in ('i4', 'S3', 'i8+i1')] + [['alignlong']]
    u += [['fix', x, y] for x in ('i1', 'i2', 'i4', 'i8') for y in ('i1', 'i2', 'i4', 'i8')]
    u += [['tbb', x, x] for x in TYPES[1:]] + [['tbb'] + list(x) for x in STR]
    u += [['strided'], ['refuse']]
    return u


def spaces(k):
    nb = 3 if TIER == 'quick' else 4
    for na in range(0, 4):
        for m in range(0, nb + 1):
            for wb in words(k, m):
                for wa in words(k, na):
                    if na and list(wa) != sorted(wa) and m == nb and sum(wa) % 2:
                        continue
                    yield wa, wb


def run_num(u, t):
    for ai, al in enumerate(alphabets(u[1])):
        al = al[:4]
        k = len(al)
        if k == 4 and ai == 0 and TIER == 'quick':
            k = 4
        bl = al.astype(u[2])
        for wa, wb in spaces(k):
            if not t.begin((u, ai, wa, wb)):
                continue
            a, b = al[list(wa)] if wa else al[:0], bl[list(wb)] if wb else bl[:0]
            e = first(plain(a), plain(b))
            chk_ism(t, a, b, 2, 0, e)
            chk_ism(t, a, b, 1, 0, e)
            if len(wb) <= 2:
                chk_ism(t, a, b, 2, max(1, len(b)), e)
                chk_ism(t, a, b, 1, 1000, e)
                chk_ism(t, a, b, 2, 40000, e)
            if t.calls < 20 and len(wa) == 2:
                t.sample({'a': a.tolist(), 'b': b.tolist(), 'expected first occurrence': e})


def stral(ty):
    d = np.dtype(ty)
    w = d.itemsize // (4 if d.kind == 'U' else 1)
    r = ['', 'a', 'b' * w, 'b' * (w - 1) + 'c', 'b', 'bbb'[:w], 'é' * w if d.kind == 'U' else 'ab'[:w]]
    q = []
    for x in r:
        if x not in q:
            q.append(x)
    return q


def run_str(u, t):
    A, B = stral(u[1]), stral(u[2])
    nb = 2 if TIER == 'quick' else 3
    for na in range(0, 4):
        for m in range(0, nb + 1):
            for wb in itertools.product(B, repeat=m):
                for wa in itertools.product(A, repeat=min(na, 2)):
                    if na == 3:
                        wa = wa + (wa[0] if m % 2 else A[-1],)
                    if not t.begin((u, wa, wb)):
                        continue
                    a, b = np.array(wa, u[1]), np.array(wb, u[2])
                    e = first(plain(a), plain(b))
                    chk_ism(t, a, b, 2, 0, e)
                    chk_ism(t, a, b, 1, 0, e)
                    if m <= 1:
                        chk_ism(t, a, b, 2, 100, e)


def run_tbb(u, t):
    """the implementation selected with RT_NEW_HASH=1"""
    import ctypes
    choice = ctypes.c_int.in_dll(ctypes.CDLL(rc.__file__), 'runtime_hash_choice')
    choice.value = 1
    try:
        if u[1][0] in 'SU':
            A, B = stral(u[1]), stral(u[2])
            spaces_ = [(wa, wb) for n in range(0, 3) for m in range(0, 3) for wa in itertools.product(A, repeat=n) for wb in itertools.product(B, repeat=m) if n < 2 or m == 0]
            mk = lambda w, x: np.array(w, x)
        else:
            al = np.concatenate([alphabets(u[1])[0][:4], alphabets(u[1])[-1][:1]])
            spaces_ = [(wa, wb) for n in range(0, 3) for m in range(0, 4) for wa in words(len(al), n) for wb in words(len(al), m) if n + m < 4 and (n < 2 or m < 2)]
            mk = lambda w, x: al[list(w)] if w else al[:0]
        longs = [(na, nb) for na in (0, 1, 300) for nb in (0, 1, 42, 43, 63, 64, 99, 100, 127, 128, 1023, 1024, 1025, 2048, 30000, 33000)]
        for x in spaces_ + longs:
            if not t.begin((u, x)):
                continue
            if isinstance(x[0], tuple):
                a, b = mk(x[0], u[1]), mk(x[1], u[2])
            else:
                base = distinct(u[2], 33010)[0]
                b = base[:x[1]]
                a = base[(np.arange(x[0]) * 7 + x[1]) % (x[1] + 2)].astype(u[1])
                t.beat()
            e = first(plain(a), plain(b))
            t.calls += 1
            g, ix = rc.IsMember32(a, b, 2, 0)
            d = index_type(len(b))
            bad = np.iinfo(d).min
            if g.dtype != bool or ix.dtype != d or g.tolist() != [i >= 0 for i in e] or ix.tolist() != [i if i >= 0 else bad for i in e]:
                t.fail('IsMember32 with RT_NEW_HASH=1 (%r, %r): got %r %r (%s) expected %r (%s)' % (a[:8], b[:8], g.tolist()[:8], ix.tolist()[:8], ix.dtype, e[:8], d))
    finally:
        choice.value = 0


def run_one(u, t):
    ty = u[1]
    for ai, al in enumerate(alphabets(ty)):
        al = al[:3] if TIER == 'quick' else al[:4]
        for wa, wb in spaces(len(al)):
            if wa and wb and t.begin((u, ai, wa, wb)):
                chk_mk(t, [al[list(wa)]], [al[list(wb)]], 0)
                if len(wb) < 3:
                    chk_mk(t, [al[list(wa)]], [al[list(wb)]], 50)


def run_pair(u, t):
    tys = G01.PAIRS[u[1]]
    m = len(tys)
    als = [alphabets(x)[0][:2] for x in tys]
    combos = list(itertools.product((0, 1), repeat=m))
    if len(combos) > 6:
        combos = combos[:3] + combos[-3:]
    for na in range(1, 3):
        for nb in range(1, 4):
            if len(combos) ** (na + nb) > 4500 and nb > 2:
                continue
            for wa in words(len(combos), na):
                for wb in words(len(combos), nb):
                    if t.begin((u, wa, wb)):
                        chk_mk(t, [als[j][[combos[x][j] for x in wa]] for j in range(m)], [als[j][[combos[x][j] for x in wb]] for j in range(m)], 0)


SIZES = [0, 1, 2, 63, 64, 65, 98, 99, 100, 101, 126, 127, 128, 129, 130, 255, 256, 257, 29998, 29999, 30000, 30001, 32766, 32767, 32768, 32769, 33000]


def run_len(u, t):
    ty = u[1]
    base = distinct(ty, 70000)
    period = {'i1': 256, 'u2': 65536, 'U2': 8100}.get(ty, 1 << 40)
    for nb in SIZES:
        for na in ((0, 5, 99, 100, 300, 33000) if nb >= 98 or TIER != 'quick' else (0, 1, 99, 100, 200, 33000)):
            if na == 33000 and TIER == 'quick' and nb not in (0, 1, 100, 128, 30000, 33000):
                continue
            if not t.begin((u, na, nb)):
                continue
            # every element of b once; a: found at the end, at the start, missing
            ia = (np.arange(na) * 7 + nb - 3) % (nb + 2)
            ka, kb = [b[ia] for b in base], [b[:nb] for b in base]
            e = ia % period
            e = np.where(e < nb, e, -1).tolist()
            if len(base) == 1:
                chk_ism(t, ka[0], kb[0], 2, 0, e)
                if ty[0] not in 'SU' or nb < 1000 or na == 5:      # (strings are slow in mode 1)
                    chk_ism(t, ka[0], kb[0], 1, 0, e)
            if na and nb:
                chk_mk(t, ka, kb, 0, e)
            t.beat()


def run_full(u, t):
    ty = u[1]
    base = distinct(ty, 70000)
    for n in (30000, 60000):
        for k in (0, 1):
            if not t.begin((u, n, k)):
                continue
            perm = (np.arange(n) * 7919 + k) % n
            ia = (np.arange(5000) * 11 + n - 2000) % 70000
            ka, kb = [b[ia] for b in base], [b[perm] for b in base]
            if len(base) == 1:
                e = first(plain(ka[0]), plain(kb[0]))
                chk_ism(t, ka[0], kb[0], 2, 0, e)
                if ty[0] not in 'SU' or TIER != 'quick':
                    chk_ism(t, ka[0], kb[0], 1, 0, e)
                chk_ism(t, ka[0], kb[0], 2, n, e)
            chk_mk(t, ka, kb, 0)
            chk_mk(t, ka, kb, n)
            t.beat()


def run_all(u, t):
    d = np.dtype(u[1])
    base = np.array([False, True]) if d.kind == 'b' else np.arange(1 << (8 * d.itemsize), dtype='u%d' % d.itemsize).view(d)
    n = len(base)
    for mul in (1, 37):
        for k in (0, 1, 3):
            for mode in (1, 2, 3):
                for hint in (0, 10):
                    if not t.begin((u, mul, k, mode, hint)):
                        continue
                    a = base[(np.arange(n) * mul) % n]
                    b = np.concatenate([a, a])[::-1].copy() if k == 0 else a[::-k].copy() if k == 1 else a[::k].copy()
                    e = first(a.tolist(), b.tolist())
                    chk_ism(t, a, b, mode, hint, e)
                    if hint == 0:
                        chk_mk(t, [a], [b], 0)


# ---- alignment
def valid(v):
    return [x == x for x in v.tolist()] if v.dtype.kind == 'f' else [x != invalid(v.dtype) for x in v.tolist()]


def align_ref(k1, k2, v1, v2, fwd, exact, ok1, ok2):
    r = []
    for i in range(len(k1)):
        best = None
        if ok1[i]:
            it = range(len(k2)) if fwd else range(len(k2) - 1, -1, -1)
            for j in it:
                if not ok2[j] or k1[i] != k2[j]:
                    continue
                x, y = v2[j], v1[i]
                if (exact and x == y) or (x > y if fwd else x < y):
                    best = j
                    break
        r.append(-2147483648 if best is None else best)
    return r


def chk_align(t, K1, K2, v1, v2, fwd, exact):
    t.calls += 1
    e = align_ref(rows(K1), rows(K2), v1.tolist(), v2.tolist(), fwd, exact, valid(v1), valid(v2))
    g = rc.MultiKeyAlign32((list(K1),), (list(K2),), v1, v2, fwd, exact)
    if g.dtype != np.int32 or g.tolist() != e:
        t.fail('MultiKeyAlign32 keys %r / %r values %r / %r forward=%r exact=%r: got %r expected %r' % ([k.tolist() for k in K1], [k.tolist() for k in K2], v1.tolist(), v2.tolist(), fwd, exact, g.tolist(), e))
    else:
        t.outcome(tuple(e))


def run_align(u, t):
    v, ks = u[1], u[2].split('+')
    als = [alphabets(x)[-1][:2] if x == 'i4' else alphabets(x)[0][1:3] for x in ks]
    d = np.dtype(v)
    inv = np.nan if d.kind == 'f' else (np.iinfo(d).max if d.kind == 'u' else np.iinfo(d).min)
    low = -np.inf if d.kind == 'f' else (0 if d.kind == 'u' else np.iinfo(d).min + 1)
    hi = np.inf if d.kind == 'f' else (np.iinfo(d).max - 1 if d.kind == 'u' else np.iinfo(d).max)
    vals = [inv, low, 2, hi] if ks[0] == 'i4' else [inv, 1, 2]
    L = 3 if TIER == 'quick' else 4

    def seqs(n):
        for w in words(len(vals), n):
            x = [q for q in w if q]
            if x == sorted(x):
                yield w
    rev = ks[0] != 'i4' and TIER == 'quick'
    for n1 in range(1, L + 1):
        for n2 in range(1, L + 1):
            if n1 == L and n2 == L and L >= 3 and rev:
                continue
            for s1 in seqs(n1):
                for s2 in seqs(n2):
                    v1, v2 = np.array([vals[x] for x in s1], d), np.array([vals[x] for x in s2], d)
                    for w1 in ([(0,) * n1, (0, 1, 0, 1)[:n1]] if n1 > 1 else [(0,)]):
                        for w2 in words(2, n2):
                            if not t.begin((u, s1, s2, w1, w2)):
                                continue
                            K1 = [a[list(w1)] for a in als]
                            K2 = [a[list(w2)] for a in als]
                            for fwd in (False, True):
                                for ex in (False, True):
                                    chk_align(t, K1, K2, v1, v2, fwd, ex)


def run_alignlong(u, t):
    for v in VALT:
        for n1, n2 in ((1, 300), (300, 1), (300, 300), (70, 1000), (257, 128)):
            for nk in (1, 2, 50):
                if not t.begin((u, v, n1, n2, nk)):
                    continue
                a, b = np.arange(n1) * 3 % (n1 + 1) * 2, np.arange(n2) // 2
                v1, v2 = np.sort(a).astype(v), np.sort(b).astype(v)
                k1, k2 = colliding('i4')[(np.arange(n1) % nk) % 4] + (np.arange(n1) % nk // 4).astype('i4'), colliding('i4')[(np.arange(n2) * 7 % nk) % 4] + (np.arange(n2) * 7 % nk // 4).astype('i4')
                for fwd in (False, True):
                    for ex in (False, True):
                        chk_align(t, [k1], [k2], v1, v2, fwd, ex)


# ---- re-mapping of categorical bins
def chk_fix(t, a, b, nA, nB, baseA, baseB, m):
    """m: for each category of A its category number in B or None"""
    un = np.array([-2147483648 if x is None else x for x in m], 'i4')
    t.calls += 1
    fa = {}
    for j, x in enumerate(b.tolist()):
        if x >= baseB:
            fa.setdefault(x - baseB, j)
    e = []
    for x in a.tolist():
        y = None if x < baseA else m[x - baseA]
        e.append(-2147483648 if y is None else fa.get(y, -2147483648))
    g, ix = rc.IsMemberCategoricalFixup(a, b, un, nB, baseA, baseB)
    if g.tolist() != [x >= 0 for x in e] or ix.tolist() != e or ix.dtype != np.int32 or g.dtype != bool:
        t.fail('IsMemberCategoricalFixup(%r, %r, %r, %d, %d, %d): got %r %r expected %r' % (a, b, un, nB, baseA, baseB, g.tolist(), ix.tolist(), e))
    else:
        t.outcome(tuple(e))


def run_fix(u, t):
    for nA, nB in ((1, 1), (2, 2), (1, 3), (3, 2), (2, 3)) if TIER == 'quick' else itertools.product((1, 2, 3), repeat=2):
        maps = [m for m in itertools.product([None] + list(range(nB)), repeat=nA) if len([x for x in m if x is not None]) == len(set(x for x in m if x is not None))]
        for baseA in (0, 1):
            for baseB in (0, 1):
                lo = {1: [0], 0: [np.iinfo(u[1]).min]}
                va = lo[baseA] + [x + baseA for x in range(nA)]
                vb = [0 if baseB else np.iinfo(u[2]).min] + [x + baseB for x in range(nB)]
                for na in range(0, 4):
                    for nb in range(0, 4):
                        if na + nb > 5 and u[1] != u[2]:
                            continue
                        for wb in itertools.product(vb, repeat=nb):
                            for wa in (itertools.product(va, repeat=na) if na < 3 else [tuple(va[(i + s) % len(va)] for i in range(3)) for s in range(len(va))]):
                                if not t.begin((u, nA, nB, baseA, baseB, wa, wb)):
                                    continue
                                a, b = np.array(wa, u[1]), np.array(wb, u[2])
                                for m in maps:
                                    chk_fix(t, a, b, nA, nB, baseA, baseB, m)


def run_strided(u, t):
    for ty in TYPES + ['S3', 'S4', 'U2']:
        al = alphabets(ty)[0]
        for n in (1, 2, 5, 9):
            if not t.begin((u, ty, n)):
                continue
            b = al[np.arange(2 * n) * 5 % 7 % len(al)]
            c = al[np.arange(n) % len(al)]
            for v in (b[::2], b[1::2], b[::-1][:n]):
                chk_ism(t, v, c, 2, 0)
                chk_ism(t, c, v, 2, 0)
                chk_ism(t, v, v, 1, 0)
                chk_mk(t, [v], [c], 0)
                chk_mk(t, [c, v], [v, v], 0)
    for v in VALT:
        if t.begin((u, 'align', v)):
            x = np.arange(10).astype(v)
            k = np.zeros(5, 'i4')
            for fwd in (False, True):
                chk_align(t, [k], [k], x[::2], x[:5], fwd, True)
                chk_align(t, [k], [k], x[:5], x[1::2], fwd, True)
    if t.begin((u, 'fix')):
        bins = np.array([1, 0, 2, 1, 0, 2, 2, 1], 'i4')
        for x, y in ((bins[::2], bins), (bins, bins[::2]), (bins[::-1], bins[1::3])):
            chk_fix(t, x, y, 2, 2, 1, 1, (1, 0))


def run_refuse(u, t):
    a3, a4 = np.arange(3), np.arange(4)
    B = [('types differ', rc.IsMember32, (a3, a3.astype('f8'), 2, 0)), ('types differ', rc.IsMember32, (a3, a3.astype('i4'), 2, 0)), ('signs differ', rc.IsMember32, (a3, a3.astype('u8'), 2, 0)),
         ('strings differ', rc.IsMember32, (np.array(['a']), np.array([b'a']), 2, 0)), ('long double', rc.IsMember32, (a3.astype('g'), a3.astype('g'), 2, 0)), ('complex', rc.IsMember32, (a3.astype('c16'), a3.astype('c16'), 2, 0)), ('complex', rc.IsMember32, (a3.astype('c8'), a3.astype('c8'), 2, 0)),
         ('object', rc.IsMember32, (a3.astype(object), a3.astype(object), 2, 0)), ('one argument', rc.IsMember32, (a3,)), ('no argument', rc.IsMember32, ()), ('not an array', rc.IsMember32, ([1], a3, 2, 0)),
         ('types differ', rc.IsMemberCategorical, (a3, a3.astype('f8'), 2, 0)), ('long double', rc.IsMemberCategorical, (a3.astype('g'), a3.astype('g'), 2, 0)), ('complex', rc.IsMemberCategorical, (a3.astype('c16'), a3.astype('c16'), 2, 0)),
         ('strings differ', rc.IsMemberCategorical, (np.array(['a']), np.array([b'a']), 2, 0)), ('object', rc.IsMemberCategorical, (a3.astype(object), a3.astype(object), 2, 0)),
         ('empty', rc.MultiKeyIsMember32, ((a3[:0],), (a3,), 0)), ('item sizes', rc.MultiKeyIsMember32, ((a3,), (a3.astype('i4'),), 0)), ('lengths', rc.MultiKeyIsMember32, ((a3, a4), (a3, a3), 0)), ('lengths', rc.MultiKeyIsMember32, ((a3, a3), (a3, a4), 0)),
         ('lists', rc.MultiKeyIsMember32, ([a3], [a3], 0)), ('few', rc.MultiKeyIsMember32, ((a3,),)), ('two dimensions', rc.MultiKeyIsMember32, ((a4.reshape(2, 2),), (a3,), 0)),
         ('key sizes', rc.MultiKeyAlign32, ((a3,), (a3.astype('i4'),), a3, a3, False, True)), ('value types', rc.MultiKeyAlign32, ((a3,), (a3,), a3, a3.astype('f8'), False, True)), ('value type', rc.MultiKeyAlign32, ((a3,), (a3,), a3.astype('i2'), a3.astype('i2'), False, True)),
         ('value length', rc.MultiKeyAlign32, ((a3,), (a3,), a4, a3, False, True)), ('value length', rc.MultiKeyAlign32, ((a3,), (a3,), a3, a4, False, True)), ('key lengths', rc.MultiKeyAlign32, ((a3, a4), (a3, a3), a3, a3, False, True)), ('few', rc.MultiKeyAlign32, ((a3,), (a3,), a3, a3)),
         ('strings', rc.MultiKeyAlign32, ((a3,), (a3,), np.array(['a', 'b', 'c']), np.array(['a', 'b', 'c']), False, True)),
         ('mapping type', rc.IsMemberCategoricalFixup, (a3, a3, a3, 3, 0, 0)), ('bins type', rc.IsMemberCategoricalFixup, (a3, a3.astype('f8'), a3.astype('i4'), 3, 0, 0)), ('bins type', rc.IsMemberCategoricalFixup, (a3.astype('f8'), a3, a3.astype('i4'), 3, 0, 0)),
         ('mapping out of range', rc.IsMemberCategoricalFixup, (a3, a3, np.array([0, 1, 3], 'i4'), 3, 0, 0)), ('mapping out of range', rc.IsMemberCategoricalFixup, (a3, a3, np.array([0, 1, -1], 'i4'), 3, 0, 0))]
    for i, (nm, f, a) in enumerate(B):
        if t.begin((u, i, nm)):
            t.calls += 1
            try:
                g = f(*a)
            except (ValueError, TypeError, RuntimeError):
                t.outcome('refused')
            except SystemError as e:
                t.fail('%s(%s): raises SystemError %s' % (f.__name__, nm, e))
            else:
                t.fail('%s(%s): returned %s instead of an error' % (f.__name__, nm, str(g)[:200]))


def run_unit(u, t):
    globals()['run_' + u[0]](u, t)
