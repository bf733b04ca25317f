"""Sorting against a stable reference order: all short arrays over small alphabets, structured families that cross every block and merge boundary."""
import itertools
import numpy as np
import rcmod
from dp import *

META = {'bounds': '39 key types (all numbers; strings of 1 to 9, unicode of 1 to 3, records of 1 to 16 bytes; grouping also strings up to 16 bytes) x ascending/descending x 32/64-bit index: every array of length 0..5 (thorough: 6) over an alphabet of 4-5 values (extremes, NaN, infinities, equal values, strings that differ in the first, '
                  'middle or last character); lengths 15..66 and 100..257: every rotation, every single displaced element, every 0^a 1^b 0^c / 0^a 1^b 2^c pattern, every multiplicative permutation; '
                  'two and three keys of mixed types: every array of 1..4 rows over 2-3 values per key with every direction combination; cutoffs: every composition of the length into partitions; index=: every subset; '
                  'in-place sorts with the three algorithms; aligned and misaligned placement. Threading off (parallel merge: T04).',
        'assumptions': ['order of void (record) keys is any fixed total order on their bytes, reversed when descending', 'grouping from a sorted order compares bytes, so arrays with both signed zeros are left out there']}
rc = None
TIER = 'quick'
NUMT = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f4', 'f8', 'g']
STRT = ['S1', 'S2', 'S3', 'S7', 'S9', 'U1', 'U3']
STRG = ['S4', 'S5', 'S6', 'S8', 'S10', 'S11', 'S12', 'S13', 'S14', 'S15', 'S16', 'U2', 'U4']
VOIDT = ['V1', 'V4', 'V10', 'V14', 'V2', 'V3', 'V5', 'V6', 'V7', 'V8', 'V11', 'V16', 'V13', 'V9', 'V12', 'V15']


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier)


def child_init():
    global rc
    _, rc = rcmod.load()


def alphabet(ty):
    """distinct values in ascending order (NaN last)"""
    d = np.dtype(ty)
    k = d.kind
    if k == 'b':
        return np.array([False, True])
    if k == 'f':
        return np.array([-np.inf, -1.5, 0.0, 2.0, np.inf, np.nan], d)
    if k in 'iu':
        lo, hi = int(np.iinfo(d).min), int(np.iinfo(d).max)
        return np.array(sorted({lo, 0, 1, hi} | ({-1} if lo < 0 else {hi // 2 + 1})), d)
    n = d.itemsize // (4 if k == 'U' else 1)
    if k == 'S':
        v = [b'', b'a', b'\xff']
        if n > 1:
            v = [b'', b'a' * (n - 1), b'a' * n, b'a' * (n - 1) + b'\xe9', b'b']
        return np.array(sorted(set(v)), d)
    if k == 'U':
        v = ['', 'a', '\U0001F600'] if n == 1 else ['', 'aa', 'aaa', 'aa\u0394', 'b', '\U0001F600']
        return np.unique(np.array(v, d))
    # void: raw bytes
    v = [bytes(n), bytes(n - 1) + b'\x01', b'\x01' + bytes(n - 1), b'\xff' * n, bytes(n - 1) + b'\xff']
    return np.frombuffer(b''.join(sorted(set(v))), d)


def rank_order(ty, al):
    """ascending rank of each alphabet entry; for void the rank is learnt from the code (any total order)"""
    if np.dtype(ty).kind != 'V':
        return np.arange(len(al))
    o = rc.LexSort32([al.copy()])
    r = np.empty(len(al), int)
    r[np.asarray(o)] = np.arange(len(al))
    return r


def expect(rank, nan, asc):
    """stable order; nan: rank value that always sorts last or None"""
    k = rank if asc else -rank
    if nan is not None and not asc:
        k = np.where(rank == nan, 1 << 40, k)
    return np.argsort(k, kind='stable')


def lex(n, keys, **kw):
    return (rc.LexSort32 if n == 32 else rc.LexSort64)(keys, **kw)


def okidx(t, r, e, n):
    d = np.dtype('i4' if n == 32 else 'i8')
    if not isinstance(r, np.ndarray) or r.dtype != d:
        t.fail('index result %r' % (r,))
    elif r.shape != e.shape or not np.array_equal(r, e):
        t.fail('order %s, expected %s' % (r.tolist()[:70], e.tolist()[:70]))


def sort_all(t, desc, a, rank, nan, big=False):
    for asc in (True, False):
        e = expect(rank, nan, asc)
        for n in ((32,) if big and asc else (64,) if big else (32, 64)):
            if t.begin(desc + [asc, n]):
                x = a.copy()
                x.flags.writeable = False
                okidx(t, lex(n, [x], ascending=asc) if not asc or n == 64 else lex(n, [x]), e, n)
                if a.tobytes() != x.tobytes():
                    t.fail('input modified')
                t.calls += 1
    o = a[expect(rank, nan, True)]
    if t.begin(desc + ['issorted']):
        g = rc.IsSorted(a)
        w = bool((np.diff(rank) >= 0).all()) if len(rank) > 1 else True
        if g is not w:
            t.fail('IsSorted says %r, expected %r' % (g, w))
    if a.dtype.kind in 'biufSU':
        for m in (1, 2, 3):
            if t.begin(desc + ['sort', m]):
                x = a.copy()
                g = rc.Sort(x, m)
                if not same(np.asarray(g), o):
                    t.fail('Sort: ' + diff(np.asarray(g), o))
                if x.tobytes() != a.tobytes():
                    t.fail('Sort modified its input')
                g = rc.SortInPlace(x, m)
                if not same(x, o):
                    t.fail('SortInPlace: ' + diff(x, o))
                if len(a) < 9:
                    b = np.repeat(a, 2)
                    b[1::2] = a[::-1]
                    x = b[::2]
                    g = rc.Sort(x, m)
                    if not same(np.asarray(g), o):
                        t.fail('Sort of a strided array: ' + diff(np.asarray(g), o))
                    rc.SortInPlace(x, m)
                    if not same(x, o) or b[1::2].tobytes() != a[::-1].tobytes():
                        t.fail('SortInPlace of a strided array: ' + diff(x, o))


def group_ref(order, rank, base):
    srt = rank[order]
    new = np.ones(len(srt), bool)
    new[1:] = srt[1:] != srt[:-1]
    gid = np.cumsum(new) - 1
    first = order[new]
    cnt = np.bincount(gid, minlength=0) if len(gid) else np.zeros(0, int)
    return gid, first, cnt


def group_all(t, desc, a, rank, nan):
    for n in (32, 64):
        for base in (1, 0):
            if not t.begin(desc + ['group', n, base]):
                continue
            o = lex(n, [a])
            r = rc.GroupFromLexSort(o, a, base_index=base)
            e = expect(rank, nan, True)
            gid, first, cnt = group_ref(e, rank, base)
            key = np.zeros(len(a), int)
            key[e] = gid + base
            if len(r) != 3:
                t.fail('%d results' % len(r))
                continue
            if not np.array_equal(r[0], key):
                t.fail('keys %s expected %s' % (r[0].tolist(), key.tolist()))
            if not np.array_equal(r[1], first):
                t.fail('first %s expected %s' % (r[1].tolist(), first.tolist()))
            c = np.concatenate([[0], cnt])
            if not np.array_equal(r[2], c):
                t.fail('counts %s expected %s' % (r[2].tolist(), c.tolist()))


def part_all(t, desc, a, rank, nan, cuts, n):
    """lexsort and grouping inside partitions"""
    L = len(a)
    o = lex(n, [a], cutoffs=np.array(cuts, 'i8'))
    exp, gids, firsts, counts, uniq = [], np.zeros(L, int), [], [], []
    s = 0
    tot = 0
    full = []
    for c in cuts:
        e = expect(rank[s:c], nan, True)
        exp += e.tolist()
        gid, first, cnt = group_ref(e, rank[s:c], 1)
        gids[s + e] = gid + tot + 1
        firsts += (first + s).tolist()
        counts += cnt.tolist()
        tot += len(cnt)
        uniq.append(tot)
        full += (e + s).tolist()
        s = c
    okidx(t, o, np.array(exp), n)
    r = rc.GroupFromLexSort(o, a, cutoffs=np.array(cuts, 'i8'))
    if len(r) != 4:
        t.fail('%d results' % len(r))
        return
    for name, g, w in (('keys', r[0], gids), ('first', r[1], firsts), ('counts', r[2], [0] + counts), ('unique', r[3], uniq), ('fixed order', o, full)):
        if g.tolist() != list(w):
            t.fail('partition %s: %s %s expected %s' % (cuts, name, g.tolist(), list(w)))


def families(L):
    """(name, rank array)"""
    i = np.arange(L)
    for r in range(L):
        yield 'rot%d' % r, np.roll(i, r)
        yield 'rotdup%d' % r, np.roll(i // 3, r)
        yield 'rotrev%d' % r, np.roll(i[::-1], r)
    step = 1 if L <= 20 or TIER != 'quick' else 3 if L <= 36 else 7
    for a in range(0, L, 1):
        for b in range(a % step, L, step):
            if a != b:
                x = np.delete(i, a)
                yield 'move%d-%d' % (a, b), np.insert(x, b, a)
    for a in range(0, L + 1):
        for b in range(a + a % step, L + 1, step):
            yield '010-%d-%d' % (a, b), ((i >= a) & (i < b)).astype(int)
            yield '120-%d-%d' % (a, b), np.where(i < a, 1, np.where(i < b, 2, 0))
    for k in range(2, L):
        yield 'mul%d' % k, (i * k) % L
        yield 'mod%d' % k, i % k


_voids = {}


def voids(ty, m):
    """m different records in the order of the code, which is learnt from sorting two at a time"""
    if (ty, m) not in _voids:
        n = np.dtype(ty).itemsize
        v = []
        for q in range(m):
            b = bytearray(b'x' * n)
            b[-1 - q % n] = 1 + 5 * (q // n) % 250         # differ in one byte, at every place
            if q % n == 0:
                b[0] = 130 + q // n % 120
            v.append(bytes(b))
        v = sorted(set(v))
        q = m
        while len(v) < m:
            q += 1
            v = sorted(set(v + [bytes([q % 256, q // 256] + [7] * (n - 2))]))
        v = np.frombuffer(b''.join(v[:m]), ty)
        rk = np.array([sum(int(rc.LexSort32([v[[i, j]]])[0]) for j in range(m) if j != i) for i in range(m)])
        if sorted(rk) != list(range(m)):
            raise ValueError('no total order on %s' % ty)
        o = np.empty(m, int)
        o[rk] = np.arange(m)
        _voids[ty, m] = v[o]
    return _voids[ty, m]


def spread(ty, rank, al):
    """values of the type that are ordered like rank"""
    d = np.dtype(ty)
    m = int(rank.max()) + 1 if len(rank) else 1
    if d.kind in 'iu':
        lo, hi = int(np.iinfo(d).min), int(np.iinfo(d).max)
        if m > hi - lo:
            return None
        st = (hi - lo) // max(m - 1, 1)
        v = np.array([min(hi, lo + q * st) for q in range(m)], d)
    elif d.kind == 'f':
        v = (np.arange(m) - m // 2).astype(d)
        v[-1] = np.nan
    elif d.kind == 'b':
        if m > 2:
            return None
        v = np.array([False, True])
    else:
        n = d.itemsize // (4 if d.kind == 'U' else 1)
        if n < 2:
            return None
        s = ['%s%s' % (chr(65 + q // 16), chr(65 + q % 16)) for q in range(m)]
        if d.kind == 'U':
            v = np.array([('x' * (n - 2)) + x for x in s], d)
        elif d.kind == 'S':
            v = np.array([(b'x' * (n - 2)) + x.encode() for x in s], d)
        else:
            v = voids(ty, m)
    return v[rank], (m - 1 if d.kind == 'f' else None)


MK = [(('i4', 3), ('f8', 3)), (('S3', 3), ('i1', 2)), (('f4', 2), ('U3', 2), ('?', 2)), (('u8', 3), ('S1', 2)), (('i8', 2), ('i2', 2), ('g', 2))]


def units(tier):
    u = [['short', ty] for ty in NUMT + STRT + VOIDT]
    u += [['group', ty] for ty in NUMT + STRT + VOIDT]
    u += [['group', ty] for ty in STRG]
    u += [['fam', ty, L] for L in (17, 33, 66) for ty in VOIDT[1:]] + [['long', ty] for ty in VOIDT[1:]]
    u += [['multi', i] for i in range(len(MK))]
    Ls = [15, 16, 17, 18, 19, 20, 31, 32, 33, 34, 47, 48, 49, 50, 63, 64, 65, 66] if tier == 'quick' else list(range(15, 70)) + [80, 96, 97, 100, 127, 128, 129]
    u += [['fam', ty, L] for L in reversed(Ls) for ty in NUMT + STRT]
    u += [['long', ty] for ty in NUMT + STRT]
    u += [['indirect'], ['refuse']]
    return u


def run_unit(u, t):
    if u[0] == 'indirect':
        for dt1, dt2 in (('i4', 'i4'), ('i4', 'i8'), ('i8', 'i8')):
            for n in range(1, 6):
                for p in itertools.permutations(range(n)):
                    for m in range(0, 4):
                        for k in (itertools.product(range(n), repeat=m) if n < 4 or m < 3 else [tuple(range(n))]):
                            if t.begin([u, dt1, dt2, p, k]):
                                a = np.array(k, dt1)
                                s = np.array(p, dt2)
                                inv = np.empty(n, dt1)
                                inv[s] = np.arange(n)
                                rc.SortInPlaceIndirect(a, s)
                                if not np.array_equal(a, inv[list(k)]):
                                    t.fail('got %s expected %s' % (a.tolist(), inv[list(k)].tolist()))
        return
    if u[0] == 'multi':
        spec = MK[u[1]]
        al = []
        for ty, n in spec:
            full_ = alphabet(ty)
            al.append(full_[-n:] if np.dtype(ty).kind == 'f' else full_[:n])
        nans = [n - 1 if np.dtype(ty).kind == 'f' else None for ty, n in spec]
        rows = list(itertools.product(*[range(n) for _, n in spec]))
        for L in range(1, 5):
            if len(rows) ** L > (7000 if TIER == 'quick' else 600000):
                break
            for seq in itertools.product(range(len(rows)), repeat=L):
                ks = [np.array([rows[s][j] for s in seq]) for j in range(len(spec))]
                arrs = [al[j][ks[j]] for j in range(len(spec))]
                dirs = list(itertools.product((True, False), repeat=len(spec)))
                if L >= 4:
                    dirs = dirs[:1] + dirs[-1:] + dirs[1:2]
                for asc in dirs:
                    if t.begin([u, seq, asc], key=(u[1], seq, asc)):
                        idx = np.arange(L)
                        for j in range(len(spec)):
                            idx = idx[expect(ks[j][idx], nans[j], asc[j])]
                        n = 32 if (sum(seq) & 1) else 64
                        okidx(t, lex(n, arrs, ascending=np.array(asc)), idx, n)
        t.sample({'unit': u, 'rows': rows})
        return
    if u[0] == 'refuse':
        for ty in ('F', 'D', 'O', 'M8[ns]', 'm8[ns]'):
            for n in (0, 1, 3):
                a = np.array([3, 1, 2][:n], 'i8').astype(ty)
                for nm, f in (('Sort', lambda: rc.Sort(a, 2)), ('SortInPlace', lambda: rc.SortInPlace(a, 2)), ('LexSort32', lambda: rc.LexSort32([a])), ('LexSort64', lambda: rc.LexSort64([np.arange(n), a]))):
                    if t.begin([u, ty, n, nm]):
                        k = a.copy()
                        try:
                            g = f()
                        except (TypeError, ValueError):
                            pass
                        else:
                            if n and not (isinstance(g, np.ndarray) and g.tolist() == (np.sort(a) if nm.startswith('Sort') else np.argsort(a, kind='stable')).tolist()):
                                t.fail('%s of %s gives %r' % (nm, ty, g))
                        if nm != 'SortInPlace' and k.tolist() != a.tolist():
                            t.fail('%s of %s modified its input' % (nm, ty))
        return
    ty = u[1]
    al = alphabet(ty)
    k = np.dtype(ty).kind
    rk = rank_order(ty, al)
    nan = len(al) - 1 if k == 'f' else None
    if u[0] == 'short':
        top = 5 if TIER == 'quick' else 6
        for L in range(0, (top if len(al) > 2 else 9) + 1):
            for seq in itertools.product(range(len(al)), repeat=L):
                s = list(seq)
                if L == 5 and TIER == 'quick' and len(al) > 4 and (sum(s) % 3):
                    continue
                a = al[s] if s else al[:0].copy()
                sort_all(t, [u, seq], a, rk[s] if s else np.zeros(0, int), nan)
                if L == 3:
                    for asc in (True, False):
                        for pl in ('a1', 'm1', 'm3'):
                            if t.begin([u, seq, pl, asc]):
                                x, b = place(a, pl)
                                okidx(t, lex(32, [x], ascending=asc), expect(rk[s], nan, asc), 32)
                        if t.begin([u, seq, 'stride', asc]):
                            big = np.zeros(2 * L, al.dtype)
                            v = big[::2]
                            v[:] = a
                            okidx(t, lex(32, [v], ascending=asc), expect(rk[s], nan, asc), 32)
        t.sample({'unit': u, 'alphabet': [repr(x) for x in al]})
        return
    if u[0] == 'group':
        for L in range(0, (4 if len(al) > 2 else 6) + 1):
            for seq in itertools.product(range(len(al)), repeat=L):
                s = list(seq)
                a = al[s] if s else al[:0].copy()
                rank = rk[s] if s else np.zeros(0, int)
                group_all(t, [u, seq], a, rank, nan)
                if not L:
                    continue
                if L <= 3 or (sum(s) % 4 == 0) or TIER != 'quick':
                    for cuts in compositions(L):
                        for n in (32, 64):
                            if t.begin([u, seq, cuts, n]):
                                part_all(t, [u, seq, cuts, n], a, rank, nan, cuts, n)
                for m in range(1, 1 << L):
                    sub = [i for i in range(L) if m >> i & 1]
                    if t.begin([u, seq, 'index', sub]):
                        n = 32 if m & 1 else 64
                        idx = np.array(sub, 'i4' if n == 32 else 'i8')
                        e = np.array(sub)[expect(rank[sub], nan, True)]
                        o = lex(n, [a], index=idx)
                        okidx(t, o, e, n)
                        r = rc.GroupFromLexSort(o, a, base_index=1)
                        gid, first, cnt = group_ref(e, rank, 1)
                        if r[0][e].tolist() != (gid + 1).tolist() or r[1].tolist() != first.tolist() or r[2].tolist() != [0] + cnt.tolist():
                            t.fail('subset %s: keys %s first %s counts %s, expected %s %s %s' % (sub, r[0][e].tolist(), r[1].tolist(), r[2].tolist(), (gid + 1).tolist(), first.tolist(), [0] + cnt.tolist()))
        return
    if u[0] == 'fam':
        for name, rank in families(u[2]):
            v = spread(ty, rank, al)
            if v is None:
                continue
            sort_all(t, [u, name], v[0], rank, v[1], big=True)
        return
    if u[0] == 'long':
        for L in ((100, 128, 129, 255, 256, 257, 1000, 4097) if TIER == 'quick' else (100, 127, 128, 129, 191, 192, 193, 255, 256, 257, 511, 512, 513, 1000, 4096, 4097, 20000)):
            i = np.arange(L)
            for name, rank in [('id', i), ('rev', i[::-1]), ('const', i * 0), ('saw', i % 17), ('organ', np.minimum(i, L - 1 - i))] + [('mul%d' % q, (i * q) % L) for q in (3, 7, 31, 97)] + \
                    [('rot%d' % r, np.roll(i, r)) for r in {1, 15, 16, 17, L // 2 - 1, L // 2, L // 2 + 1, L - 16, L - 1}]:
                if k in 'SUV' or np.dtype(ty).itemsize == 1:
                    rank = rank % 250
                if k == 'V':
                    rank = rank % 60
                v = spread(ty, rank, al)
                if v is not None:
                    sort_all(t, [u, L, name], v[0], rank, v[1], big=True)


def compositions(L):
    for m in range(1 << (L - 1)):
        yield [i + 1 for i in range(L - 1) if m >> i & 1] + [L]
    if L <= 3:
        for c in range(L + 1):                     # with an empty partition
            yield [c, c, L] if c < L else [L, L]
