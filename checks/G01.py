"""Hash grouping against its definition: equal rows, and only equal rows, share a group numbered by first appearance."""
import itertools
import numpy as np
import rcmod
from dp import *

META = {'bounds': 'every array of length <= 9 over 2 values, <= 5 over 3 and <= 4 over 4 values (thorough: 14, 9, 7) (values chosen so that they meet in one hash slot, in neighbouring slots, and across the end of the table), for 14 key types, byte and unicode strings of widths 1..9 and 16, 17, 33, and '
                  'pairs/triples of key types (rows of 2..40 bytes); x every boolean filter for length <= 4 and 6 filters above; x hash modes 1, 2, 3 x hints 0, exact, larger; all 256 and 65536 values of narrow types; lengths 0..70 of pairwise distinct and of repeating keys; '
                  '60000 distinct keys in a 65536-slot table (hint too small) and 70000 (must be refused); every way to cut <= 5 rows into partitions; running calls: every split of <= 6 rows into two or three rolling calls; strided keys and filters.',
        'assumptions': ['keys are compared bit for bit (equal NaN bit patterns are one key, -0.0 and 0.0 are two)', 'MultiKeyRolling is limited to rows of 1, 2, 4, 8 or 16 bytes and at most two keys, as documented by its example']}
rc = None
TIER = 'quick'


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier)


def child_init():
    global rc
    _, rc = rcmod.load()


# ---- values that collide in the table (only steering: the reference does not depend on it)
def crc32c_table():
    t = np.zeros(256, 'u4')
    for i in range(256):
        c = i
        for _ in range(8):
            c = (c >> 1) ^ (0x82F63B78 if c & 1 else 0)
        t[i] = c
    return t


def h32(v):
    t = crc32c_table()
    c = np.zeros(len(v), 'u4')
    for k in range(4):
        c = (c >> np.uint32(8)) ^ t[(c ^ ((v >> np.uint32(8 * k)) & np.uint32(255))) & np.uint32(255)]
    return c & np.uint32(65535)


def h64(v):
    def mix(h):
        h = h ^ (h >> np.uint64(23))
        h = h * np.uint64(0x2127599bf4325c37)
        return h ^ (h >> np.uint64(47))
    h = np.full(len(v), 8 * 0x880355f21e6d1965 & (1 << 64) - 1, 'u8')
    h ^= mix(v)
    h *= np.uint64(0x880355f21e6d1965)
    return mix(h) & np.uint64(65535)


def hf4(v):
    u = v.view('u4')
    return (u ^ (u >> np.uint32(20))) & np.uint32(65535)


_coll = {}


def colliding(ty):
    """values of one slot, of the next slot, of the last slot and of slot 0"""
    if ty in _coll:
        return _coll[ty]
    d = np.dtype(ty)
    n = 400000
    if d.kind == 'f':
        v = np.arange(1, n).astype(d)
        h = hf4(v) if d.itemsize == 4 else h64(v.view('u8'))
    elif d.itemsize == 4:
        v = np.arange(1, n, dtype='u4'); h = h32(v)
    else:
        v = np.arange(1, n, dtype='u8'); h = h64(v)
    last = v[h == 65535][:3]
    zero = v[h == 0][:1]
    s = [x for x in last.tolist() + zero.tolist()]
    _coll[ty] = np.array(s).astype(d)
    return _coll[ty]


def colliding_rows(ty):
    """as colliding(), for the table of the multi-key functions (checksum of the row's bytes, filled up to eight)"""
    if ('rows', ty) not in _coll:
        d = np.dtype(ty)
        v = np.arange(1, 400000, dtype='u8')
        t = crc32c_table()
        c = np.zeros(len(v), 'u4')
        for k in range(8):
            c = (c >> np.uint32(8)) ^ t[(c ^ (v >> np.uint64(8 * k)).astype('u4')) & np.uint32(255)]
        h = c & np.uint32(65535)
        _coll['rows', ty] = np.concatenate([v[h == 65535][:3], v[h == 0][:1]]).astype(d)
    return _coll['rows', ty]


def alphabets(ty):
    """small alphabets of a key type, most demanding first"""
    d = np.dtype(ty)
    if d.kind == 'b':
        return [np.array([False, True])]
    if d.kind in 'SU':
        w = d.itemsize // (4 if d.kind == 'U' else 1)
        a = ['', 'a', 'b' * w, 'b' * (w - 1) + 'c', 'a' + 'b' * (w - 1)]
        r = []
        for x in a:
            if x not in r:
                r.append(x)
        return [np.array(r[:4], d), np.array(r[-3:], d)]
    if d.kind == 'f':
        q = [np.array([0.0, -0.0, np.nan, 1.0], d), np.array([1.0, 2.0, np.inf, -np.inf], d)]
        if d.itemsize in (4, 8):
            q.append(colliding(ty))
        return q
    ii = np.iinfo(d)
    q = [np.array([ii.min, 0, 1, ii.max], d)]
    if d.itemsize >= 4:
        q += [colliding(ty), colliding_rows(ty)]
    else:
        q.append(np.array([2, 130 if ii.max > 130 else -126, 64, 66], d))
    return q


def words(k, n):
    return itertools.product(range(k), repeat=n)


FILTERS = [lambda n: [1] * n, lambda n: [0] * n, lambda n: [i % 2 for i in range(n)], lambda n: [0] + [1] * (n - 1), lambda n: [1] * (n - 1) + [0]]


def filters(n):
    if n <= 4:
        for f in itertools.product((0, 1), repeat=n):
            yield np.array(f, bool)
    else:
        for f in FILTERS:
            yield np.array(f(n), bool)


def rows(keys):
    """canonical row ids: rows as bytes"""
    if len(keys) == 1:
        a = np.ascontiguousarray(keys[0])
        b = a.tobytes()
        w = a.dtype.itemsize
        return [b[i * w:(i + 1) * w] for i in range(len(a))]
    cols = [rows([k]) for k in keys]
    return list(zip(*cols))


def group(r, f):
    d, key, first, cnt, last, nxt = {}, [], [], [], {}, [-1] * len(r)
    for i, x in enumerate(r):
        if f is not None and not f[i]:
            key.append(0)
            continue
        g = d.get(x)
        if g is None:
            g = d[x] = len(first) + 1
            first.append(i)
            cnt.append(0)
        else:
            nxt[last[g]] = i
        cnt[g - 1] += 1
        last[g] = i
        key.append(g)
    return key, first, cnt, nxt



def chk_gb(t, keys, hint, f, mode=2, kw=None, r=None):
    t.calls += 1
    if r is None:
        r = rows(keys)
    ek, ef, _, _ = group(r, f)
    k, first, n = rc.MultiKeyGroupBy32(list(keys), hint, f, mode)
    if k.dtype != np.int32 or k.tolist() != ek or first.tolist() != ef or n != len(ef):
        t.fail('MultiKeyGroupBy32(hint=%r, mode=%r, filter=%r): got %r first %r n %r, expected %r first %r' % (hint, mode, f if f is None or len(f) < 10 else '...', k.tolist()[:12], first.tolist()[:12], n, ek[:12], ef[:12]))
    else:
        t.outcome(k.tobytes()[:64])


def chk_super(t, keys, hint, f, mode=2, r=None):
    t.calls += 1
    if r is None:
        r = rows(keys)
    ek, ef, ec, en = group(r, f)
    k, nx, first, cnt = rc.MultiKeyGroupBy32Super(list(keys), hint, f, mode)
    got_n = nx.tolist()
    if f is not None:
        # rows of the filtered bin: the chain among them is not specified
        got_n = [x if f[i] else -1 for i, x in enumerate(got_n)]
    if k.tolist() != ek or first.tolist() != ef or cnt.tolist() != ec or got_n != en:
        t.fail('MultiKeyGroupBy32Super(hint=%r, mode=%r, filter=%r): got %r next %r first %r count %r, expected %r %r %r %r' % (hint, mode, f, k.tolist()[:12], got_n[:12], first.tolist()[:12], cnt.tolist()[:12], ek[:12], en[:12], ef[:12], ec[:12]))


def chk_unique(t, keys, hint, f, r=None):
    t.calls += 1
    if r is None:
        r = rows(keys)
    _, ef, ec, _ = group(r, f)
    first, cnt = rc.MultiKeyUnique32(list(keys), hint, f)
    if first.tolist() != ef or cnt.tolist() != ec:
        t.fail('MultiKeyUnique32(hint=%r, filter=%r): got %r %r expected %r %r' % (hint, f, first.tolist()[:12], cnt.tolist()[:12], ef[:12], ec[:12]))


def chk_hash(t, keys, hint, r=None):
    t.calls += 1
    if r is None:
        r = rows(keys)
    k, first, cnt, nxt = group(r, None)
    n = len(r)
    g = rc.MultiKeyHash(list(keys), hint, None)
    idx, run, bkt, prv, nx, fi, la = [x.tolist() for x in g]
    erun, elast, eprev, c, lastrow = [], [0] * n, [-1] * n, {}, {}
    for i in range(n):
        c[k[i]] = c.get(k[i], 0) + 1
        erun.append(c[k[i]])
        if k[i] in lastrow:
            eprev[i] = lastrow[k[i]]
        lastrow[k[i]] = i
    e = (k, erun, [cnt[x - 1] for x in k], eprev, nxt, [first[x - 1] for x in k], [lastrow[x] for x in k])
    got = (idx, run, bkt, prv, nx, fi, la)
    for nm, a, b in zip(('index', 'running count', 'bucket size', 'previous', 'next', 'first', 'last'), got, e):
        if a != b:
            t.fail('MultiKeyHash %s: got %r expected %r' % (nm, a[:12], b[:12]))
            return


def chk_roll(t, keys, cuts, hint):
    r = rows(keys)
    ek, _, _, _ = group(r, None)
    ptr = None
    c, seen = {}, set()
    pos = 0
    try:
        for b in list(cuts) + [len(r)]:
            part = tuple(k[pos:b] for k in keys)
            t.calls += 1
            g = rc.MultiKeyRolling(part, hint if ptr is None else 0, *(() if ptr is None else (ptr,)))
            ptr = g[3]
            er = []
            for i in range(pos, b):
                c[ek[i]] = c.get(ek[i], 0) + 1
                er.append(c[ek[i]])
                seen.add(ek[i])
            if g[0].tolist() != [x - 1 for x in ek[pos:b]] or g[1].tolist() != er or g[2] != len(seen):
                t.fail('MultiKeyRolling rows %d..%d: got %r %r %r expected %r %r %r' % (pos, b, g[0].tolist(), g[1].tolist(), g[2], [x - 1 for x in ek[pos:b]], er, len(seen)))
                return
            pos = b
    finally:
        if ptr is not None:
            rc.MultiKeyRolling(tuple(k[:1] for k in keys), -1, ptr)


def chk_part(t, keys, cuts, f, hint=0, mode=2):
    """partitioned grouping: each part is grouped on its own"""
    t.calls += 1
    r = rows(keys)
    ek, ef, eu, pos = [], [], [], 0
    for b in cuts:
        k, fi, _, _ = group(r[pos:b], None if f is None else f[pos:b])
        ek += k
        ef += fi
        eu.append(len(ef))
        pos = b
    k, first, n = rc.MultiKeyGroupBy32(list(keys), hint, f, mode, cutoffs=np.array(cuts, 'i8'))
    if k.tolist() != ek or first[0].tolist() != ef or first[1].tolist() != eu or n != len(ef):
        t.fail('MultiKeyGroupBy32(cutoffs=%r, filter=%r): got %r %r %r %r expected %r %r %r' % (cuts, f, k.tolist(), first[0].tolist(), first[1].tolist(), n, ek, ef, eu))


NUMT = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'q', 'f4', 'f8', 'g']
STR = ['S%d' % w for w in (1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33)] + ['U1', 'U2', 'U3', 'U5', 'U9']
PAIRS = [('i1', 'i1'), ('i1', 'i2'), ('i2', 'i2'), ('i1', 'i4'), ('i4', 'i1'), ('i4', 'i4'), ('f4', 'i4'), ('f8', 'i1'), ('i8', 'i8'), ('f8', 'f8'), ('S3', 'i4'), ('S1', 'S1'), ('U1', 'i8'), ('S8', 'S16'),
         ('?', '?'), ('i1', 'i2', 'i1'), ('?', 'i2', 'i1'), ('i4', 'i4', 'i8'), ('i8', 'i8', 'i8'), ('i8', 'S5', 'i1'), ('i1', 'i1', 'i1', 'i1'), ('f8', 'f4', 'i2', 'i1', '?')]


def units(tier):
    u = [['one', x] for x in NUMT + STR] + [['pair', i] for i in range(len(PAIRS))]
    u += [['all', x, m] for x in ('?', 'i1', 'u1', 'i2', 'u2') for m in (1, 2, 3)]
    u += [['len', x] for x in ('i1', 'i2', 'i4', 'i8', 'f4', 'f8', 'g', 'S3', 'S8', 'U2', 'i4+i8')]
    u += [['full', x] for x in ('i4', 'i8', 'f4', 'f8', 'S7', 'i4+i8')]
    u += [['part', x] for x in ('i1', 'i2', 'i4', 'f8', 'S3', 'i4+i8')]
    u += [['roll', x] for x in ('i1', 'i2', 'i4', 'i8', 'f4', 'f8', 'S4', 'U1', 'S16', 'i4+i4', 'i8+i8', 'i1+i1')]
    u += [['strided'], ['refuse']]
    return u


def full_small(n, k):
    # kept small enough: k**n
    return k ** n <= (600 if TIER == 'quick' else 20000)


def run_one(u, t):
    ty = u[1]
    for ai, al in enumerate(alphabets(ty)):
        for k in (2, 3, 4):
            if k > len(al):
                continue
            for n in range(0, 15):
                if not full_small(n, k):
                    break
                for w in words(k, n):
                    if k > 2 and max(w, default=0) < k - 1:
                        continue          # was covered with fewer values
                    if not t.begin((u, ai, k, w)):
                        continue
                    a = al[list(w)] if n else al[:0]
                    r = rows([a])
                    chk_gb(t, [a], 0, None, 2, r=r)
                    chk_gb(t, [a], 0, None, 1, r=r)
                    chk_hash(t, [a], 0, r=r)
                    chk_unique(t, [a], 0, None, r=r)
                    chk_super(t, [a], 0, None, r=r)
                    if n <= 4 or sum(w) % 3 == 0:
                        for f in filters(n):
                            chk_gb(t, [a], 0, f, 2, r=r)
                            chk_super(t, [a], 0, f, r=r)
                            chk_unique(t, [a], 0, f, r=r)
                            if n <= 3:
                                chk_gb(t, [a], 0, f, 1, r=r)
                                chk_gb(t, [a], n + 3, f, 3, r=r)
                    if n:
                        chk_gb(t, [a], len(set(r)), None, 2, r=r)
                        chk_gb(t, [a], 40000, None, 2, r=r)
                        chk_super(t, [a], len(set(r)), None, 1, r=r) if len(set(r)) > 0 else None


def run_pair(u, t):
    tys = PAIRS[u[1]]
    m = len(tys)
    als = [alphabets(x)[0][:2] if len(alphabets(x)[0]) >= 2 else alphabets(x)[0] for x in tys]
    nv = 2 ** m if m <= 3 else 8
    combos = list(itertools.product((0, 1), repeat=m))[:nv]
    for n in range(0, 7):
        if not full_small(n, nv):
            break
        for w in words(nv, n):
            if not t.begin((u, w)):
                continue
            keys = [als[j][[combos[x][j] for x in w]] if n else als[j][:0] for j in range(m)]
            r = rows(keys)
            chk_gb(t, keys, 0, None, 2, r=r)
            chk_gb(t, keys, 0, None, 1, r=r)
            chk_hash(t, keys, 0, r=r)
            chk_unique(t, keys, 0, None, r=r)
            chk_super(t, keys, 0, None, r=r)
            if n <= 3:
                for f in filters(n):
                    chk_gb(t, keys, 0, f, 2, r=r)
                    chk_super(t, keys, 0, f, r=r)
                    chk_unique(t, keys, 0, f, r=r)
            if t.calls < 3:
                t.sample({'keys': [k.tolist() for k in keys], 'result': [x.tolist() if isinstance(x, np.ndarray) else x for x in rc.MultiKeyGroupBy32(keys, 0, None)]})


def run_all(u, t):
    ty, mode = u[1], u[2]
    d = np.dtype(ty)
    base = np.array([False, True]) if d.kind == 'b' else np.arange(1 << (8 * d.itemsize), dtype='u%d' % d.itemsize).view(d)
    n = len(base)
    for rep in (1, 2):
        for mul in (1, 37):
            for flt in (None, 2, 3):
                if not t.begin((u, rep, mul, flt)):
                    continue
                a = np.tile(base[(np.arange(n) * mul) % n], rep)
                f = None if flt is None else np.arange(len(a)) % flt == 0
                chk_gb(t, [a], 0, f, mode)
                chk_super(t, [a], 0, f, mode)
                if mode == 2:
                    chk_unique(t, [a], 0, f)
                    chk_hash(t, [a], 0) if f is None else None


def distinct(ty, n):
    """n pairwise different keys (list of arrays)"""
    i = np.arange(n)
    if '+' in ty:
        p = ty.split('+')
        return [(i % 7).astype(p[0]), (i // 7).astype(p[1])]
    d = np.dtype(ty)
    if d.kind in 'SU':
        w = d.itemsize // (4 if d.kind == 'U' else 1)
        return [np.array([''.join(chr(33 + (x // 90 ** j) % 90) for j in range(w)) for x in i.tolist()], d)]
    if d.itemsize <= 2:
        return [(i % (1 << (8 * d.itemsize))).astype('u%d' % d.itemsize).view(d)]
    return [(i * 3 + 1).astype(d)]


def run_len(u, t):
    ty = u[1]
    for n in list(range(0, 71)) + [127, 128, 129, 255, 256, 257, 1000]:
        for m in (n, 2, 3, 5):
            if not t.begin((u, n, m)):
                continue
            if m == 0:
                continue
            base = distinct(ty, min(n, m))
            ix = np.arange(n) % max(1, min(n, m))
            keys = [b[ix] for b in base]
            r = rows(keys)
            for f in (None, np.arange(n) % 3 != 0):
                chk_gb(t, keys, 0, f, 2, r=r)
                chk_gb(t, keys, 0, f, 1, r=r)
                chk_super(t, keys, 0, f, r=r)
                chk_unique(t, keys, 0, f, r=r)
            chk_hash(t, keys, 0, r=r)


def refused(t, name, f, *a, **k):
    t.calls += 1
    try:
        g = f(*a, **k)
    except (ValueError, TypeError, MemoryError):
        t.outcome('refused')
        return
    except SystemError as e:
        t.fail('%s: raises SystemError %s' % (name, e))
        return
    t.fail('%s: returned %s instead of an error' % (name, str(g)[:200]))


def run_full(u, t):
    """heavy load: long clusters that wrap around the end of the table; a table that is too small is an error"""
    ty = u[1]
    for n in (30000, 60000, 65530):
        for hint in (0, 100):
            for rep in (1, 2):
                if not t.begin((u, n, hint, rep)):
                    continue
                base = distinct(ty, n)
                keys = [np.concatenate([b] * rep) for b in base]
                r = rows(keys)
                chk_gb(t, keys, hint, None, 2, r=r)
                if rep == 1:
                    chk_unique(t, keys, hint, None, r=r)
                    chk_super(t, keys, hint, None, r=r)
                else:
                    chk_hash(t, keys, hint, r=r)
                t.beat()
    if t.begin((u, 'too many')):
        keys = distinct(ty, 140000)
        refused(t, 'MultiKeyGroupBy32', rc.MultiKeyGroupBy32, keys, 100, None)
        refused(t, 'MultiKeyGroupBy32Super', rc.MultiKeyGroupBy32Super, keys, 100, None)
        refused(t, 'MultiKeyUnique32', rc.MultiKeyUnique32, keys, 100, None)
        refused(t, 'MultiKeyHash', rc.MultiKeyHash, keys, 100, None)
        if ty not in ('S7', 'i4+i8'):
            refused(t, 'MultiKeyRolling', rc.MultiKeyRolling, tuple(keys), 100)
        # afterwards everything works
        k2 = distinct(ty, 1000)
        chk_gb(t, k2, 0, None)
        chk_hash(t, k2, 0)


def run_part(u, t):
    ty = u[1]
    als = [alphabets(x)[0][:3] for x in ty.split('+')]
    for n in range(1, 6 if TIER == 'quick' else 7):
        for ncut in range(0, n):
            for inner in itertools.combinations_with_replacement(range(0, n + 1), min(ncut, 2)):
                cuts = sorted(inner) + [n]
                for w in words(2 if n > 4 else 3, n):
                    if not t.begin((u, n, cuts, w)):
                        continue
                    keys = [a[list(w)] for a in als]
                    if len(keys) > 1:
                        keys[1] = keys[1][::-1].copy()
                    chk_part(t, keys, cuts, None)
                    chk_part(t, keys, cuts, np.arange(n) % 2 == 0)
                    chk_part(t, keys, cuts, np.arange(n) % 2 == 1, 0, 1)
            if ncut >= 2:
                break


def run_roll(u, t):
    ty = u[1]
    als = []
    for x in ty.split('+'):
        q = alphabets(x)
        als.append(q[-1][:3] if len(q[-1]) >= 3 else q[0][:3])
    for n in range(1, 6 if TIER == 'quick' else 8):
        for w in words(3 if n < 6 else 2, n):
            for cuts in [()] + [(i,) for i in range(1, n)] + [(i, j) for i in range(1, n) for j in range(i + 1, n)]:
                if not t.begin((u, w, cuts)):
                    continue
                keys = [a[[x % len(a) for x in w]] for a in als]
                if len(keys) > 1:
                    keys[1] = als[1][[x // 2 % len(als[1]) for x in w]]
                chk_roll(t, keys, cuts, 100)
    if t.begin((u, 'long')):
        keys = [a[np.arange(5000) * 7 % 3 % len(a)] for a in als]
        chk_roll(t, keys, (100, 101, 4000), 0)


def run_strided(u, t):
    for ty in NUMT + ['S3', 'U2']:
        al = alphabets(ty)[0]
        for n in (0, 1, 2, 5, 9):
            if not t.begin((u, ty, n)):
                continue
            b = al[np.arange(2 * n) * 5 % 7 % len(al)]
            for v in (b[::2], b[1::2], b[::-1][:n]):
                for f in (None, (np.arange(2 * n) % 3 == 0)[::2], (np.arange(n) % 2 == 0)[::-1]):
                    chk_gb(t, [v], 0, f)
                    chk_super(t, [v], 0, f)
                    chk_unique(t, [v], 0, f)
                    chk_gb(t, [v, b[:n]], 0, f)
                    if f is not None:
                        g = rc.MultiKeyGroupBy32([v], 0, f.tolist())[0].tolist() if n else []
                        if n and g != group(rows([v]), f)[0]:
                            t.fail('filter given as a list: %r' % (g,))
                chk_hash(t, [v], 0)


def run_refuse(u, t):
    a3, a4 = np.arange(3), np.arange(4)
    FN = [rc.MultiKeyGroupBy32, rc.MultiKeyGroupBy32Super, rc.MultiKeyUnique32, rc.MultiKeyHash]
    bads = [('lengths differ', ([a3, a4], 0, None)), ('no key', ([], 0, None)), ('filter length', ([a3], 0, np.ones(4, bool))), ('filter type', ([a3], 0, np.ones(3))), ('filter type', ([a3], 0, np.ones(3, 'i1'))),
            ('two dimensions', ([a4.reshape(2, 2)], 0, None)), ('not an array', ([1], 0, None)), ('filter is a number', ([a3], 0, 5)), ('empty filter', ([a3], 0, np.empty(0, bool)))]
    for f in FN:
        for nm, a in bads:
            if t.begin((u, f.__name__, nm)):
                refused(t, '%s(%s)' % (f.__name__, nm), f, *a)
    for f in FN[:2]:
        if t.begin((u, f.__name__, 'too few')):
            refused(t, f.__name__, f, [a3])
    for nm, a in (('wrong end', np.array([2, 4], 'i8')), ('type', np.array([2, 3], 'i4'))):
        if t.begin((u, 'cutoffs', nm)):
            refused(t, 'cutoffs %s' % nm, rc.MultiKeyGroupBy32, [a3], 0, None, cutoffs=a)
    if t.begin((u, 'roll')):
        refused(t, 'MultiKeyRolling hint', rc.MultiKeyRolling, (a3,), 'x')
        refused(t, 'MultiKeyRolling lengths', rc.MultiKeyRolling, (a3, a4), 0)


def run_unit(u, t):
    globals()['run_' + u[0]](u, t)
