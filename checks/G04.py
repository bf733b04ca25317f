"""Group-by aggregates against the per-group sequential computation."""
import itertools, math
from fractions import Fraction
import numpy as np
import rcmod
from dp import *

META = {'bounds': 'sum, mean, min, max, var, std and their nan-skipping forms: every assignment of rows to 3 groups and of 5 values (extremes, invalid, NaN, infinities) for <= 3 rows, and of 3 values for 4 rows (thorough 5 values for 4 rows, 3 for 5), for 13 value types and 4 group types (rotating), with and without an empty group, '
                  'all functions in one call and one by one, every range of groups; first, last, nth (-3..2), median, mode, trimmed mean, quantiles 0, 1/4, 1/3, 1/2, 3/4, 0.9, 1 with and without nan-skipping, strings and unicode for first, last, nth: the same row assignments, int32 and int64 row indices; '
                  'lengths around the chunks of the interruptible loops (16383..16385, 32768, 40000) and more groups than rows; strided groups; refused calls; reference evaluated with exact fractions (integers) or in float64',
        'assumptions': ['group numbers outside the requested range are skipped and the outputs outside it are not specified', 'integer median (function 103) and mode treat invalid integers as values, so they are checked on valid integers', 'the trimmed mean of integers is truncated, it is not checked for 64-bit values beyond 2**50; it keeps the values between the k-th smallest and k-th largest, k from the sample size as in the code', 'rounding tolerance 1e-12 (1e-6 for float32)']}
rc = None
TIER = 'quick'
TYPES = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'q', 'Q', 'f4', 'f8', 'g']
KT = ['i1', 'i2', 'i4', 'i8', 'q']
SUM, MEAN, MIN, MAX, VAR, STD = range(6)
FUN = [0, 1, 2, 3, 4, 5, 50, 51, 52, 53, 54, 55]


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier)


def child_init():
    global rc
    _, rc = rcmod.load()


def alphabet(ty):
    d = np.dtype(ty)
    if d.kind == 'b':
        return [True, False]
    if d.kind == 'f':
        return [1.5, -2.25, math.nan, math.inf, 0.1]
    i = np.iinfo(d)
    inv = int(invalid(d))
    if d.itemsize == 8:
        return [3, 2**60 - 1, inv, 0, 7] if d.kind == 'u' else [3, -2**60, inv, 2**60 - 1, 0]
    return [3, i.max - 1, inv, 0, 7] if d.kind == 'u' else [3, i.max, inv, i.min + 1, 0]


def exact(x, d):
    """the stored value"""
    return float(np.float32(x)) if d.char == 'f' else x


def outtype(f, d):
    f %= 50
    if f == SUM:
        return np.dtype('i8') if d.kind in 'bi' else np.dtype('u8') if d.kind == 'u' else d
    if f in (MIN, MAX):
        return d
    return np.dtype('f4') if d.char == 'f' else np.dtype('f8')


MEMO = {}


def ref(f, vals, d):
    """the definition; returns (value, tolerance)"""
    k = (f, vals, d.char)
    r = MEMO.get(k)
    if r is None:
        if len(MEMO) > 300000:
            MEMO.clear()
        r = MEMO[k] = ref1(f, vals, d)
    return r


def ref1(f, vals, d):
    isf = d.kind == 'f'
    inv = None if d.kind == 'b' else invalid(d)
    bad = [False if d.kind == 'b' else (x != x) if isf else x == inv for x in vals]
    o = outtype(f, d)
    none = (math.nan if o.kind == 'f' else False if o.kind == 'b' else int(invalid(o)), 0)
    skip = f >= 50
    f %= 50
    if any(bad) and not skip:
        return none
    v = [x for x, b in zip(vals, bad) if not b]
    if f == SUM:
        if isf:
            s = 0.0
            for x in v:
                s += x
            return s, 1e-6 if d.char == 'f' else 1e-12
        return sum(int(x) for x in v), 0
    if not v:
        return none if o.kind != 'b' else (None, 0)
    if f == MIN:
        return min(v), 0
    if f == MAX:
        return max(v), 0
    n = len(v)
    eps = 2e-7 if d.char == 'f' else 1e-15
    if isf and not all(math.isfinite(x) for x in v):
        s = 0.0
        for x in v:
            s += x
        return (s / n if f == MEAN else math.nan), 1e-6
    e = [Fraction(int(x)) if not isf else Fraction(x) for x in v]
    big = max(abs(x) for x in e)
    m = sum(e) / n
    if f == MEAN:
        return float(m), float(big) * eps * 4
    if n < 2:
        return math.nan, 0
    s = sum((x - m)**2 for x in e) / (n - 1)
    # the mean is rounded to double
    tol = float(s) * eps * 100 + (float(big) * 1e-15)**2 * 64
    if f == VAR:
        return float(s), tol
    return math.sqrt(s), max(math.sqrt(s) * eps * 100, float(big) * 1e-15 * 8)


def agree(g, w, tol):
    if w is None:
        return True
    if w != w:
        return g != g
    if tol == 0 or math.isinf(w):
        return g == w
    return abs(g - w) <= tol * max(1.0, abs(w)) if tol < 1e-3 and tol in (1e-6, 1e-12) else abs(g - w) <= tol


EMPTYBOOL = 'an empty group gives a malformed bool (byte 0x80) for min/max of booleans'


def compare(t, desc, res, fs, groups, vals, d, lo, hi):
    """groups: list of rows per bin; vals: exact python values"""
    for f, r in zip(fs, res):
        o = outtype(f, d)
        if r.dtype.char != o.char and not (r.dtype == o):
            t.fail('%s function %d: result type %s expected %s' % (desc, f, r.dtype, o))
            return
        if o.kind == 'b' and any(x > 1 for x in r.view('u1')[lo:hi].tolist()):
            t.fail('%s function %d: %s' % (desc, f, EMPTYBOOL), 'bool-empty')
            continue
        rl = r.tolist() if o.char != 'g' else [float(x) for x in r]
        for b in range(lo, hi):
            w, tol = ref(f, tuple(vals[i] for i in groups[b]), d)
            if not agree(rl[b], w, tol):
                t.fail('%s function %d: group %d with values %r gives %r, expected %r' % (desc, f, b, [vals[i] for i in groups[b]][:8], rl[b], w))
                return


def rows(g, n):
    r = [[] for _ in range(n)]
    for i, x in enumerate(g):
        if 0 <= x < n:
            r[x].append(i)
    return r


def chk_all(t, a, k, g, vals, nu, lo=1, hi=None, fs=FUN, each=False):
    """nu groups besides group 0"""
    hi = nu + 1 if hi is None else hi
    t.calls += 1
    gr = rows(g, nu + 1)
    d = a.dtype
    r = rc.GroupByAll32([a] * len(fs), k, nu, list(fs), [lo] * len(fs), [hi] * len(fs), 0)
    desc = 'GroupByAll32(values %s %r, groups %r, %d, bins %d..%d)' % (a.dtype, a[:8], k[:8], nu, lo, hi)
    if len(r) != len(fs) or any(len(x) != nu + 1 for x in r):
        t.fail('%s: shapes %r' % (desc, [x.shape for x in r]))
        return
    compare(t, desc, r, fs, gr, vals, d, lo, hi)
    t.outcome(r[0][lo:hi].tobytes()[:32])
    if each:
        for f in fs:
            t.calls += 1
            q = rc.GroupByAll32([a], k, nu, [f], [lo], [hi], 0)
            compare(t, desc + ' alone', q, [f], gr, vals, d, lo, hi)


def arr(ty, vals):
    return np.array(vals, dtype=ty)


def units(tier):
    u = [['all', ty, s] for ty in TYPES for s in range(2)] + [['pack', ty] for ty in TYPES] + [['quant', ty] for ty in TYPES] + [['packdeep', ty] for ty in ('i4', 'f8', 'u1', 'f4')]
    u += [['str', ty] for ty in ('S1', 'S3', 'S8', 'U1', 'U3')] + [['long', ty] for ty in TYPES] + [['longpack', ty] for ty in TYPES] + [['strided'], ['refuse'], ['mixed']]
    return u


def spaces(ty):
    """(alphabet, number of rows)"""
    al = alphabet(ty)
    L = 3
    for n in range(0, L + 1):
        yield al, n
    yield (al if TIER == 'thorough' and ty in ('i1', 'i4', 'f4', 'f8') else al[:3]), 4
    if TIER == 'thorough':
        yield al[:3], 5


def run_all(u, t):
    ty = u[1]
    d = np.dtype(ty)
    c = 0
    for al, n in spaces(ty):
        if n == 0:
            if u[2] == 0 and t.begin((u, 'empty')):
                for k in KT:
                    chk_all(t, arr(ty, []), arr(k, []), [], [], 2)
            continue
        al = [exact(x, d) for x in al]
        for w in itertools.product(range(len(al)), repeat=n):
            if sum(w) % 2 != u[2]:
                continue
            vals = [al[x] for x in w]
            a = arr(ty, vals)
            for g in itertools.product(range(3), repeat=n):
                if n >= 5 and (g[0] != 1 or sum(g) % 2):
                    continue
                c += 1
                if not t.begin((u, n, w, g)):
                    continue
                k = arr(KT[c % 5], g)
                chk_all(t, a, k, g, vals, 3 if c % 2 else 2, c % 3 != 0, each=n <= 2)
                if n <= 2:
                    for lo in range(0, 4):
                        for hi in range(lo, 5):
                            chk_all(t, a, k, g, vals, 3, lo, hi)
                if t.calls < 40 and n == 3:
                    t.sample({'type': ty, 'values': [repr(x) for x in vals], 'groups': g})


def structure(g, n, ix='i4'):
    r = rows(g, n)
    ig = [i for x in r for i in x]
    ig += [0] * (len(g) - len(ig))
    cnt = [len(x) for x in r]
    first = [sum(cnt[:i]) for i in range(n)]
    return np.array(ig, ix), np.array(first, ix), np.array(cnt, ix), r


def ntrim(n):
    nb = 0.0001 * n
    s = math.ceil(nb)
    if nb > 50:
        s = math.ceil(nb + 2.6521 * math.sqrt(nb))
    else:
        p = a = math.exp(-nb)
        i = 0
        while p < 0.996 and i < 100:
            i += 1
            a *= nb / i
            p += a
        s = max(s, i)
    return min(max(s, 1), n)


def isbad(x, d):
    return False if d.kind == 'b' else (x != x) if d.kind == 'f' else x == int(invalid(d))


def refpack(f, par, vals, d):
    inv = math.nan if d.kind == 'f' else False if d.kind == 'b' else int(invalid(d))
    n = len(vals)
    if f == 'first':
        return vals[0] if n else inv
    if f == 'last':
        return vals[-1] if n else inv
    if f == 'nth':
        return vals[par] if -n <= par < n else inv
    v = sorted(x for x in vals if not isbad(x, d))
    n = len(v)
    if f == 'mode':
        return inv if not n else min(v, key=lambda x: (-v.count(x), x))
    if f == 'median':
        if not n:
            return inv
        if n % 2:
            return v[n // 2]
        x, y = v[n // 2], v[n // 2 - 1]
        if d.kind == 'f':
            return (x + y) / 2
        if d.kind == 'b':
            return None
        s = x + y
        return abs(s) // 2 * (1 if s >= 0 else -1)
    if f == 'trim':
        if not n or n <= 2 * ntrim(n):
            return math.nan
        k = ntrim(n)
        w = [x for x in v if v[k - 1] <= x <= v[n - k]]
        m = sum(w) / len(w)
        return m if d.kind == 'f' else None if d.kind == 'b' else float(math.trunc(m))
    nan = par > 10**9
    if not n or (not nan and n < len(vals)):
        return False if d.kind == 'b' else math.nan
    q = (par - (10**9 + 1) if nan else par) / 1e9
    fi = (n - 1) * q
    lo, hi = math.floor(fi), math.ceil(fi)
    if lo == hi:
        return float(v[lo]) if d.kind != 'b' else v[lo]
    if d.kind == 'b':
        return v[lo] or v[hi]
    return v[lo] / 2 + v[hi] / 2 if d.kind != 'f' else (v[lo] + v[hi]) / 2


CODE = {'first': 100, 'nth': 101, 'last': 102, 'median': 103, 'mode': 104, 'trim': 105, 'quant': 106}


def packtype(f, d):
    if f == 'trim':
        return np.dtype('f4') if d.char in 'f?' else np.dtype('f8')
    if f == 'quant':
        return d if d.char in '?fg' else np.dtype('f8')
    return d


def chk_pack(t, a, g, vals, nu, fs, par, ix, lo=0, hi=None, kt='i4', st=None):
    hi = nu + 1 if hi is None else hi
    d = a.dtype
    ig, first, cnt, gr = st or structure(g, nu + 1, ix)
    t.calls += 1
    r = rc.GroupByAllPack32([a] * len(fs), np.asarray(g, kt), ig, first, cnt, nu, [CODE[f] for f in fs], [lo] * len(fs), [hi] * len(fs), par)
    for f, q in zip(fs, r):
        o = packtype(f, d)
        desc = 'GroupByAllPack32 %s(%d) of %s %r, groups %r, bins %d..%d' % (f, par, d, a[:8], list(g[:8]), lo, hi)
        if q.dtype != o or len(q) != nu + 1:
            t.fail('%s: %s[%d] expected %s[%d]' % (desc, q.dtype, len(q), o, nu + 1))
            continue
        ql = q.tolist() if o.char != 'g' else [float(x) for x in q]
        tol = 1e-6 if o.char == 'f' else 1e-12
        for b in range(lo, hi):
            v = tuple(vals[i] for i in gr[b])
            key = (f, par, v, d.char)
            w = MEMO.get(key)
            if w is None:
                w = MEMO[key] = (refpack(f, par, v, d),)
            w = w[0]
            if w is None:
                continue
            if f in ('mode', 'median') and d.kind in 'iu' and any(isbad(x, d) for x in v):
                continue
            x = ql[b]
            if f == 'trim' and d.itemsize == 8 and d.kind in 'iu' and max((abs(z) for z in v), default=0) > 2**50:
                continue
            if not (x == w or (x != x and w != w) or (f in ('trim', 'quant', 'median') and o.kind == 'f' and not math.isinf(w) and abs(x - w) <= tol * max(1, abs(w)))):
                t.fail('%s: group %d with values %r gives %r, expected %r' % (desc, b, list(v)[:8], x, w))
                return
        t.outcome(q[lo:hi].tobytes()[:32])


FIVE = ['first', 'last', 'nth', 'median', 'mode', 'trim']


def pack_alphabet(ty):
    d = np.dtype(ty)
    al = alphabet(ty)
    if d.kind == 'i':
        al = [3, np.iinfo(d).max, int(invalid(d)), np.iinfo(d).min + 1, -2]
    elif d.kind == 'u':
        al = [3, np.iinfo(d).max - 1, int(invalid(d)), 0, 2]
    return [exact(x, d) for x in al]


def run_pack(u, t):
    ty = u[1]
    al = pack_alphabet(ty)
    c = 0
    fs = FIVE
    for n in range(0, 5):
        k = len(al) if n <= 3 else min(3, len(al))
        for w in itertools.product(range(k), repeat=n):
            vals = [al[x] for x in w]
            a = arr(ty, vals)
            for g in itertools.product(range(3), repeat=n):
                if n == 4 and TIER == 'quick' and (sum(w) + sum(g)) % 3:
                    continue
                c += 1
                if not t.begin((u, w, g)):
                    continue
                nu = 2 + c % 2
                for par in ((-3, -2, -1, 0, 1, 2, 100) if n <= 2 else ((0, -1, 1, -2, 2)[c % 5], (-3, 2)[c % 2])):
                    chk_pack(t, a, g, vals, nu, fs, par, ('i4', 'i8', 'q')[c % 3], c % 2, None, KT[c % 5])
                if n == 2:
                    for lo in range(0, 4):
                        for hi in range(lo, 4):
                            chk_pack(t, a, g, vals, 3, fs, 0, 'i4', lo, hi)


QS = [0, 250000000, 333333333, 500000000, 750000000, 900000000, 10**9]


def run_quant(u, t):
    ty = u[1]
    al = pack_alphabet(ty)
    c = 0
    for n in range(0, 5):
        k = len(al) if n <= 3 else min(4, len(al))
        for w in itertools.product(range(k), repeat=n):
            vals = [al[x] for x in w]
            a = arr(ty, vals)
            for g in itertools.product(range(1, 3), repeat=n):
                if n == 4 and TIER == 'quick' and sum(g) % 3:
                    continue
                c += 1
                if not t.begin((u, w, g)):
                    continue
                for q in (QS if n <= 2 else [QS[c % 7], QS[3]]):
                    for nan in (0, 1):
                        chk_pack(t, a, g, vals, 2 + c % 2, ['quant'], q + nan * (10**9 + 1), ('i4', 'i8')[c % 2], c % 2)


def run_packdeep(u, t):
    """one group with more rows"""
    ty = u[1]
    al = pack_alphabet(ty)
    for n in (5, 6, 7) if TIER == 'quick' else (5, 6, 7, 8):
        for w in itertools.product(range(3), repeat=n):
            if n >= 6 and TIER == 'quick' and sum(x * (i + 1) for i, x in enumerate(w)) % 4:
                continue
            if not t.begin((u, w)):
                continue
            vals = [al[(0, 1, 3)[x]] for x in w]
            a = arr(ty, vals)
            g = (1,) * n
            chk_pack(t, a, g, vals, 1, FIVE, sum(w) % n, 'i4', 1)
            for q in QS:
                chk_pack(t, a, g, vals, 1, ['quant'], q, 'i4', 1)


def run_str(u, t):
    ty = u[1]
    d = np.dtype(ty)
    wd = d.itemsize // (4 if d.kind == 'U' else 1)
    al = ['a', 'b' * wd, '', 'é'[:wd] if d.kind == 'U' else 'c' * (wd - 1) + 'd']
    if d.kind == 'S':
        al = [x.encode() for x in al]
    e = '' if d.kind == 'U' else b''
    c = 0
    for n in range(0, 5 if TIER == 'quick' else 6):
        for g in itertools.product(range(3), repeat=n):
            for rot in range(4):
                c += 1
                if not t.begin((u, g, rot)):
                    continue
                vals = [al[(i + rot) % 4] for i in range(n)]
                a = np.array(vals, ty)
                for par in (-2, -1, 0, 1, 3):
                    ig, first, cnt, gr = structure(g, 4, ('i4', 'i8')[c % 2])
                    lo = c % 3
                    t.calls += 1
                    fs = ['first', 'last', 'nth', 'median']
                    r = rc.GroupByAllPack32([a] * 4, np.array(g, 'i4'), ig, first, cnt, 3, [CODE[f] for f in fs], [lo] * 4, [4] * 4, par)
                    for f, q in zip(fs, r):
                        for b in range(lo, 4):
                            v = [vals[i] for i in gr[b]]
                            m = len(v)
                            w = e if f == 'median' or not m else v[0] if f == 'first' else v[-1] if f == 'last' else v[par] if -m <= par < m else e
                            if q.dtype != d or q[b] != w:
                                t.fail('GroupByAllPack32 %s(%d) of %r groups %r: group %d gives %r (%s) expected %r' % (f, par, vals, g, b, q[b], q.dtype, w))
                                break
                    t.outcome(r[0].tobytes()[:32])


LENS = [(16383, 5), (16384, 100), (16385, 100), (32768, 40), (40000, 30000), (3000, 40000), (17000, 16999), (70000, 50)]


def longcase(ty, n, nu):
    d = np.dtype(ty)
    i = np.arange(n)
    g = (i * 7919 + i // 3) % (nu + 1)
    g[g % 11 == 5] = 1
    v = (i * 31 % 17)
    if d.kind == 'b':
        a = (v % 3 == 0)
    elif d.kind == 'f':
        a = (v - 8) * 0.25
        a = a.astype(ty)
        a[(i * 13 % 1009) == 7] = np.nan
    else:
        a = v.astype(ty)
        if d.kind == 'i':
            a = (a - 8).astype(ty)
        a[(i * 13 % 1009) == 7] = invalid(d)
    return a, g


def run_long(u, t):
    ty = u[1]
    d = np.dtype(ty)
    for c, (n, nu) in enumerate(LENS):
        if TIER == 'quick' and c not in (2, 5) and (c + TYPES.index(ty)) % 3:
            continue
        a, g = longcase(ty, n, nu)
        kt = ('i4', 'i8', 'i2')[c % 3] if nu < 32767 else 'i4'
        for lo in (0, 1):
            if not t.begin((u, n, nu, lo)):
                continue
            vals = a.tolist() if ty != 'g' else [float(x) for x in a]
            chk_all(t, a, g.astype(kt), g.tolist(), vals, nu, lo)
            if n == 16385:
                chk_all(t, a, g.astype(kt), g.tolist(), vals, nu, 2, nu // 2, each=True)


def run_longpack(u, t):
    ty = u[1]
    d = np.dtype(ty)
    for c, (n, nu) in enumerate(LENS[1:2] + LENS[3:6] + LENS[7:]):
        if TIER == 'quick' and (c + TYPES.index(ty)) % 5 not in (0, 3):
            continue
        a, g = longcase(ty, n, nu)
        if not t.begin((u, n, nu)):
            continue
        if d.kind in 'iu':
            a = np.where(a == invalid(d), 5, a).astype(ty)
        vals = a.tolist() if ty != 'g' else [float(x) for x in a]
        gl = g.tolist()
        r = rows(gl, nu + 1)
        cnt = np.array([len(x) for x in r], 'i4')
        st = np.array([i for x in r for i in x], 'i4'), (np.cumsum(cnt) - cnt).astype('i4'), cnt, r
        for fs, par in ((FIVE, 1), (FIVE, -2)):
            chk_pack(t, a, gl, vals, nu, fs, par, 'i4', 0, None, 'i4', st)
        for f, par in [(x, 0) for x in FIVE] + [('quant', 5 * 10**8), ('quant', 15 * 10**8 + 1), ('quant', 333333333)]:
            chk_pack(t, a, gl, vals, nu, [f], par, 'i4', 1, None, 'i4', st)


def run_mixed(u, t):
    """columns of different types, functions and ranges in one call"""
    g = [0, 1, 2, 1, 3, 2, 2]
    k = np.array(g, 'i2')
    cols = []
    for ty in TYPES:
        d = np.dtype(ty)
        al = [exact(x, d) for x in alphabet(ty)]
        vals = [al[i % len(al)] for i in range(7)]
        cols.append((arr(ty, vals), vals))
    for rot in range(12):
        for rg in ((0, 4), (1, 4), (1, 3), (2, 2), (3, 4)):
            if not t.begin((u, rot, rg)):
                continue
            fs = [FUN[(i + rot) % 12] for i in range(len(cols))]
            los = [rg[0] if i % 2 else 0 for i in range(len(cols))]
            his = [rg[1] if i % 3 else 4 for i in range(len(cols))]
            t.calls += 1
            r = rc.GroupByAll32([c[0] for c in cols], k, 3, fs, los, his, 0)
            for (a, vals), f, q, lo, hi in zip(cols, fs, r, los, his):
                compare(t, 'GroupByAll32 mixed columns %r' % (fs,), [q], [f], rows(g, 4), vals, a.dtype, lo, hi)
            r = rc.GroupByAll32(tuple(c[0] for c in cols), k, 3, fs, los, his, None)


def run_strided(u, t):
    for st in (2, 3, -1, -2):
        for kt in KT:
            for g in itertools.product(range(3), repeat=4):
                if not t.begin((u, st, kt, g)):
                    continue
                def sv(x, dt):
                    b = np.full(16, 1, dt)
                    v = b[::st][:len(x)]
                    v[:] = x
                    return v
                vals = [1.5, -2.25, 4.0, 0.1]
                a = sv(vals, 'f8')
                chk_all(t, a, sv(g, kt), g, vals, 2)
                s = structure(g, 3)
                s2 = tuple(sv(x, 'i4') for x in s[:3]) + (s[3],)
                chk_pack(t, a, g, vals, 2, FIVE, 0, 'i4', 0, None, kt, s2)


def run_refuse(u, t):
    a, k = np.arange(4.0), np.array([1, 1, 2, 2], 'i4')
    ig, fi, cn = np.arange(4, dtype='i4'), np.array([0, 0, 2], 'i4'), np.array([0, 2, 2], 'i4')
    G, P = rc.GroupByAll32, rc.GroupByAllPack32
    c = {}
    for ty in ('?', 'u1', 'u4', 'u8', 'f8', 'S1', 'U1', 'O'):
        c['key ' + ty] = lambda ty=ty: G([a], k.astype(ty), 2, [0], [0], [3], 0)
        if ty != '?':
            c['group ' + ty] = lambda ty=ty: P([a], k, ig.astype(ty), fi.astype(ty), cn.astype(ty), 2, [100], [0], [3], 0)
    for ty in ('S3', 'U2', 'O', 'F', 'D', 'e'):
        for f in FUN:
            c['value %s %d' % (ty, f)] = lambda ty=ty, f=f: G([a.astype(ty)], k, 2, [f], [0], [3], 0)
        for f in (104, 105, 106):
            c['pack value %s %d' % (ty, f)] = lambda ty=ty, f=f: P([a.astype(ty)], k, ig, fi, cn, 2, [f], [0], [3], 0)
    c['short key'] = lambda: G([a], k[:3], 2, [0], [0], [3], 0)
    c['columns of different lengths'] = lambda: G([a, a[:3]], k, 2, [0, 0], [0, 0], [3, 3], 0)
    c['second column longer'] = lambda: G([a, np.arange(90000.0)], k, 2, [0, 0], [0, 0], [3, 3], 0)
    c['functions'] = lambda: G([a], k, 2, [0, 1], [0], [3], 0)
    c['bins'] = lambda: G([a], k, 2, [0], [0, 1], [3], 0)
    c['unknown function'] = lambda: G([a], k, 2, [7], [0], [3], 0)
    c['2d key'] = lambda: G([a], k.reshape(2, 2), 2, [0], [0], [3], 0)
    c['pack short key'] = lambda: P([a], k[:2], ig, fi, cn, 2, [100], [0], [3], 0)
    c['pack functions'] = lambda: P([a], k, ig, fi, cn, 2, [100, 101], [0], [3], 0)
    c['pack mixed types'] = lambda: P([a], k, ig, fi.astype('i8'), cn, 2, [100], [0], [3], 0)
    c['pack unknown function'] = lambda: P([a], k, ig, fi, cn, 2, [99], [0], [3], 0)
    for nm, f in c.items():
        if not t.begin((u, nm)):
            continue
        t.calls += 1
        try:
            r = f()
        except Exception as e:
            if isinstance(e, SystemError):
                t.fail('%s: %r' % (nm, e))
            continue
        t.fail('%s: accepted, result %r' % (nm, r))


def run_unit(u, t):
    globals()['run_' + u[0]](u, t)
