"""Reductions against a sequential fold: all short arrays over a small alphabet, every position of every special value."""
import itertools, math
import numpy as np
import rcmod
from dp import *

F = {'sum': 0, 'nansum': 1, 'mean': 102, 'nanmean': 103, 'var': 106, 'nanvar': 107, 'std': 108, 'nanstd': 109, 'min': 200, 'nanmin': 201, 'max': 202, 'nanmax': 203,
     'argmin': 204, 'nanargmin': 205, 'argmax': 206, 'nanargmax': 207}
META = {'bounds': '16 reductions x 12 types: every array of length 1..4 (thorough: 5) over an alphabet of 6-8 values (extremes, invalid or NaN, infinities, zeros, ordinary); lengths 1..40 and around the vector block sizes '
                  '(up to 2 blocks + 37) with every special value at every position on three base patterns; aligned, element-offset and misaligned placement; gaps, reversed and n-d layouts; ddof 0..3. Threading off (schedules: T04).',
        'assumptions': ['float sums, means and variances may differ from the exact value by rounding (1e-12 of the sum of magnitudes)', 'sums of 64-bit integers that do not fit are returned as float, as in the source']}
rc = None
FLT = {'f4': [np.nan, -np.inf, np.inf, -1.5, -0.0, 0.0, 2.0, 3e38], 'f8': [np.nan, -np.inf, np.inf, -1.5, -0.0, 0.0, 2.0, 1e300], 'g': [np.nan, -np.inf, np.inf, -1.5, 0.0, 2.0]}


def parent_init(tier):
    rcmod.parent_init(tier)


def child_init():
    global rc
    _, rc = rcmod.load()


def alphabet(ty):
    d = np.dtype(ty)
    if d.kind == 'b':
        return np.array([False, True])
    if d.kind == 'f':
        return np.array(FLT[ty], d)
    lo, hi = int(np.iinfo(d).min), int(np.iinfo(d).max)
    return np.array(sorted({lo, lo + 1, 0, 1, hi - 1, hi} | ({-1} if lo < 0 else {2}) | ({(1 << 53) + 1} if d.itemsize == 8 else set())), d)


I64MIN = -(1 << 63)


def ref(fn, a, ddof=1):
    """-> ('i', int) exact integer, ('f', value, tolerance), ('x', ) ValueError, ('o', total) integer overflow"""
    d = a.dtype
    k = d.kind
    inv = is_inv(a)
    nan = fn.startswith('nan')
    base = fn[3:] if nan else fn
    bad = bool(inv.any())
    v = a[~inv] if nan else a
    if base in ('argmin', 'argmax'):
        if bad and not nan:
            return ('i', int(np.argmax(inv)))
        if not len(v):
            return ('x',)
        t = v.astype('i1') if k == 'b' else v
        i = int(np.argmin(t) if base == 'argmin' else np.argmax(t))
        return ('i', int(np.nonzero(~inv)[0][i]) if nan else i)
    if base in ('min', 'max'):
        if (bad and not nan) or not len(v):
            return ('f', math.nan, 0) if k == 'f' else ('i', int(invalid(d)))
        r = v.min() if base == 'min' else v.max()
        return ('f', float(r), 0) if k == 'f' else ('i', int(r))
    if k != 'f':
        if bad and not nan:
            if base == 'sum':
                return ('i', (1 << 64) - 1 if d.str[1:] == 'u8' else I64MIN)
            return ('f', math.nan, 0)
        tot = sum(v.tolist())
        if base == 'sum':
            lo, hi = (0, (1 << 64) - 1) if d.str[1:] == 'u8' else (I64MIN, (1 << 63) - 1)
            if lo <= tot <= hi:
                return ('i', tot, tot) if lo + 4096 <= tot <= hi - 4096 or lo == 0 and tot < 4096 else ('io', tot)
            return ('io', tot)
    x = v.astype('f8')
    with np.errstate(all='ignore'):
        if np.isfinite(x).all():
            tot = math.fsum(x)
            mag = math.fsum(np.abs(x))
        else:
            tot = float(np.sum(x))
            mag = 1.0
        if base == 'sum':
            return ('f', tot, 1e-12 * mag)
        n = len(x)
        mean = tot / n if n else 0.0
        if base == 'mean':
            return ('f', mean, 1e-12 * mag / max(n, 1))
        if n <= ddof:
            return ('f', math.nan, 0)
        q = x - mean
        s = q * q
        if np.isfinite(s).all() and np.isfinite(x).all():
            if np.abs(x).max() > 1e100:
                return None                      # squares near the overflow limit: no exact expectation
            r = math.fsum(s) / (n - ddof)
            tol = 1e-9 * max(r, 1e-300) + 1e-12 * float(np.abs(x).max()) ** 2
            if base == 'std':
                return ('s', r, tol)
            return ('f', r, tol)
        if not np.isfinite(x).all():
            return ('f', math.nan, 0)
        return None


def call(fn, a, ddof=None):
    try:
        return rc.Reduce(a, F[fn]) if ddof is None else rc.Reduce(a, F[fn], ddof)
    except ValueError:
        return 'ValueError'


def check(t, fn, a, e, ddof=None, may_none=False):
    g = call(fn, a, ddof)
    t.calls += 1
    if e is None:
        return g
    if g is None:
        if not may_none:
            t.fail('None for a supported array')
        return g
    k = e[0]
    if k == 'x':
        ok = g == 'ValueError'
    elif k == 'i':
        ok = type(g) is int and g == e[1]
    elif k == 'io':
        ok = (type(g) is int and g == e[1]) or (type(g) is float and abs(g - e[1]) <= abs(e[1]) * 1e-12)
    else:
        ok = type(g) is float
        if ok:
            if k == 's':
                ok = abs(g * g - e[1]) <= e[2] + 1e-9 * e[1]
            elif math.isnan(e[1]):
                ok = math.isnan(g)
            elif math.isinf(e[1]):
                ok = g == e[1]
            else:
                ok = abs(g - e[1]) <= e[2]
    t.outcome(k)
    if not ok:
        t.fail('got %r, expected %r' % (g, e))
    return g


def patterns(ty, L):
    d = np.dtype(ty)
    i = np.arange(L)
    if d.kind == 'b':
        return [np.zeros(L, bool), np.ones(L, bool), i % 2 == 1]
    yield_ = [((i * 7) % 23 + 3).astype(d), np.full(L, 5, d), (60 - (i * 5) % 51).astype(d)]
    return yield_


def units(tier):
    return [[fn, ty] for fn in F for ty in ALL + ['g']]


def run_unit(u, t):
    fn, ty = u
    al = alphabet(ty)
    d = al.dtype
    deep = fn in ('var', 'std', 'nanvar', 'nanstd')
    for L in range(1, (5 if TIER == 'quick' else 6) if len(al) > 2 else 9):
        if deep and L == 4 and TIER == 'quick' and len(al) > 6:
            continue
        for idx in itertools.product(range(len(al)), repeat=L):
            a = al[list(idx)]
            if t.begin([u, 'short', list(idx)], key=(fn, ty, idx)):
                save = a.tobytes()
                check(t, fn, a, ref(fn, a))
                if a.tobytes() != save:
                    t.fail('input modified')
            if deep and L <= 3:
                for ddof in (0, 2, 3):
                    if t.begin([u, 'short', list(idx), ddof], key=(fn, ty, idx, ddof)):
                        check(t, fn, a, ref(fn, a, ddof), ddof)
    t.sample({'unit': u, 'alphabet': [repr(x) for x in al]})
    chunk = 256 // d.itemsize
    Ls = sorted(set(range(1, 41)) | {chunk - 1, chunk, chunk + 1, chunk + 33, 2 * chunk - 1, 2 * chunk, 2 * chunk + 37} | ({63, 64, 65, 97}))
    specials = list(al)
    for L in Ls:
        for pn, base in enumerate(patterns(ty, L)):
            positions = range(L)
            if L > 100 and pn and TIER == 'quick':
                positions = list(range(0, 36)) + list(range(chunk - 34, min(L, chunk + 34))) + list(range(L - 34, L))
                positions = [p for p in positions if 0 <= p < L]
            for si, s in enumerate(specials):
                for p in positions:
                    if not t.begin([u, 'special', L, pn, si, p], key=(fn, ty, L, pn, si, p)):
                        continue
                    a = base.copy()
                    a[p] = s
                    check(t, fn, a, ref(fn, a))
                    if pn == 0 and L > 1 and si + 1 < len(specials):      # a second special value elsewhere
                        a[(p * 5 + 1) % L] = specials[si + 1]
                        check(t, fn, a, ref(fn, a))
            for s in specials:
                for pl in ('a1', 'a3', 'm1', 'm3'):
                    if t.begin([u, 'placed', L, pn, repr(s), pl]):
                        a = base.copy()
                        a[L // 2] = s
                        x, b = place(a, pl)
                        if al[0] != al[0] or d.kind in 'iu':              # an invalid right outside must not be seen
                            pass
                        check(t, fn, x, ref(fn, a))
    for s in specials:
        for L in (2, 3, 5, 40):
            base = patterns(ty, L)[0]
            base[L // 2] = s
            for st in (2, 3, -1):
                if t.begin([u, 'stride', L, st, repr(s)]):
                    big = np.full(L * abs(st), al[0], d)
                    v = big[::st] if st > 0 else big[::-1]
                    v[:] = base
                    check(t, fn, v, ref(fn, base), may_none=True)
        for shape in ((2, 3), (3, 2), (1, 6), (6, 1), (2, 2, 3), (5, 8)):
            m = int(np.prod(shape))
            base = patterns(ty, m)[0]
            base[m // 2] = s
            e = ref(fn, base)
            for o in 'CF':
                if t.begin([u, 'nd', shape, o, repr(s)]):
                    check(t, fn, np.array(base.reshape(shape), order=o), e, may_none=True)
                for gap in range(len(shape)):
                    if t.begin([u, 'nd gap', shape, o, gap, repr(s)]):
                        big = list(shape)
                        big[gap] *= 2
                        b = np.full(big, al[0], d, order=o)
                        v = b[tuple(slice(None, None, 2) if q == gap else slice(None) for q in range(len(shape)))]
                        v[...] = base.reshape(shape)
                        check(t, fn, v, e, may_none=True)
        if t.begin([u, '0d', repr(s)]):
            a = np.array([s], d)
            check(t, fn, a.reshape(()), ref(fn, a), may_none=True)
    if t.begin([u, 'empty']):
        if call(fn, np.zeros(0, d)) not in (None, 'ValueError'):
            t.fail('a result for an empty array')


TIER = 'quick'


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier)
