"""Running, rolling and time-window functions against row-by-row definitions."""
import itertools, math
import numpy as np
import rcmod
from dp import *

META = {'bounds': 'cumsum, cumprod, nth, cummin/cummax with and without nan-skipping, ema decay/normal/weighted: every sequence of 5 values (extremes, invalid, NaN, infinities) and of group numbers {0,1,2} (and negative ones) for <= 2 rows with every filter and reset mask, of 3 values for 3 rows (thorough 4 rows) with rotating pairs of masks, '
                  '14 value types, 5 group types, 5 time types, rising and falling times; rolling sum, mean, variance, deviation with and without nan-skipping and quantiles 0, 1/4, 1/3, 1/2, 0.9, 1: every sequence of 3 to 5 values of <= 5 rows (thorough 6; quantiles 6 and 7) and every window from 0 to beyond the length; '
                  'the same per group (functions 200-207) for every assignment of <= 4 rows to 3 groups, windows up to 2**40, negative shifts; time windows: all time steps {0,1,2,-1} of <= 5 rows, all distances; interpolation: all positions relative to 2..4 knots; strided arguments, refused calls, long arrays over chunk limits',
        'assumptions': ['the forms that do not skip invalid values treat integer invalids as values, and floats follow the running recurrence: once a NaN or infinity entered, the running value stays NaN', 'an excluded row does not advance cumulative functions; in ema decay and ema weighted it counts as value 0, in ema normal it repeats the last value without a reset mask (and leaves the state with one)', 'the variance without nan-skipping is the sample variance; variances after an infinity are not specified', 'tolerance 1e-9 relative (1e-5 for float32)']}
rc = None
TIER = 'quick'
TYPES = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'q', 'Q', 'f4', 'f8', 'g']
KT = ['i1', 'i2', 'i4', 'i8', 'q']
CUMSUM, DECAY, CUMPROD, NTH, NORMAL, WEIGHTED, NANMAX, NANMIN, MAX, MIN = range(300, 310)


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier)


def child_init():
    global rc
    _, rc = rcmod.load()


def alphabet(ty):
    d = np.dtype(ty)
    if d.kind == 'b':
        return [True, False]
    if d.kind == 'f':
        return [1.5, math.nan, -2.25, math.inf, 0.0]
    i = np.iinfo(d)
    inv = int(invalid(d))
    return [3, inv, i.max - 1 if d.kind == 'u' else i.max, 0, 7 if d.kind == 'u' else i.min + 1]


def isbad(x, d):
    return False if d.kind == 'b' else (x != x) if d.kind == 'f' else x == int(invalid(d))


def wrap(x, o):
    if o.kind == 'f':
        return float(np.float32(x)) if o.char == 'f' else float(x)
    b = 8 * o.itemsize
    x = int(x) % (1 << b)
    return x - (1 << b) if o.kind == 'i' and x >> (b - 1) else x


def fmul(a, b):
    return a * b


def cumtype(f, d):
    if f == NTH:
        return np.dtype('i4')
    if f in (DECAY, NORMAL, WEIGHTED):
        return np.dtype('f8')
    if f in (NANMAX, NANMIN, MAX, MIN):
        return d
    return d if d.kind == 'f' else np.dtype('u8') if d.kind == 'u' else np.dtype('i8')


def ex(x):
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf


UNSEEN = object()


def refcum(f, vals, key, inc, res, tm, rate, d, tt=None):
    o = cumtype(f, d)
    inv = math.nan if o.kind == 'f' else None if o.kind == 'b' else int(invalid(o))
    st, last, lastv, out = {}, {}, {}, []
    for i, k in enumerate(key):
        if k < 1:
            out.append(0 if f == NTH else inv)
            continue
        on = inc is None or inc[i]
        rs = res is not None and res[i]
        x = vals[i]
        if f == NTH:
            if on:
                st[k] = st.get(k, 0) + 1
                out.append(st[k])
            else:
                out.append(0)
            continue
        if f in (CUMSUM, CUMPROD):
            z = 0 if f == CUMSUM else 1
            s = st.get(k, z)
            if on:
                if rs:
                    s = z
                s = wrap(s + x if f == CUMSUM else s * x, o)
            st[k] = s
            out.append(s)
            continue
        if f in (NANMAX, NANMIN, MAX, MIN):
            s = st.get(k, UNSEEN)
            if on:
                if s is UNSEEN or rs:
                    if f in (MAX, MIN) or rs or not isbad(x, d):
                        s = x
                elif f in (NANMAX, NANMIN):
                    if not isbad(x, d) and (isbad(s, d) or (x > s if f == NANMAX else x < s)):
                        s = x
                elif not isbad(s, d) and (isbad(x, d) or (x > s if f == MAX else x < s)):
                    s = x
            st[k] = s
            out.append(inv if s is UNSEEN else s)
            continue
        x = float(x)
        if f == DECAY:
            if not on:
                x = 0.0
            if rs and on:
                st[k] = 0.0
                last[k] = 0
            t0 = last.get(k, 0)
            w = ex(-rate * (tm[i] - t0))
            st[k] = x + st.get(k, 0.0) * w if st.get(k, 0.0) * w == st.get(k, 0.0) * w else math.nan
            last[k] = tm[i]
        elif f == NORMAL:
            if k not in st:
                st[k] = next(float(vals[j]) for j in range(len(key)) if key[j] == k)
            if not on and res is not None:
                out.append(st[k])
                continue
            if not on:
                x = lastv.get(k, 0.0)
            if rs:
                st[k] = 0.0
                last[k] = 0
            if k in last:
                dlt = tm[i] - last[k]
                w = 0.0 if dlt < 0 else ex(-rate * dlt)
            else:
                w = 0.0
            st[k] = x * (1 - w) + st[k] * w
            last[k] = tm[i]
            if res is None:
                lastv[k] = x
        else:
            if k not in st:
                st[k] = next(float(vals[j]) for j in range(len(key)) if key[j] == k)
            if not on:
                x = 0.0
            if rs and on:
                st[k] = 0.0
            st[k] = x * (1 - rate) + st[k] * rate
        out.append(st[k])
    return out, o


def same(g, w, tol):
    if w != w:
        return g != g
    if g == w:
        return True
    if not tol or math.isinf(w) or g != g:
        return False
    return abs(g - w) <= tol * max(1.0, abs(w))


def tolist(r):
    return [float(x) for x in r] if r.dtype.char == 'g' else r.tolist()


def check(t, desc, r, w, o, tol=0.0, key=None):
    if r is None or r.dtype != o or len(r) != len(w):
        t.fail('%s: %s expected %s[%d]' % (desc, 'None' if r is None else '%s[%d]' % (r.dtype, len(r)), o, len(w)))
        return
    if o.kind == 'b':
        raw = r.view('u1').tolist()
        bad = [i for i, x in enumerate(raw) if x > 1]
        if bad and all(w[i] is None for i in bad):
            t.fail('%s: rows %r are no valid bool (%r)' % (desc, bad[:8], raw[bad[0]]), 'bool-empty')
        elif bad:
            t.fail('%s: rows %r are no valid bool (%r)' % (desc, bad[:8], raw[bad[0]]))
            return
    g = tolist(r)
    for i, (x, y) in enumerate(zip(g, w)):
        if y is None:
            continue
        if not same(x, y, tol):
            t.fail('%s: row %d gives %r, expected %r' % (desc, i, x, y), key)
            return
    t.outcome(repr(g[:8]))


CUM = [CUMSUM, CUMPROD, NTH, NANMAX, NANMIN, MAX, MIN]
TT = ['i4', 'i8', 'f4', 'f8', 'g', 'u4', 'u8', 'q']


def bools(n):
    yield None
    for b in itertools.product((False, True), repeat=n):
        yield b


def chk_cum(t, a, vals, k, key, inc, res, nu, fs=CUM):
    d = a.dtype
    bi = None if inc is None else np.array(inc, bool)
    br = None if res is None else np.array(res, bool)
    for f in fs:
        t.calls += 1
        r = rc.EmaAll32([a], k, nu, f, (1.0, None, bi, br))
        w, o = refcum(f, vals, key, inc, res, None, None, d)
        if f == CUMPROD and o.char == 'g':
            w = [x if abs(x) < 1e300 else None for x in w]
        check(t, 'EmaAll32 function %d of %s %r, groups %r, filter %r, reset %r' % (f, d, a[:8], list(key[:8]), inc and inc[:8], res and res[:8]), r[0], w, o)


def chk_ema(t, a, vals, k, key, inc, res, nu, f, tm, tt, rate):
    d = a.dtype
    bi = None if inc is None else np.array(inc, bool)
    br = None if res is None else np.array(res, bool)
    t.calls += 1
    r = rc.EmaAll32([a], k, nu, f, (rate, np.array(tm, tt), bi, br))
    w, o = refcum(f, vals, key, inc, res, tm, rate, d)
    check(t, 'EmaAll32 function %d rate %r of %s %r, groups %r, times %s %r, filter %r, reset %r' % (f, rate, d, a[:8], list(key[:8]), tt, list(tm[:8]), inc and inc[:8], res and res[:8]), r[0], w, o, 1e-12 * max([1.0] + [abs(float(x)) for x in vals if math.isfinite(x)]))


def run_cum(u, t):
    ty, half = u[1], u[2]
    d = np.dtype(ty)
    al = alphabet(ty)
    c = 0
    for n in range(0, 3):
        for w in itertools.product(range(len(al)), repeat=n):
            if (sum(w) & 1) != half:
                continue
            vals = [al[x] for x in w]
            a = np.array(vals, ty)
            for key in itertools.product((0, 1, 2, -1) if n < 2 else (0, 1, 2), repeat=n):
                for inc in bools(n):
                    for res in bools(n):
                        c += 1
                        if t.begin((u, w, key, inc, res)):
                            chk_cum(t, a, vals, np.array(key, KT[c % 5]), key, inc, res, 2 + c % 2)
    for n in (3,) if TIER == 'quick' else (3, 4):
        B = list(bools(n))
        for w in itertools.product(range(min(3, len(al))), repeat=n):
            if (sum(w) & 1) != half:
                continue
            vals = [al[x] for x in w]
            a = np.array(vals, ty)
            for key in itertools.product(range(3), repeat=n):
                if n == 4 and key[0] == 2:
                    continue
                for rot in range(3):
                    c += 1
                    inc, res = B[(c * 5 + rot * 3) % len(B)], B[(c // 7 + rot * 5) % len(B)]
                    if t.begin((u, w, key, inc, res)):
                        chk_cum(t, a, vals, np.array(key, KT[c % 5]), key, inc, res, 2)


TIMES = {2: [(0, 0), (1, 3), (3, 1)], 1: [(0,), (2,)], 3: [(0, 1, 1), (1, 2, 4), (2, 0, 3), (4, 3, 1)], 0: [()]}


def run_ema(u, t):
    ty = u[1]
    d = np.dtype(ty)
    al = [x for x in alphabet(ty) if not (isinstance(x, float) and x != x)]
    c = 0
    for n in range(0, 4):
        for w in itertools.product(range(min(len(al), 4 if n < 3 else 2)), repeat=n):
            vals = [al[x] for x in w]
            a = np.array(vals, ty)
            for key in itertools.product((0, 1, 2) if n else (0,), repeat=n):
                B = list(bools(n))
                for inc in B:
                    for res in B:
                        c += 1
                        if n == 2 and c % 2 and TIER == 'quick':
                            continue
                        if n == 3 and (c + len(B) * c // 3) % (9 if TIER == 'quick' else 2):
                            continue
                        if not t.begin((u, w, key, inc, res)):
                            continue
                        k = np.array(key, KT[c % 5])
                        tt = TT[c % 8]
                        for tm in TIMES[n]:
                            for f in (DECAY, NORMAL, WEIGHTED):
                                if f == DECAY and tt[0] == 'u' and list(tm) != sorted(tm):
                                    continue
                                if f == DECAY and any(isinstance(x, float) and math.isinf(x) for x in vals):
                                    continue
                                chk_ema(t, a, vals, k, key, inc, res, 2, f, tm, tt, (0.5, 1.0, 0.25)[c % 3])


# ---------------------------------------------------------------- rolling

def rtype(f, d):
    if f >= 100:
        return d if d.kind == 'f' else np.dtype('f8')
    return d if d.kind == 'f' else np.dtype('i8')


def refroll(f, vals, w, d):
    o = rtype(f, d)
    isf = d.kind == 'f'
    out = []
    skip = f in (1, 103, 107, 109)
    run = 0.0
    poison = False
    for i in range(len(vals)):
        win = vals[max(0, i + 1 - w):i + 1] if w else []
        x = vals[i]
        if isf and (x != x or math.isinf(x)) and not (skip and x != x):
            poison = True
        v = [y for y in win if not isbad(y, d)] if skip else win
        if isf and poison:
            # running recurrence: an infinity stays until it leaves the window, then NaN; a NaN stays
            seen = [y for y in vals[:i + 1] if y != y or math.isinf(y)]
            if skip:
                seen = [y for y in seen if y == y]
            gone = [y for y in vals[:i + 1 - len(win)] if (y != y and not skip) or math.isinf(y)]
            if f in (106, 107, 108, 109) or any(y != y for y in seen) or gone:
                s = math.nan
            else:
                s = sum(v)
        else:
            s = sum(v) if not isf else math.fsum(v)
        if f in (0, 1):
            out.append(wrap(s, o) if o.kind != 'f' else s)
        elif f in (102, 103):
            n = len(v)
            out.append(s / n if n else math.nan)
        else:
            if isf and poison:
                out.append(None if any(math.isinf(y) for y in vals[:i + 1]) else math.nan)
                continue
            n = len(v)
            dd = n if skip else n - 1
            if n == 0 or dd <= 0:
                out.append(math.nan)
                continue
            m = sum(v) / n
            q = sum((y - m)**2 for y in v) / dd
            out.append(q if f in (106, 107) else math.sqrt(q))
    return out, o


def refquant(vals, q, w, d):
    o = rtype(104, d)
    out = []
    for i in range(len(vals)):
        v = sorted(y for y in vals[max(0, i + 1 - w):i + 1] if not isbad(y, d))
        n = len(v)
        if not n:
            out.append(math.nan)
            continue
        ix = (n - 1) * q
        fr = ix - math.floor(ix)
        if fr < 1e-3 or fr > 1 - 1e-3:
            out.append(float(v[round(ix)]))
        else:
            out.append((v[math.floor(ix)] + v[math.floor(ix) + 1]) / 2)
    return out, o


def roll_alphabet(ty):
    d = np.dtype(ty)
    if d.kind == 'b':
        return [True, False]
    if d.kind == 'f':
        return [1.5, math.nan, -2.25, 0.5, math.inf]
    inv = int(invalid(d))
    return [3, inv, 5, 0 if d.kind == 'u' else -7, np.iinfo(d).max - 1]


ROLL = [0, 1, 102, 103, 106, 107, 108, 109]


def chk_roll(t, a, vals, w, fs=ROLL):
    d = a.dtype
    for f in fs:
        if f in (106, 107, 108, 109, 102, 103) and d.itemsize == 8 and d.kind in 'iu' and any(abs(x) > 2**50 and not (f in (103, 107, 109) and isbad(x, d)) for x in vals):
            continue
        if f in (106, 107, 108, 109) and d.char == 'f' or d.kind in 'iu' and f >= 106 and any(abs(x) > 2**15 and not (f in (107, 109) and isbad(x, d)) for x in vals):
            if d.char != 'f':
                continue
        t.calls += 1
        r = rc.Rolling(a, f, w)
        ww, o = refroll(f, vals, w, d)
        desc = 'Rolling(%d, window %d) of %s %r' % (f, w, d, a[:8])
        tol = 0 if f in (0, 1) else 1e-5 if o.char == 'f' else 1e-9
        if f >= 106:
            M = max([1.0] + [abs(float(x)) for x in vals if math.isfinite(x) and not (f in (107, 109) and isbad(x, d))])
            # a deviation of zero is reached only up to the square root of the rounding
            tol = (1e-4 if o.char == 'f' else 1e-11) * M * M if f in (106, 107) else (1e-2 if o.char == 'f' else 1e-6) * M
        if f in (108, 106):
            if r is not None and r.dtype == o and len(r) == len(ww):
                # rows beyond the first full window
                g = tolist(r)
                fac = (w - 1) / w if w else 1
                for i in range(w, len(ww)):
                    if ww[i] is None:
                        continue
                    p = ww[i] * (fac if f == 106 else math.sqrt(fac)) if ww[i] == ww[i] else 0.0 if w == 1 and all(math.isfinite(x) for x in vals[:i + 1]) else math.nan
                    if same(g[i], p, tol) and not same(g[i], ww[i], tol):
                        t.fail('%s: row %d gives %r, the population and not the sample variance %r' % (desc, i, g[i], ww[i]), 'rollingvar-ddof')
                        ww[i] = None
        check(t, desc, r, ww, o, tol)


def run_roll(u, t):
    ty = u[1]
    al = roll_alphabet(ty)
    for n in range(0, 6 if TIER == 'quick' else 7):
        m = len(al) if n <= 3 else min(4 if TIER == 'thorough' and n < 6 else 3, len(al))
        for w in itertools.product(range(m), repeat=n):
            if not t.begin((u, w)):
                continue
            vals = [al[x] for x in w]
            a = np.array(vals, ty)
            for win in list(range(0, n + 2)) + ([2**40] if n < 3 else []):
                chk_roll(t, a, vals, win)


QS = [0, 250000000, 333333333, 500000000, 900000000, 10**9]


def run_rquant(u, t):
    ty = u[1]
    al = roll_alphabet(ty)
    if len(al) > 4:
        al = [al[0], al[1], al[2], al[3]]
    d = np.dtype(ty)
    for n in range(0, 7 if TIER == 'quick' else 8):
        m = len(al) if n <= 4 else min(3, len(al))
        for w in itertools.product(range(m), repeat=n):
            if n >= 6 and ty not in ('f8', 'i4') and sum(x * (i + 2) for i, x in enumerate(w)) % 4:
                continue
            if n == 7 and sum(x * (i + 2) for i, x in enumerate(w)) % 2:
                continue
            if not t.begin((u, w)):
                continue
            vals = [al[x] for x in w]
            a = np.array(vals, ty)
            for win in range(1, n + 2):
                for qi, q in enumerate(QS):
                    if n >= 5 and (qi + win + sum(w)) % 3:
                        continue
                    t.calls += 1
                    r = rc.Rolling(a, 104, q + win * (10**9 + 1))
                    ww, o = refquant(vals, q / 1e9, win, d)
                    check(t, 'Rolling quantile %r window %d of %s %r' % (q / 1e9, win, d, a), r, ww, o, 1e-6 if o.char == 'f' else 1e-12)


# ---------------------------------------------------------------- per group

def gtype(f, d):
    if f in (200, 201):
        return d if d.kind == 'f' else np.dtype('i8')
    if f in (202, 203):
        return d
    if f == 204:
        return np.dtype('i4')
    return np.dtype('f8')


def refgroup(f, vals, g, w, d):
    o = gtype(f, d)
    inv = math.nan if o.kind == 'f' else False if o.kind == 'b' else None if o.kind in 'SU' else int(invalid(o))
    if d.kind in 'SU':
        inv = b'' if d.kind == 'S' else ''
    out = [inv] * len(vals)
    for b in set(g):
        if b == 0:
            continue
        rows = [i for i in range(len(g)) if g[i] == b]
        v = [vals[i] for i in rows]
        if f in (200, 201):
            x, _ = refroll(f - 200, v, w, d)
        elif f == 205:
            x = [float(z) for z in refroll(102, v, w, d)[0]]
        elif f == 206:
            x = [float(z) for z in refroll(103, v, w, d)[0]]
        elif f == 207:
            x, _ = refquant(v, w % (10**9 + 1) / 1e9, w // (10**9 + 1), d)
        elif f == 204:
            x = list(range(len(v))) if w >= 0 else list(range(len(v)))[::-1]
        else:
            x = []
            for i in range(len(v)):
                j = i - w
                if not 0 <= j < len(v):
                    x.append(inv)
                elif f == 203:
                    x.append(v[j])
                else:
                    x.append(wrap(v[i] - v[j], o))
        for i, z in zip(rows, x):
            out[i] = z
    return out, o


def structure(g, n, ix):
    r = [[i for i in range(len(g)) if g[i] == b] for b in range(n)]
    cnt = [len(x) for x in r]
    return np.array([i for x in r for i in x], ix), np.array([sum(cnt[:i]) for i in range(n)], ix), np.array(cnt, ix)


def chk_group(t, a, vals, g, k, w, ix, fs, nu=2, st=None):
    d = a.dtype
    ig, fi, cn = st or structure(g, nu + 1, ix)
    for f in fs:
        if f == 204 and d.kind != 'i' or f in (205, 206, 207, 202) and d.kind == 'b' or f != 203 and d.kind in 'SU':
            continue
        if f in (205, 206) and d.itemsize == 8 and d.kind in 'iu' and any(abs(x) > 2**50 and not (f == 206 and isbad(x, d)) for x in vals):
            continue
        if f == 202 and d.kind == 'f' and any(math.isinf(x) for x in vals):
            continue
        ww = w if f != 207 else (250000000, 500000000, 10**9)[len(g) % 3] + abs(w) * (10**9 + 1)
        if f in (200, 201, 205, 206) and w < 0 or f == 207 and (w <= 0 or w > 100):
            continue
        t.calls += 1
        r = rc.GroupByAllPack32([a], k, ig, fi, cn, nu, [f], [0], [nu + 1], ww)
        x, o = refgroup(f, vals, g, ww, d)
        check(t, 'GroupByAllPack32 function %d window %d of %s %r, groups %r' % (f, ww, d, a[:8], list(g[:8])), r[0], x, o, 0 if f < 205 else 1e-6 if d.char == 'f' else 1e-12)


def run_group(u, t):
    ty = u[1]
    al = roll_alphabet(ty)
    c = 0
    for n in range(0, 5):
        m = len(al) if n <= 2 else min(4, len(al)) if n == 3 or TIER == 'thorough' else min(3, len(al))
        for w in itertools.product(range(m), repeat=n):
            vals = [al[x] for x in w]
            a = np.array(vals, ty)
            for g in itertools.product(range(3), repeat=n):
                if n == 4 and TIER == 'quick' and (sum(w) + sum(g)) % 6:
                    continue
                c += 1
                if not t.begin((u, w, g)):
                    continue
                k = np.array(g, KT[c % 5])
                for win in ((0, 1, 2, -1, 3, -2, 2**31, 2**40, -2**31, 2**31 - 1) if n <= 2 else ((0, 1, 2, 3, -1, -2, 2**31 + 1)[c % 7], (2, 1, -1)[c % 3])):
                    chk_group(t, a, vals, g, k, win, ('i4', 'i8', 'q')[c % 3], range(200, 208))


def run_gstr(u, t):
    ty = u[1]
    al = [b'a', b'xyz'[:np.dtype(ty).itemsize]] if ty[0] == 'S' else ['a', 'xé'[:np.dtype(ty).itemsize // 4]]
    c = 0
    for n in range(0, 5):
        for g in itertools.product(range(3), repeat=n):
            for win in (0, 1, 2, -1, -2, 5):
                c += 1
                if t.begin((u, g, win)):
                    vals = [al[(i + c) % 2] for i in range(n)]
                    chk_group(t, np.array(vals, ty), vals, g, np.array(g, 'i4'), win, ('i4', 'i8')[c % 2], [203])


# ---------------------------------------------------------------- time windows

def reftw(f, vals, tm, dist, d):
    o = cumtype(CUMSUM, d)
    out = []
    for i in range(len(vals)):
        s = vals[i]
        s = int(s) if d.kind == 'b' else s
        j = i - 1
        while j >= 0 and tm[i] - tm[j] <= dist:
            s = wrap(s + vals[j] if f == 0 else s * vals[j], o)
            j -= 1
        out.append(s)
    return out, o


def run_tw(u, t):
    ty = u[1]
    d = np.dtype(ty)
    al = alphabet(ty)
    c = 0
    for n in range(0, 6):
        for steps in itertools.product((0, 1, 2, -1), repeat=max(n - 1, 0)):
            tm = [5]
            for s in steps:
                tm.append(tm[-1] + s)
            tm = tm[:n]
            for w in itertools.product(range(len(al)), repeat=n) if n <= 2 else [tuple((i * (r + 1) + r) % len(al) for i in range(n)) for r in range(3)]:
                c += 1
                if not t.begin((u, steps, w)):
                    continue
                vals = [al[x] for x in w]
                a = np.array(vals, ty)
                for dist in range(-1, 2 * n + 1):
                    for f in (0, 1):
                        t.calls += 1
                        r = rc.TimeWindow(a, np.array(tm, 'i8' if c % 2 else 'q'), f, dist)
                        x, o = reftw(f, vals, tm, dist, d)
                        check(t, 'TimeWindow(%d, %d) of %s %r at %r' % (f, dist, d, a, tm), r, x, o, 1e-6 if o.char == 'f' else 0)


def refint(x, xp, yp, clip):
    out = []
    for v in x:
        if v != v:
            out.append(math.nan)
            continue
        M = len(xp)
        if v <= xp[0]:
            out.append(yp[0] if clip else yp[0] + (yp[1] - yp[0]) / (xp[1] - xp[0]) * (v - xp[0]))
        elif v > xp[-1]:
            out.append(yp[-1] if clip else yp[-1] + (yp[-1] - yp[-2]) / (xp[-1] - xp[-2]) * (v - xp[-1]))
        else:
            j = next(j for j in range(1, M) if v <= xp[j])
            out.append((yp[j] - yp[j - 1]) * (v - xp[j - 1]) / (xp[j] - xp[j - 1]) + yp[j - 1])
    return out


def run_interp(u, t):
    ty = u[1]
    tol = 1e-5 if ty == 'f4' else 1e-12
    for M in (2, 3, 4):
        for gaps in itertools.product((1, 0.5, 2), repeat=M - 1):
            xp = [-1.0]
            for g in gaps:
                xp.append(xp[-1] + g)
            pos = [xp[0] - 1, xp[-1] + 1.5, math.nan] + xp + [(xp[i] + xp[i + 1]) / 2 for i in range(M - 1)]
            for ys in itertools.product((0.0, 2.0, -1.5), repeat=M):
                if not t.begin((u, gaps, ys)):
                    continue
                for clip in (0, 1):
                    t.calls += 2
                    r = rc.InterpExtrap2d(np.array(pos, ty), np.array(xp, ty), np.array(ys, ty), clip)
                    w = refint(pos, xp, ys, clip)
                    check(t, 'InterpExtrap2d(%r, %r, clip %d)' % (xp, ys, clip), r, w, np.dtype(ty), tol)
                    X = np.array([[z + i for z in xp] for i in range(len(pos))], ty)
                    Y = np.array([[z * (i + 1) for z in ys] for i in range(len(pos))], ty)
                    r = rc.InterpExtrap2d(np.array(pos, ty), X, Y, clip)
                    w = [refint([p], [z + i for z in xp], [z * (i + 1) for z in ys], clip)[0] for i, p in enumerate(pos)]
                    check(t, 'InterpExtrap2d 2d(%r, %r, clip %d)' % (xp, ys, clip), r, w, np.dtype(ty), tol)


# ---------------------------------------------------------------- long, strided, refused

def run_long(u, t):
    ty = u[1]
    d = np.dtype(ty)
    for n in (1000, 16385, 33000, 70000):
        if n == 70000 and TIER == 'quick' and ty not in ('i4', 'f8'):
            continue
        if not t.begin((u, n)):
            continue
        i = np.arange(n)
        v = (i * 31 % 17) - (0 if d.kind in 'bu' else 8)
        a = (v % 3 == 0) if d.kind == 'b' else (v * 0.25).astype(ty) if d.kind == 'f' else v.astype(ty)
        vals = tolist(a)
        g = ((i * 7919 + i // 3) % 6).tolist()
        k = np.array(g, 'i4')
        chk_cum(t, a, vals, k, g, None, None, 5, [CUMSUM, NTH, MAX, NANMIN])
        inc, res = (i % 5 != 2).tolist(), (i % 101 == 0).tolist()
        chk_cum(t, a, vals, k, g, inc, res, 5, [CUMSUM, MIN, NANMAX])
        if n <= 16385:
            for w in (1, 3, 10):
                chk_roll(t, a, vals, w, [0, 1, 102, 103, 107] if ty != 'f4' else [0, 1, 102, 103])
                r = rc.Rolling(a, 104, 5 * 10**8 + (w + 1) * (10**9 + 1))
                ww, o = refquant(vals, 0.5, w + 1, d)
                check(t, 'Rolling median window %d of %d rows' % (w + 1, n), r, ww, o, 1e-6)
        r = [[j for j in range(n) if g[j] == b] for b in range(6)]
        cnt = np.array([len(x) for x in r], 'i4')
        st = np.array([j for x in r for j in x], 'i4'), (np.cumsum(cnt) - cnt).astype('i4'), cnt
        for w in (1, 3, -2):
            chk_group(t, a, vals, g, k, w, 'i4', range(200, 207 if n > 16385 else 208), 5, st)
        tm = (i // 3).tolist()
        for dist in (0, 2):
            t.calls += 1
            q = rc.TimeWindow(a, np.array(tm, 'i8'), 0, dist)
            x, o = reftw(0, vals, tm, dist, d)
            check(t, 'TimeWindow of %d rows' % n, q, x, o)
        if ty in ('f4', 'f8'):
            x = v * 0.37
            xp, yp = [-3.0, -1, 0, 1.5], [1.0, 2, -1, 4]
            t.calls += 2
            check(t, 'InterpExtrap2d %d' % n, rc.InterpExtrap2d(x.astype(ty), np.array(xp, ty), np.array(yp, ty), 0), refint(tolist(x.astype(ty)), xp, yp, 0), d, 1e-5)
            X, Y = np.array([xp] * n, ty), (np.array([yp] * n, ty) + (i % 7)[:, None]).astype(ty)
            w = [refint([p], xp, [y + j % 7 for y in yp], 0)[0] for j, p in enumerate(tolist(x.astype(ty)))]
            check(t, 'InterpExtrap2d 2d %d' % n, rc.InterpExtrap2d(x.astype(ty), X, Y, 0), w, d, 1e-5)


def run_strided(u, t):
    for st in (2, 3, -1, -2):
        for sel in range(16):
            if not t.begin((u, st, sel)):
                continue

            def sv(x, dt, on=True):
                b = np.full(3 * len(x), 1, dt)
                v = b[::st][:len(x)]
                v[:] = x
                return v if on else np.array(x, dt)
            vals = [1.5, -2.25, 4.0, 0.5, 3.0]
            key = [1, 2, 1, 0, 1]
            inc, res = [True, True, True, False, False], [False, False, True, False, False]
            tm = [1, 2, 3, 4, 6]
            a = sv(vals, 'f8', sel & 1)
            k = sv(key, 'i4', sel & 2)
            bi, br = sv(inc, bool, sel & 4), sv(res, bool, sel & 8)
            for f in CUM + [DECAY, NORMAL, WEIGHTED]:
                for tt in ('i8', 'f8'):
                    t.calls += 1
                    r = rc.EmaAll32([a], k, 2, f, (0.5, sv(tm, tt, sel & 4), bi, br))
                    w, o = refcum(f, vals, key, inc, res, tm, 0.5, a.dtype)
                    check(t, 'EmaAll32 %d strided %d %d' % (f, st, sel), r[0], w, o, 1e-9)
            chk_roll(t, a, vals, 2, [0, 1, 102, 103])
            for dist in (0, 1, 2):
                r = rc.TimeWindow(a, sv(tm, 'i8', sel & 2), 0, dist)
                x, o = reftw(0, vals, tm, dist, a.dtype)
                check(t, 'TimeWindow strided %d %d' % (st, sel), r, x, o)
            xp, yp = [0.0, 1.0, 3.0], [1.0, 5.0, 2.0]
            check(t, 'InterpExtrap2d strided', rc.InterpExtrap2d(a, np.array(xp), np.array(yp), 0), refint(vals, xp, yp, 0), a.dtype, 1e-12)
            s = structure(key, 3, 'i4')
            s2 = tuple(sv(x, 'i4', sel & 4) for x in s)
            chk_group(t, a, vals, key, k, 1, 'i4', range(200, 208), 2, s2)
            ii = sv([3, -1, 4, 0, 5], 'i4', sel & 1)
            chk_group(t, ii, [3, -1, 4, 0, 5], key, k, -1, 'i4', range(200, 208), 2, s2)


def run_refuse(u, t):
    a, k = np.arange(4.0), np.array([1, 1, 2, 2], 'i4')
    m = np.ones(4, bool)
    ig, fi, cn = np.arange(4, dtype='i4'), np.array([0, 0, 2], 'i4'), np.array([0, 2, 2], 'i4')
    E, R, W, I, P = rc.EmaAll32, rc.Rolling, rc.TimeWindow, rc.InterpExtrap2d, rc.GroupByAllPack32
    tm = np.arange(4)
    c = {}
    for ty in ('?', 'u1', 'u4', 'f8', 'S1', 'O'):
        c['key ' + ty] = lambda ty=ty: E([a], k.astype(ty), 2, 300, (1.0, None, None, None))
    c['params'] = lambda: E([a], k, 2, 300, (1.0, None, None))
    c['params no tuple'] = lambda: E([a], k, 2, 300, None)
    for i, nm in enumerate(('time', 'include', 'reset')):
        for vn, v in (('list', [1, 2, 3, 4]), ('short', np.ones(3, bool) if i else tm[:3]), ('type', np.ones(4, 'i1'))):
            p = [1.0, tm, m, m]
            p[1 + i] = v
            c['%s %s' % (nm, vn)] = lambda p=tuple(p): E([a], k, 2, 301, p)
    c['short column'] = lambda: E([a[:3]], k, 2, 300, (1.0, None, None, None))
    c['long column'] = lambda: E([np.arange(100.0)], k, 2, 300, (1.0, None, None, None))
    c['second column short'] = lambda: E([a, a[:1]], k, 2, 300, (1.0, None, None, None))
    for w in (-1, -2**40):
        for f in ROLL:
            c['rolling window %d %d' % (f, w)] = lambda f=f, w=w: R(a, f, w)
    for w in (0, 5, 10**9, -1, -5 * 10**9):
        c['rolling quantile %d' % w] = lambda w=w: R(a, 104, w)
        c['group rolling quantile %d' % w] = lambda w=w: P([a], k, ig, fi, cn, 2, [207], [0], [3], w)
    for f in (200, 201, 205, 206):
        c['group rolling window %d' % f] = lambda f=f: P([a], k, ig, fi, cn, 2, [f], [0], [3], -1)
    c['tw short'] = lambda: W(a, tm[:3], 0, 1)
    c['tw type'] = lambda: W(a, tm.astype('i4'), 0, 1)
    x = np.array([0.0, 1.0])
    c['interp type'] = lambda: I(a, x.astype('f4'), x.astype('f4'), 0)
    c['interp ints'] = lambda: I(tm, tm, tm, 0)
    c['interp lengths'] = lambda: I(a, x, a, 0)
    c['interp one knot'] = lambda: I(a, x[:1], x[:1], 0)
    c['interp 2d rows'] = lambda: I(a, np.zeros((3, 2)), np.zeros((3, 2)), 0)
    c['interp 2d x'] = lambda: I(np.zeros((2, 2)), np.zeros((2, 2)), np.zeros((2, 2)), 0)
    c['interp 0d'] = lambda: I(np.array(1.0), x, x, 0)
    c['interp 0d knots'] = lambda: I(a, np.array(1.0), np.array(1.0), 0)
    c['interp strided knots'] = lambda: I(a, np.arange(8.0)[::2], np.arange(8.0)[::2], 0)
    for nm, f in c.items():
        if not t.begin((u, nm)):
            continue
        t.calls += 1
        try:
            r = f()
        except Exception as e:
            if isinstance(e, SystemError):
                t.fail('%s: %r' % (nm, e))
            continue
        t.fail('%s: accepted, result %r' % (nm, r))
    # unknown functions and unsupported types give None
    for nm, f in (('ema f', lambda: E([a], k, 2, 399, (1.0, None, None, None))[0]), ('ema string', lambda: E([a.astype('S3')], k, 2, 300, (1.0, None, None, None))[0]), ('ema complex', lambda: E([a.astype('D')], k, 2, 308, (1.0, None, None, None))[0]),
                  ('ema no time', lambda: E([a], k, 2, 301, (1.0, None, None, None))[0]), ('rolling f', lambda: R(a, 50, 1)), ('rolling S', lambda: R(a.astype('S3'), 0, 1)), ('tw f', lambda: W(a, tm, 5, 1)), ('tw S', lambda: W(a.astype('S3'), tm, 0, 1))):
        if t.begin((u, nm)):
            t.calls += 1
            try:
                r = f()
            except Exception:
                continue
            if r is not None:
                t.fail('%s: %r' % (nm, r))


def units(tier):
    u = [['long', x] for x in TYPES] + [[n, x] for n in ('rquant', 'group', 'roll', 'ema', 'tw') for x in TYPES] + [['cum', x, h] for x in TYPES for h in range(2)]
    return u + [['gstr', x] for x in ('S1', 'S3', 'U1', 'U2')] + [['interp', 'f4'], ['interp', 'f8'], ['strided'], ['refuse']]


def run_unit(u, t):
    globals()['run_' + u[0]](u, t)
