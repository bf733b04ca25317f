"""Type conversion against its definition: all type pairs x values x lengths x layouts."""
import numpy as np
import rcmod
from dp import *

TY = ALL + ['g']
NUMS_ = {'?': [0], 'i1': [1], 'u1': [2], 'i2': [3], 'u2': [4], 'i4': [5], 'u4': [6], 'i8': [7, 9], 'u8': [8, 10], 'f4': [11], 'f8': [12], 'g': [13]}
META = {'bounds': 'all ordered pairs of the 12 numeric/bool types (both 64-bit type numbers), invalid-preserving and plain conversion; all values of 8- and 16-bit types, boundary values of the others; every length '
                  '0..2*lanes+3 at rotating offsets; aligned, element-offset, misaligned, strided, reversed, 0..3-d C/F/transposed/gapped layouts. Threading off (schedules: T04).',
        'assumptions': ['a finite float outside the range of the target integer type has no documented result and is not enumerated', 'integers outside the range of a narrower integer type wrap as in C']}
rc = None


def parent_init(tier):
    rcmod.parent_init(tier)


def child_init():
    global rc
    _, rc = rcmod.load()


def values(t1):
    if t1 == 'g':
        return vals('f8').astype('g')
    a = full(t1)
    return a


def representable(a, t2, safe):
    """mask of the values whose conversion is defined"""
    d = np.dtype(t2)
    if a.dtype.kind != 'f' or d.kind not in 'iu':
        return np.ones(len(a), bool)
    with np.errstate(all='ignore'):
        tr = np.trunc(a.astype('g'))
        ii = np.iinfo(d)
        ok = (tr >= np.longdouble(int(ii.min))) & (tr <= np.longdouble(int(ii.max)))
    return ok | (~np.isfinite(a) if safe else False)


def ref(fn, a, t2):
    d = np.dtype(t2)
    if a.dtype == d:
        return a.copy()
    if d.kind == 'b':
        return a != 0
    with np.errstate(all='ignore'):
        r = a.astype(d)
        if fn == 'safe':
            m = is_inv(a)
            if a.dtype.kind == 'f' and d.kind in 'iu':
                m |= np.isinf(a)
            r[m] = invalid(d)
    return r


def check(t, fn, x, e, num, pre, order=None):
    g = (rc.ConvertSafe if fn == 'safe' else rc.ConvertUnsafe)(x, num)
    t.calls += 1
    if g.dtype.num != num:
        t.fail('type number %d, expected %d' % (g.dtype.num, num))
    if not same(g, e):
        t.fail(diff(g, e))
    if g.size and x.base is not None and np.shares_memory(g, x):
        t.fail('the result shares memory with the input')
    if x.flags.c_contiguous and not g.flags.c_contiguous or x.flags.f_contiguous and not g.flags.f_contiguous:
        t.fail('memory order of the input not kept')
    for p, y in pre:
        if p.tobytes() != y:
            t.fail('the input was modified')
    t.outcome((g.dtype.char, g.ndim))
    return g


def units(tier):
    return [[fn, a, b] for fn in ('safe', 'unsafe') for a in TY for b in TY]


def run_unit(u, t):
    fn, t1, t2 = u
    a = values(t1)
    a = a[representable(a, t2, fn == 'safe')]
    if len(a) < 150:
        a = np.tile(a, 150 // len(a) + 1)
    exp = ref(fn, a, t2)
    nums = NUMS_[t2]
    for num in nums:
        if t.begin([u, 'all values', num]):
            g = check(t, fn, a.copy(), exp, num, [])
            t.sample({'unit': u, 'values': len(a), 'result': str(g.dtype)})
    if t1 in ('i8', 'u8') and t.begin([u, 'long long']):
        check(t, fn, a.astype({'i8': 'q', 'u8': 'Q'}[t1]), exp, nums[0], [])
    if len(a) > 500:
        k = len(a) // 397
        a, exp = a[::k], exp[::k]
    num = nums[-1]
    n = len(a)
    isz = min(a.dtype.itemsize, exp.dtype.itemsize)
    lanes = 32 // isz if isz <= 8 else 2
    for L in range(0, 2 * lanes + 4):
        for p in sorted({0, (L * 7) % (n - L), (L * 29 + 3) % (n - L)}):
            x, e = a[p:p + L], exp[p:p + L]
            for pa in ('c', 'a1', 'a3', 'm1', 'm3'):
                if t.begin([u, L, p, pa]):
                    xa, _ = place(x, pa)
                    check(t, fn, xa, e, num, [(xa, x.tobytes())])
            for st in (2, 3, -1, -2):
                if t.begin([u, L, p, 'stride', st]):
                    big = np.full(L * abs(st) + 1, a[1], a.dtype)
                    s = big[:L * abs(st):abs(st)]
                    s[:] = x
                    save = big.tobytes()
                    check(t, fn, s if st > 0 else s[::-1], e if st > 0 else e[::-1], num, [(big, save)])
    if t.begin([u, '0d']):
        for v, e in zip(a[:20], exp[:20]):
            check(t, fn, np.array(v), np.array([e]), num, [])          # 0-d arrays come back with one dimension
    for shape in ((5, 7), (1, 35), (35, 1), (1, 5, 7), (5, 1, 7), (3, 4, 5), (2, 3, 16), (0, 3), (3, 0)):
        m = int(np.prod(shape))
        x, e = a[:m].reshape(shape), exp[:m].reshape(shape)
        for o in 'CF':
            if t.begin([u, 'nd', shape, o]):
                check(t, fn, np.array(x, order=o), e, num, [])
            for gap in range(len(shape)):
                for st in (2, -1):
                    if t.begin([u, 'nd gap', shape, o, gap, st]):
                        big = list(shape)
                        big[gap] *= abs(st)
                        b = np.full(big, a[1], a.dtype, order=o)
                        v = b[tuple(slice(None, None, st) if d == gap else slice(None) for d in range(len(shape)))]
                        v[...] = x
                        check(t, fn, v, e, num, [(b, b.tobytes())])
            if t.begin([u, 'nd transposed', shape, o]):
                perm = tuple(reversed(range(len(shape))))
                check(t, fn, np.array(x, order=o).transpose(perm), e.transpose(perm), num, [])
            if len(shape) == 3 and t.begin([u, 'nd rotated', shape, o]):
                check(t, fn, np.array(x, order=o).transpose((1, 2, 0)), e.transpose((1, 2, 0)), num, [])
