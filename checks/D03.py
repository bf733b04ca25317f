"""One-input math against its definition: all values x types x lengths x layouts."""
import numpy as np
import rcmod
from dp import *

U = {'abs': 201, 'neg': 202, 'fabs': 203, 'invert': 204, 'floor': 205, 'ceil': 206, 'trunc': 207, 'round': 208, 'negative': 212, 'positive': 213, 'sign': 214, 'rint': 215, 'exp': 216, 'exp2': 217,
     'sqrt': 301, 'log': 302, 'log2': 303, 'log10': 304, 'expm1': 305, 'log1p': 306, 'square': 307, 'cbrt': 308, 'reciprocal': 309,
     'lnot': 601, 'isinf': 603, 'isnan': 604, 'isfinite': 605, 'isnormal': 606, 'isnotinf': 607, 'isnotnan': 608, 'isnotfinite': 609, 'isnotnormal': 610, 'isnanorzero': 611, 'signbit': 612, 'bnot': 701}
APPROX = ('exp', 'exp2', 'log', 'log2', 'log10', 'expm1', 'log1p', 'cbrt')
META = {'bounds': '35 operations x 11 types; all values of 8- and 16-bit types, boundary values of wider types and floats (incl. halves, denormals, infinities, NaN, invalids); every length 0..2*lanes+3 at '
                  'rotating offsets; placements: aligned, element offsets, byte-misaligned, strided, reversed, 2-d/3-d C and F order, gaps; output supplied (guarded) and in place. Threading off (schedules: T04).',
        'assumptions': ['a None result delegates the operation to numpy (riptable contract) and is accepted', 'exponentials, logarithms and cube root are compared to 4 ulp, everything else bit for bit']}
rc = None


def parent_init(tier):
    rcmod.parent_init(tier)


def child_init():
    global rc
    _, rc = rcmod.load()


def classify(op, a):
    """nan/inf/finite/normal tests: the invalid value of an integer type counts as nan"""
    k = a.dtype.kind
    if k == 'f':
        nan, inf = np.isnan(a), np.isinf(a)
        normal = ~nan & ~inf & (np.abs(a) >= np.finfo(a.dtype).tiny)
    else:
        nan = is_inv(a)
        inf = np.zeros(a.shape, bool)
        normal = np.ones(a.shape, bool)
    return {'isnan': nan, 'isnotnan': ~nan, 'isinf': inf, 'isnotinf': ~inf, 'isfinite': ~nan & ~inf, 'isnotfinite': nan | inf, 'isnormal': normal, 'isnotnormal': ~normal,
            'isnanorzero': nan | (a == 0)}[op]


def ref(op, a):
    k = a.dtype.kind
    with np.errstate(all='ignore'):
        if op.startswith('is'):
            return classify(op, a)
        if op == 'lnot':
            return a == 0
        if op == 'signbit':
            return np.signbit(a)
        if op in ('invert', 'bnot'):
            return None if k == 'f' else ~a
        if op in ('neg', 'negative'):
            return None if k == 'b' else (-a if k == 'f' else (0 - a).astype(a.dtype))
        if op in ('abs', 'fabs'):
            r = np.abs(a)
            return r.astype('f8') if op == 'fabs' and k != 'f' else r
        if op == 'sign':
            if k == 'f':
                return np.where(np.isnan(a), a, (a > 0).astype(a.dtype) - (a < 0).astype(a.dtype)).astype(a.dtype)
            return np.sign(a) if k != 'b' else None
        if op == 'positive':
            return a.copy()
        if k == 'b':
            return None
        if op in ('floor', 'ceil', 'trunc', 'rint'):
            return getattr(np, op)(a)
        if op == 'round':
            return np.rint(a) if k == 'f' else a.copy()
        x = a.astype('f8') if k != 'f' else a      # integers by value, as numpy does
        if op == 'square':
            return a * a
        return getattr(np, op)(x)


def check(t, op, arr, exp, pre, out=None):
    g = rc.BasicMathOneInput((arr, out) if out is not None else arr, U[op], 0) if out is not None else rc.BasicMathUnaryOp(arr, U[op], 0)
    t.calls += 1
    if g is None:
        t.count('refused')
        t.outcome('none')
        return None
    if exp is None:
        t.fail('result %s where the operation is not defined' % (g.dtype,))
        return None
    t.outcome(g.dtype.char)
    ok = close(g, exp) if op in APPROX else same(g, exp)
    if not ok:
        t.fail(diff(g, exp))
    for x, y in pre:
        if x.tobytes() != y:
            t.fail('an input was modified')
    return g


def units(tier):
    return [[op, ty] for op in U for ty in ALL]


def run_unit(u, t):
    op, ty = u
    a = full(ty)
    if len(a) < 200:
        a = np.concatenate([a] * (200 // len(a) + 1))
    exp = ref(op, a)
    if t.begin([u, 'all values']):
        g = check(t, op, a.copy(), exp, [])
        t.sample({'unit': u, 'values': len(a), 'result': None if g is None else str(g.dtype)})
        if g is None or exp is None:
            return
    lanes = 32 // min(a.dtype.itemsize, exp.dtype.itemsize)
    a, exp = (a, exp) if len(a) < 400 else (a[::len(a) // 397], exp[::len(exp) // 397])
    n = len(a)
    for L in range(0, 2 * lanes + 4):
        for p in sorted({(L * 7) % (n - L), (L * 29 + 3) % (n - L), 0}):
            x, e = a[p:p + L], exp[p:p + L]
            for pa in ('c', 'a1', 'a3', 'm1', 'm3'):
                if t.begin([u, L, p, pa]):
                    xa, _ = place(x, pa)
                    check(t, op, xa, e, [(xa, x.tobytes())])
            for po in ('c', 'a1', 'm1'):
                if t.begin([u, L, p, 'out', po]):
                    o, base = place(np.zeros(L, e.dtype), po)
                    save = base.copy()
                    g = check(t, op, x.copy(), e, [], out=o)
                    if g is not None and L:
                        if g.ctypes.data == o.ctypes.data and not (close(o, e) if op in APPROX else same(o, e)):
                            t.fail('the output array does not hold the result')
                        off = o.ctypes.data - base.ctypes.data
                        base[off:off + o.nbytes] = save[off:off + o.nbytes]
                        if not np.array_equal(base, save):
                            t.fail('memory around the output array was changed')
            if e.dtype == a.dtype:
                for pa in ('c', 'a1', 'm1'):
                    if t.begin([u, L, p, 'inplace', pa]):
                        xa, _ = place(x, pa)
                        check(t, op, xa, e, [], out=xa)
            for st in (2, 3, 5, -1, -2):
                if t.begin([u, L, p, 'stride', st]):
                    big = np.full(L * abs(st) + 1, x[0] if L else 0, a.dtype)
                    s = big[:L * abs(st):abs(st)]
                    s[:] = x
                    ee = e
                    if st < 0:
                        s, ee = s[::-1], e[::-1]
                    save = big.tobytes()
                    check(t, op, s, ee, [(big, save)])
    for shape in ((5, 7), (1, 35), (35, 1), (7, 5), (1, 5, 7), (5, 1, 7), (3, 4, 5), (2, 3, 16)):
        m = int(np.prod(shape))
        x, e = a[:m].reshape(shape), exp[:m].reshape(shape)
        for o in 'CF':
            if t.begin([u, 'nd', shape, o]):
                check(t, op, np.array(x, order=o), e, [])
            for gap in range(len(shape)):
                for st in (2, -1):
                    if t.begin([u, 'nd gap', shape, o, gap, st]):
                        big = list(shape)
                        big[gap] *= abs(st)
                        b = np.full(big, a[1], a.dtype, order=o)
                        v = b[tuple(slice(None, None, st) if d == gap else slice(None) for d in range(len(shape)))]
                        v[...] = x
                        check(t, op, v, e, [(b, b.tobytes())])
            perm = tuple(reversed(range(len(shape))))
            if t.begin([u, 'nd transposed', shape, o]):
                check(t, op, np.array(x, order=o).transpose(perm), e.transpose(perm), [])
