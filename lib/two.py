"""Enumeration of lengths, layouts, outputs and scalars for two-input operations, around one reference."""
from dp import *


def walk(u, t, t1, t2, expected, scalar, check, call):
    if t1 == t2 and np.dtype(t1).itemsize == 1:
        a, b = pairs(full(t1), full(t2))
    else:
        a, b = pairs(vals(t1), vals(t2))
    if len(a) < 300:
        q = 300 // len(a) + 1
        a, b = np.tile(np.append(a, a[:1]), q), np.tile(np.append(b, b[:1]), q)
    exp, c = expected(a, b)
    if exp is None:
        if not t.begin([u, 'undefined']):
            return
        g = call((a, b))
        t.calls += 1
        t.count('refused' if g is None else 'extra')
        return
    if t.begin([u, 'all pairs', len(a)]):
        g = check(t, (a.copy(), b.copy()), exp, [])
        t.sample({'unit': u, 'pairs': len(a), 'result': None if g is None else str(g.dtype)})
        if g is None:
            return                   # delegated to numpy as a whole
    # lengths and placements
    isz = min(a.dtype.itemsize, b.dtype.itemsize, exp.dtype.itemsize)
    lanes = 32 // isz
    step = max(1, (len(a) - 3 * lanes) // (2 * lanes + 2))
    pls = [('c', 'c'), ('a1', 'c'), ('c', 'a3'), ('m1', 'm3')]
    for L in range(0, 2 * lanes + 2):
        p = (L * step) % max(1, len(a) - L)
        x, y, e = a[p:p + L], b[p:p + L], exp[p:p + L]
        for n, (pa, pb) in enumerate(pls):
            if not t.begin([u, L, pa, pb]):
                continue
            xa, _ = place(x, pa)
            yb, _ = place(y, pb)
            check(t, (xa, yb), e, [(xa, x.tobytes()), (yb, y.tobytes())])
        # output array supplied, placed inside a guarded buffer
        for po in ('c', 'a1', 'm1'):
            if not t.begin([u, L, 'out', po]):
                continue
            o, base = place(np.zeros(L, e.dtype), po)
            save = base.copy()
            g = check(t, (x.copy(), y.copy(), o), e, [])
            if g is not None and L and L > 0:
                off = o.ctypes.data - base.ctypes.data
                base[off:off + o.nbytes] = save[off:off + o.nbytes]
                if not np.array_equal(base, save):
                    t.fail('memory around the output array was changed')
        if exp.dtype == a.dtype == b.dtype:
            for pa in ('c', 'a1', 'm1', 'm5'):
                for pb in (('c', 'm2') if pa == 'c' else ('c',)):
                    if t.begin([u, L, 'inplace', pa, pb]):
                        xa, base = place(x, pa)
                        yb, _ = place(y, pb)
                        check(t, (xa, yb, xa), e, [(yb, y.tobytes())])
            if t.begin([u, L, 'self']):
                xa, _ = place(x, 'c')
                e2, _c = expected(x, x)
                check(t, (xa, xa), e2, [(xa, x.tobytes())])
    # scalars
    for side in (0, 1):
        ts, ta = (t1, t2) if side == 0 else (t2, t1)
        sv = vals(ts)
        av = np.concatenate([vals(ta), vals(ta)[::-1], vals(ta)[:5]])
        for si, s in enumerate(sv):
            for L in sorted({0, 1, 2, lanes - 1, lanes, lanes + 1, 2 * lanes, 2 * lanes + 3, len(av)}):
                if L > len(av):
                    continue
                arr = np.roll(av, si)[:L]
                sarr = np.full(L, s)
                # a scalar operand is converted by value (no invalid mapping), the array operand as an array
                e = scalar(side, sarr, arr)
                # an array of length one (any type pair: common type of both)
                for kind in ('arr1', 'arr0d'):
                    if L == 1:
                        continue
                    if L >= 1 and t.begin([u, side, L, kind, repr(s)]):
                        one = np.array([s]) if kind == 'arr1' else np.array(s)
                        ac, _ = place(arr, 'c')
                        check(t, (one, ac) if side == 0 else (ac, one), e, [(ac, arr.tobytes())])
                if ts == ta:
                    if t.begin([u, side, L, 'npscalar', repr(s)]):
                        ac, _ = place(arr, 'a1')
                        check(t, (s, ac) if side == 0 else (ac, s), e, [(ac, arr.tobytes())])
                    if L and side == 1 and e.dtype == arr.dtype:
                        for pa in ('c', 'a1', 'm1'):
                            if t.begin([u, side, L, 'npscalar inplace', pa, repr(s)]):
                                ac, _ = place(arr, pa)
                                check(t, (ac, s, ac), e, [])
                    if np.dtype(ts).kind in 'iub' and not (np.dtype(ts).kind != 'b' and s == invalid(ts)):
                        if t.begin([u, side, L, 'pyint', repr(s)]):
                            py = s.item()
                            ac = arr.copy()
                            check(t, (py, ac) if side == 0 else (ac, py), e, [(ac, arr.tobytes())])
                    if ts == 'f8' or ts == 'f4':
                        if t.begin([u, side, L, 'pyfloat', repr(s)]):
                            py = float(s)
                            ac = arr.copy()
                            check(t, (py, ac) if side == 0 else (ac, py), e, [(ac, arr.tobytes())])
                elif ts == 'f8' and np.dtype(ta).kind in 'iub':
                    if t.begin([u, side, L, 'pyfloat', repr(s)]):
                        py = float(s)
                        ac = arr.copy()
                        check(t, (py, ac) if side == 0 else (ac, py), e, [(ac, arr.tobytes())])
    # two dimensions and strides
    n = 35
    x, y, e = a[:n], b[:n], exp[:n]
    for shape in ((5, 7), (1, 35), (35, 1), (7, 5), (1, 5, 7), (5, 1, 7)):
        x2, y2, e2 = x.reshape(shape), y.reshape(shape), e.reshape(shape)
        for ox in 'CF':
            for oy in 'CF':
                if t.begin([u, 'nd', shape, ox, oy]):
                    xx, yy = np.array(x2, order=ox), np.array(y2, order=oy)
                    check(t, (xx, yy), e2, [(xx, xx.tobytes()), (yy, yy.tobytes())])
            if t.begin([u, 'nd out', shape, ox]):
                xx, yy = np.array(x2, order=ox), np.array(y2, order='C')
                o = np.zeros(shape, e.dtype, order='F')
                check(t, (xx, yy, o), e2, [])
        for gap in range(len(shape)):
            if t.begin([u, 'nd gaps', shape, gap]):
                big = list(shape)
                big[gap] *= 2
                sl = tuple(slice(None, None, 2) if d == gap else slice(None) for d in range(len(shape)))
                for o in 'CF':
                    bx = np.zeros(big, x.dtype, order=o)
                    bx[sl] = x2
                    by = np.zeros(big, y.dtype, order=o)
                    by[sl] = y2
                    check(t, (bx[sl], by[sl]), e2, [])
                    check(t, (bx[sl], np.array(y2, order=o)), e2, [])
                    check(t, (np.array(x2, order=o), by[sl]), e2, [])
    for L in (1, 2, 3, 17, 35):
        for sa in (2, 3, -1):
            if t.begin([u, 'strided', L, sa]):
                bx = np.repeat(x[:L], abs(sa))
                by = np.repeat(y[:L], abs(sa))
                sx, sy = (bx[::sa], by[::sa]) if sa > 0 else (bx[::-1][::1], by[::-1][::1])
                ee = e[:L] if sa > 0 else e[:L][::-1]
                check(t, (sx, sy), ee, [(bx, bx.tobytes())])
                check(t, (sx, sy.copy()), ee, [])
                check(t, (sx.copy(), sy), ee, [])
