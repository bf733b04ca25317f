"""Binning by cut points against a linear scan, for every small cut array, value, type pair and mode."""
import bisect, itertools
import numpy as np
import rcmod
from dp import *

META = {'bounds': 'bin cuts (mode 0), left (1) and right (2) search and binning from a sort: 12 value types x 7 cut types; every strictly increasing cut array of 1..4 (thorough: 5) cuts from an alphabet of 9-12 boundary values of the '
                  'cut type (fractions, infinities, values outside the value type), with repeated cuts for the searches; every boundary value of the value type; cut counts 99..102 (output type change), 29999..30002 (sorted and unsorted); '
                  'strings: every cut set over short byte strings of different widths.',
        'assumptions': ['64-bit integers against float cuts are compared as doubles (documented loss of resolution)', 'byte strings only have the first mode; empty strings are invalid']}
rc = None
TIER = 'quick'
VT = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f4', 'f8', 'g']
BT = ['i1', 'i2', 'i4', 'i8', 'u8', 'f4', 'f8']


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier)


def child_init():
    global rc
    _, rc = rcmod.load()


def values(ty):
    d = np.dtype(ty)
    if d.kind == 'b':
        return np.array([False, True])
    if d.kind == 'f':
        return np.array([-np.inf, -1e10, -200.0, -129.0, -1.5, -0.0, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 127.0, 128.0, 256.0, 40000.0, 3e9, 1e19, np.inf, np.nan], d)
    lo, hi = int(np.iinfo(d).min), int(np.iinfo(d).max)
    return np.array(sorted(x for x in {lo, lo + 1, -2, -1, 0, 1, 2, 3, 100, 127, 128, 200, 255, 32768, 40000, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 53) + 1, 1 << 63, (1 << 63) - 1, hi - 1, hi} if lo <= x <= hi), d)


def cuts_alphabet(ty):
    d = np.dtype(ty)
    if d.kind == 'f':
        return np.array([-np.inf, -1e10, -129.0, -0.5, 0.0, 0.5, 1.0, 2.0, 2.5, 127.5, 300.0, 1e10, 1e20, np.inf], d)
    lo, hi = int(np.iinfo(d).min), int(np.iinfo(d).max)
    return np.array(sorted(x for x in {lo, -129, -1, 0, 1, 2, 127, 255, 40000, 1 << 32, hi - 1, hi} if lo <= x <= hi), d)


def cmp_values(v, vt, bt):
    """python numbers in which values are compared with cuts"""
    out = []
    for x in v:
        if np.dtype(vt).kind in 'biu':
            x = int(x)
            if np.dtype(bt).kind == 'f' and np.dtype(vt).itemsize == 8:
                x = float(x)
        else:
            x = float(x)
        out.append(x)
    return out


def cmp_cuts(c, vt, bt):
    if np.dtype(bt).kind in 'iu':
        r = [int(x) for x in c]
        if np.dtype(vt).kind == 'f':
            r = [float(x) for x in r]
        return r
    return [float(x) for x in c]


def ref(mode, vals_, inv, cuts):
    out = []
    n = len(cuts)
    for x, bad in zip(vals_, inv):
        if mode == 0:
            if bad or (isinstance(x, float) and (x in (np.inf, -np.inf) and True)) or x != x or x < cuts[0] or x > cuts[-1]:
                out.append(0)
                continue
            k = bisect.bisect_left(cuts, x)
            out.append(max(k, 1))
        elif x != x:
            out.append(n)
        elif mode == 1:
            out.append(bisect.bisect_left(cuts, x))
        else:
            out.append(bisect.bisect_right(cuts, x))
    return out


def out_type(n):
    return np.dtype('i1' if n <= 100 else 'i2' if n <= 30000 else 'i4')


def run_bsearch(t, v, inv, pv, cuts, pc, mode):
    g = rc.BinsToCutsBSearch(v, cuts, mode)
    t.calls += 1
    e = np.array(ref(mode, pv, inv, pc), out_type(len(cuts)))
    if mode == 0 and v.dtype.kind == 'b' and isinstance(g, np.ndarray) and g.shape == e.shape:
        e = np.where(v, e, g).astype(e.dtype)          # whether False counts as invalid is not specified
    if not same(np.asarray(g), e):
        w = np.nonzero(np.asarray(g) != e)[0] if g.shape == e.shape else []
        t.fail('%s; values %s' % (diff(np.asarray(g), e), [repr(v[i]) for i in w[:3]]))


def run_sorted(t, v, inv, pv, cuts, pc):
    for n in (32, 64):
        o = (rc.LexSort32 if n == 32 else rc.LexSort64)([v])
        cnt = rc.NanInfCountFromSort(v, o)
        k = v.dtype.kind
        f = np.array(pv, 'f8')
        if k == 'f':
            w = (int(np.isnan(f).sum()), int((f == np.inf).sum()), int((f == -np.inf).sum()))
        elif k == 'b':
            w = (0, 0, 0)
        elif k == 'i':
            w = (0, 0, int(inv.sum()))
        else:
            w = (0, int(inv.sum()), 0)
        if tuple(cnt) != w:
            t.fail('NanInfCountFromSort %r expected %r' % (cnt, w))
        g = rc.BinsToCutsSorted(v, cuts, o, cnt, 0)
        t.calls += 3
        e = []
        for x, bad in zip(pv, inv):
            if bad or x != x or x in (np.inf, -np.inf):
                e.append(0)
            elif x < pc[0] or x > pc[-1]:
                e.append(1)
            else:
                # the lowest cut belongs to the first interval
                e.append(max(bisect.bisect_left(pc, x), 1 if len(pc) > 1 else 0) + 1)
        e = np.array(e, out_type(len(cuts)))
        if not same(np.asarray(g), e):
            t.fail('sorted: ' + diff(np.asarray(g), e))


def units(tier):
    return [['pair', vt, bt] for vt in VT for bt in BT] + [['sorted', vt] for vt in VT] + [['count', vt] for vt in VT] + [['str', n, m] for n in (1, 2, 3) for m in (1, 2, 3)] + [['shape']]


def run_unit(u, t):
    if u[0] == 'pair':
        vt, bt = u[1:]
        v = values(vt)
        inv = is_inv(v)
        pv = cmp_values(v, vt, bt)
        al = cuts_alphabet(bt)
        for n in range(1, 5 if TIER == 'quick' else 6):
            for sub in itertools.combinations(range(len(al)), n):
                c = al[list(sub)]
                pc = cmp_cuts(c, vt, bt)
                if len(set(pc)) < len(pc) or any(np.float32(a) == np.float32(b) for a, b in zip(pc, pc[1:])) and vt == 'f4':
                    continue
                for mode in (0, 1, 2):
                    if t.begin([u, sub, mode], key=(vt, bt, sub, mode)):
                        run_bsearch(t, v, inv, pv, c, pc, mode)
            if n <= 3:
                for sub in itertools.combinations_with_replacement(range(len(al)), n):
                    if len(set(sub)) == n:
                        continue
                    c = al[list(sub)]
                    for mode in (1, 2):
                        if t.begin([u, 'dup', sub, mode], key=(vt, bt, 'd', sub, mode)):
                            run_bsearch(t, v, inv, pv, c, cmp_cuts(c, vt, bt), mode)
        t.sample({'unit': u, 'values': [repr(x) for x in v], 'cuts': [repr(x) for x in al]})
    elif u[0] == 'sorted':
        vt = u[1]
        v = values(vt)
        al = cuts_alphabet('f8')
        for n in range(1, 5):
            for sub in itertools.combinations(range(len(al)), n):
                c = al[list(sub)]
                pc = [float(x) for x in c]
                for name, x in (('all', v), ('rev', v[::-1].copy()), ('dup', np.repeat(v, 3))):
                    if name != 'all' and n > 2 and TIER == 'quick':
                        continue
                    if t.begin([u, sub, name], key=(vt, sub, name)):
                        run_sorted(t, x, is_inv(x), [float(q) for q in x], c, pc)
        # every short value array
        small = v[:: max(1, len(v) // 6)]
        for L in range(0, 4):
            for idx in itertools.product(range(len(small)), repeat=L):
                for c in (np.array([0.0]), np.array([0.0, 1.0]), np.array([-1.0, 0.5, 2.0])):
                    if t.begin([u, 'short', idx, c.tolist()]):
                        x = small[list(idx)] if L else small[:0].copy()
                        run_sorted(t, x, is_inv(x), [float(q) for q in x], c, c.tolist())
    elif u[0] == 'count':
        vt = u[1]
        for n in (99, 100, 101, 102, 127, 128, 255, 256) + ((29999, 30000, 30001, 32767, 32768, 40000) if vt in ('i4', 'i8', 'f8', 'u2', 'g') else ()):
            for bt in ('i4', 'f8', 'i8'):
                d = np.dtype(vt)
                c = (np.arange(n) * 3 - 50).astype(bt)
                if d.kind == 'b':
                    v = values(vt)
                elif d.kind == 'f':
                    v = (np.arange(-60, n * 3 + 10) + 0.0).astype(d)
                    v = np.concatenate([v, v + d.type(0.5), values(vt)])
                else:
                    ii = np.iinfo(d)
                    r = np.arange(max(-60, int(ii.min)), min(n * 3 + 10, int(ii.max)), dtype='i8')
                    v = np.concatenate([r.astype(d), values(vt)])
                for mode in (0, 1, 2):
                    if t.begin([u, n, bt, mode]):
                        run_bsearch(t, v, is_inv(v), cmp_values(v, vt, bt), c, cmp_cuts(c, vt, bt), mode)
                if bt == 'f8' and t.begin([u, n, 'sorted']):
                    run_sorted(t, v, is_inv(v), [float(q) for q in v], c, c.tolist())
    elif u[0] == 'str':
        n, m = u[1:]
        chars = [b'a', b'b', b'\xff']
        def words(w):
            return [b''.join(x) for k in range(0, w + 1) for x in itertools.product(chars, repeat=k)]
        v = np.array(words(n), 'S%d' % n)
        pool = sorted(words(m))
        if len(pool) > 13:
            pool = pool[::3] if len(pool) > 30 else pool
        for k in range(1, 4):
            for sub in itertools.combinations(pool, k):
                c = np.array(sub, 'S%d' % m)
                if t.begin([u, [x.decode('latin1') for x in sub]], key=(n, m, sub)):
                    g = np.asarray(rc.BinsToCutsBSearch(v, c, 0))
                    e = []
                    for x in v.tolist():
                        if x == b'' or x < sub[0] or x > sub[-1]:
                            e.append(0)
                        else:
                            e.append(max(1, bisect.bisect_left(list(sub), x)))
                    if g.tolist() != e:
                        t.fail('got %s expected %s' % (g.tolist(), e))
        for val in (np.array(['a', 'b']), ):
            if t.begin([u, 'unicode']):
                try:
                    r = rc.BinsToCutsBSearch(val, np.array(['a', 'b', 'c']), 0)
                    if r.tolist() != [1, 1]:
                        t.fail('unicode: %r' % (r,))
                except (ValueError, TypeError):
                    pass
    else:
        for vt in VT:
            v = values(vt)
            if vt == '?':
                v = np.array([True] * 20)
            n = len(v) // 2 * 2
            for shape in ((n // 2, 2), (2, n // 2)):
                for mode in (0, 1, 2):
                    if t.begin([u, vt, shape, mode]):
                        c = np.array([-1.5, 0.5, 2.0])
                        x = v[:n].reshape(shape)
                        g = np.asarray(rc.BinsToCutsBSearch(x, c, mode))
                        e = ref(mode, cmp_values(v[:n], vt, 'f8'), is_inv(v[:n]), c.tolist())
                        if g.ravel().tolist() != e or g.shape != shape:
                            t.fail('2-d: %r expected %r' % (g, e))
            for L in range(1, 20):
                for pl in ('c', 'a1', 'm1'):
                    for mode in (0, 1, 2):
                        if t.begin([u, vt, 'len', L, pl, mode]):
                            x, b = place(np.resize(v, L), pl)
                            c = np.array([-1.5, 0.5, 2.0])
                            run_bsearch(t, x, is_inv(x), cmp_values(x, vt, 'f8'), c, c.tolist(), mode)
            for c in (np.zeros(0), ):
                for mode in (0, 1, 2):
                    if t.begin([u, vt, 'nocuts', mode]):
                        try:
                            r = rc.BinsToCutsBSearch(v, c, mode)
                            if np.asarray(r).any():
                                t.fail('no cuts: %r' % (r,))
                        except ValueError:
                            pass
