"""Stacking SDS files and sections: every combination of types, missing columns, lengths, shapes, orders and filters against the concatenation of the parts."""
import itertools, os
import numpy as np
import rcmod
import S01, S04

META = {'bounds': 'types: every ordered pair of 19 types and every triple over 9 types x boundary values incl. invalids and NaN x lengths (2,2), (0,2), (2,0), (1,3) x 1-d, 2-d in C and Fortran order x files or sections x none or a mask; '
                  'missing columns: every subset of 3 columns (plain, plain of 19 types, category) in each of 1..3 parts; lengths: every triple out of 0,1,2,5 as files, sections and mixtures x compression; '
                  'masks: every mask of 0..n+2 rows over the n <= 6 stacked rows, fancy unset, true and false, x part lengths x shapes (1-d, 2-d, 3-d, C, Fortran) x a part that lacks the column; reserved space 0..2.5; '
                  'include lists; unreadable files; concatenated files; bands; rows up to 40000',
        'assumptions': ['common type: riptable\'s rules (mixed signedness: next larger signed type, at most int64; 32-bit and wider integers with float32: float64; strings: the wider, unicode if any is)',
                        'values that the common type cannot represent are not prescribed', 'text against numbers, complex against real, different trailing dimensions and mixed memory orders are refused',
                        'a part without a column gets as many rows as its dataset has, filled with the invalid value (zero for text and complex)',
                        'a part from which every row is filtered out contributes no category entries']}
rc = None
TIER = 'quick'
DIR = None
TYPES = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'q', 'f4', 'f8', 'g', 'S1', 'S3', 'U1', 'U3', 'F', 'D']
T3 = ['?', 'i1', 'u2', 'i4', 'u8', 'f4', 'f8', 'S3', 'U1']


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier, 'io')


def child_init():
    global rc, DIR
    S04.child_init()
    rc, DIR = S04.rc, S04.DIR


# ---- the definition
def common1(a, b):
    """the type of a column that had type a so far when a part has type b (None: refused)"""
    if a == b:
        return a
    ka, kb = a.kind, b.kind
    if ka in 'SU' or kb in 'SU':
        if ka not in 'SU' or kb not in 'SU':
            return None
        n = max(a.itemsize // (4 if ka == 'U' else 1), b.itemsize // (4 if kb == 'U' else 1))
        return np.dtype(('U' if 'U' in (ka, kb) else 'S') + str(n))
    if ka == 'c' or kb == 'c':
        return max(a, b, key=lambda d: d.itemsize) if ka == kb else None
    if ka == 'f' and kb == 'f':
        return a if a.itemsize > b.itemsize else b
    if ka == 'f' or kb == 'f':
        f, i = (a, b) if ka == 'f' else (b, a)
        return np.dtype('f8') if f.itemsize == 4 and i.itemsize >= 4 else f
    if ka == 'b' and kb == 'b':
        return a
    if (ka == 'u') == (kb == 'u'):
        return a if a.itemsize > b.itemsize or kb == 'b' else b
    s, u = (b, a) if ka == 'u' else (a, b)
    if s.itemsize == 8 and u.itemsize == 8:
        return a
    if s.kind == 'b' or s.itemsize <= u.itemsize:
        return np.dtype('i%d' % min(8, 2 * u.itemsize))
    return s


def common(ts):
    r = ts[0]
    for x in ts[1:]:
        r = common1(r, x)
        if r is None:
            return None
    return r


def inv(d):
    if d.kind == 'i':
        return np.iinfo(d).min
    if d.kind == 'u':
        return np.iinfo(d).max
    return {'b': False, 'f': np.nan, 'S': b'', 'U': '', 'c': 0}[d.kind]


def conv(x, d):
    if x.dtype == d:
        return x
    if x.dtype.kind == 'S' and d.kind == 'U':
        r = np.zeros(x.shape, d)
        for i in np.ndindex(x.shape):
            r[i] = x[i].decode('latin1')
        return r
    with np.errstate(all='ignore'):
        r = x.astype(d)
    if x.dtype.kind in 'iu' and d.kind in 'iuf':
        r[x == inv(x.dtype)] = inv(d)
    return r


def same(g, w):
    if not isinstance(g, np.ndarray) or g.dtype != w.dtype or g.shape != w.shape:
        return False
    if g.dtype.kind in 'SU':
        return g.tobytes() == w.tobytes()
    return bool(np.all((g == w) | ((g != g) & (w != w))))


def desc(a):
    return '%s%s %s' % (a.dtype, a.shape, a.ravel()[:16].tolist()) if isinstance(a, np.ndarray) else repr(a)


def model(parts, mask=None):
    """parts: list of lists of (name, flag, array) -> list of (name, flag, array, cutoffs) or None (refused)"""
    order = []
    for p in parts:
        for nm, fl, a in p:
            if nm not in [o[0] for o in order]:
                order.append((nm, fl))
    lens = []
    for p in parts:
        l = [len(a) for nm, fl, a in p if fl & 1 and not fl & (4 | 8 | 16)]
        lens.append(l[-1] if l else 0)
    sels = None
    if mask is not None:
        total = sum(lens)
        full = np.zeros(total, bool)
        k = min(total, len(mask))
        full[:k] = mask[:k]
        sels, o = [], 0
        for l in lens:
            sels.append(full[o:o + l])
            o += l
    out = []
    seen = False
    for nm, fl in order:
        filt = bool(fl & 1 and not fl & (4 | 8 | 16)) and mask is not None
        seen = seen or filt
        have = [next((a for n2, f2, a in p if n2 == nm), None) for p in parts]
        pres = [a for a in have if a is not None]
        d = common([a.dtype for a in pres])
        if d is None or len({a.shape[1:] for a in pres}) > 1:
            return None
        if len({'C' if a.flags.c_contiguous else 'F' for a in pres if not (a.flags.c_contiguous and a.flags.f_contiguous)}) > 1:
            return None
        cols, cut, opt = [], [], []
        for i, a in enumerate(have):
            x = np.full((lens[i],) + pres[0].shape[1:], inv(d), d) if a is None else conv(a, d)
            if filt:
                x = x[sels[i]]
            elif mask is not None and not sels[i].any():
                if seen:
                    x = x[:0]
                else:
                    opt.append(i)
            cols.append(x)
        out.append((nm, fl, cols, d, opt))
    return out


def write(parts, ft=2, comp=0, how='files', bands=0):
    """saves the parts, returns the list of file names to stack"""
    names = []
    for i, p in enumerate(parts):
        sec = how == 'sections' or (how == 'mixed' and i < 2)
        f = ('%s/p%d.sds' % (DIR, 0 if sec else i)).encode()
        if not sec or i == 0:
            if os.path.exists(f):
                os.unlink(f)
        kw = {'section': 's%d' % i} if sec else {}
        if bands:
            kw['bandsize'] = bands
        S01.write(f, [a for _, _, a in p], [(n, fl) for n, fl, _ in p], comp, 1, ft, b'meta%d' % i, **kw)
        if not sec or i == 0:
            names.append(f)
    return names


def attempt(t, fn, *a, **k):
    t.calls += 1
    try:
        return getattr(rc, fn)(*a, **k)
    except (ValueError, RuntimeError) as e:
        return e


def check(t, files, parts, mask=None, want_names=None, fn='MultiStackFiles', order=None, **kw):
    if mask is not None:
        kw['mask'] = mask
    r = attempt(t, fn, files, 3, **kw)
    w = model(parts, mask)
    t.outcome((type(r).__name__, w is None, None if isinstance(r, Exception) or r is None else tuple(a.dtype.str for a in r[0])))
    if w is None:
        if not isinstance(r, ValueError):
            t.fail('parts that do not fit together are stacked to %s' % [desc(x) for x in r[0]])
        return
    if isinstance(r, Exception):
        t.fail('refused: %s' % str(r)[:150])
        return
    if r is None:
        if w:
            t.fail('gives None')
        return
    res = kw.get('reserve', 0.0)
    arrs, items, cuts = r[0], r[1], r[2]
    if [(x[0], x[1]) for x in items] != [(n, f) for n, f, _, _, _ in w]:
        return t.fail('columns %r instead of %r' % ([(x[0], x[1]) for x in items], [(n, f) for n, f, _, _, _ in w]))
    if list(r[3]) != [b'meta%d' % i for i in range(len(parts))]:
        return t.fail('metadata %r' % (list(r[3]),))
    for k, (n, f, cols, d, opt) in enumerate(w):
        alts = [cols]
        for i in opt:
            alts = [c[:i] + [x] + c[i + 1:] for c in alts for x in (c[i], c[i][:0])]
        ok = False
        for c in alts:
            e = np.concatenate(c)
            ends = np.cumsum([len(x) for x in c]).tolist()
            g, cg = arrs[k], cuts[k].tolist()
            if res and mask is None:
                full = len(e) + int(len(e) * min(res, 1.0))
                if isinstance(g, np.ndarray) and g.shape[0] == full:
                    g = g[:len(e)]
                    cg = cg[:-1] + [cg[-1] - full + len(e)]
            if same(g, e) and cg == ends:
                ok = True
        if not ok:
            return t.fail('%r is %s cut at %s instead of %s cut at %s' % (n, desc(arrs[k]), cuts[k].tolist(), desc(e), ends))


# ---- contents
def special(ty, n, tys=()):
    d = np.dtype(ty)
    if d.kind == 'b':
        v = [True, False]
    elif d.kind in 'iu':
        i = np.iinfo(d)
        v = [3, int(inv(d)), int(i.max) - 1 if d.kind == 'u' else int(i.max), 0, int(i.min) + 1]
        if d.kind == 'u' and d.itemsize == 8:
            v[2] = (1 << 63) - 1
        if any(np.dtype(x).kind == 'u' for x in tys) and d.itemsize == 8:
            v = [3, int(inv(d)), (1 << 62), 0, 1]
    elif d.kind == 'f':
        v = [1.5, np.nan, np.inf, -0.25, -np.inf]
    elif d.kind == 'c':
        v = [1.5 + 2j, complex(np.nan, 1), -1j, 7, 0]
    elif d.kind == 'S':
        v = [x[:d.itemsize] for x in (b'abc', b'', b'\xe9z', b'x', b'zzz')]
    else:
        v = [x[:d.itemsize // 4] for x in ('abc', '', '\u20acz', '\U0001f600', 'zzz')]
    return np.array([v[i % len(v)] for i in range(n)], d)


def shaped(ty, n, shape, tys=()):
    if shape == '1':
        return special(ty, n, tys)
    k = {'2C': (2,), '2F': (2,), '3C': (2, 3), '3F': (2, 3), '21': (1,)}[shape]
    a = special(ty, n * int(np.prod(k)), tys).reshape((n,) + k)
    return np.asfortranarray(a) if shape.endswith('F') else a


def units(tier):
    u = [['type', a] for a in TYPES] + [['type3', a] for a in T3]
    u += [['miss', k, ty] for k in (1, 2, 3) for ty in (TYPES if k < 3 or tier == 'thorough' else ['i4', 'f4', 'S3', 'g', '?', 'u8', 'D'])]
    u += [['len', c] for c in (0, 1)]
    u += [['mask', s, c] for s in ('1', '2C', '2F', '3C', '3F', '21') for c in (0, 1)]
    u += [['dims'], ['reserve'], ['include'], ['bad'], ['concat'], ['empty'], ['single']] + [['band', s] for s in ('1', '2C', '2F')]
    return u


def run_unit(u, t):
    globals()['u_' + u[0]](u, t)
    t.beat()


R = lambda n: (b'r', 1, np.arange(n, dtype='i4'))


def u_type(u, t):
    a = u[1]
    for b in TYPES:
        for la, lb in ((2, 2), (0, 2), (2, 0), (1, 3), (5, 5)):
            for shape in ('1', '2C', '2F'):
                for how in ('files', 'sections'):
                    if not t.begin([b, la, lb, shape, how]):
                        continue
                    p = [[R(n), (b'x', 3, shaped(x, n, shape, (a, b)))] for n, x in ((la, a), (lb, b))]
                    f = write(p, 2, (la + lb) % 2, how)
                    check(t, f, p)
                    if la + lb:
                        check(t, f, p, mask=np.arange(la + lb) % 2 == 1)
                        check(t, f, p, mask=np.ones(la + lb, bool))
        t.beat()


def u_type3(u, t):
    a = u[1]
    for b in T3:
        for c in T3:
            for ls in ((2, 1, 2), (0, 3, 1), (2, 0, 5)):
                for shape in ('1', '2F'):
                    if not t.begin([b, c, ls, shape]):
                        continue
                    p = [[R(n), (b'x', 3, shaped(x, n, shape, (a, b, c)))] for n, x in zip(ls, (a, b, c))]
                    f = write(p)
                    check(t, f, p)
                    check(t, f, p, mask=np.arange(sum(ls)) % 2 == 0)
        t.beat()


def u_miss(u, t):
    """every subset of the columns in every part"""
    k, ty = u[1:]
    cols = [(b'a', 3), (b'b', 3), (b'c!k', 2)]
    for shape in ('1', '2C', '2F'):
        for sub in itertools.product(range(8), repeat=k):
            for ls in ([(2, 0, 3)[:k], (1, 2, 1)[:k]] if k > 1 else [(2,), (0,)]):
                for mi in (0, 1, 2):
                    if not t.begin([shape, sub, ls, mi]):
                        continue
                    p = []
                    for s, n in zip(sub, ls):
                        q = [R(n)]
                        if s & 1:
                            q.append((b'a', 3, special('i2', n)))
                        if s & 2:
                            q.insert(s & 1, (b'b', 3, shaped(ty, n, shape)))
                        if s & 4:
                            q.append((b'c!k', 2, np.array([b'k%d' % i for i in range(3)], 'S3')))
                        p.append(q)
                    f = write(p, 2, mi & 1)
                    m = [None, np.arange(sum(ls)) % 2 == 0, np.arange(sum(ls)) < ls[0]][mi]
                    check(t, f, p, mask=m)
        t.beat()


def u_len(u, t):
    for ls in itertools.chain.from_iterable(itertools.product((0, 1, 2, 5), repeat=k) for k in (1, 2, 3)):
        for how in ('files', 'sections', 'mixed'):
            for ft in (2, 3):
                if t.begin([ls, how, ft]):
                    p = [[R(n), (b'f', 3, special('f8', n)), (b's', 3, special('S3', n)), (b'F', 1, shaped('i2', n, '2F'))] for n in ls]
                    f = write(p, ft, u[1], how)
                    check(t, f, p)
    for n in (32767, 32768, 40000, 70000):
        if t.begin(['long', n]):
            p = [[R(x), (b'x', 3, np.resize(special(ty, 5), x)), (b'F', 1, np.asfortranarray(np.resize(special(ty, 5), (x, 2))))] for x, ty in ((n, 'i4'), (3, 'f8'), (n + 1, 'i2'))]
            f = write(p, 2, u[1])
            check(t, f, p)
            check(t, f, p, mask=np.arange(2 * n + 4) % 3 != 1)


def u_mask(u, t):
    shape, comp = u[1:]
    for ls in ((4,), (2, 3), (3, 0, 2), (0, 3), (1, 1, 2), (2, 2)):
        n = sum(ls)
        for lack in (None, 0, len(ls) - 1):
            p = []
            for i, x in enumerate(ls):
                q = [R(x), (b's', 3, special('S3', x))]
                if i != lack:
                    q.append((b'x', 3, shaped(('i2', 'f4')[i % 2], x, shape)))
                q.append((b'c!k', 2, np.array([b'k', b'l'], 'S1')))
                p.append(q)
            if lack is not None and len(ls) == 1:
                continue
            f = write(p, 2, comp)
            for l in range(n + 3):
                for bits in range(1 << l):
                    if l > n and bits >> (l - 2) == 0:
                        continue
                    if not t.begin([ls, lack, l, bits]):
                        continue
                    m = np.array([bits >> i & 1 for i in range(l)], bool)
                    check(t, f, p, mask=m)
                    if l == n:
                        check(t, f, p, mask=m, fancy=False)
                        check(t, f, p, mask=m, fancy=True)
        t.beat()
    if t.begin(['refused lengths']):
        for l, fancy in ((n - 1, False), (n + 1, False), (n + 1, True)):
            r = attempt(t, 'MultiStackFiles', f, 3, mask=np.ones(l, bool), fancy=fancy)
            if not isinstance(r, ValueError):
                t.fail('a mask of %d rows with fancy=%s is accepted for %d rows' % (l, fancy, n))


def u_dims(u, t):
    shapes = [(2,), (2, 1), (2, 2), (2, 3), (2, 2, 2), (2, 1, 2), (2, 2, 1), (2, 2, 2, 2), (2, 1, 1, 1, 2), (1, 2), (1, 1), (0, 2), (2, 0)]
    for s1 in shapes:
        for s2 in shapes:
            for o1 in 'CF':
                for o2 in 'CF':
                    for mi in (0, 1):
                        if not t.begin([s1, s2, o1, o2, mi]):
                            continue
                        A = [np.array(S01.make('i4', s, 'rand') % 100, order=o) for s, o in ((s1, o1), (s2, o2))]
                        p = [[R(len(a)), (b'x', 3, a), (b'y', 3, np.zeros(len(a), 'i1'))] for a in A]
                        f = write(p, 2, mi)
                        n = sum(map(len, A))
                        check(t, f, p, mask=None if not mi else np.arange(n) % 3 != 1)
        t.beat()


def u_reserve(u, t):
    for res in (0.0, 0.25, 0.5, 1.0, 2.5):
        for ls in itertools.product((0, 1, 3), repeat=2):
            for shape in ('1', '2C', '2F'):
                for lack in (None, 0, 1):
                    for mi in (0, 1, 2):
                        if not t.begin([res, ls, shape, lack, mi]):
                            continue
                        p = [[R(n)] + ([(b'x', 3, shaped(('i2', 'i4')[i], n, shape))] if i != lack else []) for i, n in enumerate(ls)]
                        f = write(p)
                        m = [None, np.ones(sum(ls), bool), np.arange(sum(ls)) % 2 == 0][mi]
                        check(t, f, p, mask=m, reserve=res)


def u_include(u, t):
    cols = [b'a', b'b', b'c', b'r']
    for ls in ((2, 3), (0, 1), (2, 1, 2)):
        p = [[R(n), (b'a', 3, special('i4', n)), (b'b', 3, special('f4', n)), (b'c', 3, special('S3', n))] for n in ls]
        del p[-1][2]
        f = write(p)
        for k in range(1, 16):
            inc = [c for i, c in enumerate(cols) if k >> i & 1]
            for mi in (0, 1):
                if t.begin([ls, k, mi]):
                    q = [[c for c in x if c[0] in inc] for x in p]
                    if mi and not any(len(x) == 0 for x in q):
                        check(t, f, q, mask=np.arange(sum(ls)) % 2 == 0, include=inc)
                    elif not any(len(x) == 0 for x in q):
                        check(t, f, q, include=inc)


def u_bad(u, t):
    """files that cannot be opened are left out, or refused with mustexist"""
    p = [[R(n), (b'a', 3, special('i4', n))] for n in (2, 3, 1)]
    f = write(p)
    for gone in range(8):
        for kind in ('missing', 'empty', 'text'):
            for must in (None, False, True):
                if not t.begin([gone, kind, must]):
                    continue
                g = list(f)
                for i in range(3):
                    if gone >> i & 1:
                        g[i] = f[i] + b'.' + kind.encode()
                        if kind != 'missing':
                            with open(g[i], 'wb') as h:
                                h.write(b'' if kind == 'empty' else b'no such file' * 100)
                kw = {} if must is None else {'mustexist': must}
                r = attempt(t, 'MultiStackFiles', g, 3, **kw)
                t.outcome((type(r).__name__, gone, must))
                if must and gone:
                    if not isinstance(r, Exception):
                        t.fail('stacked although a file cannot be read')
                    continue
                if isinstance(r, Exception):
                    if kind == 'missing' and gone != 7:
                        t.fail('refused: %s' % r)
                    continue
                keep = [x for i, x in enumerate(p) if not gone >> i & 1]
                if r is None:
                    if keep:
                        t.fail('gives None')
                    continue
                for k in range(2):
                    e = np.concatenate([x[k][2] for x in keep]) if keep else None
                    if e is None or not same(r[0][k], e) or r[2][k].tolist() != np.cumsum([len(x[k][2]) for x in keep]).tolist():
                        t.fail('%s instead of %s' % (desc(r[0][k]), e if e is None else desc(e)))
                if keep and list(r[3]) != [b'meta%d' % i for i in range(3) if not gone >> i & 1]:
                    t.fail('metadata %r' % (r[3],))


def u_concat(u, t):
    for ls in itertools.chain.from_iterable(itertools.product((0, 1, 3), repeat=k) for k in (1, 2, 3)):
        for comp in (0, 1):
            if not t.begin([ls, comp]):
                continue
            p = [[R(n), (b'a', 3, special('i4', n)), (b'F', 1, shaped('f8', n, '2F')), (b's', 3, special('S3', n)), (b'c!k', 2, special('S1', 2))] for n in ls]
            f = write(p, 2, comp)
            out = (DIR + '/out.sds').encode()
            if os.path.exists(out):
                os.unlink(out)
            r = attempt(t, 'MultiConcatFiles', f, 3, output=out.decode())
            if isinstance(r, Exception):
                t.fail('MultiConcatFiles: %s' % r)
                continue
            check(t, [out], p)
            q = attempt(t, 'MultiDecompressFiles', [out], 3)
            if isinstance(q, Exception) or len(q) != len(p):
                t.fail('the concatenation has %s' % (q if isinstance(q, Exception) else len(q)))
                continue
            for i in range(len(p)):
                if q[i][0] != b'meta%d' % i or not all(same(g, a) for g, (_, _, a) in zip(q[i][1], p[i])) or len(q[i][1]) != len(p[i]):
                    t.fail('part %d of the concatenation differs' % i)


def u_empty(u, t):
    """parts whose category arrays are empty, parts without columns, one part only"""
    for cl in itertools.product((0, 1, 3), repeat=2):
        for ls in itertools.product((0, 2), repeat=2):
            for wid in ((2, 2), (2, 4), (4, 1)):
                if t.begin([cl, ls, wid]):
                    p = [[R(n), (b'c!k', 2, np.resize(np.array([b'ab', b'c'], 'S%d' % w), c))] for n, c, w in zip(ls, cl, wid)]
                    f = write(p)
                    check(t, f, p)
                    if sum(ls):
                        check(t, f, p, mask=np.ones(sum(ls), bool))


def u_single(u, t):
    """one file with sections read by MultiPossiblyStackFiles gives the stack; types that cannot be stacked"""
    for n in (1, 2, 3):
        for ft in (1, 2, 3, 4):
            if not t.begin([n, ft]):
                continue
            p = [[R(k + 1), (b'a', 3, special('i4', k + 1))] for k in range(n)]
            f = write(p, ft, 0, 'sections')
            if ft in (2, 3):
                check(t, f, p)
            r = attempt(t, 'MultiPossiblyStackFiles', f, 3)
            if isinstance(r, Exception):
                t.fail('MultiPossiblyStackFiles: %s' % r)
            elif type(r).__name__ == 'list':
                for i in range(n):
                    if len(r) != n or not all(same(g, a) for g, (_, _, a) in zip(r[i][1], p[i])):
                        t.fail('section %d differs' % i)
            else:
                for k in range(2):
                    if not same(r[0][k], np.concatenate([x[k][2] for x in p])) or r[2][k].tolist() != np.cumsum([len(x[k][2]) for x in p]).tolist():
                        t.fail('possibly stacked column %d differs' % k)


def u_band(u, t):
    shape = u[1]
    for ls in ((10001, 3), (20000, 10000), (5, 30001)):
        for comp in (0, 1):
            p = []
            for i, n in enumerate(ls):
                a = shaped(('i2', 'i4')[i], n, shape)
                a[n // 4:n // 2] = 7
                p.append([R(n), (b'x', 3, a)])
            f = write(p, 2, comp, 'files', 10000)
            n = sum(ls)
            for name, m in [('none', None), ('all', np.ones(n, bool)), ('odd', np.arange(n) % 2 == 1), ('edge', np.abs(np.arange(n) - ls[0]) < 2), ('first', np.arange(n) < 10000), ('last', np.arange(n) == n - 1),
                            ('short', np.ones(10000, bool)), ('long', np.arange(n + 7) % 3 == 0)]:
                if t.begin([ls, comp, name]):
                    check(t, f, p, mask=m)
