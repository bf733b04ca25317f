"""Selective SDS reads: every subset of names and folders, every row mask, info only, sections; against applying the selection to what was saved."""
import itertools, os
import numpy as np
import rcmod
import S01, S04

META = {'bounds': 'files of every type (struct, dataset, table, array, onefile) with plain, category and folder names and flags of every kind; every subset of 6 names (with missing and partial ones) x every subset of 4 folders; '
                  'every mask of 0..n+2 rows over n = 0..4 (thorough 5) rows x fancy unset/false/true x ten element types and sizes, 1-D, 2-D, C and Fortran order x compression x contiguous or strided mask; '
                  'bands: all-true prefixes of every length around the band ends, one row, one block, alternating masks; every operation (single, multi, stacked, possibly stacked, info); one to three sections',
        'assumptions': ['a mask longer or shorter than the rows selects among the rows both have (fancy masks are shorter by design)', 'only arrays that belong to the rows of a dataset are filtered (flag 1 and not scalar, meta or nested), as documented',
                        'a part from which every row is filtered out contributes no categories either when stacking']}
rc = None
TIER = 'quick'
DIR = None


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier, 'io')


def child_init():
    global rc, DIR
    S04.child_init()
    rc, DIR = S04.rc, S04.DIR


KINDS = ['i1', 'i2', 'i4', 'i8', 'f4', 'f8', 'S3', 'U2', 'S1', 'g']
NAMES = [(b'a', 3), (b'b!c', 2), (b'b', 3), (b'f/', 16), (b'f/a', 3), (b'f/g/a', 3), (b'g/b!x', 2), (b'z', 7)]
POOL = ['a', 'b', 'c', 'b!c', 'f/a', 'no']
FPOOL = ['f/', 'f/g/', 'g/', 'a']


def incl(name, flag, ft, inc, fol):
    """documented rule for names"""
    n = name.decode()

    def by_name():
        base = n[n.rfind('/') + 1:] if n.rfind('/') > 0 else n
        return base in inc or ('!' in base and base[:base.index('!')] in inc)

    def by_folder():
        return n in fol or (n[:n.rfind('/') + 1] in fol if '/' in n else False)
    if ft != 5:
        return not inc or by_name()
    if not inc:
        return not fol or by_folder()
    if not fol:
        return by_name()
    if n.endswith('/') and by_folder():
        return True
    return by_name() and by_folder()


def filtered(flag, ft):
    return ft in (2, 3, 4) and flag & 1 and not flag & (4 | 8 | 16)


def rows(a, mask):
    k = min(len(a), len(mask))
    return a[:k][mask[:k]]


def same(g, w):
    return isinstance(g, np.ndarray) and g.dtype == w.dtype and g.shape == w.shape and g.tobytes() == w.tobytes()


def path():
    return (DIR + '/f.sds').encode()


def write(arrs, names, comp, ft, meta=b'meta', **k):
    if 'section' not in k and os.path.exists(path()):
        os.unlink(path())
    S01.write(path(), arrs, names, comp, 1, ft, meta, **k)


def units(tier):
    u = [['names', ft, c] for ft in (1, 2, 3, 4, 5) for c in (0, 1)]
    u += [['mask', n, k, c] for n in range(0, 5 + (tier == 'thorough')) for k in KINDS for c in (0, 1)]
    u += [['both', ft] for ft in (1, 2, 3, 4, 5)]
    u += [['band', k, b] for k in ('u1', 'i2', 'f8', 'S3', '2d') for b in (10000, 10001, 30000)]
    u += [['info', ft] for ft in (1, 2, 3, 4, 5)] + [['sections', ft, n] for ft in (1, 2, 5) for n in (1, 2, 3)]
    return u


def expect(t, what, got, arrs, names, ft, mask=None, inc=(), fol=(), stacked=False):
    """got = (arrays, items) of one part"""
    ga, gi = got
    sel = [i for i, (n, f) in enumerate(names) if incl(n, f, ft, inc, fol)]
    gone = stacked and mask is not None and any(filtered(names[i][1], ft) for i in sel) and not any(mask[:max([len(arrs[i]) for i in sel if filtered(names[i][1], ft)])])
    if stacked:
        if len(ga) != len(sel) or [(x[0], x[1]) for x in gi] != [names[i] for i in sel]:
            return t.fail('%s: has the columns %r instead of %r' % (what, [x[0] for x in gi], [names[i][0] for i in sel]))
        ga = {i: g for i, g in zip(sel, ga)}
    else:
        if len(ga) != len(arrs) or [(x[0], x[1]) for x in gi] != list(names):
            return t.fail('%s: lists %r instead of %r' % (what, [x[0] for x in gi], [n[0] for n in names]))
        ga = dict(enumerate(ga))
    seen = False
    for i in range(len(arrs)):
        g = ga.get(i)
        if i not in sel:
            if g is not None:
                return t.fail('%s: has %r, which was not asked for' % (what, names[i][0]))
            continue
        w = arrs[i]
        if mask is not None and filtered(names[i][1], ft):
            w = rows(w, mask)
            seen = True
        elif gone and seen:
            w = w[:0]
        elif gone and g is not None and g.shape[0] == 0:
            w = w[:0]
        if not same(g, w):
            return t.fail('%s: %r is %s instead of %s' % (what, names[i][0], describe(g), describe(w)))
    return True


def describe(a):
    return '%s%s %s' % (a.dtype, a.shape, a.ravel()[:12].tolist()) if isinstance(a, np.ndarray) else repr(a)


def attempt(t, fn, *a, **k):
    t.calls += 1
    try:
        return getattr(rc, fn)(*a, **k)
    except ValueError as e:
        return e


def stackparts(r):
    return r[0], r[1]


def content(n, kind, i=0):
    s = {'2d': (n, 3)}.get(kind, (n,))
    return S01.make('i4' if kind == '2d' else kind, s, 'rand' if i == 0 else 'period')


def run_unit(u, t):
    globals()['u_' + u[0]](u, t)
    t.beat()


def arrays8(n=4):
    return [content(n, k, i % 2) for i, k in enumerate(['i4', 'S3', 'f8', 'i1', 'i8', 'U2', 'i2', 'f4'])]


def u_names(u, t):
    ft, comp = u[1:]
    A = arrays8()
    A[1], A[6] = A[1][:3], A[6][:2]
    write(A, NAMES, comp, ft)
    for ni in range(64):
        inc = [x for i, x in enumerate(POOL) if ni >> i & 1]
        for nf in range(16):
            fol = [x for i, x in enumerate(FPOOL) if nf >> i & 1]
            if not t.begin([inc, fol]):
                continue
            kw = {}
            if inc:
                kw['include'] = [x.encode() for x in inc]
            if fol:
                kw['folders'] = fol if ni % 2 else [x.encode() for x in fol]
            r = attempt(t, 'MultiDecompressFiles', [path()], 3, **kw)
            t.outcome((ft, ni, nf))
            if isinstance(r, Exception):
                t.fail('MultiDecompressFiles: %s' % r)
                continue
            if not expect(t, 'MultiDecompressFiles', (r[0][1], r[0][2]), A, NAMES, ft, inc=inc, fol=fol):
                continue
            if r[0][0] != b'meta':
                t.fail('the metadata is %r' % r[0][0])
            if not inc and not (ft != 5 and fol):
                r = attempt(t, 'DecompressFile', path(), 3, **kw)
                if isinstance(r, Exception):
                    t.fail('DecompressFile: %s' % r)
                else:
                    expect(t, 'DecompressFile', (r[0][1], r[0][2]), A, NAMES, ft, inc=inc, fol=fol)
            r = attempt(t, 'MultiStackFiles', [path()], 3, **kw)
            if r is None:
                if any(incl(n, f, ft, inc, fol) for n, f in NAMES):
                    t.fail('MultiStackFiles gives None')
            elif isinstance(r, Exception):
                t.fail('MultiStackFiles: %s' % r)
            else:
                expect(t, 'MultiStackFiles', stackparts(r), A, NAMES, ft, inc=inc, fol=fol, stacked=True)


def masks(n):
    for k in range(n + 3):
        for m in itertools.product((False, True), repeat=k):
            yield np.array(m, dtype=bool)


def mask_case(t, A, names, ft, mask, fancy, ops=('DecompressFile', 'MultiDecompressFiles', 'MultiStackFiles'), inc=()):
    kw = {} if fancy is None else {'fancy': fancy}
    n = len(A[0])
    if inc:
        kw['include'] = [x.encode() for x in inc]
    for fn in ops:
        if inc and fn == 'DecompressFile':
            continue
        r = attempt(t, fn, path() if fn == 'DecompressFile' else [path()], 3, mask=mask, **kw)
        t.outcome((fn, type(r).__name__))
        if isinstance(r, Exception):
            # refused when the length does not fit and the caller said what kind of mask it is
            if fn != 'DecompressFile' and ((fancy is False and len(mask) != n) or (fancy is True and len(mask) > n)):
                continue
            if fn == 'MultiStackFiles' and ft not in (2, 3):
                continue
            # no column that was asked for tells how many rows there are
            if fn == 'MultiStackFiles' and fancy is not None and not any(f & 1 and incl(x, f, ft, inc, ()) for x, f in names):
                continue
            t.fail('%s: %s' % (fn, r))
            continue
        if r is None:
            if any(incl(x, f, ft, inc, ()) for x, f in names):
                t.fail('%s gives None' % fn)
            continue
        if fn == 'MultiStackFiles':
            expect(t, fn, stackparts(r), A, names, ft, mask, inc=inc, stacked=True)
            cut = r[2]
            sel = [i for i, (x, f) in enumerate(names) if incl(x, f, ft, inc, ())]
            if [c.tolist() for c in cut] != [[len(a)] for a in r[0]]:
                t.fail('cutoffs %s for lengths %s' % ([c.tolist() for c in cut], [len(a) for a in r[0]]))
        else:
            expect(t, fn, (r[0][1], r[0][2]), A, names, ft, mask, inc=inc)


def u_mask(u, t):
    n, kind, comp = u[1:]
    # a long enough element to be compressed too
    A = [content(n, kind), content(n, 'i4', 1), content(3, 'S3')]
    two = np.tile(content(n, kind)[:, None], (1, 3))
    A += [two.copy(), content(n, 'u1'), content(n, 'f8', 1)]
    names = [(b'a', 1), (b'b', 3), (b'cat', 2), (b'two', 1), (b'scalar', 5), (b'nested', 9)]
    write(A, names, comp, 2)
    F = None
    if n:
        F = DIR + '/F.sds'
    for mask in masks(n):
        for fancy in (None, False, True):
            for strided in (0, 1):
                if strided and fancy is not None:
                    continue
                if not t.begin([mask.astype(int).tolist(), fancy, strided]):
                    continue
                m = mask
                if strided:
                    m = np.zeros(2 * len(mask) + 1, dtype=bool)
                    m[1::2] = ~np.resize(mask, len(m[1::2]))
                    m = m[0::2][:len(mask)]
                    m[:] = mask
                mask_case(t, A, names, 2, m, fancy)
    # Fortran order
    write([A[0], np.asfortranarray(two), np.asfortranarray(np.stack([two, two], 2))], [(b'a', 1), (b'F', 1), (b'F3', 1)], comp, 2)
    for mask in masks(n):
        if t.begin(['F', mask.astype(int).tolist()]):
            mask_case(t, [A[0], two, np.stack([two, two], 2)], [(b'a', 1), (b'F', 1), (b'F3', 1)], 2, mask, None)


def u_both(u, t):
    ft = u[1]
    for n in (0, 3):
        A = arrays8(n)
        A[1], A[6] = content(2, 'S3'), content(2, 'i2')
        write(A, NAMES, 1, ft)
        for inc in itertools.chain.from_iterable(itertools.combinations(POOL[:4], k) for k in range(3)):
            for mask in masks(n):
                for fancy in (None, False, True):
                    if t.begin([n, inc, mask.astype(int).tolist(), fancy]):
                        mask_case(t, A, NAMES, ft, mask, fancy, inc=inc)


def u_band(u, t):
    kind, band = u[1:]
    n = 30003 if kind != '2d' else 20005
    A = [content(n, kind), content(n, 'u1')]
    A[0][n // 4:n // 2] = A[0][0]        # compressible middle
    names = [(b'x', 1), (b'y', 3)]
    for comp in (0, 1):
        write(A, names, comp, 2, bandsize=band)
        ms = {}
        edges = sorted({0, 1, 2, band - 1, band, band + 1, 2 * band - 1, 2 * band, 2 * band + 1, 3 * band, n - 1, n, n + 1} & set(range(n + 2)))
        for k in edges:
            ms['first %d' % k] = np.ones(k, dtype=bool)
            m = np.zeros(n, dtype=bool); m[:k] = True
            ms['first %d of all' % k] = m
            ms['last %d' % k] = m[::-1].copy()
            if k < n:
                m = np.zeros(n, dtype=bool); m[k] = True
                ms['only %d' % k] = m
                ms['all but %d' % k] = ~m
                ms['only %d, short' % k] = m[:k + 1].copy()
            for j in edges:
                if j > k and j <= n:
                    m = np.zeros(n, dtype=bool); m[k:j] = True
                    ms['%d to %d' % (k, j)] = m
        for s in (2, 3, 7):
            ms['every %d' % s] = np.arange(n) % s == 1
            ms['every %d, short' % s] = np.arange(n - band // 2) % s == 0
            ms['every %d, long' % s] = np.arange(n + 5) % s == 0
        for name, m in ms.items():
            if t.begin([comp, name]):
                mask_case(t, A, names, 2, m, None)


def info_of(a):
    return (a.shape, a.dtype.num, a.itemsize)


def u_info(u, t):
    ft = u[1]
    for n in (0, 1, 4):
        for comp in (0, 1):
            A = arrays8(n) + [np.asfortranarray(content(n, '2d')), content(n, '2d')]
            names = NAMES + [(b'F', 1), (b'C', 1)]
            write(A, names, comp, ft)
            for fn in ('DecompressFile', 'MultiDecompressFiles'):
                if not t.begin([n, comp, fn]):
                    continue
                r = attempt(t, fn, path() if fn == 'DecompressFile' else [path()], 5)
                if isinstance(r, Exception):
                    t.fail(str(r))
                    continue
                f = attempt(t, fn, path() if fn == 'DecompressFile' else [path()], 3)
                x, y = r[0], f[0]
                t.outcome((fn, n))
                if x[0] != b'meta' or [(i[0], i[1]) for i in x[2]] != names or [(i[0], i[1]) for i in y[2]] != names:
                    t.fail('metadata or names differ')
                if dict(x[3]) != dict(y[3]):
                    t.fail('the headers differ: %r %r' % (x[3], y[3]))
                for i, (g, a) in enumerate(zip(x[1], A)):
                    if (tuple(g[0]), g[3]) != (a.shape, a.itemsize) or np.dtype(NUM[g[1]]).kind != a.dtype.kind or \
                            bool(g[2] & 1) != bool(a.flags.c_contiguous) or bool(g[2] & 2) != bool(a.flags.f_contiguous):
                        t.fail('array %d %s is described as %r' % (i, describe(a), g))


NUM = {i: c for i, c in enumerate('?bBhHiIlLqQfdgFDG')}
NUM.update({18: 'S', 19: 'U'})


def u_sections(u, t):
    ft, n = u[1:]
    secs = [arrays8(k + 2) for k in range(n)]
    for s in secs:
        s[1] = s[1][:1]
    if os.path.exists(path()):
        os.unlink(path())
    for i, s in enumerate(secs):
        S01.write(path(), s, NAMES, i % 2, 1, ft, b'm%d' % i, section='s%d' % i)
    # names
    for ni in range(0, 64, 1):
        inc = [x for i, x in enumerate(POOL) if ni >> i & 1]
        for fol in ([], ['f/'], ['g/', 'f/g/']):
            if not t.begin([inc, fol]):
                continue
            kw = {'include': [x.encode() for x in inc]} if inc else {}
            if fol:
                kw['folders'] = fol
            r = attempt(t, 'MultiDecompressFiles', [path()], 3, **kw)
            if isinstance(r, Exception) or len(r) != n:
                t.fail('MultiDecompressFiles: %s' % (r if isinstance(r, Exception) else len(r)))
                continue
            t.outcome(ni)
            for i in range(n):
                expect(t, 'section %d' % i, (r[i][1], r[i][2]), secs[i], NAMES, ft, inc=inc, fol=fol)
                if r[i][0] != b'm%d' % i:
                    t.fail('section %d has the metadata %r' % (i, r[i][0]))
    # selecting sections by name
    for k in range(1, 1 << n):
        want = ['s%d' % i for i in range(n) if k >> i & 1]
        if k != (1 << n) - 1 and t.begin(['sections', want]):
            r = attempt(t, 'MultiDecompressFiles', [path()], 3, sections=want)
            if isinstance(r, Exception) or [x[0] for x in r] != [b'm' + x[1:].encode() for x in want]:
                whole = not isinstance(r, Exception) and [x[0] for x in r] == [b'm%d' % i for i in range(n)]
                t.fail('asking for sections %s gives %s' % (want, r if isinstance(r, Exception) else [x[0] for x in r]), 'sections-ignored' if whole else None)
    # filters
    if ft == 2:
        tot = sum(len(s[0]) for s in secs)
        for mk in (itertools.product((False, True), repeat=tot) if tot < 10 else []):
            mask = np.array(mk)
            if not t.begin(['stack', mask.astype(int).tolist()]):
                continue
            r = attempt(t, 'MultiStackFiles', [path()], 3, mask=mask)
            if isinstance(r, Exception):
                t.fail(str(r))
                continue
            o = 0
            parts = []
            for s in secs:
                parts.append(mask[o:o + len(s[0])])
                o += len(s[0])
            for i, (nm, f) in enumerate(NAMES):
                fl = filtered(f, 2)
                w = [rows(s[i], p) if fl else (s[i] if p.any() else s[i][:0]) for s, p in zip(secs, parts)]
                if not same(r[0][i], np.concatenate(w)) or r[2][i].tolist() != np.cumsum([len(x) for x in w]).tolist():
                    t.fail('%r is %s (cutoffs %s) instead of %s' % (nm, describe(r[0][i]), r[2][i].tolist(), describe(np.concatenate(w))))
                    break
