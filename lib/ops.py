"""A catalogue of calls that together run every array operation of the module: name -> call. Inputs depend only on the
length, so a call is a closed experiment whose result must not depend on anything else."""

BIN = {'add': 1, 'sub': 2, 'mul': 3, 'mod': 5, 'min': 6, 'max': 7, 'floordiv': 9, 'power': 10}
NUM = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f4', 'f8']
STR = ['S1', 'S3', 'S8', 'S17', 'U1', 'U3']


class Data:
    """deterministic contents; floats are small multiples of 1/4, so that sums are exact in any order"""

    def __init__(self, np, n, layout=None):
        self.np, self.n, self.c, self.layout = np, n, {}, layout

    def lay(self, a):
        """the same contents with another stride"""
        np = self.np
        if self.layout is None or a.ndim != 1:
            return a
        if self.layout == 'reversed':
            return a[::-1].copy()[::-1]
        b = np.empty(3 * len(a) + 1, a.dtype)
        b.view('u1')[:] = 0x33 if a.dtype.kind != 'b' else 1
        v = b[1::3]
        v[:] = a
        return v

    def get(self, ty, salt=0, n=None):
        np = self.np
        n = self.n if n is None else n
        k = (ty, salt, n)
        if k not in self.c:
            i = np.arange(n, dtype='u8')
            h = ((i + 17 * salt + 1) * np.uint64(0x9E3779B97F4A7C15)) >> np.uint64(40)
            d = np.dtype(ty)
            if d.kind == 'b':
                r = (h % 3 == 0)
            elif d.kind in 'iu':
                r = (h % 97).astype(d)
                if d.kind == 'i':
                    r = r - d.type(40)
                r[h % 31 == 0] = np.iinfo(d).min if d.kind == 'i' else np.iinfo(d).max
            elif d.kind == 'f':
                r = ((h % 389).astype('f8') / 4 - 40).astype(d)
                r[h % 31 == 0] = np.nan
                r[h % 53 == 0] = np.inf if salt % 2 else 0
            elif d.kind == 'c':
                r = (h % 389).astype(d) / 4
            else:
                w = d.itemsize // (4 if d.kind == 'U' else 1)
                m = (('k%dabcdefghijklmnopqrstuvwxyz' if w > 1 else '%d') % x for x in (h % 61).tolist())
                r = np.array([x[:1 + j % w] for j, x in enumerate(m)], d)
            self.c[k] = self.lay(r)
        return self.c[k]

    def fin(self, ty, salt=0):
        """without invalid values and infinities"""
        np = self.np
        k = ('fin', ty, salt)
        if k not in self.c:
            r = self.get(ty, salt).copy()
            d = r.dtype
            if d.kind == 'f':
                r[~np.isfinite(r)] = 3
            elif d.kind in 'iu':
                r[r == (np.iinfo(d).min if d.kind == 'i' else np.iinfo(d).max)] = 3
            self.c[k] = self.lay(r)
        return self.c[k]

    def grp(self, ty, g, salt=5, lo=1):
        """group numbers lo .. lo+g-1 with some rows in group 0"""
        np = self.np
        k = ('grp', ty, g, salt, lo)
        if k not in self.c:
            h = self.get('u4', salt).astype('i8')
            r = (h * 7 + np.arange(self.n) // 5) % g + lo
            r[h % 13 == 0] = 0
            self.c[k] = self.lay(r.astype(ty))
        return self.c[k]

    def idx(self, ty, m, bad=True, salt=9):
        np = self.np
        k = ('idx', ty, m, bad, salt)
        if k not in self.c:
            h = self.get('u4', salt).astype('i8') * 31 + np.arange(self.n)
            d = np.dtype(ty)
            m2 = min(m, int(np.iinfo(d).max))
            r = (h % max(m2, 1)).astype(d)
            if bad:
                if d.kind == 'i':
                    r[h % 11 == 0] = np.iinfo(d).min
                    r[h % 7 == 0] = -1
                r[h % 17 == 0] = min(m + 2, int(np.iinfo(d).max))
            self.c[k] = self.lay(r)
        return self.c[k]


def catalogue(np, rc, n, types=None, layout=None):
    D = Data(np, n, layout)
    get, fin, grp, idx, lay = D.get, D.fin, D.grp, D.idx, D.lay
    num = types or NUM
    C = {}
    U = {'abs': 201, 'neg': 202, 'fabs': 203, 'invert': 204, 'floor': 205, 'ceil': 206, 'trunc': 207, 'round': 208, 'negative': 212, 'positive': 213, 'sign': 214, 'rint': 215, 'exp': 216,
         'exp2': 217, 'sqrt': 301, 'log': 302, 'log2': 303, 'log10': 304, 'expm1': 305, 'log1p': 306, 'square': 307, 'cbrt': 308, 'reciprocal': 309, 'lnot': 601, 'isinf': 603, 'isnan': 604,
         'isfinite': 605, 'isnormal': 606, 'isnotnan': 608, 'isnanorzero': 611, 'signbit': 612}
    import D01, D02, D03, D05
    for ty in num:
        a, b = get(ty, 1), fin(ty, 2)
        for op, k in D03.U.items():
            C['unary %s %s' % (op, ty)] = lambda a=a, k=k: rc.BasicMathUnaryOp(a, k, 0)
        for op, k in list(D01.OPS.items()) + list(D02.OPS.items()):
            for sc in ('', 'scalar', 'left'):
                if sc and op not in ('add', 'sub', 'floordiv', 'lt', 'eq', 'mod', 'max'):
                    continue
                x, y = (a, b) if not sc else (a, b[:1]) if sc == 'scalar' else (b[:1], a)
                if n:
                    C['binary %s %s %s' % (op, ty, sc)] = lambda x=x, y=y, k=k: rc.BasicMathTwoInputs((x, y), k, 0)
        C['binary add out %s' % ty] = lambda a=a, b=b: (lambda o: (rc.BasicMathTwoInputs((a, b, o), 1, 0) is not None, o))(np.zeros_like(a))
        for op, k in D05.F.items():
            C['reduce %s %s' % (op, ty)] = lambda a=a, k=k: rc.Reduce(a, k)
            C['reduce finite %s %s' % (op, ty)] = lambda a=b, k=k: rc.Reduce(a, k)
        for t2 in num:
            C['convert safe %s %s' % (ty, t2)] = lambda a=b if t2[0] in 'iu' and ty[0] == 'f' else a, k=np.dtype(t2).num: rc.ConvertSafe(a, k)
        C['convert unsafe %s' % ty] = lambda a=b: rc.ConvertUnsafe(a, 12)
        C['bitcount %s' % ty] = lambda a=b: rc.BitCount(a)
        C['issorted %s' % ty] = lambda a=a: rc.IsSorted(a)
    m = get('?', 3)
    C['booleansum'] = lambda: rc.BooleanSum(m)
    C['booltofancy'] = lambda: rc.BooleanToFancy(m)
    C['booltofancy both'] = lambda: rc.BooleanToFancy(m, both=True)
    C['crc'] = lambda: rc.CalculateCRC(get('f8', 1))
    # gathering and scattering
    for ty in [x for x in NUM if x in num] + STR + ['g', 'D']:
        v = get('f8', 1).astype('g') if ty == 'g' else get(ty, 1)
        for it in ('i1', 'u2', 'i4', 'i8', 'u8') if ty in ('i4', 'f8', 'S3') else ('i4',):
            ix = idx(it, n)
            C['mbget %s %s' % (ty, it)] = lambda v=v, ix=ix: rc.MBGet(v, ix)
        C['booleanindex %s' % ty] = lambda v=v: rc.BooleanIndex(v, m)
        w = lay(v[::-1].copy())
        C['putmask %s' % ty] = lambda v=v, w=w: (lambda o: (rc.PutMask(o, m, w), o))(v.copy())
        C['setitem mask %s' % ty] = lambda v=v, w=w: (lambda o: (rc.SetItem(o, m, w[:int(m.sum())].copy()), o))(v.copy())
        if ty not in ('g', 'D') or True:
            C['where %s' % ty] = lambda v=v, w=w: rc.Where(m, (v, w), v.dtype.num, v.dtype.itemsize)
        C['sort %s' % ty] = lambda v=v: rc.Sort(v, 1)
        for desc in (True, False):
            C['lexsort %s %s' % (ty, desc)] = lambda v=v, desc=desc: rc.LexSort32([v], ascending=[desc])
        C['lexsort64 %s' % ty] = lambda v=v: rc.LexSort64([v])
        C['lexsort two %s' % ty] = lambda v=v: rc.LexSort32([v, get('i4', 4)])
        C['shift %s' % ty] = lambda v=v: (lambda o: (rc.ShiftArrays([o], 3), o))(v.copy())
        C['hstack %s' % ty] = lambda v=v, w=w: rc.HStack([v, w, v[:3]])
        C['mkgroupby %s' % ty] = lambda v=v: rc.MultiKeyGroupBy32([v], 0, None, 2)
        C['mkgroupby linear %s' % ty] = lambda v=v: rc.MultiKeyGroupBy32([v], n, None, 1)
        C['mkgroupby filter %s' % ty] = lambda v=v: rc.MultiKeyGroupBy32([v], n, m, 2)
        C['mkhash %s' % ty] = lambda v=v: rc.MultiKeyHash([v], 0, None)
        C['mkunique %s' % ty] = lambda v=v: rc.MultiKeyUnique32([v], 0, None)
        C['mksuper %s' % ty] = lambda v=v: rc.MultiKeyGroupBy32Super([v], 0, None, 2)
        C['ismember %s' % ty] = lambda v=v, w=w: rc.IsMember32(v, lay(w[:max(1, n // 2)].copy()), 2, 0)
        C['ismember few %s' % ty] = lambda v=v, w=w: rc.IsMember32(v, lay(w[:5].copy()), 2, 0)
        C['ismembercat %s' % ty] = lambda v=v, w=w: rc.IsMemberCategorical(v, lay(w[:5].copy()), 2, 0)
        C['mkismember %s' % ty] = lambda v=v, w=w: rc.MultiKeyIsMember32(([v],), ([lay(w[:max(1, n // 2)].copy())],), 0)
        C['removetrailing %s' % ty] = lambda v=v: rc.RemoveTrailingSpaces(v.copy()) if v.dtype.kind in 'SU' else None
        C['crc %s' % ty] = lambda v=v: rc.CalculateCRC(v)
        C['compress %s' % ty] = lambda v=v: rc.CompressDecompressArrays(rc.CompressDecompressArrays([v, w], 0), 1)
    for ty in num:
        C['mkgroupby two %s' % ty] = lambda v=get(ty, 1): rc.MultiKeyGroupBy32([v, get('i4', 4)], 0, None, 2)
        C['mkgroupby three %s' % ty] = lambda v=get(ty, 1): rc.MultiKeyGroupBy32([v, get('i4', 4), get('S3', 2)], 0, m, 2)
        C['mkrolling %s' % ty] = lambda v=get(ty, 1): (lambda r: (r[:3], rc.MultiKeyRolling((v,), -1, r[3]))[0])(rc.MultiKeyRolling((v, get('i4', 4)), n))
        C['ismember two %s' % ty] = lambda v=get(ty, 1), w=get(ty, 2): rc.MultiKeyIsMember32(([v, get('S3', 2)],), ([w, get('S3', 2)],), 0)
    tm = lay(np.cumsum(get('u1', 6).astype('i8') % 3))
    for ty in ('i4', 'i8', 'f4', 'f8'):
        C['align %s' % ty] = lambda ty=ty: rc.MultiKeyAlign32(([grp('i4', 5)],), ([grp('i4', 5, 6)],), lay(tm.astype(ty)), lay(tm.astype(ty)), True, True)
        C['align back %s' % ty] = lambda ty=ty: rc.MultiKeyAlign32(([grp('i4', 5)],), ([grp('i4', 5, 6)],), lay(tm.astype(ty)), lay(tm.astype(ty)), False, False)
    # groups
    for kt in ('i1', 'i2', 'i4', 'i8'):
        for g in (3, 100, n // 2 + 1):
            if g > 100 and kt in ('i1', 'i2'):
                continue
            k = grp(kt, g)
            C['bincount %s %d' % (kt, g)] = lambda k=k, g=g: rc.BinCount(k, g + 1)
            C['bincount pack %s %d' % (kt, g)] = lambda k=k, g=g: rc.BinCount(k, g + 1, pack=True)
            C['groupfrombincount %s %d' % (kt, g)] = lambda k=k, g=g: rc.GroupFromBinCount(k, rc.BinCount(k, g + 1))
            C['makeinext %s %d' % (kt, g)] = lambda k=k, g=g: rc.MakeiNext(k, g + 1, 0)
            C['groupbypack %s %d' % (kt, g)] = lambda k=k, g=g: rc.GroupByPack32(k, None, g)
            C['combinefilter %s %d' % (kt, g)] = lambda k=k: rc.CombineFilter(k, m)
            C['combine1 %s %d' % (kt, g)] = lambda k=k, g=g: rc.CombineAccum1Filter(k, g + 1, m)
            C['combine2 %s %d' % (kt, g)] = lambda k=k, g=g: rc.CombineAccum2Filter(k, grp('i4', 4, 8), g + 1, 5, m)
            C['makeifirst %s %d' % (kt, g)] = lambda k=k, g=g: rc.MakeiFirst(k, g + 1, m, 0)
            C['makeilast %s %d' % (kt, g)] = lambda k=k, g=g: rc.MakeiFirst(k, g + 1, m, 1)
            for ty in num if g != 3 or kt == 'i4' else ('f8', 'i4'):
                v = get(ty, 1)
                C['groupby %s %d %s' % (kt, g, ty)] = lambda v=v, k=k, g=g: [rc.GroupByAll32([v], k, g, [f], [0], [g + 1], 0) for f in GB]
                C['groupby finite %s %d %s' % (kt, g, ty)] = lambda v=fin(ty, 2), k=k, g=g: rc.GroupByAll32([v] * len(GB), k, g, GB, [0] * len(GB), [g + 1] * len(GB), 0)
                if kt == 'i4':
                    for f in range(300, 310):
                        C['ema %d %s %d' % (f, ty, g)] = lambda v=fin(ty, 2), k=k, g=g, f=f: rc.EmaAll32([v, v], k, g, f, (0.5, tm, m, None))

                def packed(v, k, g, f, par):
                    ig, fi, cn = rc.GroupByPack32(k, None, g)
                    return rc.GroupByAllPack32([v], k, ig, fi, cn, g, [f], [0], [g + 1], par)
                if kt == 'i4' or ty == 'f8':
                    for f in list(range(100, 107)) + list(range(200, 208)):
                        C['grouppack %d %s %d %s' % (f, kt, g, ty)] = lambda v=v, k=k, g=g, f=f: packed(v, k, g, f, 500000000 if f in (106,) else 3 if f != 207 else 500000000 * 1000 + 3)
    C['groupby many columns'] = lambda: rc.GroupByAll32([get(t, 1) for t in ('i4', 'f8', 'i1', 'u8')], grp('i4', 100), 100, [0, 1, 2, 3], [0] * 4, [101] * 4, 0)
    for st in ('S1', 'S3', 'U3'):
        for f in (100, 101, 102):
            C['grouppack %d %s' % (f, st)] = lambda st=st, f=f: packed(get(st, 1), grp('i4', 7), 7, f, 1)
    for ty in num:
        for f in D_ROLL:
            C['rolling %d %s' % (f, ty)] = lambda v=fin(ty, 2), f=f: rc.Rolling(v, f, 4 if f != 104 else 4 * (10**9 + 1) + 5 * 10**8)
        for f in (0, 1):
            C['timewindow %d %s' % (f, ty)] = lambda v=fin(ty, 2), f=f: rc.TimeWindow(v, tm, f, 5)
    # cuts and searches
    cuts = lay(np.array([-30.0, -3.5, 0, 12, 40]))
    for ty in num:
        for mode in (0, 1, 2):
            C['cuts %d %s' % (mode, ty)] = lambda v=get(ty, 1), mode=mode: rc.BinsToCutsBSearch(v, cuts, mode)
        C['cutsint %s' % ty] = lambda v=get(ty, 1): rc.BinsToCutsBSearch(v, lay(np.array([-3, 1, 7], 'i4')), 0)

        def sorted_cuts(v):
            o = rc.LexSort32([v])
            c = rc.NanInfCountFromSort(v, o)
            return c, rc.BinsToCutsSorted(v, cuts, o, c, 0)
        C['cutssorted %s' % ty] = lambda v=get(ty, 1): sorted_cuts(v)
        C['fromlexsort %s' % ty] = lambda v=get(ty, 1): rc.GroupFromLexSort(rc.LexSort32([v]), v)
    C['fromlexsort two'] = lambda: rc.GroupFromLexSort(rc.LexSort64([get('S3', 1)]), get('S3', 1))
    C['cutsstr'] = lambda: rc.BinsToCutsBSearch(get('S3', 1), lay(np.array([b'a', b'k3', b'k5', b'z'])), 0)
    for ty in ('f4', 'f8'):
        C['interp %s' % ty] = lambda ty=ty: rc.InterpExtrap2d(get(ty, 1), lay(np.array([0.0, 5, 20], ty)), lay(np.array([1.0, 7, 2], ty)), 0)
        C['interp rows %s' % ty] = lambda ty=ty, p=np.tile(np.array([0.0, 5, 20], ty), (n, 1)), q=np.tile(np.array([1.0, 7, 2], ty), (n, 1)): rc.InterpExtrap2d(fin(ty, 2), p, q, 0)
    C['reindex'] = lambda: rc.ReIndex(idx('i4', n, False), get('f8', 1).copy())
    C['reverseshuffle'] = lambda p=lay(np.argsort(get('u4', 7), kind='stable').astype('i4')): rc.ReverseShuffle(p)
    C['merge'] = lambda: rc.MergeBinnedAndSorted(lay(np.sort(grp('i4', 7))), lay(np.sort(grp('i4', 7, 6))), tm, tm, 8)
    C['fixup'] = lambda: rc.IsMemberCategoricalFixup(grp('i4', 5), grp('i4', 5, 6), lay(np.array([0, 2, 1, 4, 3], 'i4')), 6, 1, 1)
    C['sortinplace'] = lambda: (lambda o: (rc.SortInPlace(o, 1), o))(get('f8', 1).copy())
    C['homogenize'] = lambda: rc.HomogenizeArrays([get('i4', 1), get('f4', 1), get('i1', 1)], 0)
    C['compressstr'] = lambda: rc.DecompressString(rc.CompressString(get('S3', 1).tobytes() + b'x'))
    # text
    dates = lay(np.array([b'2024-%02d-%02d' % (1 + i % 12, 1 + i % 28) for i in range(n)] or [], 'S10'))
    times = lay(np.array([b'%02d:%02d:%02d.%03d' % (i % 24, i % 60, (i * 7) % 60, i % 1000) for i in range(n)] or [], 'S12'))
    both = lay(np.array([a.tobytes().rstrip(b'\0') + b' ' + b.tobytes().rstrip(b'\0') for a, b in zip(dates, times)] or [], 'S23'))
    C['dates'] = lambda: rc.DateStringToNanos(dates)
    C['times'] = lambda: rc.TimeStringToNanos(times)
    C['datetimes'] = lambda: rc.DateTimeStringToNanos(both)
    C['strptime'] = lambda: rc.StrptimeToNanos(both, b'%Y-%m-%d %H:%M:%S')
    if n >= 4:
        dt = np.dtype([('a', 'i4'), ('b', 'f8'), ('c', 'S3')])
        rec = np.zeros(n, dt)
        rec['a'], rec['b'], rec['c'] = get('i4', 1), get('f8', 1), get('S3', 1)

        def rec2():
            o = [np.zeros(n, 'i4'), np.zeros(n, 'f8')]
            r = rc.RecordArrayToColMajor(rec, lay(np.array([0, 4], 'i8')), (lambda q: (q.__setitem__(0, o[0]), q.__setitem__(1, o[1]), q)[2])(np.empty(2, object)))
            return r, o
        C['record'] = rec2
    return C


GB = [0, 1, 2, 3, 4, 5, 50, 51, 52, 53, 54, 55]
D_ROLL = [0, 1, 102, 103, 104, 106, 107, 108, 109]


def flat(np, r):
    """a comparable image of a result"""
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return ('O', [flat(np, x) for x in r.ravel().tolist()])
        b = r.tobytes()
        if r.dtype.char == 'g':
            b = bytes(r.ravel().view('u1').reshape(-1, 16)[:, :10].tobytes()) if r.size else b''
        return (r.dtype.str, r.shape, b)
    if isinstance(r, (list, tuple)):
        return tuple(flat(np, x) for x in r)
    if isinstance(r, dict):
        return tuple((k, flat(np, r[k])) for k in sorted(r))
    return (type(r).__name__, repr(r))


def run(np, f):
    try:
        return flat(np, f())
    except (SystemError, MemoryError):
        raise
    except Exception as e:
        return ('EXC', type(e).__name__, str(e)[:80])
