"""Memory safety: every block of the module and every numpy array lies against an inaccessible page, freed blocks are
inaccessible, inputs are read-only; reference counts and allocated blocks must not grow."""
import gc, glob, itertools, os, shutil, sys, tempfile
import numpy as np
import ops, rcmod

META = {'bounds': 'the catalogue of about 3300 calls (every array operation x types, group and index values invalid, negative and too large) at lengths 0..5, 15..17, 31..33, 40, 1000 (thorough also 6..14, 18..30, 63..65, 127..129, 5000, 40000), '
                  'each with all blocks ending at an inaccessible page, then starting at one; inputs (also strided and reversed at lengths 1, 7, 40, thorough to 1000: equal result or refusal) mapped read-only; every index array over -2..n+1 of every integer type at every index parameter, bins and groups out of range; every function with every argument in turn replaced by each of 61 unsuitable values, left out or added; growth of arrays, module memory, python objects and reference counts over repeated calls',
        'assumptions': ['threading off (T04 reports conflicting accesses)', 'overruns of the stack and of static tables are not seen', 'failing allocations are not explored','an access that skips the guard page (more than 4 KB away) into another block is not seen']}
rc = G = None
TIER = 'quick'
K = 96


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier, 'grd')


def child_init():
    global rc, G
    _, rc = rcmod.load()
    G = rcmod.Guard(np)
    os.dup2(os.open('/dev/null', os.O_WRONLY), 1)


def lengths():
    q = [0, 1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 40, 1000]
    return q if TIER == 'quick' else sorted(set(q + list(range(34)) + [63, 64, 65, 127, 128, 129, 5000, 40000]))


def units(tier):
    return [['badargs', i, 1] for i in range(32)] + [['bins', 1], ['bins', 2]] + [['index', ty, n, 1 + (n > 2), i] for ty in INTS for n in ((5,) if tier == 'quick' else (2, 3, 5)) for i in range(8)] + [['guard', i, m] for i in range(K) for m in (1, 2)] + [['layout', i] for i in range(K)] + [['leak', i] for i in range(K)]


def arrays(f):
    """the arrays that a call holds (no recursion by closures: that would leave cycles)"""
    seen, stack, done = {}, [(f, 0)], set()
    while stack:
        x, d = stack.pop()
        if id(x) in done or d > 6:
            continue
        done.add(id(x))
        if isinstance(x, np.ndarray):
            seen[id(x)] = x
        elif isinstance(x, (list, tuple)):
            stack += [(y, d) for y in x]
        elif isinstance(x, dict):
            stack += [(y, d) for y in x.values()]
        elif isinstance(x, ops.Data):
            stack.append((x.c, d))
        elif callable(x):
            if isinstance(getattr(x, '__self__', None), ops.Data):
                stack.append((x.__self__.c, d))
            stack += [(c.cell_contents, d + 1) for c in getattr(x, '__closure__', None) or ()]
            stack += [(y, d + 1) for y in getattr(x, '__defaults__', None) or ()]
    return list(seen.values())


def guarded(t, n, names, mode):
    G.set(mode, 0xa5)
    C = ops.catalogue(np, rc, n)
    for name in list(C)[names]:
        if not t.begin([name, n, mode]):
            continue
        f = C[name]
        a = ops.run(np, f)
        ins = [x for x in arrays(f) if x.dtype != object]
        img = [x.tobytes() for x in ins]
        ro = [x for x in ins if x.size and x.base is None and G.protect(x)]
        x = None
        refs = [sys.getrefcount(y) for y in ins]
        b = ops.run(np, f)
        refs2 = [sys.getrefcount(y) for y in ins]
        for x in ro:
            G.protect(x, False)
        t.calls += 2
        t.count('protected_inputs', len(ro))
        if a != b:
            t.fail('%s (length %d): the second of two equal calls gives another result: %s' % (name, n, repr(b)[:150]))
        if [x.tobytes() for x in ins] != img:
            t.fail('%s (length %d) changes its input' % (name, n))
        if refs2 != refs:
            t.fail('%s (length %d) changes the reference count of an input: %s to %s' % (name, n, refs, refs2))
    t.beat()


def leaks(t, n, names):
    G.set(0, -1)
    C = ops.catalogue(np, rc, n)
    for name in list(C)[names]:
        if not t.begin([name, n]):
            continue
        f = C[name]

        def go(k):
            for _ in range(k):
                try:
                    f()
                except Exception:
                    pass
        go(12)
        G.set(1, -1)
        go(12)
        for attempt in range(3):
            gc.collect()
            gc.disable()
            s, ab = G.stat(), sys.getallocatedblocks()
            go(30)
            ab, s2 = sys.getallocatedblocks() - ab, G.stat()
            gc.enable()
            if s2[0] - s[0] < 25 and s2[1] - s[1] < 25 and ab < 25:
                break
        else:
            t.fail('%s (length %d) leaks: after 30 calls %d blocks of the module, %d arrays and %d objects are left' % (name, n, s2[0] - s[0], s2[1] - s[1], ab))
        t.calls += 54
        G.set(0, -1)
    t.beat()


def bins(t, mode):
    """bin ranges inside, reversed, negative and beyond the groups; too few and too many of them"""
    G.set(mode, 0xa5)
    v, one = np.array([1., 2, 3]), np.array([1, 1, 2], 'i4')
    P = rc.GroupByPack32(one, None, 2)
    L = [-(1 << 63), -40, -1, 0, 1, 2, 3, 4, 50, 1 << 41, (1 << 63) - 1, 1 << 70]
    for f in ops.GB + list(range(100, 107)) + list(range(200, 208)):
        for lo, hi in itertools.product([[x] for x in L] + [[], [0, 0]], [[x] for x in L] + [[], [3, 3]]):
            if not t.begin([f, lo, hi, mode]):
                continue
            t.calls += 1
            if f < 100:
                ops.run(np, lambda: rc.GroupByAll32([v], one, 2, [f], lo, hi, 0))
            else:
                ops.run(np, lambda: rc.GroupByAllPack32([v], one, P[0], P[1], P[2], 2, [f], lo, hi, 3))


def examples():
    """function -> a valid argument tuple"""
    X, Y = [b'vf%d_%s.sds' % (os.getpid(), c) for c in (b'x', b'y')]
    f8, i4, b, k, s = np.arange(5.0), np.arange(5, dtype='i4'), np.array([1, 0, 1, 1, 0], '?'), np.array([1, 2, 1, 0, 2], 'i4'), np.array([b'a', b'bc', b'a', b'd', b'e'])
    one = np.array([1, 2, 1, 1, 2], 'i4')
    P = rc.GroupByPack32(one, None, 2)
    t8 = np.arange(5)
    d = np.array([b'2024-01-02'] * 5)
    z = np.zeros
    E = {
        'BasicMathOneInput': (f8, 201, 0), 'BasicMathUnaryOp': (f8, 201, 0), 'BasicMathTwoInputs': ((f8, f8), 1, 0), 'BinCount': (k, 3), 'BinsToCutsBSearch': (f8, f8, 0),
        'BinsToCutsSorted': (f8, f8, i4, (0, 0, 0), 0), 'BitCount': (i4,), 'BooleanIndex': (f8, b), 'BooleanSum': (b,), 'BooleanToFancy': (b,), 'CalculateCRC': (f8,),
        'CombineAccum1Filter': (k, 3, b), 'CombineAccum2Filter': (k, k, 3, 3, b), 'CombineFilter': (k, b), 'CompareNumpyMemAddress': (f8, i4), 'CompressDecompressArrays': ([f8, i4], 0),
        'CompressString': (b'abc',), 'DecompressString': (rc.CompressString(b'abcabcabc'),), 'ConvertSafe': (f8, 11), 'ConvertUnsafe': (f8, 11), 'DateStringToNanos': (d,), 'DateTimeStringToNanos': (d,),
        'TimeStringToNanos': (d,), 'StrptimeToNanos': (d, b'%Y-%m-%d'), 'EmaAll32': ([f8, i4], k, 2, 300, (0.5, None, b, None)), 'Empty': ([5], 11, 0, False), 'AllocateNumpy': ([5], 11),
        'GetUpcastNum': (1, 2), 'GroupByAll32': ([f8, i4], k, 2, [0, 1], [0, 0], [3, 3], 0), 'GroupByAll64': ([f8], k, 2, [0], [0], [3], 0),
        'GroupByAllPack32': ([f8, i4], one) + tuple(P) + (2, [100, 103], [0, 0], [3, 3], 0), 'GroupByPack32': (one, None, 2), 'GroupFromBinCount': (k, np.array([1, 2, 2], 'i4')),
        'GroupFromLexSort': (i4, f8), 'HStack': ([f8, i4],), 'HomogenizeArrays': ([f8, i4], 0), 'InterpExtrap2d': (f8, f8, f8, 0), 'IsMember32': (s, s, 2, 0), 'IsMember64': (s, s, 2, 0),
        'IsMemberCategorical': (k, k, 2, 0), 'IsMemberCategoricalFixup': (k, k, np.array([0, 1], 'i4'), 2, 1, 1), 'IsSorted': (f8,), 'LexSort32': ([f8, i4],), 'LexSort64': ([f8],),
        'MBGet': (f8, i4), 'MakeiFirst': (k, 3, b, 0), 'MakeiNext': (k, 3, 0), 'MergeBinnedAndSorted': (k, k, t8, t8, 3), 'MultiKeyAlign32': (([one],), ([one],), t8, t8, True, True),
        'MultiKeyGroupBy32': ([f8, s], 0, None, 2), 'MultiKeyGroupBy32Super': ([f8, s], 0, None, 2), 'MultiKeyHash': ([f8, s], 0, None), 'MultiKeyIsMember32': (([f8, s],), ([f8, s],), 0),
        'MultiKeyUnique32': ([f8, s], 0, None), 'NanInfCountFromSort': (f8, i4), 'PutMask': (z(5), b, f8), 'SetItem': (z(5), b, np.ones(3)), 'ReIndex': (i4, f8),
        'ReIndexGroups': (k.copy(), one, np.array([2, 5]), np.array([2, 5])), 'RecordArrayToColMajor': (z(5, 'i4,f8'), np.array([0, 4]), np.array([z(5, 'i4'), z(5)] + [None], object)[:2]),
        'RecycleNumpy': (z(5),), 'TryRecycleNumpy': (), 'Reduce': (f8, 100), 'RemoveTrailingSpaces': (s.copy(),), 'ReverseShuffle': (i4,), 'Rolling': (f8, 0, 2), 'ShiftArrays': ([z(5), z(5)], 2), 'Sort': (f8, 1),
        'SortInPlace': (f8.copy(), 1), 'SortInPlaceIndirect': (i4.copy(), i4), 'TimeWindow': (f8, t8, 0, 2), 'Where': (b, (f8, f8), 12, 8), 'AsAnyArray': (f8,), 'AsFastArray': (f8,), 'GetNanoTime': (), 'GetTSC': (),
        'LedgerFunction': (np.add, f8, f8), 'BasicMathHook': (f8, f8), 'ApplyRows': (len, (f8,), {}),
        'RecycleGarbageCollectNow': (100,), 'RecycleSetGarbageCollectTimeout': (100,), 'SetRecycleMode': (0,), 'SetThreadWakeUp': (2,), 'ThreadingMode': (0,), 'SetZstdChecksumming': (True,),
        'CompressFile': (X, b'meta', [f8, i4], [(b'a', 1), (b'b', 1)], 0, 1, 0), 'DecompressFile': (Y, 0, None), 'MultiDecompressFiles': ([Y], 0),
        'MultiStackFiles': ([Y, Y],), 'MultiPossiblyStackFiles': ([Y, Y],), 'MultiConcatFiles': ([Y, Y], 3), 'SDSFileInfo': (Y,)}
    return E


def wrong():
    f8 = np.arange(5.0)
    return [None, 0, 1, -1, 5, 99, 1000, -(1 << 62), 1 << 70, 2.5, float('nan'), True, '', 'x', b'', b'x' * 20, [], (), {}, [None], (None,), [1], (1, 2), [f8], (f8,), [f8, np.arange(3)], [[f8]], ((f8,), 1), len, object(),
            np.zeros(0), np.zeros(1), np.arange(3.0), np.arange(9), np.arange(9, dtype='i4'), np.arange(10.0)[::2], np.arange(5)[::-1], np.array(3.0), np.array(3, 'i4'), np.zeros((2, 3)), np.zeros((3, 2), 'i4').T, np.zeros((5, 0)), np.array(['a', 'bb', '', 'x', 'y']),
            np.array([b'a', b'bb', b'', b'x', b'y']), np.array(['', '', '']), np.array([None, 1, 'x', 2.5, 2], object), np.zeros(5, 'c16'), np.zeros(5, 'g'), np.zeros(5, 'f2'), np.zeros(5, '?'), np.zeros(3, '?'), np.zeros(5, 'u1'), np.zeros(5, 'i2'), np.zeros(5, 'u8'),
            np.zeros(5, 'M8[ns]'), np.zeros(5, 'm8[s]'), np.zeros(5, 'i4,f8'), np.zeros(5, 'V7'), np.zeros(5, '>i4'), np.zeros(5, 'S0'), np.frombuffer(bytes(41), 'u1')[1:].view('f8'), np.full(5, np.nan)]


def badargs(t, names, mode):
    """every function with each of its arguments replaced by each of about 60 unsuitable values, left out or added: an exception
    or a result, and references and blocks stay in balance"""
    G.set(mode, 0xa5)
    os.makedirs('/tmp/vf_m01', exist_ok=True)
    d = tempfile.mkdtemp(dir='/tmp/vf_m01')
    os.chdir(d)
    try:
        rc.CompressFile(b'vf%d_y.sds' % os.getpid(), b'meta', [np.arange(5.0), np.arange(5)], [(b'a', 1), (b'b', 1)], 0, 1, 0)
        W = wrong()
        for name in sorted(examples())[names]:
            f = getattr(rc, name)
            n = len(examples()[name])
            for i in range(-1, n + 2):
                for j in range(len(W)):
                    if (i < 0 or i == n + 1) and j or not t.begin([name, i, j, mode]):
                        continue
                    E, w = list(examples()[name]), wrong()[j]
                    args = E[:j] if i < 0 else E[:-1] if i == n + 1 else E[:i] + [w] + E[i + 1:]
                    r0 = [sys.getrefcount(x) for x in args]
                    for rep in range(2):
                        try:
                            f(*args)
                        except SystemError as e:
                            t.fail('%s with argument %d replaced by %r: %s' % (name, i, w, e))
                        except Exception:
                            pass
                        e = None
                    r1 = [sys.getrefcount(x) for x in args]
                    if any(b > a + 1 for a, b in zip(r0, r1)) or any(b < a for a, b in zip(r0, r1)):
                        t.fail('%s with argument %d replaced by %r: reference counts of its arguments go from %s to %s in two calls' % (name, i, w, r0, r1))
                    t.calls += 2
            t.beat()
    finally:
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)
        for x in glob.glob(glob.escape('/dev/shm/Global_') + '*!vf%d_*' % os.getpid()):
            os.unlink(x)


def declined(r):
    return isinstance(r, tuple) and (r[0] in ('EXC', 'NoneType') or r[0] == ('bool', 'False') or any(isinstance(x, tuple) and x[:1] == ('EXC',) for x in r))


def layouts(t, n, names, lay, mode):
    """the call on the same contents in another layout gives the same result, or declines (exception, None, False)"""
    G.set(mode, 0xa5)
    A, B = ops.catalogue(np, rc, n), ops.catalogue(np, rc, n, layout=lay)
    for name in list(A)[names]:
        if not t.begin([name, n, lay, mode]):
            continue
        a = ops.run(np, A[name])
        ins = [x for x in arrays(B[name]) if x.dtype != object]
        img = [x.tobytes() for x in ins]
        b = ops.run(np, B[name])
        t.calls += 2
        if a != b and not declined(b) and name != 'crc g':
            t.fail('%s (length %d): %s arrays give %s, contiguous ones %s' % (name, n, lay, repr(b)[:150], repr(a)[:150]))
        if [x.tobytes() for x in ins] != img:
            t.fail('%s (length %d, %s) changes its input' % (name, n, lay))
    t.beat()


INTS = ('i1', 'i2', 'i4', 'i8')


def index_calls(n):
    """name -> call(index array, a second array of the same kind): every function that takes positions, group numbers or
    counts (but ReIndex, which is documented not to check); n = number of valid ones, the arrays have three elements"""
    f8, i4 = np.arange(n) * 1.5, np.arange(n, dtype='i4')
    s3 = np.array([b'abc', b'de', b'f', b'ghi', b'a'][:n], 'S3')
    v3, b3 = np.array([2.5, -1, 7]), np.array([True, False, True])
    s33 = np.array([b'x', b'yy', b'zzz'])
    C = {}
    C['mbget'] = lambda k: [rc.MBGet(v, k) for v in (f8, i4, s3)]
    C['mbget default'] = lambda k: rc.MBGet(f8, k, 3.5)
    C['setitem'] = lambda k: [(lambda o, s: (rc.SetItem(o, k, s), o))(v.copy(), v[:1].copy()) for v in (f8, i4, s3)]
    C['setitem array'] = lambda k: (lambda o: (rc.SetItem(o, k, v3), o))(f8.copy())
    C['remap'] = lambda k: (lambda o: (rc.ReMapIndex(k, o, np.arange(n, dtype='i4')), o))(np.zeros(3, k.dtype))
    C['reverseshuffle'] = lambda k: rc.ReverseShuffle(k)
    C['naninf'] = lambda k: rc.NanInfCountFromSort(v3, k)
    C['cutssorted'] = lambda k: rc.BinsToCutsSorted(v3, np.array([0.0, 3]), k, (0, 0, 0), 0)
    C['fromlexsort'] = lambda k: [rc.GroupFromLexSort(k, v) for v in (v3, s33)]
    C['fromlexsort filter'] = lambda k: rc.GroupFromLexSort(k, v3, filter=b3)
    C['fromlexsort cutoffs'] = lambda k: rc.GroupFromLexSort(k.copy(), v3, cutoffs=np.array([1, 3]))
    C['lexsort index'] = lambda k: [rc.LexSort32([v], index=k.copy()) for v in (v3, s33)]
    C['lexsort64 index'] = lambda k: rc.LexSort64([v3], index=k.copy())
    C['lexsort cutoffs'] = lambda k: rc.LexSort32([v3], cutoffs=k)
    C['groupby cutoffs'] = lambda k: rc.MultiKeyGroupBy32([v3], 0, None, 2, cutoffs=k)
    C['booltofancy cutoffs'] = lambda k: rc.BooleanToFancy(b3, cutoffs=k)
    C['fancy both cutoffs'] = lambda k: rc.BooleanToFancy(b3, cutoffs=k, both=True)
    C['sortindirect'] = lambda k: (lambda o: (rc.SortInPlaceIndirect(o, np.arange(n)[::-1].astype(o.dtype)), o))(k.copy())
    C['sortindirect 2'] = lambda k: (lambda o: (rc.SortInPlaceIndirect(o, k), o))(np.arange(3, dtype=k.dtype))
    C['bincount'] = lambda k: [rc.BinCount(k, n + 1), rc.BinCount(k, n + 1, pack=True)]
    C['bincount cutoffs'] = lambda k: rc.BinCount(np.array([1, 2, 1], 'i4'), 3, cutoffs=k)
    C['frombincount'] = lambda k: rc.GroupFromBinCount(k, np.array([1, 1, 1] + [0] * (n - 2), 'i4'))
    C['frombincount counts'] = lambda k: rc.GroupFromBinCount(np.array([1, 0, 1], 'i4'), k)
    C['makeinext'] = lambda k: rc.MakeiNext(k, n + 1, 0)
    C['makeinext 1'] = lambda k: rc.MakeiNext(k, n + 1, 1)
    C['groupbypack'] = lambda k: rc.GroupByPack32(k, None, n)
    C['groupbypack next'] = lambda k: rc.GroupByPack32(np.array([1, 2, 1], k.dtype), k, n)
    C['combine'] = lambda k: rc.CombineFilter(k, b3)
    C['combine1'] = lambda k: [rc.CombineAccum1Filter(k, n, b3), rc.CombineAccum1Filter(k, n, None)]
    C['combine2'] = lambda k: [rc.CombineAccum2Filter(k, np.array([1, 2, 0], 'i4'), n, 2, None), rc.CombineAccum2Filter(np.array([1, 2, 0], 'i1'), k, 2, n, b3)]
    C['makeifirst'] = lambda k: [rc.MakeiFirst(k, n, f, l) for f in (None, b3) for l in (0, 1)]
    C['ismembercat fixup'] = lambda k: rc.IsMemberCategoricalFixup(k, np.array([1, 0, 2, 1], 'i4'), np.array([1, 0] + [1] * (n - 2), 'i4'), 2, 1, 1)
    C['ismembercat fixup 2'] = lambda k: rc.IsMemberCategoricalFixup(np.array([1, 2, 0], 'i4'), k, np.array([1, 0, 1], 'i4'), n, 1, 1)
    C['ismembercat fixup 3'] = lambda k: rc.IsMemberCategoricalFixup(np.array([1, 2, 0], 'i4'), np.array([1, 2, 0, 3], 'i4'), k, n, 1, 1)
    C['merge'] = lambda k: rc.MergeBinnedAndSorted(k, np.array([0, 1, 1], k.dtype), np.arange(3), np.arange(3), n)
    C['merge 2'] = lambda k: rc.MergeBinnedAndSorted(np.array([0, 1, 1], k.dtype), k, np.arange(3), np.arange(3), n)
    C['reindexgroups'] = lambda k: (lambda o: (rc.ReIndexGroups(o, np.array([1, 2, 1], 'i4'), np.array([1, 3]), np.array([1, 3])), o))(k.copy())
    C['reindexgroups u'] = lambda k: (lambda o: (rc.ReIndexGroups(o, k, np.array([1, 3]), np.array([1, 3])), o))(np.array([1, 2, 1], 'i4'))
    C['reindexgroups ucut'] = lambda k: (lambda o: (rc.ReIndexGroups(o, np.array([1, 2, 1], 'i4'), k, np.array([1, 2, 3])), o))(np.array([1, 2, 1], 'i4'))
    C['reindexgroups icut'] = lambda k: (lambda o: (rc.ReIndexGroups(o, np.array([1, 2, 1], 'i4'), np.array([1, 2, 3]), k), o))(np.array([1, 2, 1], 'i4'))
    vals = [np.array(x, t) for t in ('?', 'i1', 'u2', 'i4', 'u8', 'f4', 'f8') for x in ([1, 0, 3],)]
    for f in ops.GB:
        C['groupby %d' % f] = lambda k, f=f: [rc.GroupByAll32([v], k, n, [f], [0], [n + 1], 0) for v in vals]
    for f in range(300, 310):
        C['ema %d' % f] = lambda k, f=f: [rc.EmaAll32([v], k, n, f, (0.5, np.arange(3), None, None)) for v in vals]
    one = np.array([1, 1, 2], 'i4')
    P = rc.GroupByPack32(one, None, 2)
    for f in list(range(100, 107)) + list(range(200, 208)):
        par = 500000000 if f == 106 else 3 if f != 207 else 500000000 * 1000 + 3
        for w in range(4):
            def call(k, f=f, w=w, par=par):
                a = [one] + list(P)
                a[w] = k
                return [rc.GroupByAllPack32([v], a[0], a[1], a[2], a[3], 2, [f], [0], [3], par) for v in vals[3:] + [s33]]
            C['grouppack %d arg %d' % (f, w)] = call
    C['compress'] = lambda k: rc.MultiKeyRolling((k,), n)
    C['record'] = lambda k: (lambda o: rc.RecordArrayToColMajor(np.zeros(3, 'i4,f8'), k, o))(np.array([np.zeros(3, 'i4'), np.zeros(3, 'f8'), np.zeros(3, 'f8')] + [None], object)[:3])
    C['applyrows'] = lambda k: rc.TimeWindow(v3, k, 0, 2)
    C['timewindow'] = lambda k: rc.TimeWindow(v3, k, 1, 2)
    C['align'] = lambda k: rc.MultiKeyAlign32(([one],), ([one],), k, np.arange(3, dtype=k.dtype), True, True)
    return C


def alphabet(ty, n):
    i = np.iinfo(ty)
    r = [i.min, -n, -1, 0, 1, n - 1, n, i.max]
    return sorted(set(r if TIER == 'quick' else r + [i.min + 1, -n - 1, 2, n + 1, min(1 << 30, i.max), i.max - 1]))


def indexes(t, ty, n, mode, names):
    """every content of three elements of an index array, over an alphabet of valid, negative, excessive and extreme values"""
    G.set(mode, 0xa5)
    C = index_calls(n)
    L = alphabet(ty, n)
    for name in list(C)[names]:
        f = C[name]
        for x in itertools.product(L, repeat=3):
            if not t.begin([name, ty, n, mode, list(map(int, x))]):
                continue
            k = np.array(x, ty)
            ops.run(np, lambda: f(k))
            t.calls += 1
            if k.tobytes() != np.array(x, ty).tobytes():
                t.fail('%s of %s %s changes it' % (name, ty, x))
    t.beat()


def run_unit(u, t):
    if u[0] == 'guard':
        for n in lengths():
            guarded(t, n, slice(u[1], None, K), u[2])
    elif u[0] == 'badargs':
        badargs(t, slice(u[1], None, 32), u[2])
    elif u[0] == 'bins':
        bins(t, u[1])
    elif u[0] == 'index':
        indexes(t, u[1], u[2], u[3], slice(u[4], None, 8))
    elif u[0] == 'layout':
        for n in (1, 7, 40) if TIER == 'quick' else (0, 1, 2, 3, 7, 16, 17, 33, 40, 1000):
            for lay in ('strided', 'reversed'):
                layouts(t, n, slice(u[1], None, K), lay, 1)
    else:
        for n in (0, 40) if TIER == 'quick' else (0, 1, 40, 1000):
            leaks(t, n, slice(u[1], None, K))
