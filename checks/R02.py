"""Every operation as a pure function: each call of the catalogue is first run in a process that has done nothing else, then
after every other operation (pairs, triples), with recycling of arrays, and with new memory filled with different bytes."""
import ctypes, hashlib, itertools, os, pickle
import numpy as np
import ops, rcmod

META = {'bounds': 'the catalogue of about 3300 calls (every array operation x types) as target after: every 6th call of the catalogue, every kind of operation and 70 failing or control calls (thorough: every call), at 40 rows; every pair of kinds of operations over '
                  'the length pairs (40,40) (5000,40) (40,5000) (40000,3000) (3000,40000); every triple over the 27 users of shared workspaces x lengths 7, 600, 3000; the same pairs with FastArray registered (recycling of results, '
                  'dropped, kept, collected); new memory of arrays, workspaces and objects filled with 00/FF/80/01/7F at lengths 1..5, 17, 40, 1000 (and 40000: one per kind, thorough all)',
        'assumptions': ['threading off (T04 covers schedules)', 'the run in a freshly forked process in which only the module was imported and at most 7 other calls were made stands for a fresh process']}
rc = G = None
TIER = 'quick'
K = 64
FA = False


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier, 'grd')


def child_init():
    global rc, G
    _, rc = rcmod.load()
    G = rcmod.Guard(np)
    c = ctypes.CDLL(None)
    c.mallopt(-3, 1 << 30)      # large blocks come from the heap too
    c.mallopt(-1, 1 << 30)
    os.dup2(os.open('/dev/null', os.O_WRONLY), 1)


class FastArray(np.ndarray):
    pass


CAT = {}


def cat(n):
    if n not in CAT:
        CAT[n] = dict(ops.catalogue(np, rc, n))
        if n == 40:
            CAT[n].update(bad())
    return CAT[n]


def bad():
    """calls that fail or change the state of the module without changing results"""
    a, s, e = np.arange(6.), np.array([b'a', b'b']), np.zeros(0)
    i4 = np.arange(6, dtype='i4')
    o = np.array([1, 'a', None], object)
    C = {'state gc0': lambda: rc.RecycleGarbageCollectNow(0) and None, 'state gc1000': lambda: rc.RecycleGarbageCollectNow(1000) and None,
         'state recycle off on': lambda: (rc.SetRecycleMode(1), rc.SetRecycleMode(0)) and None, 'state threads on off': lambda: (rc.ThreadingMode(0), rc.ThreadingMode(1)) and None,
         'state wakeup': lambda: (rc.SetThreadWakeUp(3), rc.SetThreadWakeUp(11)) and None,
         'state ledger': lambda: (rc.LedgerBegin(), rc.LedgerEnd()) and None if hasattr(rc, 'LedgerBegin') else None}
    fns = ['BasicMathUnaryOp', 'BasicMathTwoInputs', 'Reduce', 'ConvertSafe', 'ConvertUnsafe', 'MultiKeyGroupBy32', 'MultiKeyGroupBy32Super', 'MultiKeyIsMember32', 'MultiKeyUnique32', 'MultiKeyHash', 'IsMember32', 'IsMemberCategorical',
           'LexSort32', 'LexSort64', 'Sort', 'SortInPlace', 'GroupByAll32', 'GroupByAllPack32', 'GroupByPack32', 'GroupFromBinCount', 'EmaAll32', 'Rolling', 'HStack', 'MBGet', 'BooleanToFancy',
           'BinCount', 'BinsToCutsBSearch', 'SearchSorted', 'MakeiNext', 'ReIndexGroups', 'ReMapIndex', 'CombineFilter', 'CombineAccum1Filter', 'CombineAccum2Filter', 'IsSorted', 'PutMask', 'Where', 'TimeWindow', 'InterpExtrap2d', 'DateStringToNanos']
    for f in fns:
        g = getattr(rc, f, None)
        if g:
            C['fail none %s' % f] = lambda g=g: g()
            if f not in ('MultiKeyGroupBy32', 'MultiKeyGroupBy32Super', 'MultiKeyHash', 'LexSort32', 'LexSort64'):
                C['fail args %s' % f] = lambda g=g: g(None, None, None)
    return C


def kinds(names):
    """one representative per operation, type class"""
    seen, out = set(), []
    for x in names:
        w = x.split()
        k = (w[0], w[1] if w[0] in ('reduce', 'unary', 'binary', 'fail', 'state') else '', [y[0] for y in w[1:] if y[0] in 'fiuSU?'][-1:] == ['S'])
        if w[0] in ('unary', 'binary', 'reduce'):
            k = (w[0], w[1])
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def digest(r):
    return hashlib.blake2b(pickle.dumps(r), digest_size=16).digest()


def fresh(fs):
    """the results in a process that has run nothing else"""
    r, w = os.pipe()
    p = os.fork()
    if p == 0:
        try:
            G.set(0, 0)
            for f in fs:
                os.write(w, digest(ops.run(np, f)))
        finally:
            os._exit(0)
    os.close(w)
    b = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        b += x
    os.close(r)
    os.waitpid(p, 0)
    return [b[16 * i:16 * i + 16] for i in range(len(fs))]


BASE = {}


def base(n, name):
    return bases(n, [name])[0]


def bases(n, names):
    """one process for 8 targets: the histories of these are the ones before them in the list"""
    names = [x for x in names if (n, x) not in BASE] or names
    if (n, names[0]) not in BASE:
        for i in range(0, len(names), 8):
            for x, b in zip(names[i:i + 8], fresh([cat(n)[x] for x in names[i:i + 8]])):
                BASE[n, x] = b
    return [BASE[n, x] for x in names]


def seq(t, hist, n, name):
    """run the history, then compare the target"""
    f = cat(n)[name]
    b = base(n, name)
    if not b:
        return t.fail('%s crashes in a fresh process' % name)
    for m, a in hist:
        ops.run(np, cat(m)[a])
    r = ops.run(np, f)
    t.calls += 1 + len(hist)
    if digest(r) != b:
        t.fail('%s (length %d): the result differs from that in a fresh process: %s' % (name, n, repr(r)[:200]))


WS = ['multikey', 'ismember', 'alignhash', 'unique', 'hash', 'lexsort', 'groupfrombincount', 'bincount', 'sort', 'recast', 'merge', 'groupby', 'rolling', 'convert', 'ema']


def users(names):
    out = [x for x in kinds(names) if any(w in x.split()[0] for w in WS)]
    return out[:27]


def units(tier):
    return [['fill', i] for i in range(K)] + [['pairs', i] for i in range(K)] + [['lengths', i] for i in range(K)] + [['triples', i] for i in range(27)] + [['recycled', i] for i in range(K)]


def run_unit(u, t):
    kind, k = u
    if kind == 'fill':
        for n in (1, 2, 3, 4, 5, 17, 40, 1000, 40000):
            C = cat(n)
            for name in (list(C) if n < 40000 or TIER != 'quick' else kinds(C))[k::K]:
                b = None
                for p in (0, 0xff, 0x80, 1, 0x7f):
                    if not t.begin([name, n, p]):
                        continue
                    if b is None:
                        G.set(0, 0)
                        b = digest(ops.run(np, C[name]))
                    G.set(0, p)
                    r = ops.run(np, C[name])
                    t.calls += 1
                    if digest(r) != b:
                        t.fail('%s (length %d): the result depends on the previous content of newly allocated memory (%02x): %s' % (name, n, p, repr(r)[:200]))
            t.beat()
        return
    G.set(0, 0xa5)
    if kind == 'pairs' or kind == 'recycled':
        n = 40
        C = cat(n)
        names = list(C)
        if kind == 'recycled':
            bases(n, names[k::K])
            rc.SetFastArrayType(np.zeros(1).view(FastArray), lambda a: a.view(FastArray))
            hist = kinds(names)
        else:
            bases(n, names[k::K])
            hist = names if TIER != 'quick' else list(dict.fromkeys(kinds(names) + names[k % 6::6]))
        for a in hist:
            for name in names[k::K]:
                if t.begin([a, name]):
                    seq(t, [(n, a)], n, name)
            t.beat()
    elif kind == 'lengths':
        for m, n in ((40, 40), (5000, 40), (40, 5000), (40000, 3000), (3000, 40000)):
            A, B = kinds(cat(m)), kinds(cat(n))
            bases(n, B[k::K])
            for a in A:
                for name in B[k::K]:
                    if t.begin([a, m, name, n]):
                        seq(t, [(m, a)], n, name)
                t.beat()
    else:
        ns = (7, 600, 3000)
        us = users(cat(40))
        if k >= len(us):
            return
        for n in ns:
            bases(n, us)
            for c in [(x, m) for x in us for m in ns]:
                for m2 in ns:
                    if t.begin([c, [us[k], m2], n]):
                        pass
                    for name in us:
                        seq(t, [(c[1], c[0]), (m2, us[k])], n, name)
            t.beat()
