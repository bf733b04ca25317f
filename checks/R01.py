"""Recycler: all sequences of operations that create, reuse, look at, change, drop, recycle and collect arrays."""
import gc, itertools, os, weakref
import numpy as np
import rcmod

META = {'bounds': 'every sequence up to length 4 over 26 operations (create by an operation, by AllocateNumpy and by TryRecycleNumpy in two types and two lengths of one size class; drop; second reference; FastArray and ndarray views; weak reference kept while dropping and taken up again; '
                  'in-place change of values, byte order, shape and the write flag; reference cycle; RecycleNumpy; RecycleGarbageCollectNow; SetRecycleMode and timeout on and off; six arrays of the size class created and dropped at once), '
                  'freed memory inaccessible; every sequence of length 6 over the 9 that create, drop, change and use a weak reference; thorough: length 5, and length 6 over the 12 operations that create, drop and collect',
        'assumptions': ['one thread', 'a FastArray type without overriding methods']}
rc = G = None
TIER = 'quick'


class FastArray(np.ndarray):
    pass


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier, 'grd')


def child_init():
    global rc, G
    _, rc = rcmod.load()
    G = rcmod.Guard(np)
    os.dup2(os.open('/dev/null', os.O_WRONLY), 1)
    rc.SetFastArrayType(np.zeros(1).view(FastArray), lambda a: a.view(FastArray))
    gc.disable()


NEW = [('new', t, n, s) for t, n in (('i4', 5), ('f8', 5), ('i4', 7)) for s in (0, 1)]
OPS = NEW[:5] + [('alloc', 'i4', 5, 0), ('alloc', 'f8', 5, 1), ('try', 'i4', 5, 0), ('try', 'i4', 7, 1), ('drop', 0), ('drop', 1), ('drop', 'v'), ('alias',), ('view',), ('ndview',), ('weak',), ('fill', 0),
                 ('bswap',), ('readonly',), ('reshape',), ('cycle',), ('recycle', 0), ('collect',), ('mode',), ('timeout',), ('burst',)]
CORE = NEW[:2] + NEW[4:6] + [('drop', 0), ('drop', 1), ('drop', 'v'), ('view',), ('weak',), ('collect',), ('burst',), ('try', 'i4', 5, 0)]
LATE = NEW[:1] + NEW[1:2] + [('drop', 0), ('drop', 1), ('weak',), ('bswap',), ('readonly',), ('reshape',), ('view',)]
NUM = {'i4': 5, 'f8': 12}
SRC = {}


def src(t, n, c):
    k = (t, n)
    if k not in SRC:
        SRC[k] = (np.zeros(n, t), np.zeros(n, t))
    SRC[k][1][:] = c
    return SRC[k]


def units(tier):
    u = [['ops', 4 if tier == "quick" else 5, i, 1 if tier == 'quick' else 0] for i in range(len(OPS))] + [['ops', 3, i, m] for i in range(len(OPS)) for m in (0, 2)] + [['late', 6, i, 0] for i in range(len(LATE))]
    if tier != 'quick':
        u += [['ops', 4, i, 1] for i in range(len(OPS))] + [['core', 6, i, 1] for i in range(len(CORE))]
    return u


class World:
    def __init__(w):
        w.c = 0
        w.slot = [None, None]       # array
        w.want = [None, None]       # its expected contents
        w.view, w.vwant = [], []
        w.weak = None               # (weak reference, contents when dropped)
        w.mode = w.time = False
        w.err = None

    def put(w, s, a, c):
        w.slot[s] = a
        w.want[s] = [c] * a.size

    def new(w, t, n, how):
        """-> (array, value): a new result, checked for type, shape and disjointness from every live array"""
        w.c += 1
        c = w.c
        z, x = src(t, n, c)
        if how == 'new':
            a = rc.BasicMathTwoInputs((z, x), 1, NUM[t])
        elif how == 'alloc':
            a = rc.AllocateNumpy(z, NUM[t])
            if w.check():
                return a, c
            a[:] = c
        else:
            a = rc.TryRecycleNumpy(NUM[t], [z])
            if a is None:
                return None, c
            a[:] = c
        if a.dtype != np.dtype(t) or a.shape != (n,) or not a.flags.c_contiguous or not a.flags.writeable or not a.flags.owndata and a.base is None:
            w.err = '%s of %s[%d] gives %s%s %s' % (how, t, n, a.dtype, a.shape, str(a.flags).replace('\n', ' '))
        elif a.tolist() != [c] * n:
            w.err = 'the new result of %s is %s, not %d' % (how, a.tolist(), c)
        else:
            lo = a.__array_interface__['data'][0]
            for b in w.slot + w.view:
                if b is not None:
                    p = b.__array_interface__['data'][0]
                    if p < lo + a.nbytes and lo < p + b.nbytes:
                        w.err = 'the new result of %s lies in the memory of a live array' % how
        return a, c

    def check(w):
        if w.err is None:
            for a, e in zip(w.slot + w.view, w.want + w.vwant):
                if a is not None and a.ravel().tolist() != e:
                    w.err = 'a live array holds %s, not %s' % (a.ravel().tolist(), e)
        return w.err

    def step(w, op):
        k = op[0]
        a = w.slot[0]
        if k in ('new', 'alloc', 'try'):
            x, c = w.new(op[1], op[2], k)
            if x is not None:
                w.put(op[3], x, c)
        elif k == 'drop':
            if op[1] == 'v':
                w.view, w.vwant = [], []
            else:
                if op[1] == 0:
                    a = None
                w.slot[op[1]] = w.want[op[1]] = None
        elif k == 'alias':
            w.slot[1], w.want[1] = a, w.want[0] and list(w.want[0])
        elif k == 'view' and a is not None:
            w.view.append(a[1:])
            w.vwant.append(w.want[0][1:])
        elif k == 'ndview' and a is not None:
            w.view.append(a.view(np.ndarray))
            w.vwant.append(list(w.want[0]))
        elif k == 'weak':
            if w.weak is None:
                if a is not None:
                    w.weak = weakref.ref(a)
                    a = w.slot[0] = w.want[0] = None
            else:
                b = w.weak()
                if b is not None:
                    w.slot[0] = b
                    w.want[0] = b.ravel().tolist()
                w.weak = None
        elif k == 'fill' and a is not None and a.flags.writeable and (w.slot[1] is None or not np.shares_memory(a, w.slot[1])) and not w.view:
            w.c += 1
            a[...] = w.c
            w.want[0] = [w.c] * a.size
        elif k == 'bswap' and a is not None and w.slot[1] is not a:
            a.dtype = a.dtype.newbyteorder()
            w.want[0] = a.ravel().tolist()
        elif k == 'readonly' and a is not None:
            a.setflags(write=False)
        elif k == 'reshape' and a is not None:
            a.shape = (a.size, 1) if a.ndim == 1 else (a.size,)
        elif k == 'cycle' and a is not None:
            a.me = a
            a = None
            w.slot[0] = w.want[0] = None
            gc.collect()
        elif k == 'recycle' and a is not None:
            if rc.RecycleNumpy(a):
                w.err = 'RecycleNumpy takes an array that is in use'
        elif k == 'collect':
            rc.RecycleGarbageCollectNow(0)
        elif k == 'mode':
            w.mode = not w.mode
            rc.SetRecycleMode(int(w.mode))
        elif k == 'timeout':
            w.time = not w.time
            rc.RecycleSetGarbageCollectTimeout(0 if w.time else 150)
        elif k == 'burst':
            L = []
            for i in range(6):
                x, c = w.new('i4', 5 + 2 * (i % 2), 'new')
                L.append((x, c))
                if w.check():
                    return
            for x, c in L:
                if x.tolist() != [c] * x.size:
                    w.err = 'one of six results made in a row holds %s, not %d' % (x.tolist(), c)
            x = None
            while L:
                L.pop(0)

    def end(w):
        w.slot = w.view = w.weak = None
        rc.SetRecycleMode(0)
        rc.RecycleSetGarbageCollectTimeout(150)
        rc.RecycleGarbageCollectNow(0)


def run(t, ops):
    w = World()
    for op in ops:
        w.step(op)
        if w.check():
            t.fail('%s: %s' % (' '.join('-'.join(map(str, o)) for o in ops), w.err))
            break
    w.end()
    t.calls += len(ops)


def run_unit(u, t):
    kind, depth, first, mode = u
    A = {'ops': OPS, 'core': CORE, 'late': LATE}[kind]
    G.set(mode, 0xa5)
    for x in range(3):
        run(t, [A[first]] + A[:3])
    s0 = None
    for second in A:
        if not t.begin([kind, depth, first, list(second), mode]):
            continue
        n = 0
        for rest in itertools.product(A, repeat=depth - 2):
            run(t, (A[first], second) + rest)
            n += 1
        t.nstates += n - 1
        t.count('sequences', n)
        gc.collect()
        s = G.stat()
        if s0 is not None and s[0] > s0[0]:
            t.fail('blocks in use grow from %s to %s over %d sequences' % (s0, s, n))
        s0 = s
        t.beat()
