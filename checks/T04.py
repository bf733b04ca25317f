"""Every assignment of work blocks to threads, for every operation: the worker threads of the real module run as fibers
whose turns are chosen by a word over the participants; results are compared with the run without threads, and the
memory accesses of concurrent blocks are checked for conflicts."""
import ctypes, glob, itertools, os, re, sys
import numpy as np
import build, ops, rcmod

META = {'bounds': 'the catalogue of about 3300 calls (every multi-threaded kernel x types) over 2..4 blocks of 16384 rows; at every claim of a block, start of a block and synchronisation inside a block the next thread is chosen '
                  'by a word over {main, worker 1, worker 2}, repeated: every word of length 2 up to renaming the workers and 012 (thorough: every word of length 4); lengths 32768..49152 (thorough 32767..65537) around the block limits; wake limits 1..3, the workers with the highest numbers',
        'assumptions': ['blocks that make no conflicting accesses can be run in any order or at the same time with the same result, so one execution of each assignment decides all of them (conflicts are reported)',
                        'sequentially consistent memory', 'variances, means and sums of floats whose rounding depends on the grouping of the rows are compared to 1e-6 (float32) and 1e-11 (float64)',
                        'code that runs inside libraries (zstd, TBB) is not checked for conflicts']}
rc = None
L = None
TIER = 'quick'
K = 96
HANG = 600


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier, 'thr')


def child_init():
    global rc, L
    _, rc = rcmod.load(True)
    L = ctypes.CDLL(glob.glob(rcmod.MODDIR + '/riptide_cpp*.so')[0])
    L.vf_thr_text.restype = ctypes.c_char_p
    devnull = os.open('/dev/null', os.O_WRONLY)
    os.dup2(devnull, 1)


def canonical(w):
    """workers are numbered in the order in which they appear"""
    return 2 not in w or (1 in w and w.index(1) < w.index(2))


def words(n, every):
    return [w for w in itertools.product(range(3), repeat=n) if every or canonical(w)]


CAT = {}


def cat(n):
    if n not in CAT:
        if len(CAT) > 2:
            CAT.clear()
        CAT[n] = ops.catalogue(np, rc, n)
    return CAT[n]


def threaded(word, f, wake=2, rot=0):
    rc.ThreadingMode(0)
    rc.SetThreadWakeUp(wake)
    L.vf_thr_start(bytes(word), len(word), rot)
    r = ops.run(np, f)
    o = (ctypes.c_int64 * 6)()
    L.vf_thr_stop(o)
    rc.ThreadingMode(1)
    return r, list(o)


FLOATY = re.compile(r'^(reduce|groupby|rolling|ema|grouppack 20|interp|timewindow)')


def near(a, b, name):
    if a == b:
        return True
    if not FLOATY.match(name) or type(a) != type(b):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 3 and isinstance(a[2], bytes) and a[:2] == b[:2] and np.dtype(a[0]).kind == 'f':
        d = np.dtype(a[0])
        if d.char == 'g':
            return False
        x, y = np.frombuffer(a[2], d), np.frombuffer(b[2], d)
        return bool(np.allclose(x, y, rtol=1e-6 if d.itemsize == 4 else 1e-11, atol=0, equal_nan=True))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and a[0] == b[0] == 'float':
        return bool(np.allclose(float(a[1]), float(b[1]), rtol=1e-6, atol=0, equal_nan=True))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(near(x, y, name) for x, y in zip(a, b))
    return False


def where(pc):
    """source position of a conflict (the module is compiled without line numbers: the function)"""
    import subprocess
    try:
        so = glob.glob(rcmod.MODDIR + '/riptide_cpp*.so')[0]
        return subprocess.run(['addr2line', '-fCe', so, hex(pc)], capture_output=True, text=True, timeout=60).stdout.split('\n')[0][:200]
    except Exception:
        return '?'


def one(t, name, f, base, word, wake=2, rot=0):
    r, o = threaded(word, f, wake, rot)
    t.calls += 1
    t.count('blocks', o[0])
    t.count('work_items', o[2])
    t.count('checked_accesses', o[3])
    t.count('switches', o[1])
    t.outcome((name.split()[0], o[0], o[1]))
    if o[4]:
        m = L.vf_thr_text().decode()
        p = re.search(r'\+([0-9a-f]+)', m)
        t.fail('%s: two threads use the same memory: %s [%s]' % (name, m, where(int(p.group(1), 16)) if p else '?'), key='race:' + name.split()[0])
    if not near(r, base, name):
        t.fail('%s: the result depends on the threads: %s' % (name, differ(base, r)))
    return o[2]


def differ(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        if len(a) == 3 and isinstance(a[2], bytes) and a[:2] == b[:2]:
            x, y = np.frombuffer(a[2], a[0]), np.frombuffer(b[2], b[0])
            i = np.flatnonzero((x != y) & ~((x != x) & (y != y)))
            return '%d of %d values of %s differ, first at %s: %r alone, %r with threads' % (len(i), len(x), a[0], i[:1].tolist(), x[i[:3]].tolist(), y[i[:3]].tolist())
        for x, y in zip(a, b):
            if x != y:
                return differ(x, y)
    return '%s alone, %s with threads' % (repr(a)[:100], repr(b)[:100])


def units(tier):
    return [['words', i] for i in range(K)] + [['lengths', i] for i in range(K // 2)] + [['wake', i] for i in range(K // 4)]


def run_unit(u, t):
    if u[0] == 'words':
        n = 0xC000 + 5
        C = cat(n)
        for name in list(C)[u[1]::K]:
            base = None
            ws = words(2, False) + [(0, 1, 2)] if TIER == 'quick' else words(4, True)
            for w in ws:
                if not t.begin([name, n, w]):
                    continue
                if base is None:
                    base = ops.run(np, C[name])
                if not one(t, name, C[name], base, w):
                    break
            t.beat()
    elif u[0] == 'lengths':
        for n in (0x8000, 0x8001, 0xC000) + ((0x7fff, 0xBFFF, 0xC001, 0xFFFF, 0x10000, 0x10001) if TIER != 'quick' else ()):
            C = cat(n)
            for name in list(C)[u[1]::K // 2]:
                base = None
                for w in ((0, 1, 2),) + (((2, 1, 1), (1, 0)) if TIER != 'quick' else ()):
                    if not t.begin([name, n, w]):
                        continue
                    if base is None:
                        base = ops.run(np, C[name])
                    if not one(t, name, C[name], base, w):
                        break
            t.beat()
    else:
        n = 0x8000 + 77
        C = cat(n)
        for name in list(C)[u[1]::K // 4]:
            base = None
            for wake, rot in ((1, 0), (3, 1), (2, 29), (3, -2 % 31)):
                for w in ((0, 1, 2, 3),) + (((1,),) if TIER != 'quick' else ()):
                    if not t.begin([name, n, wake, rot, w]):
                        continue
                    if base is None:
                        base = ops.run(np, C[name])
                    if not one(t, name, C[name], base, w, wake, rot):
                        break
            t.beat()
