"""SDS files: what is saved is what is loaded, for all combinations of layout, type and option within bounds."""
import itertools, os, shutil, tempfile, atexit
import numpy as np
import rcmod

META = {'bounds': 'one array: 20 types x 1-d lengths 0..33 and around 2^9, 2^12, 2^16, 2^17, all 2-d and 3-d shapes with sides 0..3, 4-d and 5-d sides 1..2, 6-d and 7-d x C, Fortran, every permutation of axes, strided, reversed, '
                  'read-only, unaligned x none/zstd x 3 contents; levels -1..23; bands of 10000 rows at every length around 0..4 bands, 1-d, 2-d, both orders; every ordered list of 0..3 arrays out of 6; '
                  'every flag byte, name lengths 0..700, names fewer/more than arrays; metadata lengths 0..1100 and 2^16 x 3 contents; every kind of file that existed before x 6 new contents; section names',
        'assumptions': ['native byte order', 'arrays have 1 to 5 dimensions; with more, the trailing dimensions are multiplied together as documented and the array must be C contiguous',
                        'the metadata is bytes, array names are bytes without NUL in UTF-8', 'shared memory is not covered here']}
rc = None
TIER = 'quick'
DIR = None
TYPES = ['?', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'q', 'Q', 'f4', 'f8', 'g', 'F', 'D', 'S1', 'S3', 'U2', 'V5']
LENS = list(range(0, 34)) + [63, 64, 65, 127, 128, 129, 511, 512, 513, 4095, 4096, 4097, 65535, 65536, 65537, 131073]
CONTENT = ['zero', 'period', 'rand']


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier)


def child_init():
    global rc, DIR
    _, rc = rcmod.load()
    DIR = tempfile.mkdtemp(prefix='vf_sds_')
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(DIR, ignore_errors=True))


def raw(n, kind):
    if kind == 'zero':
        return np.zeros(n, 'u1')
    if kind == 'period':
        return (np.arange(n) % 7 * 37).astype('u1')
    return np.random.Generator(np.random.PCG64(1)).integers(0, 256, n, dtype=np.uint8)


def make(ty, shape, kind):
    dt = np.dtype(ty)
    n = int(np.prod(shape))
    b = raw(n * dt.itemsize, kind)
    if ty == '?':
        b = b & 1
    elif ty[0] == 'U' and n:
        b = (b.view('u4') % 0x10ffff).astype('u4')
    return np.frombuffer(b.tobytes(), dt).reshape(shape).copy() if n else np.zeros(shape, dt)


def same(r, a):
    """identical type, shape and bytes (in logical order)"""
    return isinstance(r, np.ndarray) and r.dtype == a.dtype and r.shape == a.shape and r.tobytes() == a.tobytes()


def desc(r):
    return None if r is None else '%s %s strides %s: %s' % (r.dtype, r.shape, r.strides, r.tobytes()[:24])


def write(f, arrs, names=None, comp=1, level=1, ft=2, meta=b'meta', **kw):
    if names is None:
        names = [(b'c%d' % i, 1) for i in range(len(arrs))]
    return rc.CompressFile(f, meta, list(arrs), list(names), comp, level, ft, **kw)


def compare(t, r, arrs, names, meta, what=''):
    if len(r) != 4:
        return t.fail('%sresult has %d parts' % (what, len(r)))
    m, cols, items, hdr = r
    t.outcome((m[:64], tuple(c is None or (c.dtype.str, c.shape) for c in cols), len(items)))
    if m != meta:
        return t.fail('%smetadata %r... (%d) comes back as %r... (%d)' % (what, meta[:40], len(meta), m[:40], len(m)))
    if len(cols) != len(arrs):
        return t.fail('%s%d arrays come back as %d' % (what, len(arrs), len(cols)))
    for i, a in enumerate(arrs):
        if not same(cols[i], a):
            return t.fail('%sarray %d: %s comes back as %s' % (what, i, desc(a), desc(cols[i])))
    got = [(x[0], x[1]) for x in items]
    if got != [(n, v) for n, v in names]:
        return t.fail('%snames %r come back as %r' % (what, names[:5], got[:5]))
    return True


def rt(t, arrs, names=None, comp=1, level=1, ft=2, meta=b'meta', want=None, fresh=True, **kw):
    f = (DIR + '/a.sds').encode()
    if fresh and os.path.exists(f):
        os.unlink(f)
    if names is None:
        names = [(b'c%d' % i, 1) for i in range(len(arrs))]
    keep = [a.tobytes() for a in arrs]
    t.calls += 2
    x = write(f, arrs, names, comp, level, ft, meta, **kw)
    if x is not None:
        return t.fail('CompressFile returned %r' % (x,))
    r = rc.DecompressFile(f, 3)
    if len(r) != 1:
        return t.fail('DecompressFile returned %d parts' % len(r))
    if any(a.tobytes() != k for a, k in zip(arrs, keep)):
        return t.fail('input modified')
    return compare(t, r[0], arrs if want is None else want, names, meta)


def shapes():
    out = [(a, b) for a in range(4) for b in range(4)] + [(a, b, c) for a in range(4) for b in range(4) for c in range(4)]
    out += [s for s in itertools.product((1, 2), repeat=4)] + [s for s in itertools.product((1, 2), repeat=5)]
    return out + [(5, 0, 2, 1), (3, 2, 4, 1), (2, 3, 1, 2, 3), (7, 300), (300, 7), (64, 64)]


def layouts(a):
    yield 'C', a
    if a.ndim == 1:
        yield 'stride', np.repeat(a, 3)[1::3]
        yield 'rev', a[::-1].copy()[::-1]
        b = a.copy(); b.flags.writeable = False
        yield 'ro', b
        yield 'off', np.frombuffer(b'x' + a.tobytes(), a.dtype, len(a), 1) if len(a) else a
    else:
        for p in itertools.permutations(range(a.ndim)):
            if p == tuple(range(a.ndim)) or (a.ndim == 5 and p != tuple(range(5))[::-1]):
                continue
            yield 'perm%s' % (p,), np.ascontiguousarray(a.transpose(np.argsort(p))).transpose(p)
        yield 'stride', np.repeat(a, 2, axis=a.ndim - 1)[..., ::2]
        yield 'stride0', np.repeat(a, 2, axis=0)[1::2]
        yield 'rev', a[::-1].copy()[::-1]


def units(tier):
    u = [['len', ty] for ty in TYPES] + [['shape', ty, c] for ty in TYPES for c in (0, 1)] + [['level', ty] for ty in (TYPES if tier == 'thorough' else ['?', 'i4', 'S3', 'U2'])]
    u += [['band', ty] for ty in (TYPES if tier == 'thorough' else ['i1', 'f8', 'S3', '?'])]
    u += [['list', k] for k in range(6)] + [['flag'], ['name'], ['namecount'], ['meta'], ['dims'], ['bad'], ['secname']] + [['exist', k] for k in EXIST]
    return u


EXIST = ['none', 'empty', 'junk', 'small', 'large', 'section', 'sections', 'banded']


def pieces():
    return [make('i4', (5,), 'period'), make('f8', (0,), 'zero'), make('S3', (4,), 'rand'), np.asfortranarray(make('i2', (2, 3), 'period')), make('?', (700,), 'zero'), make('u1', (600,), 'rand')]


def run_unit(u, t):
    k = u[0]
    if k == 'len':
        for n in LENS:
            for kind in CONTENT:
                if TIER == 'quick' and n > 5000 and kind == 'period':
                    continue
                for comp in (0, 1):
                    for nm, a in layouts(make(u[1], (n,), kind)):
                        if n > 70 and nm != 'C' and TIER == 'quick':
                            continue
                        if t.begin([u[1], n, kind, comp, nm]):
                            rt(t, [a], comp=comp)
    elif k == 'shape':
        for s in shapes():
            for nm, a in layouts(make(u[1], s, 'rand')):
                if t.begin([u[1], s, nm, u[2]]):
                    rt(t, [a], comp=u[2])
    elif k == 'level':
        for lv in [-5, -1, 0] + list(range(1, 25)):
            for n in (0, 1, 40, 3000):
                for kind in CONTENT:
                    if t.begin([u[1], n, kind, lv]):
                        rt(t, [make(u[1], (n,), kind)], level=lv)
    elif k == 'band':
        B = 10000
        for n in [0, 1, 5000, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B, 35000]:
            for kind in CONTENT:
                for comp in (0, 1):
                    for bs in (1, B, 2 * B + 5):
                        if TIER == 'quick' and bs == 2 * B + 5 and kind != 'rand':
                            continue
                        for nd in ('1', '2C', '2F', '3'):
                            if nd != '1' and (TIER == 'quick' and (kind == 'zero' or n not in (0, 1, B, B + 1, 2 * B + 1))):
                                continue
                            a = make(u[1], (n,) if nd == '1' else (n, 2) if nd[0] == '2' else (n, 1, 3), kind)
                            if nd == '2F':
                                a = np.asfortranarray(a)
                            if t.begin([u[1], n, kind, comp, bs, nd]):
                                rt(t, [a], comp=comp, bandsize=bs)
        # a band whose compressed size equals its plain size must be read as it was written
        for z in range(0, 60):
            a = make('u1', (2 * B,), 'rand')
            a[B - z:B] = 0
            if t.begin([u[1], 'equal', z]):
                rt(t, [a], bandsize=B)
        for bs in (0, -1, 9999, 2**31 - 1, 2**31, 2**31 + 10, 2**62, 2**63 - 1):
            if t.begin([u[1], 'bandsize', bs]):
                rt(t, [make(u[1], (2 * B + 1,), 'period')], bandsize=bs)
    elif k == 'list':
        P = pieces()
        for n in range(0, 4):
            for c in itertools.product(range(6), repeat=n):
                if (c[0] if c else 0) != u[1]:
                    continue
                for comp in (0, 1):
                    for ft in (1, 2, 3, 4, 5):
                        for bs in (0, 10000):
                            if TIER == 'quick' and n == 3 and (ft != 2 or bs):
                                continue
                            if t.begin([c, comp, ft, bs]):
                                rt(t, [P[i] for i in c], comp=comp, ft=ft, bandsize=bs)
        if u[1] == 0:
            for n in (50, 200, 1000):
                for comp in (0, 1):
                    if t.begin(['many', n, comp]):
                        rt(t, [P[i % 6] for i in range(n)], comp=comp)
    elif k == 'flag':
        for v in range(256):
            for n in (1, 2):
                if t.begin([v, n]):
                    rt(t, [make('i4', (3,), 'period')] * n, names=[(b'a', v), (b'b', 255 - v)][:n])
    elif k == 'name':
        for n in list(range(0, 701)) + [4000, 70000]:
            for m in (0, 1):
                if t.begin([n, m]):
                    nm = [(b'n' * n, 1), (b'other', 2)]
                    rt(t, [make('i4', (3,), 'period')] * 2, names=nm[::-1] if m else nm)
        for nm in (b'a!b', b'a/b', b' ', b'%s%n', '\u20acuro'.encode(), '\U0001f600'.encode(), b'"', b'\n', b'\x01'):
            if t.begin(['special', nm]):
                rt(t, [make('i4', (3,), 'period')], names=[(nm, 1)])
    elif k == 'namecount':
        # files made by other writers carry no names, or names without arrays (meta data items)
        for na in range(4):
            for nn in range(4):
                for comp in (0, 1):
                    if t.begin([na, nn, comp]):
                        rt(t, pieces()[:na], names=[(b'n%d' % i, 1) for i in range(nn)], comp=comp)
    elif k == 'meta':
        for n in list(range(0, 1100)) + [65535, 65536, 65537, 300000]:
            for kind in CONTENT:
                if t.begin([n, kind]):
                    rt(t, [make('i4', (3,), 'period')], meta=raw(n, kind).tobytes(), comp=n & 1)
    elif k == 'dims':
        for s in [(1, 2, 1, 2, 1, 2), (2, 2, 2, 2, 2, 2), (3, 1, 2, 1, 2, 2, 2), (0, 1, 1, 1, 1, 1), (2, 1, 1, 1, 0, 3), (1,) * 12]:
            for ty in ('i1', 'f8', 'S3'):
                for comp in (0, 1):
                    for order in 'CF':
                        if not t.begin([s, ty, comp, order]):
                            continue
                        a = np.array(make(ty, s, 'rand'), order=order)
                        try:
                            rt(t, [a, make('i2', (3,), 'rand')], comp=comp, want=[a.reshape(s[:4] + (-1,) if a.size else s[:4] + (int(np.prod(s[4:])),)), make('i2', (3,), 'rand')])
                        except ValueError:
                            if a.flags.c_contiguous:
                                t.fail('refused')
    elif k == 'bad':
        # refused input raises an ordinary error and leaves the interpreter in order
        f = (DIR + '/bad.sds').encode()
        for nm, fn in [('arr', lambda: write(f, [5])), ('none', lambda: write(f, [None])), ('f2', lambda: write(f, [np.zeros(3, 'f2')])), ('M8', lambda: write(f, [np.zeros(3, 'M8[ns]')])),
                       ('obj', lambda: write(f, [np.array([1, 'a'], dtype=object)])), ('names1', lambda: write(f, [], [1])), ('names2', lambda: write(f, [], [('a', 1)])),
                       ('names3', lambda: write(f, [], [(b'a',)])), ('names4', lambda: write(f, [], [(b'a', 'x')])), ('dir', lambda: write((DIR + '/no/such/x').encode(), [make('i4', (3,), 'zero')])),
                       ('isdir', lambda: write(DIR.encode(), [make('i4', (3,), 'zero')])), ('seclong', lambda: write(f, [], section='s' * 5000)), ('secu', lambda: write(f, [], section='\ud800')),
                       ('foldu', lambda: write(f, [], folders=['\ud800'])), ('missing', lambda: rc.DecompressFile((DIR + '/nofile').encode(), 3)), ('readdir', lambda: rc.DecompressFile(DIR.encode(), 3)),
                       ('percent', lambda: rc.DecompressFile((DIR + '/%s%s%s%n%n').encode(), 3))]:
            if not t.begin([nm]):
                continue
            if os.path.exists(f):
                os.unlink(f)
            try:
                r = fn()
                t.outcome('accepted')
                if nm not in ('arr', 'none', 'obj', 'secu', 'foldu'):
                    t.fail('accepted: %r' % (r,))
            except (ValueError, TypeError, UnicodeError) as e:
                t.outcome(type(e).__name__)
            rt(t, [make('i4', (3,), 'period')])
    elif k == 'secname':
        f = (DIR + '/sec.sds').encode()
        for n in list(range(1, 140)) + [255, 256, 300, 511, 600, 1000, 2000]:
            for ch in ('s', '\u20ac'):
                if not t.begin([n, ch]):
                    continue
                if os.path.exists(f):
                    os.unlink(f)
                a = [make('i4', (3,), 'period'), make('S3', (2,), 'rand')]
                names = [(b'x', 1), (b'y', 2)]
                try:
                    write(f, a, names, section=ch * n)
                except ValueError:
                    t.outcome('refused')
                    if len((ch * n).encode()) < 64:   # documented limit
                        t.fail('section name of %d characters refused' % n)
                    continue
                r = rc.MultiDecompressFiles([f], 3)
                if compare(t, r[0], a, names, b'meta') and r[0][3].get('Sections') != [ch * n]:
                    t.fail('section name comes back as %r' % (r[0][3].get('Sections'),))
    elif k == 'exist':
        f = (DIR + '/e.sds').encode()
        P = pieces()
        for new in range(6):
            for comp in (0, 1):
                if not t.begin([u[1], new, comp]):
                    continue
                if os.path.exists(f):
                    os.unlink(f)
                if u[1] == 'empty':
                    open(f, 'wb').close()
                elif u[1] == 'junk':
                    open(f, 'wb').write(raw(5000, 'rand').tobytes())
                elif u[1] == 'small':
                    write(f, [P[0]], meta=b'old')
                elif u[1] == 'large':
                    write(f, [make('i8', (20000,), 'rand')] * 4, meta=b'old' * 500, comp=0)
                elif u[1] in ('section', 'sections'):
                    for i in range(1 if u[1] == 'section' else 3):
                        write(f, [make('i8', (100 * i + 5,), 'rand')] * 2, meta=b'old', section='s%d' % i)
                elif u[1] == 'banded':
                    write(f, [make('i8', (20000,), 'period')], bandsize=10000)
                arrs = [[], [P[0]], P, [make('i8', (30000,), 'period')], [P[1]], [P[3], P[1], P[4]]][new]
                names = [(b'k%d' % i, 1) for i in range(len(arrs))]
                write(f, arrs, names, comp, meta=b'new meta')
                r = rc.MultiDecompressFiles([f], 3)
                if len(r) != 1:
                    t.fail('%d parts' % len(r)); continue
                if compare(t, r[0], arrs, names, b'new meta') and r[0][3].get('Sections'):
                    t.fail('old sections remain: %r' % (r[0][3]['Sections'],))
    t.beat()
