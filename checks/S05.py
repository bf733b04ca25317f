"""Damaged SDS files and failing I/O: every cut, every single failing or short call; the result is an error or the saved data, never other data, a crash or a hang."""
import itertools, os, shutil, tempfile, atexit
import numpy as np
import rcmod
import S01, S04

META = {'bounds': '16 files (no, one or several arrays of several types and shapes, bands, sections, compressed or not): cut at every byte, each read in 11 ways (all, info, mask, fancy, include, folders, stacked); '
                  'every single open/pread of every way of reading failing, returning nothing, half, or one byte less; every single open/pread/pwrite of creating and appending likewise (and every pair of failing writes), followed by reading and appending again',
        'assumptions': ['a cut file is a prefix of the saved one; files with changed bytes are not considered (the format has no checksums)', 'calls fail one at a time, except for pairs of failing writes',
                        'the information functions read the header only, so they report what the header says']}
rc = io = None
TIER = 'quick'
DIR = None


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier, 'io')


def child_init():
    global rc, DIR, io
    S04.child_init()
    rc, io, DIR = S04.rc, S04.io, S04.DIR


m = S01.make


def specs():
    """name -> (file type, list of parts [section, arrays, names, meta], compression, bandsize)"""
    A = [m('i4', (5,), 'period'), m('f8', (5,), 'rand'), m('S3', (5,), 'rand')]
    B = [m('i2', (4, 3), 'rand'), np.asfortranarray(m('f4', (3, 5), 'rand')), m('?', (0,), 'zero'), m('i8', (700,), 'zero')]
    N = lambda a, p='c': [(('%s%d' % (p, i)).encode(), 3) for i in range(len(a))]
    band = [m('i1', (20003,), 'period'), m('u1', (20003,), 'rand')]
    half = m('u1', (20000,), 'rand'); half[:10000] = 0
    out = {}
    for c in (0, 1):
        out['ds%d' % c] = (2, [[None, A, N(A), b'meta' * 10]], c, 0)
        out['mix%d' % c] = (1, [[None, B, N(B), b'']], c, 0)
        out['none%d' % c] = (2, [[None, [], [], b'only meta']], c, 0)
        out['onefile%d' % c] = (5, [[None, [m('i1', (2,), 'rand')] + A, [(b'f/', 16), (b'f/x', 3), (b'g/y', 3), (b'z', 3)], b'one']], c, 0)
        out['sec%d' % c] = (2, [['s%d' % k, [a[:k + 2] for a in A], N(A), b'm%d' % k] for k in range(3)], c, 0)
    out['band'] = (2, [[None, band, N(band), b'bands']], 1, 10000)
    out['band2'] = (2, [[None, [half], N([half]), b'']], 1, 10000)
    out['bandsec'] = (2, [[None, band, N(band), b'bands'], ['x', band, N(band), b'more']], 1, 10000)
    return out


READS = ['all', 'info', 'multi', 'multiinfo', 'stack', 'pstack', 'mask', 'smask', 'fancy', 'include', 'folders']


def read(how, f, spec):
    n = None
    a = spec[1][0][1]
    n = len(a[0]) if a else 0
    tot = sum(len(p[1][0]) if p[1] else 0 for p in spec[1])
    if how == 'all':
        return rc.DecompressFile(f, 3)
    if how == 'info':
        return rc.DecompressFile(f, 5)
    if how == 'multi':
        return rc.MultiDecompressFiles([f], 3)
    if how == 'multiinfo':
        return rc.MultiDecompressFiles([f], 5)
    if how == 'stack':
        return rc.MultiStackFiles([f])
    if how == 'pstack':
        return rc.MultiPossiblyStackFiles([f], 3)
    if how == 'mask':
        return rc.DecompressFile(f, 3, mask=np.arange(n) % 2 == 1)
    if how == 'smask':
        return rc.MultiStackFiles([f], mask=np.arange(tot) % 3 != 1)
    if how == 'fancy':
        return rc.DecompressFile(f, 3, mask=np.arange(n) % 2 == 0)
    if how == 'include':
        return rc.MultiDecompressFiles([f], 3, include=[b'c1', b'z'])
    if how == 'folders':
        return rc.MultiDecompressFiles([f], 3, folders=['f/'])


def canon(r):
    """comparable form of a result: list of parts; part = (meta, [arrays or infos], names)"""
    if isinstance(r, list):
        return [part(x) for x in r]
    a, infos, cut, meta, files, hdr = r
    return [('stack', tuple(meta)), [arr(x) for x in a], [(x[0], x[1]) for x in infos], [c.tolist() for c in cut]]


def arr(c):
    if c is None:
        return None
    if isinstance(c, np.ndarray):
        return (c.dtype.str, c.shape, c.tobytes())
    return ('info', tuple(c))


def part(x):
    if len(x) == 6:
        return canon(x)
    return [x[0], [arr(c) for c in x[1]], [(i[0], i[1]) for i in x[2]]]


def build(path, spec, upto=None):
    if os.path.exists(path):
        os.unlink(path)
    ft, parts, comp, bs = spec
    for p in parts[:upto]:
        S01.write(path.encode(), p[1], p[2], comp, 1, ft, p[3], bandsize=bs, **({'section': p[0]} if p[0] else {}))


def attempt(t, how, f, spec, want):
    t.calls += 1
    try:
        r = canon(read(how, f, spec))
    except ValueError as e:
        t.outcome('error')
        return 'error'
    t.outcome('full' if r == want else 'part')
    if r != want:
        bad = next((i for i in range(min(len(r[0][1]), len(want[0][1]))) if r[0][1][i] not in (None, want[0][1][i])), None) if isinstance(r[0], list) and isinstance(want[0], list) and len(r[0]) == 3 and len(want[0]) == 3 else None
        t.fail('reads as other data: %s instead of %s' % (str(r[0][1][bad] if bad is not None else r)[:150], str(want[0][1][bad] if bad is not None else want)[:150]))
        return 'bad'
    return 'ok'


def units(tier):
    s = sorted(specs())
    u = [['cut', n, how] for n in s for how in READS if usable(n, how)]
    u += [['rfail', n, how] for n in s for how in READS if usable(n, how)]
    u += [['wfail', n] for n in s] + [['wpair', n] for n in s] + [['two', n] for n in ('ds0', 'ds1', 'sec1', 'mix1', 'band')]
    return u


def usable(n, how):
    if how in ('mask', 'smask', 'fancy') and not n.startswith(('ds', 'sec', 'band')):
        return False
    if how in ('stack', 'smask') and n[:-1] in ('mix', 'onefile', 'none'):
        return n[:-1] != 'none' and how == 'stack'
    if how == 'folders':
        return n.startswith('onefile')
    return True


def reference(how, path, spec, t):
    try:
        return canon(read(how, path.encode(), spec))
    except ValueError as e:
        t.outcome('refused ' + str(e)[:20])
        return None


def run_unit(u, t):
    spec = specs()[u[1]]
    path = DIR + '/%s.sds' % u[1]
    build(path, spec)
    whole = open(path, 'rb').read()
    if u[0] in ('cut', 'rfail'):
        how = u[2]
        want = reference(how, path, spec, t)
        if want is None:
            if t.begin(['reference']):
                t.fail('the undamaged file cannot be read')
            return
    if u[0] == 'cut':
        ks = range(len(whole))
        if len(whole) > 12000:     # the inside of one long array: its ends and every 61st byte
            step = 61 if TIER == 'quick' else 7
            ks = [k for k in ks if k < 4200 or k > len(whole) - 700 or k % step == 0]
        p2 = DIR + '/cut.sds'
        fd = os.open(p2, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        os.write(fd, whole)
        for k in reversed(list(ks)):
            os.ftruncate(fd, k)
            if t.begin([k, how]):
                if attempt(t, how, p2.encode(), spec, want) == 'ok' and k < 512:
                    t.fail('a file without a complete header is accepted')
        os.close(fd)
    elif u[0] == 'rfail':
        io.start()
        read(how, path.encode(), spec)
        log = io.stop()
        for i, c in enumerate(log):
            if c[0] not in ('open', 'pread'):
                continue
            for mode in ([-1] if c[0] == 'open' else [-1, 0, -2] + ([c[2] - 1] if c[2] > 1 else [])):
                if mode == 0 and c[2] == 0:
                    continue
                if not t.begin([i, c[0], c[2], mode]):
                    continue
                io.start(i, None, mode)
                w = attempt(t, how, path.encode(), spec, want)
                io.stop()
                # and the next read is not affected
                if w != 'bad' and canon(read(how, path.encode(), spec)) != want:
                    t.fail('the read after the failure differs')
    elif u[0] in ('wfail', 'wpair'):
        for j, p in enumerate(spec[1]):
            build(path, spec, j)
            before = open(path, 'rb').read() if j else None

            def go(at=-1, kind=None, mode=-1):
                if before is None:
                    if os.path.exists(path):
                        os.unlink(path)
                else:
                    open(path, 'wb').write(before)
                io.start(at, kind, mode)
                try:
                    S01.write(path.encode(), p[1], p[2], spec[2], 1, spec[0], p[3], bandsize=spec[3], **({'section': p[0]} if p[0] else {}))
                    return None, io.stop()
                except ValueError as e:
                    return e, io.stop()
            e, log = go()
            for i, c in enumerate(log):
                if c[0] not in ('open', 'pread', 'pwrite'):
                    continue
                for mode in ([-1] if c[0] == 'open' else [-1, 0, -2] + ([c[2] - 1] if c[2] > 1 else [])):
                    if mode == 0 and c[2] == 0 or u[0] == 'wpair' and (c[0] != 'pwrite' or mode != -1):
                        continue
                    if not t.begin([j, i, c[0], c[2], mode]):
                        continue
                    t.calls += 1
                    err, _ = go(i, None, mode)
                    if err is None and not (c[0] == 'pwrite' and c[2] == 0) and c[0] != 'open':
                        t.fail('a failed %s of %d bytes at %d is not reported' % (c[0], c[2], c[1]))
                        continue
                    t.outcome(str(err)[:30])
                    verify(t, path, spec, j, err)
                    if u[0] == 'wpair':
                        # the user tries again, and that fails too, later on
                        mid = open(path, 'rb').read() if os.path.exists(path) else None
                        for i2 in range(len(log)):
                            if log[i2][0] != 'pwrite':
                                continue
                            if mid is None:
                                continue
                            open(path, 'wb').write(mid)
                            io.start(i2, None, -1)
                            try:
                                S01.write(path.encode(), p[1], p[2], spec[2], 1, spec[0], p[3], bandsize=spec[3], **({'section': p[0]} if p[0] else {}))
                            except ValueError:
                                pass
                            io.stop()
                            verify(t, path, spec, j, True)
    elif u[0] == 'two':
        # a good and a damaged file together
        good = DIR + '/good.sds'
        build(good, spec)
        p2 = DIR + '/cut2.sds'
        for fn in ('MultiDecompressFiles', 'MultiStackFiles'):
            f = getattr(rc, fn)
            for order in (0, 1):
                for must in (True, False):
                    build(path, spec)
                    fl = [good.encode(), p2.encode()]
                    fl = fl[::-1] if order else fl
                    open(p2, 'wb').write(whole)
                    both = canon(f(fl, 3))
                    one = canon(f([good.encode()], 3))
                    for k in list(range(0, len(whole), 97 if TIER == 'quick' else 13)) + [None]:
                        if k is None:
                            os.unlink(p2)
                        else:
                            open(p2, 'wb').write(whole[:k])
                        if not t.begin([fn, order, must, k]):
                            continue
                        t.calls += 1
                        try:
                            r = canon(f(fl, 3, mustexist=must))
                        except ValueError:
                            t.outcome('error')
                            continue
                        t.outcome(len(r))
                        empty = [b'{}', [], []]
                        if r != both and (must or r not in (one, one + [empty], [empty] + one)):
                            t.fail('reads as %s' % str(r)[:200])
    t.beat()


def verify(t, path, spec, j, err):
    """after writing part j failed (or did not) the file holds parts 0..j-1 and part j completely or not at all"""
    parts = spec[1]
    try:
        r = rc.MultiDecompressFiles([path.encode()], 3)
    except ValueError as e:
        if j:
            t.fail('the %d sections written before are lost: %s' % (j, e))
        elif err is None:
            t.fail('the file written without an error cannot be read: %s' % e)
        return
    if len(r) not in (j, j + 1):
        return t.fail('%d sections are read' % len(r))
    for x, p in zip(r, parts):
        if not S01.compare(t, x, p[1], p[2], p[3]):
            return
