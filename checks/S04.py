"""Appending sections to SDS files: every short history of creates and appends, every crash point of its last operation, and going on after the crash."""
import itertools, os, shutil, tempfile, atexit
import numpy as np
import rcmod
import S01

META = {'bounds': 'every history of 1..3 (thorough: 4) creates/appends out of 11 kinds (no section or section x no arrays, one, several with empty and Fortran ones, two sectors, bands x compressed or not), names new, repeated or long; '
                  'directories of up to 16 sections with names of 1..63 bytes, across every point where the directory moves; for the last operation of every history (also when it creates or replaces the file) every prefix of its writes and every write torn at each 512-byte boundary; '
                  'on every such image another append, compared again',
        'assumptions': ['a crash keeps the writes made so far in order (process stop, not power loss without ordering)', 'a 512-byte sector is written entirely or not at all', 'one writer at a time']}
rc = io = None
TIER = 'quick'
DIR = None


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier, 'io')


def child_init():
    global rc, DIR, io
    _, rc = rcmod.load()
    io = rcmod.IO()
    DIR = tempfile.mkdtemp(prefix='vf_sds_')
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(DIR, ignore_errors=True))
    S01.rc = rc


def content(k):
    m = S01.make
    return [[], [m('i4', (3,), 'period')], [m('f8', (0,), 'zero'), m('S3', (4,), 'rand'), np.asfortranarray(m('i2', (2, 3), 'period'))],
            [m('u1', (600,), 'rand'), m('?', (3000,), 'zero')], [m('i1', (20001,), 'rand')]][k]


# (section or not, content, compression)
OPS = [(1, k, c) for k in range(5) for c in (0, 1)] + [(0, 2, 1)]


def units(tier):
    u = [['hist', 1, -1]] + [['hist', 2, k] for k in range(len(OPS))] + [['hist', 3, k] for k in range(len(OPS))]
    u += [['names', n] for n in (1, 20, 40, 62, 63)] + [['rep']]
    if tier == 'thorough':
        u += [['hist', 4, k, j] for k in range(len(OPS)) for j in range(len(OPS))]
    return u


class File:
    """what the file must hold: list of [name, arrays, names, meta]"""

    def __init__(self):
        self.secs = []

    def after(self, op, name, i):
        f = File()
        arrs = content(op[1])
        s = [name if op[0] else None, arrs, [(b'n%d_%d' % (i, j), 1 + j) for j in range(len(arrs))], b'meta %d' % i * (1 + 30 * (i % 3))]
        f.secs = self.secs + [s] if op[0] else [s]
        return f


def do(path, op, s):
    S01.write(path.encode(), s[1], s[2], op[2], 1, 2, s[3], bandsize=10000 if op[1] == 4 else 0, **({'section': s[0]} if op[0] else {}))


def check(t, path, want, alt=None, what=''):
    """the file holds exactly want, or (if given) exactly alt"""
    t.calls += 1
    try:
        r = rc.MultiDecompressFiles([path.encode()], 3)
    except ValueError as e:
        return t.fail('%s: cannot be read: %s' % (what, e))
    for cand in ([want] if alt is None else [alt, want]):
        if len(r) != len(cand.secs):
            continue
        for i, s in enumerate(cand.secs):
            if not S01.compare(t, r[i], s[1], s[2], s[3], '%s: section %d: ' % (what, i)):
                return False
        if len(cand.secs) > 1 or cand.secs[0][0]:
            nm = [x[0] or '0' for x in cand.secs]
            if r[0][3].get('Sections') != nm:
                return t.fail('%s: sections %r are listed as %r' % (what, nm, r[0][3].get('Sections')))
        return 'alt' if cand is alt else 'want'
    return t.fail('%s: %d sections come back as %d' % (what, len(want.secs), len(r)))


def images(before, writes):
    """every file image a crash during the writes can leave"""
    img = bytearray(before)

    def put(img, off, data):
        if data and len(img) < off + len(data):
            img.extend(b'\0' * (off + len(data) - len(img)))
        if data:
            img[off:off + len(data)] = data
    for i, (off, data) in enumerate(writes):
        yield (i, 0), bytes(img)
        p = (off // 512 + 1) * 512 - off
        cuts = list(range(p, len(data), 512))
        if len(cuts) > 6:
            cuts = cuts[:3] + cuts[-3:]
        for c in cuts:
            im = bytearray(img)
            put(im, off, data[:c])
            yield (i, c), bytes(im)
        put(img, off, data)
    yield (len(writes), 0), bytes(img)


def history(t, ops, names):
    path = DIR + '/h.sds'
    if os.path.exists(path):
        os.unlink(path)
    m = File()
    for i, op in enumerate(ops):
        last = i == len(ops) - 1
        before = open(path, 'rb').read() if os.path.exists(path) else b''
        m2 = m.after(op, names[i], i)
        t.calls += 1
        io.start()
        do(path, op, m2.secs[-1])
        log = io.stop()
        if last:
            if not check(t, path, m2, what='after the history'):
                return
            writes = [(c[1], c[3]) for c in log if c[0] == 'pwrite']
            if not op[0] or not m.secs:
                # a new file: complete or not readable
                for key, im in images(b'', writes):
                    t.count('crash images', 1)
                    p2 = DIR + '/c.sds'
                    open(p2, 'wb').write(im)
                    try:
                        rc.MultiDecompressFiles([p2.encode()], 3)
                    except ValueError:
                        continue
                    if not check(t, p2, m2, what='new file, stopped at write %s of %d' % (key, len(writes))):
                        return
                break
            if any(c[0] == 'ftruncate' or (c[0] == 'open' and c[4] & os.O_TRUNC) for c in log):
                t.fail('the file is cut off while appending to it')
            final = open(path, 'rb').read()
            im = None
            for key, im in images(before, writes):
                t.count('crash images', 1)
                p2 = DIR + '/c.sds'
                open(p2, 'wb').write(im)
                w = check(t, p2, m, m2, 'stopped at write %s of %d' % (key, len(writes)))
                if not w:
                    return
                # life goes on
                op3 = OPS[(i * 3 + key[0]) % 10]
                m3 = (m2 if w == 'alt' else m).after(op3, 'z', i + 1)
                do(p2, op3, m3.secs[-1])
                if not check(t, p2, m3, what='stopped at write %s of %d, then appended' % (key, len(writes))):
                    return
            if im != final:
                t.fail('the recorded writes do not give the file')
        m = m2


def run_unit(u, t):
    if u[0] == 'hist':
        n = u[1]
        for h in itertools.product(range(len(OPS)), repeat=n):
            if (n > 1 and h[0] != u[2]) or (n == 4 and h[1] != u[3]):
                continue
            if n == 4 and TIER == 'quick':
                continue
            if t.begin([h]):
                history(t, [OPS[i] for i in h], ['s%d' % i for i in range(n)])
    elif u[0] == 'names':
        for n in range(1, 17):
            for k in (0, 1, 3):
                for first in (0, 1):
                    if t.begin([u[1], n, k, first]):
                        history(t, [(first, k, 1)] + [(1, k, 1)] * (n - 1), [('%c' % (97 + i)) * u[1] for i in range(n)])
    elif u[0] == 'rep':
        for nm in itertools.product('ab', repeat=4):
            for k in (0, 1, 2):
                if t.begin([nm, k]):
                    history(t, [(1, (k + i) % 5, 1) for i in range(4)], nm)
    t.beat()
