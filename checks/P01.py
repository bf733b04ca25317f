"""Date and time text against a grammar reference: exact values, invalid fields, warnings, bytes/unicode, field widths, strptime."""
import itertools, re, datetime, warnings
import numpy as np
import rcmod

META = {'bounds': 'every calendar date 1970..2099 and every day number 0..31 of every month 0..13 in YYYY-MM-DD and YYYYMMDD; years 0..9999; every HH:MM:SS field value 0..99 (thorough: every triple; quick: every pair and every valid time of day), every fraction length 1..10; '
                  'date-times over boundary dates x times with both delimiters; every one-character substitution, insertion and deletion (128 ASCII characters plus 7 others; thorough: also every pair of substitutions over a small alphabet) of canonical texts; '
                  'every string of length <= 4 (5 thorough) over a 10 character alphabet; field widths up to 6 beyond the text, alone and beside other texts, byte and unicode, strided arrays; 17 strptime formats over boundary dates and times with one-character deviations.',
        'assumptions': ['text that the grammar does not cover has no prescribed value: it must be reported by the RuntimeWarning or give the invalid value (0), and must not depend on its neighbours, its width, or bytes against unicode',
                        'strptime accepts a prefix of the text, as C does, ignores time zones, and allows second 60 and 61; formats name year, month and day, and %p follows the hour',
                        'white space behind a time without seconds may be reported', 'a date-time whose date is good and whose time is out of range gives the date']}
rc = None
TIER = 'quick'
OTHER = ['\x80', '\xff', '\u0130', '\u0139', '\u0660', '\u2003', '\U0001F630']


def parent_init(tier):
    global TIER
    TIER = tier
    rcmod.parent_init(tier)


def child_init():
    global rc
    _, rc = rcmod.load()


DAY = 86400 * 10**9
WARN = 'warn'
RE_D = re.compile(r'[ \t\n\v\f\r]*(?:(\d{4})-(\d{1,2})-(\d{1,2})|(\d{4})(\d{2})(\d{2}))[ \t\n\v\f\r]*\Z', re.A)
RE_T = re.compile(r'[ \t\n\v\f\r]*(\d{1,2}):(\d{1,2})(?::(\d{1,2})(?:\.(\d{1,9}))?)?[ \t\n\v\f\r]*\Z', re.A)
RE_DT = re.compile(r'[ \t\n\v\f\r]*(?:(\d{4})-(\d{1,2})-(\d{1,2})|(\d{4})(\d{2})(\d{2}))(?:[T ](\d{1,2}):(\d{1,2})(?::(\d{1,2})(?:\.(\d{1,9}))?)?)?[ \t\n\v\f\r]*\Z', re.A)
WS = ' \t\n\v\f\r'


def date_ns(y, m, d):
    if not 1970 <= y <= 2099:
        return None
    try:
        return (datetime.date(y, m, d).toordinal() - 719163) * DAY
    except ValueError:
        return None


def time_ns(h, mi, s, f):
    if h >= 24 or mi >= 60 or s >= 60:
        return None
    return ((h * 60 + mi) * 60 + s) * 10**9 + (int((f + '000000000')[:9]) if f else 0)


def ref(fn, s):
    """value the text must have without any warning, or None: not in the grammar"""
    if s.strip(WS) == '':
        return 0
    if fn == 'DateStringToNanos':
        m = RE_D.match(s)
        if not m:
            return None
        g = [int(x) for x in m.groups() if x is not None]
        return date_ns(*g) or 0
    if fn == 'TimeStringToNanos':
        m = RE_T.match(s)
        if not m:
            return None
        return time_ns(int(m[1]), int(m[2]), int(m[3] or 0), m[4]) or 0
    m = RE_DT.match(s)
    if not m:
        return None
    g = m.groups()
    dd = date_ns(*[int(x) for x in g[:6] if x is not None])
    if dd is None:
        return 0
    if g[6] is None:
        return dd
    tt = time_ns(int(g[6]), int(g[7]), int(g[8] or 0), g[9])
    return dd + (tt or 0)


def call(fn, arr, *a):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = getattr(rc, fn)(arr, *a)
    return r, len(w) > 0


def one(t, fn, s, widths=(0,), kinds='SU'):
    """a single text: value, warning, bytes against unicode, width"""
    want = ref(fn, s)
    seen = None
    for kind in kinds:
        if kind == 'S' and any(ord(c) > 255 for c in s):
            continue
        for w in widths:
            n = max(1, len(s) + w)
            a = np.array([s.encode('latin-1') if kind == 'S' else s], dtype=f'{kind}{n}')
            t.begin(f'rc.{fn}(np.array([{s!r}], {kind}{n}))')
            r, warned = call(fn, a)
            t.calls += 1
            v = int(r[0])
            if r.dtype != np.int64 or r.shape != (1,):
                return t.fail(f'result {r.dtype}{r.shape}')
            if want is not None:
                if v != want or (warned and not (s and s[-1] in WS and s.strip(WS))):
                    return t.fail(f'{v}{" with a warning" if warned else ""}; expected {want}')
                t.outcome('exact')
            else:
                if v != 0 and not warned and not lenient(fn, s):
                    return t.fail(f'malformed text gave {v} without a warning')
                t.outcome('warned' if warned else 'quiet')
            # non-ASCII characters aside, bytes and unicode and every width agree
            if all(ord(c) < 128 for c in s):
                if seen is not None and seen[:2] != (v, warned):
                    return t.fail(f'{v, warned} but {seen} for the same text as {seen[2]}')
                seen = (v, warned, f'{kind}{n}')
    t.count("texts")


def lenient(fn, s):
    """texts the parser documents as optional fields: empty minute, second or fraction; missing digits in front of a date"""
    core = s.strip(WS)
    if fn == 'TimeStringToNanos':
        return bool(re.match(r'\d{1,2}:(\d{1,2})?(:(\d{1,2})?)?(\.\d{0,9})?\Z', core, re.A))
    date = r'(\d{1,4}-\d{1,2}-(\d{1,2})?|\d{5,8})'
    if fn == 'DateStringToNanos':
        return bool(re.match(date + r'\Z', core, re.A))
    return bool(re.match(date + r'([T ](\d{1,2})?(:(\d{1,2})?(:(\d{1,2})?)?)?(\.\d{0,9})?)?\Z', s.lstrip(WS).rstrip('\t\n\v\f\r ') , re.A))


def bulk(t, fn, texts, want, kind, extra=0, warn=False):
    a = np.array(texts, dtype=kind) if not extra else np.array(texts, dtype=f'{kind}{max(map(len, texts)) + extra}')
    t.begin(f'rc.{fn}({len(texts)} texts {texts[0]!r} .. {texts[-1]!r}, {a.dtype})')
    r, w = call(fn, a)
    t.calls += 1
    t.count("texts", len(texts))
    bad = np.flatnonzero(r != np.asarray(want, 'i8'))
    if len(bad):
        i = int(bad[0])
        return t.fail(f'{texts[i]!r}: {int(r[i])}, expected {int(want[i])} ({len(bad)} differ)')
    if w != warn:
        return t.fail(f'warning: {w}')
    t.outcome('bulk')


CANON = {'DateStringToNanos': ['2024-05-06', '20240506', '2000-02-29', '1970-1-1', ' 20991231 '],
         'TimeStringToNanos': ['12:08:34.123456789', '23:59:59', '1:02', ' 00:00:00.5', '9:59:60'],
         'DateTimeStringToNanos': ['2024-05-06 12:08:34.123456789', '20240506T23:59', '1999-12-31 1:02:03.25 ', '20240229', '2023-02-29 00:00:01']}


def units(tier):
    u = [{'k': 'dates', 'y0': y, 'y1': min(y + 11, 2100)} for y in range(1970, 2100, 11)] + [{'k': 'years', 'c': c} for c in range(10)]
    u += [{'k': 'times', 'h': h} for h in range(0, 100, 4)] + [{'k': 'frac'}, {'k': 'dt', 'd': 'T'}, {'k': 'dt', 'd': ' '}, {'k': 'mixed'}]
    for fn, cs in CANON.items():
        u += [{'k': 'dev', 'fn': fn, 'i': i} for i in range(len(cs))]
        u += [{'k': 'short', 'fn': fn, 'c': c} for c in range(10)]
        if tier == 'thorough':
            u += [{'k': 'dev2', 'fn': fn, 'i': i, 'p': p} for i, s in enumerate(cs[:3]) for p in range(len(s))]
    u += [{'k': 'strp', 'i': i} for i in range(len(FORMATS))] + [{'k': 'strpdev', 'i': i} for i in range(len(FORMATS))]
    return u


ALPHA = ['0', '1', '2', '9', ':', '.', '-', ' ', 'T', '\u0130']


# ---- strptime: format with the fields it shows, written with the C library's own rules by Python's strftime
FORMATS = ['%Y-%m-%d', '%Y%m%d', '%m/%d/%Y', '%d %b %Y', '%d-%B-%Y', '%F', '%D', '%m/%d/%y', '%Y-%m-%d %H:%M:%S', '%Y-%m-%dT%T', '%F %R', '%m/%d/%Y %I:%M:%S %p', '%F %r', '%a, %d %b %Y %H:%M:%S', '%A %h %d %Y %k:%M',
           '%C%y-%m-%d %X', '%Y%m%d%H%M%S']
DATES = [(1970, 1, 1), (1970, 1, 2), (1971, 12, 31), (1972, 2, 29), (1999, 12, 31), (2000, 1, 1), (2000, 2, 29), (2000, 3, 1), (2001, 2, 28), (2024, 10, 9), (2068, 6, 30), (2069, 1, 1), (2099, 12, 31)]
TIMES = [(0, 0, 0), (0, 0, 1), (1, 2, 3), (9, 59, 59), (11, 59, 59), (12, 0, 0), (12, 1, 1), (13, 0, 0), (19, 48, 30), (23, 59, 59)]
DAYS = ['Sunday', 'Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday']
MONS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']


def fmt_text(f, y, mo, d, h, mi, s, pad=True):
    wd = datetime.date(y, mo, d).isoweekday() % 7
    p2 = (lambda x: f'{x:02d}') if pad else str
    h12 = (h + 11) % 12 + 1
    m = {'Y': str(y), 'm': p2(mo), 'd': p2(d), 'b': MONS[mo - 1][:3], 'h': MONS[mo - 1][:3], 'B': MONS[mo - 1], 'y': f'{y % 100:02d}', 'C': f'{y // 100:02d}', 'H': p2(h), 'k': str(h), 'M': f'{mi:02d}', 'S': f'{s:02d}', 'I': p2(h12), 'p': 'PM' if h >= 12 else 'AM',
         'a': DAYS[wd][:3], 'A': DAYS[wd]}
    f = expand(f)
    return re.sub(r'%(.)', lambda x: m[x[1]], f)


def expand(f):
    for k, v in (('%F', '%Y-%m-%d'), ('%D', '%m/%d/%y'), ('%R', '%H:%M'), ('%T', '%H:%M:%S'), ('%X', '%H:%M:%S'), ('%r', '%I:%M:%S %p')):
        f = f.replace(k, v)
    return f


def num(s, p, lo, hi):
    """digits as the C rule takes them: as many as the upper limit has, none that would pass it"""
    n, q, lim = 0, p, hi
    while q < len(s) and s[q] in '0123456789' and (q == p or (lim and n * 10 <= hi)):
        n = n * 10 + int(s[q])
        lim //= 10
        q += 1
    if q == p or not lo <= n <= hi:
        return None
    return n, q


def ref_strp(s, f):
    f = expand(f)
    v = dict(y=0, m=1, d=0, H=0, M=0, S=0)
    p = i = 0
    cent = yy = None
    while i < len(f):
        c = f[i]
        if c == ' ':
            while p < len(s) and s[p] in WS:
                p += 1
            i += 1
            continue
        if c != '%':
            if p >= len(s) or s[p] != c:
                return 0
            p += 1
            i += 1
            continue
        k = f[i + 1]
        i += 2
        if k in 'aAbBhp':
            names = {'a': DAYS, 'A': DAYS, 'p': ['AM', 'PM']}.get(k, MONS)
            for cand in [(j, n) for j, n in enumerate(names)] + ([(j, n[:3]) for j, n in enumerate(names)] if k != 'p' else []):
                if s[p:p + len(cand[1])].lower() == cand[1].lower():
                    break
            else:
                return 0
            p += len(cand[1])
            if k in 'bBh':
                v['m'] = cand[0] + 1
            if k == 'p':
                if v['H'] > 11:
                    return 0
                v['H'] += 12 * cand[0]
            continue
        lo, hi = {'Y': (0, 9999), 'm': (1, 12), 'd': (1, 31), 'y': (0, 99), 'C': (0, 99), 'H': (0, 23), 'k': (0, 23), 'I': (1, 12), 'M': (0, 59), 'S': (0, 61)}[k]
        x = num(s, p, lo, hi)
        if x is None:
            return 0
        n, p = x
        if k == 'Y':
            v['y'] = n
        elif k == 'C':
            cent = n
        elif k == 'y':
            v['y'] = n + (cent * 100 if cent is not None else 2000 if n <= 68 else 1900)
        elif k in 'Hk':
            v['H'] = n
        elif k == 'I':
            v['H'] = n % 12
        else:
            v[k] = n
    d = date_ns(v['y'], v['m'], v['d'])
    if d is None:
        return 0
    frac = re.match(r'\.(\d{0,9})', s[p:], re.A)
    return d + ((v['H'] * 60 + v['M']) * 60 + v['S']) * 10**9 + (int((frac[1] + '0' * 9)[:9]) if frac else 0)


def strp(t, s, f, want, widths=(0, 3)):
    for kind in 'SU':
        if kind == 'S' and any(ord(c) > 255 for c in s):
            continue
        for w in widths:
            n = max(1, len(s) + w)
            a = np.array([s.encode('latin-1') if kind == 'S' else s, '' if kind == 'U' else b''], dtype=f'{kind}{n}')
            t.begin(f'rc.StrptimeToNanos(np.array([{s!r}, ""], {kind}{n}), {f.encode()!r})')
            r, _ = call('StrptimeToNanos', a, f.encode())
            t.calls += 1
            if int(r[0]) != want or int(r[1]) != 0:
                return t.fail(f'{r.tolist()}, expected {[want, 0]}')
            t.outcome('strp-good' if want else 'strp-invalid')
    t.count("texts")


def run_unit(u, t):
    k = u['k']
    if k == 'dates':
        texts, want, t2 = [], [], []
        for y in range(u['y0'], u['y1']):
            for m in range(0, 14):
                for d in range(0, 33):
                    texts.append(f'{y}-{m:02d}-{d:02d}')
                    t2.append(f'{y}{m:02d}{d:02d}')
                    want.append(date_ns(y, m, d) or 0)
        one_digit = [f'{y}-{m}-{d}' for y in range(u['y0'], u['y1']) for m in range(0, 14) for d in range(0, 33)]
        for kind in 'SU':
            for x in (texts, t2, one_digit):
                for fn in ('DateStringToNanos', 'DateTimeStringToNanos'):
                    for ex in (0, 1, 5):
                        bulk(t, fn, x, want, kind, ex)
            tt = 'T23:59:59.000000001'
            bulk(t, 'DateTimeStringToNanos', [x + tt for x in texts], [w + DAY - 10**9 + 1 if date_ns(*map(int, x.split('-'))) is not None else 0 for w, x in zip(want, texts)], kind)
        return
    if k == 'years':
        texts = [f'{y:04d}-{m:02d}-{d:02d}' for y in range(u['c'] * 1000, u['c'] * 1000 + 1000) for m, d in ((1, 1), (2, 28), (2, 29), (3, 1), (12, 31))]
        want = [date_ns(*map(int, x.split('-'))) or 0 for x in texts]
        for kind in 'SU':
            bulk(t, 'DateStringToNanos', texts, want, kind)
            bulk(t, 'DateTimeStringToNanos', texts, want, kind, 2)
            bulk(t, 'DateTimeStringToNanos', [x + ' 01:00:00.5' for x in texts], [w + 3600500000000 if date_ns(*map(int, x.split('-'))) is not None else 0 for w, x in zip(want, texts)], kind)
            t.begin(f'StrptimeToNanos years {u["c"]}000..')
            for fmt, sfx, add in ((b'%Y-%m-%d', '', 0), (b'%Y-%m-%d %H:%M:%S', ' 01:00:00.5', 3600500000000)):
                r, _ = call('StrptimeToNanos', np.array([x + sfx for x in texts], dtype=kind), fmt)
                for x, v, w in zip(texts, r.tolist(), want):
                    e = w + add if date_ns(*map(int, x.split('-'))) is not None else 0
                    if v != e:
                        return t.fail(f'{x + sfx!r} with {fmt}: {v}, expected {e}')
            t.count("texts", len(texts))
        return
    if k == 'times':
        hs = range(u['h'], u['h'] + 4)
        if TIER == 'thorough':
            trip = [(h, m, s) for h in hs for m in range(100) for s in range(100)]
        else:
            trip = [(h, m, s) for h in hs for m in range(100) for s in ((range(60) if m < 60 else (0, 59)) if h < 24 else (0, 59)) ] + [(h, m, s) for h in hs for m in (0, 1, 59, 60, 99) for s in range(60, 100)]
        want = [time_ns(h, m, s, None) or 0 for h, m, s in trip]
        for kind in 'SU':
            bulk(t, 'TimeStringToNanos', [f'{h:02d}:{m:02d}:{s:02d}' for h, m, s in trip], want, kind)
            bulk(t, 'TimeStringToNanos', [f'{h}:{m}:{s}' for h, m, s in trip], want, kind)
            bulk(t, 'DateTimeStringToNanos', [f'20000229 {h:02d}:{m:02d}:{s:02d}' for h, m, s in trip], [w + date_ns(2000, 2, 29) for w in want], kind)
            z = [x for x in trip if x[2] == 0]
            bulk(t, 'TimeStringToNanos', [f'{h:02d}:{m:02d}' for h, m, s in z], [time_ns(*x, None) or 0 for x in z], kind, 3)
        return
    if k == 'frac':
        for fr in [str(10**n - 1) for n in range(1, 10)] + ['0' * n + '1' for n in range(0, 9)] + ['123456789'[:n] for n in range(1, 10)] + ['9' + '0' * n for n in range(0, 9)] + ['5' * 10, '0' * 10, '1' * 12]:
            for base in ('00:00:00', '23:59:59', '1:2:3', '1:2', '24:00:00', '12:60', '1:2:60'):
                one(t, 'TimeStringToNanos', f'{base}.{fr}', (0, 1, 4))
                one(t, 'DateTimeStringToNanos', f'2024-02-29 {base}.{fr}', (0, 1, 4))
        for a in range(1000):
            one(t, 'TimeStringToNanos', f'12:34:56.{a:03d}')
        return
    if k == 'dt':
        for dd in [(y, m, d) for y in (1969, 1970, 1972, 2000, 2001, 2096, 2099, 2100) for m in (0, 1, 2, 4, 12, 13) for d in (0, 1, 28, 29, 30, 31, 32)]:
            for h, mi, s in itertools.product((0, 9, 23, 24, 99), (0, 59, 60), (0, 59, 60)):
                for fr in ('', '.000000001', '.9'):
                    one(t, 'DateTimeStringToNanos', '%04d-%02d-%02d' % dd + f'{u["d"]}{h:02d}:{mi:02d}:{s:02d}{fr}', (0, 2) if s == 59 else (0,), 'SU' if mi == 59 else 'S')
            t.beat()
        return
    if k == 'mixed':
        # texts of different lengths in one column: each as if alone
        pool = {'DateStringToNanos': ['2024-05-06', '20240506', '', ' ', '1970-1-2', 'x', '2024', '2024-02-30'], 'TimeStringToNanos': ['1:2', '12:34:56.789', '', '12', '1:2:3', 'x', '1s', '9:59:59.123456789'],
                'DateTimeStringToNanos': ['2024-05-06', '20240506', '', '20240506 1:2', '2024-05-06T12:34:56.789', '1', 'x y', '2024-05-06 12:34:56.123456789', '2024-05-06 ']}
        for fn, ps in pool.items():
            alone = {}
            for p in ps:
                for kind in 'SU':
                    r, w = call(fn, np.array([p], dtype=f'{kind}{max(1, len(p))}'))
                    alone[p, kind] = int(r[0]), w
            for kind in 'SU':
                for n in (2, 3):
                    for c in itertools.product(ps, repeat=n):
                        for ex in (0, 3):
                            a = np.array(c, dtype=f'{kind}{max(1, max(map(len, c))) + ex}')
                            variants = [('', a)]
                            if n == 3 and ex == 0:
                                b = np.zeros(2 * n, a.dtype)
                                b[1::2] = 'zz'
                                b[::2] = a
                                variants += [('[::2]', b[::2]), ('[::-1]', a[::-1].copy()[::-1])]
                            for nm, x in variants:
                                t.begin(f'rc.{fn}(np.array({c!r}, {a.dtype}){nm})')
                                r, w = call(fn, x)
                                t.calls += 1
                                t.count("texts")
                                if r.tolist() != [alone[p, kind][0] for p in c] or w != any(alone[p, kind][1] for p in c):
                                    t.fail(f'{r.tolist()} warning {w}; alone {[alone[p, kind] for p in c]}')
            t.begin(f'{fn}: empty array, warnings as errors, wrong types')
            if call(fn, np.array([], 'S5'))[0].shape != (0,) or call(fn, np.array([], 'U5'))[0].shape != (0,):
                t.fail('empty array')
            for x in (np.array([b'x']), np.array(['x'])):
                with warnings.catch_warnings():
                    warnings.simplefilter('error')
                    try:
                        getattr(rc, fn)(x)
                        t.fail('no exception')
                    except RuntimeWarning:
                        pass
                    except Exception as e:
                        t.fail(f'{type(e).__name__} {e}')
            for x in (np.array([1]), np.array([1.5]), np.array([True])):
                try:
                    getattr(rc, fn)(x)
                    t.fail('no exception')
                except ValueError:
                    t.outcome('raised')
        return
    if k == 'dev':
        fn = u['fn']
        s = CANON[fn][u['i']]
        chars = [chr(c) for c in range(1, 128)] + OTHER
        w = (0, 1, 4)
        one(t, fn, s, w)
        for i in range(len(s) + 1):
            if i < len(s):
                one(t, fn, s[:i] + s[i + 1:], w)
                one(t, fn, s[:i], w)
                one(t, fn, s[i:], w)
            for c in chars:
                if i < len(s):
                    one(t, fn, s[:i] + c + s[i + 1:], (0, 2))
                one(t, fn, s[:i] + c + s[i:], (0, 2))
            t.beat()
        return
    if k == 'dev2':
        fn = u['fn']
        s = CANON[fn][u['i']]
        p = u['p']
        for q in range(p + 1, len(s)):
            for a in '0159:.-/ T\u0130':
                for b in '0139:.-/ T\u0130':
                    one(t, fn, s[:p] + a + s[p + 1:q] + b + s[q + 1:], (0, 1))
            t.beat()
        return
    if k == 'short':
        fn = u['fn']
        for n in range(0, 4 if TIER == 'quick' else 5):
            for c in itertools.product(ALPHA, repeat=n):
                one(t, fn, ALPHA[u['c']] + ''.join(c), (0, 1) if n < 3 else (0,))
            t.beat()
        if u['c'] == 0:
            one(t, fn, '', (0, 1, 2))
        return
    f = FORMATS[u['i']]
    if k == 'strp':
        has_t = any(x in expand(f) for x in ('%H', '%k', '%I'))
        has_s = '%S' in expand(f)
        for d in DATES:
            if '%y' in expand(f) and '%C' not in f and not 1969 <= d[0] <= 2068:
                continue
            for tm in TIMES if has_t else TIMES[:1]:
                if not has_s:
                    tm = (tm[0], tm[1], 0)
                for pad in (True, False) if 'd%' not in f.replace('%d%y', '') and f not in ('%Y%m%d', '%Y%m%d%H%M%S') else (True,):
                    for fr, ns in (('', 0), ('.5', 5 * 10**8), ('.123456789', 123456789), ('.000000001', 1), ('.', 0)):
                        s = fmt_text(f, *d, *tm, pad=pad)
                        want = date_ns(*d) + ((tm[0] * 60 + tm[1]) * 60 + tm[2]) * 10**9
                        assert ref_strp(s + fr, f) == want + ns, (s, f)
                        strp(t, s + fr, f, want + ns)
            t.beat()
        for s in ('', ' ', 'x', '2024', '2024-02-30', '20240230', '02/30/2024', '30 Feb 2024', '30-FEBRUARY-2024', '2023-02-29 01:00:00', '20230229235959', '02/29/23', '1969-12-31 23:59:59', '2100-01-01 00:00:01'):
            strp(t, s, f, ref_strp(s, f))
        return
    if k == 'strpdev':
        for d, tm in (((2024, 2, 29), (12, 34, 56)), ((1999, 12, 31), (1, 0, 59))):
            s = fmt_text(f, *d, *tm)
            for i in range(len(s) + 1):
                for c in [chr(c) for c in range(33, 127)] + OTHER:
                    if i < len(s):
                        x = s[:i] + c + s[i + 1:]
                        strp(t, x, f, ref_strp(x, f), (0,))
                    if TIER == 'thorough':
                        x = s[:i] + c + s[i:]
                        strp(t, x, f, ref_strp(x, f), (0,))
                if i < len(s):
                    x = s[:i] + s[i + 1:]
                    strp(t, x, f, ref_strp(x, f))
                t.beat()
