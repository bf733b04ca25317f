"""Helpers of the data-plane checks: types, boundary values, array placements, comparison."""
import itertools
import numpy as np

INTS = ['i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8']
FLOATS = ['f4', 'f8']
NUMS = INTS + FLOATS
ALL = ['?'] + NUMS
TNUM = {'?': 0, 'i1': 1, 'u1': 2, 'i2': 3, 'u2': 4, 'i4': 5, 'u4': 6, 'i8': 9, 'u8': 10, 'f4': 11, 'f8': 12, 'g': 13}
# numpy's type numbers on linux: i8 -> 7 ('l'), u8 -> 8 ('L'); 9/10 are long long


def dt(t):
    return np.dtype(t)


def invalid(t):
    """The value riptable treats as invalid for a type."""
    d = np.dtype(t)
    if d.kind == 'i':
        return d.type(np.iinfo(d).min)
    if d.kind == 'u':
        return d.type(np.iinfo(d).max)
    if d.kind == 'f':
        return d.type(np.nan)
    if d.kind == 'b':
        return False
    raise KeyError(t)


def vals(t, small=False):
    """Boundary values of a type (complete for bool)."""
    d = np.dtype(t)
    if d.kind == 'b':
        return np.array([False, True])
    if d.kind in 'iu':
        ii = np.iinfo(d)
        lo, hi = int(ii.min), int(ii.max)
        if small:
            v = [lo, -1, 0, 1, 2, hi]
        else:
            b = d.itemsize * 8
            v = [lo, lo + 1, -8, -3, -2, -1, 0, 1, 2, 3, 7, 10, hi - 1, hi]
            for k in (7, 8, 15, 16, 23, 24, 31, 32, 52, 53, 62, 63):
                if k < b:
                    v += [(1 << k) - 1, 1 << k, (1 << k) + 1]
                    if d.kind == 'i':
                        v += [-(1 << k) - 1, -(1 << k), -(1 << k) + 1]
        return np.array(sorted(set(x for x in v if lo <= x <= hi)), dtype=d)
    fi = np.finfo(d)
    if small:
        v = [np.nan, -np.inf, -1.5, -0.0, 0.0, 1.0, 2.5, np.inf]
    else:
        v = [np.nan, np.inf, -np.inf, 0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 2.0, 3.0, -3.0, 7.0, -7.0, 0.1, -0.1,
             float(fi.max), float(fi.min), float(fi.tiny), -float(fi.tiny), float(fi.tiny) / 4, -float(fi.tiny) / 4, float(fi.eps),
             127.0, 128.0, 255.0, 256.0, 32767.0, 32768.0, 65535.0, 8388607.5, 8388608.0, 16777215.0, 16777216.0, -16777217.0, 2147483647.0, 2147483648.0,
             -2147483648.0, 4294967295.0, 4294967296.0, 4503599627370495.5, 9007199254740993.0, 9.2233720368547748e18, -9.2233720368547758e18,
             1.8446744073709552e19, 1e10, -1e10, 1e30, -1e30]
    with np.errstate(all='ignore'):
        return np.array(v, dtype=d)


def full(t):
    d = np.dtype(t)
    if d.itemsize == 1 and d.kind != 'b':
        return np.arange(256, dtype=np.uint8).view(d)
    if d.itemsize == 2 and d.kind in 'iu':
        return np.arange(65536, dtype=np.uint16).view(d)
    return vals(t)


def pairs(a, b):
    n, m = len(a), len(b)
    return np.repeat(a, m), np.tile(b, n)


def place(a, kind, fill=0x5A):
    """A copy of 1-d a with the given placement. Returns (array, base) - base is kept for guard checks.
    kinds: 'c' plain, 'aN' element offset N in a 64-byte aligned buffer, 'mN' byte offset N (misaligned)"""
    n = a.nbytes
    base = np.full(n + 256 + int(kind[1:] or 0) * a.dtype.itemsize, fill, np.uint8)
    off = (-base.ctypes.data) % 64 + 64
    if kind == 'c':
        pass
    elif kind[0] == 'a':
        off += int(kind[1:]) * a.dtype.itemsize
    elif kind[0] == 'm':
        off += int(kind[1:])
    v = base[off:off + n].view(a.dtype)
    v[:] = a
    return v, base


def bits(a):
    """Canonical byte view: all NaNs made equal, zero signs kept."""
    a = np.ascontiguousarray(a)
    if a.dtype.kind == 'f':
        if a.dtype.itemsize == 16:
            a = a.astype('f8')
        a = a.copy()
        a[np.isnan(a)] = np.nan
        m = np.isnan(a)
        v = a.view('u%d' % a.dtype.itemsize)
        v[m] = np.array(np.nan, a.dtype).view(v.dtype)
        return v
    return a


def same(a, b):
    """Bitwise equality of two arrays of the same dtype, NaNs equal."""
    if a.dtype != b.dtype and not (a.dtype.kind == b.dtype.kind and a.dtype.itemsize == b.dtype.itemsize):
        return False
    if a.shape != b.shape:
        return False
    if a.dtype.kind == 'f':
        return bool(np.array_equal(bits(a), bits(b)))
    return bool(np.array_equal(a, b))


def diff(got, exp, limit=3):
    """Short text about the first differences."""
    if got is None:
        return 'got None'
    if not isinstance(got, np.ndarray):
        return 'got %r, expected %r' % (got, exp)
    if got.dtype != exp.dtype and not (got.dtype.kind == exp.dtype.kind and got.dtype.itemsize == exp.dtype.itemsize):
        return 'dtype %s, expected %s' % (got.dtype, exp.dtype)
    if got.shape != exp.shape:
        return 'shape %s, expected %s' % (got.shape, exp.shape)
    g, e = (bits(got), bits(exp)) if got.dtype.kind == 'f' else (got, exp)
    w = np.nonzero((g != e).ravel())[0]
    return '%d of %d elements differ; first at %s: got %s expected %s' % (
        len(w), got.size, w[:limit].tolist(), got.ravel()[w[:limit]].tolist(), exp.ravel()[w[:limit]].tolist())


def close(a, b, ulps=4):
    """Equality up to a few units in the last place (for functions whose result is not exactly rounded)."""
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind or a.dtype.itemsize != b.dtype.itemsize:
        return False
    if a.dtype.kind != 'f':
        return bool(np.array_equal(a, b))
    x, y = a.astype('f8'), b.astype('f8')
    with np.errstate(all='ignore'):
        ok = (x == y) | (np.isnan(x) & np.isnan(y))
        eps = np.finfo(a.dtype).eps * ulps
        ok |= np.abs(x - y) <= eps * np.maximum(np.abs(x), np.abs(y))
        ok |= np.abs(x - y) <= np.finfo(a.dtype).tiny
    return bool(ok.all())


def seqs(alphabet, n):
    """All sequences of length n as rows of a 2-d integer array of alphabet indices."""
    k = len(alphabet)
    idx = np.indices((k,) * n).reshape(n, -1).T if n else np.zeros((1, 0), int)
    return idx


# ---------------------------------------------------------------- conversion reference (numbers)
def is_inv(a):
    d = a.dtype
    if d.kind == 'f':
        return np.isnan(a)
    if d.kind == 'b':
        return np.zeros(a.shape, bool)
    return a == invalid(d)


def conv_ref(a, t):
    """Safe conversion: values kept, invalid maps to invalid. Only for representable values."""
    d = np.dtype(t)
    if a.dtype == d:
        return a.copy()
    with np.errstate(all='ignore'):
        r = a.astype(d)
    m = is_inv(a)
    if m.any() and d.kind != 'b':
        r[m] = invalid(d)
    return r
