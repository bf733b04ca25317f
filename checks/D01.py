"""Two-input arithmetic and bitwise operations against an element-wise reference, over all value pairs x types x lengths x layouts."""
import numpy as np
import rcmod
from dp import *
import two

ADD, SUB, MUL, MOD, MIN, MAX, NANMIN, NANMAX, FLOORDIV, POWER, REM = 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12
DIV, SUBDT, SUBD = 101, 102, 103
BAND, BXOR, BOR, ANDNOT, NOTAND = 503, 504, 505, 506, 507
OPS = {'add': ADD, 'sub': SUB, 'mul': MUL, 'mod': MOD, 'min': MIN, 'max': MAX, 'floordiv': FLOORDIV, 'power': POWER, 'rem': REM,
       'div': DIV, 'subdt': SUBDT, 'subd': SUBD, 'band': BAND, 'bxor': BXOR, 'bor': BOR, 'andnot': ANDNOT, 'notand': NOTAND}
META = {'bounds': 'all ordered pairs of the 11 numeric/bool types x 17 operations; same-type 8-bit operands: all 65536 value pairs; other types: all pairs of boundary values '
                  '(14-60 per type incl. invalids, NaN, infinities, denormals); every length 0..2*lanes+1 (lanes = 32/itemsize) at rotating value offsets; '
                  'placements: aligned, element offsets, byte-misaligned, in place, separate output, scalar (numpy scalar, Python number, 1-element array) on either side, '
                  '2-d C and F order, strided, mixed order. Threading off (schedules: T04).',
        'assumptions': ['a None result delegates the operation to numpy (riptable contract) and is accepted', 'float power compared to 4 ulp; other results bit for bit (all NaNs equal)',
                        'integer modulo has the sign of the dividend and x % 0 == 0; integer floor division by zero is 0 (existing definition, numpy gives 0)']}
rc = None


def parent_init(tier):
    rcmod.parent_init(tier)


def child_init():
    global rc
    _, rc = rcmod.load()


def common(t1, t2):
    d1, d2 = np.dtype(t1), np.dtype(t2)
    if d1 == d2:
        return d1
    for a, b in ((d1, d2), (d2, d1)):
        if a == np.dtype('f4') and b.kind in 'iu' and b.itemsize >= 4:
            return np.dtype('f4')
    return np.promote_types(d1, d2)


def floordiv_int(a, b):
    d = a.dtype
    out = np.zeros(a.shape, d)
    nz = b != 0
    # numpy floor division wraps lowest // -1 and gives 0 for zero divisors
    with np.errstate(all='ignore'):
        out[nz] = np.floor_divide(a[nz], b[nz])
    if d.kind == 'i':
        m = b == -1
        with np.errstate(all='ignore'):
            out[m] = (0 - a[m])
    return out


def cmod(a, b):
    """C remainder with zero divisor giving zero."""
    out = np.zeros(a.shape, a.dtype)
    nz = (b != 0)
    if a.dtype.kind == 'i':
        nz &= (b != -1)
    out[nz] = np.fmod(a[nz], b[nz])
    return out


def ref(op, a, b):
    """a, b same dtype. Returns the expected array or None if there is no definition (must be refused)."""
    d = a.dtype
    k = d.kind
    with np.errstate(all='ignore'):
        if op == 'add':
            return a + b
        if op == 'sub':
            return (a & ~b) if k == 'b' else a - b
        if op == 'mul':
            return a * b
        if op in ('min', 'max'):
            return np.minimum(a, b) if op == 'min' else np.maximum(a, b)
        if op == 'div':
            if k == 'f':
                return a / b
            return a.astype('f8') / b.astype('f8')
        if op == 'floordiv':
            if k == 'f':
                return np.floor(a / b)
            if k == 'b':
                return None
            return floordiv_int(a, b)
        if op == 'mod':
            if k == 'f':
                return a - b * np.floor(a / b)
            if k == 'b':
                return a ^ b
            return cmod(a, b)
        if op == 'rem':
            if k == 'f':
                return a - b * np.floor(a / b)
            return None
        if op == 'power':
            if k == 'f':
                return np.power(a, b)
            return None
        if op == 'subdt':
            if d.str[1:] not in ('i4', 'i8'):
                return None
            bad = (a == 0) | (b == 0) | (a == invalid(d)) | (b == invalid(d))
            r = (a - b).astype('f8')
            r[bad] = np.nan
            return r
        if op == 'subd':
            if d.str[1:] not in ('i4', 'i8'):
                return None
            bad = (a == 0) | (b == 0) | (a == invalid(d)) | (b == invalid(d))
            r = a - b
            r[bad] = 0
            return r
        if k == 'f':
            return None
        if op == 'band':
            return a & b
        if op == 'bor':
            return a | b
        if op == 'bxor':
            return a ^ b
        if op == 'andnot':
            return a & ~b
        if op == 'notand':
            return ~a & b
    return None


def units(tier):
    u = []
    for op in OPS:
        for t1 in ALL:
            for t2 in ALL:
                u.append([op, t1, t2])
    return u


def expected(op, a, b):
    c = common(a.dtype, b.dtype)
    return ref(op, conv_ref(a, c), conv_ref(b, c)), c


def defined(op, a, b, c):
    """Drop pairs whose definition is not an exact value (conversion outside the representable range does not occur for upcasts)."""
    return a, b


def check(t, op, args, exp, pre, msgs=''):
    g = rc.BasicMathTwoInputs(args, OPS[op], TNUM.get(exp.dtype.str[1:], 0) if exp is not None else 0)
    t.calls += 1
    if g is None:
        t.count('refused')
        t.outcome('none')
        return None
    if exp is None:
        t.fail('result %s where the operation is not defined' % (g.dtype,))
        return None
    t.outcome(g.dtype.char)
    if op == 'power':
        ok = close(g, exp)
    elif op in ('min', 'max') and exp.dtype.kind == 'f':
        ok = g.dtype == exp.dtype and g.shape == exp.shape and np.array_equal(g, exp, equal_nan=True)      # either zero
    else:
        ok = same(g, exp)
    if not ok:
        t.fail(diff(g, exp) + msgs)
    for x, y in pre:
        if x.tobytes() != y:
            t.fail('an input was modified')
    return g


def run_unit(u, t):
    op, t1, t2 = u

    def scalar(side, sarr, arr):
        cc = common(t1, t2)
        sc, ac = sarr.astype(cc), conv_ref(arr, cc)
        return ref(op, sc, ac) if side == 0 else ref(op, ac, sc)
    two.walk(u, t, t1, t2, lambda a, b: expected(op, a, b), scalar, lambda t, args, exp, pre, msgs='': check(t, op, args, exp, pre, msgs),
             lambda args: rc.BasicMathTwoInputs(args, OPS[op], 0))
