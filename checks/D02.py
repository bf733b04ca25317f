"""Comparisons and logical operations against their mathematical definition, over all value pairs x types x lengths x layouts."""
import operator
import numpy as np
import rcmod
from dp import *
import two
from D01 import common

OPS = {'eq': 401, 'ne': 402, 'lt': 403, 'gt': 404, 'le': 405, 'ge': 406, 'land': 407, 'lxor': 408, 'lor': 409}
F = {'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'gt': operator.gt, 'le': operator.le, 'ge': operator.ge,
     'land': np.logical_and, 'lor': np.logical_or, 'lxor': np.logical_xor}
META = {'bounds': 'all ordered pairs of the 11 numeric/bool types x 6 comparisons and 3 logical operations; same-type 8-bit operands: all 65536 value pairs; other types: all pairs of boundary values; '
                  'every length 0..2*lanes+1, placements, scalars, outputs and layouts as in D01. Threading off (schedules: T04).',
        'assumptions': ['a None result delegates the operation to numpy (riptable contract) and is accepted', 'operands of different types are compared after the invalid-preserving conversion to their common type '
                        '(float32 for 32/64-bit integers with float32), except int64 with uint64, which is compared exactly']}
rc = None


def parent_init(tier):
    rcmod.parent_init(tier)


def child_init():
    global rc
    _, rc = rcmod.load()


def mixed64(t1, t2):
    return {np.dtype(t1).str[1:], np.dtype(t2).str[1:]} == {'i8', 'u8'}


def exact(op, a, b):
    """int64 against uint64 without any conversion"""
    sa = a.dtype.kind == 'i'
    neg = (a if sa else b) < 0
    x, y = a.astype('u8'), b.astype('u8')
    r = F[op](x, y)
    lt = {'eq': False, 'ne': True, 'lt': sa, 'le': sa, 'gt': not sa, 'ge': not sa}[op]
    return np.where(neg, lt, r)


def ref(op, x, y):
    return F[op](x, y)


def expected(op, a, b):
    if op in ('land', 'lor', 'lxor') and not (a.dtype.kind == b.dtype.kind == 'b'):
        return None, None
    if mixed64(a.dtype, b.dtype):
        return exact(op, a, b), None
    c = common(a.dtype, b.dtype)
    return ref(op, conv_ref(a, c), conv_ref(b, c)), c


def check(t, op, args, exp, pre, msgs=''):
    g = rc.BasicMathTwoInputs(args, OPS[op], 0)
    t.calls += 1
    if g is None:
        t.count('refused')
        t.outcome('none')
        return None
    t.outcome(g.dtype.char)
    if not same(g, exp):
        t.fail(diff(g, exp) + msgs)
    for x, y in pre:
        if x.tobytes() != y:
            t.fail('an input was modified')
    return g


def units(tier):
    return [[op, t1, t2] for op in OPS for t1 in ALL for t2 in ALL]


def run_unit(u, t):
    op, t1, t2 = u

    def scalar(side, sarr, arr):
        if mixed64(t1, t2):
            return exact(op, sarr, arr) if side == 0 else exact(op, arr, sarr)
        cc = common(t1, t2)
        sc, ac = sarr.astype(cc), conv_ref(arr, cc)
        return ref(op, sc, ac) if side == 0 else ref(op, ac, sc)
    two.walk(u, t, t1, t2, lambda a, b: expected(op, a, b), scalar, lambda t, args, exp, pre, msgs='': check(t, op, args, exp, pre, msgs),
             lambda args: rc.BasicMathTwoInputs(args, OPS[op], 0))
