"""V01: haversine and inverse haversine."""
from pv import terms as T
from pv import arr as A
from pv.spec import (Contract, C, make_input, snap, unchanged, expect_shape,
                     val, finite, is_nan)
from pv.arr import NAN, ABSENT

M = 'ocbpy.ocb_scaling.'
TINY = C(T.to_frac(1e-16))
KINDS = ('scalar', '0-d', 'array', 'one', 'empty')


def c_hav(kind):
    def run(e, cx):
        f = cx.fn()
        x = make_input('alpha', kind)
        s = snap(x)
        r = f(x)
        expect_shape(e, r, x.shape_)
        unchanged(e, s)
        if x.buf.v is ABSENT:
            return
        xv, v = val(x), val(r)
        if xv is NAN:
            is_nan(e, v)
            return
        finite(e, v)
        c, _ = T.trig(xv)
        e.oblige('haversine', T.eq(v.scale(2), T.ONE - c))
    return run


def c_archav(kind):
    def run(e, cx):
        f = cx.fn()
        x = make_input('h', kind)
        s = snap(x)
        if isinstance(x.buf.v, T.P) or x.buf.v is not ABSENT:
            pass
        r = f(x)
        expect_shape(e, r, x.shape_)
        unchanged(e, s)
        if x.buf.v is ABSENT:
            return
        xv, v = val(x), val(r)
        if xv is NAN:
            is_nan(e, v)
            return
        if e.decide(T.lt(T.ONE, xv)) or e.decide(T.le(xv, -TINY)):
            is_nan(e, v, 'the angle of an impossible haversine')
            return
        finite(e, v)
        if e.decide(T.lt(xv, TINY)):
            e.oblige('a rounding error of zero gives zero',
                     T.eq(v, T.ZERO))
            return
        e.oblige('the angle is not negative', T.le(T.ZERO, v))
        e.oblige('the angle is at most pi', T.le(v, T.PI))
        c, _ = T.trig(v)
        e.oblige('the angle has this haversine', T.eq(xv.scale(2),
                                                      T.ONE - c))
    return run


def contracts():
    return [Contract(M + 'hav', 'hav(%s)' % k, c_hav(k)) for k in KINDS] + [
        Contract(M + 'archav', 'archav(%s)' % k, c_archav(k)) for k in KINDS]
