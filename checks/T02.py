"""T02: solar local time and geographic longitude."""
from pv import terms as T
from pv import arr as A
from pv import contracts as K, dtf
from pv.spec import (Contract, C, make_input, snap, unchanged, expect_shape,
                     val, finite, is_nan, congruent)
from pv.arr import NAN, ABSENT

M = 'ocbpy.ocb_time.'
CALLEES = [M + 'fix_range', M + 'deg2hr', M + 'hr2deg', M + 'datetime2hr']


def sym_time(e):
    us = T.V('us_of_epoch', 'int')
    return dtf.SymDT(us.scale(T.F(1, 10**6)))


def c_datetime2hr(e, cx):
    f = cx.fn()
    d = sym_time(e)
    r = f(d)
    day = T.floor_p(d.t.scale(T.F(1, 86400)))
    v = finite(e, val(r))
    e.oblige('hours of the day', T.eq(v.scale(3600), d.t - day.scale(86400)))
    expect_shape(e, r, ())


def ut(d):
    return val(K.datetime2hr(d))


def c_conv(name, kind, dtype):
    def run(e, cx):
        f = cx.fn()
        d = sym_time(e)
        x = make_input('x', kind, dtype)
        s = snap(x)
        r = f(x, d)
        expect_shape(e, r, x.shape_)
        unchanged(e, s)
        if x.buf.v is ABSENT:
            e.oblige('empty stays empty', T.b_const(r.buf.v is ABSENT))
            return
        xv, v = val(x), val(r)
        if xv is NAN:
            is_nan(e, v)
            return
        finite(e, v)
        if name == 'slt2glon':
            lo, hi, per = C(-180), C(360), C(360)
            exact = (xv - ut(d)).scale(15)
        else:
            lo, hi, per = C(0), C(24), C(24)
            exact = xv.scale(T.F(1, 15)) + ut(d)
        e.oblige('lower limit', T.le(lo, v))
        e.oblige('below upper limit', T.lt(v, hi))
        congruent(e, v, exact, per)
    return run


def c_round(first, second, period):
    """Composition of the two conversions."""
    def run(e, cx):
        f, g = cx.fn(M + first), cx.fn(M + second)
        d = sym_time(e)
        x = make_input('x', 'array')
        y = g(f(x, d), d)
        expect_shape(e, y, x.shape_)
        xv, v = val(x), val(y)
        if xv is NAN:
            is_nan(e, v)
            return
        congruent(e, finite(e, v), xv, period, 'round trip')
    return run


def contracts():
    out = [Contract(M + 'datetime2hr', 'datetime2hr', c_datetime2hr)]
    for n in ('slt2glon', 'glon2slt'):
        for kind in ('scalar', '0-d', 'array', 'one', 'empty'):
            for dt in ('f', 'i'):
                if dt == 'i' and kind not in ('scalar', 'array'):
                    continue
                out.append(Contract(M + n, '%s(%s,%s)' % (n, kind, dt),
                                    c_conv(n, kind, dt), stubs=CALLEES))
    out.append(Contract(M + 'slt2glon', 'longitude round trip',
                        c_round('glon2slt', 'slt2glon', C(360)),
                        stubs=CALLEES))
    out.append(Contract(M + 'glon2slt', 'local time round trip',
                        c_round('slt2glon', 'glon2slt', C(24)),
                        stubs=CALLEES))
    return out


