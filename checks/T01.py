"""T01: cyclic unit conversions."""
from pv import terms as T
from pv import arr as A
from pv import contracts, dtf
from pv.spec import (Contract, C, pynum, make_input, snap, unchanged,
                     expect_shape, val, finite, is_nan, congruent)
from pv.arr import NAN, ABSENT

M = 'ocbpy.ocb_time.'
KINDS = ('scalar', '0-d', 'array', 'one', 'empty')


def post_cyclic(e, r, x, scaled, lo, hi, period, snaps, same_if_inside=True):
    """NaN in, NaN out; congruent; within [lo, hi); shape; frame."""
    shape = x.shape_
    expect_shape(e, r, shape)
    unchanged(e, snaps)
    v = r.buf.v if isinstance(r, A.Arr) else r
    if x.buf.v is ABSENT:
        e.oblige('empty input gives an empty result', T.b_const(
            v is ABSENT))
        return
    xv = val(x)
    v = val(r)
    if xv is NAN:
        is_nan(e, v)
        return
    finite(e, v)
    s = scaled(xv)
    e.oblige('lower limit', T.le(lo, v))
    e.oblige('below upper limit', T.lt(v, hi))
    congruent(e, v, s, period)
    if same_if_inside:
        e.oblige('values in range are kept', T.b_imp(
            T.b_and(T.le(lo, s), T.lt(s, hi)), T.eq(v, s)))


def c_fix_range(kind, dtype, given):
    def run(e, cx):
        f = cx.fn()
        x = make_input('x', kind, dtype)
        if dtype == 'i':
            lo, hi, rg = (A.sym(n, (), 'i', py=True) for n in
                          ('lo', 'hi', 'rg'))
        else:
            lo, hi, rg = pynum('lo'), pynum('hi'), pynum('rg')
        L, H, R = val(lo), val(hi), val(rg)
        s = snap(x)
        e.assume(T.lt(L, H))
        if given:
            e.assume(T.b_and(T.lt(T.ZERO, R), T.le(R, H - L)))
            r = f(x, lo, hi, rg)
        else:
            R = H - L
            r = f(x, lo, hi)
        post_cyclic(e, r, x, lambda v: v, L, H, R, s)
    return run


def c_fix_range_raises(which):
    def run(e, cx):
        f = cx.fn()
        x = make_input('x', 'array')
        lo, hi, rg = pynum('lo'), pynum('hi'), pynum('rg')
        L, H, R = val(lo), val(hi), val(rg)
        s = snap(x)
        if which == 'order':
            e.assume(T.le(H, L))
        else:
            e.assume(T.b_and(T.lt(L, H), T.le(R, T.ZERO)))
        try:
            f(x, lo, hi, rg)
            ok = False
        except ValueError:
            ok = True
        e.oblige('an impossible range raises ValueError', T.b_const(ok))
        unchanged(e, s)
    return run


def c_conv(name, kind, dtype, scaled, lo, hi, period, call=None):
    def run(e, cx):
        f = cx.fn()
        x = make_input('x', kind, dtype)
        s = snap(x)
        r = f(x) if call is None else call(f, x)
        post_cyclic(e, r, x, scaled, lo, hi, period, s)
    return run


def c_hr2deg_window(narrow):
    def run(e, cx):
        f = cx.fn()
        x = make_input('x', 'array')
        lo, hi = pynum('lo'), pynum('hi')
        L, H = val(lo), val(hi)
        s = snap(x)
        if narrow:
            e.assume(T.lt(H - L, C(360)))
            L = H - C(360)
        else:
            e.assume(T.le(C(360), H - L))
        r = f(x, lo, hi)
        post_cyclic(e, r, x, lambda v: v.scale(15), L, H, C(360), s)
    return run


def c_hr2rad_range(e, cx):
    f = cx.fn()
    x = make_input('x', 'array')
    hi = pynum('hi')
    s = snap(x)
    r = f(x, hi)
    two_pi = T.PI.scale(2)
    post_cyclic(e, r, x, lambda v: v * T.PI.scale(T.F(1, 12)),
                val(hi) - two_pi, val(hi), two_pi, s)


def contracts():
    out = []
    fr = [M + 'fix_range']
    for kind in KINDS:
        for dt in ('f', 'i'):
            for given in (True, False):
                if dt == 'i' and kind in ('scalar', 'one', 'empty'):
                    continue
                if not given and kind in ('scalar', 'one', 'empty'):
                    continue
                out.append(Contract(M + 'fix_range', 'fix_range(%s,%s,%s)' % (
                    kind, dt, 'range given' if given else 'default range'),
                    c_fix_range(kind, dt, given)))
    for w in ('order', 'range'):
        out.append(Contract(M + 'fix_range', 'fix_range raises (%s)' % w,
                            c_fix_range_raises(w)))
    pi12 = T.PI.scale(T.F(1, 12))
    k12 = T.P({((0, -1),): T.F(12)})
    two_pi = T.PI.scale(2)
    for kind in KINDS:
        for dt in ('f', 'i'):
            if dt == 'i' and kind in ('0-d', 'one', 'empty'):
                continue
            for nm, sc, lo, hi, per in (
                    ('deg2hr', lambda v: v.scale(T.F(1, 15)), C(0), C(24),
                     C(24)),
                    ('hr2deg', lambda v: v.scale(15), C(-180), C(360),
                     C(360)),
                    ('hr2rad', lambda v: v * pi12, C(0), two_pi, two_pi),
                    ('rad2hr', lambda v: v * k12, C(0), C(24), C(24))):
                out.append(Contract(M + nm, '%s(%s,%s)' % (nm, kind, dt),
                                    c_conv(nm, kind, dt, sc, lo, hi, per),
                                    stubs=fr))
    out.append(Contract(M + 'hr2deg', 'hr2deg window of 360 or more',
                        c_hr2deg_window(False), stubs=fr))
    out.append(Contract(M + 'hr2deg', 'hr2deg window below 360',
                        c_hr2deg_window(True), stubs=fr))
    out.append(Contract(M + 'hr2rad', 'hr2rad any maximum', c_hr2rad_range,
                        stubs=fr))
    return out
