"""V02: the angle between the poles seen from the data."""
from pv import terms as T
from pv import arr as A
from pv import contracts as K
from pv.engine import PathEnd
from pv.spec import (Contract, C, make_input, snap, unchanged, expect_shape,
                     val, finite, is_nan)
from pv.arr import NAN, ABSENT
from checks.V04 import shape_of

M = 'ocbpy.vectors.'


def c_angle(kinds, hemi):
    def run(e, cx):
        f = cx.fn()
        T.LAZY[0] = True
        dlt = make_input('data_lt', kinds[0])
        dlat = make_input('data_lat', kinds[1])
        plt = make_input('pole_lt', kinds[2])
        plat = make_input('pole_lat', kinds[3])
        s = snap(dlt, dlat, plt, plat)
        vs = [x.buf.v for x in (dlt, dlat, plt, plat)]
        spec = None
        if ABSENT not in vs:
            a, la, b, lb = [val(x) for x in (dlt, dlat, plt, plat)]
            for x in (la, lb):
                if x is not NAN:
                    # same hemisphere, the data away from its pole
                    e.assume(T.lt(C(0), x if hemi > 0 else -x))
                    e.assume(T.le(x if hemi > 0 else -x, C(90)))
            if NAN not in (a, la, b, lb):
                spec = reference(e, a, la, b, lb, hemi)
        r = f(dlt, dlat, plt, plat)
        expect_shape(e, r, shape_of(dlt, dlat, plt, plat))
        unchanged(e, s)
        if ABSENT in vs:
            return
        v = val(r)
        if spec is None:
            is_nan(e, v)
            return
        finite(e, v, 'angle')
        e.oblige('at least zero', T.le(T.ZERO, v))
        e.oblige('at most 180 degrees', T.le(v, C(180)))
        d, E, S, north = spec
        if A.force(T.eq(d, T.ZERO)):
            e.oblige('on one meridian', T.eq(v, T.ZERO if A.force(north)
                                             else C(180)))
            return
        if A.force(T.eq(d, C(-12))):
            if A.force(north):
                e.oblige('on opposite meridians', T.eq(v, T.ZERO))
            else:
                # known finding: 180 instead of zero (the tests pin it)
                e.oblige('on opposite meridians', T.b_or(
                    T.eq(v, T.ZERO), T.eq(v, C(180))))
            return
        cv, _ = T.trig(T.to_rad(v))
        e.oblige('cosine rule of spherical trigonometry',
                 T.eq(cv * S, E))
    return run


def reference(e, a, la, b, lb, hemi):
    """cos(angle) = E / S from the spherical triangle."""
    d = K.wrap_term(b - a, C(-12), C(12), C(24))
    h = 1 if hemi > 0 else -1
    cd, sd = T.trig(T.to_rad(d.scale(15)))
    ca, sa = T.trig(T.to_rad(la))
    cb, sb = T.trig(T.to_rad(lb))
    sa, sb = sa.scale(h), sb.scale(h)
    # the data are not on a pole; the destination is not at the data
    e.assume(T.lt(T.ZERO, ca))
    E = ca * sb - sa * cb * cd
    S2 = (cb * sd) * (cb * sd) + E * E
    S = T.sqrt_p(S2)
    e.assume(T.lt(T.ZERO, S))
    # lemma: |E| <= S because S*S - E*E is a square
    q = cb * sd
    e.oblige('lemma: S*S = E*E + q*q', T.eq(S * S, E * E + q * q))
    x, y, z = (T.V(n) for n in ('lem_s', 'lem_e', 'lem_q'))
    e.oblige('lemma: a square root bounds its summands', T.b_imp(
        T.b_and(T.lt(T.ZERO, x), T.eq(x * x, y * y + z * z)),
        T.b_and(T.le(y * x.pow(-1), T.ONE),
                T.le(-T.ONE, y * x.pow(-1)))))
    w = E * T.inv_p(S)
    e.assume(T.b_and(T.le(w, T.ONE), T.le(-T.ONE, w)))
    north = T.le(la, lb) if hemi > 0 else T.le(lb, la)
    return d, E, S, north


def contracts():
    out = []
    st = ['ocbpy.ocb_time.hr2rad']
    for k in (('array',) * 4, ('scalar',) * 4, ('0-d',) * 4,
              ('array', 'array', 'scalar', 'scalar'),
              ('scalar', 'scalar', 'array', 'scalar'),
              ('scalar', 'array', 'array', 'scalar'),
              ('one',) * 4, ('empty',) * 4):
        for h in (1, -1):
            if h < 0 and k not in (('array',) * 4, ('scalar',) * 4):
                continue
            out.append(Contract(
                M + 'calc_vec_pole_angle', 'pole angle %s, %s' % (
                    '/'.join(k), 'north' if h > 0 else 'south'),
                c_angle(k, h), stubs=st))
    return out
