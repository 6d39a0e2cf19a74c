"""V04: quadrants and pole location."""
from pv import terms as T
from pv import arr as A
from pv import contracts as K
from pv.spec import (Contract, C, make_input, snap, unchanged, expect_shape,
                     val, finite, is_nan)
from pv.arr import NAN, ABSENT

M = 'ocbpy.vectors.'


def wrapped(e, d):
    """The value congruent to d modulo 24 in [0, 24)."""
    return K.wrap_term(d, C(0), C(24), C(24))


def shape_of(*xs):
    sh = ()
    for x in xs:
        sh = A.bcast(sh, x.shape_)
    return sh


def c_pole(kinds, dtype='f'):
    def run(e, cx):
        f = cx.fn()
        a = make_input('data_lt', kinds[0], dtype)
        b = make_input('pole_lt', kinds[1], dtype)
        p = make_input('pole_angle', kinds[2])
        s = snap(a, b, p)
        e.loop_scope = [C(0), C(24)]
        q = f(a, b, p)
        expect_shape(e, q, shape_of(a, b, p))
        unchanged(e, s)
        if ABSENT in (a.buf.v, b.buf.v, p.buf.v):
            return
        av, bv, pv, v = val(a), val(b), val(p), val(q)
        finite(e, v, 'quadrant')
        if NAN in (av, bv, pv):
            e.oblige('undefined location has no quadrant', T.eq(v, T.ZERO))
            return
        d = wrapped(e, bv - av)
        west = T.le(C(12), d)
        south = T.le(C(90), pv)
        for n, w, s_ in ((1, 0, 0), (2, 1, 0), (3, 1, 1), (4, 0, 1)):
            e.oblige('quadrant %d' % n, T.b_iff(
                T.eq(v, C(n)), T.b_and(west if w else T.b_not(west),
                                       south if s_ else T.b_not(south))))
    return run


def c_vect(kinds, dtype='f'):
    def run(e, cx):
        f = cx.fn()
        n_ = make_input('vect_n', kinds[0], dtype)
        e_ = make_input('vect_e', kinds[1], dtype)
        s = snap(n_, e_)
        q = f(n_, e_)
        expect_shape(e, q, shape_of(n_, e_))
        unchanged(e, s)
        if ABSENT in (n_.buf.v, e_.buf.v):
            return
        nv, ev, v = val(n_), val(e_), val(q)
        finite(e, v, 'quadrant')
        if NAN in (nv, ev):
            e.oblige('undefined vector has no quadrant', T.eq(v, T.ZERO))
            return
        west, south = T.lt(ev, T.ZERO), T.lt(nv, T.ZERO)
        for n, w, s_ in ((1, 0, 0), (2, 1, 0), (3, 1, 1), (4, 0, 1)):
            e.oblige('quadrant %d' % n, T.b_iff(
                T.eq(v, C(n)), T.b_and(west if w else T.b_not(west),
                                       south if s_ else T.b_not(south))))
    return run


def c_loc(kinds, dtype='f'):
    def run(e, cx):
        f = cx.fn()
        a = make_input('phi_cent', kinds[0], dtype)
        r = make_input('r_cent', kinds[1], dtype)
        s = snap(a, r)
        lt, lat = f(a, r)
        expect_shape(e, lt, a.shape_, 'local time')
        expect_shape(e, lat, r.shape_, 'latitude')
        unchanged(e, s)
        if a.shape_ == () and r.shape_ == ():
            e.oblige('plain numbers', T.b_const(
                all(isinstance(z, A.Arr) and z.py for z in (lt, lat))))
        for z, x, fun in ((lt, a, lambda t: K.wrap_term(
                t.scale(T.F(1, 15)), C(0), C(24), C(24))),
                (lat, r, lambda t: C(90) - t)):
            if x.buf.v is ABSENT:
                continue
            xv, v = val(x), val(z)
            if xv is NAN:
                is_nan(e, v)
            else:
                e.oblige('value', T.eq(finite(e, v), fun(xv)))
    return run


def contracts():
    out = []
    combos = [('array',) * 3, ('scalar',) * 3, ('0-d',) * 3,
              ('array', 'scalar', 'array'), ('scalar', 'array', 'array'),
              ('array', 'array', 'scalar'), ('one',) * 3, ('empty',) * 3]
    for k in combos:
        out.append(Contract(M + 'define_pole_quadrants',
                            'pole quadrants %s' % '/'.join(k), c_pole(k)))
    for k in (('array',) * 3, ('scalar',) * 3):
        out.append(Contract(M + 'define_pole_quadrants',
                            'pole quadrants, integers %s' % '/'.join(k),
                            c_pole(k, 'i')))
    for k in (('array', 'array'), ('scalar', 'scalar'), ('0-d', '0-d'),
              ('array', 'scalar'), ('scalar', 'array'), ('one', 'one'),
              ('empty', 'empty')):
        out.append(Contract(M + 'define_vect_quadrants',
                            'vector quadrants %s' % '/'.join(k), c_vect(k)))
        out.append(Contract(M + 'get_pole_loc', 'pole location %s' %
                            '/'.join(k), c_loc(k),
                            stubs=['ocbpy.ocb_time.deg2hr']))
    for k in (('array', 'array'), ('scalar', 'scalar')):
        out.append(Contract(M + 'define_vect_quadrants',
                            'vector quadrants, integers %s' % '/'.join(k),
                            c_vect(k, 'i')))
        out.append(Contract(M + 'get_pole_loc', 'pole location, integers %s' %
                            '/'.join(k), c_loc(k, 'i'),
                            stubs=['ocbpy.ocb_time.deg2hr']))
    return out
