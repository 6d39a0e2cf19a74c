"""V03: rotating vectors to the destination pole."""
from pv import terms as T
from pv import arr as A
from pv import contracts as K
from pv.engine import PathEnd
from pv.spec import (Contract, C, make_input, snap, unchanged, expect_shape,
                     val, finite, is_nan, SHAPES, shared_dim, out_arr)
from pv.arr import NAN, ABSENT
from checks.V04 import shape_of

M = 'ocbpy.vectors.'


def shape_kind(k):
    return (shared_dim(),) if k == 'array' else (SHAPES[k]() or ())


def quad_input(e, name, k):
    """A quadrant: 0 (undefined) to 4."""
    sh = shape_kind(k)
    if sh == (0,):
        return out_arr(sh, ABSENT)
    for i in (1, 2, 3, 4):
        if e.choose('%s is %d' % (name, i)):
            return out_arr(sh, C(i))
    return out_arr(sh, T.ZERO)


def angles(e, k):
    pq = quad_input(e, 'pole_quad', k[0])
    vq = quad_input(e, 'vect_quad', k[1])
    a = make_input('base_naz', k[2])
    p = make_input('pole_angle', k[3])
    absent = ABSENT in (pq.buf.v, vq.buf.v, a.buf.v, p.buf.v)
    d = None
    if not absent:
        q1, q2 = int(val(pq).cval()), int(val(vq).cval())
        av, pv = val(a), val(p)
        if av is not NAN:
            e.assume(T.b_and(T.le(T.ZERO, av), T.le(av, C(180))))
            if q2:
                e.assume(T.le(av, C(90)) if q2 in (1, 2) else
                         T.lt(C(90), av))
        if pv is not NAN:
            e.assume(T.b_and(T.le(T.ZERO, pv), T.le(pv, C(180))))
            if q1:
                e.assume(T.lt(pv, C(90)) if q1 in (1, 2) else
                         T.le(C(90), pv))
        if q1 and q2 and NAN not in (av, pv):
            d = K.azimuths(val(pq), val(vq), av, pv, require=False)
    return pq, vq, a, p, absent, d


def call(e, f, pq, vq, *args, **k):
    try:
        return f(pq, vq, *args, **k)
    except ValueError as x:
        if 'undefined' not in str(x):
            raise
        zero = [q.shape_ == (0,) or val(q).is_zero() for q in (pq, vq)]
        e.oblige('only undefined quadrants are refused',
                 T.b_const(any(zero)))
        raise PathEnd()


def c_polar(k):
    def run(e, cx):
        f = cx.fn()
        pq, vq, a, p, absent, d = angles(e, k)
        s = snap(pq, vq, a, p)
        r = call(e, f, pq, vq, a, p)
        expect_shape(e, r, shape_of(pq, vq, a, p))
        unchanged(e, s)
        if absent:
            return
        v = val(r)
        if d is None:
            is_nan(e, v)
            return
        e.oblige('angle between vector and destination pole',
                 T.eq(finite(e, v), K.fold(d)))
    return run


def c_sign(k, north, east, given=False):
    def run(e, cx):
        f = cx.fn()
        pq, vq, a, p, absent, d = angles(e, k)
        s = snap(pq, vq, a, p)
        r = call(e, f, pq, vq, a, p, north=north, east=east)
        unchanged(e, s)
        e.oblige('both signs are returned', T.b_const(
            isinstance(r, dict) and set(r) == {'north', 'east'}))
        for key, on in (('north', north), ('east', east)):
            expect_shape(e, r[key], shape_of(pq, vq, a, p), key)
            if absent:
                continue
            v = finite(e, val(r[key]), key)
            if not on:
                e.oblige(key + ' not requested', T.eq(v, T.ZERO))
                continue
            e.oblige(key + ' is a sign', T.b_or(T.eq(v, C(1)),
                                                T.eq(v, C(-1))))
            if d is not None:
                up = A.force(T.eq(v, C(1)))
                e.oblige(key + ' sign', K.sign_rule(key, d, up))
    return run


NAMES = ('vect_lt', 'vect_lat', 'vect_n', 'vect_e', 'vect_z', 'vect_quad',
         'pole_lt', 'pole_lat', 'pole_angle', 'pole_quad')


class Vals(object):
    """Input values, their NaN status decided when first looked at."""

    def __init__(self, g):
        self.g = g

    def __getitem__(self, n):
        return val(self.g[n])


def raw(a):
    """The number an input is unless it is NaN."""
    v = a.buf.v
    return v.poly if isinstance(v, A.Lazy) else v


def defined(x):
    return all(x[i] is not NAN for i in (
        'pole_angle', 'vect_n', 'vect_e', 'vect_lt', 'pole_lt'))


def case_of(x):
    """Partition of the inputs into the cases proved separately."""
    n, ea, p = [x[i] for i in ('vect_n', 'vect_e', 'pole_angle')]
    if NAN not in (n, ea) and A.force(T.b_and(T.eq(n, T.ZERO),
                                              T.eq(ea, T.ZERO))):
        return 'zero'
    if p is not NAN and A.force(T.b_or(T.eq(p, T.ZERO), T.eq(p, C(180)))):
        return 'aligned'
    return 'regular' if defined(x) else 'undefined'


CASES = ('zero', 'aligned', 'undefined', 'regular')


def c_adjust(kinds, ints=(), quads=(0, 1, 2, 3), cases=CASES):
    def run(e, cx):
        f = cx.fn()
        T.THUNKS[0] = True
        g = {}
        for n, k in zip(NAMES, kinds):
            if n.endswith('_quad'):
                continue
            g[n] = make_input(n, k, 'i' if n in ints else 'f')
        absent = any(x.buf.v is ABSENT for x in g.values())
        x = Vals(g)
        if not absent and g['pole_angle'].buf.v is not NAN:
            p = raw(g['pole_angle'])
            e.assume(T.b_and(T.le(T.ZERO, p), T.le(p, C(180))))
        if not absent and len(cases) < 4 and case_of(x) not in cases:
            raise PathEnd()
        given = [i for i in quads if i == quads[-1] or e.choose(
            'quadrants given: %d' % i)][0]
        for n, k, bit, fun, ar in (
                ('vect_quad', kinds[5], 1, K.vect_quad_of, ('vect_n',
                                                         'vect_e')),
                ('pole_quad', kinds[9], 2, K.pole_quad_of, (
                    'vect_lt', 'pole_lt', 'pole_angle'))):
            sh = shape_kind(k)
            if absent or sh == (0,):
                g[n] = out_arr(sh, ABSENT if sh == (0,) else C(1))
            elif given & bit:
                g[n] = out_arr(sh, fun(*[x[z] for z in ar]))
            else:
                g[n] = out_arr(sh, T.ZERO)
        args = [g[n] for n in NAMES]
        s = snap(*args)
        try:
            r = f(*args)
        except ValueError as err:
            if 'undefined' not in str(err):
                raise
            if given == 3:
                need = ('vect_n', 'vect_e') if 'vector' in str(err) else (
                    'vect_lt', 'pole_lt', 'pole_angle')
                e.oblige('only undefined vectors are refused', T.b_const(
                    any(x[i] is NAN for i in need)))
                return
            zero = not absent and NAN not in (x['vect_n'], x['vect_e']) and \
                A.force(T.b_and(T.eq(x['vect_n'], T.ZERO),
                                T.eq(x['vect_e'], T.ZERO)))
            flat = not absent and x['pole_angle'] is not NAN and A.force(
                T.b_or(T.eq(x['pole_angle'], T.ZERO),
                       T.eq(x['pole_angle'], C(180))))
            generic = any(a.generic() for a in args)
            e.oblige('only undefined vectors are refused', T.b_const(
                not defined(x) or (generic and (zero or flat))))
            return
        sh = shape_of(*args)
        for z, n in zip(r, ('north', 'east', 'vertical')):
            expect_shape(e, z, sh, n)
        unchanged(e, s)
        if absent:
            return
        rn, re = [val(z) for z in r[:2]]
        rz = r[2]
        n, ea, p = [x[i] for i in ('vect_n', 'vect_e', 'pole_angle')]
        none = NAN in (n, ea)
        if not none and A.force(T.b_and(T.eq(n, T.ZERO), T.eq(ea, T.ZERO))):
            e.oblige('no horizontal vector', T.b_and(
                T.eq(finite(e, rn), T.ZERO), T.eq(finite(e, re), T.ZERO)))
            vertical(e, rz, x)
            return
        if p is not NAN and (A.force(T.eq(p, T.ZERO)) or A.force(
                T.eq(p, C(180)))):
            vertical(e, rz, x)
            sg = aligned(e, x)
            for w, i, t in ((rn, n, 'north'), (re, ea, 'east')):
                if i is NAN:
                    is_nan(e, w, t)
                elif sg is None:
                    finite(e, w, t)
                else:
                    e.oblige('aligned ' + t, T.eq(finite(e, w, t),
                                                  i.scale(sg)))
            return
        if not defined(x):
            is_nan(e, rn, 'north')
            is_nan(e, re, 'east')
            return
        vertical(e, rz, x)
        cp, sp = T.trig(T.to_rad(p))
        po = int(K.pole_quad_of(x['vect_lt'], x['pole_lt'], p).cval())
        k = K.EAST[po]
        sp = sp.scale(k)
        e.oblige('component towards the destination pole',
                 T.eq(finite(e, rn), n * cp + ea * sp))
        e.oblige('component across', T.eq(finite(e, re), ea * cp - n * sp))
    return run


def vertical(e, rz, x):
    v, w = x.g['vect_z'].buf.v, rz.buf.v
    if isinstance(v, A.Lazy) and isinstance(w, A.Lazy) and v.name == w.name \
            and v.name != 'thunk':
        e.oblige('vertical component is kept', T.TRUE)
        return
    z, rz = x['vect_z'], val(rz)
    if z is NAN:
        is_nan(e, rz, 'vertical')
    else:
        e.oblige('vertical component is kept', T.eq(finite(
            e, rz, 'vertical'), z))


def aligned(e, x):
    """1: the poles lie in one direction, -1: the data are in between."""
    if A.force(T.eq(x['pole_angle'], T.ZERO)):
        la, lb = x['vect_lat'], x['pole_lat']
        if NAN in (la, lb):
            return None
        north = T.lt(A.s_abs(la), A.s_abs(lb))
        return 1 if A.force(north) else None
    a, b = x['vect_lt'], x['pole_lt']
    if NAN in (a, b):
        return 1
    d = K.wrap_term(b - a, C(0), C(24), C(24))
    return -1 if A.force(T.eq(d, T.ZERO)) else 1


def contracts():
    out = []
    for k in (('array',) * 4, ('0-d', '0-d', 'scalar', 'scalar'),
              ('0-d', '0-d', '0-d', '0-d'),
              ('0-d', 'array', 'array', 'scalar'),
              ('array', '0-d', 'scalar', 'array'),
              ('one',) * 4):
        out.append(Contract(M + 'calc_dest_polar_angle',
                            'destination angle %s' % '/'.join(k),
                            c_polar(k)))
        out.append(Contract(M + 'calc_dest_vec_sign', 'signs %s' %
                            '/'.join(k), c_sign(k, True, True)))
    for n, ea in ((True, False), (False, True), (False, False)):
        for k in (('array',) * 4, ('0-d',) * 4):
            out.append(Contract(M + 'calc_dest_vec_sign', 'signs %s %s %s' % (
                n, ea, k[0]), c_sign(k, n, ea)))
    st = [M + x for x in ('define_pole_quadrants', 'define_vect_quadrants',
                          'calc_dest_polar_angle', 'calc_dest_vec_sign')]
    full = ('array',) * 10
    # shapes are made equal by broadcasting before anything else: combinations
    # of shapes are proved for the regular case, without given quadrants
    mixed = [('array', 'array', 'scalar', 'scalar', 'scalar', '0-d',
              'scalar', 'scalar', 'array', 'array'),
             ('scalar', 'scalar', 'array', 'array', 'array', 'array',
              'scalar', 'scalar', 'scalar', '0-d'),
             ('array', 'array', 'array', 'array', 'scalar', 'array',
              'scalar', 'scalar', 'array', 'array')]
    combos = [(full, c, q) for c in CASES for q in (
        range(4) if c == 'regular' else (0, 3))]
    combos += [(('scalar',) * 10, c, q) for c in CASES for q in (
        range(4) if c == 'regular' else (0, 3))]
    combos += [(('one',) * 10, c, 0) for c in CASES]
    combos += [(k, 'regular', 0) for k in mixed]
    combos += [(('0-d',) * 10, 'regular', 3), (mixed[0], 'aligned', 3)]
    combos.sort(key=lambda x: x[1] != 'aligned')
    for k, c, q in combos:
        out.append(Contract(
            M + 'adjust_vector', 'rotation %s, %s, quadrants %d' % (
                '/'.join(k), c, q), c_adjust(k, (), (q,), (c,)), stubs=st))
    out.append(Contract(M + 'adjust_vector', 'rotation, empty',
                        c_adjust(('empty',) * 10), stubs=st))
    for k, c in ((full, ('regular',)), (full, ('aligned',)),
                 (('scalar',) * 10, CASES)):
        out.append(Contract(
            M + 'adjust_vector', 'rotation, integers %s %s' % (
                k[0], '/'.join(c)), c_adjust(k, (
                    'vect_lt', 'vect_lat', 'vect_n', 'vect_e', 'vect_z'),
                    (0,), c), stubs=st))
    return out
