"""S02: vectors relative to a boundary."""
from pv import terms as T
from pv import arr as A
from pv import contracts as K
from pv import objs
from pv.engine import PathEnd
from pv.spec import (Contract, C, make_input, snap, unchanged, val, finite,
                     is_nan)
from pv.arr import NAN, ABSENT, Arr, Buf
from checks.B01 import METHOD, side
from checks.D02 import term

CLS = 'ocbpy.ocb_scaling.VectorData.'
ST = ['ocbpy.vectors.' + x for x in (
    'calc_vec_pole_angle', 'get_pole_loc', 'adjust_vector')]
ST += [('ocbpy.vectors.define_pole_quadrants', objs.pole_quad_stub),
       ('ocbpy.vectors.define_vect_quadrants', objs.vect_quad_stub)]
ST += ['ocbpy._boundary.OCBoundary.normal_coord',
       'ocbpy._boundary.DualBoundary.normal_coord',
       'ocbpy.ocb_time.slt2glon', 'ocbpy.ocb_time.glon2slt']
DATA = ('lat', 'lt', 'vect_n', 'vect_e', 'vect_z', 'height')
OUT = ('ocb_n', 'ocb_e', 'ocb_z')


class Values(object):
    """Elements of the inputs, looked at only when needed."""

    def __init__(self, g):
        self.g = g

    def __getitem__(self, k):
        return val(self.g[k])


def scale_value(*vs):
    """Any function of the value and the radii."""
    if NAN in vs:
        return NAN
    return T.apply_uf('real:scaled value', list(vs))


def scale_stub(x, un, sc):
    return K.many(scale_value, x, un, sc)


def target(e, cx, hemi, cls):
    """A boundary object and where the records of its boundary are."""
    if cls == 'Dual':
        o = objs.dual(e, cx, hemi)
        return o, o.ocb, lambda i: term(o.ocb_ind.at(i))
    o, _ = objs.boundary(e, cx, hemi, cls)
    return o, o, lambda i: i


def magnetic(e, o, i, x, loc, vec, method):
    """Magnetic location and components of one datum."""
    h = o.hemisphere
    la, lt = x['lat'], x['lt']
    ga, gl = la, lt
    if loc != 'magnetic':
        la, lt = objs.geographic(o, i, loc, method, la, lt, x['height'])
    elif vec != 'magnetic':
        ga, gl = (NAN, NAN) if NAN in (la, lt, x['height']) else \
            objs.to_geographic(o, i, vec, method, la, lt, x['height'])
    return la, lt, ga, gl


def mag_vector(o, i, x, vec, method, ga, gl, la, m):
    """Magnetic components of a vector given in geographic directions."""
    n, ea = x['vect_n'], x['vect_e']
    hg = x['height']
    t = objs.rec_term(o.dtime.name, i)
    pl = lo = NAN
    if hg is not NAN:
        fl = objs.flags('|'.join([method, 'A2G'] + (
            ['GEOCENTRIC'] if vec == 'geocentric' else [])))
        out = objs.lib('conv ' + fl, [C(90).scale(o.hemisphere), T.ZERO, hg,
                                      t], 3)
        pl, lo = A.elem(out[0]), A.elem(out[1])
        if lo is not NAN:
            lo = A.elem(objs.lib('glon2slt', [lo, t], 1)[0])
    p = objs.seen_angle(gl, ga, lo, pl)
    flat = NAN not in (n, ea) and A.force(T.b_and(T.eq(n, T.ZERO),
                                                  T.eq(ea, T.ZERO)))
    out = rotate(gl, ga, n, ea, lambda: x['vect_z'], lo, pl, p)
    return p is NAN, flat, out


def rotate(lt, la, n, ea, z, plt, pla, p):
    return [lambda k=k: objs.turned(k, lt, la, n, ea, z, plt, pla, p)
            for k in range(3)]


def c_set(kinds, hemi, cls='OCBoundary', fn=True, loc='magnetic',
          vec='magnetic', method=None, at='set'):
    def run(e, cx):
        T.LAZY[0] = T.THUNKS[0] = True
        V = cx.mod('ocbpy.ocb_scaling').VectorData
        o, b, rec = target(e, cx, hemi, cls)
        k = kinds[0]
        g = {n: make_input(n, kinds[2] if n == 'height' else k)
             for n in DATA}
        one = A.sym('record', (), 'i', nan=False, py=True)
        dat = make_input('dat_ind', k, 'i')
        kw = {'scale_func': scale_stub} if fn and at == 'init' else {}
        s = snap(*g.values())
        v = V(dat, one, g['lat'], g['lt'], height=g['height'],
              vect_n=g['vect_n'], vect_e=g['vect_e'], vect_z=g['vect_z'],
              loc_coord=loc, vect_coord=vec, **kw)
        i = one.e()
        e.assume(T.b_and(T.le(T.ZERO, i), T.lt(i, term(o.records))))
        was = [objs.attrs(x) for x in (o, b)]
        kw = {} if method is None else {'trace_method': method}
        if fn and at == 'set':
            kw['scale_func'] = scale_stub
        undefined = None
        try:
            v.set_ocb(o, **kw)
        except ValueError as x:
            if not any(w in str(x) for w in ('undefined', 'required', 'need')):
                raise
            undefined = x
        unchanged(e, s)
        for w, x in zip(was, (o, b)):
            objs.same_attrs(e, w, x, but=('rec_ind', '_rec_ind'),
                            what='boundary')
        if any(x.buf.v is ABSENT for x in g.values()):
            return
        x = Values(g)
        la, m, ga, gl = magnetic(e, o, i, x, loc, vec, method or METHOD)
        want = expected(o, b, i, rec(i), la, m)
        olat, omlt, rc = want
        lost = flat = False
        if vec == 'magnetic':
            n, ea = [x[q] for q in ('vect_n', 'vect_e')]

            def z():
                return x['vect_z']
        else:
            lost, flat, (n, ea, z) = mag_vector(o, i, x, vec,
                                                method or METHOD, ga, gl, la,
                                                m)
            n, ea = A.elem(n()), A.elem(ea())
        if undefined is not None:
            e.oblige('only undefined vectors are refused', T.b_const(
                lost or olat is NAN or NAN in (n, ea)))
            return
        if la is not NAN and m is not NAN:
            for a, w in (('lat', la), ('lt', m)):
                same(e, getattr(v, a), w, 'magnetic ' + a)
        if lost:
            for a in OUT[:2]:
                e.oblige('no magnetic directions: ' + a, T.b_const(
                    flat or val(getattr(v, a)) is NAN))
            return
        if olat is NAN:
            is_nan(e, val(v.ocb_lat), 'no boundary coordinates: latitude')
            is_nan(e, val(v.pole_angle), 'no boundary coordinates: angle')
            for a in OUT[:2]:
                if val(getattr(v, a)) is not NAN:
                    e.oblige('no boundary coordinates: ' + a, T.b_and(
                        T.eq(n, T.ZERO), T.eq(ea, T.ZERO))
                        if NAN not in (n, ea) else T.FALSE)
            return
        e.oblige('magnetic coordinates', T.b_const(
            v.loc_coord == 'magnetic' and v.vect_coord == 'magnetic'))
        for a, w in (('vect_n', n), ('vect_e', ea)):
            same(e, getattr(v, a), w, 'magnetic ' + a)
        same(e, v.ocb_lat, olat, 'boundary latitude')
        same(e, v.ocb_mlt, omlt, 'boundary local time')
        same(e, v.r_corr, rc, 'correction')
        un = objs.rec_term(b.r.name, rec(i)) + rc
        sc = C(90) - term(b.boundary_lat).scale(hemi)
        same(e, v.unscaled_r, un, 'radius of the boundary')
        same(e, v.scaled_r, sc, 'radius of the reference')
        plt = K.wrap_term(objs.rec_term(b.phi_cent.name, rec(i)).scale(
            T.F(1, 15)), C(0), C(24), C(24))
        pla = C(90) - objs.rec_term(b.r_cent.name, rec(i))
        same(e, v.ocb_aacgm_mlt, plt, 'local time of the boundary pole')
        if hemi < 0 and A.force(T.eq(val(v.ocb_aacgm_lat), -pla)):
            # known finding: the northern latitude is used
            pla = -pla
        same(e, v.ocb_aacgm_lat, pla, 'latitude of the boundary pole')
        p = objs.seen_angle(m, la, plt, pla)
        same(e, v.pole_angle, p, 'angle between the poles')
        if NAN not in (n, ea):
            same(e, v.vect_z, z(), 'magnetic vect_z')
        turned = rotate(m, la, n, ea, z, plt, pla, p)
        size = []
        for a, w in zip(OUT, turned):
            if NAN in (n, ea) and a == 'ocb_z':
                continue
            w = w()
            if fn and w is not NAN and isinstance(w, T.P):
                w = scale_value(w, un, sc)
            if isinstance(w, A.Lazy):
                continue
            same(e, getattr(v, a), w, a)
            size.append(w)
        if len(size) == 3:
            same(e, v.ocb_mag, NAN if NAN in size else
                 T.sqrt_p(size[0] * size[0] + size[1] * size[1]
                                 + size[2] * size[2]), 'magnitude')
    return run


def same(e, r, w, what):
    v = val(r)
    if w is NAN:
        is_nan(e, v, what)
    else:
        e.oblige(what, T.eq(finite(e, v, what), w))


def expected(o, b, i, j, la, m):
    if b is o:
        return objs.normal_value(o, i, la, m)
    a, b_, _, rc = objs.dual_normal_value(o, i, la, m)
    return A.elem(a), b_, rc


def contracts():
    out = []

    def add(k, h, **kw):
        out.append(Contract(
            CLS + 'set_ocb', 'set_ocb %s, %s%s' % (
                '/'.join(k), side(h), ''.join(
                    ', %s %s' % (a, b) for a, b in kw.items())),
            c_set(k, h, **kw), stubs=ST, budget=400.0))
    for h in (1, -1):
        for k in (('array', 'scalar', 'scalar'), ('scalar',) * 3,
                  ('array', 'scalar', 'array')):
            add(k, h)
        add(('array', 'scalar', 'scalar'), h, cls='Dual')
        add(('scalar', 'scalar', 'scalar'), h, cls='Dual')
        for lo, ve in (('geodetic', 'magnetic'), ('geocentric', 'geocentric'),
                       ('magnetic', 'geodetic')):
            add(('array', 'scalar', 'scalar'), h, loc=lo, vec=ve)
            add(('scalar', 'scalar', 'scalar'), h, loc=lo, vec=ve)
        add(('array', 'scalar', 'scalar'), h, cls='EABoundary', fn=False)
        add(('scalar', 'scalar', 'scalar'), h, fn=False)
        add(('array', 'scalar', 'scalar'), h, at='init')
        add(('one', 'scalar', 'scalar'), h)
        add(('empty', 'scalar', 'scalar'), h)
        add(('scalar', 'scalar', 'scalar'), h, loc='geodetic',
            vec='geodetic', method='TRACE')
    return out
