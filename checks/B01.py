"""B01: coordinates relative to a boundary."""
from pv import terms as T
from pv import arr as A
from pv import contracts as K
from pv import objs
from pv.engine import PathEnd
from pv.spec import (Contract, C, make_input, snap, unchanged, expect_shape,
                     val, finite, is_nan)
from pv.arr import NAN, ABSENT
from checks.V04 import shape_of

CLS = 'ocbpy._boundary.OCBoundary.'
ST = ['ocbpy.ocb_time.hr2rad', 'ocbpy.ocb_time.deg2hr',
      'ocbpy.ocb_time.fix_range', 'ocbpy.ocb_time.slt2glon']
METHOD = 'ALLOWTRACE'


def c_normal(kinds, hemi, coords='magnetic', method=METHOD, given=True,
             cls='OCBoundary', dtype='f'):
    def run(e, cx):
        T.LAZY[0] = True
        f = cx.fn()
        o, dim = objs.boundary(e, cx, hemi, cls)
        lat = make_input('lat', kinds[0], dtype)
        lt = make_input('lt', kinds[1], dtype)
        hgt = make_input('height', kinds[2])
        s = snap(lat, lt, hgt)
        before = objs.attrs(o)
        kw = {}
        if coords != 'magnetic':
            kw = dict(coords=coords, height=hgt, method=method)
        elif given:
            kw = dict(coords='Magnetic', height=hgt)
        r = f(o, lat, lt, **kw)
        e.oblige('three results', T.b_const(isinstance(r, tuple)
                                            and len(r) == 3))
        olat, omlt, rc = r
        unchanged(e, s)
        objs.same_attrs(e, before, o)
        used = (lat, lt) if coords == 'magnetic' else (lat, lt, hgt)
        sh = shape_of(*used)
        for x, w in ((olat, 'latitude'), (omlt, 'local time')):
            if coords != 'magnetic' and sh == ():
                # aacgmv2 gives an array for a single location
                e.oblige(w + ' is one value', T.b_const(
                    isinstance(x, A.Arr) and x.shape_ in ((), (1,))))
            else:
                expect_shape(e, x, sh, w)
        if ABSENT in (lat.buf.v, lt.buf.v):
            return
        ok = A.force(objs.in_range(o))
        a, b = val(olat), val(omlt)
        if not ok:
            for x in (a, b, val(rc)):
                is_nan(e, x, 'no boundary: result')
            return
        i = o.rec_ind.e()
        la, m = val(lat), val(lt)
        if coords != 'magnetic':
            la, m = objs.geographic(o, i, coords.lower(), method, la, m, val(hgt))
        if NAN in (la, m) or A.force(T.le(la.scale(hemi), T.ZERO)):
            is_nan(e, a, 'no location in this hemisphere: latitude')
            if la is NAN or m is not NAN:
                is_nan(e, b, 'no location in this hemisphere: local time')
            return
        e.assume(T.le(la.scale(hemi), C(90)))
        xn, yn = objs.scaled(o, i, la, m)
        rho = C(90) - finite(e, a, 'latitude').scale(hemi)
        for name, b_ in objs.position(rho, finite(e, b, 'local time'), xn, yn,
                                      'boundary centre'):
            e.oblige(name, b_)
        e.oblige('radius correction at the magnetic local time',
                 T.eq(finite(e, val(rc), 'radius correction'),
                      o.rfunc.at(i).term(m)))
    return run


def contracts():
    out = []
    for h in (1, -1):
        for k in (('array', 'array', 'scalar'), ('scalar',) * 3,
                  ('0-d', '0-d', 'scalar'), ('array', 'scalar', 'scalar'),
                  ('scalar', 'array', 'scalar'), ('one', 'one', 'scalar'),
                  ('empty', 'empty', 'scalar')):
            if h < 0 and k[0] not in ('array', 'scalar'):
                continue
            for dt in 'fi':
                if dt == 'i' and k[0] != k[1]:
                    continue
                out.append(Contract(
                    CLS + 'normal_coord', 'normal_coord %s%s, %s' % (
                        '/'.join(k), ', integers' if dt == 'i' else '',
                        side(h)), c_normal(k, h, dtype=dt), stubs=ST))
        out.append(Contract(
            CLS + 'normal_coord', 'normal_coord defaults, %s' % side(h),
            c_normal(('array', 'array', 'scalar'), h, given=False),
            stubs=ST))
        out.append(Contract(
            'ocbpy._boundary.EABoundary.normal_coord',
            'EABoundary.normal_coord, %s' % side(h),
            c_normal(('array', 'array', 'scalar'), h, cls='EABoundary'),
            stubs=ST))
        for co, me in (('geodetic', METHOD), ('geocentric', METHOD),
                       ('Geodetic', 'TRACE'), ('geocentric', 'TRACE')):
            for k in (('array',) * 3, ('scalar',) * 3,
                      ('array', 'array', 'scalar')):
                if h < 0 and k[2] != 'array':
                    continue
                out.append(Contract(
                    CLS + 'normal_coord', 'normal_coord %s %s, %s, %s' % (
                        co, me, '/'.join(k), side(h)),
                    c_normal(k, h, co, me), stubs=ST))
    return out


def side(h):
    return 'north' if h > 0 else 'south'
