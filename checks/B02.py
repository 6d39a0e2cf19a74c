"""B02: leaving boundary coordinates, and the round trip."""
from pv import terms as T
from pv import arr as A
from pv import objs
from pv.spec import (Contract, C, make_input, snap, unchanged, expect_shape,
                     val, finite, is_nan, congruent)
from pv.arr import NAN, ABSENT
from checks.V04 import shape_of
from checks.B01 import CLS, METHOD, side

ST2 = ['ocbpy.ocb_time.deg2hr', 'ocbpy.ocb_time.fix_range',
       'ocbpy.ocb_time.glon2slt']


def c_revert(kinds, hemi, coords='magnetic', method=METHOD, rgiven=True,
             cls='OCBoundary', dtype='f'):
    def run(e, cx):
        T.LAZY[0] = True
        f = cx.fn()
        o, dim = objs.boundary(e, cx, hemi, cls)
        olat = make_input('ocb_lat', kinds[0], dtype)
        omlt = make_input('ocb_mlt', kinds[1], dtype)
        rc = make_input('r_corr', kinds[2])
        hgt = make_input('height', kinds[3])
        s = snap(olat, omlt, rc, hgt)
        before = objs.attrs(o)
        kw = dict(r_corr=rc) if rgiven else {}
        if coords != 'magnetic':
            kw.update(coords=coords, height=hgt, method=method)
        r = f(o, olat, omlt, **kw)
        e.oblige('two results', T.b_const(isinstance(r, tuple)
                                          and len(r) == 2))
        lat, lt = r
        unchanged(e, s)
        objs.same_attrs(e, before, o)
        used = [olat, omlt] + ([rc] if rgiven else []) + (
            [hgt] if coords != 'magnetic' else [])
        sh = shape_of(*used)
        for x, w in ((lat, 'latitude'), (lt, 'local time')):
            if coords != 'magnetic' and sh == ():
                # aacgmv2 gives an array for a single location
                e.oblige(w + ' is one value', T.b_const(
                    isinstance(x, A.Arr) and x.shape_ in ((), (1,))))
            else:
                expect_shape(e, x, sh, w)
        if any(x.buf.v is ABSENT for x in used):
            return
        a, b = val(lat), val(lt)
        if not A.force(objs.in_range(o)):
            is_nan(e, a, 'no boundary: latitude')
            is_nan(e, b, 'no boundary: local time')
            return
        i = o.rec_ind.e()
        la, m = val(olat), val(omlt)
        rcv = val(rc) if rgiven else T.ZERO
        if la is NAN:
            is_nan(e, a, 'undefined location: latitude')
            return
        if A.force(T.le(la.scale(hemi), T.ZERO)):
            # the wrong side of the equator
            if sh == ():
                is_nan(e, a, 'wrong hemisphere: latitude')
                is_nan(e, b, 'wrong hemisphere: local time')
            return
        if NAN in (m, rcv):
            is_nan(e, a, 'undefined location: latitude')
            return
        e.assume(T.le(la.scale(hemi), C(90)))
        e.assume(T.lt(T.ZERO, objs.rec_term(o.r.name, i) + rcv))
        xp, yp = objs.unscaled(o, i, la, m, rcv)
        if coords == 'magnetic':
            rho = C(90) - finite(e, a, 'latitude').scale(hemi)
            for name, b_ in objs.position(rho, finite(e, b, 'local time'),
                                          xp, yp, 'magnetic pole'):
                e.oblige(name, b_)
            return
        hv = val(hgt)
        if hv is NAN:
            is_nan(e, a, 'undefined height: latitude')
            return
        d = A.s_sqrt(A.s_add(A.s_mul(xp, xp), A.s_mul(yp, yp)))
        mlat = (C(90) - d).scale(hemi)
        from pv import contracts as K
        ang = A.s_mul(A.s_arctan2(yp, xp), T.P({((0, -1),): T.F(180)}))
        mlt = K.wrap_term(A.s_div(ang, C(15)), C(0), C(24), C(24))
        ga, gt = objs.to_geographic(o, i, coords.lower(), method, mlat, mlt, hv)
        for got, want, what in ((a, ga, 'latitude'), (b, gt, 'local time')):
            if want is NAN:
                is_nan(e, got, 'not convertible: ' + what)
            else:
                e.oblige('geographic ' + what,
                         T.eq(finite(e, got, what), want))
    return run


def product(e, a, b, k):
    """a == b is known, so a*k == b*k."""
    e.oblige('lemma: equal factors', T.eq(a, b))
    e.assume(T.eq(a * k, b * k))


def c_trip(kind, hemi, cls='OCBoundary'):
    """normal_coord followed by revert_coord gives the location back: a lemma
    over the contracts of the two methods."""
    def run(e, cx):
        K_ = getattr(cx.mod('ocbpy._boundary'), cls)
        o, dim = objs.boundary(e, cx, hemi, cls)
        lat = make_input('lat', kind)
        lt = make_input('lt', kind)
        i = o.rec_ind.e()
        e.assume(objs.in_range(o))
        if lat.buf.v is not ABSENT:
            la, m = val(lat), val(lt)
            if NAN not in (la, m):
                e.assume(T.b_and(T.lt(T.ZERO, la.scale(hemi)),
                                 T.lt(la.scale(hemi), C(90))))
        r = K_.normal_coord(o, lat, lt)
        if lat.buf.v is ABSENT:
            return
        a = val(r[0])
        if NAN in (la, m):
            e.oblige('undefined location', T.b_const(a is NAN))
            return
        b = finite(e, val(r[1]), 'boundary local time')
        if a is NAN or not A.force(T.lt(T.ZERO, a.scale(hemi))):
            e.oblige('a location is converted', T.b_const(a is not NAN))
            return
        rl, rt = K_.revert_coord(o, r[0], r[1], r[2])
        v, w = finite(e, val(rl)), finite(e, val(rt))
        rc = val(r[2])
        come_back(e, o, i, la, m, a, b, rc, v, w)
    return run


def come_back(e, o, i, la, m, a, b, rc, v, w):
    """The location (la, m) is (a, b) with correction rc relative to record i
    of a boundary, which is (v, w) when left: the argument."""
    hemi = o.hemisphere
    # the argument: leaving undoes the scaling and the shift
    rho, back = C(90) - a.scale(hemi), C(90) - v.scale(hemi)
    p = C(90) - la.scale(hemi)
    xn, yn = objs.scaled(o, i, la, m)
    k = (objs.rec_term(o.r.name, i) + rc) * T.inv_p(
        C(90) - o.boundary_lat.e().scale(hemi))
    cb, sb = objs.polar(b)
    cw, sw = objs.polar(w)
    cm, sm = objs.polar(m)
    product(e, rho * cb, xn, k)
    product(e, rho * sb, yn, k)
    xc, yc = objs.centre(o, i)
    e.oblige('lemma: noon inverse', T.eq(xn * k + xc, p * cm))
    e.oblige('lemma: dawn inverse', T.eq(yn * k + yc, p * sm))
    e.oblige('lemma: noon component', T.eq(back * cw, p * cm))
    e.oblige('lemma: dawn component', T.eq(back * sw, p * sm))
    e.assume(T.eq(back * back, p * p)) if square_lemma(
        e, back, p, cw, sw, cm, sm) else None
    e.oblige('the latitude comes back', T.eq(v, la))
    product(e, back, p, cw)
    product(e, back, p, sw)
    e.oblige('lemma: same cosine', T.eq(cw, cm))
    e.oblige('lemma: same sine', T.eq(sw, sm))
    congruent(e, w, m, C(24), 'the local time that comes back')
    e.oblige('local time at least 0', T.le(T.ZERO, w))
    e.oblige('local time below 24', T.lt(w, C(24)))


def square_lemma(e, back, p, cw, sw, cm, sm):
    """Equal components mean equal squared lengths."""
    for a, b, c, s in ((back, p, cw, cm), (back, p, sw, sm)):
        e.oblige('lemma: equal components', T.eq(a * c, b * s))
        e.assume(T.eq(a * a * c * c, b * b * s * s))
    e.oblige('lemma: equal lengths', T.eq(back * back, p * p))
    return True


def contracts():
    out = []
    for h in (1, -1):
        for k in (('array',) * 3 + ('scalar',), ('scalar',) * 4,
                  ('0-d',) * 4, ('array', 'array', 'scalar', 'scalar'),
                  ('array', 'scalar', 'scalar', 'scalar'),
                  ('scalar', 'array', 'array', 'scalar'),
                  ('one',) * 4, ('empty',) * 4):
            if h < 0 and k[0] not in ('array', 'scalar'):
                continue
            for dt in 'fi':
                if dt == 'i' and k[0] != k[1]:
                    continue
                out.append(Contract(
                    CLS + 'revert_coord', 'revert_coord %s%s, %s' % (
                        '/'.join(k), ', integers' if dt == 'i' else '',
                        side(h)), c_revert(k, h, dtype=dt), stubs=ST2))
        out.append(Contract(
            CLS + 'revert_coord', 'revert_coord without correction, %s'
            % side(h), c_revert(('array', 'array', 'scalar', 'scalar'), h,
                                rgiven=False), stubs=ST2))
        out.append(Contract(
            'ocbpy._boundary.EABoundary.revert_coord',
            'EABoundary.revert_coord, %s' % side(h),
            c_revert(('array',) * 4, h, cls='EABoundary'), stubs=ST2))
        for co, me in (('geodetic', METHOD), ('geocentric', 'TRACE'),
                       ('Geodetic', 'TRACE'), ('Geocentric', METHOD)):
            for k in (('array',) * 4, ('scalar',) * 4,
                      ('array', 'array', 'array', 'scalar')):
                if h < 0 and k[3] != 'array':
                    continue
                out.append(Contract(
                    CLS + 'revert_coord', 'revert_coord %s %s, %s, %s' % (
                        co, me, '/'.join(k), side(h)),
                    c_revert(k, h, co, me), stubs=ST2))
        for k in ('array', 'scalar', '0-d', 'one'):
            for cls in ('OCBoundary', 'EABoundary'):
                if k != 'array' and (h < 0 or cls[0] == 'E'):
                    continue
                out.append(Contract(
                    'ocbpy._boundary.%s.revert_coord' % cls,
                    '%s round trip %s, %s' % (cls, k, side(h)),
                    c_trip(k, h, cls), stubs=[
                        CLS + 'normal_coord', CLS + 'revert_coord']))
    return out
