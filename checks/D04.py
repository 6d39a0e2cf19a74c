"""D04: leaving coordinates relative to two boundaries, and the round trip."""
from pv import terms as T
from pv import arr as A
from pv import objs
from pv.spec import (Contract, C, make_input, snap, unchanged, expect_shape,
                     val, finite, is_nan)
from pv.arr import NAN, ABSENT
from checks.V04 import shape_of
from checks.B01 import METHOD, side
from checks.B02 import come_back
from checks.D02 import term
from checks.D03 import (CLS, pair, keep, held_still, frames, same_frames,
                        edges)

ST = ['ocbpy._boundary.OCBoundary.revert_coord',
      'ocbpy._boundary.OCBoundary.get_aacgm_boundary_lat',
      'ocbpy.ocb_time.glon2slt', 'ocbpy.ocb_time.fix_range']


def c_revert(kinds, hemi, coords='magnetic', method=METHOD, over=None,
             have=(), dtype='f', given=True, whole=False):
    """kinds: latitude, local time, correction, magnetic local time, height."""
    def run(e, cx):
        T.LAZY[0] = True
        f = cx.fn()
        o, i = pair(e, cx, hemi, inside=True)
        lat = make_input('ocb_lat', kinds[0], dtype)
        lt = make_input('ocb_mlt', kinds[1], dtype)
        rc = make_input('r_corr', kinds[2])
        am = make_input('aacgm_mlt', kinds[3])
        hgt = make_input('height', kinds[4])
        io = term(o.ocb_ind.at(i))
        held = keep(e, o, have)
        s = snap(lat, lt, rc, am, hgt)
        was = frames(o)
        kw = {} if over is None else {'overwrite': over}
        if coords != 'magnetic':
            kw.update(coords=coords, height=hgt, method=method)
        if given:
            kw['aacgm_mlt'] = am
        if whole is not None:
            kw['is_ocb'] = whole
        here = not any(x.buf.v is ABSENT for x in (lat, lt, rc, am, hgt))
        if here:
            la, m, rv, mv = [val(x) for x in (lat, lt, rc, am)]
            if rv is not NAN:
                e.assume(T.lt(T.ZERO, objs.rec_term(o.ocb.r.name, io) + rv))
            if la is not NAN:
                e.assume(T.le(la.scale(hemi), C(90)))
            for x in edges(e, o, i, mv):
                if x is not NAN:
                    e.assume(T.le(T.ZERO, x))
        try:
            r = f(o, lat, lt, r_corr=rc, **kw)
        except ValueError:
            if given:
                raise
            # one location that is not in the polar cap
            e.oblige('magnetic local time needed', T.b_or(
                T.b_const(la is NAN), T.lt(
                    A.s_abs(T.ZERO if la is NAN else la),
                    term(o.ocb.boundary_lat).scale(hemi))))
            unchanged(e, s)
            same_frames(e, was, o)
            return
        e.oblige('two results', T.b_const(isinstance(r, tuple)
                                          and len(r) == 2))
        unchanged(e, s)
        same_frames(e, was, o)
        held_still(e, o, held, over)
        used = (lat, lt) if coords == 'magnetic' else (lat, lt, hgt)
        sh = shape_of(*used)
        for x, w in zip(r, ('latitude', 'local time')):
            if coords != 'magnetic' and sh == ():
                e.oblige(w + ' is one value', T.b_const(
                    isinstance(x, A.Arr) and x.shape_ in ((), (1,))))
            else:
                expect_shape(e, x, sh, w)
        if not here:
            return
        a, b = val(r[0]), val(r[1])
        if la is NAN:
            is_nan(e, a, 'undefined location: latitude')
            return
        u = la.scale(hemi)
        if A.force(T.le(u, T.ZERO)):
            return
        p, q = [term(x.boundary_lat).scale(hemi) for x in (o.ocb, o.eab)]
        if whole is not False or A.force(T.le(p, u)):
            if NAN in (m, rv):
                is_nan(e, a, 'undefined location: latitude')
                return
            w = objs.revert_value(o.ocb, io, la, m, rv, geo=geo(
                coords, method, hgt))
            same(e, (a, b), w, 'with the polar cap')
            return
        if not given:
            e.oblige('magnetic local time needed', T.FALSE)
        if mv is NAN:
            is_nan(e, a, 'undefined magnetic local time: latitude')
            return
        eo, ee = edges(e, o, i, mv)
        between = A.force(T.le(q, u))
        if ee is NAN or (between and eo is NAN):
            is_nan(e, a, 'undefined boundary: latitude')
            return
        if between:
            w = eo - (p - u) * (eo - ee) * T.inv_p(p - q)
        else:
            w = u * ee * T.inv_p(q)
        w = w.scale(hemi), mv
        where = 'between' if between else 'below'
        if coords == 'magnetic':
            x = finite(e, a, 'latitude').scale(hemi)
            if between:
                e.oblige('between: proportion kept', T.eq(
                    (eo - x) * (p - q), (p - u) * (eo - ee)))
            else:
                e.oblige('below: proportion kept', T.eq(x * q, u * ee))
            e.oblige('the magnetic local time', T.eq(
                finite(e, b, 'local time'), mv))
            return
        if val(hgt) is NAN:
            is_nan(e, a, 'undefined height: latitude')
            return
        same(e, (a, b), objs.to_geographic(
            o, i, coords.lower(), method, w[0], w[1], val(hgt)), where)
    return run


def geo(coords, method, hgt):
    if coords == 'magnetic':
        return None
    return coords.lower(), method, val(hgt)


def same(e, got, want, where):
    for x, w, n in zip(got, want, ('latitude', 'local time')):
        if w is NAN:
            is_nan(e, x, '%s: not convertible, %s' % (where, n))
        else:
            e.oblige('%s: %s' % (where, n), T.eq(finite(e, x, n), w))


def product_sign(e, a, b):
    """The product of numbers that are not negative, for the solver."""
    s = T.lt if e.path.prove(T.lt(T.ZERO, a), True)[0] != 'unknown' and \
        e.path.prove(T.lt(T.ZERO, a), True)[0] != 'sat' else T.le
    e.oblige('lemma: first factor', s(T.ZERO, a))
    e.oblige('lemma: second factor', T.lt(T.ZERO, b))
    e.assume(s(T.ZERO, a * b))
    return s


def quotient_sign(e, a, b):
    """The sign of a quotient with a positive denominator."""
    s = T.lt if e.path.prove(T.lt(T.ZERO, a * b), True)[0] not in (
        'unknown', 'sat') else T.le
    e.oblige('lemma: sign of the product', s(T.ZERO, a * b))
    e.oblige('lemma: sign of the factor', T.lt(T.ZERO, b))
    e.assume(s(T.ZERO, a))


def c_trip(kind, hemi):
    """Entering and leaving gives a location back where it is defined."""
    def run(e, cx):
        T.LAZY[0] = True
        o, i = pair(e, cx, hemi, inside=True)
        K_ = type(o)
        lat = make_input('lat', kind)
        lt = make_input('lt', kind)
        s = snap(lat, lt)
        if lat.buf.v is not ABSENT:
            la, m = val(lat), val(lt)
            if NAN not in (la, m):
                e.assume(T.lt(la.scale(hemi), C(90)))
                eo, ee = edges(e, o, i, m)
                for x in (eo, ee):
                    if x is not NAN:
                        e.assume(T.lt(T.ZERO, x))
        r = K_.normal_coord(o, lat, lt)
        if lat.buf.v is ABSENT:
            return
        a, oc = val(r[0]), val(r[2])
        if a is NAN:
            return
        from pv.engine import PathEnd
        p, q = [term(x.boundary_lat).scale(hemi) for x in (o.ocb, o.eab)]
        # only locations placed on this side of the equator are defined
        e.assume(T.lt(T.ZERO, a.scale(hemi)))
        if oc is NAN or not A.force(T.lt(T.ZERO, oc.scale(hemi))):
            raise PathEnd()
        u, w = la.scale(hemi), a.scale(hemi)
        below = ee is not NAN and A.force(T.lt(u, ee))
        between = not below and NAN not in (eo, ee) and A.force(T.lt(u, eo))
        if below:
            # (q - w) ee = q (ee - u), a product of positive numbers
            e.oblige('lemma: entered below', T.eq(w * ee, u * q))
            product_sign(e, ee - u, q)
            e.oblige('lemma: below', T.lt(w * ee, q * ee))
            quotient_sign(e, q - w, ee)
            e.oblige('placed below', T.lt(w, q))
        elif between:
            # (p - w) (eo - ee) = (eo - u) (p - q), and likewise from below
            e.oblige('lemma: entered between', T.eq(
                (p - w) * (eo - ee), (eo - u) * (p - q)))
            product_sign(e, eo - u, p - q)
            quotient_sign(e, p - w, eo - ee)
            e.oblige('placed below the polar cap', T.lt(w, p))
            product_sign(e, u - ee, p - q)
            e.oblige('lemma: entered above', T.eq(
                (w - q) * (eo - ee), (u - ee) * (p - q)))
            quotient_sign(e, w - q, eo - ee)
            e.oblige('placed above the auroral boundary', T.le(q, w))
        else:
            e.oblige('placed in the polar cap', T.le(p, w))
        rl, rt = K_.revert_coord(o, r[0], r[1], r_corr=r[3], is_ocb=False,
                                 aacgm_mlt=lt)
        unchanged(e, s)
        v, back = finite(e, val(rl)), finite(e, val(rt))
        if not (below or between):
            come_back(e, o.ocb, term(o.ocb_ind.at(i)), la, m, oc,
                      val(r[1]), val(r[3]), v, back)
            return
        e.oblige('the local time comes back', T.eq(back, m))
        v = v.scale(hemi)
        if below:
            e.oblige('lemma: left below', T.eq(v * q, w * ee))
        else:
            e.oblige('lemma: left between', T.eq(
                (eo - v) * (p - q), (p - w) * (eo - ee)))
        e.oblige('the latitude comes back', T.eq(v, u))
    return run


def contracts():
    out = []

    def add(k, h, **kw):
        out.append(Contract(
            CLS + 'revert_coord', 'revert_coord %s, %s%s' % (
                '/'.join(k), side(h), ''.join(
                    ', %s %s' % (a, b if isinstance(b, (str, bool, type(None))) else
                                 '+'.join(b)) for a, b in kw.items())),
            c_revert(k, h, **kw), stubs=ST, budget=400.0))
    a, s = 'array', 'scalar'
    for h in (1, -1):
        for k in ((a, a, a, a, s), (s,) * 5, ('0-d',) * 4 + (s,),
                  (a, s, s, s, s), (s, a, s, a, s), ('one',) * 4 + (s,),
                  ('empty',) * 4 + (s,)):
            if h < 0 and k[0] not in (a, s):
                continue
            add(k, h)
        add((a, a, s, a, s), h, coords='geodetic')
        add((a, s, s, a, a), h, coords='geocentric', method='TRACE')
        add((s,) * 5, h, coords='Geocentric')
        add((a, a, a, a, s), h, over=True, have=('ocb', 'eab'))
        add((a, a, a, a, s), h, over=False, have=('ocb', 'eab'))
        add((a, a, a, a, s), h, whole=True)
        add((a, a, s, a, s), h, whole=None)
        add((a, a, s, a, a), h, whole=True, coords='geodetic', given=False)
        add((s,) * 5, h, given=False)
        for k in (a, s, '0-d', 'one'):
            if h < 0 and k != a:
                continue
            out.append(Contract(
                CLS + 'revert_coord', 'round trip %s, %s' % (k, side(h)),
                c_trip(k, h), stubs=ST + [
                    'ocbpy._boundary.OCBoundary.normal_coord'],
                budget=400.0))
    add((s,) * 5, 1, over=False, have=('ocb',))
    add((s,) * 5, -1, over=False, have=('eab',))
    add((a, a, s, a, s), -1, dtype='i')
    add((s,) * 5, 1, dtype='i')
    return out
