"""D03: coordinates relative to two boundaries."""
from pv import terms as T
from pv import arr as A
from pv import objs
from pv.spec import (Contract, C, make_input, snap, unchanged, expect_shape,
                     val, finite, is_nan)
from pv.arr import NAN, ABSENT
from checks.V04 import shape_of
from checks.B01 import METHOD, side
from checks.D02 import term

CLS = 'ocbpy._boundary.DualBoundary.'
ST = ['ocbpy._boundary.OCBoundary.normal_coord',
      'ocbpy._boundary.OCBoundary.get_aacgm_boundary_lat',
      'ocbpy.ocb_time.slt2glon', 'ocbpy.ocb_time.fix_range']
KEPT = ['aacgm_boundary_lat', 'aacgm_boundary_mlt']


def pair(e, cx, hemi, inside=None):
    """A pair of boundaries that point at the selected pair."""
    o = objs.dual(e, cx, hemi)
    i = A.sym('index', (), 'i', nan=False, py=True)
    # the references of the auroral boundary lie equatorward
    e.assume(T.lt(term(o.eab.boundary_lat).scale(hemi),
                  term(o.ocb.boundary_lat).scale(hemi)))
    if A.force(T.b_and(T.le(T.ZERO, i.e()), T.lt(i.e(), term(o.records)))):
        o.rec_ind = i
        return o, i.e()
    if inside:
        from pv.engine import PathEnd
        raise PathEnd()
    o.rec_ind = i
    return o, None


def keep(e, o, which):
    """Boundary latitudes calculated before, for some records."""
    held = {}
    for k in which:
        b = getattr(o, k)
        for n in KEPT:
            b.__dict__[n] = objs.RecList(k + n, b.dtime.dim, lambda p: None)
            r = term(b.rec_ind)
            if A.force(T.b_and(T.le(T.ZERO, r), T.lt(r, b.dtime.dim.p))):
                held[k, n] = x = objs.Kept(k + ' ' + n)
                b.__dict__[n].writes.append((r, x))
    return held


def held_still(e, o, held, over):
    for (k, n), x in sorted(held.items()):
        b = getattr(o, k)
        if not over:
            e.oblige('%s of %s kept' % (n, k), T.b_const(
                b.__dict__[n].at(term(b.rec_ind)) is x))


def frames(o):
    return [objs.attrs(x) for x in (o, o.ocb, o.eab)]


def same_frames(e, was, o):
    objs.same_attrs(e, was[0], o)
    for b, w in ((o.ocb, was[1]), (o.eab, was[2])):
        objs.same_attrs(e, w, b, but=KEPT, what='boundary')


def edges(e, o, i, m):
    """The latitudes of both boundaries at a local time, poleward positive."""
    out = []
    for b, ind in ((o.ocb, o.ocb_ind), (o.eab, o.eab_ind)):
        x = A.elem(objs.edge_value(b, term(ind.at(i)), m))
        out.append(x if x is NAN else x.scale(o.hemisphere))
    return out


def c_normal(kinds, hemi, coords='magnetic', method=METHOD, over=None,
             have=(), dtype='f'):
    def run(e, cx):
        T.LAZY[0] = True
        f = cx.fn()
        o, i = pair(e, cx, hemi)
        lat = make_input('lat', kinds[0], dtype)
        lt = make_input('lt', kinds[1], dtype)
        hgt = make_input('height', kinds[2])
        held = keep(e, o, have)
        s = snap(lat, lt, hgt)
        was = frames(o)
        kw = {} if over is None else {'overwrite': over}
        if coords != 'magnetic':
            kw.update(coords=coords, height=hgt, method=method)
        r = f(o, lat, lt, **kw)
        e.oblige('four results', T.b_const(isinstance(r, tuple)
                                           and len(r) == 4))
        unchanged(e, s)
        same_frames(e, was, o)
        held_still(e, o, held, over)
        used = (lat, lt) if coords == 'magnetic' else (lat, lt, hgt)
        sh = shape_of(*used)
        for x, w in zip(r, ('latitude', 'local time',
                            'polar cap latitude', 'correction')):
            expect_shape(e, x, sh, w)
        if any(x.buf.v is ABSENT for x in used):
            return
        if i is None:
            for x in r:
                is_nan(e, val(x), 'no pair: result')
            return
        a, b, oc = [val(x) for x in r[:3]]
        la, m = val(lat), val(lt)
        if coords != 'magnetic':
            if la is not NAN and m is not NAN and val(hgt) is not NAN:
                la, m = pair_time(o, i, coords.lower(), method, la, m,
                                  val(hgt))
            else:
                la = NAN
        if NAN in (la, m) or A.force(T.le(la.scale(hemi), T.ZERO)):
            is_nan(e, a, 'no location in this hemisphere: latitude')
            is_nan(e, oc, 'no location in this hemisphere: polar cap '
                   'latitude')
            if la is not NAN and m is not NAN:
                is_nan(e, b, 'no location in this hemisphere: local time')
            return
        e.assume(T.le(la.scale(hemi), C(90)))
        want = objs.normal_value(o.ocb, term(o.ocb_ind.at(i)), la, m)
        for x, w, n in zip((oc, b, val(r[3])), want, (
                'polar cap latitude', 'local time', 'correction')):
            e.oblige('%s relative to the polar cap' % n,
                     T.eq(finite(e, x, n), w))
        eo, ee = edges(e, o, i, m)
        p, q = [term(x.boundary_lat).scale(hemi) for x in (o.ocb, o.eab)]
        u, inner = la.scale(hemi), oc.scale(hemi)
        for x in (eo, ee):
            # boundaries beyond the equator are not considered
            if x is not NAN:
                e.assume(T.le(T.ZERO, x))
        if ee is not NAN and A.force(T.lt(u, ee)):
            w = finite(e, a, 'latitude').scale(hemi)
            e.oblige('equatorward: proportion kept', T.eq(w * ee, u * q))
        elif NAN not in (eo, ee) and A.force(T.lt(u, eo)):
            w = finite(e, a, 'latitude').scale(hemi)
            e.oblige('between: proportion kept', T.eq(
                (p - w) * (eo - ee), (eo - u) * (p - q)))
        elif A.force(T.le(p, inner)):
            e.oblige('poleward: the polar cap latitude',
                     T.eq(finite(e, a, 'latitude'), oc))
        elif A.force(T.lt(-p, inner)):
            is_nan(e, a, 'in no region: latitude')
    return run


def pair_time(o, i, coords, method, la, m, h):
    """Magnetic coordinates at the time of the pair."""
    class At(object):
        dtime = o.dtime
    return objs.geographic(At, i, coords, method, la, m, h)


def contracts():
    out = []

    def add(k, h, **kw):
        out.append(Contract(
            CLS + 'normal_coord', 'normal_coord %s, %s%s' % (
                '/'.join(k), side(h), ''.join(
                    ', %s %s' % (a, b if isinstance(b, (str, bool)) else
                                 '+'.join(b)) for a, b in kw.items())),
            c_normal(k, h, **kw), stubs=ST, budget=400.0))
    for h in (1, -1):
        for k in (('array', 'array', 'scalar'), ('scalar',) * 3,
                  ('0-d', '0-d', 'scalar'), ('array', 'scalar', 'scalar'),
                  ('scalar', 'array', 'scalar'), ('one', 'one', 'scalar'),
                  ('empty', 'empty', 'scalar')):
            if h < 0 and k[0] not in ('array', 'scalar'):
                continue
            add(k, h)
        add(('array', 'array', 'scalar'), h, coords='geodetic')
        add(('array', 'scalar', 'array') if h > 0 else ('scalar',) * 3, h,
            coords='geocentric', method='TRACE')
        add(('array', 'array', 'scalar'), h, over=True, have=('ocb', 'eab'))
        add(('array', 'array', 'scalar'), h, over=False, have=('ocb', 'eab'))
    add(('scalar', 'scalar', 'scalar'), 1, coords='Geocentric')
    add(('scalar', 'scalar', 'scalar'), 1, over=False, have=('ocb',))
    add(('scalar', 'scalar', 'scalar'), -1, over=False, have=('eab',))
    add(('scalar', 'scalar', 'scalar'), 1, over=False, have=('ocb', 'eab'))
    add(('array', 'array', 'scalar'), -1, dtype='i')
    add(('scalar', 'scalar', 'scalar'), 1, dtype='i')
    return out
