"""D05: radii of the regions of dual-boundary coordinates."""
from pv import terms as T
from pv import arr as A
from pv import objs
from pv.spec import (Contract, C, make_input, snap, unchanged, expect_shape,
                     val, finite, is_nan)
from pv.arr import NAN, ABSENT
from checks.V04 import shape_of
from checks.B01 import side
from checks.D02 import term
from checks.D03 import (CLS, pair, keep, held_still, frames, same_frames,
                        edges)

ST = ['ocbpy._boundary.OCBoundary.get_aacgm_boundary_lat']


def c_radius(kinds, hemi, over=None, have=(), dtype='f'):
    """kinds: latitude, local time, magnetic local time, correction."""
    def run(e, cx):
        T.LAZY[0] = True
        f = cx.fn()
        o, i = pair(e, cx, hemi)
        lat = make_input('bound_lat', kinds[0], dtype)
        lt = make_input('bound_mlt', kinds[1])
        am = make_input('aacgm_mlt', kinds[2])
        rc = make_input('r_corr', kinds[3])
        held = keep(e, o, have)
        s = snap(lat, lt, am, rc)
        was = frames(o)
        kw = {} if over is None else {'overwrite': over}
        r = f(o, lat, lt, am, rc, **kw)
        e.oblige('two results', T.b_const(isinstance(r, tuple)
                                          and len(r) == 2))
        unchanged(e, s)
        same_frames(e, was, o)
        held_still(e, o, held, over)
        used = (lat, lt, am, rc)
        sh = shape_of(*used)
        for x, w in zip(r, ('scaled radius', 'unscaled radius')):
            if i is None and sh == ():
                e.oblige(w + ' is one value', T.b_const(
                    isinstance(x, A.Arr) and x.shape_ in ((), (1,))))
            else:
                expect_shape(e, x, sh, w)
        if any(x.buf.v is ABSENT for x in used):
            return
        if i is None:
            is_nan(e, val(r[1]), 'no pair: unscaled radius')
            return
        p, q = [term(x.boundary_lat).scale(hemi) for x in (o.ocb, o.eab)]
        la, cv = val(lat), val(rc)
        # locations in this hemisphere or undefined ones
        if la is not NAN:
            e.assume(T.le(T.ZERO, la.scale(hemi)))
        sc, un = val(r[0]), val(r[1])
        if la is NAN or A.force(T.le(p, la.scale(hemi))):
            e.oblige('polar cap: scaled radius', T.eq(
                finite(e, sc, 'scaled radius'), C(90) - p))
            if cv is NAN:
                is_nan(e, un, 'undefined correction: radius')
            else:
                e.oblige('polar cap: radius', T.eq(
                    finite(e, un, 'unscaled radius'), objs.rec_term(
                        o.ocb.r.name, term(o.ocb_ind.at(i))) + cv))
            return
        eo, ee = edges(e, o, i, val(am))
        for x in (eo, ee):
            if x is not NAN:
                e.assume(T.le(T.ZERO, x))
        if A.force(T.le(q, la.scale(hemi))):
            e.oblige('auroral region: scaled radius', T.eq(
                finite(e, sc, 'scaled radius'), p - q))
            if NAN in (eo, ee):
                is_nan(e, un, 'undefined boundary: radius')
                return
            un = finite(e, un, 'unscaled radius')
            e.oblige('auroral region: radius', T.eq(
                un, eo - ee if A.force(T.le(ee, eo)) else ee - eo))
            return
        e.oblige('below: scaled radius', T.eq(
            finite(e, sc, 'scaled radius'), q))
        if ee is NAN:
            is_nan(e, un, 'undefined boundary: radius')
        else:
            e.oblige('below: radius', T.eq(finite(
                e, un, 'unscaled radius'), ee))
    return run


def contracts():
    out = []

    def add(k, h, **kw):
        out.append(Contract(
            CLS + 'calc_r', 'calc_r %s, %s%s' % (
                '/'.join(k), side(h), ''.join(
                    ', %s %s' % (a, b if isinstance(b, (str, bool)) else
                                 '+'.join(b)) for a, b in kw.items())),
            c_radius(k, h, **kw), stubs=ST))
    a, s = 'array', 'scalar'
    for h in (1, -1):
        for k in ((a,) * 4, (s,) * 4, ('0-d',) * 4, (a, a, a, s),
                  (a, s, a, a), (a, s, a, s), ('one',) * 4, ('empty',) * 4):
            if h < 0 and k[0] not in (a, s):
                continue
            add(k, h)
        add((a,) * 4, h, over=True, have=('ocb', 'eab'))
        add((a,) * 4, h, over=False, have=('ocb', 'eab'))
        add((s,) * 4, h, over=False, have=('ocb',) if h > 0 else ('eab',))
    add((a, a, a, s), 1, dtype='i')
    add((s,) * 4, -1, dtype='i')
    return out
