"""G01: locations along a satellite track."""
from pv import terms as T
from pv import arr as A
from pv import objs
from pv.spec import (Contract, make_input, snap, unchanged, expect_shape,
                     val, pynum, C)
from pv.arr import NAN, ABSENT

ST = ['ocbpy.ocb_time.hr2rad', 'ocbpy.ocb_time.fix_range']
PTS = ('x1', 'y1', 'x2', 'y2')



def c_track(kinds, dtype, hemi, tol=True, edge=None):
    def run(e, cx):
        f = cx.fn()
        lat = make_input('lat', kinds[0], dtype)
        mlt = make_input('mlt', kinds[1], dtype)
        pts = [pynum(n) for n in PTS]
        x1, y1, x2, y2 = [val(p) for p in pts]
        e.assume(T.b_not(T.eq(x1, x2)))
        kw = {}
        dx = dy = C(1)
        past = C(5)
        if tol:
            kw = {n: pynum(n) for n in ('del_x', 'del_y', 'past_bound')}
            dx, dy, past = [val(kw[n]) for n in ('del_x', 'del_y',
                                                 'past_bound')]
            for v in (dx, dy, past):
                e.assume(T.le(T.ZERO, v))
        s = snap(lat, mlt)
        r = f(lat, mlt, *pts, hemi, **kw)
        big = [a for a in (lat, mlt) if a.shape_ != ()]
        expect_shape(e, r, big[0].shape_ if big else ())
        unchanged(e, s)
        if any(a.buf.v is ABSENT for a in (lat, mlt)):
            return
        good = A.to_bool(r.e() if isinstance(r, A.Arr) else
                         T.b_const(bool(r)))
        la, m = val(lat), val(mlt)
        if la is NAN or m is NAN:
            e.oblige('an undefined location is not along the track',
                     T.b_not(good))
            return
        c, q = objs.polar(m)
        rho = C(90) - la.scale(hemi)
        # hours start at dawn: x to dawn, y to noon
        x, y = rho * q, -rho * c
        m_ = (y1 - y2) * T.inv_p(x1 - x2)
        off = y - y1 - m_ * (x - x1)
        wid = dy - m_ * dx
        near = T.b_and(T.le(-wid, off), T.le(off, wid))
        d1 = (x1 - x) * (x1 - x) + (y1 - y) * (y1 - y)
        d2 = (x2 - x) * (x2 - x) + (y2 - y) * (y2 - y)
        one = A.force(T.le(T.sqrt_p(d1), T.sqrt_p(d2)))
        c0 = T.sqrt_p(x1 * x1 + y1 * y1 if one else x2 * x2 + y2 * y2)
        # colatitude at most that of the closest boundary and the buffer
        in_ = T.le(rho, c0 + past)
        e.oblige('along the track when between both limits and not too far '
                 'equatorward', T.b_imp(T.b_and(near, in_), good))
        e.oblige('along the track only between both limits',
                 T.b_imp(good, near))
        e.oblige('not along the track further equatorward than the closest '
                 'boundary and the buffer', T.b_imp(good, in_))
    return run


def c_reject(what):
    def run(e, cx):
        f = cx.fn()
        lat = make_input('lat', 'array')
        mlt = make_input('mlt', 'array')
        pts = [pynum(n) for n in PTS]
        hemi = pynum('hemisphere')
        kw = {n: pynum(n) for n in ('del_x', 'del_y', 'past_bound')}
        e.assume(T.b_not(T.eq(val(pts[0]), val(pts[2]))))
        for n in kw:
            if n == what:
                e.assume(T.lt(val(kw[n]), T.ZERO))
        if what == 'hemisphere':
            h = val(hemi)
            e.assume(T.b_not(T.eq(h, C(1))))
            e.assume(T.b_not(T.eq(h, C(-1))))
        try:
            f(lat, mlt, *pts, hemi, **kw)
        except ValueError:
            e.oblige('%s is rejected' % what, T.TRUE)
            return
        e.oblige('%s is rejected' % what, T.FALSE)
    return run


def contracts():
    out = []
    fn = 'ocbpy.cycle_boundary.satellite_track'
    for h in (1, -1):
        for k in (('array', 'array'), ('scalar', 'scalar'), ('0-d', '0-d'),
                  ('array', 'scalar'), ('scalar', 'array'), ('one', 'one'),
                  ('empty', 'empty')):
            for dt in 'fi':
                if dt == 'i' and k[0] not in ('array', 'scalar'):
                    continue
                out.append(Contract(
                    fn, 'satellite_track[%s,%s,%d]' % ('/'.join(k), dt, h),
                    c_track(k, dt, h), stubs=ST))
        out.append(Contract(fn, 'satellite_track defaults, %d' % h,
                            c_track(('array', 'array'), 'f', h, tol=False),
                            stubs=ST))
    for w in ('del_x', 'del_y', 'past_bound', 'hemisphere'):
        out.append(Contract(fn, 'satellite_track rejects a bad ' + w,
                            c_reject(w), stubs=ST))
    return out
