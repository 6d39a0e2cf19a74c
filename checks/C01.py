"""C01: boundary corrections."""
import os
import sys

from pv import terms as T
from pv import arr as A
from pv.spec import (Contract, C, make_input, snap, unchanged, expect_shape,
                     val, finite, is_nan, pynum)
from pv.arr import NAN, ABSENT

sys.path.append(os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'oracle'))
import coefs  # noqa: E402

M = 'ocbpy.ocb_correction.'
KINDS = ('scalar', '0-d', 'array', 'one', 'empty')
H2R = ['ocbpy.ocb_time.hr2rad']


def K(x):
    return C(T.to_frac(x))


def c_circ(kind, dtype, given):
    def run(e, cx):
        f = cx.fn()
        x = make_input('mlt', kind, dtype)
        s = snap(x)
        if given:
            ra = pynum('r_add')
            r = f(x, r_add=ra)
            want = val(ra)
        else:
            r = f(x)
            want = C(0)
        expect_shape(e, r, x.shape_)
        unchanged(e, s)
        if r.buf.v is not ABSENT:
            e.oblige('offset everywhere', T.eq(finite(e, val(r)), want))
    return run


def ell(theta, m):
    a, ecc, t = [K(v) for v in coefs.ELL[m]]
    c, _ = T.trig(theta - t)
    return a * (T.ONE - ecc * ecc), T.ONE + ecc * c


def c_ell(kind, dtype, m, how):
    def run(e, cx):
        f = cx.fn()
        x = make_input('mlt', kind, dtype)
        s = snap(x)
        r = {'default': lambda: f(x), 'name': lambda: f(x, method=m),
             'case': lambda: f(x, 'AMPERE', m.upper())}[how]()
        expect_shape(e, r, x.shape_)
        unchanged(e, s)
        if x.buf.v is ABSENT:
            return
        xv, v = val(x), val(r)
        if xv is NAN:
            is_nan(e, v)
            return
        finite(e, v)
        num, den = ell(xv * T.PI.scale(T.F(1, 12)), m)
        gap = v * den + num
        gap = T.clear_den(gap) or gap
        tol = C(T.F(1, 10**9))       # the coefficients are rounded numbers
        e.oblige('published ellipse', T.b_and(T.le(gap, tol),
                                              T.le(-tol, gap)))
    return run


def c_har(kind, dtype, inst, m, how):
    def run(e, cx):
        f = cx.fn()
        x = make_input('mlt', kind, dtype)
        s = snap(x)
        r = {'default': lambda: f(x),
             'name': lambda: f(x, instrument=inst, method=m),
             'case': lambda: f(x, inst.upper(), m.title())}[how]()
        expect_shape(e, r, x.shape_)
        unchanged(e, s)
        if x.buf.v is ABSENT:
            return
        xv, v = val(x), val(r)
        if xv is NAN:
            is_nan(e, v)
            return
        finite(e, v)
        th = xv * T.PI.scale(T.F(1, 12))
        k = [K(z) for z in coefs.HAR[(inst, m)]]
        want = k[0]
        for j in (1, 2, 3):
            a, b, c_, d = k[4 * j - 3:4 * j + 1]
            co, _ = T.trig((th + b).scale(j))
            _, si = T.trig((th + d).scale(j))
            want = want + a * co + c_ * si
        e.oblige('published harmonics', T.eq(v, -want))
    return run


def c_raises(name, args):
    def run(e, cx):
        f = cx.fn()
        x = make_input('mlt', 'array')
        try:
            f(x, *args)
            ok = False
        except ValueError:
            ok = True
        e.oblige('unknown names raise ValueError', T.b_const(ok))
    return run


def contracts():
    out = []
    for k in KINDS:
        for dt in ('f', 'i'):
            if dt == 'i' and k not in ('scalar', 'array'):
                continue
            for g in (True, False):
                out.append(Contract(M + 'circular', 'circular(%s,%s,%s)' % (
                    k, dt, 'given' if g else 'default'), c_circ(k, dt, g)))
    for k, dt in (('array', 'f'), ('scalar', 'f'), ('0-d', 'f'),
                  ('one', 'f'), ('empty', 'f'), ('array', 'i')):
        for m in coefs.ELL:
            out.append(Contract(M + 'elliptical', 'elliptical(%s,%s,%s)' % (
                k, dt, m), c_ell(k, dt, m, 'name'), stubs=H2R))
        for inst, m in coefs.HAR:
            if k in ('0-d', 'one', 'empty') and inst != 'ampere':
                continue
            out.append(Contract(M + 'harmonic', 'harmonic(%s,%s,%s,%s)' % (
                k, dt, inst, m), c_har(k, dt, inst, m, 'name'), stubs=H2R))
    out.append(Contract(M + 'elliptical', 'elliptical default',
                        c_ell('array', 'f', 'median', 'default'), stubs=H2R))
    out.append(Contract(M + 'harmonic', 'harmonic default',
                        c_har('array', 'f', 'ampere', 'median', 'default'),
                        stubs=H2R))
    for m in coefs.ELL:
        out.append(Contract(M + 'elliptical', 'elliptical names in capitals '
                            + m, c_ell('array', 'f', m, 'case'), stubs=H2R))
    for inst, m in coefs.HAR:
        out.append(Contract(M + 'harmonic', 'harmonic names in capitals %s %s'
                            % (inst, m), c_har('array', 'f', inst, m,
                                               'case'), stubs=H2R))
    for name, args in (('elliptical', ('si12',)),
                       ('elliptical', ('ampere', 'ocb')),
                       ('elliptical', ('ampere', 'mean')),
                       ('harmonic', ('image',)), ('harmonic', ('wic',)),
                       ('harmonic', ('ampere', 'ocb')),
                       ('harmonic', ('si13', 'median')),
                       ('harmonic', ('dmsp-ssj', 'ocb'))):
        out.append(Contract(M + name, '%s rejects %s' % (name, args),
                            c_raises(name, args), stubs=H2R))
    return out
