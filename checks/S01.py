"""S01: scaling functions."""
from pv import terms as T
from pv.spec import (Contract, make_input, snap, unchanged, expect_shape,
                     val, finite, is_nan)
from pv.arr import NAN, ABSENT

M = 'ocbpy.ocb_scaling.'
KINDS = ('scalar', '0-d', 'array', 'one', 'empty')


def c_scale(kinds, dtype, power):
    def run(e, cx):
        f = cx.fn()
        x = make_input('value', kinds[0], dtype)
        u = make_input('unscaled_r', kinds[1], dtype)
        w = make_input('scaled_r', kinds[2], dtype)
        s = snap(x, u, w)
        if val_or_none(w) is not None:
            e.assume(T.lt(T.ZERO, val(w)))
        r = f(x, u, w)
        big = [a for a in (x, u, w) if a.shape_ != ()]
        expect_shape(e, r, big[0].shape_ if big else ())
        unchanged(e, s)
        if any(a.buf.v is ABSENT for a in (x, u, w)):
            return
        v = val(r)
        if any(val(a) is NAN for a in (x, u, w)):
            is_nan(e, v)
            return
        finite(e, v)
        a, b, c = val(x), val(u), val(w)
        for _ in range(power):
            a, v = a * b, v * c
        d = T.clear_den(v - a)
        e.oblige('ratio of the radii to the power of %d' % power,
                 T.eq(d if d is not None else v - a, T.ZERO))
    return run


def val_or_none(a):
    if a.buf.v is ABSENT:
        return None
    v = val(a)
    return None if v is NAN else v


def contracts():
    out = []
    for name, p in (('normal_evar', 1), ('normal_curl_evar', 2)):
        for k in KINDS:
            for dtype in 'fi':
                out.append(Contract(M + name, '%s[%s,%s]' % (name, k, dtype),
                                    c_scale((k,) * 3, dtype, p)))
        for ks in (('array', 'scalar', 'scalar'),
                   ('array', 'array', 'scalar'),
                   ('scalar', 'array', '0-d'), ('0-d', 'scalar', '0-d'),
                   ('array', '0-d', 'array')):
            out.append(Contract(M + name, '%s[%s]' % (name, ','.join(ks)),
                                c_scale(ks, 'f', p)))
    return out
