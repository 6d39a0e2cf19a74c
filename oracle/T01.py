"""Concrete contract of the cyclic conversions."""
import math

import numpy as np

from ocbpy import ocb_time as ot

RULE = ('random and boundary values through every conversion, as scalars, '
        'integers, lists and arrays with NaN; non-trivial: the value needs '
        'wrapping or is exactly on a limit')

FN = {
    'deg2hr': (1 / 15., 0.0, 24.0, 24.0),
    'hr2deg': (15., -180.0, 360.0, 360.0),
    'hr2rad': (math.pi / 12., 0.0, 2 * math.pi, 2 * math.pi),
    'rad2hr': (12. / math.pi, 0.0, 24.0, 24.0)}


def cases(rng, tier, hints):
    for h in hints:
        xs = [v for k, v in h.items() if isinstance(v, (int, float)) and
              abs(v) < 1e6]
        for fn in FN:
            yield {'fn': fn, 'x': xs, 'form': 'array'}
        if 'lo' in h and 'hi' in h:
            yield {'fn': 'fix_range', 'x': [h.get('x', 0.0)] + xs,
                   'form': 'array', 'lo': h['lo'], 'hi': h['hi'],
                   'rg': h.get('rg')}
    special = [0.0, 6.0, 12.0, 24.0, 48.0, -24.0, -12.0, 180.0, 360.0,
               -180.0, 720.0, -360.0, 540.0, 15.0, 1e-17, -1e-17, -1e-14,
               23.999999999999996, math.pi, -math.pi, 2 * math.pi,
               4 * math.pi, -2 * math.pi, float('nan'), 0.5, 359.5, 100.25,
               -190.0, 370.0, 1000.0, -1000.0, 25, -7, 7, 400, -400]
    forms = ['array', 'list', 'scalar', '0-d', 'int', 'intarray', 'empty',
             'two-d']
    while True:
        fn = rng.choice(list(FN) + ['fix_range', 'hr2deg_w', 'hr2rad_w'])
        form = rng.choice(forms)
        n = rng.choice([1, 1, 2, 3, 5])
        x = [rng.choice(special) if rng.random() < 0.5 else
             rng.uniform(-1, 1) * 10 ** rng.uniform(-1, 3.3)
             for _ in range(n)]
        c = {'fn': fn, 'x': x, 'form': form}
        if fn == 'fix_range':
            lo = rng.choice([0.0, -180.0, -math.pi, 0, -12, 5.5,
                             rng.uniform(-50, 50)])
            w = rng.choice([24.0, 360.0, 2 * math.pi, 24, 360,
                            rng.uniform(0.5, 60)])
            c.update(lo=lo, hi=lo + w, rg=rng.choice([
                None, w, w * rng.uniform(0.3, 1.0)]))
        elif fn == 'hr2deg_w':
            lo = rng.choice([-180.0, 0.0, -360.0, rng.uniform(-400, 400)])
            c.update(lo=lo, hi=lo + rng.choice([
                360.0, 540.0, 180.0, 90.0, rng.uniform(10, 800)]))
        elif fn == 'hr2rad_w':
            c.update(hi=rng.choice([math.pi, 2 * math.pi, 0.0,
                                    rng.uniform(-10, 10)]))
        yield c


def build(x, form):
    xs = [float('nan') if v is None else v for v in x]
    ints = [int(v) for v in xs if v == v] or [1]
    if form == 'array':
        return np.array(xs, dtype=float)
    if form == 'list':
        return list(xs)
    if form == 'scalar':
        return float(xs[0]) if xs else 1.5
    if form == '0-d':
        return np.asarray(xs[0] if xs else 1.5)
    if form == 'int':
        return ints[0]
    if form == 'intarray':
        return np.array(ints)
    if form == 'two-d':
        return np.array([xs, xs], dtype=float)
    return np.array([], dtype=float)


def check(c):
    x = build(c['x'], c['form'])
    keep = np.array(x, dtype=float, copy=True)
    fn = c['fn']
    if fn in FN:
        k, lo, hi, per = FN[fn]
        r = getattr(ot, fn)(x)
    elif fn == 'fix_range':
        k, lo, hi, per = 1.0, c['lo'], c['hi'], c['rg']
        if per is not None and (per <= 0 or per > hi - lo + 1e-12):
            return None
        if lo >= hi:
            try:
                ot.fix_range(x, lo, hi, per)
            except ValueError:
                return None
            return 'no ValueError for an impossible range'
        r = ot.fix_range(x, lo, hi) if per is None else ot.fix_range(
            x, lo, hi, per)
        per = hi - lo if per is None else per
        if (np.nanmax(np.abs(keep), initial=0) / per) > 1e5:
            return None
    elif fn == 'hr2deg_w':
        k, lo, hi, per = 15.0, c['lo'], c['hi'], 360.0
        r = ot.hr2deg(x, lo, hi)
        if hi - lo < 360.0:
            lo = hi - 360.0
    else:
        k, hi, per = math.pi / 12.0, c['hi'], 2 * math.pi
        lo = hi - per
        r = ot.hr2rad(x, hi)
    if not np.array_equal(np.array(x, dtype=float), keep, equal_nan=True):
        return 'the input was modified'
    r = np.asarray(r)
    if r.shape != keep.shape:
        return 'shape %r for an input of shape %r' % (r.shape, keep.shape)
    for xv, rv in zip(keep.ravel(), r.ravel().astype(float)):
        if np.isnan(xv):
            if not np.isnan(rv):
                return 'NaN became %r' % rv
            continue
        if not (lo <= rv < hi):
            return '%r -> %r outside [%r, %r)' % (xv, rv, lo, hi)
        s = xv * k
        t = (rv - s) / per
        tol = 1e-9 * max(1.0, abs(s) / per)
        if abs(t - round(t)) > tol:
            return '%r -> %r is not congruent modulo %r' % (xv, rv, per)
        if lo + 1e-9 < s < hi - 1e-9 and abs(rv - s) > 1e-9 * max(
                1, abs(s)):
            return '%r was already in range but became %r' % (xv, rv)
    return None
