"""Concrete contract of the local time and longitude conversions."""
import datetime as dt
import math

import numpy as np

from ocbpy import ocb_time as ot

RULE = ('random and boundary longitudes and local times at random times of '
        'day with microseconds, scalars and arrays with NaN; non-trivial: '
        'the value wraps around the day')


def cases(rng, tier, hints):
    for h in hints:
        for fn in ('slt2glon', 'glon2slt'):
            yield {'fn': fn, 'x': [v for v in h.values() if isinstance(
                v, (int, float)) and abs(v) < 1e6][:6] or [1.0],
                'form': 'array', 't': [2000, 5, 5, 13, 59, 30, 999999]}
    special = [0.0, 6.0, 12.0, 23.999999999, 24.0, -24.0, 180.0, -180.0,
               360.0, 359.9999, -179.999, 90.0, 15.0, float('nan'), 48.0, 5]
    while True:
        t = [rng.choice([1999, 2000, 2001, 2015]), rng.randint(1, 12),
             rng.randint(1, 28)]
        t += rng.choice([[0, 0, 0, 0], [23, 59, 59, 999999], [12, 0, 0, 0],
                         [rng.randint(0, 23), rng.randint(0, 59),
                          rng.randint(0, 59), rng.randint(0, 999999)]])
        n = rng.choice([1, 1, 2, 5])
        yield {'fn': rng.choice(['slt2glon', 'glon2slt']),
               'x': [rng.choice(special) if rng.random() < .4 else
                     rng.uniform(-800, 800) for _ in range(n)],
               'form': rng.choice(['array', 'list', 'scalar', '0-d', 'int',
                                   'intarray', 'empty']), 't': t}


def near(a, b, per):
    d = (a - b) / per
    return abs(d - round(d)) < 1e-9


def check(c):
    from T01 import build
    x = build(c['x'], c['form'])
    keep = np.array(x, dtype=float, copy=True)
    d = dt.datetime(*c['t'])
    h = (d - dt.datetime(d.year, d.month, d.day)).total_seconds() / 3600.0
    hr = ot.datetime2hr(d)
    if abs(hr - h) > 1e-9:
        return 'hours of the day %r, not %r' % (hr, h)
    r = getattr(ot, c['fn'])(x, d)
    if not np.array_equal(np.array(x, dtype=float), keep, equal_nan=True):
        return 'the input was modified'
    back = (ot.glon2slt if c['fn'] == 'slt2glon' else ot.slt2glon)(r, d)
    if np.shape(r) != keep.shape or np.shape(back) != keep.shape:
        return 'the shape changed'
    lo, hi, per, back_per = (-180., 360., 360., 24.) if c['fn'] == \
        'slt2glon' else (0., 24., 24., 360.)
    for a, b, z in zip(keep.ravel(), np.asarray(r, float).ravel(),
                       np.asarray(back, float).ravel()):
        if math.isnan(a):
            if not (math.isnan(b) and math.isnan(z)):
                return 'NaN became %r, %r' % (b, z)
            continue
        exact = 15. * (a - h) if c['fn'] == 'slt2glon' else a / 15. + h
        if not lo <= b < hi:
            return '%r -> %r outside [%r, %r)' % (a, b, lo, hi)
        if not near(b, exact, per):
            return '%r -> %r, exact %r' % (a, b, exact)
        if not near(z, a, back_per):
            return '%r came back as %r' % (a, z)
    return None
