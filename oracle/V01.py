"""Concrete contract of the haversine functions."""
import math

import numpy as np

from ocbpy import ocb_scaling as oc

RULE = ('random and boundary angles and haversines, scalars and arrays with '
        'NaN; non-trivial: within a rounding error of a limit, negative or '
        'above one')


def cases(rng, tier, hints):
    for h in hints:
        xs = [v for v in h.values() if isinstance(v, (int, float))]
        yield {'fn': 'hav', 'x': xs, 'form': 'array'}
        yield {'fn': 'archav', 'x': xs, 'form': 'array'}
    spa = [0.0, math.pi, -math.pi, 2 * math.pi, math.pi / 2, 1e-9,
           float('nan'), 3]
    sph = [0.0, 1.0, 0.5, 1e-16, -1e-16, 0.99e-16, -0.99e-16, 1e-17, -1e-17,
           2e-16, 1e-15, -1e-15, 1 + 1e-9, -0.5, 1.5, -1.0, -2.0, 2.0,
           float('nan'), 1e-12, 1, 0, 1 - 1e-12]
    while True:
        fn = rng.choice(['hav', 'archav'])
        sp = spa if fn == 'hav' else sph
        yield {'fn': fn, 'form': rng.choice(
            ['array', 'list', 'scalar', '0-d', 'intarray', 'empty']),
            'x': [rng.choice(sp) if rng.random() < .5 else (
                rng.uniform(-10, 10) if fn == 'hav' else rng.random())
                for _ in range(rng.choice([1, 1, 2, 5]))]}


def check(c):
    from T01 import build
    x = build(c['x'], c['form'])
    keep = np.array(x, dtype=float, copy=True)
    r = getattr(oc, c['fn'])(x)
    if not np.array_equal(np.array(x, dtype=float), keep, equal_nan=True):
        return 'the input was modified'
    if np.shape(r) != keep.shape:
        return 'the shape changed to %r' % (np.shape(r),)
    for a, b in zip(keep.ravel(), np.asarray(r, float).ravel()):
        if math.isnan(a):
            if not math.isnan(b):
                return 'NaN became %r' % b
        elif c['fn'] == 'hav':
            if not abs(b - 0.5 * (1 - math.cos(a))) < 1e-12:
                return 'haversine of %r is %r' % (a, b)
            back = float(oc.archav(b))
            if not abs(math.cos(back) - math.cos(a)) < 1e-12 or \
                    not 0 <= back <= math.pi + 1e-12:
                return '%r came back as %r' % (a, back)
        elif a > 1 or a <= -1e-16:
            if not math.isnan(b):
                return 'impossible haversine %r gave %r' % (a, b)
        elif abs(a) < 1e-16:
            if b != 0:
                return '%r gave %r' % (a, b)
        elif not 0 <= b <= math.pi + 1e-12 or not abs(
                math.sin(b / 2) ** 2 - a) < 1e-12 * max(a, 1e-4):
            return 'angle of haversine %r is %r' % (a, b)
    return None
