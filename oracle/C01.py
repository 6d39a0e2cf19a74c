"""Concrete contract of the boundary corrections."""
import math

import numpy as np

import coefs
from ocbpy import ocb_correction as oc

RULE = ('random local times (several days either way) for every instrument '
        'and method, scalars and arrays with NaN; non-trivial: outside '
        '[0, 24) or non-default instrument or method')


def cases(rng, tier, hints):
    for h in hints:
        xs = [v for v in h.values() if isinstance(v, (int, float))][:4]
        for fn in ('circular', 'elliptical', 'harmonic'):
            yield {'fn': fn, 'x': xs or [1.0], 'form': 'array',
                   'inst': 'ampere', 'm': 'median'}
    for inst in ('ampere', 'si12', 'si13', 'wic', 'image', 'amp'):
        for m in ('median', 'gaussian', 'ocb', 'eab', 'mean'):
            for fn in ('elliptical', 'harmonic'):
                for form in ('array', 'scalar'):
                    yield {'fn': fn, 'x': [0.0, 6.0, 12.0, 18.5, 23.9],
                           'form': form, 'inst': inst, 'm': m}
    while True:
        fn = rng.choice(['circular', 'elliptical', 'harmonic', 'harmonic'])
        inst = 'ampere' if fn != 'harmonic' else rng.choice(
            ['ampere', 'si12', 'si13', 'wic', 'WIC', 'AMPERE'])
        m = rng.choice(['median', 'gaussian', 'Median'] if inst.lower() ==
                       'ampere' else ['ocb', 'eab', 'OCB'])
        yield {'fn': fn, 'inst': inst, 'm': m, 'default': rng.random() < .2,
               'form': rng.choice(['array', 'list', 'scalar', '0-d', 'int',
                                   'intarray', 'empty', 'two-d']),
               'x': [rng.choice([0.0, 6.0, 12.0, 18.0, 24.0, -6.0, 30.0,
                                 float('nan'), 5]) if rng.random() < .3 else
                     rng.uniform(-80, 80) for _ in range(rng.choice(
                         [1, 2, 5]))],
               'r': rng.choice([0.0, 1.5, -3.25, 2])}


def check(c):
    from T01 import build
    x = build(c['x'], c['form'])
    keep = np.array(x, dtype=float, copy=True)
    fn, inst, m = c['fn'], c['inst'].lower(), c['m'].lower()
    if fn == 'circular':
        r = oc.circular(x) if c.get('default') else oc.circular(
            x, r_add=c.get('r', 0.0))
    else:
        known = (inst == 'ampere' and m in coefs.ELL) if fn == 'elliptical' \
            else (inst, m) in coefs.HAR
        try:
            if c.get('default'):
                inst, m, known = 'ampere', 'median', True
                r = getattr(oc, fn)(x)
            else:
                r = getattr(oc, fn)(x, instrument=c['inst'], method=c['m'])
        except ValueError:
            return None if not known else 'a known curve was rejected'
        if not known:
            return 'an unknown curve was accepted'
    if not np.array_equal(np.array(x, dtype=float), keep, equal_nan=True):
        return 'the input was modified'
    if np.shape(r) != keep.shape:
        return 'the shape changed to %r' % (np.shape(r),)
    for a, b in zip(keep.ravel(), np.ravel(np.asarray(r, float))):
        if fn == 'circular':
            want = 0.0 if c.get('default') else c.get('r', 0.0)
        elif math.isnan(a):
            if not math.isnan(b):
                return 'NaN became %r' % b
            continue
        else:
            th = a * math.pi / 12.
            if fn == 'elliptical':
                k, e, t = coefs.ELL[m]
                want = -k * (1 - e * e) / (1 + e * math.cos(th - t))
            else:
                k = coefs.HAR[(inst, m)]
                want = -k[0] - sum(
                    k[4 * j - 3] * math.cos(j * (th + k[4 * j - 2]))
                    + k[4 * j - 1] * math.sin(j * (th + k[4 * j]))
                    for j in (1, 2, 3))
        if not abs(b - want) < 1e-8:
            return '%s(%r) is %r, published curve %r' % (fn, a, b, want)
    return None
