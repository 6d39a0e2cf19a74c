"""Concrete contract of the quadrants and the pole location."""
import math

import numpy as np

from ocbpy import vectors as vc

RULE = ('random and boundary local times, angles and components; '
        'non-trivial: local times more than a day apart, exact quadrant '
        'limits, NaN, scalar with array arguments')

LT = [0.0, 6.0, 12.0, 18.0, 24.0, -12.0, -6.0, 36.0, -24.0, 48.0, -36.0,
      23.5, 0.5, float('nan'), 6, 30]
ANG = [0.0, 90.0, 89.999, 90.001, 180.0, 45.0, 135.0, float('nan'), 90]
CMP = [0.0, -0.0, 1.0, -1.0, 50.0, -50.0, float('nan'), 1e-9, -1e-9, 2, -2]


def pick(rng, sp, lo, hi, n):
    return [rng.choice(sp) if rng.random() < .6 else rng.uniform(lo, hi)
            for _ in range(n)]


def cases(rng, tier, hints):
    for h in hints:
        g = {k: v for k, v in h.items() if isinstance(v, (int, float))}
        if 'data_lt' in g or 'pole_lt' in g:
            for s in (0, 7):
                yield {'fn': 'pole', 'a': [g.get('data_lt', 0.)],
                       'b': [g.get('pole_lt', 0.)],
                       'p': [g.get('pole_angle', 0.)], 'sc': s}
        if 'vect_n' in g or 'vect_e' in g:
            for s in (0, 7):
                yield {'fn': 'vect', 'a': [g.get('vect_n', 0.)],
                       'b': [g.get('vect_e', 0.)], 'p': [0.], 'sc': s}
    while True:
        fn = rng.choice(['pole', 'pole', 'vect', 'loc'])
        n = rng.choice([1, 2, 3, 6])
        if fn == 'pole':
            a, b, p = (pick(rng, LT, -80, 80, n), pick(rng, LT, -80, 80, n),
                       pick(rng, ANG, 0, 180, n))
        elif fn == 'vect':
            a, b, p = (pick(rng, CMP, -99, 99, n), pick(rng, CMP, -99, 99,
                                                        n), [0.0] * n)
        else:
            a, b, p = (pick(rng, [0.0, 360.0, -90.0, 720.0, float('nan'), 7],
                            -800, 800, n),
                       pick(rng, [0.0, 90.0, 4.0, float('nan'), 9], 0, 20,
                            n), [0.0] * n)
        # bit set: that argument is a scalar
        yield {'fn': fn, 'a': a, 'b': b, 'p': p,
               'sc': rng.choice([0, 0, 7, 1, 2, 4, 3]),
               'int': rng.random() < .15}


def close(a, b):
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) < 1e-9


def check(c):
    args, full = [], []
    n = len(c['a'])
    sc = c['sc']
    if c['fn'] == 'pole' and sc == 3 or c['fn'] != 'pole':
        sc &= 3
        if c['fn'] == 'pole':
            sc = 7
    for i, k in enumerate('abp'):
        v = [float('nan') if x is None else x for x in c[k]]
        if c.get('int') and k != 'p':
            v = [0 if x != x else int(x) for x in v]
        if sc & (1 << i):
            args.append(v[0])
            full.append([v[0]] * n)
        else:
            args.append(np.array(v))
            full.append(v)
    keep = [np.array(x, copy=True) for x in args]
    if c['fn'] == 'pole':
        r = vc.define_pole_quadrants(*args)
        scalar = sc == 7
    elif c['fn'] == 'vect':
        r = vc.define_vect_quadrants(*args[:2])
        scalar = sc & 3 == 3
    else:
        lt, lat = vc.get_pole_loc(*args[:2])
        if np.shape(lt) != np.shape(args[0]) or np.shape(lat) != np.shape(
                args[1]):
            return 'shape of the pole location'
        for x, y in zip(np.ravel(args[0]), np.ravel(lt)):
            if math.isnan(x) != math.isnan(y):
                return 'NaN in the local time'
            if not math.isnan(x) and not (0 <= y < 24 and close(
                    0, math.remainder(y - x / 15., 24.))):
                return 'local time %r of angle %r' % (y, x)
        for x, y in zip(np.ravel(args[1]), np.ravel(lat)):
            if not close(90. - x, y):
                return 'latitude %r of radius %r' % (y, x)
        return None
    for x, y in zip(args, keep):
        if not np.array_equal(np.array(x, float), np.array(y, float),
                              equal_nan=True):
            return 'an input was modified'
    shape = () if scalar else (n,)
    if np.shape(r) != shape:
        return 'shape %r, expected %r' % (np.shape(r), shape)
    out = np.ravel(np.asarray(r, float))
    for i in range(1 if scalar else n):
        a, b, p = full[0][i], full[1][i], full[2][i]
        if c['fn'] == 'pole':
            if a != a or b != b or p != p:
                want = 0
            else:
                d = (b - a) % 24.
                if min(abs(d - 12), abs(d - 24), d) < 1e-9 and d not in (
                        0., 12.):
                    continue
                want = {(0, 0): 1, (1, 0): 2, (1, 1): 3, (0, 1): 4}[
                    int(d >= 12.), int(p >= 90.)]
        elif a != a or b != b:
            want = 0
        else:
            want = {(0, 0): 1, (1, 0): 2, (1, 1): 3, (0, 1): 4}[
                int(b < 0), int(a < 0)]
        if out[i] != want:
            return 'quadrant %r of (%r, %r, %r), expected %r' % (
                out[i], a, b, p, want)
    return None
