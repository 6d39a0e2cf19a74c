"""Concrete contract of the scaling functions."""
import numpy as np

from ocbpy import ocb_scaling as sc

RULE = ('random values and radii; non-trivial: zero and negative values, NaN '
        'elements, integers, mixtures of scalars and arrays')
NAN = float('nan')


def cases(rng, tier, hints):
    for h in hints:
        v = [h.get(k) for k in ('value', 'unscaled_r', 'scaled_r')]
        v = [x if isinstance(x, (int, float)) and 1e-3 < abs(x) < 1e6 else z
             for x, z in zip(v, (3., 11., 16.))]
        yield {'v': [[x] for x in v], 's': 0, 'p': 1, 'i': 0}
        yield {'v': [[x] for x in v], 's': 0, 'p': 2, 'i': 0}
    while True:
        n = rng.choice([1, 2, 3, 6])
        v = [[rng.choice([0., 1., -2., NAN]) if rng.random() < .3 else
              rng.uniform(-900, 900) for _ in range(n)],
             [NAN if rng.random() < .1 else rng.uniform(-5, 40)
              for _ in range(n)],
             [NAN if rng.random() < .1 else rng.uniform(1, 40)
              for _ in range(n)]]
        yield {'v': v, 's': rng.choice([0, 0, 7, rng.randrange(8)]),
               'p': rng.choice([1, 2]), 'i': int(rng.random() < .2)}


def check(c):
    v = [[NAN if x is None else x for x in k] for k in c['v']]
    n = len(v[0])
    if c['i']:
        v = [[1 if x != x else int(x) or 1 for x in k] for k in v]
    args, full = [], []
    for i in range(3):
        if c['s'] >> i & 1:
            args.append(v[i][0])
            full.append([v[i][0]] * n)
        else:
            args.append(np.array(v[i]))
            full.append(v[i])
    keep = [np.array(x, copy=True) for x in args]
    f = sc.normal_evar if c['p'] == 1 else sc.normal_curl_evar
    r = f(*args)
    for x, y in zip(args, keep):
        if not np.array_equal(np.array(x), y, equal_nan=True):
            return 'an input was modified'
    if np.shape(r) != (() if c['s'] == 7 else (n,)):
        return 'shape %r' % (np.shape(r),)
    for g, a, b, d in zip(np.ravel(r), *full):
        w = a * (b / d) ** c['p']
        if (w != w) != (g != g) or abs(g - w) > 1e-9 * (1 + abs(w)):
            return '%r of (%r, %r, %r), expected %r' % (g, a, b, d, w)
    return None
