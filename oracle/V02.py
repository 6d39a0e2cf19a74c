"""Concrete contract of the angle between the poles at the data."""
import math

import numpy as np

from ocbpy import vectors as vc

RULE = ('random and aligned data/pole pairs in one hemisphere; non-trivial: '
        'same or opposite meridian, local times days apart, equal '
        'latitudes, pole at the geographic pole, NaN, mixed shapes')
NAN = float('nan')


def pick(rng, n):
    a, la, b, lb = [], [], [], []
    for _ in range(n):
        x = rng.choice([0.0, 6.0, 12.0, 0.3, 23.5, rng.uniform(-30, 60)])
        y = x + rng.choice([0.0, 12.0, -12.0, 24.0, 36.0, -60.0, 6.0, 18.0,
                            1e-9, 12 + 1e-9, rng.uniform(-40, 40),
                            rng.uniform(-40, 40), rng.uniform(0, 24)])
        u = rng.choice([60.0, 75.0, rng.uniform(40, 89.5), 88.0,
                        rng.uniform(1, 89.)])
        w = rng.choice([90.0, 88.0, 86.0, u, u - .5, rng.uniform(40, 90),
                        rng.uniform(70, 90)])
        k = rng.random()
        if k < .12:
            i = rng.randrange(4)
            z = [x, u, y, w]
            z[i] = NAN
            x, u, y, w = z
        a.append(x), la.append(u), b.append(y), lb.append(w)
    return [a, la, b, lb]


def cases(rng, tier, hints):
    for h in hints:
        v = [h.get(k) for k in ('data_lt', 'data_lat', 'pole_lt',
                                'pole_lat')]
        v = [x if isinstance(x, (int, float)) else z for x, z in
             zip(v, (0., 70., 0., 85.))]
        if all(abs(v[i]) <= 90 for i in (1, 3)) and v[1] * v[3] > 0:
            for sc in (0, 15):
                yield {'v': [[x] for x in v], 'h': 1, 'sc': sc}
    yield {'v': [[6.0], [80.0], [18.0], [75.0]], 'h': 1, 'sc': 15}
    while True:
        n = rng.choice([1, 2, 3, 5])
        yield {'v': pick(rng, n), 'h': rng.choice([1, -1]),
               'sc': rng.choice([0, 0, 15, 15, 12, 3, 5, 10, 9, 1, 2, 4, 8,
                                 14]), 'li': rng.random() < .2}


def ref(a, la, b, lb):
    d = math.radians(math.fmod(b - a, 24) * 15)
    la, lb = math.radians(abs(la)), math.radians(abs(lb))
    y = math.sin(d) * math.cos(lb)
    x = math.cos(la) * math.sin(lb) - math.sin(la) * math.cos(lb) * math.cos(
        d)
    return math.degrees(abs(math.atan2(y, x))), math.hypot(x, y)


def check(c):
    h, sc = c['h'], c['sc']
    v = [[NAN if x is None else x for x in k] for k in c['v']]
    v[1] = [h * x for x in v[1]]
    v[3] = [h * x for x in v[3]]
    n = len(v[0])
    args, full = [], []
    for i in range(4):
        if sc >> i & 1:
            args.append(v[i][0])
            full.append([v[i][0]] * n)
        else:
            args.append(list(v[i]) if c.get('li') else np.array(v[i]))
            full.append(v[i])
    keep = [np.array(x, copy=True) for x in args]
    r = vc.calc_vec_pole_angle(*args)
    for x, y in zip(args, keep):
        if not np.array_equal(np.array(x), y, equal_nan=True):
            return 'an input was modified'
    shape = () if sc == 15 else (n,)
    if np.shape(r) != shape:
        return 'shape %r, expected %r' % (np.shape(r), shape)
    out = np.ravel(r)
    known = None
    for i in range(1 if sc == 15 else n):
        a, la, b, lb = [full[k][i] for k in range(4)]
        if any(x != x for x in (a, la, b, lb)):
            if not math.isnan(out[i]):
                return 'angle %r for undefined (%r, %r, %r, %r)' % (
                    out[i], a, la, b, lb)
            continue
        w, s = ref(a, la, b, lb)
        if s < 1e-4 or abs(la) > 89.9:
            continue
        if not (0 <= out[i] <= 180 and abs(out[i] - w) < 2e-4):
            d = 15 * np.remainder(b - a, 24)
            if abs(d - 180) < 1e-9 and abs(la) > abs(lb) and out[i] == 180:
                # listed in known_findings.txt
                known = ('opposite-meridian-180', 'angle 180 at (%r, %r) to '
                         'the pole (%r, %r)' % (a, la, b, lb))
                continue
            return 'angle %r at (%r, %r) to the pole (%r, %r), expected ' \
                '%r' % (out[i], a, la, b, lb, w)
    return known
