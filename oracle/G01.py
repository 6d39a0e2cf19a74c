"""Concrete contract of satellite_track."""
import math

import numpy as np

from ocbpy.cycle_boundary import satellite_track

RULE = ('random tracks and locations; non-trivial: locations close to the '
        'track and both limits, the other hemisphere, NaN, single values, '
        'integers, default and zero distances, bad arguments')
NAN = float('nan')


def case(rng):
    n = rng.choice([1, 3, 8])
    h = rng.choice([1, -1])
    p = [rng.uniform(-30, 30) for _ in range(4)]
    if abs(p[0] - p[2]) < .5:
        p[2] = p[0] + rng.choice([1, -3])
    lat, mlt = [], []
    for _ in range(n):
        if rng.random() < .7:            # near the track
            t = rng.uniform(-.8, 1.8)
            x = p[0] + t * (p[2] - p[0]) + rng.uniform(-2, 2)
            y = p[1] + t * (p[3] - p[1]) + rng.uniform(-2, 2)
            lat.append(h * (90 - math.hypot(x, y)))
            mlt.append(math.atan2(y, x) * 12 / math.pi + 6 +
                       rng.choice([0, 24, -24]))
        else:
            lat.append(rng.choice([NAN, 90., -90., 0., rng.uniform(-90, 90)]))
            mlt.append(rng.choice([NAN, 0., 6., rng.uniform(-30, 50)]))
    kw = {}
    for k, v in (('del_x', 1.), ('del_y', 1.), ('past_bound', 5.)):
        if rng.random() < .6:
            kw[k] = rng.choice([0., v, rng.uniform(0, 9)])
    return {'p': p, 'h': h, 'lat': lat, 'mlt': mlt, 'kw': kw,
            'm': rng.choice(['array', 'array', 'list', 'scalar', '0d',
                             'int'])}


def cases(rng, tier, hints):
    for h in hints:
        c = case(rng)
        for k, a in (('lat', 'lat'), ('mlt', 'mlt')):
            if isinstance(h.get(a), (int, float)) and abs(h[a]) < 1e5:
                c[k] = [h[a]] * len(c[k])
        for i, a in enumerate(('x1', 'y1', 'x2', 'y2')):
            if isinstance(h.get(a), (int, float)) and abs(h[a]) < 1e3:
                c['p'][i] = float(h[a])
        for a in ('del_x', 'del_y', 'past_bound'):
            if isinstance(h.get(a), (int, float)) and abs(h[a]) < 1e3:
                c['kw'][a] = float(h[a])
        if abs(c['p'][0] - c['p'][2]) > .01:
            yield c
    while True:
        c = case(rng)
        if rng.random() < .05:
            c['bad'] = rng.choice(['del_x', 'del_y', 'past_bound',
                                   'hemisphere'])
        yield c


def check(c):
    p, h, m = c['p'], c['h'], c['m']
    kw = dict(c['kw'])
    lat = [NAN if x is None else x for x in c['lat']]
    mlt = [NAN if x is None else x for x in c['mlt']]
    if m == 'int':
        lat, mlt = [[0 if x != x else int(round(x)) for x in v]
                    for v in (lat, mlt)]
    if m in ('scalar', '0d'):
        lat, mlt = lat[:1], mlt[:1]
    a = {'scalar': lambda v: v[0], '0d': lambda v: np.array(v[0]),
         'list': list}.get(m, np.array)
    la, ml = a(lat), a(mlt)
    keep = [np.array(x, copy=True) for x in (la, ml)]
    bad = c.get('bad')
    if any(v < 0 for v in kw.values()) and not bad:
        bad = 'negative'
    elif bad and bad != 'hemisphere':
        kw[bad] = -1e-9
    try:
        r = satellite_track(la, ml, *p, 0 if bad == 'hemisphere' else h, **kw)
    except ValueError:
        return None if bad else 'unexpected ValueError'
    if bad:
        return 'a bad %s is not rejected' % bad
    for x, y in zip((la, ml), keep):
        if not np.array_equal(np.array(x), y, equal_nan=True):
            return 'an input was modified'
    if np.shape(r) != (() if m in ('scalar', '0d') else (len(lat),)):
        return 'shape %r' % (np.shape(r),)
    dx, dy = kw.get('del_x', 1.), kw.get('del_y', 1.)
    past = kw.get('past_bound', 5.)
    s = (p[1] - p[3]) / (p[0] - p[2])
    w = dy - s * dx
    for g, la, t in zip(np.ravel(r), lat, mlt):
        if la != la or t != t:
            if g:
                return 'undefined location along the track'
            continue
        rho = 90 - h * la
        f = (t - 6) * math.pi / 12
        x, y = rho * math.cos(f), rho * math.sin(f)
        off = y - p[1] - s * (x - p[0])
        r1 = math.hypot(x - p[0], y - p[1])
        r2 = math.hypot(x - p[2], y - p[3])
        lim = past + (math.hypot(*p[:2]) if r1 <= r2 else
                      math.hypot(*p[2:]))
        tol = 1e-6 * (1 + abs(s)) * 10
        if abs(w - abs(off)) < tol or abs(r1 - r2) < 1e-6 or \
                abs(rho - lim) < 1e-6:
            continue
        if bool(g) != (abs(off) <= w and rho <= lim):
            return 'location (%r, %r): %r' % (la, t, g)
    return None
