"""Concrete contract of leaving boundary coordinates and the round trip."""
import datetime as dt
import math

import numpy as np

import bnd
from ocbpy import ocb_time

RULE = ('random boundaries and locations in boundary coordinates; '
        'non-trivial: explicit radius corrections, wrapped local times, '
        'boundary centre and pole, index outside of the records, geographic '
        'output with trace flags and heights, round trips through both '
        'methods')


bnd.fake()


def cases(rng, tier, hints):
    k = 0
    while True:
        k += 1
        d = bnd.spec(rng)
        n = rng.choice([1, 2, 3, 6])
        lat, mlt = bnd.locs(rng, n, d['hemi'])
        lat = [abs(x) * d['hemi'] if x == x else x for x in lat]
        co = 'magnetic'
        if k % 3 == 0:
            co = rng.choice(['geodetic', 'geocentric', 'Geocentric'])
        if k % 13 == 0:
            d['rec'] = rng.choice([-1, len(d['r']), len(d['r']) + 3, -5])
        yield {'b': d, 'lat': lat, 'mlt': mlt, 'co': co,
               'rc': [rng.choice([0., 1., -2., 3.5]) if rng.random() < .5
                      else rng.uniform(-4, 5) for _ in range(n)],
               'h': [rng.choice([0., 100., 350., 850., 1800.])
                     for _ in range(n)],
               'fn': rng.choice(['revert', 'trip']),
               'method': rng.choice(['ALLOWTRACE', 'TRACE']),
               'mode': rng.choice(['array', 'array', 'scalar', 'list',
                                   '0d', 'int', 'rcscalar', 'norc'])}


def check(c):
    d = c['b']
    o = bnd.build(d)
    m = c['mode']
    lat, mlt, hgt, rc = [[float('nan') if x is None else x for x in c[k]]
                         for k in ('lat', 'mlt', 'h', 'rc')]
    if m in ('scalar', '0d'):
        lat, mlt, hgt, rc = lat[:1], mlt[:1], hgt[:1], rc[:1]
    if m == 'int':
        lat, mlt = [bnd.shaped(v, m).tolist() for v in (lat, mlt)]
    if m == 'rcscalar':
        rc = [rc[0]] * len(lat)
    if m == 'norc':
        rc = [0.0] * len(lat)
    n = len(lat)
    sh = () if m in ('scalar', '0d') else (n,)
    i = d['rec']
    inside = 0 <= i < len(d['r'])
    h = d['hemi']
    if c['fn'] == 'trip':
        if not inside:
            return None
        a, b = bnd.shaped(lat, m), bnd.shaped(mlt, m)
        r = o.normal_coord(a, b)
        q = o.revert_coord(*r)
        rl, rt = np.ravel(q[0]), np.ravel(q[1])
        ol = np.ravel(r[0])
        for k in range(n):
            if not ol[k] * h > 1e-9:
                continue
            x = math.radians(15. * mlt[k])
            p = 90. - h * lat[k]
            if not bnd.at(p * math.cos(x), p * math.sin(x), h, rl[k],
                          rt[k]):
                return 'location (%r, %r) comes back as (%r, %r)' % (
                    lat[k], mlt[k], rl[k], rt[k])
        return None
    args = [bnd.shaped(lat, m), bnd.shaped(mlt, m),
            bnd.shaped(rc, 'scalar' if m in ('rcscalar', 'scalar', '0d')
                       else 'array'),
            bnd.shaped(hgt, 'scalar' if m in ('scalar', '0d') else 'array')]
    kw = {} if m == 'norc' else {'r_corr': args[2]}
    if c['co'] != 'magnetic':
        kw.update(coords=c['co'], height=args[3], method=c['method'])
    keep = [np.array(x, copy=True) for x in args]
    st = bnd.state(o)
    r = o.revert_coord(args[0], args[1], **kw)
    for x, y in zip(args, keep):
        if not np.array_equal(np.array(x, float), np.array(y, float),
                              equal_nan=True):
            return 'an input was modified'
    if bnd.state(o) != st:
        return 'the boundary object was modified'
    if not isinstance(r, tuple) or len(r) != 2:
        return 'results %r' % (r,)
    for k in (0, 1):
        if np.shape(r[k]) != sh and (c['co'] == 'magnetic' or sh
                                     or np.shape(r[k]) != (1,)):
            return 'shape %r, expected %r' % (np.shape(r[k]), sh)
    rl, rt = np.ravel(r[0]), np.ravel(r[1])
    if not inside:
        if np.all(np.isnan(rl)) and np.all(np.isnan(rt)):
            return None
        return 'a location without boundary'
    for k in range(n):
        if lat[k] != lat[k] or mlt[k] != mlt[k]:
            if rl[k] == rl[k]:
                return 'latitude %r of an undefined location' % rl[k]
            continue
        if lat[k] * h <= 0:
            if n == 1 and rl[k] == rl[k]:
                return 'a location of the wrong hemisphere'
            continue
        x, y = bnd.back(d, lat[k], mlt[k], rc[k])
        if c['co'] == 'magnetic':
            if not bnd.at(x, y, h, rl[k], rt[k]):
                return ('boundary location (%r, %r, %r) -> (%r, %r), '
                        'expected the point (%r, %r)' % (
                            lat[k], mlt[k], rc[k], rl[k], rt[k], x, y))
            continue
        t = bnd.T0 + dt.timedelta(seconds=d['sec'][i])
        mla = h * (90. - math.hypot(x, y))
        ml = math.degrees(math.atan2(y, x)) / 15. % 24.
        if math.hypot(x, y) < 1e-6:
            continue
        fl = c['method'] + '|A2G' + ('|GEOCENTRIC' if c['co'].lower()
                                     == 'geocentric' else '')
        lon = bnd.f_mlt(ml, t, m2a=True)[0]
        g = [float(v[0]) for v in bnd.f_convert(mla, lon, hgt[k], t, fl)]
        slt = float(ocb_time.glon2slt(g[1], t))
        if not bnd.same(rl[k], g[0]) or abs(math.remainder(
                rt[k] - slt, 24.)) > 1e-7:
            return 'geographic (%r, %r), expected (%r, %r)' % (
                rl[k], rt[k], g[0], slt)
    return None
