"""Concrete contract of coordinates relative to a boundary."""
import datetime as dt

import numpy as np

import bnd
from ocbpy import ocb_time

RULE = ('random boundaries (both classes and hemispheres, every kind of '
        'radius correction) and locations; non-trivial: locations of both '
        'hemispheres, NaN, poles and equator, wrapped local times, index '
        'outside of the records, geographic input with trace flags and '
        'heights, scalars, lists, integers and arrays')


bnd.fake()


def cases(rng, tier, hints):
    k = 0
    while True:
        k += 1
        d = bnd.spec(rng)
        n = rng.choice([1, 2, 3, 6])
        lat, mlt = bnd.locs(rng, n, d['hemi'])
        co = 'magnetic'
        if k % 3 == 0:
            co = rng.choice(['geodetic', 'geocentric', 'Geocentric'])
        if k % 11 == 0:
            d['rec'] = rng.choice([-1, len(d['r']), len(d['r']) + 3, -5])
        if rng.random() < .1:
            lat = [-abs(x) * d['hemi'] for x in lat]
        yield {'b': d, 'lat': lat, 'mlt': mlt, 'co': co,
               'h': [rng.choice([0., 100., 350., 850., 1800.])
                     for _ in range(n)],
               'method': rng.choice(['ALLOWTRACE', 'TRACE']),
               'mode': rng.choice(['array', 'array', 'scalar', 'list',
                                   '0d', 'int', 'mix', 'hscalar']),
               'kw': rng.random() < .7}


def check(c):
    d = c['b']
    o = bnd.build(d)
    m = c['mode']
    lat, mlt, hgt = [[float('nan') if x is None else x for x in c[k]]
                     for k in ('lat', 'mlt', 'h')]
    if m == 'scalar' or m == '0d':
        lat, mlt, hgt = lat[:1], mlt[:1], hgt[:1]
    if m == 'mix':
        mlt = [mlt[0]] * len(lat)
    if m == 'hscalar' or m == 'mix':
        hgt = [hgt[0]] * len(lat)
    if m == 'int':
        lat, mlt = [bnd.shaped(v, m).tolist() for v in (lat, mlt)]
    args = [bnd.shaped(lat, m), bnd.shaped(mlt, 'scalar' if m == 'mix'
                                           else m)]
    ha = bnd.shaped(hgt, 'scalar' if m in ('hscalar', 'mix', 'scalar', '0d')
                    else 'array')
    kw = {}
    if c['co'] != 'magnetic':
        kw = {'coords': c['co'], 'height': ha, 'method': c['method']}
    elif c['kw']:
        kw = {'coords': 'magnetic'}
    args = args + [ha]
    keep = [np.array(x, copy=True) for x in args]
    st = bnd.state(o)
    r = o.normal_coord(args[0], args[1], **kw)
    for x, y in zip(args, keep):
        if not np.array_equal(np.array(x, float), np.array(y, float),
                              equal_nan=True):
            return 'an input was modified'
    if bnd.state(o) != st:
        return 'the boundary object was modified'
    if not isinstance(r, tuple) or len(r) != 3:
        return 'results %r' % (r,)
    n = len(lat)
    sh = () if m in ('scalar', '0d') else (n,)
    for k in (0, 1):
        if np.shape(r[k]) != sh and (c['co'] == 'magnetic' or sh
                                     or np.shape(r[k]) != (1,)):
            return 'shape %r of result %d, expected %r' % (
                np.shape(r[k]), k, sh)
    la, lt = np.ravel(r[0]), np.ravel(r[1])
    rc = np.ravel(r[2] + np.zeros(sh))
    if not 0 <= d['rec'] < len(d['r']):
        if np.all(np.isnan(la)) and np.all(np.isnan(lt)) and np.all(
                np.isnan(rc)):
            return None
        return 'a location without boundary'
    i = d['rec']
    for k in range(n):
        u, v = float(lat[k]), float(mlt[k])
        if c['co'] != 'magnetic':
            if u != u or v != v:
                continue
            t = bnd.T0 + dt.timedelta(seconds=d['sec'][i])
            fl = c['method'] + ('|GEOCENTRIC' if c['co'].lower()
                                == 'geocentric' else '')
            lon = float(ocb_time.slt2glon(v, t))
            u, _, v = [float(x[0]) for x in bnd.f_coord(u, lon, hgt[k], t,
                                                     fl)]
        w = bnd.position(d, u, v)
        if w is None:
            if la[k] == la[k]:
                return 'latitude %r of (%r, %r)' % (la[k], u, v)
            if v == v and lt[k] == lt[k]:
                return 'local time %r of (%r, %r)' % (lt[k], u, v)
            continue
        if not bnd.at(w[0], w[1], d['hemi'], la[k], lt[k]):
            return ('location (%r, %r) -> (%r, %r), expected the point %r '
                    'relative to the centre' % (u, v, la[k], lt[k], w[:2]))
        if not bnd.same(rc[k], w[2]):
            return 'radius correction %r, expected %r' % (rc[k], w[2])
    return None
