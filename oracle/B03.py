"""Concrete contract of the magnetic latitude of a boundary."""
import datetime as dt
import math

import numpy as np

import bnd

bnd.fake()
RULE = ('histories of up to three calls on random boundaries with different '
        'local times, record selections, overwrite and longitude flags; '
        'non-trivial: undefined or centre-less boundaries, negative radii, '
        'NaN and wrapped local times, scalars, lists, integers, arrays')


def cases(rng, tier, hints):
    while True:
        n = rng.choice([0, 1, 2, 3, 5])
        d = bnd.spec(rng, n=max(n, 1))
        for x in ('phi', 'rc', 'r', 'fom', 'rf', 'sec'):
            d[x] = d[x][:n]
        if rng.random() < .3:
            d['rc'] = [rng.choice([20., 30., 12., 0.]) for _ in range(n)]
        calls = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice([1, 2, 4])
            calls.append({
                'mlt': bnd.locs(rng, k, 1)[1],
                'mode': rng.choice(['array', 'array', 'scalar', 'list',
                                    '0d', 'int']),
                'rec': None if not n or rng.random() < .5 else
                rng.choice([rng.randrange(n), [rng.randrange(n) for _ in
                                               range(rng.choice([1, 2]))]]),
                'over': rng.random() < .4, 'lon': rng.random() < .6})
        yield {'b': d, 'calls': calls}


def check(c):
    d = c['b']
    d['rec'] = 0
    o = bnd.build(d)
    n = len(d['r'])
    lat, mlts, lon = [None] * n, [None] * n, [None] * n
    stale = set()
    st = bnd.state(o)
    for k in c['calls']:
        vals = [float('nan') if x is None else x for x in k['mlt']]
        m = k['mode']
        if m in ('scalar', '0d'):
            vals = vals[:1]
        if m == 'int':
            vals = [0 if x != x else int(round(x)) for x in vals]
        arg = bnd.shaped(vals, m)
        keep = np.array(arg, dtype=float, copy=True)
        o.get_aacgm_boundary_lat(arg, rec_ind=k['rec'], overwrite=k['over'],
                                 set_lon=k['lon'])
        if not np.array_equal(np.array(arg, float), keep, equal_nan=True):
            return 'the local times were modified'
        sel = range(n) if k['rec'] is None else np.ravel(k['rec'])
        for i in sel:
            if lat[i] is None or k['over']:
                lat[i] = vals
                mlts[i] = (vals, () if m in ('scalar', '0d')
                           else (len(vals),))
                stale.discard(i)
                if k['lon']:
                    lon[i] = vals
                else:
                    stale.add(i)
        for a in ('lat', 'mlt'):
            if len(getattr(o, 'aacgm_boundary_' + a)) != n:
                return 'length of aacgm_boundary_' + a
        for i in range(n):
            gl, gm = o.aacgm_boundary_lat[i], o.aacgm_boundary_mlt[i]
            if lat[i] is None:
                if gl is not None or gm is not None:
                    return 'record %d was not asked for' % i
                continue
            if gl is None or gm is None:
                return 'record %d is not filled' % i
            vs, sh = mlts[i]
            if np.shape(gl) != sh or np.shape(gm) != sh:
                return 'shapes %r, %r, expected %r' % (
                    np.shape(gl), np.shape(gm), sh)
            gl, gm = np.ravel(gl), np.ravel(gm)
            for j, v in enumerate(vs):
                if v != v:
                    if gl[j] == gl[j] or gm[j] == gm[j]:
                        return 'values at an undefined local time'
                    continue
                if not 0 <= gm[j] < 24 or abs(math.remainder(
                        gm[j] - v, 24.)) > 1e-9:
                    return 'local time %r of %r' % (gm[j], v)
                w = bnd.edge(d, v, i)
                if w is not None and not bnd.same(gl[j], w):
                    return 'record %d: latitude %r at %r h, expected %r' % (
                        i, gl[j], v, w)
            if lon[i] is not None and i not in stale:
                gn = np.ravel(o.aacgm_boundary_lon[i])
                t = bnd.T0 + dt.timedelta(seconds=d['sec'][i])
                want = np.ravel(bnd.f_mlt(np.array(vs, float) % 24., t,
                                          m2a=True))
                for x, y in zip(gn, want):
                    if not (x != x and y != y) and not abs(math.remainder(
                            x - y, 360.)) < 1e-7:
                        return 'longitude %r, expected %r' % (x, y)
                if len(gn) != len(want):
                    return 'number of longitudes'
    for x in ('lat', 'mlt', 'lon'):
        o.__dict__.pop('aacgm_boundary_' + x, None)
    if bnd.state(o) != st:
        return 'more than the boundary locations changed'
    return None
