"""Concrete contract of coordinates relative to two boundaries."""
import numpy as np

import bnd
from ocbpy import ocb_time

bnd.fake()
RULE = ('random pairs of boundaries (both hemispheres, every kind of radius '
        'correction, also crossing or undefined ones) and locations; '
        'non-trivial: locations at each side of both boundaries, NaN, other '
        'hemisphere, wrapped local times, pair index outside, geographic '
        'input, kept boundary locations, mixtures of scalars and arrays')


def cases(rng, tier, hints):
    k = 0
    while True:
        k += 1
        d = bnd.paired(rng)
        n = rng.choice([1, 2, 3, 6])
        h = d['ocb']['hemi']
        lat, mlt = bnd.locs(rng, n, h)
        lat = [h * rng.uniform(50, 85) if rng.random() < .5 else x
               for x in lat]
        co = 'magnetic'
        if k % 3 == 0:
            co = rng.choice(['geodetic', 'geocentric', 'Geocentric'])
        yield {'b': d, 'lat': lat, 'mlt': mlt, 'co': co,
               'rec': rng.choice([0, 0, 0, 1, 2, -1, 9]),
               'h': [rng.choice([0., 100., 350., 850., 1800.])
                     for _ in range(n)],
               'method': rng.choice(['ALLOWTRACE', 'TRACE']),
               'mode': rng.choice(['array', 'array', 'scalar', 'list', '0d',
                                   'int', 'mix', 'hscalar']),
               'pre': rng.choice([None, None, 'ocb', 'eab', 'both', 'some']),
               'over': rng.choice([None, False, True])}


def preset(o, c):
    m = np.array([1.5, 7., 20.])
    for k in ('ocb', 'eab'):
        if c['pre'] in (k, 'both'):
            getattr(o, k).get_aacgm_boundary_lat(m, set_lon=False)
    if c['pre'] == 'some':
        o.ocb.get_aacgm_boundary_lat(m, rec_ind=0, set_lon=False)


def inputs(c):
    m = c['mode']
    lat, mlt, hgt = [[float('nan') if x is None else x for x in c[k]]
                     for k in ('lat', 'mlt', 'h')]
    if m in ('scalar', '0d'):
        lat, mlt, hgt = lat[:1], mlt[:1], hgt[:1]
    if m == 'mix':
        mlt = [mlt[0]] * len(lat)
    if m in ('hscalar', 'mix'):
        hgt = [hgt[0]] * len(lat)
    if m == 'int':
        lat, mlt = [bnd.shaped(v, m).tolist() for v in (lat, mlt)]
    args = [bnd.shaped(lat, m), bnd.shaped(mlt, 'scalar' if m == 'mix'
                                           else m),
            bnd.shaped(hgt, 'scalar' if m in ('hscalar', 'mix', 'scalar',
                                              '0d') else 'array')]
    return lat, mlt, hgt, args


def check(c):
    b = c['b']
    o = bnd.build_dual(b)
    preset(o, c)
    o.rec_ind = c['rec']
    m = c['mode']
    lat, mlt, hgt, args = inputs(c)
    n = len(lat)
    sh = () if m in ('scalar', '0d') else (n,)
    kw = {}
    if c['co'] != 'magnetic':
        kw = {'coords': c['co'], 'height': args[2], 'method': c['method']}
    if c['over'] is not None:
        kw['overwrite'] = c['over']
    keep = [np.array(x, float, copy=True) for x in args]
    st, was = bnd.rest(o), bnd.bounds_of(o)
    r = o.normal_coord(args[0], args[1], **kw)
    for x, y in zip(args, keep):
        if not np.array_equal(np.array(x, float), y, equal_nan=True):
            return 'an input was modified'
    if bnd.rest(o) != st:
        return 'the boundary object was modified'
    if not isinstance(r, tuple) or len(r) != 4:
        return 'results %r' % (r,)
    for x in r:
        if np.shape(x) != sh:
            return 'shape %r, expected %r' % (np.shape(x), sh)
    r = [np.ravel(x) for x in r]
    if not 0 <= c['rec'] < o.records:
        if all(np.all(np.isnan(x)) for x in r):
            return bnd.bounds_after(c, o, was, None, None, None, False)
        return 'a location without boundary'
    io, ie = int(o.ocb_ind[c['rec']]), int(o.eab_ind[c['rec']])
    if io != o.ocb.rec_ind or ie != o.eab.rec_ind:
        return 'boundaries out of step'
    do, de = b['ocb'], b['eab']
    h = do['hemi']
    t = o.dtime[c['rec']]
    edges = [[], []]
    for k in range(n):
        u, v = float(lat[k]), float(mlt[k])
        if c['co'] != 'magnetic':
            if u != u or v != v:
                edges[0].append(None)
                edges[1].append(None)
                continue
            fl = c['method'] + ('|GEOCENTRIC' if c['co'].lower()
                                == 'geocentric' else '')
            lon = float(ocb_time.slt2glon(v, t))
            u, _, v = [float(x[0]) for x in bnd.f_coord(u, lon, hgt[k], t,
                                                        fl)]
        eo, ee = bnd.edge(do, v, io), bnd.edge(de, v, ie)
        edges[0].append(eo)
        edges[1].append(ee)
        w = bnd.position(do, u, v, io)
        if w is None:
            if any(r[z][k] == r[z][k] for z in (0, 2)):
                return 'latitudes %r, %r of (%r, %r)' % (
                    r[0][k], r[2][k], u, v)
            continue
        if not bnd.at(w[0], w[1], h, r[2][k], r[1][k]) or not bnd.same(
                r[3][k], w[2]):
            return 'location (%r, %r): polar cap result %r' % (
                u, v, [x[k] for x in r])
        if eo is None or ee is None:
            continue
        a, eo, ee = abs(u), h * eo, h * ee
        if eo < 0 or ee < 0 or abs(a - eo) < 1e-7 or abs(a - ee) < 1e-7:
            continue
        oc = h * r[2][k]
        if a < ee:
            want = de['blat'] * a / ee
        elif ee <= a < eo:
            want = do['blat'] - (eo - a) * (do['blat'] - de['blat']) / (
                eo - ee)
        elif abs(oc - do['blat']) < 1e-7 or oc < -do['blat'] + 1e-7:
            continue
        else:
            want = oc if oc > do['blat'] else float('nan')
        if not bnd.same(r[0][k], h * want):
            return ('location (%r, %r), boundaries at %r and %r: latitude '
                    '%r, expected %r' % (u, v, eo, ee, r[0][k], h * want))
    used = not np.all(np.isnan(r[2]))
    return bnd.bounds_after(c, o, was, None, edges, bool(c['over']), used)
