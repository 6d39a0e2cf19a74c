"""Concrete contract of the radii used to scale dual-boundary data."""
import numpy as np

import bnd
import D03

bnd.fake()
RULE = ('random pairs of boundaries and locations in dual-boundary '
        'coordinates; non-trivial: all three regions at once, their limits, '
        'NaN, crossing and undefined boundaries, pair index outside, kept '
        'boundary locations, mixtures of scalars and arrays')


def cases(rng, tier, hints):
    for c in D03.cases(rng, tier, hints):
        d = c['b']
        h = d['ocb']['hemi']
        c['lat'] = [rng.choice([d['ocb']['blat'], d['eab']['blat'], 90.,
                                float('nan')]) * h if rng.random() < .3 else
                    h * rng.uniform(40, 90) for _ in c['lat']]
        c['rc'] = [rng.choice([0., 1., -2., 3.5]) for _ in c['lat']]
        c['am'] = [rng.choice([0., 24., 6., -3.]) if rng.random() < .2
                   else rng.uniform(0, 24) for _ in c['lat']]
        c['mode'] = rng.choice(['array', 'array', 'scalar', 'list', '0d',
                                'rcscalar'])
        yield c


def check(c):
    b = c['b']
    o = bnd.build_dual(b)
    D03.preset(o, c)
    o.rec_ind = c['rec']
    m = c['mode']
    rows = [[float('nan') if x is None else x for x in c[k]]
            for k in ('lat', 'mlt', 'am', 'rc')]
    if m in ('scalar', '0d'):
        rows = [x[:1] for x in rows]
    if m == 'rcscalar':
        rows[3] = [rows[3][0]] * len(rows[0])
    n = len(rows[0])
    sh = () if m in ('scalar', '0d') else (n,)
    args = [bnd.shaped(x, 'scalar' if m == 'rcscalar' and k == 3 else m)
            for k, x in enumerate(rows)]
    keep = [np.array(x, float, copy=True) for x in args]
    st, was = bnd.rest(o), bnd.bounds_of(o)
    kw = {} if c['over'] is None else {'overwrite': c['over']}
    r = o.calc_r(*args, **kw)
    for x, y in zip(args, keep):
        if not np.array_equal(np.array(x, float), y, equal_nan=True):
            return 'an input was modified'
    if bnd.rest(o) != st:
        return 'the boundary object was modified'
    if not isinstance(r, tuple) or len(r) != 2:
        return 'results %r' % (r,)
    for x in r:
        if np.shape(x) != sh and (sh or 0 <= c['rec'] < o.records):
            return 'shape %r, expected %r' % (np.shape(x), sh)
    sc, un = [np.ravel(x) for x in r]
    do, de = b['ocb'], b['eab']
    h = do['hemi']
    if not 0 <= c['rec'] < o.records:
        if np.all(np.isnan(un)):
            return bnd.bounds_after(c, o, was, None, None, None, False)
        return 'a radius without boundary'
    io, ie = int(o.ocb_ind[c['rec']]), int(o.eab_ind[c['rec']])
    edges = [[], []]
    for k in range(n):
        lat, am, rc = rows[0][k] * h, rows[2][k], rows[3][k]
        eo, ee = bnd.edge(do, am, io), bnd.edge(de, am, ie)
        edges[0].append(eo)
        edges[1].append(ee)
        if eo is None or ee is None:
            continue
        eo, ee = eo * h, ee * h
        if eo < 0 or ee < 0:
            continue
        if lat < de['blat']:
            want = de['blat'], ee
        elif lat < do['blat']:
            want = do['blat'] - de['blat'], abs(eo - ee)
        else:
            want = 90. - do['blat'], do['r'][io] + rc
        if not bnd.same(sc[k], want[0]) or not bnd.same(un[k], want[1]):
            return 'latitude %r: radii %r and %r, expected %r' % (
                lat, sc[k], un[k], want)
    return bnd.bounds_after(c, o, was, None, edges, bool(c['over']), True)
