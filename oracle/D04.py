"""Concrete contract of leaving coordinates relative to two boundaries."""
import math

import numpy as np

import bnd
import D03
from ocbpy import ocb_time

bnd.fake()
RULE = ('random pairs of boundaries and locations in dual-boundary '
        'coordinates; round trips and direct conversions; non-trivial: '
        'locations in all three regions at once, geographic output with '
        'heights and trace flags, crossing boundaries, kept boundary '
        'locations, mixtures of scalars and arrays')


def cases(rng, tier, hints):
    for c in D03.cases(rng, tier, hints):
        h = c['b']['ocb']['hemi']
        if c['rec'] < 0 or c['rec'] > 2:
            c['rec'] = 0
        c['fn'] = rng.choice(['revert', 'revert', 'trip'])
        if c['fn'] == 'revert':
            c['lat'] = [h * rng.uniform(40, 90) for _ in c['lat']]
            c['mlt'] = [rng.uniform(-24, 48) for _ in c['lat']]
            if rng.random() < .2:
                c['lat'] = [h * rng.uniform(81, 90) for _ in c['lat']]
        c['rc'] = [rng.choice([0., 1., -2., 3.5]) for _ in c['lat']]
        c['am'] = [rng.choice([0., 24., 6., -3.]) if rng.random() < .2
                   else rng.uniform(0, 24) for _ in c['lat']]
        c['amode'] = rng.choice(['array', 'array', 'scalar'])
        c['is_ocb'] = rng.random() < .15
        yield c


def geo(o, c, la, m, h):
    """Geographic location of a magnetic one."""
    t = o.dtime[c['rec']]
    fl = c['method'] + '|A2G' + ('|GEOCENTRIC' if c['co'].lower()
                                 == 'geocentric' else '')
    lon = bnd.f_mlt(m, t, m2a=True)[0]
    g = [float(v[0]) for v in bnd.f_convert(la, lon, h, t, fl)]
    return g[0], float(ocb_time.glon2slt(g[1], t))


def check(c):
    b = c['b']
    o = bnd.build_dual(b)
    if c['rec'] >= o.records:
        c['rec'] = 0
    D03.preset(o, c)
    o.rec_ind = c['rec']
    lat, mlt, hgt, args = D03.inputs(c)
    m = c['mode']
    n = len(lat)
    sh = () if m in ('scalar', '0d') else (n,)
    io, ie = int(o.ocb_ind[c['rec']]), int(o.eab_ind[c['rec']])
    do, de = b['ocb'], b['eab']
    h = do['hemi']
    if c['fn'] == 'trip':
        r = o.normal_coord(args[0], args[1])
        q = o.revert_coord(r[0], r[1], r_corr=r[3], is_ocb=False,
                           aacgm_mlt=args[1])
        rl, rt = np.ravel(q[0]), np.ravel(q[1])
        bl, ol = np.ravel(r[0]), np.ravel(r[2])
        for k in range(n):
            if not bl[k] * h > 1e-9 or not ol[k] * h > 1e-9:
                continue
            eo, ee = bnd.edge(do, mlt[k], io), bnd.edge(de, mlt[k], ie)
            if eo is None or ee is None or eo != eo or ee != ee or \
                    eo * h < ee * h or ee * h < 1e-3 or eo * h < 1e-3:
                continue
            if min(abs(lat[k] - eo), abs(lat[k] - ee)) < 1e-7:
                continue
            x = math.radians(15. * mlt[k])
            p = 90. - h * lat[k]
            if not bnd.at(p * math.cos(x), p * math.sin(x), h, rl[k],
                          rt[k] % 24.):
                return 'location (%r, %r) comes back as (%r, %r)' % (
                    lat[k], mlt[k], rl[k], rt[k])
        return None
    rc = c['rc'][:n] if m not in ('mix', 'hscalar') else [c['rc'][0]] * n
    am = c['am'][:n] if c['amode'] == 'array' and sh else [c['am'][0]] * n
    ra = np.array(rc) if m not in ('mix', 'hscalar', 'scalar', '0d') else \
        rc[0]
    aa = np.array(am) if c['amode'] == 'array' and sh else am[0]
    args += [ra, aa]
    kw = {'is_ocb': c['is_ocb'], 'aacgm_mlt': aa, 'r_corr': ra}
    if c['co'] != 'magnetic':
        kw.update(coords=c['co'], height=args[2], method=c['method'])
    if c['over'] is not None:
        kw['overwrite'] = c['over']
    keep = [np.array(x, float, copy=True) for x in args]
    st, was = bnd.rest(o), bnd.bounds_of(o)
    r = o.revert_coord(args[0], args[1], **kw)
    for x, y in zip(args, keep):
        if not np.array_equal(np.array(x, float), y, equal_nan=True):
            return 'an input was modified'
    if bnd.rest(o) != st:
        return 'the boundary object was modified'
    if not isinstance(r, tuple) or len(r) != 2:
        return 'results %r' % (r,)
    for x in r:
        if np.shape(x) != sh:
            return 'shape %r, expected %r' % (np.shape(x), sh)
    rl, rt = [np.ravel(x) for x in r]
    used = not c['is_ocb'] and any(abs(x) < do['blat'] for x in lat)
    edges = [[], []]
    for k in range(n):
        eo, ee = bnd.edge(do, am[k], io), bnd.edge(de, am[k], ie)
        edges[0].append(eo)
        edges[1].append(ee)
        u, v = lat[k] * h, mlt[k]
        if u != u or v != v:
            continue
        if u <= 0:
            continue
        if c['is_ocb'] or u >= do['blat']:
            x, y = bnd.back(do, lat[k], v, rc[k], io)
            if c['co'] == 'magnetic':
                if not bnd.at(x, y, h, rl[k], rt[k]):
                    return '(%r, %r) in the polar cap gives (%r, %r)' % (
                        lat[k], v, rl[k], rt[k])
                continue
            if math.hypot(x, y) < 1e-6:
                continue
            la = h * (90. - math.hypot(x, y))
            ml = math.degrees(math.atan2(y, x)) / 15. % 24.
        else:
            if eo is None or ee is None:
                continue
            eo, ee = h * eo, h * ee
            if u >= de['blat']:
                la = eo - (do['blat'] - u) * (eo - ee) / (
                    do['blat'] - de['blat'])
            else:
                la = ee * u / de['blat']
            la, ml = h * la, am[k]
        if c['co'] != 'magnetic':
            la, ml = geo(o, c, la, ml, hgt[k])
        if not bnd.same(rl[k], la) or (la == la and abs(math.remainder(
                rt[k] - ml, 24.)) > 1e-7):
            return '(%r, %r) gives (%r, %r), expected (%r, %r)' % (
                lat[k], v, rl[k], rt[k], la, ml)
    return bnd.bounds_after(c, o, was, None, edges, bool(c['over']), used)
