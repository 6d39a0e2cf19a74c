"""Concrete contract of expressing vectors relative to boundaries."""
import math

import numpy as np

import bnd
from ocbpy import ocb_scaling, ocb_time

bnd.fake()
RULE = ('random boundaries of every class and vectors, one or several data '
        'with one or several boundary records, magnetic, geodetic and '
        'geocentric locations and vectors; non-trivial: index of the '
        'boundary object elsewhere, several records, locations without '
        'boundary coordinates, scaling functions, given boundary locations')
NAN = float('nan')
FN = {'none': None, 'evar': ocb_scaling.normal_evar,
      'curl': ocb_scaling.normal_curl_evar}
COORD = [('magnetic', 'magnetic')] * 5 + [
    ('geodetic', 'magnetic'), ('geocentric', 'magnetic'),
    ('geodetic', 'geodetic'), ('geocentric', 'geocentric'),
    ('magnetic', 'geodetic'), ('magnetic', 'geocentric')]


def vec(rng):
    return [rng.choice([0., 1., -2., 30.]) if rng.random() < .4 else
            rng.uniform(-50, 50) for _ in range(3)]


def cases(rng, tier, hints):
    k = 0
    while True:
        k += 1
        kind = rng.choice(['OCBoundary', 'EABoundary', 'Dual'])
        if kind == 'Dual':
            d = bnd.paired(rng)
            h = d['ocb']['hemi']
            n = sum(1 for _ in d['ocb']['r'])
        else:
            d = bnd.spec(rng, cls=kind)
            h = d['hemi']
            n = len(d['r'])
        m = rng.choice([1, 2, 3, 5])
        lc, vc = rng.choice(COORD)
        lat = [h * rng.uniform(55, 89) if rng.random() < .85 else
               rng.choice([NAN, -70. * h, 74. * h, 88. * h])
               for _ in range(m)]
        mlt = [rng.choice([0., 6., 12., 18., 5.5]) if rng.random() < .2 else
               rng.uniform(0, 24) for _ in range(m)]
        yield {'kind': kind, 'b': d, 'lat': lat, 'mlt': mlt,
               'loc': lc, 'vec': vc, 'v': [vec(rng) for _ in range(m)],
               'h': [rng.choice([0., 350., 850.]) for _ in range(m)],
               'ind': [rng.randrange(n) for _ in range(m)],
               'shape': rng.choice(['ss', 'as', 'as', 'sa', 'aa', 'aa']),
               'fn': rng.choice(['none', 'evar', 'curl']),
               'at': rng.choice(['set', 'init']),
               'rec': rng.choice([-1, -1, 0, n - 1]),
               'trace': rng.choice([None, 'ALLOWTRACE', 'TRACE']),
               'given': rng.random() < .1}


def polar_angle(la, lt, pla, plt):
    """Angle from the direction of the pole to that of the other pole,
    positive towards larger local times; None if not well defined."""
    if any(x != x for x in (la, lt, pla, plt)):
        return NAN
    s = 1. if pla >= 0 else -1.
    a, b = math.radians(s * la), math.radians(s * pla)
    dl = math.radians(math.remainder(plt - lt, 24.) * 15.)
    n = math.cos(a) * math.sin(b) - math.sin(a) * math.cos(b) * math.cos(dl)
    e = math.cos(b) * math.sin(dl)
    if math.hypot(n, e) < 1e-6 or math.cos(a) < 1e-6:
        return None
    return math.atan2(e, n)


def turn(v, p):
    n, e, z = v
    return (n * math.cos(p) + e * math.sin(p),
            e * math.cos(p) - n * math.sin(p), z)


def flags(c, coord, how):
    tr = c['trace'] or 'ALLOWTRACE'
    return tr + '|' + how + ('|GEOCENTRIC' if coord == 'geocentric' else '')


def expected(c, k, i, o, signed=True):
    """What datum k is with boundary record i: location, vector, radii."""
    dual = c['kind'] == 'Dual'
    d = c['b']['ocb'] if dual else c['b']
    j = int(o.ocb_ind[i]) if dual else i
    t = o.dtime[i]
    h = d['hemi']
    la, lt, hg = c['lat'][k], c['mlt'][k], c['h'][k]
    v = c['v'][k]
    if la != la or lt != lt:
        return None
    ga, gl = la, lt
    if c['loc'] != 'magnetic':
        lon = float(ocb_time.slt2glon(lt, t))
        a, _, b = bnd.f_coord(la, lon, hg, t, flags(c, c['loc'], 'G2A'))
        la, lt = float(a[0]), float(b[0])
    elif c['vec'] != 'magnetic':
        lon = bnd.f_mlt(lt, t, m2a=True)[0]
        a, b, _ = bnd.f_convert(la, lon, hg, t, flags(c, c['vec'], 'A2G'))
        ga, gl = float(a[0]), float(ocb_time.glon2slt(b[0], t))
    if c['vec'] != 'magnetic':
        a, b, _ = bnd.f_convert(90. * h, 0., hg, t, flags(c, c['vec'],
                                                          'A2G'))
        p = polar_angle(ga, gl, float(a[0]),
                        float(ocb_time.glon2slt(b[0], t)))
        if p is None:
            return None
        v = turn(v, p)
    w = bnd.position(d, la, lt, j)
    if w is None:
        return {'lat': la, 'mlt': lt, 'pos': None, 'mag': v}
    if c['given']:
        w = (w[0], w[1], .5)
    pole = (90. - d['rc'][j]) * (h if signed else 1)
    p = polar_angle(la, lt, pole, d['phi'][j] / 15.)
    un, sc = d['r'][j] + w[2], 90. - d['blat']
    out = {'lat': la, 'mlt': lt, 'pos': w, 'mag': v, 'un': un, 'sc': sc,
           'p': p, 'pole': pole}
    if p is not None:
        q = turn(v, p)
        f = {'none': 1., 'evar': un / sc, 'curl': (un / sc) ** 2}[c['fn']]
        out['v'] = [x * f for x in q]
    return out


def check(c):
    dual = c['kind'] == 'Dual'
    o = bnd.build_dual(c['b']) if dual else bnd.build(c['b'])
    if dual:
        c['ind'] = [i % o.records for i in c['ind']]
        c['rec'] = min(c['rec'], o.records - 1)
    o.rec_ind = c['rec']
    for k in ('lat', 'mlt'):
        c[k] = [NAN if x is None else x for x in c[k]]
    m = len(c['lat'])
    s = c['shape']
    nd = m if s[0] == 'a' else 1
    no = m if s[1] == 'a' else 1
    n = max(nd, no)
    sh = () if s == 'ss' else (n,)
    if s == 'sa':
        for k in ('lat', 'mlt', 'v', 'h'):
            c[k] = [c[k][0]] * m
    if s[1] == 's':
        c['ind'] = [c['ind'][0]] * m
    if c['given'] and (c['loc'] != 'magnetic' or c['vec'] != 'magnetic'):
        c['given'] = False

    def arg(x, array):
        return np.array(x[:nd]) if array == 'a' else x[0]
    exp = [expected(c, k, c['ind'][k], o) for k in range(n)]
    ok = [e is not None and e['pos'] is not None for e in exp]
    kw = {}
    if c['given']:
        if not all(ok):
            return None
        pos = [e['pos'] for e in exp]
        d = c['b']['ocb'] if dual else c['b']
        g = [[d['hemi'] * (90. - math.hypot(*w[:2])) for w in pos],
             [math.degrees(math.atan2(w[1], w[0])) / 15. % 24 for w in pos],
             [.5] * n]
        for k, x in zip(('ocb_lat', 'ocb_mlt', 'r_corr'), g):
            kw[k] = np.array(x) if sh else x[0]
    if c['at'] == 'init':
        kw['scale_func'] = FN[c['fn']]
    comp = [[v[z] for v in c['v']] for z in range(3)]
    args = {'lat': arg(c['lat'], s[0]), 'lt': arg(c['mlt'], s[0]),
            'vect_n': arg(comp[0], s[0]), 'vect_e': arg(comp[1], s[0]),
            'vect_z': arg(comp[2], s[0]), 'height': arg(c['h'], s[0])}
    keep = {k: np.array(x, copy=True) for k, x in args.items()}
    vd = ocb_scaling.VectorData(
        np.arange(nd) if s[0] == 'a' else 0,
        np.array(c['ind']) if s[1] == 'a' else c['ind'][0],
        loc_coord=c['loc'], vect_coord=c['vec'], **args, **kw)
    st = [bnd.rest(o)[:2] if dual else bnd.state(o)]
    kw = {} if c['trace'] is None else {'trace_method': c['trace']}
    if c['at'] == 'set':
        kw['scale_func'] = FN[c['fn']]
    vd.set_ocb(o, **kw)
    for k, x in args.items():
        if not np.array_equal(np.array(x, float), keep[k], equal_nan=True):
            return 'the %s of the caller was altered' % k
    if not any(ok):
        for a in ('ocb_n', 'ocb_e', 'ocb_z', 'ocb_mag'):
            if not np.all(np.isnan(getattr(vd, a))):
                return 'a vector without boundary location'
        return None
    got = {}
    if dual and np.all(np.isnan(vd.ocb_lat)):
        if np.any([np.any(~np.isnan(getattr(vd, a))) for a in (
                'ocb_n', 'ocb_e', 'ocb_z')]):
            return 'a vector without boundary location'
        return None
    for a in ('ocb_lat', 'ocb_mlt', 'ocb_n', 'ocb_e', 'ocb_z', 'ocb_mag',
              'vect_n', 'vect_e', 'vect_z', 'vect_mag', 'lat', 'lt',
              'unscaled_r', 'scaled_r', 'pole_angle', 'ocb_aacgm_mlt',
              'ocb_aacgm_lat', 'r_corr'):
        x = np.asarray(getattr(vd, a), float)
        single = c['loc'] != 'magnetic' or c['vec'] != 'magnetic'
        if x.shape not in ((), (n,)) or (
                not sh and x.shape and not single) or (
                x.shape == () and sh and a.startswith('ocb_') and
                not a.startswith('ocb_aacgm')):
            return 'shape %r of %s' % (x.shape, a)
        got[a] = np.broadcast_to(x, (n,))
    if vd.loc_coord != 'magnetic' or vd.vect_coord != 'magnetic':
        return 'coordinates %r and %r' % (vd.loc_coord, vd.vect_coord)
    d = c['b']['ocb'] if dual else c['b']
    h = d['hemi']
    known = None
    for k in range(n):
        e = exp[k]
        g = {a: float(x[k]) for a, x in got.items()}
        if e is None:
            if any(g[a] == g[a] and (g[a] != 0 or a == 'ocb_lat')
                   for a in ('ocb_lat', 'ocb_n', 'ocb_e')):
                return 'values for an undefined location'
            continue
        tol = 1e-6 * (1 + sum(abs(x) for x in e['mag']))
        if not bnd.same(g['lat'], e['lat']) or abs(math.remainder(
                g['lt'] - e['mlt'], 24.)) > 1e-7:
            return 'location %r' % ((g['lat'], g['lt']),)
        for a, x in zip(('vect_n', 'vect_e', 'vect_z'), e['mag']):
            if not abs(g[a] - x) <= tol and h * e['lat'] > 0:
                return 'magnetic component %s %r, expected %r' % (
                    a, g[a], x)
        if h * e['lat'] > 0 and abs(g['vect_mag'] - math.hypot(*e['mag'])) > tol:
            return 'magnitude %r' % g['vect_mag']
        if e['pos'] is None:
            if any(g[a] == g[a] and (g[a] != 0 or any(e['mag'][:2])
                                     or a in ('ocb_lat', 'pole_angle'))
                   for a in ('ocb_lat', 'ocb_n', 'ocb_e', 'pole_angle')):
                return 'values for a location without boundary'
            continue
        if not (dual or c['given']) and not bnd.at(e['pos'][0], e['pos'][1], h,
                                   g['ocb_lat'], g['ocb_mlt']):
            return 'boundary location (%r, %r)' % (g['ocb_lat'],
                                                   g['ocb_mlt'])
        if dual and g['ocb_lat'] != g['ocb_lat']:
            continue
        for a, x in (('r_corr', e['pos'][2]), ('unscaled_r', e['un']),
                     ('scaled_r', e['sc'])):
            if not bnd.same(g[a], x):
                return '%s %r, expected %r' % (a, g[a], x)
        j = c['ind'][k]
        j = int(o.ocb_ind[j]) if dual else j
        if e['p'] is None or abs(math.sin(math.radians(
                d['phi'][j] - 15. * e['mlt']))) < 1e-6:
            # on the meridian of the pole, which is another property
            continue
        r = rotated(c, e, g, tol)
        if r and h < 0:
            w = expected(c, k, c['ind'][k], o, signed=False)
            if w['p'] is None or not rotated(c, w, g, tol):
                known = ('southern-pole', r)
                continue
        if r:
            return r
    return known


def rotated(c, e, g, tol):
    if any(e['mag'][:2]) and not bnd.same(g['pole_angle'], math.degrees(abs(e['p'])), 1e-4):
        return 'pole angle %r, expected %r' % (
            g['pole_angle'], math.degrees(abs(e['p'])))
    tol = tol * 10 * max(1., (e['un'] / e['sc']) ** 2)
    for a, x in zip(('ocb_n', 'ocb_e', 'ocb_z'), e['v']):
        if not abs(g[a] - x) <= tol:
            return '%s %r, expected %r' % (a, g[a], x)
    if not abs(g['ocb_mag'] - math.hypot(*e['v'])) <= tol:
        return 'magnitude %r' % g['ocb_mag']
    return None
