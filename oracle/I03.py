"""Concrete contract of adding boundary coordinates to pysat data."""
import copy
import datetime as dt
import math
import os

import numpy as np
import pandas as pds
import pysat
import xarray as xr

import bnd
import I01
import S02

bnd.fake()
RULE = ('random pysat Instruments with pandas and xarray data (one and two '
        'dimensional) and boundaries of every class in both hemispheres; '
        'non-trivial: undefined data, data of the other hemisphere, data '
        'without a boundary close in time, low quality boundaries, several '
        'vectors, heights, geographic coordinates, boundaries from files')
NAN = float('nan')
pysat.params['data_dirs'] = os.environ.get('PV_SCRATCH', os.path.expanduser(
    '~'))
from ocbpy.instruments import pysat_instruments as pi  # noqa: E402


def cases(rng, tier, hints):
    while True:
        kind, d, h = I01.bound(rng)
        form = rng.choice(['pandas', 'pandas', 'pandas', 'x1', 'x2', 'x22'])
        w = 1 if form in ('pandas', 'x1') else rng.choice([1, 2, 3])
        t = I01.times(rng, d)
        loc, vec = rng.choice(S02.COORD)
        other = rng.random() < .2
        ev = ['ev'] if rng.random() < .6 else []
        cv = ['cv'] if rng.random() < .4 else []
        vecs = {}
        if rng.random() < .6:
            for k in rng.sample(['vel', 'dat', 'mag'], rng.choice([1, 2])):
                vecs[k] = {'fn': rng.choice(['evar', 'curl', 'none', 'own']),
                           'z': rng.random() < .5}

        def lats():
            hh = -h if other and rng.random() < .5 else h
            return NAN if rng.random() < .06 else hh * rng.uniform(50, 89.5)

        def table(f, cols=w):
            return [[f() for _ in range(cols)] for _ in t]
        one = w if form != 'x2' else 1
        dat = {'mlat': table(lats, one),
               'mlt': table(lambda: rng.uniform(0, 24), one),
               'alt': table(lambda: rng.choice([0., 350., 850.]), one)}
        for k in ('ev', 'cv'):
            dat[k] = table(lambda: NAN if rng.random() < .05 else
                           rng.uniform(-50, 50))
        for k in vecs:
            for a in 'nez':
                dat[k + '_' + a] = table(lambda: rng.uniform(-50, 50))
        yield {'kind': kind, 'b': d, 'lim': I01.limits(rng, kind),
               'form': form, 't': t, 'w': w, 'dat': dat, 'ev': ev, 'cv': cv,
               'vecs': vecs, 'loc': loc, 'vec': vec,
               'tol': rng.choice([60, 60, 30, 600]),
               'hemi': rng.choice([0, 0, h]), 'h': h,
               'alt': rng.choice(['name', 'default', 'value', 'values'])
               if form == 'pandas' else rng.choice(['name', 'default',
                                                    'value']),
               'file': rng.random() < .2}


def check(c):
    return I01.scratch(look, c)


def instrument(c):
    i = pysat.Instrument()
    t = pds.DatetimeIndex([bnd.T0 + dt.timedelta(seconds=s) for s in c['t']],
                          name='time')
    if c['form'] == 'pandas':
        i.data = pds.DataFrame({k: [r[0] for r in x] for k, x in
                                c['dat'].items()}, index=t)
        return i
    i.pandas_format = False
    out = {}
    for k, x in c['dat'].items():
        flat = c['form'] == 'x1' or (c['form'] == 'x2' and
                                     k in ('mlat', 'mlt', 'alt'))
        out[k] = (('time',), np.array([r[0] for r in x])) if flat else (
            ('time', 'x'), np.array(x))
    co = {'time': t}
    if c['form'] not in ('x1',):
        co['x'] = [float(k) for k in range(c['w'])]
    i.data = xr.Dataset(out, coords=co)
    return i


def own(mag, un, sc):
    return mag * (1. + un / sc)


def look(c, d):
    c = copy.deepcopy(c)
    for k, x in c['dat'].items():
        c['dat'][k] = [[NAN if v is None else v for v in r] for r in x]
    dual = c['kind'] == 'Dual'
    i = instrument(c)
    opt = {}
    if c['file'] and c['kind'] == 'OCBoundary':
        opt = I01.from_file(c, d)
        os.rename(opt['ocbfile'], os.path.join(d, 'my_ocb_file'))
        opt['ocbfile'] = os.path.join(d, 'my_ocb_file')
    o = bnd.build_dual(c['b']) if dual else bnd.build(c['b'])
    for x in (o.ocb, o.eab) if dual else (o,):
        x.filename, x.instrument = 'some_file', 'image'
    h = c['h']
    if not opt:
        opt = {'ocb': o}
    kw = dict(c['lim'], **opt)
    FN = {'evar': 0, 'curl': 1, 'none': None, 'own': own}
    ev, cv = list(c['ev']), list(c['cv'])
    vn = {}
    for k, s in c['vecs'].items():
        vn[k] = {'vect_n': k + '_n', 'vect_e': k + '_e', 'dat_name': k,
                 'dat_units': 'm'}
        if s['z']:
            vn[k]['vect_z'] = k + '_z'
        if s['fn'] in ('evar', 'curl'):
            (ev if s['fn'] == 'evar' else cv).append(k)
        else:
            vn[k]['scale_func'] = FN[s['fn']]
    if c['alt'] == 'name':
        kw['height_name'] = 'alt'
    elif c['alt'] == 'value':
        kw['height'] = 850.
    elif c['alt'] == 'values':
        kw['height'] = [r[0] for r in c['dat']['alt']]
    keep = copy.deepcopy((ev, cv)), {k: dict(x) for k, x in vn.items()}
    before = i.data.copy(deep=True)
    la = [v for r in c['dat']['mlat'] for v in r if v == v]
    mixed = False
    hemi = c['hemi']
    if 'ocb' not in opt and hemi == 0:
        side = [v * h > 0 for v in la]
        mixed = any(side) and not all(side)
        if not any(side):
            hemi = h
    try:
        pi.add_ocb_to_data(i, 'mlat', 'mlt', evar_names=ev,
                           curl_evar_names=cv, vector_names=vn,
                           hemisphere=hemi, max_sdiff=c['tol'],
                           loc_coord=c['loc'], vect_coord=c['vec'], **kw)
    except ValueError:
        if mixed:
            return None
        raise
    if mixed:
        return 'both hemispheres are processed at once'
    if ((ev, cv), vn) != keep:
        return 'the names of the caller were altered'
    for k in c['dat']:
        if not np.array_equal(np.array(before[k]), np.array(i[k]),
                              equal_nan=True):
            return 'column %s was altered' % k
    n = {'OCBoundary': 'ocb', 'EABoundary': 'eab', 'Dual': 'dualb'}[c['kind']]
    names = ['mlat_' + n, 'mlt_' + n, 'r_corr_' + n]
    names += [k + '_' + n for k in c['ev'] + c['cv']]
    for k in c['vecs']:
        for a in ('n', 'e', 'z', 'mag'):
            names.append('%s_%s_%s' % (k, n, a))
        for a in ('unscaled_r', 'scaled_r'):
            names.append('%s_%s' % (k if n == 'ocb' else k + '_' + n, a))
    new = [k for k in i.variables if k not in c['dat'] and k not in
           ('time', 'x')]
    if not new and 'ocbfile' in opt and not any(I01.matched(
            c, o, bnd.T0 + dt.timedelta(seconds=s)) for s in c['t']):
        # no record of the file is close to the data
        return None
    if sorted(new) != sorted(names):
        return 'columns %r, expected %r' % (sorted(new), sorted(names))
    got = {}
    for k in names:
        x = np.array(i[k], dtype=float)
        if k not in i.meta.data.index:
            return 'no metadata of ' + k
        two = c['form'] == 'x22' or (c['form'] == 'x2' and any(
            c[z] for z in ('ev', 'cv', 'vecs')))
        if x.shape != (len(c['t']),) + ((c['w'],) if two else ()):
            return 'shape %r of %s' % (x.shape, k)
        got[k] = x.reshape((len(c['t']), -1))
    for k in range(len(c['t'])):
        for z in range(c['w']):
            r = {q: (x[k][z] if z < len(x[k]) else x[k][0])
                 for q, x in c['dat'].items()}
            g = {q: float(x[k][z] if z < x.shape[1] else x[k][0])
                 for q, x in got.items()}
            bad = cell(c, o, r, g, n, bnd.T0 + dt.timedelta(
                seconds=c['t'][k]))
            if bad:
                return bad
    return None


def cell(c, o, r, g, n, t):
    h = c['h']
    used = ['mlat', 'mlt'] + c['ev'] + c['cv']
    for k, s in c['vecs'].items():
        used += [k + '_n', k + '_e'] + ([k + '_z'] if s['z'] else [])
    ii = I01.matched(c, o, t)
    if c['form'] == 'pandas':
        mine = r['mlat'] * h > 0
    else:
        mine = r['mlat'] * h > 0 and any(r[k] == r[k] for k in used)
    if not ii or not mine:
        bad = [k for k in g if g[k] == g[k]]
        return '%s is %r without boundary' % (
            bad[0], g[bad[0]]) if bad else None
    bad = [value(c, o, i, r, g, n) for i in ii]
    return bad[0] if all(bad) else None


def value(c, o, i, r, g, n):
    dual = c['kind'] == 'Dual'
    d = c['b']['ocb'] if dual else c['b']
    h = c['h']
    alt = {'name': r['alt'], 'values': r['alt'], 'value': 850.,
           'default': 350.}[c['alt']]
    s = dict(kind=c['kind'], b=c['b'], lat=[r['mlat']], mlt=[r['mlt']],
             h=[alt], v=[[0., 0., 0.]], loc=c['loc'], vec='magnetic',
             trace=None, given=False, fn='none')
    e = S02.expected(s, 0, i, o)
    w = e['pos']
    if dual:
        o.rec_ind = i
        x = o.normal_coord(r['mlat'], r['mlt'], coords=c['loc'], height=alt,
                           overwrite=True)
        x = [float(x[0]), float(x[1]), float(x[3])]
        if not (bnd.same(g['mlat_' + n], x[0]) and (
                x[0] != x[0] or bnd.same(g['mlt_' + n], x[1]))
                and bnd.same(g['r_corr_' + n], x[2])):
            return 'location %r, expected %r' % (
                [g[k + n] for k in ('mlat_', 'mlt_', 'r_corr_')], x)
        lost = x[0] != x[0]
    elif w is None:
        bad = [k for k in g if g[k] == g[k] and not
               k.endswith(('scaled_r', '_z', '_mag', '_n', '_e'))]
        return '%s is %r without boundary location' % (
            bad[0], g[bad[0]]) if bad else None
    else:
        lost = False
        if not bnd.at(w[0], w[1], h, g['mlat_' + n], g['mlt_' + n]) or \
                not bnd.same(g['r_corr_' + n], w[2]):
            return 'location %r' % ([g[k + n] for k in (
                'mlat_', 'mlt_', 'r_corr_')],)
    un = d['r'][int(o.ocb_ind[i]) if dual else i] + g['r_corr_' + n]
    sc = 90. - d['blat']
    for k in c['ev'] + c['cv']:
        f = (un / sc) ** (2 if k in c['cv'] else 1)
        if not bnd.same(g[k + '_' + n], f * r[k], 1e-7 * (1 + f * 50)):
            return '%s is %r of %r, expected %r' % (k, g[k + '_' + n], r[k],
                                                    f * r[k])
    if lost or w is None:
        return None
    for k, q in c['vecs'].items():
        v = [r[k + '_n'], r[k + '_e'], r[k + '_z'] if q['z'] else 0.]
        s = dict(s, v=[v], vec=c['vec'], fn=q['fn'] if q['fn'] != 'own' else
                 'none')
        out = None
        for sg in ((True,) if h > 0 else (True, False)):
            e = S02.expected(s, 0, i, o, signed=sg)
            if e is None or e['p'] is None or any(x != x for x in v):
                out = None
                break
            j = int(o.ocb_ind[i]) if dual else i
            if abs(math.sin(math.radians(d['phi'][j] - 15. * e['mlt']))) < \
                    1e-6:
                out = None
                break
            x = list(e['v'])
            if q['fn'] == 'own':
                x = [own(y, e['un'], e['sc']) for y in x]
            x.append(math.hypot(*x))
            tol = 1e-5 * max(1., (e['un'] / e['sc']) ** 2) * (1 + sum(
                abs(y) for y in v))
            y = [g['%s_%s_%s' % (k, n, a)] for a in ('n', 'e', 'z', 'mag')]
            if all(abs(a - b) <= tol for a, b in zip(x, y)):
                out = None
                break
            out = out or 'vector %s is %r, expected %r' % (k, y, x)
        if out:
            return out
        p = k if n == 'ocb' else k + '_' + n
        for a, x in (('unscaled_r', un), ('scaled_r', sc)):
            if not bnd.same(g['%s_%s' % (p, a)], x):
                return '%s of %s is %r, expected %r' % (
                    a, k, g['%s_%s' % (p, a)], x)
    return None
