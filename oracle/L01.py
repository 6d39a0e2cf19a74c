"""Concrete contract of loading boundary files."""
import datetime as dt
import math
import os
import tempfile

import numpy as np

import ocbpy
from ocbpy import ocb_correction as cor

RULE = ('random boundary files of every supported format; non-trivial: one '
        'record, time limits equal to record times, before and after all '
        'records, southern and unsigned reference latitudes, one correction '
        'or one per record, leap days, year ends, custom columns')
COLS = {'image': 'year soy num_sectors phi_cent r_cent r a r_err fom',
        'ampere': 'date time r x y fom',
        'dmsp-ssj': 'sc date time r x y fom x_1 y_1 x_2 y_2'}
FMT = {'image': '', 'ampere': '%Y%m%d %H:%M', 'dmsp-ssj': '%Y-%m-%d %H:%M:%S'}
FOM = {'image': (-math.inf, 5.), 'ampere': (.15, math.inf),
       'dmsp-ssj': (3., math.inf)}


def mine(mlt, a=1.):
    return a * np.cos(mlt)


def other(mlt, b=2.):
    return b + 0. * np.asarray(mlt)


FUN = {'circular': cor.circular, 'elliptical': cor.elliptical,
       'harmonic': cor.harmonic, 'mine': mine, 'other': other}


def cases(rng, tier, hints):
    while True:
        inst = rng.choice(list(COLS))
        n = rng.choice([1, 1, 2, 3, 5, 9])
        t = dt.datetime(rng.choice([1999, 2000, 2003, 2012]),
                        rng.choice([1, 2, 12]), rng.randint(26, 28),
                        rng.randrange(24), rng.randrange(60),
                        rng.randrange(60))
        if inst == 'ampere':
            t = t.replace(second=0)
        recs = []
        for _ in range(n):
            recs.append({
                't': t.isoformat(), 'phi_cent': round(rng.uniform(0, 360), 2),
                'r_cent': round(rng.uniform(0, 12), 2),
                'r': round(rng.uniform(2, 30), 2),
                'fom': round(rng.uniform(0, 9), 2),
                'num_sectors': rng.randrange(30),
                'sc': rng.choice([16, 17, 18]),
                'a': rng.choice([3.642e+06, 1.5]), 'r_err': .25,
                'x': rng.choice([0., -3., 2.]) if rng.random() < .3 else
                round(rng.uniform(-9, 9), 3),
                'y': rng.choice([0., -2., 1.]) if rng.random() < .3 else
                round(rng.uniform(-9, 9), 3),
                'x_1': 1.5, 'y_1': -2.25, 'x_2': rng.uniform(-9, 9),
                'y_2': 4.})
            t += dt.timedelta(seconds=60 * rng.choice([1, 2, 30, 1000]))
        ts = [dt.datetime.fromisoformat(r['t']) for r in recs]

        def lim():
            return None if rng.random() < .4 else (
                rng.choice(ts) + dt.timedelta(seconds=rng.choice(
                    [0, 0, 0, 1, -1, 60, -60, -10 ** 8, 10 ** 8]))
            ).isoformat()
        yield {'inst': inst, 'recs': recs, 's': lim(), 'e': lim(),
               'cls': rng.choice(['OCBoundary', 'OCBoundary', 'EABoundary']),
               'hemi': rng.choice([1, -1]),
               'blat': rng.choice([None, 74., -74., 60., -55.5]),
               'up': rng.random() < .2,
               'rf': rng.choice([None, None, None, 'mine', 'harmonic', 'arr',
                                 'short']),
               'kw': rng.choice([None, None, {'a': 2.}, 'arr', 'short']),
               'cust': rng.random() < .15}


def line(inst, cols, r, fmt):
    t = dt.datetime.fromisoformat(r['t'])
    out = []
    for c in cols.split():
        if c == 'year':
            out.append('%d' % t.year)
        elif c == 'soy':
            out.append('%d' % (t - dt.datetime(t.year, 1, 1)).total_seconds())
        elif c == 'date':
            out.append(t.strftime(fmt.split()[0]))
        elif c == 'time':
            out.append(t.strftime(fmt.split()[1]))
        else:
            out.append(repr(r[c]))
    return '  '.join(out) + '\n'


def check(c):
    d = tempfile.mkdtemp(dir=os.environ.get('PV_SCRATCH'))
    try:
        return look(c, os.path.join(d, 'bound.file'))
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)


def look(c, name):
    inst = c['inst']
    cols, fmt = COLS[inst], FMT[inst]
    head = '#header line\n' * (inst == 'dmsp-ssj')
    if c['cust']:
        cols, fmt = 'fom date time r r_cent phi_cent', '%d/%m/%Y %H-%M-%S'
        head = 'one\ntwo words\n'
    with open(name, 'w') as f:
        f.write(head)
        for r in c['recs']:
            f.write(line(inst, cols, r, fmt))
    s, e = [None if c[k] is None else dt.datetime.fromisoformat(c[k])
            for k in 'se']
    want = [r for r in c['recs']
            if (s is None or dt.datetime.fromisoformat(r['t']) >= s) and
            (e is None or dt.datetime.fromisoformat(r['t']) <= e)]
    n = len(want)
    rf = kw = None
    if c['rf'] in FUN:
        rf = FUN[c['rf']]
        wf = [rf] * n
    elif c['rf'] in ('arr', 'short'):
        wf = [(mine, other)[i % 2] for i in range(n + (c['rf'] == 'short'))]
        rf = np.array(wf)
    elif c['cls'] == 'OCBoundary' and inst == 'ampere':
        wf = [cor.elliptical] * n
    else:
        wf = [cor.circular] * n
    if isinstance(c['kw'], dict):
        kw = dict(c['kw'])
        wk = [kw] * n
    elif c['kw'] in ('arr', 'short'):
        wk = [{'a': float(i)} for i in range(n + (c['kw'] == 'short'))]
        kw = np.array(wk)
    else:
        wk = [{}] * n
    cl = getattr(ocbpy, c['cls'])
    ka = {} if c['blat'] is None else {'boundary_lat': c['blat']}
    bad = c['rf'] == 'short' or c['kw'] == 'short'
    try:
        if c['cust']:
            o = cl(filename=None, instrument=inst, hemisphere=c['hemi'],
                   rfunc=rf, rfunc_kwargs=kw, **ka)
            if o.records or o.dtime is not None:
                return 'records without a file'
            o.filename = name
            o.load(hlines=2, ocb_cols=cols, datetime_fmt=fmt, stime=s,
                   etime=e)
        else:
            o = cl(filename=name, instrument=inst.upper() if c['up'] else
                   inst, hemisphere=c['hemi'], stime=s, etime=e, rfunc=rf,
                   rfunc_kwargs=kw, **ka)
    except ValueError:
        return None if bad else 'unexpected ValueError'
    if bad:
        return 'corrections of a wrong number are accepted'
    if o.filename != name or o.instrument != inst:
        return 'file %r of %r' % (o.filename, o.instrument)
    if o.hemisphere != c['hemi']:
        return 'hemisphere %r' % o.hemisphere
    bl = {'OCBoundary': 74., 'EABoundary': 64.}[c['cls']] if \
        c['blat'] is None else c['blat']
    if o.boundary_lat != abs(bl) * c['hemi']:
        return 'reference latitude %r' % o.boundary_lat
    if (o.min_fom, o.max_fom) != FOM[inst]:
        return 'limits %r of the figure of merit' % ((o.min_fom, o.max_fom),)
    if o.records != n or len(o.dtime) != n:
        return '%r records of %d' % (o.records, n)
    if o.rec_ind != -1:
        return 'record index %r' % o.rec_ind
    if [t.isoformat() for t in o.dtime] != [r['t'] for r in want]:
        return 'times %r' % list(o.dtime)
    for k in set(cols.split()) - {'year', 'soy', 'date', 'time'}:
        x = getattr(o, k)
        if np.shape(x) != (n,) or any(not bool(abs(a - r[k]) < 1e-9) for a, r
                                      in zip(x, want)):
            return 'column %s: %r' % (k, x)
    for k in ('phi_cent', 'r_cent'):
        if np.shape(getattr(o, k)) != (n,):
            return 'shape of ' + k
    for r, ph, rc in zip(want, o.phi_cent, o.r_cent):
        if 'x' in cols.split():
            # from midnight, towards dawn
            u, v = -r['y'], r['x']
        else:
            u, v = [r['r_cent'] * g(math.radians(r['phi_cent']))
                    for g in (math.cos, math.sin)]
        if not (0 <= ph <= 360 and rc >= 0):
            return 'centre (%r, %r)' % (ph, rc)
        if not (abs(rc * math.cos(math.radians(ph)) - u) < 1e-9 and
                abs(rc * math.sin(math.radians(ph)) - v) < 1e-9):
            return 'centre (%r, %r) of %r' % (ph, rc, r)
    if list(o.rfunc) != wf or np.shape(o.rfunc) != (n,):
        return 'corrections %r' % (o.rfunc,)
    if list(o.rfunc_kwargs) != wk or np.shape(o.rfunc_kwargs) != (n,):
        return 'keywords %r' % (o.rfunc_kwargs,)
    return None
