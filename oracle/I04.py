"""Concrete contract of formatting DMSP SSJ boundary files."""
import datetime as dt
import math
import os

import numpy as np

import bnd
import I01
from ocbpy.boundaries import dmsp_ssj_files

bnd.fake()
RULE = ('random daily files of passes of one or several spacecraft and '
        'days; non-trivial: one pass, both hemispheres, other column order, '
        'comment lines, missing and malformed files, single file name, '
        'heights and methods')
NEED = ['UTSec', 'SC_GEOCENTRIC_LAT', 'SC_GEOCENTRIC_LON']


def cases(rng, tier, hints):
    while True:
        files = []
        day = dt.date(rng.choice([2000, 2010, 2011]), rng.choice([1, 2, 12]),
                      rng.randint(27, 28))
        for k in range(rng.choice([1, 1, 2, 3])):
            rows = []
            for _ in range(rng.choice([1, 1, 2, 5])):
                h = rng.choice([1, -1])
                r = {'hemisphere': h, 'FOM': round(rng.uniform(0, 5), 3),
                     'EXTRA 1': round(rng.uniform(-9, 9), 2)}
                for b in ('PO', 'EQ'):
                    s = rng.uniform(0, 86000)
                    for i in '12':
                        r['UTSec %s%s' % (b, i)] = round(
                            s + rng.uniform(0, 400), rng.choice([0, 2]))
                        r['SC_GEOCENTRIC_LAT %s%s' % (b, i)] = round(
                            h * rng.uniform(50, 89), 2)
                        r['SC_GEOCENTRIC_LON %s%s' % (b, i)] = round(
                            rng.uniform(-180, 360), 2)
                rows.append(r)
            cols = sorted(rows[0])
            rng.shuffle(cols)
            files.append({'sc': rng.choice([6, 16, 17, 18]),
                          'day': (day + dt.timedelta(days=k)).isoformat(),
                          'rows': rows, 'cols': cols,
                          'note': rng.choice([0, 1, 7]),
                          'bad': rng.choice([None] * 7 + ['miss', 'cols'])})
        yield {'files': files, 'one': rng.random() < .5,
               'dir': rng.choice(['', 'some-folder']),
               'kw': rng.choice([{}, {}, {'ref_alt': 400.},
                                 {'method': 'ALLOWTRACE'},
                                 {'ref_alt': 850., 'method': 'TRACE'}])}


def check(c):
    return I01.scratch(look, c)


def look(c, d):
    try:
        return form(c, d)
    finally:
        p = os.path.join(d, 'some-folder')
        if os.path.isdir(p):
            for f in os.listdir(p):
                os.remove(os.path.join(p, f))
            os.rmdir(p)


def form(c, d):
    d = os.path.join(d, c['dir']) if c['dir'] else d
    os.makedirs(d, exist_ok=True)
    names, seen = [], set()
    for f in c['files']:
        key = f['sc'], f['day']
        if key in seen:
            return None
        seen.add(key)
        name = os.path.join(
            d, 'dmsp-f%02d_ssj_precipitating-electrons-ions_%s_v1.1.2_'
            'boundaries.csv' % (f['sc'], f['day'].replace('-', '')))
        names.append(name)
        if f['bad'] == 'miss':
            continue
        with open(name, 'w') as o:
            for k in range(f['note']):
                o.write('# remark, number %d\n' % k)
            o.write(','.join(f['cols'] + (
                ['MORE'] if f['bad'] == 'cols' else [])) + '\n')
            for r in f['rows']:
                o.write(','.join(repr(r[k]) for k in f['cols']) + '\n')
    have = [f for f in c['files'] if f['bad'] != 'miss']
    arg = names[0] if c['one'] and len(names) == 1 else list(names)
    try:
        out = dmsp_ssj_files.format_ssj_boundary_files(arg, **c['kw'])
    except ValueError:
        return 'files were refused' if have else None
    if not have:
        return 'no input file and no error'
    if not isinstance(arg, str) and arg != names:
        return 'the list of the caller was altered'
    want = ['%s_%s_%s_%s%s' % (
        'ssj', h, have[0]['day'].replace('-', ''),
        have[-1]['day'].replace('-', ''), '_v1.1.2' + x)
        for h in ('north', 'south') for x in ('.ocb', '.eab')]
    if len(out) != 4 or any(not str(a).endswith('dmsp-' + b) or
                            os.path.dirname(a) != d
                            for a, b in zip(out, want)):
        return 'files %r' % (out,)
    k = 0
    for h in (1, -1):
        for b in ('PO', 'EQ'):
            bad = compare(c, out[k], h, b)
            if bad:
                return bad
            k += 1
    return None


def compare(c, name, h, b):
    with open(name) as f:
        lines = f.read().split('\n')
    if lines[0] != '#sc date time r x y fom x_1 y_1 x_2 y_2' or lines[-1]:
        return 'header or end of %s' % name
    rows = [(f, r) for f in c['files'] if f['bad'] is None
            for r in f['rows'] if r['hemisphere'] == h]
    if len(rows) != len(lines) - 2:
        return '%d passes, expected %d' % (len(lines) - 2, len(rows))
    kw = dict({'ref_alt': 830., 'method': 'GEOCENTRIC|ALLOWTRACE'}, **c['kw'])
    for ln, (f, r) in zip(lines[1:], rows):
        p = ln.split()
        s = .5 * (r['UTSec %s1' % b] + r['UTSec %s2' % b])
        t = dt.datetime.fromisoformat(f['day']) + dt.timedelta(seconds=s)
        if len(p) != 11 or int(p[0]) != f['sc']:
            return 'line %r' % ln
        g = dt.datetime.strptime(p[1] + p[2], '%Y-%m-%d%H:%M:%S')
        if not -.51 <= (t - g).total_seconds() < 1.:
            return 'time %s, expected %s' % (g, t)
        if s == int(s) and g != t:
            return 'time %s, expected %s' % (g, t)
        la, _, m = bnd.f_coord(
            [r['SC_GEOCENTRIC_LAT %s%d' % (b, i)] for i in (1, 2)],
            [r['SC_GEOCENTRIC_LON %s%d' % (b, i)] for i in (1, 2)],
            kw['ref_alt'], t, kw['method'])
        th = [math.radians((float(x) - 6.) * 15.) for x in m]
        x = [(90. - abs(float(a))) * math.cos(q) for a, q in zip(la, th)]
        y = [(90. - abs(float(a))) * math.sin(q) for a, q in zip(la, th)]
        w = [math.hypot(x[0] - x[1], y[0] - y[1]) / 2., (x[0] + x[1]) / 2.,
             (y[0] + y[1]) / 2., r['FOM'], x[0], y[0], x[1], y[1]]
        for q, v, e in zip('r x y fom x_1 y_1 x_2 y_2'.split(), p[3:], w):
            if not abs(float(v) - e) <= .00051:
                return '%s is %s, expected %r' % (q, v, e)
    return None
