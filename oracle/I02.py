"""Concrete contract of processing SuperMAG files."""
import datetime as dt
import math
import os

import numpy as np

import bnd
import I01
import S02
from ocbpy.instruments import supermag

RULE = ('random SuperMAG files of blocks with one or several stations and '
        'boundaries of every class in both hemispheres; non-trivial: fill '
        'values, missing index lines, other hemisphere, data without a '
        'boundary close in time, low quality boundaries, scaling functions')
FILL = 999999
NAN = float('nan')
COL = ['BN', 'BE', 'BZ', 'MLT', 'MLAT', 'DEC', 'SZA']


def cases(rng, tier, hints):
    while True:
        kind, d, h = I01.bound(rng)
        other = rng.random() < .2
        fill = rng.random() < .3
        dat = []
        for t in I01.times(rng, d):
            e = []
            for k in range(rng.choice([1, 1, 2, 4])):
                hh = -h if other and rng.random() < .5 else h
                row = [round(rng.uniform(-500, 500), 1) for _ in range(3)] + [
                    round(rng.uniform(0, 24), 3),
                    round(hh * rng.uniform(50, 89.5), 3),
                    round(rng.uniform(-30, 30), 2),
                    round(rng.uniform(0, 130), 2)]
                if fill and rng.random() < .4:
                    row[rng.choice([0, 1, 2, 3, 5, 6])] = FILL
                e.append(['S%02d' % k] + row)
            ind = {}
            for k in ('SML', 'SMU'):
                if rng.random() < .6:
                    ind[k] = rng.randint(-900, 900)
            dat.append({'t': t, 'e': e, 'i': ind})
        yield {'kind': kind, 'b': d, 'dat': dat,
               'lim': I01.limits(rng, kind),
               'fn': rng.choice(list(I01.FN)),
               'tol': rng.choice([60, 60, 30, 600]),
               'hemi': rng.choice([0, 0, h]), 'file': rng.random() < .3}


def write(c, name):
    out = []
    with open(name, 'w') as f:
        f.write('SuperMAG\nNo data here 1 2 3 4\n' + '=' * 60 + '\n')
        for b in c['dat']:
            t = bnd.T0 + dt.timedelta(seconds=b['t'])
            f.write(t.strftime('%Y\t%m\t%d\t%H\t%M\t%S\t') +
                    '%d\n' % len(b['e']))
            for k in ('SML', 'SMU'):
                if k in b['i']:
                    f.write('%s\t%d\n' % (k, b['i'][k]))
            for e in b['e']:
                f.write('\t'.join([e[0]] + [repr(x) for x in e[1:]]) + '\n')
                row = dict(zip(COL, e[1:]), STID=e[0], NST=len(b['e']),
                           YEAR=t.year, MONTH=t.month, DAY=t.day,
                           HOUR=t.hour, MIN=t.minute, SEC=t.second,
                           DATETIME=t)
                for k in COL:
                    if row[k] == FILL:
                        row[k] = NAN
                for k in ('SML', 'SMU'):
                    row[k] = b['i'].get(k, FILL)
                out.append(row)
    return out


def check(c):
    return I01.scratch(look, c)


def look(c, d):
    name, outf = os.path.join(d, 'smag'), os.path.join(d, 'out')
    rows = write(c, name)
    head, got = supermag.load_supermag_ascii_data(name)
    if len(head) != 3 or head[0].strip() != 'SuperMAG':
        return 'header %r' % (head,)
    if set(got) != set(rows[0]):
        return 'columns %r' % sorted(got)
    for k in got:
        if np.shape(got[k]) != (len(rows),):
            return 'shape of ' + k
        for x, r in zip(got[k], rows):
            if not (x == r[k] or (x != x and r[k] != r[k])):
                return '%s %r, expected %r' % (k, x, r[k])
    return convert(c, name, outf, rows)


def convert(c, name, outf, rows):
    dual = c['kind'] == 'Dual'
    opt = None
    if c['file'] and c['kind'] == 'OCBoundary':
        opt = I01.from_file(c, os.path.dirname(name))
    o = bnd.build_dual(c['b']) if dual else bnd.build(c['b'])
    h = (c['b']['ocb'] if dual else c['b'])['hemi']
    kw = dict(c['lim'])
    kw.update(opt or {'ocb': o})
    side = [r for r in rows if r['MLAT'] * h > 0]
    mine = [r for r in side if all(r[k] == r[k] for k in COL[:5])]
    hemi = c['hemi']
    mixed = False
    if opt and hemi == 0:
        mixed = 0 < len(side) < len(rows)
        if not side:
            hemi = h
    try:
        supermag.supermag2ascii_ocb(name, outf, hemisphere=hemi,
                                    max_sdiff=c['tol'],
                                    scale_func=I01.FN[c['fn']], **kw)
    except ValueError:
        if mixed:
            return None
        raise
    if mixed:
        return 'both hemispheres are processed at once'
    want = [(r, I01.matched(c, o, r['DATETIME'])) for r in mine]
    want = [(r, i) for r, i in want if i]
    if not os.path.exists(outf):
        return 'no output' if want else None
    with open(outf) as f:
        lines = f.read().split('\n')
    if lines[-1] != '' or lines[0].split() != (
            '#DATE TIME NST STID SML SMU SZA MLAT MLT BMAG BN BE BZ OCB_MLAT '
            'OCB_MLT OCB_BMAG OCB_BN OCB_BE OCB_BZ').split():
        return 'header %r' % lines[0]
    body = lines[1:-1]
    if len(body) != len(want):
        return '%d output lines, expected %d' % (len(body), len(want))
    for ln, (r, ii) in zip(body, want):
        p = ln.split()
        n = sum(1 for x in mine if x['DATETIME'] == r['DATETIME'])
        if len(p) != 19 or ' '.join(p[:2]) != str(r['DATETIME']) or p[2] != \
                str(n) or p[3] != r['STID'] or p[4:6] != [
                    str(r['SML']), str(r['SMU'])]:
            return 'line %r of %r' % (ln, r)
        v = [float(x) for x in p[6:]]
        bmag = math.sqrt(sum(r[k] ** 2 for k in COL[:3]))
        for x, y in zip(v[:7], (r['SZA'], r['MLAT'], r['MLT'], bmag, r['BN'],
                                r['BE'], r['BZ'])):
            if not bnd.same(x, y, .0051):
                return 'value %r of %r in %r' % (x, y, ln)
        bad = [value(c, o, i, r, v[7:], h) for i in ii]
        if all(bad):
            return bad[0]
    return None


def value(c, o, i, r, v, h):
    dual = c['kind'] == 'Dual'
    d = c['b']['ocb'] if dual else c['b']
    s = dict(kind=c['kind'], b=c['b'], lat=[r['MLAT']], mlt=[r['MLT']],
             h=[350.], v=[[r['BN'], r['BE'], r['BZ']]], loc='magnetic',
             vec='magnetic', trace=None, given=False, fn=c['fn'])
    e = S02.expected(s, 0, i, o)
    w = e['pos']
    if dual:
        o.rec_ind = i
        x = o.normal_coord(r['MLAT'], r['MLT'], overwrite=True)
        if not (bnd.same(float(x[0]), v[0], .0051) and (v[0] != v[0] or
                                                        bnd.same(
                float(x[1]), v[1], .0051))):
            return 'location %r, expected %r' % (v[:2], x[:2])
        if v[0] != v[0]:
            return None
    else:
        z = math.hypot(w[0], w[1])
        if not bnd.same(h * (90. - z), v[0], .0051) or z > 1e-3 and abs(
                math.remainder(math.degrees(math.atan2(w[1], w[0])) / 15.
                               - v[1], 24.)) > .0052:
            return 'location %r' % (v[:2],)
    j = int(o.ocb_ind[i]) if dual else i
    f = 1e-6 * max(1., (e['un'] / e['sc']) ** 2) * (1 + sum(
        abs(x) for x in e['mag'])) + .0051
    if e['p'] is None or abs(math.sin(math.radians(
            d['phi'][j] - 15. * e['mlt']))) < 1e-6:
        return None
    out = []
    for sg in ((True,) if h > 0 else (True, False)):
        e = S02.expected(s, 0, i, o, signed=sg)
        if e['p'] is None:
            return None
        t = [math.hypot(*e['v'])] + list(e['v'])
        if all(abs(x - y) <= f for x, y in zip(v[2:], t)):
            return None
        out.append(t)
    return 'vector %r, expected %r' % (v[2:], out[0])
