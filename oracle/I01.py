"""Concrete contract of processing vorticity files."""
import datetime as dt
import math
import os
import tempfile

import numpy as np

import bnd
from ocbpy import ocb_scaling
from ocbpy.instruments import vort

RULE = ('random vorticity files of blocks with one or several entries and '
        'boundaries of every class in both hemispheres; non-trivial: data '
        'without a boundary close in time, boundaries of low quality, '
        'several data per time, both hemispheres in one file, scaling '
        'functions, all columns, malformed lines')
NAN = float('nan')
BK = [['R1BM1', 'R1BM2', 'R2BM1', 'R2BM2', 'AREA', 'VORTICITY', 'MLT'],
      ['GFLG', 'CENTRE_GLAT', 'CENTRE_GLON', 'C1_GLAT', 'C1_GLON',
       'C2_GLAT', 'C2_GLON', 'C3_GLAT', 'C3_GLON', 'C4_GLAT', 'C4_GLON'],
      ['MFLG', 'CENTRE_MLAT', 'CENTRE_MLON', 'C1_MLAT', 'C1_MLON',
       'C2_MLAT', 'C2_MLON', 'C3_MLAT', 'C3_MLON', 'C4_MLAT', 'C4_MLON']]
FN = {'curl': ocb_scaling.normal_curl_evar, 'evar': ocb_scaling.normal_evar,
      'none': None}


def bound(rng):
    """A boundary with quality and times, and its good record times."""
    kind = rng.choice(['OCBoundary', 'OCBoundary', 'EABoundary', 'Dual'])
    if kind == 'Dual':
        d = bnd.paired(rng)
        d['ocb']['rec'] = d['eab']['rec'] = -1
        h = d['ocb']['hemi']
    else:
        d = bnd.spec(rng, cls=kind, n=rng.choice([1, 2, 4]))
        d['rec'] = -1
        h = d['hemi']
        d['sec'] = sorted(rng.sample(range(0, 3600, 60), len(d['r'])))
        d['fom'] = [rng.choice([1., 2., 3.]) for _ in d['r']]
    return kind, d, h


def times(rng, d):
    secs = d['sec'] if 'sec' in d else d['ocb']['sec']
    out = set()
    for _ in range(rng.choice([1, 2, 4])):
        s = rng.choice(secs) + rng.choice([0, 0, 30, 60, -60, 61, 600, 5000])
        out.add(s)
    return sorted(out)


def limits(rng, kind):
    if kind == 'Dual' or rng.random() < .5:
        return {}
    return rng.choice([{'min_merit': 2.}, {'max_merit': 2.},
                       {'min_merit': 2., 'max_merit': 2.},
                       {'min_merit': 9.}])


def cases(rng, tier, hints):
    # the radius of a pair that is not that of the record of its number
    d = {'delta': 60}
    for k, cls, la, r in (('ocb', 'OCBoundary', 74., 14.),
                          ('eab', 'EABoundary', 64., 24.)):
        d[k] = {'cls': cls, 'hemi': 1, 'blat': la, 'phi': [0., 0.],
                'rc': [0., 0.], 'r': [r, r - 4.], 'fom': [1., 1.],
                'sec': [0, 600] if k == 'ocb' else [600, 1200],
                'rf': ['none', 'none'], 'rec': -1}
    yield {'kind': 'Dual', 'b': d, 'lim': {}, 'fn': 'curl', 'tol': 60,
           'all': False, 'bad': None, 'file': False, 'late': False, 'hemi': 0,
           'dat': [{'t': 600, 'e': [[80., 6., 1.]]}]}
    while True:
        kind, d, h = bound(rng)
        other = rng.random() < .2
        dat = []
        for t in times(rng, d):
            if rng.random() < .5:
                t = t // 36 * 36
            e = []
            for _ in range(rng.choice([1, 1, 2, 4])):
                hh = -h if other and rng.random() < .5 else h
                e.append([round(hh * rng.uniform(50, 89.9), 3),
                          round(rng.uniform(0, 24), 3),
                          round(rng.uniform(-9, 9), 4)])
            dat.append({'t': t, 'e': e})
        yield {'kind': kind, 'b': d, 'lim': limits(rng, kind), 'dat': dat,
               'fn': rng.choice(list(FN)), 'tol': rng.choice([60, 60, 30,
                                                              600]),
               'all': rng.random() < .3, 'late': rng.random() < .1,
               'bad': rng.choice([None] * 9 + ['date', 'num', 'block']),
               'hemi': rng.choice([0, 0, h]),
               'file': rng.random() < .3}


def write(c, name):
    """The file; returns time and values of every entry."""
    out = []
    with open(name, 'w') as f:
        f.write('# a header line\n#\n'.replace('#\n', '# \n'))
        for k, b in enumerate(c['dat']):
            t = bnd.T0 + dt.timedelta(seconds=b['t'])
            day = dt.datetime(t.year, t.month, t.day)
            uth = '%.6f' % ((t - day).total_seconds() / 3600.)
            bad = c['bad'] if k == len(c['dat']) - 1 else None
            f.write('%d %d %d %s%s\n' % (t.year, t.month, t.day, uth,
                                         ' 1' if bad == 'date' else ''))
            f.write('%d%s\n' % (len(b['e']), ' 2' if bad == 'num' else ''))
            for z, (la, m, v) in enumerate(b['e']):
                row = {x: 100. * k + 10. * z + i * .25
                       for i, x in enumerate(sum(BK, []))}
                row.update(CENTRE_MLAT=la, MLT=m, VORTICITY=v)
                for i, bl in enumerate(BK):
                    f.write(' '.join(repr(row[x]) for x in bl) +
                            (' 7' if bad == 'block' and i == 1 else '') +
                            '\n')
                row.update(YEAR=t.year, MONTH=t.month, DAY=t.day,
                           UTH=float(uth), DATETIME=t)
                out.append(row)
    return out


def scratch(look, c):
    d = tempfile.mkdtemp(dir=os.environ.get('PV_SCRATCH'))
    try:
        return look(c, d)
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)


def check(c):
    return scratch(look, c)


def matched(c, o, t):
    """Records of the boundary that may be chosen for a time."""
    lo, hi = [c['lim'].get(k) for k in ('min_merit', 'max_merit')]
    n = o.records
    gap = {}
    for i in range(n):
        if c['kind'] != 'Dual':
            f = c['b']['fom'][i]
            if (lo is not None and f < lo) or (hi is not None and f > hi):
                continue
        g = abs((o.dtime[i] - t).total_seconds())
        if g <= c['tol']:
            gap[i] = g
    return [i for i in gap if gap[i] == min(gap.values())]


def look(c, d):
    name, outf = os.path.join(d, 'vort'), os.path.join(d, 'out')
    rows = write(c, name)
    if c['bad']:
        for f in (vort.load_vorticity_ascii_data,
                  lambda n: vort.vort2ascii_ocb(n, outf, hemisphere=1)):
            try:
                f(name)
            except IOError:
                continue
            return 'a malformed file is accepted'
        return None
    got = vort.load_vorticity_ascii_data(name, save_all=c['all'])
    keys = ['YEAR', 'MONTH', 'DAY', 'UTH', 'VORTICITY', 'MLT', 'CENTRE_MLAT',
            'DATETIME']
    if c['all']:
        keys += [x for x in sum(BK, []) if x not in ('GFLG', 'MFLG')
                 and x not in keys]
    if set(got) != set(keys):
        return 'columns %r' % sorted(got)
    for k in keys:
        if np.shape(got[k]) != (len(rows),):
            return 'shape of ' + k
        for x, r in zip(got[k], rows):
            if k == 'DATETIME':
                if not 0 <= (r[k] - x).total_seconds() <= 1 or (
                        r['UTH'] * 3600 % 1 == 0 and
                        round(r['UTH'] * 3600) % 36 == 0 and x != r[k]):
                    return 'time %r, expected %r' % (x, r[k])
            elif x != r[k]:
                return '%s %r, expected %r' % (k, x, r[k])
    for r, x in zip(rows, got['DATETIME']):
        r['DATETIME'] = x
    return convert(c, name, outf, rows, keys)


def from_file(c, d):
    """Options to load the boundary from a file."""
    b = c['b']
    b['rf'] = ['none'] * len(b['r'])
    b['blat'] = 74.
    name = os.path.join(d, 'bound')
    with open(name, 'w') as f:
        for i, s in enumerate(b['sec']):
            t = bnd.T0 + dt.timedelta(seconds=s)
            f.write('%d %d 9 %r %r %r 1.0 1.0 %r\n' % (
                t.year, (t - dt.datetime(t.year, 1, 1)).total_seconds(),
                b['phi'][i], b['rc'][i], b['r'][i], b['fom'][i]))
    return {'ocbfile': name, 'instrument': 'image'}


def convert(c, name, outf, rows, keys):
    dual = c['kind'] == 'Dual'
    opt = None
    if c['file'] and c['kind'] == 'OCBoundary':
        opt = from_file(c, os.path.dirname(name))
    o = bnd.build_dual(c['b']) if dual else bnd.build(c['b'])
    h = (c['b']['ocb'] if dual else c['b'])['hemi']
    kw = dict(c['lim'])
    kw.update(opt or {'ocb': o})
    mine = [r for r in rows if r['CENTRE_MLAT'] * h > 0]
    hemi = c['hemi']
    mixed = False
    if opt and hemi == 0:
        mixed = 0 < len(mine) < len(rows)
        if not mine:
            hemi = h
    try:
        vort.vort2ascii_ocb(name, outf, hemisphere=hemi,
                            max_sdiff=c['tol'], save_all=c['all'],
                            scale_func=FN[c['fn']], **kw)
    except ValueError:
        if mixed:
            return None
        raise
    if mixed:
        return 'both hemispheres are processed at once'
    if not os.path.exists(outf):
        # no boundary record close to the data, or no data
        return 'no output' if any(matched(c, o, r['DATETIME'])
                                  for r in mine) else None
    with open(outf) as f:
        lines = f.read().split('\n')
    if lines[-1] != '':
        return 'incomplete last line'
    head = lines[0].split()
    more = head[2:-3]
    if head[:2] != ['#DATE', 'TIME'] or head[-3:] != [
            'OCB_LAT', 'OCB_MLT', 'NORM_VORT']:
        return 'header %r' % lines[0]
    if sorted(more) != (sorted(k for k in keys if k != 'DATETIME')
                        if c['all'] else []):
        return 'columns %r' % more
    want = [(r, matched(c, o, r['DATETIME'])) for r in mine]
    want = [(r, i) for r, i in want if i]
    body = lines[1:-1]
    if len(body) != len(want):
        return '%d output lines, expected %d' % (len(body), len(want))
    known = None
    for ln, (r, ii) in zip(body, want):
        p = ln.split()
        if len(p) != 5 + len(more) or ' '.join(p[:2]) != str(r['DATETIME']):
            return 'line %r of %r' % (ln, r['DATETIME'])
        for k, x in zip(more, p[2:]):
            if float(x) != r[k]:
                return '%s is %s, expected %r' % (k, x, r[k])
        la, m, v = [float(x) for x in p[-3:]]
        bad = [value(c, o, i, r, la, m, v, h) for i in ii]
        if all(bad):
            if isinstance(bad[0], tuple):
                known = bad[0]
            else:
                return bad[0]
    return known


def value(c, o, i, r, la, m, v, h):
    """What is wrong with the values, or None."""
    dual = c['kind'] == 'Dual'
    d = c['b']['ocb'] if dual else c['b']
    j = int(o.ocb_ind[i]) if dual else i
    w = bnd.position(d, r['CENTRE_MLAT'], r['MLT'], j)
    un, sc = d['r'][j] + w[2], 90. - d['blat']
    f = {'none': 1., 'evar': un / sc, 'curl': (un / sc) ** 2}[c['fn']]
    off = None
    if not abs(v - f * r['VORTICITY']) < 2e-6 * (1 + abs(v)):
        off = '%r of vorticity %r, expected %r' % (v, r['VORTICITY'],
                                                   f * r['VORTICITY'])
        if dual and i != j:
            un = d['r'][i] + w[2]
            f = {'none': 1., 'evar': un / sc, 'curl': (un / sc) ** 2}[c['fn']]
            if abs(v - f * r['VORTICITY']) < 2e-6 * (1 + abs(v)):
                off = ('dual-radius', off)
    if isinstance(off, str):
        return off
    if dual:
        o.rec_ind = i
        x = o.normal_coord(r['CENTRE_MLAT'], r['MLT'], overwrite=True)
        if not (bnd.same(float(x[0]), la, .006) and (
                bnd.same(float(x[1]), m, 1e-5) or la != la)):
            return 'location (%r, %r), expected %r' % (la, m, x[:2])
    else:
        z = math.hypot(w[0], w[1])
        if not bnd.same(h * (90. - z), la, .006) or z > 1e-3 and abs(
                math.remainder(math.degrees(math.atan2(w[1], w[0])) / 15.
                               - m, 24.)) > 2e-6:
            return 'location (%r, %r)' % (la, m)
    return off
