"""Concrete contract of choosing boundary files."""
import datetime as dt
import os
import tempfile

import ocbpy
from ocbpy.boundaries import files

RULE = ('random sets of boundary files in a scratch directory, times, '
        'hemispheres and instruments; non-trivial: none, one or several '
        'candidates, times at the limits of a file, custom instruments, '
        'long and short instrument names, other files in between, loading '
        'the chosen file')
RNG = {'amp': ((2010, 1, 1), (2022, 1, 1)),
       'si12': ((2000, 5, 4), (2002, 11, 1)),
       'si13': ((2000, 5, 3), (2002, 11, 1)),
       'wic': ((2000, 5, 4), (2002, 11, 1)),
       'image': ((2000, 5, 3), (2002, 11, 1)),
       'dmsp-ssj': ((2010, 1, 1), None)}
ORDER = ['image', 'amp', 'si13', 'si12', 'wic', 'dmsp-ssj']
LONG = {'amp': 'ampere', 'si12': 'image', 'si13': 'image', 'wic': 'image'}
TAKES = {'': ORDER, 'ampere': ['amp'],
         'image': ['image', 'si12', 'si13', 'wic']}
HEMI = {1: 'north', -1: 'south'}
ROWS = {'image': '2000 10841727 4 356.93 8.74 9.69 3.6e+06 0.14 4.0\n',
        'ampere': '20100501 00:00 10 -2 -1 0.5\n',
        'dmsp-ssj': '#head\n16 2010-12-31 01:19:13 8.5 -2.0 10.4 3.2 -10.5 '
        '9.5 6.4 11.4\n'}
ROWS['image'] *= 2
ROWS['ampere'] *= 2
ROWS['dmsp-ssj'] += ROWS['dmsp-ssj'].split('\n')[1] + '\n'


def name(rng):
    i = rng.choice(ORDER + ['img2', 'mysat'])
    h = rng.choice(['north', 'south'])
    b = rng.choice(['ocb', 'ocb', 'eab'])
    if i in ('img2', 'mysat') or (i == 'dmsp-ssj' and rng.random() < .5):
        y = rng.choice([2000, 2010, 2015])
        m = rng.choice(['circle', 'v1.1.2'])
        return '%s_%s_%d0101_%d0%d01_%s.%s' % (
            i, h, y, y, rng.randint(2, 9), m, b)
    return '%s_%s_%s.%s' % (i, h, rng.choice(['circle', 'radii']), b)


def span(f):
    p = f[:-4].split('_')
    if p[0] in RNG:
        s, e = RNG[p[0]]
        if e is None:
            e = dt.datetime.combine(dt.date.today(), dt.time()) + \
                dt.timedelta(days=1)
            return dt.datetime(*s), e
        return dt.datetime(*s), dt.datetime(*e)
    return tuple(dt.datetime.strptime(x, '%Y%m%d') for x in p[2:4])


def cases(rng, tier, hints):
    while True:
        fs = sorted({name(rng) for _ in range(rng.choice([0, 1, 2, 4, 9]))})
        inst = rng.choice(['', '', 'ampere', 'amp', 'image', 'si12', 'si13',
                           'wic', 'dmsp-ssj', 'mysat', 'img2', 'other'])
        s = e = None
        if fs and rng.random() < .8:
            a, b = span(rng.choice(fs))
            one, day = dt.timedelta(microseconds=1), dt.timedelta(days=1)
            s, e = rng.choice([
                (a - day, a), (a - day, a - one), (b, b + day),
                (b + one, b + day), (a + day, a + 2 * day),
                (a - day, b + day), (None, a), (b + day, None)])
        yield {'files': fs, 'inst': inst, 'hemi': rng.choice([1, -1]),
               's': s and s.isoformat(), 'e': e and e.isoformat(),
               'bound': rng.choice(['ocb', 'ocb', 'eab', 'OCB']),
               'more': rng.choice([[], ['notes.txt', 'README.md'],
                                   ['tool.py', 'amp_north_radii.ocb.py']
                                   ]),
               'up': rng.random() < .2, 'load': rng.random() < .4}


def check(c):
    d = tempfile.mkdtemp(dir=os.environ.get('PV_SCRATCH'))
    old = files.get_boundary_directory
    files.get_boundary_directory = lambda: d
    try:
        return look(c, d)
    finally:
        files.get_boundary_directory = old
        for f in os.listdir(d):
            p = os.path.join(d, f)
            (os.rmdir if os.path.isdir(p) else os.remove)(p)
        os.rmdir(d)


def look(c, d):
    fs = c['files']
    for f in fs + c['more']:
        i = f.split('_')[0]
        with open(os.path.join(d, f), 'w') as fp:
            fp.write(ROWS.get(LONG.get(i, i), 'nothing\n'))
    os.mkdir(os.path.join(d, 'wic_north_circle.ocb.ocb'))
    bound = c['bound']
    have = {f: (f.split('_')[0], 1 if f.split('_')[1] == 'north' else -1)
            + span(f) for f in fs if f.endswith('.' + bound.lower())}
    got = files.get_boundary_files(bound=bound)
    info = {f: (v['instrument'], v['hemisphere'], v['stime'], v['etime'])
            for f, v in got.items()}
    if info != have:
        return 'files %r, expected %r' % (info, have)
    s, e = [c[k] and dt.datetime.fromisoformat(c[k]) for k in 'se']
    inst, h = c['inst'], c['hemi']
    takes = TAKES.get(inst, [inst])
    good = [f for f, v in have.items() if v[1] == h and v[0] in takes and
            (s is None or e is None or (s <= v[3] and e >= v[2]))]
    r = files.get_default_file(s, e, h, inst, bound=bound)
    if not isinstance(r, tuple) or len(r) != 2:
        return 'result %r' % (r,)
    if not good:
        if r != (None, inst):
            return 'result %r without a file' % (r,)
    else:
        rank = [ORDER.index(have[f][0]) if have[f][0] in ORDER else 9
                for f in good]
        best = [os.path.join(d, f) for f, k in zip(good, rank)
                if k == min(rank)]
        if r[0] not in best:
            return 'file %r, expected one of %r' % (r[0], best)
        i = have[os.path.basename(r[0])][0]
        if r[1] != LONG.get(i, i):
            return 'instrument %r of %r' % (r[1], r[0])
    if not c['load'] or bound == 'OCB':
        return None
    cl = ocbpy.OCBoundary if bound == 'ocb' else ocbpy.EABoundary
    try:
        o = cl(filename='DEFAULT' if c['up'] else 'default', hemisphere=h,
               stime=s, etime=e, instrument=inst)
    except ValueError:
        # custom instruments have no known format
        if inst in ('mysat', 'img2', 'other'):
            return None
        raise
    if (o.filename, o.instrument) != r:
        return 'loaded %r, not %r' % ((o.filename, o.instrument), r)
    if r[0] is None:
        if o.records or o.dtime is not None:
            return 'records without a file'
        return None
    times = {'image': [dt.datetime(2000, 5, 5, 11, 35, 27)] * 2,
             'ampere': [dt.datetime(2010, 5, 1)] * 2,
             'dmsp-ssj': [dt.datetime(2010, 12, 31, 1, 19, 13)] * 2}[r[1]]
    want = [t for t in times if (s is None or s <= t) and
            (e is None or t <= e)]
    if o.records != len(want) or list(o.dtime) != want:
        return 'records %r, expected %r' % (o.dtime, want)
    return None
