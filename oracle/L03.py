"""Concrete contract of loading columns of ASCII files."""
import datetime as dt
import os
import tempfile

import numpy as np

from ocbpy.instruments import general

RULE = ('random tables of numbers, integers, text and times; non-trivial: '
        'one row or column, every supported kind of time columns, separators, '
        'comments and headers handed over, empty files, files that are '
        'missing')
WORDS = ['abc', 'x-1', 'Q', 'long_word_%s' % ('z' * 30)]
# kinds of time columns: format, columns written
TIMES = {'soy': 'YEAR SOY', 'lower': 'year soy', 'ymd': '%Y %m %d',
         'full': '%Y-%m-%d %H:%M:%S', 'sod': '%Y-%m-%d SOD',
         'one': '%Y%m%d_%H%M', 'yj': '%Y %j %H %M'}


def cases(rng, tier, hints):
    while True:
        n = rng.choice([1, 1, 2, 3, 7])
        m = rng.choice([0, 1, 2, 4])
        kinds = [rng.choice('fffis') for _ in range(m)]
        tk = rng.choice([None, None] + list(TIMES))
        if tk is None and not kinds:
            kinds = ['f']
        if tk in ('one',) and not kinds:
            kinds = ['i']
        rows = []
        for _ in range(n):
            rows.append([
                {'f': rng.choice([0., -1.5, 1e30, rng.uniform(-99, 99)]),
                 'i': rng.randint(-9999, 9999),
                 's': rng.choice(WORDS)}[k] for k in kinds])
        t = [(dt.datetime(rng.choice([1999, 2000, 2012]),
                          rng.choice([1, 2, 12]), rng.randint(1, 28),
                          rng.randrange(24), rng.randrange(60),
                          rng.randrange(60)) +
              dt.timedelta(days=rng.choice([0, 3]))).isoformat()
             for _ in range(n)]
        yield {'kinds': kinds, 'rows': rows, 'tk': tk, 't': t,
               'first': rng.random() < .5, 'head': rng.choice([1, 1, 2, 5]),
               'given': rng.random() < .2, 'hash': rng.random() < .4,
               'sep': rng.choice([None, None, ',']),
               'comm': rng.random() < .2, 'short': rng.random() < .3,
               'dt': rng.choice([False, False, True]),
               'bad': rng.choice([None] * 20 + ['missing', 'empty'])}


def parts(tk, t):
    t = dt.datetime.fromisoformat(t)
    if tk in ('soy', 'lower'):
        return [str(t.year), '%d' % (
            t - dt.datetime(t.year, 1, 1)).total_seconds()]
    if tk == 'sod':
        return [t.strftime('%Y-%m-%d'), '%d' % (
            t - dt.datetime(t.year, t.month, t.day)).total_seconds()]
    return [t.strftime(f) for f in TIMES[tk].split()]


def meant(tk, t):
    t = dt.datetime.fromisoformat(t)
    if tk == 'ymd':
        return t.replace(hour=0, minute=0, second=0)
    if tk in ('one', 'yj'):
        return t.replace(second=0)
    return t


def check(c):
    d = tempfile.mkdtemp(dir=os.environ.get('PV_SCRATCH'))
    try:
        return look(c, os.path.join(d, 'data.txt'))
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)


def look(c, name):
    sep = c['sep'] or '  '
    names = ['c%d' % i for i in range(len(c['kinds']))]
    tn = []
    if c['tk']:
        tn = ['t%d' % i for i in range(len(parts(c['tk'], c['t'][0])))]
    if c['dt'] and names and c['kinds'][0] == 'f':
        names[0] = 'datetime'
    cols = tn + names if c['first'] else names + tn
    off = len(tn) if c['first'] else 0
    tcol = list(range(len(tn))) if c['first'] else list(
        range(len(names), len(cols)))
    head = ['some words %d' % i for i in range(c['head'] - 1)] + [
        ('# ' if c['hash'] else '') + sep.join(cols)]
    with open(name, 'w') as f:
        if not c['given']:
            f.write('\n'.join(head) + '\n')
        for r, t in zip(c['rows'], c['t']):
            r = [repr(x) if not isinstance(x, str) else x for x in r]
            p = parts(c['tk'], t) if c['tk'] else []
            f.write(sep.join(p + r if c['first'] else r + p) + '\n')
            if c['comm']:
                f.write('# a remark\n')
    if c['bad'] == 'empty':
        open(name, 'w').close()
    if c['bad'] == 'missing':
        name += 'x'
    ic = [off + i for i, k in enumerate(c['kinds']) if k == 'i']
    sc = [off + i for i, k in enumerate(c['kinds']) if k == 's']
    given = ['first line', head[-1]]
    kw = {'int_cols': ic, 'str_cols': sc}
    if c['tk']:
        kw.update(datetime_cols=tcol, datetime_fmt=TIMES[c['tk']])
    if c['given']:
        kw['header'] = given
    if c['sep']:
        kw['gft_kwargs'] = {'delimiter': ','}
        kw['hsplit'] = ','
    if c['short'] and not any(len(w) > 12 for r in c['rows'] for w in r
                              if isinstance(w, str)):
        kw['max_str_length'] = 12
    keep = {k: repr(v) for k, v in kw.items()}
    r = general.load_ascii_data(name, 0 if c['given'] else c['head'], **kw)
    for k, v in kw.items():
        if repr(v) != keep[k]:
            return 'the argument %s was altered: %r' % (k, v)
    if not isinstance(r, tuple) or len(r) != 2:
        return 'result %r' % (r,)
    h, out = r
    if c['bad']:
        return None if out == {} else 'data of a %s file' % c['bad']
    want = given if c['given'] else [x.strip() for x in head]
    if h != want:
        return 'header %r, expected %r' % (h, want)
    key = 'DATETIME' if names and names[0] == 'datetime' else 'datetime'
    if set(out) != set(cols) | ({key} if c['tk'] else set()):
        return 'columns %r of %r' % (sorted(out), cols)
    n = len(c['rows'])
    for i, (k, nm) in enumerate(zip(c['kinds'], names)):
        x = out[nm]
        w = [row[i] for row in c['rows']]
        if np.shape(x) != (n,):
            return 'shape %r of %s' % (np.shape(x), nm)
        kind = np.asarray(x).dtype.kind
        if kind != {'f': 'f', 'i': 'i', 's': 'U'}[k]:
            return 'type %s of column %s (%s)' % (kind, nm, k)
        if list(x) != w:
            return 'column %s: %r, expected %r' % (nm, list(x), w)
    if c['tk']:
        w = [meant(c['tk'], t) for t in c['t']]
        if list(out[key]) != w:
            return 'times %r, expected %r' % (list(out[key]), w)
        for j, nm in enumerate(tn):
            if np.shape(out[nm]) != (n,):
                return 'shape of ' + nm
    return None
