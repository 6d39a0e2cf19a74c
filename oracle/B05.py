"""Concrete contract of cycling through the good records."""
import numpy as np

import bnd
from ocbpy import cycle_boundary

RULE = ('random records with figures of merit and attributes on, between and '
        'outside of the limits; non-trivial: several criteria, equality at a '
        'limit, starts before, inside and past the records, unknown '
        'attributes, limits given and default')
OPS = {'min': lambda v, x: v > x, 'mineq': lambda v, x: v >= x,
       'max': lambda v, x: v < x, 'maxeq': lambda v, x: v <= x,
       'equal': lambda v, x: v == x}


def cases(rng, tier, hints):
    while True:
        n = rng.choice([0, 1, 2, 3, 5, 9])
        d = bnd.spec(rng, n=max(n, 1))
        vals = [rng.choice([0., 1., 2., 3.]) for _ in range(4)]
        for k in ('fom', 'r', 'rc', 'phi'):
            d[k] = [rng.choice(vals) if rng.random() < .8 else
                    rng.uniform(-1, 4) for _ in range(n)]
        d['sec'] = d['sec'][:n] if n else []
        d['rf'] = d['rf'][:n]
        crit = {}
        for k in ('r', 'r_cent', 'phi_cent', 'fom', 'nothing', 'other'):
            if rng.random() < .3:
                crit[k] = [rng.choice(sorted(OPS)), rng.choice(vals + [1.5])]
        yield {'b': d, 'n': n, 'crit': crit,
               'min_fom': rng.choice([-np.inf, 0., 1.]),
               'max_fom': rng.choice([np.inf, 3., 2.]),
               'lo': rng.choice([None, None, 0., 1., 1.5, 2.]),
               'hi': rng.choice([None, None, 3., 2., 1.5, 1.]),
               'rec': rng.choice([-1, -1] + list(range(n + 2))),
               'cur': rng.choice([-1, 0, 1, n, n + 3]),
               'fn': rng.choice(['next', 'all'])}


def check(c):
    d = c['b']
    d['rec'] = c['rec']
    o = bnd.build(d)
    n = c['n']
    o.min_fom, o.max_fom = float(c['min_fom']), float(c['max_fom'])
    attr = {'r': d['r'], 'r_cent': d['rc'], 'phi_cent': d['phi'],
            'fom': d['fom']}
    lo = o.min_fom if c['lo'] is None else c['lo']
    hi = o.max_fom if c['hi'] is None else c['hi']

    def good(i):
        return lo <= d['fom'][i] <= hi and all(
            OPS[op](attr[k][i], x) for k, (op, x) in c['crit'].items()
            if k in attr)
    kw = {k: tuple(v) for k, v in c['crit'].items()}
    given = dict(kw)
    if c['lo'] is not None:
        kw['min_merit'] = c['lo']
    if c['hi'] is not None:
        kw['max_merit'] = c['hi']
    sel = dict(kw)
    o.rec_ind = c['rec'] if c['fn'] == 'next' else c['cur']
    st = o.rec_ind
    before = bnd.state(o)
    if c['fn'] == 'all':
        r = cycle_boundary.retrieve_all_good_indices(o, **kw)
        exp = [i for i in range(n) if good(i)]
        if type(r) is not list or r != exp:
            return 'good records %r, expected %r' % (r, exp)
        if o.rec_ind != st or bnd.state(o) != before:
            return 'the boundary object was modified'
        return None
    o.get_next_good_ocb_ind(**kw)
    exp = next((i for i in range(st + 1, n) if good(i)), None)
    got = o.rec_ind
    o.rec_ind = st
    if bnd.state(o) != before:
        return 'more than the index was modified'
    if kw != sel or {k: v for k, v in kw.items() if k in given} != given:
        return 'the criteria were modified'
    if exp is None:
        if got < n or got <= st:
            return 'record %r after %r, there is no good one' % (got, st)
    elif got != exp:
        return 'record %r after %r, expected %r' % (got, st, exp)
    return None
