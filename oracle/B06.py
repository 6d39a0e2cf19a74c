"""Concrete contract of matching data times with boundaries."""
import bnd
from oracle_util import OPS
from ocbpy import cycle_boundary
import datetime as dt
import logging

logging.disable(logging.CRITICAL)
RULE = ('random strictly increasing boundary times and non-decreasing data '
        'times a few tolerances apart, with gaps, repeated data times, exact '
        'matches and equal distances; all classes, selections, starting '
        'indices; non-trivial: a gap before, between or after the matches')


def cases(rng, tier, hints):
    while True:
        cls = rng.choice(['OCBoundary', 'EABoundary', 'Dual', 'Dual'])
        step = rng.choice([4, 20, 40, 120, 400])
        if cls == 'Dual':
            b = bnd.pair(rng, n=rng.choice([0, 1, 2, 4, 8]),
                         m=rng.choice([0, 1, 2, 4, 8]), step=step)
            n = len(b['ocb']['r'])
        else:
            n = rng.choice([0, 1, 2, 4, 8])
            b = bnd.spec(rng, cls=cls, n=max(n, 1))
            sec = rng.sample(range(80), n)
            b['sec'] = sorted(s * step // 4 for s in sec)
            for x in ('phi', 'rc', 'r', 'fom', 'rf'):
                b[x] = b[x][:n]
            b['fom'] = [rng.choice([0., 1., 2., 3.]) for _ in range(n)]
        k = rng.choice([0, 1, 2, 5, 9])
        base = (b['ocb'] if cls == 'Dual' else b)['sec'] or [0]
        dat = sorted(
            rng.choice(base) + rng.choice([0, 0, 1, -1, 30, -30, 59, 60, 61,
                                           -60, -61]) if rng.random() < .6
            else rng.randrange(-2 * step, 22 * step) for _ in range(k))
        crit = {}
        for x in ('r', 'r_cent', 'fom'):
            if rng.random() < .2:
                crit[x] = [rng.choice(sorted(OPS)),
                           rng.choice([0., 1., 2., 4., 14.])]
        yield {'cls': cls, 'b': b, 'dat': dat, 'crit': crit,
               'lo': rng.choice([None, None, 0., 1., 2.]),
               'hi': rng.choice([None, None, 3., 2.]),
               'tol': rng.choice([0, 1, 10, 60, 60, 90, 300]),
               'rec': rng.choice([-1, -1, 0, 0, 1, 2, n, n + 1]),
               'idat': rng.choice([0, 0, 0, 1, 2, k, k + 1]),
               'np': rng.random() < .5,
               'calls': rng.choice([1, 1, 3])}


def check(c):
    b = c['b']
    dual = c['cls'] == 'Dual'
    kw = {k: tuple(v) for k, v in c['crit'].items()}
    if c['lo'] is not None:
        kw['min_merit'] = c['lo']
    if c['hi'] is not None:
        kw['max_merit'] = c['hi']
    dat = [bnd.T0 + dt.timedelta(seconds=s) for s in c['dat']]
    if c['np']:
        import numpy as np
        dat = np.array(dat)
    keep = list(dat)
    o = bnd.build_dual(b) if dual else bnd.build(b)
    idat = c['idat']
    o.rec_ind = c['rec']
    for _ in range(c['calls']):
        rec = o.rec_ind
        was = o.records
        r = cycle_boundary.match_data_ocb(o, dat, idat=idat,
                                          max_tol=c['tol'], **kw)
        if list(dat) != keep:
            return 'the data times were altered'
        if idat >= len(dat) or rec >= was:
            if r != idat or o.rec_ind != rec:
                return 'nothing is left, but got %r and record %r' % (
                    r, o.rec_ind)
            return None
        n = o.records
        sec = [(t - bnd.T0).total_seconds() for t in o.dtime] if n else []
        if dual:
            st = 0 if kw else rec
            good = [p for p in range(n) if p >= max(st, 0)]
        else:
            lo = o.min_fom if c['lo'] is None else c['lo']
            hi = o.max_fom if c['hi'] is None else c['hi']
            attr = {'r': b['r'], 'r_cent': b['rc'], 'fom': b['fom']}
            good = [p for p in range(n) if p == rec or p > rec and
                    lo <= b['fom'][p] <= hi and
                    all(OPS[op](attr[k][p], x)
                        for k, (op, x) in c['crit'].items())]
        exp = None
        for i in range(idat, len(dat)):
            best = min((abs(sec[p] - c['dat'][i]) for p in good),
                       default=None)
            if best is not None and best <= c['tol']:
                exp = i
                break
        got = o.rec_ind
        if exp is None:
            if r is not None and r < len(dat) and got < n:
                return 'datum %r and record %r, none are close' % (r, got)
            return None
        if r != exp:
            return 'datum %r, expected %r' % (r, exp)
        if got not in good:
            return 'record %r is none of %r' % (got, good)
        if len(set(sec)) == n and abs(sec[got] - c['dat'][exp]) > best:
            return 'record %r is %r s away, the closest %r s' % (
                got, abs(sec[got] - c['dat'][exp]), best)
        if dual:
            if o.ocb.rec_ind != o.ocb_ind[got] or \
                    o.eab.rec_ind != o.eab_ind[got]:
                return 'the boundaries of the pair are out of step'
        idat = r + 1
    return None
