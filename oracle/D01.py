"""Concrete contract of pairing polar cap and auroral boundaries."""
import copy
import datetime as dt

import numpy as np

import bnd
from oracle_util import OPS

RULE = ('random record times of both boundaries, few to many within the '
        'tolerance of each other, with limits and criteria on either; '
        'non-trivial: several auroral boundaries close to one polar cap '
        'boundary and the reverse, equal distances, nothing in common')


def crit(rng):
    out = {}
    for x in ('r', 'r_cent', 'fom', 'odd'):
        if rng.random() < .2:
            out[x] = [rng.choice(sorted(OPS)),
                      rng.choice([0., 1., 2., 4., 14.])]
    return out


def cases(rng, tier, hints):
    while True:
        b = bnd.pair(rng, n=rng.choice([0, 1, 2, 4, 8]),
                     m=rng.choice([0, 1, 2, 4, 8]),
                     step=rng.choice([4, 20, 60, 200, 400]))
        yield {'b': b, 'sel': [
            {'lo': rng.choice([None, None, 0., 1., 2.]),
             'hi': rng.choice([None, None, 3., 2.]),
             'elo': rng.choice([None, None, 0., 1., 2.]),
             'ehi': rng.choice([None, None, 3., 2.]),
             'ck': rng.choice([None, {}, crit(rng)]),
             'ek': rng.choice([None, {}, crit(rng)])}
            for _ in range(rng.choice([0, 1, 1, 2]))],
            'rec': [rng.randrange(-1, 9), rng.randrange(-1, 9)]}


def pairs(o, b, good, egood):
    """None, or why the pairs are not right."""
    ts, te = b['ocb']['sec'], b['eab']['sec']
    n = o.records
    if not len(o.dtime) == len(o.ocb_ind) == len(o.eab_ind) == n:
        return 'lengths differ'
    rest = list(egood)
    last = 0
    for k in range(n):
        i, a = int(o.ocb_ind[k]), int(o.eab_ind[k])
        if i not in good or a not in egood:
            return 'pair %d uses a record that is not good' % k
        if o.dtime[k] != bnd.T0 + dt.timedelta(seconds=ts[i]):
            return 'time of pair %d' % k
        if abs(ts[i] - te[a]) > b['delta']:
            return 'pair %d is %r s apart' % (k, ts[i] - te[a])
        if a not in rest:
            return 'auroral record %d is used twice or out of order' % a
        first = next(x for x in good if x >= last and any(
            abs(ts[x] - te[y]) <= b['delta'] for y in rest))
        if i != first:
            return 'pair %d should use polar cap record %d' % (k, first)
        if abs(ts[i] - te[a]) > min(abs(ts[i] - te[y]) for y in rest):
            return 'pair %d does not use the closest auroral record' % k
        rest = [y for y in rest if y > a]
        last = i
    if any(x >= last and abs(ts[x] - te[y]) <= b['delta']
           for x in good for y in rest):
        return 'a pair is missing'
    return None


def check(c):
    b = c['b']
    ocb, eab = bnd.build(b['ocb']), bnd.build(b['eab'])
    st = [bnd.state(ocb), bnd.state(eab)]
    from ocbpy import DualBoundary
    o = DualBoundary(ocb=ocb, eab=eab, eab_lat=b['eab']['blat'],
                     ocb_lat=b['ocb']['blat'], max_delta=b['delta'])
    good, egood = bnd.pairing(b, ocb.min_fom, ocb.max_fom, None,
                              eab.min_fom, eab.max_fom, None)
    r = pairs(o, b, good, egood)
    if r:
        return 'on construction: ' + r
    for s in c['sel']:
        ocb.rec_ind, eab.rec_ind = c['rec']
        kw = dict(ocb_min_merit=s['lo'], ocb_max_merit=s['hi'],
                  eab_min_merit=s['elo'], eab_max_merit=s['ehi'])
        for k, x in (('ocb_kwargs', 'ck'), ('eab_kwargs', 'ek')):
            if s[x] is not None:
                kw[k] = {z: tuple(v) for z, v in s[x].items()}
        keep = copy.deepcopy(kw)
        o.set_good_ind(**kw)
        if kw != keep:
            return 'the criteria were altered'
        good, egood = bnd.pairing(
            b, ocb.min_fom if s['lo'] is None else s['lo'],
            ocb.max_fom if s['hi'] is None else s['hi'], s['ck'],
            eab.min_fom if s['elo'] is None else s['elo'],
            eab.max_fom if s['ehi'] is None else s['ehi'], s['ek'])
        r = pairs(o, b, good, egood)
        if r:
            return r
        if o.rec_ind != 0:
            return 'the first pair is not selected'
        want = (o.ocb_ind[0], o.eab_ind[0]) if o.records else (
            ocb.records, eab.records)
        if (ocb.rec_ind, eab.rec_ind) != tuple(want):
            return 'the boundaries are not at the first pair'
    ocb.rec_ind, eab.rec_ind = b['ocb']['rec'], b['eab']['rec']
    if [bnd.state(ocb), bnd.state(eab)] != st:
        return 'the boundaries were altered'
    if o.ocb is not ocb or o.eab is not eab or o.max_delta != b['delta']:
        return 'the boundaries were replaced'
    return None
