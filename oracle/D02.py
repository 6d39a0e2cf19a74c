"""Concrete contract of the shared record index of a boundary pair."""
import bnd

RULE = ('random histories of selecting, cycling and re-pairing; '
        'non-trivial: indices before the first and past the last pair, no '
        'pairs at all')


def cases(rng, tier, hints):
    while True:
        b = bnd.pair(rng, n=rng.choice([0, 1, 2, 4, 8]),
                     m=rng.choice([0, 1, 2, 4, 8]),
                     step=rng.choice([4, 20, 60, 200]))
        ops = []
        for _ in range(rng.choice([1, 3, 8, 20])):
            ops.append(rng.choice([
                ['set', rng.randrange(-3, 12)], ['next'], ['next'],
                ['pair', rng.choice([None, 1., 2.])]]))
        yield {'b': b, 'ops': ops}


def check(c):
    b = c['b']
    o = bnd.build_dual(b)
    rec = 0
    for op in c['ops']:
        if op[0] == 'set':
            rec = op[1]
            o.rec_ind = rec
        elif op[0] == 'next':
            if rec < o.records:
                rec += 1
            o.get_next_good_ind()
        else:
            o.set_good_ind(ocb_min_merit=op[1])
            rec = 0
        n = o.records
        if o.rec_ind != rec:
            return 'index %r, expected %r after %r' % (o.rec_ind, rec, op)
        if rec < 0:
            want = rec, rec
        elif rec >= n:
            want = o.ocb.records + rec - n, o.eab.records + rec - n
        else:
            want = o.ocb_ind[rec], o.eab_ind[rec]
        if (o.ocb.rec_ind, o.eab.rec_ind) != want:
            return 'indices of the boundaries %r, expected %r at %r' % (
                (o.ocb.rec_ind, o.eab.rec_ind), want, rec)
    return None
