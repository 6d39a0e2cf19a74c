"""D02: the selected pair and the records of its boundaries."""
from pv import terms as T
from pv import arr as A
from pv import objs
from pv.spec import Contract, C

CLS = 'ocbpy._boundary.DualBoundary.'
SEL = ('_rec_ind', 'ocb', 'eab')


def term(x):
    return A.to_num(A.num_of(x))


def points(e, o, parts, what):
    """Both boundaries select the records of the selected pair."""
    i, n = term(o.rec_ind), term(o.records)
    for b, ind in parts:
        r = term(b.rec_ind)
        if A.force(T.lt(i, T.ZERO)):
            e.oblige(what + ': no record before the first', T.lt(r, T.ZERO))
        elif A.force(T.le(n, i)):
            e.oblige(what + ': no record past the last',
                     T.le(term(b.records), r))
        else:
            e.oblige(what + ': the record of the pair',
                     T.eq(r, term(ind.at(i))))


def start(e, cx, hemi):
    o = objs.dual(e, cx, hemi)
    return o, ((o.ocb, o.ocb_ind), (o.eab, o.eab_ind))


def frame(e, before, o, parts):
    objs.same_attrs(e, before[0], o, but=('_rec_ind',))
    for (b, _), was in zip(parts, before[1:]):
        objs.same_attrs(e, was, b, but=('rec_ind',), what='boundary')


def c_set(hemi, given):
    def run(e, cx):
        o, parts = start(e, cx, hemi)
        x = A.sym('index', (), 'i', nan=False, py=given != 'array')
        before = [objs.attrs(y) for y in (o, o.ocb, o.eab)]
        o.rec_ind = x
        e.oblige('the index is the one set', T.eq(term(o.rec_ind), x.e()))
        points(e, o, parts, 'set')
        frame(e, before, o, parts)
    return run


def c_next(hemi):
    def run(e, cx):
        o, parts = start(e, cx, hemi)
        o.rec_ind = A.sym('index', (), 'i', nan=False, py=True)
        i, n = term(o.rec_ind), term(o.records)
        before = [objs.attrs(y) for y in (o, o.ocb, o.eab)]
        more = A.force(T.lt(i, n))
        r = o.get_next_good_ind()
        e.oblige('nothing returned', T.b_const(r is None))
        e.oblige('the next pair' if more else 'no pair after the last',
                 T.eq(term(o.rec_ind), i + T.ONE if more else i))
        points(e, o, parts, 'next')
        frame(e, before, o, parts)
    return run


def contracts():
    out = []
    for h in (1, -1):
        for g in ('int', 'array'):
            out.append(Contract(CLS + 'rec_ind', 'rec_ind set, %s, %d' % (
                g, h), c_set(h, g)))
        out.append(Contract(CLS + 'get_next_good_ind',
                            'get_next_good_ind, %d' % h, c_next(h)))
    return out
