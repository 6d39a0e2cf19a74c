"""B05: cycling through the good records."""
from pv import terms as T
from pv import arr as A
from pv import objs
from pv import lists
from pv.spec import Contract, C

CLS = 'ocbpy._boundary.OCBoundary.'
OPS = {'min': lambda v, lim: T.lt(lim, v), 'mineq': lambda v, lim: T.le(lim, v),
       'max': lambda v, lim: T.lt(v, lim), 'maxeq': lambda v, lim: T.le(v, lim),
       'equal': T.eq}


def meets(o, p, lo, hi, crit):
    """Record p meets the selection."""
    fom = objs.rec_term(o.fom.name, p)
    out = [T.le(lo, fom), T.le(fom, hi)]
    for k, (op, lim) in crit.items():
        out.append(OPS[op](objs.rec_term(getattr(o, k).name, p), lim.e()))
    return T.b_and(*out)


def c_next(crit, limits, unknown=(), cls='OCBoundary', hemi=1):
    def run(e, cx):
        f = cx.fn()
        o, dim = objs.boundary(e, cx, hemi, cls)
        n = dim.p
        o.rec_ind = A.sym('rec_ind', (), 'i', nan=False, py=True)
        i0 = o.rec_ind.e()
        e.assume(T.le(C(-1), i0))
        kw, lims = {}, {}
        for k, op in crit:
            v = A.sym('limit_' + k, (), 'f', nan=False, py=True)
            kw[k] = (op, v)
            lims[k] = (op, v)
        for k in unknown:
            kw[k] = ('min', A.pyfloat(C(1)))
        lo, hi = o.min_fom.e(), o.max_fom.e()
        if 'min' in limits:
            v = A.sym('min_merit', (), 'f', nan=False, py=True)
            kw['min_merit'], lo = v, v.e()
        if 'max' in limits:
            v = A.sym('max_merit', (), 'f', nan=False, py=True)
            kw['max_merit'], hi = v, v.e()
        if 'none' in limits:
            kw.update(min_merit=None, max_merit=None)
        before = objs.attrs(o)
        j = T.V('record', 'int')

        def skipped(rec):
            return T.b_imp(T.b_and(T.lt(i0, j), T.lt(j, rec), T.lt(j, n)),
                           T.b_not(meets(o, j, lo, hi, lims)))

        def inv(vals, init):
            x = vals.get(('self', 'rec_ind'))
            return {} if x is None else {'good records skipped': skipped(x)}
        e.loop_invariants[:] = [inv]
        e.loop_scope[:] = [i0]
        f(o, **kw)
        objs.same_attrs(e, before, o, but=('rec_ind',))
        r = o.rec_ind.e()
        e.oblige('moves forward', T.lt(i0, r))
        e.oblige('no good record is skipped', skipped(r))
        if A.force(T.lt(r, n)):
            e.oblige('the record reached is good', meets(o, r, lo, hi, lims))
    return run


def last(vals, name):
    for p, v in vals.items():
        if p[-1] == name:
            return v
    return None


def c_all(crit, limits, cls='OCBoundary'):
    def run(e, cx):
        f = cx.fn()
        o, dim = objs.boundary(e, cx, 1, cls)
        n = dim.p
        o.rec_ind = A.sym('rec_ind', (), 'i', nan=False, py=True)
        kw = {k: (op, A.sym('limit_' + k, (), 'f', nan=False, py=True))
              for k, op in crit}
        sel = dict(kw)
        lo = hi = None
        if 'min' in limits:
            lo = sel['min_merit'] = A.sym('min_merit', (), 'f', nan=False,
                                          py=True)
        if 'max' in limits:
            hi = sel['max_merit'] = A.sym('max_merit', (), 'f', nan=False,
                                          py=True)
        key = objs.good_key(lo, hi, kw)
        j = T.V('record', 'int')
        objs.probe(j)
        lists.use(lambda: lists.GhostList(probe=j))
        before = objs.attrs(o)

        def found(has, upto):
            return T.b_iff(has, T.b_and(
                T.le(T.ZERO, j), T.le(j, upto), T.lt(j, n),
                objs.good(o, j, key)))

        def inv(vals, init):
            has, rec, up = [last(vals, k) for k in ('has', 'rec_ind',
                                                    'rising')]
            end = last(vals, 'last')
            if None in (has, rec, up, end):
                return {}
            return {'found': found(has, rec), 'rising': up,
                    'last': T.le(end, rec)}
        e.loop_invariants[:] = [inv]
        r = f(o, **sel)
        objs.same_attrs(e, before, o)
        ok = isinstance(r, lists.GhostList)
        e.oblige('a list is returned', T.b_const(ok))
        if ok:
            e.oblige('exactly the good records are listed',
                     found(r.has, n))
            e.oblige('in increasing order', r.rising)
    return run


def contracts():
    out = []
    for cls in ('OCBoundary', 'EABoundary'):
        for lim in ((), ('min',), ('max',), ('min', 'max')):
            for crit in ((), (('r', 'min'),), (('r', 'maxeq'),
                                               ('phi_cent', 'equal'))):
                out.append(Contract(
                    'ocbpy.cycle_boundary.retrieve_all_good_indices',
                    'all good %s, limits %s, criteria %s' % (
                        cls, '/'.join(lim) or 'default',
                        ' '.join('%s %s' % c for c in crit) or 'none'),
                    c_all(crit, lim, cls), stubs=[
                        'ocbpy._boundary.OCBoundary.get_next_good_ocb_ind']))
    for cls in ('OCBoundary', 'EABoundary'):
        q = 'ocbpy._boundary.%s.get_next_good_ocb_ind' % cls
        for lim in ((), ('min',), ('max',), ('min', 'max'), ('none',)):
            for crit in [()] + [((a, op),) for a in ('r', 'fom') for op in
                                OPS]:
                if cls == 'EABoundary' and crit and (
                        crit[0][0] == 'fom' or lim):
                    continue
                out.append(Contract(q, 'next good %s, limits %s, %s' % (
                    cls, '/'.join(lim) or 'default',
                    ' '.join('%s %s' % c for c in crit) or 'no criteria'),
                    c_next(crit, lim, cls=cls)))
        for a in OPS:
            for b in OPS:
                if cls == 'EABoundary' and a != b:
                    continue
                out.append(Contract(
                    q, 'next good %s, r_cent %s and phi_cent %s' % (cls, a, b),
                    c_next((('r_cent', a), ('phi_cent', b)), (), cls=cls)))
        out.append(Contract(
            q, 'next good %s, unknown attribute' % cls,
            c_next((('r', 'min'),), ('min',), unknown=('nothing',), cls=cls)))
        out.append(Contract(
            q, 'next good %s, unknown attribute first' % cls,
            c_next((), (), unknown=('nothing', 'nought'), cls=cls)))
    return out
