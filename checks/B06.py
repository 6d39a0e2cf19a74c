"""B06: matching data with boundaries."""
from pv import terms as T
from pv import arr as A
from pv import loops
from pv import objs
from pv.arr import Arr
from pv.spec import Contract, C
from checks.B05 import last

FN = 'ocbpy.cycle_boundary.match_data_ocb'


def numbers(loc, dtype):
    """Terms of the numeric locals of a type."""
    out = {}
    for k, v in loc.items():
        if isinstance(v, int) and not isinstance(v, bool) and dtype == 'i':
            out[k] = C(v)
        if isinstance(v, Arr) and not v.nd and v.dtype_ == dtype and \
                v.shape_ == () and isinstance(v.e(), T.P):
            out[k] = v.e()
    return out


def absle(x, y):
    """|x| <= |y| or so, without absolute values in the terms."""
    return T.b_or(T.b_and(T.le(T.ZERO, y), T.le(x, y), T.le(-y, x)),
                  T.b_and(T.lt(y, T.ZERO), T.le(x, -y), T.le(y, x)))


def c_match(cls, first, exact=False, crit=(), lims=(), where='last'):
    def run(e, cx):
        f = cx.fn()
        dual = cls == 'DualBoundary'
        g, d = T.V('record', 'int'), T.V('datum', 'int')
        tol = A.sym('max_tol', (), 'i', nan=False, py=True)
        e.assume(T.le(T.ZERO, tol.e()))
        kw = {k: (op, A.sym('limit_' + k, (), 'f', nan=False, py=True))
              for k, op in crit}
        sel = dict(kw)
        lo = hi = None
        if 'min' in lims:
            lo = sel['min_merit'] = A.sym('min_merit', (), 'f', nan=False,
                                          py=True)
        if 'max' in lims:
            hi = sel['max_merit'] = A.sym('max_merit', (), 'f', nan=False,
                                          py=True)
        if dual:
            o = objs.dual(e, cx, 1, also=(g,),
                          expect=dict(min=lo, max=hi, kw=kw))
        else:
            o, _ = objs.boundary(e, cx, 1, cls, rec_ind=None)
            o.dtime = objs.sorted_times('dtime', _, True, (g,))
            objs.probe(g)
        key = objs.good_key(lo, hi, kw)
        s0 = A.sym('rec_ind', (), 'i', nan=False, py=True)
        if first:
            s0 = -1
        else:
            e.assume(T.le(T.ZERO, s0.e()))
        o.rec_ind = s0
        s = A.num_of(s0)
        start = dict(records=A.num_of(o.records))
        dim = A.Dim('data', T.V('data', 'int'), count_of=T.TRUE)
        e.assume(T.le(T.ZERO, dim.p))
        dat = objs.sorted_times('data times', dim, False, (d,))
        i0 = A.sym('idat', (), 'i', nan=False, py=True)
        e.assume(T.le(T.ZERO, i0.e()))
        if dual and (lims or crit):
            # the pairs are selected anew, starting with the first
            s = C(0)

        def n():
            return A.num_of(o.records)

        def tm(p):
            return o.dtime.term(p)

        def valid(p):
            later = T.lt(s, p) if dual else T.b_and(
                T.lt(s, p), objs.good(o, p, key))
            at = T.b_and(T.le(T.ZERO, s), T.eq(p, s))
            return T.b_and(T.b_or(at, later), T.lt(p, n()))

        def far(x):
            return T.b_or(T.lt(tol.e(), x), T.lt(x, -tol.e()))

        def apart(upto, rec):
            """No match before datum `upto` or record `rec`."""
            return T.b_imp(T.b_and(
                valid(g), T.le(i0.e(), d), T.lt(d, dim.p),
                T.b_or(T.lt(d, upto), T.lt(g, rec))),
                far(tm(g) - dat.term(d)))

        def inv(vals, init):
            loc = e.loop_loc
            rec = A.num_of(o.rec_ind)
            out = {'valid': T.b_or(T.le(n(), rec), valid(rec))}
            ints, fl = numbers(loc, 'i'), numbers(loc, 'f')
            ints = {k: t for k, t in ints.items() if not t.is_const() and
                    t.key() not in (dim.p.key(), tol.e().key())}
            mods = {p[0] for p in vals}
            o.dtime.order(rec)
            for y in set(ints) & mods:
                o.dtime.order(ints[y])
                dat.order(ints[y])
            for y, yt in ints.items():
                out['apart', y] = apart(yt, rec)
                # data before the first boundary
                out['early', y] = T.b_imp(T.b_and(
                    valid(g), T.le(i0.e(), d), T.lt(d, yt)),
                    T.lt(dat.term(d) + tol.e(), tm(g)))
                if y in mods:
                    out['known', y] = valid(yt)
            for x, xt in fl.items():
                if x not in mods:
                    continue
                out['near', x] = T.b_not(far(xt))
                for y, yt in ints.items():
                    out['diff', x, y] = T.b_imp(
                        T.lt(rec, n()), T.eq(xt, tm(rec) - dat.term(yt)))
                    out['best', x, y] = T.b_imp(
                        T.b_and(valid(g), T.lt(g, rec), T.eq(d, yt)),
                        absle(xt, tm(g) - dat.term(d)))
                    for w, wt in ints.items():
                        if w in mods:
                            out['diff', x, y, w] = T.eq(
                                xt, tm(wt) - dat.term(yt))
                for z, zt in fl.items():
                    if z in mods and z != x:
                        out['end', x, z] = T.b_or(T.lt(rec, n()),
                                                  T.eq(xt, zt))
            return out
        e.loop_invariants[:] = [inv]
        e.loop_scope_only = True
        e.loop_scope[:] = [i0.e(), dim.p, s, n()]
        before = objs.attrs(o)
        r = f(o, dat, idat=i0, max_tol=tol, **sel)
        if not (dual and (lims or crit)):
            objs.same_attrs(e, before, o, but=(
                'rec_ind', '_rec_ind', 'ocb', 'eab'))
        rec = A.num_of(o.rec_ind)
        if A.force(T.b_or(T.le(dim.p, i0.e()), T.le(start['records'],
                                                    A.num_of(s0)))):
            e.oblige('nothing left: datum index as it was',
                     T.eq(A.num_of(r), i0.e()))
            e.oblige('nothing left: record index as it was',
                     T.eq(rec, A.num_of(s0)))
            return
        e.oblige('the record index does not go back', T.le(s, rec))
        if r is None or A.force(T.b_or(T.le(dim.p, A.num_of(r)),
                                       T.le(n(), rec))):
            e.oblige('no pair within the tolerance is left',
                     apart(dim.p, n()))
            return
        q = A.num_of(r)
        o.dtime.order(rec)
        dat.order(q)
        e.oblige('datum at or after the given one', T.le(i0.e(), q))
        e.oblige('the boundary is a good one', valid(rec))
        x = tm(rec) - dat.term(q)
        e.oblige('the boundary is within the tolerance', T.b_not(far(x)))
        e.oblige('no earlier datum has a boundary', apart(q, C(-1)))
        e.assume(T.eq(d, q))
        e.oblige('no boundary is closer', T.b_imp(valid(g), absle(
            x, tm(g) - dat.term(d))))
    return run


def contracts():
    out = []
    for cls, first, lims, crit in (
            ('DualBoundary', True, (), ()),
            ('OCBoundary', True, ('min',), ()),
            ('OCBoundary', False, ('max',), (('r', 'min'),)),
            ('OCBoundary', True, (), ()), ('OCBoundary', False, (), ()),
            ('EABoundary', True, (), ()),
            ('EABoundary', False, ('min', 'max'), (('fom', 'maxeq'),)),
            ('DualBoundary', False, (), ()),
            ('DualBoundary', True, ('max',), (('r', 'min'),)),
            ('DualBoundary', False, ('min',), ())):
        out.append(Contract(
            FN, 'match %s, %s, limits %s%s' % (
                cls, 'first call' if first else 'later call',
                '/'.join(lims) or 'default',
                ''.join(', %s %s' % c for c in crit)),
            c_match(cls, first, lims=lims, crit=crit), stubs=[
                'ocbpy._boundary.OCBoundary.get_next_good_ocb_ind',
                'ocbpy._boundary.DualBoundary.set_good_ind']))
    return out
