"""D01: pairs of boundaries."""
from pv import terms as T
from pv import arr as A
from pv import dtf
from pv import lists
from pv import objs
from pv.arr import Arr
from pv.engine import eng, PathEnd, Unsupported
from pv.spec import Contract, C
from checks.D02 import points, term

CLS = 'ocbpy._boundary.DualBoundary.'
ST = ['ocbpy._boundary.OCBoundary.get_next_good_ocb_ind',
      'ocbpy.cycle_boundary.retrieve_all_good_indices',
      'ocbpy.cycle_boundary.match_data_ocb']
NONE = C(-1)


class Column(lists.GhostList):
    """One of the lists describing the pairs.

    Kept are its length, the entry at an arbitrary position, the one before
    and the last one, as numbers (-1 where there is none)."""

    def __init__(self, pos):
        self._pos = pos
        self._probe = None
        self.n = T.ZERO
        self.cell = self.prev = self.last = NONE

    def append(self, v):
        if isinstance(v, dtf.SymDT):
            x = v.t
        else:
            x = A.to_num(A.num_of(v))
        if not isinstance(x, T.P):
            raise Unsupported('list of unknown values')
        if A.force(T.eq(self.n, self._pos)):
            self.cell = x
        elif A.force(T.eq(self.n + T.ONE, self._pos)):
            self.prev = x
        self.last = x
        self.n = self.n + T.ONE

    def __getitem__(self, ix):
        raise Unsupported('element of a list of unknown length')

    def _pv_asarray(self):
        return ColumnArr(self)


class ColumnArr(lists.GhostArr):
    """The array made of such a list."""

    def __init__(self, src):
        self.src, self.n, self._pos = src, src.n, src._pos
        self.seen = {}

    def __getitem__(self, ix):
        kind, p = A.as_index(ix)
        if kind != 'int':
            raise Unsupported('array selection')
        return self.at(self.index(p))

    def at(self, p):
        k = p.key()
        if k not in self.seen:
            self.seen[k] = A.pyint(eng().fresh_int('entry'))
        return self.seen[k]


def columns(vals):
    """The lists by what they hold: {'time' | 'ocb' | 'eab': values}."""
    out = {}
    for p, v in vals.items():
        if p[-1] not in ('n', 'cell', 'prev', 'last') or len(p) < 2:
            continue
        name = '.'.join(map(str, p[:-1])).lower()
        for k in ('time', 'ocb', 'eab'):
            if k in name:
                out.setdefault(k, {})[p[-1]] = v
                break
    return out


def c_pairs(hemi, first_kw=(), lims=()):
    def run(e, cx):
        f = cx.fn()
        o = objs.dual(e, cx, hemi)
        for b in (o.ocb, o.eab):
            b.dtime = objs.sorted_times(b.dtime.name, b.dtime.dim, True)
        e.assume(T.le(T.ZERO, term(o.max_delta)))
        tol = term(o.max_delta)
        kw, keys = {}, {}
        for side_ in ('ocb', 'eab'):
            lo = hi = None
            if side_ + ' min' in lims:
                lo = kw[side_ + '_min_merit'] = A.sym(
                    side_ + ' min', (), 'f', nan=False, py=True)
            if side_ + ' max' in lims:
                hi = kw[side_ + '_max_merit'] = A.sym(
                    side_ + ' max', (), 'f', nan=False, py=True)
            crit = {k: (op, A.sym('limit ' + s + k, (), 'f', nan=False,
                                  py=True))
                    for s, k, op in first_kw if s == side_}
            if crit:
                kw[side_ + '_kwargs'] = crit
            keys[side_] = objs.good_key(lo, hi, crit)
        given = {k: dict(v) for k, v in kw.items() if isinstance(v, dict)}
        pos, g, d = (T.V(x, 'int') for x in ('pair', 'auroral record',
                                             'good polar cap record'))
        e.assume(T.le(T.ZERO, pos))
        n = term(o.eab.records)
        e.assume(T.b_and(T.le(T.ZERO, g), T.lt(g, n)))
        objs.probe(g)
        e.path.state['match_probes'] = [(g, d)]
        lists.use(lambda: Column(pos))
        ok = objs.good(o.eab, g, keys['eab'])
        tm_o, tm_e = o.ocb.dtime.term, o.eab.dtime.term
        goods = objs.all_good_stub(o.ocb, **dict(
            given.get('ocb_kwargs', {}),
            min_merit=kw.get('ocb_min_merit'),
            max_merit=kw.get('ocb_max_merit')))
        e.assume(T.b_and(T.le(T.ZERO, d), T.lt(d, goods.dim.p)))
        rec_d = term(goods.at(d))
        o.ocb.dtime.order(rec_d)
        o.eab.dtime.order(g)

        def far(i, j):
            x = tm_e(i) - tm_o(j)
            return T.b_or(T.lt(tol, x), T.lt(x, -tol))

        def facts(ti, oi, ei, po, pe):
            """What holds of a pair after the one (po, pe)."""
            o.ocb.dtime.order(oi)
            o.eab.dtime.order(ei)
            o.ocb.dtime.order(po)
            later = T.b_and(ok, T.lt(pe, g))
            return {
                'the time is that of the polar cap': T.eq(ti, tm_o(oi)),
                'a good polar cap record': T.b_and(
                    T.le(T.ZERO, oi), T.lt(oi, term(o.ocb.records)),
                    objs.good(o.ocb, oi, keys['ocb'])),
                'a good auroral record': T.b_and(
                    T.le(T.ZERO, ei), T.lt(ei, n),
                    objs.good(o.eab, ei, keys['eab'])),
                'close in time': T.b_not(far(ei, oi)),
                'in the order of the polar cap records': T.le(po, oi),
                'in the order of the auroral records': T.lt(pe, ei),
                'no auroral record left is closer': T.b_imp(later, objs.near(
                    tm_e(ei) - tm_o(oi), tm_e(g) - tm_o(oi))),
                'no polar cap record is skipped': T.b_imp(T.b_and(
                    later, T.le(po, rec_d), T.lt(rec_d, oi)), far(g, rec_d)),
            }

        def ends(po, pe):
            """No pair is left after (po, pe)."""
            return T.b_imp(T.b_and(ok, T.lt(pe, g), T.le(po, rec_d)),
                           far(g, rec_d))

        def inv(vals, init):
            c = columns(vals)
            if set(c) != {'time', 'ocb', 'eab'} or any(
                    len(x) < 4 for x in c.values()):
                return {}
            t, oc, ea = c['time'], c['ocb'], c['eab']
            num = oc['n']
            rec = term(o.eab.rec_ind)
            out = {'as many times': T.eq(t['n'], num),
                   'as many auroral records': T.eq(ea['n'], num),
                   'number': T.le(T.ZERO, num),
                   'from': T.le(NONE, rec)}
            for x, w in ((t, 't'), (oc, 'o'), (ea, 'e')):
                out['before ' + w] = T.b_imp(
                    T.lt(num, pos), T.eq(x['prev'], NONE))
                out['no cell ' + w] = T.b_imp(T.le(num, pos),
                                              T.eq(x['cell'], NONE))
                out['at ' + w] = T.b_imp(T.eq(num, pos),
                                         T.eq(x['prev'], x['last']))
                out['first ' + w] = T.b_imp(
                    T.eq(num, T.ZERO), T.eq(x['last'], NONE))
                out['none ' + w] = T.b_imp(
                    T.eq(pos, T.ZERO), T.eq(x['prev'], NONE))
            out['no negative'] = T.b_imp(T.lt(T.ZERO, num), T.b_and(
                T.le(T.ZERO, oc['last']), T.le(T.ZERO, ea['last'])))
            out['prev'] = T.b_and(T.le(NONE, oc['prev']), T.le(
                NONE, ea['prev']))
            for k, b in facts(t['cell'], oc['cell'], ea['cell'],
                              oc['prev'], ea['prev']).items():
                out['fact ' + k] = T.b_imp(T.lt(pos, num), b)
            # the state after the last pair
            out['next'] = T.b_imp(T.lt(T.ZERO, num), T.b_and(
                T.lt(ea['last'], rec), T.b_or(
                    T.le(n, rec), objs.good(o.eab, rec, keys['eab']))))
            # the position among the polar cap records
            for k, v in e.loop_loc.items():
                if k.startswith('__pv'):
                    continue
                if isinstance(v, (int, Arr)) and not isinstance(v, bool) \
                        and (k,) in vals:
                    if isinstance(v, Arr) and (v.shape_ != () or
                                               v.dtype_ != 'i'):
                        continue
                    p = term(v)
                    goods.order(p)
                    out['position', k] = T.b_and(
                        T.b_imp(T.eq(num, T.ZERO), T.eq(p, T.ZERO)),
                        T.b_imp(T.lt(T.ZERO, num), T.b_and(
                            T.le(T.ZERO, p), T.lt(p, goods.dim.p),
                            T.eq(goods.term(p), oc['last']))))
                    out['stop', k] = T.TRUE
                    out['start', k] = T.b_imp(T.eq(num, T.ZERO),
                                              T.eq(rec, NONE))
                    out['nothing between', k] = T.b_imp(
                        T.b_and(T.lt(T.ZERO, num), ok),
                        T.b_or(T.le(g, ea['last']), T.le(rec, g)))
                elif v is None:
                    for w in ('position', 'start', 'nothing between'):
                        out[w, k] = T.TRUE
                    out['stop', k] = ends(oc['last'], ea['last'])
            return out
        e.loop_invariants[:] = [inv]
        e.loop_scope_only = True
        e.loop_scope[:] = []
        before = [objs.attrs(x) for x in (o, o.ocb, o.eab)]
        new = ('dtime', 'ocb_ind', 'eab_ind', 'records', '_rec_ind')
        f(o, **kw)
        objs.same_attrs(e, before[0], o, but=new)
        for b, was in ((o.ocb, before[1]), (o.eab, before[2])):
            objs.same_attrs(e, was, b, but=('rec_ind',), what='boundary')
        for k, v in given.items():
            e.oblige('frame: criteria unchanged', T.b_const(
                set(kw[k]) == set(v) and all(
                    kw[k][x] is v[x] for x in v)))
        col = {}
        for k, x in (('time', o.dtime), ('ocb', o.ocb_ind),
                     ('eab', o.eab_ind)):
            good_ = isinstance(x, ColumnArr)
            e.oblige('an array of pairs', T.b_const(good_))
            if not good_:
                raise PathEnd()
            col[k] = x.src
        num = term(o.records)
        for k, x in col.items():
            e.oblige('one %s for each pair' % k, T.eq(x.n, num))
        e.oblige('the first pair is selected', T.eq(term(o.rec_ind), T.ZERO))
        points(e, o, ((o.ocb, o.ocb_ind), (o.eab, o.eab_ind)), 'at the end')
        if A.force(T.lt(pos, num)):
            for k, b in facts(col['time'].cell, col['ocb'].cell,
                              col['eab'].cell, col['ocb'].prev,
                              col['eab'].prev).items():
                e.oblige(k, b)
        elif A.force(T.eq(pos, num)):
            e.oblige('no pair is left out at the end',
                     ends(col['ocb'].prev, col['eab'].prev))
    return run


def c_none(hemi, which):
    """A boundary without data has no pairs."""
    def run(e, cx):
        f = cx.fn()
        o = objs.dual(e, cx, hemi)
        for k in which:
            b = getattr(o, k)
            b.dtime = None
            b.records = 0
        before = [objs.attrs(x) for x in (o, o.ocb, o.eab)]
        f(o)
        objs.same_attrs(e, before[0], o, but=(
            'dtime', 'ocb_ind', 'eab_ind', 'records', '_rec_ind'))
        for b, was in ((o.ocb, before[1]), (o.eab, before[2])):
            objs.same_attrs(e, was, b, but=('rec_ind',), what='boundary')
            e.oblige('no record is selected', T.le(term(b.records),
                                                   term(b.rec_ind)))
        e.oblige('no pairs', T.eq(term(o.records), T.ZERO))
        e.oblige('no times', T.b_const(o.dtime is None))
        e.oblige('first', T.eq(term(o.rec_ind), T.ZERO))
    return run


def contracts():
    out = []

    def add(label, run):
        out.append(Contract(CLS + 'set_good_ind', 'set_good_ind ' + label,
                            run, stubs=ST, budget=400.0))
    for h in (1, -1):
        add('defaults, %d' % h, c_pairs(h))
    for k in ('ocb min', 'ocb max', 'eab min', 'eab max'):
        add(k, c_pairs(1, lims=(k,)))
    add('all limits', c_pairs(1, lims=('ocb min', 'ocb max', 'eab min',
                                       'eab max')))
    add('polar cap criteria', c_pairs(1, (('ocb', 'r', 'min'),)))
    add('auroral criteria', c_pairs(-1, (('eab', 'r', 'maxeq'),)))
    add('criteria', c_pairs(1, (('ocb', 'r', 'min'), ('eab', 'r', 'max'),
                                ('eab', 'phi_cent', 'equal')),
                            ('ocb min', 'eab max')))
    for w in (('ocb',), ('eab',), ('ocb', 'eab')):
        add('without data of ' + '/'.join(w), c_none(1, w))
    return out
