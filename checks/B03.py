"""B03: magnetic latitude of a boundary."""
from pv import terms as T
from pv import arr as A
from pv import loops
from pv import objs
from pv.engine import eng, PathEnd
from pv.loader import GenRange
from pv.spec import (Contract, C, make_input, snap, unchanged, expect_shape,
                     val, finite, is_nan, congruent, shared_dim)
from pv.arr import NAN, ABSENT, Arr, Buf

CLS = 'ocbpy._boundary.OCBoundary.'
ST = ['ocbpy.ocb_time.hr2rad', 'ocbpy.ocb_time.deg2hr',
      'ocbpy.ocb_time.fix_range']
NAMES = ('lat', 'mlt', 'lon')


class Entry(object):
    """What a list holds for a record: the object matters, not its value."""

    def __init__(self, what):
        self.what = what

    def _pv_ident(self):
        return ('entry', self.what, id(self))


class Fill(loops.Each):
    """The loop over the requested records, followed at record p."""

    def __init__(self, e, o, p, n, asked, mlt, over, set_lon):
        self.e, self.o, self.p, self.n, self.asked = e, o, p, n, asked
        self.mlt, self.over, self.set_lon = mlt, over, set_lon
        self.init = {k: None for k in NAMES}
        self.used = False

    def lists(self):
        out = {}
        for k in NAMES:
            x = self.o.__dict__.get('aacgm_boundary_' + k)
            if x is None and k == 'lon' and not self.set_lon:
                continue
            ok = isinstance(x, objs.RecList)
            self.e.oblige('a list of boundary %s for the records' % k,
                          T.b_const(ok))
            if not ok:
                raise PathEnd()
            self.e.oblige('list of boundary %s: one entry per record' % k,
                          T.eq(x.dim.p, self.n))
            out[k] = x
        return out

    def fills(self):
        return self.init['lat'] is None or self.over

    def covers(self, it):
        """The loop goes through the requested records."""
        e, d = self.e, None
        if isinstance(it, GenRange):
            d = it.dim
        elif isinstance(it.buf.v, A.KIdx):
            d = it.shape_[0]
        if self.sel is None:
            e.oblige('every record is gone through', T.b_const(False)
                     if d is None else T.eq(d.p, self.n))
            return
        ok = d is None and A.shape_equal(it.shape_, self.sel.shape_)
        x = A.to_num(it.e()) if ok else None
        e.oblige('the requested records are gone through', T.eq(
            x, self.sel.e()) if isinstance(x, T.P) else T.b_const(False))

    def enter(self, it):
        """The state the loop is reached in."""
        self.covers(it)
        self.used = True
        self.now = self.lists()
        for k, x in self.now.items():
            self.e.oblige('boundary %s not touched before' % k, T.b_const(
                x.at(self.p) is self.init[k]))
        self.done = dict(self.init)
        if self.fills():
            for k in self.now:
                if k != 'lon' or self.set_lon:
                    self.done[k] = Entry('calculated ' + k)

    def put(self, entries):
        for k, x in self.now.items():
            x.writes.append((self.p, entries[k]))
            self.mark = len(x.writes)

    def before(self, it):
        self.enter(it)
        e = self.e
        self.seen = bool(self.asked and e.choose('the record was visited'))
        self.put(self.done if self.seen else self.init)
        self.hit = bool(self.asked and e.choose('the turn of the record'))
        if self.hit:
            self.y = self.p
            return
        self.y = y = e.fresh_int('record')
        e.assume(T.le(T.ZERO, y))
        e.assume(T.lt(y, self.n))
        e.assume(T.b_not(T.eq(y, self.p)))

    def item(self):
        return Arr((), 'i', Buf(self.y), nd=False)

    def after(self):
        e = self.e
        got = {k: x.at(self.p) for k, x in self.lists().items()}
        e.oblige('the lists are kept', T.b_const(all(
            x is self.now.get(k) for k, x in self.lists().items())))
        if not self.hit or not self.fills():
            want = self.done if self.seen else self.init
            for k, x in got.items():
                e.oblige('boundary %s of the record kept' % k,
                         T.b_const(x is want[k]))
            return
        if self.seen and not self.over:
            for k, x in got.items():
                e.oblige('boundary %s not calculated again' % k,
                         T.b_const(x is self.done[k]))
            return
        self.formula(got)

    def exit(self, it):
        self.enter(it)
        self.put(self.done if self.asked else self.init)

    def formula(self, got):
        e, o, p, mlt = self.e, self.o, self.p, self.mlt
        sh = mlt.shape_
        for k, x in got.items():
            if k == 'lon' and not self.set_lon:
                # nothing is said about longitudes that are not asked for
                e.oblige('longitude not touched', T.b_const(
                    x is self.init[k] or x is self.done[k]))
                continue
            if k == 'lon' and sh == ():
                e.oblige('longitude is one value', T.b_const(
                    isinstance(x, Arr) and x.shape_ in ((), (1,))))
            else:
                expect_shape(e, x, sh, 'boundary ' + k)
        if mlt.buf.v is ABSENT:
            return
        x, la, m = val(mlt), val(got['lat']), val(got['mlt'])
        t = objs.rec_term(o.dtime.name, p)
        if x is NAN:
            is_nan(e, la, 'undefined local time: latitude')
            is_nan(e, m, 'undefined local time: local time')
            if self.set_lon:
                is_nan(e, val(got['lon']), 'undefined local time: longitude')
            return
        m = finite(e, m, 'local time')
        e.oblige('local time not negative', T.le(T.ZERO, m))
        e.oblige('local time below 24', T.lt(m, C(24)))
        congruent(e, m, x, C(24), 'local time')
        if self.set_lon:
            w = A.elem(objs.lib('mlt True', [m, t], 1)[0])
            if w is NAN:
                is_nan(e, val(got['lon']), 'undefined longitude')
            else:
                e.oblige('longitude of the local time', T.eq(
                    finite(e, val(got['lon']), 'longitude'), w))
        # the angle between the meridian and the centre of the boundary
        cx, sx = objs.polar(m)
        cc, cs = T.trig(T.to_rad(objs.rec_term(o.phi_cent.name, p)))
        rc = objs.rec_term(o.r_cent.name, p)
        along = rc * (cx * cc + sx * cs)
        across = rc * (sx * cc - cx * cs)
        r = objs.radius(o, p, m)
        left = r * r - across * across
        if A.force(T.lt(left, T.ZERO)):
            is_nan(e, la, 'meridian misses the circle: latitude')
            return
        if la is NAN:
            # behind the pole
            e.oblige('undefined only where the meridian misses the circle',
                     T.lt(along + T.sqrt_p(left), T.ZERO))
            return
        colat = C(90) - la.scale(o.hemisphere)
        e.oblige('not beyond the pole', T.le(T.ZERO, colat))
        ahead = colat - along
        e.oblige('on the far side of the centre', T.le(T.ZERO, ahead))
        e.oblige('on the circle', T.eq(ahead * ahead, left))


def c_lat(kind, rec, have, hemi, over, set_lon, dtype='f', cls='OCBoundary'):
    def run(e, cx):
        T.LAZY[0] = True
        f = cx.fn()
        o, dim = objs.boundary(e, cx, hemi, cls)
        mlt = make_input('mlt', kind, dtype)
        p = T.V('probe', 'int')
        e.assume(T.le(T.ZERO, p))
        e.assume(T.lt(p, dim.p))
        kw = {}
        asked = True
        if rec == 'all':
            pass
        elif rec in ('scalar', '0-d'):
            asked = bool(e.choose('the record is asked for'))
            kw['rec_ind'] = Arr((), 'i', Buf(pick(e, p, dim, asked)),
                                nd=rec == '0-d', py=rec == 'scalar')
        else:
            asked = rec != 'empty' and bool(e.choose(
                'the record is asked for'))
            kw['rec_ind'] = Arr(
                {'array': (shared_dim('M'),), 'one': (1,),
                 'empty': (0,)}[rec], 'i', Buf(
                    ABSENT if rec == 'empty' else e.fresh_int('sel')
                    if rec == 'array' else pick(e, p, dim, asked)))
        rule = Fill(e, o, p, dim.p, asked, mlt, over, set_lon)
        rule.sel = kw.get('rec_ind')
        if have:
            done = e.choose('calculated before')
            lon = done and e.choose('with longitudes')
            for k in NAMES:
                if k == 'lon' and have == 'no longitudes':
                    continue
                if done and (k != 'lon' or lon):
                    rule.init[k] = Entry('earlier ' + k)
                o.__dict__['aacgm_boundary_' + k] = objs.RecList(
                    'earlier ' + k, dim, lambda q, k=k: other(p, q, rule, k))
        s = snap(mlt, kw.get('rec_ind'))
        before = objs.attrs(o)
        if over:
            kw['overwrite'] = True
        if not set_lon:
            kw['set_lon'] = False
        e.each_rule = rule
        if rec in ('scalar', '0-d', 'one', 'empty'):
            e.each_rule = None
        try:
            r = f(o, mlt, **kw)
        finally:
            e.each_rule = None
        unchanged(e, s)
        objs.same_attrs(e, before, o, but=['aacgm_boundary_' + k
                                           for k in NAMES])
        got = {k: x.at(p) for k, x in rule.lists().items()}
        if rec in ('scalar', '0-d', 'one', 'empty'):
            rule.seen = False
            rule.done = dict(rule.init)
            if asked and rule.fills():
                rule.formula(got)
                return
            want = rule.init
        else:
            e.oblige('the records are gone through', T.b_const(rule.used))
            if not rule.used:
                return
            want = rule.done if asked else rule.init
        for k, x in got.items():
            e.oblige('boundary %s of the record at the end' % k,
                     T.b_const(x is want[k]))
    return run


def pick(e, p, dim, asked):
    """A record: the one followed, or another one."""
    if asked:
        return p
    y = e.fresh_int('sel')
    e.assume(T.b_and(T.le(T.ZERO, y), T.lt(y, dim.p)))
    e.assume(T.b_not(T.eq(y, p)))
    return y


def other(p, q, rule, k):
    """What the list held before."""
    e = eng()
    if A.force(T.eq(p, q)):
        return rule.init[k]
    if e.choose('calculated before at another record'):
        return Entry('other ' + k)
    return None


def contracts():
    out = []

    def add(*a, **k):
        out.append(Contract(
            CLS + 'get_aacgm_boundary_lat', 'get_aacgm_boundary_lat %s' %
            ', '.join([str(x) for x in a] + ['%s %s' % y
                                             for y in k.items()]),
            c_lat(*a, **k), stubs=ST, budget=400.0))
    for h in (1, -1):
        for kind in ('array', 'scalar', '0-d', 'one', 'empty'):
            if h < 0 and kind not in ('array', 'scalar'):
                continue
            add(kind, 'all', '', h, False, True)
        for rec in ('array', 'scalar'):
            for over in (False, True):
                add('array', rec, 'all lists', h, over, True)
    add('scalar', 'all', 'all lists', 1, True, False)
    add('scalar', 'array', 'no longitudes', 1, False, False)
    add('scalar', 'array', '', 1, False, False)
    add('array', '0-d', 'no longitudes', 1, False, True)
    add('array', 'one', '', 1, False, True)
    add('scalar', 'empty', 'all lists', 1, True, True)
    add('scalar', 'all', '', 1, False, True, dtype='i')
    add('array', 'array', '', 1, False, True, cls='EABoundary')
    add('array', 'all', '', 1, False, True, dtype='i')
    add('scalar', 'all', 'all lists', 1, True, True)
    add('scalar', 'all', 'all lists', 1, False, True)
    return out
