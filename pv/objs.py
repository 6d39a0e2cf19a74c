"""Boundary objects with an arbitrary number of arbitrary records.

A record attribute (`phi_cent`, `r`, `dtime`, ...) is an uninterpreted
function of the record index: nothing is known about record i except that it
is one value.  The object itself is a real instance of the class in /repo,
made without running __init__; its methods are the real ones.
"""

from pv import terms as T
from pv import arr as A
from pv import dtf
from pv import npf
from pv.arr import Arr, Buf, NAN, ABSENT
from pv.engine import eng, Unsupported, PathEnd
from pv.spec import C, stub, val


class RecArr(object):
    """An array with one entry per record."""

    def __init__(self, name, dim, make, dtype='f'):
        self.name, self.dim, self.make = name, dim, make
        self.dtype_ = dtype
        self.cache = {}

    def _pv_ident(self):
        return ('rec', self.name)

    @property
    def shape(self):
        return (self.dim,)

    @property
    def size(self):
        return self.dim

    ndim = 1

    def pv_len(self):
        return A.pyint(self.dim.p)

    def index(self, p):
        """The record a Python index means."""
        if A.force(T.lt(p, T.ZERO)):
            p = p + self.dim.p
            if A.force(T.lt(p, T.ZERO)):
                raise IndexError('record index out of range')
        elif A.force(T.le(self.dim.p, p)):
            raise IndexError('record index out of range')
        return p

    def at(self, p):
        k = p.key()
        if k not in self.cache:
            self.cache[k] = self.make(p)
        return self.cache[k]

    def __getitem__(self, ix):
        h = getattr(ix, '_pv_take', None)
        if h is not None:
            return h(self)
        kind, p = A.as_index(ix)
        if kind == 'int':
            return self.at(self.index(p))
        if kind == 'fancy' or (kind == 'idx' and p.e() is ABSENT):
            v = p.e()
            if v is ABSENT:
                return Arr(p.shape_, self.dtype_, Buf(ABSENT))
            r = self.at(self.index(v))
            if self.dtype_ == 'O':
                raise Unsupported('selection of record objects')
            return Arr(p.shape_, self.dtype_, Buf(r.buf.v))
        raise Unsupported('records selected by %s' % kind)

    def __setitem__(self, ix, v):
        raise Unsupported('record attribute changed')

    def __iter__(self):
        raise Unsupported('iteration over the records')

    def __len__(self):
        raise Unsupported('native length of the records')


class RecList(RecArr):
    """A list with one entry per record that can be assigned to."""

    def __init__(self, name, dim, make):
        RecArr.__init__(self, name, dim, make, 'O')
        self.writes = []

    def _pv_ident(self):
        return ('reclist', self.name, len(self.writes))

    def __setitem__(self, ix, v):
        kind, p = A.as_index(ix)
        if kind != 'int':
            raise Unsupported('list assigned through %s' % kind)
        self.writes.append((self.index(p), v))

    def at(self, p):
        for q, v in reversed(self.writes):
            if A.force(T.eq(p, q)):
                return v
        return RecArr.at(self, p)


def rec_term(name, p):
    return T.apply_uf('rec ' + name, [p])


def rec_float(name, dim, fact=None):
    def make(p):
        t = rec_term(name, p)
        if fact is not None:
            eng().assume(fact(t))
        return Arr((), 'f', Buf(t), nd=False)
    return RecArr(name, dim, make)


def rec_time(name, dim):
    return RecArr(name, dim, lambda p: dtf.SymDT(rec_term(name, p)), 'O')


class SortedTimes(RecArr):
    """Times in increasing order; `also` names positions asked about."""

    def __init__(self, name, dim, strict, also=()):
        RecArr.__init__(self, name, dim, self.time, 'O')
        self.strict = strict
        self.known = []
        for p in also:
            self.at(p)

    def term(self, p):
        return rec_term(self.name, p)

    def order(self, p):
        """Where the time of p lies among those asked about."""
        if not any((p - q).is_zero() for q in self.known):
            self.at(p)

    def time(self, p):
        t = self.term(p)
        less = T.lt if self.strict else T.le
        for q in self.known:
            u = self.term(q)
            for a, x, b, y in ((p, t, q, u), (q, u, p, t)):
                f = T.b_imp(T.lt(a, b), less(x, y))
                if f.op != 'c':
                    eng().path.add(f)
        self.known.append(p)
        return dtf.SymDT(t)


def sorted_times(name, dim, strict=True, also=()):
    return SortedTimes(name, dim, strict, also)


class GoodList(RecArr):
    """The good records, all of them and in order."""

    def __init__(self, name, o, key):
        n = name + 'number'
        dim = A.Dim(n, T.V(n, 'int'), count_of=T.TRUE)
        eng().assume(T.le(T.ZERO, dim.p))
        RecArr.__init__(self, name, dim, self.element, 'i')
        self.o, self.key, self.known = o, key, []

    def term(self, p):
        return T.apply_uf('rec ' + self.name, [p])

    def element(self, p):
        e = eng()
        x = self.term(p)
        inside = T.b_and(T.le(T.ZERO, p), T.lt(p, self.dim.p))
        e.assume(T.b_imp(inside, T.b_and(
            T.le(T.ZERO, x), T.lt(x, A.num_of(self.o.records)),
            good(self.o, x, self.key))))
        for q in self.known:
            y = self.term(q)
            for a, u, b, v in ((p, x, q, y), (q, y, p, x)):
                f = T.b_imp(T.b_and(T.le(T.ZERO, a), T.lt(a, b),
                                    T.lt(b, self.dim.p)), T.lt(u, v))
                if f.op != 'c':
                    e.path.add(f)
        self.known.append(p)
        return A.pyint(x)

    def order(self, p):
        self.at(p)

    def _pv_take(self, rec):
        if not isinstance(rec, SortedTimes):
            raise Unsupported('records selected by a list')
        return TakenTimes(self, rec)

    def __getitem__(self, ix):
        kind, p = A.as_index(ix)
        if kind != 'int':
            raise Unsupported('list selection')
        return self.at(self.index(p))


class TakenTimes(SortedTimes):
    """The times of the records in a list of good ones."""

    def __init__(self, recs, src):
        self.recs, self.src = recs, src
        SortedTimes.__init__(self, src.name + ' of ' + recs.name, recs.dim,
                             src.strict)

    def term(self, p):
        return self.src.term(self.recs.term(p))

    def time(self, p):
        self.recs.at(p)
        return self.src.at(self.recs.term(p))

    def order(self, p):
        self.at(p)


class Rfunc(object):
    """The radius correction of one record: any function of the MLT."""

    def __init__(self, name, p):
        self.name, self.p = name, p

    def __call__(self, mlt, pv_record=None):
        e = eng()
        e.oblige('the correction gets the keywords of its record',
                 T.b_const(False) if pv_record is None else
                 T.eq(pv_record.e(), self.p))
        mlt = npf.asarray(mlt)
        v = mlt.buf.v
        if v is ABSENT:
            return Arr(mlt.shape_, 'f', Buf(ABSENT), nd=True)
        return Arr(mlt.shape_, 'f', Buf(self.term(A.to_num(mlt.e()))),
                   nd=True)

    def term(self, x):
        if x is NAN:
            t = T.apply_uf('real:rfunc nan ' + self.name, [self.p])
        else:
            t = T.apply_uf('real:rfunc ' + self.name, [self.p, x])
        # boundaries have a positive radius everywhere
        eng().assume(T.lt(T.ZERO, rec_term(self.name + 'r', self.p) + t))
        return t


def fresh_obj(cls):
    return cls.__new__(cls)


def boundary(e, cx, hemi, cls='OCBoundary', name='', records=None,
             rec_ind='any', some=False):
    """An arbitrary boundary object; returns (object, facts about it)."""
    k = getattr(cx.mod('ocbpy._boundary'), cls)
    o = fresh_obj(k)
    n = name + 'records'
    dim = A.Dim(n, T.V(n, 'int'), count_of=T.TRUE)
    # zero records are possible
    e.assume(T.le(T.ONE if some else T.ZERO, dim.p))
    o.filename, o.instrument = 'file', 'image'
    o.hemisphere = hemi
    o.records = A.pyint(dim.p)
    if rec_ind == 'any':
        o.rec_ind = A.sym(name + 'rec_ind', (), 'i', nan=False, py=True)
    elif rec_ind is not None:
        o.rec_ind = rec_ind
    o.dtime = rec_time(name + 'dtime', dim)
    o.phi_cent = rec_float(name + 'phi_cent', dim)
    o.r_cent = rec_float(name + 'r_cent', dim)
    o.r = rec_float(name + 'r', dim)
    o.fom = rec_float(name + 'fom', dim)
    o.rfunc = RecArr(name + 'rfunc', dim,
                     lambda p: Rfunc(name, p), 'O')
    o.rfunc_kwargs = RecArr(name + 'rfunc_kwargs', dim,
                            lambda p: {'pv_record': A.pyint(p)}, 'O')
    b = A.sym(name + 'boundary_lat', (), 'f', nan=False, py=True)
    h = C(hemi)
    e.assume(T.lt(T.ZERO, b.e() * h))
    e.assume(T.lt(b.e() * h, C(90)))
    o.boundary_lat = b
    o.min_fom = A.sym(name + 'min_fom', (), 'f', nan=False, py=True)
    o.max_fom = A.sym(name + 'max_fom', (), 'f', nan=False, py=True)
    return o, dim


def attrs(o):
    """What an object holds, for the frame condition."""
    from pv import loops
    out = {}
    for k, v in o.__dict__.items():
        out[k] = (loops.ident(v), v)
    return out


def same_attrs(e, before, o, but=(), what='object'):
    now = attrs(o)
    keys = (set(before) | set(now)) - set(but)
    for k in sorted(keys):
        ok = k in before and k in now and before[k][0] == now[k][0]
        if not ok and k in before and k in now:
            a, b = before[k][1], now[k][1]
            if isinstance(a, Arr) and isinstance(b, Arr) and not a.nd and \
                    not b.nd and isinstance(val(a), T.P) and isinstance(
                        val(b), T.P):
                e.oblige('frame: %s.%s unchanged' % (what, k),
                         T.eq(val(a), val(b)))
                continue
        e.oblige('frame: %s.%s unchanged' % (what, k), T.b_const(ok))


# ------------------------------------------------------------- geometry

def polar(mlt):
    """cos and sin of an hour angle."""
    return T.trig(T.to_rad(mlt.scale(15)))


def centre(o, i):
    """The boundary centre relative to the magnetic pole."""
    phi = rec_term(o.phi_cent.name, i)
    rc = rec_term(o.r_cent.name, i)
    c, s = T.trig(T.to_rad(phi))
    return rc * c, rc * s


def radius(o, i, mlt):
    return rec_term(o.r.name, i) + o.rfunc.at(i).term(mlt)


# ------------------------------------------------------------ aacgmv2

def flags(method):
    if not isinstance(method, str):
        raise Unsupported('symbolic AACGM method')
    return ','.join(sorted(set(method.upper().split('|')) - {''}))


def lib(name, args, nouts):
    """Outputs of a library conversion: unknown functions of the inputs."""
    key = ('lib', name) + tuple(a.key() for a in args)
    cache = eng().path.cache
    if key not in cache:
        out = []
        for k in range(nouts):
            t = T.apply_uf('real:%s %d' % (name, k), list(args))
            out.append(A.Lazy('%s %d %r' % (name, k, key[2:]), t))
        cache[key] = out
    return cache[key]


def time_term(d):
    t = dtf._time(d)
    if t is None:
        raise TypeError('time is not a datetime')
    return t


def lib_arr(name, xs, t, nouts, vector=False):
    xs = [npf.asarray(x) for x in xs]
    sh = ()
    for x in xs:
        sh = A.bcast(sh, x.shape_)
    if vector and sh == ():
        # single locations come back as arrays of one element
        sh = (1,)
    if any(x.buf.v is ABSENT for x in xs):
        vs = [ABSENT] * nouts
    else:
        es = [A.to_num(x.e()) for x in xs]
        vs = [NAN] * nouts if NAN in es else lib(name, es + [t], nouts)
    return tuple(Arr(sh, 'f', Buf(v), nd=True) for v in vs)


class Aacgm(object):
    """Contracts assumed of the aacgmv2 library: deterministic functions of
    their arguments that raise nothing and change nothing."""

    def get_aacgm_coord_arr(self, lat, lon, height, dtime,
                            method='ALLOWTRACE'):
        return lib_arr('g2a %s' % flags(method + '|G2A'),
                       [lat, lon, height], time_term(dtime), 3, True)

    def convert_latlon_arr(self, lat, lon, height, dtime,
                           method_code='G2A'):
        return lib_arr('conv %s' % flags(method_code), [lat, lon, height],
                       time_term(dtime), 3, True)

    def convert_mlt(self, x, dtime, m2a=False):
        r, = lib_arr('mlt %s' % bool(m2a), [x], time_term(dtime), 1, True)
        return r


@stub('ocbpy.ocb_time.slt2glon')
def slt2glon(slt, dtime):
    return lib_arr('slt2glon', [slt], time_term(dtime), 1)[0]


@stub('ocbpy.ocb_time.glon2slt')
def glon2slt(glon, dtime):
    return lib_arr('glon2slt', [glon], time_term(dtime), 1)[0]


# ------------------------------------------------- contracts of the methods

def in_range(o):
    i = A.to_num(A.num_of(o.rec_ind))
    return T.b_and(T.le(T.ZERO, i), T.lt(i, A.to_num(A.num_of(o.records))))


def geographic(o, i, coords, method, lat, lt, height):
    """Magnetic coordinates of a location, as aacgmv2 gives them."""
    if NAN in (lat, lt, height):
        return NAN, NAN
    t = rec_term(o.dtime.name, i)
    lon, = lib('slt2glon', [lt, t], 1)
    lon = A.elem(lon)
    if lon is NAN:
        return NAN, NAN
    fl = flags('|'.join([method, 'G2A'] + (
        ['GEOCENTRIC'] if coords == 'geocentric' else [])))
    out = lib('g2a ' + fl, [lat, lon, height, t], 3)
    return A.elem(out[0]), A.elem(out[2])


def to_geographic(o, i, coords, method, lat, mlt, height):
    """Geographic coordinates of a magnetic location."""
    t = rec_term(o.dtime.name, i)
    lon = A.elem(lib('mlt True', [mlt, t], 1)[0])
    if lon is NAN:
        return NAN, NAN
    fl = flags('|'.join([method, 'A2G'] + (
        ['GEOCENTRIC'] if coords == 'geocentric' else [])))
    out = lib('conv ' + fl, [lat, lon, height, t], 3)
    glon = A.elem(out[1])
    return A.elem(out[0]), NAN if glon is NAN else A.elem(
        lib('glon2slt', [glon, t], 1)[0])


def scaled(o, i, lat, mlt):
    """The place relative to the boundary centre, scaled to the reference."""
    hemi = o.hemisphere
    xc, yc = centre(o, i)
    c, s = polar(mlt)
    p = C(90) - lat.scale(hemi)
    k = (C(90) - o.boundary_lat.e().scale(hemi)) * T.inv_p(
        radius(o, i, mlt))
    return (p * c - xc) * k, (p * s - yc) * k


def unscaled(o, i, olat, omlt, rc):
    """The place relative to the magnetic pole of boundary coordinates."""
    hemi = o.hemisphere
    xc, yc = centre(o, i)
    c, s = polar(omlt)
    rad = rec_term(o.r.name, i) + rc
    k = rad * T.inv_p(C(90) - o.boundary_lat.e().scale(hemi))
    rn = C(90) - olat.scale(hemi)
    return rn * c * k + xc, rn * s * k + yc


def position(rho, mlt, x, y, pole):
    """(rho, mlt) are the polar coordinates of the point (x, y)."""
    c, s = polar(mlt)
    return [('not beyond the pole', T.le(T.ZERO, rho)),
            ('distance from the ' + pole, T.eq(rho * rho, x * x + y * y)),
            ('local time at least 0', T.le(T.ZERO, mlt)),
            ('local time below 24', T.lt(mlt, C(24))),
            ('direction from the %s (noon)' % pole, T.eq(rho * c, x)),
            ('direction from the %s (dawn)' % pole, T.eq(rho * s, y))]


def facts(items):
    for _, b in items:
        eng().assume(b)
    return items


def longest(*xs):
    return max([x.shape_ for x in xs])


def gives(o, kind):
    """Prefix for the unknown results of a boundary object."""
    return 'real:%s %s %s' % (o.dtime.name, o.hemisphere, kind)


def normal_stub(self, lat, lt, coords='magnetic', height=350.0,
                method='ALLOWTRACE'):
    lat, lt, hgt = [npf.asarray(x) for x in (lat, lt, height)]
    mag = 'mag' in coords.lower()
    sh = longest(lat, lt, hgt)
    if not A.force(in_range(self)):
        none = ABSENT if ABSENT in (lat.buf.v, lt.buf.v) else NAN
        return tuple(Arr(sh, 'f', Buf(none), nd=True) for _ in range(3))
    if not mag and sh == ():
        sh = (1,)
    if ABSENT in (lat.buf.v, lt.buf.v) or (not mag and
                                           hgt.buf.v is ABSENT):
        return tuple(Arr(sh, 'f', Buf(ABSENT), nd=True) for _ in range(3))
    i = A.to_num(A.num_of(self.rec_ind))
    la, m = val(lat), val(lt)
    if not mag:
        la, m = geographic(self, i, coords.lower(), method, la, m, val(hgt))
    vals = normal_value(self, i, la, m)
    return tuple(Arr(sh, 'f', Buf(v), nd=True) for v in vals)


def normal_value(o, i, la, m):
    if NAN in (la, m) or A.force(T.le(la.scale(o.hemisphere), T.ZERO)):
        return NAN, NAN, anything('correction where there is no location')
    args = [i, la, m]
    rho = T.apply_uf(gives(o, 'boundary colatitude'), args)
    b = T.apply_uf(gives(o, 'boundary local time'), args)
    key = ('normal facts', o.dtime.name) + tuple(a.key() for a in args)
    if key not in eng().path.cache:
        eng().path.cache[key] = True
        xn, yn = scaled(o, i, la, m)
        facts(position(rho, b, xn, yn, 'boundary centre'))
    return (C(90) - rho).scale(o.hemisphere), b, o.rfunc.at(i).term(m)


def anything(name):
    """A value the contract says nothing about."""
    n = eng().path.fresh(name)
    return A.Lazy(n, T.V(n))


def revert_stub(self, ocb_lat, ocb_mlt, r_corr=0.0, coords='magnetic',
                height=350.0, method='ALLOWTRACE'):
    xs = [npf.asarray(x) for x in (ocb_lat, ocb_mlt, r_corr, height)]
    mag = 'mag' in coords.lower()
    sh = longest(*xs)
    used = xs[:3] if mag else xs
    gone = any(x.buf.v is ABSENT for x in used)
    if not A.force(in_range(self)):
        return tuple(Arr(sh, 'f', Buf(ABSENT if gone else NAN), nd=True)
                     for _ in range(2))
    if not mag and sh == ():
        sh = (1,)
    if gone:
        return tuple(Arr(sh, 'f', Buf(ABSENT), nd=True) for _ in range(2))
    vals = revert_value(self, A.to_num(A.num_of(self.rec_ind)),
                        *[val(x) for x in used[:3]], alone=sh == (),
                        geo=None if mag else (coords.lower(), method,
                                              val(xs[3])))
    return tuple(Arr(sh, 'f', Buf(v), nd=True) for v in vals)


def revert_value(o, i, la, m, rc, alone=False, geo=None):
    h = o.hemisphere
    if la is NAN:
        return NAN, anything('local time of no location')
    if A.force(T.le(la.scale(h), T.ZERO)):
        if alone:
            return NAN, NAN
        return (anything('latitude of the wrong side'),
                anything('local time of the wrong side'))
    if m is NAN or rc is NAN:
        return NAN, anything('local time of no location')
    args = [i, (C(90) - la.scale(h)), m, rc]
    rho = T.apply_uf(gives(o, 'magnetic colatitude'), args)
    b = T.apply_uf(gives(o, 'magnetic local time'), args)
    key = ('revert facts', o.dtime.name) + tuple(a.key() for a in args)
    if key not in eng().path.cache:
        eng().path.cache[key] = True
        eng().oblige('revert_coord needs a positive boundary radius',
                     T.lt(T.ZERO, rec_term(o.r.name, i) + rc))
        x, y = unscaled(o, i, la, m, rc)
        facts(position(rho, b, x, y, 'magnetic pole'))
    lat = (C(90) - rho).scale(h)
    if geo is None:
        return lat, b
    coords, method, hv = geo
    if hv is NAN:
        return NAN, NAN
    return to_geographic(o, i, coords, method, lat, b, hv)


def good(o, p, key):
    """Record p meets the selection described by the key."""
    return T.eq(T.apply_uf('good %s %s' % (o.dtime.name, key), [p]), T.ONE)


def good_key(lo, hi, kw):
    from pv import loops
    return repr((loops.ident(lo), loops.ident(hi), sorted(
        (k, v[0], loops.ident(v[1])) for k, v in kw.items())))


def probe(p):
    """A record the contract asks about."""
    eng().path.state.setdefault('probes', []).append(p)


def next_good_stub(self, min_merit=None, max_merit=None, **kwargs):
    e = eng()
    kw = {k: v for k, v in kwargs.items() if hasattr(self, k)}
    key = good_key(min_merit, max_merit, kw)
    i, n = A.num_of(self.rec_ind), A.num_of(self.records)
    e.oblige('cycling starts at a record or before the first',
             T.le(C(-1), i))
    r = e.fresh_int('next good')
    e.assume(T.lt(i, r))
    e.assume(T.b_imp(T.lt(r, n), good(self, r, key)))
    e.assume(T.b_imp(T.le(n, r), T.b_or(T.eq(r, n), T.eq(r, i + T.ONE))))
    for j in e.path.state.get('probes', ()):
        e.assume(T.b_imp(T.b_and(T.lt(i, j), T.lt(j, r), T.lt(j, n)),
                         T.b_not(good(self, j, key))))
    self.rec_ind = A.pyint(r)


from pv import spec as _spec  # noqa: E402

for _c in ('OCBoundary', 'EABoundary'):
    _spec.CONTRACT_STUBS['ocbpy._boundary.%s.normal_coord' % _c] = normal_stub
    _spec.CONTRACT_STUBS[
        'ocbpy._boundary.%s.get_next_good_ocb_ind' % _c] = next_good_stub
    _spec.CONTRACT_STUBS['ocbpy._boundary.%s.revert_coord' % _c] = revert_stub


# ----------------------------------------------------------- paired boundaries

def edge_value(o, i, m):
    """Latitude of the boundary of record i at a local time (B03)."""
    if m is NAN:
        return NAN
    t = T.apply_uf('real:' + gives(o, 'boundary latitude'), [i, m])
    eng().assume(T.le(t.scale(o.hemisphere), C(90)))
    return A.Lazy('edge %s %r %r' % (o.dtime.name, i.key(), m.key()), t)


class Kept(object):
    """Something kept in a list; the object matters, not its value."""

    def __init__(self, what):
        self.what = what

    def _pv_ident(self):
        return ('kept', self.what, id(self))


@_spec.stub('ocbpy._boundary.OCBoundary.get_aacgm_boundary_lat')
def edge_stub(self, aacgm_mlt, rec_ind=None, overwrite=False, set_lon=True):
    from pv import contracts as K
    e = eng()
    if rec_ind is None:
        raise Unsupported('boundary latitude at every record')
    x = npf.asarray(aacgm_mlt)
    i = A.num_of(rec_ind)
    e.oblige('the record exists', T.b_and(
        T.le(T.ZERO, i), T.lt(i, A.num_of(self.records))))
    dim = self.dtime.dim
    names = ['lat', 'mlt'] + (['lon'] if set_lon else [])
    now = {}
    for k in names:
        n = 'aacgm_boundary_' + k
        if not hasattr(self, n):
            self.__dict__[n] = RecList('list of None', dim, lambda p: None)
        now[k] = self.__dict__[n]
    if not overwrite and now['lat'].at(i) is not None:
        return
    if x.buf.v is ABSENT:
        la = m = ABSENT
    else:
        v = val(x)
        la = edge_value(self, i, v)
        m = NAN if v is NAN else K.wrap_term(v, C(0), C(24), C(24))
    now['lat'].writes.append((i, Arr(x.shape_, 'f', Buf(la), nd=True)))
    now['mlt'].writes.append((i, Arr(x.shape_, 'f', Buf(m), nd=True)))
    if set_lon:
        now['lon'].writes.append((i, Kept('longitude')))


@_spec.stub('ocbpy.cycle_boundary.retrieve_all_good_indices')
def all_good_stub(ocb, min_merit=None, max_merit=None, **kwargs):
    kw = {k: v for k, v in kwargs.items() if hasattr(ocb, k)}
    key = good_key(min_merit, max_merit, kw)
    cache = eng().path.cache
    k = ('all good', ocb.dtime.name, key)
    if k not in cache:
        cache[k] = GoodList('all good %s %s' % (ocb.dtime.name, len(cache)),
                            ocb, key)
    return cache[k]


@_spec.stub('ocbpy.cycle_boundary.match_data_ocb')
def match_stub(ocb, dat_dtime, idat=0, max_tol=60, min_merit=None,
               max_merit=None, **kwargs):
    """Matching with the records of one boundary (B06)."""
    e = eng()
    kw = {k: v for k, v in kwargs.items() if hasattr(ocb, k)}
    key = good_key(min_merit, max_merit, kw)
    if not isinstance(dat_dtime, SortedTimes) or not isinstance(
            ocb.dtime, SortedTimes) or not ocb.dtime.strict:
        raise Unsupported('matching of unsorted times')
    s, n = A.num_of(ocb.rec_ind), A.num_of(ocb.records)
    i0, tol = A.num_of(idat), A.num_of(max_tol)
    m = dat_dtime.dim.p
    e.oblige('matching starts at a record or before the first',
             T.le(C(-1), s))
    e.oblige('matching starts at a datum', T.le(T.ZERO, i0))
    e.oblige('the tolerance is not negative', T.le(T.ZERO, tol))
    if A.force(T.b_or(T.le(m, i0), T.le(n, s))):
        return idat

    def valid(p):
        return T.b_and(T.b_or(
            T.b_and(T.le(T.ZERO, s), T.eq(p, s)),
            T.b_and(T.lt(s, p), good(ocb, p, key))), T.lt(p, n))

    def far(p, d):
        ocb.dtime.order(p)
        dat_dtime.order(d)
        x = ocb.dtime.term(p) - dat_dtime.term(d)
        return T.b_or(T.lt(tol, x), T.lt(x, -tol))

    def apart(g, d, upto):
        return T.b_imp(T.b_and(valid(g), T.le(i0, d), T.lt(d, upto)),
                       far(g, d))
    probes = e.path.state.get('match_probes', ())
    r, rec = e.fresh_int('match datum'), e.fresh_int('match record')
    e.assume(T.le(s, rec))
    for g, d in probes:
        dat_dtime.order(d)
    if not e.choose('a match'):
        for g, d in probes:
            e.assume(apart(g, d, m))
        ocb.rec_ind = A.pyint(rec)
        if e.choose('no datum'):
            return None
        e.assume(T.b_or(T.le(m, r), T.le(n, rec)))
        e.assume(T.le(i0, r))
        return A.pyint(r)
    e.assume(T.b_and(T.le(i0, r), T.lt(r, m)))
    e.assume(valid(rec))
    e.assume(T.b_not(far(rec, r)))
    x = ocb.dtime.term(rec) - dat_dtime.term(r)
    for g, d in probes:
        e.assume(apart(g, d, r))
        far(g, r)
        y = ocb.dtime.term(g) - dat_dtime.term(r)
        e.assume(T.b_imp(valid(g), near(x, y)))
    ocb.rec_ind = A.pyint(rec)
    return A.pyint(r)


def near(x, y):
    """|x| <= |y|."""
    return T.b_or(T.b_and(T.le(T.ZERO, y), T.le(x, y), T.le(-y, x)),
                  T.b_and(T.lt(y, T.ZERO), T.le(x, -y), T.le(y, x)))


def rec_int(name, dim, lo, hi):
    """Indices below `hi` for each record."""
    def make(p):
        t = T.apply_uf('rec ' + name, [p], 'int')
        eng().path.add(T.b_and(T.le(lo, t), T.lt(t, hi)))
        return Arr((), 'i', Buf(t), nd=False)
    return RecArr(name, dim, make, 'i')


def dual(e, cx, hemi, also=(), expect=None, name='', inside=False):
    """An arbitrary DualBoundary with its two boundaries."""
    o = fresh_obj(cx.mod('ocbpy._boundary').DualBoundary)
    ocb, dim1 = boundary(e, cx, hemi, 'OCBoundary', name + 'ocb ')
    eab, dim2 = boundary(e, cx, hemi, 'EABoundary', name + 'eab ')
    d = o.__dict__
    d.update(ocb=ocb, eab=eab, hemisphere=hemi)
    d['max_delta'] = A.sym(name + 'max_delta', (), 'i', nan=False, py=True)
    pairs(o, name, also)
    d['_rec_ind'] = A.sym(name + '_rec_ind', (), 'i', nan=False, py=True)
    d['pv_expect'] = expect
    return o


def pairs(o, name='', also=()):
    n = name + 'pairs'
    dim = A.Dim(n, T.V(n, 'int'), count_of=T.TRUE)
    eng().assume(T.le(T.ZERO, dim.p))
    o.records = A.pyint(dim.p)
    o.dtime = sorted_times(name + 'pair dtime', dim, True, also)
    o.ocb_ind = rec_int(name + 'ocb_ind', dim, T.ZERO,
                        A.num_of(o.ocb.records))
    o.eab_ind = rec_int(name + 'eab_ind', dim, T.ZERO,
                        A.num_of(o.eab.records))


@_spec.stub('ocbpy._boundary.DualBoundary.set_good_ind')
def set_good_stub(self, ocb_min_merit=None, ocb_max_merit=None,
                  ocb_kwargs=None, eab_min_merit=None, eab_max_merit=None,
                  eab_kwargs=None):
    e = eng()
    x = self.__dict__.get('pv_expect')
    if x is not None:
        from pv import loops
        for a, b, w in ((ocb_min_merit, x['min'], 'polar cap minimum'),
                        (eab_min_merit, x['min'], 'auroral minimum'),
                        (ocb_max_merit, x['max'], 'polar cap maximum'),
                        (eab_max_merit, x['max'], 'auroral maximum')):
            e.oblige('selection: ' + w, T.b_const(
                loops.ident(a) == loops.ident(b)))
        for k, w in ((ocb_kwargs, 'polar cap'), (eab_kwargs, 'auroral')):
            k = k or {}
            e.oblige('selection: %s criteria' % w, T.b_const(
                good_key(None, None, k) == good_key(None, None, x['kw'])))
    probes = self.dtime.known if isinstance(self.dtime, SortedTimes) else ()
    pairs(self, e.path.fresh('new '), probes)
    self.rec_ind = 0


# ------------------------------------------------------------ vectors (S02)



def seen_angle(lt, lat, plt, plat):
    """The angle of V02 for one location."""
    if NAN in (lt, lat, plt, plat):
        return NAN
    t = T.apply_uf('real:angle at the data', [lt, lat, plt, plat])
    eng().assume(T.b_and(T.le(T.ZERO, t), T.le(t, C(180))))
    return t


@_spec.stub('ocbpy.vectors.calc_vec_pole_angle')
def angle_stub(data_lt, data_lat, pole_lt, pole_lat):
    from pv import contracts as K
    return K.many(seen_angle, data_lt, data_lat, pole_lt, pole_lat)


def turned(k, lt, lat, n, e, z, plt, plat, p):
    """Component k of a vector expressed towards another pole (V03)."""
    if NAN not in (n, e) and A.force(T.b_and(T.eq(n, T.ZERO),
                                             T.eq(e, T.ZERO))):
        return T.ZERO if k < 2 else z()
    if p is not NAN and A.force(T.b_or(T.eq(p, T.ZERO), T.eq(p, C(180)))):
        # aligned poles keep the components that are defined
        if k == 2:
            return z()
        if (n, e)[k] is NAN:
            return NAN
        xs = [lt, lat, n, e, plt, plat, p]
        return T.apply_uf('real:turned %d %s' % (k, ''.join(
            '-' if x is NAN else '+' for x in xs)),
            [x for x in xs if x is not NAN])
    elif NAN in (lt, n, e, plt, p):
        return NAN if k < 2 else anything('vertical part of no vector')
    elif k == 2:
        return z()
    return T.apply_uf('real:turned %d' % k, [lt, lat, n, e, plt, plat, p])


def quad_of_pole(lt, plt, p):
    if NAN in (lt, plt, p):
        return T.ZERO
    return T.apply_uf('real:pole quadrant', [lt, plt, p])


def quad_of_vect(n, e):
    if NAN in (n, e):
        return T.ZERO
    return T.apply_uf('real:vector quadrant', [n, e])


def pole_quad_stub(data_lt, pole_lt, pole_angle):
    from pv import contracts as K
    return K.many(quad_of_pole, data_lt, pole_lt, pole_angle)


def vect_quad_stub(vect_n, vect_e):
    from pv import contracts as K
    return K.many(quad_of_vect, vect_n, vect_e)


@_spec.stub('ocbpy.vectors.adjust_vector')
def turn_stub(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad, pole_lt,
              pole_lat, pole_angle, pole_quad):
    from pv import contracts as K
    e = eng()
    xs = [npf.asarray(x) for x in (
        vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad, pole_lt,
        pole_lat, pole_angle, pole_quad)]
    sh = longest(*xs)
    if any(x.buf.v is ABSENT for x in xs):
        return tuple(Arr(sh, 'f', Buf(ABSENT), nd=True) for _ in range(3))

    def look(x):
        return val(x)
    lt, lat, n, ea, z, vq, plt, plat, p, pq = xs

    def none(w):
        if w == 'pole':
            return NAN in (look(lt), look(plt), look(p))
        return NAN in (look(n), look(ea))
    generic = any(x.generic() for x in xs)
    if none('pole'):
        # refused when it is defined for no element
        e.oblige('no angle without the place of the pole', T.b_const(
            look(p) is NAN))
        if generic:
            bad = A.force(A.all_of(npf.isnan(p)))
        else:
            bad = none('vector') or not A.force(T.b_and(
                T.eq(look(n), T.ZERO), T.eq(look(ea), T.ZERO)))
        if bad:
            raise ValueError('pole quadrant is undefined')
    if none('vector') and (not generic or e.choose('no vector is defined')):
        raise ValueError('vector quadrant is undefined')
    got = {}

    def element(k):
        if 'in' not in got:
            got['in'] = v = [look(x) for x in (lt, lat, n, ea, plt, plat, p)]
            if v[6] is not NAN:
                e.oblige('angles lie in [0, 180]', T.b_and(
                    T.le(T.ZERO, v[6]), T.le(v[6], C(180))))
            e.oblige('the quadrants of the vector agree',
                     T.eq(look(vq), quad_of_vect(v[2], v[3])))
            e.oblige('the quadrants of the pole agree',
                     T.eq(look(pq), quad_of_pole(v[0], v[4], v[6])))
        a, b, c, d, f, g, h = got['in']
        return A.elem(turned(k, a, b, c, d, lambda: look(z), f, g, h))
    if sh == ():
        return tuple(Arr(sh, 'f', Buf(element(k)), nd=True) for k in range(3))
    return tuple(Arr(sh, 'f', Buf(A.Thunk(lambda k=k: element(k))), nd=True)
                 for k in range(3))


def dual_normal_value(o, i, la, m):
    """Outputs of DualBoundary.normal_coord for one location (D03)."""
    if NAN in (la, m) or A.force(T.le(la.scale(o.hemisphere), T.ZERO)):
        return (NAN, anything('local time where there is no location'), NAN,
                anything('correction where there is no location'))
    j = A.to_num(A.num_of(o.ocb_ind.at(i)))
    olat, b, rc = normal_value(o.ocb, j, la, m)
    key = 'dual %s %r %r %r' % (o.dtime.name, i.key(), la.key(), m.key())
    a = A.Lazy(key, T.apply_uf('real:dual latitude %s' % o.dtime.name,
                               [i, la, m]))
    return a, b, olat, rc


@_spec.stub('ocbpy._boundary.DualBoundary.normal_coord')
def dual_normal_stub(self, lat, lt, coords='magnetic', height=350.0,
                     method='ALLOWTRACE', overwrite=False):
    lat, lt, hgt = [npf.asarray(x) for x in (lat, lt, height)]
    mag = 'mag' in coords.lower()
    used = (lat, lt) if mag else (lat, lt, hgt)
    sh = longest(*used)
    gone = any(x.buf.v is ABSENT for x in used)
    r = A.to_num(A.num_of(self.rec_ind))
    if not A.force(T.b_and(T.le(T.ZERO, r), T.lt(
            r, A.to_num(A.num_of(self.records))))):
        return tuple(Arr(sh, 'f', Buf(ABSENT if gone else NAN), nd=True)
                     for _ in range(4))
    if not mag and sh == ():
        sh = (1,)
    if gone:
        return tuple(Arr(sh, 'f', Buf(ABSENT), nd=True) for _ in range(4))
    la, m = val(lat), val(lt)
    if not mag:
        if NAN in (la, m, val(hgt)):
            la = NAN
        else:
            la, m = geographic(self, r, coords.lower(), method, la, m,
                               val(hgt))
    return tuple(Arr(sh, 'f', Buf(v), nd=True)
                 for v in dual_normal_value(self, r, la, m))
