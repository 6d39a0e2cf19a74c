"""Callee contracts: what a caller is checked against."""

from pv import terms as T
from pv import arr as A
from pv import npf
from pv import dtf
from pv.arr import Arr, Buf, NAN, ABSENT
from pv.engine import eng, Unsupported, PathEnd, NotReady
from pv.spec import stub, C, val


def memo(key, make):
    """Contracted functions are deterministic: equal arguments, equal result.
    """
    c = eng().path.cache
    if key not in c:
        c[key] = make()
    return c[key]


def elementwise(x, f, dtype='f'):
    """Array result with element f(element)."""
    x = npf.asarray(x)
    v = x.e()
    r = ABSENT if v is ABSENT else f(A.to_num(v))
    return Arr(x.shape_, dtype, Buf(r), nd=True)


def wrap_term(x, lo, hi, rng):
    """The value congruent to x modulo rng with lo <= v < hi."""
    if x is NAN:
        return NAN
    if not isinstance(x, T.P):
        raise Unsupported('wrapping an infinite value')
    known = eng().path.cache.get(('wrapped', x.key()))
    if known is not None and all(k.is_const() for k in (lo, hi) + known) \
            and lo.cval() <= known[0].cval() and \
            known[1].cval() <= hi.cval():
        return x                         # a wrapped value already inside

    def make():
        if x.is_const() and lo.is_const() and hi.is_const() and \
                rng.is_const():
            v = x.cval()
            while v < lo.cval():
                v += rng.cval()
            while v >= hi.cval():
                v -= rng.cval()
            return C(v)
        if rng.is_const() and (hi - lo - rng).is_zero():
            n = T.floor_p((x - lo).scale(1 / rng.cval()))
        else:
            n = eng().fresh_int('turns')
        v = x - n * rng
        if not rng.is_const():
            # pi-valued range: keep the products linear in n
            pass
        eng().assume(T.b_and(T.le(lo, v), T.lt(v, hi)))
        inside = T.b_and(T.le(lo, x), T.lt(x, hi))
        eng().assume(T.b_imp(inside, T.eq(n, T.ZERO)))
        eng().assume(T.b_imp(T.lt(x, lo), T.lt(n, T.ZERO)))
        eng().assume(T.b_imp(T.le(hi, x), T.lt(T.ZERO, n)))
        eng().path.cache[('wrapped', v.key())] = (lo, hi)
        return v
    return memo(('wrap', x.key(), lo.key(), hi.key(), rng.key()), make)


@stub('ocbpy.ocb_time.fix_range')
def fix_range(values, min_val, max_val, val_range=None):
    lo, hi = val(min_val), val(max_val)
    if A.force(T.le(hi, lo)):
        raise ValueError('Minimum is not less than the maximum')
    rng = hi - lo if val_range is None else val(val_range)
    if A.force(T.le(rng, T.ZERO)):
        raise ValueError('Value range must be greater than zero')
    eng().oblige('fix_range requires a range not above max - min',
                 T.le(rng, hi - lo))
    x = npf.asarray(values)
    v = x.e()
    r = ABSENT if v is ABSENT else wrap_term(A.to_num(v), lo, hi, rng)
    dt = 'i' if x.dtype_ == 'i' and A.dt_of(
        max_val - min_val if val_range is None else val_range) == 'i' else 'f'
    return Arr(x.shape_, dt, Buf(r), nd=True)


@stub('ocbpy.ocb_time.deg2hr')
def deg2hr(lon):
    return elementwise(lon, lambda x: wrap_term(
        A.s_div(x, C(15)), C(0), C(24), C(24)))


@stub('ocbpy.ocb_time.hr2deg')
def hr2deg(lt, min_deg=-180.0, max_deg=360.0):
    lo, hi = val(min_deg), val(max_deg)
    if A.force(T.lt(hi - lo, C(360))):
        lo = hi - C(360)
    return elementwise(lt, lambda x: wrap_term(
        A.s_mul(x, C(15)), lo, hi, C(360)))


@stub('ocbpy.ocb_time.hr2rad')
def hr2rad(lt, max_range=None):
    two_pi = T.PI.scale(2)
    hi = two_pi if max_range is None else val(max_range)
    return elementwise(lt, lambda x: rad_of(x, hi))


def rad_of(x, hi):
    """pi/12 times the hours wrapped below hi (kept in units of pi)."""
    if x is NAN:
        return NAN
    if not isinstance(x, T.P):
        raise Unsupported('infinite hours')
    k = T.P({((0, -1),): T.F(12)})
    top = hi * k
    v = wrap_term(x, top - C(24), top, C(24))
    return v * T.PI.scale(T.F(1, 12))


@stub('ocbpy.ocb_time.rad2hr')
def rad2hr(lon):
    return elementwise(lon, lambda x: wrap_term(
        A.s_mul(x, T.P({((0, -1),): T.F(12)})), C(0), C(24), C(24)))


@stub('ocbpy.ocb_time.year_soy_to_datetime')
def year_soy_to_datetime(yyyy, soy):
    return dtf.SymDT(dtf.year_start(A.num_of(yyyy)) + A.s_round(val(soy)))


@stub('ocbpy.ocb_time.yyddd_to_date')
def yyddd_to_date(yyddd):
    head, day = yyddd.split('.')[0]._cut(3)
    y = head._pv_int().e() + C(1900)
    d = A.num_of(day._pv_int() if isinstance(day, dtf.SymStr) else int(day))
    return dtf.SymDT(dtf.year_start(y) + (d - T.ONE).scale(86400))


@stub('ocbpy.ocb_time.datetime2hr')
def datetime2hr(dtime):
    day = T.floor_p(dtime.t.scale(T.F(1, 86400)))
    h = dtime.t.scale(T.F(1, 3600)) - day.scale(24)
    eng().assume(T.b_and(T.le(T.ZERO, h), T.lt(h, C(24))))
    return A.pyfloat(h)


# ------------------------------------------------------------- vectors

EAST = {1: 1, 4: 1, 2: -1, 3: -1}


def many(f, *xs, **k):
    """Elementwise function of several arguments."""
    xs = [npf.asarray(x) for x in xs]
    sh = ()
    for x in xs:
        sh = A.bcast(sh, x.shape_)
    vs = [x.buf.v for x in xs]
    if any(v is ABSENT for v in vs):
        r = ABSENT
    elif T.THUNKS[0] and sh != ():
        # elementwise contract: evaluated for the elements that are used
        pa = eng().path
        was, pa.frozen = pa.frozen, True
        try:
            r = f(*[A.elem(v) for v in vs])
        except NotReady:
            r = A.Thunk(lambda: f(*[A.elem(v) for v in vs]))
        finally:
            pa.frozen = was
    else:
        r = f(*[val(x) for x in xs])
    return Arr(sh, k.get('dtype', 'f'), Buf(r), nd=True)


def quad_of(west, south):
    w, s = A.force(west), A.force(south)
    return {(False, False): 1, (True, False): 2, (True, True): 3,
            (False, True): 4}[w, s]


def pole_quad_of(a, b, p):
    if NAN in (a, b, p):
        return C(0)
    d = wrap_term(b - a, C(0), C(24), C(24))
    return C(quad_of(T.le(C(12), d), T.le(C(90), p)))


def vect_quad_of(n, e):
    if NAN in (n, e):
        return C(0)
    return C(quad_of(T.lt(e, T.ZERO), T.lt(n, T.ZERO)))


@stub('ocbpy.vectors.define_pole_quadrants')
def define_pole_quadrants(data_lt, pole_lt, pole_angle):
    return many(pole_quad_of, data_lt, pole_lt, pole_angle)


@stub('ocbpy.vectors.define_vect_quadrants')
def define_vect_quadrants(vect_n, vect_e):
    return many(vect_quad_of, vect_n, vect_e)


@stub('ocbpy.vectors.get_pole_loc')
def get_pole_loc(phi_cent, r_cent):
    lt = elementwise(phi_cent, lambda x: wrap_term(
        A.s_div(x, C(15)), C(0), C(24), C(24)))
    lat = elementwise(r_cent, lambda x: A.s_sub(C(90), x))
    if lt.shape_ == () and lat.shape_ == ():
        return A.pyfloat(lt.e()), A.pyfloat(lat.e())
    return lt, lat


def quad_known(q):
    q = npf.asarray(q)
    v = q.buf.v
    if v is not ABSENT:
        v = val(q)
        if v is not NAN and A.force(T.b_or(*[T.eq(v, C(k))
                                             for k in (1, 2, 3, 4)])):
            return True
    if not q.generic():
        return False
    cache, key = eng().path.cache, ('other quad', id(q.buf), q.buf.ver)
    if key not in cache:
        cache[key] = eng().fresh_bool('another quadrant is defined'), q
    return eng().decide(cache[key][0])


def which_quad(v):
    if v is NAN:
        return 0
    for k in (1, 2, 3, 4):
        if A.force(T.eq(v, C(k))):
            return k
    return 0


def check_quads(pole_quad, vect_quad):
    if not quad_known(pole_quad):
        raise ValueError('destination coordinate pole quadrant is undefined')
    if not quad_known(vect_quad):
        raise ValueError('data vector quadrant is undefined')


def azimuths(pq, vq, a, p, require=True):
    """The vector azimuth minus the pole azimuth (east positive)."""
    po, ve = which_quad(pq), which_quad(vq)
    if po == 0 or ve == 0 or a is NAN or p is NAN:
        return None
    if require:
        ok = [T.le(T.ZERO, a), T.le(a, C(180)), T.le(T.ZERO, p),
              T.le(p, C(180)),
              T.le(a, C(90)) if ve in (1, 2) else T.le(C(90), a),
              T.lt(p, C(90)) if po in (1, 2) else T.le(C(90), p)]
        for x in ok:
            eng().oblige('quadrants agree with the angles', x)
    return a.scale(EAST[ve]) - p.scale(EAST[po])


def fold(d):
    """|d| folded to [0, 180] for d in [-360, 360]."""
    x = A.s_abs(d)
    return x if A.force(T.le(x, C(180))) else C(360) - x


@stub('ocbpy.vectors.calc_dest_polar_angle')
def calc_dest_polar_angle(pole_quad, vect_quad, base_naz_angle, pole_angle):
    check_quads(pole_quad, vect_quad)

    def f(pq, vq, a, p):
        d = azimuths(pq, vq, a, p)
        return NAN if d is None else fold(d)
    return many(f, pole_quad, vect_quad, base_naz_angle, pole_angle)


@stub('ocbpy.vectors.calc_dest_vec_sign')
def calc_dest_vec_sign(pole_quad, vect_quad, base_naz_angle, pole_angle,
                       north=False, east=False, quads=None):
    check_quads(pole_quad, vect_quad)
    out = {}
    for key, on in (('north', north), ('east', east)):
        def f(pq, vq, a, p, key=key, on=on):
            if not on:
                return T.ZERO
            up = eng().choose('positive ' + key)
            d = azimuths(pq, vq, a, p)
            if d is not None:
                eng().assume(sign_rule(key, d, up))
                c, s = T.trig(T.to_rad(d))
                for k in range(-4, 5):
                    cv, sv = ((1, 0), (0, 1), (-1, 0), (0, -1))[k % 4]
                    eng().assume(T.b_imp(T.eq(d, C(90 * k)), T.b_and(
                        T.eq(c, C(cv)), T.eq(s, C(sv)))))
            return C(1 if up else -1)
        r = many(f, pole_quad, vect_quad, base_naz_angle, pole_angle)
        out[key] = A.pyint(r.e()) if r.shape_ == () and on else r
    return out


def sign_rule(key, d, up):
    if key == 'north':
        x = fold(d)
        return T.le(x, C(90)) if up else T.le(C(90), x)
    pos = T.b_or(T.b_and(T.le(T.ZERO, d), T.le(d, C(180))),
                 T.le(d, C(-180)), T.eq(d, C(360)))
    neg = T.b_or(T.b_and(T.le(d, T.ZERO), T.le(C(-180), d)),
                 T.le(C(180), d), T.eq(d, C(-360)))
    return pos if up else neg
