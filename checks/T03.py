"""T03: time stamps."""
import datetime as dt

from pv import terms as T
from pv import arr as A
from pv import dtf
from pv.spec import Contract, C, pynum, val
from pv.dtf import SymStr, Field

M = 'ocbpy.ocb_time.'
YS, YD, CT = (M + 'year_soy_to_datetime', M + 'yyddd_to_date',
              M + 'convert_time')


def integer(name, lo, hi, e):
    v = A.sym(name, (), 'i', nan=False, py=True)
    e.assume(T.b_and(T.le(C(lo), v.e()), T.le(v.e(), C(hi))))
    return v


def instant(e, r, t, name='the named instant'):
    rt = dtf._time(r)
    e.oblige('a datetime is returned', T.b_const(rt is not None))
    if rt is not None:
        e.oblige(name, T.eq(rt, t))


def c_soy(kind):
    def run(e, cx):
        f = cx.fn()
        y = integer('year', 1, 9999, e)
        if kind == 'float':
            s = pynum('soy')
        else:
            s = A.sym('soy', (), 'i', nan=False, py=True)
        sv = val(s)
        e.assume(T.b_and(T.le(C(0), sv), T.lt(sv, C(366 * 86400))))
        r = f(y, s)
        rt = dtf._time(r)
        e.oblige('a datetime is returned', T.b_const(rt is not None))
        base = dtf.year_start(y.e())
        if kind == 'int':
            e.oblige('exact seconds of the year', T.eq(rt, base + sv))
        else:
            d = rt - base
            e.oblige('rounded seconds of the year',
                     T.eq(d, A.s_round(sv)))
    return run


def yyddd(e, tail):
    yy = integer('yy', 0, 8099, e)
    dd = integer('ddd', 1, 366, e)
    s = SymStr([Field('fmt', '02d', yy), Field('fmt', '03d', dd)] + (
        [tail] if tail else []))
    t = dtf.year_start(yy.e() + C(1900)) + (dd.e() - T.ONE).scale(86400)
    return s, t


def c_yyddd(tail):
    def run(e, cx):
        f = cx.fn()
        s, t = yyddd(e, tail)
        instant(e, f(s), t)
    return run


def c_yyddd_type(e, cx):
    f = cx.fn()
    try:
        f(A.sym('n', (), 'i', nan=False, py=True))
        ok = False
    except ValueError:
        ok = True
    e.oblige('a number is rejected', T.b_const(ok))


def c_year_soy(e, cx):
    f = cx.fn()
    y = integer('year', 1, 9999, e)
    s = A.sym('soy', (), 'i', nan=False, py=True)
    instant(e, f(year=y, soy=s), dtf.year_start(y.e()) + s.e())


def near(e, r, t):
    rt = dtf._time(r)
    e.oblige('a datetime is returned', T.b_const(rt is not None))
    d = rt - t
    e.oblige('not before the named instant', T.le(T.ZERO, d))
    e.oblige('less than a microsecond late', T.lt(d, C(T.F(1, 10**6))))


def sod(e, kind):
    if kind is None:
        return None, T.ZERO
    s = pynum('sod') if kind == 'f' else A.sym('sod', (), 'i', nan=False,
                                               py=True)
    e.assume(T.b_and(T.le(C(0), s.e()), T.lt(s.e(), C(10 * 86400))))
    return s, s.e()


def c_yyddd_sod(fmt, kind, tail=''):
    def run(e, cx):
        f = cx.fn()
        s, t = yyddd(e, tail)
        k, kv = sod(e, kind)
        r = f(yyddd=s, sod=k) if fmt is None else f(yyddd=s, sod=k,
                                                    datetime_fmt=fmt)
        near(e, r, t + kv)
    return run


def sym_date(e):
    day = T.V('day', 'int')
    d = dtf.SymDT(day.scale(86400))
    return d.strftime('%Y-%m-%d'), d.t


def c_date_sod(kind):
    def run(e, cx):
        f = cx.fn()
        s, t = sym_date(e)
        k, kv = sod(e, kind)
        near(e, f(date=s, sod=k), t + kv)
    return run


def tod(e, tail):
    h, m, s = integer('h', 0, 23, e), integer('m', 0, 59, e), integer(
        's', 0, 59, e)
    return SymStr([Field('fmt', '02d', h), ':', Field('fmt', '02d', m), ':',
                   Field('fmt', '02d', s)] + ([tail] if tail else [])), (
        h.e().scale(3600) + m.e().scale(60) + s.e())


def c_date_tod(tail, how):
    def run(e, cx):
        f = cx.fn()
        c, cv = tod(e, tail)
        if how == 'date':
            s, t = sym_date(e)
            r = f(date=s, tod=c)
        elif how == 'yyddd':
            s, t = yyddd(e, '')
            r = f(yyddd=s, tod=c)
        else:
            s, t = yyddd(e, '')
            r = f(yyddd=s, tod=c, datetime_fmt='YYDDD %H:%M:%S')
        instant(e, r, t + cv)
    return run


def contracts():
    cal = [YS, YD]
    out = [Contract(YS, 'seconds of year (%s)' % k, c_soy(k))
           for k in ('float', 'int')]
    out += [Contract(YD, 'day of year %r' % t, c_yyddd(t))
            for t in ('', '.0', '.9876')]
    out.append(Contract(YD, 'day of year must be text', c_yyddd_type))
    out.append(Contract(CT, 'convert_time: year and seconds', c_year_soy,
                        stubs=cal))
    for fmt in (None, '%Y-%m-%d', 'YYDDD', 'yyddd SOD', 'SOD',
                '%Y-%m-%d SOD'):
        for k in (None, 'i', 'f'):
            if k != 'f' and fmt not in (None, 'yyddd SOD'):
                continue
            out.append(Contract(
                CT, 'convert_time: day of year, format %s, seconds %s' % (
                    fmt, k), c_yyddd_sod(fmt, k), stubs=cal))
    out.append(Contract(CT, 'convert_time: day of year with decimals',
                        c_yyddd_sod(None, 'f', '.0'), stubs=cal))
    for k in (None, 'i', 'f'):
        out.append(Contract(CT, 'convert_time: date, seconds %s' % k,
                            c_date_sod(k), stubs=cal))
    for tail in ('', '.25', 'Z'):
        for how in ('date', 'yyddd', 'yyddd format'):
            out.append(Contract(
                CT, 'convert_time: %s and time of day%s' % (how, tail),
                c_date_tod(tail, how), stubs=cal))
    return out
