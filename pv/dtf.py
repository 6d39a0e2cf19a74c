"""datetime facade and symbolic strings."""

import datetime as _dt
import re
import string

from pv import terms as T
from pv import arr as A
from pv.arr import Arr, Buf
from pv.engine import eng, Unsupported

timezone = _dt.timezone
date = _dt.date

_real_epoch = _dt.datetime(1970, 1, 1)


def _secs(x):
    """Seconds of a duration-like value as a term."""
    if isinstance(x, SymTD):
        return x.s
    if isinstance(x, _dt.timedelta):
        return T.P.const(x.days * 86400 + x.seconds) + T.P.const(
            x.microseconds).scale(T.F(1, 10**6))
    raise Unsupported('duration %r' % (x,))


def _time(x):
    if isinstance(x, SymDT):
        return x.t
    if isinstance(x, _dt.datetime):
        return _secs(x - _real_epoch)
    return None


class SymTD(object):
    def __init__(self, s):
        self.s = s

    def total_seconds(self):
        return A.pyfloat(self.s)

    def __neg__(self):
        return SymTD(-self.s)

    def __abs__(self):
        return SymTD(A.s_abs(self.s))

    def __add__(self, o):
        if isinstance(o, SymDT):
            return SymDT(o.t + self.s)
        t = _time(o)
        if t is not None:
            return SymDT(t + self.s)
        return SymTD(self.s + _secs(o))

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        return SymTD(self.s - _secs(o))

    def __rsub__(self, o):
        t = _time(o)
        if t is not None:
            return SymDT(t - self.s)
        return SymTD(_secs(o) - self.s)

    def __mul__(self, o):
        return SymTD(self.s * A.num_of(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (SymTD, _dt.timedelta)):
            return A.pyfloat(A.s_div(self.s, _secs(o)))
        return SymTD(A.s_div(self.s, A.num_of(o)))

    def _c(self, o, f):
        return A.Arr((), 'b', Buf(f(self.s, _secs(o))), nd=False, py=True)

    def __lt__(self, o):
        return self._c(o, T.lt)

    def __le__(self, o):
        return self._c(o, T.le)

    def __gt__(self, o):
        return self._c(o, lambda a, b: T.lt(b, a))

    def __ge__(self, o):
        return self._c(o, lambda a, b: T.le(b, a))

    def __eq__(self, o):
        if not isinstance(o, (SymTD, _dt.timedelta)):
            return False
        return self._c(o, T.eq)

    def __ne__(self, o):
        if not isinstance(o, (SymTD, _dt.timedelta)):
            return True
        return self._c(o, lambda a, b: T.b_not(T.eq(a, b)))
    __hash__ = None

    @property
    def days(self):
        return A.pyint(T.floor_p(self.s.scale(T.F(1, 86400))))

    @property
    def seconds(self):
        d = T.floor_p(self.s.scale(T.F(1, 86400)))
        return A.pyint(T.floor_p(self.s - d.scale(86400)))


class SymDT(object):
    """A datetime known through its time coordinate t (seconds)."""

    def __init__(self, t, year=None):
        self.t = t
        self._year = year

    def _parts(self):
        if not hasattr(self, '_pp'):
            day = T.floor_p(self.t.scale(T.F(1, 86400)))
            sod = self.t - day.scale(86400)
            h = T.floor_p(sod.scale(T.F(1, 3600)))
            r = sod - h.scale(3600)
            m = T.floor_p(r.scale(T.F(1, 60)))
            r = r - m.scale(60)
            s = T.floor_p(r)
            us = (r - s).scale(10**6)
            C = T.P.const
            for v, hi in ((h, 24), (m, 60), (s, 60)):
                eng().assume(T.b_and(T.le(T.ZERO, v), T.le(v, C(hi - 1))))
            self._pp = (h, m, s, us)
        return self._pp

    hour = property(lambda self: A.pyint(self._parts()[0]))
    minute = property(lambda self: A.pyint(self._parts()[1]))
    second = property(lambda self: A.pyint(self._parts()[2]))
    microsecond = property(lambda self: A.pyint(self._parts()[3]))

    @property
    def year(self):
        if self._year is None:
            raise Unsupported('year of a symbolic time')
        return A.pyint(self._year)

    def replace(self, hour=None, minute=None, second=None, microsecond=None,
                **k):
        if k or not all(x == 0 for x in (hour, minute, second, microsecond)
                        if x is not None):
            raise Unsupported('datetime.replace')
        h, m, s, us = self._parts()
        t = self.t
        for v, x, c in ((h, hour, 3600), (m, minute, 60), (s, second, 1)):
            if x is not None:
                t = t - v.scale(c)
        if microsecond is not None:
            t = t - us.scale(T.F(1, 10**6))
        return SymDT(t, self._year)

    def __sub__(self, o):
        t = _time(o)
        if t is not None:
            return SymTD(self.t - t)
        return SymDT(self.t - _secs(o))

    def __rsub__(self, o):
        t = _time(o)
        if t is None:
            return NotImplemented
        return SymTD(t - self.t)

    def __add__(self, o):
        return SymDT(self.t + _secs(o))
    __radd__ = __add__

    def _c(self, o, f):
        t = _time(o)
        if t is None:
            raise TypeError("can't compare datetime to %s" % type(o))
        return A.Arr((), 'b', Buf(f(self.t, t)), nd=False, py=True)

    def __lt__(self, o):
        return self._c(o, T.lt)

    def __le__(self, o):
        return self._c(o, T.le)

    def __gt__(self, o):
        return self._c(o, lambda a, b: T.lt(b, a))

    def __ge__(self, o):
        return self._c(o, lambda a, b: T.le(b, a))

    def __eq__(self, o):
        if _time(o) is None:
            return False
        return self._c(o, T.eq)

    def __ne__(self, o):
        if _time(o) is None:
            return True
        return self._c(o, lambda a, b: T.b_not(T.eq(a, b)))
    __hash__ = None

    def strftime(self, fmt):
        parts = []
        i = 0
        toks = re.split(r'(%.)', fmt)
        for tk in toks:
            if tk.startswith('%') and len(tk) == 2:
                parts.append(Field('strf', tk, self))
            elif tk:
                parts.append(tk)
        return SymStr(parts)

    def __format__(self, spec):
        return '<time>'

    def __repr__(self):
        return 'SymDT(%r)' % (self.t,)


class Field(object):
    def __init__(self, kind, spec, val):
        self.kind = kind
        self.spec = spec
        self.val = val

    def width(self):
        '''Number of characters when it is known.'''
        if self.kind == 'fmt' and self.spec.startswith('0') and \
                self.spec.endswith('d'):
            w = int(self.spec[:-1])
            v = field_int(self)
            if A.force(T.b_and(T.le(T.ZERO, v), T.lt(v, T.P.const(
                    10 ** w)))):
                return w
        return None

    def __repr__(self):
        return '{%s%s:%r}' % (self.kind, self.spec, self.val)


class SymStr(object):
    """A string with symbolic fields."""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr):
                out.extend(p.parts)
            else:
                out.append(p)
        merged = []
        for p in out:
            if isinstance(p, str) and merged and isinstance(merged[-1], str):
                merged[-1] += p
            elif p != '':
                merged.append(p)
        self.parts = merged

    def __add__(self, o):
        return SymStr(self.parts + [o])

    def __radd__(self, o):
        return SymStr([o] + self.parts)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('symbolic string method %r' % name)

    def lower(self):
        return self

    def strip(self):
        return self

    def split(self, sep=None):
        '''Printed integers hold no separator.'''
        if any(isinstance(p, Field) and not (p.kind == 'fmt' and
                                             p.spec.endswith('d'))
               for p in self.parts) or (sep is not None and any(
                   ch.isdigit() or ch == '-' for ch in sep)):
            raise Unsupported('split of a symbolic string')
        out = [[]]
        for p in self.parts:
            if isinstance(p, str):
                bits = p.split(sep)
                if sep is None and p[:1].isspace():
                    bits = [''] + bits
                if sep is None and p[-1:].isspace():
                    bits = bits + ['']
                out[-1].append(bits[0])
                for b in bits[1:]:
                    out.append([b])
            else:
                out[-1].append(p)
        return [SymStr(x) if any(isinstance(y, Field) for y in x)
                else ''.join(x) for x in out]

    def __getitem__(self, ix):
        if not (isinstance(ix, slice) and ix.step is None):
            raise Unsupported('character of a symbolic string')
        if ix.start is None and isinstance(ix.stop, int) and ix.stop < 0:
            return self._cut(-ix.stop)[0]
        if ix.stop is None and isinstance(ix.start, int) and ix.start < 0:
            return self._cut(-ix.start)[1]
        raise Unsupported('slice of a symbolic string')

    def _cut(self, n):
        head = list(self.parts)
        tail = []
        while n:
            if not head:
                break
            p = head.pop()
            w = len(p) if isinstance(p, str) else p.width()
            if isinstance(p, str) and w > n:
                head.append(p[:-n])
                tail.insert(0, p[-n:])
                n = 0
            elif w is None or w > n:
                raise Unsupported('slice inside a printed number')
            else:
                tail.insert(0, p)
                n -= w
        mk = (lambda x: SymStr(x) if any(isinstance(y, Field) for y in x)
              else ''.join(x))
        return mk(head), mk(tail)

    def _pv_int(self):
        if len(self.parts) == 1 and isinstance(self.parts[0], Field):
            return A.pyint(field_int(self.parts[0]))
        raise Unsupported('int() of a symbolic string')

    def __eq__(self, o):
        if isinstance(o, SymStr) and self.parts == o.parts:
            return True
        raise Unsupported('comparison of symbolic strings')

    def __hash__(self):
        return 3

    def __format__(self, s):
        return '<str>'

    def __repr__(self):
        return 'SymStr(%r)' % (self.parts,)


def is_sym(a):
    if isinstance(a, Arr):
        v = a.buf.v
        return not (isinstance(v, T.P) and v.is_const() and a.py)
    return isinstance(a, (SymStr, SymDT, SymTD, A.Dim, A.IdxVar))


def sym_format(fmt, args, kw):
    if isinstance(fmt, SymStr):
        return fmt
    if not isinstance(fmt, str):
        return fmt.format(*args, **kw)
    vals = list(args) + list(kw.values())
    if not any(is_sym(a) for a in vals):
        try:
            return fmt.format(*args, **kw)
        except Unsupported:
            return '<sym>'
    parts = []
    n = 0
    for lit, name, spec, conv in string.Formatter().parse(fmt):
        if lit:
            parts.append(lit)
        if name is None:
            continue
        if name == '':
            v = args[n]
            n += 1
        elif name.isdigit():
            v = args[int(name)]
        elif name in kw:
            v = kw[name]
        else:
            raise Unsupported('format field %r' % name)
        if isinstance(v, SymStr):
            if spec not in ('', 's'):
                raise Unsupported('format spec of a string')
            parts.extend(v.parts)
        elif is_sym(v):
            if spec == 'd' and isinstance(v, Arr) and v.dtype_ == 'f':
                raise ValueError("Unknown format code 'd' for object of type "
                                 "'float'")
            parts.append(Field('fmt', spec, v))
        else:
            parts.append(('{:%s}' % spec if spec else '{}').format(v))
    return SymStr(parts)


def year_start(y):
    """Seconds at 1 January 00:00 of integer year y."""
    if y.is_const():
        return T.P.const(int((_dt.datetime(int(y.cval()), 1, 1)
                              - _real_epoch).total_seconds()))
    ys = T.apply_uf('yearday', [y], 'int')
    return ys.scale(86400)


def year_len(y):
    if y.is_const():
        yy = int(y.cval())
        leap = yy % 4 == 0 and (yy % 100 != 0 or yy % 400 == 0)
        return T.P.const(366 if leap else 365)
    n = T.apply_uf('yearlen', [y], 'int')
    eng().path.add(T.b_or(T.eq(n, T.P.const(365)), T.eq(n, T.P.const(366))))
    return n


def field_int(f):
    """Integer printed by a numeric field."""
    v = f.val
    e = A.to_num(v.e()) if isinstance(v, Arr) else A.num_of(v)
    if not isinstance(e, T.P):
        raise ValueError('time data does not match format')
    spec = f.spec.lstrip('0123456789')
    if spec in ('d', ''):
        if not e.is_int():
            raise Unsupported('integer field')
        return e
    if spec == '.0f':
        return A.s_round(e)
    raise Unsupported('numeric field %r in a date string' % f.spec)


class _DTMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymDT, _dt.datetime))

    def __call__(cls, *a, **k):
        names = ['year', 'month', 'day', 'hour', 'minute', 'second',
                 'microsecond']
        d = dict(zip(names, a))
        d.update(k)
        if not any(is_sym(v) for v in d.values()):
            return _dt.datetime(**{n: int(v) if not isinstance(v, int) else v
                                   for n, v in d.items()})
        if isinstance(d['month'], int) and d['month'] == 1 and \
                isinstance(d['day'], int) and d['day'] == 1:
            y = A.num_of(d['year'])
            t = year_start(y)
            for n, c, hi in (('hour', 3600, 24), ('minute', 60, 60),
                             ('second', 1, 60)):
                if n in d:
                    v = A.num_of(d[n])
                    if not A.force(T.b_and(T.le(T.ZERO, v),
                                           T.lt(v, T.P.const(hi)))):
                        raise ValueError('%s out of range' % n)
                    t = t + v.scale(c)
            if 'microsecond' in d:
                t = t + A.num_of(d['microsecond']).scale(T.F(1, 10**6))
            return SymDT(t, y)
        raise Unsupported('datetime construction from symbolic parts')


class datetime(metaclass=_DTMeta):
    min = _dt.datetime.min
    max = _dt.datetime.max

    @staticmethod
    def strptime(s, fmt):
        if isinstance(s, str) and isinstance(fmt, str):
            return _dt.datetime.strptime(s, fmt)
        if isinstance(fmt, SymStr) or not isinstance(s, SymStr):
            raise Unsupported('strptime of %r' % (s,))
        return sym_strptime(s, fmt)

    @staticmethod
    def fromordinal(n):
        return _dt.datetime.fromordinal(n)

    @staticmethod
    def combine(d, t):
        raise Unsupported('datetime.combine')


def sym_strptime(s, fmt):
    toks = [t for t in re.split(r'(%.)', fmt) if t]
    parts = []
    for p in s.parts:
        if isinstance(p, str):
            parts.extend(list(p))
        else:
            parts.append(p)
    got = {}
    whole = {}
    i = 0
    for tk in toks:
        if tk.startswith('%') and len(tk) == 2:
            if i >= len(parts):
                raise ValueError('time data does not match format')
            p = parts[i]
            if isinstance(p, Field):
                if p.kind == 'strf':
                    if p.spec != tk:
                        raise Unsupported('mismatched time directives')
                    whole[tk] = p.val
                else:
                    got[tk] = field_int(p)
                i += 1
            else:
                j = i
                width = 4 if tk == '%Y' else (3 if tk == '%j' else 2)
                while j < len(parts) and isinstance(parts[j], str) and \
                        parts[j].isdigit() and j - i < width:
                    j += 1
                if j == i:
                    raise ValueError('time data does not match format')
                got[tk] = T.P.const(int(''.join(parts[i:j])))
                i = j
        else:
            for ch in tk:
                if i < len(parts) and parts[i] == ch:
                    i += 1
                else:
                    raise ValueError('time data does not match format')
    if i < len(parts):
        if all(isinstance(p, str) for p in parts[i:]):
            raise ValueError('unconverted data remains: %s' % ''.join(
                parts[i:]))
        raise Unsupported('unconverted symbolic data')
    C = T.P.const
    rng = {'%j': (1, 366), '%H': (0, 23), '%M': (0, 59), '%S': (0, 61),
           '%Y': (1, 9999), '%m': (1, 12), '%d': (1, 31)}
    for k, v in got.items():
        if k not in rng:
            raise Unsupported('directive %s' % k)
        lo, hi = rng[k]
        if not A.force(T.b_and(T.le(C(lo), v), T.le(v, C(hi)))):
            raise ValueError('time data does not match format')
    if whole:
        if set(whole) != {'%Y', '%m', '%d'} or len(
                {id(v) for v in whole.values()}) != 1:
            raise Unsupported('partial date fields')
        base = list(whole.values())[0]
        day = T.floor_p(base.t.scale(T.F(1, 86400)))
        t = day.scale(86400)
        yr = base._year
    else:
        if '%Y' not in got:
            raise Unsupported('date without year')
        yr = got['%Y']
        t = year_start(yr)
        if '%j' in got:
            # strptime rejects day 366 only through datetime construction
            if not A.force(T.le(got['%j'], year_len(yr))):
                # CPython rolls over into the next year
                t = year_start(yr)
            t = t + (got['%j'] - T.ONE).scale(86400)
        elif '%m' in got or '%d' in got:
            ks = [got.get('%m', T.ONE), got.get('%d', T.ONE)]
            if all(x.is_const() for x in ks) and yr.is_const():
                d0 = _dt.datetime(int(yr.cval()), int(ks[0].cval()),
                                  int(ks[1].cval()))
                t = C(int((d0 - _real_epoch).total_seconds()))
            else:
                raise Unsupported('symbolic month and day')
    for k, c in (('%H', 3600), ('%M', 60)):
        if k in got:
            t = t + got[k].scale(c)
    if '%S' in got:
        sec = got['%S']
        # datetime() accepts at most 59; time.strptime accepts 60 and 61
        if not A.force(T.le(sec, C(59))):
            raise ValueError('second must be in 0..59')
        t = t + sec
    return SymDT(t, yr)


class _TDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymTD, _dt.timedelta))

    def __call__(cls, days=0, seconds=0, microseconds=0, milliseconds=0,
                 minutes=0, hours=0, weeks=0):
        s = T.ZERO
        for v, c in ((days, 86400), (seconds, 1), (hours, 3600),
                     (minutes, 60), (weeks, 604800),
                     (milliseconds, T.F(1, 1000)),
                     (microseconds, T.F(1, 10**6))):
            e = A.to_num(A.num_of(v))
            if not isinstance(e, T.P):
                raise ValueError('cannot convert float NaN to integer')
            s = s + e.scale(c)
        return SymTD(s)


class timedelta(metaclass=_TDMeta):
    pass
