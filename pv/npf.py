"""numpy facade: the contracts assumed of numpy, elementwise over arr.Arr."""

from fractions import Fraction as F
import builtins as _b
import math as _math

from pv import terms as T
from pv import arr as A
from pv.arr import Arr, Buf, ABSENT, NAN, PINF, NINF, elem
from pv.engine import eng, Unsupported

nan = float('nan')
NaN = nan
inf = float('inf')
newaxis = None
pi = Arr((), 'f', Buf(T.PI), nd=False, py=True)
e = _math.e
ALLOWED = {}


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return (isinstance(x, Arr) and x.nd) or isinstance(x, ConcArr)


class ndarray(metaclass=_NDMeta):
    pass


class _FMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Arr) and x.dtype_ == cls._ch and not x.nd

    def __call__(cls, x=0.0):
        r = asarray(x)
        return Arr((), cls._ch, Buf(A.cast_elem(r.e(), r.dtype_, cls._ch)),
                   nd=False)


class float64(metaclass=_FMeta):
    _ch = 'f'


class int64(metaclass=_FMeta):
    _ch = 'i'


class bool_(metaclass=_FMeta):
    _ch = 'b'


float32 = float64
floating = float64
integer = int64
int_ = int64
number = float64


class generic(object):
    pass


class ConcArr(object):
    """Array of concrete length with individually known elements."""

    def __init__(self, items, dtype=None):
        self.items = list(items)
        self._dt = dtype

    @property
    def shape(self):
        return (len(self.items),)

    @property
    def ndim(self):
        return 1

    @property
    def size(self):
        return len(self.items)

    @property
    def dtype(self):
        return A.DType(self._dt or conc_dtype(self.items))

    def pv_len(self):
        return len(self.items)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter([np_scalar(i) for i in self.items])

    def __getitem__(self, i):
        if isinstance(i, Arr) and i.dtype_ == 'i' and i.shape_ == ():
            v = i.e()
            if isinstance(v, T.P) and v.is_const():
                i = int(v.cval())
        if isinstance(i, int):
            return np_scalar(self.items[i])
        if isinstance(i, slice):
            return ConcArr(self.items[i], self._dt)
        if isinstance(i, (list, ConcArr)):
            its = list(i.items if isinstance(i, ConcArr) else i)
            if its and isinstance(its[0], bool):
                return ConcArr([x for x, m in zip(self.items, its) if m],
                               self._dt)
            return ConcArr([self.items[int(j)] for j in its], self._dt)
        raise Unsupported('index of a concrete array: %r' % (i,))

    def __setitem__(self, i, v):
        if isinstance(i, int):
            self.items[i] = v
            return
        raise Unsupported('assignment into a concrete array')

    def __contains__(self, x):
        return _b.any(bool(x == i) for i in self.items)

    def _map(self, f):
        return ConcArr([f(i) for i in self.items])

    def _b(self, o, f):
        if isinstance(o, ConcArr):
            if len(o.items) != len(self.items):
                raise ValueError('operands could not be broadcast')
            return ConcArr([f(x, y) for x, y in zip(self.items, o.items)])
        if isinstance(o, (list, tuple)):
            return self._b(asarray(o), f)
        if isinstance(o, Arr) and o.shape_ != ():
            return NotImplemented
        return ConcArr([f(x, o) for x in self.items])

    def __add__(self, o):
        return self._b(o, lambda x, y: x + y)

    def __radd__(self, o):
        return self._b(o, lambda x, y: y + x)

    def __sub__(self, o):
        return self._b(o, lambda x, y: x - y)

    def __mul__(self, o):
        return self._b(o, lambda x, y: x * y)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, lambda x, y: x / y)

    def __eq__(self, o):
        return self._b(o, lambda x, y: x == y)

    def __ne__(self, o):
        return self._b(o, lambda x, y: x != y)

    def __lt__(self, o):
        return self._b(o, lambda x, y: x < y)

    def __gt__(self, o):
        return self._b(o, lambda x, y: x > y)

    def __le__(self, o):
        return self._b(o, lambda x, y: x <= y)

    def __ge__(self, o):
        return self._b(o, lambda x, y: x >= y)

    def __neg__(self):
        return self._map(lambda x: -x)
    __hash__ = None

    def any(self):
        return _b.any(bool(i) for i in self.items)

    def all(self):
        return _b.all(bool(i) for i in self.items)

    def max(self):
        return _b.max(self.items)

    def min(self):
        return _b.min(self.items)

    def copy(self):
        return ConcArr(self.items, self._dt)

    def tolist(self):
        return list(self.items)

    def astype(self, d):
        ch = A.dtype_char(d)
        if ch == 'i':
            return ConcArr([int(i) if isinstance(i, (int, float)) else i
                            for i in self.items], 'i')
        return ConcArr(self.items, ch)

    def __getattr__(self, name):
        if name.startswith('_') or name in A.FOREIGN:
            raise AttributeError(name)
        raise Unsupported('concrete array attribute %r' % name)


def np_scalar(i):
    return i


def conc_dtype(items):
    if not items:
        return 'f'
    ds = [A.dt_of(i) for i in items]
    for c in 'Ofib':
        if c in ds:
            return c
    return 'O'


def is_arraylike(x):
    return isinstance(x, (Arr, ConcArr))


def asarray(x, dtype=None, copy=None, order=None):
    ch = A.dtype_char(dtype)
    if isinstance(x, Arr):
        if x.nd and (ch is None or ch == x.dtype_):
            return x
        return A.cast(x, ch)
    h = getattr(x, '_pv_asarray', None)
    if h is not None:
        return h()
    if isinstance(x, ConcArr):
        return x if ch is None else x.astype(dtype)
    if isinstance(x, A.SymList):
        return A.cast(x.arr, ch)
    if isinstance(x, (bool, int, float, F)):
        r = Arr((), A.dt_of(x), Buf(A.num_of(x)))
        return A.cast(r, ch) if ch else r
    if isinstance(x, A.Dim):
        return Arr((), 'i', Buf(x.p))
    if isinstance(x, (list, tuple)):
        if len(x) == 1 and isinstance(x[0], A.Dim) and not ch:
            # a shape; which length it is stays known
            r = Arr((1,), 'i', Buf(x[0].p))
            r._dims = (x[0],)
            return r
        if len(x) == 1 and isinstance(x[0], Arr) and x[0].shape_ == ():
            r = Arr((1,), x[0].dtype_, Buf(x[0].buf.v))
            return A.cast(r, ch) if ch else r
        if len(x) == 1 and A.is_num(x[0]) and not isinstance(x[0], Arr):
            r = Arr((1,), A.dt_of(x[0]), Buf(A.num_of(x[0])))
            return A.cast(r, ch) if ch else r
        r = ConcArr(x)
        return r.astype(dtype) if ch else r
    if x is None or isinstance(x, (str, dict)) or callable(x):
        return Arr((), 'U' if isinstance(x, str) else 'O', Buf(x))
    return Arr((), 'O', Buf(x))


def array(x, dtype=None, copy=True, ndmin=0):
    r = asarray(x, dtype)
    if r is x:
        return r.copy()
    return r


def asanyarray(x, dtype=None):
    return asarray(x, dtype)


ascontiguousarray = asanyarray


def copy(x):
    return array(x)


def atleast_1d(x):
    x = asarray(x)
    if isinstance(x, Arr) and x.shape_ == ():
        return Arr((1,), x.dtype_, x.buf)
    return x


def _shape(s):
    if isinstance(s, (int, A.Dim)):
        return (s,)
    if isinstance(s, Arr):
        if s.shape_ == (0,):
            # no length at all: the shape of a single value
            return ()
        d = getattr(s, '_dims', None)
        if d is not None and not s.buf.ver:
            return d
        v = s.e()
        if isinstance(v, T.P) and v.is_const():
            return (int(v.cval()),)
        raise Unsupported('symbolic shape')
    return tuple(s)


def full(shape, fill_value, dtype=None):
    h = getattr(shape, '_pv_full', None)
    if h is not None:
        return h(fill_value)
    s = _shape(shape)
    for d in s:
        h = getattr(d, '_pv_full', None)
        if h is not None and len(s) == 1:
            return h(fill_value)
    ch = A.dtype_char(dtype)
    if isinstance(fill_value, (list, tuple)) or isinstance(
            fill_value, ConcArr):
        fill_value = asarray(fill_value)
        if isinstance(fill_value, ConcArr):
            if s == fill_value.shape:
                return fill_value.copy()
            raise Unsupported('full with a list')
    if isinstance(fill_value, Arr):
        if fill_value.shape_ != ():
            bs = A.bcast(s, fill_value.shape_)
            if not A.shape_equal(bs, s):
                raise ValueError('could not broadcast input array')
        dt = fill_value.dtype_
        v = fill_value.buf.v
    elif A.is_num(fill_value):
        dt = A.dt_of(fill_value)
        v = A.num_of(fill_value)
    else:
        dt, v = 'O', fill_value
    if ch and ch != dt:
        v = A.cast_elem(elem(v), dt, ch)
        dt = ch
    if _b.any(isinstance(d, int) and d == 0 for d in s):
        v = ABSENT
    if len(s) == 1 and isinstance(s[0], int) and s[0] > 1:
        return ConcArr([fill_value] * s[0])
    return Arr(s, dt, Buf(v))


def zeros(shape, dtype='float'):
    return full(shape, 0.0 if A.dtype_char(dtype) == 'f' else (
        False if A.dtype_char(dtype) == 'b' else 0), dtype)


def ones(shape, dtype='float'):
    return full(shape, 1.0 if A.dtype_char(dtype) == 'f' else (
        True if A.dtype_char(dtype) == 'b' else 1), dtype)


def empty(shape, dtype='float'):
    r = zeros(shape, dtype)
    if isinstance(r, Arr) and r.buf.v is not ABSENT:
        r.buf.v = A.Lazy(eng().path.fresh('empty'), eng().fresh_real('empty'))
    return r


def full_like(x, fill_value, dtype=None, shape=None):
    x = asarray(x)
    return full(x.shape, fill_value, dtype or (
        {'f': 'float', 'i': 'int', 'b': 'bool', 'O': 'object'}[x.dtype.ch]))


def zeros_like(x, dtype=None):
    return full_like(x, 0, dtype)


def ones_like(x, dtype=None):
    return full_like(x, 1, dtype)


def empty_like(x, dtype=None):
    return empty(asarray(x).shape, dtype or 'float')


def arange(*a, **k):
    k.pop('dtype', None)
    args = list(a) + [k[n] for n in ('start', 'stop', 'step') if n in k]
    for x in args:
        h = getattr(x, '_pv_arange', None)
        if h is not None:
            return h(args)
    if _b.all(isinstance(x, int) for x in args):
        return ConcArr(list(range(*args)), 'i')
    if _b.all(isinstance(x, (int, float)) for x in args):
        import numpy as rnp
        return ConcArr([float(v) for v in rnp.arange(*args)], 'f')
    d = args[0] if len(args) == 1 else (args[1] if len(args) > 1 and
                                        args[0] == 0 else None)
    if isinstance(d, A.Dim) and (len(args) < 3 or args[2] == 1):
        return Arr((d,), 'i', Buf(A.KIdx((d,))))
    d = A.counted(args)
    if d is not None:
        return Arr((d,), 'i', Buf(A.KIdx((d,))))
    raise Unsupported('arange(%r)' % (args,))


def linspace(*a, **k):
    import numpy as rnp
    if _b.all(isinstance(x, (int, float)) for x in a):
        return ConcArr([float(v) for v in rnp.linspace(*a, **k)], 'f')
    raise Unsupported('linspace')


# ---------------------------------------------------------------- ufuncs

def _un(f, dt='f'):
    def g(x, where=None, out=None):
        if isinstance(x, ConcArr):
            return x._map(lambda i: g(i))
        h = getattr(x, '_pv_ufunc1', None)
        if h is not None:
            return h(g)
        x = asarray(x)
        if isinstance(x, ConcArr):
            return x._map(lambda i: g(i))
        if x.dtype_ in 'OU' and x.e() is not ABSENT:
            raise TypeError('ufunc not supported for the input types')
        r = x._un(lambda v: f(A.to_num(v)), dt or x.dtype_)
        r.py = False
        return _apply_where(r, where, out)
    return g


def _apply_where(r, where, out):
    if where is None or where is True:
        if out is not None:
            A.setitem(out, slice(None), r)
            return out
        return r
    w = asarray(where)
    shape = A.bcast(r.shape_, w.shape_)
    wv = w.e()
    v = r.buf.v
    if wv is ABSENT or v is ABSENT:
        v = ABSENT
    elif not A.force(A.to_bool(wv)):
        if out is not None:
            v = out.buf.v
        elif r.dtype_ == 'b':
            v = eng().fresh_bool('uninit')
        else:
            v = A.Lazy(eng().path.fresh('uninit'),
                       eng().fresh_real('uninit'))
    if out is not None:
        A.store(out, v, (r.dtype_, False))
        return out
    return Arr(shape, r.dtype_, Buf(v), nd=len(shape) > 0)


def _bi(op):
    def g(x, y, where=None, out=None):
        for z in (x, y):
            h = getattr(z, '_pv_ufunc2', None)
            if h is not None:
                return h(g, x, y, where)
        x = x if A.is_num(x) else asarray(x)
        y = y if A.is_num(y) else asarray(y)
        if isinstance(x, ConcArr) or isinstance(y, ConcArr):
            r = op(x, y)
            if where is not None:
                raise Unsupported('where with concrete arrays')
            return r
        if not isinstance(x, Arr):
            x = asarray(x)
        if where is not None and isinstance(x, Arr):
            # compute only where asked for: other values are undetermined
            w = asarray(where)
            if T.THUNKS[0] and isinstance(w.buf.v, A.Lazy):
                r = op(x, y)
                dt, raw, wraw = r.dtype_, r.buf.v, w.buf.v
                if out is None and dt == 'b':
                    un = eng().fresh_bool('uninit')
                    return Arr(A.bcast(r.shape_, w.shape_), dt, Buf(A.Thunk(
                        lambda: A.elem(raw) if A.force(A.to_bool(A.elem(
                            wraw))) else un)), nd=r.nd or w.shape_ != ())
            wv = w.e()
            if wv is not ABSENT and not A.force(A.to_bool(wv)):
                shape = A.bcast(A.bcast(x.shape_, asarray(y).shape_),
                                w.shape_)
                dt = op(Arr((), x.dtype_, Buf(T.ZERO if x.dtype_ != 'b'
                                              else T.TRUE)),
                        Arr((), A.dt_of(y), Buf(
                            T.ONE if A.dt_of(y) != 'b' else T.TRUE))).dtype_
                if out is not None:
                    return out
                v = eng().fresh_bool('uninit') if dt == 'b' else A.Lazy(
                    eng().path.fresh('uninit'), eng().fresh_real('uninit'))
                return Arr(shape, dt, Buf(v), nd=len(shape) > 0)
        r = op(x, y)
        if isinstance(r, Arr):
            r.py = False
            if where is not None:
                w = asarray(where)
                r = Arr(A.bcast(r.shape_, w.shape_), r.dtype_, r.buf,
                        nd=r.nd or w.shape_ != ())
        if out is not None:
            A.setitem(out, slice(None), r)
            return out
        return r
    return g


less = _bi(lambda x, y: x < y)
less_equal = _bi(lambda x, y: x <= y)
greater = _bi(lambda x, y: x > y)
greater_equal = _bi(lambda x, y: x >= y)
equal = _bi(lambda x, y: x == y)
not_equal = _bi(lambda x, y: x != y)
add = _bi(lambda x, y: x + y)
subtract = _bi(lambda x, y: x - y)
multiply = _bi(lambda x, y: x * y)
divide = _bi(lambda x, y: x / y)
true_divide = divide
floor_divide = _bi(lambda x, y: x // y)
mod = _bi(lambda x, y: x % y)
remainder = mod
power = _bi(lambda x, y: x ** y)


def _tob(x):
    x = asarray(x)
    if isinstance(x, ConcArr):
        return x
    if x.dtype_ == 'b':
        return x
    return x._un(A.to_bool, 'b')


def logical_and(x, y, where=None):
    return _bi(lambda a, b: _tob(a) & _tob(b))(x, y, where=where)


def logical_or(x, y, where=None):
    return _bi(lambda a, b: _tob(a) | _tob(b))(x, y, where=where)


def logical_xor(x, y):
    return _tob(x) ^ _tob(y)


def logical_not(x):
    return ~_tob(x)


bitwise_and = logical_and
bitwise_or = logical_or
invert = logical_not

sqrt = _un(A.s_sqrt)
cos = _un(A.s_cos)
sin = _un(A.s_sin)
arccos = _un(A.s_arccos)
arcsin = _un(A.s_arcsin)
acos, asin = arccos, arcsin
fabs = _un(A.s_abs)
floor = _un(A.s_floor)
ceil = _un(lambda a: A.s_neg(A.s_floor(A.s_neg(a))))
trunc = _un(A.s_trunc)
rint = _un(lambda a: a if a is NAN or A.is_inf(a) else A.s_round(a))
square = _un(lambda a: A.s_mul(a, a), None)
absolute = _un(A.s_abs, None)
negative = _un(A.s_neg, None)
sign = _un(A.s_sign, None)
_K180 = T.P({((0, -1),): F(180)})
degrees = _un(lambda a: A.s_mul(a, _K180))
rad2deg = degrees
radians = _un(lambda a: A.s_mul(a, T._DEG))
deg2rad = radians


def tan(x):
    return sin(x) / cos(x)


def abs(x):
    if isinstance(x, ConcArr):
        return x._map(lambda i: i if i >= 0 else -i)
    if A.is_num(x):
        return x.__abs__()
    return absolute(x)


def round(x, decimals=0):
    if decimals != 0:
        raise Unsupported('round with decimals')
    return rint(x)


around = round


def arctan2(y, x):
    r = asarray(y)._bin(asarray(x), lambda a, b: A.s_arctan2(
        A.to_num(a), A.to_num(b)), div=True)
    r.py = False
    return r


atan2 = arctan2


def hypot(x, y):
    return sqrt(asarray(x) ** 2 + asarray(y) ** 2)


def arctan(x):
    return arctan2(x, 1.0)


def fmod(x, y):
    def f(a, b):
        if a is NAN or b is NAN or A.is_inf(a):
            return NAN
        if A.force(T.eq(b, T.ZERO)):
            return NAN
        return a - b * A.s_trunc(A.s_div(a, b))
    r = asarray(x)._num(asarray(y), f)
    r.py = False
    return r


def modf(x):
    x = asarray(x)
    ip = trunc(x)
    fr = x - ip
    return Arr(x.shape_, 'f', fr.buf, nd=bool(x.shape_)), Arr(
        x.shape_, 'f', ip.buf, nd=bool(x.shape_))


def isnan(x):
    if isinstance(x, ConcArr):
        return x._map(lambda i: bool(isnan(i)))
    h = getattr(x, '_pv_isnan', None)
    if h is not None:
        return h()
    x = asarray(x)
    if isinstance(x, ConcArr):
        return x._map(lambda i: bool(isnan(i)))
    if x.dtype_ in 'OU':
        raise TypeError("ufunc 'isnan' not supported for the input types")
    raw = x.buf.v
    if T.THUNKS[0] and isinstance(raw, A.Lazy) and raw.nan:
        return A.tagged(Arr(x.shape_, 'b', Buf(A.Thunk(
            lambda: _isnan(A.elem(raw)))), nd=len(x.shape_) > 0), x)
    return A.tagged(Arr(x.shape_, 'b', Buf(_isnan(x.e())),
                        nd=len(x.shape_) > 0), x)


def _isnan(v):
    return ABSENT if v is ABSENT else T.b_const(v is NAN)


def isfinite(x):
    x = asarray(x)
    v = x.e()
    return Arr(x.shape_, 'b', Buf(ABSENT if v is ABSENT else T.b_const(
        v not in (NAN, PINF, NINF))), nd=len(x.shape_) > 0)


def isinf(x):
    x = asarray(x)
    v = x.e()
    return Arr(x.shape_, 'b', Buf(ABSENT if v is ABSENT else T.b_const(
        v in (PINF, NINF))), nd=len(x.shape_) > 0)


def nan_to_num(x, nan=0.0):
    x = asarray(x)
    return x._un(lambda v: A.num_of(nan) if v is NAN else v)


def any(x, axis=None):
    if isinstance(x, (list, tuple)):
        x = asarray(x)
    if isinstance(x, bool):
        return x
    return x.any()


def all(x, axis=None):
    if isinstance(x, (list, tuple)):
        x = asarray(x)
    if isinstance(x, bool):
        return x
    return x.all()


def where(c, *args):
    if args:
        x, y = asarray(args[0]), asarray(args[1])
        c = asarray(c)
        shape = A.bcast(A.bcast(c.shape_, x.shape_), y.shape_)
        dt = A.res_dtype(x.dtype_, y.dtype_)
        v = c.e()
        if v is ABSENT:
            r = ABSENT
        else:
            src = x if A.force(A.to_bool(v)) else y
            r = src.e()
            if r is not ABSENT:
                r = A.cast_elem(r, src.dtype_, dt)
        return Arr(shape, dt, Buf(r))
    c = asarray(c)
    if isinstance(c, ConcArr):
        return (ConcArr([i for i, v in enumerate(c.items) if bool(v)], 'i'),)
    if c.shape_ == ():
        # numpy >= 2 forbids nonzero on 0-d arrays
        raise ValueError('Calling nonzero on 0d arrays is not allowed.')
    if c.dtype_ != 'b':
        c = _tob(c)
    d = A.count_dim(c)
    v = c.e()
    on = v is not ABSENT and A.force(v)
    r = Arr((d,), 'i', Buf(A.KIdx(c.shape_) if on else ABSENT))
    return (r,) * len(c.shape_)


nonzero = where


def flatnonzero(c):
    return where(asarray(c).ravel())[0]


def argwhere(c):
    raise Unsupported('argwhere')


def isin(x, vals):
    x = asarray(x)
    vals = list(vals.items) if isinstance(vals, ConcArr) else vals
    if isinstance(vals, Arr):
        if vals.generic():
            raise Unsupported('isin of a symbolic array')
        vals = [Arr((), vals.dtype_, Buf(vals.buf.v), nd=False)]
    if isinstance(x, ConcArr):
        return x._map(lambda i: i in vals)
    r = Arr(x.shape_, 'b', Buf(T.FALSE), nd=len(x.shape_) > 0)
    for v in vals:
        r = r | (x == v)
    return r


in1d = isin


def maximum(x, y):
    def f(a, b):
        if a is NAN or b is NAN:
            return NAN
        return a if A.force(A.s_cmp('ge', a, b)) else b
    return asarray(x)._num(y, f)


def minimum(x, y):
    def f(a, b):
        if a is NAN or b is NAN:
            return NAN
        return a if A.force(A.s_cmp('le', a, b)) else b
    return asarray(x)._num(y, f)


def clip(x, lo, hi):
    r = x
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def broadcast_to(x, shape):
    return full(shape, x)


def broadcast_arrays(*xs):
    xs = [asarray(x) for x in xs]
    s = ()
    for x in xs:
        s = A.bcast(s, x.shape_)
    return [full(s, x) for x in xs]


def broadcast_shapes(*ss):
    s = ()
    for x in ss:
        s = A.bcast(s, _shape(x))
    return s


def shape(x):
    return asarray(x).shape


def ndim(x):
    return asarray(x).ndim


def size(x):
    return asarray(x).size


def array_equal(x, y):
    x, y = asarray(x), asarray(y)
    if len(x.shape) != len(y.shape):
        return False
    return bool((x == y).all())


def count_nonzero(x):
    return A.count_true(_tob(x))


def sum(x, axis=None):
    return asarray(x).sum()


def max(x, *a):
    return asarray(x).max()


def min(x, *a):
    return asarray(x).min()


amax, amin = max, min


def ravel(x):
    return asarray(x).ravel()


def squeeze(x):
    return asarray(x).squeeze()


def select(conds, choices, default=0):
    r = asarray(default)
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


def putmask(x, m, v):
    A.setitem(x, m, v)


def copyto(dst, src, where=True):
    if where is True:
        A.setitem(dst, slice(None), src)
    else:
        src = asarray(src)
        w = asarray(where)
        A.setitem(dst, w, src if src.shape_ == () else src[w])


def isscalar(x):
    return isinstance(x, (int, float, str)) or (isinstance(x, Arr)
                                                and not x.nd)


class errstate(object):
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def seterr(**k):
    return {}


def result_type(*xs):
    ch = None
    for x in xs:
        if isinstance(x, (Arr, ConcArr)) and (isinstance(x, ConcArr)
                                              or not x.py):
            d = x.dtype.ch
        elif isinstance(x, (Arr, bool, int, float)):
            d = A.dt_of(x)
        else:
            d = A.dtype_char(x)
        ch = d if ch is None else A.res_dtype(ch, d)
    return A.DType(ch)


def promote_types(a, b):
    return A.DType(A.res_dtype(A.dtype_char(a), A.dtype_char(b)))


def can_cast(a, b, casting='safe'):
    raise Unsupported('can_cast')


def dtype(x):
    return A.DType(A.dtype_char(x))


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    raise Unsupported('numpy.%s' % name)
