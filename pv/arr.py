"""Symbolic arrays and scalars.

An array of arbitrary length is represented by its *generic element*: the
value at one arbitrary index k.  A proof about the generic element is a proof
about every element, because k is universally quantified; operations that
mix elements (any, all, len of a selection) are resolved exactly at k and
otherwise non-deterministically.
"""

from fractions import Fraction as F
import math

from pv import terms as T
from pv.engine import eng, Unsupported, PathEnd, NoopOff


class Tag(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


NAN, PINF, NINF, ABSENT = Tag('nan'), Tag('+inf'), Tag('-inf'), Tag('absent')


class Lazy(object):
    """A real that may be NaN; the choice is made when first needed."""

    def __init__(self, name, poly, nan=True):
        self.name = name
        self.poly = poly
        self.nan = nan

    def get(self):
        if not self.nan:
            return self.poly
        if eng().decide(T.b_var('nan?' + self.name)):
            return NAN
        return self.poly

    def __repr__(self):
        return 'lazy:%s' % self.name


class Thunk(Lazy):
    """An arithmetic result computed when first needed."""

    def __init__(self, make):
        self.name = 'thunk'
        self.make = make
        self.done = False
        self.nan = True

    def get(self):
        if not self.done:
            self.v = self.make()
            self.done = True
        return self.v


class KIdx(object):
    """The generic index k of an axis family."""

    def __init__(self, dims):
        self.dims = dims

    def __repr__(self):
        return 'k%r' % (self.dims,)


# ------------------------------------------------------------------- dims

class Dim(object):
    """A symbolic array length (at least one)."""

    def __init__(self, name, atom=None, count_of=None):
        self.name = name
        self.p = atom if atom is not None else T.V('len_' + name, 'int')
        self.count_of = count_of

    def _s(self):
        if self.count_of is None:
            eng().path.add(T.le(T.ONE, self.p))
        return Arr((), 'i', Buf(self.p), nd=False, py=True)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, Dim):
            return dim_equal(self, o)
        if isinstance(o, int):
            return bool(self._s() == o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        if self is o:
            return False
        if isinstance(o, Dim) and dim_equal(self, o):
            return False
        return self._s() < _ds(o)

    def __gt__(self, o):
        if self is o:
            return False
        if isinstance(o, Dim) and dim_equal(self, o):
            return False
        return self._s() > _ds(o)

    def __le__(self, o):
        if self is o:
            return True
        return self._s() <= _ds(o)

    def __ge__(self, o):
        if self is o:
            return True
        return self._s() >= _ds(o)

    def __bool__(self):
        return bool(self._s() != 0)

    def __add__(self, o):
        return self._s() + _ds(o)
    __radd__ = __add__

    def __sub__(self, o):
        return self._s() - _ds(o)

    def __rsub__(self, o):
        return _ds(o) - self._s()

    def __mul__(self, o):
        return self._s() * _ds(o)
    __rmul__ = __mul__

    def __index__(self):
        raise Unsupported('symbolic length used as a concrete integer')

    def __format__(self, spec):
        return '<%s>' % self.name

    def __repr__(self):
        return '<%s>' % self.name


def _ds(o):
    return o._s() if isinstance(o, Dim) else o


def dim_equal(a, b):
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Dim) and isinstance(b, Dim):
        ca, cb = a.count_of, b.count_of
        if ca is None and cb is None:
            return False
        ea = T.TRUE if ca is None else ca
        eb = T.TRUE if cb is None else cb
        # for every k both masks select k or neither does
        return eng().decide(ea) == eng().decide(eb)
    return False


# ---------------------------------------------------------------- buffers

class Buf(object):
    __slots__ = ('v', 'ver', 'name', 'watch')

    def __init__(self, v, name=None):
        self.v = v
        self.ver = 0
        self.name = name
        self.watch = None

    def written(self):
        self.ver += 1
        if self.watch:
            # a no-op probe relied on this buffer staying as it was
            raise NoopOff()


def elem(x):
    """Resolve an element value."""
    if isinstance(x, Lazy):
        return x.get()
    return x


def force(sb):
    return eng().decide(sb)


def num_of(x):
    """Element of a Python/numpy number."""
    if isinstance(x, Arr):
        return elem(x.buf.v)
    if isinstance(x, Dim):
        return x.p
    if isinstance(x, bool):
        return T.b_const(x)
    if isinstance(x, (int, F)):
        return T.P.const(x)
    if isinstance(x, float):
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return PINF if x > 0 else NINF
        return T.P.const(x)
    raise Unsupported('not a number: %r' % (type(x),))


def is_num(x):
    return isinstance(x, (int, float, F, Dim)) or isinstance(x, Arr)


def to_num(e):
    """Coerce a boolean element to a number."""
    if isinstance(e, T.SB):
        return T.ONE if force(e) else T.ZERO
    return e


def to_bool(e):
    """Truth of an element as an SB."""
    if isinstance(e, T.SB):
        return e
    if isinstance(e, T.P):
        return T.b_not(T.eq(e, T.ZERO))
    if e in (NAN, PINF, NINF):
        return T.TRUE
    if e is None:
        return T.FALSE
    raise Unsupported('truth of %r' % (e,))


# ------------------------------------------------- scalar IEEE-like algebra

def sgn(p):
    """Sign of a finite term, decided: -1, 0, 1."""
    if p.is_const():
        c = p.cval()
        return (c > 0) - (c < 0)
    if force(T.lt(T.ZERO, p)):
        return 1
    if force(T.eq(p, T.ZERO)):
        return 0
    return -1


def is_inf(x):
    return x is PINF or x is NINF


def s_neg(a):
    if a is PINF:
        return NINF
    if a is NINF:
        return PINF
    return a if a is NAN else -a


def s_add(a, b):
    if a is NAN or b is NAN:
        return NAN
    if is_inf(a):
        return NAN if is_inf(b) and b is not a else a
    if is_inf(b):
        return b
    r = a + b
    if not r.is_const():
        q = SQUARES.get(a.key()), SQUARES.get(b.key())
        if None not in q:
            SQUARES[r.key()] = q[0] + q[1]
    return r


# terms known to be a sum of squares: key -> the squared terms
SQUARES = {}


def squared(r, a):
    if not r.is_const():
        SQUARES[r.key()] = (a,)
    return r


def s_sub(a, b):
    return s_add(a, s_neg(b))


def s_mul(a, b):
    if a is NAN or b is NAN:
        return NAN
    if is_inf(a) or is_inf(b):
        x, y = (a, b) if is_inf(a) else (b, a)
        s = (1 if y is PINF else -1) if is_inf(y) else sgn(y)
        if s == 0:
            return NAN
        return x if s > 0 else s_neg(x)
    r = a * b
    return squared(r, a) if a is b or a.key() == b.key() else r


def s_div(a, b):
    if a is NAN or b is NAN:
        return NAN
    if is_inf(b):
        return NAN if is_inf(a) else T.ZERO
    if is_inf(a):
        s = sgn(b)
        return a if s >= 0 else s_neg(a)
    if b.is_const():
        c = b.cval()
        if c:
            return a.scale(1 / c)
        s = sgn(a)
        return NAN if s == 0 else (PINF if s > 0 else NINF)
    if force(T.eq(b, T.ZERO)):
        s = sgn(a)
        return NAN if s == 0 else (PINF if s > 0 else NINF)
    if a.is_zero():
        return a
    if len(b.t) > 1:
        q = a.divide(b)
        if q is not None:
            return q
    r = a * T.inv_p(b)
    root = b.single()
    if root is not None and root.kind == 'sqrt' and len(a.t) < 4 and \
            sum_of_squares(root.data - a * a):
        # |a| <= sqrt(a*a + ...)
        eng().assume(T.b_and(T.le(r, T.ONE), T.le(-T.ONE, r)))
    return r


def s_pow(a, n):
    if isinstance(n, T.P):
        if not n.is_const():
            raise Unsupported('symbolic exponent')
        n = n.cval()
    if n == F(1, 2):
        return s_sqrt(a)
    if n.denominator != 1:
        raise Unsupported('fractional exponent')
    n = int(n)
    if n == 0:
        return T.ONE
    if a is NAN:
        return NAN
    if is_inf(a):
        if n < 0:
            return T.ZERO
        return PINF if a is PINF or n % 2 == 0 else NINF
    if n < 0:
        return s_div(T.ONE, a.pow(-n))
    r = a.pow(n)
    return squared(r, a.pow(n // 2)) if n % 2 == 0 else r


def s_abs(a):
    if a is NAN:
        return NAN
    if is_inf(a):
        return PINF
    if a.is_const():
        return T.P.const(abs(a.cval()))
    return a if force(T.le(T.ZERO, a)) else -a


def s_sqrt(a):
    if a is NAN or a is NINF:
        return NAN
    if a is PINF:
        return PINF
    if a.is_const() and a.cval() < 0:
        return NAN
    r = quotient_sqrt(a)
    if r is not None:
        return r
    if not a.is_const() and not sum_of_squares(a):
        if a.key() in SQUARES:
            eng().assume(T.le(T.ZERO, a))
        elif force(T.lt(a, T.ZERO)):
            return NAN
    r = perfect_sqrt(a)
    if r is not None:
        return s_abs(r)
    return T.sqrt_p(a)


def quotient_sqrt(p):
    """Square root of a square over an even power of a root, or None."""
    k = {}
    for m in p.t:
        for a, e in m:
            if e < 0 and T.ATOMS[a].kind == 'sqrt':
                k[a] = min(k.get(a, 0), e)
    if not k:
        return None
    q, d = p, T.ONE
    for a, e in k.items():
        if e % 2:
            e -= 1
        q = T.P({T._mono_mul(m, ((a, -e),)): c for m, c in q.t.items()})
        d = d * T.P({((a, e // 2),): F(1)})
    q = T.reduce_sq(q)
    r = perfect_sqrt(q)
    return None if r is None else s_abs(r) * d


def sum_of_squares(p):
    """Syntactic check that a term is a sum of even monomials."""
    for m, c in p.t.items():
        if c < 0 or any(e % 2 for _, e in m):
            return False
    return bool(p.t)


def perfect_sqrt(p):
    """Polynomial square root, or None."""
    if p.is_zero():
        return p
    if p.is_const():
        r = T.sqrt_p(p) if p.cval() >= 0 else None
        return r if r is not None and r.is_const() else None
    lm, lc = p.lead()
    if any(e % 2 for _, e in lm) or lc < 0:
        return None
    n, d = math.isqrt(lc.numerator), math.isqrt(lc.denominator)
    if n * n != lc.numerator or d * d != lc.denominator:
        return None
    q = T.P({tuple((a, e // 2) for a, e in lm): F(n, d)})
    lm0, lc0 = q.lead()
    rem = p - q * q
    for _ in range(30):
        if rem.is_zero():
            return q
        rm, rc = rem.lead()
        mm = T._mono_mul(rm, tuple((a, -e) for a, e in lm0))
        if any(e < 0 and a for a, e in mm) or T._grlex(mm) >= T._grlex(lm0):
            return None
        term = T.P({mm: rc / (2 * lc0)})
        q2 = q + term
        rem2 = p - q2 * q2
        if rem2.is_zero():
            return q2
        if T._grlex(rem2.lead()[0]) >= T._grlex(rm):
            return None
        q, rem = q2, rem2
    return None


def s_cmp(op, a, b):
    """Comparison of two elements as an SB."""
    if not _numlike(a) or not _numlike(b):
        if op == 'eq':
            return T.b_const(obj_eq(a, b))
        if op == 'ne':
            return T.b_const(not obj_eq(a, b))
        r = {'lt': lambda: a < b, 'le': lambda: a <= b,
             'gt': lambda: a > b, 'ge': lambda: a >= b}[op]()
        return as_sb(r)
    if isinstance(a, T.SB) and isinstance(b, T.SB) and op in ('eq', 'ne'):
        r = T.b_iff(a, b)
        return r if op == 'eq' else T.b_not(r)
    a, b = to_num(a), to_num(b)
    if op == 'gt':
        return s_cmp('lt', b, a)
    if op == 'ge':
        return s_cmp('le', b, a)
    if a is NAN or b is NAN:
        return T.b_const(op == 'ne')
    if is_inf(a) or is_inf(b):
        va = (2 if a is PINF else -2) if is_inf(a) else 0
        vb = (2 if b is PINF else -2) if is_inf(b) else 0
        return T.b_const({'lt': va < vb, 'le': va <= vb, 'eq': va == vb,
                          'ne': va != vb}[op])
    if op == 'lt':
        return T.lt(a, b)
    if op == 'le':
        return T.le(a, b)
    if op == 'eq':
        return T.eq(a, b)
    return T.b_not(T.eq(a, b))


def _numlike(x):
    return isinstance(x, (T.P, T.SB)) or x in (NAN, PINF, NINF)


def obj_eq(a, b):
    r = (a == b)
    return bool(r)


def as_sb(r):
    if isinstance(r, T.SB):
        return r
    if isinstance(r, Arr):
        return to_bool(elem(r.buf.v))
    return T.b_const(bool(r))


def s_sign(a):
    if a is NAN:
        return NAN
    if is_inf(a):
        return T.P.const(1 if a is PINF else -1)
    return T.P.const(sgn(a))


def s_floor(a):
    if a is NAN or is_inf(a):
        return a
    return T.floor_p(a)


def s_mod(a, b):
    if a is NAN or b is NAN or is_inf(a):
        return NAN
    if is_inf(b):
        raise Unsupported('mod inf')
    if force(T.eq(b, T.ZERO)):
        return NAN
    q = s_div(a, b)
    n = T.floor_p(q)
    if not b.is_const():
        # b*n <= a < b*n + b for positive b, reversed for negative b
        if force(T.lt(T.ZERO, b)):
            eng().assume(T.b_and(T.le(b * n, a), T.lt(a, b * n + b)))
        else:
            eng().assume(T.b_and(T.le(a, b * n), T.lt(b * n + b, a)))
    return a - b * n


def s_trunc(a):
    if a is NAN or is_inf(a):
        return a
    if a.is_int():
        return a
    if force(T.le(T.ZERO, a)):
        return T.floor_p(a)
    return -T.floor_p(-a)


def s_cos(a):
    if a is NAN or is_inf(a):
        return NAN
    return T.trig(a)[0]


def s_sin(a):
    if a is NAN or is_inf(a):
        return NAN
    return T.trig(a)[1]


def s_arccos(a):
    if a is NAN or is_inf(a):
        return NAN
    if force(T.b_or(T.lt(T.ONE, a), T.lt(a, -T.ONE))):
        return NAN
    for v, d in ((1, 0), (0, 90), (-1, 180)):
        if a == T.P.const(v):
            return T.to_rad(T.P.const(d))
    s = s_sqrt(T.ONE - a * a)
    if s is NAN:
        # 1 - a*a < 0 cannot hold for |a| <= 1
        raise PathEnd()
    d = T.angle_atom(('arccos', a.key()), 'acos', a, s, 0, 180)
    return T.to_rad(d)


def s_arcsin(a):
    r = s_arccos(a)
    if r is NAN:
        return r
    return T.to_rad(T.P.const(90)) - r


def s_arctan2(y, x):
    if y is NAN or x is NAN:
        return NAN
    if is_inf(x) or is_inf(y):
        raise Unsupported('arctan2 of infinities')
    if force(T.b_and(T.eq(x, T.ZERO), T.eq(y, T.ZERO))):
        p = x * x + y * y
        if not p.is_const():
            eng().assume(T.eq(p, T.ZERO))
            eng().assume(T.eq(T.sqrt_p(p), T.ZERO))
        return T.ZERO
    rho = s_sqrt(s_add(s_mul(x, x), s_mul(y, y)))
    if not isinstance(rho, T.P):
        raise PathEnd()
    # rho > 0 here: x and y are not both zero
    eng().assume(T.b_not(T.eq(rho, T.ZERO)))
    inv = T.inv_p(rho)
    d = T.angle_atom(('atan2', y.key(), x.key()), 'atan2', x * inv, y * inv,
                     -180, 180, lo_open=True)
    # sign facts without the quotient
    for f in T.sign_facts(d, x, y)[:0]:
        eng().assume(f)
    for k in range(-2, 2):
        q = k % 4
        ins = T.b_and(T.lt(T.P.const(90 * k), d),
                      T.lt(d, T.P.const(90 * (k + 1))))
        cs = T.lt(T.ZERO, x) if q in (0, 3) else T.lt(x, T.ZERO)
        ss = T.lt(T.ZERO, y) if q in (0, 1) else T.lt(y, T.ZERO)
        eng().assume(T.b_iff(ins, T.b_and(cs, ss)))
    for k, cx, cy in ((0, 'p', 0), (1, 0, 'p'), (2, 'n', 0), (-1, 0, 'n')):
        at = T.eq(d, T.P.const(90 * k))

        def c(v, w):
            return T.eq(v, T.ZERO) if w == 0 else (
                T.lt(T.ZERO, v) if w == 'p' else T.lt(v, T.ZERO))
        eng().assume(T.b_iff(at, T.b_and(c(x, cx), c(y, cy))))
    return T.to_rad(d)


# ------------------------------------------------------------------ arrays

INT_NAMES = ('i',)


class DTypeError(TypeError):
    """Stands for numpy.core UFuncTypeError."""


def res_dtype(a, b, div=False):
    if 'O' in (a, b):
        return 'O'
    if div:
        return 'f'
    if 'f' in (a, b):
        return 'f'
    if 'i' in (a, b):
        return 'i'
    return 'b'


def dt_of(x):
    if isinstance(x, Arr):
        return x.dtype_
    if isinstance(x, bool):
        return 'b'
    if isinstance(x, (int, Dim)):
        return 'i'
    if isinstance(x, F):
        return 'i' if x.denominator == 1 else 'f'
    if isinstance(x, float):
        return 'f'
    return 'O'


def bcast(s1, s2):
    if s1 == () or s1 is s2:
        return s2
    if s2 == ():
        return s1
    n = max(len(s1), len(s2))
    a = (1,) * (n - len(s1)) + tuple(s1)
    b = (1,) * (n - len(s2)) + tuple(s2)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        elif dim_equal(x, y):
            out.append(x)
        else:
            raise ValueError('operands could not be broadcast together with '
                             'shapes %r %r' % (s1, s2))
    return tuple(out)


def shape_equal(s1, s2):
    return len(s1) == len(s2) and all(dim_equal(x, y)
                                      for x, y in zip(s1, s2))


class DType(object):
    def __init__(self, ch):
        self.ch = ch
        self.kind = {'f': 'f', 'i': 'i', 'b': 'b', 'O': 'O', 'U': 'U'}[ch]
        self.names = None
        self.name = {'f': 'float64', 'i': 'int64', 'b': 'bool',
                     'O': 'object', 'U': 'str'}[ch]

    def __eq__(self, o):
        return self.ch == dtype_char(o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.ch)

    def __repr__(self):
        return 'dtype(%s)' % self.name


def dtype_char(d):
    if d is None:
        return None
    if isinstance(d, DType):
        return d.ch
    nm = d if isinstance(d, str) else getattr(d, '__name__', None) or str(d)
    nm = nm.replace('pv_', '')
    if nm.startswith('float') or nm in ('f8', 'f', 'd', 'double', 'floating',
                                        'number'):
        return 'f'
    if nm.startswith('int') or nm in ('i8', 'i', 'integer', 'intp'):
        return 'i'
    if nm.startswith('bool'):
        return 'b'
    if nm.startswith('object') or nm == 'O':
        return 'O'
    if nm.startswith('str') or '|U' in nm or nm.startswith('U'):
        return 'U'
    raise Unsupported('dtype %r' % (d,))


class Arr(object):
    """Array (nd=True), numpy scalar (nd=False) or Python number (py=True)."""
    __array_priority__ = 1000

    def __init__(self, shape, dtype, buf, nd=True, py=False):
        self.shape_ = tuple(shape)
        self.dtype_ = dtype
        self.buf = buf
        self.nd = nd
        self.py = py
        self._anyv = self.tag = None

    # ------------------------------------------------------- basic access
    @property
    def shape(self):
        if self.py:
            raise AttributeError('shape')
        return self.shape_

    @property
    def dtype(self):
        if self.py:
            raise AttributeError('dtype')
        return DType(self.dtype_)

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def size(self):
        if self.shape_ == ():
            return 1
        if len(self.shape_) == 1:
            return self.shape_[0]
        raise Unsupported('size of %r' % (self.shape_,))

    @property
    def T(self):
        if len(self.shape_) <= 1:
            return self
        raise Unsupported('transpose')

    @property
    def values(self):
        raise AttributeError('values')

    @property
    def flat(self):
        raise Unsupported('flat')

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        if name in FOREIGN or self.py:
            raise AttributeError(name)
        raise Unsupported('array attribute %r' % name)

    def e(self):
        return elem(self.buf.v)

    def generic(self):
        """True if other elements besides the generic one may exist."""
        return not all(isinstance(d, int) and d <= 1 for d in self.shape_)

    def empty(self):
        return any(isinstance(d, int) and d == 0 for d in self.shape_)

    def __len__(self):
        raise Unsupported('native len')

    def pv_len(self):
        if not self.shape_:
            raise TypeError('len() of unsized object')
        return self.shape_[0]

    def __iter__(self):
        if not self.shape_:
            raise TypeError('iteration over a 0-d array')
        d = self.shape_[0]
        if isinstance(d, int) and d <= 1 and len(self.shape_) == 1:
            if d == 1:
                yield Arr((), self.dtype_, Buf(self.buf.v), nd=False)
            return
        raise Unsupported('iteration over an array of symbolic length')

    def __contains__(self, x):
        if isinstance(x, IdxVar):
            ev = self.e()
            return isinstance(ev, KIdx)
        if self.shape_ == ():
            raise TypeError("argument of type 'float' is not iterable")
        if not self.generic():
            ev = self.e()
            if isinstance(ev, KIdx):
                if all(isinstance(d, int) and d == 1 for d in ev.dims):
                    # the only index of an axis of one element
                    return bool(Arr((), 'i', Buf(T.ZERO), nd=False) == x)
                raise Unsupported('membership in a symbolic array')
            return bool(self == x)
        raise Unsupported('membership in a symbolic array')

    def __hash__(self):
        if self.nd:
            raise TypeError("unhashable type: 'numpy.ndarray'")
        return hash(self.buf.v) if not isinstance(self.buf.v, Lazy) else 0

    def __bool__(self):
        if self.generic() and not self.empty():
            raise ValueError('The truth value of an array with more than one '
                             'element is ambiguous')
        if self.empty():
            return False
        v = self.e()
        if v is ABSENT:
            return False
        return force(to_bool(v))

    def __float__(self):
        raise Unsupported('native float() of a symbolic value')

    def __int__(self):
        raise Unsupported('native int() of a symbolic value')

    def __index__(self):
        v = self.e()
        if isinstance(v, T.P) and v.is_const() and v.cval().denominator == 1:
            return int(v.cval())
        raise Unsupported('symbolic value used as a concrete integer')

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported('round to digits')
        return Arr((), 'i', Buf(s_round(to_num(self.e()))), nd=False, py=True)

    def __trunc__(self):
        return Arr((), 'i', Buf(s_trunc(to_num(self.e()))), nd=False,
                   py=True)

    def __format__(self, spec):
        v = self.buf.v
        if isinstance(v, T.P) and v.is_const():
            return format(float(v.cval()), spec) if self.dtype_ == 'f' else \
                format(int(v.cval()), spec)
        return '<sym>'

    def __str__(self):
        return '<sym %r>' % (self.buf.v,)

    def __repr__(self):
        return 'Arr(%r,%s,%r)' % (self.shape_, self.dtype_, self.buf.v)

    # --------------------------------------------------------- arithmetic
    def _bin(self, o, f, div=False, name='op', rev=False):
        if not is_num(o):
            if isinstance(o, (list, tuple)):
                from pv import npf
                o = npf.asarray(o)
            else:
                h = getattr(o, '_pv_array_op', None)
                if h is not None:
                    return h(self, name, not rev)
                return NotImplemented
        sa, sb_ = self.shape_, (o.shape_ if isinstance(o, Arr) else ())
        shape = bcast(sa, sb_)
        dt = res_dtype(self.dtype_, dt_of(o), div)
        if dt == 'b' and name not in ('and', 'or', 'xor', 'add', 'mul'):
            if name == 'sub' and not (self.py or not isinstance(o, Arr)):
                raise TypeError('numpy boolean subtract is not supported')
            dt = 'f' if div else 'i'
        raw = (self.buf.v, o.buf.v if isinstance(o, Arr) else None)
        if T.THUNKS[0] and (
                name in ('add', 'sub', 'mul', 'pow') and dt == 'f' or name in (
                    'and', 'or', 'eq', 'lt', 'le', 'gt', 'ge', 'ne')) \
                and ABSENT not in raw \
                and any(isinstance(r, Lazy) and r.nan for r in raw):
            if name in ('and', 'or'):
                for r in raw:
                    if isinstance(r, T.SB) and eng().path.known(
                            r) is (name == 'or'):
                        return Arr(shape, 'b', Buf(T.b_const(name == 'or')),
                                   nd=len(shape) > 0)

            def make():
                a, b = elem(raw[0]), elem(raw[1]) if isinstance(
                    o, Arr) else num_of(o)
                r = f(b, a) if rev else f(a, b)
                return to_num(r) if isinstance(r, T.SB) and name in (
                    'add', 'sub', 'mul', 'pow') else r
            nd = len(shape) > 0
            py = self.py and (not isinstance(o, Arr) or o.py)
            return Arr(shape, dt, Buf(Thunk(make)), nd=nd, py=py and not nd)
        a, b = self.e(), num_of(o)
        if rev:
            a, b = b, a
        if a is ABSENT or b is ABSENT:
            v = ABSENT
        else:
            v = f(a, b)
        if isinstance(v, T.SB) and dt != 'b':
            v = to_num(v)
        nd = len(shape) > 0
        py = self.py and (not isinstance(o, Arr) or o.py)
        return Arr(shape, dt, Buf(v), nd=nd, py=py and not nd)

    def _num(self, o, f, div=False, name='op', rev=False):
        def g(a, b):
            if dt_ is True:
                # boolean arithmetic of numpy
                if name == 'add':
                    return T.b_or(a, b)
                if name == 'mul':
                    return T.b_and(a, b)
            a, b = to_num(a), to_num(b)
            if not _numlike(a) or not _numlike(b):
                raise TypeError('unsupported operand')
            return f(a, b)
        dt_ = (self.dtype_ == 'b' and dt_of(o) == 'b' and not self.py
               and not isinstance(o, bool))
        return self._bin(o, g, div, name, rev)

    def __add__(self, o):
        return self._num(o, s_add, name='add')

    def __radd__(self, o):
        return self._num(o, s_add, name='add', rev=True)

    def __sub__(self, o):
        return self._num(o, s_sub, name='sub')

    def __rsub__(self, o):
        return self._num(o, s_sub, name='sub', rev=True)

    def __mul__(self, o):
        return self._num(o, s_mul, name='mul')

    def __rmul__(self, o):
        return self._num(o, s_mul, name='mul', rev=True)

    def _zdiv(self, o, rev):
        d = self if rev else o
        if self.py and not (isinstance(o, Arr) and not o.py):
            v = num_of(d)
            if isinstance(v, T.P) and force(T.eq(v, T.ZERO)):
                raise ZeroDivisionError('division by zero')

    def __truediv__(self, o):
        if is_num(o):
            self._zdiv(o, False)
        return self._num(o, s_div, True, 'div')

    def __rtruediv__(self, o):
        if is_num(o):
            self._zdiv(o, True)
        return self._num(o, s_div, True, 'div', rev=True)

    def __floordiv__(self, o):
        return self._num(o, lambda a, b: s_floor(s_div(a, b)), name='fdiv')

    def __rfloordiv__(self, o):
        return self._num(o, lambda a, b: s_floor(s_div(a, b)), name='fdiv',
                         rev=True)

    def __mod__(self, o):
        return self._num(o, s_mod, name='mod')

    def __rmod__(self, o):
        return self._num(o, s_mod, name='mod', rev=True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return self._num(o, s_pow, name='pow')

    def __rpow__(self, o):
        return self._num(o, s_pow, name='pow', rev=True)

    def __neg__(self):
        return self._un(lambda a: s_neg(to_num(a)))

    def __pos__(self):
        return self._un(to_num)

    def __abs__(self):
        return self._un(lambda a: s_abs(to_num(a)))

    def _un(self, f, dt=None):
        raw = self.buf.v
        if T.THUNKS[0] and isinstance(raw, Lazy) and raw.nan:
            return Arr(self.shape_, dt or self.dtype_, Buf(
                Thunk(lambda: f(elem(raw)))), nd=len(self.shape_) > 0,
                py=self.py)
        a = self.e()
        v = ABSENT if a is ABSENT else f(a)
        return Arr(self.shape_, dt or self.dtype_, Buf(v),
                   nd=len(self.shape_) > 0, py=self.py)

    # -------------------------------------------------------- in-place ops
    def _ip(self, r, o):
        if r is NotImplemented:
            return r
        if not self.nd:
            return r
        if self.dtype_ == 'i' and r.dtype_ == 'f' or (
                self.dtype_ == 'b' and r.dtype_ in 'if'):
            raise DTypeError("Cannot cast ufunc output from float64 to int64 "
                             "with casting rule 'same_kind'")
        if len(r.shape_) != len(self.shape_) or not shape_equal(
                self.shape_, r.shape_):
            raise ValueError('non-broadcastable output operand')
        self.buf.v = r.buf.v
        self.buf.written()
        self._anyv = None
        return self

    def __iadd__(self, o):
        return self._ip(self + o, o)

    def __isub__(self, o):
        return self._ip(self - o, o)

    def __imul__(self, o):
        return self._ip(self * o, o)

    def __itruediv__(self, o):
        return self._ip(self / o, o)

    def __imod__(self, o):
        return self._ip(self % o, o)

    def __ipow__(self, o):
        return self._ip(self ** o, o)

    def __ior__(self, o):
        return self._ip(self | o, o)

    def __iand__(self, o):
        return self._ip(self & o, o)

    # --------------------------------------------------------- comparisons
    def _cmp(self, o, op):
        if o is None or isinstance(o, str):
            if op == 'eq':
                return Arr(self.shape_, 'b', Buf(T.b_const(
                    obj_eq(self.e(), o) if self.dtype_ in 'OU' else False)),
                    nd=bool(self.shape_))
            if op == 'ne':
                return Arr(self.shape_, 'b', Buf(T.b_const(
                    not obj_eq(self.e(), o) if self.dtype_ in 'OU'
                    else True)), nd=bool(self.shape_))
            raise TypeError('unorderable')
        if not is_num(o):
            if isinstance(o, (list, tuple)):
                from pv import npf
                o = npf.asarray(o)
            elif self.dtype_ == 'O':
                o = Arr((), 'O', Buf(o))
            else:
                return NotImplemented
        r = self._bin(o, lambda a, b: s_cmp(op, a, b), name=op)
        if r is NotImplemented:
            return r
        r2 = Arr(r.shape_, 'b', Buf(None), nd=len(r.shape_) > 0, py=r.py)
        v = r.buf.v
        if not isinstance(v, T.SB) and v is not ABSENT and not isinstance(
                v, Thunk):
            # _bin coerced: redo without coercion
            a, b = self.e(), num_of(o)
            v = s_cmp(op, a, b)
        r2.buf.v = v
        return r2

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    # ------------------------------------------------------------- logical
    def _log(self, o, f, name):
        if not is_num(o):
            if isinstance(o, (list, tuple)):
                from pv import npf
                o = npf.asarray(o)
            else:
                return NotImplemented
        if self.dtype_ != 'b' or dt_of(o) != 'b':
            if 'f' in (self.dtype_, dt_of(o)):
                raise TypeError('ufunc bitwise not supported for floats')
            raise Unsupported('bitwise operation on integers')
        return self._bin(o, f, name=name)

    def __and__(self, o):
        return self._log(o, T.b_and, 'and')
    __rand__ = __and__

    def __or__(self, o):
        return self._log(o, T.b_or, 'or')
    __ror__ = __or__

    def __xor__(self, o):
        return self._log(o, lambda a, b: T.b_not(T.b_iff(a, b)), 'xor')
    __rxor__ = __xor__

    def __invert__(self):
        if self.dtype_ != 'b':
            raise TypeError('invert of a non-boolean array')
        r = self._un(T.b_not)
        t = self.tag
        if t is not None and t[0] is self.buf and t[1] == self.buf.ver:
            r.tag = (r.buf, r.buf.ver, t[2], not t[3], t[4])
        return r

    # ------------------------------------------------------------ indexing
    def __getitem__(self, ix):
        return getitem(self, ix)

    def __setitem__(self, ix, val):
        if not self.nd:
            raise TypeError("'numpy.float64' object does not support item "
                            "assignment")
        setitem(self, ix, val)

    # ------------------------------------------------------------- methods
    def any(self, axis=None):
        return np_bool(any_of(self))

    def all(self, axis=None):
        return np_bool(all_of(self))

    def copy(self, order=None):
        return Arr(self.shape_, self.dtype_, Buf(self.buf.v), nd=True)

    def astype(self, d, copy=True):
        return cast(self, dtype_char(d))

    def item(self):
        if self.generic():
            raise ValueError('can only convert an array of size 1')
        return Arr((), self.dtype_, Buf(self.buf.v), nd=False, py=True)

    def tolist(self):
        if self.shape_ == ():
            return self.item()
        return SymList(self)

    def flatten(self):
        if len(self.shape_) == 1:
            return self.copy()
        if self.shape_ == ():
            return Arr((1,), self.dtype_, Buf(self.buf.v))
        raise Unsupported('flatten')

    def ravel(self):
        if len(self.shape_) == 1:
            return self
        if self.shape_ == ():
            return Arr((1,), self.dtype_, self.buf)
        raise Unsupported('ravel')

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        shape = tuple(shape)
        if self.shape_ == () and shape in ((1,), (-1,)):
            return Arr((1,), self.dtype_, self.buf)
        if len(self.shape_) == 1 and (shape == (-1,)
                                      or shape_equal(shape, self.shape_)):
            return self
        raise Unsupported('reshape')

    def squeeze(self):
        if self.shape_ == (1,):
            return Arr((), self.dtype_, self.buf)
        return self

    def fill(self, v):
        setitem(self, slice(None), v)

    def max(self, *a, **k):
        return extreme(self, 'max')

    def min(self, *a, **k):
        return extreme(self, 'min')

    def sum(self, *a, **k):
        if self.dtype_ == 'b':
            return count_true(self)
        if not self.generic():
            return Arr((), self.dtype_, Buf(self.buf.v), nd=False)
        raise Unsupported('sum over a symbolic array')

    def nonzero(self):
        from pv import npf
        return npf.where(self)

    def total_seconds(self):
        raise AttributeError('total_seconds')


FOREIGN = {'lower', 'keys', 'strftime', 'upper', 'isoformat',
           'total_seconds', 'append', 'items', 'hour', 'minute',
           'get_next_good_ocb_ind', 'get_next_good_ind', 'to_numpy',
           'columns', 'variables', 'mask', 'split', 'find', 'startswith',
           'iloc', 'tz', 'time', 'timetuple', 'real_dtype', 'ocb', 'eab'}


def counted(a):
    """The length of range(n), range(0, n) or range(0, n, 1)."""
    n = a[0] if len(a) == 1 else a[1] if len(a) > 1 and num0(a[0], 0) and (
        len(a) < 3 or num0(a[2], 1)) else None
    if isinstance(n, Arr) and n.shape_ == () and n.dtype_ == 'i' and \
            isinstance(n.e(), T.P):
        x = n.e()
        if force(T.lt(x, T.ZERO)):
            x = T.ZERO
        return Dim('range', x, count_of=T.TRUE)
    return None


def num0(x, c):
    return (isinstance(x, int) and x == c) or (
        isinstance(x, Arr) and x.shape_ == () and isinstance(x.e(), T.P)
        and x.e().is_const() and x.e().cval() == c)


class IdxVar(object):
    """The generic index as a Python integer (loop/comprehension variable)."""

    def __init__(self, dims):
        self.dims = dims

    def __eq__(self, o):
        if isinstance(o, IdxVar):
            return True
        raise Unsupported('comparison of the generic index')

    def __hash__(self):
        return 7


class SymList(list):
    """A list known through its generic element."""

    def __init__(self, arr):
        list.__init__(self)
        self.arr = arr


def np_bool(sb):
    return Arr((), 'b', Buf(sb), nd=False)


def pyfloat(p):
    return Arr((), 'f', Buf(p), nd=False, py=True)


def pyint(p):
    return Arr((), 'i', Buf(p), nd=False, py=True)


def s_round(a):
    """Round half to even: an integer within one half."""
    if a is NAN or is_inf(a):
        raise ValueError('cannot convert float NaN to integer')
    if a.is_int():
        return a
    if a.is_const():
        return T.P.const(round(a.cval()))

    def make():
        at = T.new_atom('round#%d' % len(T.ATOMS), 'int', 'floor', a)
        x = T.P.atom(at)
        h = T.P.const(F(1, 2))
        at.axioms = [T.le(x - h, a), T.le(a, x + h)]
        return at
    at = T.memo_atom(('round', a.key()), make)
    T.touch(at)
    return T.P.atom(at)


def whole(x, what):
    """Is every (some) element of a generic array true?  Asking the same of
    the same values (see `tagged`) gives the same answer."""
    t = x.tag
    if t is None or t[0] is not x.buf or t[1] != x.buf.ver:
        return eng().fresh_bool(what)
    _, _, key, neg, keep = t
    cache = eng().path.cache
    # any(x) is not all(not x)
    k = ('every', key, neg ^ (what == 'any'))
    if k not in cache:
        b = eng().fresh_bool(what)
        cache[k] = (T.b_not(b) if what == 'any' else b, keep)
    b = cache[k][0]
    return T.b_not(b) if what == 'any' else b


def tagged(r, x, neg=False):
    """Note that r tells where the elements of x are NaN (are not)."""
    r.tag = (r.buf, r.buf.ver, (id(x.buf), x.buf.ver, repr(x.shape_)), neg,
             x.buf)
    return r


def any_of(x):
    if x.empty():
        return T.FALSE
    v = x.e()
    if v is not ABSENT and force(to_bool(v)):
        return T.TRUE
    if not x.generic():
        return T.FALSE
    if x._anyv is None:
        x._anyv = whole(x, 'any')
    return x._anyv


def all_of(x):
    if x.empty():
        return T.TRUE
    v = x.e()
    if v is not ABSENT and not force(to_bool(v)):
        return T.FALSE
    if not x.generic():
        return T.TRUE
    return whole(x, 'all')


def count_dim(mask):
    """Dimension of the selection by a boolean array."""
    if not mask.generic():
        v = mask.e()
        if mask.empty() or v is ABSENT:
            return 0
        return 1 if force(v) else 0
    key = id(mask.buf), mask.buf.ver
    cache = eng().path.cache
    if ('cnt', key) in cache:
        return cache[('cnt', key)][0]
    v = mask.e()
    sb = T.FALSE if v is ABSENT else v
    n = eng().path.fresh('count')
    p = T.V(n, 'int')
    eng().assume(T.le(T.ZERO, p))
    if isinstance(mask.shape_[0], Dim) and len(mask.shape_) == 1:
        eng().assume(T.le(p, mask.shape_[0].p))
        eng().path.add(T.le(T.ONE, mask.shape_[0].p))
        if v is not ABSENT and not force(sb):
            eng().assume(T.lt(p, mask.shape_[0].p))
    if v is not ABSENT and force(sb):
        eng().assume(T.le(T.ONE, p))
    d = Dim(n, p, count_of=sb)
    cache[('cnt', key)] = (d, mask)
    return d


def count_true(mask):
    d = count_dim(mask)
    return Arr((), 'i', Buf(d.p if isinstance(d, Dim) else T.P.const(d)),
               nd=False)


def extreme(x, which):
    if x.empty():
        raise ValueError('zero-size array to reduction operation')
    v = x.e()
    if not x.generic():
        return Arr((), x.dtype_, Buf(v), nd=False)
    r = eng().fresh_real(which)
    if eng().choose('extreme is nan'):
        return Arr((), x.dtype_, Buf(NAN), nd=False)
    if v is NAN:
        raise PathEnd()
    if isinstance(v, T.P):
        eng().assume(T.le(v, r) if which == 'max' else T.le(r, v))
    return Arr((), x.dtype_, Buf(r), nd=False)


def cast_elem(v, src, dst, strict=True):
    if v is ABSENT or dst == 'O' or src == dst:
        return v
    if dst == 'f':
        return to_num(v)
    if dst == 'i':
        v = to_num(v)
        if v in (NAN, PINF, NINF):
            if strict:
                raise ValueError('cannot convert float NaN to integer')
            return eng().fresh_int('badint')
        return s_trunc(v)
    if dst == 'b':
        return to_bool(v)
    raise Unsupported('cast %s to %s' % (src, dst))


def cast(x, d):
    if d is None or d == x.dtype_:
        return Arr(x.shape_, x.dtype_, Buf(x.buf.v), nd=True)
    return Arr(x.shape_, d, Buf(cast_elem(x.e(), x.dtype_, d, strict=False)),
               nd=True)


def as_index(ix):
    """Normalise an index: returns (kind, payload)."""
    if isinstance(ix, tuple):
        if len(ix) == 1:
            return as_index(ix[0])
        if all(isinstance(i, Arr) and i.dtype_ == 'i' for i in ix) and \
                isinstance(ix[0].e(), KIdx) or (
                    ix and all(isinstance(i, Arr) and i.e() is ABSENT
                               for i in ix)):
            return 'idx', ix[0]
        if len(ix) == 0:
            return 'all', None
        raise Unsupported('tuple index')
    if ix is Ellipsis:
        return 'all', None
    if isinstance(ix, slice):
        if ix == slice(None):
            return 'all', None
        return 'slice', ix
    if isinstance(ix, bool):
        return 'mask', Arr((), 'b', Buf(T.b_const(ix)))
    if isinstance(ix, SymList):
        return as_index(ix.arr)
    if isinstance(ix, IdxList):
        return 'idxlist', ix
    if isinstance(ix, IdxVar):
        return 'k', ix
    if isinstance(ix, list):
        if not ix:
            return 'none', None
        if all(isinstance(i, IdxVar) for i in ix):
            return 'idxlist', IdxList(ix)
        from pv import npf
        return as_index(npf.asarray(ix))
    if isinstance(ix, Arr):
        if ix.dtype_ == 'b':
            return 'mask', ix
        if ix.dtype_ == 'i':
            v = ix.e()
            if isinstance(v, KIdx) or v is ABSENT:
                return 'idx', ix
            if ix.shape_ == ():
                return 'int', v
            return 'fancy', ix
        raise IndexError('arrays used as indices must be of integer (or '
                         'boolean) type')
    if isinstance(ix, int):
        return 'int', T.P.const(ix)
    raise Unsupported('index %r' % (ix,))


class IdxList(list):
    """List of generic indices produced by comprehensions/list()."""


def getitem(x, ix):
    kind, p = as_index(ix)
    if kind == 'all':
        if not x.nd and x.shape_ == ():
            if ix == ():
                return x
        return Arr(x.shape_, x.dtype_, x.buf, nd=x.nd) if x.shape_ else x
    if kind == 'mask':
        return sel_mask(x, p)
    if kind == 'idx':
        if x.shape_ == ():
            raise IndexError('too many indices for array')
        v = p.e()
        d = p.shape_[0]
        if v is ABSENT:
            return Arr((d,), x.dtype_, Buf(ABSENT))
        check_kidx(x, v)
        return Arr((d,), x.dtype_, Buf(x.buf.v))
    if kind == 'k':
        return Arr((), x.dtype_, Buf(x.buf.v), nd=False)
    if kind == 'idxlist':
        if x.shape_ == ():
            raise IndexError('too many indices for array')
        n = eng().path.fresh('listlen')
        d = Dim(n, T.V(n, 'int'), count_of=T.b_const(bool(len(p))))
        eng().assume(T.le(T.ZERO, d.p))
        if len(p) > 1:
            raise Unsupported('generic index occurs twice in a list index')
        if hasattr(p, 'dim'):
            d = p.dim
        return Arr((d,), x.dtype_, Buf(x.buf.v if len(p) else ABSENT))
    if kind == 'none':
        return Arr((0,), x.dtype_, Buf(ABSENT))
    if kind == 'int':
        if x.shape_ == ():
            raise IndexError('invalid index to scalar variable.')
        d = x.shape_[0]
        if isinstance(d, int):
            if p.is_const():
                i = int(p.cval())
                if not -d <= i < d:
                    raise IndexError('index %d is out of bounds' % i)
                if d == 1:
                    return Arr(x.shape_[1:], x.dtype_, Buf(x.buf.v), nd=len(
                        x.shape_) > 1)
            raise Unsupported('integer index into a fixed array')
        return other_element(x, p)
    if kind == 'slice':
        if x.shape_ == (1,) or x.shape_ == (0,):
            r = range(*p.indices(x.shape_[0]))
            return Arr((len(r),), x.dtype_,
                       Buf(x.buf.v if len(r) else ABSENT))
        raise Unsupported('slice of a symbolic array')
    raise Unsupported('index kind %s' % kind)


def other_element(x, p):
    """x[i] for an integer i: the generic element or an arbitrary other."""
    key = ('other', id(x.buf), x.buf.ver, p.key())
    cache = eng().path.cache
    if key in cache:
        return cache[key][0]
    if getattr(x.buf, 'name', None) and x.buf.ver == 0 and False:
        pass
    if eng().choose('index %r is the generic one' % (p,)):
        v = x.buf.v
        if v is ABSENT:
            raise PathEnd()
    else:
        v = Lazy(eng().path.fresh('otherelem'),
                 eng().fresh_real('otherval'))
        if x.dtype_ == 'b':
            v = eng().fresh_bool('otherbool')
        elif x.dtype_ == 'O':
            raise Unsupported('integer index into an object array')
        elif x.dtype_ == 'i':
            v = eng().fresh_int('otherint')
    r = Arr((), x.dtype_, Buf(v), nd=False)
    cache[key] = (r, x)
    return r


def check_kidx(x, v):
    if not shape_equal(x.shape_[:1], v.dims[:1]) and not all(
            isinstance(d, Dim) for d in (x.shape_[0], v.dims[0])):
        raise Unsupported('index array of another axis')
    if not shape_equal(x.shape_[:1], v.dims[:1]):
        raise Unsupported('index array of another axis')


def mask_shape_ok(x, m):
    if x.shape_ == () and m.shape_ != ():
        raise IndexError('too many indices for array: array is '
                         '0-dimensional')
    if m.shape_ != () and not shape_equal(x.shape_[:len(m.shape_)],
                                          m.shape_):
        raise IndexError('boolean index did not match indexed array')


def sel_mask(x, m):
    mask_shape_ok(x, m)
    if m.shape_ == ():
        sel = force(to_bool(m.e()))
        if x.shape_ == ():
            return Arr((1 if sel else 0,), x.dtype_,
                       Buf(x.buf.v if sel else ABSENT))
        return Arr((1 if sel else 0,) + x.shape_, x.dtype_,
                   Buf(x.buf.v if sel else ABSENT))
    d = count_dim(m)
    mv = m.e()
    if mv is ABSENT or x.buf.v is ABSENT:
        return Arr((d,), x.dtype_, Buf(ABSENT))
    if force(mv):
        return Arr((d,), x.dtype_, Buf(x.buf.v))
    return Arr((d,), x.dtype_, Buf(ABSENT))


def store(x, v, vdt):
    """Store an element value into the generic position of x."""
    if v is ABSENT:
        raise Unsupported('storing an absent element')
    scalar_src = vdt[1]
    if isinstance(v, Lazy) and x.dtype_ in ('f', 'O'):
        x.buf.v = v
    else:
        v = elem(v)
        if x.dtype_ == 'i' and v in (NAN, PINF, NINF):
            if scalar_src:
                raise ValueError('cannot convert float NaN to integer')
        x.buf.v = cast_elem(v, vdt[0], x.dtype_, strict=scalar_src)
    x.buf.written()
    x._anyv = None


def val_parts(val):
    if isinstance(val, (list, tuple)) and not isinstance(val, IdxList):
        from pv import npf
        val = npf.asarray(val)
    if isinstance(val, Arr):
        return val.shape_, val.buf.v, (val.dtype_, val.shape_ == ())
    if is_num(val):
        return (), num_of(val), (dt_of(val), True)
    return (), val, ('O', True)


def one(s):
    return len(s) == 1 and isinstance(s[0], int) and s[0] == 1


def setitem(x, ix, val):
    kind, p = as_index(ix)
    vs, vv, vdt = val_parts(val)
    if kind == 'all':
        if vs != ():
            bs = bcast(x.shape_, vs)
            if not shape_equal(bs, x.shape_):
                raise ValueError('could not broadcast input array')
        if not x.empty():
            store(x, vv, vdt)
        return
    if kind == 'mask':
        mask_shape_ok(x, p)
        if p.shape_ == () and x.shape_ == ():
            if vs not in ((), (1,), (0,)):
                if not (len(vs) == 1 and isinstance(vs[0], Dim)):
                    raise ValueError('shape mismatch in assignment')
            if force(to_bool(p.e())):
                if vv is ABSENT:
                    raise ValueError('NumPy boolean array indexing '
                                     'assignment cannot assign 0 input '
                                     'values to the 1 output values')
                store(x, vv, vdt)
            elif vs == (1,) and False:
                pass
            return
        if p.shape_ == ():
            if force(to_bool(p.e())):
                setitem(x, slice(None), val)
            return
        d = count_dim(p)
        if vs != () and not (len(vs) == 1 and vs[0] is d) and not one(vs):
            if len(vs) != 1 or not dim_equal(vs[0], d):
                raise ValueError('shape mismatch: value array could not be '
                                 'broadcast to indexing result')
        mv = p.e()
        if mv is not ABSENT and force(mv):
            if x.buf.v is ABSENT:
                return
            store(x, vv, vdt)
        elif x.dtype_ == 'i' and vdt[1] and vv is NAN and x.generic():
            if eng().choose('other element selected'):
                raise ValueError('cannot convert float NaN to integer')
        return
    if kind == 'idx':
        if x.shape_ == ():
            raise IndexError('too many indices for array')
        v = p.e()
        if vs != () and not (len(vs) == 1 and vs[0] is p.shape_[0]) and \
                not one(vs):
            if len(vs) != 1 or not dim_equal(vs[0], p.shape_[0]):
                raise ValueError('shape mismatch: value array could not be '
                                 'broadcast to indexing result')
        if v is not ABSENT:
            check_kidx(x, v)
            if vv is ABSENT:
                raise Unsupported('selection lengths not aligned')
            store(x, vv, vdt)
        elif x.dtype_ == 'i' and vdt[1] and vv is NAN and x.generic():
            if eng().choose('other element selected'):
                raise ValueError('cannot convert float NaN to integer')
        return
    if kind in ('idxlist', 'none'):
        if kind == 'idxlist' and len(p):
            d = getattr(p, 'dim', None)
            if vs != () and not one(vs) and not (
                    d is not None and len(vs) == 1 and vs[0] is d):
                if d is None or not dim_equal(vs[0], d):
                    raise Unsupported('assignment through an index list')
            store(x, vv, vdt)
        return
    if kind == 'k':
        store(x, vv, vdt)
        return
    if kind == 'int':
        d = x.shape_[0] if x.shape_ else None
        if d is None:
            raise IndexError('too many indices for array')
        if isinstance(d, int) and p.is_const():
            i = int(p.cval())
            if not -d <= i < d:
                raise IndexError('index out of bounds')
            if d == 1:
                store(x, vv, vdt)
                return
        raise Unsupported('integer item assignment')
    if kind == 'fancy' and one(x.shape_) and one(p.shape_) and \
            isinstance(p.e(), T.P) and p.e().is_const():
        if int(p.e().cval()) not in (0, -1):
            raise IndexError('index out of bounds')
        if vs != () and not one(vs):
            raise Unsupported('assignment through fancy index')
        store(x, vv, vdt)
        return
    raise Unsupported('assignment through %s index' % kind)


# -------------------------------------------------------------- symbolics

def sym(name, shape=(), dtype='f', nan=True, nd=None, py=False):
    """A symbolic input."""
    if dtype == 'f':
        v = Lazy(name, T.V(name), nan)
        if not nan:
            v = T.V(name)
    elif dtype == 'i':
        v = T.V(name, 'int')
    elif dtype == 'b':
        v = T.b_var(name)
    else:
        raise ValueError(dtype)
    if any(isinstance(d, int) and d == 0 for d in shape):
        v = ABSENT
    if nd is None:
        nd = not py
    return Arr(shape, dtype, Buf(v, name), nd=nd, py=py)
