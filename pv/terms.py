"""Term layer of the verifier: Laurent polynomials over atoms, and booleans.

Real numbers are mathematical reals.  A term is a Laurent polynomial with
rational coefficients over *atoms*; atom 0 is pi.  Trigonometric functions,
square roots, quotients by sums, inverse trigonometric functions and integer
parts introduce atoms that carry defining axioms.  Two back-end encodings
exist: a linear one (every non-linear monomial is an opaque constant) and the
full non-linear one.
"""

from fractions import Fraction as F
import math
import z3


class Atom(object):
    __slots__ = ('idx', 'name', 'sort', 'kind', 'data', 'axioms', 'sq',
                 'z', 'zi', 'fval', 'owner')

    def __init__(self, idx, name, sort='real', kind='var', data=None):
        self.idx = idx
        self.name = name
        self.sort = sort
        self.kind = kind
        self.data = data
        self.axioms = []        # list of SBool
        self.sq = None          # P: replacement for atom**2
        self.z = None
        self.zi = None

    def __repr__(self):
        return self.name


ATOMS = []
_MEMO = {}


def new_atom(name, sort='real', kind='var', data=None):
    a = Atom(len(ATOMS), name, sort, kind, data)
    ATOMS.append(a)
    return a


def memo_atom(key, make):
    if key not in _MEMO:
        _MEMO[key] = make()
    return _MEMO[key]


PI_ATOM = new_atom('pi', kind='pi')

# Atoms in use on the current path are announced here, so that the axioms of
# exactly those atoms reach the solver.
TOUCH = [None]


def touch(atom):
    if TOUCH[0] is not None:
        TOUCH[0](atom)


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


class P(object):
    """Laurent polynomial."""
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        c = to_frac(c)
        return P({(): c}) if c else P({})

    @staticmethod
    def atom(a, e=1):
        return P({((a.idx, e),): F(1)})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), F(0))

    def is_zero(self):
        return not self.t

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return P(t)

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        c = to_frac(c)
        if not c:
            return P({})
        return P({m: v * c for m, v in self.t.items()})

    def __mul__(self, o):
        if len(self.t) * len(o.t) > 6000:
            raise TooBig('polynomial product too large')
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                n = t.get(m, 0) + c1 * c2
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
        return reduce_sq(P(t))

    def pow(self, n):
        if n == 0:
            return P.const(1)
        if n < 0:
            if len(self.t) == 1:
                (m, c), = self.t.items()
                return P({tuple((a, e * n) for a, e in m): c ** n})
            raise ValueError('negative power of a sum')
        r = P.const(1)
        for _ in range(n):
            r = r * self
        return r

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def single(self):
        """Return the atom if the term is exactly one atom, else None."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return ATOMS[m[0][0]]
        return None

    def is_int(self):
        """True if integer-valued by construction."""
        for m, c in self.t.items():
            if c.denominator != 1:
                return False
            for a, e in m:
                if e < 0 or ATOMS[a].sort != 'int':
                    return False
        return True

    def divide(self, d):
        """Exact division by `d`, or None."""
        if d.is_zero():
            return None
        if len(d.t) == 1:
            (m, c), = d.t.items()
            inv = tuple((a, -e) for a, e in m)
            q = P({_mono_mul(mm, inv): cc / c for mm, cc in self.t.items()})
            if any(e < 0 and a for mm in q.t for a, e in mm):
                return None
            return q
        rem = self
        q = P({})
        lm, lc = d.lead()
        for _ in range(200):
            if rem.is_zero():
                return q
            rm, rc = rem.lead()
            inv = tuple((a, -e) for a, e in lm)
            mm = _mono_mul(rm, inv)
            if any(e < 0 for _, e in mm):
                return None
            term = P({mm: rc / lc})
            q = q + term
            t = dict(rem.t)
            for m2, c2 in d.t.items():
                m = _mono_mul(mm, m2)
                n = t.get(m, 0) - c2 * rc / lc
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
            rem = P(t)
        return None

    def lead(self):
        m = max(self.t, key=lambda mm: (tuple((-a, e) for a, e in mm)
                                        if mm else ((-10**9, 0),)))
        # graded by total degree, then lexicographic
        m = max(self.t, key=_grlex)
        return m, self.t[m]

    def feval(self, env):
        s = 0.0
        for m, c in self.t.items():
            v = float(c)
            for a, e in m:
                v *= env(ATOMS[a]) ** e
            s += v
        return s

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items()):
            ms = '*'.join('%s%s' % (ATOMS[a].name, '' if e == 1 else
                                    '^%d' % e) for a, e in m)
            cs = str(c) if abs(c.denominator) < 10**6 else '%.12g' % float(c)
            out.append(ms if ms and c == 1 else (cs + ('*' + ms if ms else '')))
        return ' + '.join(out)


def _grlex(m):
    return (sum(e for _, e in m), tuple((-a, e) for a, e in m))


class TooBig(Exception):
    pass


TSUM = set()          # atoms that stand for cos/sin of an unexpanded sum


def reduce_sq(p):
    """Apply the replacement rules for squares and products of atoms."""
    if TSUM:
        p = reduce_tsum(p)
    for m in p.t:
        for a, e in m:
            if e >= 2 and ATOMS[a].sq is not None:
                break
        else:
            continue
        break
    else:
        return p
    out = P({})
    for m, c in p.t.items():
        hit = None
        for a, e in m:
            if e >= 2 and ATOMS[a].sq is not None:
                hit = (a, e)
                break
        if hit is None:
            out = out + P({m: c})
        else:
            a, e = hit
            rest = tuple((x, (y if x != a else y - 2)) for x, y in m)
            rest = tuple((x, y) for x, y in rest if y)
            out = out + P({rest: c}) * ATOMS[a].sq
    return out


def reduce_tsum(p):
    """Rewrite products of unexpanded sines and cosines into sums."""
    for m in p.t:
        if sum(e for a, e in m if e > 0 and a in TSUM) >= 2:
            break
    else:
        return p
    out = P({})
    for m, c in p.t.items():
        hits = []
        for a, e in m:
            if e > 0 and a in TSUM:
                hits += [a] * e
        if len(hits) < 2:
            out = out + P({m: c})
            continue
        i, j = hits[:2]
        rest = dict(m)
        rest[i] -= 1
        rest[j] -= 1
        rest = tuple(sorted((x, y) for x, y in rest.items() if y))
        (u, ki), (v, kj) = ATOMS[i].data, ATOMS[j].data
        if ki == 's' and kj == 'c':
            u, v, ki, kj = v, u, 'c', 's'
        cd, sd = trig(to_rad(u - v))
        cs, ss = trig(to_rad(u + v))
        r = (cd - cs) if ki == 's' else (cd + cs) if kj == 'c' else (ss - sd)
        out = out + P({rest: c / 2}) * r
    return out


def to_frac(c):
    if isinstance(c, F):
        return c
    if isinstance(c, bool):
        return F(int(c))
    if isinstance(c, int):
        return F(c)
    if isinstance(c, float):
        if math.isinf(c) or math.isnan(c):
            raise ValueError('not finite')
        if c == math.pi:
            raise ValueError('literal pi must be symbolic')
        return F(repr(c))
    try:
        return F(repr(float(c))) if float(c) != int(c) else F(int(c))
    except Exception:
        raise TypeError('not a number: %r' % (c,))


PI = P.atom(PI_ATOM)
ZERO = P({})
ONE = P.const(1)


# ---------------------------------------------------------------- booleans

class SB(object):
    """Boolean term.  op in {'c','var','le','lt','eq','and','or','not'}."""
    __slots__ = ('op', 'a', '_h')

    def __init__(self, op, a):
        self.op = op
        self.a = a
        self._h = None

    def key(self):
        if self._h is None:
            if self.op in ('le', 'lt', 'eq'):
                self._h = (self.op, self.a.key())
            elif self.op in ('and', 'or'):
                self._h = (self.op,) + tuple(x.key() for x in self.a)
            elif self.op == 'not':
                self._h = ('not', self.a.key())
            else:
                self._h = (self.op, self.a)
        return self._h

    def __eq__(self, o):
        return isinstance(o, SB) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def const(self):
        return self.a if self.op == 'c' else None

    def polys(self):
        if self.op in ('le', 'lt', 'eq'):
            yield self.a
        elif self.op in ('and', 'or'):
            for x in self.a:
                for y in x.polys():
                    yield y
        elif self.op == 'not':
            for y in self.a.polys():
                yield y

    def __repr__(self):
        if self.op == 'c':
            return str(self.a)
        if self.op == 'var':
            return self.a
        if self.op in ('le', 'lt', 'eq'):
            return '(%r %s 0)' % (self.a, {'le': '<=', 'lt': '<',
                                           'eq': '=='}[self.op])
        if self.op == 'not':
            return '!%r' % (self.a,)
        return '(' + (' & ' if self.op == 'and' else ' | ').join(
            repr(x) for x in self.a) + ')'


TRUE = SB('c', True)
FALSE = SB('c', False)


def b_const(v):
    return TRUE if v else FALSE


def b_var(name):
    return SB('var', name)


def b_not(x):
    if x.op == 'c':
        return b_const(not x.a)
    if x.op == 'not':
        return x.a
    if x.op == 'le':      # p <= 0  ->  -p < 0
        return _cmp('lt', -x.a)
    if x.op == 'lt':
        return _cmp('le', -x.a)
    return SB('not', x)


def b_and(*xs):
    out = []
    for x in xs:
        if x.op == 'c':
            if not x.a:
                return FALSE
            continue
        for y in (x.a if x.op == 'and' else (x,)):
            if y not in out:
                if b_not(y) in out:
                    return FALSE
                out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return SB('and', tuple(out))


def b_or(*xs):
    out = []
    for x in xs:
        if x.op == 'c':
            if x.a:
                return TRUE
            continue
        for y in (x.a if x.op == 'or' else (x,)):
            if y not in out:
                if b_not(y) in out:
                    return TRUE
                out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return SB('or', tuple(out))


def b_imp(a, b):
    return b_or(b_not(a), b)


def b_iff(a, b):
    return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))


def _norm(p, signed):
    """Divide by the common power of pi and by a positive constant."""
    if p.is_zero():
        return p
    k = min(dict(m).get(0, 0) for m in p.t)
    if k:
        p = P({_mono_mul(m, ((0, -k),)): c for m, c in p.t.items()})
    lm = max(p.t, key=_grlex)
    c = p.t[lm]
    c = abs(c) if signed else c
    if c != 1:
        p = p.scale(1 / c)
    return p


def _cmp(op, p):
    if p.is_const():
        v = p.cval()
        return b_const({'le': v <= 0, 'lt': v < 0, 'eq': v == 0}[op])
    p = _norm(p, op != 'eq')
    if set(a for m in p.t for a, _ in m) <= {0}:
        # constants involving pi only
        v = sum(float(c) * math.pi ** (m[0][1] if m else 0)
                for m, c in p.t.items())
        if abs(v) > 1e-9:
            return b_const({'le': v < 0, 'lt': v < 0, 'eq': False}[op])
    return SB(op, p)


def le(a, b):
    return _cmp('le', a - b)


def lt(a, b):
    return _cmp('lt', a - b)


def eq(a, b):
    return _cmp('eq', a - b)


# ------------------------------------------------------------ z3 encodings

PI_LO, PI_HI = F(31415926535, 10**10), F(31415926536, 10**10)


def int_poly(p, scale=False):
    """The integer expression of a linear integer term, else None."""
    den = 1
    for m, c in p.t.items():
        if m and (len(m) > 1 or m[0][1] != 1 or
                  ATOMS[m[0][0]].sort != 'int'):
            return None
        den = math.lcm(den, c.denominator)
    if den != 1 and not scale:
        return None
    out = []
    for m, c in p.t.items():
        k = z3.IntVal(int(c * den))
        if m:
            a = ATOMS[m[0][0]]
            ENC_FULL.atom(a)
            k = a.zi if c * den == 1 else k * a.zi
        out.append(k)
    if not out:
        return z3.IntVal(0)
    return out[0] if len(out) == 1 else z3.Sum(out)


class Enc(object):
    """Encoding of terms into z3; linear=True abstracts products."""

    def __init__(self, linear):
        self.linear = linear
        self.mono = {}
        self.bools = {}
        self.side = []          # side constraints to assert (inverses)

    def atom(self, a):
        if a.z is None:
            if a.kind == 'uf':
                fname, args = a.data
                if fname.startswith('real:'):
                    zs = [ENC_FULL.poly(x) for x in args]
                else:
                    zs = [int_poly(x) for x in args]
                    zs = [z3.ToInt(ENC_FULL.poly(x)) if z is None else z
                          for x, z in zip(args, zs)]
                f = uf(fname, len(args), a.sort)
                a.zi = f(*zs)
                a.z = z3.ToReal(a.zi) if a.sort == 'int' else a.zi
            elif a.sort == 'int':
                a.zi = z3.Int(a.name)
                a.z = z3.ToReal(a.zi)
            else:
                a.z = z3.Real(a.name)
        return a.z

    def monom(self, m):
        if m in self.mono:
            return self.mono[m]
        if len(m) == 1 and m[0][1] == 1:
            z = self.atom(ATOMS[m[0][0]])
        elif self.linear:
            z = z3.Real('m!' + '_'.join('%d^%d' % x for x in m))
        else:
            z = None
            for a, e in m:
                za = self.atom(ATOMS[a])
                if e < 0:
                    zi = z3.Real('inv!%d' % a)
                    self.side.append(zi * za == 1)
                    za, e = zi, -e
                for _ in range(e):
                    z = za if z is None else z * za
        if z is None:
            raise ValueError('monomial %r' % (m,))
        self.mono[m] = z
        return z

    def poly(self, p):
        terms = []
        for m, c in p.t.items():
            cz = z3.RealVal(c)
            if not m:
                terms.append(cz)
            elif c == 1:
                terms.append(self.monom(m))
            else:
                terms.append(cz * self.monom(m))
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def boolean(self, b):
        if b.op == 'c':
            return z3.BoolVal(b.a)
        if b.op == 'var':
            if b.a not in self.bools:
                self.bools[b.a] = z3.Bool(b.a)
            return self.bools[b.a]
        if b.op in ('le', 'lt', 'eq'):
            z = int_poly(b.a, True)
            if z is None:
                z = self.poly(b.a)
            elif b.op == 'lt':
                return z <= -1
            return z <= 0 if b.op == 'le' else z < 0 if b.op == 'lt' else \
                z == 0
        if b.op == 'not':
            return z3.Not(self.boolean(b.a))
        zs = [self.boolean(x) for x in b.a]
        return z3.And(zs) if b.op == 'and' else z3.Or(zs)


_UFS = {}


def uf(name, n, sort):
    key = (name, n, sort)
    if key not in _UFS:
        rng = z3.IntSort() if sort == 'int' else z3.RealSort()
        dom = z3.RealSort() if name.startswith('real:') else z3.IntSort()
        _UFS[key] = z3.Function(name, *([dom] * n + [rng]))
    return _UFS[key]


ENC_LIN = Enc(True)
ENC_FULL = Enc(False)


# --------------------------------------------------------------- functions

def var(name, sort='real'):
    return memo_atom(('var', name, sort), lambda: new_atom(name, sort))


def V(name, sort='real'):
    a = var(name, sort)
    touch(a)
    return P.atom(a)


def apply_uf(name, args, sort='real'):
    key = ('uf', name, sort) + tuple(a.key() for a in args)

    def make():
        return new_atom('%s(%s)' % (name, ','.join(map(repr, args))), sort,
                        'uf', (name, list(args)))
    a = memo_atom(key, make)
    touch(a)
    return P.atom(a)


def sqrt_p(p):
    """Square root of a term known to be non-negative."""
    if p.is_const():
        c = p.cval()
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return P.const(F(n, d))

    def make():
        a = new_atom('sqrt#%d' % len(ATOMS), kind='sqrt', data=p)
        a.sq = p
        x = P.atom(a)
        full_sq = P({((a.idx, 2),): F(1)})
        a.axioms = [le(ZERO, x), eq(full_sq, p), b_imp(eq(x, ZERO),
                                                       eq(p, ZERO)),
                    b_imp(eq(p, ZERO), eq(x, ZERO))]
        return a
    a = memo_atom(('sqrt', p.key()), make)
    touch(a)
    return P.atom(a)


def inv_p(p):
    """1/p for a term known to be non-zero."""
    if len(p.t) == 1:
        q = p.pow(-1)
        for a in p.atoms():
            touch(ATOMS[a])
        return q
    # factor out content so that multiples share the atom
    lm = max(p.t, key=_grlex)
    c = p.t[lm]
    k = min(dict(m).get(0, 0) for m in p.t)
    sh = ((0, -k),) if k else ()
    base = P({_mono_mul(m, sh): v / c for m, v in p.t.items()})

    def make():
        a = new_atom('den#%d' % len(ATOMS), kind='den', data=base)
        a.axioms = [eq(P.atom(a), base)]
        return a
    a = memo_atom(('den', base.key()), make)
    touch(a)
    return P({_mono_mul(((0, -k),) if k else (), ((a.idx, -1),)): 1 / c})


def clear_den(p):
    """p times the non-zero divisors in it, with those written out."""
    changed = False
    for _ in range(6):
        dens = {}
        for m in p.t:
            for a, e in m:
                if e < 0 and a:
                    dens[a] = min(dens.get(a, 0), e)
        if not dens:
            break
        changed = True
        for a, e in dens.items():
            q = reduce_sq(P({_mono_mul(m, ((a, -e),)): c
                             for m, c in p.t.items()}))
            if ATOMS[a].kind != 'den':
                p = q
                continue
            # write positive powers of the divisor out
            out = P({})
            for m, c in q.t.items():
                k = dict(m).get(a, 0)
                r = tuple((x, y) for x, y in m if x != a)
                t = P({r: c})
                for _ in range(k):
                    t = t * ATOMS[a].data
                out = out + t
            p = out
    return p if changed else None


def floor_p(p):
    if p.is_const():
        return P.const(math.floor(p.cval()))
    if p.is_int():
        return p

    def make():
        a = new_atom('floor#%d' % len(ATOMS), 'int', 'floor', p)
        x = P.atom(a)
        a.axioms = [le(x, p), lt(p, x + ONE)]
        return a
    a = memo_atom(('floor', p.key()), make)
    touch(a)
    return P.atom(a)


# -- trigonometry.  Angles are normalised to degrees: arg = pi/180 * deg.

_DEG = P({((0, 1),): F(1, 180)})
_SQ = {}


def to_deg(p):
    return P({_mono_mul(m, ((0, -1),)): c * 180 for m, c in p.t.items()})


def to_rad(p):
    return p * _DEG


def trig_base(m, coef_abs):
    """cos/sin atoms of the base angle coef_abs*m degrees."""
    key = ('trig', m, coef_abs)

    def make():
        nm = repr(P({m: coef_abs}))
        c = new_atom('cos[%s]' % nm, kind='cos', data=P({m: coef_abs}))
        s = new_atom('sin[%s]' % nm, kind='sin', data=P({m: coef_abs}))
        cp, sp = P.atom(c), P.atom(s)
        s.sq = ONE - P({((c.idx, 2),): F(1)})
        full = P({((c.idx, 2),): F(1)}) + P({((s.idx, 2),): F(1)})
        ax = [eq(full, ONE), le(cp, ONE), le(-ONE, cp), le(sp, ONE),
              le(-ONE, sp)]
        c.axioms = ax
        s.axioms = ax
        return (c, s)
    return memo_atom(key, make)


_BASES = {}


def pick_base(m, c):
    """Base angle and multiple for c times m, reusing known bases."""
    known = _BASES.setdefault(m, [])
    for b in known:
        q = c / b
        if q.denominator == 1 and q <= 8:
            return b, int(q)
    known.append(c)
    ca, sa = trig_base(m, c)
    for b in known[:-1]:
        q = b / c
        if q.denominator == 1 and q <= 8:
            cb, sb = trig_base(m, b)
            c2, s2 = _multiple(P.atom(ca), P.atom(sa), int(q))
            for e in (eq(c2, P.atom(cb)), eq(s2, P.atom(sb))):
                if e not in ca.axioms:
                    ca.axioms = ca.axioms + [e]
    return c, 1


def _multiple(c, s, n):
    """cos(n x), sin(n x) from cos x, sin x as terms, n >= 0."""
    rc, rs = ONE, ZERO
    for _ in range(n):
        rc, rs = rc * c - rs * s, rs * c + rc * s
    return rc, rs


TRIG_ARGS = []        # list of (deg P, cos P, sin P) on the current path


LAZY = [False]
THUNKS = [False]     # delay additions of possibly undefined elements


def lazy_trig(deg):
    """cos/sin of a sum of half angles, kept unexpanded."""
    def make():
        nm = repr(deg)
        c = new_atom('Cos[%s]' % nm, kind='tsum', data=(deg, 'c'))
        s = new_atom('Sin[%s]' % nm, kind='tsum', data=(deg, 's'))
        for a in (c, s):
            x = P.atom(a)
            a.axioms = [le(x, ONE), le(-ONE, x)]
            TSUM.add(a.idx)
        return c, s
    c, s = memo_atom(('tsum', deg.key()), make)
    touch(c)
    touch(s)
    return P.atom(c), P.atom(s)


def trig(p):
    """(cos, sin) of the term p in radians."""
    deg = to_deg(p)
    if LAZY[0] and sum(1 for m in deg.t if m) > 1 and any(
            c.denominator % 2 == 0 for m, c in deg.t.items() if m):
        return lazy_trig(deg)
    const = F(0)
    rc, rs = ONE, ZERO
    parts, last = 0, None
    for m, c in sorted(deg.t.items()):
        if m == ():
            const = c % 360
            continue
        if all(e > 0 and ATOMS[a].sort == 'int' for a, e in m):
            if c % 360 == 0:
                continue
            # an integer multiple of a rational angle
        ats = [ATOMS[a] for a, _ in m]
        if len(m) == 1 and m[0][1] == 1 and ats[0].kind == 'angle':
            cb, sb = ats[0].data     # known cosine and sine terms
            touch(ats[0])
            den = c.denominator
            if den == 1:
                cb, sb = _multiple(cb, sb, abs(c.numerator))
                if c < 0:
                    sb = -sb
                rc, rs = rc * cb - rs * sb, rs * cb + rc * sb
                continue
        base = F(1, c.denominator)
        n = abs(c.numerator)
        if all(a == 0 for a, _ in m):
            base, n = abs(c), 1          # a constant angle in radians
        elif not (len(m) == 1 and m[0][1] == 1 and ats[0].kind == 'angle'):
            base, n = pick_base(m, abs(c))
        ca, sa = trig_base(m, base)
        touch(ca)
        touch(sa)
        parts, last = parts + 1, ca
        if len(m) == 1 and m[0][1] == 1 and ats[0].kind == 'angle':
            # link the fractional angle with the known trig values
            link_fraction(ats[0], c.denominator, ca, sa)
        elif base != 1 and not all(a == 0 for a, _ in m):
            pass
        cb, sb = _multiple(P.atom(ca), P.atom(sa), n)
        if c < 0:
            sb = -sb
        rc, rs = rc * cb - rs * sb, rs * cb + rc * sb
    if const:
        q, r = divmod(const, 90)
        if r:
            cc, ss = const_trig(r)
            rc, rs = rc * cc - rs * ss, rs * cc + rc * ss
        for _ in range(int(q)):
            rc, rs = -rs, rc
    TRIG_ARGS.append((deg, rc, rs))
    if parts > 1:
        # a sum of angles still has its cosine and sine within one
        for x in (rc, rs):
            if len(x.t) > 12:
                continue
            for f in (le(x, ONE), le(-ONE, x)):
                if f.op != 'c' and f not in last.axioms:
                    last.axioms = last.axioms + [f]
        if TOUCH[0] is not None:
            TOUCH[0](last, force=True)
    return rc, rs


def link_fraction(atom, den, ca, sa):
    cb, sb = atom.data
    c2, s2 = _multiple(P.atom(ca), P.atom(sa), den)
    extra = [eq(c2, cb), eq(s2, sb)]
    x = P.atom(atom)
    # range facts for a half angle of something in [0, 180] or (-180, 180]
    if den == 2:
        extra.append(b_imp(b_and(le(-P.const(180), x), le(x, P.const(180))),
                           le(ZERO, P.atom(ca))))
        extra.append(b_imp(b_and(le(ZERO, x), le(x, P.const(360))),
                           le(ZERO, P.atom(sa))))
    for e in extra:
        if e not in ca.axioms:
            ca.axioms = ca.axioms + [e]
            if TOUCH[0] is not None:
                TOUCH[0](ca, force=True)


def const_trig(r):
    """cos, sin of a rational number of degrees in (0, 90)."""
    half = P.const(F(1, 2))
    if r == 60:
        return half, sqrt_p(P.const(3)).scale(F(1, 2))
    if r == 30:
        return sqrt_p(P.const(3)).scale(F(1, 2)), half
    if r == 45:
        x = sqrt_p(P.const(2)).scale(F(1, 2))
        return x, x

    def make():
        c = new_atom('cosd(%s)' % r, kind='cos', data=P.const(r))
        s = new_atom('sind(%s)' % r, kind='sin', data=P.const(r))
        s.sq = ONE - P({((c.idx, 2),): F(1)})
        v, w = math.cos(math.radians(r)), math.sin(math.radians(r))
        eps = F(1, 10**9)
        ax = [eq(P({((c.idx, 2),): F(1)}) + P({((s.idx, 2),): F(1)}), ONE)]
        for a, x in ((c, v), (s, w)):
            ax += [le(P.const(F(repr(x)) - eps), P.atom(a)),
                   le(P.atom(a), P.const(F(repr(x)) + eps))]
        c.axioms = ax
        s.axioms = ax
        return c, s
    c, s = memo_atom(('ctrig', r), make)
    touch(c)
    touch(s)
    return P.atom(c), P.atom(s)


def angle_atom(key, name, cosv, sinv, lo, hi, lo_open=False):
    """A fresh angle (in degrees) with known cosine and sine and range."""
    def make():
        a = new_atom('%s#%d' % (name, len(ATOMS)), kind='angle',
                     data=(cosv, sinv))
        x = P.atom(a)
        a.axioms = [(lt if lo_open else le)(P.const(lo), x),
                    le(x, P.const(hi))]
        # sign facts tie the linear range of the angle to its sine/cosine
        a.axioms += sign_facts(x, cosv, sinv, lo, hi)
        return a
    a = memo_atom(key, make)
    touch(a)
    return P.atom(a)


def sign_facts(x, c, s, lo=-180, hi=180):
    """Sign of cos/sin for x degrees by quadrant, for lo <= x <= hi."""
    C = P.const
    out = []
    k0 = math.floor(F(lo) / 90)
    k1 = math.ceil(F(hi) / 90)
    for k in range(k0, k1):
        # open interval (90k, 90(k+1)) and its left end point
        q = k % 4
        inside = b_and(lt(C(90 * k), x), lt(x, C(90 * (k + 1))))
        cs = lt(ZERO, c) if q in (0, 3) else lt(c, ZERO)
        ss = lt(ZERO, s) if q in (0, 1) else lt(s, ZERO)
        out.append(b_imp(inside, b_and(cs, ss)))
    for k in range(k0, k1 + 1):
        q = k % 4
        at = eq(x, C(90 * k))
        cv = {0: 1, 1: 0, 2: -1, 3: 0}[q]
        sv = {0: 0, 1: 1, 2: 0, 3: -1}[q]
        out.append(b_imp(at, b_and(eq(c, C(cv)), eq(s, C(sv)))))
    return out


def deep_atoms(x):
    """All atom indices a term or boolean depends on."""
    out = set()
    todo = list(x.polys()) if isinstance(x, SB) else [x]
    while todo:
        p = todo.pop()
        for a in p.atoms():
            if a in out:
                continue
            out.add(a)
            d = ATOMS[a].data
            k = ATOMS[a].kind
            if k == 'uf':
                todo.extend(d[1])
            elif k in ('sqrt', 'den', 'floor', 'cos', 'sin'):
                if isinstance(d, P):
                    todo.append(d)
            elif k == 'angle':
                todo.extend(d)
    return out


def subst(x, sub):
    """Replace atoms (index -> P) in a term or boolean."""
    if isinstance(x, SB):
        if x.op in ('le', 'lt', 'eq'):
            return _cmp(x.op, subst(x.a, sub))
        if x.op == 'and':
            return b_and(*[subst(y, sub) for y in x.a])
        if x.op == 'or':
            return b_or(*[subst(y, sub) for y in x.a])
        if x.op == 'not':
            return b_not(subst(x.a, sub))
        return x
    keys = set(sub)
    if not (deep_atoms(x) & keys):
        return x
    out = ZERO
    for m, c in x.t.items():
        t = P.const(c)
        for a, e in m:
            at = ATOMS[a]
            if a in sub:
                r = sub[a]
            elif deep_atoms(P.atom(at)) & keys:
                if at.kind == 'uf':
                    r = apply_uf(at.data[0], [subst(y, sub)
                                              for y in at.data[1]], at.sort)
                elif at.kind == 'sqrt':
                    r = sqrt_p(subst(at.data, sub))
                else:
                    raise ValueError('cannot substitute into %s' % at.name)
            else:
                r = P.atom(at)
            if e < 0:
                if r.is_zero() or len(r.t) != 1:
                    raise ValueError('inverse')
                t = t * r.pow(e)
            else:
                t = t * r.pow(e)
        out = out + t
    return out
