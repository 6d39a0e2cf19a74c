"""Contract framework: contracts, stubs and helpers for specifications."""

import contextlib
import os
import time
import traceback

from pv import terms as T
from pv import arr as A
from pv import engine
from pv import npf
from pv.arr import Arr, Buf, NAN, ABSENT
from pv.engine import ENG, eng, Unsupported, PathEnd, Restart
from pv.loader import Loader, REPO

C = T.P.const


class Contract(object):
    """One contract: a named verification of one function of /repo."""

    def __init__(self, func, label, run, stubs=(), cover=True, budget=240.0,
                 max_paths=60000):
        self.func = func          # qualified name of the verified function
        self.label = label
        self.run = run
        self.stubs = list(stubs)  # qualified names replaced by contracts
        self.cover = cover
        self.budget = budget
        self.max_paths = max_paths


CONTRACT_STUBS = {}        # qualname -> factory(engine) -> callable


def stub(qual):
    def deco(f):
        CONTRACT_STUBS[qual] = f
        return f
    return deco


class Ctx(object):
    """What a contract body works with."""

    def __init__(self, loader, contract):
        self.L = loader
        self.contract = contract

    def fn(self, qual=None):
        """The real function (or class attribute) named by `qual`."""
        qual = qual or self.contract.func
        obj = resolve(self.L, qual)
        return obj

    def mod(self, name):
        return self.L.load(name)


def resolve(L, qual):
    parts = qual.split('.')
    for i in range(len(parts) - 1, 0, -1):
        name = '.'.join(parts[:i])
        if L.path_of(name):
            o = L.load(name)
            for p in parts[i:]:
                o = getattr(o, p)
            return o
    raise Unsupported('no function %s in the source' % qual)


def install_stubs(L, quals):
    """Replace functions by their contracts in every loaded module."""
    for q in quals:
        q, f = q if isinstance(q, tuple) else (q, CONTRACT_STUBS.get(q))
        modn, _, name = q.rpartition('.')
        if L.path_of(modn) is None:
            # a method
            cmod, _, cname = modn.rpartition('.')
            cls = getattr(L.load(cmod), cname)
            real = cls.__dict__.get(name)
            if real is None:
                raise Unsupported('no method %s in the source' % q)
            setattr(cls, name, wrap(q, f))
            continue
        m = L.load(modn)
        if name not in m.__dict__:
            raise Unsupported('no function %s in the source' % q)
        real = m.__dict__[name]
        st = wrap(q, f)
        for mm in list(L.mods.values()):
            for k, v in list(mm.__dict__.items()):
                if v is real:
                    mm.__dict__[k] = st


def wrap(q, f):
    def g(*a, **k):
        eng().stats.stub_uses[q] = eng().stats.stub_uses.get(q, 0) + 1
        return f(*a, **k)
    g.__name__ = q.rpartition('.')[2]
    g._pv_stub = q
    return g


def preload(L):
    for n in ('ocbpy.ocb_time', 'ocbpy.vectors', 'ocbpy.ocb_correction',
              'ocbpy._boundary', 'ocbpy.cycle_boundary', 'ocbpy.ocb_scaling'):
        if L.path_of(n):
            L.load(n)


def verify(contract, seed=1, tier='quick', repo=None):
    """Run one contract; returns (engine stats, failures)."""
    from pv import contracts  # noqa: F401  (registers the callee contracts)
    E = engine.Engine(seed, tier)
    ENG[0] = E
    E.cur = contract.label
    try:
        E.path = None
        L = Loader(repo or REPO)
        preload(L)
        install_stubs(L, contract.stubs)
        cx = Ctx(L, contract)
    except Unsupported as e:
        E.fail(contract.label, 'unsupported', str(e))
        return E
    except Exception as e:
        E.fail(contract.label, 'unsupported', 'the source cannot be loaded: '
               '%s: %s' % (type(e).__name__, e))
        return E

    def run(e):
        try:
            contract.run(e, cx)
        except (PathEnd, Restart, Unsupported, T.TooBig, engine.Abort):
            raise
        except NotImplementedError as x:
            raise Unsupported('%s' % x)
        except Exception as x:
            tb = traceback.extract_tb(x.__traceback__)
            where = '; '.join('%s:%s' % (os.path.basename(t.filename),
                                         t.lineno) for t in tb[-4:])
            msg = 'the function raises %s: %s (%s)' % (type(x).__name__,
                                                       str(x)[:200], where)
            if any(t.filename.startswith(os.path.realpath(
                    repo or REPO)) or t.filename.startswith(repo or REPO)
                    for t in tb):
                e.oblige('no exception', T.FALSE, msg)
            else:
                raise Unsupported('contract code: ' + msg + traceback.
                                  format_exc()[-1500:])
    E.explore(contract.label, run, contract.max_paths, contract.budget,
              contract.cover)
    return E


# -------------------------------------------------------- specification help

def pynum(name, nan=False):
    """A Python float argument."""
    return A.sym(name, (), 'f', nan=nan, py=True)


SHAPES = {
    'scalar': lambda: None,
    '0-d': lambda: (),
    'array': lambda: (A.Dim('N'),),
    'one': lambda: (1,),
    'empty': lambda: (0,),
}


def make_input(name, kind, dtype='f', nan=True, dim=None):
    """An input of one of the shape kinds."""
    if kind == 'scalar':
        return A.sym(name, (), dtype, nan=nan, py=True)
    if kind == 'array':
        return A.sym(name, (dim or shared_dim(),), dtype, nan=nan)
    return A.sym(name, SHAPES[kind](), dtype, nan=nan)


def shared_dim(name='N'):
    c = eng().path.cache
    if ('dim', name) not in c:
        c[('dim', name)] = A.Dim(name)
    return c[('dim', name)]


def snap(*arrs):
    return [(a, a.buf, a.buf.v) for a in arrs if isinstance(a, Arr)]


def unchanged(e, snaps, what='inputs'):
    for a, b, v in snaps:
        w = a.buf.v
        same = a.buf is b and (w is v or (isinstance(w, (T.P, T.SB))
                                          and w == v))
        if not same and isinstance(w, T.P) and a.buf is b:
            o = A.elem(v)
            if isinstance(o, T.P):
                e.oblige('frame: %s unchanged' % what, T.eq(w, o))
                continue
        e.oblige('frame: %s unchanged' % what, T.b_const(same))


def expect_shape(e, r, shape, what='result'):
    """The result is an array (or number) of the given shape."""
    if isinstance(r, Arr):
        s = r.shape_
    elif A.is_num(r):
        s = ()
    else:
        h = getattr(r, 'shape', None)
        s = h if isinstance(h, tuple) else None
    e.oblige('%s has the shape of the input' % what, T.b_const(
        s is not None and A.shape_equal(s, shape)))


def val(r):
    """The generic element of a result."""
    if isinstance(r, Arr):
        return A.to_num(r.e()) if r.dtype_ != 'O' else r.e()
    return A.to_num(A.num_of(r))


def inp(a):
    """The generic element of an input: NAN or a term."""
    return val(a)


def finite(e, v, what='result'):
    ok = isinstance(v, T.P)
    e.oblige('%s is a number' % what, T.b_const(ok))
    if not ok:
        raise PathEnd()
    return v


def is_nan(e, v, what='result'):
    e.oblige('%s is NaN' % what, T.b_const(v is NAN))


def congruent(e, v, x, period, what='result'):
    """v = x + n*period for some integer n."""
    q = (v - x).divide(period)
    if q is not None and q.is_int():
        e.oblige('%s is congruent' % what, T.TRUE)
        return
    # equal cosine and sine of the scaled angle decide the congruence
    d = (v - x) * T.inv_p(period) * T.PI.scale(2)
    c, s = T.trig(d)
    e.oblige('%s is congruent' % what, T.b_and(T.eq(c, T.ONE),
                                               T.eq(s, T.ZERO)))


def out_arr(shape, v, dtype='f', nd=None):
    return Arr(shape, dtype, Buf(v), nd=(len(shape) > 0) if nd is None
               else nd)
