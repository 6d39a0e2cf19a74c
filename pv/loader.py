"""Load the real source of /repo into the verifier.

The text of every module is read from the repository on every run, parsed,
and executed by CPython after a mechanical instrumentation:

  * `while` loops get a cut point:  while C: B  becomes
        with-state handling by __pv_loop__ (invariants are supplied or
        inferred at run time; see pv/loops.py)
  * an `if` without `else` gets a no-op probe (see Probe below)
  * list displays [] and list() make the verifier's lists
  * operands of `is` and `is not` pass through __pv_seen__, the identity
    except that variables the loop rule knows nothing about are refused
  * "sep".join(...) is routed through __pv_join__
  * "fmt".format(...) is routed through __pv_format__
  * docstrings are dropped; nothing else is changed.

Names `numpy`, `datetime`, `aacgmv2`, `math`, `warnings`, loggers and a few
builtins resolve to the verifier's facades.
"""

import ast
import builtins
import os
import sys
import re
import types

from pv import terms as T
from pv import arr as A
from pv import npf
from pv import dtf
from pv import loops
from pv.arr import Arr, Buf
from pv.engine import eng, Unsupported, NoopOff, PathEnd

REPO = os.environ.get('PV_REPO', '/repo')


# ------------------------------------------------------ builtins shadowing

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.float) or (
            builtins.isinstance(x, Arr) and not x.nd and x.dtype_ == 'f')

    def __call__(cls, x=0.0):
        if builtins.isinstance(x, Arr):
            if x.generic() or x.empty():
                raise TypeError('only length-1 arrays can be converted to '
                                'Python scalars')
            v = A.to_num(x.e())
            if x.dtype_ in 'OU':
                raise Unsupported('float of an object')
            return Arr((), 'f', Buf(v), nd=False, py=True)
        if builtins.isinstance(x, A.Dim):
            return Arr((), 'f', Buf(x.p), nd=False, py=True)
        h = getattr(x, '_pv_float', None)
        if h is not None:
            return h()
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return 11


class pv_float(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.int) or (
            builtins.isinstance(x, Arr) and x.py and x.dtype_ == 'i') or \
            builtins.isinstance(x, A.IdxVar)

    def __call__(cls, x=0, *a):
        if builtins.isinstance(x, Arr):
            if x.generic() or x.empty():
                raise TypeError('only length-1 arrays can be converted to '
                                'Python scalars')
            v = x.e()
            if builtins.isinstance(v, A.KIdx):
                return A.IdxVar(v.dims)
            v = A.to_num(v)
            if v is A.NAN:
                raise ValueError('cannot convert float NaN to integer')
            if A.is_inf(v):
                raise OverflowError('cannot convert float infinity to '
                                    'integer')
            return Arr((), 'i', Buf(A.s_trunc(v)), nd=False, py=True)
        if builtins.isinstance(x, (A.IdxVar, A.Dim)):
            return x
        h = getattr(x, '_pv_int', None)
        if h is not None:
            return h()
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return 12


class pv_int(metaclass=_IntMeta):
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.bool) or (
            builtins.isinstance(x, Arr) and x.py and x.dtype_ == 'b')

    def __call__(cls, x=False):
        return builtins.bool(x)


class pv_bool(metaclass=_BoolMeta):
    pass


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.list)

    def __call__(cls, x=()):
        if x == () and builtins.isinstance(x, tuple):
            return new_list()
        if builtins.isinstance(x, Arr):
            return list_of_arr(x)
        h = getattr(x, '_pv_list', None)
        if h is not None:
            return h()
        return builtins.list(x)


def new_list():
    from pv import lists
    return lists.new_list()


class pv_list(metaclass=_ListMeta):
    pass


def list_of_arr(x):
    if x.shape_ and not x.generic():
        return [Arr((), x.dtype_, Buf(x.buf.v), nd=False)
                ] if not x.empty() else []
    if x.dtype_ == 'i' and (isinstance(x.e(), A.KIdx)
                            or x.e() is A.ABSENT):
        return IdxItems([A.IdxVar(x.e().dims)]
                        if x.e() is not A.ABSENT else [], x.shape_[0])
    return A.SymList(x)


class IdxItems(A.IdxList):
    """list(np.where(mask)[0]): index list with a symbolic length."""

    def __init__(self, items, dim):
        list.__init__(self, items)
        if dim is not None:
            self.dim = dim

    def __add__(self, o):
        its = list.__add__(self, list(o))
        n = eng().path.fresh('listlen')
        d = A.Dim(n, T.V(n, 'int'), count_of=T.b_const(bool(its)))
        eng().assume(T.le(T.P.const(len(its)), d.p))
        return IdxItems(its, d)

    def pv_len(self):
        return self.dim


def pv_len(x):
    h = getattr(x, 'pv_len', None)
    if h is not None:
        return h()
    if builtins.isinstance(x, A.SymList):
        return x.arr.shape_[0]
    return builtins.len(x)


class GenRange(object):
    """range(N) for a symbolic N: iterates over the generic index only."""

    def __init__(self, dim):
        self.dim = dim

    def __iter__(self):
        if eng().path.state.get('in_comp', 0) > 0:
            eng().path.state['comp_dim'] = self.dim
            yield A.IdxVar((self.dim,))
            return
        raise Unsupported('for loop over a symbolic range')

    def pv_len(self):
        return self.dim


def pv_range(*a):
    a = [x.__index__() if builtins.isinstance(x, Arr) and x.shape_ == ()
         and builtins.isinstance(x.e(), T.P) and x.e().is_const() else x
         for x in a]
    if builtins.all(builtins.isinstance(x, builtins.int) for x in a):
        return builtins.range(*a)
    for x in a:
        h = getattr(x, '_pv_range', None)
        if h is not None:
            return h(a)
    if len(a) == 1 and builtins.isinstance(a[0], A.Dim):
        return GenRange(a[0])
    if len(a) >= 2 and builtins.isinstance(a[1], A.Dim) and a[0] == 0:
        return GenRange(a[1])
    d = A.counted(a)
    if d is not None:
        return GenRange(d)
    raise Unsupported('range(%r)' % (a,))


def pv_abs(x):
    return builtins.abs(x) if not builtins.isinstance(x, A.Dim) else x


def pv_sum(x, *a):
    if builtins.isinstance(x, Arr):
        return x.sum()
    return builtins.sum(x, *a)


def pv_any(x):
    if builtins.isinstance(x, Arr):
        return bool(x.any())
    return builtins.any(x)


def pv_all(x):
    if builtins.isinstance(x, Arr):
        return bool(x.all())
    return builtins.all(x)


def pv_isinstance(x, t):
    loops.seen(x)
    if builtins.isinstance(t, builtins.tuple):
        return builtins.any(pv_isinstance(x, u) for u in t)
    t = {builtins.float: pv_float, builtins.int: pv_int,
         builtins.bool: pv_bool, builtins.list: pv_list}.get(t, t)
    if t is builtins.str and builtins.isinstance(x, dtf.SymStr):
        return True
    return builtins.isinstance(x, t)


def pv_hasattr(x, n):
    if builtins.isinstance(x, Arr):
        if x.py:
            return False
        if n in ('shape', 'dtype', 'size', 'ndim', 'T', 'astype', 'any',
                 'all', 'copy', '__len__'):
            return n != '__len__' or True
        return n in dir(Arr)
    if builtins.isinstance(x, dtf.SymDT):
        return builtins.hasattr(builtins.type(x), n)
    return builtins.hasattr(x, n)


def pv_type(*a):
    if len(a) == 1 and builtins.isinstance(a[0], Arr):
        x = a[0]
        if x.py:
            return {'f': pv_float, 'i': pv_int, 'b': pv_bool}[x.dtype_]
        return npf.ndarray if x.nd else npf.float64
    return builtins.type(*a)


def pv_round(x, n=None):
    if builtins.isinstance(x, Arr):
        return x.__round__(n)
    return builtins.round(x) if n is None else builtins.round(x, n)


def pv_format(fmt, *args, **kw):
    return dtf.sym_format(fmt, args, kw)


def pv_join(sep, parts):
    parts = builtins.list(parts)
    if not builtins.any(builtins.isinstance(p, dtf.SymStr) for p in parts):
        return sep.join(parts)
    out = []
    for p in parts:
        if not builtins.isinstance(p, (str, dtf.SymStr)):
            raise TypeError('sequence item: expected str instance')
        out += ([sep] if out else []) + [p]
    return dtf.SymStr(out)


class Logger(object):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return self._log

    def _log(self, *a, **k):
        for x in a:
            if isinstance(x, str):
                pass
        return None


LOGGER = Logger()


class _Any(types.ModuleType):
    """Stand-in for a module without semantics; calls are unsupported."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def f(*a, **k):
            raise Unsupported('%s.%s' % (self.__name__, name))
        return f


class LoggingFacade(types.ModuleType):
    def getLogger(self, *a):
        return LOGGER

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: LOGGER


# --------------------------------------------------------- instrumentation

class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.n = 0
        self.fn = []
        self.modname = modname
        self.deads = {}

    def dead(self, node):
        return self.deads.get(id(node), ())

    def find_dead(self, fn):
        """Names only used within an `if` that runs at most once a call."""
        uses = {}

        def walk(n, ifs, loop):
            if isinstance(n, ast.Name):
                uses.setdefault(n.id, []).append(ifs)
            if isinstance(n, ast.If) and not loop:
                walk(n.test, ifs, loop)
                for x in n.body:
                    walk(x, ifs + (n,), loop)
                for x in n.orelse:
                    walk(x, ifs, loop)
                return
            inner = loop or isinstance(n, (ast.For, ast.While)) or (
                n is not fn and isinstance(n, (
                    ast.FunctionDef, ast.Lambda, ast.ClassDef)))
            for x in ast.iter_child_nodes(n):
                walk(x, ifs, inner)
        walk(fn, (), False)
        for n in ast.walk(fn):
            if isinstance(n, ast.If):
                self.deads[id(n)] = tuple(sorted(
                    k for k, v in uses.items()
                    if all(any(i is n for i in ifs) for ifs in v)))

    def visit_FunctionDef(self, node):
        if not self.fn:
            self.find_dead(node)
        self.fn.append(node.name)
        self.generic_visit(node)
        self.fn.pop()
        if (node.body and isinstance(node.body[0], ast.Expr)
                and isinstance(node.body[0].value, ast.Constant)
                and isinstance(node.body[0].value.value, str)
                and len(node.body) > 1):
            node.body = node.body[1:]
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'format':
            return ast.copy_location(ast.Call(
                func=ast.Name('__pv_format__', ast.Load()),
                args=[f.value] + node.args, keywords=node.keywords), node)
        if isinstance(f, ast.Attribute) and f.attr == 'join' and isinstance(
                f.value, ast.Constant) and isinstance(f.value.value, str):
            return ast.copy_location(ast.Call(
                func=ast.Name('__pv_join__', ast.Load()),
                args=[f.value] + node.args, keywords=node.keywords), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not any(isinstance(o, (ast.Is, ast.IsNot)) for o in node.ops):
            return node

        def seen(x):
            if isinstance(x, ast.Constant):
                return x
            return ast.copy_location(ast.Call(
                func=ast.Name('__pv_seen__', ast.Load()), args=[x],
                keywords=[]), x)
        node.left = seen(node.left)
        node.comparators = [seen(x) for x in node.comparators]
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        fmt = ''
        for v in node.values:
            if isinstance(v, ast.Constant):
                fmt += str(v.value).replace('{', '{{').replace('}', '}}')
            else:
                spec = ''
                if v.format_spec is not None:
                    if isinstance(v.format_spec, ast.Call):
                        c = v.format_spec.args[0]
                        spec = ':' + (c.value if isinstance(c, ast.Constant)
                                      else '')
                    else:
                        spec = ':' + ''.join(
                            x.value for x in v.format_spec.values
                            if isinstance(x, ast.Constant))
                conv = '' if v.conversion in (-1, None) else \
                    '!' + chr(v.conversion)
                fmt += '{' + conv + spec + '}'
                parts.append(v.value)
        return ast.copy_location(ast.Call(
            func=ast.Name('__pv_format__', ast.Load()),
            args=[ast.Constant(fmt)] + parts, keywords=[]), node)

    def _comp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=ast.Name('__pv_comp__', ast.Load()),
            args=[ast.Lambda(args=ast.arguments(
                posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                defaults=[]), body=node)], keywords=[]), node)

    def visit_List(self, node):
        self.generic_visit(node)
        if node.elts or not isinstance(node.ctx, ast.Load):
            return node
        return ast.copy_location(ast.Call(
            func=ast.Name('__pv_list__', ast.Load()), args=[], keywords=[]),
            node)

    def visit_ListComp(self, node):
        if any(isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr))
               for x in ast.walk(node)):
            return node
        return self._comp(node)

    # --- loops:  see pv/loops.py
    def visit_While(self, node):
        self.generic_visit(node)
        self.n += 1
        return loops.instrument_while(node, self.n, '.'.join(
            [self.modname] + self.fn))

    def visit_For(self, node):
        self.generic_visit(node)
        self.n += 1
        return loops.instrument_for(node, self.n, '.'.join(
            [self.modname] + self.fn))

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        if not self.fn:
            return node
        # only conditions that may be non-deterministic profit
        self.n += 1
        tmp = '__pvp%d__' % self.n
        body_names = sorted({x.id for b in node.body for x in ast.walk(b)
                             if isinstance(x, ast.Name)
                             and isinstance(x.ctx, ast.Store)})
        t = ast.Name(tmp, ast.Store())

        def call(fn, *args):
            return ast.Call(func=ast.Name(fn, ast.Load()), args=list(args),
                            keywords=[])
        loc = call('locals')
        dead = ast.Tuple([ast.Constant(x) for x in self.dead(node)],
                         ast.Load())
        begin = ast.Assign(targets=[t], value=call(
            '__pv_mark__'))
        enter = ast.Assign(targets=[ast.Name('__pve%d__' % self.n, ast.Store())],
                           value=call(
            '__pv_enter__', ast.Name(tmp, ast.Load()), loc, dead))
        leave = ast.Expr(call('__pv_leave__', ast.Name('__pve%d__' % self.n, ast.Load()),
                              call('locals'), dead))
        node.orelse = [ast.Expr(call('__pv_skip__', ast.Name(
            tmp, ast.Load()), call('locals'), dead))]
        node.body = [enter] + node.body + [leave]
        out = [begin, node]
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out


def pv_comp(f):
    st = eng().path.state
    st['in_comp'] = st.get('in_comp', 0) + 1
    try:
        r = f()
    finally:
        st['in_comp'] -= 1
    dim = st.pop('comp_dim', None) if not st['in_comp'] else None
    if r and all(isinstance(x, A.IdxVar) for x in r):
        return A.IdxList(r)
    if dim is not None and dim.count_of is T.TRUE:
        # one entry per element of something of any length, zero included
        if builtins.isinstance(r, builtins.list) and len(r) == 1 and \
                r[0] is None:
            from pv import objs
            return objs.RecList('list of None', dim, lambda p: None)
        raise Unsupported('list of unknown length')
    return r


# no-op probes: an `if` whose condition was decided by one fresh
# non-deterministic boolean and whose body changes nothing does not need its
# other branch explored, because both branches reach the same state.

def pv_mark():
    e = eng()
    if e is None or e.path is None:
        return None
    return len(e.path.decisions) if e.path.cursor >= len(
        e.path.decisions) else e.path.cursor


ANYS = ('any~', '!any~', 'all~', '!all~')
COUNTED = re.compile(r'\(-1\*count~\d+ < 0\)$').match


def pv_enter(mark, loc, dead=()):
    e = eng()
    if e is None or e.path is None or mark is None or e.noop_off:
        return None
    p = e.path
    ds = p.decisions[mark:p.cursor]
    if any(d.claims and not d.choice for d in ds):
        raise NoopOff()
    if not ds:
        return None
    d = ds[-1]
    if not d.choice or not d.alt or not (
            d.label.startswith(ANYS) or COUNTED(d.label)):
        return None
    names = set(loc) - set(dead)
    bufs = {}
    return d, digest_locals({n: loc[n] for n in names}, bufs), names, bufs


def pv_leave(tok, loc, dead=()):
    """Compare the state after the body with the state before it.

    When nothing changed, the branch that skips the body (still to be
    explored) also stands for this one: its condition is left undetermined
    there.  Buffers may have been replaced by others with equal content as
    long as the old one is not written later (Buf.written).
    """
    if not tok:
        return
    d, dig, names, bufs = tok
    if set(n for n in loc if not n.startswith('__pv')) - names - set(dead):
        return
    bufs2 = {}
    if digest_locals({n: loc[n] for n in names if n in loc}, bufs2) != dig:
        return
    a, b = ({n: k for k, n in x.items()} for x in (bufs, bufs2))
    for n in a:
        if a[n] is not b[n]:
            d.swapped.add(n)
    d.claims = True
    raise PathEnd()


def pv_skip(mark, loc, dead=()):
    e = eng()
    if e is None or e.path is None or mark is None:
        return
    for d in e.path.decisions[mark:e.path.cursor]:
        if d.claims and not d.choice and d.swapped:
            bufs = {}
            digest_locals({n: loc[n] for n in loc if n not in dead}, bufs)
            for x, n in bufs.items():
                if n in d.swapped:
                    x.watch = True


def digest_locals(loc, bufs):
    seen = {}
    out = []
    for n in sorted(loc):
        if n.startswith('__pv'):
            continue
        out.append((n, digest(loc[n], seen, 0, bufs)))
    return out


def digest(x, seen, depth, bufs):
    if isinstance(x, (int, float, str, bytes, type(None), A.Tag)):
        return repr(x)
    if isinstance(x, Arr):
        v = x.buf.v
        if x.buf not in bufs:
            bufs[x.buf] = len(bufs)
        return ('arr', bufs[x.buf], repr(x.dtype_), x.nd, x.py,
                digest(v, seen, depth + 1, bufs),
                tuple(id(s) if isinstance(s, A.Dim) else s
                      for s in x.shape_))
    if isinstance(x, A.Thunk):
        return ('thunk', id(x))
    if isinstance(x, A.Lazy):
        return ('lazy', x.name)
    if isinstance(x, (T.P, T.SB)):
        return x.key()
    if id(x) in seen:
        return ('seen', seen[id(x)])
    seen[id(x)] = len(seen)
    if depth > 8:
        return ('deep', id(x))
    if isinstance(x, dict):
        return tuple((repr(k), digest(v, seen, depth + 1, bufs))
                     for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return tuple(digest(v, seen, depth + 1, bufs) for v in x)
    if isinstance(x, npf.ConcArr):
        return tuple(digest(v, seen, depth + 1, bufs) for v in x.items)
    if isinstance(x, types.ModuleType) or callable(x):
        return id(x)
    d = getattr(x, '__dict__', None)
    if d is not None and type(x).__module__ not in ('builtins',):
        return (id(x),) + tuple((k, digest(v, seen, depth + 1, bufs))
                                for k, v in sorted(d.items()))
    return id(x)


# ------------------------------------------------------------------ loader

class Loader(object):
    """One loaded copy of the ocbpy package."""

    def __init__(self, repo=None):
        from pv import objs
        self.repo = repo or REPO
        self.mods = {}
        self.sources = {}
        self.ext = {
            'numpy': npf, 'datetime': dtf, 'logging': LoggingFacade(
                'logging'), 'types': types, 'os': __import__('os'),
            'aacgmv2': objs.Aacgm(), 'warnings': _Any('warnings'),
            'math': MathFacade('math'), 'sys': __import__('sys'),
            'itertools': __import__('itertools'),
            'functools': __import__('functools'),
            'importlib': _Any('importlib'),
            'zipfile': _Any('zipfile'), 'requests': _Any('requests'),
            'pysat': _Any('pysat'), 'ssj_auroral_boundary': _Any('ssj'),
            'copy': __import__('copy'), 'typing': __import__('typing'),
            'operator': __import__('operator'),
            'collections': __import__('collections'),
        }

    def builtins(self):
        b = dict(vars(builtins))
        b.update(float=pv_float, int=pv_int, bool=pv_bool, len=pv_len,
                 range=pv_range, sum=pv_sum, any=pv_any, all=pv_all,
                 isinstance=pv_isinstance, hasattr=pv_hasattr,
                 list=pv_list, type=pv_type, round=pv_round, abs=pv_abs,
                 __import__=self._import)
        return b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            pkg = pkg[:len(pkg) - level + 1]
            name = '.'.join(pkg + ([name] if name else []))
        if name == 'ocbpy' or name.startswith('ocbpy.'):
            m = self.load(name)
            for f in fromlist or ():
                if not builtins.hasattr(m, f):
                    sub = name + '.' + f
                    if self.path_of(sub):
                        setattr(m, f, self.load(sub))
            if fromlist:
                return m
            return self.load(name.split('.')[0])
        top = name.split('.')[0]
        if top in self.ext:
            if name == 'numpy' or name == 'datetime' or '.' not in name:
                return self.ext[top]
            return self.ext[top]
        if top in sys.stdlib_module_names:
            m = __import__(name, fromlist=['x'] if fromlist else [])
            return m
        m = self.ext[top] = _Any(top)
        return m

    def path_of(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p,
                                                            '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
        if name in self.mods:
            return self.mods[name]
        path = self.path_of(name)
        if path is None:
            raise ImportError('no module %s' % name)
        m = types.ModuleType(name)
        m.__file__ = path
        ispkg = path.endswith('__init__.py')
        m.__package__ = name if ispkg else parent
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        m.__dict__['__builtins__'] = self.builtins()
        if name == 'ocbpy':
            # the package module: logger and sub-module names only
            m.logger = LOGGER
            m.__version__ = 'verified'
            src = open(path).read()
            self.sources[name] = src
            for attr, (sub, obj) in package_exports(src).items():
                lazy_export(self, m, attr, sub, obj)
            return m
        if name in ('ocbpy.boundaries', 'ocbpy.instruments'):
            src = open(path).read()
            self.sources[name] = src
            for attr, (sub, obj) in package_exports(src).items():
                lazy_export(self, m, attr, sub, obj)
            return m
        src = open(path).read()
        self.sources[name] = src
        tree = ast.parse(src, path)
        tree = Instr(name).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec')
        g = m.__dict__
        g.update(__pv_format__=pv_format, __pv_comp__=pv_comp,
                 __pv_mark__=pv_mark, __pv_enter__=pv_enter,
                 __pv_list__=new_list, __pv_seen__=loops.seen, __pv_join__=pv_join, __pv_leave__=pv_leave, __pv_skip__=pv_skip)
        g.update(loops.HOOKS)
        exec(code, g)
        return m


class LazyModule(types.ModuleType):
    pass


def package_exports(src):
    """Names bound by the import statements of a package __init__."""
    out = {}
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.ImportFrom) and n.module and n.module.startswith(
                'ocbpy'):
            for a in n.names:
                out[a.asname or a.name] = (n.module, a.name)
    return out


def lazy_export(loader, mod, attr, sub, obj):
    exports = mod.__dict__.setdefault('_pv_exports', {})
    exports[attr] = (sub, obj)

    def getter(name, loader=loader, exports=exports):
        if name in exports:
            s, o = exports[name]
            if s == mod.__name__:
                return loader.load(s + '.' + o)
            m = loader.load(s)
            if o in m.__dict__:
                return m.__dict__[o]
            if loader.path_of(s + '.' + o):
                return loader.load(s + '.' + o)
        sub_name = mod.__name__ + '.' + name
        if loader.path_of(sub_name):
            return loader.load(sub_name)
        raise AttributeError(name)
    mod.__dict__['__getattr__'] = getter


class MathFacade(types.ModuleType):
    pi = npf.pi
    e = npf.e
    inf = npf.inf
    nan = npf.nan

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        m = {'sqrt': npf.sqrt, 'cos': npf.cos, 'sin': npf.sin,
             'acos': npf.arccos, 'asin': npf.arcsin, 'atan2': npf.arctan2,
             'degrees': npf.degrees, 'radians': npf.radians,
             'isnan': npf.isnan, 'hypot': npf.hypot, 'fabs': npf.fabs,
             'isfinite': npf.isfinite, 'isinf': npf.isinf,
             'fmod': npf.fmod}.get(name)
        if m is not None:
            def f(*a):
                r = m(*a)
                return Arr((), r.dtype_, r.buf, nd=False, py=True)
            return f
        if name in ('floor', 'ceil', 'trunc'):
            g = getattr(npf, name)
            return lambda x: pv_int(g(x))
        raise Unsupported('math.%s' % name)
