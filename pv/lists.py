"""Lists of unknown length, known through ghost state.

A list grown by `append` is described by its length and by what the contract
asks about: the element at one arbitrary position (`pos`), and whether one
arbitrary value (`probe`) was appended and all elements came in increasing
order.  The ghost state is part of the loop state, so that loop invariants
speak about it.
"""

from pv import terms as T
from pv import arr as A
from pv import dtf
from pv.arr import Arr, Buf
from pv.engine import eng, Unsupported
from pv.spec import C

MISSING = None


class GhostList(object):
    _pv_walk = True

    def __init__(self, probe=None, pos=None):
        self._probe = probe
        self._pos = pos
        self.n = T.ZERO
        if probe is not None:
            self.has = T.FALSE
            self.last = C(-1)
            self.rising = T.TRUE
        if pos is not None:
            self.cell = None

    def _pv_ident(self):
        return ('ghost list', id(self))

    def append(self, v):
        if self._probe is not None:
            x = A.to_num(A.num_of(v))
            if not isinstance(x, T.P):
                raise Unsupported('list of unknown values')
            self.has = T.b_or(self.has, T.eq(x, self._probe))
            self.rising = T.b_and(self.rising, T.lt(self.last, x))
            self.last = x
        if self._pos is not None:
            if A.force(T.eq(self.n, self._pos)):
                self.cell = v
        self.n = self.n + T.ONE

    def extend(self, vs):
        for v in vs:
            self.append(v)

    def __iadd__(self, vs):
        self.extend(vs)
        return self

    def pv_len(self):
        return A.pyint(self.n)

    def __len__(self):
        raise Unsupported('native length of a list')

    def __bool__(self):
        return A.force(T.lt(T.ZERO, self.n))

    def __iter__(self):
        raise Unsupported('iteration over a list of unknown length')

    def dim(self):
        # lengths are not negative
        eng().assume(T.le(T.ZERO, self.n))
        return A.Dim('list', self.n, count_of=T.TRUE)

    def index(self, p):
        if A.force(T.lt(p, T.ZERO)):
            p = p + self.n
        if not A.force(T.b_and(T.le(T.ZERO, p), T.lt(p, self.n))):
            raise IndexError('list index out of range')
        return p

    def __getitem__(self, ix):
        kind, p = A.as_index(ix)
        if kind != 'int':
            raise Unsupported('list selection')
        p = self.index(p)
        if self._pos is not None and A.force(T.eq(p, self._pos)):
            return self.cell
        if self._probe is not None and A.force(T.eq(p, self.n - T.ONE)):
            return A.pyint(self.last)
        raise Unsupported('element of a list of unknown length')

    def _pv_asarray(self):
        return GhostArr(self)


class GhostArr(object):
    """The array made of a list."""

    def __init__(self, src):
        self.src = src
        self.n = src.n
        self.cell = getattr(src, 'cell', None)
        self._pos = src._pos

    def _pv_ident(self):
        return ('ghost array', id(self))

    def _pv_asarray(self):
        return self

    @property
    def shape(self):
        return (self.src.dim(),)

    @property
    def size(self):
        return A.pyint(self.n)

    ndim = 1
    pv_len = GhostList.pv_len
    index = GhostList.index
    __iter__ = GhostList.__iter__
    __len__ = GhostList.__len__

    def __getitem__(self, ix):
        kind, p = A.as_index(ix)
        if kind != 'int':
            raise Unsupported('array selection')
        p = self.index(p)
        if self._pos is not None and A.force(T.eq(p, self._pos)):
            return self.cell
        if hasattr(self, 'other'):
            return self.other(p)
        raise Unsupported('element of a list of unknown length')


def use(make):
    """Lists created by the code are made by `make` from here on."""
    eng().path.state['lists'] = make


def new_list():
    e = eng()
    if e is not None and e.path is not None:
        f = e.path.state.get('lists')
        if f is not None and not e.path.state.get('in_comp'):
            return f()
    return []
