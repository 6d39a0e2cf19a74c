"""Loop cut points with inferred invariants.

A loop `while C: B` (or a `for` over something symbolic) is executed as

    visit 1   the loop is reached; if C is false the loop is left with the
              state it was reached in (the zero-iteration case is exact)
    visit 2   every modified location is replaced by an arbitrary value that
              satisfies the invariant; if C is false the loop is left
    visit 3   after one arbitrary iteration: the invariant must hold again
              and nothing outside the modifies set may have changed

The modifies set is found by comparing states (not by name), the invariant
by Houdini-style elimination over templates; both are re-established from
the current source on every run, and in the final run every invariant is an
obligation.  A loop whose condition never depends on an undetermined value
runs natively.  Partial correctness: termination is not proved.
"""

import ast
import types

from pv import terms as T
from pv import arr as A
from pv.arr import Arr, Buf, NAN, ABSENT
from pv.engine import eng, Unsupported, PathEnd, Restart

MISSING = object()


class Poison(object):
    """Value of a loop temporary that is overwritten before use."""

    def __getattr__(self, n):
        if n.startswith(('__', '_pv', 'pv_')):
            raise AttributeError(n)
        raise Unsupported('use of an untracked loop variable')

    def _f(self, *a):
        raise Unsupported('use of an untracked loop variable')
    __bool__ = __add__ = __sub__ = __lt__ = __le__ = __gt__ = __ge__ = _f
    __radd__ = __rsub__ = __mul__ = __getitem__ = __call__ = _f
    __iter__ = __len__ = __contains__ = _f


POISON = Poison()


# ---------------------------------------------------------------- locations

class Loc(object):
    """A mutable place: a local, an attribute, an item or a buffer."""

    def __init__(self, path, kind, holder, key):
        self.path = path
        self.kind = kind      # 'local' | 'attr' | 'item' | 'buf'
        self.holder = holder
        self.key = key

    def get(self, loc):
        if self.kind == 'local':
            return loc.get(self.key, MISSING)
        if self.kind == 'attr':
            return self.holder.__dict__.get(self.key, MISSING)
        if self.kind == 'buf':
            return self.holder.v
        try:
            return self.holder[self.key]
        except (KeyError, IndexError):
            return MISSING

    def set(self, val, new):
        if self.kind == 'local':
            new[self.key] = val
        elif self.kind == 'attr':
            self.holder.__dict__[self.key] = val
        elif self.kind == 'buf':
            self.holder.v = val
            self.holder.written()
        else:
            self.holder[self.key] = val


def is_pkg_obj(x):
    m = type(x).__module__
    return (m.startswith('ocbpy') or getattr(x, '_pv_walk', False)) and \
        hasattr(x, '__dict__')


def reach(loc):
    """All locations reachable from the locals, by path."""
    out = {}
    seen = set()

    def walk(path, v, depth):
        if isinstance(v, Arr):
            if v.nd:
                if id(v.buf) not in seen:
                    seen.add(id(v.buf))
                    out[path + ('*',)] = Loc(path + ('*',), 'buf', v.buf,
                                             None)
            elif v.dtype_ == 'O':
                walk(path + ('.v',), v.buf.v, depth + 1)
            return
        if depth > 5 or isinstance(v, (str, bytes, int, float, type(None),
                                       T.P, T.SB, types.ModuleType, type)):
            return
        if id(v) in seen:
            return
        if isinstance(v, dict):
            seen.add(id(v))
            for k in list(v):
                if isinstance(k, (str, int)):
                    p = path + (k,)
                    out[p] = Loc(p, 'item', v, k)
                    walk(p, v[k], depth + 1)
        elif type(v) is list:
            seen.add(id(v))
            for k in range(len(v)):
                p = path + (k,)
                out[p] = Loc(p, 'item', v, k)
                walk(p, v[k], depth + 1)
        elif is_pkg_obj(v):
            seen.add(id(v))
            for k in sorted(v.__dict__):
                p = path + (k,)
                out[p] = Loc(p, 'attr', v, k)
                walk(p, v.__dict__[k], depth + 1)
    for n in sorted(loc):
        if n.startswith('__pv'):
            continue
        out[(n,)] = Loc((n,), 'local', None, n)
        walk((n,), loc[n], 0)
    return out


def ident(v):
    """Identity of a value for the frame comparison."""
    if isinstance(v, Arr):
        if v.nd:
            return ('nd', id(v.buf), v.dtype_)
        return ('sc', v.dtype_, ident(v.buf.v))
    if isinstance(v, (T.P, T.SB)):
        return v.key()
    if isinstance(v, A.Lazy):
        return ('lazy', v.name)
    if isinstance(v, (int, float, str, bool, bytes, type(None))):
        return (type(v).__name__, v if v == v else 'nan')
    h = getattr(v, '_pv_ident', None)
    if h is not None:
        return h()
    if type(v).__name__ == 'SymDT':
        return ('dt', v.t.key())
    if type(v).__name__ == 'SymTD':
        return ('td', v.s.key())
    return id(v)


# ------------------------------------------------------------- value slots

def slot(v):
    """(kind, element) of a value that the cut can havoc, else None."""
    if isinstance(v, Arr):
        e = v.buf.v
        if isinstance(e, A.Lazy):
            e = e.get()
        if v.nd:
            return ('nd', e)
        return ('sc', e)
    if isinstance(v, bool):
        return ('pybool', T.b_const(v))
    if isinstance(v, (int,)):
        return ('pyint', T.P.const(v))
    if isinstance(v, float) and v == v and abs(v) != float('inf'):
        return ('pyfloat', T.P.const(v))
    if isinstance(v, float):
        return ('pyfloat', A.num_of(v))
    if type(v).__name__ == 'SymDT':
        return ('dt', v.t)
    if type(v).__name__ == 'SymTD':
        return ('td', v.s)
    if isinstance(v, (T.P, T.SB)):
        return ('raw', v)
    if isinstance(v, A.Lazy):
        return ('raw', v.get())
    if v in (A.NAN, A.PINF, A.NINF, ABSENT):
        return ('raw', v)
    return None


def rebuild(old, kind, e):
    """A value like `old` with element e."""
    from pv import dtf
    if kind == 'nd':
        return Arr(old.shape_, old.dtype_, Buf(e), nd=True)
    if kind == 'sc':
        return Arr(old.shape_, old.dtype_, Buf(e), nd=False, py=old.py)
    if kind == 'pybool':
        return Arr((), 'b', Buf(e), nd=False, py=True)
    if kind == 'pyint':
        return Arr((), 'i', Buf(e), nd=False, py=True)
    if kind == 'pyfloat':
        return Arr((), 'f', Buf(e), nd=False, py=True)
    if kind == 'dt':
        return dtf.SymDT(e)
    if kind == 'td':
        return dtf.SymTD(e)
    return e


def is_intkind(v, kind, e):
    if kind in ('nd', 'sc'):
        return v.dtype_ == 'i'
    if kind == 'pyint':
        return True
    return kind == 'raw' and isinstance(e, T.P) and e.is_int()


# --------------------------------------------------------------- loop info

class Info(object):
    """What is known about one loop in one verification."""

    def __init__(self, key):
        self.key = key
        self.mode = 'native'
        self.mods = {}          # path -> dict(kind info)
        self.dead = set()       # dropped candidate keys
        self.delta = {}         # path -> P or None (not congruent)
        self.guards = []


def infos():
    return eng().loop_infos


class Loop(object):
    def __init__(self, qual, n, names):
        self.qual = qual
        e = eng()
        self.off = e is None or e.path is None
        if self.off:
            return
        occ = e.path.state.setdefault('loop_occ', {})
        # the same loop reached again in one path (another call) shares the
        # information of its call stack depth position
        stack = tuple(e.path.state.get('call_ctx', ()))
        key = (e.cur, qual, n, stack)
        self.nvisit = 0
        self.info = infos().setdefault(key, Info(key))
        self.names = names
        self.cursor0 = None
        self.new = {}
        self.phase = 'init'
        occ[key] = occ.get(key, 0) + 1

    # -- protocol
    def head(self, loc):
        self.new = {}
        if self.off:
            return
        e = eng()
        self.nvisit += 1
        if self.info.mode == 'native':
            if self.nvisit == 1:
                self.cursor0 = e.path.cursor
            elif e.path.cursor != self.cursor0:
                self.info.mode = 'cut'
                raise Restart()
            if self.nvisit > 3000:
                raise Unsupported('loop runs too long')
            return
        if not e.inferring and self.key_unstable():
            raise Restart()
        if self.nvisit == 1:
            return
        if self.nvisit == 2:
            self.havoc(loc)
            self.phase = 'arb'
            return
        self.check(loc)

    def key_unstable(self):
        return self.info.key not in eng().stable_loops

    def enter(self):
        """Called when the condition holds; True: go back to the head."""
        if self.off or self.info.mode == 'native':
            return False
        return self.phase == 'init'

    # -- invariant
    def values(self, loc):
        """Current slots of the modified locations."""
        r = reach(loc)
        vals = {}
        for p in self.info.mods:
            if p in r:
                v = r[p].get(loc)
                if v is MISSING:
                    continue
                s = slot(v)
                if s is not None:
                    vals[p] = (v, s[0], s[1])
        return r, vals

    def scope(self, r, loc):
        """Unmodified scalar terms in scope."""
        out = {}
        mods = set(self.info.mods)
        for p, l in r.items():
            if p in mods or l.kind == 'buf' or len(p) > 3:
                continue
            if any(p[:i] in mods for i in range(1, len(p))):
                continue
            v = l.get(loc)
            if isinstance(v, bool) or v is MISSING or v is None:
                continue
            if isinstance(v, A.Dim):
                out[v.p.key()] = v.p
                continue
            s = slot(v) if not (isinstance(v, Arr) and (
                v.nd and v.shape_ != () or v.dtype_ in 'bO')) else None
            if s is None or s[0] in ('raw', 'td') or not isinstance(s[1],
                                                                    T.P):
                continue
            if s[0] == 'dt':
                continue
            out[s[1].key()] = s[1]
        out[()] = T.ZERO
        if eng().loop_scope_only:
            out = {(): T.ZERO}
        for h in eng().loop_scope:
            out[h.key()] = h
        return list(out.values())[:24]

    def candidates(self, vals):
        """Candidate invariants over current values: {key: SB}."""
        e = eng()
        out = {}
        nums = {p: v for p, v in vals.items() if isinstance(v[2], T.P)}
        for p, (v, kind, x) in nums.items():
            i0 = self.init.get(p)
            for j, s in enumerate(self.scope_terms):
                for op in ('lt', 'le', 'gt', 'ge'):
                    out[(p, op, s.key())] = A.s_cmp(op, x, s)
            if i0 is not None and isinstance(i0[2], T.P):
                out[(p, 'ge0')] = T.le(i0[2], x)
                out[(p, 'le0')] = T.le(x, i0[2])
                n = self.count_of(p, x)
                if n is not None:
                    out[(p, 'n>=0')] = T.le(T.ZERO, n)
                    for q, (w, k2, b) in self.init.items():
                        if isinstance(b, T.SB) and q in self.info.mods:
                            out[(p, 'n0|', q)] = T.b_or(
                                T.eq(n, T.ZERO), b)
            if is_intkind(v, kind, x):
                for ti, t in enumerate(e.loop_templates):
                    c = t(x)
                    if c is not None:
                        out[(p, 'tmpl', ti)] = c
        ps = sorted(nums, key=str)
        for a in ps:
            for b in ps:
                if a < b and nums[a][1] != 'nd' and nums[b][1] != 'nd':
                    x, y = nums[a][2], nums[b][2]
                    out[(a, 'le', b)] = T.le(x, y)
                    out[(a, 'ge', b)] = T.le(y, x)
                    out[(a, 'lt', b)] = T.lt(x, y)
                    out[(a, 'gt', b)] = T.lt(y, x)
        # substitution: w = f(others) as it was on entry
        for p, (v, kind, x) in vals.items():
            i0 = self.init.get(p)
            if i0 is None:
                continue
            for combo, f in self.subst_forms(p, i0[2], vals):
                if isinstance(x, T.P) and isinstance(f, T.P):
                    c = T.eq(x, f)
                elif isinstance(x, T.SB) and isinstance(f, T.SB):
                    c = T.b_iff(x, f)
                else:
                    continue
                out[(p, 'sub', combo)] = c
                for gi, g in enumerate(e.loop_guards):
                    for q in ps:
                        if is_intkind(*nums[q]) and q != p:
                            out[(p, 'sub', combo, gi, q)] = T.b_imp(
                                g(nums[q][2]), c)
        for ti, t in enumerate(e.loop_invariants):
            c = t({p: v[2] for p, v in vals.items()},
                  {p: v[2] for p, v in self.init.items()})
            for k, sb in (c or {}).items():
                out[('inv', ti, k)] = sb
        return {k: c for k, c in out.items() if k not in self.info.dead}

    def subst_forms(self, p, f0, vals):
        """Entry value of p rewritten over current values of others."""
        if not isinstance(f0, (T.P, T.SB)):
            return
        ats = T.deep_atoms(f0)
        opts = []
        for q, (v, kind, x) in vals.items():
            i0 = self.init.get(q)
            if q == p or i0 is None or not isinstance(i0[2], T.P) or \
                    not isinstance(x, T.P):
                continue
            piv = pivot(i0[2], ats)
            if piv is None:
                continue
            opts.append((q, piv, i0[2], x))
        opts = opts[:5]
        for mask in range(1, 1 << len(opts)):
            sub = {}
            combo = []
            ok = True
            for i, (q, (a, c), v0, x) in enumerate(opts):
                if mask >> i & 1:
                    if a in sub:
                        ok = False
                        break
                    rest = v0 - T.P.atom(T.ATOMS[a]).scale(c)
                    sub[a] = (x - rest).scale(1 / c)
                    combo.append(q)
            if not ok:
                continue
            try:
                g = T.subst(f0, sub)
            except ValueError:
                continue
            yield tuple(combo), g

    def count_of(self, p, x):
        d = self.info.delta.get(p)
        i0 = self.init.get(p)
        if d is None or i0 is None:
            return None
        q = (x - i0[2]).divide(d)
        if q is None or not q.is_int():
            return None
        return q

    def havoc(self, loc):
        e = eng()
        info = self.info
        e.loop_loc = loc
        r, vals = self.values(loc)
        self.init = dict(vals)
        self.scope_terms = self.scope(r, loc)
        cands = self.candidates(vals)
        for k, c in cands.items():
            if not self.holds(c, k, 'on entry'):
                self.drop(k)
        # arbitrary values
        self.head_vals = {}
        for p, meta in info.mods.items():
            if p in vals:
                v, kind, x = vals[p]
            elif meta.get('proto') is not None:
                v, kind, x = meta['proto']
            else:
                if p in r and r[p].get(loc) is None:
                    # None on entry, and nothing else seen so far
                    meta['none'] = True
                    continue
                if p in r:
                    r[p].set(POISON, self.new)
                elif len(p) == 1:
                    self.new[p[0]] = POISON
                continue
            if p in r and r[p].get(loc) is None:
                meta['none'] = True
            if meta.get('none') and e.choose('.'.join(map(str, p)) +
                                             ' is None'):
                if p in r:
                    r[p].set(None, self.new)
                else:
                    self.new[p[0]] = None
                continue
            y = self.fresh(p, v, kind, x, p in vals)
            nv = rebuild(v, kind, y)
            if p in r:
                r[p].set(nv, self.new)
            elif len(p) == 1:
                self.new[p[0]] = nv
            else:
                raise Unsupported('loop creates %r' % (p,))
        loc2 = dict(loc)
        loc2.update(self.new)
        e.loop_loc = loc2
        r2, vals2 = self.values(loc2)
        # only what was established on entry may be assumed: the entry
        # state is then a witness that the assumptions are consistent
        entry = {k for k in cands if k not in info.dead}
        now = {k: c for k, c in self.candidates(vals2).items() if k in entry}
        try:
            for c in now.values():
                e.assume(c)
        except PathEnd:
            raise Unsupported('contradictory loop invariants in %s'
                              % self.qual)
        self.cands = set(now)
        self.base = {p: ident(l.get(loc2)) for p, l in r2.items()}
        self.base_obj = {p: r2[p].get(loc2) for p in info.mods if p in r2}
        self.base_vals = vals2

    def fresh(self, p, v, kind, x, known):
        e = eng()
        nm = '.'.join(map(str, p))
        if x in (A.PINF, A.NINF, NAN, ABSENT):
            if (p, 'tag') not in self.info.dead:
                return x
            return A.Lazy(e.path.fresh(nm), e.fresh_real(nm))
        if isinstance(x, T.SB):
            return e.fresh_bool('loop ' + nm)
        if isinstance(x, T.P):
            d = self.info.delta.get(p)
            if known and d is not None:
                n = e.fresh_int('n.' + nm)
                return x + n * d
            if (p, 'notnan') in self.info.dead:
                return A.Lazy(e.path.fresh(nm), e.fresh_real(nm))
            if is_intkind(v, kind, x):
                return e.fresh_int(nm)
            return e.fresh_real(nm)
        raise Unsupported('loop modifies %s' % nm)

    def holds(self, c, key, when):
        e = eng()
        if e.inferring:
            how, _ = e.path.prove(c, quick=True)
            return how not in ('sat', 'unknown')
        return e.oblige('loop invariant %s of %s %s' % (
            key_str(key), self.qual, when), c)

    def drop(self, k):
        self.info.dead.add(k)
        eng().loop_changed = True

    def check(self, loc):
        e = eng()
        info = self.info
        e.loop_loc = loc
        r, vals = self.values(loc)
        changed = False
        # frame: nothing outside the modifies set changed
        for p, l in r.items():
            if p in info.mods:
                continue
            v = l.get(loc)
            if p in self.base:
                if self.base[p] == ident(v):
                    continue
            elif len(p) > 1 and any(p[:i] in info.mods
                                    for i in range(1, len(p))):
                continue
            if any(p[:i] in info.mods for i in range(1, len(p))):
                continue
            if len(p) > 1 and p not in self.base and p[0] not in {
                    q[0] for q in self.base}:
                continue
            # a new or changed location
            s = slot(v)
            meta = {}
            if p not in self.base:
                if len(p) > 1:
                    # a new attribute or item of an existing object
                    if p[-1] == '*':
                        continue
                meta['proto'] = None if s is None else (v,) + s
            info.mods[p] = meta
            if s is not None and isinstance(s[1], T.P):
                old = self.old_elem(p)
                if isinstance(old, T.P):
                    d = s[1] - old
                    info.delta[p] = d if not d.is_zero() and \
                        self.constant(d) else None
            changed = True
        if changed:
            # candidates dropped while locations were missing get another
            # chance
            for i in infos().values():
                i.dead = {k for k in i.dead if k[1] in ('notnan', 'tag')}
            e.loop_changed = True
            raise Restart()
        # values that may be None
        for p, meta in info.mods.items():
            if p not in r:
                continue
            v = r[p].get(loc)
            old = self.base_obj.get(p, MISSING)
            if v is MISSING or old is MISSING or type(old) is Poison:
                continue
            s = slot(v)
            if old is None:
                if v is None or meta.get('proto') is not None:
                    if s is None and v is not None:
                        raise Unsupported('loop modifies %s' % key_str([p]))
                    continue
                if s is None:
                    raise Unsupported('loop modifies %s' % key_str([p]))
                meta['proto'] = (v,) + s
                e.loop_changed = True
                raise Restart()
            if s is None:
                if v is not None:
                    raise Unsupported('loop modifies %s' % key_str([p]))
                if not meta.get('none'):
                    meta['none'] = True
                    e.loop_changed = True
                    raise Restart()
        # tags, congruences
        for p in info.mods:
            b = self.base_vals.get(p)
            c = vals.get(p)
            if b is None or c is None:
                continue
            x, y = b[2], c[2]
            if isinstance(x, T.P) != isinstance(y, T.P) and not isinstance(
                    x, T.SB):
                k = (p, 'notnan' if isinstance(x, T.P) else 'tag')
                if k not in info.dead:
                    self.drop(k)
                    info.delta[p] = None
                    raise Restart()
                continue
            if isinstance(x, T.P) and isinstance(y, T.P):
                d = info.delta.get(p)
                if d is None and p not in info.delta:
                    dd = y - x
                    if not dd.is_zero():
                        info.delta[p] = dd if self.constant(dd) else None
                        e.loop_changed = True
                        raise Restart()
                elif d is not None and p in self.init:
                    if self.count_of(p, y) is None or self.modified_in(d):
                        info.delta[p] = None
                        e.loop_changed = True
                        raise Restart()
                    if not e.inferring:
                        e.oblige('loop invariant %s = entry + n*(%r) of %s '
                                 'preserved' % ('.'.join(map(str, p)), d,
                                                self.qual), T.TRUE)
        cs = self.candidates(vals)
        bad = []
        for k in self.cands:
            if k in info.dead:
                continue
            c = cs.get(k)
            if c is None and any(q in r and r[q].get(loc) is None
                                 for q in flat(k) if info.mods.get(
                                     q, {}).get('none')):
                continue
            if c is None or not self.holds(c, k, 'preserved'):
                bad.append(k)
        for k in bad:
            self.drop(k)
        if bad and not e.inferring:
            raise Restart()
        raise PathEnd()

    def old_elem(self, p):
        b = self.base_raw(p)
        return b

    def base_raw(self, p):
        v = self.base_slots.get(p)
        return v

    @property
    def base_slots(self):
        out = {}
        for p, k in self.base.items():
            # identities of scalar terms carry the polynomial key
            if isinstance(k, tuple) and k and k[0] == 'sc' and isinstance(
                    k[2], tuple):
                out[p] = T.P(dict(k[2])) if is_polykey(k[2]) else None
            elif isinstance(k, tuple) and len(k) == 2 and k[0] == 'int':
                out[p] = T.P.const(k[1])
            elif isinstance(k, tuple) and is_polykey(k):
                out[p] = T.P(dict(k))
        return out

    def constant(self, d):
        """A step made of what the loop leaves alone."""
        ats = T.deep_atoms(d)
        for s in self.scope_terms:
            ats -= T.deep_atoms(s)
        return not ats - {0}

    def modified_in(self, d):
        ats = T.deep_atoms(d)
        for p, (v, kind, x) in self.base_vals.items():
            if isinstance(x, T.P) and p in self.info.mods:
                if p in self.init and isinstance(self.init[p][2], T.P):
                    fresh = T.deep_atoms(x) - T.deep_atoms(self.init[p][2])
                else:
                    fresh = T.deep_atoms(x)
                dd = self.info.delta.get(p)
                if dd is not None:
                    fresh -= T.deep_atoms(dd)
                if fresh & ats:
                    return True
        return False


def is_polykey(k):
    return isinstance(k, tuple) and all(
        isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple)
        and isinstance(x[1], T.F) for x in k)


def flat(k):
    """The paths a candidate key mentions."""
    out = []
    if isinstance(k, tuple):
        out.append(k)
        for x in k:
            out += flat(x)
    return out


def key_str(k):
    return ' '.join('.'.join(map(str, x)) if isinstance(x, tuple) and x and
                    all(isinstance(y, (str, int)) for y in x)
                    else str(x)[:40] for x in k)


def pivot(v0, ats):
    """An atom of v0 occurring linearly and alone, and present in ats."""
    best = None
    for m, c in v0.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in ats and m[0][0] != 0:
            a = m[0][0]
            if sum(1 for mm in v0.t for x, _ in mm if x == a) == 1:
                if any(a in T.deep_atoms(T.P.atom(T.ATOMS[b]))
                       for mm in v0.t for b, _ in mm if b != a):
                    continue
                if best is None or a > best[0]:
                    best = (a, c)
    return best


# ---------------------------------------------------------- for statements

class Stale(object):
    """A variable whose value an iteration leaves behind."""


def _poisoned(self, *a, **k):
    raise Unsupported('value carried over from another iteration')


for _n in ('__getattr__ __add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ '
           '__truediv__ __rtruediv__ __eq__ __ne__ __lt__ __le__ __gt__ '
           '__ge__ __bool__ __len__ __iter__ __getitem__ __setitem__ '
           '__call__ __iadd__ __neg__ __abs__ __contains__ __index__ '
           '__and__ __or__ __invert__ __pow__ __mod__').split():
    setattr(Stale, _n, _poisoned)
Stale.__hash__ = object.__hash__


def seen(x):
    if type(x) in (Stale, Poison):
        raise Unsupported('use of an untracked loop variable')
    return x


class Each(object):
    """Proof rule of a contract for a loop over many elements.

    The contract follows one arbitrary entry (the probe) of what the loop
    fills in.  `before` sets the state before an arbitrary iteration: the
    probe holds what it should before or after its own turn, everything else
    anything.  The body is then executed for an arbitrary element, which has to
    leave the probe as it should be (`after`).  `exit` sets the state
    after the loop.  Variables assigned by the body carry nothing over.
    """

    def applies(self, it):
        from pv.loader import GenRange
        if isinstance(it, GenRange):
            return True
        return isinstance(it, Arr) and len(it.shape_) == 1 and \
            not isinstance(it.shape_[0], int)

    def before(self, it):
        raise NotImplementedError

    def item(self):
        raise NotImplementedError

    def after(self):
        raise NotImplementedError

    def exit(self, it):
        raise NotImplementedError


class ForLoop(object):
    """`for` over concrete or symbolic iterables."""

    def __init__(self, qual, n, names, it):
        self.qual = qual
        self.it = it
        self.rule = self.stage = self.sym = None
        self.new = {}
        if eng() is not None and eng().path is not None and \
                eng().each_rule is not None and eng().each_rule.applies(it):
            self.rule, self.names = eng().each_rule, names
            return
        h = getattr(it, '_pv_for', None)
        if h is not None and eng() is not None and eng().path is not None:
            self.sym = h()
        if self.sym is None:
            self.native = iter(it)
        else:
            self.loop = Loop(qual, n, names)
            if not self.loop.off:
                self.loop.info.mode = 'cut'
            self.idx = T.ZERO

    def head_each(self, loc):
        e = eng()
        if self.stage is None:
            self.new = {n: Stale() for n in self.names}
            if e.choose('an iteration of ' + self.qual):
                self.stage = 'body'
                self.frame = self.idents(loc)
                self.rule.before(self.it)
            else:
                self.stage = 'exit'
                self.rule.exit(self.it)
            return
        # the end of the body
        now = self.idents(loc)
        for n in sorted(self.frame):
            e.oblige('loop frame: %s unchanged by an iteration' % n,
                     T.b_const(now.get(n) == self.frame[n]))
        self.rule.after()
        raise PathEnd()

    def idents(self, loc):
        return {n: (ident(v), v.buf.ver if isinstance(v, Arr) else 0)
                for n, v in loc.items()
                if n not in self.names and not n.startswith('__pv')}

    def head(self, loc):
        self.new = {}
        if self.rule is not None:
            return self.head_each(loc)
        if self.sym is None:
            return
        # the position is part of the loop state
        loc = dict(loc)
        cell = A.pyint(self.idx)
        loc['%pos'] = cell
        self.loop.info.mods.setdefault(('%pos',), {})
        self.loop.head(loc)
        self.new = dict(self.loop.new)
        if '%pos' in self.new:
            self.idx = self.new.pop('%pos').e()

    def has_next(self):
        if self.rule is not None:
            return self.stage == 'body'
        if self.sym is None:
            try:
                self.cur = next(self.native)
                return True
            except StopIteration:
                return False
        return eng().decide(T.lt(self.idx, self.sym.length()))

    def enter(self):
        if self.sym is None:
            return False
        return self.loop.enter()

    def item(self):
        if self.rule is not None:
            return self.rule.item()
        if self.sym is None:
            return self.cur
        v = self.sym.at(self.idx)
        self.idx = self.idx + T.ONE
        return v


# --------------------------------------------------------- instrumentation

def _stores(nodes):
    names = set()
    for b in nodes:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,
                                                              ast.Del)):
                names.add(x.id)
    return sorted(n for n in names if not n.startswith('__pv'))


def _call(fn, *args):
    return ast.Call(func=fn, args=list(args), keywords=[])


def _name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def _attr(v, a):
    return ast.Attribute(_name(v), a, ast.Load())


def _rebinds(var, names):
    out = []
    for n in names:
        out.append(ast.If(
            test=ast.Compare(ast.Constant(n), [ast.In()],
                             [_attr(var, 'new')]),
            body=[ast.Assign([_name(n, ast.Store())], ast.Subscript(
                _attr(var, 'new'), ast.Constant(n), ast.Load()))],
            orelse=[]))
    return out


def _fix(out, node):
    for o in out:
        ast.copy_location(o, node)
        for x in ast.walk(o):
            if not hasattr(x, 'lineno'):
                ast.copy_location(x, node)
        ast.fix_missing_locations(o)
    return out


def instrument_while(node, n, qual):
    var = '__pvl%d__' % n
    names = _stores(node.body + [node.test])
    init = ast.Assign([_name(var, ast.Store())], _call(
        _name('__pv_loop__'), ast.Constant(qual), ast.Constant(n),
        ast.Constant(tuple(names))))
    body = [ast.Expr(_call(_attr(var, 'head'), _call(_name('locals'))))]
    body += _rebinds(var, names)
    body.append(ast.If(test=ast.UnaryOp(ast.Not(), node.test),
                       body=list(node.orelse) + [ast.Break()], orelse=[]))
    body.append(ast.If(test=_call(_attr(var, 'enter')),
                       body=[ast.Continue()], orelse=[]))
    body += node.body
    return _fix([init, ast.While(test=ast.Constant(True), body=body,
                                 orelse=[])], node)


def instrument_for(node, n, qual):
    var = '__pvf%d__' % n
    names = _stores(node.body + [node.target])
    init = ast.Assign([_name(var, ast.Store())], _call(
        _name('__pv_for__'), ast.Constant(qual), ast.Constant(n),
        ast.Constant(tuple(names)), node.iter))
    body = [ast.Expr(_call(_attr(var, 'head'), _call(_name('locals'))))]
    body += _rebinds(var, names)
    body.append(ast.If(test=ast.UnaryOp(ast.Not(), _call(
        _attr(var, 'has_next'))),
        body=list(node.orelse) + [ast.Break()], orelse=[]))
    body.append(ast.If(test=_call(_attr(var, 'enter')),
                       body=[ast.Continue()], orelse=[]))
    body.append(ast.Assign([node.target], _call(_attr(var, 'item'))))
    body += node.body
    return _fix([init, ast.While(test=ast.Constant(True), body=body,
                                 orelse=[])], node)


HOOKS = {'__pv_loop__': Loop, '__pv_for__': ForLoop}
