"""Path exploration, obligations and back-end calls."""

import time
import z3

from pv import terms as T

z3.set_param('smt.random_seed', 1)


class Unsupported(Exception):
    """The code uses something the verifier has no semantics for."""


class PathEnd(BaseException):
    """The current path ends here (assumption false, loop cut reached)."""


class Abort(BaseException):
    """Stop exploring this verification (enough failures, out of budget)."""


class Restart(BaseException):
    """What is known about a loop changed: explore again."""


class NoopOff(BaseException):
    """A pruning claim did not hold: explore again without pruning."""


class NotReady(BaseException):
    """A value would need a new decision."""


class Decision(object):
    __slots__ = ('choice', 'alt', 'label', 'claims', 'swapped')

    def __init__(self, choice, alt, label):
        self.choice = choice
        self.alt = alt          # True if the other value is still to explore
        self.label = label
        self.claims = False     # True-branch bodies found without effect
        self.swapped = set()


class Failure(object):
    def __init__(self, name, kind, detail, model=None, path=None):
        self.name = name
        self.kind = kind        # 'refuted' | 'unknown' | 'unsupported' |
        self.detail = detail    # 'exception' | 'vacuous' | 'budget'
        self.model = model or {}
        self.path = path or []

    def as_dict(self):
        return {'obligation': self.name, 'outcome': self.kind,
                'detail': self.detail[:4000], 'model': self.model,
                'path': self.path[-60:]}


class Stats(object):
    def __init__(self):
        self.generated = 0
        self.discharged = 0
        self.by = {}
        self.solver_s = 0.0
        self.paths = 0
        self.max_query_s = 0.0
        self.funcs = {}
        self.covers = 0
        self.names = {}
        self.stub_uses = {}
        self.trusted = {}
        self.inlined = set()


class Engine(object):
    """One engine per check; verifications share the statistics."""

    def __init__(self, seed=1, tier='quick', rlimit=None):
        self.seed = seed
        self.tier = tier
        self.rlimit = rlimit or (40000000 if tier == 'quick' else 200000000)
        self.stats = Stats()
        self.failures = []
        self.path = None
        self.cur = None
        self.max_fail = 3
        self.crosscheck = (tier == 'thorough')
        self.query_log = []
        self.inferring = False
        self.loop_infos = {}
        self.stable_loops = set()
        self.loop_changed = False
        self.loop_templates = []
        self.loop_guards = []
        self.each_rule = None
        self.loop_invariants = []
        self.loop_scope = []
        self.loop_scope_only = False
        self.loop_loc = {}

    # ---------------------------------------------------------- exploring

    def explore(self, label, func, max_paths=20000, budget_s=240.0,
                need_cover=True):
        """Run `func(engine)` over all feasible decision sequences."""
        import copy
        self.cur = label
        t0 = time.time()
        st = self.stats
        self.inferring = False
        keep = (copy.deepcopy(st), list(self.failures))
        rounds = 0
        res = self._explore(label, func, max_paths, budget_s, need_cover)
        while res == 'restart':
            # loops were met: infer their modifies sets and invariants
            self.inferring = True
            while True:
                rounds += 1
                self.loop_changed = False
                self.failures[:] = keep[1]
                r = self._explore(label, func, max_paths, budget_s, False)
                if rounds > 80 or time.time() - t0 > budget_s:
                    break
                if r != 'restart' and not self.loop_changed:
                    break
            self.inferring = False
            self.stable_loops |= set(self.loop_infos)
            solver_s = st.solver_s
            st.__dict__.update(copy.deepcopy(keep[0]).__dict__)
            st.solver_s = solver_s
            self.failures[:] = keep[1]
            if rounds > 80 or time.time() - t0 > budget_s:
                self.fail(label, 'budget', 'loop invariant inference did '
                          'not converge')
                break
            res = self._explore(label, func, max_paths, budget_s, need_cover)
        st.funcs[label] = {
            'paths': res if isinstance(res, int) else 0,
            'obligations': st.generated - keep[0].generated,
            'discharged': st.discharged - keep[0].discharged,
            'loops': len([k for k in self.loop_infos if k[0] == label and
                          self.loop_infos[k].mode == 'cut']),
            'wall_s': round(time.time() - t0, 2)}
        self.path = None
        T.TOUCH[0] = None
        return st.funcs[label]

    def _explore(self, label, func, max_paths, budget_s, need_cover):
        import copy
        t0 = time.time()
        keep = copy.deepcopy(self.stats)
        self.noop_off = False
        prefix = []
        npaths = 0
        covered = False
        gen0 = self.stats.generated
        fail0 = len(self.failures)
        cover_tries = 0
        while True:
            self.path = Path(self, prefix)
            T.TOUCH[0] = self.path.touch
            T.TRIG_ARGS.clear()
            T.LAZY[0] = T.THUNKS[0] = False
            try:
                func(self)
                if need_cover and not covered and cover_tries < 12:
                    cover_tries += 1
                    r = self.path.full_check()
                    if r == z3.sat:
                        covered = True
                        self.stats.covers += 1
                    elif r == z3.unknown and cover_tries >= 4:
                        # linear satisfiability was established by the forks
                        covered = True
            except PathEnd:
                pass
            except Restart:
                return 'restart'
            except NoopOff:
                self.noop_off = True
                st = self.stats
                solver_s = st.solver_s
                st.__dict__.update(copy.deepcopy(keep).__dict__)
                st.solver_s = solver_s
                del self.failures[fail0:]
                prefix = []
                npaths, covered, cover_tries = 0, False, 0
                continue
            except Abort:
                break
            except T.TooBig as e:
                self.fail(label, 'unsupported', 'term growth: %s' % e)
            except Unsupported as e:
                self.fail(label, 'unsupported', str(e))
            npaths += 1
            self.stats.paths += 1
            if len(self.failures) - fail0 >= self.max_fail:
                break
            prefix = self.path.decisions
            while prefix:
                d = prefix[-1]
                if d.alt:
                    break
                prefix.pop()
            if not prefix:
                break
            prefix[-1].choice = not prefix[-1].choice
            prefix[-1].alt = False
            if npaths >= max_paths or time.time() - t0 > budget_s:
                self.fail(label, 'budget', 'path or time budget exhausted '
                          'after %d paths' % npaths)
                break
        if len(self.failures) == fail0 and not self.inferring:
            if self.stats.generated == gen0:
                self.fail(label, 'vacuous', 'no obligation was generated')
            elif need_cover and not covered:
                self.fail(label, 'vacuous', 'no path of the contract is '
                          'reachable (precondition unsatisfiable?)')
        return npaths

    def fail(self, name, kind, detail, model=None):
        if self.inferring:
            return
        path = [] if self.path is None else [
            '%s := %s' % (d.label, d.choice) for d in self.path.decisions]
        self.failures.append(Failure(name, kind, detail, model, path))

    # --------------------------------------------------------- primitives

    def decide(self, sb, label=None):
        return self.path.decide(sb, label)

    def assume(self, sb):
        """Add a hypothesis; ends the path if it is inconsistent."""
        self.path.assume(sb)

    def fresh_bool(self, name):
        return T.b_var(self.path.fresh(name))

    def fresh_real(self, name):
        return T.V(self.path.fresh(name))

    def fresh_int(self, name):
        return T.V(self.path.fresh(name), 'int')

    def choose(self, name):
        """A demonic choice."""
        return self.decide(self.fresh_bool(name), name)

    def oblige(self, name, sb, detail=''):
        """Generate and discharge one proof obligation."""
        if self.inferring:
            return True
        st = self.stats
        st.generated += 1
        full = '%s: %s' % (self.cur, name)
        st.names[full] = st.names.get(full, 0) + 1
        how, model = self.path.prove(sb)
        if how in ('syntactic', 'z3-linear', 'z3-nonlinear', 'cvc5',
                   'z3-nonlinear-coi'):
            st.discharged += 1
            st.by[how] = st.by.get(how, 0) + 1
            self.path.add(sb)
            return True
        self.fail(full, 'refuted' if how == 'sat' else 'unknown',
                  (detail + ' ' if detail else '') + 'goal: %r' % (sb,),
                  model)
        # continue this path as if it held, so later obligations still count
        raise PathEnd()


class Path(object):
    def __init__(self, eng, prefix):
        self.eng = eng
        self.decisions = list(prefix)
        self.nprefix = len(prefix)
        self.cursor = 0
        self.facts = set()
        self.pc = []
        self.touched = {}
        self.counter = {}
        self.lin = z3.Solver()
        self.lin.set('timeout', 5000)
        self.replaying = bool(prefix)
        self.cache = {}
        self.state = {}
        self.pi_in = False
        self.frozen = False

    def fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return '%s~%d' % (name, n)

    def touch(self, atom, force=False):
        n = len(atom.axioms)
        done = self.touched.get(atom.idx, 0)
        if done == n + 1 and not force:
            return
        self.touched[atom.idx] = n + 1
        for ax in atom.axioms[max(done - 1, 0):]:
            for p in ax.polys():
                for a in p.atoms():
                    if a != atom.idx and self.touched.get(a, 0) == 0:
                        self.touch(T.ATOMS[a])
            self.add(ax)
        if atom.kind in ('sqrt', 'den', 'floor') and isinstance(
                atom.data, T.P):
            for a in atom.data.atoms():
                self.touch(T.ATOMS[a])
        if atom.kind == 'angle':
            for p in atom.data:
                for a in p.atoms():
                    self.touch(T.ATOMS[a])

    def add(self, sb):
        if sb.op == 'c':
            if not sb.a:
                raise PathEnd()
            return
        if sb.op == 'and':
            for x in sb.a:
                self.add(x)
            return
        if sb in self.facts:
            return
        self.facts.add(sb)
        self.pc.append(sb)
        if not self.pi_in:
            for p in sb.polys():
                if 0 in p.atoms():
                    self.pi_in = True
                    zpi = T.ENC_LIN.atom(T.PI_ATOM)
                    self.lin.add(zpi > z3.RealVal(T.PI_LO),
                                 zpi < z3.RealVal(T.PI_HI))
                    break
        self.lin.add(T.ENC_LIN.boolean(sb))

    def assume(self, sb):
        if sb.op == 'c':
            if not sb.a:
                raise PathEnd()
            return
        if T.b_not(sb) in self.facts:
            raise PathEnd()
        self.add(sb)
        if self.cursor >= self.nprefix:
            if self.check_lin() == z3.unsat:
                raise PathEnd()

    def check_lin(self, *extra):
        t = time.time()
        r = self.lin.check(*extra)
        self.eng.stats.solver_s += time.time() - t
        return r

    def known(self, sb):
        """Truth value if already syntactically known, else None."""
        if sb.op == 'c':
            return sb.a
        if sb in self.facts:
            return True
        if T.b_not(sb) in self.facts:
            return False
        if sb.op == 'and':
            ks = [self.known(x) for x in sb.a]
            if any(k is False for k in ks):
                return False
            if all(k is True for k in ks):
                return True
        elif sb.op == 'or':
            ks = [self.known(x) for x in sb.a]
            if any(k is True for k in ks):
                return True
            if all(k is False for k in ks):
                return False
        return None

    def decide(self, sb, label=None):
        k = self.known(sb)
        if k is not None:
            return k
        if self.frozen:
            raise NotReady()
        lab = label or repr(sb)[:160]
        if self.cursor < len(self.decisions):
            d = self.decisions[self.cursor]
            self.cursor += 1
            if d.claims and not d.choice:
                # also stands for the branch found to be without effect
                return False
            self.add(sb if d.choice else T.b_not(sb))
            return d.choice
        self.replaying = False
        if sb.op == 'var':
            tf = ff = True
        else:
            z = T.ENC_LIN.boolean(sb)
            tf = self.check_lin(z) != z3.unsat
            ff = self.check_lin(z3.Not(z)) != z3.unsat if tf else True
        if not tf and not ff:
            raise PathEnd()
        d = Decision(tf, tf and ff, lab)
        self.decisions.append(d)
        self.cursor += 1
        self.add(sb if d.choice else T.b_not(sb))
        return d.choice

    # ------------------------------------------------------------ proving

    def prove(self, sb, quick=False):
        if sb.op == 'c':
            if sb.a:
                return 'syntactic', None
            # goal is false: provable only if the path is infeasible
        elif self.known(sb) is True:
            return 'syntactic', None
        if sb.op == 'eq':
            g = T.clear_den(sb.a)
            if g is not None:
                if g.is_zero():
                    return 'syntactic', None
                if self.check_lin(z3.Not(T.ENC_LIN.boolean(sb))) == z3.unsat:
                    return 'z3-linear', None
                sb = T._cmp('eq', g)
                if sb.op != 'c' and self.known(sb) is True:
                    return 'syntactic', None
        neg = z3.Not(T.ENC_LIN.boolean(sb))
        links = int_links(self.pc + [sb])
        if links:
            # the gap between two integer forms, named so that the solver
            # can branch on it
            r = self.check_lin(neg, *links)
        else:
            r = self.check_lin(neg)
        if r == z3.unsat:
            return 'z3-linear', None
        st = self.eng.stats
        # non-linear, cone of influence first
        pcs = self.coi(sb)
        if quick:
            if r == z3.sat and all(linear(c) for c in pcs) and linear(sb):
                # nothing the linear solver does not know
                return 'sat', None
            r, m = self.nl(pcs, sb, rlimit=1500000)
            return ('z3-nonlinear-coi' if r == z3.unsat else 'unknown'), None
        if len(pcs) < len(self.pc):
            r, m = self.nl(pcs, sb)
            if r == z3.unsat:
                return 'z3-nonlinear-coi', None
        r, m = self.nl(self.pc, sb)
        if r == z3.unsat:
            return 'z3-nonlinear', None
        if r == z3.sat:
            return 'sat', m
        if self.cvc5(self.pc, sb):
            return 'cvc5', None
        return 'unknown', m or {}

    def coi(self, sb):
        ats = set()
        for p in sb.polys():
            ats |= p.atoms()
        if not ats:
            return self.pc
        ats.discard(0)
        chosen = [False] * len(self.pc)
        pas = [set().union(*[p.atoms() for p in c.polys()] or [set()]) - {0}
               for c in self.pc]
        for _ in range(2):
            new = set(ats)
            for i, c in enumerate(self.pc):
                if not chosen[i] and pas[i] and pas[i] <= ats | set():
                    chosen[i] = True
                elif not chosen[i] and pas[i] & ats and len(pas[i]) <= 4:
                    chosen[i] = True
                    new |= pas[i]
            if new == ats:
                break
            ats = new
        return [c for i, c in enumerate(self.pc) if chosen[i]]

    def nl_solver(self, pcs, neg=None, rlimit=None):
        s = z3.SolverFor('QF_UFNIRA') if any(
            T.ATOMS[a].sort == 'int' or T.ATOMS[a].kind == 'uf'
            for c in pcs + ([neg] if neg is not None else [])
            for p in c.polys() for a in p.atoms()) else z3.SolverFor('QF_NRA')
        s.set('rlimit', rlimit or self.eng.rlimit)
        s.set('timeout', 60000 if self.eng.tier == 'thorough' else 15000)
        n0 = len(T.ENC_FULL.side)
        zs = [T.ENC_FULL.boolean(c) for c in pcs]
        if neg is not None:
            zs.append(z3.Not(T.ENC_FULL.boolean(neg)))
        s.add(*zs)
        used = set()
        for c in pcs + ([neg] if neg is not None else []):
            for p in c.polys():
                for m in p.t:
                    for a, e in m:
                        if e < 0:
                            used.add(a)
                        if a == 0:
                            used.add(0)
        for a in used:
            za = T.ENC_FULL.atom(T.ATOMS[a])
            s.add(z3.Real('inv!%d' % a) * za == 1)
        zpi = T.ENC_FULL.atom(T.PI_ATOM)
        s.add(zpi > z3.RealVal(T.PI_LO), zpi < z3.RealVal(T.PI_HI))
        del T.ENC_FULL.side[n0:]
        return s

    def nl(self, pcs, sb, rlimit=None):
        t = time.time()
        s = self.nl_solver(pcs, sb, rlimit)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        dt = time.time() - t
        st = self.eng.stats
        st.solver_s += dt
        st.max_query_s = max(st.max_query_s, dt)
        m = None
        if r == z3.sat:
            m = self.model(s.model())
        return r, m

    def model(self, zm):
        out = {}
        for i in list(self.touched):
            a = T.ATOMS[i]
            if a.kind not in ('var', 'uf') or a.z is None:
                continue
            try:
                v = zm.eval(a.z, model_completion=True)
                out[a.name] = z3_float(v)
            except Exception:
                pass
        for n, z in T.ENC_FULL.bools.items():
            try:
                v = zm.eval(z)
                if z3.is_true(v) or z3.is_false(v):
                    out[n] = z3.is_true(v)
            except Exception:
                pass
        return out

    def full_check(self):
        t = time.time()
        s = self.nl_solver(self.pc, None, rlimit=4000000)
        s.set('timeout', 2500)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.eng.stats.solver_s += time.time() - t
        return r

    def cvc5(self, pcs, sb):
        s = self.nl_solver(pcs, sb)
        return run_cvc5(s, 8000 if self.eng.tier == 'quick' else 60000,
                        self.eng)


_LINKS = {}


def linear(sb):
    """Whether a condition is linear over the atoms."""
    r = LINEAR.get(sb)
    if r is None:
        r = LINEAR[sb] = all(
            sum(abs(x) for _, x in m) <= 1 and all(x > 0 for _, x in m)
            for p in sb.polys() for m in p.t)
    return r


LINEAR = {}


def int_links(sbs):
    groups = {}
    for sb in sbs:
        for p in sb.polys():
            it, rest = {}, {}
            for m, c in p.t.items():
                if len(m) == 1 and m[0][1] == 1 and \
                        T.ATOMS[m[0][0]].sort == 'int':
                    it[m] = c
                elif m:
                    rest[m] = c
            if not it or not rest:
                continue
            lead = rest[min(rest)]
            key = tuple(sorted((m, c / lead) for m, c in rest.items()))
            groups.setdefault(key, set()).add(
                tuple(sorted((m, c / lead) for m, c in it.items())))
    out = []
    for forms in groups.values():
        forms = sorted(forms)
        if len(forms) > 8:
            continue
        for i, a in enumerate(forms):
            for b in forms[i + 1:]:
                d = dict(a)
                for m, c in b:
                    d[m] = d.get(m, 0) - c
                d = {m: c for m, c in d.items() if c}
                if len(d) < 2:
                    continue
                num = den = 0
                import math
                for c in d.values():
                    num = math.gcd(num, c.numerator)
                    den = c.denominator if not den else math.lcm(
                        den, c.denominator)
                g = T.F(num, den)
                key = tuple(sorted((m, c / g) for m, c in d.items()))
                if any(c.denominator != 1 for _, c in key):
                    continue
                if key not in _LINKS:
                    k = z3.Int('gap!%d' % len(_LINKS))
                    _LINKS[key] = z3.ToReal(k) == T.ENC_LIN.poly(
                        T.P(dict(key)))
                out.append(_LINKS[key])
    return out[:60]


def run_cvc5(s, ms, eng):
    try:
        import cvc5
    except ImportError:
        return False
    t = time.time()
    try:
        txt = '(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n'
        tm = cvc5.TermManager()
        sol = cvc5.Solver(tm)
        sol.setOption('tlimit-per', str(ms))
        sol.setOption('nl-ext-tplanes', 'true')
        p = cvc5.InputParser(sol)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        res = ''
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            res += str(c.invoke(sol, sm))
        ok = 'unsat' in res
    except Exception:
        ok = False
    eng.stats.solver_s += time.time() - t
    return ok


def z3_float(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(15).as_fraction())
    return None


ENG = [None]


def eng():
    return ENG[0]
