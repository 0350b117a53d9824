"""Path-exploring symbolic execution core (z3).

A harness is an ordinary Python function.  Symbolic inputs are proxy objects
(sx.vals) around z3 terms; whenever the code under test needs a concrete truth
value the proxy calls Ctx.decide, which asks the solver which outcomes are
feasible under the current path condition and forks.  Exploration is depth
first by deterministic re-execution of the harness with a recorded decision
prefix; the incremental solver keeps the assertions of the shared prefix.
"""
import math
import time
from fractions import Fraction

import sys

import z3

sys.set_int_max_str_digits(0)


class Abort(BaseException):
    """The current path ends (assumption not satisfiable, budget spent)."""


class Budget(BaseException):
    """Exploration budget exhausted."""


class Entry:
    __slots__ = ('cond', 'taken', 'alt', 'level', 'value')

    def __init__(self, cond, taken, alt, level, value=None):
        self.cond = cond
        self.taken = taken
        self.alt = alt
        self.level = level
        self.value = value


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.unknown_feas = 0
        self.unknown_obl = 0
        self.concretised = {}
        self.truncated = False
        self.functions = set()
        self.reached = {}


CUR = None        # current Ctx


def cur():
    return CUR


def to_py(v):
    """z3 value -> python int / Fraction / bool / str"""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_fp_value(v):
        if v.isNaN():
            return float('nan')
        if v.isInf():
            return float('-inf') if v.isNegative() else float('inf')
        r = z3.simplify(z3.fpToReal(v))
        f = float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
        if f == 0 and v.isNegative():
            f = -0.0
        return f
    if z3.is_string_value(v):
        return v.as_string()
    raise ValueError(f'no python value for {v}')


class Ctx:
    def __init__(self, seed=1, timeout_ms=10000, max_paths=20000, deadline=None,
                 obl_timeout_ms=30000, witness_limit=60):
        self.stats = Stats()
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.solver.set('random_seed', seed)
        self.timeout_ms = timeout_ms
        self.obl_timeout_ms = obl_timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.trace = []
        self.pos = 0
        self.level = 0
        self.model = None
        self.fresh_no = 0
        self.entailed = {}
        self.known = {}           # ast id -> (ast, truth) decided on this path
        self.angles = {}          # name -> (sine, cosine, unit, lo, hi)
        self.inputs = {}          # name -> z3 term(s) for the current path
        self.cex = []             # counterexamples
        self.witnesses = []
        self.witness_limit = witness_limit
        self.undecided = []
        self.max_cex = 12
        self.path_notes = []
        self.memo = {}
        self.on_path_start = []

    # -- solver helpers ----------------------------------------------------
    def _check(self, *assump):
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*assump)
        self.stats.solver_s += time.time() - t
        return r

    @property
    def live(self):
        return self.pos >= len(self.trace)

    def add(self, c):
        """Assert an axiom/assumption known to keep the path satisfiable."""
        if not self.live:
            return
        self.solver.add(c)
        if self.model is not None:
            if not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise Abort('infeasible')
            else:
                self.stats.unknown_feas += 1
                return None
        return self.model

    def fresh(self, prefix, sort='int'):
        self.fresh_no += 1
        n = f'{prefix}!{self.fresh_no}'
        if sort == 'int':
            return z3.Int(n)
        if sort == 'real':
            return z3.Real(n)
        if sort == 'bool':
            return z3.Bool(n)
        raise ValueError(sort)

    # -- decisions -----------------------------------------------------------
    def _time(self):
        if self.deadline and time.time() > self.deadline:
            self.stats.truncated = True
            raise Budget()

    def _push_entry(self, cond, taken, alt, value=None):
        e = Entry(cond, taken, alt, self.level, value)
        if alt or alt is None:
            self.solver.push()
            self.level += 1
            self.solver.add(cond if taken else z3.Not(cond))
        self.trace.append(e)
        self.pos += 1

    def decide(self, cond):
        """Return True/False for z3 Bool `cond`, forking when both feasible."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        hit = self.known.get(c.get_id())
        if hit is not None:
            return hit[1]
        taken = self._decide(c)
        self.known[c.get_id()] = (c, taken)
        return taken

    def _decide(self, c):
        if not self.live:
            e = self.trace[self.pos]
            self.pos += 1
            return e.taken
        self._time()
        m = self.get_model()
        if m is not None:
            v = z3.is_true(m.eval(c, model_completion=True))
            other = z3.Not(c) if v else c
            r = self._check(other)
            if r == z3.unsat:
                self._push_entry(c, v, False)
                return v
            if r == z3.unknown:
                self.stats.unknown_feas += 1
            self.stats.forks += 1
            self._push_entry(c, v, True)
            return v
        # no model known (solver gave up): keep both branches
        rt = self._check(c)
        if rt == z3.unsat:
            self._push_entry(c, False, False)
            return False
        if rt == z3.sat:
            self.model = self.solver.model()
        rf = self._check(z3.Not(c))
        if rf == z3.unsat:
            self._push_entry(c, True, False)
            return True
        self.stats.forks += 1
        self._push_entry(c, True, True)
        return True

    def entails(self, cond):
        """Does the path so far imply cond?  (no fork; the answer is kept so
        that re-executed prefixes see the same one)"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        hit = self.entailed.get(c.get_id())
        if hit is not None:
            return hit[1]
        if not self.live:
            e = self.trace[self.pos]
            self.pos += 1
            v = e.taken
        else:
            self._time()
            if self.model is not None and z3.is_false(self.model.eval(c, model_completion=True)):
                v = False
            else:
                v = self._check(z3.Not(c)) == z3.unsat
            self.trace.append(Entry(c, v, False, self.level, None))
            self.pos += 1
        self.entailed[c.get_id()] = (c, v)
        return v

    def concretize(self, expr, why, exhaustive=True, limit=4096):
        """Concrete python value for a term, forking value/other values."""
        e = z3.simplify(expr)
        try:
            return to_py(e)
        except ValueError:
            pass
        n = 0
        while True:
            n += 1
            if not self.live:
                ent = self.trace[self.pos]
                self.pos += 1
                if ent.taken:
                    return ent.value
                continue
            self._time()
            m = self.get_model()
            if m is None:
                raise Abort('no model to concretise with')
            v = m.eval(e, model_completion=True)
            pv = to_py(v)
            c = e == v
            r = self._check(z3.Not(c))
            if r == z3.unsat:
                self._push_entry(c, True, False, pv)
                return pv
            if not exhaustive or n > limit:
                self.stats.concretised[why] = self.stats.concretised.get(why, 0) + 1
                self._push_entry(c, True, None, pv)
                return pv
            self.stats.forks += 1
            self._push_entry(c, True, True, pv)
            return pv

    def assume(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Abort('assumption false')
        if not self.live:
            return
        self.solver.add(c)
        if self.model is not None and \
                not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Abort('assumption infeasible')
            if r == z3.sat:
                self.model = self.solver.model()

    # -- obligations ---------------------------------------------------------
    def solve_hard(self, extra):
        """A query the incremental solver gave up on: other back ends."""
        asserts = list(self.solver.assertions()) + list(extra)
        for mk in (lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs',
                                   'elim-uncnstr', 'simplify', 'qfnra-nlsat').solver(),
                   lambda: z3.SolverFor('QF_NRA'),
                   lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver()):
            s = mk()
            s.set('timeout', self.obl_timeout_ms)
            s.add(asserts)
            t = time.time()
            self.stats.queries += 1
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            self.stats.solver_s += time.time() - t
            if r == z3.unsat:
                return r, None
            if r == z3.sat:
                try:
                    return r, s.model()
                except z3.Z3Exception:
                    return z3.unknown, None
        return z3.unknown, None

    def prove(self, cond, msg):
        """Obligation: cond holds on this path for every input."""
        if not self.live:
            # re-executed prefix: this obligation was decided on an earlier path
            return
        self.stats.obligations += 1
        c = z3.simplify(cond)
        if z3.is_true(c):
            self.stats.discharged += 1
            self.stats.trivial += 1
            return
        neg = z3.Not(c)
        m = None
        if z3.is_false(c):
            m = self.get_model()
            r = z3.sat if m is not None else z3.unknown
        else:
            if self.model is not None and z3.is_false(self.model.eval(c, model_completion=True)):
                r, m = z3.sat, self.model
            else:
                r = self._check(neg)
                if r == z3.sat:
                    m = self.solver.model()
                elif r == z3.unknown:
                    r, m = self.solve_hard([neg])
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        if r == z3.unknown:
            self.stats.unknown_obl += 1
            self.undecided.append(msg)
            return
        self.add_cex(m, msg)
        # look for further, different counterexamples (real/float boundary)
        if len(self.cex) < self.max_cex:
            self.more_cex(neg, m, msg)
        if len(self.cex) >= self.max_cex:
            raise Budget()
        # continue under the assumption that it held
        self.assume(cond)

    def more_cex(self, neg, m, msg, k=3):
        self.solver.push()
        try:
            self.solver.add(neg)
            for _ in range(k):
                diff = []
                for t in self.inputs.values():
                    for term in (t if isinstance(t, list) else [t]):
                        if not z3.is_expr(term):
                            continue
                        v = m.eval(term, model_completion=True)
                        if z3.is_arith(term):
                            try:
                                pv = to_py(v)
                            except ValueError:
                                continue
                            diff.append(z3.Or(term > v + 1, term < v - 1)
                                        if not isinstance(pv, float) else term != v)
                        else:
                            diff.append(term != v)
                if not diff:
                    return
                self.solver.add(z3.Or(diff))
                if self._check() != z3.sat:
                    return
                m = self.solver.model()
                self.add_cex(m, msg)
        finally:
            self.solver.pop()

    def add_cex(self, m, msg):
        self.cex.append({'inputs': self.inputs_of(m), 'msg': msg})

    def fail_path(self, msg):
        """The whole path is a violation (e.g. unexpected exception)."""
        self.stats.obligations += 1
        m = self.get_model()
        if m is None:
            r, m = self.solve_hard([])
            if m is None:
                if r == z3.unsat:
                    raise Abort('infeasible')
                self.stats.unknown_obl += 1
                self.undecided.append(msg)
                return
        self.add_cex(m, msg)
        if len(self.cex) >= self.max_cex:
            raise Budget()

    def inputs_of(self, m):
        out = {}
        for k, t in self.inputs.items():
            out[k] = self._ser(t, m)
            if k in self.angles:
                out[k] = self._angle(m, *self.angles[k], out[k])
        return out

    def _angle(self, m, s, c, unit, lo, hi, v):
        """the angle whose sine and cosine the model chose"""
        try:
            s, c = (float(to_py(m.eval(x, model_completion=True))) for x in (s, c))
            a = math.atan2(s, c) * unit / math.pi
        except (ValueError, TypeError):
            return v
        cands = [a + 2 * unit * k for k in (0, 1, -1, 2, -2)]
        cands = [x for x in cands if float(lo) - 1e-9 <= x <= float(hi) + 1e-9]
        if not cands:
            return v
        q = Fraction(min(max(cands[0], float(lo)), float(hi)))
        return {'q': f'{q.numerator}/{q.denominator}'}

    def _ser(self, t, m):
        if isinstance(t, list):
            return [self._ser(x, m) for x in t]
        if not z3.is_expr(t):
            return t
        v = to_py(m.eval(t, model_completion=True))
        if isinstance(v, Fraction):
            return {'q': f'{v.numerator}/{v.denominator}'}
        return v

    # -- exploration ---------------------------------------------------------
    def explore(self, fn):
        """fn() -> None executed once per feasible path."""
        global CUR
        CUR = self
        try:
            first = True
            while True:
                if not first:
                    if not self._backtrack():
                        break
                first = False
                self.pos = 0
                self.fresh_no = 0
                self.known = {}
                self.entailed = {}
                self.inputs = {}
                self.angles = {}
                self.path_notes = []
                self.memo = {}
                for h in self.on_path_start:
                    h()
                done = False
                try:
                    fn()
                    done = True
                except Abort:
                    self.stats.aborted += 1
                except Budget:
                    self.stats.paths += 1
                    break
                self.stats.paths += 1
                if done:
                    self._witness()
                if self.stats.paths >= self.max_paths:
                    self.stats.truncated = True
                    break
        finally:
            CUR = None

    def _witness(self):
        if len(self.witnesses) < self.witness_limit or \
                self.stats.paths % 37 == 0 and len(self.witnesses) < 4 * self.witness_limit:
            try:
                m = self.get_model()
            except Abort:
                return
            if m is not None:
                self.witnesses.append(self.inputs_of(m))

    def _backtrack(self):
        while self.trace:
            e = self.trace.pop()
            if e.alt or e.alt is None:
                n = self.level - e.level
                if n:
                    self.solver.pop(n)
                    self.level = e.level
            if e.alt:
                taken = not e.taken
                self.solver.push()
                self.level += 1
                self.solver.add(e.cond if taken else z3.Not(e.cond))
                self.trace.append(Entry(e.cond, taken, None, e.level, e.value))
                self.model = None
                return True
        return False
