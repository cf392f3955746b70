"""Path exploration: one z3 solver, depth-first by re-execution.

A harness is a Python function that obtains its inputs from an environment
and runs the (rewritten) source of /repo.  Every branch on a symbolic value
ends up in Engine.decide, which asks z3 which sides are feasible under the
path condition and explores both.  Engine.check asks z3 whether the negation
of a claim is satisfiable under the path condition.
"""
import time
import z3

ENG = None            # the active engine, or None in concrete mode


class Control(BaseException):
    """Path steering; never caught by the code under test."""


class PathInfeasible(Control):
    pass


class PathCut(Control):
    """The path left the bounds of the encoding (counted, never hidden)."""


class Unsupported(Control):
    pass


class OutOfTime(Control):
    pass


class FoundViolation(Control):
    def __init__(self, msg, inputs):
        self.msg, self.inputs = msg, inputs


class Nondeterminism(Control):
    pass


BV = z3.BoolVal


class Decision(object):
    __slots__ = ('cond', 'outcome', 'alt', 'pushed', 'value')

    def __init__(self, cond, outcome, alt, pushed, value=None):
        self.cond, self.outcome, self.alt = cond, outcome, alt
        self.pushed, self.value = pushed, value


class Engine(object):

    def __init__(self, deadline=None, max_paths=None, query_ms=20000):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_ms)
        self.trail = []
        self.pos = 0
        self.known = {}
        self.keep = []
        self.model = None
        self.inputs = {}        # name -> (kind, payload)
        self.assumed = []       # assumptions of the current path
        self.deadline = deadline
        self.max_paths = max_paths
        self.stats = dict(paths=0, decisions=0, queries=0, solver_s=0.0,
                          checks=0, discharged=0, concrete_checks=0,
                          infeasible=0, cut=0, unsupported=0, realised=0,
                          unknown=0, bounded_realise=0)
        self.notes = []
        self.functions = set()
        self.depth = 0
        self.declared = {}      # name -> solver depth of its domain constraint

    def declare(self, name, kind, var, constraint=None):
        if name in self.inputs:
            raise AssertionError('duplicate input ' + name)
        self.inputs[name] = (kind, var)
        if constraint is None or name in self.declared:
            return
        self.solver.add(constraint)
        self.declared[name] = self.depth
        if self._eval(constraint) is not True:
            self.model = None

    # -- solver -----------------------------------------------------------
    def _check(self, *extra):
        t = time.time()
        self.stats['queries'] += 1
        r = self.solver.check(*extra)
        self.stats['solver_s'] += time.time() - t
        if r == z3.sat:
            self.model = self.solver.model()
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def _eval(self, cond):
        if self.model is None:
            return None
        v = self.model.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise OutOfTime()

    # -- branching --------------------------------------------------------
    def decide(self, cond, value=None):
        """Return the truth of `cond` on this path, forking when open."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = False
        while z3.is_not(cond):
            cond = cond.arg(0)
            neg = not neg
        k = cond.get_id()
        if k in self.known:
            return self.known[k] != neg
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if not d.cond.eq(cond):
                raise Nondeterminism('%s / %s' % (d.cond, cond))
            self.pos += 1
            self.known[k] = d.outcome
            return d.outcome != neg
        self.tick()
        self.stats['decisions'] += 1
        hint = self._eval(cond)
        can, models = {}, {}
        if hint is not None:
            can[hint] = True
            models[hint] = self.model
        for side in (True, False):
            if side in can:
                continue
            r = self._check(cond if side else z3.Not(cond))
            can[side] = r != z3.unsat
            models[side] = self.model if r == z3.sat else None
        if not can[True] and not can[False]:
            raise PathInfeasible()
        both = can[True] and can[False]
        outcome = can[True]
        self.model = models.get(outcome)
        d = Decision(cond, outcome, both, both, value)
        self._take(d)
        self.trail.append(d)
        self.pos += 1
        self.known[k] = outcome
        return outcome != neg

    def _take(self, d):
        if d.pushed:
            self.solver.push()
            self.depth += 1
            self.solver.add(d.cond if d.outcome else z3.Not(d.cond))

    def realise(self, expr, limit=64):
        """Pick concrete values for an integer/real/bool term, forking over
        all of them (complete when the domain is finite and <= limit)."""
        e = z3.simplify(expr)
        v = _const(e)
        if v is not None:
            return v
        key = e.get_id()
        if key in self.realised:
            return self.realised[key]
        n = 0
        while True:
            if self.pos < len(self.trail):
                d = self.trail[self.pos]
                if d.value is None:
                    raise Nondeterminism('realise')
                if not d.cond.eq(e == d.value):
                    raise Nondeterminism('realise %s / %s' % (d.cond, e))
                self.pos += 1
            else:
                self.tick()
                self.stats['decisions'] += 1
                if self.model is None:
                    if self._check() != z3.sat:
                        raise PathInfeasible()
                mod = self.model
                mv = mod.eval(e, model_completion=True)
                cond = e == mv
                both = self._check(z3.Not(cond)) != z3.unsat
                self.model = mod
                d = Decision(cond, True, both, both, mv)
                self._take(d)
                self.trail.append(d)
                self.pos += 1
            self.stats['realised'] += 1
            self.known[d.cond.get_id()] = d.outcome
            if d.outcome:
                self.realised[key] = _const(d.value)
                self.keep.append(e)
                return _const(d.value)
            n += 1
            if n >= limit:
                self.stats['bounded_realise'] += 1
                raise PathCut('realise limit on ' + str(e)[:80])

    # -- assumptions and claims ------------------------------------------
    def assume(self, cond):
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathInfeasible()
        if not self.decide(cond):
            raise PathInfeasible()

    def check(self, cond, msg):
        self.tick()
        if z3.is_true(cond):
            self.stats['concrete_checks'] += 1
            self.stats['discharged'] += 1
            self.stats['checks'] += 1
            return
        self.stats['checks'] += 1
        m = self.model
        r = self._check(z3.Not(cond))
        if r == z3.sat:
            raise FoundViolation(msg, self.extract())
        if r == z3.unknown:
            self.notes.append('unknown: ' + msg)
            return
        self.model = m
        self.stats['discharged'] += 1

    def extract(self):
        """Concrete inputs from the current model (or a fresh one)."""
        if self.model is None:
            if self._check() != z3.sat:
                return None
        out = {}
        for name, (kind, var) in self.inputs.items():
            out[name] = concretise(self.model, kind, var)
        return out

    def witness(self):
        self.model = None
        return self.extract()

    # -- driver -----------------------------------------------------------
    def begin_path(self):
        self.pos = 0
        self.known = {}
        self.realised = {}
        self.keep = []
        self.inputs = {}

    def next_path(self):
        while self.trail:
            d = self.trail[-1]
            if d.pushed:
                self.solver.pop()
                self.depth -= 1
                self.declared = {k: v for k, v in self.declared.items()
                                 if v <= self.depth}
            if d.alt:
                d.alt = False
                d.outcome = not d.outcome
                d.pushed = True
                self.solver.push()
                self.depth += 1
                self.solver.add(d.cond if d.outcome else z3.Not(d.cond))
                self.model = None
                return True
            self.trail.pop()
        return False


def _const(e):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return e.as_fraction()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_bv_value(e):
        return e.as_long()
    return None


def concretise(model, kind, var):
    if kind == 'bool':
        return bool(z3.is_true(model.eval(var, model_completion=True)))
    if kind == 'int':
        return model.eval(var, model_completion=True).as_long()
    if kind == 'float':
        nan, val = var
        if nan is not None and z3.is_true(model.eval(nan,
                                                     model_completion=True)):
            return float('nan')
        return float(model.eval(val, model_completion=True).as_fraction())
    if kind == 'str':
        return [model.eval(v, model_completion=True).as_long() for v in var]
    raise AssertionError(kind)
