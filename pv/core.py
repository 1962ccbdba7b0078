"""Path exploration, obligations and the solver of the deductive verifier.

One `Ctx` explores one contract: the real function is interpreted on symbolic
values; every symbolic decision is taken by replaying a decision trail (depth
first), so that all paths are covered.  `prove` generates an obligation
"path condition => goal" and discharges it.
"""
import time
import z3


class PathEnd(BaseException):
    """This path is finished (a cut point was reached or it is infeasible)."""


class Unsupported(BaseException):
    """The code under verification left the supported subset."""


class Diverged(Unsupported):
    pass


class Restart(BaseException):
    """A candidate invariant was dropped, or a frame grew: start again."""


class _Decision(object):
    __slots__ = ('n', 'pos', 'label', 'values')

    def __init__(self, n, label, values=None):
        self.n, self.pos, self.label, self.values = n, 0, label, values


CUR = [None]


def ctx():
    return CUR[0]


class Ctx(object):
    """Explorer of all the paths of one verification task."""

    def __init__(self, name, timeout_ms=8000, max_paths=40000, deadline=None):
        self.name = name
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.picking = False       # an example is looked for
        self.undo = None
        self.unsupported = []      # (why, in the step of a loop)
        self.counts = {}           # obligation name -> {verdict: n}
        self.failures = []
        self.paths = 0
        self.solver_s = 0.0
        self.queries = 0
        self.persist = {}          # kept over paths (loop candidates, frames)
        self.quiet = 0             # >0: no obligations are recorded
        self.reached = set()       # labels of reached points (vacuity guard)
        self.assumed = set()       # contracts and models relied upon
        self.inlined = set()       # functions of the code that were executed
        self.stubbed = set()       # functions replaced by their contract
        self.passes = 0

    # -- exploration ---------------------------------------------------
    def reset_path(self):
        self.cursor = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.names = {}
        self.log = []
        self.cache = {}
        self.approx = []           # decisions that were over-approximated
        self.syms = []             # symbols of this path, for concretisation
        self.events = []           # what was done to abstract objects

    def explore(self, thunk):
        """Run thunk on every path, again from the start after a Restart."""
        prev = CUR[0]
        CUR[0] = self
        resume = []
        try:
            while True:
                self.passes += 1
                if self.passes > 400:
                    raise Unsupported('no fix point of the invariants')
                self.counts, self.failures, self.paths = {}, [], 0
                self.unsupported = []
                self.reached, self.assumed = set(), set()
                self.inlined, self.stubbed = set(), set()
                try:
                    self._explore(thunk, resume)
                    if not resume:
                        return
                    resume = []          # now all of it, undisturbed
                except Restart:
                    # go on where it happened before it all starts again
                    resume = self.trail[:self.cursor]
                except Diverged:
                    if not resume:
                        raise
                    resume = []
        finally:
            CUR[0] = prev

    def _explore(self, thunk, start=()):
        self.trail = list(start)
        while True:
            self.reset_path()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('too many paths')
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('out of time')
            try:
                thunk()
            except PathEnd:
                pass
            except Diverged:
                raise
            except Unsupported as e:
                # the other paths; refutations count when this one was not
                # part of the proof of a loop invariant
                self.unsupported.append((str(e), bool(
                    self.cache.get('in_step') or self.quiet)))
                if self.quiet or len(self.unsupported) > 20:
                    raise
            except RecursionError:
                raise
            except Exception as e:
                # an exception the contract does not mention: undecided, as
                # the precondition may be wider than what callers do
                if self.quiet or len(self.unsupported) > 20:
                    raise
                self.unsupported.append(('engine: %r' % (e,), bool(
                    self.cache.get('in_step'))))
            while self.trail and self.trail[-1].pos + 1 >= self.trail[-1].n:
                self.trail.pop()
            if not self.trail:
                return
            self.trail[-1].pos += 1

    def fresh(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return '%s!%d' % (base, n) if n else base

    def choose(self, n, label):
        """Nondeterministic choice 0..n-1, every option is explored."""
        if n <= 0:
            raise PathEnd()
        if n == 1 or self.picking:
            return 0
        if self.cursor < len(self.trail):
            d = self.trail[self.cursor]
            if d.n != n or d.label != label:
                raise Diverged('replay diverged at %s' % label)
        else:
            d = _Decision(n, label)
            self.trail.append(d)
        self.cursor += 1
        self.log.append('%s: %d/%d' % (label, d.pos, n))
        return d.pos

    # -- solver --------------------------------------------------------
    def check(self, *extra, **kw):
        t = time.time()
        self.queries += 1
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        m = self.solver.model() if kw and r == z3.sat else None
        self.solver.pop()
        self.solver_s += time.time() - t
        return r, m

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        self.solver.add(cond)

    def feasible(self):
        return self.check()[0] != z3.unsat

    def branch(self, cond, label=None):
        """Decide a z3 condition, both ways when both are feasible."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        label = label or 'if'
        if self.picking:
            if self.check(cond)[0] == z3.sat:
                self.solver.add(cond)
                return True
            self.solver.add(z3.Not(cond))
            return False
        if self.cursor < len(self.trail):
            d = self.trail[self.cursor]
            if d.label != label or d.values is None:
                raise Diverged('replay diverged at %s' % label)
        else:
            t = self.check(cond)[0] != z3.unsat
            f = self.check(z3.Not(cond))[0] != z3.unsat
            options = [v for v, ok in ((True, t), (False, f)) if ok]
            if not options:
                raise PathEnd()
            d = _Decision(len(options), label, options)
            self.trail.append(d)
        value = d.values[d.pos]
        self.cursor += 1
        c = cond if value else z3.Not(cond)
        self.solver.add(c)
        if d.n > 1:
            s = str(c)
            self.log.append(s if len(s) < 120 else s[:117] + '...')
        return value

    def entails(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        return self.check(z3.Not(cond))[0] == z3.unsat

    # -- obligations -----------------------------------------------------
    def record(self, name, verdict, detail=''):
        """verdict: proved | refuted | unknown"""
        if self.quiet:
            return
        if verdict == 'refuted' and (self.approx or not self.feasible()):
            if self.approx:
                verdict = 'unknown'
                detail += ' (over-approximated: %s)' % self.approx[:3]
            else:
                raise PathEnd()
        d = self.counts.setdefault(name, {})
        d[verdict] = d.get(verdict, 0) + 1
        if verdict != 'proved' and len(self.failures) < 12:
            self.failures.append({
                'name': name, 'verdict': verdict, 'detail': detail[:1500],
                'path': self.log[-40:],
                'cut': bool(self.cache.get('cut'))})

    def prove(self, goal, name, detail=''):
        """goal: bool | z3 BoolRef | None (undecided by the engine)."""
        if goal is None:
            self.record(name, 'unknown', detail)
            return False
        if isinstance(goal, bool):
            self.record(name, 'proved' if goal else 'refuted', detail)
            return goal
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.record(name, 'proved')
            return True
        r, m = self.check(z3.Not(g), model=True)
        if r == z3.unsat:
            self.record(name, 'proved')
            return True
        if r == z3.sat:
            self.record(name, 'refuted', '%s\ngoal: %s\nmodel: %s' % (
                detail, str(g)[:600], str(m)[:600]))
        else:
            self.record(name, 'unknown', detail + ' z3: unknown')
        return False

    def reach(self, label):
        """Vacuity guard: this point is reachable (the path is satisfiable)."""
        if label not in self.reached and self.feasible():
            self.reached.add(label)
