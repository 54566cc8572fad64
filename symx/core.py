"""Path-exploring symbolic executor: decisions, solver frames, obligations.

One `Engine` explores one harness. The harness (and the instrumented code it calls) runs natively;
whenever it branches on a symbolic condition, `decide` asks the solver which outcomes are feasible,
takes one and leaves the other for a later re-execution. Every path's condition is kept in an
incremental z3 solver, one frame per decision. `prove` discharges an obligation under the current
path condition for every value of the symbolic inputs, or yields a model.
"""
import signal
import time
import z3


class EngineSignal(BaseException):
    """Never caught by the code under test (see instrument.visit_ExceptHandler)."""


class PathEnd(EngineSignal):
    pass


class Unsupported(EngineSignal):
    pass


class Budget(EngineSignal):
    pass


class Hang(EngineSignal):
    pass


PATH_SECONDS = 60.0


def _alarm(*_):
    raise Hang()


class Entry(object):
    __slots__ = ('expr', 'value', 'alt', 'altmodel', 'pushed')


WATCH = False       # set in the workers: limits the time of one path


def watch():
    global WATCH
    WATCH = True
    signal.signal(signal.SIGALRM, _alarm)


CUR = None          # the engine of the exploration in progress


def cur():
    return CUR


class Engine(object):
    def __init__(self, budget_s=60.0, max_paths=100000, query_ms=20000):
        self.solver = z3.SolverFor('QF_FD') if False else z3.Solver()
        self.solver.set('timeout', query_ms)
        self.deadline = time.time() + budget_s
        self.max_paths = max_paths
        self.trail = []
        self.pos = 0
        self.model = None
        self.nvars = 0
        self.inputs = []            # [(name, kind, term(s))] of the current path
        self.stats = dict(paths=0, decisions=0, queries=0, solver_s=0.0, obligations=0,
                          by_solver=0, by_simplifier=0, unknown=0, unsupported=0, infeasible=0)
        self.cex = []               # [(label, inputs)]
        self.probes = []            # inputs of paths the engine could not follow to the end
        self.sample = None
        self.reached = {}
        self.notes = {}
        self.any_symkey = False
        self.resolved = {}
        self.keep = []
        self.keep_cache = {}
        self.open_stub = None
        self.complete = False
        self.slowest = 0.0
        self.path_obl = 0
        self.reset = None           # called before every path

    # -- variables -----------------------------------------------------------------
    def fresh(self, name, sort):
        self.nvars += 1
        return z3.Const('%s!%d' % (name, self.nvars), sort)

    # -- solver --------------------------------------------------------------------
    def _check(self, *extra):
        if time.time() > self.deadline:
            raise Budget('time')
        t = time.time()
        s = self.solver
        if extra:
            s.push()
            s.add(*extra)
        r = s.check()
        m = s.model() if r == z3.sat else None
        if extra:
            s.pop()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r, m

    def _eval(self, e):
        if self.model is None:
            r, m = self._check()
            if r != z3.sat:
                return None
            self.model = m
        v = self.model.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _push(self, entry, e):
        self.solver.push()
        self.solver.add(e)
        entry.pushed = True

    def decide(self, e):
        """Outcome of symbolic condition `e` on this path (forking if both are feasible)."""
        if e is True or e is False:
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.trail):
            en = self.trail[self.pos]
            if not en.expr.eq(e):
                raise Unsupported('non-deterministic re-execution: %s / %s' % (en.expr, e))
            self.pos += 1
            return en.value
        self.stats['decisions'] += 1
        en = Entry()
        en.expr, en.alt, en.altmodel, en.pushed = e, False, None, False
        mv = self._eval(e)
        if mv is None:
            mv = True
            r, m = self._check(e)
            if r == z3.unsat:
                mv = False
            elif m is not None:
                self.model = m
        r, m = self._check(z3.Not(e) if mv else e)
        if r == z3.unsat:
            en.value = mv               # implied: nothing to add
        else:
            en.value, en.alt, en.altmodel = mv, True, m
            self._push(en, e if mv else z3.Not(e))
        self.trail.append(en)
        self.pos += 1
        return en.value

    def assume(self, e):
        if e is True:
            return
        if e is False:
            self.stats['infeasible'] += 1
            raise PathEnd()
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            self.stats['infeasible'] += 1
            raise PathEnd()
        if self.pos < len(self.trail):
            en = self.trail[self.pos]
            if not en.expr.eq(e):
                raise Unsupported('non-deterministic re-execution (assume)')
            self.pos += 1
            if not en.value:
                raise PathEnd()
            return
        en = Entry()
        en.expr, en.alt, en.altmodel, en.pushed, en.value = e, False, None, False, True
        mv = self._eval(e) if self.model is not None else None
        self._push(en, e)
        self.trail.append(en)
        self.pos += 1
        if mv is not True:
            r, m = self._check()
            self.model = m
            if r == z3.unsat:
                en.value = False
                self.stats['infeasible'] += 1
                raise PathEnd()

    # -- obligations ---------------------------------------------------------------
    def prove(self, e, label):
        """Record the obligation pc => e."""
        self.stats['obligations'] += 1
        self.path_obl += 1
        if e is True:
            self.stats['by_simplifier'] += 1
            return True
        if e is not False:
            e = z3.simplify(e)
            if z3.is_true(e):
                self.stats['by_simplifier'] += 1
                return True
            ne = z3.Not(e)
        if e is False or z3.is_false(e):
            r, m = self._check()
        else:
            r, m = self._check(ne)
        if r == z3.unsat:
            self.stats['by_solver'] += 1
            return True
        if r == z3.unknown:
            self.note('obligation unknown: %s' % label)
            return True
        self.cex.append((label, self.concretise(m)))
        raise PathEnd()

    def feasible_model(self):
        r, m = self._check()
        return m if r == z3.sat else None

    def concretise(self, m):
        out = {}
        for name, kind, term in self.inputs:
            out[name] = concrete(m, kind, term)
        return out

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    # -- exploration ---------------------------------------------------------------
    def _next(self):
        while self.trail and not self.trail[-1].alt:
            en = self.trail.pop()
            if en.pushed:
                self.solver.pop()
        if not self.trail:
            return False
        en = self.trail[-1]
        self.solver.pop()
        en.value = not en.value
        en.alt = False
        self.solver.push()
        self.solver.add(en.expr if en.value else z3.Not(en.expr))
        en.pushed = True
        self.model = en.altmodel
        en.altmodel = None
        return True

    def explore(self, fn, max_cex=1):
        """Run `fn()` over every feasible path (within the budgets)."""
        global CUR
        prev, CUR = CUR, self
        try:
            while True:
                self.pos = 0
                self.nvars = 0
                self.inputs = []
                self.resolved = {}
                self.keep = []
                self.keep_cache = {}
                self.any_symkey = False
                self.path_obl = 0
                self.stats['paths'] += 1
                if self.reset is not None:
                    self.reset()
                t0 = time.time()
                try:
                    if WATCH:
                        signal.setitimer(signal.ITIMER_REAL, PATH_SECONDS)
                    fn()
                    if WATCH:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                except PathEnd:
                    pass
                except Hang:
                    self.stats['obligations'] += 1
                    m = self.feasible_model()
                    if m is not None:
                        self.cex.append(('no end within %d s' % PATH_SECONDS, self.concretise(m)))
                    return
                except Unsupported as ex:
                    self._unsupported(str(ex))
                except Budget as ex:
                    self.note('budget: %s' % (ex,))
                    return
                except Exception as ex:      # uncaught exception of the code or the harness
                    if isinstance(ex, (TypeError, AttributeError)) and 'Sym' in str(ex):
                        self._unsupported('operation on a symbolic value: %s' % (ex,))
                    else:
                        self._exc(ex)
                if time.time() - t0 > self.slowest:
                    self.slowest = time.time() - t0
                if self.sample is None and self.path_obl and self.inputs:
                    m = self.model or self.feasible_model()
                    if m is not None:
                        self.sample = self.concretise(m)
                if len(self.cex) >= max_cex:
                    return
                if self.stats['paths'] >= self.max_paths:
                    self.note('budget: paths')
                    return
                if time.time() > self.deadline:
                    self.note('budget: time')
                    return
                if not self._next():
                    self.complete = True
                    return
        except Budget as ex:
            self.note('budget: %s' % (ex,))
        finally:
            if WATCH:
                signal.setitimer(signal.ITIMER_REAL, 0)
            CUR = prev

    def _unsupported(self, why):
        self.stats['unsupported'] += 1
        self.note('unsupported: %s' % why)
        if len(self.probes) < 4:
            try:
                m = self.feasible_model()
            except Budget:
                m = None
            if m is not None:
                self.probes.append(('unsupported path', self.concretise(m)))

    def _exc(self, ex):
        import traceback
        m = self.feasible_model()
        if m is None:
            self.note('exception on a path of unknown feasibility: %r' % (ex,))
            return
        tb = traceback.extract_tb(ex.__traceback__)
        where = '; '.join('%s:%d' % (f.filename.replace('/repo/', ''), f.lineno) for f in tb[-3:])
        self.stats['obligations'] += 1
        self.cex.append(('uncaught %s: %s [%s]' % (type(ex).__name__, str(ex)[:120], where), self.concretise(m)))


def concrete(m, kind, term):
    if kind == 'const':
        return term
    if kind == 'bool':
        return z3.is_true(m.eval(term, model_completion=True))
    if kind == 'int':
        return m.eval(term, model_completion=True).as_long()
    if kind == 'bv':
        return m.eval(term, model_completion=True).as_long()
    if kind == 'float':
        v = m.eval(term, model_completion=True)
        return {'float': fp_repr(v)}
    if kind == 'str':
        return {'str': [t if isinstance(t, int) else m.eval(t, model_completion=True).as_long() for t in term]}
    raise ValueError(kind)


def fp_repr(v):
    import struct
    if z3.is_fp_value(v) and not v.isNaN():
        bits = (int(v.sign()) << 63) | (v.exponent_as_long(True) << 52) | v.significand_as_long()
        return repr(struct.unpack('>d', struct.pack('>Q', bits))[0])
    return 'nan'
