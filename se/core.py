"""
Path explorer: depth-first exploration of all feasible paths of a harness by re-execution.

Every branch on a symbolic condition is decided by Z3; every assertion is a Z3 query. The solver's assertion stack
mirrors the decision trace, so a shared prefix is never re-asserted or re-solved.
"""

import os
import signal
import sys
import time

import z3

SE = os.path.dirname(os.path.abspath(__file__))
CUR = None  # the explorer that is active in this process


def cur():
    return CUR


class PathAbort(BaseException):
    "Ends the current path (infeasible, cut by a bound, or ended by a counterexample)."

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class EngineError(BaseException):
    "The engine itself misbehaved (e.g. re-execution was not deterministic)."


class Event:
    __slots__ = ("kind", "term", "val", "pending", "level", "key")

    def __init__(self, kind, term, val=None, pending=False, level=0, key=None):
        self.kind, self.term, self.val, self.pending, self.level, self.key = kind, term, val, pending, level, key


class Limits:
    def __init__(self, paths=20000, seconds=300.0, decisions=6000, query_ms=15000, path_seconds=60, ce=3, force=40, charlen=6):
        self.paths, self.seconds, self.decisions, self.query_ms = paths, seconds, decisions, query_ms
        self.path_seconds, self.ce, self.force, self.charlen = path_seconds, ce, force, charlen


class Stats:
    FIELDS = (
        "paths complete infeasible cut ended_by_ce decisions forks queries sat unsat unknown checks discharged "
        "inconclusive concretized solver_s"
    ).split()

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        return {f: (round(getattr(self, f), 3) if f == "solver_s" else getattr(self, f)) for f in self.FIELDS}


class Explorer:
    def __init__(self, fn, limits=None, on_path=None, on_ce=None, reset=None, on_cut=None):
        """
        :param fn: Harness; takes the explorer.
        :param on_path: Called with (explorer, model) when a path completes.
        :param on_ce: Called with (explorer, model, message); returns True if the counterexample is real.
        """
        self.fn = fn
        self.lim = limits or Limits()
        self.on_path, self.on_ce, self.reset, self.on_cut = on_path, on_ce, reset, on_cut
        self.st = Stats()
        self.functions = set()
        self.labels = {}
        self.constants = {}
        self.cut_reasons = {}
        self.conc_where = {}
        self.real_ces = []
        self.spurious = []
        self.exhausted = False
        self.stop_reason = None
        self.charlen = self.lim.charlen
        self.critical = self.expired = self.armed = False
        self.engine_errors = []

    # ---- solver access

    def _check(self, *assumptions):
        t = time.monotonic()
        self.st.queries += 1
        r = self.solver.check(*assumptions)
        self.st.solver_s += time.monotonic() - t
        if r == z3.sat:
            self.st.sat += 1
        elif r == z3.unsat:
            self.st.unsat += 1
        else:
            self.st.unknown += 1
        return r

    def check_with(self, term):
        "Satisfiability of the path condition together with a term; leaves the solver as it was."
        self.solver.push()
        self.solver.add(term)
        r = self._check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        return r, m

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r != z3.sat:
                raise PathAbort("infeasible" if r == z3.unsat else "unknown")
            self.model = self.solver.model()
        return self.model

    # ---- decisions

    def decide(self, t):
        "Chooses a side of a branch; explores the other side later if it is feasible."
        if t is True or t is False:
            return t
        s = z3.simplify(t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        neg = False
        if z3.is_not(s):
            s = s.arg(0)
            neg = True
        key = s.get_id()
        hit = self.known.get(key)
        if hit is not None:
            return hit[1] != neg
        i = self.pos
        self.pos += 1
        self.st.decisions += 1
        if i < len(self.trace):
            ev = self.trace[i]
            if ev.kind != "d" or not (ev.term.eq(s) or self._equivalent(ev.term, s)):
                raise EngineError(f"re-execution diverged at event {i}: {ev.kind} {ev.term} / {s}")
            val = ev.val
        else:
            if i > self.lim.decisions:
                raise PathAbort("cut: decisions per path")
            val = self._new_decision(s)
        self.known[key] = (s, val)
        return val != neg

    def decide_keyed(self, key, make):
        "Decides a term that is determined by a key; a decision that has been made is found by its key, without the term."
        i = self.pos
        if i < len(self.trace):
            ev = self.trace[i]
            if ev.kind != "d" or ev.key != key:
                raise EngineError(f"re-execution diverged at event {i}: {ev.kind} {ev.term} / {key}")
            self.pos += 1
            return ev.val
        if i > self.lim.decisions:
            raise PathAbort("cut: decisions per path")
        self.pos += 1
        self.st.decisions += 1
        return self._new_decision(make(), key)

    def _equivalent(self, a, b):
        "Terms built anew may differ in the order of arguments."
        q = z3.Solver()
        q.set("timeout", 5000)
        q.add(a != b)
        return q.check() == z3.unsat

    def decide_value(self, t):
        return self.decide(t)

    def note_concretize(self, lossy=False):
        if lossy:
            self.path_concretized += 1
            f = sys._getframe(2)
            chain = []
            while f is not None and len(chain) < 3:
                if not f.f_code.co_filename.startswith(SE):
                    chain.append(f"{os.path.basename(f.f_code.co_filename)}:{f.f_lineno}")
                f = f.f_back
            w = " < ".join(chain)
            self.conc_where[w] = self.conc_where.get(w, 0) + 1

    def _new_decision(self, s, key=None):
        self.critical = True
        try:
            return self._new_decision_(s, key)
        finally:
            self.critical = False
            self._alarm_check()

    def _alarm_check(self):
        if self.expired and self.armed:
            raise PathAbort("cut: time per path")

    def _new_decision_(self, s, key):
        first = None
        if self.model is not None:
            v = self.model.eval(s, model_completion=True)
            if z3.is_true(v):
                first = True
            elif z3.is_false(v):
                first = False
        if first is None:
            r, m = self.check_with(s)
            if r == z3.unsat:
                self.trace.append(Event("d", s, False, False, self.level, key))
                return False
            first = True
            self.model = m
        self.solver.push()
        self.level += 1
        self.solver.add(s if first else z3.Not(s))
        self.trace.append(Event("d", s, first, True, self.level, key))
        self.st.forks += 1
        return first

    def assume(self, t):
        "Restricts the path to inputs satisfying the term."
        if t is True:
            return
        if t is False:
            raise PathAbort("infeasible")
        i = self.pos
        self.pos += 1
        if i < len(self.trace):
            if self.trace[i].kind != "a":
                raise EngineError("re-execution diverged at an assumption")
            return
        self.critical = True
        self.solver.add(t)
        self.trace.append(Event("a", t))
        self.critical = False
        self._alarm_check()
        if self.model is not None and z3.is_true(self.model.eval(t, model_completion=True)):
            return
        r = self._check()
        if r == z3.unsat:
            raise PathAbort("infeasible")
        self.model = self.solver.model() if r == z3.sat else None

    def verify(self, t, msg):
        "Asserts that a term holds for every input that follows this path."
        i = self.pos
        self.pos += 1
        if i < len(self.trace):
            if self.trace[i].kind != "c":
                raise EngineError("re-execution diverged at an assertion")
            return
        self.st.checks += 1
        if t is True:
            # the branch conditions already on the path decide the assertion (each one a solver verdict)
            self.st.discharged += 1
        elif t is False:
            self.trace.append(Event("c", None))
            self.counterexample(self.get_model(), msg)
            return
        else:
            s = z3.simplify(t)
            if z3.is_true(s):
                self.st.discharged += 1
            else:
                r, m = self.check_with(z3.Not(s))
                if r == z3.sat:
                    self.trace.append(Event("c", None))
                    self.counterexample(m, msg, z3.Not(s))
                    return
                if r == z3.unsat:
                    self.st.discharged += 1
                else:
                    self.st.inconclusive += 1
        self.trace.append(Event("c", None))

    def counterexample(self, model, msg, extra=None):
        self.armed = False
        real = self.on_ce(self, model, msg, extra) if self.on_ce else True
        if real:
            self.real_ces.append(msg)
        else:
            self.spurious.append(msg)
        self.st.ended_by_ce += 1
        raise PathAbort("ce")

    # ---- naming

    def fresh(self, prefix, sort):
        k = self.counter.get(prefix, 0)
        self.counter[prefix] = k + 1
        return z3.Const(f"{prefix}!{k}", sort)

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    # ---- exploration

    def run(self):
        global CUR
        CUR = self
        self.solver = z3.Solver()
        self.solver.set("timeout", self.lim.query_ms)
        self.trace, self.level, self.model = [], 0, None
        t0 = time.monotonic()

        def alarm(*_):
            self.expired = True
            if self.armed and not self.critical:
                raise PathAbort("cut: time per path")

        old = signal.signal(signal.SIGALRM, alarm)
        try:
            while True:
                if self.st.paths >= self.lim.paths:
                    self.stop_reason = "path limit"
                    break
                if time.monotonic() - t0 > self.lim.seconds:
                    self.stop_reason = "time limit"
                    break
                self.one_path()
                if len(self.real_ces) >= self.lim.ce:
                    self.stop_reason = "counterexamples"
                    break
                if not self.backtrack():
                    self.exhausted = True
                    break
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            CUR = None
        return self

    def one_path(self):
        self.pos = 0
        self.known = {}
        self.counter = {}
        self.inputs = {}
        self.memo = {}
        self.observed = []
        self.path_concretized = 0
        self.strconsts, self.expanded, self.codeapps, self.inexact = {}, [], [], []
        self.st.paths += 1
        self.expired = self.critical = False
        if self.reset:
            self.reset()
        self.armed = True
        signal.setitimer(signal.ITIMER_REAL, self.lim.path_seconds, 0.5)
        why = None
        try:
            try:
                self.fn(self)
                self.armed = False
            except PathAbort:
                raise
            except EngineError:
                raise
            except RecursionError as ex:
                self.unexpected(ex)
            except Exception as ex:
                self.unexpected(ex)
        except PathAbort as ex:
            why = ex.why
        finally:
            self.armed = False
            signal.setitimer(signal.ITIMER_REAL, 0)
        if why is None:
            self.st.complete += 1
            if self.path_concretized:
                self.st.concretized += 1
            if self.on_path:
                self.on_path(self)
        elif why == "infeasible":
            self.st.infeasible += 1
        elif why == "ce":
            pass
        else:
            self.st.cut += 1
            self.cut_reasons[why] = self.cut_reasons.get(why, 0) + 1
            if self.on_cut:
                self.on_cut(self, why)

    def unexpected(self, ex):
        import traceback

        self.armed = False

        tb = traceback.extract_tb(ex.__traceback__)
        where = " < ".join(f"{f.name}:{f.lineno}" for f in reversed(tb[-4:]))
        i = self.pos
        self.pos += 1
        if i < len(self.trace):
            raise EngineError("re-execution diverged: exception inside an explored prefix")
        self.trace.append(Event("c", None))
        self.st.checks += 1
        try:
            text = str(ex)[:120]
        except Exception:
            text = "?"
        self.counterexample(self.get_model(), f"unexpected {type(ex).__name__}: {text} [{where}]")

    def backtrack(self):
        while self.trace:
            ev = self.trace.pop()
            if ev.kind != "d":
                continue
            if not ev.level or ev.level > self.level:
                continue
            if ev.pending:
                self.solver.pop()
                self.level -= 1
                other = z3.Not(ev.term) if ev.val else ev.term
                r, m = self.check_with(other)
                if r == z3.unsat:
                    continue
                self.solver.push()
                self.level += 1
                self.solver.add(other)
                self.model = m
                self.trace.append(Event("d", ev.term, not ev.val, False, self.level, ev.key))
                self.trace[-1].pending = None  # explored second side; solver level still to be popped
                return True
            elif ev.pending is None:
                self.solver.pop()
                self.level -= 1
        return False
