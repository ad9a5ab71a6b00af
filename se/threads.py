"""
Threads under a schedule that is an input: only one thread runs at a time, and another one takes over only between
statements of the library, when the schedule says so, when a thread has to wait for a lock, or when it is finished.

`enable` has to be called before the library is loaded. It has a call of `_se_point` inserted before each statement of the
functions of the library, in either mode, and has locks created by the library made known to the scheduler.
"""

import _thread
import ast
import importlib.abc
import importlib.util
import os
import sys
import threading
import weakref

ENABLED = False
RUN = None
REAL = {"Lock": threading.Lock, "RLock": threading.RLock}
LOCKS = weakref.WeakSet()
POINT = "_se_point"


class Stop(BaseException):
    "Ends a thread whose run is given up."


class Deadlock(Exception):
    "All threads are waiting for one another."


def point():
    if RUN is not None:
        RUN.point()


class Lock:
    "A lock that is known to the scheduler; it works like any other one if there is none."

    reentrant = False

    def __init__(self):
        self.real = REAL["RLock" if self.reentrant else "Lock"]()
        self.owner, self.count = None, 0
        LOCKS.add(self)

    def acquire(self, blocking=True, timeout=-1):
        run = RUN
        me = run.me() if run is not None else None
        if me is None:
            return self.real.acquire(blocking, timeout)
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout >= 0:
                # whoever waits for a limited time only may as well find that it has passed
                return False
            run.wait(me, self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        run = RUN
        me = run.me() if run is not None else None
        if me is None:
            return self.real.release()
        if self.owner is None or self.reentrant and self.owner != me:
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *_):
        self.release()


class RLock(Lock):
    reentrant = True


class Run:
    def __init__(self, functions, decide):
        self.functions, self.decide = functions, decide
        n = len(functions)
        self.turn = [_thread.allocate_lock() for _ in range(n)]
        for t in self.turn:
            t.acquire()
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.outcomes = [None] * n
        self.done = [False] * n
        self.waiting = [None] * n
        self.ids = {}
        self.points = 0
        self.fatal = None
        self.abort = False
        self.deadlock = False
        self.preemptions = []

    def me(self):
        return self.ids.get(_thread.get_ident())

    def runnable(self, i):
        return not self.done[i] and (self.waiting[i] is None or self.waiting[i].owner is None)

    def others(self, me):
        n = len(self.functions)
        return [i for i in ((me + k) % n for k in range(1, n)) if self.runnable(i)]

    def hand_over(self, me, to):
        self.turn[to].release()
        self.turn[me].acquire()
        if self.abort:
            raise Stop()

    def point(self):
        me = self.me()
        if me is None:
            return
        if self.abort:
            raise Stop()
        self.points += 1
        others = self.others(me)
        if others:
            to = self.decide(self.points, me, others)
            if to is not None:
                self.preemptions.append((self.points, me, to))
                self.hand_over(me, to)

    def wait(self, me, lock):
        self.waiting[me] = lock
        others = self.others(me)
        if not others:
            self.deadlock = self.abort = True
            self.main.release()
            self.turn[me].acquire()
            raise Stop()
        self.hand_over(me, others[0])
        self.waiting[me] = None

    def work(self, me):
        self.ids[_thread.get_ident()] = me
        self.turn[me].acquire()
        try:
            if not self.abort:
                self.outcomes[me] = ("value", self.functions[me]())
        except Stop:
            pass
        except Exception as ex:
            self.outcomes[me] = ("error", ex)
        except BaseException as ex:
            self.fatal, self.abort = ex, True
        self.done[me] = True
        others = self.others(me)
        if self.abort or not others:
            if not self.abort and not all(self.done):
                self.deadlock = self.abort = True
            try:
                self.main.release()
            except RuntimeError:
                pass
        else:
            self.turn[others[0]].release()

    def start(self, first):
        global RUN
        for lock in list(LOCKS):
            lock.owner, lock.count = None, 0
        old = threading.stack_size(256 * 1024 * 1024)
        try:
            threads = [threading.Thread(target=self.work, args=(i,), daemon=True) for i in range(len(self.functions))]
            RUN = self
            for t in threads:
                t.start()
            self.turn[first].release()
            try:
                self.main.acquire()
            except BaseException as ex:
                self.fatal = self.fatal or ex
        finally:
            threading.stack_size(old)
            self.abort = self.abort or self.fatal is not None
            if self.abort:
                for i, t in enumerate(threads):
                    while t.is_alive():
                        try:
                            self.turn[i].release()
                        except RuntimeError:
                            pass
                        t.join(0.05)
            else:
                for t in threads:
                    t.join()
            RUN = None
        if self.fatal is not None:
            raise self.fatal
        if self.deadlock:
            raise Deadlock("all threads are waiting for one another")
        return self.outcomes


def run(functions, decide, first=0):
    """
    Runs functions as threads.

    :param decide: Called before each statement of the library with the number of statements so far, the running thread, and
        the other threads that could run; returns one of those, or None.
    :returns: For each function, `("value", result)` or `("error", exception)`.
    """
    return Run(functions, decide).start(first)


# ---- statements


def _statements(body):
    out = []
    for i, s in enumerate(body):
        doc = i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
        if not doc and not isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            out.append(ast.copy_location(ast.Expr(ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id=POINT, ctx=ast.Load()), s), args=[], keywords=[]), s)), s))
        out.append(s)
    return out


class Points(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def _function(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        node.body = _statements(node.body)
        return node

    visit_FunctionDef = _function

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = depth
        return node

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.depth and not isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            for f in ("body", "orelse", "finalbody"):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(node, f, _statements(b))
        return node


def insert(tree):
    return ast.fix_missing_locations(Points().visit(tree))


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            tree = ast.parse(f.read(), self.path)
        module.__dict__[POINT] = point
        exec(compile(insert(tree), self.path, "exec", dont_inherit=True), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, package, root):
        self.package, self.root = package, root

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] != self.package:
            return None
        p = os.path.join(self.root, *fullname.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            file = os.path.join(p, "__init__.py")
            return importlib.util.spec_from_file_location(fullname, file, loader=_Loader(file), submodule_search_locations=[p])
        if os.path.isfile(p + ".py"):
            return importlib.util.spec_from_file_location(fullname, p + ".py", loader=_Loader(p + ".py"))
        return None


def factory(cls, package):
    "Locks that the library creates are known to the scheduler, those of others are what they are."
    real = REAL[cls.__name__]

    def make():
        f = sys._getframe(1)
        for _ in range(4):
            if f is None:
                break
            if f.f_globals.get("__name__", "").split(".")[0] == package:
                return cls()
            f = f.f_back
        return real()

    return make


def enable(package="strong_typing"):
    global ENABLED
    if ENABLED:
        return
    if any(m.split(".")[0] == package for m in sys.modules):
        raise RuntimeError(f"{package} is loaded already")
    ENABLED = True
    threading.Lock, threading.RLock = factory(Lock, package), factory(RLock, package)
    if "se.instrument" not in sys.modules or not sys.modules["se.instrument"].INSTALLED:
        sys.meta_path.insert(0, _Finder(package, os.environ.get("VERIF_REPO", "/repo")))
