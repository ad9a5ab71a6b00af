"""
The harness interface in symbolic mode. The same harness runs natively with the class of the same interface in
native.py, where each named input has the value that a model gives it.
"""

import enum

import z3

from . import core, models, strs
from .sany import ALL_KINDS, BOOL, DICT, FLOAT, INT, KIND_TYPE, LIST, NULL, STRING, JsonSpec, KeysView, LazySet, SAny, SDict, SFrozen, SSet, as_set, force
from .strs import CODE, DOMAIN, LEN, Ch, Fmt, Num, Opq, SByte, SymBytes, SymStr, in_set, new_opaque
from .values import F64, SymBool, SymFloat, SymInt, fp_value, mkbool, note_bounds, truth_term, zand, znot, zor

KINDS = {"null": NULL, "bool": BOOL, "int": INT, "float": FLOAT, "str": STRING, "list": LIST, "dict": DICT}


class Unobservable(Exception):
    pass


class Ctx:
    native = False

    def __init__(self, ex):
        self.ex = ex

    # ---- inputs

    def _reg(self, name, kind, v):
        if name in self.ex.inputs:
            raise core.EngineError(f"duplicate input {name}")
        self.ex.inputs[name] = (kind, v)
        return v

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        if lo is not None:
            self.ex.assume(t >= lo)
        if hi is not None:
            self.ex.assume(t <= hi)
        if lo is not None and hi is not None:
            note_bounds(t, lo, hi)
        return self._reg(name, "int", SymInt(t, lo, hi))

    def bool(self, name):
        return self._reg(name, "bool", SymBool(z3.Bool(name)))

    def float(self, name, finite=True):
        t = z3.FP(name, F64)
        if finite:
            self.ex.assume(z3.Not(z3.Or(z3.fpIsNaN(t), z3.fpIsInf(t))))
        return self._reg(name, "float", SymFloat(t))

    def str(self, name, minlen=0, maxlen=None):
        "An arbitrary text of unbounded length; characters are only looked at if the code does."
        s = SymStr([new_opaque(name)])
        t = s.p[0].t
        if minlen:
            self.ex.assume(LEN(t) >= minlen)
        if maxlen is not None:
            self.ex.assume(LEN(t) <= maxlen)
        return self._reg(name, "value", s)

    def text(self, name, maxlen, minlen=0, alphabet=None):
        "A text of bounded length whose characters are symbolic."
        n = self.size(name + ".len", maxlen, minlen)
        dom = DOMAIN if alphabet is None else frozenset(ord(c) for c in alphabet)
        chars = []
        for i in range(n):
            t = z3.Int(f"{name}.{i}")
            self.ex.assume(in_set(t, dom))
            chars.append(Ch(t, dom))
        return self._reg(name, "value", strs.mkstr(chars))

    def size(self, name, hi, lo=0):
        t = z3.Int(name)
        self.ex.assume(z3.And(t >= lo, t <= hi))
        self._reg(name, "int", SymInt(t, lo, hi))
        for k in range(lo, hi):
            if self.ex.decide(t == k):
                return k
        return hi

    def choice(self, name, options):
        return options[self.size(name, len(options) - 1)]

    def flag(self, name):
        "A decided boolean."
        return bool(self.bool(name))

    def bytes(self, name, maxlen, minlen=0):
        n = self.size(name + ".len", maxlen, minlen)
        return self._reg(name, "value", strs.mkbytes([SByte(z3.BitVec(f"{name}.{i}", 8)) for i in range(n)]))

    def json(self, name, depth=2, width=2, kinds=None, keys=None, extra=True):
        ks = ALL_KINDS if kinds is None else frozenset(KINDS[k] for k in kinds)
        return self._reg(name, "json", SAny(name, JsonSpec(depth, width, ks, keys, extra)))

    def subset(self, name, items):
        "An arbitrary subset of a list of plain values, each of which is in it if a boolean is true."
        flags = [self.bool(f"{name}.{i}") for i in range(len(items))]
        return LazySet([(x, f.t) for x, f in zip(items, flags)]), flags

    def has(self, s, x):
        "Whether a value is in a set, without a decision."
        t = as_set(s).contains_term(x)
        return t if isinstance(t, bool) else mkbool(t)

    # ---- properties

    def assume(self, c):
        t = truth_term(c)
        if t is False:
            raise core.PathAbort("infeasible")
        if t is not True:
            self.ex.assume(t)

    def check(self, c, msg):
        self.ex.verify(truth_term(c), msg)

    def fail(self, msg):
        self.ex.verify(False, msg)

    def same(self, a, b):
        t = same_term(a, b)
        return t if isinstance(t, bool) else mkbool(t)

    def check_same(self, a, b, msg):
        t = same_term(a, b)
        self.ex.verify(t, msg)

    def all_of(self, cs):
        t = zand([truth_term(c) for c in cs])
        return t if isinstance(t, bool) else mkbool(t)

    def any_of(self, cs):
        t = zor([truth_term(c) for c in cs])
        return t if isinstance(t, bool) else mkbool(t)

    def not_(self, c):
        t = znot(truth_term(c))
        return t if isinstance(t, bool) else mkbool(t)

    def observe(self, x):
        self.ex.observed.append(x)

    def label(self, name):
        self.ex.label(name)

    def snapshot(self, x):
        "Deep structural copy of a plain value, for comparing later."
        return snapshot(x)

    def unchanged(self, x, snap):
        t = same_term(x, snap, order=True)
        return t if isinstance(t, bool) else mkbool(t)

    def containers(self, x):
        "Identities of the mutable containers within a value."
        out = {}
        _containers(x, out)
        return out

    def shares(self, x, y):
        "Whether two values have mutable containers in common. Containers of the latter are those looked at so far."
        a, b = {}, {}
        _containers(x, a)
        _containers(y, b, True)
        return any(k in b for k in a)

    def isolated(self, fn, key=None):
        """
        Runs a function as if nothing had run before, nor after, in the process. Natively, its result has to be plain.

        :param key: The result is kept for other paths if no branch has depended on inputs.
        """
        if key is not None and ("isolated", key) in self.ex.constants:
            return self.ex.constants["isolated", key]
        pos = self.ex.pos
        r = fn()
        self.ex.reset()
        if key is not None and self.ex.pos == pos and not self.ex.path_concretized:
            self.ex.constants["isolated", key] = r
        return r

    def reached(self, n, at, name):
        "Whether a counter has reached an integer input."
        if type(at) is int:
            return n == at
        return self.ex.decide_keyed(("reached", n, name), lambda: at.t == n)

    def once(self, key, fn):
        "The result of a function of no symbolic inputs, the same on all paths."
        if key not in self.ex.constants:
            r = fn()
            self.ex.reset()
            self.ex.constants[key] = r
        return self.ex.constants[key]

    def class_of(self, x):
        return models.class_of(x)

    def is_a(self, x, typ):
        "Whether a value is of a class exactly (decides no more than that of a symbolic JSON value)."
        if type(x) is SAny:
            for k, t in KIND_TYPE.items():
                if t is typ:
                    return x.is_kind(frozenset({k}))
            return False
        return models.class_of(x) is typ


def _containers(x, out, lazy=False):
    if type(x) is SAny:
        if lazy and not x.done:
            return
        if len(x.kinds) > 1 or not x.done:
            if not x.kinds & {LIST, DICT}:
                return
        x = x.force()
    if isinstance(x, (list, tuple)):
        if isinstance(x, list):
            out[id(x)] = x
        for v in x:
            _containers(v, out, lazy)
    elif isinstance(x, dict):
        out[id(x)] = x
        for k, v in x.items():
            _containers(k, out, lazy)
            _containers(v, out, lazy)
    elif issubclass(type(x), (set, frozenset)):
        if issubclass(type(x), set):
            out[id(x)] = x
        for v in x:
            _containers(v, out, lazy)
    elif not type(x).__module__.startswith("se.") and not _opaque(type(x)):
        a = attributes(x)
        if a is not None and id(x) not in out:
            out[id(x)] = x
            for v in a.values():
                _containers(v, out, lazy)


class Unseen:
    "A JSON value that had not been looked at: what it was is what it was created with when it was."

    def __init__(self, x):
        self.x = x

    def same(self, y):
        if y is not self.x:
            return same_term(y, self.original(), True)
        if not y.done or not isinstance(y.val, (list, dict)):
            return True
        if isinstance(y.val, list):
            if len(y.val) != len(y.orig):
                return False
            return _all(Unseen(o).same(v) for o, v in zip(y.orig, y.val))
        items = list(y.val.items())
        if len(items) != len(y.orig):
            return False
        return _all(t for (k, o), (l, v) in zip(y.orig, items) for t in (same_term(k, l, True), Unseen(o).same(v)))

    def original(self):
        x = self.x
        x.force()
        if not isinstance(x.val, (list, dict)):
            return x.val
        if isinstance(x.val, list):
            return [Unseen(o).original() for o in x.orig]
        d = SDict()
        for k, o in x.orig:
            d[k] = Unseen(o).original()
        return d


class Snap:
    "What the attributes of an object were."

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


VALUES = ("datetime", "uuid", "ipaddress", "decimal", "builtins", "enum", "typing", "types")


def _opaque(t):
    return t.__module__ in VALUES or t.__module__.startswith(("se_shadow", "_py")) or issubclass(t, (type, enum.Enum))


def snapshot(x):
    tx = type(x)
    if tx is SAny:
        if not x.done:
            return Unseen(x)
        return snapshot(x.val)
    if tx is SDict:
        d = SDict()
        if x.a is not None:
            d.a = [[k, snapshot(v)] for k, v in x.a]
        else:
            for k, v in x.items():
                d[k] = snapshot(v)
        return d
    if tx is dict:
        return {k: snapshot(v) for k, v in x.items()}
    if tx in (list, tuple):
        return tx(snapshot(v) for v in x)
    if tx in (set, SSet, LazySet):
        return SSet(list(x))
    if not tx.__module__.startswith("se.") and not _opaque(tx):
        if issubclass(tx, tuple):
            return tx(*[snapshot(v) for v in x])
        a = attributes(x)
        if a is not None:
            return Snap(tx, {k: snapshot(v) for k, v in a.items()})
    return x


def same_term(a, b, order=False):
    "Same type and same value, recursively, as a term."
    if a is b:
        return True
    if type(b) is Unseen:
        return b.same(a)
    if type(a) is SAny and type(b) is SAny and a.name == b.name:
        return True
    a, b = force(a), force(b)
    if a is b:
        return True
    if type(b) is Snap:
        attrs = attributes(a)
        if models.class_of(a) is not b.cls or list(attrs) != list(b.attrs):
            return False
        return _all(same_term(v, b.attrs[k], order) for k, v in attrs.items())
    ca, cb = models.class_of(a), models.class_of(b)
    if ca is not cb:
        return False
    if ca is float:
        ta = a.t if type(a) is SymFloat else z3.FPVal(a, F64)
        tb = b.t if type(b) is SymFloat else z3.FPVal(b, F64)
        return strs.mk_t(ta == tb)
    if ca in (int, bool, str, bytes, type(None)):
        return models.eq_term(a, b)
    if issubclass(ca, enum.Enum) or issubclass(ca, type):
        return a is b
    if issubclass(ca, (list, tuple)):
        if len(a) != len(b):
            return False
        return _all(same_term(x, y, order) for x, y in zip(a, b))
    if issubclass(ca, dict):
        if len(a) != len(b):
            return False
        if order:
            return _all(t for (k, v), (l, w) in zip(a.items(), b.items()) for t in (same_term(k, l, order), same_term(v, w, order)))
        sb = b if type(b) is SDict else SDict(b)
        ts = []
        for k, v in a.items():
            e = sb._find(k)
            if e is None:
                return False
            ts.append(same_term(k, e[0]))
            ts.append(same_term(v, e[1]))
        return _all(ts)
    if issubclass(ca, (set, frozenset)):
        return models.eq_term(a, b)
    if ca.__module__ in ("datetime", "uuid", "ipaddress", "decimal"):
        t = truth_term(models.se_call(ca.__eq__, a, b))
        if ca.__name__ in ("datetime", "time"):
            if (a.tzinfo is None) != (b.tzinfo is None):
                return False
            if a.tzinfo is not None:
                t = zand([t, truth_term(a.utcoffset() == b.utcoffset())])
        return t
    if issubclass(ca, (str, int, float, bytes)):
        return ca.__eq__(a, b)
    attrs = attributes(a)
    if attrs is not None:
        other = attributes(b)
        if list(attrs) != list(other):
            return False
        return _all(same_term(v, other[k], order) for k, v in attrs.items())
    return truth_term(a == b)


def _all(ts):
    out = []
    for t in ts:
        if t is False:
            return False
        out.append(t)
    return zand(out)


def attributes(x):
    d = getattr(x, "__dict__", None)
    out = {}
    if type(d) is dict:
        out.update(sorted(d.items()))
    slots = False
    for c in type(x).__mro__:
        sl = c.__dict__.get("__slots__")
        if sl is not None:
            slots = True
            for n in (sl,) if isinstance(sl, str) else sl:
                if n not in ("__weakref__", "__dict__") and hasattr(x, n):
                    out[n] = getattr(x, n)
    if type(d) is not dict and not slots:
        return None
    return out


# ------------------------------------------------------------------------------------------------ values under a model


class Valuation:
    "Turns a model into plain Python values."

    def __init__(self, ex, model):
        self.ex, self.m = ex, model
        self.cls = {}
        self.pos = {}
        self.clashes = []
        for s, t in ex.strconsts.items():
            self.cls[self.key(t)] = s
        for t, i in ex.codeapps:
            k = self.m.eval(i, model_completion=True).as_long()
            c = self.m.eval(CODE(t, i), model_completion=True).as_long()
            self.pos.setdefault(self.key(t), {})[k] = (c, t)

    def key(self, t):
        return str(self.m.eval(t, model_completion=True))

    def opaque(self, t):
        key = self.key(t)
        s = self.cls.get(key)
        if s is not None:
            return s
        n = max(0, self.m.eval(LEN(t), model_completion=True).as_long())
        if n > 20000:
            n = 20000
        fixed = {k: c for k, (c, _) in self.pos.get(key, {}).items() if 0 <= k < n}
        used = set(self.cls.values())
        free = [i for i in range(n) if i not in fixed]
        pool = "xyzuvwqrstmnopabcdefghijkl" + "".join(chr(0x4E00 + i) for i in range(200))
        for c in pool:
            cs = [chr(fixed[i]) if i in fixed else "x" for i in range(n)]
            if free:
                cs[free[0]] = c
            s = "".join(cs)
            if s not in used:
                break
            if not free:
                self.clashes.append((t, s))
                break
        self.cls[key] = s
        return s

    def ch(self, c):
        if type(c) is str:
            return c
        v = self.m.eval(c.t, model_completion=True).as_long()
        return chr(v) if 0 <= v < 0x110000 else "\ufffd"

    def value(self, x):
        tx = type(x)
        if tx in models.PLAIN:
            return x
        if tx is SymInt:
            return self.m.eval(x.t, model_completion=True).as_long()
        if tx is SymBool:
            return z3.is_true(self.m.eval(x.t, model_completion=True))
        if tx is SymFloat:
            return fp_value(self.m.eval(x.t, model_completion=True))
        if tx is SymStr:
            return "".join(self.piece(p) for p in x.p)
        if tx is SymBytes:
            return bytes(b if type(b) is int else self.m.eval(b.bv, model_completion=True).as_long() for b in x.b)
        if tx is SAny:
            return self.any(x, False)
        if issubclass(tx, dict):
            return {self.value(k): self.value(v) for k, v in x.items()}
        if tx in (list, tuple):
            return tx(self.value(v) for v in x)
        if issubclass(tx, (set, frozenset)):
            return sorted((self.value(v) for v in x), key=repr)
        if issubclass(tx, type):
            return x.__name__
        if issubclass(tx, BaseException):
            return tx.__name__
        if issubclass(tx, enum.Enum):
            return f"{tx.__name__}.{x.name}"
        raise Unobservable(tx.__name__)

    def piece(self, p):
        tp = type(p)
        if tp is str:
            return p
        if tp is Ch:
            return self.ch(p)
        if tp is Opq:
            return self.opaque(p.t)
        if tp is Num:
            v = self.value(p.v)
            s = format(v, "d" if p.base == 10 else "x")
            s = s.rjust(p.width) if p.space else s.zfill(p.width)
            return s.upper() if p.upper else s
        if tp is Fmt:
            v = self.value(p.v)
            if type(v) not in (str, int, float, bool, type(None)):
                raise Unobservable("formatted object")
            return format({"r": repr, "s": str, "a": ascii}.get(p.conv, lambda y: y)(v), p.spec)
        raise Unobservable(tp.__name__)

    def any(self, x, orig):
        """JSON value of symbolic kind; parts the path never looked at get some value.

        :param orig: Take the value as it was created rather than as it is now.
        """
        m = self.m
        k = m.eval(x.kt, model_completion=True).as_long()
        if k not in x.spec.kinds:
            k = min(x.spec.kinds)
        if k == NULL:
            return None
        if k == BOOL:
            return self.value(x.as_bool())
        if k == INT:
            return self.value(x.as_int())
        if k == FLOAT:
            f = self.value(x.as_float())
            return f if f == f and abs(f) != float("inf") else 0.5
        if k == STRING:
            s = self.ex.memo.get(("any.s", x.name))
            return self.value(s) if s is not None else "s"
        if not x.done:
            return [] if k == LIST else {}
        if k == LIST:
            return [self.any(v, orig) for v in (x.orig if orig else x.val)]
        return {self.value(a): self.any(v, orig) for a, v in (x.orig if orig else x.val.items())}

    def inputs(self):
        out = {}
        for name, (kind, v) in self.ex.inputs.items():
            out[name] = self.any(v, True) if kind == "json" else self.value(v)
        return out


def evaluate(ex, model, extra=None, rounds=12):
    """Plain values of the inputs (and observations) on the current path. Where the encoding leaves out facts about
    concrete values (conversion of integers to floats, strings equal character by character), they are added and the
    model is computed anew."""
    facts = []
    for _ in range(rounds):
        val = Valuation(ex, model)
        inputs = val.inputs()
        new = []
        for it, ft in ex.inexact:
            i = model.eval(it, model_completion=True).as_long()
            try:
                f = float(i)
            except OverflowError:
                continue
            got = model.eval(ft, model_completion=True)
            if fp_value(got) != f:
                from .values import _I2F

                new.append(_I2F(z3.IntVal(i)) == z3.FPVal(f, F64))
        for t, s in val.clashes:
            hyp = [LEN(t) == len(s)] + [CODE(t, z3.IntVal(i)) == ord(c) for i, c in enumerate(s)]
            for c, ct in ex.strconsts.items():
                if c == s:
                    new.append(z3.Implies(z3.And(*hyp), t == ct))
            for o in {u for u, _ in ex.codeapps}:
                if not o.eq(t):
                    hyp2 = [LEN(o) == len(s)] + [CODE(o, z3.IntVal(i)) == ord(c) for i, c in enumerate(s)]
                    new.append(z3.Implies(z3.And(*hyp, *hyp2), t == o))
        if not new:
            return val, inputs
        facts += new
        ex.solver.push()
        for f in facts:
            ex.solver.add(f)
        if extra is not None:
            ex.solver.add(extra)
        r = ex._check()
        if r == z3.sat:
            model = ex.solver.model()
        ex.solver.pop()
        if r != z3.sat:
            return None, None
    return None, None
