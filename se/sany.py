"""
JSON values of symbolic kind, and dictionaries and sets that may hold symbolic keys.
"""

import z3

from . import core
from .strs import Opq, SymBytes, SymStr, new_opaque, opq_equal
from .values import (
    HASH_RAISES,
    Sym,
    SymbolicHash,
    SymBool,
    SymFloat,
    SymInt,
    cur,
    decide,
    mkbool,
    mkint,
    sym_not,
    zand,
    znot,
    zor,
)

NULL, BOOL, INT, FLOAT, STRING, LIST, DICT = range(7)
KIND_TYPE = {NULL: type(None), BOOL: bool, INT: int, FLOAT: float, STRING: str, LIST: list, DICT: dict}
KIND_NAME = {NULL: "null", BOOL: "bool", INT: "int", FLOAT: "float", STRING: "str", LIST: "list", DICT: "dict"}
ALL_KINDS = frozenset(range(7))


class JsonSpec:
    "Bounds of a symbolic JSON document."

    def __init__(self, depth=2, width=2, kinds=ALL_KINDS, keys=None, extra=True):
        """
        :param depth: Nesting depth of non-empty containers.
        :param width: Largest number of items or properties of a container.
        :param keys: If given, property names are these (each present or not), plus one of unknown name if `extra`. May be
            a mapping from property name to the names for the value of that property ("*": for all values of an object of
            arbitrary names). Names apply to the items of an array, too.
        """
        self.depth, self.width, self.kinds, self.keys, self.extra = depth, width, kinds, keys, extra

    @property
    def names(self):
        return None if self.keys is None or "*" in self.keys else list(self.keys)

    def child(self, key=None):
        keys = self.keys
        if key is not None:
            keys = keys.get(key) if isinstance(keys, dict) else None
        return JsonSpec(self.depth - 1, self.width, ALL_KINDS, keys, True)


class SAny(Sym):
    __slots__ = ("name", "spec", "kinds", "kt", "val", "done", "orig")

    def __init__(self, name, spec):
        self.name, self.spec = name, spec
        self.kinds = frozenset(spec.kinds)
        self.kt = z3.Int(name + ".kind")
        self.val, self.done, self.orig = None, False, None
        cur().assume(zor([self.kt == k for k in sorted(self.kinds)]))

    # ---- kinds

    def is_kind(self, kinds):
        "Decides whether the kind is one of the given kinds."
        hit = self.kinds & kinds
        if not hit:
            return False
        if len(hit) == len(self.kinds):
            return True
        r = decide(self.kind_term(hit))
        self.kinds = hit if r else self.kinds - hit
        return r

    def kind_term(self, kinds):
        hit = self.kinds & kinds
        if not hit:
            return False
        if len(hit) == len(self.kinds):
            return True
        return zor([self.kt == k for k in sorted(hit)])

    def kind(self):
        while len(self.kinds) > 1:
            self.is_kind(frozenset({min(self.kinds)}))
        return next(iter(self.kinds))

    # scalar views, valid on paths where the kind matches
    def as_bool(self):
        return SymBool(z3.Bool(self.name + ".b"))

    def as_int(self):
        return SymInt(z3.Int(self.name + ".i"))

    def as_float(self):
        return SymFloat(z3.FP(self.name + ".f", z3.Float64()))

    def as_opq(self):
        ex = cur()
        key = ("any.s", self.name)
        r = ex.memo.get(key)
        if r is None:
            r = ex.memo[key] = SymStr([new_opaque(self.name + ".s")])
        return r

    def force(self):
        if self.done:
            return self.val
        k = self.kind()
        ex = cur()
        if k == NULL:
            self.val = None
        elif k == BOOL:
            self.val = self.as_bool()
        elif k == INT:
            self.val = self.as_int()
        elif k == FLOAT:
            self.val = self.as_float()
            t = self.val.t
            ex.assume(z3.Not(z3.Or(z3.fpIsNaN(t), z3.fpIsInf(t))))
        elif k == STRING:
            self.val = self.as_opq()
        elif k == LIST:
            n = self._count(self.spec.width if self.spec.depth > 0 else 0)
            cs = self.spec.child()
            items = [SAny(f"{self.name}[{i}]", cs) for i in range(n)]
            self.orig = tuple(items)
            self.val = list(items)
        else:
            entries = []
            names = self.spec.names
            if names is not None and self.spec.depth > 0:
                # each known property present or not; properties of unknown names follow
                for key in names:
                    if decide(z3.Bool(f"{self.name}.has.{key}")):
                        entries.append((key, SAny(f"{self.name}.{key}", self.spec.child(key))))
                if self.spec.extra and decide(z3.Bool(f"{self.name}.has.?")):
                    s = SymStr([new_opaque(self.name + ".?")])
                    ex.assume(zand([znot(s.eq_term(k)) for k in names]))
                    entries.append((s, SAny(f"{self.name}.?value", self.spec.child(""))))
            else:
                n = self._count(self.spec.width if self.spec.depth > 0 else 0)
                cs = self.spec.child("*")
                for i in range(n):
                    s = SymStr([new_opaque(f"{self.name}.key{i}")])
                    for o, _ in entries:
                        ex.assume(znot(s.eq_term(o)))
                    entries.append((s, SAny(f"{self.name}.value{i}", cs)))
            self.orig = tuple(entries)
            self.val = SDict.of_entries(entries)
        self.done = True
        return self.val

    def _count(self, width):
        t = z3.Int(self.name + ".n")
        cur().assume(z3.And(t >= 0, t <= width))
        for k in range(width):
            if decide(t == k):
                return k
        return width

    # ---- equality without deciding the kind

    def eq_term(self, o):
        if len(self.kinds) == 1 or type(o) is SAny:
            from . import models

            return models.eq_term(self.force(), o.force() if type(o) is SAny else o)
        from . import models

        to = type(o)
        if o is None:
            return self.kind_term({NULL})
        if issubclass(to, (str, SymStr)):
            k = self.kind_term({STRING})
            if k is False:
                return False
            s = self.as_opq()
            if s.opaque() is None or (to is SymStr and o.opaque() is None):
                if not self.is_kind(frozenset({STRING})):
                    return False
            return zand([k, s.eq_term(o)])
        if issubclass(to, (bool, SymBool, int, SymInt, float, SymFloat)):
            ts = []
            for kind, view in ((BOOL, self.as_bool), (INT, self.as_int), (FLOAT, self.as_float)):
                k = self.kind_term({kind})
                if k is not False:
                    ts.append(zand([k, models.eq_term(view(), o)]))
            return zor(ts)
        if isinstance(o, (list, dict, tuple)):
            return models.eq_term(self.force(), o)
        return models.eq_term(self.force(), o)

    def __eq__(self, o):
        t = self.eq_term(o)
        return t if isinstance(t, bool) else mkbool(t)

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    @property
    def __class__(self):
        return KIND_TYPE[self.kind()]

    def __bool__(self):
        return bool(self.force())

    def __hash__(self):
        if self.is_kind(frozenset({LIST, DICT})):
            raise TypeError(f"unhashable type: '{KIND_NAME[self.kind()]}'")
        if HASH_RAISES[0]:
            raise SymbolicHash("unhashable symbolic value")
        return hash(self.force())

    def __repr__(self):
        from . import models

        return models.native_text(self, "r")

    def __str__(self):
        from . import models

        return models.native_text(self, "s")

    def __format__(self, spec):
        return format(str(self), spec)

    def __deepcopy__(self, memo):
        import copy

        if self.is_kind(frozenset({LIST, DICT})):
            return copy.deepcopy(self.force(), memo)
        return self

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, k):
        from . import models

        return models.getitem(self.force(), k)

    def __setitem__(self, k, v):
        self.force()[k] = v

    def __delitem__(self, k):
        del self.force()[k]

    def __contains__(self, k):
        return bool(k in self.force())

    def __getattr__(self, name):
        if name.startswith("__") and name not in ("__doc__",):
            v = self.force()
            return getattr(v, name)
        return getattr(self.force(), name)

    def __index__(self):
        return self.force().__index__()

    def __int__(self):
        return int(self.force())

    def __float__(self):
        return float(self.force())


def _deleg(name):
    def f(self, *a):
        from . import models

        v = self.force()
        a = tuple(x.force() if type(x) is SAny else x for x in a)
        return models.binop_native(name, v, *a)

    f.__name__ = name
    return f


for _n in (
    "lt le gt ge add radd sub rsub mul rmul floordiv rfloordiv mod rmod divmod rdivmod truediv rtruediv pow rpow "
    "neg pos abs invert and rand or ror xor rxor lshift rshift"
).split():
    setattr(SAny, f"__{_n}__", _deleg(f"__{_n}__"))


def force(x):
    return x.force() if type(x) is SAny else x


# ------------------------------------------------------------------------------------------ dictionaries and sets


def has_symbolic_hash(k):
    "True if the hash of a key depends on symbolic values; raises TypeError for unhashable keys."
    tk = type(k)
    if tk is str or tk is int or tk is type:
        return False
    HASH_RAISES[0] += 1
    try:
        hash(k)
        return False
    except SymbolicHash:
        return True
    finally:
        HASH_RAISES[0] -= 1


def keys_equal(a, b):
    from . import models

    if a is b:
        return True
    t = models.eq_term(a, b)
    return t if isinstance(t, bool) else decide(t)


_MISSING = object()


class SDict(dict):
    """A dictionary. Works like `dict` as long as keys are concrete; keeps an ordered list of entries (`a`) otherwise."""

    __slots__ = ("a",)

    def __init__(self, *args, **kw):
        dict.__init__(self)
        self.a = None
        if args or kw:
            self.update(*args, **kw)

    @classmethod
    def of_entries(cls, entries):
        d = cls()
        d.a = [[k, v] for k, v in entries]
        return d

    def _lift(self):
        if self.a is None:
            self.a = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)
        return self.a

    def _find(self, key):
        "The entry (assoc mode) or the native key that equals a key."
        if type(key) is SAny:
            hash_kind_check(key)
        if self.a is None:
            if not has_symbolic_hash(key):
                return None if not dict.__contains__(self, key) else (key, dict.__getitem__(self, key))
            for k, v in dict.items(self):
                if keys_equal(k, key):
                    return (k, v)
            return None
        has_symbolic_hash(key)
        for e in self.a:
            if keys_equal(e[0], key):
                return e
        return None

    def __getitem__(self, key):
        if self.a is None and type(key) in (str, int, type):
            return dict.__getitem__(self, key)
        e = self._find(key)
        if e is None:
            raise KeyError(key)
        return e[1]

    def get(self, key, default=None):
        e = self._find(key)
        return default if e is None else e[1]

    def contains_term(self, key):
        from . import models

        if self.a is None and not has_symbolic_hash(key):
            return dict.__contains__(self, key)
        if self.a is not None:
            has_symbolic_hash(key)
        return zor([models.eq_term(k, key) for k in self.keys()])

    def __contains__(self, key):
        t = self.contains_term(key)
        return t if isinstance(t, bool) else decide(t)

    def __setitem__(self, key, value):
        if self.a is None:
            if not has_symbolic_hash(key):
                dict.__setitem__(self, key, value)
                return
            for k in dict.keys(self):
                if keys_equal(k, key):
                    dict.__setitem__(self, k, value)
                    return
            self._lift().append([key, value])
            return
        e = self._find(key)
        if e is None:
            self.a.append([key, value])
        else:
            e[1] = value

    def __delitem__(self, key):
        e = self._find(key)
        if e is None:
            raise KeyError(key)
        if self.a is None:
            dict.__delitem__(self, e[0])
        else:
            self.a = [x for x in self.a if x is not e]

    def pop(self, key, *default):
        e = self._find(key)
        if e is None:
            if default:
                return default[0]
            raise KeyError(key)
        del self[e[0]]
        return e[1]

    def popitem(self):
        if self.a is None:
            return dict.popitem(self)
        if not self.a:
            raise KeyError("popitem(): dictionary is empty")
        return tuple(self.a.pop())

    def setdefault(self, key, default=None):
        e = self._find(key)
        if e is not None:
            return e[1]
        self[key] = default
        return default

    def update(self, *args, **kw):
        for o in args:
            o = force(o)
            if hasattr(o, "keys"):
                for k in list(o.keys()):
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self.a = None
        dict.clear(self)

    def copy(self):
        d = SDict()
        if self.a is None:
            dict.update(d, self)
        else:
            d.a = [list(e) for e in self.a]
        return d

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        d = SDict()
        memo[id(self)] = d
        for k, v in list(self.items()):
            d[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return d

    def __reduce_ex__(self, proto):
        if self.a is None:
            return (dict, (dict(dict.items(self)),))
        raise TypeError("symbolic values cannot be pickled")

    def keys(self):
        return dict.keys(self) if self.a is None else KeysView(self)

    def values(self):
        return dict.values(self) if self.a is None else [e[1] for e in self.a]

    def items(self):
        return dict.items(self) if self.a is None else [(e[0], e[1]) for e in self.a]

    def __iter__(self):
        return dict.__iter__(self) if self.a is None else iter([e[0] for e in self.a])

    def __reversed__(self):
        return reversed(list(iter(self)))

    def __len__(self):
        return dict.__len__(self) if self.a is None else len(self.a)

    def __bool__(self):
        return len(self) > 0

    def eq_term(self, o):
        from . import models

        o = force(o)
        if not isinstance(o, dict):
            return False
        if len(self) != len(o):
            return False
        ts = []
        for k, v in self.items():
            if type(o) is SDict:
                e = o._find(k)
            else:
                e = SDict(o)._find(k)
            if e is None:
                return False
            t = models.eq_term(v, e[1])
            if t is False:
                return False
            ts.append(t)
        return zand(ts)

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        t = self.eq_term(o)
        return t if isinstance(t, bool) else mkbool(t)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    __hash__ = None

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        d = SDict(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        if self.a is None:
            return dict.__repr__(self)
        from . import models

        return models.native_text(self, "r")


class KeysView:
    "View of the keys of a dictionary with symbolic keys."

    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def __reversed__(self):
        return reversed(self.d)

    def _set(self):
        return SSet(self.d)

    def __sub__(self, o):
        return self._set() - SSet(o)

    def __and__(self, o):
        return self._set() & SSet(o)

    def __or__(self, o):
        return self._set() | SSet(o)

    def __xor__(self, o):
        return self._set() ^ SSet(o)

    def __rsub__(self, o):
        return SSet(o) - self._set()

    def __eq__(self, o):
        return self._set() == SSet(o)

    def __le__(self, o):
        return self._set() <= SSet(o)

    def __lt__(self, o):
        return self._set() < SSet(o)

    def __ge__(self, o):
        return self._set() >= SSet(o)

    def __gt__(self, o):
        return self._set() > SSet(o)

    def isdisjoint(self, o):
        return not (self._set() & SSet(o))

    __hash__ = None


def hash_kind_check(key):
    if key.is_kind(frozenset({LIST, DICT})):
        raise TypeError(f"unhashable type: '{KIND_NAME[key.kind()]}'")


class _SetMixin:
    __slots__ = ()

    def _base(self):
        return frozenset if isinstance(self, frozenset) else set

    def items_(self):
        return list(self._base().__iter__(self)) if self.a is None else list(self.a)

    def contains_term(self, x):
        from . import models

        if self.a is None and not has_symbolic_hash(x):
            return self._base().__contains__(self, x)
        if self.a is not None:
            has_symbolic_hash(x)
        return zor([models.eq_term(k, x) for k in self.items_()])

    def __contains__(self, x):
        t = self.contains_term(x)
        return t if isinstance(t, bool) else decide(t)

    def __iter__(self):
        return self._base().__iter__(self) if self.a is None else iter(list(self.a))

    def __len__(self):
        return self._base().__len__(self) if self.a is None else len(self.a)

    def __bool__(self):
        return len(self) > 0

    def issuperset(self, o):
        t = zand([zbool2(set_contains(self, x)) for x in iter(force(o))])
        return t if isinstance(t, bool) else mkbool(t)

    def issubset(self, o):
        o = as_set(o)
        t = zand([zbool2(set_contains(o, x)) for x in self])
        return t if isinstance(t, bool) else mkbool(t)

    def isdisjoint(self, o):
        return not any(x in self for x in force(o))

    def __ge__(self, o):
        return self.issuperset(o) if is_set(o) else NotImplemented

    def __le__(self, o):
        return self.issubset(o) if is_set(o) else NotImplemented

    def __gt__(self, o):
        return (len(self) > len(o) and self.issuperset(o)) if is_set(o) else NotImplemented

    def __lt__(self, o):
        return (len(self) < len(o) and self.issubset(o)) if is_set(o) else NotImplemented

    def eq_term(self, o):
        if not is_set(o) or len(self) != len(o):
            return False
        o = as_set(o)
        return zand([o.contains_term(x) for x in self])

    def __eq__(self, o):
        if not is_set(o):
            return NotImplemented
        t = self.eq_term(o)
        return t if isinstance(t, bool) else mkbool(t)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def _new(self, items):
        return type(self)(items)

    def union(self, *os):
        return self._new([x for s in (self, *os) for x in force(s)])

    def intersection(self, *os):
        sets = [as_set(o) for o in os]
        return self._new([x for x in self if all(x in s for s in sets)])

    def difference(self, *os):
        sets = [as_set(o) for o in os]
        return self._new([x for x in self if not any(x in s for s in sets)])

    def symmetric_difference(self, o):
        o = as_set(o)
        return self._new([x for x in self if x not in o] + [x for x in o if x not in self])

    def copy(self):
        return self._new(list(self))

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        return self._new([copy.deepcopy(x, memo) for x in self])

    def __or__(self, o):
        return self.union(o) if is_set(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if is_set(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if is_set(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if is_set(o) else NotImplemented

    def __ror__(self, o):
        return as_set(o).union(self)

    def __rand__(self, o):
        return as_set(o).intersection(self)

    def __rsub__(self, o):
        return as_set(o).difference(self)

    def __rxor__(self, o):
        return as_set(o).symmetric_difference(self)

    def __reduce_ex__(self, proto):
        if self.a is None:
            return (self._base(), (list(self),))
        raise TypeError("symbolic values cannot be pickled")

    def __repr__(self):
        if self.a is None:
            return repr(self._base()(self._base().__iter__(self)))
        from . import models

        return models.native_text(self, "r")


def zbool2(t):
    return t if isinstance(t, bool) else t


class SSet(_SetMixin, set):
    __slots__ = ("a",)
    __hash__ = None

    def __init__(self, it=()):
        set.__init__(self)
        self.a = None
        for x in force(it):
            self.add(x)

    def add(self, x):
        if self.a is None:
            if not has_symbolic_hash(x):
                set.add(self, x)
                return
            for k in set.__iter__(self):
                if keys_equal(k, x):
                    return
            self.a = list(set.__iter__(self))
            set.clear(self)
            self.a.append(x)
            return
        if not any(keys_equal(k, x) for k in self.a):
            self.a.append(x)

    def discard(self, x):
        if self.a is None and not has_symbolic_hash(x):
            set.discard(self, x)
            return
        items = self.items_()
        for i, k in enumerate(items):
            if keys_equal(k, x):
                del items[i]
                self._reset(items)
                return

    def _reset(self, items):
        if self.a is None:
            set.clear(self)
            set.update(self, items)
        else:
            self.a = items

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        if self.a is None:
            return set.pop(self)
        if not self.a:
            raise KeyError("pop from an empty set")
        return self.a.pop(0)

    def clear(self):
        self.a = None
        set.clear(self)

    def update(self, *os):
        for o in os:
            for x in list(force(o)):
                self.add(x)

    def difference_update(self, *os):
        for o in os:
            for x in list(force(o)):
                self.discard(x)

    def intersection_update(self, *os):
        items = [x for x in self if all(x in as_set(o) for o in os)]
        self.clear()
        self.update(items)

    def symmetric_difference_update(self, o):
        items = list(self.symmetric_difference(o))
        self.clear()
        self.update(items)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self


class LazySet(SSet):
    "A set of which it is decided what is in it once somebody looks at all of it."

    __slots__ = ("pend", "_a")

    def __init__(self, items):
        self.pend = list(items)
        self._a = None

    @property
    def a(self):
        if self.pend is not None:
            items, self.pend = self.pend, None
            set.update(self, [x for x, t in items if (t if isinstance(t, bool) else decide(t))])
        return self._a

    @a.setter
    def a(self, v):
        self._a = v

    def contains_term(self, x):
        from . import models

        if self.pend is None:
            return SSet.contains_term(self, x)
        return zor([zand([t, models.eq_term(k, x)]) for k, t in self.pend])

    def _new(self, items):
        return SSet(items)


class SFrozen(_SetMixin, frozenset):
    __slots__ = ("a",)

    def __new__(cls, it=()):
        s = SSet(it)
        self = frozenset.__new__(cls, () if s.a is not None else set.__iter__(s))
        self.a = s.a
        return self

    def __init__(self, it=()):
        pass

    def __hash__(self):
        if self.a is None:
            return frozenset.__hash__(self)
        if HASH_RAISES[0]:
            raise SymbolicHash("unhashable symbolic value")
        from . import models

        return hash(models.concrete(self))


def is_set(o):
    return isinstance(o, (set, frozenset)) or type(o) is KeysView


def as_set(o):
    o = force(o)
    if type(o) in (SSet, LazySet, SFrozen):
        return o
    return SSet(o)


def set_contains(s, x):
    return s.contains_term(x)
