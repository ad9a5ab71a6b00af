"C23: recursive instance and predicate checks decide exactly what they claim."

import dataclasses
import datetime
import decimal
import enum
import ipaddress
import types
import typing
import uuid
from dataclasses import dataclass, field
from typing import Annotated, NamedTuple, Optional, Union

from strong_typing.auxiliary import Alias, MaxLength, int16
from strong_typing.inspection import check_recursive, is_generic_instance

from . import inherited, kit, same_a, same_b
from .api import Ob, tname


class Whole(int):
    pass


class Text(str):
    pass


class Many(list):
    pass


class Map(dict):
    pass


@dataclass
class Parent:
    x: int = 0


@dataclass
class Child(Parent):
    y: int = 0


class Other:
    pass


class Two(NamedTuple):
    a: int
    b: str


# ---- instances

def anything(ctx, n, kinds, width):
    "A value of any kind; items of containers are JSON values."
    k = ctx.choice(n + ".kind", kinds)
    if k == "json":
        return ctx.json(n, depth=1, width=width)
    if k in CONTAINERS:
        items = [ctx.json(f"{n}[{i}]", depth=1, width=1) for i in range(ctx.size(n + ".n", width))]
        return CONTAINERS[k](items)
    if k == "set":
        return {ctx.str(f"{n}[{i}]") for i in range(ctx.size(n + ".n", width))}
    if k == "map":
        return Map(ctx.choice(n + ".map", [{}, {"k": 1}, {"k": "x"}, {2: True}, {3: None}, {"k": ["x"]}]))
    if k == "many":
        return Many(ctx.choice(n + ".many", [[], [1], ["x"], [None, True], [[1]], [2.5]]))
    return SCALARS[k](ctx, n)


CONTAINERS = {"tuple": tuple, "list": list, "dict": lambda items: {f"k{i}": x for i, x in enumerate(items)}, "pair": lambda items: (*items, "x")}


def near(ctx, n, t, budget, width, key=False):
    "A value that conforms to a type but for a limited number of places."
    if hasattr(t, "__metadata__"):
        t = t.__origin__
    if budget[0] and ctx.flag(n + ".off"):
        budget[0] -= 1
        return anything(ctx, n, KEYS if key else ALL, 1)
    origin, args = typing.get_origin(t), typing.get_args(t)
    if origin is Union or origin is types.UnionType:
        return near(ctx, n + ".m", ctx.choice(n + ".member", list(args)), budget, width, key)
    if origin is list:
        return [near(ctx, f"{n}[{i}]", args[0], budget, width) for i in range(ctx.size(n + ".n", width))]
    if origin is set:
        return {near(ctx, f"{n}[{i}]", args[0], budget, width, True) for i in range(ctx.size(n + ".n", width))}
    if origin is dict:
        return {near(ctx, f"{n}.k{i}", args[0], budget, width, True): near(ctx, f"{n}[{i}]", args[1], budget, width) for i in range(ctx.size(n + ".n", width))}
    if origin is tuple:
        items = [near(ctx, f"{n}[{i}]", a, budget, width, key) for i, a in enumerate(args)]
        if budget[0]:
            length = ctx.choice(n + ".length", ["same", "shorter", "longer"])
            if length != "same":
                budget[0] -= 1
                items = items[:-1] if length == "shorter" else [*items, items[-1]]
        return tuple(items)
    return SCALARS[{int: "int", bool: "bool", str: "text", float: "float", type(None): "null", Parent: "child"}[t]](ctx, n)


SCALARS = {
    "null": lambda ctx, n: None, "bool": lambda ctx, n: ctx.bool(n), "int": lambda ctx, n: ctx.int(n), "float": lambda ctx, n: ctx.float(n),
    "text": lambda ctx, n: ctx.str(n), "bytes": lambda ctx, n: b"x", "parent": lambda ctx, n: Parent(ctx.int(n)),
    "child": lambda ctx, n: Child(ctx.int(n)), "other": lambda ctx, n: Other(), "two": lambda ctx, n: Two(ctx.int(n), "x"), "color": lambda ctx, n: kit.Color.RED,
    "number": lambda ctx, n: kit.Number.ONE, "word": lambda ctx, n: kit.Word.NO, "whole": lambda ctx, n: Whole(3), "subtext": lambda ctx, n: Text("x"),
    "class": lambda ctx, n: Parent, "date": lambda ctx, n: datetime.date(2000, 1, 1), "datetime": lambda ctx, n: datetime.datetime(2000, 1, 1),
    "frozenset": lambda ctx, n: frozenset(["x"]), "bytearray": lambda ctx, n: bytearray(b"x"), "range": lambda ctx, n: range(2),
}  # fmt: skip


def conforms(ctx, v, t):
    "Own definition of what an instance of a type is."
    if hasattr(t, "__metadata__"):
        return conforms(ctx, v, t.__origin__)
    origin, args = typing.get_origin(t), typing.get_args(t)
    if origin is Union or origin is types.UnionType:
        for a in args:
            if conforms(ctx, v, a):
                return True
        return False
    if origin is None:
        return isinstance(v, t)
    if not isinstance(v, origin):
        return False
    if origin is dict:
        for k, x in v.items():
            if not conforms(ctx, k, args[0]) or not conforms(ctx, x, args[1]):
                return False
        return True
    if origin is tuple:
        if len(v) != len(args):
            return False
        for x, a in zip(v, args):
            if not conforms(ctx, x, a):
                return False
        return True
    for x in v:
        if not conforms(ctx, x, args[0]):
            return False
    return True


def instance(ctx, t, budget, width):
    v = anything(ctx, "v", ALL, width) if budget is None else near(ctx, "v", t, [budget], width)
    before = ctx.snapshot(v)
    result = is_generic_instance(v, t)
    ctx.check(result is True or result is False, "answer is not a truth value")
    expected = conforms(ctx, v, t)
    ctx.check(result is expected, f"answer is {result!r}")
    ctx.check(ctx.unchanged(v, before), "value changed")
    ctx.label("yes" if expected else "no")


def named(ctx, t):
    "By name."
    v = anything(ctx, "v", ["json", "parent", "null"], 1)
    ctx.check(is_generic_instance(v, typing.ForwardRef(t.__name__)) is isinstance(v, t), "wrong answer for a name")
    ctx.label("done")


ALL = ["json", "set", "map", "many", *CONTAINERS, *SCALARS]
KEYS = ["text", "int", "bool", "null", "float", "subtext", "word"]

SIMPLE = [
    int, bool, float, str, bytes, type(None), list, dict, tuple, set, object, Parent, Child, Two, Other, kit.Color, kit.Number, kit.Word, Many, datetime.date, datetime.datetime,
    Annotated[int, "note"], Annotated[str, MaxLength(1)], int16, Optional[int], Union[None, float], Optional[Parent], Union[int, str], int | None, str | float | None, Union[Parent, Two, None],
    Annotated[Optional[str], "note"], Optional[Annotated[int, 1]], Union[bool, kit.Color],
]  # fmt: skip
DEEP = [
    list[int], list[bool], list[Optional[str]], list[int | str], list[Annotated[int, "note"]], list[Parent], dict[str, int], dict[int, str], dict[str, Optional[bool]],
    dict[tuple[int, str], float], set[int], set[str], set[Optional[int]], tuple[int], tuple[int, str], tuple[str, Optional[int]], tuple[Parent, bool], Union[int, list[str]],
    Optional[dict[str, int]], list[str] | dict[str, str], Union[list[int], list[str]], Union[tuple[int, int], tuple[str]], Annotated[list[int], "note"], Union[set[int], set[str], None],
]  # fmt: skip
NESTED = [
    list[list[int]], list[dict[str, bool]], dict[str, list[str]], list[tuple[int, str]], tuple[list[int], Optional[str]], Optional[list[Union[int, list[str]]]], dict[int, tuple[str, bool]],
    list[set[str]], Union[list[list[int]], dict[str, list[int]]], tuple[tuple[int, int], tuple[str]], dict[str, dict[str, int]], list[Optional[dict[str, int | None]]],
    tuple[dict[str, int], set[str], list[bool]], list[Union[tuple[int, str], tuple[str, int]]],
]  # fmt: skip

LARGE = [dict[str, dict[str, int]], list[Optional[dict[str, int | None]]], tuple[dict[str, int], set[str], list[bool]], Union[list[list[int]], dict[str, list[int]]], list[dict[str, bool]]]

# ---- predicates


class Plain:
    number: int
    text: str


class PlainChild(Plain):
    flag: bool
    more: list[int]


@dataclass
class Leaves:
    a: bool
    b: int
    c: float
    d: str
    e: bytes


@dataclass
class Times:
    a: datetime.datetime
    b: datetime.date
    c: datetime.time
    d: datetime.timedelta


@dataclass(frozen=True)
class Identities:
    a: uuid.UUID
    b: ipaddress.IPv4Address
    c: ipaddress.IPv6Address
    d: decimal.Decimal
    e: kit.Color
    f: kit.Number


@dataclass
class Unions:
    a: Optional[int]
    b: Union[int, str]
    c: int | None
    d: Optional[list[int]]


@dataclass
class Containers:
    a: list[int]
    b: dict[str, int]
    c: set[str]
    d: tuple[int, str]


@dataclass
class Deep:
    a: list[list[int]]
    b: dict[str, list[str]]
    c: list[tuple[int, str]]


@dataclass
class Annotations:
    a: Annotated[int, "note"]
    b: Annotated[list[int], "note"]
    c: list[Annotated[str, MaxLength(3)]]
    d_: Annotated[Optional[str], Alias("other")]
    e: int16


@dataclass
class Inner:
    x: int
    y: Optional[str]


@dataclass(slots=True)
class Outer:
    a: Inner
    b: list[Inner]
    c: dict[str, Inner]
    d: tuple[Inner, int]


@dataclass
class Successor(Outer):
    e: "Inner"
    f: "Optional[int]" = None


@dataclass
class Empty:
    pass


@dataclass
class HasEmpty:
    e: Empty
    l: list[Empty]


class Tup(NamedTuple):
    a: int
    b: Inner
    c: list[str]


class Words(NamedTuple):
    "Fields of any name and in any order."

    value: str
    type: int
    name: Optional[str]


@dataclass
class WordsOf:
    pred: int
    typ: str
    obj: bool
    type: Optional[float]


@dataclass
class HasOthers:
    t: Tup
    p: Plain
    q: list[PlainChild]


@dataclass
class Alike:
    "Parts of the same type side by side."

    a: tuple[int, int]
    b: tuple[str, int, str]
    c: Optional[tuple[int, int]]
    d: list[tuple[bool, bool]]
    e: int


@dataclass
class Nulls:
    a: None
    b: list[Optional[None]]


@dataclass
class Hidden:
    "Some fields are not in the constructor or in comparisons."

    a: int
    b: str = field(default="b", init=False)
    c: int = field(default=7, compare=False, repr=False)


CLASSES = [
    Plain, PlainChild, Leaves, Times, Identities, Unions, Containers, Alike, Deep, Annotations, Inner, Outer, Successor, Empty, HasEmpty, Tup, Words, WordsOf, HasOthers, Nulls, Hidden, inherited.Heir,
    inherited.Grandchild,
]  # fmt: skip


class Maker:
    "Makes objects of which each leaf has another value, as far as there are."

    def __init__(self, ctx, width):
        self.ctx, self.width, self.count, self.leaves = ctx, width, 0, []

    def leaf(self, t, v):
        self.leaves.append((t, v))
        return v

    def scalar(self, t):
        self.count += 1
        i = self.count
        if t is bool:
            return i % 2 == 0
        if t is type(None) or t is None:
            return None
        if isinstance(t, type) and issubclass(t, enum.Enum):
            return list(t)[i % len(t)]
        if t is datetime.datetime:
            return datetime.datetime(2000 + i, 1, 1)
        if t is datetime.date:
            return datetime.date(2000 + i, 1, 1)
        if t is datetime.time:
            return datetime.time(i, 1)
        if t is datetime.timedelta:
            return datetime.timedelta(i)
        if t is uuid.UUID:
            return uuid.UUID(int=i)
        if t is ipaddress.IPv4Address or t is ipaddress.IPv6Address:
            return t(i)
        if t is bytes:
            return bytes([i])
        return t(i)

    def make(self, n, t):
        ctx = self.ctx
        if hasattr(t, "__metadata__"):
            return self.make(n, t.__origin__)
        origin, args = typing.get_origin(t), typing.get_args(t)
        if origin is Union or origin is types.UnionType:
            # a predicate applies to the whole value
            kept, self.leaves = self.leaves, []
            v = self.make(n, ctx.choice(n + ".member", list(args)))
            self.leaves = kept
            return self.leaf(t, v)
        if origin is list:
            return [self.make(f"{n}[{i}]", args[0]) for i in range(ctx.size(n + ".n", self.width))]
        if origin is set:
            return {self.make(f"{n}[{i}]", args[0]) for i in range(ctx.size(n + ".n", self.width))}
        if origin is dict:
            return {f"k{i}": self.make(f"{n}[{i}]", args[1]) for i in range(ctx.size(n + ".n", self.width))}
        if origin is tuple:
            return tuple([self.make(f"{n}[{i}]", a) for i, a in enumerate(args)])
        if dataclasses.is_dataclass(t):
            hints = typing.get_type_hints(t, include_extras=True)
            v = object.__new__(t)
            for f in dataclasses.fields(t):
                object.__setattr__(v, f.name, self.make(f"{n}.{f.name}", hints[f.name]))
            return v
        if issubclass(t, tuple):
            return t(*[self.make(f"{n}.{k}", h) for k, h in typing.get_type_hints(t).items()])
        if t.__module__ == __name__:
            v = t()
            for k, h in typing.get_type_hints(t).items():
                setattr(v, k, self.make(f"{n}.{k}", h))
            return v
        return self.leaf(t, self.scalar(t))


class Truth:
    "An arbitrary predicate on what is known."

    def __init__(self, ctx, name):
        self.ctx, self.name, self.known, self.flags, self.other = ctx, name, [], [], 0

    def of(self, *args):
        for i, k in enumerate(self.known):
            if len(k) == len(args) and all([type(a) is type(b) and a == b for a, b in zip(args, k)]):
                return self.flags[i]
        return None

    def add(self, *args):
        if self.of(*args) is None:
            self.known.append(args)
            self.flags.append(self.ctx.bool(f"{self.name}{len(self.flags)}"))

    def __call__(self, *args):
        f = self.of(*args)
        if f is None:
            self.other += 1
            return True
        return f


def predicate(ctx, t, width, how):
    m = Maker(ctx, width)
    v = m.make("v", t)
    before = ctx.snapshot(v)
    p, q = Truth(ctx, "p"), Truth(ctx, "q")
    for t, x in m.leaves:
        if how == "pred":
            p.add(t, x)
        else:
            p.add(t)
            q.add(x)
    if how == "pred":
        result = check_recursive(v, pred=p)
        expected = ctx.all_of([p.of(t, x) for t, x in m.leaves])
    elif how == "value":
        result = check_recursive(v, value_pred=q)
        expected = ctx.all_of([q.of(x) for t, x in m.leaves])
    elif how == "both":
        result = check_recursive(v, type_pred=p, value_pred=q)
        expected = ctx.all_of([ctx.any_of([ctx.not_(p.of(t)), q.of(x)]) for t, x in m.leaves])
    else:
        result, expected = check_recursive(v), True
    ctx.check(p.other == 0 and q.other == 0, "predicate applied to something that is not a property value of the declared type")
    if result:
        ctx.label("true")
        ctx.check(expected, "answer is true")
    else:
        ctx.label("false")
        ctx.check(ctx.not_(expected), "answer is false")
    ctx.check(ctx.unchanged(v, before), "object changed")


def refused(ctx):
    "Combinations of predicates without a meaning."
    p, t, v = ctx.flag("p"), ctx.flag("t"), ctx.flag("v")
    kw = {}
    for n, f in (("pred", p), ("type_pred", t), ("value_pred", v)):
        if f:
            kw[n] = lambda *args: True
    try:
        check_recursive(Inner(1, None), **kw)
    except TypeError:
        ctx.check(p and (t or v) or t and not v, "predicates refused")
        ctx.label("refused")
        return
    ctx.check(not (p and v) and not (t and not v), "predicates accepted")
    ctx.label("accepted")


def obligations():
    out = []
    for t in SIMPLE:
        out.append(Ob(f"instance:{tname(t)}", instance, t, None, 2, expect=["yes", "no"] if t is not object else ["yes"]))
    for t in DEEP + NESTED:
        out.append(Ob(f"instance:{tname(t)}", instance, t, 1, 1 if t in LARGE else 2, expect=["yes", "no"]))
        out.append(Ob(f"instance:{tname(t)}:wide", instance, t, 1, 3, tier="thorough", paths=30000, seconds=100, cost=5, expect=["yes", "no"]))
        out.append(Ob(f"instance:{tname(t)}:two", instance, t, 2, 2, tier="thorough", paths=30000, seconds=100, cost=5, expect=["yes", "no"]))
    for t in (int, str, bool, float, list, dict, object):
        out.append(Ob(f"named:{tname(t)}", named, t, expect=["done"]))
    for t in CLASSES:
        for how in ("pred", "value", "both", "none"):
            labels = ["true"] if how == "none" or t in (Empty, HasEmpty) else ["true", "false"]
            out.append(Ob(f"{how}:{tname(t)}", predicate, t, 1, how, tier="quick" if how == "pred" or how == "both" and t is not Successor else "thorough", expect=labels))
            out.append(Ob(f"{how}:{tname(t)}:wide", predicate, t, 2, how, tier="quick" if how == "value" and t not in (Outer, Successor, HasOthers, Deep) else "thorough", paths=10000, seconds=200, cost=3, expect=labels))
    out.append(Ob("refused", refused, expect=["refused", "accepted"]))
    return out
