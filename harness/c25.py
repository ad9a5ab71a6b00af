"C25: the first use of types from several threads at the same time."

from se import threads

threads.enable()

import datetime  # noqa: E402
import enum  # noqa: E402
import uuid  # noqa: E402
from dataclasses import dataclass, field  # noqa: E402
from typing import Literal, NamedTuple, Optional, Union  # noqa: E402

from strong_typing.deserializer import DeserializerOptions, create_deserializer  # noqa: E402
from strong_typing.schema import classdef_to_schema  # noqa: E402
from strong_typing.serialization import json_to_object, object_to_json  # noqa: E402
from strong_typing.serializer import create_serializer  # noqa: E402

from . import same_a, same_b  # noqa: E402
from .api import Ob  # noqa: E402
from .c25_types import Owner, Registered  # noqa: E402
from .kit import Color  # noqa: E402


@dataclass
class Plain:
    number: int
    text: str


@dataclass
class Tree:
    value: int
    children: list["Tree"] = field(default_factory=list)


@dataclass
class Ping:
    number: int
    pong: Optional["Pong"] = None


@dataclass
class Pong:
    number: int
    ping: Optional["Ping"] = None


@dataclass
class Inner:
    number: int
    color: Color


@dataclass
class Outer:
    inner: Inner
    more: list[Inner] = field(default_factory=list)


@dataclass(frozen=True)
class Frozen:
    inner: Inner


class Couple(NamedTuple):
    first: Inner
    second: Optional[Plain] = None


@dataclass
class A:
    tag: Literal["a"]
    inner: Inner


@dataclass
class B:
    tag: Literal["b"]
    number: int


@dataclass
class Holder:
    item: Union[A, B]


@dataclass
class Broken:
    items: list  # an item type is missing


@dataclass
class UsesBroken:
    plain: Plain
    broken: Optional[Broken] = None
    again: Optional["UsesBroken"] = None


@dataclass
class Base:
    "A base class."

    plain: Plain


@dataclass
class Derived(Base):
    """
    A derived class.

    :param other: Something else.
    """

    other: Optional[Plain] = None


class Regular:
    number: int
    inner: Inner

    def __init__(self, number=0, inner=None):
        self.number, self.inner = number, inner


class Shade(enum.Enum):
    LIGHT = "light"
    DARK = 1
    NONE = "none"


class Grade(enum.IntEnum):
    LOW = 1
    HIGH = 3


def describe(v):
    "Plain data that tell values apart."
    if isinstance(v, (set, frozenset)):
        return ["set", sorted(describe(x) for x in v)]
    if isinstance(v, bytes):
        return ["bytes", list(v)]
    if isinstance(v, (datetime.date, uuid.UUID)):
        return [type(v).__name__, str(v)]
    if isinstance(v, (list, tuple)) and not hasattr(v, "_fields"):
        return [describe(x) for x in v]
    if isinstance(v, dict):
        return {k.name if isinstance(k, enum.Enum) else k: describe(x) for k, x in v.items()}
    if isinstance(v, enum.Enum):
        return [type(v).__name__, v.name]
    if hasattr(v, "_fields"):
        return [type(v).__name__, [describe(getattr(v, n)) for n in v._fields]]
    if hasattr(v, "__dict__"):
        return [type(v).__name__, {k: describe(x) for k, x in v.__dict__.items()}]
    return v


def inner(n):
    return {"number": n, "color": ""}


def read(t, make, options=None):
    return lambda n: json_to_object(t, make(n), options=options)


def parser(t, make):
    return lambda n: create_deserializer(t).parse(make(n))


def write(make):
    return lambda n: object_to_json(make(n))


def generator(t, make):
    return lambda n: create_serializer(t).generate(make(n))


def an_inner(n):
    return Inner(n, Color.BLUE)


R = {
    "read plain": read(Plain, lambda n: {"number": n, "text": "x"}),
    "read tree": read(Tree, lambda n: {"value": n, "children": [{"value": 1, "children": [{"value": 2}]}]}),
    "read ping": read(Ping, lambda n: {"number": n, "pong": {"number": 1, "ping": {"number": 2}}}),
    "read pong": read(Pong, lambda n: {"number": n, "ping": {"number": 1, "pong": {"number": 2}}}),
    "parse ping": parser(Ping, lambda n: {"number": n, "pong": {"number": 1}}),
    "read inner": read(Inner, inner),
    "read outer": read(Outer, lambda n: {"inner": inner(n), "more": [inner(1)]}),
    "read outers": read(list[Outer], lambda n: [{"inner": inner(n)}]),
    "read frozen": read(Frozen, lambda n: {"inner": inner(n)}),
    "read couple": read(Couple, lambda n: {"first": inner(n), "second": {"number": 1, "text": "y"}}),
    "read tagged": read(Union[A, B], lambda n: {"tag": "a", "inner": inner(n)}),
    "read holder": read(Holder, lambda n: {"item": {"tag": "a", "inner": inner(n)}}),
    "read wrong": read(Outer, lambda n: {"inner": {"number": "?", "color": "red"}}),
    "read broken": read(Broken, lambda n: {"items": []}),
    "read uses-broken": read(UsesBroken, lambda n: {"plain": {"number": n, "text": "x"}}),
    "read derived": read(Derived, lambda n: {"plain": {"number": n, "text": "x"}, "other": {"number": 1, "text": "y"}}),
    "read base": read(Base, lambda n: {"plain": {"number": n, "text": "x"}}),
    "read regular": read(Regular, lambda n: {"number": n, "inner": inner(1)}),
    "read skipping": read(Tree, lambda n: {"value": n, "children": [{"value": 1}]}, DeserializerOptions(skip_unassigned=True)),
    "read same a": read(same_a.Holder, lambda n: {"item": {"number": n, "kind": "x"}}),
    "read same b": read(same_b.Holder, lambda n: {"item": {"text": "x", "kind": "xx"}}),
    "read shade": read(Shade, lambda n: "none"),
    "read shade 2": read(list[Shade], lambda n: [1, "light"]),
    "read no shade": read(Shade, lambda n: "bright"),
    "read grade": read(tuple[Grade, int], lambda n: [3, n]),
    "read shades": read(dict[Shade, list[Optional[Grade]]], lambda n: {"none": [3, None]}),
    "read literal": read(Literal["x", "y"], lambda n: "y"),
    "read set": read(set[str], lambda n: ["y", "x"]),
    "read assorted": read(tuple[datetime.date, bytes, uuid.UUID], lambda n: ["2024-02-29", "AAEC", "12345678-1234-5678-1234-567812345678"]),
    "write assorted": write(lambda n: [datetime.date(2024, 2, 29), b"abc", uuid.UUID(int=5), n, None, {"x": Shade.NONE}]),
    "write shade": write(lambda n: {"x": Shade.NONE, "y": [Grade.HIGH]}),
    "write plain": write(lambda n: Plain(n, "x")),
    "write tree": write(lambda n: Tree(n, [Tree(1, [Tree(2)])])),
    "write ping": write(lambda n: Ping(n, Pong(1, Ping(2)))),
    "write pong": write(lambda n: Pong(n, Ping(1, Pong(2)))),
    "generate pong": generator(Pong, lambda n: Pong(n, Ping(1))),
    "write outer": write(lambda n: Outer(an_inner(n), [an_inner(1)])),
    "write inner": write(an_inner),
    "write frozen": write(lambda n: Frozen(an_inner(n))),
    "write couple": write(lambda n: Couple(an_inner(n), Plain(1, "y"))),
    "write regular": write(lambda n: Regular(n, an_inner(1))),
    "write derived": write(lambda n: Derived(Plain(n, "x"), Plain(1, "y"))),
    "write base": write(lambda n: Base(Plain(n, "x"))),
    "schema registered": lambda n: classdef_to_schema(Registered),
    "schema owner": lambda n: classdef_to_schema(Owner),
    "write owner": write(lambda n: Owner(Registered(n))),
}

PAIRS = [
    ("read tree", "read tree"), ("read ping", "read pong"), ("read ping", "parse ping"), ("read inner", "read outer"), ("read outer", "read outer"), ("read outers", "read frozen"),
    ("read couple", "read inner"), ("read couple", "read couple"), ("read tagged", "read holder"), ("read tagged", "read tagged"), ("read outer", "read wrong"),
    ("read broken", "read broken"), ("read broken", "read uses-broken"), ("read uses-broken", "read uses-broken"), ("read derived", "read base"), ("read derived", "read derived"),
    ("read regular", "read regular"), ("read skipping", "read tree"), ("read same a", "read same b"), ("read plain", "write plain"),
    ("write tree", "write tree"), ("write ping", "write pong"), ("write pong", "generate pong"), ("write outer", "write inner"), ("write outer", "write outer"), ("write couple", "write couple"),
    ("write frozen", "write inner"), ("write regular", "write regular"), ("write derived", "write base"), ("write tree", "read tree"),
    ("read shade", "read shade"), ("read shade", "read shade 2"), ("read no shade", "read shade 2"), ("read grade", "read shades"), ("read shades", "read shades"), ("read literal", "read literal"),
    ("read set", "read set"), ("read assorted", "read assorted"), ("write shade", "write shade"), ("write assorted", "write assorted"),
    ("schema registered", "schema owner"), ("schema owner", "write owner"),
]  # fmt: skip


def outcome(f, n):
    try:
        return ["value", describe(f(n))]
    except Exception as e:
        return ["error", type(e).__name__]


class Schedule:
    "Takes a thread's turn away after given numbers of statements, counted over all threads."

    def __init__(self, ctx, at):
        self.ctx, self.at, self.k = ctx, at, 0

    def __call__(self, n, me, others):
        if self.k < len(self.at) and self.ctx.reached(n, self.at[self.k], self.k):
            self.k += 1
            return others[0]
        return None


def concurrent(ctx, names, preemptions, window=None):
    fs = [R[n] for n in names]
    ns = [ctx.int(f"n{i}", -1000, 1000) for i in range(len(fs))]
    at = []
    for k in range(preemptions):
        p = ctx.int(f"preempt{k}", 1)
        if at:
            ctx.assume(p > at[-1])
            if window:
                ctx.assume(p <= at[-1] + window)
        at.append(p)
    alone = [ctx.isolated(lambda f=f, n=n: outcome(f, n), (name, i)) for i, (name, f, n) in enumerate(zip(names, fs, ns))]

    def together():
        r = threads.run([lambda f=f, n=n: outcome(f, n) for f, n in zip(fs, ns)], Schedule(ctx, at))
        again = [outcome(f, n) for f, n in zip(fs, ns)]
        return [[x[1] if x[0] == "value" else ["failed", type(x[1]).__name__] for x in r], again]

    got, again = ctx.isolated(together)
    for g, a, b in zip(got, alone, again):
        ctx.check_same(g, a, "a thread gets another result than it does alone")
        ctx.check_same(b, a, "after the threads have finished, results are others")
    ctx.label("done")


def obligations():
    out = []
    for a, b in PAIRS:
        for x, y in {(a, b): 0, (b, a): 0}:
            schema = x.startswith("schema")
            # a schema takes thousands of statements
            tier = "thorough" if schema and (x, y) != ("schema registered", "schema owner") else "quick"
            out.append(Ob(f"{x}, {y}", concurrent, [x, y], 1, tier=tier, cost=40 if schema else 3, paths=10000, seconds=200, expect=["done"]))
            if not schema:
                out.append(Ob(f"{x}, {y}: twice", concurrent, [x, y], 2, 20, tier="thorough", paths=20000, seconds=60, cost=30, expect=["done"]))
        if not a.startswith("schema"):
            out.append(Ob(f"{a}, {b}, {a}", concurrent, [a, b, a], 2, 5, tier="thorough", paths=20000, seconds=60, cost=30, expect=["done"]))
    return out
