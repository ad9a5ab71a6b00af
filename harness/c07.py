"C07: serialization emits pure JSON, leaves the object unchanged and shares nothing with it."

import collections
import datetime
import enum
import uuid
from dataclasses import dataclass
from typing import Literal, Optional, Union

from strong_typing.serialization import object_to_json
from strong_typing.serializer import create_serializer

from . import kit, shapes
from .api import Ob, tname
from .kit import Color, Level, Word


@dataclass
class Hooked:
    payload: list[int]

    def to_json(self):
        return {"sum": len(self.payload), "items": [x for x in self.payload]}


@dataclass
class HasHooked:
    hooked: Hooked
    many: list[Hooked]
    maybe: Optional[Hooked] = None


Untyped = collections.namedtuple("Untyped", ["first", "class_"])


class Bare:
    "No annotations at all."

    def __init__(self, a, b):
        self.a = a
        self.b = b
        self.class_ = None

    def method(self):
        return 1


class Mixed(enum.Enum):
    A = "a"
    B = 2


@dataclass
class Mixes:
    mixed: Mixed
    words: dict[Word, list[Level]]
    sets: set[Color]
    pair: tuple[Color, bytes]
    raw: Optional[dict[str, bytes]] = None


def write(typ, v, typed):
    return create_serializer(typ).generate(v) if typed else object_to_json(v)


def apply(ctx, v, typ, typed):
    snap = ctx.snapshot(v)
    before = ctx.containers(v)
    j = write(typ, v, typed)
    ctx.check(kit.pure(ctx, j), "not a JSON value")
    ctx.check(ctx.unchanged(v, snap), "the value was changed by serializing it")
    for k in ctx.containers(j):
        ctx.check(k not in before, "the result shares a container with the value")
    again = write(typ, v, typed)
    first = ctx.containers(j)
    for k in ctx.containers(again):
        ctx.check(k not in first, "two results share a container")
    ctx.check_same(again, j, "serialized anew, the value gives another result")
    ctx.label("done")


def typed(ctx, typ, is_typed, width, depth):
    apply(ctx, kit.gen(ctx, "v", typ, width, depth), typ, is_typed)


def gen_untyped(ctx, name, depth):
    "A value of an untyped container, of whatever is supported."
    kinds = ["int", "str", "bool", "float", "none", "color", "date", "uuid", "bytes", "word"]
    if depth > 0:
        kinds += ["list", "tuple", "set", "dict", "enumdict", "namedtuple", "plain", "bare"]
    k = ctx.choice(name + ".kind", kinds)
    sub = lambda s: gen_untyped(ctx, name + s, depth - 1)  # noqa: E731
    if k == "int":
        return ctx.int(name)
    if k == "str":
        return ctx.str(name)
    if k == "bool":
        return ctx.bool(name)
    if k == "float":
        return ctx.float(name)
    if k == "none":
        return None
    if k == "color":
        return ctx.choice(name, list(Color))
    if k == "word":
        return ctx.choice(name, list(Word))
    if k == "date":
        return kit.gen(ctx, name, datetime.date)
    if k == "uuid":
        return kit.gen(ctx, name, uuid.UUID)
    if k == "bytes":
        return b"xyz"
    if k == "list":
        return [sub("[0]"), ctx.int(name + "[1]")]
    if k == "tuple":
        return (sub("[0]"), ctx.str(name + "[1]"))
    if k == "set":
        return {ctx.int(name + "[0]"), ctx.str(name + "[1]")}
    if k == "dict":
        return {ctx.str(name + ".key"): sub(".value")}
    if k == "enumdict":
        return {Color.RED: sub(".value"), Level.LOW: ctx.int(name + ".low")}
    if k == "namedtuple":
        return Untyped(sub(".first"), ctx.int(name + ".second"))
    if k == "plain":
        return shapes.Frozen(ctx.int(name + ".number"), None)
    return Bare(sub(".a"), [ctx.int(name + ".b")])


def untyped(ctx, depth, top):
    v = gen_untyped(ctx, "v", depth)
    if top == "list":
        v = [v]
    elif top == "dict":
        v = {ctx.str("key"): v}
    apply(ctx, v, ctx.class_of(v), False)


def keys(ctx, typ):
    "Keys that are not text are written as text."
    k = ctx.choice("k", [Color.RED, Word.NO, Level.LOW, 12, -1, ctx.str("s")])
    v = {k: ctx.int("x")}
    j = object_to_json(v)
    ctx.check(kit.pure(ctx, j), "not a JSON value")
    want = str(k.value if isinstance(k, enum.Enum) else k)
    ctx.check_same(list(j), [want], "key")


def obligations():
    out = []
    for typed_ in (True, False):
        k = "typed" if typed_ else "generic"
        for t in shapes.FLAT:
            out.append(Ob(f"{k}:{tname(t)}", typed, t, typed_, 2, 3, expect=["done"]))
        for t in shapes.NESTED + [Hooked, HasHooked]:
            out.append(Ob(f"{k}:{tname(t)}", typed, t, typed_, 2, 3, cost=3, expect=["done"]))
        out.append(Ob(f"{k}:Mixes", typed, Mixes, typed_, 1, 3, cost=3, expect=["done"]))
        for t in shapes.RECURSIVE:
            out.append(Ob(f"{k}:{tname(t)}", typed, t, typed_, 2, 4, cost=4, paths=600, expect=["done"]))
        for t in CONTAINERS:
            out.append(Ob(f"{k}:{tname(t)}", typed, t, typed_, 2, 3, expect=["done"]))
        for t in CONTAINERS:
            out.append(Ob(f"{k}:wide:{tname(t)}", typed, t, typed_, 3, 4, tier="thorough", cost=3, paths=2000, expect=["done"]))
    for top in ("list", "dict", "none"):
        out.append(Ob(f"untyped-{top}", untyped, 1, top, cost=3, expect=["done"]))
        out.append(Ob(f"untyped-deep-{top}", untyped, 2, top, tier="thorough", cost=3, expect=["done"]))
    out.append(Ob("keys", keys, None))
    return out


CONTAINERS = [
    list[int], list[Color], list[datetime.date], dict[str, int], dict[Color, list[int]], dict[Word, Level], set[str], set[uuid.UUID], tuple[int, Color, list[str]],
    list[list[int]], dict[str, dict[str, list[bool]]], list[Union[int, list[str], dict[str, int]]], Optional[list[int]], list[Optional[dict[str, int]]],
    list[Literal["a"]], list[shapes.Plain], dict[str, shapes.Frozen], tuple[shapes.Pair, shapes.Frozen], set[shapes.Frozen], list[bytes],
]  # fmt: skip
