"C14: deserialization leaves its input alone and shares nothing with it."

from dataclasses import dataclass, field, make_dataclass
from typing import Literal, Optional, Union

from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError
from strong_typing.serialization import json_to_generic, object_to_json

from . import kit, shapes
from .api import Ob, tname
from .kit import Color

ERRORS = (JsonKeyError, JsonTypeError, JsonValueError, ValueError)


@dataclass
class Defaulted:
    items: list[int] = field(default_factory=lambda: [1])
    table: dict[str, list[int]] = field(default_factory=lambda: {"a": [1]})
    inner: shapes.Plain = field(default_factory=lambda: shapes.Plain(1, "x", True))


@dataclass(frozen=True)
class FrozenDefaulted:
    items: list[int] = field(default_factory=list)
    other: Optional[dict[str, int]] = field(default_factory=dict)


@dataclass
class Outer:
    inner: Defaulted
    maybe: Optional[Defaulted] = None
    more: list[Defaulted] = field(default_factory=list)


@dataclass
class TagA:
    tag: Literal["a"]
    items: list[int]


@dataclass
class TagB:
    tag: Literal["b"]
    items: list[str] = field(default_factory=list)


@dataclass
class Raw:
    items: list[Optional[list[int]]]
    tables: dict[str, dict[str, bool]]


def read(typ, j, how, options):
    if how == "parser":
        return create_deserializer(typ, options=options).parse(j)
    return json_to_generic(typ, j, options=options)


def check_calls(ctx, typ, j, how, options):
    snap = ctx.snapshot(j)
    try:
        v = read(typ, j, how, options)
    except ERRORS:
        ctx.label("refused")
        ctx.check(ctx.unchanged(j, snap), "the input was changed by refusing it")
        return
    ctx.label("accepted")
    ctx.check(ctx.unchanged(j, snap), "the input was changed by reading it")
    ctx.check(not ctx.shares(v, j), "the result shares a container with the input")
    shot = ctx.snapshot(v)
    w = read(typ, j, how, options)
    ctx.check(not ctx.shares(w, j), "the second result shares a container with the input")
    ctx.check(not ctx.shares(w, v), "two results share a container")
    ctx.check(ctx.unchanged(v, shot), "the first result was changed by reading anew")
    ctx.check_same(w, v, "read anew, the input gives another result")


def arbitrary(ctx, typ, depth, width, how, skip):
    j = ctx.json("j", depth=depth, width=width, keys=kit.keys_of(typ))
    check_calls(ctx, typ, j, how, DeserializerOptions(skip_unassigned=True) if skip else None)


def written(ctx, typ, width, depth):
    "Input obtained by serializing a value."
    v = kit.gen(ctx, "v", typ, width, depth)
    check_calls(ctx, typ, object_to_json(v), "generic", None)




def unshared(ctx, x, y):
    "Two parts of one result have no container in common."
    ctx.check(not ctx.shares(x, y), "two parts of a result share a container")


def twice(ctx, how):
    "The same container may be in the input in several places."
    k = ctx.choice("part", list(PARTS))
    t = PARTS[k]
    d = object_to_json(kit.gen(ctx, "v", t, 1, 2))
    where = ctx.choice("where", ["list", "list-3", "dict", "tuple", "optional", "class"])
    if where in ("list", "list-3"):
        typ, j, parts = list[t], [d] * (2 if where == "list" else 3), lambda v: v
    elif where == "dict":
        typ, j, parts = dict[str, t], {"a": d, "b": d}, lambda v: [v["a"], v["b"]]
    elif where == "tuple":
        typ, j, parts = tuple[t, t], [d, d], lambda v: v
    elif where == "optional":
        typ, j, parts = list[Optional[t]], [d, None, d], lambda v: [v[0], v[2]]
    else:
        typ = make_dataclass("TypePair", [("a", t), ("b", t)], module=__name__)
        j, parts = {"a": d, "b": d}, lambda v: [v.a, v.b]
    snap = ctx.snapshot(j)
    v = parts(read(typ, j, how, None))
    ctx.check(ctx.unchanged(j, snap), "the input was changed by reading it")
    for i in range(len(v)):
        ctx.check(not ctx.shares(v[i], j), "the result shares a container with the input")
        for n in range(i):
            unshared(ctx, v[n], v[i])
            ctx.check_same(v[n], v[i], "the same part is read differently")
    ctx.label("accepted")


PARTS = {"list": list[int], "dict": dict[str, int], "set": set[bool], "class": shapes.Plain, "deep": list[list[int]], "object": shapes.Outer, "named": shapes.PairNested}
TYPES = [
    list[int], list[str], list[list[int]], dict[str, int], dict[str, list[int]], list[dict[str, bool]], set[int], tuple[int, str], tuple[list[int], list[int]], Optional[list[int]],
    Union[int, list[int]], Union[dict[str, int], list[str]], list[Union[int, list[str]]], dict[Color, list[int]], list[Optional[list[int]]], list[set[int]], list[tuple[int, str]],
]  # fmt: skip
CLASSES = [
    Defaulted, FrozenDefaulted, Outer, Raw, shapes.Plain, shapes.Frozen, shapes.Factories, shapes.FilledFactories, shapes.Pair, shapes.PairDefaults, shapes.Annotated1,
    shapes.OptionalInner, shapes.Unions, shapes.Aliased, shapes.Tree, shapes.Chain, shapes.PairNested, shapes.Empty, Union[TagA, TagB], Union[shapes.Plain, list[int]],
]  # fmt: skip


def obligations():
    out = []
    for i, t in enumerate(TYPES):
        out.append(Ob(f"any:{tname(t)}", arbitrary, t, 3, 2, ["generic", "parser"][i % 2], False, paths=1200, expect=["refused", "accepted"]))
        out.append(Ob(f"any-wide:{tname(t)}", arbitrary, t, 3, 3, "generic", False, tier="thorough", cost=3, expect=["refused", "accepted"]))
    for i, t in enumerate(CLASSES):
        w = 2 if t in (shapes.OptionalInner, shapes.Unions) else 1
        for skip in (False, True):
            s = "skip:" if skip else ""
            out.append(Ob(f"{s}any:{tname(t)}", arbitrary, t, 3, w, ["generic", "parser"][i % 2], skip, cost=2, paths=1200, expect=["refused", "accepted"]))
            out.append(Ob(f"{s}any-wide:{tname(t)}", arbitrary, t, 4, 2, "generic", skip, tier="thorough", cost=3, expect=["refused", "accepted"]))
    for how in ("generic", "parser"):
        out.append(Ob(f"twice:{how}", twice, how, paths=3000, cost=3, expect=["accepted"]))
    for t in shapes.FLAT + shapes.NESTED:
        out.append(Ob(f"written:{tname(t)}", written, t, 1, 3, expect=["accepted"]))
    for t in shapes.RECURSIVE:
        out.append(Ob(f"written:{tname(t)}", written, t, 2, 3, expect=["accepted"]))
    return out
