"C08: deserialization only ever returns genuine instances of the type."

import datetime
import enum
import ipaddress
import typing
import uuid
from dataclasses import dataclass
from typing import Annotated, Literal, Optional, Union

from strong_typing.auxiliary import MaxLength, int16
from strong_typing.deserializer import create_deserializer
from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError
from strong_typing.serialization import json_to_generic, json_to_object

from . import kit, shapes
from .api import Ob, tname
from .kit import Color, Level, Number, Word

TEXT = (str, bytes, datetime.datetime, datetime.date, datetime.time, datetime.timedelta, uuid.UUID, ipaddress.IPv4Address, ipaddress.IPv6Address)


def parts(typ):
    return typing.get_origin(typ), typing.get_args(typ)


def kind_ok(ctx, j, typ):
    "Whether a JSON value is of the right kind for a type; None if the type does not say."
    origin, args = parts(typ)
    if origin is Annotated:
        return kind_ok(ctx, j, args[0])
    if typ is None or typ is type(None):
        return j is None
    if origin is Literal:
        return ctx.is_a(j, type(args[0]))
    if origin in (list, set, tuple):
        return ctx.is_a(j, list)
    if origin is dict:
        return ctx.is_a(j, dict)
    if kit.is_union(typ):
        rs = [kind_ok(ctx, j, t) for t in args]
        return True if True in rs else None if None in rs else False
    if typ is float:
        return ctx.is_a(j, int) or ctx.is_a(j, float)
    if typ in (bool, int):
        return ctx.is_a(j, typ)
    if typ in TEXT:
        return ctx.is_a(j, str)
    if issubclass(typ, enum.Enum):
        return None
    return ctx.is_a(j, dict)


def has_union(typ):
    "Whether a type involves a union."
    return kit.is_union(typ) or any([has_union(t) for t in parts(typ)[1]])


def soundness(ctx, typ, depth, width, keys=None, how="generic", kinds=None):
    j = ctx.json("j", depth=depth, width=width, keys=keys, kinds=kinds)
    try:
        if how == "generic":
            v = json_to_generic(typ, j)
        elif how == "object":
            v = json_to_object(typ, j)
        else:
            v = create_deserializer(typ).parse(j)
    except (JsonKeyError, JsonTypeError, JsonValueError, ValueError) as ex:
        ctx.label("refused")
        if not kit.is_union(typ):
            ok = kind_ok(ctx, j, typ)
            if ok is not None and not ok:
                ctx.check(isinstance(ex, JsonTypeError), "JSON value of the wrong kind refused with another error")
        else:
            ctx.check(isinstance(ex, JsonKeyError), "JSON value refused by a union with another error")
        return
    ctx.label("accepted")
    ok = kind_ok(ctx, j, typ)
    ctx.check(ok is None or ok, "JSON value of the wrong kind accepted")
    ctx.check(kit.conforms(ctx, v, typ), "result is not an instance of the type")


def deep_ok(ctx, j, typ):
    "Whether a JSON value has the right kind in all positions."
    origin, args = parts(typ)
    if origin is Annotated:
        return deep_ok(ctx, j, args[0])
    if origin in (list, set):
        return ctx.is_a(j, list) and all(deep_ok(ctx, x, args[0]) for x in j)
    if origin is dict:
        return ctx.is_a(j, dict) and all(deep_ok(ctx, x, args[1]) for x in j.values())
    if kit.is_union(typ):
        return any(deep_ok(ctx, j, t) for t in args)
    return kind_ok(ctx, j, typ)


def exact(ctx, typ, depth, width):
    "Types without constraints accept what is of the right kind everywhere, and nothing else."
    j = ctx.json("j", depth=depth, width=width)
    try:
        v = json_to_generic(typ, j)
    except (JsonTypeError, JsonKeyError) as ex:
        ctx.label("refused")
        ctx.check(isinstance(ex, JsonTypeError) or has_union(typ), "refused with another error")
        ctx.check(not deep_ok(ctx, j, typ), "JSON value of the right kind refused")
        return
    ctx.label("accepted")
    ctx.check(deep_ok(ctx, j, typ), "JSON value of the wrong kind accepted")
    ctx.check(kit.conforms(ctx, v, typ), "result is not an instance of the type")


def literals(ctx, typ, values):
    "A literal accepts its values and nothing else, not even equal values of another type."
    j = ctx.json("j", depth=1, width=1)
    c = ctx.class_of(j)
    good = any([c is type(v) and bool(j == v) for v in values])
    try:
        v = json_to_generic(typ, j)
    except JsonTypeError:
        ctx.label("refused")
        ctx.check(not good, "literal value refused")
        return
    ctx.label("accepted")
    ctx.check(good, "value that is no literal of the type accepted")
    ctx.check_same(v, j, "literal value")


def enumerations(ctx, typ, members=None):
    "An enumeration, or a literal of some members, accepts the values of its members and nothing else."
    j = ctx.json("j", depth=1, width=1)
    c = ctx.class_of(j)
    ctx.assume(ctx.any_of([c is str, c is int]))
    good = None
    for m in members or typ:
        if c is type(m.value) and bool(j == m.value):
            good = m
    try:
        v = json_to_generic(typ, j)
    except (ValueError, JsonTypeError):
        ctx.label("refused")
        ctx.check(good is None, "value of a member refused")
        return
    ctx.label("accepted")
    ctx.check(good is not None, "value of no member accepted")
    ctx.check(v is good, "another member")


def wrong_item(ctx, typ, wrap, right):
    "One item of the wrong kind anywhere is refused with a type error."
    j = ctx.json("j", depth=1, width=1)
    ctx.assume(not kind_ok(ctx, j, right))
    if wrap in (wrap_field, wrap_items):
        ctx.assume(j is not None)
    try:
        json_to_generic(typ, wrap(ctx, j))
    except JsonTypeError:
        ctx.label("refused")
        return
    ctx.fail("item of the wrong kind accepted")


@dataclass
class Inner:
    number: int
    text: Optional[str] = None


@dataclass
class Holder:
    inner: Inner
    items: list[Inner]


def wrap_field(ctx, j):
    return {"inner": {"number": j}, "items": []}


def wrap_items(ctx, j):
    return {"inner": {"number": ctx.int("n")}, "items": [{"number": 1}, {"number": j, "text": ctx.str("s")}]}


WRAPS = [
    ("list-first", list[int], int, lambda ctx, j: [j, ctx.int("a")]),
    ("list-last", list[int], int, lambda ctx, j: [ctx.int("a"), ctx.int("b"), ctx.int("c"), j]),
    ("list-middle", list[str], str, lambda ctx, j: [ctx.str("a"), j, ctx.str("c")]),
    ("set", set[int], int, lambda ctx, j: [ctx.int("a"), j]),
    ("set-text", set[str], str, lambda ctx, j: [j, ctx.str("a")]),
    ("dict", dict[str, int], int, lambda ctx, j: {"x": ctx.int("a"), "y": j}),
    ("dict-bool", dict[str, bool], bool, lambda ctx, j: {ctx.str("k"): j}),
    ("tuple-0", tuple[int, str], int, lambda ctx, j: [j, ctx.str("a")]),
    ("tuple-1", tuple[int, str], str, lambda ctx, j: [ctx.int("a"), j]),
    ("tuple-2", tuple[bool, str, float], float, lambda ctx, j: [ctx.bool("a"), ctx.str("b"), j]),
    ("nested", dict[str, list[tuple[int, str]]], str, lambda ctx, j: {ctx.str("k"): [[ctx.int("a"), "x"], [1, j]]}),
    ("annotated", Annotated[list[int16], "x"], int, lambda ctx, j: [ctx.int("a"), j]),
    ("date", list[datetime.date], str, lambda ctx, j: ["2024-01-01", j]),
    ("uuid", dict[str, uuid.UUID], str, lambda ctx, j: {"x": j}),
    ("bytes", tuple[bytes, bytes], str, lambda ctx, j: ["", j]),
    ("list-of-list", list[list[int]], list[int], lambda ctx, j: [[ctx.int("a")], j]),
    ("object", list[Inner], Inner, lambda ctx, j: [{"number": ctx.int("a")}, j]),
]
FIELD_WRAPS = [("field", Holder, int, wrap_field), ("items", Holder, int, wrap_items)]

SCALARS = [bool, int, float, str, type(None), int16, Annotated[str, MaxLength(3)]]
SIMPLE = [
    list[int], list[bool], list[str], set[int], set[str], dict[str, int], dict[str, str], dict[str, bool], list[list[int]], list[dict[str, str]], dict[str, list[int]],
    dict[str, dict[str, bool]], list[set[int]], list[list[list[bool]]], Annotated[dict[str, int], 1], list[Optional[int]], dict[str, Optional[str]],
    Optional[int], Union[None, bool], dict[str, Union[None, int]], Optional[list[str]], Union[int, str], Union[bool, int, str], Union[str, list[str]], Union[dict[str, int], list[int]], list[Union[int, str]],
    Union[list[int], list[str]], Optional[dict[str, bool]], int | None, list[int | str],
]  # fmt: skip
FORMATTED = [bytes, datetime.datetime, datetime.date, datetime.time, datetime.timedelta, uuid.UUID, ipaddress.IPv4Address, ipaddress.IPv6Address]
COMPOSITE = [
    list[float], tuple[int], tuple[int, str], tuple[bool, list[int]], list[tuple[int, str]], tuple[tuple[int], tuple[str]], dict[Color, int], dict[Word, list[str]], set[Color],
    list[Level], list[Literal["a", "b"]], dict[str, Literal[1, 2]], set[tuple[int, str]], Union[Color, int], Union[Level, str, None], Union[Literal["x"], int],
]  # fmt: skip


def obligations():
    out = []
    for t in SCALARS:
        out.append(Ob(f"any:{tname(t)}", soundness, t, 2, 2, expect=["refused", "accepted"]))
        out.append(Ob(f"any-direct:{tname(t)}", soundness, t, 2, 2, None, "direct", expect=["refused", "accepted"]))
    for t in SIMPLE:
        out.append(Ob(f"exact:{tname(t)}", exact, t, 3, 2, paths=400, expect=["refused", "accepted"]))
        out.append(Ob(f"exact-wide:{tname(t)}", exact, t, 3, 3, tier="thorough", cost=2, expect=["refused", "accepted"]))
    for t in COMPOSITE:
        keys = kit.keys_of(t)
        out.append(Ob(f"any:{tname(t)}", soundness, t, 3, 2, keys, expect=["refused", "accepted"]))
        out.append(Ob(f"any-wide:{tname(t)}", soundness, t, 4, 3, keys, tier="thorough", cost=2, expect=["refused", "accepted"]))
    for t in FORMATTED:
        out.append(Ob(f"not-text:{tname(t)}", soundness, t, 2, 2, None, "generic", ["null", "bool", "int", "float", "list", "dict"], expect=["refused"]))
        out.append(Ob(f"text:{tname(t)}", soundness, t, 1, 1, None, "generic", ["str"], charlen=3, paths=300, seconds=8, expect=["refused"]))
    for t in shapes.FLAT + shapes.NESTED + shapes.RECURSIVE:
        if t in (shapes.Times, shapes.Identities, shapes.Scalars):
            continue
        out.append(Ob(f"object:{tname(t)}", soundness, t, 3, 2 if "tuple" in str(kit.fields_of(t)) else 1, kit.keys_of(t), "object", cost=3, paths=1200, expect=["refused", "accepted"]))
        out.append(Ob(f"object-wide:{tname(t)}", soundness, t, 3, 2, kit.keys_of(t), "object", tier="thorough", cost=3, paths=4000, expect=["refused", "accepted"]))
    for n, t, right, wrap in WRAPS + FIELD_WRAPS:
        out.append(Ob(f"wrong:{n}", wrong_item, t, wrap, right, expect=["refused"]))
    for t in [Literal["a"], Literal["a", "b", ""], Literal[1, 2], Literal[True], Literal[0], Literal[-1, 1], Literal["1"]]:
        out.append(Ob(f"literal:{tname(t)}", literals, t, list(parts(t)[1]), expect=["refused", "accepted"]))
    for t in [Color, Level, Number, Word]:
        out.append(Ob(f"enum:{tname(t)}", enumerations, t, expect=["refused", "accepted"]))
    for t, ms in [(Literal[Color.RED], [Color.RED]), (Literal[Level.NEGATIVE, Level.LOW], [Level.LOW, Level.NEGATIVE])]:
        out.append(Ob(f"literal-enum:{tname(t)}", enumerations, t, ms, expect=["refused", "accepted"]))
    return out
