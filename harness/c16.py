"C16: every document valid under the schema of a type deserializes."

import dataclasses
import datetime
import ipaddress
import uuid
from typing import Annotated, Literal, Optional, Union

from strong_typing.auxiliary import IntegerRange, MaxLength, MinLength, int8
from strong_typing.deserializer import create_deserializer
from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError
from strong_typing.serialization import json_to_generic, json_to_object

from . import c05, c06, c15, kit, registered, shapes
from .api import Ob, tname
from .c15 import Blank, Defaulted, Documented, Few, Limits, Many, Plenty, Real, Single, Truth, validity

ERRORS = (JsonKeyError, JsonTypeError, JsonValueError, ValueError)


def read(typ, j, how):
    if how == "generic":
        return json_to_generic(typ, j)
    if how == "object":
        return json_to_object(typ, j)
    return create_deserializer(typ).parse(j)


def defaulted(typ):
    "Names of properties that have a default."
    out = []
    for n, t in kit.fields_of(typ):
        if dataclasses.is_dataclass(typ):
            for f in dataclasses.fields(typ):
                if f.name == n and (f.default is not dataclasses.MISSING or f.default_factory is not dataclasses.MISSING):
                    out.append(kit.prop_name(n, t))
        elif issubclass(typ, tuple) and n in typ._field_defaults:
            out.append(kit.prop_name(n, t))
    return out


def accepts(ctx, typ, how, depth, width, kinds=None):
    verify(ctx, typ, ctx.json("j", depth=depth, width=max(width, kit.longest(typ)), kinds=kinds, keys=kit.keys_of(typ)), how)


def verify(ctx, typ, j, how, fixed=True):
    check, s = validity(ctx, typ, "default", fixed)
    check.formats = True
    if not check.valid(j, s):
        ctx.label("invalid")
        return
    ctx.label("valid")
    try:
        read(typ, j, how)
    except ERRORS as ex:
        ctx.fail(f"document is valid under the schema and refused by the deserializer ({type(ex).__name__})")


def refuses(ctx, typ, how, depth, width):
    "An object with an unknown property, or without a required one, is refused by either."
    j = ctx.json("j", depth=depth, width=max(width, kit.longest(typ)), kinds=["dict"], keys=kit.keys_of(typ))
    check, s = validity(ctx, typ, "default")
    if "$ref" in s:
        s = check.resolve(s["$ref"])
    try:
        read(typ, j, how)
    except ERRORS:
        ctx.label("refused")
        return
    ctx.label("accepted")
    for name in j:
        ctx.check(name in s["properties"], "property unknown to the schema accepted by the deserializer")
    with_default = defaulted(typ)
    for name in s.get("required", []):
        if name not in with_default:
            ctx.check(name in j, "property required by the schema that the deserializer does without")
    ctx.check(s["additionalProperties"] is False, "schema allows additional properties")


def shaped(ctx, frozen, names):
    typ = c06.any_class(ctx, frozen, None, names)
    if typ is not None:
        verify(ctx, typ, ctx.json("j", depth=2, width=1, kinds=["dict"], keys=kit.keys_of(typ)), "direct", False)


SCALARS = [
    bool, int, float, str, kit.Color, kit.Level, kit.Number, kit.Word, Many, Real, Truth, Single, Literal["a"], Literal["a", "b", ""], Literal[1, 2], Literal[True], Literal[kit.Color.RED], Literal[kit.Level.LOW, kit.Level.HIGH], int8,
    Annotated[int, IntegerRange(-1, 1)], Annotated[str, MaxLength(2)], Annotated[str, MinLength(1), MaxLength(2)], Optional[int], Optional[str], Union[None, bool], list[Union[None, str]],
]  # fmt: skip
FORMATTED = [bytes, datetime.datetime, datetime.date, datetime.time, datetime.timedelta, uuid.UUID, ipaddress.IPv4Address, ipaddress.IPv6Address]
CONTAINERS = [
    list[int], list[str], list[bool], list[float], list[kit.Color], dict[str, int], dict[str, bool], dict[kit.Color, int], dict[Many, int], dict[Few, str], dict[Blank, int], dict[Plenty, bool], set[int], set[str],
    set[kit.Color], tuple[int], tuple[int, str], tuple[str, bool, float], list[list[int]], list[dict[str, int]], dict[str, list[str]], list[tuple[int, str]],
    list[Optional[int]], dict[str, Optional[str]], list[Union[int, str]], tuple[Optional[int], Union[bool, str]], set[tuple[int, str]], list[Literal["x", "y"]],
]  # fmt: skip


def obligations():
    out = []
    hows = ["generic", "direct", "object"]
    for i, t in enumerate(SCALARS):
        out.append(Ob(f"scalar:{tname(t)}", accepts, t, hows[i % 3], 1, 1, expect=["valid", "invalid"]))
    for i, t in enumerate(FORMATTED):
        out.append(Ob(f"formatted:{tname(t)}", accepts, t, hows[i % 3], 0, 0, ["str", "int"], cost=6, paths=800, seconds=20, expect=["invalid"]))
    for i, t in enumerate(CONTAINERS):
        out.append(Ob(f"container:{tname(t)}", accepts, t, hows[i % 2], 2, 2, cost=2, paths=700 if t in (dict[Many, int], dict[Plenty, bool]) else 4000, expect=["valid", "invalid"]))
    for i, t in enumerate(c15.UNIONS):
        out.append(Ob(f"union:{tname(t)}", accepts, t, hows[i % 2], 2, 1, cost=2, expect=["valid", "invalid"]))
    for t in c15.OVERLAPPING:
        out.append(Ob(f"overlap:{tname(t)}", accepts, t, "generic", 2, 1, cost=2))
    simple = [t for t in shapes.FLAT if t not in (shapes.Times, shapes.Identities, shapes.Scalars, shapes.HoldsFalse)]
    for i, t in enumerate(simple + [t for t in shapes.NESTED if t is not shapes.HoldsFalse] + [Documented, Limits]):
        out.append(Ob(f"class:{tname(t)}", accepts, t, hows[i % 3], 3, 1, cost=3, paths=1200, expect=["valid", "invalid"]))
        if t is not shapes.Empty and t not in shapes.NESTED:
            out.append(Ob(f"refused:{tname(t)}", refuses, t, hows[(i + 1) % 3], 3, 1, cost=2, paths=1000, expect=["accepted", "refused"]))
    for i, t in enumerate([registered.Node, registered.Even, registered.Point, registered.Span, registered.Garage, registered.Direction, registered.Percent]):
        out.append(Ob(f"registered:{tname(t)}", accepts, t, "generic", 3, 1, cost=3, paths=1200, expect=["valid", "invalid"]))
    out.append(Ob("shaped-plain", shaped, False, ["in_", "b_"], cost=5, paths=3000, expect=["valid", "invalid"]))
    out.append(Ob("shaped-frozen", shaped, True, ["in_", "b_"], tier="thorough", cost=5, paths=3000, expect=["valid", "invalid"]))
    return out
