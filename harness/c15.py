"C15: every serialized value validates against the schema of its type."

import dataclasses
import datetime
import enum
import ipaddress
import os
import uuid
from dataclasses import dataclass
from typing import Annotated, Any, Literal, NamedTuple, Optional, Union

from strong_typing.auxiliary import Alias, IntegerRange, MaxLength, MinLength, int8, uint64
from strong_typing.schema import JsonSchemaGenerator, SchemaOptions, Validator, classdef_to_schema
from strong_typing.serialization import object_to_json
from strong_typing.serializer import create_serializer

from . import c05, c06, kit, registered, shapes
from .api import Ob, tname
from .valid import Validity


class Many(enum.Enum):
    "More members than are listed as properties."

    A = "a"
    B = "a.b"
    C = "a|b"
    D = "(x)"
    E = "^$"
    F = ""


class Few(enum.Enum):
    A = "a"
    B = "a.*"
    C = "$ref"
    D = "properties"


class Blank(enum.Enum):
    NONE = ""
    X = "x"


class Plenty(enum.Enum):
    A = "a"
    B = "b"
    C = "c"
    D = "d"
    E = "e"


class Single(enum.Enum):
    ONLY = "only"


class Real(enum.Enum):
    HALF = 0.5
    ONE = 1.0


class Truth(enum.Enum):
    YES = True
    NO = False


@dataclass
class Documented:
    """
    Short text.

    Long text, which goes
    on.

    :param number: A number.
    :param text: A text.
    :param maybe: Perhaps.
    :param class_: A keyword.
    """

    number: int
    text: Annotated[str, Alias("te xt")]
    class_: list[int]
    maybe: Optional[shapes.Plain] = None


@dataclass
class Limits:
    percent: Annotated[int, IntegerRange(0, 100)]
    code: Annotated[str, MinLength(2), MaxLength(4)]
    maybe: Optional[Annotated[int, IntegerRange(-5, 5)]]
    other: Annotated[Optional[str], MaxLength(3)]
    small: int8
    big: uint64
    items: list[Annotated[int, IntegerRange(1, 2)]]


@dataclass
class Defaulted:
    when: datetime.date = datetime.date(2024, 2, 29)
    span: datetime.timedelta = datetime.timedelta(seconds=1)
    color: kit.Color = kit.Color.RED
    level: Optional[kit.Level] = kit.Level.HIGH
    literal: Literal["x", "y"] = "x"


def schema_of(typ, how):
    "Schema and what its references are relative to."
    if how == "generator":
        schema, definitions = JsonSchemaGenerator(SchemaOptions(definitions_path="#/$defs/")).classdef_to_schema(typ)
        return {"$defs": definitions}, schema
    if how == "expanded":
        schema, definitions = JsonSchemaGenerator().classdef_to_schema(typ, force_expand=True)
        return {"definitions": definitions}, schema
    if how == "bare":
        s = classdef_to_schema(typ, SchemaOptions(use_descriptions=False, use_examples=False), Validator.Draft201909)
    else:
        s = classdef_to_schema(typ)
    return s, s


def validity(ctx, typ, how, fixed=True):
    """
    :param fixed: Whether the type is the same on all paths.
    """
    root, s = ctx.once(("schema", tname(typ), how), lambda: schema_of(typ, how)) if fixed else schema_of(typ, how)
    return Validity(ctx, root), s


def verify(ctx, typ, v, typed, how, fixed=True):
    j = create_serializer(typ).generate(v) if typed else object_to_json(v)
    check, s = validity(ctx, typ, how, fixed)
    if ctx.native and os.environ.get("VERIF_DIFF"):
        ctx.check(check.agrees(j, s), "own validation and that of a third party differ")
    ctx.check(check.valid(j, s), "serialized value is not valid under the schema")
    ctx.label("done")


def serialized(ctx, typ, typed, how, width, depth, deep=False):
    verify(ctx, typ, kit.gen(ctx, "v", typ, width, depth, deep, True), typed, how)


def overlap(ctx, typ):
    "Members of a union that admit the same JSON value."
    v = kit.gen(ctx, "v", typ, 2, 2)
    j = create_serializer(typ).generate(v)
    check, s = validity(ctx, typ, "default")
    if check.valid(j, s):
        return
    members = s.get("oneOf", [])
    ctx.check(len([m for m in members if check.valid(j, m)]) < 2, "serialized value is valid under several members of oneOf")
    ctx.fail("serialized value is not valid under the schema")


def shaped(ctx, typed, frozen, names):
    "Classes made of fields of any kind."
    typ = c06.any_class(ctx, frozen, None, names)
    if typ is not None:
        verify(ctx, typ, kit.gen(ctx, "v", typ, 1, 2), typed, "default", False)


SCALARS = [
    bool, int, float, str, bytes, datetime.datetime, datetime.date, datetime.time, datetime.timedelta, uuid.UUID, ipaddress.IPv4Address, ipaddress.IPv6Address,
    kit.Color, kit.Level, kit.Number, kit.Word, Many, Real, Truth, Single, Literal["a"], Literal["a", "b", ""], Literal[1, 2], Literal[True], Literal[kit.Color.RED], Literal[kit.Level.LOW, kit.Level.HIGH], int8, uint64,
    Annotated[int, IntegerRange(-1, 1)], Annotated[str, MaxLength(2)], Annotated[str, MinLength(1), MaxLength(2)],
]  # fmt: skip
DICTS = [dict[Blank, int], dict[Plenty, bool], dict[Many, int], dict[Few, str], dict[Single, list[int]], dict[str, Many], list[Many], set[Few], dict[Many, Optional[int]]]
UNIONS = [
    Union[int, str], Union[bool, str], Union[str, list[int]], Union[bool, int, str], Union[shapes.Plain, int], Union[shapes.TagA, shapes.TagB], Union[None, int, str], Union[None, bool], None | list[str], int | None,
    Union[shapes.Plain, shapes.Frozen], Union[registered.Car, registered.Bike], Optional[shapes.Plain], list[Union[int, str]], dict[str, Union[bool, list[str]]], Union[datetime.date, int],
]  # fmt: skip

# members of the union admit the same JSON value
OVERLAPPING = [Union[int, float], Union[str, datetime.date], Union[list[int], list[str]], Union[shapes.Hollow, shapes.Optionals]]


def obligations():
    out = []
    hows = ["default", "generator", "expanded", "bare"]
    for t in SCALARS:
        out.append(Ob(f"scalar:{tname(t)}", serialized, t, True, "default", 2, 2, True, expect=["done"]))
    for i, t in enumerate(c05.SHALLOW + c05.NESTED + DICTS):
        out.append(Ob(f"container:{tname(t)}", serialized, t, True, hows[i % 4], 2, 3, expect=["done"]))
    for i, t in enumerate(UNIONS):
        out.append(Ob(f"union:{tname(t)}", serialized, t, True, hows[i % 4], 2, 3, expect=["done"]))
    for t in OVERLAPPING:
        out.append(Ob(f"overlap:{tname(t)}", overlap, t))
    classes = shapes.FLAT + shapes.NESTED + registered.ALL + [Documented, Limits, Defaulted]
    for i, t in enumerate(classes):
        typed = i % 2 == 0 or t is registered.Percent
        out.append(Ob(f"class:{tname(t)}", serialized, t, typed, "default", 2, 3, paths=1500, expect=["done"]))
        out.append(Ob(f"class-other:{tname(t)}", serialized, t, typed, hows[1 + i % 3], 1, 3, paths=1500, expect=["done"]))
    out.append(Ob("shaped-plain", shaped, True, False, ["in_", "b_"], cost=5, expect=["done"]))
    out.append(Ob("shaped-frozen", shaped, False, True, ["in_", "b_"], cost=5, expect=["done"]))
    out.append(Ob("shaped-3", shaped, True, False, ["in_", "b_", "c"], tier="thorough", cost=5, expect=["done"]))
    return out
