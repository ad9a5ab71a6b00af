"C33: schemas have the documented form for every type expression."

import datetime
import decimal
import enum
import ipaddress
import uuid
from dataclasses import dataclass
from typing import Annotated, Any, ForwardRef, Literal, NamedTuple, Optional, Union

from strong_typing import auxiliary
from strong_typing.auxiliary import Alias, IntegerRange, Length, MaxLength, MinLength, Precision
from strong_typing.core import JsonArray, JsonObject, JsonType
from strong_typing.schema import JsonSchemaGenerator, SchemaOptions, classdef_to_schema

from . import registered
from .registered import Span  # for forward references
from .api import Ob

HERE = __name__
NULL = type(None)
ANY = {"oneOf": [{"type": "null"}, {"type": "boolean"}, {"type": "number"}, {"type": "string"}, {"type": "array"}, {"type": "object"}]}
SIMPLE = {
    NULL: {"type": "null"},
    bool: {"type": "boolean"},
    int: {"type": "integer"},
    float: {"type": "number"},
    str: {"type": "string"},
    bytes: {"type": "string", "contentEncoding": "base64"},
    decimal.Decimal: {"type": "number"},
    datetime.datetime: {"type": "string", "format": "date-time"},
    datetime.date: {"type": "string", "format": "date"},
    datetime.time: {"type": "string", "format": "time"},
    datetime.timedelta: {"type": "string", "format": "duration"},
    uuid.UUID: {"type": "string", "format": "uuid"},
    ipaddress.IPv4Address: {"type": "string", "format": "ipv4"},
    ipaddress.IPv6Address: {"type": "string", "format": "ipv6"},
    JsonObject: {"type": "object"},
    JsonArray: {"type": "array"},
}
LIST = list(SIMPLE.items()) + [(Any, ANY)]
WIDTHS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"]
REFERRED = [(registered.Point, "Point"), (registered.Direction, "Direction"), (ForwardRef("Span"), "Span"), (registered.Percent, "Percent"), (JsonType, "JsonType")]


EXPANDED = [
    (registered.Span, {"type": "object", "properties": {"start": {"$ref": "#/$defs/Point"}, "length": {"type": "integer"}}, "additionalProperties": False, "required": ["start", "length"]}),
    (registered.Direction, {"type": "string", "enum": ["north", "south"], "title": "Where to go."}),
    (registered.Percent, {"type": "integer", "minimum": 0, "maximum": 100}),
]


class Few(enum.Enum):
    A = "a"
    B = "b c"


class Many(enum.Enum):
    A = "a.b"
    B = "b|c"
    C = "(c)"
    D = ""
    E = "^$"


class Blank(enum.Enum):
    A = ""
    B = "x"
    C = " x"
    D = "X\n"


class Four(enum.Enum):
    A = 4
    B = 0
    C = -1
    D = 23


class Five(enum.Enum):
    A = 1
    B = 2
    C = 3
    D = 5
    E = 8


class Real(enum.Enum):
    A = 0.5


class Truth(enum.Enum):
    YES = True


class Documented(enum.IntEnum):
    """
    Short.

    Long.
    """

    ONE = 1
    UNO = 1
    TWO = 2


class Days(enum.Enum):
    FIRST = uuid.UUID(int=1)


ENUMS = [
    (Few, {"type": "string", "enum": ["a", "b c"]}),
    (Many, {"type": "string", "enum": ["a.b", "b|c", "(c)", "", "^$"]}),
    (Four, {"type": "integer", "enum": [4, 0, -1, 23]}),
    (Five, {"type": "integer", "enum": [1, 2, 3, 5, 8]}),
    (Real, {"type": "number", "enum": [0.5]}),
    (Truth, {"type": "boolean", "enum": [True]}),
    (Documented, {"type": "integer", "enum": [1, 2], "title": "Short.", "description": "Long."}),
    (Days, {"type": "string", "format": "uuid"}),
]  # fmt: skip
KEYS = {
    str: None,
    int: None,
    Few: ["a", "b c"],
    Four: ["4", "0", "-1", "23"],
    Blank: ["", "x", " x", "X\n"],
    Many: r"^(a\.b|b\|c|\(c\)||\^\$)$",
    Five: "^(1|2|3|5|8)$",
}
LITERALS = [
    (Literal["a"], {"type": "string", "const": "a"}),
    (Literal["b", "a", ""], {"type": "string", "enum": ["b", "a", ""]}),
    (Literal[0], {"type": "integer", "const": 0}),
    (Literal[2, 1], {"type": "integer", "enum": [2, 1]}),
    (Literal[False], {"type": "boolean", "const": False}),
    (Literal[True, False], {"type": "boolean", "enum": [True, False]}),
    (Literal[Few.A], {"type": "string", "enum": ["a", "b c"], "const": "a"}),
    (Literal[Four.D, Four.B], {"type": "integer", "enum": [23, 0]}),
]  # fmt: skip
FORMS = ["simple", "width", "limited", "enum", "literal", "reference", "list", "set", "dict", "enum-dict", "tuple", "optional", "union", "new-union", "noted", "type", "data", "named tuple", "plain", "empty"]
FLAT = ["simple", "enum", "literal", "reference"]
FEW = [(int, SIMPLE[int]), (Any, ANY)]


def expression(ctx, name, forms, depth, path):
    "A type expression of some form, and its schema."
    kind = ctx.choice(name, forms)

    def inner(n, forms=None):
        if depth == 0:
            return scalar(n)
        return expression(ctx, f"{name}.{n}", forms or FORMS, depth - 1, path)

    def scalar(n):
        return ctx.choice(f"{name}.{n}", FEW)

    def reference(n):
        t, target = ctx.choice(f"{name}.{n}", REFERRED)
        return t, {"$ref": path() + target}

    if kind == "simple":
        return ctx.choice(name + ".simple", LIST)
    if kind == "width":
        w = ctx.choice(name + ".width", WIDTHS)
        return getattr(auxiliary, w), {"type": "number" if w.startswith("float") else "integer", "format": w}
    if kind == "limited":
        return limited(ctx, name)
    if kind == "enum":
        return ctx.choice(name + ".enum", ENUMS)
    if kind == "literal":
        return ctx.choice(name + ".literal", LITERALS)
    if kind == "reference":
        return reference("reference")
    if kind == "list":
        t, s = inner("item")
        return list[t], {"type": "array", "items": s}
    if kind == "set":
        t, s = inner("item")
        return set[t], {"type": "array", "items": s, "uniqueItems": True}
    if kind == "dict":
        k = ctx.choice(name + ".key", [str, int])
        t, s = inner("value")
        return dict[k, t], {"type": "object", "additionalProperties": s}
    if kind == "enum-dict":
        k = ctx.choice(name + ".key", [Few, Four, Many, Five, Blank])
        t, s = inner("value")
        if isinstance(KEYS[k], str):
            return dict[k, t], {"type": "object", "propertyNames": {"pattern": KEYS[k]}, "additionalProperties": s}
        return dict[k, t], {"type": "object", "properties": {v: s for v in KEYS[k]}, "additionalProperties": False}
    if kind == "tuple":
        items = [inner("first")] + [scalar(f"item{i}") for i in range(ctx.size(name + ".more", 1))]
        return tuple[tuple(t for t, _ in items)], {"type": "array", "minItems": len(items), "maxItems": len(items), "prefixItems": [s for _, s in items]}
    if kind == "optional":
        t, s = inner("type", [f for f in FORMS if f not in ("optional", "union", "new-union", "reference", "simple")] + ["flat-simple"])
        return Optional[t], {"oneOf": [s, {"type": "null"}]}
    if kind == "flat-simple":
        return scalar("simple")
    if kind in ("union", "new-union"):
        t, s = inner("type", ["width", "enum", "literal", "list", "dict", "tuple", "data"])
        if kind == "union":
            return Union[t, bool, None], {"oneOf": [s, {"type": "boolean"}, {"type": "null"}]}
        return datetime.date | t | str, {"oneOf": [SIMPLE[datetime.date], s, {"type": "string"}]}
    if kind == "noted":
        t, s = inner("type", [f for f in FORMS if f not in ("width", "limited", "noted", "reference")])
        return Annotated[t, "note"], s
    if kind == "type":
        if ctx.flag(name + ".registered"):
            # written in full, as there is no reference within a constant
            t, s = ctx.choice(name + ".expanded", EXPANDED)
            if t is registered.Span:
                s = {**s, "properties": {**s["properties"], "start": {"$ref": path() + "Point"}}}
            return type[t], {"const": s}
        t, s = inner("type", ["enum", "literal", "list", "data", "dict", "tuple", "limited"])
        return type[t], {"const": s}
    return composite(ctx, name, kind, depth, inner, scalar)


def limited(ctx, name):
    kind = ctx.choice(name + ".limit", ["range", "max", "min", "both", "precision", "length", "other"])
    if "." in name:
        a, b = ctx.choice(name + ".values", [(1, 3), (0, 0)])
    else:
        a, b = ctx.int(name + ".a"), ctx.int(name + ".b")
    if kind == "range":
        ctx.assume(ctx.not_(ctx.all_of([a == 0, b == 100])))  # else it is the registered type of that range
        return Annotated[int, IntegerRange(a, b)], {"type": "integer", "minimum": a, "maximum": b}
    if kind == "max":
        return Annotated[str, MaxLength(a)], {"type": "string", "maxLength": a}
    if kind == "min":
        return Annotated[bytes, MinLength(a)], {"type": "string", "contentEncoding": "base64", "minLength": a}
    if kind == "both":
        return Annotated[str, "note", MaxLength(a), MinLength(b)], {"type": "string", "minLength": b, "maxLength": a}
    if kind == "length":
        return Annotated[str, Length(a)], {"type": "string", "minLength": a, "maxLength": a}
    if kind == "precision":
        p, low, high = ctx.choice(name + ".p", [(Precision(9, 6), 1e-6, 1000), (Precision(5, 2), 0.01, 1000), (Precision(3), 1, 1000), (Precision(4, 4), 1e-4, 1)])
        return Annotated[float, p], {"type": "number", "multipleOf": low, "exclusiveMinimum": -high, "exclusiveMaximum": high}
    return Annotated[int, "note", a], {"type": "integer"}


PROPERTIES = [("first", None, "first"), ("class_", None, "class"), ("third", "other name", "other name"), ("_private", None, "_private")]


def composite(ctx, name, kind, depth, inner, scalar):
    hints, properties, required = {}, {}, []
    if kind == "empty":
        t = type("Made", (), {"__annotations__": {}, "__module__": HERE})
        if ctx.flag(name + ".data"):
            return dataclass(t), {"type": "object", "additionalProperties": False}
        return t, {"type": "object"}
    n = 1 + ctx.size(name + ".more", 1)
    for i in range(n):
        field, alias, out = ctx.choice(f"{name}.name{i}", PROPERTIES[2 * i : 2 * i + 2] if kind != "named tuple" else [PROPERTIES[2 * i]])
        t, s = inner("first") if i == 0 else (uuid.UUID, SIMPLE[uuid.UUID])
        ctx.assume(t is not JsonType and "#JsonType" not in str(s).replace("/", "#"))  # a union with null makes for an optional property; its members are spelled out
        # a property of an optional type may be left out
        optional = [x for x in s.get("oneOf", []) if x != {"type": "null"}] if "oneOf" in s and s is not ANY and {"type": "null"} in s["oneOf"] else None
        if optional is not None:
            s = optional[0] if len(optional) == 1 else {"oneOf": optional}
        elif i == 0 and ctx.flag(f"{name}.optional{i}") and t is not Any and t is not NULL and "oneOf" not in s and not isinstance(t, ForwardRef):
            t = Optional[t]
        else:
            required.append(out)
        hints[field] = Annotated[t, Alias(alias)] if alias else t
        if alias and isinstance(t, ForwardRef):
            hints[field] = t
            properties[field] = s
            if out in required:
                required[required.index(out)] = field
            continue
        if alias and "$ref" in s:
            # an annotation of others keeps a registered type from being referred to
            hints[field] = t
            properties[field] = s
            if out in required:
                required[required.index(out)] = field
            continue
        if alias and "format" in s and t in [getattr(auxiliary, w) for w in WIDTHS]:
            hints[field] = t
            properties[field] = s
            if out in required:
                required[required.index(out)] = field
            continue
        properties[out] = s
    want = {"type": "object", "properties": properties, "additionalProperties": False}
    if required:
        want["required"] = required
    if kind == "named tuple":
        t = NamedTuple("Made", list(hints.items()))
        t.__module__ = HERE
        return t, want
    t = type("Made", (), {"__annotations__": hints, "__module__": HERE})
    return dataclass(t) if kind == "data" else t, want


def in_order(x):
    "The order of words does not matter, except for that of properties."
    if isinstance(x, dict):
        return {k: in_order(x[k]) for k in (x if all(k not in x for k in ("type", "oneOf", "const", "$ref", "pattern")) or not isinstance(x.get("type", ""), str) else sorted(x))}
    if isinstance(x, list):
        return [in_order(v) for v in x]
    return x


def documented(ctx, forms, depth):
    made = []

    def path():
        if not made:
            made.append(ctx.choice("path", ["#/definitions/", "#/$defs/"]))
        return made[0]

    t, want = expression(ctx, "t", forms, depth, path)
    options = SchemaOptions(definitions_path=made[0] if made else "#/$defs/")
    s, _ = JsonSchemaGenerator(options).classdef_to_schema(t)
    ctx.check(ctx.unchanged(in_order(s), ctx.snapshot(in_order(want))), "schema is not of the documented form")
    ctx.label("done")


# what has no schema


class Mixed(enum.Enum):
    A = 1
    B = "b"


class Nothing(enum.Enum):
    pass


REFUSED = [Mixed, Nothing, Literal["a", 1], Literal[1, True], dict[float, int], dict[bytes, int], dict[tuple[int, str], int], dict[Optional[str], int], dict[Any, int]]
WRAP = {"bare": lambda t: t, "list": lambda t: list[t], "optional": lambda t: Optional[t], "value": lambda t: dict[str, t], "noted": lambda t: Annotated[t, "x"], "union": lambda t: Union[int, t],
        "property": lambda t: dataclass(type("Made", (), {"__annotations__": {"x": t}, "__module__": HERE})), "item": lambda t: tuple[int, t], "type": lambda t: type[t]}  # fmt: skip


def refused(ctx):
    "Types whose values have no consistent form are refused wherever they occur."
    t = ctx.choice("type", REFUSED)
    w = ctx.choice("wrap", list(WRAP))
    try:
        if ctx.flag("function"):
            classdef_to_schema(WRAP[w](t))
        else:
            JsonSchemaGenerator().classdef_to_schema(WRAP[w](t))
    except ValueError:
        ctx.label(w)
        return
    ctx.fail("schema of a type whose values have no consistent form")


def obligations():
    out = []
    for k in FORMS:
        out.append(Ob(f"flat:{k}", documented, [k], 0, expect=["done"]))
        if k not in ("simple", "width", "limited", "enum", "literal", "reference", "empty"):
            out.append(Ob(f"nested:{k}", documented, [k], 1, paths=6000, cost=3, expect=["done"]))
            out.append(Ob(f"deep:{k}", documented, [k], 2, tier="thorough", paths=20000, seconds=60, cost=9, expect=["done"]))
    out.append(Ob("refused", refused, expect=list(WRAP)))
    return out
