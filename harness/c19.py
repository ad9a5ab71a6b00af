"C19: types rebuilt from a schema accept the same data."

import dataclasses
import datetime
import decimal
import enum
import ipaddress
import sys
import types
import uuid
from typing import Annotated, Literal, Optional, Union

from strong_typing.auxiliary import MaxLength, Precision, float32, float64, int16, int32, int64
from strong_typing.classdef import schema_to_type
from strong_typing.core import JsonType
from strong_typing.deserializer import create_deserializer
from strong_typing.schema import JsonSchemaGenerator
from strong_typing.serializer import create_serializer

from .api import Ob


def build(properties, required=(), definitions=None, **more):
    m = types.ModuleType("rebuilt_types")
    sys.modules["rebuilt_types"] = m
    s = {"$schema": "https://json-schema.org/draft/2020-12/schema"}
    if definitions is not None:
        s["definitions"] = definitions
    s.update({"type": "object", "properties": properties, "additionalProperties": False, **more})
    if required:
        s["required"] = list(required)
    return s, lambda: schema_to_type(s, module=m, class_name="Top"), m


TEXT_FORMATS = {
    "date-time": (datetime.datetime, "2024-02-29T01:02:03Z", datetime.datetime(2024, 2, 29, 1, 2, 3, tzinfo=datetime.timezone.utc)),
    "date": (datetime.date, "2024-02-29", datetime.date(2024, 2, 29)),
    "time": (datetime.time, "01:02:03+00:00", datetime.time(1, 2, 3, tzinfo=datetime.timezone.utc)),
    "duration": (datetime.timedelta, "PT5S", datetime.timedelta(seconds=5)),
    "uuid": (uuid.UUID, "f81d4fae-7dec-11d0-a765-00a0c91e6bf6", uuid.UUID("f81d4fae-7dec-11d0-a765-00a0c91e6bf6")),
    "ipv4": (ipaddress.IPv4Address, "192.0.2.1", ipaddress.IPv4Address("192.0.2.1")),
    "ipv6": (ipaddress.IPv6Address, "2001:db8::1", ipaddress.IPv6Address("2001:db8::1")),
}


class Leaf:
    """
    A schema of a property.

    :param schema: Without a default.
    :param typ: Expected type, or a function that tells if a type is the one.
    :param default: JSON value and what it stands for, if there can be a default.
    :param data: JSON value of the type.
    """

    def __init__(self, schema, typ, default=None, data=None):
        self.schema, self.typ, self.default, self.data = schema, typ, default, data


def is_enum_of(values):
    def test(t):
        return isinstance(t, type) and issubclass(t, enum.Enum) and [e.value for e in t] == list(values)

    return test


def boolean(ctx, n):
    b = ctx.bool(n + ".d")
    return Leaf({"type": "boolean"}, bool, (b, b), ctx.bool(n))


def integer(ctx, n):
    d = ctx.int(n + ".d")
    return Leaf({"type": "integer"}, int, (d, d), ctx.int(n))


def integer_format(ctx, n):
    f, t = ctx.choice(n + ".format", [("int16", int16), ("int32", int32), ("int64", int64), ("uint8", int), ("other", int)])
    d = ctx.int(n + ".d")
    return Leaf({"type": "integer", "format": f}, t, (d, d), ctx.int(n))


def narrowest(lo, hi):
    for t, bits in ((int16, 15), (int32, 31)):
        if lo >= -(2**bits) and hi < 2**bits:
            return t
    return int64


def integer_range(ctx, n):
    lo, hi, x, d = ctx.int(n + ".lo", -(2**63), 2**63 - 1), ctx.int(n + ".hi", -(2**63), 2**63 - 1), ctx.int(n), ctx.int(n + ".d")
    ctx.assume(lo <= hi)
    ctx.assume(ctx.all_of([x >= lo, x <= hi, d >= lo, d <= hi]))
    return Leaf({"type": "integer", "minimum": lo, "maximum": hi}, narrowest(lo, hi), (d, d), x)


def integer_half_range(ctx, n):
    d, x = ctx.int(n + ".d"), ctx.int(n)
    return Leaf({"type": "integer", ctx.choice(n + ".side", ["minimum", "maximum"]): ctx.int(n + ".limit")}, int, (d, d), x)


def integer_enum(ctx, n):
    vs = [ctx.int(f"{n}.{i}", -(2**63), 2**63 - 1) for i in range(ctx.size(n + ".size", 3, 1))]
    lo, hi = vs[0], vs[0]
    for v in vs[1:]:
        lo = v if v < lo else lo
        hi = v if v > hi else hi
    return Leaf({"type": "integer", "enum": vs}, narrowest(lo, hi), (vs[0], vs[0]), vs[-1])


def number(ctx, n):
    d = ctx.float(n + ".d")
    how = ctx.choice(n + ".how", ["plain", "float32", "float64", "other", "range"])
    s = {"plain": {}, "float32": {"format": "float32"}, "float64": {"format": "float64"}, "other": {"format": "x"}, "range": {"minimum": 0.5, "maximum": 2.5}}[how]
    return Leaf({"type": "number", **s}, {"float32": float32, "float64": float64}.get(how, float), (d, d), ctx.float(n))


def number_decimal(ctx, n, partial):
    digits, places = ctx.choice(n + ".precision", [(5, 2), (3, 0), (6, 3), (18, 9), (1, 1), (2, 1), (38, 9)])
    s = {"multipleOf": 10 ** (-places), "exclusiveMinimum": -(10 ** (digits - places)), "exclusiveMaximum": 10 ** (digits - places)}
    if partial:
        del s[ctx.choice(n + ".without", list(s))]
        return Leaf({"type": "number", **s}, float, (0.25, 0.25), 0.5)
    return Leaf({"type": "number", **s}, Annotated[decimal.Decimal, Precision(digits, places)])


def number_not_decimal(ctx, n):
    return number_decimal(ctx, n, True)


def number_precise(ctx, n):
    return number_decimal(ctx, n, False)


def text(ctx, n):
    d = ctx.str(n + ".d")
    return Leaf({"type": "string"}, str, (d, d), ctx.str(n))


def text_length(ctx, n):
    d, m = ctx.str(n + ".d"), ctx.int(n + ".max", 0)
    s = {"type": "string", "maxLength": m}
    if ctx.flag(n + ".min"):
        s["minLength"] = ctx.int(n + ".least", 0)
    return Leaf(s, Annotated[str, MaxLength(m)], (d, d), ctx.str(n))


def text_format(ctx, n):
    f = ctx.choice(n + ".format", list(TEXT_FORMATS))
    t, j, v = TEXT_FORMATS[f]
    return Leaf({"type": "string", "format": f}, t, (j, v), j)


def text_enum(ctx, n):
    vs = ctx.choice(n + ".values", [["a"], ["a", "b"], ["b", "a", "c"], ["a-b", "a_b"], ["", "x"], ["mro", "vmro"], ["_", "__", "_x_", "__x__"], ["1", "1x"], ["class", "name", "value"], ["_Top__p__x"]])
    return Leaf({"type": "string", "enum": vs}, is_enum_of(vs), (vs[-1], lambda t: list(t)[-1]), vs[0])


def text_const(ctx, n):
    v = ctx.choice(n + ".const", ["a", "", "a-b"])
    return Leaf({"type": "string", "const": v}, Literal[v], (v, v), v)


def other_const(ctx, n):
    k, v = ctx.choice(n + ".const", [("integer", 5), ("integer", 0), ("integer", 1), ("boolean", True), ("boolean", False), ("number", 0.5)])
    return Leaf({"type": k, "const": v}, Literal[v] if type(v) is not float else lambda t: str(t) == "typing.Literal[0.5]", (v, v) if type(v) is not float else None, None if type(v) is float else v)


def array(ctx, n):
    x = ctx.choice(n + ".items", [integer, text, integer_range, text_enum, boolean])(ctx, n + ".item")
    t = (lambda s: getattr(s, "__origin__", None) is list and x.typ(s.__args__[0])) if callable(x.typ) and not isinstance(x.typ, type) and not hasattr(x.typ, "__metadata__") else list[x.typ]
    return Leaf({"type": "array", "items": x.schema}, t, None, [x.data] * 2)


def array_nested(ctx, n):
    return Leaf({"type": "array", "items": {"type": "array", "items": {"type": "string"}}}, list[list[str]], None, [[ctx.str(n)], []])


def free_object(ctx, n):
    return Leaf({"type": "object"}, JsonType, None, {"x": [ctx.int(n)]})


def one_of(ctx, n):
    return Leaf({"oneOf": [{"type": "integer"}, {"type": "string"}]}, Union[int, str], None, ctx.str(n))


LEAVES = [boolean, integer, integer_format, integer_range, integer_half_range, integer_enum, number, number_not_decimal, number_precise, text, text_length, text_format, text_enum, text_const, other_const, array, array_nested, free_object, one_of]


def matches(ctx, got, want, required):
    "Whether the type of a field is the expected one, in itself if the property is required, otherwise optional."
    if callable(want) and not isinstance(want, type) and not hasattr(want, "__origin__"):
        if required:
            return want(got)
        args = getattr(got, "__args__", ())
        return getattr(got, "__origin__", None) is Union and len(args) == 2 and type(None) in args and want([a for a in args if a is not type(None)][0])
    return bool(got == (want if required else Optional[want]))


def expect(ctx, typ, name, leaf, required, defaulted):
    fields = {f.name: f for f in dataclasses.fields(typ)}
    f = fields[name]
    ctx.check(matches(ctx, f.type, leaf.typ, required), "field has another type than the property")
    if defaulted:
        want = leaf.default[1]
        if callable(want):
            t = f.type if required else [a for a in f.type.__args__ if a is not type(None)][0]
            want = want(t)
        ctx.check_same(f.default, want, "default is not the one stated")
        ctx.label("default")
    else:
        ctx.check(f.default is dataclasses.MISSING and f.default_factory is dataclasses.MISSING, "default that is not stated")


def described(ctx, typ, properties, required):
    "Schema generated from the rebuilt class."
    s, d = JsonSchemaGenerator().classdef_to_schema(typ)
    ctx.check(not d, "definitions of classes that are not registered")
    ctx.check(set(s["properties"]) == set(properties), "rebuilt class describes other properties")
    ctx.check(set(s.get("required", [])) == set(required), "rebuilt class describes other properties as required")
    ctx.check(s.get("additionalProperties") is False, "rebuilt class allows additional properties")
    for n, p in properties.items():
        q = s["properties"][n]
        for k in ("type", "enum", "const", "default", "maxLength", "items", "multipleOf", "exclusiveMinimum", "exclusiveMaximum"):
            if k == "enum" and p["type"] == "integer" or k in ("exclusiveMinimum", "exclusiveMaximum", "multipleOf") and not all(x in p for x in ("exclusiveMinimum", "exclusiveMaximum", "multipleOf")):
                continue
            if k == "items" and k in p:
                ctx.check_same(q["items"].get("type"), p["items"].get("type"), "rebuilt class describes another type of items")
                continue
            if k == "default" and (k in p) != (k in q) and p.get("format") in ("uuid", "ipv4", "ipv6") or "multipleOf" in p:
                continue  # defaults of these are not part of a schema
            if (k in p) != (k in q):
                ctx.fail(f"rebuilt class has another {k}")
            if k in p:
                ctx.check(q[k] == p[k], f"rebuilt class has another {k}")


def one(ctx, make):
    "A single property."
    leaf = make(ctx, "p")
    required = ctx.flag("required")
    defaulted = leaf.default is not None and ctx.flag("defaulted")
    p = dict(leaf.schema)
    if defaulted:
        p["default"] = leaf.default[0]
    s, run, _ = build({"p": p}, ["p"] if required else [])
    snap = ctx.snapshot(s)
    typ = run()
    ctx.check(ctx.unchanged(s, snap), "schema changed")
    ctx.check(dataclasses.is_dataclass(typ) and typ.__name__ == "Top" and typ.__module__ == "rebuilt_types", "not the class asked for")
    ctx.check([f.name for f in dataclasses.fields(typ)] == ["p"], "fields are not the properties")
    expect(ctx, typ, "p", leaf, required, defaulted)
    if make not in (free_object, one_of):
        described(ctx, typ, {"p": p}, ["p"] if required else [])
    if leaf.data is not None:
        j = {"p": leaf.data}
        v = create_deserializer(typ).parse(j)
        back = create_serializer(typ).generate(v)
        ctx.check(back == j, "data accepted by the rebuilt class changed")
    if not required:
        v = create_deserializer(typ).parse({})
        if defaulted:
            fields = {f.name: f for f in dataclasses.fields(typ)}
            ctx.check_same(v.p, fields["p"].default, "missing property is not the default")
        else:
            ctx.check(v.p is None, "missing property is not none")
    ctx.label("done")


def decimal_data(ctx):
    "Data for a property of decimal numbers."
    p = {"type": "number", "multipleOf": 0.01, "exclusiveMinimum": -1000, "exclusiveMaximum": 1000}
    _, run, _ = build({"p": p}, ["p"])
    typ = run()
    try:
        v = create_deserializer(typ).parse({"p": 0.5})
    except Exception:
        ctx.fail("decimal number is refused")
    ctx.check_same(v.p, decimal.Decimal("0.5"), "decimal number changed")


def decimal_default(ctx):
    "A default of a property of decimal numbers."
    p = {"type": "number", "multipleOf": 0.01, "exclusiveMinimum": -1000, "exclusiveMaximum": 1000, "default": 0.25}
    _, run, _ = build({"p": p}, ["p"])
    try:
        typ = run()
    except Exception:
        ctx.fail("decimal default is refused")
    ctx.check_same(dataclasses.fields(typ)[0].default, decimal.Decimal("0.25"), "decimal default changed")


def one_enum(ctx, n):
    return Leaf({"type": "string", "enum": ["b", "a"]}, is_enum_of(["b", "a"]), ("a", lambda t: list(t)[1]), "a")


def one_format(ctx, n):
    t, j, v = TEXT_FORMATS["uuid"]
    return Leaf({"type": "string", "format": "uuid"}, t, (j, v), j)


def one_const(ctx, n):
    return Leaf({"type": "string", "const": "a"}, Literal["a"], ("a", "a"), "a")


def one_array(ctx, n):
    return Leaf({"type": "array", "items": {"type": "integer"}}, list[int], None, [ctx.int(n)])


def one_length(ctx, n):
    return Leaf({"type": "string", "maxLength": 3}, Annotated[str, MaxLength(3)], ("x", "x"), "x")


SMALL = [integer, text, one_length, one_enum, one_const, boolean, one_array, one_format]


def several(ctx, names, kinds, offset):
    "Several properties, any of them required or with a default."
    props, leaves, required, defaulted = {}, {}, [], []
    for i, n in enumerate(names):
        leaf = leaves[n] = (SMALL[(offset + i) % len(SMALL)] if not kinds else ctx.choice(f"kind{i}", kinds))(ctx, n)
        props[n] = dict(leaf.schema)
        if ctx.flag(n + ".required"):
            required.append(n)
        if leaf.default is not None and ctx.flag(n + ".defaulted"):
            defaulted.append(n)
            props[n]["default"] = leaf.default[0]
    required = required[::-1]
    _, run, m = build(props, required)
    typ = run()
    want = [n for n in names if n not in defaulted] + [n for n in names if n in defaulted]
    ctx.check([f.name for f in dataclasses.fields(typ)] == want, "fields are not the properties, those without a default first")
    for n in names:
        expect(ctx, typ, n, leaves[n], n in required, n in defaulted)
    described(ctx, typ, props, required)
    ctx.label("done")


def nested(ctx):
    "Objects within objects."
    inner_required, outer_required = ctx.flag("inner"), ctx.flag("outer")
    inner = {"type": "object", "properties": {"x": {"type": "integer"}, "e": {"type": "string", "enum": ["a", "b"]}}, "additionalProperties": False}
    if inner_required:
        inner["required"] = ["x"]
    where = ctx.choice("where", ["direct", "array", "one-of"])
    p = {"direct": inner, "array": {"type": "array", "items": inner}, "one-of": {"oneOf": [{"type": "integer"}, inner]}}[where]
    _, run, m = build({"o": p, "y": {"type": "string"}}, ["o"] if outer_required else [])
    typ = run()
    fields = {f.name: f.type for f in dataclasses.fields(typ)}
    ctx.check(list(fields) == ["o", "y"], "fields")
    made = m.Top__o
    t = {"direct": made, "array": list[made], "one-of": Union[int, made]}[where]
    ctx.check(fields["o"] == (t if outer_required else Optional[t]), "type of the nested object")
    inside = {f.name: f.type for f in dataclasses.fields(made)}
    ctx.check(list(inside) == ["x", "e"], "fields of the nested object")
    ctx.check(inside["x"] == (int if inner_required else Optional[int]), "type within the nested object")
    ctx.check(is_enum_of(["a", "b"])([a for a in inside["e"].__args__ if a is not type(None)][0]), "enumeration within the nested object")
    j = {"x": ctx.int("x"), "e": "b"}
    j = {"o": [j] if where == "array" else j, "y": ctx.str("y")}
    v = create_deserializer(typ).parse(j)
    ctx.check(create_serializer(typ).generate(v) == j, "data accepted by the rebuilt class changed")
    ctx.label(where)


def definitions(ctx, n):
    "Definitions of any kind that refer to each other without a cycle."
    order = ctx.choice("order", [list(range(n)), list(range(n))[::-1], [1, 0, *range(2, n)]])
    defs, types_, back = {}, {}, {}
    kinds = {}
    for i in range(n):
        k = kinds[i] = ctx.choice(f"kind{i}", ["object", "enum", "integer", "array", "format", "union"] if i < n - 1 else ["object", "enum", "integer", "format"])
        if k == "object":
            props = {"id": {"type": "integer"}}
            for m in range(i + 1, n):
                if ctx.flag(f"edge{i}{m}"):
                    r = {"$ref": f"#/definitions/D{m}"}
                    props[f"p{m}"] = {"type": "array", "items": r} if (i + m) % 2 == 0 else r
            defs[i] = {"type": "object", "properties": props, "additionalProperties": False, "required": list(props)}
        elif k == "enum":
            defs[i] = {"type": "string", "enum": ["x", f"y{i}"]}
        elif k == "integer":
            defs[i] = {"type": "integer", "minimum": 0, "maximum": 10**i}
        elif k == "array":
            defs[i] = {"type": "array", "items": {"$ref": f"#/definitions/D{i + 1}"}}
        elif k == "format":
            defs[i] = {"type": "string", "format": "uuid"}
        else:
            defs[i] = {"oneOf": [{"type": "boolean"}, {"$ref": f"#/definitions/D{i + 1}"}]}
    _, run, m = build({"a": {"$ref": "#/definitions/D0"}, "b": {"type": "array", "items": {"$ref": f"#/definitions/D{n - 1}"}}}, ["a", "b"], {f"D{i}": defs[i] for i in order})
    origin = uuid.UUID.__module__
    typ = run()
    ctx.check(uuid.UUID.__module__ == origin, "a type of the standard library changed")

    def expected(i):
        k = kinds[i]
        if k in ("object", "enum"):
            return getattr(m, f"D{i}")
        if k == "integer":
            return int16
        if k == "array":
            return list[(expected(i + 1),)]
        if k == "format":
            return uuid.UUID
        return Union[bool, expected(i + 1)]

    fields = {f.name: f.type for f in dataclasses.fields(typ)}
    ctx.check(fields == {"a": expected(0), "b": list[(expected(n - 1),)]}, "types of references")
    for i in range(n):
        if kinds[i] == "object":
            got = {f.name: f.type for f in dataclasses.fields(getattr(m, f"D{i}"))}
            want = {"id": int}
            for k in range(i + 1, n):
                if f"p{k}" in defs[i]["properties"]:
                    want[f"p{k}"] = list[(expected(k),)] if (i + k) % 2 == 0 else expected(k)
            ctx.check(got == want, "types of references within a definition")
        elif kinds[i] == "enum":
            ctx.check([e.value for e in getattr(m, f"D{i}")] == ["x", f"y{i}"], "enumeration")
        ctx.check(getattr(m, f"D{i}") == expected(i), "definition is not in the module")
    ctx.label("done")


def any_texts(ctx, n, maxlen, alphabet):
    "Enumerations of any texts."
    vs = [ctx.text(f"t{i}", maxlen, 0, alphabet) for i in range(n)]
    for i in range(n):
        for k in range(i):
            ctx.assume(vs[i] != vs[k])
    _, run, m = build({"p": {"type": "string", "enum": vs}}, ["p"])
    typ = run()
    t = dataclasses.fields(typ)[0].type
    ctx.check(isinstance(t, type) and issubclass(t, enum.Enum), "not an enumeration")
    got = [e.value for e in t]
    ctx.check(len(got) == n, "not one member per value")
    for g, v in zip(got, vs):
        ctx.check_same(g, v, "member with another value")
    ctx.label("done")


def refused(ctx):
    "Schemas that are not supported fail."
    what = ctx.choice("what", ["definition-default", "item-default", "member-default", "additional", "dangling", "reference", "default-kind", "type"])
    p, d = {"type": "integer"}, None
    if what == "definition-default":
        d = {"A": {"type": "integer", "default": ctx.int("d")}}
    elif what == "item-default":
        p = {"type": "array", "items": {"type": "integer", "default": ctx.int("d")}}
    elif what == "member-default":
        p = {"oneOf": [{"type": "integer", "default": ctx.int("d")}]}
    elif what == "additional":
        p = {"type": "object", "properties": {"x": {"type": "integer"}}}
    elif what == "dangling":
        p = {"$ref": "#/definitions/Missing"}
    elif what == "reference":
        p = {"$ref": "#/elsewhere/X"}
    elif what == "default-kind":
        p = {"type": "integer", "default": ctx.str("d")}
    else:
        p = {"type": ctx.str("t")}
        ctx.assume(ctx.all_of([p["type"] != x for x in ("boolean", "integer", "number", "string", "array", "object")]))
    _, run, _ = build({"p": p}, ["p"], d)
    try:
        run()
    except Exception:
        ctx.label(what)
        return
    ctx.fail("unsupported schema is accepted")


def obligations():
    out = []
    for f in LEAVES:
        out.append(Ob(f"property:{f.__name__}", one, f, expect=["done"]))
    out.append(Ob("two-any", several, ["b_x", "a1"], [integer, text, integer_range, one_const, one_array], 0, cost=4, expect=["done", "default"]))
    for o in range(len(SMALL)):
        out.append(Ob(f"three-{o}", several, ["c", "a", "b"], None, o, tier="quick" if o % 2 == 0 else "thorough", cost=2, expect=["done", "default"]))
    out.append(Ob("decimal-data", decimal_data))
    out.append(Ob("decimal-default", decimal_default))
    out.append(Ob("nested", nested, expect=["direct", "array", "one-of"]))
    out.append(Ob("definitions-2", definitions, 2, expect=["done"]))
    out.append(Ob("definitions-3", definitions, 3, cost=4, expect=["done"]))
    out.append(Ob("definitions-4", definitions, 4, tier="thorough", paths=20000, seconds=100, cost=20, expect=["done"]))
    out.append(Ob("enum-1", any_texts, 1, 6, "_amro-", cost=3, expect=["done"]))
    out.append(Ob("enum-1-any", any_texts, 1, 3, None, expect=["done"]))
    out.append(Ob("enum-2", any_texts, 2, 2, "_-mv", cost=3, expect=["done"]))
    out.append(Ob("enum-2-any", any_texts, 2, 2, None, cost=3, expect=["done"]))
    out.append(Ob("enum-3", any_texts, 3, 1, "_-v", cost=3, expect=["done"]))
    out.append(Ob("enum-2-wide", any_texts, 2, 4, "_-v", tier="thorough", paths=40000, seconds=150, cost=20, expect=["done"]))
    out.append(Ob("refused", refused, expect=["definition-default", "item-default", "member-default", "additional", "dangling", "reference", "default-kind", "type"]))
    return out
