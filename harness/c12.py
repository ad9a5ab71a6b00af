"C12: JSON property names follow one naming rule everywhere."

import keyword
from dataclasses import dataclass
from typing import Annotated, Literal, NamedTuple, Optional, Union

from strong_typing.auxiliary import Alias, int16
from strong_typing.deserializer import create_deserializer
from strong_typing.exception import JsonKeyError
from strong_typing.mapping import python_field_to_json_property
from strong_typing.schema import classdef_to_schema
from strong_typing.serialization import json_to_object, object_to_json
from strong_typing.serializer import create_serializer

from . import kit
from .api import Ob, tname

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
ADDED = [
    "x", "x_", "_x", "_x_", "x__", "type_", "match_", "case_", "_", "id_", "self_", "print_", "none_", "true_", "Class_", "class__", "from__", "in__", "in_x", "classy_",
    "klass_", "a_b_", "in_in_", "IN_", "int_", "str_", "x1_", "e",
]  # fmt: skip


def rule(name, alias):
    if alias is not None:
        return alias
    if name.endswith("_") and name[:-1] in kit.KEYWORDS:
        return name[:-1]
    return name


def identifiers(ctx, minlen, maxlen):
    "Any identifier."
    name = ctx.text("name", maxlen, minlen, LETTERS)
    got = python_field_to_json_property(name)
    is_kw = ctx.any_of([name == k + "_" for k in keyword.kwlist])
    if is_kw:
        ctx.label("keyword")
        ctx.check_same(got, name[:-1], "name of a property for a keyword")
    else:
        ctx.label("other")
        ctx.check_same(got, name, "name of a property")


def long_identifiers(ctx):
    "Identifiers of any length."
    name = ctx.str("name", minlen=1)
    how = ctx.choice("how", ["whole", "suffix", "prefix"])
    if how == "suffix":
        name = "class" + name
    elif how == "prefix":
        name = name + "class"
    got = python_field_to_json_property(name)
    if any([name == k + "_" for k in keyword.kwlist]):
        ctx.check_same(got, name[:-1], "name of a property for a keyword")
    else:
        ctx.check_same(got, name, "name of a property")


def aliases(ctx, base):
    "Any alias, however long, wins over the rule."
    alias = ctx.str("alias", minlen=1)
    name = ctx.choice("name", ["x", "class_", "x_", "_"])
    typ = Annotated[base, Alias(alias)]
    ctx.check_same(python_field_to_json_property(name, typ), alias, "alias")


def aliased_objects(ctx, kind, more):
    "Any alias is used by the serializer and the deserializer alike."
    alias = ctx.str("alias", minlen=1)
    ctx.assume(alias != "b")
    typ = make(kind, {"a": Annotated.__class_getitem__((int, *more, Alias(alias))), "b": Optional[str]})
    v = build(kind, typ, {"a": ctx.int("a"), "b": ctx.str("b")})
    j = create_serializer(typ).generate(v)
    ctx.check_same(j, {alias: v.a, "b": v.b}, "serialized with the alias")
    w = create_deserializer(typ).parse(j)
    ctx.check_same(w.a, v.a, "deserialized with the alias")


KINDS = ["dataclass", "frozen", "slots", "namedtuple", "class", "derived"]


def make(kind, hints):
    body = {"__annotations__": dict(hints), "__module__": __name__}
    if kind == "namedtuple":
        return NamedTuple("Made", list(hints.items()))
    if kind == "class":
        return type("Made", (), body)
    if kind == "frozen":
        return dataclass(frozen=True)(type("Made", (), body))
    if kind == "slots":
        return dataclass(slots=True)(type("Made", (), body))
    if kind == "derived":
        base = dataclass(type("Base", (), body))
        return dataclass(type("Made", (base,), {"__module__": __name__}))
    return dataclass(type("Made", (), body))


def build(kind, typ, values):
    if kind == "class":
        obj = typ()
        for k, v in values.items():
            setattr(obj, k, v)
        return obj
    return typ(**values)


TYPES = {
    "int": int, "optional": Optional[int], "literal": Literal[3, 4], "annotated": int16, "new": int | None, "union": Union[int, str, None],
}  # fmt: skip


def everywhere(ctx, kind, names, alias):
    name = ctx.choice("name", names)
    t = TYPES[ctx.choice("type", list(TYPES))]
    if alias is not None:
        where = ctx.choice("where", ["only", "second", "inside"])
        if where == "only":
            t = Annotated[t, Alias(alias)]
        elif where == "second":
            t = Annotated[t, "note", Alias(alias)]
        else:
            t = Annotated[Annotated[t, Alias(alias)], "note"]
    want = rule(name, alias)
    if kind == "namedtuple" and name.startswith("_"):
        return
    typ = make(kind, {"other": str, name: t})
    n = ctx.choice("value", [3, 4])
    s = ctx.str("other")
    v = build(kind, typ, {"other": s, name: n})
    expected = {"other": s, want: n}
    ctx.check_same(object_to_json(v), expected, "property written by the serializer")
    ctx.check_same(create_serializer(typ).generate(v), expected, "property written by the serializer")
    w = json_to_object(typ, expected)
    ctx.check_same(getattr(w, name), n, "property read by the deserializer")
    schema = classdef_to_schema(typ)
    ctx.check_same(sorted(schema["properties"]), sorted(["other", want]), "properties in the schema")
    required = ["other"] if "optional" in str(t).lower() or "None" in str(t) else ["other", want]
    ctx.check_same(sorted(schema["required"]), sorted(required), "required properties in the schema")
    if want != name:
        bad = {"other": s, want: n, name: n}
        try:
            json_to_object(typ, bad)
        except JsonKeyError:
            ctx.label("renamed")
        else:
            ctx.fail("name of the field accepted as that of a property")


def nested(ctx, names):
    "The rule holds for classes within classes and containers."
    name = ctx.choice("name", names)
    alias = ctx.choice("alias", [None, "ali-as"])
    want = rule(name, alias)
    t = Optional[int] if alias is None else Annotated[Optional[int], Alias(alias)]
    inner = make("dataclass", {name: t})
    how = ctx.choice("how", ["field", "list", "dict", "optional", "union", "tuple"])
    n = ctx.int("n")
    x = inner(**{name: n})
    jx = {want: n}
    if how == "field":
        typ, v, j = make("dataclass", {"f": inner}), {"f": x}, {"f": jx}
    elif how == "list":
        typ, v, j = make("frozen", {"f": list[inner]}), {"f": [x, x]}, {"f": [jx, jx]}
    elif how == "dict":
        typ, v, j = make("namedtuple", {"f": dict[str, inner]}), {"f": {"k": x}}, {"f": {"k": jx}}
    elif how == "optional":
        typ, v, j = make("dataclass", {"f": Optional[inner]}), {"f": x}, {"f": jx}
    elif how == "union":
        typ, v, j = make("dataclass", {"f": Union[int, inner]}), {"f": x}, {"f": jx}
    else:
        typ, v, j = make("dataclass", {"f": tuple[inner, int]}), {"f": (x, 1)}, {"f": [jx, 1]}
    o = typ(**v)
    ctx.check_same(object_to_json(o), j, "property written by the serializer")
    ctx.check_same(json_to_object(typ, j), o, "property read by the deserializer")
    ctx.check(f"'{want}'" in str(classdef_to_schema(typ)), "property in the schema")


def obligations():
    out = [Ob(f"identifier-{n}", identifiers, n, n, cost=3, expect=["other"]) for n in range(1, 7)]
    out += [Ob(f"identifier-{n}", identifiers, n, n, tier="thorough", cost=3, expect=["other"]) for n in range(7, 12)]
    out.append(Ob("identifier-any-length", long_identifiers, cost=3))
    for t in (int, Optional[str], list[int], Literal["x"]):
        out.append(Ob(f"alias:{tname(t)}", aliases, t))
    keywords = [k + "_" for k in keyword.kwlist]
    for i, k in enumerate(KINDS):
        out.append(Ob(f"any-alias-{k}", aliased_objects, k, ()))
        out.append(Ob(f"any-alias-second-{k}", aliased_objects, k, ("note", 5)))
        out.append(Ob(f"everywhere-{k}", everywhere, k, ADDED, None, cost=3))
        out.append(Ob(f"keywords-{k}", everywhere, k, keywords, None, cost=3, expect=["renamed"]))
        out.append(Ob(f"aliased-{k}", everywhere, k, ["x", "class_", "x_", "in_"], "ali as", cost=3, expect=["renamed"]))
    out.append(Ob("nested", nested, ["x", "class_", "x_", "None_"], cost=3))
    return out
