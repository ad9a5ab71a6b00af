"C32: schemas carry the documentation, default values, examples and names of types."

import dataclasses
import datetime
import enum
import uuid
from dataclasses import dataclass, field
from typing import Annotated, Any, ForwardRef, Literal, NamedTuple, Optional, Union

import jsonschema

from strong_typing.auxiliary import Alias, IntegerRange, MaxLength
from strong_typing.schema import (
    JsonSchemaGenerator,
    SchemaOptions,
    Validator,
    classdef_to_schema,
    get_class_property_docstrings,
    get_schema_identifier,
    json_schema_type,
    register_schema,
    validate_object,
)
from strong_typing.serialization import json_to_object

from . import kit, registered, shapes
from .api import Ob, tname
from .valid import Validity

HERE = __name__
LETTERS = "abc(),.: \n"


def generator(ctx, **kw):
    return JsonSchemaGenerator(SchemaOptions(**kw)) if kw else JsonSchemaGenerator()


# documentation of types


def make(kind, doc, name="Thing"):
    "A type of some kind with the given documentation, or none."
    ns = {"__module__": HERE, "__annotations__": {"one": int, "two": Optional[str]}}
    if doc is not None:
        ns["__doc__"] = doc
    if kind == "plain":
        return type(name, (), ns)
    if kind == "named tuple":
        t = NamedTuple(name, [("one", int), ("two", Optional[str])])
        if doc is not None:
            t.__doc__ = doc
        return t
    if kind in ("text enum", "date enum"):
        t = enum.Enum(name, {"A": "a", "B": "b"} if kind == "text enum" else {"A": uuid.UUID(int=1), "B": uuid.UUID(int=2)}, module=HERE)
        if doc is not None:
            t.__doc__ = doc
        return t
    if kind == "empty":
        return dataclass(type(name, (), {**ns, "__annotations__": {}}))
    if kind == "derived":
        base = dataclass(type("Base", (), {"__module__": HERE, "__annotations__": {"one": int}, "__doc__": "Base class.\n\nLong text of base class."}))
        return dataclass(type(name, (base,), {**ns, "__annotations__": {"two": Optional[str]}}))
    return dataclass(frozen=kind == "frozen", slots=kind == "slots")(type(name, (), ns))


KINDS = ["plain", "data", "frozen", "slots", "derived", "empty", "named tuple", "text enum", "date enum"]


def stripped(ctx, name, length, alphabet, inner=" "):
    "A text that neither starts nor ends with white space or a colon."
    s = ctx.text(name, length, 1, alphabet=alphabet)
    for i in range(len(s)):
        ctx.assume(not s[i].isspace())
        if i == 0:
            ctx.assume(s[i] != ":")
    return s


class Documentation:
    "Some documentation, and what it consists of."

    def __init__(self, ctx, length, alphabet, params):
        form = ctx.choice("doc", ["none", "empty", "short", "lines", "long", "two-long"] + (["params", "short-params", "long-params"] if params else []))
        self.form, self.short, self.long, self.params = form, None, None, {}
        if form == "none":
            self.text = None
            return
        if form == "empty":
            self.text = ""
            return
        parts = []
        if form != "params":
            s = stripped(ctx, "short", length, alphabet)
            self.short = s
            if form == "lines":
                more = stripped(ctx, "more", length, alphabet)
                self.short = s + " " + more
                s = s + "\n    " + more
            parts.append(s)
        if form in ("long", "two-long", "long-params"):
            self.long = stripped(ctx, "long", length, alphabet)
            s = self.long
            if form == "two-long":
                more = stripped(ctx, "more", length, alphabet)
                self.long = self.long + "\n\n" + more
                s = s + "\n\n    " + more
            parts.append(s)
        if params and form.endswith("params"):
            d = stripped(ctx, "param", length, alphabet)
            self.params["one"] = d
            parts.append(f":param one: {d}")
        self.text = "\n\n    ".join(parts)


def described(ctx, s, doc, on):
    "A schema has exactly the texts of the documentation."
    for word, want in (("title", doc.short), ("description", doc.long)):
        if on and want is not None:
            ctx.check(word in s and type(s[word]) is not bool, f"no {word}")
            ctx.check_same(s[word], want, f"another {word}")
        else:
            ctx.check(word not in s, f"unexpected {word}")


def types_doc(ctx, kind, length, alphabet, own):
    """
    :param own: Whether the type is registered with a schema of its own.
    """
    enumeration = kind.endswith("enum")
    doc = Documentation(ctx, length, alphabet, not enumeration and kind not in ("derived", "empty"))
    typ = make(kind, doc.text)
    where = ctx.choice("where", ["registered", "optional"] if own else ["top", "property", "list", "expanded", "registered", "optional"])
    on = ctx.flag("descriptions")
    options = SchemaOptions(use_descriptions=on)
    if where == "top":
        s, d = JsonSchemaGenerator(options).classdef_to_schema(typ)
    elif where == "list":
        s, d = JsonSchemaGenerator(options).classdef_to_schema(list[typ])
        ctx.check(set(s) == {"type", "items"}, "documentation of an item type is that of the list")
        s = s["items"]
    elif where == "property":
        outer = type("Outer", (), {"__module__": HERE, "__annotations__": {"prop": typ}})
        s, d = JsonSchemaGenerator(options).classdef_to_schema(outer)
        ctx.check(set(s) == {"type", "properties", "additionalProperties", "required"}, "documentation of a property type is that of the class")
        s = s["properties"]["prop"]
    elif where == "expanded":
        register_schema(typ)
        s, d = JsonSchemaGenerator(options).classdef_to_schema(typ, force_expand=True)
    else:
        register_schema(typ, {"type": "string"} if own else None)
        s, d = JsonSchemaGenerator(options).classdef_to_schema(typ if where == "registered" else Optional[typ])
        ctx.check(set(d) == {"Thing"}, "definitions")
        ctx.check("title" not in s and "description" not in s, "documentation next to a reference")
        s, d = d["Thing"], {}
    ctx.check(len(d) == 0, "definitions")
    described(ctx, s, doc, on)
    if doc.params and not own:
        ctx.check_same(s["properties"]["one"].get("description", ""), doc.params["one"], "documentation of a property")
        ctx.check("description" not in s["properties"]["two"], "documentation of another property")
    ctx.label(doc.form)


# documentation of properties


def alter(owner, name, text):
    return f"{owner.__name__}/{name}/{text}"


def chain(ctx, levels, how, names):
    """
    A chain of classes, each of which declares and documents some of the properties.
    """
    base, said, declared = (), {}, []
    for level in range(levels):
        own, lines = {}, [f"Class {level}."]
        for n in names:
            state = ctx.choice(f"{n}{level}", ["absent", "declared", "documented"])
            if state == "absent":
                continue
            own[n] = int
            if n not in declared:
                declared.append(n)
            if state == "documented":
                # neither ever longer nor ever shorter from a class to the next
                said[n] = f"Text of {n} at {level}." + " More." * ([2, 0] if levels == 2 else [1, 2, 0])[level]
                lines.append(f":param {n}: {said[n]}")
        if len(lines) > 1:
            lines.insert(1, "")
        ns = {"__module__": HERE, "__annotations__": own, "__doc__": "\n    ".join(lines)}
        t = type(f"Level{level}", base, ns)
        base = (dataclass(t) if how == "data" else t,)
    return base[0], said, declared


def inherited(ctx, levels, how, names, use):
    typ, said, declared = chain(ctx, levels, how, names)
    calls = []

    def transform(owner, name, text):
        calls.append((owner, name, text))
        return alter(owner, name, text)

    if use == "function":
        got = get_class_property_docstrings(typ)
    elif use == "function-transform":
        got = get_class_property_docstrings(typ, transform)
        said = {n: alter(typ, n, d) for n, d in said.items()}
    else:
        options = SchemaOptions(property_description_fun=transform if use == "transform" else None)
        s, d = JsonSchemaGenerator(options).classdef_to_schema(typ)
        ctx.check(set(s.get("properties", {})) == set(declared), "properties")
        got = {n: p["description"] for n, p in s.get("properties", {}).items() if "description" in p}
        ctx.check(all(set(p) <= {"type", "description"} for p in s.get("properties", {}).values()), "something else in a property")
        if use == "transform":
            said = {n: alter(typ, n, d) for n, d in said.items()}
    ctx.check(got == said, "documentation of properties is not that of the nearest class")
    if "transform" in use:
        ctx.check(len(calls) == len(said) and all(o is typ for o, _, _ in calls), "calls of the function that transforms documentation")
    ctx.label("some" if said else "none")


DOCUMENTED = {
    "int": (int, {"type": "integer"}),
    "optional": (Optional[bool], {"type": "boolean"}),
    "alias": (Annotated[int, Alias("other-name")], {"type": "integer"}),
    "limit": (Annotated[str, MaxLength(5)], {"type": "string", "maxLength": 5}),
    "list": (list[int], {"type": "array", "items": {"type": "integer"}}),
    "enum": (kit.Color, {"type": "string", "enum": ["red", "green"]}),
    "class": (shapes.Plain, None),
    "documented-class": (registered.Route, None),
    "registered": (registered.Point, {"$ref": "#/definitions/Point"}),
    "optional-registered": (Optional[registered.Direction], {"$ref": "#/definitions/Direction"}),
    "forward": (ForwardRef("Point"), {"$ref": "#/definitions/Point"}),
    "union": (Union[int, registered.Point], {"oneOf": [{"type": "integer"}, {"$ref": "#/definitions/Point"}]}),
    "literal": (Literal["x"], {"type": "string", "const": "x"}),
    "annotated-registered": (registered.Percent, {"$ref": "#/definitions/Percent"}),
}


def property_doc(ctx, kind, length, alphabet):
    "The documentation of a property takes the place of that of its type, and changes nothing else."
    t, want = DOCUMENTED[kind]
    text = stripped(ctx, "text", length, alphabet)
    on, changed = ctx.flag("descriptions"), ctx.choice("changed", ["no", "altered", "emptied"])
    fun = {"no": None, "altered": alter, "emptied": lambda owner, name, text: ""}[changed]
    typ = dataclass(type("Owner", (), {"__module__": HERE, "__annotations__": {"in_": t, "two": t}, "__doc__": f"Owner.\n\n    :param in_: {text}"}))
    s, d = JsonSchemaGenerator(SchemaOptions(use_descriptions=on, property_description_fun=fun)).classdef_to_schema(typ)
    name = "other-name" if kind == "alias" else "in"
    if kind == "alias":
        # both are known under the same name
        typ = dataclass(type("Owner", (), {"__module__": HERE, "__annotations__": {"in_": t}, "__doc__": typ.__doc__}))
        s, d = JsonSchemaGenerator(SchemaOptions(use_descriptions=on, property_description_fun=fun)).classdef_to_schema(typ)
    got = s["properties"][name]
    if want is None or kind == "enum":
        want, _ = JsonSchemaGenerator(SchemaOptions(use_descriptions=on)).classdef_to_schema(t)
    want = dict(want)
    if changed != "emptied":
        want.pop("title", None)
        want["description"] = alter(typ, "in_", text) if changed == "altered" else text
    ctx.check(ctx.unchanged(in_order(got), ctx.snapshot(in_order(want))), "the schema of a documented property is not that of its type with the documentation")
    if kind != "alias":
        plain, _ = JsonSchemaGenerator(SchemaOptions(use_descriptions=on)).classdef_to_schema(t)
        if kind not in ("forward", "optional", "optional-registered"):
            ctx.check(ctx.unchanged(in_order(s["properties"]["two"]), ctx.snapshot(in_order(plain))), "documentation of one property is that of another")
    ctx.label(changed)


def in_order(d):
    return {k: d[k] for k in sorted(d)}


# default values

UTC = datetime.timezone.utc


class Number(enum.Enum):
    ZERO = 0
    ONE = 1


class Text(enum.Enum):
    EMPTY = ""
    X = "x"


def two(n):
    return f"{n // 10}{n % 10}"


def default_of(ctx, kind):
    "A type, a default value, and what stands for it in JSON."
    if kind == "bool":
        v = ctx.bool("v")
        return bool, v, v
    if kind == "int":
        v = ctx.int("v")
        return int, v, v
    if kind == "float":
        v = ctx.float("v")
        return float, v, v
    if kind == "str":
        v = ctx.str("v")
        return str, v, v
    if kind == "number":
        v = ctx.choice("v", list(Number))
        return Number, v, v.value
    if kind == "text":
        v = ctx.choice("v", list(Text))
        return Text, v, v.value
    if kind == "literal":
        v = ctx.choice("v", ["", "x"])
        return Literal["", "x"], v, v
    if kind == "limited":
        v = ctx.int("v", 0, 100)
        return Annotated[int, IntegerRange(0, 100)], v, v
    if kind == "union":
        v = ctx.int("v") if ctx.flag("number") else ctx.str("s")
        return Union[int, str], v, v
    if kind == "date":
        day = ctx.int("day", 1, 28)
        return datetime.date, datetime.date(2024, 2, day), "2024-02-" + two(day)
    if kind == "time":
        h, m, s = ctx.int("h", 0, 23), ctx.int("m", 0, 59), ctx.int("s", 0, 59)
        return datetime.time, datetime.time(h, m, s), f"{two(h)}:{two(m)}:{two(s)}"
    if kind == "duration":
        n = ctx.int("n", 0, 59)
        return datetime.timedelta, datetime.timedelta(seconds=n), f"PT{n}S"
    if kind == "timestamp":
        h = ctx.int("h", 0, 23)
        return datetime.datetime, datetime.datetime(2024, 2, 29, h, 5, 6, tzinfo=UTC), f"2024-02-29T{two(h)}:05:06Z"
    raise AssertionError(kind)


DEFAULTS = ["bool", "int", "float", "str", "number", "text", "literal", "limited", "union", "date", "time", "duration", "timestamp"]
OWNERS = ["data", "field", "slots", "frozen", "keyword-only", "plain", "inherited", "redeclared", "named tuple", "factory", "overridden-by-factory"]


def defaults(ctx, kind, owner):
    t, v, j = default_of(ctx, kind)
    form = ctx.choice("form", ["own", "optional", "alias"])
    if form == "optional":
        t = Optional[t]
    elif form == "alias":
        t = Annotated[t, Alias("other-name")]
    name = "other-name" if form == "alias" else "in"
    typ, shown = owner_of(owner, t, v)
    s, d = JsonSchemaGenerator().classdef_to_schema(typ)
    p = s["properties"]
    ctx.check(set(p) == {"first", name}, "properties")
    ctx.check("default" not in p["first"], "default of another property")
    if shown:
        ctx.check("default" in p[name], "no default")
        ctx.check_same(p[name]["default"], j, "default is another value")
    else:
        ctx.check("default" not in p[name], "default where there is none")
    ctx.label(form)


def owner_of(owner, t, v):
    "A class of some kind with a property of the given type and default value, and whether the default is one to be shown."
    ns = {"__module__": HERE, "__annotations__": {"first": str, "in_": t}, "__doc__": "Owner."}
    if owner in ("data", "slots", "frozen", "keyword-only"):
        kw = {} if owner == "data" else {owner.replace("keyword-only", "kw_only"): True}
        return dataclass(**kw)(type("Owner", (), {**ns, "in_": v})), True
    if owner == "field":
        return dataclass(type("Owner", (), {**ns, "in_": field(default=v)})), True
    if owner == "plain":
        return type("Owner", (), {**ns, "in_": v}), True
    if owner == "inherited":
        base = dataclass(type("Base", (), {**ns, "in_": v}))
        return dataclass(type("Owner", (base,), {"__module__": HERE, "__annotations__": {}, "__doc__": "Owner."})), True
    if owner == "redeclared":
        base = dataclass(type("Base", (), {**ns, "in_": field(default_factory=lambda: v)}))
        return dataclass(type("Owner", (base,), {"__module__": HERE, "__annotations__": {"in_": t}, "__doc__": "Owner.", "in_": v})), True
    if owner == "named tuple":
        base = NamedTuple("Owner", [("first", str), ("in_", t)])
        base.__doc__ = "Owner."
        base._field_defaults["in_"] = v
        return base, True
    if owner == "factory":
        return dataclass(type("Owner", (), {**ns, "in_": field(default_factory=lambda: v)})), False
    base = dataclass(type("Base", (), {**ns, "in_": v}))
    return dataclass(type("Owner", (base,), {"__module__": HERE, "__annotations__": {"in_": t}, "__doc__": "Owner.", "in_": field(default_factory=lambda: v)})), False


# values that JSON has no form of its own for, or that stand for the absence of a value
WITHOUT = {"none": (Optional[int], None), "list": (list[int], [1]), "tuple": (tuple[int, int], (1, 2)), "uuid": (uuid.UUID, uuid.UUID(int=1)), "bytes": (bytes, b"a"), "class": (shapes.Frozen, None), "dict": (Any, {"a": 1})}


def no_default(ctx, owner, kind):
    t, v = WITHOUT[kind]
    ns = {"__module__": HERE, "__annotations__": {"in_": t}, "__doc__": "Owner.", "in_": v}
    typ = type("Owner", (), ns)
    if owner == "data":
        if isinstance(v, (list, dict)):
            typ.in_ = field(default_factory=lambda: v)
        typ = dataclass(typ)
    s, _ = JsonSchemaGenerator().classdef_to_schema(typ)
    ctx.check("default" not in s["properties"]["in"], "default where there is none")


# examples


class Sample:
    x: int


def examples(ctx, how, refers):
    "Examples are those given, wherever the type is defined."
    form = ctx.choice("examples", ["none", "empty", "one", "two"])
    given = None if form == "none" else [] if form == "empty" else [{"x": ctx.int("x")}, {"x": ctx.json("j", 1, 1)}][: 1 if form == "one" else 2]
    before = ctx.snapshot(given)
    name = "Sample"
    typ = type("Sample", (), {"__module__": HERE, "__annotations__": {"x": int}})
    if how == "decorated":
        ctx.check(json_schema_type(examples=given)(typ) is typ, "another type is returned")
    elif how == "named":
        name = "Own name"
        ctx.check(register_schema(typ, name=name, examples=given) is typ, "another type is returned")
    elif how == "own":
        ctx.check(register_schema(typ, {"type": "object"}, examples=given) is typ, "another type is returned")
    elif how == "annotated":
        name, typ = "Special", Annotated[int, IntegerRange(0, 5)]
        ctx.check(register_schema(typ, None, "Special", given) is typ, "another type is returned")
    elif how == "alias":
        name, typ = "List", list[typ]
        register_schema(typ, None, "List", given)
    on = ctx.flag("on")
    options = SchemaOptions(use_examples=on)
    t = ForwardRef(name) if refers == "name" else {"self": typ, "optional": Optional[typ], "list": list[typ], "dict": dict[str, typ]}[refers]
    s, d = JsonSchemaGenerator(options).classdef_to_schema(t)
    ctx.check(list(d) == [name], "definitions")
    ctx.check("examples" not in s, "examples next to a reference")
    if on and given:
        ctx.check(ctx.unchanged(d[name].get("examples"), before), "examples are not those given")
        ctx.check(not ctx.shares(d, given), "examples shared")
    else:
        ctx.check("examples" not in d[name], "examples where there are none")
    ctx.check(ctx.unchanged(given, before), "examples changed")
    ctx.check(get_schema_identifier(typ) == name, "identifier")
    ctx.label(form)


# registration

NAMES = {
    "plain": (lambda: type("Thing", (), {"__module__": HERE, "__annotations__": {"x": int}}), "Thing"),
    "enum": (lambda: enum.Enum("Thing", {"A": "a"}, module=HERE), "Thing"),
    "underscores": (lambda: dataclass(type("_Thing__of_", (), {"__module__": HERE, "__annotations__": {"x": int}})), "_Thing__of_"),
    "lower": (lambda: type("été9", (), {"__module__": HERE, "__annotations__": {"x": int}}), "été9"),
    "list": (lambda: list[registered.Point], None),
    "optional": (lambda: Optional[int], None),
    "dict": (lambda: dict[str, int], None),
    "union": (lambda: Union[int, str], None),
}


def registration(ctx, kind, own):
    "A type is registered once, under its name; a failure changes nothing."
    make, derived = NAMES[kind]
    typ = make()
    how = ctx.choice("how", ["function", "named", "decorator", "with-parentheses"]) if derived else "named"
    schema = {"type": "object", "maxProperties": ctx.int("n")} if own else None
    name = derived
    ctx.check(get_schema_identifier(typ) is None, "identifier of a type that is not registered")
    if not derived and ctx.flag("nameless"):
        try:
            register_schema(typ, schema)
            ctx.fail("registered without a name")
        except TypeError:
            ctx.check(get_schema_identifier(typ) is None, "registered without a name")
    if how == "function":
        got = register_schema(typ, schema)
    elif how == "named":
        name = "Own." + (derived or "name")
        got = register_schema(typ, schema, name)
    elif how == "decorator" and not own:
        got = json_schema_type(typ)
    else:
        got = json_schema_type(schema=schema)(typ) if own else json_schema_type()(typ)
    ctx.check(got is typ, "another type is returned")
    ctx.check(get_schema_identifier(typ) == name, "identifier")
    again = ctx.choice("again", ["no", "same", "another-name", "decorator", "forward"] if derived else ["no", "another-name", "forward"])
    if again != "no":
        try:
            if again == "same":
                register_schema(typ, schema)
            elif again == "another-name":
                register_schema(typ, {"type": "null"}, "Another")
            elif again == "decorator":
                json_schema_type(examples=[1])(typ)
            else:
                register_schema(ForwardRef("Thing"), name="Forward")
            ctx.fail("registered again")
        except ValueError:
            ctx.check(again != "forward", "error")
        except TypeError:
            ctx.check(again == "forward", "error")
        ctx.check(get_schema_identifier(typ) == name, "identifier changed by a failure")
    for t in (typ, ForwardRef(name)) if name.isidentifier() else (typ,):
        s, d = JsonSchemaGenerator().classdef_to_schema(t)
        ctx.check(s == {"$ref": "#/definitions/" + name}, "reference")
        ctx.check(name in d, "definition")
        if own:
            ctx.check_same(d[name], schema, "the definition is not the schema given")
            ctx.check(not ctx.shares(d, schema), "the schema given is shared")
        else:
            want, _ = JsonSchemaGenerator().classdef_to_schema(typ, force_expand=True)
            ctx.check(d[name] == want, "the definition is not the schema of the type")
    if again in ("another-name", "forward"):
        try:
            JsonSchemaGenerator.type_catalog.get(ForwardRef("Another" if again == "another-name" else "Forward"))
            ctx.fail("known under a name although registration failed")
        except KeyError:
            pass
    ctx.label(again)


# the function

DIALECTS = {
    "Draft7": "http://json-schema.org/draft-07/schema#",
    "Draft201909": "https://json-schema.org/draft/2019-09/schema",
    "Draft202012": "https://json-schema.org/draft/2020-12/schema",
    "Latest": "https://json-schema.org/draft/2020-12/schema",
}
ASSORTED = [int, str, Optional[int], list[str], registered.Node, registered.Journey, registered.Direction, registered.Percent, shapes.Plain, dict[kit.Color, int], Union[registered.Car, registered.Bike], ForwardRef("Point"), Any]


def function(ctx):
    "The document names the dialect and holds the definitions; it is otherwise the schema of the type."
    typ = ctx.choice("type", ASSORTED)
    dialect = ctx.choice("dialect", list(DIALECTS))
    options = ctx.choice("options", [None, SchemaOptions(), SchemaOptions(use_descriptions=False, use_examples=False)])
    s = classdef_to_schema(typ, options, Validator[dialect]) if dialect != "Latest" else classdef_to_schema(typ, options)
    ctx.check(s["$schema"] == DIALECTS[dialect], "dialect")
    ctx.check(list(s)[0] == "$schema", "the dialect does not come first")
    top, d = JsonSchemaGenerator(options).classdef_to_schema(typ)
    ctx.check({k: v for k, v in s.items() if k not in ("$schema", "definitions")} == top, "another schema")
    ctx.check(s.get("definitions", {}) == d and ("definitions" in s) == bool(d), "definitions")


NOT_TYPES = [1, "text", None, 2.5, [int], {"a": int}, (int,), len, enum, True, b"x"]


def not_types(ctx):
    x = ctx.choice("x", NOT_TYPES)
    how = ctx.choice("how", ["function", "generator", "expand", "validate"])
    try:
        if how == "function":
            classdef_to_schema(x)
        elif how == "validate":
            validate_object(x, 1)
        else:
            JsonSchemaGenerator().classdef_to_schema(x, force_expand=how == "expand")
    except TypeError:
        return
    ctx.fail("schema of something that is not a type")


BROKEN = [{"type": "whole"}, {"type": 1}, {"required": "x"}, {"minLength": -1}, {"properties": []}, {"pattern": 5}]


def broken(ctx):
    "A schema given for a type that is none is refused."
    typ = type("Thing", (), {"__module__": HERE, "__annotations__": {"x": int}})
    register_schema(typ, ctx.choice("schema", BROKEN))
    t = ctx.choice("refers", [typ, Optional[typ], list[typ], dict[str, typ]])
    try:
        classdef_to_schema(t, validator=ctx.choice("dialect", list(Validator)))
    except TypeError:
        ctx.label("refused")
        return
    ctx.fail("a definition that is not a schema")


VALUES = [None, True, 0, 101, 1.5, "", "red", "north", [], ["x"], [1, 2], {}, {"x": 1, "y": 2}, {"x": 1}, {"value": 1, "children": [{"value": 2, "children": []}]}, {"value": 1, "children": [{"value": "2", "children": []}]}, {"red": 1}, {"blue": 1}, {"kind": "car", "seats": 4}, {"kind": "bike", "seats": 4}]  # fmt: skip


def validates(ctx):
    "A value is refused exactly if it is not valid under the schema of the type."
    typ = ctx.choice("type", [int, str, Optional[int], list[str], registered.Node, registered.Point, registered.Direction, registered.Percent, dict[kit.Color, int], Union[registered.Car, registered.Bike], tuple[int, int], Any])
    v = ctx.choice("value", VALUES)
    s = classdef_to_schema(typ)
    want = bool(Validity(ctx, s).valid(v, s))
    try:
        validate_object(typ, v)
        ok = True
    except jsonschema.exceptions.ValidationError:
        ok = False
    ctx.check(ok == want, "refused although valid" if want else "accepted although not valid")
    ctx.label("valid" if ok else "invalid")


def obligations():
    out = []
    forms = ["none", "empty", "short", "lines", "long", "two-long"]
    for i, k in enumerate(KINDS):
        more = [] if k.endswith("enum") or k in ("derived", "empty") else ["params", "short-params", "long-params"]
        out.append(Ob(f"type-doc:{k}", types_doc, k, 1, None, False, cost=3, expect=forms + more))
        out.append(Ob(f"type-doc-own:{k}", types_doc, k, 1, None, True, tier="quick" if i % 3 == 0 else "thorough", expect=forms + more))
        out.append(Ob(f"type-doc-longer:{k}", types_doc, k, 2, None, False, tier="thorough", paths=20000, seconds=60, cost=8, expect=forms + more))
    for how in ("data", "plain"):
        for use in ("function", "function-transform", "schema", "transform"):
            out.append(Ob(f"inherited-2:{how}:{use}", inherited, 2, how, ["one", "two"], use, expect=["some", "none"]))
            out.append(Ob(f"inherited-3:{how}:{use}", inherited, 3, how, ["one"], use, expect=["some", "none"]))
            out.append(Ob(f"inherited-3-two:{how}:{use}", inherited, 3, how, ["one", "two"], use, tier="thorough", cost=5, expect=["some", "none"]))
    for k in DOCUMENTED:
        out.append(Ob(f"property-doc:{k}", property_doc, k, 2, None, expect=["no", "altered", "emptied"]))
    for i, k in enumerate(DEFAULTS):
        for m, o in enumerate(OWNERS):
            out.append(Ob(f"default:{k}:{o}", defaults, k, o, tier="quick" if (i + m) % 3 == 0 or k in ("int", "text") else "thorough", expect=["own", "optional", "alias"]))
    for k in WITHOUT:
        for o in ("data", "plain"):
            out.append(Ob(f"no-default:{k}:{o}", no_default, o, k))
    for how in ("decorated", "named", "own", "annotated", "alias"):
        for r in ("self", "optional", "list", "name", "dict"):
            if r == "name" and how == "named":
                continue
            out.append(Ob(f"examples:{how}:{r}", examples, how, r, expect=["none", "empty", "one", "two"]))
    for k in NAMES:
        for own in (False, True):
            out.append(Ob(f"registration:{k}:{'own' if own else 'derived'}", registration, k, own, expect=["no", "another-name", "forward"]))
    out.append(Ob("document", function))
    out.append(Ob("not-a-type", not_types))
    out.append(Ob("not-a-schema", broken, expect=["refused"]))
    out.append(Ob("validation", validates, expect=["valid", "invalid"]))
    return out
