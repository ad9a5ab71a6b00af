"C31: type inspection agrees with how a type expression has been formed."

import dataclasses
import datetime
import enum
import sys
import types
import typing
import uuid
from dataclasses import dataclass
from typing import Annotated, Any, ClassVar, ForwardRef, Literal, NamedTuple, Optional, Union

from strong_typing.auxiliary import IntegerRange, MaxLength, MinLength, int32
from strong_typing.inspection import (
    DataclassField, create_data_type, create_module, create_object, dataclass_field_by_name, dataclass_fields, enum_value_types, evaluate_member_type, evaluate_type,
    get_annotation, get_class_properties, get_class_property, get_module_classes, get_module_functions, get_resolved_hints, get_signature, is_dataclass_instance,
    is_dataclass_type, is_generic_dict, is_generic_list, is_generic_set, is_named_tuple_instance, is_named_tuple_type, is_reserved_property, is_type_annotated, is_type_enum,
    is_type_like, is_type_literal, is_type_optional, is_type_union, rewrap_annotated_type, unwrap_annotated_type, unwrap_generic_dict, unwrap_generic_list, unwrap_generic_set,
    unwrap_literal_types, unwrap_literal_value, unwrap_literal_values, unwrap_optional_type, unwrap_union_types,
)  # fmt: skip

from .api import Ob

HERE, THERE = "harness_c31_here", "harness_c31_there"


class Plain:
    pass


@dataclass
class Data:
    number: int


@dataclass
class Child(Data):
    text: str = ""


class Pair(NamedTuple):
    first: int
    second: str = ""


class Lonely(NamedTuple):
    pass


class Fields(tuple):
    "Not a named tuple, its `_fields` not being names."

    _fields = (1, 2)


class Points(list):
    _fields = ("x", "y")


class Color(enum.Enum):
    RED = 1
    GREEN = "green"


class Level(enum.IntEnum):
    LOW = 1


class Word(str, enum.Enum):
    YES = "yes"


class Hollow(enum.Enum):
    pass


LEAVES = {
    int: "plain", str: "plain", bytes: "plain", uuid.UUID: "plain", datetime.date: "plain", list: "plain", dict: "plain", tuple: "plain", Plain: "plain", Fields: "plain", Points: "plain",
    Data: "data", Child: "data", Pair: "named", Lonely: "named", Color: "enum", Level: "enum", Word: "enum", Hollow: "enum",
}  # fmt: skip
FEW = [int, Data, Pair, Color]
NOTES = [MaxLength(3), MinLength(0), IntegerRange(-1, 1), "note", 0, None, ""]
NULL = type(None)
FORMS = ["leaf", "list", "set", "dict", "tuple", "frozenset", "optional", "new-optional", "union", "union-null", "null-first", "null-optional", "new-null-optional", "new-union", "new-union-null", "literal", "literals"]


class Form:
    "How a type expression has been formed."

    def __init__(self, kind, typ, items=(), notes=()):
        self.kind, self.typ, self.items, self.notes = kind, typ, items, notes


def annotated(ctx, name, f, most):
    """
    :param most: At most this many notes, or "few" for at most one out of two.
    """
    if most == "few":
        if ctx.flag(name + ".noted"):
            note = ctx.choice(name + ".note", [IntegerRange(0, 1), ""])
            return Form(f.kind, Annotated[f.typ, note], f.items, (note,))
        return f
    n = ctx.size(name + ".notes", most)
    if n == 0:
        return f
    notes = tuple(ctx.choice(f"{name}.note{i}", NOTES if n == 1 else NOTES[i::2]) for i in range(n))
    return Form(f.kind, Annotated[(f.typ, *notes)], f.items, notes)


def form(ctx, name, forms, leaves, depth, most):
    kind = ctx.choice(name, forms)

    def inner(n):
        if depth == 0:
            return form(ctx, f"{name}.{n}", ["leaf"], FEW, 0, most)
        return form(ctx, f"{name}.{n}", forms, FEW, depth - 1, most)

    def scalar(n):
        "A type that is not a union, such that a union of it has it as a member."
        if depth == 0:
            return form(ctx, f"{name}.{n}", ["leaf"], FEW, 0, 0)
        return form(ctx, f"{name}.{n}", ["leaf", "list", "literal"], FEW, 0, most)

    if kind == "leaf":
        t = ctx.choice(name + ".leaf", leaves)
        f = Form(LEAVES[t], t)
    elif kind in ("list", "set", "frozenset"):
        a = inner("a")
        f = Form(kind, {"list": list, "set": set, "frozenset": frozenset}[kind][a.typ], (a.typ,))
    elif kind == "dict":
        a = inner("a")
        f = Form(kind, dict[str, a.typ], (str, a.typ))
    elif kind == "tuple":
        a = inner("a")
        f = Form(kind, tuple[a.typ, bool], (a.typ, bool))
    elif kind == "literal":
        v = ctx.choice(name + ".value", ["a", "", 0, 1, True, b"x", Color.RED])
        f = Form("literal", Literal[v], (v,))
    elif kind == "literals":
        v = ctx.choice(name + ".value", [("a", 1), (1, "1", True), (False, 0), ("", Color.GREEN, -1)])
        f = Form("literal", Literal[v], v)
    elif kind == "optional":
        a = scalar("a")
        f = Form("union", Optional[a.typ], (a.typ, NULL))
    elif kind == "new-optional":
        a = scalar("a")
        f = Form("union", a.typ | None, (a.typ, NULL))
    elif kind == "union":
        a = scalar("a")
        f = Form("union", Union[a.typ, datetime.time], (a.typ, datetime.time))
    elif kind == "new-union":
        a = scalar("a")
        f = Form("union", datetime.time | a.typ, (datetime.time, a.typ))
    elif kind == "union-null":
        a = scalar("a")
        f = Form("union", Union[a.typ, float, None], (a.typ, float, NULL))
    elif kind == "null-first":
        a = scalar("a")
        f = Form("union", Union[None, a.typ, dict[str, int], float], (NULL, a.typ, dict[str, int], float))
    elif kind == "null-optional":
        a = scalar("a")
        f = Form("union", Union[None, a.typ], (NULL, a.typ))
    elif kind == "new-null-optional":
        a = scalar("a")
        f = Form("union", None | a.typ, (NULL, a.typ))
    elif kind == "new-union-null":
        a = scalar("a")
        f = Form("union", None | a.typ | float, (NULL, a.typ, float))
    return annotated(ctx, name, f, most)


def alike(s, t):
    "Whether types are the same, including what values in them are."
    m, n = getattr(s, "__metadata__", None), getattr(t, "__metadata__", None)
    if m is not None or n is not None:
        return m is not None and n is not None and len(m) == len(n) and all(x is y for x, y in zip(m, n)) and alike(s.__origin__, t.__origin__)
    o, p = typing.get_origin(s), typing.get_origin(t)
    if o in (Union, types.UnionType):
        v, w = typing.get_args(s), typing.get_args(t)
        return p in (Union, types.UnionType) and len(v) == len(w) and all(any(alike(x, y) for y in w) for x in v)
    if o is Literal:
        return p is o and same_values(typing.get_args(s), typing.get_args(t))
    if o is None:
        return s is t
    return o is p and len(typing.get_args(s)) == len(typing.get_args(t)) and all(alike(x, y) for x, y in zip(typing.get_args(s), typing.get_args(t)))


def same_values(v, w):
    return isinstance(v, tuple) and len(v) == len(w) and all(type(x) is type(y) and x == y for x, y in zip(v, w))


PREDICATES = {
    "optional": is_type_optional, "strictly optional": lambda t: is_type_optional(t, strict=True), "not strictly optional": lambda t: is_type_optional(t, False), "union": is_type_union,
    "literal": is_type_literal, "list": is_generic_list, "set": is_generic_set, "dict": is_generic_dict, "enumeration": is_type_enum, "data class": is_dataclass_type,
    "named tuple": is_named_tuple_type, "annotated": is_type_annotated, "type": is_type_like, "data class instance": is_dataclass_instance, "named tuple instance": is_named_tuple_instance,
}  # fmt: skip


def verify_predicates(ctx, f):
    null = f.kind == "union" and NULL in f.items
    expected = {
        "optional": null, "strictly optional": null and len(f.items) == 2, "not strictly optional": null, "union": f.kind == "union" and (not null or len(f.items) > 2),
        "literal": f.kind == "literal", "list": f.kind == "list", "set": f.kind == "set", "dict": f.kind == "dict", "enumeration": f.kind == "enum", "data class": f.kind == "data",
        "named tuple": f.kind == "named", "annotated": len(f.notes) > 0, "type": True, "data class instance": False, "named tuple instance": False,
    }  # fmt: skip
    for k, fn in PREDICATES.items():
        ctx.check(fn(f.typ) is expected[k], f"{k}: not {expected[k]}")


def verify_parts(ctx, f):
    "Parts of an expression, metadata being kept."

    def noted(t):
        return Annotated[(t, *f.notes)] if f.notes else t

    bare = f.typ.__origin__ if f.notes else f.typ
    ctx.check(alike(unwrap_annotated_type(f.typ), bare), "type without metadata")
    if f.kind == "list":
        ctx.check(alike(unwrap_generic_list(f.typ), noted(f.items[0])), "item type of list")
    if f.kind == "set":
        ctx.check(alike(unwrap_generic_set(f.typ), noted(f.items[0])), "item type of set")
    if f.kind == "dict":
        r = unwrap_generic_dict(f.typ)
        ctx.check(isinstance(r, tuple) and len(r) == 2 and alike(r[0], f.items[0]) and alike(r[1], f.items[1]), "key and value type of dictionary")
    if f.kind == "literal":
        ctx.check(same_values(unwrap_literal_values(f.typ), f.items), "values of literal")
        ctx.check(unwrap_literal_types(f.typ) == tuple(type(v) for v in f.items), "types of literal")
        try:
            v = unwrap_literal_value(f.typ)
        except TypeError:
            ctx.check(len(f.items) != 1, "a single value is rejected")
        else:
            ctx.check(len(f.items) == 1 and same_values((v,), f.items), "value of literal")
    if f.kind == "union":
        r = unwrap_union_types(f.typ)
        ctx.check(isinstance(r, tuple) and len(r) == len(f.items) and all(alike(x, y) for x, y in zip(r, f.items)), "members of union")
        rest = [t for t in f.items if t is not NULL]
        if len(rest) < len(f.items):
            ctx.check(alike(unwrap_optional_type(f.typ), noted(rest[0] if len(rest) == 1 else Union[tuple(rest)])), "type without null")
    else:
        for fn in (unwrap_union_types, unwrap_optional_type):
            try:
                fn(f.typ)
            except TypeError:
                pass
            else:
                ctx.fail("a type that is not a union is unwrapped as one")
    for cls in (MaxLength, MinLength, IntegerRange, str, int, object, bytes):
        found = [n for n in f.notes if isinstance(n, cls)]
        got = get_annotation(f.typ, cls)
        ctx.check(got is (found[0] if found else None), f"annotation {cls.__name__}")


def verify_rewrap(ctx, f):
    "A function is applied to a type without its metadata, which the result has."
    seen = []

    def transform(t):
        seen.append(t)
        return list[t]

    bare = f.typ.__origin__ if f.notes else f.typ
    r = rewrap_annotated_type(transform, f.typ)
    ctx.check(len(seen) == 1 and alike(seen[0], bare), "type that is transformed")
    ctx.check(alike(r, Annotated[(list[bare], *f.notes)] if f.notes else list[bare]), "transformed type")


def expression(ctx, forms, leaves, depth, most):
    f = form(ctx, "t", forms, leaves, depth, most)
    verify_predicates(ctx, f)
    verify_parts(ctx, f)
    verify_rewrap(ctx, f)
    ctx.label("annotated" if f.notes else "bare")


def repeated(ctx, k, forms):
    "Metadata is kept as given, and in that order, even if the same is given again."
    f = form(ctx, "t", forms, FEW, 0, 0)
    n, m = ctx.choice("n", NOTES[::2]), ctx.choice("m", NOTES[1::2])
    notes = ctx.choice("notes", [(n, n), (n, m, n), (n, m, m)])
    g = Form(f.kind, Annotated[(f.typ, *notes)], f.items, notes)
    verify_predicates(ctx, g)
    verify_parts(ctx, g)
    verify_rewrap(ctx, g)
    ctx.label("done")


def other_types(ctx):
    "Whatever is not a type is not taken for one, nor is an object taken for its class."
    x = ctx.choice("x", [None, Any, ForwardRef("Data"), Data(1), Child(2, "x"), Pair(3, "y"), Lonely(), Color.RED, Level.LOW, Word.YES, Fields((1, 2)), (1, 2), 23, "Data", [int], ...])
    kind = type(x).__name__
    for k, fn in PREDICATES.items():
        if k == "type":
            e = x is Any or kind == "ForwardRef"
        elif k == "data class instance":
            e = kind in ("Data", "Child")
        elif k == "named tuple instance":
            e = kind in ("Pair", "Lonely")
        else:
            e = False
        ctx.check(fn(x) is e, f"{k}: not {e}")
    ctx.check(get_annotation(x, object) is None, "annotation")
    ctx.check(unwrap_annotated_type(x) is x, "unwrapped")
    ctx.label("done")


def instances(ctx):
    "Whether objects with any values are instances of data classes or of named tuples."
    n, s = ctx.int("n"), ctx.str("s")
    k = ctx.choice("kind", ["data", "child", "pair", "tuple", "list", "dict"])
    x = {"data": lambda: Data(n), "child": lambda: Child(n, s), "pair": lambda: Pair(n, s), "tuple": lambda: (n, s), "list": lambda: [n, s], "dict": lambda: {"number": n}}[k]()
    ctx.check(is_dataclass_instance(x) is (k in ("data", "child")), "data class instance")
    ctx.check(is_named_tuple_instance(x) is (k == "pair"), "named tuple instance")
    ctx.check(is_dataclass_type(x) is False and is_named_tuple_type(x) is False and is_type_enum(x) is False and is_type_like(x) is False, "an object is taken for a type")
    ctx.label(k)


def enumerations(ctx, n, kinds):
    "Types of values in the order of members."
    values, expected = {}, []
    prefix = ctx.choice("names", ["M", "_m_", "é"])
    for i in range(ctx.size("n", n, 1)):
        k = ctx.choice(f"kind{i}", kinds)
        v = {"int": lambda: i + 2, "text": lambda: f"v{i}", "bool": lambda: i % 2 == 0, "float": lambda: i + 0.5, "none": lambda: None, "pair": lambda: (i, "x")}[k]()
        if v in values.values():
            ctx.assume(False)
        values[f"{prefix}{i}"] = v
        if type(v) not in expected:
            expected.append(type(v))
    t = enum.Enum("Made", values, module=__name__)
    got = enum_value_types(t)
    ctx.check(isinstance(got, list) and got == expected, f"types of values: {got}")
    ctx.check(is_type_enum(t) is True, "not an enumeration")
    ctx.label("one" if len(expected) == 1 else "more")


# properties of classes

HINTS = {"int": int, "text": str, "list": list[int], "optional": Optional[bytes], "annotated": int32, "data": Data}
TEXTS = {"int": "int", "text": "str", "list": "list[int]", "optional": "Optional[bytes]", "annotated": "int32", "data": "Near"}
NAMES = ["a", "b", "class_", "_private"]


class Near:
    "The class of this name in the module of a class."


class Far:
    "The class of the same name in the module of a base class."


def modules():
    here, there = types.ModuleType(HERE), types.ModuleType(THERE)
    sys.modules[HERE], sys.modules[THERE] = here, there
    here.__dict__.update(Near=Near, ClassVar=ClassVar, Optional=Optional, int32=int32)
    there.__dict__.update(Near=Far, Optional=Optional, int32=int32)
    return here, there


def hint(ctx, name, hows, hints, far):
    "A type of a property as written in the class, and what it stands for."
    k = ctx.choice(name + ".type", hints)
    how = ctx.choice(name + ".how", hows)
    near = Far if far else Near
    if how == "text":
        return TEXTS[k], near if k == "data" else HINTS[k]
    if how == "name" and k == "data":
        return ForwardRef("Near"), near
    return HINTS[k], HINTS[k]


def properties(ctx, kind, most, hows, hints, variable=False):
    here, there = modules()
    base, own, order, expected, defaults = {}, {}, [], {}, {}
    inherit = kind in ("heir", "plain-heir", "twice")
    n = ctx.size("own", most, 0 if inherit else 1)
    m = ctx.size("inherited", 2, 1) if inherit else 0
    names = NAMES[1:]
    for i in range(m):
        k = ["a", "b"][i]
        base[k], expected[k] = hint(ctx, f"base.{k}", hows, hints, True)
        order.append(k)
    for i in range(n):
        # an inherited property may be declared again
        k = names[i] if inherit else NAMES[i]
        own[k], expected[k] = hint(ctx, f"own.{k}", hows, hints, False)
        if k not in order:
            order.append(k)
    b = None
    if inherit:
        b = type("Base", (), {"__annotations__": base, "__module__": THERE})
        if kind != "plain-heir":
            b = dataclass(b)
            if kind == "twice":
                b = dataclass(type("Between", (b,), {"__annotations__": {}, "__module__": THERE}))
    body = {"__annotations__": own, "__module__": HERE}
    with_default = kind != "named" and not (inherit and "b" in own and m == 1) and len(own) > 0 and ctx.flag("default")
    last = list(own)[-1] if own else None
    if with_default and order[-1] == last:
        defaults[last] = ctx.int("value")
        body[last] = defaults[last]
    if variable:
        # a member of the class, not of its instances
        own["count"] = ctx.choice("variable.how", [ClassVar[int], "ClassVar[int]", "ClassVar[list[Near]]"])
        body["count"] = 1
    if kind == "named":
        cls = NamedTuple("Made", [(k.strip("_"), t) for k, t in own.items()])
        cls.__module__ = HERE
        order, expected = [k.strip("_") for k in order], {k.strip("_"): t for k, t in expected.items()}
    else:
        cls = type("Made", () if b is None else (b,), body)
        if kind not in ("plain", "plain-heir"):
            cls = dataclass(cls)
    got = list(get_class_properties(cls))
    ctx.check([k for k, _ in got] == order if kind != "plain-heir" else {k for k, _ in got} == set(order) and len(got) == len(order), f"properties {[k for k, _ in got]}")
    for k, t in got:
        ctx.check(alike(t, expected[k]) or t == ForwardRef("Near"), f"type of {k}: {t}")
        if "name" not in hows:
            ctx.check(alike(t, expected[k]), f"type of {k}: {t}")
    for k in [*order, "missing", "__init__", "", *(["count"] if variable else [])]:
        t = get_class_property(cls, k)
        ctx.check((t is None) if k not in expected else (alike(t, expected[k]) or t == ForwardRef("Near")), f"property {k!r}")
    hints_of = get_resolved_hints(cls)
    ctx.check(set(hints_of) - {"count"} == set(order) and all(alike(hints_of[k], expected[k]) for k in order), "resolved types")
    if dataclasses.is_dataclass(cls):
        fields = list(dataclass_fields(cls))
        ctx.check([f.name for f in fields] == order, "names of fields")
        for f in fields:
            verify_field(ctx, f, f.name, expected[f.name], defaults)
        others = [k for n in order for k in (n + "_", n.strip("_"), n.upper()) if k not in order]
        for k in [*order, *others, "missing", "", *(["count"] if variable else [])]:
            try:
                f = dataclass_field_by_name(cls, k)
            except LookupError:
                ctx.check(k not in expected, f"field {k} is not found")
            else:
                ctx.check(k in expected, "a field that does not exist is found")
                verify_field(ctx, f, k, expected[k], defaults)
    ctx.label("done")


def verify_field(ctx, f, name, typ, defaults):
    ctx.check(isinstance(f, DataclassField) and f.name == name and alike(f.type, typ), f"field {name}: {f.type}")
    if name in defaults:
        ctx.check_same(f.default, defaults[name], f"default of {name}")
    else:
        ctx.check(f.default is dataclasses.MISSING, f"default of {name}")


def evaluated(ctx):
    "A type written as text stands for the class that has the name in the given module; other types are left alone."
    here, there = modules()
    m, near = ctx.choice("module", [(here, Near), (there, Far)])
    # any class may have any name
    name = ctx.choice("name", ["Near", "typ", "module", "cls", "data_type", "int"])
    here.__dict__[name], there.__dict__[name] = Near, Far
    how = ctx.choice("how", ["text", "forward", "type", "generic", "text-generic", "null"])
    t, e = {"text": (name, near), "forward": (ForwardRef(name), near), "type": (Near, Near), "generic": (list[Near], list[Near]), "text-generic": (f"Optional[list[{name}]]", Optional[list[near]]), "null": (None, None)}[how]
    got = evaluate_type(t, m)
    ctx.check(got is e if how in ("type", "null") else alike(got, e), f"evaluated type {got}")
    cls = type("Owner", (), {"__module__": m.__name__})
    got = evaluate_member_type(t, cls)
    ctx.check(got is e if how in ("type", "null") else alike(got, e), f"evaluated type of a member {got}")
    ctx.label(how)


# creating types and objects


def created(ctx, most, hints):
    "A data class that is created has the given fields, and its instances hold any values."
    fields, values = [], {}
    for k in NAMES[: ctx.size("n", most)]:
        h = ctx.choice(k + ".type", hints)
        fields.append((k, HINTS[h]))
        values[k] = {"int": lambda: ctx.int(k), "text": lambda: ctx.str(k), "list": lambda: [ctx.int(k)], "optional": lambda: None, "annotated": lambda: ctx.int(k), "data": lambda: Data(ctx.int(k))}[h]()
    t = create_data_type("Made", fields)
    ctx.check(isinstance(t, type) and t.__name__ == "Made" and is_dataclass_type(t) is True, "not a data class")
    ctx.check([k for k, _ in get_class_properties(t)] == [k for k, _ in fields], "names of fields")
    ctx.check(all(alike(x, y) for (_, x), (_, y) in zip(get_class_properties(t), fields)), "types of fields")
    x = t(**values)
    ctx.check(is_dataclass_instance(x) is True, "not an instance")
    for k, v in values.items():
        ctx.check_same(getattr(x, k), v, f"value of {k}")
    ctx.check(not hasattr(x, "__dict__"), "the class has no slots")
    y = create_object(t)
    ctx.check(type(y) is t and not any(hasattr(y, k) for k in values), "object is initialized")
    for k, v in values.items():
        setattr(y, k, v)
    ctx.check(x == y, "objects differ")
    ctx.label("some" if fields else "none")


class Fussy:
    def __init__(self, required):
        raise AssertionError("initialized")


class Failure(Exception):
    def __init__(self, required, more):
        raise AssertionError("initialized")


class SubFailure(KeyError):
    pass


def objects(ctx):
    "An object is created without being initialized."
    t = ctx.choice("t", [Plain, Fussy, Data, Child, Failure, SubFailure, ValueError])
    x = create_object(t)
    ctx.check(type(x) is t and vars(x) == {}, "object")
    ctx.check(create_object(t) is not x, "the same object again")
    ctx.label("done")


def reserved(ctx, n, alphabet):
    "Internal properties are those with two underscores at either end."
    s = ctx.text("name", n, alphabet=alphabet)
    e = s == "_abc_impl" or (len(s) > 4 and s[:2] == "__" and s[-2:] == "__")
    ctx.check(is_reserved_property(s) is (True if e else False), "reserved property")
    ctx.label("reserved" if e else "other")


def some_function():
    pass


def members(ctx, n):
    "Classes and functions that a module defines, as opposed to others that it refers to."
    module = types.ModuleType(HERE)
    sys.modules[HERE] = module
    classes, functions = [], []
    for i in range(n):
        kind = ctx.choice(f"kind{i}", ["class", "data", "imported", "function", "other-function", "value", "module", "none", "enum", "object"])
        name = ["b", "_A", "C", "aa"][i]
        if kind == "class":
            x = type("Cls", (), {"__module__": HERE})
            classes.append(x)
        elif kind == "data":
            x = dataclass(type(name, (Data,), {"__module__": HERE}))
            classes.append(x)
        elif kind == "enum":
            x = enum.Enum(name, {"A": 1}, module=HERE)
            classes.append(x)
        elif kind == "imported":
            x = Data
        elif kind == "function":
            x = types.FunctionType(some_function.__code__, {})
            x.__module__ = HERE
            functions.append(x)
        elif kind == "other-function":
            x = some_function
        elif kind == "value":
            x = 23
        elif kind == "module":
            x = typing
        elif kind == "object":
            x = Plain()
        else:
            continue
        setattr(module, name, x)
    got = get_module_classes(module)
    ctx.check(isinstance(got, list) and len(got) == len(classes) and set(got) == set(classes), f"classes {got}")
    got = get_module_functions(module)
    ctx.check(isinstance(got, list) and len(got) == len(functions) and set(got) == set(functions), f"functions {got}")
    ctx.label("done")


def new_module(ctx):
    "A module is created under a name that is not in use."
    name, other = "harness_c31_new", "harness_c31_other"
    sys.modules.pop(name, None)
    sys.modules.pop(other, None)
    used = types.ModuleType(other)
    sys.modules[other] = used
    k = ctx.choice("name", [name, other, "sys"])
    before = sys.modules.get(k)
    try:
        m = create_module(k)
    except KeyError:
        ctx.check(k != name and sys.modules[k] is before, "refused")
        ctx.label("refused")
    else:
        ctx.check(k == name and isinstance(m, types.ModuleType) and m.__name__ == k and sys.modules[k] is m, "module")
        sys.modules.pop(name)
        ctx.label("created")
    sys.modules.pop(other, None)


def signature(ctx, n):
    "Types of parameters written as text are evaluated."
    params, expected = [], []
    scope = {"Near": Near, "Optional": Optional, "int32": int32, "HINTS": HINTS}
    for i in range(n):
        k = ctx.choice(f"type{i}", list(TEXTS))
        text = ctx.flag(f"text{i}")
        params.append(f"p{i}: {TEXTS[k]!r}" if text else f"p{i}: HINTS[{k!r}]")
        expected.append((f"p{i}", Near if text and k == "data" else HINTS[k]))
    returns = ctx.choice("returns", ["None", "'Near'", "'Optional[Near]'"])
    exec(f"def fn({', '.join(params)}) -> {returns}: pass", scope)
    sig = get_signature(scope["fn"])
    ctx.check(list(sig.parameters) == [k for k, _ in expected], "names of parameters")
    for k, t in expected:
        ctx.check(alike(sig.parameters[k].annotation, t), f"type of {k}")
    e = {"None": None, "'Near'": Near, "'Optional[Near]'": Optional[Near]}[returns]
    ctx.check(sig.return_annotation is None if e is None else alike(sig.return_annotation, e), "type that is returned")
    ctx.label("done")


def obligations():
    out = []
    leaves = list(LEAVES)
    L = ["annotated", "bare"]
    for k in FORMS:
        out.append(Ob(f"form:{k}", expression, [k], leaves if k == "leaf" else FEW, 0, 2, cost=2, expect=L))
    for k in ("list", "set", "dict", "tuple", "frozenset"):
        for i in range(3):
            out.append(Ob(f"nested:{k}:{i}", lambda ctx, k=k, i=i: nested(ctx, k, FORMS[i::3]), cost=3, expect=L))
    for k in ("optional", "new-optional", "union", "union-null", "null-first", "null-optional", "new-null-optional", "new-union", "new-union-null"):
        out.append(Ob(f"members:{k}", expression, [k], FEW, 1, 1, cost=3, expect=L))
    out.append(Ob("other", other_types, expect=["done"]))
    out.append(Ob("instances", instances, expect=["data", "child", "pair", "tuple", "list", "dict"]))
    kinds = ["int", "text", "bool", "float", "none", "pair"]
    out.append(Ob("enumerations", enumerations, 3, kinds, cost=3, expect=["one", "more"]))
    for k in ("data", "plain", "heir", "plain-heir", "twice", "named"):
        out.append(Ob(f"properties:{k}", properties, k, 1, ["type", "text"], list(HINTS)[2:] if k in ("heir", "twice", "plain-heir") else list(HINTS), cost=5, expect=["done"]))
        out.append(Ob(f"properties-2:{k}", properties, k, 2, ["type", "text"], ["int", "data"], cost=5, expect=["done"]))
        out.append(Ob(f"properties-name:{k}", properties, k, 2, ["name"], ["annotated", "data"], cost=5, expect=["done"]))
        out.append(Ob(f"properties-3:{k}", properties, k, 3, ["type", "text"], ["int", "optional", "data"], tier="thorough", paths=20000, seconds=100, cost=20, expect=["done"]))
    for k in ("data", "heir", "twice", "plain", "plain-heir"):
        out.append(Ob(f"class-variable:{k}", properties, k, 1, ["type", "text"], ["int", "data"], True, cost=3, expect=["done"]))
    out.append(Ob("evaluated", evaluated, expect=["text", "forward", "type", "generic", "text-generic", "null"]))
    out.append(Ob("created", created, 2, list(HINTS), cost=3, expect=["some", "none"]))
    out.append(Ob("created-4", created, 4, list(HINTS)[:2], cost=3, expect=["some", "none"]))
    out.append(Ob("objects", objects, expect=["done"]))
    out.append(Ob("reserved-any", reserved, 6, "_a- é", cost=3, expect=["reserved", "other"]))
    out.append(Ob("reserved", reserved, 6, "_ax9", cost=3, expect=["reserved", "other"]))
    out.append(Ob("reserved-long", reserved, 10, tier="thorough", paths=20000, seconds=100, cost=10, expect=["reserved", "other"]))
    out.append(Ob("members-of-module", members, 2, cost=3, expect=["done"]))
    out.append(Ob("members-of-module-3", members, 3, tier="thorough", paths=20000, seconds=100, cost=10, expect=["done"]))
    out.append(Ob("module", new_module, expect=["created", "refused"]))
    out.append(Ob("signature", signature, 2, cost=3, expect=["done"]))
    for k in FORMS:
        out.append(Ob(f"repeated:{k}", repeated, k, [k], paths=2000, seconds=15, expect=["done"]))
        if k not in ("leaf", "literal", "literals"):
            out.append(Ob(f"deep:{k}", expression, [k], FEW, 1, 2, tier="thorough", paths=20000, seconds=100, cost=20, expect=L))
    return out


def nested(ctx, k, forms):
    "A container of any type expression."
    f = form(ctx, "inner", forms, FEW, 0, "few")
    g = {
        "list": lambda: Form(k, list[f.typ], (f.typ,)), "set": lambda: Form(k, set[f.typ], (f.typ,)), "frozenset": lambda: Form(k, frozenset[f.typ], (f.typ,)),
        "dict": lambda: Form(k, dict[str, f.typ], (str, f.typ)), "tuple": lambda: Form(k, tuple[f.typ, int], (f.typ, int)),
    }[k]()  # fmt: skip
    g = annotated(ctx, "outer", g, 1)
    verify_predicates(ctx, g)
    verify_parts(ctx, g)
    verify_rewrap(ctx, g)
    ctx.label("annotated" if g.notes else "bare")
