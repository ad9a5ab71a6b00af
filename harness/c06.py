"C06: objects survive a round trip field for field."

import collections
import dataclasses
import datetime
from typing import Annotated, NamedTuple, Optional

from strong_typing.auxiliary import Alias
from strong_typing.deserializer import create_deserializer
from strong_typing.serialization import json_to_object, object_to_json
from strong_typing.serializer import create_serializer

from . import kit, shapes
from .api import Ob, tname


def write(typ, v, typed):
    return create_serializer(typ).generate(v) if typed else object_to_json(v)


def read(typ, j, typed):
    return create_deserializer(typ).parse(j) if typed else json_to_object(typ, j)


def default_of(typ, name):
    "Declared default of a field, as a function, or None."
    if dataclasses.is_dataclass(typ):
        for f in dataclasses.fields(typ):
            if f.name == name:
                if f.default is not dataclasses.MISSING:
                    return lambda: f.default
                if f.default_factory is not dataclasses.MISSING:
                    return f.default_factory
    elif issubclass(typ, tuple) and name in typ._field_defaults:
        return lambda: typ._field_defaults[name]
    return None


def verify(ctx, typ, v, typed):
    j = write(typ, v, typed)
    kit.check_form(ctx, j, v, typ)
    if "set[" not in str([t for _, t in kit.fields_of(typ)]):
        ctx.observe(j)
    w = read(typ, j, typed)
    ctx.check(ctx.class_of(w) is typ, "instance of another class")
    equal = True
    for name, _ in kit.fields_of(typ):
        x = getattr(v, name)
        d = default_of(typ, name)
        if x is None and d is not None:
            x = d()
            equal = equal and x is None
        ctx.check_same(getattr(w, name), x, f"field {name} changed by the round trip")
    if equal:
        ctx.check_same(w, v, "object changed by the round trip")
        if dataclasses.is_dataclass(typ) or issubclass(typ, tuple):
            ctx.check(w == v, "object read back is not equal")
    ctx.label("done")


def roundtrip(ctx, typ, typed, width, depth):
    verify(ctx, typ, kit.gen(ctx, "v", typ, width, depth), typed)


KINDS = {
    "int": (int, None), "text": (str, None), "optional": (Optional[int], None), "optional-none": (Optional[str], ("default", None)), "default": (int, ("default", 5)),
    "alias": (Annotated[int, Alias("other-name")], None), "list": (list[int], ("factory", list)), "inner": (shapes.Frozen, None), "dict": (dict[str, bool], None),
}  # fmt: skip


def any_class(ctx, frozen, first, names):
    "Classes made of fields of any kind, in any order that Python permits."
    kinds = list(KINDS)
    fields = []
    defaulted = False
    for i, n in enumerate(names):
        k = first if i == 0 and first is not None else ctx.choice(f"kind{i}", kinds)
        t, d = KINDS[k]
        if d is None:
            if defaulted:
                d = ("default", None) if k == "optional" else ("skip", None)
            else:
                fields.append((n, t))
                continue
        if d[0] == "skip":
            fields.append((n, t, dataclasses.field(kw_only=True)))
            continue
        defaulted = True
        if t is KINDS["alias"][0]:
            t = Annotated[int, Alias(f"other-name-{i}")]
        fields.append((n, t, dataclasses.field(default=d[1]) if d[0] == "default" else dataclasses.field(default_factory=d[1])))
    typ = dataclasses.make_dataclass("Shaped", fields, frozen=frozen, module=__name__)
    for i in range(len(names)):
        for k in range(i):
            (a, s), (b, t) = kit.fields_of(typ)[i], kit.fields_of(typ)[k]
            if kit.prop_name(a, s) == kit.prop_name(b, t):
                return None
    return typ


def shaped(ctx, typed, frozen, first, names):
    typ = any_class(ctx, frozen, first, names)
    if typ is not None:
        verify(ctx, typ, kit.gen(ctx, "v", typ, 1, 2), typed)


class BareBase:
    "A class that declares no types."

    shared = 12
    _hidden = "protected"

    def __init__(self):
        pass

    def method(self):
        raise AssertionError("method called")

    @classmethod
    def class_method(cls):
        raise AssertionError("method called")


class BareChild(BareBase):
    more = [1]
    absent = None

    @property
    def computed(self):
        return [self.first]


class BareSlots:
    __slots__ = ("first", "class_", "_last")


Row = collections.namedtuple("Row", ["first", "class_", "last"])
Single = collections.namedtuple("Single", ["in_"])
class Called:
    "An object that can be called is not a method."

    x: int

    def __call__(self):
        raise AssertionError("object called")


def called(x):
    v = Called()
    v.x = x
    return v


BARE = {"class": BareBase, "child": BareChild, "slots": BareSlots, "tuple": Row, "single": Single}
OF_CLASS = {"class": {"shared": 12, "_hidden": "protected"}, "child": {"shared": 12, "_hidden": "protected", "more": [1]}, "slots": {}, "tuple": {}, "single": {}}


def attribute(ctx, n):
    k = ctx.choice(n + ".kind", ["int", "text", "none", "list", "falsy", "object", "date", "tuple", "called"])
    if k == "int":
        return ctx.int(n)
    if k == "text":
        return ctx.str(n)
    if k == "none":
        return None
    if k == "list":
        return [ctx.str(n), None]
    if k == "falsy":
        return ctx.choice(n + ".falsy", [0, "", False, [], {}])
    if k == "object":
        return shapes.Frozen(ctx.int(n), None)
    if k == "called":
        return called(ctx.int(n))
    if k == "tuple":
        return Single(ctx.choice(n, [None, 7]))
    return kit.gen(ctx, n, datetime.date)


def bare(ctx, kind):
    "Objects of classes that declare no types are written attribute by attribute."
    t = BARE[kind]
    if issubclass(t, tuple):
        values = {k: attribute(ctx, "v." + k) if i == 0 else ctx.choice("v." + k, [None, 0, "text"]) for i, k in enumerate(t._fields)}
        v = t(**values)
        want = dict(values)
    else:
        values = {"first": attribute(ctx, "v.first"), "class_": ctx.choice("v.class_", [1, None]), "_last": ctx.str("v._last")}
        v = t()
        for k, x in values.items():
            setattr(v, k, x)
        if kind != "slots" and ctx.flag("shadow"):
            v.shared = values["shared"] = ctx.choice("v.shared", [False, None, "own"])
        want = dict(OF_CLASS[kind])
        want.update(values)
        if kind == "child":
            want["computed"] = [values["first"]]
        want = {k: x for k, x in want.items() if x is not None}
    where = ctx.choice("where", ["alone", "list", "dict"])
    j = object_to_json(v if where == "alone" else [v] if where == "list" else {"a": v})
    j = j if where == "alone" else j[0] if where == "list" else j["a"]
    ctx.check(type(j) is dict, "not an object")
    want = {k[:-1] if k in ("class_", "in_") else k: x for k, x in want.items()}
    ctx.check(set(j) == set(want), "names of properties")
    for k, x in want.items():
        ctx.check_same(j[k], object_to_json(x), "property of an object of a class that declares no types")
    ctx.label("done")


def obligations():
    out = []
    for typed in (True, False):
        k = "typed" if typed else "generic"
        for t in shapes.FLAT:
            out.append(Ob(f"{k}:{tname(t)}", roundtrip, t, typed, 2, 3, expect=["done"]))
        for t in shapes.NESTED:
            out.append(Ob(f"{k}:{tname(t)}", roundtrip, t, typed, 2, 3, cost=3, expect=["done"]))
        for t in shapes.RECURSIVE:
            out.append(Ob(f"{k}:{tname(t)}", roundtrip, t, typed, 2, 4, cost=4, paths=600, expect=["done"]))
    for k in BARE:
        out.append(Ob(f"bare:{k}", bare, k, cost=3, expect=["done"]))
    for frozen in (False, True):
        out.append(Ob(f"shaped-2-{'frozen' if frozen else 'plain'}", shaped, True, frozen, None, ["in_", "b_"], cost=5, expect=["done"]))
        for k in KINDS:
            out.append(Ob(f"shaped-3-{'frozen' if frozen else 'plain'}-{k}", shaped, False, frozen, k, ["in_", "b_", "c"], tier="thorough", cost=5, expect=["done"]))
    return out
