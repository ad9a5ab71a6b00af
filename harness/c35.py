"C35: annotations compare by content, cannot be changed, and print as the code that makes them."

import dataclasses
import typing
from dataclasses import dataclass
from typing import Annotated

from strong_typing import auxiliary
from strong_typing.auxiliary import (
    Alias,
    CompactDataClass,
    IntegerRange,
    Length,
    MaxLength,
    MinLength,
    Precision,
    Signed,
    SpecialConversion,
    Storage,
    TimePrecision,
    get_auxiliary_format,
    typeannotation,
)

from .api import Ob

HERE = __name__
KNOWN = {
    "Alias": (Alias, ["text"]),
    "Signed": (Signed, ["bool"]),
    "Storage": (Storage, ["int"]),
    "IntegerRange": (IntegerRange, ["int", "int"]),
    "Precision": (Precision, ["int", "int"]),
    "TimePrecision": (TimePrecision, ["int"]),
    "Length": (Length, ["int"]),
    "MinLength": (MinLength, ["int"]),
    "MaxLength": (MaxLength, ["int"]),
    "SpecialConversion": (SpecialConversion, []),
}
TYPES = {"int": int, "text": str, "bool": bool, "float": float}


def value(ctx, n, kind):
    if kind == "int":
        return ctx.int(n)
    if kind == "text":
        return ctx.str(n)
    if kind == "bool":
        return ctx.bool(n)
    return ctx.float(n)


def values(ctx, n, kinds):
    return [value(ctx, f"{n}{i}", k) for i, k in enumerate(kinds)]


def made(kinds, way, base=None, defaults=0):
    "A class made into an annotation."
    space = {"__annotations__": {f"f{i}": TYPES[k] for i, k in enumerate(kinds)}, "__module__": HERE}
    for i in range(len(kinds) - defaults, len(kinds)):
        space[f"f{i}"] = 1
    cls = type("Made", () if base is None else (base,), space)
    if way == "plain":
        return typeannotation(cls)
    if way == "called":
        return typeannotation()(cls)
    if way == "ordered":
        return typeannotation(order=True)(cls)
    if way == "named":
        return typeannotation(cls, eq=True)
    if way == "data":
        return typeannotation(dataclass(frozen=True)(cls))
    return typeannotation(eq=False)(cls)


WAYS = ["plain", "called", "ordered", "named", "data", "identity"]


def subject(ctx, name):
    "An annotation class, and the kinds of its fields."
    if name in KNOWN:
        return KNOWN[name] + ("plain",)
    kinds = [ctx.choice(f"kind{i}", list(TYPES)) for i in range(ctx.size("fields", 2))]
    return made(kinds, name), kinds, name


def same_values(ctx, a, b):
    return ctx.all_of([x == y for x, y in zip(a, b)])


def equality(ctx, name):
    cls, kinds, way = subject(ctx, name)
    a = values(ctx, "a", kinds)
    b = values(ctx, "b", kinds) if ctx.flag("second") else list(a)
    for v in (*a, *b):
        ctx.assume(v == v)  # not NaN
    x, y = cls(*a), cls(*b)
    if way == "identity":
        ctx.check(x == x and not (x == y) and x != y, "compared by content although asked not to")
        ctx.label("different")
    else:
        want = bool(same_values(ctx, a, b))
        ctx.check(bool(x == y) == want, "equality is not that of the contents")
        ctx.check(bool(x != y) == (not want), "inequality is not that of the contents")
        if want:
            ctx.label("same")
        else:
            ctx.label("different")
    other = ctx.choice("other", ["class", "tuple", "derived"])
    if other == "class":
        twin = made(kinds, "plain")
        ctx.check(not (x == twin(*a)) and x != twin(*a), "equal to an annotation of another class")
    elif other == "tuple":
        ctx.check(not (x == tuple(a)), "equal to something else")
    else:
        more = typeannotation(type("More", (cls,), {"__annotations__": {}, "__module__": HERE}))
        ctx.check(not (x == more(*a)), "equal to an annotation of a derived class")


EQUAL = {"int": [1, True, 2**70], "text": ["", "1"], "bool": [True, 1], "float": [0.0, -0.0, True]}


def hashing(ctx, name):
    "Annotations with equal contents have the same hash, also if their contents are not of the same type."
    cls, kinds, way = subject(ctx, name)
    a, b = [ctx.choice(f"a{i}", EQUAL[k]) for i, k in enumerate(kinds)], [ctx.choice(f"b{i}", EQUAL[k]) for i, k in enumerate(kinds)]
    x, y = cls(*a), cls(*b)
    ctx.check((len({x, y}) == 1) == (a == b and way != "identity"), "annotations as members of a set")
    ctx.check((y in {x: 1}) == (a == b and way != "identity"), "annotations as keys")
    ctx.label("done")


def order(ctx, name):
    "Annotations are ordered as their contents, if asked for, and not at all otherwise."
    cls, kinds, way = subject(ctx, name)
    ctx.assume(name in KNOWN or "text" not in kinds)
    a, b = values(ctx, "a", kinds), values(ctx, "b", kinds)
    x, y = cls(*a), cls(*b)
    op = ctx.choice("op", ["<", "<=", ">", ">="])
    p, q = tuple(a), tuple(b)
    try:
        got = x < y if op == "<" else x <= y if op == "<=" else x > y if op == ">" else x >= y
    except TypeError:
        ctx.check(way != "ordered", "cannot be compared")
        ctx.label("none")
        return
    ctx.check(way == "ordered", "ordered although not asked for")
    want = p < q if op == "<" else p <= q if op == "<=" else p > q if op == ">" else p >= q
    ctx.check(bool(got) == bool(want), "order is not that of the contents")
    ctx.label("ordered")


def fixed(ctx, name):
    "The contents of an annotation are those it has been made with, and stay."
    cls, kinds, way = subject(ctx, name)
    a = values(ctx, "a", kinds)
    names = [f.name for f in dataclasses.fields(cls)]
    if ctx.flag("by name"):
        x = cls(**dict(zip(names, a)))
    else:
        x = cls(*a)
    ctx.check(cls.__name__ == (name if name in KNOWN else "Made"), "class of another name")
    target = ctx.choice("target", [*names[: len(a)], "other"])
    kind = ctx.choice("kind", ["set", "delete"])
    try:
        if kind == "set":
            setattr(x, target, 1)
        else:
            delattr(x, target)
    except dataclasses.FrozenInstanceError:
        ctx.label("refused")
    else:
        ctx.fail("an annotation can be changed")
    for n, v in zip(names, a):
        ctx.check_same(getattr(x, n), v, "contents")


def printed(ctx, name):
    "The text is the class followed by the contents in order."
    cls, kinds, way = subject(ctx, name)
    a = []
    for i, k in enumerate(kinds):
        if k == "text":
            a.append(ctx.text(f"a{i}", 3 if name in KNOWN else 1))
        elif k == "float":
            a.append(ctx.choice(f"a{i}", [0.5, -0.0, float("inf")]))
        else:
            a.append(ctx.int(f"a{i}", -99 if name in KNOWN else -9, 999 if name in KNOWN else 9) if k == "int" else value(ctx, f"a{i}", k))
    x = cls(*a)
    want = cls.__name__ + "(" + ", ".join([repr(v) for v in a]) + ")"
    ctx.check(repr(x) == want, "text of the annotation")
    ctx.check(str(x) == want, "text of the annotation")
    ctx.label("printed")


def compact(ctx):
    "The same for data classes made compact."
    kinds = [ctx.choice(f"kind{i}", ["int", "bool"]) for i in range(ctx.size("fields", 3))]
    space = {"__annotations__": {f"f{i}": TYPES[k] for i, k in enumerate(kinds)}, "__module__": HERE}
    way = ctx.choice("way", ["data", "frozen", "slots", "property", "derived", "options", "no data class"])
    if way == "options" and kinds:
        # a field that has no part in comparisons
        space[f"f{len(kinds) - 1}"] = ctx.choice("option", [dataclasses.field(compare=False), dataclasses.field(hash=False, default=None), dataclasses.field(metadata={"x": 1})])
    cls = type("Made", (CompactDataClass,), space)
    a = [ctx.int(f"a{i}", -9, 99) if k == "int" else value(ctx, f"a{i}", k) for i, k in enumerate(kinds)]
    if way == "no data class":
        ctx.check(repr(cls()) == "Made", "text of an object")
        ctx.label("none")
        return
    if way == "derived":
        base = dataclass(repr=False)(cls)
        cls = dataclass(repr=False)(type("More", (base,), {"__annotations__": {"g": int}, "__module__": HERE}))
        a.append(ctx.int("g", -9, 99))
    elif way == "property":
        # a field that is stored elsewhere
        cls = dataclass(cls, repr=False)
        if kinds:
            cls.f0 = property(lambda self: self.stored, lambda self, v: setattr(self, "stored", v))
    else:
        cls = dataclass(cls, repr=False, frozen=way == "frozen", slots=way == "slots")
    want = cls.__name__ + "(" + ", ".join([repr(v) for v in a]) + ")"
    ctx.check(repr(cls(*a)) == want, "text of a compact data class")
    if a:
        inner = dataclass(repr=False)(type("Outer", (CompactDataClass,), {"__annotations__": {"x": object}, "__module__": HERE}))
        ctx.check(repr(inner([cls(*a)])) == "Outer([" + want + "])", "text of a nested compact data class")
    ctx.label("printed")


def inherited(ctx):
    "An annotation class derived from another has the contents of both."
    way = ctx.choice("way", ["plain", "called"])
    base = made(["int", "text"], way)
    more = type("More", (base,), {"__annotations__": {"g": bool}, "__module__": HERE})
    more = typeannotation(more) if ctx.flag("plain") else typeannotation()(more)
    a, t, g = ctx.int("a", -9, 99), ctx.text("t", 1), ctx.bool("g")
    x = more(a, t, g) if dataclasses.fields(more)[-1].name == "g" else None
    ctx.check(x is not None, "the contents of a derived annotation are those of its base")
    ctx.check(repr(x) == "More(" + repr(a) + ", " + repr(t) + ", " + repr(g) + ")", "text of a derived annotation")
    h = ctx.bool("h")
    ctx.check(bool(x == more(a, t, h)) == bool(g == h), "equality of derived annotations")
    ctx.label("done")


def defaults(ctx):
    "Contents that may be left out."
    d = ctx.int("d")
    ctx.check(bool(Precision(d) == Precision(d, 0)), "decimal digits are none by default")
    ctx.check(bool(TimePrecision() == TimePrecision(0)), "decimal digits are none by default")
    p = ctx.int("p")
    ctx.check_same(Precision(d, p).integer_digits, d - p, "number of integer digits")
    ctx.check(SpecialConversion() == SpecialConversion(), "annotations without contents are equal")
    cls = made(["int", "int"], ctx.choice("way", ["plain", "called", "ordered"]), None, 1)
    ctx.check(bool(cls(d) == cls(d, 1)), "contents left out are those declared")
    ctx.label("done")


FORMATS = {
    "int8": (int, True, 1),
    "int16": (int, True, 2),
    "int32": (int, True, 4),
    "int64": (int, True, 8),
    "uint8": (int, False, 1),
    "uint16": (int, False, 2),
    "uint32": (int, False, 4),
    "uint64": (int, False, 8),
}


def limits(signed, n):
    bits = 8 * n
    return (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if signed else (0, 2**bits - 1)


def formats(ctx, form):
    "A type has the name of the fixed-width type exactly if it is that type."
    signed, n = ctx.flag("signed"), ctx.choice("bytes", [1, 2, 4, 8, 3])
    low, high = limits(signed, n)
    by = ctx.choice("by", [0, 1, -1, 256])
    which = ctx.choice("which", ["low", "high"])
    if which == "low":
        low += by
    else:
        high += by
    base = ctx.choice("base", [int, float, str])
    parts = [Signed(signed), Storage(n), IntegerRange(low, high)]
    if form == "more":
        parts.append("note")
    elif form == "fewer":
        del parts[ctx.size("drop", 2)]
    elif form == "unhashable":
        parts.append([])
    t = Annotated.__class_getitem__((base, *parts))
    want = None
    if form == "exact" and base is int and by == 0 and n != 3:
        want = ("" if signed else "u") + "int" + str(8 * n)
    ctx.check(get_auxiliary_format(t) == want, "name of a fixed-width type")
    ctx.label("named" if want else "none")
    if want:
        ctx.check(getattr(auxiliary, want) == t, "fixed-width type")


def float_formats(ctx):
    n = ctx.choice("bytes", [4, 8, 2, 16])
    base = ctx.choice("base", [float, int, str])
    t = Annotated[base, Storage(n)]
    want = {4: "float32", 8: "float64"}.get(n) if base is float else None
    ctx.check(get_auxiliary_format(t) == want, "name of a fixed-width type")
    ctx.check(get_auxiliary_format(base) is None and get_auxiliary_format(list[t]) is None and get_auxiliary_format(typing.Optional[t]) is None, "name of another type")
    ctx.label("named" if want else "none")


def obligations():
    out = []
    for k in [*KNOWN, *WAYS]:
        ways = ["different"] if k in ("identity", "SpecialConversion") else ["same", "different"]
        out.append(Ob(f"equality:{k}", equality, k, expect=["same"] if k == "SpecialConversion" else ways))
        out.append(Ob(f"order:{k}", order, k, expect=["ordered" if k == "ordered" else "none"]))
        out.append(Ob(f"hashing:{k}", hashing, k, expect=["done"]))
        if k != "identity":
            out.append(Ob(f"fixed:{k}", fixed, k, expect=["refused"]))
        out.append(Ob(f"printed:{k}", printed, k, expect=["printed"]))
    out.append(Ob("compact", compact, expect=["printed", "none"]))
    out.append(Ob("inherited", inherited, expect=["done"]))
    out.append(Ob("defaults", defaults, expect=["done"]))
    for form in ["exact", "more", "fewer", "unhashable"]:
        out.append(Ob(f"formats:{form}", formats, form, expect=["named", "none"] if form == "exact" else ["none"]))
    out.append(Ob("float-formats", float_formats, expect=["named", "none"]))
    return out
