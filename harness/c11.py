"C11: tagged unions dispatch on the tag."

import enum
from dataclasses import dataclass
from typing import Annotated, Literal, NamedTuple, Optional, Union

from strong_typing.auxiliary import Alias
from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError
from strong_typing.serialization import json_to_generic, json_to_object, object_to_json

from . import kit
from .api import Ob


@dataclass
class Circle:
    shape: Literal["circle"]
    radius: int


@dataclass
class Square:
    shape: Literal["square"]
    side: int


@dataclass
class Same1:
    "Members that differ in the tag only."

    kind: Literal["one"]
    x: Optional[int] = None


@dataclass
class Same2:
    kind: Literal["two"]
    x: Optional[int] = None


@dataclass
class Same3:
    kind: Literal["three", "drei"]
    x: Optional[int] = None


@dataclass
class Int1:
    tag: Literal[1]
    x: int


@dataclass
class Int2:
    tag: Literal[2, 3]
    x: int


@dataclass
class Int0:
    tag: Literal[0, -1]
    x: int


@dataclass
class Yes:
    ok: Literal[True]
    x: int


@dataclass
class No:
    ok: Literal[False]
    x: int


@dataclass
class Alias1:
    kind: Annotated[Literal["a"], Alias("$type")]
    x: int


@dataclass
class Alias2:
    sort: Annotated[Literal["b"], Alias("$type")]
    x: int


@dataclass
class Keyword1:
    class_: Literal["first"]
    x: int = 5


@dataclass
class Keyword2:
    class_: Literal["second"]
    x: int = 6


@dataclass
class Default1:
    kind: Literal["d1"] = "d1"
    x: int = 1


@dataclass
class Default2:
    kind: Literal["d2"] = "d2"
    x: int = 2


@dataclass(frozen=True)
class Frozen1:
    kind: Literal["f1"]
    x: int


@dataclass
class Empty1:
    kind: Literal[""]
    x: int


@dataclass
class Two1:
    "Two tags."

    p: Literal["p1"]
    q: Literal["q1"]
    x: Optional[int] = None


@dataclass
class Two2:
    p: Literal["p2"]
    q: Literal["q2"]
    x: Optional[int] = None


class Plain1:
    kind: Literal["c1"]
    x: int


class Tuple1(NamedTuple):
    kind: Literal["t1"]
    x: int


@dataclass
class Extra1:
    "Another literal, which is not common."

    kind: Literal["e1"]
    other: Literal["z"]


@dataclass
class Odd1:
    "Tags that differ in blanks or case only."

    kind: Literal["a", " a", "0"]
    x: int


@dataclass
class Odd2:
    kind: Literal["A", "a ", " ", "None"]
    x: int


@dataclass
class Odd3:
    kind: Literal["a\n", "a.b", "ab"]
    x: int


@dataclass
class Enum1:
    "Tags that are members of an enumeration are written as their values."

    kind: Literal[kit.Color.RED]
    x: int


@dataclass
class Enum2:
    kind: Literal[kit.Color.GREEN, kit.Color.BLUE]
    x: int


@dataclass
class Enum3:
    kind: Annotated[Literal[kit.Level.LOW, kit.Level.NEGATIVE], Alias("$k")]
    x: Optional[str]


@dataclass(frozen=True)
class Enum4:
    level: Annotated[Literal[kit.Number.TWO], Alias("$k")]
    x: str


ENUMS = [Enum1, Enum2, Enum3, Enum4]
ERRORS = (JsonKeyError, JsonTypeError, JsonValueError, ValueError)


def parse(typ, j, how, options):
    if how == "generic":
        return json_to_generic(typ, j, options=options)
    if how == "list":
        return json_to_generic(list[typ], [j], options=options)[0]
    if how == "optional":
        return json_to_object(optional_holder(typ), {"x": j}, options=options).x
    if how == "field":
        return json_to_object(holder(typ), {"x": j}, options=options).x
    return create_deserializer(typ, options=options).parse(j)


def holder(typ):
    return dataclass(type("Holder", (), {"__annotations__": {"x": typ}, "__module__": __name__}))


def optional_holder(typ):
    return dataclass(type("Holder", (), {"__annotations__": {"x": Optional[typ]}, "__module__": __name__}))


def tags_of(member, tag):
    "The values of a tag in a class."
    for n, t in kit.fields_of(member):
        if kit.prop_name(n, t) == tag:
            if hasattr(t, "__metadata__"):
                t = t.__origin__
            return [v.value if isinstance(v, enum.Enum) else v for v in t.__args__]
    return []


def dispatch(ctx, members, tag, how, skip, kinds):
    typ = Union.__getitem__(tuple(members))
    keys = [tag]
    for m in members:
        for k in kit.keys_of(m):
            if k not in keys:
                keys.append(k)
    j = ctx.json("j", depth=2, width=1, kinds=kinds, keys=keys)
    if how in ("field", "optional"):
        ctx.assume(j is not None)
    options = DeserializerOptions(skip_unassigned=True) if skip else None
    want, error = None, None
    if ctx.is_a(j, dict):
        chosen = None
        t = j.get(tag)
        for m in members:
            for v in tags_of(m, tag):
                # members of an enumeration are looked up by value, as they are elsewhere
                if (m in ENUMS and not ctx.is_a(t, (list, dict)) or ctx.is_a(t, type(v))) and t == v:
                    chosen = m
        if chosen is None:
            error = JsonTypeError
        else:
            try:
                want = create_deserializer(chosen, options=options).parse(j)
            except ERRORS as ex:
                error = type(ex)
    else:
        error = JsonTypeError
    try:
        r = parse(typ, j, how, options)
    except ERRORS as ex:
        ctx.label("refused")
        ctx.check(error is not None, f"refused with {type(ex).__name__} what the member accepts")
        ctx.check(isinstance(ex, error), f"refused with {type(ex).__name__}")
        return
    ctx.label("accepted")
    ctx.check(error is None, "accepted what the member refuses")
    ctx.check_same(r, want, "result of another member")


def two_tags(ctx, how, order):
    "With several tags, all have to agree."
    members = [Two1, Two2] if order else [Two2, Two1]
    typ = Union.__getitem__(tuple(members))
    j = ctx.json("j", depth=1, width=1, kinds=["dict"], keys=["p", "q", "x"])
    fits = []
    for m in (Two1, Two2):
        try:
            fits.append(create_deserializer(m).parse(j))
        except ERRORS:
            pass
    try:
        r = parse(typ, j, how, None)
    except ERRORS:
        ctx.label("refused")
        ctx.check(not fits, "refused what a member accepts")
        return
    ctx.label("accepted")
    ctx.check(len(fits) == 1, "accepted what no member accepts")
    ctx.check_same(r, fits[0], "result of another member")


def clash(ctx):
    "Tags that occur twice are reported when the deserializer is built."
    pool = ["a", "b", "c"]
    members = []
    seen = []
    clash = False
    for i in range(ctx.choice("n", [2, 3])):
        values = [pool[ctx.size(f"t{i}", 2)]]
        if ctx.flag(f"more{i}"):
            values.append(pool[ctx.size(f"u{i}", 2)])
        for v in dict.fromkeys(values):
            clash = clash or v in seen
        seen += values
        lit = Literal.__getitem__(tuple(dict.fromkeys(values)))
        members.append(dataclass(type(f"M{i}", (), {"__annotations__": {"tag": lit, "x": int}, "__module__": __name__})))
    typ = Union.__getitem__(tuple(members))
    try:
        d = create_deserializer(typ)
    except JsonTypeError:
        ctx.label("clash")
        ctx.check(clash, "distinct tags reported as a clash")
        return
    ctx.label("distinct")
    ctx.check(not clash, "clash of tags not reported")
    i = 0
    for m in members:
        for v in tags_of(m, "tag"):
            r = d.parse({"tag": v, "x": ctx.int(f"x{i}")})
            ctx.check(ctx.class_of(r) is m, "another member")
            i = i + 1


def roundtrip(ctx, members, how):
    m = ctx.choice("member", members)
    v = kit.gen(ctx, "v", m, 1, 2)
    typ = Union.__getitem__(tuple(members))
    r = parse(typ, object_to_json(v), how, None)
    ctx.check_same(r, v, "value changed by the round trip")


FAMILIES = [
    ("shape", [Circle, Square]), ("kind", [Same1, Same2, Same3]), ("kind", [Same3, Same1]), ("tag", [Int1, Int2, Int0]), ("ok", [Yes, No]), ("$type", [Alias1, Alias2]),
    ("class", [Keyword1, Keyword2]), ("kind", [Default1, Default2, Frozen1]), ("kind", [Frozen1, Plain1, Tuple1]), ("kind", [Empty1, Same1, Extra1]),
    ("kind", [Same1, Same2, Same3, Default1]), ("kind", [Odd1, Odd2]), ("kind", [Odd3, Odd2]), ("kind", [Enum1, Enum2]),
    ("kind", [Enum2, Same3, Enum1]), ("$k", [Enum3, Enum4]),
]  # fmt: skip


def obligations():
    out = []
    hows = ["generic", "list", "optional", "field", "direct"]
    for i, (tag, members) in enumerate(FAMILIES):
        n = "-".join([m.__name__ for m in members])
        for skip in (False, True):
            s = "skip:" if skip else ""
            out.append(Ob(f"{s}{n}", dispatch, members, tag, hows[i % 5], skip, None, paths=1500, cost=2, expect=["refused", "accepted"]))
            for how in hows:
                out.append(Ob(f"{s}{how}:{n}", dispatch, members, tag, how, skip, None, tier="thorough", cost=2, expect=["refused", "accepted"]))
        out.append(Ob(f"roundtrip:{n}", roundtrip, members, hows[(i + 2) % 5]))
    for order in (True, False):
        out.append(Ob(f"two-tags-{order}", two_tags, "generic", order, expect=["refused", "accepted"]))
    out.append(Ob("clash", clash, cost=3, expect=["clash", "distinct"]))
    return out
