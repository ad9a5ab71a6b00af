"C10: plain unions yield the first member type that accepts the data."

import datetime
import ipaddress
import typing
import uuid
from dataclasses import dataclass
from typing import Annotated, Literal, NamedTuple, Optional, Union

from strong_typing.auxiliary import int16
from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError
from strong_typing.serialization import json_to_generic, json_to_object

from .api import Ob, tname
from .kit import Color, Level


@dataclass
class A:
    a: int


@dataclass
class AB:
    a: int
    b: Optional[int] = None


@dataclass(frozen=True)
class B:
    b: str


class T(NamedTuple):
    a: int
    b: str


@dataclass
class Tagged:
    kind: Literal["t"]
    a: int = 0


@dataclass
class Loose:
    kind: str
    a: int = 1


@dataclass
class Maybe:
    kind: Optional[str] = None
    a: Optional[int] = None


@dataclass
class OtherTag:
    sort: Literal["t", "u"]


MARKED = [Union[Tagged, Loose], Union[Loose, Tagged], Union[Tagged, Maybe, OtherTag], Union[OtherTag, Tagged], Union[Maybe, Tagged], Union[Tagged, A], Union[A, Tagged, OtherTag], Union[Tagged, Loose, None], Union[Tagged, dict[str, str]], Union[Tagged, str]]


class Hook:
    "Refuses with an error of Python's own."

    def __init__(self, x):
        self.x = x

    @classmethod
    def from_json(cls, data):
        if not isinstance(data, int):
            raise ValueError("no")
        return Hook(data)


ERRORS = (JsonKeyError, JsonTypeError, JsonValueError, ValueError)


def parse(typ, j, how, options):
    if how == "generic":
        return json_to_generic(typ, j, options=options)
    if how == "field":
        return json_to_object(holder(typ), {"x": j}, options=options).x
    if how == "list":
        return json_to_generic(list[typ], [j], options=options)[0]
    if how == "dict":
        return json_to_generic(dict[str, typ], {"k": j}, options=options)["k"]
    return create_deserializer(typ, options=options).parse(j)


def holder(typ):
    return dataclass(type("Holder", (), {"__annotations__": {"x": typ}, "__module__": __name__}))


def verify(ctx, typ, members, j, how, options=None):
    want, found = None, False
    for m in members:
        try:
            want = create_deserializer(m, options=options).parse(j)
            found = True
            break
        except ERRORS:
            pass
    try:
        v = parse(typ, j, how, options)
    except JsonKeyError:
        ctx.label("refused")
        ctx.check(not found, "refused what a member accepts")
        return
    ctx.label("accepted")
    ctx.check(found, "accepted what no member accepts")
    ctx.check_same(v, want, "value of another member")


def first(ctx, typ, members, depth, width, keys, how, skip):
    j = ctx.json("j", depth=depth, width=width, keys=keys)
    if how == "field":
        ctx.assume(j is not None)
    verify(ctx, typ, members, j, how, DeserializerOptions(skip_unassigned=True) if skip else None)


def chosen(ctx, pool, n, how, sampler):
    "Unions of any members of a family."
    members = []
    for i in range(n):
        members.append(pool[ctx.size(f"member{i}", len(pool) - 1)])
    if len(set(members)) < n:
        return
    typ = Union.__getitem__(tuple(members))
    verify(ctx, typ, members, sampler(ctx), how)


def any_json(ctx):
    return ctx.json("j", depth=1, width=1, keys=["a"])


IN_FIELDS = [
    Union[str, datetime.date, None], Union[None, datetime.date, str], Union[bytes, None, str, uuid.UUID], Union[datetime.timedelta, datetime.time, None, str], Union[str, ipaddress.IPv4Address, int, None],
    Union[AB, A, None], Union[None, A, AB], Union[dict[str, int], None, A], Union[list[int], list[str], None], Union[int, None, bool], Union[bool, float, None, int], Union[None, tuple[int], list[int], set[int]],
    Union[Color, str, None], str | Color | None, None | Level | int, Union[Optional[Literal["a"]], str], Annotated[Union[str, Color, None], "note"], Union[Hook, None, int],
]  # fmt: skip


def in_field(ctx, typ, members, few):
    "Optional unions as properties of a class, of which null stands for nothing."
    j = ctx.choice("text", [*TEXTS, 1, {}]) if few else ctx.json("j", depth=2, width=1, keys=["a", "b"])
    ctx.assume(j is not None)
    verify(ctx, typ, members, j, "field")


TEXTS = [
    "2024-02-29", "2024-02-29T01:02:03Z", "12:34:56", "PT1S", "P1D", "f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "127.0.0.1", "::1", "aGVsbG8=", "red", "yes", "", "x", "not base64!",
    "2024-02-30", "20240229", "12", "a",
]  # fmt: skip


def texts(ctx):
    return ctx.choice("text", TEXTS)


FORMATS = [datetime.datetime, datetime.date, datetime.time, datetime.timedelta, uuid.UUID, ipaddress.IPv4Address, ipaddress.IPv6Address, bytes, Color, Literal["a", "b"], str]

SCALAR = [bool, int, float, str, type(None), Level, Color, Literal["a", "b"], Literal[1, 2]]
COMPOUND = [list[int], list[str], dict[str, int], dict[str, str], set[int], tuple[int], tuple[int, str], A, AB, B, T, Hook, int16]

UNIONS = [
    Union[A, AB], Union[AB, A], Union[A, B], Union[A, B, T], Union[T, AB, dict[str, int]], Union[dict[str, int], A], Union[list[int], list[str]], Union[list[str], set[int]],
    Union[tuple[int], list[int]], Union[tuple[int, str], list[Union[int, str]]], Union[Hook, int], Union[Hook, str], Union[Color, str], Union[str, Color], Union[Level, int],
    Union[A, None, int], Union[None, B], Optional[A], Union[bool, int, float], Union[float, int], Union[int, float, str], Union[list[A], A], Union[list[A], list[B]],
    Union[dict[str, A], A], Union[int16, str], Union[Annotated[str, "x"], int], A | B, AB | int | None, list[int] | dict[str, str], Union[Literal["a"], Literal["b"], int],
    Union[Union[int, A], str], Union[datetime.date, int], Union[uuid.UUID, int, None], Union[bytes, list[int]],
]  # fmt: skip


def obligations():
    out = []
    hows = ["generic", "field", "list", "dict", "direct"]
    for i, u in enumerate(UNIONS):
        members = list(typing.get_args(u))
        keys = ["a", "b"]
        small = any(m in (datetime.date, uuid.UUID, bytes) for m in members)
        for skip in (False, True):
            how = hows[i % 5]
            if how == "field" and len(members) == 2 and type(None) in members:
                how = "generic"  # an optional field is no union
            s = "skip:" if skip else ""
            kw = {"charlen": 2, "paths": 200, "seconds": 10} if small else {"paths": 700}
            out.append(Ob(f"{s}{tname(u)}", first, u, members, 2, 2, keys, how, skip, expect=["accepted", "refused"], **kw))
            if not small:
                out.append(Ob(f"{s}deep:{tname(u)}", first, u, members, 3, 2, {"a": ["a"], "b": ["a"]}, ["generic", "list", "dict", "direct"][i % 4], skip, tier="thorough", cost=2, expect=["accepted", "refused"]))
    for i, u in enumerate(IN_FIELDS):
        members = [m for m in typing.get_args(u.__origin__ if hasattr(u, "__metadata__") else u) if m is not type(None)]
        few = any(m in (datetime.date, datetime.time, datetime.timedelta, uuid.UUID, bytes, ipaddress.IPv4Address) for m in members)
        out.append(Ob(f"field:{tname(u)}", in_field, u, members, few, cost=2, expect=["accepted", "refused"]))
    for i, u in enumerate(MARKED):
        for skip in (False, True):
            how = [h for h in hows if h != "field"][i % 4]
            out.append(Ob(f"{'skip:' if skip else ''}marked:{tname(u)}", first, u, list(typing.get_args(u)), 1, 2, ["kind", "sort", "a"], how, skip, paths=1200, cost=2, tier="quick" if skip == (i % 2 == 0) else "thorough", expect=["accepted", "refused"]))
    out.append(Ob("scalars-2", chosen, SCALAR, 2, "generic", any_json, cost=3, expect=["accepted", "refused"]))
    out.append(Ob("compound-2", chosen, COMPOUND, 2, "generic", any_json, cost=5, expect=["accepted", "refused"]))
    out.append(Ob("mixed-2", chosen, [int, str, Color, A, B, list[int], tuple[int], Hook], 2, "field", lambda ctx: ctx.json("j", depth=1, width=1, keys=["a"], kinds=["int", "str", "list", "dict"]), cost=5, expect=["accepted", "refused"]))
    out.append(Ob("scalars-3", chosen, SCALAR, 3, "list", any_json, tier="thorough", cost=5, paths=8000, expect=["accepted", "refused"]))
    out.append(Ob("compound-3", chosen, COMPOUND, 3, "dict", any_json, tier="thorough", cost=8, paths=20000, seconds=100, expect=["accepted", "refused"]))
    for i, how in enumerate(("generic", "dict")):
        out.append(Ob(f"formats-2-{how}", chosen, FORMATS, 2, how, texts, cost=5, expect=["accepted", "refused"]))
    out.append(Ob("formats-3", chosen, FORMATS, 3, "generic", texts, tier="thorough", cost=9, paths=40000, seconds=100, expect=["accepted", "refused"]))
    return out
