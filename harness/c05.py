"C05: containers survive a round trip element for element."

import datetime
import uuid
from typing import Annotated, Literal, Optional, Union

from strong_typing.auxiliary import MaxLength, int16
from strong_typing.deserializer import create_deserializer
from strong_typing.exception import JsonValueError
from strong_typing.serialization import json_to_generic, object_to_json
from strong_typing.serializer import create_serializer

from . import kit
from .api import Ob, tname
from .kit import Color, Level, Word


def write(typ, v, typed):
    return create_serializer(typ).generate(v) if typed else object_to_json(v)


def read(typ, j, typed):
    return create_deserializer(typ).parse(j) if typed else json_to_generic(typ, j)


def roundtrip(ctx, typ, typed, width, depth=3):
    v = kit.gen(ctx, "v", typ, width, depth)
    j = write(typ, v, typed)
    kit.check_form(ctx, j, v, typ)
    if "set[" not in str(typ):  # of no particular order
        ctx.observe(j)
    w = read(typ, j, typed)
    ctx.check(kit.conforms(ctx, w, typ), "element of another type")
    ctx.check_same(w, v, "container changed by the round trip")
    if ctx.class_of(v) is dict:
        for a, b in zip(w, v):
            ctx.check_same(a, b, "order of keys")
    ctx.label("done")


def sized(ctx, typ, item, sizes, typed):
    "Longer lists, with one arbitrary item at an arbitrary position."
    n = ctx.choice("size", sizes)
    v = [kit.gen(ctx, f"v[{i}]", item) for i in range(n)]
    if typ == "dict":
        v = {f"key{i}": x for i, x in enumerate(v)}
        t = dict[str, item]
    elif typ == "tuple":
        v = tuple(v)
        t = tuple.__class_getitem__(tuple([item] * n))
    else:
        t = list[item]
    j = write(t, v, typed)
    kit.check_form(ctx, j, v, t)
    ctx.check_same(read(t, j, typed), v, "container changed by the round trip")


def lengths(ctx, typ, n, typed):
    "An array is accepted for a tuple only if it has the declared length."
    j = ctx.json("j", depth=1, width=4, kinds=["list"])
    for x in j:
        ctx.assume(ctx.class_of(x) is int)
    try:
        v = read(typ, j, typed)
    except JsonValueError:
        ctx.label("refused")
        ctx.check(len(j) != n, "array of the declared length refused")
        return
    ctx.label("accepted")
    ctx.check(len(j) == n, "array of another length accepted")
    ctx.check(ctx.class_of(v) is tuple, "type of a tuple")
    ctx.check_same(list(v), list(j), "items of a tuple")


def object_order(ctx, typed):
    "Items read from an object keep their order, whatever the keys."
    a, b, c = ctx.str("a"), ctx.str("b"), ctx.str("c")
    ctx.assume(ctx.all_of([a != b, a != c, b != c]))
    j = {a: ctx.int("x"), b: ctx.int("y"), c: ctx.int("z")}
    w = read(dict[str, int], j, typed)
    ctx.check(len(w) == 3, "items read from an object")
    for (k, x), (l, y) in zip(w.items(), j.items()):
        ctx.check_same(k, l, "key read from an object")
        ctx.check_same(x, y, "value read from an object")


SHALLOW = [
    list[int], list[str], list[bool], list[float], list[bytes], list[Color], list[Level], list[datetime.datetime], list[datetime.date], list[uuid.UUID],
    list[Literal["a", "b"]], list[Literal[Color.RED, Color.BLUE]], list[int16], dict[str, int], dict[str, str], dict[str, bool], dict[str, float], dict[str, Color], dict[str, datetime.time],
    dict[Color, int], dict[Word, str], set[int], set[str], set[Color], set[uuid.UUID], tuple[int], tuple[int, str], tuple[str, bool, float], tuple[Color, bytes, int, str],
    Annotated[list[int], "x"], list[Annotated[str, MaxLength(5)]],
]  # fmt: skip
NESTED = [
    list[list[int]], list[dict[str, int]], dict[str, list[str]], dict[str, dict[str, bool]], list[tuple[int, str]], tuple[list[int], dict[str, bool]],
    dict[str, set[int]], dict[Color, list[int]], list[set[str]], tuple[tuple[int, str], tuple[bool]], list[Optional[int]], list[Optional[str]],
    dict[str, Optional[int]], tuple[Optional[int], Optional[str]], list[Union[int, str]], dict[str, Union[bool, str]], list[Union[list[int], dict[str, int]]],
    tuple[int, Union[str, list[str]]], set[tuple[int, str]], list[Optional[list[int]]], dict[str, tuple[int, int]],
]  # fmt: skip
TOP = [Optional[int], Union[None, float], Optional[str], Optional[list[int]], Optional[dict[str, int]], Union[int, str], Union[bool, int, str], Union[list[int], dict[str, str]], Union[str, None, list[str]], int | str, list[int] | None]  # fmt: skip
DEEP = [list[list[list[int]]], dict[str, list[dict[str, int]]], list[dict[str, list[str]]], tuple[list[tuple[int, str]], dict[str, list[bool]]], list[dict[Color, set[int]]], dict[str, Optional[list[Optional[int]]]]]  # fmt: skip


def obligations():
    out = []
    for typed in (True, False):
        k = "typed" if typed else "generic"
        for t in SHALLOW:
            out.append(Ob(f"{k}:{tname(t)}", roundtrip, t, typed, 3, expect=["done"]))
        for t in NESTED:
            out.append(Ob(f"{k}:{tname(t)}", roundtrip, t, typed, 2, cost=2, expect=["done"]))
        for t in TOP:
            out.append(Ob(f"{k}:{tname(t)}", roundtrip, t, typed, 2, expect=["done"]))
        for t in DEEP:
            out.append(Ob(f"{k}:{tname(t)}", roundtrip, t, typed, 2, 4, cost=3, paths=400, expect=["done"]))
        for kind in ("list", "dict"):
            for item in (int, str, bool):
                out.append(Ob(f"{k}-sized-{kind}-{item.__name__}", sized, kind, item, [0, 1, 4, 5, 6, 8, 10, 16, 17, 33], typed))
        out.append(Ob(f"{k}-sized-tuple", sized, "tuple", int, [1, 4, 5, 8, 17], typed))
        for n, t in ((1, tuple[int]), (2, tuple[int, int]), (3, tuple[int, int, int])):
            out.append(Ob(f"{k}-length-{n}", lengths, t, n, typed, expect=["refused", "accepted"]))
        out.append(Ob(f"{k}-order", object_order, typed))
    return out
