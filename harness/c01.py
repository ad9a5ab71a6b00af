"C01: scalar values survive a round trip; their serialized form is the documented one."

import enum
from typing import Annotated, Literal

from strong_typing.auxiliary import MaxLength, float32, int16, int32, int64, uint8
from strong_typing.serialization import json_to_generic, object_to_json
from strong_typing.serializer import create_serializer
from strong_typing.deserializer import create_deserializer

from . import kit
from .api import Ob

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def roundtrip(ctx, typ, v, typed):
    j = create_serializer(typ).generate(v) if typed else object_to_json(v)
    w = create_deserializer(typ).parse(j) if typed else json_to_generic(typ, j)
    ctx.check_same(w, v, "value changed by the round trip")
    return j


def scalar(ctx, typ, native, typed):
    v = kit.gen(ctx, "v", typ)
    j = roundtrip(ctx, typ, v, typed)
    ctx.check_same(j, v, "serialized form differs from the value")
    ctx.observe(j)


def nonfinite(ctx, typed):
    v = ctx.float("v", finite=False)
    j = roundtrip(ctx, float, v, typed)
    ctx.check_same(j, v, "serialized form differs from the value")


def encode(data):
    "Standard padded Base64, as in RFC 4648."
    out = []
    for i in range(0, len(data), 3):
        g = list(data[i : i + 3])
        n = len(g)
        while len(g) < 3:
            g.append(0)
        bits = [g[0] // 4, (g[0] % 4) * 16 + g[1] // 16, (g[1] % 16) * 4 + g[2] // 64, g[2] % 64]
        out.extend(bits[: n + 1] + [64] * (3 - n))
    return out


def binary(ctx, lo, hi, typed):
    v = ctx.bytes("v", hi, lo)
    j = roundtrip(ctx, bytes, v, typed)
    ctx.check(ctx.class_of(j) is str, "byte string is not serialized to text")
    ctx.check(len(j) == (len(v) + 2) // 3 * 4, "length of Base64 text")
    table = [ord(c) for c in B64 + "="]
    expected = encode(v)
    for i in range(len(j)):
        ctx.check(ord(j[i]) == table[expected[i]], "character of Base64 text")
    ctx.observe(j)


def binary_long(ctx, sizes):
    "Long byte strings are encoded three bytes at a time, like short ones."
    n = ctx.choice("size", sizes)
    v = ctx.bytes("v", n, n)
    j = roundtrip(ctx, bytes, v, True)
    ctx.check(ctx.class_of(j) is str and len(j) == (n + 2) // 3 * 4, "length of Base64 text")
    for i in range(0, n, 3):
        ctx.check(j[i // 3 * 4 : i // 3 * 4 + 4] == create_serializer(bytes).generate(v[i : i + 3]), "group of Base64 text")


def enumeration(ctx, typ, typed):
    v = kit.gen(ctx, "v", typ)
    j = create_serializer(typ).generate(v) if typed else object_to_json(v)
    w = create_deserializer(typ).parse(j) if typed else json_to_generic(typ, j)
    ctx.check(w is v, "other member read back")
    ctx.check_same(j, v.value, "serialized form is not the member value")
    ctx.observe(j)


def literal(ctx, typ):
    v = kit.gen(ctx, "v", typ)
    j = roundtrip(ctx, typ, v, True)
    ctx.check_same(j, v.value if isinstance(v, enum.Enum) else v, "serialized form differs from the value")


def obligations():
    obs = []
    for typed in (True, False):
        n = "typed" if typed else "generic"
        for typ in (bool, int, float, str):
            obs.append(Ob(f"{typ.__name__}-{n}", scalar, typ, typ, typed))
        obs.append(Ob(f"none-{n}", scalar, type(None), None, typed))
        obs.append(Ob(f"float-nonfinite-{n}", nonfinite, typed))
        obs.append(Ob(f"bytes-{n}", binary, 0, 3, typed, cost=3))
        obs.append(Ob(f"bytes-long-{n}", binary, 4, 7, typed, tier="thorough", cost=3))
        for e in (kit.Color, kit.Level, kit.Number, kit.Word):
            obs.append(Ob(f"enum-{e.__name__}-{n}", enumeration, e, typed))
    obs.append(Ob("bytes-long", binary_long, [17, 57, 58, 76, 77, 100, 256], cost=4))
    for i, t in enumerate((Literal["a"], Literal["a", "b", ""], Literal[1, -2, 3], Literal[True], Literal[False, True], Literal[kit.Color.RED, kit.Color.BLUE], Literal[kit.Number.TWO])):
        obs.append(Ob(f"literal-{i}", literal, t))
    for i, t in enumerate((Annotated[int, "x"], int16, int32, int64, uint8, float32, Annotated[str, MaxLength(3)])):
        obs.append(Ob(f"annotated-{i}", scalar, t, None, True))
    return obs
