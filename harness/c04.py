"C04: UUIDs and IP addresses survive a JSON round trip."

import ipaddress
import uuid

from strong_typing.deserializer import create_deserializer
from strong_typing.exception import JsonTypeError
from strong_typing.serialization import json_to_object, object_to_json
from strong_typing.serializer import create_serializer

from .api import Ob


def write(typ, v, typed):
    return create_serializer(typ).generate(v) if typed else object_to_json(v)


def read(typ, j, typed):
    return create_deserializer(typ).parse(j) if typed else json_to_object(typ, j)


def uuid_roundtrip(ctx, typed):
    "Any UUID, as five groups."
    widths = [8, 4, 4, 4, 12]
    gs = [ctx.int(f"g{i}", 0, 16**w - 1) for i, w in enumerate(widths)]
    n = 0
    for g, w in zip(gs, widths):
        n = n * 16**w + g
    v = uuid.UUID(int=n)
    j = write(uuid.UUID, v, typed)
    ctx.observe(j)
    ctx.check(ctx.class_of(j) is str, "a UUID is written as a string")
    ctx.check(j == "-".join([f"{g:0{w}x}" for g, w in zip(gs, widths)]), "canonical text of a UUID")
    w = read(uuid.UUID, j, typed)
    ctx.check(ctx.class_of(w) is uuid.UUID, "type changed")
    ctx.check(w.int == n, "UUID changed by the round trip")
    ctx.check(ctx.class_of(w.int) is int, "number of a UUID")


def uuid_read(ctx, typed, case):
    "A canonical text with any digits (some of the groups in either case) gives the UUID with these digits."
    widths = [8, 4, 4, 4, 12]
    digits = "0123456789abcdef" if case == "lower" else "0123456789ABCDEF"
    gs = [ctx.text(f"g{i}", w, w, digits) if i in (0, 2) else "8" * w for i, w in enumerate(widths)]
    text = "-".join(gs)
    w = read(uuid.UUID, text, typed)
    ctx.check(ctx.class_of(w) is uuid.UUID, "type of a UUID")
    n = 0
    for c in text:
        if c != "-":
            n = n * 16 + int(c, 16)
    ctx.check(w.int == n, "UUID misread")


def ipv4_roundtrip(ctx, typed):
    gs = [ctx.int(f"g{i}", 0, 255) for i in range(4)]
    n = ((gs[0] * 256 + gs[1]) * 256 + gs[2]) * 256 + gs[3]
    v = ipaddress.IPv4Address(n)
    j = write(ipaddress.IPv4Address, v, typed)
    ctx.observe(j)
    ctx.check(ctx.class_of(j) is str, "an address is written as a string")
    ctx.check(j == ".".join([str(g) for g in gs]), "canonical text of an IPv4 address")
    w = read(ipaddress.IPv4Address, j, typed)
    ctx.check(ctx.class_of(w) is ipaddress.IPv4Address, "type changed")
    ctx.check(w._ip == n, "IPv4 address changed by the round trip")


def compressed(groups):
    "Canonical text (RFC 5952): the first of the longest runs of two or more zeros is left out."
    best, length = None, 1
    i = 0
    while i < 8:
        k = i
        while k < 8 and groups[k] == 0:
            k = k + 1
        if k - i > length:
            best, length = i, k - i
        i = k + 1
    texts = [f"{g:x}" for g in groups]
    if best is None:
        return ":".join(texts)
    return ":".join(texts[:best]) + "::" + ":".join(texts[best + length :])


def ipv6_roundtrip(ctx, typed, free, other):
    """
    Groups listed in `free` range over all numbers of 16 bits; the others are either as given or, if "zeros", zero or
    not, in any combination.
    """
    gs = []
    for i in range(8):
        if i in free:
            gs.append(ctx.int(f"g{i}", 0, 0xFFFF))
        elif other == "zeros":
            gs.append(0 if ctx.flag(f"zero{i}") else 0x1F0 + i)
        else:
            gs.append(other)
    n = 0
    for g in gs:
        n = n * 65536 + g
    v = ipaddress.IPv6Address(n)
    j = write(ipaddress.IPv6Address, v, typed)
    ctx.observe(j)
    ctx.check(ctx.class_of(j) is str, "an address is written as a string")
    ctx.check(j == compressed(gs), "canonical text of an IPv6 address")
    w = read(ipaddress.IPv6Address, j, typed)
    ctx.check(ctx.class_of(w) is ipaddress.IPv6Address, "type changed")
    ctx.check(w._ip == n, "IPv6 address changed by the round trip")
    ctx.check(w.scope_id is None, "scope of an IPv6 address")


def ipv6_scoped(ctx, typed, free):
    "The scope of an address (the name of an interface, say) is kept."
    gs = [ctx.int(f"g{i}", 0, 0xFFFF) if i == free else [0xFE80, 0, 0, 0, 0, 0, 0, 1][i] for i in range(8)]
    scope = ctx.text("scope", 2, 1, "e0.:- ~")
    text = compressed(gs) + "%" + scope
    v = ipaddress.IPv6Address(text)
    j = write(ipaddress.IPv6Address, v, typed)
    ctx.observe(j)
    ctx.check(ctx.class_of(j) is str, "an address is written as a string")
    ctx.check(j == text, "canonical text of an IPv6 address with a scope")
    w = read(ipaddress.IPv6Address, j, typed)
    ctx.check(ctx.class_of(w) is ipaddress.IPv6Address and w._ip == v._ip, "IPv6 address changed by the round trip")
    ctx.check(w.scope_id == scope, "scope of an IPv6 address")


TYPES = {"uuid": uuid.UUID, "ipv4": ipaddress.IPv4Address, "ipv6": ipaddress.IPv6Address}


def refused(ctx, typ, typed):
    "Any JSON value that is not a string is refused with a JSON type error."
    j = ctx.json("j", depth=1, width=1, kinds=["null", "bool", "int", "float", "list", "dict"])
    try:
        read(typ, j, typed)
    except JsonTypeError:
        ctx.label("refused")
        return
    ctx.fail("a value that is not a string was accepted")


def obligations():
    out = []
    for typed in (True, False):
        k = "typed" if typed else "generic"
        out.append(Ob(f"uuid-{k}", uuid_roundtrip, typed, cost=5))
        out.append(Ob(f"ipv4-{k}", ipv4_roundtrip, typed, cost=5))
        out.append(Ob(f"ipv6-zeros-{k}", ipv6_roundtrip, typed, (), "zeros", cost=5))
        out.append(Ob(f"ipv6-scoped-{k}", ipv6_scoped, typed, 7))
        out.append(Ob(f"ipv6-scoped-first-{k}", ipv6_scoped, typed, 0, tier="thorough"))
        for n, t in TYPES.items():
            out.append(Ob(f"refused-{n}-{k}", refused, t, typed, expect=["refused"]))
    for case in ("lower", "upper"):
        out.append(Ob(f"uuid-read-{case}", uuid_read, True, case, cost=5))
    for i in range(8):
        out.append(Ob(f"ipv6-group-{i}-zeros", ipv6_roundtrip, True, (i,), 0))
        out.append(Ob(f"ipv6-group-{i}", ipv6_roundtrip, True, (i,), 0xAB))
        out.append(Ob(f"ipv6-groups-{i}", ipv6_roundtrip, False, (i, (i + 1) % 8), 0 if i % 2 else 7))
        out.append(Ob(f"ipv6-three-groups-{i}", ipv6_roundtrip, False, (i, (i + 1) % 8, (i + 3) % 8), 7 if i % 2 else 0, tier="thorough", cost=3))
        out.append(Ob(f"ipv6-group-{i}-any-zeros", ipv6_roundtrip, False, (i,), "zeros", tier="thorough", cost=20, seconds=300))
    return out
