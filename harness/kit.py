"Types the harnesses work with, and generators of arbitrary values of a type."

import collections.abc
import dataclasses
import datetime
import enum
import ipaddress
import keyword
import typing
import uuid
from dataclasses import dataclass, field
from typing import Annotated, Any, Literal, NamedTuple, Optional, Union

from strong_typing.auxiliary import Alias, IntegerRange, MaxLength, MinLength


class Color(enum.Enum):
    RED = "red"
    GREEN = "green"
    BLUE = ""


class Level(enum.Enum):
    LOW = 1
    HIGH = 2
    NEGATIVE = -3


class Number(enum.IntEnum):
    ONE = 1
    TWO = 2


class Word(str, enum.Enum):
    YES = "yes"
    NO = "no"


def max_day(ctx, year, month):
    "Whether a year is a leap year and how long a month is, decided."
    if month == 2:
        leap = ctx.all_of([year % 4 == 0, ctx.any_of([year % 100 != 0, year % 400 == 0])])
        return 29 if leap else 28
    if ctx.any_of([month == 4, month == 6, month == 9, month == 11]):
        return 30
    return 31


def gen_date(ctx, name):
    y = ctx.int(name + ".year", 1, 9999)
    m = ctx.int(name + ".month", 1, 12)
    d = ctx.int(name + ".day", 1, 31)
    ctx.assume(d <= max_day(ctx, y, m))
    return datetime.date(y, m, d)


ZONES = ["utc", "minutes", "seconds"]


def gen_tz(ctx, name, kind=None):
    "UTC, or any other offset of less than a day with a resolution of a minute or a second."
    if kind is None:
        kind = ctx.choice(name + ".tz", ZONES)
    if kind == "utc":
        return datetime.timezone.utc
    if kind == "minutes":
        return datetime.timezone(datetime.timedelta(minutes=ctx.int(name + ".offset", -1439, 1439)))
    return datetime.timezone(datetime.timedelta(seconds=ctx.int(name + ".offset", -86399, 86399)))


EDGES = [datetime.date(1, 1, 1), datetime.date(2024, 2, 29), datetime.date(9999, 12, 31)]


def gen_time(ctx, name, tz=None):
    h = ctx.int(name + ".hour", 0, 23)
    mi = ctx.int(name + ".minute", 0, 59)
    s = ctx.int(name + ".second", 0, 59)
    us = ctx.int(name + ".micro", 0, 999999)
    return datetime.time(h, mi, s, us, tzinfo=tz)


def gen_datetime(ctx, name, tz="any", kind=None, edges=False):
    d = ctx.choice(name + ".date", EDGES) if edges else gen_date(ctx, name)
    h = ctx.int(name + ".hour", 0, 23)
    mi = ctx.int(name + ".minute", 0, 59)
    s = ctx.int(name + ".second", 0, 59)
    us = ctx.int(name + ".micro", 0, 999999)
    zone = gen_tz(ctx, name, kind) if tz == "any" else tz
    return datetime.datetime(d.year, d.month, d.day, h, mi, s, us, tzinfo=zone)


def gen_timedelta(ctx, name):
    "Any non-negative duration."
    d = ctx.int(name + ".days", 0, 999999999)
    s = ctx.int(name + ".seconds", 0, 86399)
    us = ctx.int(name + ".micros", 0, 999999)
    return datetime.timedelta(days=d, seconds=s, microseconds=us)


class Skip(Exception):
    pass


def satisfy(ctx, v, metadata):
    "Assumes that a value meets the constraints a type is annotated with."
    for m in metadata:
        if isinstance(m, IntegerRange):
            ctx.assume(ctx.all_of([v >= m.minimum, v <= m.maximum]))
        elif isinstance(m, MinLength):
            ctx.assume(len(v) >= m.value)
        elif isinstance(m, MaxLength):
            ctx.assume(len(v) <= m.value)
    return v


def gen(ctx, name, typ, width=2, depth=3, deep=False, strict=False):
    """
    An arbitrary value of a type.

    :param width: Largest number of items of a container.
    :param depth: Nesting depth of recursive types.
    :param deep: Whether to vary dates and the like (otherwise, they are of a fixed value).
    :param strict: Whether to observe the constraints that types are annotated with.
    """

    def sub(suffix, t, d=depth):
        return gen(ctx, name + suffix, t, width, d, deep, strict)

    if typ is None or typ is type(None):
        return None
    if typ is bool:
        return ctx.bool(name)
    if typ is int:
        return ctx.int(name)
    if typ is float:
        return ctx.float(name)
    if typ is str:
        return ctx.str(name)
    if typ is bytes:
        return ctx.bytes(name, width)
    if typ is datetime.datetime:
        if deep:
            return gen_datetime(ctx, name)
        return datetime.datetime(2024, 2, 29, 23, 59, ctx.int(name + ".second", 0, 59), 7000, tzinfo=datetime.timezone.utc)
    if typ is datetime.date:
        return gen_date(ctx, name) if deep else datetime.date(2024, 2, ctx.int(name + ".day", 1, 29))
    if typ is datetime.time:
        return gen_time(ctx, name) if deep else datetime.time(23, 59, ctx.int(name + ".second", 0, 59))
    if typ is datetime.timedelta:
        return gen_timedelta(ctx, name) if deep else datetime.timedelta(seconds=ctx.int(name + ".seconds", 0, 86399))
    if typ is uuid.UUID:
        return uuid.UUID(int=ctx.int(name, 0, 2**128 - 1) if deep else 2**127 + ctx.int(name, 0, 255))
    if typ is ipaddress.IPv4Address:
        return ipaddress.IPv4Address(ctx.int(name, 0, 2**32 - 1) if deep else 2**31 + ctx.int(name, 0, 255))
    if typ is ipaddress.IPv6Address:
        if deep:
            return ipaddress.IPv6Address(ctx.int(name, 0, 2**128 - 1))
        return ipaddress.IPv6Address(2**127 + 1)
    origin = typing.get_origin(typ)
    args = typing.get_args(typ)
    if origin is Annotated:
        v = gen(ctx, name, args[0], width, depth, deep, strict)
        return satisfy(ctx, v, typ.__metadata__) if strict and v is not None else v
    if origin is Literal:
        return ctx.choice(name, list(args))
    if origin is list or origin is collections.abc.Sequence:
        n = ctx.size(name + ".n", width if depth > 0 else 0)
        return [sub(f"[{i}]", args[0], depth - 1) for i in range(n)]
    if origin is set or origin is frozenset:
        n = ctx.size(name + ".n", width if depth > 0 else 0)
        return origin([sub(f"[{i}]", args[0], depth - 1) for i in range(n)])
    if origin is dict:
        n = ctx.size(name + ".n", width if depth > 0 else 0)
        out = {}
        for i in range(n):
            out[sub(f".key{i}", args[0])] = sub(f".value{i}", args[1], depth - 1)
        return out
    if origin is tuple:
        return tuple([sub(f"[{i}]", t) for i, t in enumerate(args)])
    if is_union(typ):
        members = list(args)
        if depth <= 0 and type(None) in members:
            return None
        t = ctx.choice(name + ".member", members)
        return gen(ctx, name, t, width, depth - 1, deep, strict)
    if isinstance(typ, type) and issubclass(typ, enum.Enum):
        return ctx.choice(name, list(typ))
    if isinstance(typ, type) and hasattr(typ, "make"):
        return typ.make(ctx, name)
    if dataclasses.is_dataclass(typ):
        hints = typing.get_type_hints(typ, include_extras=True)
        kw = {}
        for f in dataclasses.fields(typ):
            kw[f.name] = sub("." + f.name, hints[f.name], depth - 1)
        obj = typ(**{f.name: kw[f.name] for f in dataclasses.fields(typ) if f.init}, **getattr(typ, "EXTRA", {}))
        for f in dataclasses.fields(typ):
            if not f.init:
                object.__setattr__(obj, f.name, kw[f.name])
        return obj
    if isinstance(typ, type) and issubclass(typ, tuple):
        hints = typing.get_type_hints(typ, include_extras=True)
        return typ(*[sub("." + n, hints[n], depth - 1) for n in typ._fields])
    if isinstance(typ, type):
        hints = instance_hints(typ)
        obj = typ()
        for n, t in hints.items():
            setattr(obj, n, sub("." + n, t, depth - 1))
        return obj
    raise TypeError(f"no generator for {typ}")


def instance_hints(typ):
    "Types of the annotated properties of a class, without class variables."
    hints = typing.get_type_hints(typ, include_extras=True)
    return {n: t for n, t in hints.items() if t is not typing.ClassVar and typing.get_origin(t) is not typing.ClassVar}


def is_union(t):
    return typing.get_origin(t) is Union or type(t).__name__ == "UnionType"


def conforms(ctx, x, typ, depth=6):
    "Whether a value is, recursively, a genuine instance of a type."
    if typ is Any:
        return True
    if typ is None or typ is type(None):
        return x is None
    if depth < 0:
        return True
    c = ctx.class_of(x)
    origin = typing.get_origin(typ)
    args = typing.get_args(typ)
    if origin is Annotated:
        return conforms(ctx, x, args[0], depth)
    if origin is Literal:
        return any([c is type(v) and bool(x == v) for v in args])
    if origin is list:
        return c is list and all([conforms(ctx, v, args[0], depth - 1) for v in x])
    if origin is set:
        return c is set and all([conforms(ctx, v, args[0], depth - 1) for v in x])
    if origin is dict:
        return c is dict and all([conforms(ctx, k, args[0], depth - 1) and conforms(ctx, v, args[1], depth - 1) for k, v in x.items()])
    if origin is tuple:
        return c is tuple and len(x) == len(args) and all([conforms(ctx, v, t, depth - 1) for v, t in zip(x, args)])
    if is_union(typ):
        return any([conforms(ctx, x, t, depth) for t in args])
    if typ in (bool, int, float, str, bytes):
        return c is typ
    if not isinstance(typ, type):
        return False
    if c is not typ:
        return False
    if issubclass(typ, enum.Enum):
        return x in list(typ)
    if dataclasses.is_dataclass(typ):
        hints = typing.get_type_hints(typ, include_extras=True)
        return all([hasattr(x, f.name) and conforms_field(ctx, getattr(x, f.name), hints[f.name], f, depth - 1) for f in dataclasses.fields(typ)])
    if issubclass(typ, tuple):
        hints = typing.get_type_hints(typ, include_extras=True)
        return len(x) == len(typ._fields) and all([conforms(ctx, getattr(x, n), hints[n], depth - 1) for n in typ._fields])
    if hasattr(typ, "__annotations__") and typ.__annotations__ and typ.__module__.split(".")[0] == "harness":
        hints = instance_hints(typ)
        return all([hasattr(x, n) and conforms(ctx, getattr(x, n), t, depth - 1) for n, t in hints.items()])
    return True


def conforms_field(ctx, v, t, f, depth):
    if f.default is not dataclasses.MISSING and v is f.default:
        return True
    return conforms(ctx, v, t, depth)


def pure(ctx, x, depth=12):
    "Whether a value is built from the types of the JSON data model only."
    if x is None:
        return True
    c = ctx.class_of(x)
    if c in (bool, int, float, str):
        return True
    if depth <= 0:
        return False
    if c is list:
        return all([pure(ctx, v, depth - 1) for v in x])
    if c is dict:
        return all([ctx.class_of(k) is str and pure(ctx, v, depth - 1) for k, v in x.items()])
    return False


def member_of(ctx, v, members):
    "The first member of a union that a value is an instance of."
    for t in members:
        if conforms(ctx, v, t):
            return t
    return None


KEYWORDS = frozenset(keyword.kwlist)


def prop_name(name, typ):
    "The documented name of the JSON property for a field: an alias, the keyword it stands for, or the name."
    if typing.get_origin(typ) is Annotated:
        for m in typ.__metadata__:
            if isinstance(m, Alias):
                return m.name
    if name.endswith("_") and name[:-1] in KEYWORDS:
        return name[:-1]
    return name


def fields_of(typ):
    "Names and types of the fields of a class, in order."
    hints = typing.get_type_hints(typ, include_extras=True)
    if dataclasses.is_dataclass(typ):
        return [(f.name, hints[f.name]) for f in dataclasses.fields(typ)]
    if issubclass(typ, tuple):
        return [(n, hints[n]) for n in typ._fields]
    return list(instance_hints(typ).items())


def check_form(ctx, j, v, typ, what="serialized form"):
    """
    Checks that a JSON value is the documented form of a Python value: scalars as themselves, members of enumerations as
    their value, containers item by item, objects property by property, and others as a text.
    """

    origin = typing.get_origin(typ)
    args = typing.get_args(typ)
    if typ is None or typ is type(None):
        ctx.check(j is None, what)
    elif origin is Annotated:
        check_form(ctx, j, v, args[0], what)
    elif origin is Literal and isinstance(v, enum.Enum):
        ctx.check_same(j, v.value, what)
    elif origin is Literal or typ in (bool, int, float, str):
        ctx.check_same(j, v, what)
    elif origin is list:
        ctx.check(ctx.class_of(j) is list, what + ": array")
        ctx.check(len(j) == len(v), what + ": length of array")
        for x, y in zip(j, v):
            check_form(ctx, x, y, args[0], what + ": item")
    elif origin is set:
        ctx.check(ctx.class_of(j) is list, what + ": array")
        ctx.check(len(j) == len(v), what + ": size of array")
        if args[0] in (bool, int, str):
            for y in v:
                ctx.check(ctx.any_of([x == y for x in j]), what + ": member")
    elif origin is tuple:
        ctx.check(ctx.class_of(j) is list, what + ": array")
        ctx.check(len(j) == len(args), what + ": length of tuple")
        for x, y, t in zip(j, v, args):
            check_form(ctx, x, y, t, what + ": position")
    elif origin is dict:
        ctx.check(ctx.class_of(j) is dict, what + ": object")
        ctx.check(len(j) == len(v), what + ": size of object")
        for (jk, jv), (k, x) in zip(j.items(), v.items()):
            ctx.check(ctx.class_of(jk) is str, what + ": key is a string")
            ctx.check_same(jk, k.value if isinstance(k, enum.Enum) else k, what + ": key")
            check_form(ctx, jv, x, args[1], what + ": value")
    elif is_union(typ):
        t = member_of(ctx, v, args)
        ctx.check(t is not None, what + ": member of a union")
        check_form(ctx, j, v, t, what)
    elif isinstance(typ, type) and issubclass(typ, enum.Enum):
        ctx.check_same(j, v.value, what)
    elif isinstance(typ, type) and (dataclasses.is_dataclass(typ) or (issubclass(typ, tuple) and hasattr(typ, "_fields")) or typ.__module__.startswith("harness")):
        ctx.check(ctx.class_of(j) is dict, what + ": object")
        n = 0
        for name, t in fields_of(typ):
            x = getattr(v, name)
            p = prop_name(name, t)
            if x is None:
                ctx.check(p not in j, what + ": property for None")
            else:
                ctx.check(p in j, what + ": property left out")
                check_form(ctx, j[p], x, t, what + ": property")
                n = n + 1
        ctx.check(len(j) == n, what + ": other property")
    else:
        ctx.check(ctx.class_of(j) is str, what + ": text")


def keys_of(typ, depth=3):
    "Names of properties in JSON values for a type, level by level."
    origin = typing.get_origin(typ)
    args = typing.get_args(typ)
    if depth < 0:
        return None
    if origin is Annotated:
        return keys_of(args[0], depth)
    if origin in (list, set):
        return keys_of(args[0], depth - 1)
    if origin is tuple:
        return first([keys_of(t, depth - 1) for t in args])
    if origin is dict:
        if isinstance(args[0], type) and issubclass(args[0], enum.Enum):
            sub = keys_of(args[1], depth - 1)
            return {m.value: sub for m in args[0]}
        sub = keys_of(args[1], depth - 1)
        return None if sub is None else {"*": sub}
    if is_union(typ):
        return first([keys_of(t, depth) for t in args])
    if not isinstance(typ, type) or not typ.__module__.startswith("harness") or issubclass(typ, enum.Enum):
        return None
    return {prop_name(n, t): keys_of(t, depth - 1) for n, t in fields_of(typ)}


def first(items):
    for x in items:
        if x is not None:
            return x
    return None


def longest(typ, depth=4):
    "Length of the longest tuple in a type."
    origin = typing.get_origin(typ)
    args = typing.get_args(typ)
    if depth < 0 or origin is Literal:
        return 0
    n = len(args) if origin is tuple else 0
    if origin is Annotated:
        return longest(args[0], depth)
    if isinstance(typ, type) and origin is None and typ.__module__.startswith("harness") and not issubclass(typ, enum.Enum):
        args = [t for _, t in fields_of(typ)]
    return max([n] + [longest(t, depth - 1) for t in args])
