"C34: types and objects that have no JSON form are refused, wherever they occur, before anything is read or written."

import collections.abc
import enum
import sys
import types
import typing
from dataclasses import dataclass
from typing import Annotated, Any, Callable, ForwardRef, Iterable, Literal, NamedTuple, Optional, TypeVar, Union

from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.exception import JsonTypeError
from strong_typing.serialization import json_to_generic, json_to_object, object_to_json
from strong_typing.serializer import create_serializer

from .api import Ob

HERE = __name__
T = TypeVar("T")


class Mixed(enum.Enum):
    A = 1
    B = "b"


class Number(enum.Enum):
    A = 1


def function():
    pass


async def later():
    pass


def generating():
    yield 1


class Methods:
    def method(self):
        pass

    @classmethod
    def of_class(cls):
        pass

    @staticmethod
    def static():
        pass


@dataclass
class Point:
    x: int = 0


class Pair(NamedTuple):
    x: int


# neither read nor written
BOTH = {
    "callable": Callable,
    "function type": Callable[[int], str],
    "abstract": Iterable[int],
    "mapping": collections.abc.Mapping[str, int],
    "type of a class": type[int],
    "any": Any,
    "variable": T,
    "function": function,
    "method": Methods().method,
    "instance": Point(1),
    "module": typing,
    "number": 3,
    "list of types": [int],
    "mixed literal": Literal["a", 1],
    "bool and int literal": Literal[True, 1],
    "int and bool literal": Literal[1, True],
    "float keys": dict[float, int],
    "bytes keys": dict[bytes, int],
    "tuple keys": dict[tuple[int, str], int],
    "optional keys": dict[Optional[str], int],
    "mixed keys": dict[Mixed, int],
    "number keys": dict[Number, int],
    "open tuple": tuple[int, ...],
}
# written as they are, but not read
READ = {"list": list, "dict": dict, "set": set, "tuple": tuple}

WRAP = {
    "bare": lambda t: t,
    "item": lambda t: list[t],
    "value": lambda t: dict[str, t],
    "member": lambda t: set[t],
    "first": lambda t: tuple[t, int],
    "last": lambda t: tuple[int, t],
    "optional": lambda t: Optional[t],
    "none first": lambda t: Union[None, t],
    "one of three": lambda t: Union[int, t, str],
    "noted": lambda t: Annotated[t, "x"],
    "data": lambda t: dataclass(type("Made", (), {"__annotations__": {"y": int, "x": t}, "__module__": HERE, "y": 0, "x": None})),
    "data required": lambda t: dataclass(type("Made", (), {"__annotations__": {"x": t}, "__module__": HERE})),
    "plain": lambda t: type("Made", (), {"__annotations__": {"x": t}, "__module__": HERE}),
    "named tuple": lambda t: named(t),
    "derived": lambda t: dataclass(type("More", (WRAP["data required"](t),), {"__annotations__": {}, "__module__": HERE})),
}


def named(t):
    made = NamedTuple("Made", [("x", t)])
    made.__module__ = HERE
    return made


OUTER = ["bare", "item", "value", "last", "optional", "data", "plain", "named tuple"]


def composed(ctx, leaf, inner, outer=OUTER):
    "A type expression with something unsupported in it."
    try:
        t = WRAP[inner](leaf)
        return WRAP[ctx.choice("outer", outer)](t)
    except (TypeError, ValueError):
        ctx.assume(False)  # no type expression at all


def not_read(ctx, inner, leaves):
    leaf = leaves[ctx.choice("leaf", list(leaves))]
    t = composed(ctx, leaf, inner)
    data = ctx.json("data", 1, 1, keys=["x"])
    way = ctx.choice("way", ["object", "generic", "create", "skip"])
    try:
        if way == "object":
            json_to_object(t, data)
        elif way == "generic":
            json_to_generic(t, data)
        elif way == "create":
            create_deserializer(t)
        else:
            json_to_object(t, data, options=DeserializerOptions(skip_unassigned=True))
    except (TypeError, JsonTypeError) as ex:
        # even for data that there are none of this type in, such as an empty list or null
        text = str(ex)
        ctx.check("but instead received" not in text and "could not be instantiated" not in text, "data was read before the type was refused")
        ctx.label("refused")
        return
    ctx.fail("a type that cannot be read is accepted")


def not_written(ctx, inner):
    "The same for what the serializer is made for: members of unions are judged by their value."
    leaf = BOTH[ctx.choice("leaf", list(BOTH))]
    t = composed(ctx, leaf, inner, [o for o in OUTER if o != "optional"])
    try:
        create_serializer(t)
    except (TypeError, JsonTypeError):
        ctx.label("refused")
        return
    ctx.fail("a type that cannot be written is accepted")


def names(ctx):
    "A type given by name without a place to look it up, or by a name that is not defined there."
    name = ctx.choice("name", ["Nowhere", "Point", "int", "Point | None", "list[Nowhere]"])
    as_text = ctx.flag("text")
    t = name if as_text else ForwardRef(name)
    way = ctx.choice("way", ["read", "write", "elsewhere"])
    defined = name in ("Point", "int", "Point | None")
    try:
        if way == "read":
            create_deserializer(t)
        elif way == "write":
            create_serializer(t)
        else:
            d = create_deserializer(t, sys.modules[HERE])
            ctx.check(defined, "an undefined name is accepted")
            if name == "Point":
                n = ctx.int("n")
                ctx.check_same(d.parse({"x": n}), Point(n), "another type was meant")
            ctx.label("read")
            return
    except TypeError:
        ctx.check(way != "elsewhere", "a type that is defined is refused")
        ctx.label("no place")
        return
    except NameError:
        ctx.check(way == "elsewhere" and not defined, "a name was looked up")
        ctx.label("not defined")
        return
    ctx.fail("a name is looked up without a place")


# objects

OBJECTS = {
    "function": lambda: function,
    "lambda": lambda: (lambda: 0),
    "async": lambda: later,
    "generator": lambda: generating,
    "method": lambda: Methods().method,
    "class method": lambda: Methods.of_class,
    "static": lambda: Methods.static,
    "class": lambda: Point,
    "simple type": lambda: int,
    "named tuple type": lambda: Pair,
    "module": lambda: types,
}


class Holder:
    pass


PLAIN_TUPLE = __import__("collections").namedtuple("PLAIN_TUPLE", ["y", "x"])


@dataclass
class Loose:
    x: Union[int, str, None]
    y: int = 0


@dataclass
class Lists:
    x: list


@dataclass
class Dicts:
    x: dict


def holder(v):
    h = Holder()
    h.y = 1
    h.x = v
    return h


PLACES = {
    "bare": lambda v, o: v,
    "only": lambda v, o: [v],
    "item": lambda v, o: [o, v],
    "value": lambda v, o: {"a": o, "x": v},
    "enum value": lambda v, o: {Number.A: v},
    "pair": lambda v, o: (o, v),
    "set": lambda v, o: {v},
    "attribute": lambda v, o: holder(v),
    "untyped named tuple": lambda v, o: PLAIN_TUPLE(o, v),
    "union member": lambda v, o: Loose(v),
    "list member": lambda v, o: Lists([o, v]),
    "dict member": lambda v, o: Dicts({"a": v}),
}


def not_object(ctx, place):
    what = ctx.choice("what", list(OBJECTS))
    v = OBJECTS[what]()
    outer = ctx.choice("outer", [p for p in PLACES if p not in ("set", "enum value")])
    other = ctx.choice("other", [0, None, "text", [], {}])
    # a method of an object is no property of it
    ctx.assume(not (what in ("method", "class method") and "attribute" in (place if outer == "bare" else "", outer if place == "bare" else "", place)))
    obj = PLACES[outer](PLACES[place](v, other), other)
    try:
        object_to_json(obj)
    except TypeError:
        ctx.label(what)
        return
    ctx.fail("an object without a JSON form is written")


def obligations():
    out = []
    for w in WRAP:
        out.append(Ob(f"read:{w}", not_read, w, BOTH, paths=8000, cost=2, expect=["refused"]))
        out.append(Ob(f"read-untyped:{w}", not_read, w, READ, expect=["refused"]))
        if w not in ("optional", "none first", "one of three"):
            out.append(Ob(f"write:{w}", not_written, w, expect=["refused"]))
    out.append(Ob("names", names, expect=["no place", "not defined", "read"]))
    for p in PLACES:
        out.append(Ob(f"object:{p}", not_object, p, expect=["function", "async", "class", "module"]))
    return out
