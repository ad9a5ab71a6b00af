"C13: results never depend on what was processed before."

import dataclasses
import datetime
import enum
import uuid
from dataclasses import dataclass
from typing import Annotated, Literal, Optional, Union

from strong_typing.auxiliary import IntegerRange, MaxLength, int16
from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.schema import SchemaOptions, classdef_to_schema, json_schema_type, validate_object
from strong_typing.serialization import json_to_generic, object_to_json
from strong_typing.serializer import create_serializer

from . import kit, same_a, same_b, shapes
from .api import Ob


@json_schema_type
@dataclass
class Registered:
    """
    A registered class.

    :param number: A number.
    """

    number: int
    child: Optional["Registered2"] = None


@json_schema_type(examples=[{"text": "x"}])
@dataclass
class Registered2:
    "Another registered class."

    text: str


@dataclass
class Documented:
    """
    A class.

    :param x: The first.
    :param y: The second.
    """

    x: Registered
    y: list[Registered2]


def local(n):
    "Different classes of one name."
    if n == 0:

        @dataclass
        class Local:
            a: int

    else:

        @dataclass
        class Local:
            a: str
            b: Optional[int] = None

    return Local


Local0, Local1 = local(0), local(1)


def describe(ctx, v):
    "A plain value that tells apart all values of interest."
    if v is None:
        return None
    c = ctx.class_of(v)
    if c in (bool, int, float, str):
        return v
    if c is list:
        return [describe(ctx, x) for x in v]
    if c is tuple:
        return ["tuple"] + [describe(ctx, x) for x in v]
    if c is dict:
        return {k if ctx.class_of(k) is str else str(k): describe(ctx, x) for k, x in v.items()}
    if c is set:
        return ["set"] + sorted([describe(ctx, x) for x in v])
    if isinstance(v, enum.Enum):
        return [c.__module__ + "." + c.__qualname__, v.name]
    if isinstance(v, (datetime.date, uuid.UUID)):
        return str(v)
    if issubclass(c, tuple):
        return [c.__module__ + "." + c.__qualname__] + [describe(ctx, x) for x in v]
    return [c.__module__ + "." + c.__qualname__, [[f.name, describe(ctx, getattr(v, f.name))] for f in dataclasses.fields(c)]]


def outcome(ctx, run, data):
    try:
        return ["ok", describe(ctx, run(data))]
    except Exception as ex:
        return ["raised", type(ex).__name__]


class Op:
    def __init__(self, name, gen, run):
        self.name, self.gen, self.run = name, gen, run


def reader(typ, context=None, options=None):
    return lambda j: json_to_generic(typ, j, context=context, options=options() if options is not None else None)


def parser(typ, options=None):
    return lambda j: create_deserializer(typ, options=options() if options is not None else None).parse(j)


def writer(typ):
    return lambda v: create_serializer(typ).generate(v)


def schema(typ, options=None):
    return lambda _: classdef_to_schema(typ, options() if options is not None else None)


def skip():
    return DeserializerOptions(skip_unassigned=True)


def strict():
    return DeserializerOptions(skip_unassigned=False)


def number(ctx, n):
    return ctx.int(n)


def anything(ctx, n):
    return ctx.choice(n, [1, True, "a", "x", "xx", None, [1], ["a"], 1.0] if n == "target" else [1, "xx"])


def item_a(ctx, n):
    return {"number": ctx.int(n + ".number"), "kind": "x"}


def item_extra(ctx, n):
    return {"number": ctx.int(n + ".number"), "more": ctx.int(n + ".more")}


def item_b(ctx, n):
    return {"text": ctx.str(n + ".text"), "kind": "xx"}


def holder_a(ctx, n):
    return {"item": item_a(ctx, n), "items": [{"number": 1}]}


def holder_extra(ctx, n):
    return {"item": item_extra(ctx, n), "z": 0}


def holder_b(ctx, n):
    return {"item": item_b(ctx, n), "items": []}


def loop_a(ctx, n):
    return {"value": ctx.int(n), "next": {"value": 2}}


def loop_b(ctx, n):
    return {"text": ctx.str(n), "next": {"text": "x"}}


def nothing(ctx, n):
    return None


def value_of(typ):
    return lambda ctx, n: kit.gen(ctx, n, typ, 1, 2)


DESER = [
    Op("read a.Item", item_a, reader(same_a.Item)),
    Op("read a.Item extra", item_extra, reader(same_a.Item)),
    Op("read a.Item extra skip", item_extra, reader(same_a.Item, None, skip)),
    Op("read b.Item", item_b, reader(same_b.Item)),
    Op("read a.Item from b", item_b, reader(same_a.Item)),
    Op("read a.Holder", holder_a, reader(same_a.Holder)),
    Op("read a.Holder extra", holder_extra, parser(same_a.Holder, strict)),
    Op("read a.Holder extra skip", holder_extra, parser(same_a.Holder, skip)),
    Op("read b.Holder", holder_b, reader(same_b.Holder)),
    Op("read name in a", item_a, reader("Item", same_a)),
    Op("read name in b", item_b, reader("Item", same_b)),
    Op("read list of name in a", lambda ctx, n: [item_a(ctx, n)], reader(list["Item"], same_a)),
    Op("read list of name in b", lambda ctx, n: [item_b(ctx, n)], reader(list["Item"], same_b)),
    Op("read a.Loop", loop_a, reader(same_a.Loop)),
    Op("read b.Loop", loop_b, reader(same_b.Loop)),
    Op("read a.Tup", lambda ctx, n: {"first": ctx.int(n + ".1"), "item": item_a(ctx, n)}, reader(same_a.Tup)),
    Op("read b.Tup", lambda ctx, n: {"first": ctx.str(n + ".1"), "item": item_b(ctx, n)}, reader(same_b.Tup)),
    Op("read a.Kind", anything, reader(same_a.Kind)),
    Op("read b.Kind", anything, reader(same_b.Kind)),
    Op("read tagged", lambda ctx, n: {"tag": ctx.choice(n, ["a", "b", "c"]), "x": 1}, reader(Union[same_a.Tagged, same_b.Tagged])),
    Op("read broken", lambda ctx, n: {"bad": 1}, reader(same_a.Broken)),
    Op("read bystander", lambda ctx, n: {"number": ctx.int(n)}, reader(same_a.Bystander)),
    Op("read mutual 1", lambda ctx, n: {"number": ctx.int(n), "other": {"text": "x", "other": {"number": 2}}}, reader(same_a.Mutual1)),
    Op("read mutual 2", lambda ctx, n: {"text": ctx.str(n), "other": {"number": 1, "other": {"text": "y"}}}, reader(same_a.Mutual2)),
    Op("read local 0", lambda ctx, n: {"a": ctx.choice(n, [1, "x"])}, reader(Local0)),
    Op("read local 1", lambda ctx, n: {"a": ctx.choice(n, [1, "x"])}, reader(Local1)),
    Op("read int", anything, reader(int)),
    Op("read bool", anything, reader(bool)),
    Op("read float", anything, reader(float)),
    Op("read union int str", anything, reader(Union[int, str])),
    Op("read union str int", anything, reader(Union[str, int])),
    Op("read union float int", anything, reader(Union[float, int])),
    Op("read union int float", anything, reader(Union[int, float])),
    Op("read literal 1", anything, reader(Literal[1])),
    Op("read literal true", anything, reader(Literal[True])),
    Op("read optional", anything, reader(Optional[str])),
    Op("read list int", anything, reader(list[int])),
    Op("read list bool", anything, reader(list[bool])),
    Op("read list str", anything, reader(list[str])),
    Op("read annotated", anything, reader(Annotated[int, "x"])),
    Op("read failing", lambda ctx, n: {"number": "text"}, reader(same_a.Item)),
    Op("read pair", lambda ctx, n: {"a": item_a(ctx, n)}, reader(dict[str, same_a.Item])),
    Op("read pair b", lambda ctx, n: {"a": item_b(ctx, n)}, reader(dict[str, same_b.Item])),
]

SER = [
    Op("write a.Item", value_of(same_a.Item), writer(same_a.Item)),
    Op("write b.Item", value_of(same_b.Item), writer(same_b.Item)),
    Op("write a.Holder", lambda ctx, n: same_a.Holder(same_a.Item(ctx.int(n)), []), writer(same_a.Holder)),
    Op("write b.Holder", lambda ctx, n: same_b.Holder(same_b.Item(ctx.str(n)), []), writer(same_b.Holder)),
    Op("write a.Loop", lambda ctx, n: same_a.Loop(ctx.int(n), same_a.Loop(1)), object_to_json),
    Op("write b.Loop", lambda ctx, n: same_b.Loop(ctx.str(n), same_b.Loop("1")), object_to_json),
    Op("write a.Tup", lambda ctx, n: same_a.Tup(ctx.int(n), same_a.Item(2)), object_to_json),
    Op("write b.Tup", lambda ctx, n: same_b.Tup(ctx.str(n), same_b.Item("2")), object_to_json),
    Op("write a.Kind", lambda ctx, n: same_a.Kind.X, object_to_json),
    Op("write b.Kind", lambda ctx, n: same_b.Kind.X, object_to_json),
    Op("write local 0", lambda ctx, n: Local0(ctx.int(n)), object_to_json),
    Op("write local 1", lambda ctx, n: Local1(ctx.str(n), 5), object_to_json),
    Op("write broken", lambda ctx, n: same_a.Broken(None, ctx.int(n)), object_to_json),
    Op("write bystander", lambda ctx, n: same_a.Bystander(ctx.int(n)), object_to_json),
    Op("write mutual 1", lambda ctx, n: same_a.Mutual1(ctx.int(n), same_a.Mutual2("x", same_a.Mutual1(1))), object_to_json),
    Op("write mutual 2", lambda ctx, n: same_a.Mutual2(ctx.str(n), same_a.Mutual1(1)), object_to_json),
    Op("write bool", lambda ctx, n: ctx.bool(n), object_to_json),
    Op("write int", lambda ctx, n: ctx.int(n), object_to_json),
    Op("write list", lambda ctx, n: [ctx.int(n), "x", None], object_to_json),
    Op("write list name a", lambda ctx, n: [same_a.Item(ctx.int(n))], lambda v: create_serializer(list["Item"], same_a).generate(v)),
    Op("write list name b", lambda ctx, n: [same_b.Item(ctx.str(n))], lambda v: create_serializer(list["Item"], same_b).generate(v)),
    Op("write type", lambda ctx, n: int, object_to_json),
]

SCHEMA = [
    Op("schema a.Item", nothing, schema(same_a.Item)),
    Op("schema b.Item", nothing, schema(same_b.Item)),
    Op("schema a.Kind", nothing, schema(same_a.Kind)),
    Op("schema b.Kind", nothing, schema(same_b.Kind)),
    Op("schema Local0", nothing, schema(Local0)),
    Op("schema Local1", nothing, schema(Local1)),
    Op("schema Registered", nothing, schema(Registered)),
    Op("schema Documented", nothing, schema(Documented)),
    Op("schema Documented bare", nothing, schema(Documented, lambda: SchemaOptions(use_descriptions=False, use_examples=False))),
    Op("schema Documented path", nothing, schema(Documented, lambda: SchemaOptions(definitions_path="#/defs/"))),
    Op("schema Documented described", nothing, schema(Documented, lambda: SchemaOptions(property_description_fun=lambda c, n, d: n.upper()))),
    Op("schema union", nothing, schema(Union[int, str])),
    Op("schema union reversed", nothing, schema(Union[str, int])),
    Op("schema literal 1", nothing, schema(Literal[1])),
    Op("schema literal true", nothing, schema(Literal[True])),
    Op("schema annotated", nothing, schema(Annotated[int, IntegerRange(0, 5)])),
    Op("schema int", nothing, schema(int)),
    Op("schema int16", nothing, schema(int16)),
    Op("schema max", nothing, schema(list[Annotated[str, MaxLength(3)]])),
    Op("schema str", nothing, schema(list[str])),
    Op("schema fails", nothing, schema(dict[float, int])),
    Op("schema aliased", nothing, schema(shapes.Aliased)),
    Op("schema swapped", nothing, schema(shapes.Swapped)),
    Op("validate", lambda ctx, n: {"text": ctx.choice(n, [1, "x"])}, lambda j: validate_object(Registered2, j)),
]


def history(ctx, target, ops, length):
    data = target.gen(ctx, "target")
    alone = ctx.isolated(lambda: outcome(ctx, target.run, data))
    for i in range(length):
        op = ops[ctx.size(f"op{i}", len(ops) - 1)]
        outcome(ctx, op.run, op.gen(ctx, f"before{i}"))
    after = outcome(ctx, target.run, data)
    ctx.check_same(after, alone, f"{target.name}: another outcome after other operations")
    ctx.label("done")


def repeated(ctx, ops):
    "The same operation twice over, with different data."
    op = ops[ctx.size("op", len(ops) - 1)]
    data = op.gen(ctx, "target")
    alone = ctx.isolated(lambda: outcome(ctx, op.run, data))
    outcome(ctx, op.run, op.gen(ctx, "first"))
    ctx.check_same(outcome(ctx, op.run, data), alone, f"{op.name}: another outcome the second time")
    ctx.check_same(outcome(ctx, op.run, data), alone, f"{op.name}: another outcome the third time")
    ctx.label("done")


def caller_options(ctx):
    "Options passed by the caller may change afterwards."
    o = DeserializerOptions(skip_unassigned=ctx.flag("skip"))
    j = holder_extra(ctx, "j")
    alone = ctx.isolated(lambda: outcome(ctx, parser(same_a.Holder, skip if o.skip_unassigned else strict), j))
    p = create_deserializer(same_a.Holder, options=o)
    o.skip_unassigned = not o.skip_unassigned
    again = ctx.flag("again")
    if again:
        create_deserializer(same_a.Holder, options=o)
    ctx.check_same(outcome(ctx, p.parse, j), alone, "options of a deserializer changed after it was created")
    fresh = outcome(ctx, parser(same_a.Holder, skip), j)
    ctx.check(fresh[0] == "ok", "option ignored after other operations")
    ctx.check_same(outcome(ctx, parser(same_a.Holder, strict), j), ["raised", "JsonKeyError"], "option ignored after other operations")


def obligations():
    out = []
    for op in DESER:
        out.append(Ob(f"1:{op.name}", history, op, DESER + SER[:4] + SCHEMA[:2], 1, cost=2, expect=["done"]))
    for op in SER:
        out.append(Ob(f"1:{op.name}", history, op, SER + DESER[:4] + SCHEMA[:2], 1, expect=["done"]))
    for op in SCHEMA:
        out.append(Ob(f"1:{op.name}", history, op, SCHEMA + DESER[:2] + SER[:2], 1, expect=["done"]))
    for n, ops in (("read", DESER), ("write", SER), ("schema", SCHEMA)):
        out.append(Ob(f"repeated-{n}", repeated, ops, cost=2, expect=["done"]))
    core = [DESER[i] for i in (0, 2, 3, 5, 7, 8, 9, 10, 13, 14, 20, 21)]
    for op in core[:8]:
        out.append(Ob(f"2:{op.name}", history, op, core, 2, cost=3, tier="thorough", expect=["done"]))
    for op in DESER + SER:
        out.append(Ob(f"2-all:{op.name}", history, op, DESER[:24] + SER, 2, cost=9, paths=6000, seconds=120, tier="thorough", expect=["done"]))
    for op in SCHEMA:
        out.append(Ob(f"2-all:{op.name}", history, op, SCHEMA, 2, cost=5, paths=4000, seconds=120, tier="thorough", expect=["done"]))
    for op in core:
        out.append(Ob(f"3:{op.name}", history, op, core, 3, cost=9, paths=6000, seconds=120, tier="thorough", expect=["done"]))
    out.append(Ob("caller-options", caller_options))
    return out
