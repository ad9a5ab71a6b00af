"C18: schemas are self-contained, and generating them has no side effects."

import dataclasses
import datetime
import decimal
import enum
import uuid
from dataclasses import dataclass
from typing import Annotated, ForwardRef, Literal, NamedTuple, Optional, Union

from strong_typing.auxiliary import IntegerRange, MaxLength, MinLength, Precision, float32, float64, int8, uint64
from strong_typing.core import JsonType
from strong_typing.schema import JsonSchemaGenerator, SchemaOptions, Validator, classdef_to_schema, get_schema_identifier, register_schema, validate_object

from . import kit, registered, shapes
from .api import Ob, tname
from .c15 import Defaulted, Documented, Limits, Many

# ways to refer to a class: by the class or by its name
WAYS = {
    "direct": lambda t: t,
    "optional": lambda t: Optional[t],
    "list": lambda t: list[t],
    "dict": lambda t: dict[str, t],
    "union": lambda t: Union[int, t],
    "tuple": lambda t: tuple[int, t],
    "set": lambda t: set[t],
    "annotated": lambda t: Annotated[t, "note"],
    "nested": lambda t: Optional[list[dict[str, t]]],
    "enum-dict": lambda t: dict[kit.Color, t],
    "many-dict": lambda t: dict[Many, t],
    "annotated-optional": lambda t: Annotated[Optional[t], "note"],
    "optional-annotated": lambda t: Optional[Annotated[t, "note"]],
}


def target(s):
    "The schema a reference of some way leads to."
    while True:
        if "oneOf" in s:
            s = [x for x in s["oneOf"] if x.get("type") not in ("null", "integer")][0]
        elif "items" in s:
            s = s["items"]
        elif "prefixItems" in s:
            s = s["prefixItems"][1]
        elif isinstance(s.get("additionalProperties"), dict):
            s = s["additionalProperties"]
        elif s.get("additionalProperties") is False and "properties" in s and "red" in s["properties"]:
            s = s["properties"]["red"]
        else:
            return s


def references(x, out):
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "$ref" and isinstance(v, str):
                out.append(v)
            elif k not in ("examples", "default", "const", "enum"):
                references(v, out)
    elif isinstance(x, list):
        for v in x:
            references(v, out)
    return out


def self_contained(ctx, schema, definitions, path):
    "References lead to definitions, and there are no other definitions."
    used, todo = set(), [schema]
    while todo:
        for r in references(todo.pop(), []):
            ctx.check(r.startswith(path), "reference leads elsewhere")
            name = r[len(path) :]
            if name in used:
                continue
            used.add(name)
            ctx.check(name in definitions, "reference without a definition")
            todo.append(definitions[name])
    ctx.check(set(definitions) == used, "definition that nothing refers to")
    ctx.check(list(definitions) == sorted(definitions), "definitions out of order")


def graph(ctx, n, way, offset, loops):
    """
    Classes that refer to each other in any way; a later class may refer to an earlier one, or itself, by name if it is registered.
    """
    known = [ctx.flag(f"registered{i}") for i in range(n)]
    ways = list(WAYS)
    edges = {}
    for i in range(n):
        for k in range(n):
            if (k > i or (loops and known[k])) and ctx.flag(f"edge{i}{k}"):
                w = way or ways[(offset + 3 * i + 5 * k) % len(ways)]
                by_name = k <= i or (known[k] and ctx.flag(f"by-name{i}{k}"))
                edges[i, k] = (w, by_name)
    made = [None] * n
    for i in reversed(range(n)):
        hints = {f"id{i}": int}
        for k in range(n):
            if (i, k) in edges:
                w, by_name = edges[i, k]
                hints[f"p{k}"] = WAYS[w]((f"K{k}" if w != "direct" else ForwardRef(f"K{k}")) if by_name else made[k])
        made[i] = dataclass(type(f"K{i}", (), {"__annotations__": hints, "__module__": __name__, "__doc__": f"Class {i}."}))
        if known[i]:
            register_schema(made[i])
    return made, known, edges


def graphs(ctx, n, way, offset, loops, how):
    verify_graph(ctx, n, *graph(ctx, n, way, offset, loops), how)


def chains(ctx, n, offset, how, all_known=False):
    "Classes each of which refers to the next one, and one of which may refer back to the first."
    ways = ["direct", "optional", "list", "dict", "union", "tuple", "enum-dict"] if all_known else list(WAYS)
    known = [all_known or i == 0 or i == n - 1 or ctx.flag(f"registered{i}") for i in range(n)]
    ctx.assume(sum(known) >= n - 2)
    edges = {(i, i + 1): (ways[(offset + 3 * i) % len(ways)], False) for i in range(n - 1)}
    back = ctx.size("back", n)
    if back < n:
        edges[back, 0] = (ways[(offset + back) % len(ways)], True)
    made = [None] * n
    for i in reversed(range(n)):
        hints = {f"id{i}": int}
        for k in range(n):
            if (i, k) in edges:
                w, by_name = edges[i, k]
                hints[f"p{k}"] = WAYS[w]((f"K{k}" if w != "direct" else ForwardRef(f"K{k}")) if by_name else made[k])
        made[i] = dataclass(type(f"K{i}", (), {"__annotations__": hints, "__module__": __name__, "__doc__": f"Class {i}."}))
        if known[i]:
            register_schema(made[i])
    verify_graph(ctx, n, made, known, edges, how)


def verify_graph(ctx, n, made, known, edges, how):
    if how == "function":
        s = classdef_to_schema(made[0])
        definitions, path = s.get("definitions", {}), "#/definitions/"
        top = {k: v for k, v in s.items() if k != "definitions"}
    else:
        path = "#/components/schemas/"
        top, definitions = JsonSchemaGenerator(SchemaOptions(definitions_path=path)).classdef_to_schema(made[0], force_expand=how == "expand")
    self_contained(ctx, top, definitions, path)
    # each reference leads to the class it is meant for
    todo, seen = [(0, top)], set()
    while todo:
        i, s = todo.pop()
        if "$ref" in s:
            ctx.check(s["$ref"] == path + f"K{i}", "reference to another class")
            ctx.check(known[i], "class that is not registered has a definition")
            if i in seen:
                continue
            seen.add(i)
            s = definitions[f"K{i}"]
        ctx.check(s["type"] == "object" and set(s["properties"]) == {f"id{i}"} | {f"p{k}" for k in range(n) if (i, k) in edges}, "class with other properties")
        for k in range(n):
            if (i, k) in edges:
                todo.append((k, target(s["properties"][f"p{k}"])))
    ctx.label("definitions" if definitions else "none")


def clobber(x, seen=None):
    "Changes all that a schema consists of."
    seen = {} if seen is None else seen
    if id(x) in seen:
        return
    seen[id(x)] = x
    if isinstance(x, dict):
        for v in list(x.values()):
            clobber(v, seen)
        x.clear()
        x["clobbered"] = True
    elif isinstance(x, list):
        for v in list(x):
            clobber(v, seen)
        x.append("clobbered")


TYPES = [registered.Node, registered.Both, registered.Journey, registered.Garage, registered.Route, registered.Point, registered.Direction, registered.Percent, Documented, Limits, Defaulted,
         JsonType, list[registered.Span], dict[str, Optional[registered.Even]], Union[registered.Car, registered.Bike], kit.Color, dict[Many, int], shapes.Plain, int, Annotated[int, "x"]]  # fmt: skip


def doc(owner, name, text):
    return f"{owner.__name__}.{name}: {text}"


OPTIONS = {
    "default": lambda: None,
    "no-descriptions": lambda: SchemaOptions(use_descriptions=False),
    "no-examples": lambda: SchemaOptions(use_examples=False),
    "path": lambda: SchemaOptions(definitions_path="#/$defs/"),
    "property": lambda: SchemaOptions(property_description_fun=doc),
    "none": lambda: SchemaOptions("#/definitions/", False, False, None),
}


class Unsupported:
    x: dict[float, int]


class Mixed(enum.Enum):
    A = 1
    B = "b"


class HoldsBroken(NamedTuple):
    point: registered.Point
    node: registered.Node
    broken: Mixed


def generate(typ, options, how, generator=None):
    if how == "function":
        return classdef_to_schema(typ, options)
    if how == "draft7":
        return classdef_to_schema(typ, options, Validator.Draft7)
    s, d = (generator or JsonSchemaGenerator(options)).classdef_to_schema(typ, force_expand=how == "expand")
    return {"schema": s, "definitions": d}


def repeat(ctx, typ, option, how):
    "A schema generated again is the same, whatever was done with the first, and whatever was generated in between."
    options = OPTIONS[option]()
    before = dataclasses.asdict(options) if options is not None else None
    first = generate(typ, options, how)
    snap = ctx.snapshot(first)
    between = ctx.choice("between", ["nothing", "clobber", "other", "other-options", "failure", "validation", "same-generator", "identifier"])
    ctx.label(between)
    generator = None
    if between == "clobber":
        clobber(first)
    elif between == "other":
        clobber(generate(ctx.choice("other", TYPES), None, ctx.choice("other-how", ["function", "generator", "expand"])))
    elif between == "other-options":
        clobber(generate(typ, OPTIONS[ctx.choice("other-option", list(OPTIONS))](), ctx.choice("other-how", ["function", "generator", "expand"])))
    elif between == "failure":
        broken = ctx.choice("broken", [Unsupported, Mixed, HoldsBroken, list[HoldsBroken], "text"])
        try:
            generate(broken, options, "function" if isinstance(broken, str) else how)
            ctx.fail("schema of an unsupported type")
        except (TypeError, ValueError):
            pass
    elif between == "validation":
        try:
            validate_object(typ, ctx.choice("json", [1, {}, {"x": 1, "y": 2}]))
        except Exception:
            pass
    elif between == "same-generator":
        generator = JsonSchemaGenerator(options)
        other = ctx.choice("other", [*TYPES, HoldsBroken, Mixed])
        try:
            clobber(generate(other, None, "generator", generator))
        except ValueError:
            ctx.check(other in (HoldsBroken, Mixed), "schema of a supported type fails")
    elif between == "identifier":
        get_schema_identifier(registered.Point)
        get_schema_identifier(shapes.Plain)
    again = generate(typ, options, how if generator is None or how != "function" else "generator", generator)
    if generator is not None and how in ("function", "draft7"):
        full = {k: v for k, v in snap.items() if k not in ("definitions", "$schema")}
        snap = {"schema": full, "definitions": snap.get("definitions", {})}
        if how == "draft7":
            again = {"schema": {k: v for k, v in again.items() if k not in ("definitions", "$schema")}, "definitions": again.get("definitions", {})}
    ctx.check(ctx.unchanged(again, snap), "schema generated again is another")
    ctx.check(options is None or dataclasses.asdict(options) == before, "options changed")


LIMITED = {
    decimal.Decimal: [Annotated[decimal.Decimal, Precision(5, 2)], Annotated[decimal.Decimal, Precision(3)], Annotated[decimal.Decimal, "x"]],
    int: [Annotated[int, IntegerRange(1, 2)], int8, uint64, bool],
    float: [Annotated[float, "x"], float64, float32],
    str: [Annotated[str, MaxLength(3)], Annotated[str, MinLength(3), MaxLength(5)], Annotated[str, "x"], Literal["a"], kit.Color],
    bytes: [Annotated[bytes, "x"], str],
    datetime.datetime: [Annotated[datetime.datetime, "x"], datetime.date, str],
    uuid.UUID: [Annotated[uuid.UUID, "x"], str],
    list[str]: [list[Annotated[str, MaxLength(3)]], tuple[str, str], set[str]],
    dict[str, str]: [dict[str, Annotated[str, MaxLength(3)]], dict[kit.Color, str], dict[Many, str]],
    dict[kit.Color, int]: [dict[kit.Color, Annotated[int, IntegerRange(1, 2)]], dict[str, int]],
    kit.Color: [Literal[kit.Color.RED], Annotated[kit.Color, "x"]],
    Optional[int]: [Optional[Annotated[int, IntegerRange(1, 2)]], Union[int, str]],
    registered.Percent: [int, registered.Point],
}


def limited(ctx, typ, how):
    "The schema of a type does not depend on schemas of limited kinds of it, in any order, within one generator or several."
    options = OPTIONS[ctx.choice("option", ["default", "path"])]()
    one = JsonSchemaGenerator(options) if how == "same" else None
    first, others = None, {}
    for step in range(4):
        t = typ if step in (0, 3) else ctx.choice(f"type{step}", [typ, *LIMITED[typ]])
        wrap = ctx.choice(f"wrap{step}", ["plain", "list", "property"]) if step in (1, 2) else "plain"
        if wrap == "list":
            t = list[t]
        elif wrap == "property":
            t = dataclass(type("Box", (), {"__annotations__": {"x": t}, "__module__": __name__}))
        s = generate(t, options, "generator", one)
        if step == 0:
            first = ctx.snapshot(s)
        elif step == 3:
            ctx.check(ctx.unchanged(s, first), "the schema of a type has changed")
        elif wrap == "plain" and t is not typ:
            w = generate(t, options, "generator")
            ctx.check(w["schema"] == s["schema"], "the schema depends on the generator")
    ctx.label("done")


def contained(ctx, typ, option):
    "Schemas of fixed types."
    options = OPTIONS[option]()
    s, d = JsonSchemaGenerator(options).classdef_to_schema(typ, force_expand=ctx.flag("expand"))
    self_contained(ctx, s, d, options.definitions_path if options is not None else "#/definitions/")


@dataclass
class Custom:
    "Has a schema of its own."

    x: int


class Undescribed:
    pass


@dataclass
class Holds:
    custom: Custom
    more: list[Custom]
    maybe: Optional[Undescribed]


Undescribed.__doc__ = None


def given(ctx, option):
    "Schemas and examples given upon registration."
    options = OPTIONS[option]()
    schema = {"type": "object", "properties": {"x": {"type": "integer", "maximum": ctx.int("max")}}, "required": [ctx.str("req")]}
    examples = [{"x": ctx.int("x1"), "deep": [{"y": ctx.json("j", 1, 1)}]}, {"x": ctx.str("x2")}]
    with_schema, with_examples = ctx.flag("schema"), ctx.flag("examples")
    before, examples_before = ctx.snapshot(schema), ctx.snapshot(examples)
    register_schema(Custom, schema if with_schema else None, examples=examples if with_examples else None)
    register_schema(Undescribed, {"type": "string", "maxLength": ctx.int("len")}, name="Own name")
    want = dict(ctx.snapshot(schema)) if with_schema else {"type": "object", "properties": {"x": {"type": "integer"}}, "additionalProperties": False, "required": ["x"]}
    if options is None or options.use_descriptions:
        want["title"] = "Has a schema of its own."
    if with_examples and (options is None or options.use_examples):
        want["examples"] = examples_before
        ctx.label("examples")
    gen = JsonSchemaGenerator(options)
    path = options.definitions_path if options is not None else "#/definitions/"
    for i in range(2):
        top, definitions = gen.classdef_to_schema(Holds)
        self_contained(ctx, top, definitions, path)
        ctx.check(set(definitions) == {"Custom", "Own name"}, "definitions")
        ctx.check(ctx.unchanged(ordered(definitions["Custom"]), ordered(want)), "definition is not what was registered")
        ctx.check_same(definitions["Own name"], {"type": "string", "maxLength": ctx_len(ctx)}, "definition is not what was registered")
        ctx.check_same(top["properties"]["custom"]["$ref"], path + "Custom", "reference")
        ctx.check(not ctx.shares(definitions, schema) and not ctx.shares(definitions, examples), "shares what was registered")
        clobber(top)
        clobber(definitions)
        ctx.check(ctx.unchanged(schema, before), "registered schema changed")
        ctx.check(ctx.unchanged(examples, examples_before), "registered examples changed")


def ctx_len(ctx):
    return JsonSchemaGenerator.type_catalog.get(Undescribed).schema["maxLength"]


def ordered(d):
    return {k: d[k] for k in sorted(d)}


@dataclass
class Chained:
    "Refers to itself and is not registered."

    value: int
    next: Optional["Chained"] = None


@dataclass
class Early:
    late: list["Late"]


@dataclass
class Late:
    "Defined after a class that refers to it, and not registered."

    x: int


def same_named(n):
    if n:

        @dataclass
        class Twin:
            a: int

    else:

        @dataclass
        class Twin:
            b: str

    return Twin


def unregistered(ctx, typ):
    s = classdef_to_schema(typ)
    for r in references(s, []):
        ctx.check(r[len("#/definitions/") :] in s.get("definitions", {}), "reference without a definition")


def twins(ctx):
    "Registered classes of the same name."
    a, b = same_named(0), same_named(1)
    register_schema(a)
    register_schema(b)
    s = classdef_to_schema(tuple[a, b])
    refs = [x["$ref"].split("/")[-1] for x in s["prefixItems"]]
    props = [list(s["definitions"][r]["properties"]) for r in refs]
    ctx.check(props == [["b"], ["a"]], "reference to the definition of another class of the same name")


def obligations():
    out = []
    hows = ["function", "generator", "expand"]
    for i, w in enumerate(WAYS):
        if w == "set":
            continue
        out.append(Ob(f"graph-2:{w}", graphs, 2, w, 0, True, "function", expect=["definitions", "none"]))
        out.append(Ob(f"graph-3-acyclic:{w}", graphs, 3, w, 0, False, "generator" if i % 2 else "expand", tier="quick" if i % 3 == 0 else "thorough", cost=3, expect=["definitions", "none"]))
        out.append(Ob(f"graph-3:{w}", graphs, 3, w, 0, True, hows[1 + i % 2], tier="thorough", paths=30000, seconds=100, cost=20, expect=["definitions", "none"]))
    for o in range(0, len(WAYS), 4):
        out.append(Ob(f"graph-3-mixed-{o}", graphs, 3, None, o, False, "generator", cost=3, expect=["definitions", "none"]))
    for o in range(len(WAYS)):
        out.append(Ob(f"chain-{4 + o % 5}:{o}", chains, 4 + o % 5, o, hows[o % 3], tier="quick" if o % 3 == 0 else "thorough", cost=2, expect=["definitions"]))
    for i, n in enumerate((9, 12, 17, 24)):
        out.append(Ob(f"long-{n}", chains, n, i, hows[i % 3], True, expect=["definitions"]))
    for i, t in enumerate(TYPES):
        for k, o in enumerate(OPTIONS):
            out.append(Ob(f"repeat:{tname(t)}:{o}", repeat, t, o, ["function", "generator", "expand", "draft7"][(i + k) % 4] if "set" not in tname(t) else "function", tier="quick" if (i + k) % 3 == 0 or o == "default" else "thorough"))
            if (i + k) % 2 == 0:
                out.append(Ob(f"contained:{tname(t)}:{o}", contained, t, o))
    for i, t in enumerate(LIMITED):
        for how in ("same", "several"):
            out.append(Ob(f"limited-{how}:{tname(t)}", limited, t, how, tier="quick" if how == "several" or i % 3 == 0 else "thorough", expect=["done"]))
    for o in OPTIONS:
        out.append(Ob(f"given:{o}", given, o))
    out.append(Ob("unregistered:Chained", unregistered, Chained))
    out.append(Ob("unregistered:Early", unregistered, Early))
    out.append(Ob("same-name", twins))
    return out
