"C09: required, optional, defaulted and unknown properties of objects."

import dataclasses
import enum
import typing
from dataclasses import dataclass, field
from typing import Annotated, Literal, NamedTuple, Optional, Union

from strong_typing.auxiliary import Alias
from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError
from strong_typing.serialization import json_to_generic, json_to_object

from . import kit, shapes
from .api import Ob, tname
from .c06 import KINDS


class Mode(enum.Enum):
    OFF = 0
    ON = 1


@dataclass
class MixedDefaults:
    mode: Mode = Mode.ON
    tag: Literal["t", "u"] = "u"
    maybe: Optional[Mode] = Mode.OFF


@dataclass
class NestedDefault:
    inner: shapes.Frozen = shapes.Frozen(1, "x")
    many: Optional[list[int]] = field(default_factory=lambda: [0])


@dataclass
class OptionalFirst:
    a: Optional[int]
    b: int
    c: Optional[str]


class TupleDefaults(NamedTuple):
    a: int
    b: Optional[int] = 4
    c: str = ""


class TupleOptional(NamedTuple):
    a: Optional[int]
    b: str


class ClassOptional:
    a: Optional[int]
    b: str
    in_: Optional[bool]


@dataclass
class Inheriting(shapes.Base):
    base: int = 9
    shared: Optional[str] = "s"


@dataclass
class ThreeUnion:
    u: Union[int, str, None]
    v: Union[int, str, None] = 3


MISSING = dataclasses.MISSING


def unwrap(t):
    "A type without `None`, and whether it had it."
    extras = typing.get_origin(t) is Annotated
    inner = t.__origin__ if extras else t
    if kit.is_union(inner):
        args = typing.get_args(inner)
        rest = tuple([a for a in args if a is not type(None)])
        if len(rest) < len(args):
            return Union.__getitem__(rest), True
    return inner, False


def declared(typ):
    "Fields as (name, property, type without None, optional, function returning the default or None)."
    out = []
    for name, t in kit.fields_of(typ):
        inner, optional = unwrap(t)
        default = None
        if dataclasses.is_dataclass(typ):
            f = [f for f in dataclasses.fields(typ) if f.name == name][0]
            if f.default is not MISSING:
                default = Const(f.default)
            elif f.default_factory is not MISSING:
                default = f.default_factory
        elif issubclass(typ, tuple) and name in typ._field_defaults:
            default = Const(typ._field_defaults[name])
        if default is None and optional:
            default = Const(None)
        out.append((name, kit.prop_name(name, t), inner, default))
    return out


class Loose:
    "Whatever an object says of itself in comparisons or conditions, it is a default."

    def __init__(self, same, true):
        self.same, self.true = same, true

    def __eq__(self, other):
        return self.same

    def __ne__(self, other):
        return not self.same

    __hash__ = object.__hash__

    def __bool__(self):
        return self.true

    def to_json(self):
        return "loose"

    @classmethod
    def from_json(cls, data):
        return cls(False, True)


def any_default(ctx, kind, skip):
    default = Loose(ctx.flag("same"), ctx.flag("true"))
    made = []

    def make():
        made.append(Loose(ctx.flag("same.made"), ctx.flag("true.made")))
        return made[-1]

    t = ctx.choice("type", [Loose, Optional[Loose]])
    if kind == "factory":
        typ = dataclasses.make_dataclass("TypeLoose", [("a", int), ("n", t, dataclasses.field(default_factory=make))], module=__name__)
    else:
        typ = dataclasses.make_dataclass("TypeLoose", [("a", int), ("n", t, dataclasses.field(default=default))], frozen=kind == "frozen", module=__name__)
    how = ctx.choice("how", ["absent", "null", "given"])
    j = {"a": 1}
    if how != "absent":
        j["n"] = None if how == "null" else "loose"
    v = json_to_object(typ, j, options=DeserializerOptions(skip_unassigned=True) if skip else None)
    if how == "given":
        ctx.check(type(v.n) is Loose and v.n is not default and all([v.n is not m for m in made]), "property that is given")
    elif kind == "factory":
        ctx.check(len(made) == 1 and v.n is made[0], "default from a factory")
    else:
        ctx.check(v.n is default, "default")
    ctx.label(how)


class Const:
    def __init__(self, v):
        self.v = v

    def __call__(self):
        return self.v


def expect(typ, j, options):
    "Values of the fields, or the errors of which one has to be reported."
    values, errors = {}, []
    known = []
    for name, prop, inner, default in declared(typ):
        known.append(prop)
        if prop not in j:
            if default is None:
                errors.append(JsonKeyError)
            else:
                values[name] = default()
            continue
        x = j[prop]
        if x is None:
            if default is None:
                errors.append(JsonValueError)
            else:
                values[name] = default()
            continue
        try:
            values[name] = json_to_generic(inner, x, options=options)
        except (JsonKeyError, JsonTypeError, JsonValueError, ValueError) as ex:
            errors.append(type(ex))
    if options is None or not options.skip_unassigned:
        for k in j:
            if k not in known:
                errors.append(JsonKeyError)
                break
    return values, errors


def verify(ctx, typ, j, how, skip):
    options = DeserializerOptions(skip_unassigned=True) if skip else None
    values, errors = expect(typ, j, options)
    try:
        if how == "object":
            v = json_to_object(typ, j, options=options)
        elif how == "parser":
            v = create_deserializer(typ, options=options).parse(j)
        else:
            v = create_deserializer(typ, options=DeserializerOptions(skip_unassigned=skip)).parse(j)
    except (JsonKeyError, JsonTypeError, JsonValueError, ValueError) as ex:
        ctx.label("refused")
        ctx.check(any([isinstance(ex, e) for e in errors]), f"object refused with {type(ex).__name__}")
        return
    ctx.label("accepted")
    ctx.check(not errors, "object accepted")
    ctx.check(ctx.class_of(v) is typ, "class of the result")
    for name, x in values.items():
        ctx.check_same(getattr(v, name), x, f"field {name}")


def objects(ctx, typ, how, skip, width, extra):
    j = ctx.json("j", depth=3, width=width, kinds=["dict"], keys=kit.keys_of(typ), extra=extra)
    verify(ctx, typ, j, how, skip)


def arbitrary(ctx, typ, skip, width):
    "Objects with properties of arbitrary names."
    j = ctx.json("j", depth=1, width=width, kinds=["dict"])
    verify(ctx, typ, j, "object", skip)


def nested(ctx, skip):
    "The option applies to nested objects, too."
    j = ctx.json("j", depth=2, width=2, kinds=["dict"], keys=["number", "text"])
    k = ctx.choice("where", ["field", "list", "dict", "optional", "tuple", "union", "namedtuple"])
    typ, doc, get = {
        "field": (InField, lambda: {"x": j}, lambda v: v.x),
        "list": (list[shapes.Frozen], lambda: [j], lambda v: v[0]),
        "dict": (dict[str, shapes.Frozen], lambda: {"k": j}, lambda v: v["k"]),
        "optional": (Optional[shapes.Frozen], lambda: j, lambda v: v),
        "tuple": (tuple[int, shapes.Frozen], lambda: [1, j], lambda v: v[1]),
        "union": (Union[int, shapes.Frozen], lambda: j, lambda v: v),
        "namedtuple": (InTuple, lambda: {"x": j}, lambda v: v.x),
    }[k]
    options = DeserializerOptions(skip_unassigned=True) if skip else None
    values, errors = expect(shapes.Frozen, j, options)
    try:
        v = json_to_generic(typ, doc(), options=options)
    except (JsonKeyError, JsonTypeError, JsonValueError) as ex:
        ctx.label("refused")
        ctx.check(errors != [], f"nested object refused with {type(ex).__name__}")
        return
    ctx.label("accepted")
    ctx.check(not errors, "nested object accepted")
    for name, x in values.items():
        ctx.check_same(getattr(get(v), name), x, f"field {name}")


@dataclass
class InField:
    x: shapes.Frozen


class InTuple(NamedTuple):
    x: shapes.Frozen


def shaped(ctx, names, frozen, skip):
    "Classes made of fields of any kind."
    fields = []
    defaulted = False
    for i, n in enumerate(names):
        k = ctx.choice(f"kind{i}", list(KINDS))
        t, d = KINDS[k]
        if k == "alias":
            t = Annotated[int, Alias(f"other-name-{i}")]
        if d is None and defaulted:
            fields.append((n, t, dataclasses.field(kw_only=True)))
        elif d is None:
            fields.append((n, t))
        else:
            defaulted = True
            fields.append((n, t, dataclasses.field(default=d[1]) if d[0] == "default" else dataclasses.field(default_factory=d[1])))
    typ = dataclasses.make_dataclass("Shaped", fields, frozen=frozen, module=__name__)
    j = ctx.json("j", depth=1, width=1, kinds=["dict"], keys=kit.keys_of(typ))
    verify(ctx, typ, j, "object", skip)


OWN = [MixedDefaults, NestedDefault, OptionalFirst, TupleDefaults, TupleOptional, ClassOptional, Inheriting, ThreeUnion]
FLAT = [
    shapes.Plain, shapes.Empty, shapes.Frozen, shapes.FrozenDefaults, shapes.Slotted, shapes.FrozenSlotted, shapes.Base, shapes.Derived, shapes.Overriding, shapes.KeywordOnly,
    shapes.NewOptionals, shapes.FalsyDefaults, shapes.Factories, shapes.FilledFactories, shapes.Named, shapes.Aliased, shapes.Swapped, shapes.Pair, shapes.PairDefaults,
    shapes.PairNamed, shapes.Annotated1, shapes.Annotated3, shapes.Uninitialized, shapes.Tally, shapes.Awkward, shapes.AwkwardPair,
]  # fmt: skip
WIDE = [shapes.Computed, shapes.Derived2, shapes.Defaults, shapes.Optionals, shapes.Outer, shapes.OptionalInner, shapes.Lookup, shapes.Unions, shapes.Chain, shapes.Tree, shapes.PairNested, shapes.HasPair]  # fmt: skip


def obligations():
    out = []
    for skip in (False, True):
        s = "skip" if skip else "strict"
        for i, t in enumerate(OWN + FLAT):
            how = ["object", "parser", "options"][i % 3]
            out.append(Ob(f"{s}:{tname(t)}", objects, t, how, skip, 1, True, paths=1600, seconds=20, expect=["accepted"] if t is shapes.Empty and skip else ["refused", "accepted"]))
            out.append(Ob(f"{s}:wide:{tname(t)}", objects, t, how, skip, 2, True, tier="thorough", cost=3, expect=["accepted"] if t is shapes.Empty and skip else ["refused", "accepted"]))
        for t in WIDE:
            out.append(Ob(f"{s}:{tname(t)}", objects, t, "object", skip, 1, True, tier="thorough", cost=3, expect=["refused", "accepted"]))
        for t in [shapes.Frozen, shapes.FrozenDefaults, shapes.Pair, shapes.Annotated1, shapes.Empty, shapes.Aliased]:
            out.append(Ob(f"{s}:names:{tname(t)}", arbitrary, t, skip, 2, expect=["accepted"] if t is shapes.Empty and skip else ["refused", "accepted"]))
            out.append(Ob(f"{s}:names-3:{tname(t)}", arbitrary, t, skip, 3, tier="thorough", cost=3, expect=["accepted"] if t is shapes.Empty and skip else ["refused", "accepted"]))
        for k in ("class", "frozen", "factory"):
            out.append(Ob(f"{s}:default:{k}", any_default, k, skip, expect=["absent", "null", "given"]))
        out.append(Ob(f"{s}:nested", nested, skip, cost=3, expect=["refused", "accepted"]))
        out.append(Ob(f"{s}:shaped-1", shaped, ["in_"], True, skip, expect=["refused", "accepted"]))
        out.append(Ob(f"{s}:shaped-2", shaped, ["a", "b_"], False, skip, cost=4, paths=4000, expect=["refused", "accepted"]))
        out.append(Ob(f"{s}:shaped-2-frozen", shaped, ["in_", "b"], True, skip, tier="thorough", cost=4, expect=["refused", "accepted"]))
    return out
