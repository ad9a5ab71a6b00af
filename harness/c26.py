"C26: custom conversions are applied, once per occurrence, wherever the type occurs."

import collections
import dataclasses
import enum
import typing
from dataclasses import dataclass, field
from typing import Annotated, Any, NamedTuple, Optional, Union

from strong_typing.auxiliary import Alias
from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.serialization import json_to_object, object_to_json
from strong_typing.serializer import create_serializer

from .api import Ob

LOG = []


class Failure(Exception):
    pass


class Refused(ValueError):
    pass


REFUSE = []


def to_json(self):
    LOG.append(("to", self))
    return self.payload


def from_json(cls, data):
    LOG.append(("from", cls, data))
    for error in REFUSE:
        raise error
    return cls.restore(data)


class Regular:
    number: int
    payload: Any

    def __init__(self, payload):
        self.payload = payload

    def __hash__(self):
        # the order of a set must not depend on addresses
        return 5

    def to_json(self):
        return to_json(self)

    @classmethod
    def restore(cls, data):
        return cls(data)

    @classmethod
    def from_json(cls, data):
        return from_json(cls, data)


class Derived(Regular):
    pass


class Unannotated:
    def __init__(self, payload):
        self.payload = payload

    def __hash__(self):
        # the order of a set must not depend on addresses
        return 5

    def to_json(self):
        return to_json(self)

    @classmethod
    def restore(cls, data):
        return cls(data)

    @classmethod
    def from_json(cls, data):
        return from_json(cls, data)


@dataclass
class Data:
    payload: Any
    other: "int" = 7

    def to_json(self):
        return to_json(self)

    @classmethod
    def restore(cls, data):
        return cls(data)

    @classmethod
    def from_json(cls, data):
        return from_json(cls, data)


@dataclass(frozen=True, eq=False)
class Frozen:
    payload: Any

    def __hash__(self):
        # the order of a set must not depend on addresses
        return 5

    def to_json(self):
        return to_json(self)

    @classmethod
    def restore(cls, data):
        return cls(data)

    @classmethod
    def from_json(cls, data):
        return from_json(cls, data)


@dataclass
class Slotted:
    __slots__ = ("payload",)
    payload: Any

    def to_json(self):
        return to_json(self)

    @classmethod
    def restore(cls, data):
        return cls(data)

    @classmethod
    def from_json(cls, data):
        return from_json(cls, data)


class Pair(NamedTuple):
    payload: Any
    number: int = 1

    def to_json(self):
        return to_json(self)

    @classmethod
    def restore(cls, data):
        return cls(data)

    @classmethod
    def from_json(cls, data):
        return from_json(cls, data)


class Mark(enum.Enum):
    ONE = 1
    TWO = "two"

    def to_json(self):
        return to_json(self)

    @classmethod
    def restore(cls, data):
        cls.TWO.payload = data
        return cls.TWO

    @classmethod
    def from_json(cls, data):
        return from_json(cls, data)


class Records(list):
    payload: Any

    def __init__(self, payload=None):
        super().__init__([1, 2])
        self.payload = payload

    def to_json(self):
        return to_json(self)

    @classmethod
    def restore(cls, data):
        return cls(data)

    @classmethod
    def from_json(cls, data):
        return from_json(cls, data)


class Static:
    "The conversion need not be a class method."

    payload: Any

    def __init__(self, payload):
        self.payload = payload

    def __hash__(self):
        # the order of a set must not depend on addresses
        return 5

    def to_json(self):
        return to_json(self)

    @staticmethod
    def from_json(data):
        LOG.append(("from", Static, data))
        for error in REFUSE:
            raise error
        return Static(data)


KINDS = [Regular, Derived, Unannotated, Data, Frozen, Slotted, Pair, Mark, Records, Static]
HASHABLE = [Regular, Derived, Unannotated, Frozen, Mark, Static]


def new(typ, payload):
    return typ.restore(payload) if typ is not Static else Static(payload)


# ---- classes in which the types occur


def member_classes(K):
    "Classes of all kinds that have members of a type."

    @dataclass
    class Box:
        item: K
        count: int

    @dataclass
    class OptionalBox:
        item: Optional[K]
        other: Optional[K] = None

    @dataclass(frozen=True)
    class FrozenBox:
        named: Annotated[K, Alias("the-item")]
        items: list[K]

    @dataclass
    class Many:
        items: list[Optional[K]]
        table: dict[str, K] = field(default_factory=dict)

    class Tuple2(NamedTuple):
        first: K
        second: list[K]

    class Plain:
        item: K
        maybe: Optional[K]

        def __init__(self, item=None, maybe=None):
            self.item = item
            self.maybe = maybe

    @dataclass
    class Either:
        item: Union[K, int]

    @dataclass
    class Heir(Box):
        extra: K

    return {"data class": Box, "optional": OptionalBox, "frozen": FrozenBox, "many": Many, "named tuple": Tuple2, "plain class": Plain, "union": Either, "derived": Heir}


class Shade(enum.Enum):
    LIGHT = "light"
    DARK = "dark"


def positions(K):
    out = {
        "itself": K,
        "annotated": Annotated[K, "note"],
        "list": list[K],
        "lists": list[list[K]],
        "dict": dict[str, K],
        "enum dict": dict[Shade, K],
        "tuple": tuple[K, int, K],
        "optional": Optional[K],
        "operator": K | None,
        "optional list": Optional[list[K]],
        "list of optional": list[Optional[K]],
        "list of annotated": list[Annotated[K, "note"]],
        "union": Union[K, int, str],
        "list of union": list[Union[K, int]],
        "dict of lists": dict[str, list[K]],
        "tuple of containers": tuple[dict[str, K], list[K]],
    }
    if K in HASHABLE and K is not Mark:
        out["set"] = set[K]
    for n, t in member_classes(K).items():
        out["member of " + n] = t
        if n in ("data class", "named tuple"):
            out["member of a list of " + n] = list[t]
    return out


class Gen:
    "An arbitrary value of a type, the text form it has to have, and the items with a custom conversion."

    def __init__(self, ctx, K, width, marks=True):
        self.ctx, self.K, self.width, self.items = ctx, K, width, []

    def payload(self, name, null):
        p = self.ctx.json(name, depth=1, width=1)
        if not null:
            self.ctx.assume(p is not None)
        return p

    def gen(self, name, t, null=True, only=False):
        ctx, K = self.ctx, self.K
        if t is K:
            if K is Mark:
                if self.items:
                    v = Mark.TWO
                else:
                    v = new(K, self.payload(name, null))
            else:
                v = new(K, self.payload(name, null))
            self.items.append(v)
            return v, v.payload
        if t is int:
            n = ctx.int(name, 0, 9)
            return n, n
        if t is str:
            s = ctx.text(name, 2)
            return s, s
        origin, args = typing.get_origin(t), typing.get_args(t)
        if origin is Annotated:
            return self.gen(name, args[0], null, only)
        if origin is list:
            r = [self.gen(f"{name}.{i}", args[0], only=only) for i in range(ctx.size(name + ".length", self.width))]
            return [v for v, _ in r], [j for _, j in r]
        if origin is set:
            r = [self.gen(f"{name}.{i}", args[0]) for i in range(ctx.size(name + ".length", self.width))]
            return {v for v, _ in r}, [j for _, j in r]
        if origin is tuple:
            r = [self.gen(f"{name}.{i}", a) for i, a in enumerate(args)]
            return tuple(v for v, _ in r), [j for _, j in r]
        if origin is dict:
            value, text = {}, {}
            for i, k in enumerate(Shade if args[0] is Shade else ["a", "bc"]):
                if ctx.flag(f"{name}.has{i}"):
                    v, j = self.gen(f"{name}.{i}", args[1])
                    value[k] = v
                    text[k.value if args[0] is Shade else k] = j
            return value, text
        if type(None) in args:
            if ctx.flag(name + ".null"):
                return None, None
            return self.gen(name, args[0], null=False)
        if args:
            # for a union, any of the members
            return self.gen(name, ctx.choice(name + ".member", [a for a in args if not only or a is K]), null=False)
        hints, value, text = typing.get_type_hints(t, include_extras=True), {}, {}
        for n, a in hints.items():
            v, j = self.gen(f"{name}.{n}", a, null=False, only=only)
            value[n] = v
            if v is not None or issubclass(t, tuple):
                text["the-item" if n == "named" else n] = j
        return t(**value), text


def occurrences(ctx, x, K, t):
    "The items with a custom conversion in a value of a type, in order."
    if type(x) is K:
        return [x]
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple, set)):
        return [y for i in x for y in occurrences(ctx, i, K, t)]
    if hasattr(x, "__dict__") and not isinstance(x, (type, enum.Enum)):
        return [y for i in x.__dict__.values() for y in occurrences(ctx, i, K, t)]
    return []


def out_of(ctx, K, where, width, how):
    t = positions(K)[where]
    LOG.clear()
    REFUSE.clear()
    g = Gen(ctx, K, width)
    value, text = g.gen("v", t)
    if isinstance(value, set):
        text = [v.payload for v in value]
    ctx.label("some" if g.items else "none")
    if how == "untyped":
        got = object_to_json(value)
    else:
        got = create_serializer(t).generate(value)
    ctx.check_same(got, text, "text of a value with custom conversions")
    calls = list(LOG)
    ctx.check(all(c[0] == "to" for c in calls), "something is read")
    ctx.check(len(calls) == len(g.items), "number of conversions")
    left = list(g.items)
    for _, obj in calls:
        for i, x in enumerate(left):
            if x is obj:
                del left[i]
                break
        else:
            ctx.fail("the conversion is applied to something else, or twice")


def into(ctx, K, where, width, how):
    t = positions(K)[where]
    REFUSE.clear()
    g = Gen(ctx, K, width)
    # with several members, the first that accepts the data is taken
    value, text = g.gen("v", t, only="union" in where)
    ctx.label("some" if g.items else "none")
    LOG.clear()
    snapshot = ctx.snapshot(text)
    if how == "generic":
        got = json_to_object(t, text)
    else:
        got = create_deserializer(t, options=DeserializerOptions()).parse(text)
    ctx.check(ctx.unchanged(text, snapshot), "the text is changed")
    calls = list(LOG)
    have, want = occurrences(ctx, got, K, t), occurrences(ctx, value, K, t)
    ctx.check(len(have) == len(want) == len(g.items), "number of items")
    for (_, cls, _), _ in zip(calls, want):
        ctx.check(cls is K, "class that is converted to")
    ctx.check(len(calls) == len(want), "number of conversions")
    if K is not Mark:
        if where == "set":
            ctx.check_same([c[2] for c in calls], text, "data that is converted")
            ctx.check(all(ctx.any_of([ctx.same(a.payload, b.payload) for b in want]) for a in have), "items of a set")
            return
        else:
            ctx.check(all(c[2] is x.payload or ctx.same(c[2], x.payload) for c, x in zip(calls, want)), "data that is converted")
        for a, b in zip(have, want):
            ctx.check_same(a.payload, b.payload, "data of an item")
    if where != "set":
        ctx.check(shape(got, K) == shape(value, K), "structure of what is read")


def shape(x, K):
    if type(x) is K:
        return ["item"]
    if isinstance(x, dict):
        return {k: shape(v, K) for k, v in x.items()}
    if isinstance(x, tuple) and hasattr(x, "_asdict"):
        return (type(x).__name__, shape(x._asdict(), K))
    if isinstance(x, (list, tuple)):
        return type(x)(shape(v, K) for v in x)
    if hasattr(x, "__dict__") and not isinstance(x, enum.Enum):
        return (type(x).__name__, {k: shape(v, K) for k, v in x.__dict__.items()})
    return x


def failing(ctx, K, where, error):
    "A conversion that refuses the data: the error gets out as it is, unless there are alternatives."
    t = positions(K)[where]
    REFUSE.clear()
    g = Gen(ctx, K, 1)
    value, text = g.gen("v", t)
    ctx.assume(bool(g.items))
    LOG.clear()
    REFUSE.append(error("because"))
    try:
        json_to_object(t, text)
    except error as e:
        ctx.check(e is REFUSE[0], "another error")
        ctx.check(len(LOG) == 1, "the conversion is tried again")
        ctx.label("refused")
        return
    ctx.fail("the refusal is lost")


def alternatives(ctx, K, refuse, error):
    "The members of a union are tried in order."
    REFUSE.clear()
    LOG.clear()
    if refuse:
        REFUSE.append(error("because"))
    n = ctx.choice("data", [5, "text"])
    first = ctx.flag("first")
    t = Union[K, int, str] if first else Union[int, K, str]
    got = json_to_object(t, n)
    if refuse or (not first and n == 5):
        ctx.check(got == n, "the alternative is not taken")
        ctx.label("alternative")
    else:
        ctx.check(type(got) is K and got.payload == n, "the conversion is not used")
        ctx.label("converted")
    ctx.check(len(LOG) == (1 if first or n != 5 else 0), "number of conversions")


# ---- classes that define only one of the conversions


@dataclass
class Out:
    number: int
    text: str = "x"

    def to_json(self):
        LOG.append(self)
        return {"n": self.number}


@dataclass
class In:
    number: int
    text: str = "x"

    @classmethod
    def from_json(cls, data):
        LOG.append(data)
        return cls(data["n"] + 1)


def one_way(ctx, K, wrap):
    LOG.clear()
    n = ctx.int("number", -1000, 1000)
    s = ctx.text("text", 2)
    x = K(n, s)
    value = [x] if wrap else x
    j = object_to_json(value)
    j1 = j[0] if wrap else j
    t = list[K] if wrap else K
    if K is Out:
        ctx.check_same(j1, {"n": n}, "custom text")
        ctx.check(len(LOG) == 1 and LOG[0] is x, "conversions")
        data = {"number": n, "text": s}
        v = json_to_object(t, [data] if wrap else data)
        v = v[0] if wrap else v
        ctx.check(type(v) is K and len(LOG) == 1, "type of what is read")
        ctx.check_same((v.number, v.text), (n, s), "members of what is read")
    else:
        ctx.check_same(j1, {"number": n, "text": s}, "text of the members")
        data = {"n": n}
        v = json_to_object(t, [data] if wrap else data)
        v = v[0] if wrap else v
        ctx.check(len(LOG) == 1 and LOG[0] is data, "conversions")
        ctx.check_same((v.number, v.text), (n + 1, "x"), "members of what is read")
    ctx.label("done")


class Attribute:
    "Something that only looks like a conversion."

    to_json: int
    from_json: str

    def __init__(self, to_json=0, from_json=""):
        self.to_json = to_json
        self.from_json = from_json


@dataclass
class DataAttribute:
    to_json: int = 1
    from_json: str = "x"


def attribute(ctx, K):
    "A member with the name of the conversion is a member."
    n, s = ctx.int("n", 0, 99), ctx.text("s", 2)
    j = object_to_json(K(n, s))
    ctx.check_same(j, {"to_json": n, "from_json": s}, "text of members")
    v = json_to_object(K, j)
    ctx.check_same((v.to_json, v.from_json), (n, s), "members")
    ctx.label("done")


def mixture(ctx, width):
    "A list of objects of any classes."
    LOG.clear()
    REFUSE.clear()
    value, text, count = [], [], 0
    for i in range(ctx.size("length", width, 1)):
        K = ctx.choice(f"class{i}", [Regular, Derived, Data, Pair, Out, In, None])
        n = ctx.int(f"n{i}", 0, 9)
        if K is None:
            value.append(n)
            text.append(n)
        elif K is Out:
            value.append(Out(n))
            text.append({"n": n})
            count += 1
        elif K is In:
            value.append(In(n))
            text.append({"number": n, "text": "x"})
        else:
            value.append(new(K, n))
            text.append(n)
            count += 1
    kind = ctx.choice("container", [list, tuple, dict])
    if kind is list:
        got = object_to_json(value)
    elif kind is tuple:
        got = object_to_json(tuple(value))
    else:
        got = list(object_to_json({f"k{i}": v for i, v in enumerate(value)}).values())
    ctx.check_same(got, text, "text of objects")
    ctx.check(len(LOG) == count, "number of conversions")
    ctx.label("done")


def obligations():
    out = []
    for K in KINDS:
        heavy = ("lists", "dict of lists", "tuple of containers", "member of a list of data class", "member of a list of named tuple", "member of many")
        for i, where in enumerate(positions(K)):
            some = ["some"]
            how = ["untyped", "typed"][(i + KINDS.index(K)) % 2]
            out.append(Ob(f"{K.__name__}:out:{where}", out_of, K, where, 1 if where in heavy else 2, how, expect=some))
            out.append(Ob(f"{K.__name__}:out:{where}:other", out_of, K, where, 2, "typed" if how == "untyped" else "untyped", tier="thorough", expect=some, cost=3))
            if K is Mark and where not in ("itself", "annotated", "list", "dict", "optional", "member of data class"):
                continue
            out.append(Ob(f"{K.__name__}:in:{where}", into, K, where, 1 if where in heavy else 2, "generic", expect=some))
            out.append(Ob(f"{K.__name__}:in:{where}:other", into, K, where, 2, "parser", tier="thorough", expect=some, cost=3))
            if K in (Regular, Data, Pair) and "union" not in where:
                out.append(Ob(f"{K.__name__}:refuse:{where}", failing, K, where, Failure if "optional" in where or where in ("operator", "member of many") else [Failure, Refused, KeyError][i % 3], expect=["refused"]))
        out.append(Ob(f"{K.__name__}:union:accept", alternatives, K, False, Refused, expect=["converted"]))
        out.append(Ob(f"{K.__name__}:union:refuse", alternatives, K, True, Refused, expect=["alternative"]))
    for K in (Out, In):
        for wrap in (False, True):
            out.append(Ob(f"{K.__name__}:{'list' if wrap else 'itself'}", one_way, K, wrap, expect=["done"]))
    for K in (Attribute, DataAttribute):
        out.append(Ob(f"attribute:{K.__name__}", attribute, K, expect=["done"]))
    out.append(Ob("mixture", mixture, 2, expect=["done"]))
    out.append(Ob("mixture:more", mixture, 3, tier="thorough", paths=20000, seconds=100, cost=20, expect=["done"]))
    return out
