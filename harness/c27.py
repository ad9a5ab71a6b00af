"C27: type expressions print to text that evaluates back to the type."

import collections.abc
import datetime
import enum
import sys
import types
import typing
import uuid
from dataclasses import dataclass
from typing import Annotated, Any, Callable, Generic, Iterable, Iterator, Literal, Mapping, NamedTuple, Optional, ParamSpec, Self, Sequence, TypeVar, Union

from strong_typing.auxiliary import (
    Alias, IntegerRange, Length, MaxLength, MinLength, Precision, Signed, SpecialConversion, Storage, TimePrecision,
    float32, float64, int8, int16, int32, int64, uint8, uint16, uint32, uint64,
)  # fmt: skip
from strong_typing.name import TypeFormatter, python_type_to_name, python_type_to_str

from .api import Ob

T = TypeVar("T")
K = TypeVar("K")
P = ParamSpec("P")
HERE = "harness_c27"


class Plain:
    pass


@dataclass
class Data:
    number: int


class Pair(NamedTuple):
    number: int


class Color(enum.Enum):
    RED = 1
    GREEN = "green"


class Word(str, enum.Enum):
    YES = "yes"


class Access(enum.IntFlag):
    READ = 1


class Box(Generic[T]):
    pass


class Two(Generic[T, K]):
    pass


NAMES = {
    "Annotated": Annotated, "Any": Any, "Callable": Callable, "Iterable": Iterable, "Iterator": Iterator, "Literal": Literal, "Mapping": Mapping, "Optional": Optional,
    "Self": Self, "Sequence": Sequence, "Union": Union, "T": T, "K": K, "P": P, "Plain": Plain, "Data": Data, "Pair": Pair, "Color": Color, "Word": Word, "Access": Access, "Box": Box, "Two": Two,
    "Alias": Alias, "IntegerRange": IntegerRange, "Length": Length, "MaxLength": MaxLength, "MinLength": MinLength, "Precision": Precision, "Signed": Signed,
    "SpecialConversion": SpecialConversion, "Storage": Storage, "TimePrecision": TimePrecision, "float32": float32, "float64": float64, "int8": int8, "int16": int16,
    "int32": int32, "int64": int64, "uint8": uint8, "uint16": uint16, "uint32": uint32, "uint64": uint64,
    "datetime": datetime.datetime, "date": datetime.date, "time": datetime.time, "timedelta": datetime.timedelta, "UUID": uuid.UUID,
}  # fmt: skip

LEAVES = {
    "int": int, "str": str, "None": None, "Any": Any, "Plain": Plain, "int32": int32, "T": T, "Literal": Literal["a", 1], "bytes": bytes, "Data": Data, "Pair": Pair, "Color": Color,
    "float64": float64, "Self": Self, "datetime": datetime.datetime, "UUID": uuid.UUID, "dict": dict, "Box": Box,
}  # fmt: skip
FEW = ["int", "None", "Plain", "int32"]

ANNOTATIONS = [
    Alias("x"), Alias("it's"), Alias('a "b"\n\\'), MaxLength(3), MinLength(0), Length(7), IntegerRange(-1, 1), Precision(5, 2), Precision(4), TimePrecision(), Storage(4), Signed(True),
    SpecialConversion(), "text", "it's", 1, True, None, 1.5, ("a", 1),
]  # fmt: skip

LITERALS = [
    ("a",), (1,), (True,), (None,), ("it's", 'say "x"'), ("\n", "\\", "\x00"), ("", "é\u2028"), (1, "1", True), (0, -1), (b"a'\xff",), (Color.RED,), (Color.RED, Color.GREEN, "x"), (Word.YES,),
    (Access.READ,), (None, Color.GREEN), (10**30,), (2, 1),
]  # fmt: skip


def leaf(ctx, name, few=False, none=True):
    names = [n for n in (FEW if few else LEAVES) if none or n not in ("None", "Any")]
    n = ctx.choice(name, names)
    return LEAVES[n]


CONSTRUCTORS = [
    "list", "set", "frozenset", "tuple1", "tuple2", "tuple...", "dict", "Optional", "Union2", "Union3", "Union-null", "|", "|None", "type", "Callable0", "Callable1", "Callable2", "Callable...", "CallableP",
    "Concatenate", "Box", "Two", "Iterable", "Mapping", "abc", "Annotated", "Annotated2", "Literal", "tuple0",
]  # fmt: skip


def apply(ctx, c, name, arg, wide):
    """
    An expression formed by one of the type constructors.

    :param arg: Produces the (first) argument.
    """

    def a():
        return arg(name + ".a")

    def b():
        return leaf(ctx, name + ".b", not wide)

    if c == "list":
        return list[a()]
    if c == "set":
        return set[a()]
    if c == "frozenset":
        return frozenset[a()]
    if c == "tuple0":
        return tuple[()]
    if c == "tuple1":
        return tuple[(a(),)]
    if c == "tuple2":
        return tuple[b(), a()]
    if c == "tuple...":
        return tuple[a(), ...]
    if c == "dict":
        return dict[str, a()]
    if c == "Optional":
        return Optional[a()]
    if c == "Union2":
        return Union[a(), b()]
    if c == "Union3":
        return Union[b(), float, a()]
    if c == "Union-null":
        return Union[None, a(), b()]
    if c == "|":
        return Union[a()] | Union[b()] if False else plain(a()) | plain(b())
    if c == "|None":
        return plain(a()) | None
    if c == "type":
        return type[a()]
    if c == "Callable0":
        return Callable[[], a()]
    if c == "Callable1":
        return Callable[[a()], b()]
    if c == "Callable2":
        return Callable[[b(), a()], None]
    if c == "Callable...":
        return Callable[..., a()]
    if c == "CallableP":
        return Callable[P, a()]
    if c == "Concatenate":
        NAMES["Concatenate"] = typing.Concatenate
        return Callable[typing.Concatenate[a(), P], int]
    if c == "Box":
        return Box[a()]
    if c == "Two":
        return Two[a(), b()]
    if c == "Iterable":
        return Iterable[a()]
    if c == "Mapping":
        return Mapping[str, a()]
    if c == "abc":
        return Sequence[Iterator[a()]]
    if c == "Annotated":
        return Annotated[a(), ctx.choice(name + ".annotation", ANNOTATIONS if wide else ANNOTATIONS[1:17:5])]
    if c == "Annotated2":
        return Annotated[a(), ctx.choice(name + ".annotation", ANNOTATIONS[:5] if wide else ANNOTATIONS[:2]), ctx.choice(name + ".second", ANNOTATIONS[5:16:3] if wide else ANNOTATIONS[5:7])]
    if c == "Literal":
        return Literal[ctx.choice(name + ".values", LITERALS)]
    raise AssertionError(c)


def plain(t):
    return type(None) if t is None else t


def alike(s, t):
    "Whether types are equal, and so are the kinds of the values in them."
    if s is t or s is None and t is type(None) or t is None and s is type(None):
        return True
    if isinstance(s, (list, tuple)):
        return type(s) is type(t) and len(s) == len(t) and all(alike(x, y) for x, y in zip(s, t))
    m, n = getattr(s, "__metadata__", None), getattr(t, "__metadata__", None)
    if (m is None) != (n is None):
        return False
    if m is not None:
        return alike(s.__origin__, t.__origin__) and len(m) == len(n) and all(type(x) is type(y) and x == y for x, y in zip(m, n))
    o, p = typing.get_origin(s), typing.get_origin(t)
    if o is Literal:
        v, w = typing.get_args(s), typing.get_args(t)
        return p is o and len(v) == len(w) and all(type(x) is type(y) and x == y for x, y in zip(v, w))
    if o in (Union, types.UnionType):
        v, w = list(typing.get_args(s)), list(typing.get_args(t))
        return p in (Union, types.UnionType) and len(v) == len(w) and all(any(alike(x, y) for y in w) for x in v)
    if o is None:
        return s == t
    return o is p and alike(typing.get_args(s), typing.get_args(t))


def check_back(ctx, t, op, resolved=None, context=None):
    if context is None:
        text = python_type_to_str(t, use_union_operator=op)
    else:
        text = TypeFormatter(context=context, use_union_operator=op).python_type_to_str(t)
    ctx.check(isinstance(text, str), "text")
    try:
        back = eval(text, dict(NAMES))
    except (SyntaxError, NameError, TypeError, AttributeError):
        ctx.fail("the text is not an expression")
    ctx.check(alike(back, t if resolved is None else resolved), "the text evaluates to another type")
    if op:
        ctx.check("Union" not in text and "Optional" not in text, "notation of a union")
    ctx.label("done")


def leaves(ctx, op):
    t = ctx.choice("t", list(LEAVES.values()) + [n for n in NAMES.values() if n not in (Annotated, Callable, Literal, Optional, Union, Iterable, Iterator, Mapping, Sequence) and n is not getattr(typing, "Concatenate")])
    check_back(ctx, t, op)


def expression(ctx, outer, inner, op, wide):
    "Constructors applied to one another, and to simple types."
    innermost = lambda name: leaf(ctx, name, not wide)
    if inner:
        middle = lambda name: apply(ctx, ctx.choice(name + ".constructor", inner), name, innermost, False)
    else:
        middle = innermost
    check_back(ctx, apply(ctx, outer, "t", middle, wide), op)


def expression3(ctx, outer, op):
    def level(n):
        if n == 0:
            return lambda name: leaf(ctx, name, True)
        below = level(n - 1)
        return lambda name: apply(ctx, ctx.choice(name + ".constructor", CONSTRUCTORS), name, below, False)

    check_back(ctx, apply(ctx, outer, "t", level(2), False), op)


# ---- values in types


def literal_alias(values):
    "A literal type with arbitrary values, which `typing` has no need to look at."
    return typing._LiteralGenericAlias(Literal, tuple(values))


def annotated_alias(t, metadata):
    return typing._AnnotatedAlias(t, tuple(metadata))


def literal_values(ctx, kind, count, length, op):
    values = []
    for i in range(count):
        if kind == "text":
            values.append(ctx.text(f"v{i}", length))
        elif kind == "number":
            values.append(ctx.int(f"v{i}", -(10**6), 10**6))
        elif kind == "bytes":
            values.append(ctx.bytes(f"v{i}", length))
        else:
            values.append(ctx.bool(f"v{i}"))
    t = literal_alias(values)
    wrap = ctx.choice("wrap", ["", "list", "optional"])
    inner = "Literal[" + ", ".join(repr(v) for v in values) + "]"
    if wrap == "list":
        t, want = list[int].__class__(list, (t,)), f"list[{inner}]"
    elif wrap == "optional":
        t, want = typing._UnionGenericAlias(Union, (t, type(None)), name="Optional"), f"{inner} | None" if op else f"Optional[{inner}]"
    else:
        want = inner
    ctx.check_same(python_type_to_str(t, use_union_operator=op), want, "text of a literal")
    ctx.label("done")


def annotation_values(ctx, kind, base, length, op):
    s, n, m, b = ctx.text("s", length), ctx.int("n", -999, 999), ctx.int("m", -999, 999), ctx.bool("b")
    if kind == "Alias":
        x, want = Alias(s), "Alias(" + repr(s) + ")"
    elif kind == "range":
        x, want = IntegerRange(n, m), f"IntegerRange({n}, {m})"
    elif kind == "precision":
        x, want = Precision(n, m), f"Precision({n}, {m})"
    elif kind == "length":
        c = ctx.choice("which", [Length, MinLength, MaxLength, Storage, TimePrecision])
        x, want = c(n), f"{c.__name__}({n})"
    elif kind == "signed":
        x, want = Signed(b), f"Signed({b!r})"
    elif kind == "text":
        x, want = s, repr(s)
    else:
        x, want = n, f"{n}"
    before = base.__metadata__ if hasattr(base, "__metadata__") else ()
    t = annotated_alias(base.__origin__ if before else base, before + (x,))
    name = python_type_to_str(base, use_union_operator=op)
    text = python_type_to_str(t, use_union_operator=op)
    # a type of a certain size and an additional range may well be one of the well-known ones
    if base is float and kind == "length":
        ctx.check(ctx.any_of([text == f"Annotated[{name}, {want}]", ctx.all_of([text == "float32", want == "Storage(4)"]), ctx.all_of([text == "float64", want == "Storage(8)"])]), "text of an annotated type")
    else:
        ctx.check_same(text, f"Annotated[{name}, {want}]", "text of an annotated type")
    ctx.label("done")


KNOWN = [int8, int16, int32, int64, uint8, uint16, uint32, uint64, float32, float64]


def known(ctx, op, types):
    "The well-known integer and floating-point types, with their annotations in any order, and with others in between."
    t = ctx.choice("t", types)
    m = list(t.__metadata__)
    if ctx.flag("drop"):
        del m[ctx.size("which", len(m) - 1)]
    for i in range(len(m)):
        j = ctx.size(f"swap{i}", len(m) - 1 - i)
        m[i], m[i + j] = m[i + j], m[i]
    if ctx.flag("extra"):
        m.insert(ctx.size("position", len(m)), ctx.choice("annotation", [Alias("x"), "note", IntegerRange(0, 9)]))
    if not m:
        return ctx.label("none")
    t = annotated_alias(t.__origin__ if len(m) > 2 else ctx.choice("base", [t.__origin__, bool]), tuple(m))
    check_back(ctx, t, op)


def unhashable(ctx, op):
    "Annotations need not be hashable."
    x = ctx.choice("annotation", [{"a": 1}, [1, 2], {1, 2}])
    t = annotated_alias(ctx.choice("base", [int, str, list[int], Optional[int]]), (x,) + ctx.choice("more", [(), ("y",), (Alias("z"),)]))
    check_back(ctx, ctx.choice("wrap", [lambda t: t, lambda t: list[t], lambda t: tuple[t, int], lambda t: Callable[[t], None]])(t), op)


# ---- forward references


def module():
    m = types.ModuleType(HERE)
    sys.modules[HERE] = m
    m.__dict__.update(NAMES)
    m.IntOrText = Union[int, str]
    m.Maybe = Optional[Plain]
    return m


REFERENCES = {
    "Plain": Plain, "Data": Data, "int": int, "list[int]": list[int], "Optional[Plain]": Optional[Plain], "dict[str, 'Data']": dict[str, Data], "int32": int32, "Union[int, str]": Union[int, str],
    "Box[Plain]": Box[Plain], "Plain | None": Optional[Plain], "Annotated[int, Alias('x')]": Annotated[int, Alias("x")], "Maybe": Optional[Plain], "Literal['a']": Literal["a"],
}  # fmt: skip
SIMPLE = ["Plain", "Data", "int"]


def references(ctx, how, op):
    "References to classes by name, which typing keeps as text or as an object of its own."
    m = module() if how == "context" else None
    r = ctx.choice("reference", list(REFERENCES) if m else SIMPLE if how == "text" else [x for x in REFERENCES if x not in ("Maybe", "dict[str, 'Data']")])
    x = REFERENCES[r]
    NAMES["Maybe"] = Optional[Plain]
    forms = {
        "list": (lambda y: list[y], True), "dict": (lambda y: dict[str, y], True), "tuple": (lambda y: tuple[int, y], True), "tuple...": (lambda y: tuple[y, ...], True), "set": (lambda y: set[y], True),
        "Optional": (lambda y: Optional[y], False), "Union": (lambda y: Union[float, y, bytes], False), "Callable": (lambda y: Callable[[int], y], False), "Box": (lambda y: Box[y], False),
        "Annotated": (lambda y: Annotated[y, "note"], False), "Iterable": (lambda y: Iterable[y], False), "nested": (lambda y: Optional[list[Optional[y]]], False), "lists": (lambda y: Optional[list[y]], True),
    }  # fmt: skip
    f, text = forms[ctx.choice("form", [n for n, (_, text) in forms.items() if how == "context" or text == (how == "text")])]
    t, resolved = f(r), f(x)
    if op and r in ("Optional[Plain]", "Union[int, str]") and how != "context":
        return
    check_back(ctx, t, op, resolved, m)


def transformed(ctx, op):
    "A transformation applies to each class that occurs, by name or not."
    m = module()
    seen = []

    def link(t):
        seen.append(t)
        return f"<{t.__name__}>"

    fmt = TypeFormatter(context=m, type_transform=link, value_transform=lambda v: f"`{v}`", use_union_operator=op)
    c = ctx.choice("class", [Plain, Data, Color, int, str])
    name = ctx.choice("by", ["itself", "name"])
    y = c if name == "itself" else c.__name__
    link_text = f"<{c.__name__}>"
    forms = {
        "list": (lambda: list[y], f"list[{link_text}]"),
        "dict": (lambda: dict[str, y], f"dict[<str>, {link_text}]"),
        "tuple": (lambda: tuple[float, y], f"tuple[<float>, {link_text}]"),
        "Optional": (lambda: Optional[y], f"{link_text} | None" if op else f"Optional[{link_text}]"),
        "Union": (lambda: Union[bytes, y], f"<bytes> | {link_text}" if op else f"Union[<bytes>, {link_text}]"),
        "nested": (lambda: list[Optional[y]], f"list[{link_text} | None]" if op else f"list[Optional[{link_text}]]"),
        "Callable": (lambda: Callable[[y], float], f"Callable[[{link_text}], <float>]"),
        "Annotated": (lambda: Annotated[y, "note"], f"Annotated[{link_text}, 'note']"),
        "Any": (lambda: dict[str, Any], "dict[<str>, Any]"),
        "Literal": (lambda: Literal["a", 2], "Literal[`a`, `2`]"),
        "type": (lambda: type[y], f"type[{link_text}]"),
    }
    form = ctx.choice("form", list(forms))
    make, want = forms[form]
    ctx.check(fmt.python_type_to_str(make()) == want, "text with transformations")
    ctx.label("done")


NOT_TYPES = [1, True, 1.5, b"x", {}, (), object(), len, sys]


def refused(ctx, op):
    x = ctx.choice("x", NOT_TYPES)
    if type(x) is dict:
        x = (x,)
    try:
        python_type_to_str(x, use_union_operator=op)
    except (ValueError, TypeError):
        ctx.label("done")
        return
    ctx.fail("something that is not a type is printed")


# ---- short names


def short(ctx):
    "Short names are made up of those of the members, and tell types apart."
    simple = {"int": int, "str": str, "Plain": Plain, "int32": int32, "NoneType": type(None), "UUID": uuid.UUID, "T": T, "float64": float64, "Color": Color}
    n1, n2 = ctx.choice("first", list(simple)), ctx.choice("second", ["int", "Data", "int16"])
    a, b = simple[n1], {"int": int, "Data": Data, "int16": int16}[n2]
    forms = {
        "itself": (lambda: a, n1), "Dict": (lambda: dict[a, b], f"Dict__{n1}__{n2}"), "List": (lambda: list[a], f"List__{n1}"), "Set": (lambda: set[a], f"Set__{n1}"), "FrozenSet": (lambda: frozenset[a], f"FrozenSet__{n1}"),
        "Tuple": (lambda: tuple[b, a], f"Tuple__{n2}__{n1}"), "Tuple3": (lambda: tuple[a, b, a], f"Tuple__{n1}__{n2}__{n1}"), "Type": (lambda: type[a], f"Type__{n1}"),
        "Optional": (lambda: Optional[a], f"Optional__{n1}" if a is not type(None) else n1), "Union": (lambda: Union[bytes, a, float], f"Union__bytes__{n1}__float"),
        "|": (lambda: b | a, f"Union__{n2}__{n1}" if a is not type(None) else f"Optional__{n2}"),
    }  # fmt: skip
    form = ctx.choice("form", list(forms))
    if form == "|" and a is b:
        return
    make, want = forms[form]
    t = make()
    if ctx.flag("annotated") and t is not type(None):
        extra = Annotated[t, "note"]
        if not hasattr(t, "__metadata__"):
            t = extra
    ctx.check(python_type_to_name(t, force=True) == want, "short name")
    if form == "itself":
        ctx.check(python_type_to_name(t) == want, "short name")
    elif not (form == "Optional" and a is type(None)):
        try:
            python_type_to_name(t)
        except TypeError:
            ctx.label("refused")
            return
        ctx.fail("a composite type has a simple name")
    ctx.label("done")


def obligations():
    out = []
    D = ["done"]
    for op in (False, True):
        s = ":operator" if op else ""
        out.append(Ob(f"leaves{s}", leaves, op, expect=D))
        for c in CONSTRUCTORS:
            out.append(Ob(f"{c}{s}", expression, c, None, op, True, expect=D))
            if c not in ("Literal", "tuple0"):
                out.append(Ob(f"{c}:nested{s}", expression, c, CONSTRUCTORS, op, False, cost=3, expect=D))
                out.append(Ob(f"{c}:nested:3{s}", expression3, c, op, tier="thorough", paths=60000, seconds=100, cost=30, expect=D))
        for kind in ("text", "number", "bytes", "flag"):
            out.append(Ob(f"literal:{kind}{s}", literal_values, kind, 2, 1 if kind == "text" else 2, op, expect=D))
            out.append(Ob(f"literal:{kind}:more{s}", literal_values, kind, 3, 2, op, tier="thorough", seconds=100, cost=20, expect=D))
        for kind in ("Alias", "range", "precision", "length", "signed", "text", "number"):
            for name, base in (("str", str), ("int", int), ("float", float), ("int32", int32), ("float64", float64), ("list", list[int]), ("Optional", Optional[str])):
                out.append(Ob(f"annotation:{kind}:{name}{s}", annotation_values, kind, base, 1, op, expect=D))
        out.append(Ob(f"known{s}", known, op, [int8, uint64, float32] if op else [uint16, int64, float64], cost=3, expect=D))
        out.append(Ob(f"known:all{s}", known, op, KNOWN, tier="thorough", cost=10, paths=30000, seconds=100, expect=D))
        out.append(Ob(f"unhashable{s}", unhashable, op, expect=D))
        for how in ("text", "object", "context"):
            out.append(Ob(f"references:{how}{s}", references, how, op, expect=D))
        out.append(Ob(f"transformed{s}", transformed, op, expect=D))
        out.append(Ob(f"refused{s}", refused, op, expect=D))
    out.append(Ob("short", short, cost=2, expect=["done", "refused"]))
    return out
