"C28: mismatched documentation is reported, matching documentation is not."

import dataclasses
import enum
import inspect
import sys
import types
from typing import NamedTuple, Optional

from strong_typing.docstring import check_docstring, parse_text, parse_type

from .api import Ob
from .c24 import NAME

HERE = "harness_c28"


class E(Exception):
    pass


class Err(ValueError):
    pass


class Late(Exception):
    "Goes by the name of a built-in exception in the module."


class NotOne:
    pass


def context():
    module = types.ModuleType(HERE)
    sys.modules[HERE] = module
    module.E, module.Err, module.Int, module.f, module.n = E, Err, NotOne, len, 1
    module.TimeoutError, module.Other = Late, Err


EXCEPTIONS = {"E": E, "Err": Err, "KeyError": KeyError, "OSError": OSError, "ValueError": ValueError, "Exception": Exception, "KeyboardInterrupt": KeyboardInterrupt, "TimeoutError": Late, "Other": Err, "IOError": OSError}
NEITHER = ["Int", "f", "n", "int", "len", "print", "dict", "Error", "err", "NotOne", "None", "CustomError"]


def written(ctx, d):
    "A documentation text with the given declarations."
    lines = ["Short description.", ""]
    for p, text in d.params:
        lines.append(f":param {p}: {text}")
    if d.returns:
        lines.append(":returns: What it returns.")
    for e in d.raises:
        lines.append(f":raises {e}: When it fails.")
    return "\n    ".join(lines)


class Described:
    "What a documentation describes: arbitrary parameters, possibly a return value and an exception."

    def __init__(self, ctx, params, length, returns, raises):
        self.params, self.returns, self.raises = [], returns and ctx.flag("returns"), []
        for i in range(ctx.size("params", params)):
            p = ctx.text(f"param{i}", length, 1, alphabet=NAME)
            for q, _ in self.params:
                ctx.assume(p != q)
            self.params.append((p, f"Text {i}."))
        if raises == "text" and ctx.flag("raises"):
            # names of four or more characters are those of a list
            self.raises.append(ctx.text("exception", 3, 1, alphabet=NAME))
        elif raises == "names" and ctx.flag("raises"):
            self.raises.append(ctx.choice("exception", list(EXCEPTIONS) + NEITHER))


def among(ctx, x, names):
    return ctx.any_of([x == n for n in names])


def check(ctx, subject, d, allowed, required, types_of, annotated, result_type, strict, returns_matter):
    """
    :param allowed: Names that may be described.
    :param required: Names that have to be described under strict checking.
    """
    bad = [ctx.not_(among(ctx, p, allowed)) for p, _ in d.params]
    if returns_matter and d.returns and not annotated:
        bad.append(True)
    lacks = [ctx.not_(among(ctx, n, [p for p, _ in d.params])) for n in required]
    if returns_matter and annotated and not d.returns:
        lacks.append(True)
    unknown = [ctx.not_(among(ctx, e, list(EXCEPTIONS))) for e in d.raises]
    if strict is None:
        try:
            doc = parse_type(subject)
        except TypeError:
            ctx.check(ctx.any_of(bad + unknown), "documentation that matches is refused")
            ctx.label("refused")
            return
        ctx.check(ctx.not_(ctx.any_of(bad + unknown)), "documentation that does not match is accepted")
        ctx.check_same(doc.short_description, "Short description.", "short description")
        params, raises = list(doc.params.items()), list(doc.raises.items())
        ctx.check(len(params) == len(d.params) and len(raises) == len(d.raises), "number of declarations")
        for (k, v), (p, text) in zip(params, d.params):
            ctx.check_same(k, p, "name of a parameter")
            ctx.check_same(v.name, p, "name of a parameter")
            ctx.check_same(v.description, text, "description of a parameter")
            for n in allowed:
                if p == n:
                    ctx.check(v.param_type == types_of[n], "type of a parameter")
        for (k, v), e in zip(raises, d.raises):
            ctx.check_same(k, e, "name of an exception")
            for n, t in EXCEPTIONS.items():
                if e == n:
                    ctx.check(v.raise_type is t, "type of an exception")
        ctx.check((doc.returns is not None) == d.returns, "description of what is returned")
        if d.returns and returns_matter:
            ctx.check(doc.returns.return_type == result_type, "type of what is returned")
    else:
        doc = parse_text(subject.__doc__)
        wrong = bad + lacks if strict else bad
        try:
            if strict or ctx.flag("explicit"):
                check_docstring(subject, doc, strict=strict)
            else:
                check_docstring(subject, doc)
        except TypeError:
            ctx.check(ctx.any_of(wrong), "documentation that matches is refused")
            ctx.label("refused")
            return
        ctx.check(ctx.not_(ctx.any_of(wrong)), "documentation that does not match is accepted")
    ctx.label("accepted")


# ---- functions


def f_none():
    pass


def f_plain(a: int, bc: str = "x") -> int:
    return 1


def f_unannotated(a, abc=None):
    pass


def f_kinds(a: Optional[int], /, *ab: int, key: bool = True, **abc: str) -> "Optional[str]":
    pass


def f_self(self, a: int) -> None:
    pass


def f_self_only(self, /):
    pass


def f_self_keyword(a: str, *, self: int) -> bool:
    return True


def f_self_rest(*self: int) -> "list[int]":
    return []


FUNCTIONS = {
    "none": (f_none, {}, [], False, None),
    "plain": (f_plain, {"a": int, "bc": str}, ["a", "bc"], True, int),
    "unannotated": (f_unannotated, {"a": None, "abc": None}, ["a", "abc"], False, None),
    "kinds": (f_kinds, {"a": Optional[int], "ab": int, "key": bool, "abc": str}, ["a", "ab", "key", "abc"], True, Optional[str]),
    "self": (f_self, {"self": None, "a": int}, ["a"], True, None),
    "self-only": (f_self_only, {"self": None}, [], False, None),
    "self-keyword": (f_self_keyword, {"a": str, "self": int}, ["a", "self"], True, bool),
    "self-rest": (f_self_rest, {"self": int}, ["self"], True, list[int]),
}


def functions(ctx, which, params, length, raises, strict):
    context()
    f, types_of, required, annotated, result = FUNCTIONS[which]
    types_of = {k: inspect.Signature.empty if v is None else v for k, v in types_of.items()}
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, f.__closure__)
    g.__kwdefaults__, g.__annotations__, g.__module__, g.__qualname__ = f.__kwdefaults__, f.__annotations__, HERE, "Some." + f.__name__
    d = Described(ctx, params, length, True, raises)
    g.__doc__ = written(ctx, d)
    check(ctx, g, d, list(types_of), required, types_of, annotated, result, strict, True)


# ---- data classes

FIELDS = {"a": int, "bc": Optional[str], "d": "list[int]"}
RESOLVED = {"a": int, "bc": Optional[str], "d": list[int]}


def classes(ctx, kind, params, length, raises, strict):
    "Data classes with arbitrary members, of which some are inherited, and some of these declared again."
    context()
    own = {n: t for n, t in FIELDS.items() if kind != "derived" or ctx.flag("own-" + n)}
    inherited = {n: object for n in FIELDS if kind == "derived" and ctx.flag("inherited-" + n)}
    base = ()
    if inherited or kind == "derived":
        b = type("Base", (), {"__annotations__": inherited, "__module__": HERE, "__doc__": "Base class."})
        base = (dataclasses.dataclass(b),)
    d = Described(ctx, params, length, True, raises)
    t = type("Sub", base, {"__annotations__": own, "__module__": HERE, "__doc__": written(ctx, d)})
    t = dataclasses.dataclass(t, slots=True) if kind == "slots" else dataclasses.dataclass(t, frozen=True) if kind == "frozen" else dataclasses.dataclass(t)
    check(ctx, t, d, list(own), [n for n in own if n not in inherited], RESOLVED, False, None, strict, False)


def grandchild(ctx, length, strict):
    "Members of the base class of a base class, one that is not a data class, and one without documentation."
    context()
    a = type("A", (), {"__annotations__": {"x": int}, "__module__": HERE, "__doc__": "A."})
    p = type("P", (), {"__annotations__": {"p": int}, "__module__": HERE, "__doc__": ":param zz: Unknown."})
    b = dataclasses.dataclass(type("B", (dataclasses.dataclass(a), p), {"__annotations__": {"y": int}, "__module__": HERE}))
    d = Described(ctx, 2, length, False, None)
    c = dataclasses.dataclass(type("C", (b,), {"__annotations__": {"z": int, "x": str}, "__module__": HERE, "__doc__": written(ctx, d)}))
    check(ctx, c, d, ["z", "x"], ["z"], {"z": int, "x": str}, False, None, strict, False)


class Plain:
    a: int


@dataclasses.dataclass
class Undocumented:
    a: int


def undocumented():
    pass


def nothing(ctx):
    "No documentation, or one that nobody has written."
    t = ctx.choice("t", [Undocumented, undocumented, Plain])
    doc = parse_type(t)
    ctx.check(doc.short_description is None and doc.long_description is None and not doc.params and not doc.raises and doc.returns is None and not doc.see_also, "documentation of something without one")
    ctx.label("done")


def others(ctx, length):
    "Classes that have no members to compare with are parsed nevertheless."
    context()
    d = Described(ctx, 1, length, True, "names")
    kind = ctx.choice("kind", ["plain", "enum", "named"])
    if kind == "enum":
        t = enum.Enum("Colors", {"RED": 1}, module=HERE)
    elif kind == "named":
        t = NamedTuple("Pair", [("a", int)])
        t.__module__ = HERE
    else:
        t = type("Plain", (), {"__annotations__": {"a": int}, "__module__": HERE})
    t.__doc__ = written(ctx, d)
    try:
        doc = parse_type(t)
    except TypeError:
        ctx.check(d.raises and d.raises[0] not in EXCEPTIONS, "documentation is refused")
        ctx.label("refused")
        return
    ctx.check(not d.raises or d.raises[0] in EXCEPTIONS, "unknown exception accepted")
    ctx.check(len(doc.params) == len(d.params) and (doc.returns is not None) == d.returns and len(doc.raises) == len(d.raises), "declarations")
    ctx.label("accepted")


def obligations():
    L = ["accepted", "refused"]
    out = []
    for f in FUNCTIONS:
        for s in (None, False, True):
            n = {None: "parse", False: "check", True: "strict"}[s]
            out.append(Ob(f"function:{f}:{n}", functions, f, 1 if s is None else max(2, len(FUNCTIONS[f][2])) if s else 2, 4 if "self" in f else 3, "names" if s is None else None, s, expect=L))
            out.append(Ob(f"function:{f}:{n}:more", functions, f, max(3, len(FUNCTIONS[f][2])) if s else 3, 4, "text", s, tier="thorough", paths=20000, seconds=100, cost=20, expect=L))
        out.append(Ob(f"function:{f}:exceptions", functions, f, 0, 1, "text", None, expect=L))
    for k in ("plain", "slots", "frozen", "derived"):
        for s in (None, False, True):
            n = {None: "parse", False: "check", True: "strict"}[s]
            out.append(Ob(f"class:{k}:{n}", classes, k, 1 if k == "derived" else 3 if s else 2, 2, "names" if s is None and k == "slots" else None, s, cost=3, expect=L))
            out.append(Ob(f"class:{k}:{n}:more", classes, k, 2 if k == "derived" else 3, 3, "text" if k == "plain" else None, s, tier="thorough", paths=20000, seconds=100, cost=20, expect=L))
        out.append(Ob(f"class:{k}:exceptions", classes, k, 0, 1, "text", None, expect=L))
    for s in (None, False, True):
        out.append(Ob(f"grandchild:{s}", grandchild, 2, s, expect=L))
    out.append(Ob("nothing", nothing, expect=["done"]))
    out.append(Ob("others", others, 2, expect=L))
    return out
