"C17: annotated constraints reach the schema with their exact meaning."

import decimal
from dataclasses import dataclass
from typing import Annotated, NamedTuple, Optional, Union

from strong_typing import auxiliary
from strong_typing.auxiliary import Alias, IntegerRange, Length, MaxLength, MinLength, Precision, Signed, Storage
from strong_typing.schema import classdef_to_schema, register_schema

from .api import Ob
from .valid import Dec, Validity

PLACES = ["top", "list", "dict", "set", "tuple", "optional", "field", "optional-field", "outer-optional-field", "default-field", "named-tuple", "class", "nested", "union", "registered"]


def make(hints, **extra):
    return dataclass(type("Made", (), {"__annotations__": dict(hints), "__module__": __name__, **extra}))


def placed(typ, where, default):
    "A type that a constrained type is part of, and the function from a value of the latter to one of the former."
    if where == "top":
        return typ, lambda x: x
    if where == "list":
        return list[typ], lambda x: [x]
    if where == "dict":
        return dict[str, typ], lambda x: {"k": x}
    if where == "set":
        return set[typ], lambda x: [x]
    if where == "tuple":
        return tuple[bool, typ], lambda x: [True, x]
    if where == "optional":
        return Optional[typ], lambda x: x
    if where == "field":
        return make({"a": typ, "b": bool}), lambda x: {"a": x, "b": True}
    if where == "optional-field":
        return make({"a": Optional[typ]}), lambda x: {"a": x}
    if where == "outer-optional-field":
        base, *meta = typ.__origin__, *typ.__metadata__
        return make({"a": Annotated.__class_getitem__((Optional[base], *meta))}), lambda x: {"a": x}
    if where == "default-field":
        return make({"a": typ}, a=default), lambda x: {"a": x}
    if where == "named-tuple":
        return NamedTuple("Made", [("a", typ)]), lambda x: {"a": x}
    if where == "class":
        return type("Made", (), {"__annotations__": {"a": typ}, "__module__": __name__}), lambda x: {"a": x}
    if where == "nested":
        return make({"a": list[dict[str, Optional[typ]]]}), lambda x: {"a": [{"k": x}]}
    if where == "union":
        return Union[bool, typ], lambda x: x
    register_schema(typ, name="Registered")
    return make({"a": typ}), lambda x: {"a": x}


def with_foreign(meta, how):
    "Adds annotations of others."
    if how == "before":
        return ("note", *meta)
    if how == "after":
        return (*meta, Alias("unused"), 5)
    if how == "between":
        return tuple([m for x in meta for m in ("note", x)])
    return meta


def judge(ctx, typ, wrap, x, want):
    s = classdef_to_schema(typ)
    got = Validity(ctx, s).valid(wrap(x), s)
    ctx.label("valid" if want else "invalid")
    if want:
        ctx.check(got, "value that satisfies the constraint is not valid under the schema")
    else:
        ctx.check(not got, "value that does not satisfy the constraint is valid under the schema")


def integers(ctx, where, foreign):
    lo, hi = ctx.choice("range", [(0, 100), (-5, 5), (1, 1), (0, 0), (-(2**63), 2**64), (-7, -3), (10**18, 10**18 + 1)])
    typ = Annotated.__class_getitem__((int, *with_foreign((IntegerRange(lo, hi),), foreign)))
    x = ctx.int("x")
    whole, wrap = placed(typ, where, lo)
    judge(ctx, whole, wrap, x, bool(ctx.all_of([x >= lo, x <= hi])))


def any_range(ctx, foreign):
    "Any range whatsoever."
    lo, hi, x = ctx.int("lo"), ctx.int("hi"), ctx.int("x")
    meta = with_foreign((IntegerRange(lo, hi),), foreign)
    from strong_typing.schema import JsonSchemaGenerator

    s, _ = JsonSchemaGenerator().classdef_to_schema(Annotated.__class_getitem__((int, *meta)))
    want = bool(ctx.all_of([x >= lo, x <= hi]))
    got = Validity(ctx, s).valid(x, s)
    ctx.label("valid" if want else "invalid")
    ctx.check(bool(got) == want, "validity under the schema is not that of the range")


def any_length(ctx, foreign):
    "Any lengths whatsoever."
    lo, hi = ctx.int("lo", 0), ctx.int("hi", 0)
    x = ctx.str("x")
    which = ctx.choice("which", ["min", "max", "both", "swapped", "exact"])
    if which == "exact":
        ctx.assume(lo == hi)
    meta = {"exact": (Length(lo),), "min": (MinLength(lo),), "max": (MaxLength(hi),), "both": (MinLength(lo), MaxLength(hi)), "swapped": (MaxLength(hi), MinLength(lo))}[which]
    from strong_typing.schema import JsonSchemaGenerator

    s, _ = JsonSchemaGenerator().classdef_to_schema(Annotated.__class_getitem__((str, *with_foreign(meta, foreign))))
    want = True
    if which != "max":
        want = want and bool(len(x) >= lo)
    if which != "min":
        want = want and bool(len(x) <= hi)
    got = Validity(ctx, s).valid(x, s)
    ctx.label("valid" if want else "invalid")
    ctx.check(bool(got) == want, "validity under the schema is not that of the lengths")


def several(ctx, foreign):
    "Several constraints on a type, as when a constrained type is restricted further: all of them hold."
    from strong_typing.schema import JsonSchemaGenerator

    x = ctx.int("x") if ctx.flag("integer") else ctx.str("x")
    lo, hi, low, high = ctx.int("lo", 0), ctx.int("hi", 0), ctx.int("low", 0), ctx.int("high", 0)
    ctx.assume(ctx.all_of([lo <= low, high <= hi]))
    if isinstance(x, int):
        n = x
        first, then = ctx.choice("order", [("range", "range"), ("range", "digits"), ("digits", "range"), ("digits-range", "range"), ("range-digits", "range")])
        table = {"range": (IntegerRange(lo, hi),), "digits": (Precision(4, 0),), "digits-range": (Precision(4, 0), IntegerRange(lo, hi)), "range-digits": (IntegerRange(lo, hi), Precision(4, 0))}
        last = {"range": (IntegerRange(low, high),), "digits": (Precision(4, 0),)}
        meta = table[first] + last[then]
        bounds = []
        if first != "digits":
            bounds += [n >= lo, n <= hi]
        if then == "range":
            bounds += [n >= low, n <= high]
        if "digits" in first + then:
            bounds += [n > -10000, n < 10000]
        base = int
    else:
        n = len(x)
        order = ctx.choice("order", ["min-max-max", "min-max-min", "max-min-max", "min-min-max", "both-both", "both-exact", "max-max"])
        a, b, c, d = MinLength(lo), MaxLength(hi), MinLength(low), MaxLength(high)
        meta = {"min-max-max": (a, b, d), "min-max-min": (a, b, c), "max-min-max": (b, a, d), "min-min-max": (a, c, b), "both-both": (a, b, c, d), "both-exact": (a, b, Length(low)), "max-max": (b, d)}[order]
        bounds = []
        for m in meta:
            if isinstance(m, Length):
                ctx.assume(low == high)
                bounds += [n >= low, n <= low]
            elif isinstance(m, MinLength):
                bounds.append(n >= m.value)
            else:
                bounds.append(n <= m.value)
        base = str
    s, _ = JsonSchemaGenerator().classdef_to_schema(Annotated.__class_getitem__((base, *with_foreign(meta, foreign))))
    want = bool(ctx.all_of(bounds))
    ctx.label("valid" if want else "invalid")
    ctx.check(bool(Validity(ctx, s).valid(x, s)) == want, "validity under the schema is not that of all of the constraints")


def texts(ctx, where, foreign):
    lo, hi = ctx.choice("lengths", [(None, 4), (2, None), (1, 3), (0, 0), (3, 3), (None, 0), (2, 2)])
    meta = (Length(lo),) if lo == hi == 2 else (() if lo is None else (MinLength(lo),)) + (() if hi is None else (MaxLength(hi),))
    typ = Annotated.__class_getitem__((str, *with_foreign(meta, foreign)))
    x = ctx.str("x")
    whole, wrap = placed(typ, where, "x" * (lo or 0))
    n = len(x)
    judge(ctx, whole, wrap, x, bool(ctx.all_of([lo is None or n >= lo, hi is None or n <= hi])))


def decimals(ctx, base, where, foreign):
    "Numbers of a precision: so many digits before and after the decimal point."
    digits, places = ctx.choice("precision", [(5, 2), (3, 0), (6, 3), (2, 1), (2, 2), (12, 9)])
    typ = Annotated.__class_getitem__((base, *with_foreign((Precision(digits, places),), foreign)))
    whole, wrap = placed(typ, where, None)
    if ctx.flag("whole"):
        x = ctx.int("x", -(10**9), 10**9)
        want = bool(abs(x) < 10 ** (digits - places))
    else:
        # ten-thousandths, so that there are numbers with too many decimal digits
        scale = max(4, places + 1)
        n = ctx.int("n", -(10**(scale + 3)), 10**(scale + 3))
        x = Dec(n, scale)
        want = bool(ctx.all_of([n % 10 ** (scale - places) == 0, abs(n) < 10 ** (digits - places + scale)]))
    judge(ctx, whole, wrap, x, want)


FIXED = {
    "int8": ("integer", auxiliary.int8), "int16": ("integer", auxiliary.int16), "int32": ("integer", auxiliary.int32), "int64": ("integer", auxiliary.int64),
    "uint8": ("integer", auxiliary.uint8), "uint16": ("integer", auxiliary.uint16), "uint32": ("integer", auxiliary.uint32), "uint64": ("integer", auxiliary.uint64),
    "float32": ("number", auxiliary.float32), "float64": ("number", auxiliary.float64),
}  # fmt: skip


def find(s, root):
    "The schema of the constrained type within the schema of a type it is part of."
    if "$ref" in s:
        return find(root["definitions"][s["$ref"].split("/")[-1]], root)
    for k in ("items", "additionalProperties"):
        if isinstance(s.get(k), dict):
            return find(s[k], root)
    if "prefixItems" in s:
        return find(s["prefixItems"][-1], root)
    if "oneOf" in s:
        return find([x for x in s["oneOf"] if x.get("type") not in ("null", "boolean")][0], root)
    if "properties" in s:
        return find(s["properties"]["a"], root)
    return s


def fixed_width(ctx, where):
    "Types of a fixed width are written with their name."
    name = ctx.choice("type", list(FIXED))
    kind, typ = FIXED[name]
    whole, wrap = placed(typ, where, 1)
    s = classdef_to_schema(whole)
    got = {k: v for k, v in find(s, s).items() if k not in ("default", "$schema", "definitions")}
    ctx.check_same(got, {"type": kind, "format": name}, "schema of a type of a fixed width")
    if kind == "integer" and where != "union":
        ctx.check(Validity(ctx, s).valid(wrap(ctx.int("x")), s), "integer is not valid under the schema")


def lookalikes(ctx):
    "A type that merely resembles a type of a fixed width is not written with its name."
    lo, hi = ctx.int("lo"), ctx.int("hi")
    size = ctx.choice("size", [1, 2, 4, 8])
    signed = ctx.flag("signed")
    limits = (-(2 ** (8 * size - 1)), 2 ** (8 * size - 1) - 1) if signed else (0, 2 ** (8 * size) - 1)
    if ctx.flag("own-range"):
        lo, hi = limits
        order = ctx.choice("order", ["own", "missing", "swapped", "more"])
        meta = {
            "own": (Signed(signed), Storage(size), IntegerRange(lo, hi)), "missing": (Signed(signed), IntegerRange(lo, hi)),
            "swapped": (Storage(size), Signed(signed), IntegerRange(lo, hi)), "more": (Signed(signed), Storage(size), IntegerRange(lo, hi), "note"),
        }[order]  # fmt: skip
        s = classdef_to_schema(Annotated.__class_getitem__((int, *meta)))
        ctx.check(("format" in s) == (order == "own"), "format of a type that is not one of a fixed width")
        if order == "own":
            ctx.label("own")
            return
    else:
        from strong_typing.schema import JsonSchemaGenerator

        ctx.assume(ctx.any_of([lo != limits[0], hi != limits[1]]))
        s, _ = JsonSchemaGenerator().classdef_to_schema(Annotated.__class_getitem__((int, Signed(signed), Storage(size), IntegerRange(lo, hi))))
        ctx.check("format" not in s, "format of a type with another range")
    ctx.label("other")
    x = ctx.int("x")
    want = bool(ctx.all_of([x >= lo, x <= hi]))
    ctx.check(bool(Validity(ctx, s).valid(x, s)) == want, "validity under the schema is not that of the range")


def obligations():
    out = []
    ways = ["none", "before", "after", "between"]
    for i, w in enumerate(PLACES):
        for k, f in enumerate(ways):
            if f == "after" and w in ("field", "optional-field", "outer-optional-field", "default-field", "named-tuple", "class", "registered"):
                continue  # an alias on a property is not foreign
            t = "quick" if k == 0 or (i + k) % 2 == 0 else "thorough"
            out.append(Ob(f"integer-{w}-{f}", integers, w, f, tier=t, expect=["valid", "invalid"]))
            out.append(Ob(f"text-{w}-{f}", texts, w, f, tier=t, expect=["valid", "invalid"]))
            if w != "default-field":
                out.append(Ob(f"float-{w}-{f}", decimals, float, w, f, tier=t, expect=["valid", "invalid"]))
            if w not in ("default-field", "union"):
                out.append(Ob(f"decimal-{w}-{f}", decimals, decimal.Decimal, w, f, tier=t, expect=["valid", "invalid"]))
        if w != "outer-optional-field":
            out.append(Ob(f"fixed-width-{w}", fixed_width, w))
    for f in ways:
        out.append(Ob(f"any-range-{f}", any_range, f, expect=["valid", "invalid"]))
        out.append(Ob(f"any-length-{f}", any_length, f, expect=["valid", "invalid"]))
        out.append(Ob(f"several-{f}", several, f, tier="quick" if f in ("none", "between") else "thorough", expect=["valid", "invalid"]))
    out.append(Ob("lookalikes", lookalikes, expect=["own", "other"]))
    return out
