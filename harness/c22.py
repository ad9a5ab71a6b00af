"C22: type dependency analysis finds every referenced type."

import dataclasses
import datetime
import decimal
import sys
import types
import typing
import uuid
from typing import Annotated, Any, ClassVar, ForwardRef, Literal, NamedTuple, Optional, Union

from strong_typing.inspection import TypeCollector, get_referenced_types
from strong_typing.topological import type_topological_sort

from . import kit
from .api import Ob

HERE, THERE = "harness_c22_here", "harness_c22_there"
NAMES = {"Optional": Optional, "Union": Union, "Annotated": Annotated, "Literal": Literal, "Any": Any, "ClassVar": ClassVar, "List": typing.List, "Dict": typing.Dict, "datetime": datetime}

# ways to refer to a class, and the other types that come with it
WAYS = {
    "direct": ("{}", []),
    "optional": ("Optional[{}]", []),
    "list": ("list[{}]", []),
    "dict": ("dict[str, {}]", [str]),
    "key": ("dict[{}, bytes]", [bytes]),
    "set": ("set[{}]", []),
    "frozenset": ("frozenset[{}]", []),
    "tuple": ("tuple[{}, bool]", [bool]),
    "tuple-last": ("tuple[float, Any, {}]", [float]),
    "union": ("Union[datetime.date, {}, None]", [datetime.date]),
    "bar": ("{} | bytes | None", [bytes]),
    "bar-list": ("list[{}] | bytes", [bytes]),
    "bar-none-first": ("None | {}", []),
    "bar-deep": ("None | bool | dict[str, tuple[{}, bytes] | None]", [bool, str, bytes]),
    "annotated": ("Annotated[{}, 'note']", []),
    "annotated-optional": ("Annotated[Optional[{}], 'note', 1]", []),
    "optional-annotated": ("Optional[Annotated[{}, int]]", []),
    "nested": ("Optional[list[dict[str, {}]]]", [str]),
    "deep": ("list[tuple[Optional[set[Annotated[{}, 0]]], dict[str, Union[float, bool]]]]", [str, float, bool]),
    "literal": ("Union[Literal['K0', 1], {}]", []),
    "old": ("List[Dict[str, {}]]", [str]),
}  # fmt: skip
LEAVES = [int, str, uuid.UUID, decimal.Decimal, kit.Color, datetime.datetime]
KINDS = ["data", "plain", "named", "slots", "heir", "child", "plain-child"]


def reference(way, k, how, namespace, prefix="K"):
    "The type of a property that refers to a class in some way: by the class, by its name, or by a text that is a type."
    text = WAYS[way][0]
    if how == "text":
        return text.format(f"{prefix}{k}")
    if how == "nested":
        # a text with another text in it
        if way == "bar-none-first":
            return f"Union[None, '{prefix}{k}']"
        return f"Optional[Union['{prefix}{k}', bytes]]" if way == "bar" else text.format(f"{prefix}{k}" if way == "direct" else f"'{prefix}{k}'")
    if how == "name" and way == "bar-none-first":
        return Union[None, ForwardRef(f"{prefix}{k}")]
    if how == "name" and way != "bar":
        return ForwardRef(f"{prefix}{k}") if way == "direct" else eval(text.format(f"'{prefix}{k}'"), dict(namespace))
    if how == "name":
        return Optional[Union[ForwardRef(f"{prefix}{k}"), bytes]]
    return eval(text.format(f"{prefix}{k}"), dict(namespace))


def make(kind, name, hints, here):
    if kind == "named":
        t = NamedTuple(name, list(hints.items()))
        t.__module__ = HERE
        return t
    base = None
    if kind in ("heir", "child", "plain-child"):
        # some properties are inherited, possibly from a class in another module
        names = list(hints)
        some = {k: hints.pop(k) for k in (names if kind == "heir" else names[: (len(names) + 1) // 2])}
        base = type("Base" + name, (), {"__annotations__": some, "__module__": THERE if kind == "heir" else HERE})
        if kind != "plain-child":
            base = dataclasses.dataclass(base)
    # a variable of the class is not a property
    hints = dict(hints, shared="ClassVar[complex]" if "heir" in kind or kind == "child" else ClassVar[complex])
    t = type(name, () if base is None else (base,), {"__annotations__": hints, "__module__": HERE})
    if kind in ("plain", "plain-child"):
        return t
    return dataclasses.dataclass(t, slots=True) if kind == "slots" else dataclasses.dataclass(t)


def classes(ctx, n, kinds, way, offset, loops, cycles=True):
    "Classes that refer to each other in any way, and the types that each of them refers to."
    here, there = types.ModuleType(HERE), types.ModuleType(THERE)
    sys.modules[HERE], sys.modules[THERE] = here, there
    for m in (here, there):
        m.__dict__.update(NAMES)
    edges = {(i, k): ctx.flag(f"edge{i}{k}") for i in range(n) for k in range(n) if (loops if k == i else cycles or k > i)}
    ways = list(WAYS)
    made = [None] * n
    refs = [None] * n
    for i in reversed(range(n)):
        leaf = LEAVES[(i + offset) % len(LEAVES)]
        hints = {f"id{i}": leaf, "none": Optional[leaf]}
        refs[i] = {leaf}
        for k in range(n):
            if edges.get((i, k), False):
                w = way or ways[(offset + 3 * i + 5 * k) % len(ways)]
                how = ["class", "name", "text", "nested"][(i + 2 * k + offset) % 4] if k > i else ["name", "text", "nested"][(i + k + offset) % 3]
                heir = kinds[i % len(kinds)] == "heir"
                hints[f"p{k}"] = reference(w, k, how, (there if heir else here).__dict__, "B" if heir else "K")
                refs[i] |= {("K", k), *WAYS[w][1]}
        made[i] = make(kinds[i % len(kinds)], f"K{i}", hints, here)
        # classes have other names in the module that has the bases of heirs
        here.__dict__[f"K{i}"] = there.__dict__[f"B{i}"] = made[i]
    return made, {made[i]: {made[x[1]] if type(x) is tuple else x for x in refs[i]} for i in range(n)}, here


def closure(refs, found):
    found, todo = set(found), list(found)
    while todo:
        for t in refs.get(todo.pop(), ()):
            if t not in found:
                found.add(t)
                todo.append(t)
    return found


def referenced(ctx, n, kinds, way, offset):
    made, refs, here = classes(ctx, n, kinds, way, offset, True)
    w = way or list(WAYS)[offset % len(WAYS)]
    how = ctx.choice("how", ["class", "name", "text", "nested"])
    found = get_referenced_types(reference(w, 0, how, here.__dict__), here)
    expected = closure(refs, {made[0], *WAYS[w][1]})
    ctx.check(isinstance(found, set) and found == expected, f"referenced: {names(found)}; expected: {names(expected)}")
    # the dependencies of each type itself
    collector = TypeCollector()
    if (n + offset) % 2:
        collector.traverse_all([made[0], made[n - 1]])
        expected = closure(refs, {made[0], made[n - 1]})
    else:
        collector.traverse(made[0])
        expected = closure(refs, {made[0]})
    ctx.check(collector.references == expected, "types collected")
    for t in expected:
        ctx.check(collector.graph[t] == refs.get(t, set()), f"dependencies of {names([t])[0]}: {names(collector.graph[t])}")
    ctx.label("some" if len(expected) > 3 else "few")


def names(ts):
    return sorted(t.__name__ if isinstance(t, type) else repr(t) for t in ts)


def verify_order(ctx, result, refs, expected):
    ctx.check(isinstance(result, list), "result is not a list")
    ctx.check(len(result) == len(expected) and set(result) == expected, f"sorted: {names(result)}; expected: {names(expected)}")
    at = {t: i for i, t in enumerate(result)}
    for t in expected:
        for d in refs.get(t, ()):
            ctx.check(d is t or at[d] < at[t], f"{names([t])[0]} refers to {names([d])[0]} but comes before it")


def cyclic(refs, ts):
    return any(t in closure(refs, {d for d in refs.get(t, ()) if d is not t}) and any(d is not t and t in closure(refs, {d}) for d in refs.get(t, ())) for t in ts)


FORMS = {"list": list, "tuple": tuple, "iterator": iter, "generator": lambda ts: (t for t in ts), "set": set, "dict": lambda ts: dict.fromkeys(ts).keys()}


def in_order(ctx, n, kinds, way, offset, form, cycles):
    made, refs, here = classes(ctx, n, kinds, way, offset, True, cycles)
    start = [made[i] for i in range(n) if i == 0 or ctx.flag(f"start{i}")]
    if ctx.flag("reverse"):
        start.reverse()
    check_sort(ctx, start, refs, lambda: type_topological_sort(FORMS[form](start)))


def check_sort(ctx, start, refs, run):
    expected = closure(refs, start)
    try:
        result = run()
    except RuntimeError:
        ctx.check(cyclic(refs, expected), "types without cyclic dependencies are rejected")
        ctx.label("cycle")
        return
    ctx.check(not cyclic(refs, expected), "cyclic dependencies are not reported")
    verify_order(ctx, result, refs, expected)
    ctx.label("sorted")


def additional(ctx, n, kinds, way, offset, form, cycles):
    "Additional dependencies of classes, on classes and other types."
    made, refs, here = classes(ctx, n, kinds, way, offset, False, False)
    extra = {}
    targets = [*made, bool, complex]
    for i in range(n):
        extra[made[i]] = [
            t for k, t in enumerate(targets) if (cycles and k < n or k > i) and (k < n or (i + k) % 2) and ctx.flag(f"extra{i}{k}")
        ]
    # a dependency of a type that is not a class
    extra[LEAVES[offset % len(LEAVES)]] = [range] if ctx.flag("leaf") else []
    start = [made[i] for i in range(n) if i == 0 or i == n - 1 and ctx.flag("start")]
    every = {t: refs.get(t, set()) | set(extra.get(t, ())) for t in [*refs, *extra]}
    asked = []

    def more(t):
        asked.append(t)
        return FORMS[form](extra.get(t, []))

    check_sort(ctx, start, every, lambda: type_topological_sort(start, more))
    ctx.check(set(asked) == closure(every, start), "types asked for additional dependencies are not those that are sorted")


def refused(ctx):
    "Anything but types is refused."
    x = ctx.choice("x", [1, "K0", None, list[int], Optional[int], object()])
    try:
        type_topological_sort([int, x] if ctx.flag("second") else [x])
    except TypeError:
        ctx.label("refused")
        return
    ctx.fail("something that is not a type is sorted")


def obligations():
    out = []
    L = ["sorted", "cycle"]
    for i, w in enumerate(WAYS):
        out.append(Ob(f"referenced-2:{w}", referenced, 2, [KINDS[i % 7], KINDS[(i + 3) % 7]], w, i, expect=["some"]))
        out.append(Ob(f"sort-2:{w}", in_order, 2, [KINDS[(i + 1) % 7], KINDS[(i + 2) % 7]], w, i, list(FORMS)[i % 6], True, expect=L))
        out.append(Ob(f"additional-2:{w}", additional, 2, [KINDS[(i + 4) % 7], KINDS[i % 7]], w, i, list(FORMS)[(i + 1) % 6], True, expect=L))
        for k in KINDS:
            out.append(Ob(f"referenced-2:{w}:{k}", referenced, 2, [k], w, i, tier="thorough", expect=["some"]))
            out.append(Ob(f"sort-2:{w}:{k}", in_order, 2, [k], w, i + 1, "list", True, tier="thorough", expect=L))
    for i, k in enumerate(KINDS):
        for o in (i, i + 9):
            q = "quick" if o == i else "thorough"
            out.append(Ob(f"referenced-3-mixed:{k}:{o}", referenced, 3, [k, KINDS[(o + 1) % 7], KINDS[(o + 2) % 7]], None, o, tier=q, cost=4, expect=["some"]))
            out.append(Ob(f"sort-3-mixed:{k}:{o}", in_order, 3, [k, KINDS[(o + 3) % 7], KINDS[(o + 5) % 7]], None, o, list(FORMS)[o % 6], True, tier="quick" if o == 0 else "thorough", paths=8000, seconds=200, cost=20, expect=L))
            out.append(Ob(f"additional-3-mixed:{k}:{o}", additional, 3, [k, KINDS[(o + 1) % 7]], None, o, list(FORMS)[(o + 3) % 6], False, tier="quick" if o == 2 else "thorough", paths=20000, seconds=400, cost=20, expect=["sorted"]))
            if o == i:
                out.append(Ob(f"sort-4-acyclic:{k}:{o}", in_order, 4, [k, KINDS[(o + 2) % 7]], None, o, "list", False, tier="thorough", paths=20000, seconds=400, cost=30, expect=["sorted"]))
    out.append(Ob("refused", refused, expect=["refused"]))
    return out
