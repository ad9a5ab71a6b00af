"C29: combining enumerations keeps all members and rejects clashes."

import enum
import sys
import types

from strong_typing.inspection import extend_enum

from .api import Ob

HERE = "harness_c29"
NAMES = ["A", "B", "name_", "value_", "Value", "a", "mro_", "_x"]


def value(ctx, n, kinds):
    k = ctx.choice(n + ".kind", kinds) if len(kinds) > 1 else kinds[0]
    if k == "int":
        return ctx.int(n)
    if k == "text":
        return ctx.str(n)
    if k == "bool":
        return ctx.bool(n)
    if k == "float":
        return ctx.float(n)
    if k == "pair":
        return (ctx.int(n), ctx.str(n + ".text"))
    if k == "list":
        return [ctx.int(n)]
    return None




def members_of(ctx, n, names, kinds, aliases=False):
    "Names and values, of which no two are equal; names that stand for a member of another name."
    out, more = [], []
    for k in names:
        v = value(ctx, f"{n}.{k}", kinds)
        alias = False
        for _, w in out:
            if not aliases:
                ctx.assume(v != w)
            elif v == w:
                alias = True
                break
        (more if alias else out).append((k, v))
    return out, more


def combine(ctx, first, second, kinds, aliases=False, documented=False):
    module = types.ModuleType(HERE)
    sys.modules[HERE] = module
    (a, more_a), (b, more_b) = members_of(ctx, "a", first, kinds, aliases), members_of(ctx, "b", second, kinds, aliases)
    # another name of a member is not a member
    source, extension = enum.Enum("Source", [(k, v) for k, v in [*a, *more_a]], module=HERE), enum.Enum("Extended", [(k, v) for k, v in [*b, *more_b]], module=HERE)
    source.__doc__, extension.__doc__ = ctx.choice("documentation", [("Some members.", "More members."), ("Some members.", None), (None, "More members."), ("Some members.", "")]) if documented else ("Some members.", "More members.")
    text = extension.__doc__
    for v in (*[v for _, v in a], *[v for _, v in b]):
        ctx.assume(v == v)  # a value that is not equal to itself has no defined identity
    module.Source, module.Extended = source, extension
    both = dict(a)
    clash = []
    for k, v in b:
        if k in both:
            clash.append(ctx.not_(both[k] == v))
        else:
            clash += [both[m] == v for m in both if m != k]
            both[k] = v
    # the value of a member that both have may not occur under another name either, which their own members rule out
    try:
        result = extend_enum(source)(extension)
    except ValueError:
        ctx.check(ctx.any_of(clash), "enumerations without a clash are rejected")
        ctx.check(module.Source is source, "source replaced")
        ctx.label("rejected")
    else:
        ctx.check(ctx.not_(ctx.any_of(clash)), "a clash is not rejected")
        ctx.check(isinstance(result, type) and issubclass(result, enum.Enum), "result is not an enumeration")
        names = [m.name for m in result]
        ctx.check(names == list(both), f"members {names}")
        ctx.check(list(result.__members__) == list(both), "other names of members")
        for k, v in both.items():
            if k in dict(a) and k in dict(b):
                ctx.check(result[k].value == v, f"value of {k}")  # values of a member that both have are equal
            else:
                ctx.check_same(result[k].value, v, f"value of {k}")
            ctx.check(isinstance(getattr(result, k), result), f"member {k} is of another class")
        ctx.check(result.__name__ == "Extended" and result.__module__ == HERE and result.__doc__ == text, "another name, module or documentation")
        ctx.check(module.Extended is result and module.Source is source, "module refers to something else")
        ctx.label("accepted")
    for t, ms in ((source, a), (extension, b)):
        ctx.check([m.name for m in t] == [k for k, _ in ms], "an original enumeration has other members")
        for k, v in ms:
            ctx.check_same(t[k].value, v, "an original enumeration has other values")


def arbitrary(ctx, n, m, kinds):
    "Any names out of a few."
    first = pick(ctx, "a", n)
    combine(ctx, first, pick(ctx, "b", m), kinds)


def pick(ctx, n, most):
    rest, out = NAMES[: most + 2], []
    for i in range(ctx.size(n + ".n", most, 1)):
        out.append(rest.pop(ctx.choice(f"{n}.name{i}", list(range(len(rest))))))
    return out


def obligations():
    out = []
    L = ["accepted", "rejected"]
    for k in ("int", "text", "float", "pair"):
        for name, first, second in (
            ("disjoint", ["A", "B"], ["C", "D"]),
            ("shared", ["A", "B"], ["B", "C"]),
            ("shared-first", ["B", "A"], ["B"]),
            ("same", ["A", "B"], ["A", "B"]),
            ("swapped", ["A", "B"], ["B", "A"]),
            ("more", ["A"], ["B", "C", "D"]),
            ("less", ["A", "B", "C"], ["D"]),
            ("within", ["A", "B", "C"], ["B"]),
        ):
            out.append(Ob(f"{name}:{k}", combine, first, second, [k], expect=L))
    out.append(Ob("aliases", combine, ["A", "B"], ["C", "D"], ["int"], True, expect=L))
    out.append(Ob("aliases-shared", combine, ["A", "B"], ["B", "C"], ["text"], True, expect=L))
    out.append(Ob("aliases-3", combine, ["A", "B", "C"], ["D", "B"], ["int"], True, cost=3, expect=L))
    out.append(Ob("documentation", combine, ["A"], ["B"], ["int"], False, True, expect=L))
    out.append(Ob("documentation-shared", combine, ["A", "B"], ["B"], ["text"], False, True, expect=L))
    mixed = ["int", "text", "bool", "none", "pair"]
    out.append(Ob("mixed-disjoint", combine, ["z", "Y"], ["x", "W"], ["int", "bool", "none"], cost=5, expect=L))
    out.append(Ob("mixed-shared", combine, ["name_", "value_"], ["value_", "mro_"], ["text", "float", "none"], cost=5, expect=L))
    out.append(Ob("mixed-one", combine, ["A"], ["B"], mixed, expect=L))
    out.append(Ob("mixed-one-same", combine, ["A"], ["A"], mixed, expect=L))
    out.append(Ob("names-2", arbitrary, 2, 2, ["int"], cost=3, expect=L))
    out.append(Ob("names-2-text", arbitrary, 2, 1, ["text"], cost=3, expect=L))
    out.append(Ob("names-3", arbitrary, 3, 2, ["int"], tier="thorough", paths=20000, seconds=100, cost=20, expect=L))
    out.append(Ob("mixed-two", combine, ["A", "B"], ["C", "B"], mixed, tier="thorough", paths=20000, seconds=100, cost=20, expect=L))
    out.append(Ob("wide", combine, ["A", "B", "C", "D"], ["E", "F", "A"], ["int"], tier="thorough", paths=20000, seconds=100, cost=20, expect=L))
    return out
