"C20: flattening a schema keeps every leaf property and its requiredness."

from strong_typing.classdef import SchemaFlatteningOptions, flatten_schema

from .api import Ob


def leaf(ctx, n):
    "A schema that is not an object, with arbitrary content."
    return leaf_of(ctx, n, ctx.choice(n + ".kind", ["integer", "text", "array", "one-of", "ref", "number", "boolean", "free"]))


def leaf_of(ctx, n, kind):
    if kind == "integer":
        return {"type": "integer", "minimum": ctx.int(n + ".min"), "default": ctx.int(n + ".default")}
    if kind == "text":
        return {"type": "string", "maxLength": ctx.int(n + ".max"), "description": ctx.str(n + ".text")}
    if kind == "array":
        # objects within arrays are not flattened
        return {"type": "array", "items": {"type": "object", "properties": {"x": {"type": "integer", "maximum": ctx.int(n + ".max")}}, "additionalProperties": False, "required": ["x"]}}
    if kind == "one-of":
        return {"title": ctx.str(n + ".title"), "oneOf": [{"type": "integer"}, {"type": "string", "enum": [ctx.str(n + ".e"), "b"]}]}
    if kind == "ref":
        return {"$ref": ctx.str(n + ".ref")}
    if kind == "number":
        return {"type": "number", "exclusiveMaximum": ctx.float(n + ".max"), "format": ctx.str(n + ".format")}
    if kind == "free":
        # an object of arbitrary content has no properties to replace it with
        return {"type": "object", "title": ctx.str(n + ".title"), **ctx.choice(n + ".free", [{}, {"additionalProperties": True}])}
    return {"type": "boolean", "const": ctx.bool(n + ".const")}


def obj(ctx, n, names, depth, width, kinds, required):
    "An object schema; names of properties are arbitrary."
    props, reqs = [], []
    for i in range(ctx.size(n + ".size", width, 1)):
        m = f"{n}.{i}"
        name = names(m)
        if depth > 0 and ctx.flag(m + ".nested"):
            p = Obj([], [], False) if kinds in (["free"], ["free", "boolean"]) and ctx.flag(m + ".empty") else obj(ctx, m, names, depth - 1, width, kinds, required)
        else:
            p = leaf_of(ctx, m, kinds[len(m) % len(kinds)]) if kinds else leaf(ctx, m)
        props.append((name, p))
        if required == "all" or required == "any" and ctx.flag(m + ".required"):
            reqs.append(name)
    return Obj(props, reqs, ctx.flag(n + ".reverse") if required == "any" and len(reqs) > 1 else False)


class Obj:
    def __init__(self, props, reqs, reverse):
        self.props, self.reqs, self.reverse = props, reqs, reverse

    def schema(self):
        if not self.props:
            return {"type": "object", "additionalProperties": False}
        s = {"type": "object", "properties": {k: v.schema() if type(v) is Obj else v for k, v in self.props}, "additionalProperties": False}
        if self.reqs:
            s["required"] = self.reqs[::-1] if self.reverse else list(self.reqs)
        return s


def flattened(o, qualified, levels):
    "Properties, and whether they are required, of an object with nested objects replaced (those of the given number of levels)."
    out = []
    for k, v in o.props:
        if type(v) is Obj and levels > 0:
            for l, w, r in flattened(v, qualified, levels - 1):
                out.append((k + "." + l if qualified else l, w, r))
        else:
            out.append((k, v, any(k is x for x in o.reqs)))
    return out


def distinct(ctx, names):
    for i in range(len(names)):
        for k in range(i):
            ctx.assume(names[i] != names[k])


def verify(ctx, o, qualified, recursive, top):
    want = flattened(o, qualified, 100 if recursive else 1)
    todo = [o]
    while todo:
        x = todo.pop()
        distinct(ctx, [k for k, _ in x.props])
        todo.extend(v for _, v in x.props if type(v) is Obj)
    if recursive:
        # names at each level of the recursion
        todo = [o]
        while todo:
            x = todo.pop()
            distinct(ctx, [k for k, _, _ in flattened(x, qualified, 100)])
            todo.extend(v for _, v in x.props if type(v) is Obj)
    else:
        distinct(ctx, [k for k, _, _ in want])
    s = o.schema()
    s.update(top)
    s["$schema"] = "https://json-schema.org/draft/2020-12/schema"
    snap = ctx.snapshot(s)
    if qualified is None and recursive is None:
        got = flatten_schema(s)
    else:
        got = flatten_schema(s, options=SchemaFlatteningOptions(bool(qualified), bool(recursive)))
    ctx.check(ctx.unchanged(s, snap), "schema changed")
    props = list(got.get("properties", {}).items())
    ctx.check(len(props) == len(want), "number of properties")
    for (k, p), (l, w, _) in zip(props, want):
        ctx.check(k == l, "name of a property, or order")
        ctx.check(p == (w.schema() if type(w) is Obj else w), "property changed")
    required = [k for k, _, r in want if r]
    reqs = got.get("required", [])
    ctx.check(len(reqs) == len(required), "number of required properties")
    for k in required:
        ctx.check(ctx.any_of([k == r for r in reqs]), "required property is not required")
    ctx.check(set(got) - {"required"} | {"properties"} == set(s) - {"required"} | {"properties"}, "keywords of the schema")
    for k in top:
        ctx.check(got[k] == top[k], "keyword of the schema changed")
    ctx.check(got["type"] == "object" and got["additionalProperties"] is False, "no longer an object without additional properties")
    ctx.label("nested" if any(type(v) is Obj for _, v in o.props) else "flat")


TOPS = {
    "bare": lambda ctx: {},
    "text": lambda ctx: {"title": ctx.str("title"), "description": ctx.str("description")},
    "definitions": lambda ctx: {"definitions": {"A": {"type": "object", "properties": {"x": {"type": "object", "properties": {"y": {"type": "integer"}}, "additionalProperties": False}}, "additionalProperties": False}}},
}


def flatten(ctx, qualified, recursive, depth, width, kinds, required, length, top):
    names = (lambda m: ctx.text(m + ".name", length)) if length else (lambda m: m.replace("o.", "n").replace(".", "_"))
    verify(ctx, obj(ctx, "o", names, depth, width, kinds, required), qualified, recursive, TOPS[top](ctx))


def obligations():
    out = []
    tops = list(TOPS)
    for i, (q, r) in enumerate([(False, False), (False, True), (True, False), (True, True), (None, None)]):
        n = f"{'plain' if not q else 'qualified'}-{'one-level' if not r else 'all-levels'}" if q is not None else "default"
        out.append(Ob(f"{n}:leaves", flatten, q, r, 1, 1, None, "any", 0, tops[i % 3], expect=["nested", "flat"]))
        out.append(Ob(f"{n}:wide", flatten, q, r, 1, 2, ["integer"], "any", 0, tops[(i + 1) % 3], cost=2, expect=["nested", "flat"]))
        out.append(Ob(f"{n}:wide-kinds", flatten, q, r, 1, 2, ["text", "array", "one-of"], "all", 0, "bare", cost=2, expect=["nested", "flat"]))
        out.append(Ob(f"{n}:deep", flatten, q, r, 3, 1, ["text", "boolean"], "any", 0, "bare", expect=["nested", "flat"]))
        out.append(Ob(f"{n}:deep-wide", flatten, q, r, 2, 2, ["boolean"], "none" if i % 2 else "all", 0, "bare", tier="quick" if i in (1, 2) else "thorough", cost=3, expect=["nested", "flat"]))
        out.append(Ob(f"{n}:free", flatten, q, r, 2, 1, ["free"], "any", 0, tops[i % 3], expect=["nested", "flat"]))
        out.append(Ob(f"{n}:free-wide", flatten, q, r, 1, 2, ["free"], "all", 0, "bare", cost=2, expect=["nested", "flat"]))
        out.append(Ob(f"{n}:names", flatten, q, r, 1, 2, ["boolean"], "all", 1, "bare", tier="quick" if i > 1 else "thorough", cost=2, expect=["nested", "flat"]))
        out.append(Ob(f"{n}:names-deep", flatten, q, r, 2, 1, ["boolean"], "any", 3, tops[i % 3], cost=2, expect=["nested", "flat"]))
        out.append(Ob(f"{n}:deep-wide-any", flatten, q, r, 2, 2, ["integer", "ref"], "any", 0, "bare", tier="thorough", paths=20000, seconds=400, cost=20, expect=["nested", "flat"]))
        out.append(Ob(f"{n}:wider", flatten, q, r, 1, 3, ["number"], "all", 0, "bare", tier="thorough", paths=20000, seconds=400, cost=20, expect=["nested", "flat"]))
        out.append(Ob(f"{n}:names-any", flatten, q, r, 1, 2, ["boolean"], "any", 3, "bare", tier="thorough", paths=20000, seconds=400, cost=20, expect=["nested", "flat"]))
    return out
