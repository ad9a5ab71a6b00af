"C21: topological sort orders dependencies first and reports cycles."

from strong_typing.topological import topological_sort

from .api import Ob

LABELS = {
    "text": ["", "a", "b", "c", "d", "e", "f", "g"],
    "number": [0, 1, -1, 2, -2, 3, 4, 5],
    "mixed": [None, False, "", 0.5, (), "x", 7, (1, 2)],
    "type": [int, str, float, list, dict, set, tuple, bytes],
}


class Label:
    "Equal only to itself, is false."

    def __init__(self, i):
        self.i = i

    def __bool__(self):
        return False

    def __hash__(self):
        return self.i

    def __repr__(self):
        return f"<{self.i}>"


class Equal:
    "Equal to any other label of the same number."

    def __init__(self, i):
        self.i = i

    def __eq__(self, other):
        return isinstance(other, Equal) and other.i == self.i

    def __hash__(self):
        return 100 + self.i

    def __repr__(self):
        return f"={self.i}"


def labels(kind, n):
    if kind == "equal":
        return [Equal(i) for i in range(n)]
    return [Label(i) for i in range(n)] if kind == "object" else LABELS[kind][:n]


def cyclic(ctx, n, e):
    "Whether edges other than self-references make a cycle."
    r = [[False if i == k else e[i][k] for k in range(n)] for i in range(n)]
    for m in range(n):
        r = [[ctx.any_of([r[i][k], ctx.all_of([r[i][m], r[m][k]])]) for k in range(n)] for i in range(n)]
    return ctx.any_of([r[i][i] for i in range(n)])


def check(ctx, nodes, graph, e):
    n = len(nodes)
    keys = list(graph)
    try:
        result = topological_sort(graph)
    except RuntimeError:
        ctx.label("cycle")
        ctx.check(cyclic(ctx, n, e), "a graph without a cycle is rejected")
        result = None
    else:
        ctx.label("sorted")
        ctx.check(isinstance(result, list) and len(result) == n, f"{n} nodes are sorted into {result!r}")
        at = [[i for i in range(len(result)) if result[i] is x or isinstance(x, Equal) and result[i] == x] for x in nodes]
        ctx.check(all(len(p) == 1 for p in at), f"nodes {nodes!r} are sorted into {result!r}")
        for i in range(n):
            for k in range(n):
                if i != k and at[i][0] < at[k][0]:
                    ctx.check(ctx.not_(e[i][k]), f"{nodes[i]!r} refers to {nodes[k]!r} but comes before it")
    ctx.check(len(graph) == len(keys) and all(a is b for a, b in zip(graph, keys)), "nodes of the graph changed")
    for i in range(n):
        for k in range(n):
            ctx.check_same(ctx.has(graph[nodes[i]], nodes[k]), e[i][k], "edges of the graph changed")


def full(ctx, kind, n, loops, reverse):
    "Any graph."
    nodes = labels(kind, n)
    graph, e = {}, [[False] * n for _ in range(n)]
    for i in reversed(range(n)) if reverse else range(n):
        to = [k for k in range(n) if loops or k != i]
        # an edge may refer to an object that is equal to a node but not the same
        graph[nodes[i]], flags = ctx.subset(f"e{i}", [Equal(k) if kind == "equal" else nodes[k] for k in to])
        for k, f in zip(to, flags):
            e[i][k] = f
    check(ctx, nodes, graph, e)


def single(ctx, kind, n):
    "Each node refers to at most one other."
    nodes = labels(kind, n)
    graph, e = {}, [[False] * n for _ in range(n)]
    for i in range(n):
        k = ctx.choice(f"e{i}", [None] + [k for k in range(n) if k != i])
        graph[nodes[i]] = set() if k is None else {nodes[k]}
        if k is not None:
            e[i][k] = True
    check(ctx, nodes, graph, e)


def layered(ctx, kind, n, back):
    "A node refers to any of those that come later in an arbitrary order, the last one possibly to an earlier one."
    nodes = labels(kind, n)
    rest = list(range(n))
    order = []
    for i in range(n):
        order.append(rest.pop(ctx.choice(f"o{i}", list(range(len(rest))))))
    graph, e = {}, [[False] * n for _ in range(n)]
    flags = {}
    for p, i in enumerate(order):
        # a chain, plus arbitrary shortcuts
        later = order[p + 1 :]
        s, fs = ctx.subset(f"e{i}", [nodes[k] for k in later])
        flags[i] = (s, later, fs)
    if back:
        i = order[-1]
        s, fs = ctx.subset(f"b{i}", [nodes[k] for k in order[:-1]])
        flags[i] = (s, order[:-1], fs)
    for i in range(n):
        s, ks, fs = flags[i]
        graph[nodes[i]] = s
        for k, f in zip(ks, fs):
            e[i][k] = f
    check(ctx, nodes, graph, e)


def obligations():
    L = ["sorted", "cycle"]
    out = [Ob("full:text:3", full, "text", 3, True, False, expect=L, paths=2000)]
    for kind in ("number", "mixed", "type", "object"):
        out.append(Ob(f"full:{kind}:3", full, kind, 3, False, kind == "mixed", expect=L))
    out.append(Ob("full:number:2", full, "number", 2, True, True, expect=L))
    out.append(Ob("full:equal:3", full, "equal", 3, True, False, expect=L))
    out.append(Ob("full:text:4", full, "text", 4, False, False, expect=L, paths=20000, seconds=120, cost=20))
    out.append(Ob("single:mixed:4", single, "mixed", 4, expect=L, paths=2000, cost=3))
    out.append(Ob("layered:text:4", layered, "text", 4, False, expect=["sorted"], paths=4000, cost=5))
    out.append(Ob("full:number:4:loops", full, "number", 4, True, True, tier="thorough", expect=L, paths=100000, seconds=800, cost=50))
    out.append(Ob("single:text:5", single, "text", 5, tier="thorough", expect=L, paths=20000, seconds=800, cost=50))
    out.append(Ob("single:number:6", single, "number", 6, tier="thorough", expect=L, paths=70000, seconds=800, cost=50))
    out.append(Ob("layered:number:4:back", layered, "number", 4, True, tier="thorough", expect=L, paths=40000, seconds=800, cost=50))
    return out
