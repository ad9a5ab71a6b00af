"C24: documentation strings parse into exactly their components."

import string

from strong_typing.docstring import Docstring, DocstringParam, DocstringRaises, DocstringReturns, DocstringSeeAlso, parse_text

from .api import Ob

OTHER = "\xaa\xb2\xb5\xc0\xe9\u0130\u0301\u0660\u200b\u2167\u4e2d\ufeff\uff21\U0001f600"
SPACES = " \t\x0b\x0c\r\x1c\x1f\x85\xa0\u2028\u2029\u3000"
PLAIN = "".join([chr(c) for c in range(33, 127)]) + "\x00\x07\x7f" + OTHER
NAME = PLAIN.replace(":", "")


def word(ctx, n, length, first=False):
    "Characters other than spaces; the first word of a line does not start with a colon."
    w = ctx.text(n, length, 1, alphabet=PLAIN)
    if first:
        ctx.assume(w[0] != ":")
    return w


def name(ctx, n, length, others=()):
    w = ctx.text(n, length, 1, alphabet=NAME)
    for o in others:
        ctx.assume(w != o)
    return w


class Layout:
    "How a documentation text is written."

    def __init__(self, ctx, kinds):
        self.indent = " " * ctx.choice("indent", [4, 0, 2] if "indent" in kinds else [4])
        # the text may start on a line of its own
        self.leading = ctx.choice("leading", ["", "\n"] if "leading" in kinds else ["\n"])
        self.trailing = ctx.choice("trailing", ["\n", "", "\n\n"] if "leading" in kinds else ["\n"])

    def text(self, lines):
        out = self.leading
        for i, line in enumerate(lines):
            if i:
                out += "\n"
            if line is None:
                continue
            out += line if i == 0 and not self.leading else self.indent + line
        return out + self.trailing + (self.indent if self.trailing else "")


def description(ctx, n, length, lines, gaps=False):
    "Lines of a description, and the words that it consists of."
    out, words = [], []
    for i in range(ctx.size(n + ".lines", lines, 1) if lines > 1 else lines):
        w = word(ctx, f"{n}.{i}", length, i > 0)
        words.append(w)
        if gaps:
            v = word(ctx, f"{n}.{i}.more", 1)
            words.append(v)
            w = w + ctx.text(f"{n}.{i}.gap", 2, 1, alphabet=SPACES) + v
        out.append(w)
    return out, words


def joined(words):
    out = ""
    for i, w in enumerate(words):
        out = out + (" " if i else "") + w
    return out


def verify(ctx, text, expected):
    d = parse_text(text)
    compare(ctx, d, expected)
    rendered = str(d)
    compare(ctx, parse_text(rendered), expected, " once rendered")
    if expected.short_description is None:
        full = None
    elif expected.long_description is None:
        full = expected.short_description
    else:
        full = expected.short_description + "\n\n" + expected.long_description
    ctx.check_same(d.full_description, full, "full description")
    ctx.label("done")


def compare(ctx, d, e, when=""):
    ctx.check(type(d) is Docstring, "result is not a docstring")
    ctx.check_same(d.short_description, e.short_description, "short description" + when)
    ctx.check_same(d.long_description, e.long_description, "long description" + when)
    for part in ("params", "raises"):
        x, y = list(getattr(d, part).items()), list(getattr(e, part).items())
        ctx.check(len(x) == len(y), part + when)
        for (k, v), (m, w) in zip(x, y):
            ctx.check_same(k, m, f"name in {part}{when}")
            ctx.check_same(v, w, f"{part}{when}")
    ctx.check_same(d.returns, e.returns, "returns" + when)
    ctx.check_same(d.see_also, e.see_also, "references" + when)


def descriptions(ctx, layout, length, lines, long, block):
    "Short and long descriptions."
    lay = Layout(ctx, layout)
    out, words = description(ctx, "short", length, lines)
    e = Docstring(short_description=joined(words))
    paragraphs = []
    for p in range(ctx.size("paragraphs", long)):
        ls, _ = description(ctx, f"long{p}", length, lines)
        # lines but the first may have an indentation of their own
        ls = ls[:1] + ["  " * ctx.size(f"long{p}.indent{i}", 1) + w for i, w in enumerate(ls[1:])]
        paragraphs.append(ls)
        out += [None] + ls
    for p in range(1, len(paragraphs)):
        ctx.assume(paragraphs[p][0][0] != ":")
    if paragraphs:
        e.long_description = "\n\n".join(["\n".join(ls) for ls in paragraphs])
    ctx.assume(out[0][0] != ":")
    for ls in paragraphs:
        ctx.assume(ls[0][0] != ":")
    if block and ctx.flag("block"):
        out += [None, ":returns: value"]
        e.returns = DocstringReturns("value")
    verify(ctx, lay.text(out), e)


KEYWORDS = {"param": ["param"], "returns": ["returns", "return"], "raises": ["raises", "raise"], "see": ["see", "seealso"]}


def declarations(ctx, layout, kinds, length, lines, gaps, described):
    "Declarations of the given kinds, with or without a description before them."
    lay = Layout(ctx, layout)
    out, params, raises = [], {}, {}
    e = Docstring(params=params, raises=raises)
    if described and ctx.flag("described"):
        s = word(ctx, "short", 1, True)
        out.append(s)
        e.short_description = s
        if ctx.flag("long"):
            out += [None, "Long description:", "  text: more"]
            e.long_description = "Long description:\n  text: more"
        # declarations end a description with or without an empty line
        out += [[None], [], [None, None]][ctx.size("between", 2)]
    for i, kind in enumerate(kinds):
        n = f"{i}"
        if ctx.flag(n + ".absent"):
            continue
        ls, words = description(ctx, n, length, lines, gaps)
        if lines == 0:
            ls = [""]
        text = joined(words)
        kw = ctx.choice(n + ".keyword", KEYWORDS[kind]) if kind in KEYWORDS else kind
        if kind == "param":
            p = name(ctx, n + ".name", length, params)
            head = f":{kw} {p}:"
            params[p] = DocstringParam(p, text)
        elif kind == "raises":
            p = name(ctx, n + ".name", length, raises)
            head = f":{kw} {p}:"
            raises[p] = DocstringRaises(p, text)
        elif kind == "returns":
            head = f":{kw}:"
            e.returns = DocstringReturns(text)
        elif kind == "see":
            head = f":{kw}:"
            e.see_also.append(DocstringSeeAlso(text))
        else:
            # something else that is not a component
            other = ctx.text(n + ".other", length, 1, alphabet=NAME)
            head = f":{other} x:" if kind == "other-named" else f":{other}:" if kind == "other" else f":param {other} x:"
            if kind != "typed":
                for ks in KEYWORDS.values():
                    for k in ks:
                        ctx.assume(other != k)
        deeper = "    " if lines > 1 and ctx.flag(n + ".hanging") else ""
        out.append(head + ctx.choice(n + ".space", [" ", "", "  "] if gaps else [" "]) + ls[0])
        out += [deeper + x for x in ls[1:]]
    if not out:
        ctx.check_same(parse_text(lay.text([])), Docstring(), "empty text has components")
        ctx.label("done")
        return
    verify(ctx, lay.text(out), e)


def made(ctx, length):
    "Rendering of components."
    params, raises = {}, {}
    d = Docstring(params=params, raises=raises)
    if ctx.flag("described"):
        d.short_description = joined([word(ctx, "short", length, True), word(ctx, "short2", length)])
        if ctx.flag("has-long"):
            d.long_description = word(ctx, "long", length, True) + "\n" + " " * ctx.size("indent", 2) + name(ctx, "long2", length)
    for i in range(ctx.size("params", 2)):
        p = name(ctx, f"param{i}", length, params)
        params[p] = DocstringParam(p, word(ctx, f"param{i}.text", length) if ctx.flag(f"param{i}.described") else "")
    if ctx.flag("returns"):
        d.returns = DocstringReturns(word(ctx, "returns.text", length))
    if ctx.flag("raises"):
        p = name(ctx, "raises.name", length)
        raises[p] = DocstringRaises(p, word(ctx, "raises.text", length))
    for i in range(ctx.size("see", 2)):
        d.see_also.append(DocstringSeeAlso(word(ctx, f"see{i}", length)))
    compare(ctx, parse_text(str(d)), d)
    ctx.label("done")


def visible(ctx, s):
    "Characters of a text other than spaces."
    return [c for c in s if not c.isspace()]


def arbitrary(ctx, n, alphabet, colon):
    "Any text."
    t = ctx.text("t", n, alphabet=alphabet)
    try:
        d = parse_text(t)
    except ValueError:
        ctx.check(":" in t, "text without declarations is refused")
        ctx.label("refused")
        return
    ctx.check(type(d) is Docstring, "result is not a docstring")
    s, l = d.short_description, d.long_description
    for x in (s, l):
        if x is not None:
            ctx.check(x != "" and x.strip() == x, "description has spaces around it")
    if s is None:
        ctx.check(l is None, "long description without a short one")
    else:
        ctx.check("\n" not in s, "short description has line breaks")
    if not colon:
        ctx.check(not d.params and not d.raises and d.returns is None and not d.see_also, "text without declarations has components")
        # descriptions consist of what is in the text, in that order
        a, b = visible(ctx, t), visible(ctx, (s or "") + (l or ""))
        ctx.check(len(a) == len(b), "descriptions have other text")
        for x, y in zip(a, b):
            ctx.check_same(x, y, "descriptions have other text")
    # indented lines that start with a colon are no declarations, but would be when rendered without indentation
    if (s is not None and s[0] == ":") or (l is not None and l[0] == ":"):
        ctx.label("colon")
        return
    compare(ctx, parse_text(str(d)), d, " once rendered")
    ctx.label("done")


WIDE = "".join([chr(c) for c in range(128)]) + SPACES.replace("\t", "").replace("\x0b", "").replace("\x0c", "") + OTHER


def obligations():
    D = ["done"]
    out = [
        Ob("descriptions", descriptions, [], 2, 2, 1, True, cost=3, expect=D),
        Ob("descriptions:layout", descriptions, ["indent", "leading"], 1, 2, 1, True, cost=3, expect=D),
        Ob("descriptions:paragraphs", descriptions, [], 1, 2, 2, False, cost=3, expect=D),
        Ob("descriptions:more", descriptions, ["indent"], 3, 2, 2, True, tier="thorough", paths=20000, seconds=100, cost=20, expect=D),
        Ob("descriptions:long", descriptions, ["leading"], 2, 3, 2, True, tier="thorough", paths=20000, seconds=100, cost=20, expect=D),
    ]
    kinds = ["param", "returns", "raises", "see", "other", "other-named", "typed"]
    for k in kinds:
        out.append(Ob(f"one:{k}", declarations, ["indent", "leading"], [k], 2, 1, False, True, cost=2, expect=D))
        out.append(Ob(f"lines:{k}", declarations, [], [k], 1, 3, False, True, expect=D))
        out.append(Ob(f"spaces:{k}", declarations, [], [k], 1, 1, True, False, cost=2, expect=D))
        out.append(Ob(f"empty:{k}", declarations, ["leading"], [k], 2, 0, False, True, expect=D))
        out.append(Ob(f"longer:{k}", declarations, [], [k], 4, 2, True, False, tier="thorough", paths=20000, seconds=100, cost=20, expect=D))
        for m in kinds:
            out.append(Ob(f"two:{k}-{m}", declarations, [], [k, m], 1, 1, False, True, expect=D))
    for ks in (["param", "param", "returns"], ["see", "raises", "param"], ["raises", "param", "raises"], ["returns", "see", "see"], ["param", "other", "param"]):
        out.append(Ob(f"three:{'-'.join(ks)}", declarations, [], ks, 1, 1, False, True, cost=2, expect=D))
        out.append(Ob(f"three-lines:{'-'.join(ks)}", declarations, [], ks, 2, 2, False, True, tier="thorough", paths=20000, seconds=100, cost=20, expect=D))
    out.append(Ob("rendered", made, 1, cost=2, expect=D))
    out.append(Ob("rendered-longer", made, 3, tier="thorough", paths=20000, seconds=100, cost=20, expect=D))
    out.append(Ob("arbitrary-3", arbitrary, 3, WIDE, True, expect=["done", "refused"]))
    out.append(Ob("arbitrary-4", arbitrary, 4, WIDE.replace(":", ""), False, paths=6000, cost=4, expect=D))
    out.append(Ob("arbitrary-5", arbitrary, 5, "\n :a", True, paths=6000, cost=4, expect=["done", "refused"]))
    out.append(Ob("arbitrary-6-lines", arbitrary, 6, "\n a", False, paths=6000, cost=4, expect=D))
    out.append(Ob("arbitrary-4-any", arbitrary, 4, WIDE, True, tier="thorough", paths=40000, seconds=150, cost=40, expect=["done", "refused"]))
    out.append(Ob("arbitrary-8-lines", arbitrary, 8, "\n a", False, tier="thorough", paths=40000, seconds=150, cost=40, expect=D))
    out.append(Ob("arbitrary-7", arbitrary, 7, "\n :a", True, tier="thorough", paths=40000, seconds=150, cost=40, expect=["done", "refused"]))
    return out
