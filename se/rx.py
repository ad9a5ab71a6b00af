"""
Regular expressions on symbolic text: a backtracking matcher over the parse tree of the standard library's `re`.

A single-character node is turned into the set of character codes it accepts by asking the real `re` engine, so that
character classes, case folding and flags are those of the implementation.
"""

import re
import re._compiler as rc
import re._constants as C
import re._parser as rp

from . import core
from .strs import DOMAIN, EXTRA, SymStr, ch_eq, chars_of, codes_where, from_chars, mkstr, piece_of
from .values import SymInt, concretize, decide

UNIVERSE = DOMAIN | EXTRA | frozenset(range(256))
SINGLE = {C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN}
_SETS = {}
_TREES = {}
_WORD = {}


def tree_of(p):
    t = _TREES.get((p.pattern, p.flags))
    if t is None:
        t = _TREES[(p.pattern, p.flags)] = rp.parse(p.pattern, p.flags & ~re.DEBUG)
    return t


def codes_of(node, flags):
    key = (repr(node), flags & (re.I | re.A | re.S | re.U | re.L))
    r = _SETS.get(key)
    if r is None:
        st = rp.State()
        st.flags = flags
        sub = rp.SubPattern(st, [node])
        pat = rc.compile(sub, flags & (re.I | re.A | re.S | re.U))
        r = _SETS[key] = frozenset(c for c in UNIVERSE if pat.fullmatch(chr(c)))
    return r


def test(c, codes):
    return ord(c) in codes if type(c) is str else c.test(codes)


def word_codes(flags):
    key = bool(flags & re.A)
    r = _WORD.get(key)
    if r is None:
        p = re.compile(r"\w", re.A if key else 0)
        r = _WORD[key] = frozenset(c for c in UNIVERSE if p.match(chr(c)))
    return r


NL = frozenset({10})


class Matcher:
    def __init__(self, pattern, cs, endpos=None):
        self.pattern = pattern
        self.cs = cs
        self.n = len(cs) if endpos is None else min(len(cs), max(0, endpos))
        self.steps = 0

    # Each `m` is a generator of (position, groups) continuations in order of preference.
    def seq(self, nodes, k, i, g, flags):
        if k == len(nodes):
            yield i, g
            return
        op, av = nodes[k]
        self.steps += 1
        if self.steps > 200000:
            raise core.PathAbort("cut: steps of a regular expression match")
        if op in SINGLE:
            if i < self.n and test(self.cs[i], codes_of((op, av), flags)):
                yield from self.seq(nodes, k + 1, i + 1, g, flags)
            return
        for j, h in self.node(op, av, i, g, flags):
            yield from self.seq(nodes, k + 1, j, h, flags)

    def node(self, op, av, i, g, flags):
        if op is C.BRANCH:
            for alt in av[1]:
                yield from self.seq(alt, 0, i, g, flags)
        elif op is C.SUBPATTERN:
            group, add, rem, p = av
            fl = (flags | add) & ~rem
            for j, h in self.seq(p, 0, i, g, fl):
                if group is not None:
                    h = dict(h)
                    h[group] = (i, j)
                    h["last"] = group
                yield j, h
        elif op is C.MAX_REPEAT:
            yield from self.greedy(av[0], av[1], av[2], i, g, flags, 0)
        elif op is C.MIN_REPEAT:
            yield from self.lazy(av[0], av[1], av[2], i, g, flags, 0)
        elif op is C.POSSESSIVE_REPEAT:
            for r in self.greedy(av[0], av[1], av[2], i, g, flags, 0):
                yield r
                break
        elif op is C.ATOMIC_GROUP:
            for r in self.seq(av, 0, i, g, flags):
                yield r
                break
        elif op is C.AT:
            if self.at(av, i, flags):
                yield i, g
        elif op is C.ASSERT or op is C.ASSERT_NOT:
            d, p = av
            if d < 0:
                lo, hi = p.getwidth()
                j = i - lo
                r = next(iter(self.seq(p, 0, j, g, flags)), None) if j >= 0 else None
            else:
                r = next(iter(self.seq(p, 0, i, g, flags)), None)
            if op is C.ASSERT and r is not None:
                yield i, r[1]
            elif op is C.ASSERT_NOT and r is None:
                yield i, g
        elif op is C.GROUPREF:
            span = g.get(av)
            if span is None:
                return
            a, b = span
            if i + b - a > self.n:
                return
            for x, y in zip(self.cs[a:b], self.cs[i:]):
                t = ch_eq(x, y)
                if not (t if isinstance(t, bool) else decide(t)):
                    return
            yield i + b - a, g
        elif op is C.GROUPREF_EXISTS:
            cond, yes, no = av
            if g.get(cond) is not None:
                yield from self.seq(yes, 0, i, g, flags)
            elif no:
                yield from self.seq(no, 0, i, g, flags)
            else:
                yield i, g
        else:
            raise core.PathAbort(f"cut: regular expression operator {op}")

    def greedy(self, lo, hi, p, i, g, flags, count):
        if len(p) == 1 and p[0][0] in SINGLE:
            codes = codes_of(p[0], flags)
            j, n = i, 0
            while (hi is C.MAXREPEAT or n < hi) and j < self.n and test(self.cs[j], codes):
                j += 1
                n += 1
            while n >= lo:
                yield j, g
                j -= 1
                n -= 1
            return
        if hi is C.MAXREPEAT or count < hi:
            for j, h in self.seq(p, 0, i, g, flags):
                if j == i and count >= lo:
                    continue
                yield from self.greedy(lo, hi, p, j, h, flags, count + 1)
        if count >= lo:
            yield i, g

    def lazy(self, lo, hi, p, i, g, flags, count):
        if count >= lo:
            yield i, g
        if hi is C.MAXREPEAT or count < hi:
            for j, h in self.seq(p, 0, i, g, flags):
                if j == i and count >= lo:
                    continue
                yield from self.lazy(lo, hi, p, j, h, flags, count + 1)

    def at(self, av, i, flags):
        n, cs = self.n, self.cs
        if av is C.AT_BEGINNING_STRING or (av is C.AT_BEGINNING and not flags & re.M):
            return i == 0
        if av is C.AT_BEGINNING:
            return i == 0 or test(cs[i - 1], NL)
        if av is C.AT_END_STRING:
            return i == n
        if av is C.AT_END:
            if i == n:
                return True
            if flags & re.M:
                return test(cs[i], NL)
            return i == n - 1 and test(cs[i], NL)
        if av is C.AT_BOUNDARY or av is C.AT_NON_BOUNDARY:
            w = word_codes(flags)
            a = i > 0 and test(cs[i - 1], w)
            b = i < n and test(cs[i], w)
            return (a != b) == (av is C.AT_BOUNDARY) and (n > 0 or av is not C.AT_NON_BOUNDARY)
        raise core.PathAbort(f"cut: regular expression anchor {av}")

    def match_at(self, i, full=False, nonempty_from=None):
        tree = tree_of(self.pattern)
        for j, g in self.seq(tree, 0, i, {}, self.pattern.flags):
            if full and j != self.n:
                continue
            if nonempty_from is not None and j == i == nonempty_from:
                continue
            return SymMatch(self, i, j, g)
        return None

    def scan(self, i, banned=None):
        while i <= self.n:
            m = self.match_at(i, nonempty_from=banned)
            if m is not None:
                return m
            i += 1
        return None


class SymMatch:
    def __init__(self, m, i, j, g):
        self.m, self.g = m, dict(g)
        self.g[0] = (i, j)
        self.re = m.pattern
        self.pos, self.endpos = 0, m.n

    @property
    def __class__(self):
        return re.Match

    @property
    def string(self):
        return from_chars(self.m.cs)

    @property
    def lastindex(self):
        return self.g.get("last")

    @property
    def lastgroup(self):
        for k, v in self.re.groupindex.items():
            if v == self.lastindex:
                return k
        return None

    def _key(self, k):
        if isinstance(k, str):
            if k not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[k]
        if not 0 <= k <= self.re.groups:
            raise IndexError("no such group")
        return k

    def span(self, k=0):
        return self.g.get(self._key(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _get(self, k, default=None):
        s = self.g.get(self._key(k))
        return default if s is None else from_chars(self.m.cs[s[0] : s[1]])

    def group(self, *ks):
        if not ks:
            return self._get(0)
        if len(ks) == 1:
            return self._get(ks[0])
        return tuple(self._get(k) for k in ks)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._get(v, default) for k, v in self.re.groupindex.items()}

    def expand(self, template):
        return mkstr(_expand(self, template))

    def __bool__(self):
        return True


def _expand(m, template):
    out = []
    for part in rp.parse_template(template, m.re):
        if isinstance(part, int):
            out.extend(piece_of(m._get(part, "")))
        elif part:
            out.append(part)
    return out


def finditer(pattern, cs):
    m = Matcher(pattern, cs)
    i, banned = 0, None
    while i <= m.n:
        r = m.scan(i, banned)
        if r is None:
            return
        yield r
        a, b = r.span()
        # after an empty match, the next one must not be empty at the same position
        i, banned = b, (b if a == b else None)


def call(pattern, method, args, kw):
    from .models import se_call
    from .sany import force

    args = [force(a) for a in args]
    kw = {k: force(v) for k, v in kw.items()}
    if method in ("match", "fullmatch", "search", "finditer", "findall"):
        s = args[0] if args else kw["string"]
        pos = args[1] if len(args) > 1 else kw.get("pos", 0)
        end = args[2] if len(args) > 2 else kw.get("endpos")
        check_text(s)
        m = Matcher(pattern, chars_of(s), end)
        if method == "match":
            return m.match_at(pos) if pos <= m.n else None
        if method == "fullmatch":
            return m.match_at(pos, full=True) if pos <= m.n else None
        if method == "search":
            return m.scan(pos)
        if method == "finditer":
            return finditer(pattern, m.cs)
        out = []
        for r in finditer(pattern, m.cs):
            out.append(r.group(0) if pattern.groups == 0 else r.group(1) if pattern.groups == 1 else tuple(r._get(k, "") for k in range(1, pattern.groups + 1)))
        return [("" if x is None else x) for x in out]
    if method in ("sub", "subn"):
        repl, s = args[0], args[1]
        count = args[2] if len(args) > 2 else kw.get("count", 0)
        check_text(s)
        cs = chars_of(s)
        out, last, n = [], 0, 0
        for r in finditer(pattern, cs):
            if count and n >= count:
                break
            a, b = r.span()
            out.extend(cs[last:a])
            if callable(repl) and not isinstance(repl, str):
                out.extend(piece_of(force(se_call(repl, r))))
            elif type(repl) is SymStr:
                raise core.PathAbort("cut: symbolic replacement template")
            else:
                out.extend(_expand(r, repl))
            last = b
            n += 1
        out.extend(cs[last:])
        res = mkstr(out)
        return res if method == "sub" else (res, n)
    if method == "split":
        s = args[0]
        maxsplit = args[1] if len(args) > 1 else kw.get("maxsplit", 0)
        check_text(s)
        cs = chars_of(s)
        out, last, n = [], 0, 0
        for r in finditer(pattern, cs):
            if maxsplit and n >= maxsplit:
                break
            a, b = r.span()
            out.append(from_chars(cs[last:a]))
            out.extend(r.groups())
            last = b
            n += 1
        out.append(from_chars(cs[last:]))
        return out
    raise core.PathAbort(f"cut: regular expression method {method}")


def check_text(s):
    if type(s) is not SymStr and not isinstance(s, str):
        raise TypeError(f"expected string or bytes-like object, got '{type(s).__name__}'")
