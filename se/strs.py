"""
Symbolic text and byte strings.

A text is a sequence of pieces: concrete text, single symbolic characters, "opaque" strings of unbounded length
(uninterpreted values with a length and a character function), decimal/hexadecimal renderings of symbolic integers and
lazily formatted objects. Operations that need to look at characters expand pieces; opaque strings are then limited to
the explorer's length bound (longer ones end the path as "cut").
"""

import sys

import z3

from . import core
from .values import (
    HASH_RAISES,
    Sym,
    SymBool,
    SymInt,
    concretize,
    cur,
    decide,
    int_bounds,
    int_like,
    int_term,
    mkbool,
    mkint,
    note_bounds,
    split,
    sym_hash,
    sym_not,
    zand,
    znot,
    zor,
)

# characters that a symbolic character ranges over: all of ASCII and representatives of the classes the library's code
# can tell apart (non-ASCII letters, digits that are decimal / only "digit" / only numeric, Unicode spaces and line
# breaks, combining marks, characters outside of the basic plane, case-mapping oddities)
NON_ASCII = "\x85\xa0\xaa\xb2\xb5\xc0\xe9\xff\u0130\u0131\u0301\u0660\u0663\u0669\u0966\u200b\u2028\u2029\u2167\u212a\u3000\u4e2d\ufeff\uff11\uff21\U0001d7d8\U0001f600"
DOMAIN = frozenset(range(128)) | frozenset(ord(c) for c in NON_ASCII)
ASCII = frozenset(range(128))

STR = z3.DeclareSort("Str")
LEN = z3.Function("len", STR, z3.IntSort())
CODE = z3.Function("code", STR, z3.IntSort(), z3.IntSort())


def ranges_of(codes):
    out = []
    for c in sorted(codes):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


def in_set(term, codes, dom=None):
    "Condition for a character code to lie in a set; the smaller description is chosen."
    if dom is not None:
        codes = codes & dom
        if not codes:
            return False
        if len(codes) == len(dom):
            return True
    ts = []
    for lo, hi in ranges_of(codes):
        ts.append(term == lo if lo == hi else z3.And(term >= lo, term <= hi))
    return zor(ts)


class Ch:
    "A symbolic character: integer code, possible codes, and optionally what it was rendered from."

    __slots__ = ("_t", "dom", "origin", "mk")

    def __init__(self, t, dom, origin=None, mk=None):
        self._t, self.dom, self.origin, self.mk = t, dom, origin, mk

    @property
    def t(self):
        if self._t is None:
            self._t = self.mk()
        return self._t

    def test(self, codes):
        "Decides whether the character is one of the given codes."
        hit = codes & self.dom
        if not hit:
            return False
        if len(hit) == len(self.dom):
            return True
        r = decide(in_set(self.t, hit, self.dom))
        self.dom = hit if r else self.dom - hit
        return r


def ch_eq(a, b):
    "Equality term of two characters (1-character strings or Ch)."
    if type(a) is str:
        if type(b) is str:
            return a == b
        a, b = b, a
    if type(b) is str:
        c = ord(b)
        if c not in a.dom:
            return False
        if len(a.dom) == 1:
            return True
        if a.origin is not None and a.origin[0] == "num":
            d = int(b, 16) if b in "0123456789abcdefABCDEF" else None
            if d is not None:
                return a.origin[4] == d
        return a.t == c
    if a is b:
        return True
    if a.origin is not None and b.origin is not None and a.origin[0] == b.origin[0] == "num":
        return mk_t(a.origin[4] == b.origin[4])
    if a.dom.isdisjoint(b.dom):
        return False
    return mk_t(a.t == b.t)


def mk_t(t):
    t = z3.simplify(t)
    return True if z3.is_true(t) else False if z3.is_false(t) else t


_PRED = {}


def codes_where(name, fn):
    r = _PRED.get(name)
    if r is None:
        r = _PRED[name] = frozenset(c for c in DOMAIN | EXTRA if fn(chr(c)))
    return r


EXTRA = frozenset(ord(c.lower()) for c in NON_ASCII if len(c.lower()) == 1) | frozenset(
    ord(c.upper()) for c in NON_ASCII if len(c.upper()) == 1
)

SPACE = codes_where("isspace", str.isspace)


class Num:
    "Rendering of an integer: [sign] digits, zero-padded to a width."

    __slots__ = ("v", "base", "width", "upper", "chars", "space")

    def __init__(self, v, base=10, width=0, upper=False, space=False):
        self.v, self.base, self.width, self.upper, self.chars, self.space = v, base, width, upper, None, space


class Opq:
    "An unbounded string, a value of the uninterpreted sort Str."

    __slots__ = ("t", "chars")

    def __init__(self, t):
        self.t, self.chars = t, None


class Fmt:
    "Lazily formatted object: conversion 's', 'r' or 'a' and a format specification."

    __slots__ = ("v", "conv", "spec")

    def __init__(self, v, conv, spec):
        self.v, self.conv, self.spec = v, conv, spec


def opq_const(s):
    "The value of the uninterpreted sort that stands for a concrete string."
    ex = cur()
    t = ex.strconsts.get(s)
    if t is None:
        t = z3.Const("str:" + repr(s), STR)
        facts = [LEN(t) == len(s)]
        if len(s) <= 64:
            facts += [CODE(t, z3.IntVal(i)) == ord(c) for i, c in enumerate(s)]
        facts += [t != o for o in ex.strconsts.values()]
        for o, chars in ex.expanded:
            if len(chars) == len(s):
                facts.append(_ext(o, chars, t, list(s)))
        ex.strconsts[s] = t
        ex.assume(z3.And(*facts))
    return t


def _ext(o, chars, t, other):
    "Extensionality: equal characters imply equal strings."
    eq = zand([ch_eq(a, b) for a, b in zip(chars, other)])
    return z3.Implies(zbool_(eq), o == t)


def code_at(t, i):
    "Character code of an opaque string; registered so that a model can be turned into text."
    ex = cur()
    i = z3.IntVal(i) if isinstance(i, int) else i
    c = CODE(t, i)
    key = ("codeapp", c.get_id())
    if key not in ex.memo:
        ex.memo[key] = c
        ex.codeapps.append((t, i))
        ex.assume(in_set(c, DOMAIN))
    return c


def new_opaque(name):
    ex = cur()
    t = z3.Const(name, STR)
    e = opq_const("")
    ex.assume(z3.And(LEN(t) >= 0, LEN(t) <= 10**6, (LEN(t) == 0) == (t == e)))
    return Opq(t)


def opq_equal(a, b):
    if a.eq(b):
        return True
    return a == b


def expand_opq(p):
    if p.chars is None:
        ex = cur()
        key = ("opqchars", p.t.get_id())
        hit = ex.memo.get(key)
        if hit is not None:
            p.chars = hit[0]
            return p.chars
        bound = ex.charlen
        n = None
        for k in range(bound + 1):
            if decide(LEN(p.t) == k):
                n = k
                break
        if n is None:
            raise core.PathAbort(f"cut: text longer than {bound} characters examined character by character")
        chars = []
        for i in range(n):
            t = code_at(p.t, i)
            chars.append(Ch(t, DOMAIN))
        p.chars = chars
        ex.memo[key] = (chars, p.t)
        facts = []
        for k, t in ex.strconsts.items():
            if len(k) == n:
                facts.append(_ext(p.t, chars, t, list(k)))
        for o, oc in ex.expanded:
            if len(oc) == n:
                facts.append(_ext(p.t, chars, o, oc))
        ex.expanded.append((p.t, chars))
        if facts:
            ex.assume(z3.And(*facts))
    return p.chars


DIGITS = "0123456789abcdef"


def num_chars(p):
    "Expands the rendering of an integer; the sign and the number of digits are decided."
    if p.chars is not None:
        return p.chars
    v, base, width = p.v, p.base, p.width
    if int_like(v) and type(v) not in (SymInt, SymBool):
        s = format(int(v), "d" if base == 10 else "x")
        s = s.rjust(width) if p.space else s.zfill(width)
        p.chars = list(s.upper() if p.upper else s)
        return p.chars
    lo, hi = int_bounds(v)
    t = int_term(v)
    neg = False
    if (lo is None or lo < 0) and decide(t < 0):
        neg, t = True, -t
        lo, hi = (0 if hi is None else max(0, -hi)), (None if lo is None else -lo)
    n = max(1, width - (1 if neg else 0)) if not p.space else 1
    while not (hi is not None and hi < base**n) and not decide(t < base**n):
        n += 1
        if n > 45:
            raise core.PathAbort("cut: integer of more than 45 digits rendered")
    ex = cur()
    if not neg and not p.space and n > 1 and type(v) is SymInt and (p.width >= n or lo is not None and lo >= base ** (n - 1)):
        # the digits of a sum of numbers that do not overlap are the digits of these
        for k in range(1, n):
            qr = split(v, base**k)
            if qr is not None:
                p.chars = num_chars(Num(qr[0], base, n - k, p.upper)) + num_chars(Num(qr[1], base, k, p.upper))
                return p.chars
    key = ("digits", t.get_id(), base, n)
    hit = ex.memo.get(key)
    if hit is None:
        ds = [ex.fresh("digit", z3.IntSort()) for _ in range(n)]
        for d in ds:
            note_bounds(d, 0, base - 1)
        total = 0
        for d in ds:
            total = total * base + d
        ex.assume(z3.And(*[z3.And(d >= 0, d < base) for d in ds], total == t))
        ex.memo[key] = (ds, t)
    else:
        ds = hit[0]
    canon = n > 1 and not (width and not p.space and n <= width - (1 if neg else 0))
    if canon:
        ex.assume(ds[0] > 0)
    al = frozenset(ord(c) for c in (DIGITS[:base].upper() if p.upper else DIGITS[:base]))
    off = 55 if p.upper else 87
    chars = []
    for i, d in enumerate(ds):
        if base == 10:
            mk = lambda d=d: d + 48  # noqa: E731
        else:
            mk = lambda d=d: z3.If(d < 10, d + 48, d + off)  # noqa: E731
        dom = al - {48} if canon and i == 0 else al
        chars.append(Ch(None, dom, ("num", p, i, n, d), mk))
    if neg:
        chars.insert(0, "-")
    while p.space and len(chars) < width:
        chars.insert(0, " ")
    p.chars = chars
    return chars


def piece_chars(p):
    tp = type(p)
    if tp is str:
        return list(p)
    if tp is Ch:
        return [p]
    if tp is Num:
        return num_chars(p)
    if tp is Opq:
        return expand_opq(p)
    if tp is Fmt:
        from . import models

        s = models.expand_fmt(p)
        return chars_of(s)
    raise AssertionError(tp)


def chars_of(s):
    if type(s) is SymStr:
        return s.chars()
    return list(s)


def merge(pieces):
    out = []
    for p in pieces:
        if type(p) is str:
            if not p:
                continue
            if out and type(out[-1]) is str:
                out[-1] += p
                continue
        out.append(p)
    return out


def mkstr(pieces):
    "A text made of pieces; a plain str if nothing symbolic is left."
    out = []
    for p in pieces:
        if type(p) is Ch and len(p.dom) == 1:
            p = chr(next(iter(p.dom)))
        out.append(p)
    out = merge(out)
    if not out:
        return ""
    if len(out) == 1 and type(out[0]) is str:
        return out[0]
    return SymStr(out)


def from_chars(chars):
    """A text made of characters. A complete run of the digits of one integer is folded back, to keep it readable."""
    return mkstr(chars)


def str_like(x):
    tx = type(x)
    return tx is SymStr or tx is str or (issubclass(tx, str) and not issubclass(tx, Sym))


def piece_of(x):
    return x.p if type(x) is SymStr else [str.__str__(x)]


class SymStr(Sym):
    __slots__ = ("p",)

    def __init__(self, pieces):
        self.p = pieces

    @property
    def __class__(self):
        return str

    def chars(self):
        out = []
        simple = True
        for p in self.p:
            if type(p) not in (str, Ch):
                simple = False
            out.extend(piece_chars(p))
        if not simple:
            self.p = merge(list(out)) or [""]
        return out

    def opaque(self):
        return self.p[0] if len(self.p) == 1 and type(self.p[0]) is Opq and self.p[0].chars is None else None

    def __hash__(self):
        return sym_hash(self)

    def __bool__(self):
        for p in self.p:
            if type(p) in (str, Ch, Num):
                if p != "":
                    return True
        o = self.opaque()
        if o is not None:
            return decide(LEN(o.t) > 0)
        return len(self.chars()) > 0

    def __repr__(self):
        from . import models

        return models.native_text(self, "r")

    def __str__(self):
        from . import models

        return models.native_text(self, "s")

    def __format__(self, spec):
        return format(str(self), spec)

    # ---- length

    def length(self):
        total, sym = 0, None
        for p in self.p:
            if type(p) is str:
                total += len(p)
            elif type(p) is Ch:
                total += 1
            elif type(p) is Opq:
                if p.chars is not None:
                    total += len(p.chars)
                else:
                    sym = LEN(p.t) if sym is None else sym + LEN(p.t)
            else:
                return len(self.chars()) if sym is None else self._len_expand()
        if sym is None:
            return total
        return mkint(sym + total, 0, None)

    def _len_expand(self):
        return len(self.chars())

    def __len__(self):
        n = self.length()
        return n if type(n) is int else concretize(n)

    # ---- comparison

    def eq_term(self, o):
        "Equality as a term (or bool); expands pieces only if needed."
        a, b = self.p, piece_of(o)
        if a is b or (len(a) == len(b) and all(same_piece(x, y) for x, y in zip(a, b))):
            return True
        oa = self.opaque()
        ob = o.opaque() if type(o) is SymStr else None
        if oa is not None and ob is not None:
            return opq_equal(oa.t, ob.t)
        if oa is not None and type(o) is not SymStr:
            s = str.__str__(o)
            return oa.t == opq_const(s)
        if ob is not None:
            return o.eq_term(self) if type(self) is not SymStr else self._mixed_eq(o, ob)
        if oa is not None:
            return self._mixed_eq2(oa, o)
        # a rendered integer against a constant
        if len(a) == 1 and type(a[0]) is Num and len(b) == 1 and type(b[0]) is str:
            r = num_eq_const(a[0], b[0])
            if r is not None:
                return r
        if len(a) == 1 and type(a[0]) is Num and len(b) == 1 and type(b[0]) is Num:
            x, y = a[0], b[0]
            if (x.base, x.width, x.upper, x.space) == (y.base, y.width, y.upper, y.space):
                return mk_t(int_term(x.v) == int_term(y.v))
        # strip equal leading / trailing pieces
        i = 0
        while i < min(len(a), len(b)) and same_piece(a[i], b[i]):
            i += 1
        j = 0
        while j < min(len(a), len(b)) - i and same_piece(a[-1 - j], b[-1 - j]):
            j += 1
        if i or j:
            x = mkstr(a[i : len(a) - j])
            y = mkstr(b[i : len(b) - j])
            if type(x) is SymStr:
                return x.eq_term(y)
            if type(y) is SymStr:
                return y.eq_term(x)
            return x == y
        # quick length refutation, then character by character
        lo1, hi1 = len_bounds(a)
        lo2, hi2 = len_bounds(b)
        if (hi1 is not None and hi1 < lo2) or (hi2 is not None and hi2 < lo1):
            return False
        if type(b[0]) is str and type(a[0]) is str if b and a else False:
            n = min(len(a[0]), len(b[0]))
            if a[0][:n] != b[0][:n]:
                return False
        ca = self.chars()
        cb = chars_of(o)
        if len(ca) != len(cb):
            return False
        ts = []
        for x, y in zip(ca, cb):
            t = ch_eq(x, y)
            if t is False:
                return False
            ts.append(t)
        return zand(ts)

    def _mixed_eq2(self, oa, o):
        # opaque against a structured text of determined length: compare length and characters
        cb = chars_of(o)
        ts = [LEN(oa.t) == len(cb)]
        for i, c in enumerate(cb):
            code = code_at(oa.t, i)
            ts.append(code == (ord(c) if type(c) is str else c.t))
        return zand(ts)

    def _mixed_eq(self, o, ob):
        return o._mixed_eq2(ob, self)

    def __eq__(self, o):
        if not str_like(o):
            return NotImplemented
        t = self.eq_term(o)
        return mkbool(t) if not isinstance(t, bool) else t

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def _lt(self, o, or_equal):
        ca, cb = self.chars(), chars_of(o)
        for x, y in zip(ca, cb):
            if decide(ch_eq(x, y)):
                continue
            tx = z3.IntVal(ord(x)) if type(x) is str else x.t
            ty = z3.IntVal(ord(y)) if type(y) is str else y.t
            return mkbool(tx < ty)
        return len(ca) < len(cb) or (or_equal and len(ca) == len(cb))

    def __lt__(self, o):
        return self._lt(o, False) if str_like(o) else NotImplemented

    def __le__(self, o):
        return self._lt(o, True) if str_like(o) else NotImplemented

    def __gt__(self, o):
        return sym_not(self._lt(o, True)) if str_like(o) else NotImplemented

    def __ge__(self, o):
        return sym_not(self._lt(o, False)) if str_like(o) else NotImplemented

    # ---- concatenation, indexing

    def __add__(self, o):
        return mkstr(self.p + piece_of(o)) if str_like(o) else NotImplemented

    def __radd__(self, o):
        return mkstr(piece_of(o) + self.p) if str_like(o) else NotImplemented

    def __mul__(self, n):
        return mkstr(self.p * concretize(n) if type(n) is SymInt else self.p * n)

    __rmul__ = __mul__

    def __mod__(self, args):
        from . import models

        return models.percent_format(self, args)

    def __getitem__(self, i):
        o = self.opaque()
        if type(i) is slice:
            if o is not None:
                r = self._opaque_slice(o, i)
                if r is not None:
                    return r
            cs = self.chars()
            i = slice(*(None if v is None else (concretize(v) if type(v) is SymInt else v) for v in (i.start, i.stop, i.step)))
            return from_chars(cs[i])
        if type(i) is SymInt:
            i = concretize(i)
        if o is not None and type(i) is int:
            ex = cur()
            n = LEN(o.t)
            if not decide(n > i if i >= 0 else n >= -i):
                raise IndexError("string index out of range")
            t = code_at(o.t, i if i >= 0 else n + i)
            return SymStr([Ch(t, DOMAIN)])
        return from_chars([self.chars()[i]])

    def _opaque_slice(self, o, i):
        "s[:k], s[k:] of an unbounded string: the string itself if nothing is cut, else some other string."
        if i.step not in (None, 1):
            return None
        start, stop = i.start, i.stop
        ex = cur()
        n = LEN(o.t)
        if start in (None, 0) and type(start) is not SymInt and type(stop) is int and stop > ex.charlen:
            if decide(n <= stop):
                return self
            ex.note_concretize(True)
            t = new_opaque(f"slice!{ex.fresh('slice', z3.IntSort())}")
            ex.assume(z3.And(LEN(t.t) == stop, t.t != o.t))
            return SymStr([t])
        if start in (None, 0) and stop is None:
            return self
        return None

    def __iter__(self):
        return iter([from_chars([c]) for c in self.chars()])

    def __reversed__(self):
        return iter([from_chars([c]) for c in reversed(self.chars())])

    # ---- searching

    def _match_at(self, cs, sub, i):
        if i < 0 or i + len(sub) > len(cs):
            return False
        ts = []
        for k, c in enumerate(sub):
            t = ch_eq(cs[i + k], c)
            if t is False:
                return False
            ts.append(t)
        t = zand(ts)
        return decide(t) if not isinstance(t, bool) else t

    def __contains__(self, sub):
        if not str_like(sub):
            raise TypeError("'in <string>' requires string as left operand")
        return self.find(sub) >= 0

    def contains_term(self, sub):
        cs, sb = self.chars(), chars_of(sub)
        ts = []
        for i in range(len(cs) - len(sb) + 1):
            t = zand([ch_eq(cs[i + k], c) for k, c in enumerate(sb)])
            if t is True:
                return True
            ts.append(t)
        return zor(ts)

    def _rng(self, n, start, end):
        return slice(start, end).indices(n)[:2]

    def find(self, sub, start=None, end=None):
        if not str_like(sub):
            raise TypeError("must be str")
        cs, sb = self.chars(), chars_of(sub)
        a, b = self._rng(len(cs), start, end)
        if start is not None and start > len(cs):
            return -1
        for i in range(a, b - len(sb) + 1):
            if self._match_at(cs, sb, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        cs, sb = self.chars(), chars_of(sub)
        a, b = self._rng(len(cs), start, end)
        for i in range(b - len(sb), a - 1, -1):
            if self._match_at(cs, sb, i):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        cs, sb = self.chars(), chars_of(sub)
        a, b = self._rng(len(cs), start, end)
        if not sb:
            return b - a + 1
        n, i = 0, a
        while i + len(sb) <= b:
            if self._match_at(cs, sb, i):
                n += 1
                i += len(sb)
            else:
                i += 1
        return n

    def startswith(self, prefix, start=None, end=None):
        if type(prefix) is tuple:
            return any(self.startswith(x, start, end) for x in prefix)
        if not str_like(prefix):
            raise TypeError("startswith first arg must be str or a tuple of str")
        if start is None and end is None and type(prefix) is str:
            if not prefix:
                return True
            f = self.p[0]
            if type(f) is str:
                n = min(len(f), len(prefix))
                if f[:n] != prefix[:n]:
                    return False
                if len(f) >= len(prefix):
                    return True
            o = self.opaque()
            if o is not None:
                return mkbool(z3.And(LEN(o.t) >= len(prefix), *[code_at(o.t, i) == ord(c) for i, c in enumerate(prefix)]))
        cs, sb = self.chars(), chars_of(prefix)
        a, b = self._rng(len(cs), start, end)
        if start is not None and start > len(cs):
            return False
        return a + len(sb) <= b and self._match_at(cs, sb, a)

    def endswith(self, suffix, start=None, end=None):
        if type(suffix) is tuple:
            return any(self.endswith(x, start, end) for x in suffix)
        if not str_like(suffix):
            raise TypeError("endswith first arg must be str or a tuple of str")
        if start is None and end is None and type(suffix) is str:
            if not suffix:
                return True
            f = self.p[-1]
            if type(f) is str:
                n = min(len(f), len(suffix))
                if n and f[-n:] != suffix[-n:]:
                    return False
                if len(f) >= len(suffix):
                    return True
            o = self.opaque()
            if o is not None:
                n = LEN(o.t)
                k = len(suffix)
                return mkbool(z3.And(n >= k, *[code_at(o.t, n - k + i) == ord(c) for i, c in enumerate(suffix)]))
        cs, sb = self.chars(), chars_of(suffix)
        a, b = self._rng(len(cs), start, end)
        return a + len(sb) <= b and self._match_at(cs, sb, b - len(sb))

    def removeprefix(self, prefix):
        return self[chars_len(prefix) :] if self.startswith(prefix) else self

    def removesuffix(self, suffix):
        n = chars_len(suffix)
        return from_chars(self.chars()[: len(self.chars()) - n]) if n and self.endswith(suffix) else self

    # ---- splitting

    def split(self, sep=None, maxsplit=-1):
        cs = self.chars()
        out, cur_, i = [], [], 0
        if sep is None:
            while i < len(cs):
                while i < len(cs) and self._test(cs[i], SPACE):
                    i += 1
                if i >= len(cs):
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    rest = cs[i:]
                    while rest and self._test(rest[-1], SPACE):
                        rest.pop()
                    out.append(from_chars(rest))
                    break
                j = i
                while j < len(cs) and not self._test(cs[j], SPACE):
                    j += 1
                out.append(from_chars(cs[i:j]))
                i = j
            return out
        sb = chars_of(sep)
        if not sb:
            raise ValueError("empty separator")
        while i < len(cs):
            if (maxsplit < 0 or len(out) < maxsplit) and self._match_at(cs, sb, i):
                out.append(from_chars(cur_))
                cur_ = []
                i += len(sb)
            else:
                cur_.append(cs[i])
                i += 1
        out.append(from_chars(cur_))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        cs = self.chars()
        if sep is None:
            return [from_chars(list(x)) for x in ()] if not cs else SymStr(list(cs))._rsplit_ws(maxsplit)
        sb = chars_of(sep)
        out, end = [], len(cs)
        i = end - len(sb)
        while i >= 0 and len(out) < maxsplit:
            if self._match_at(cs, sb, i):
                out.insert(0, from_chars(cs[i + len(sb) : end]))
                end = i
                i -= len(sb)
            else:
                i -= 1
        out.insert(0, from_chars(cs[:end]))
        return out

    def _rsplit_ws(self, maxsplit):
        r = mkstr(list(reversed(self.chars())))
        parts = r.split(None, maxsplit)
        return [mkstr(list(reversed(chars_of(x)))) for x in reversed(parts)]

    def partition(self, sep):
        cs, sb = self.chars(), chars_of(sep)
        for i in range(len(cs) - len(sb) + 1):
            if self._match_at(cs, sb, i):
                return from_chars(cs[:i]), sep, from_chars(cs[i + len(sb) :])
        return self, "", ""

    def rpartition(self, sep):
        cs, sb = self.chars(), chars_of(sep)
        for i in range(len(cs) - len(sb), -1, -1):
            if self._match_at(cs, sb, i):
                return from_chars(cs[:i]), sep, from_chars(cs[i + len(sb) :])
        return "", "", self

    LINEBREAKS = frozenset(ord(c) for c in "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")

    def splitlines(self, keepends=False):
        cs = self.chars()
        out, line, i = [], [], 0
        while i < len(cs):
            if self._test(cs[i], self.LINEBREAKS):
                brk = [cs[i]]
                if self._test(cs[i], frozenset({13})) and i + 1 < len(cs) and self._test(cs[i + 1], frozenset({10})):
                    i += 1
                    brk.append(cs[i])
                out.append(from_chars(line + (brk if keepends else [])))
                line = []
            else:
                line.append(cs[i])
            i += 1
        if line:
            out.append(from_chars(line))
        return out

    @staticmethod
    def _test(c, codes):
        return ord(c) in codes if type(c) is str else c.test(codes)

    def _strip_set(self, chars):
        if chars is None:
            return SPACE
        if type(chars) is SymStr:
            chars = "".join(models_concrete(chars))
        return frozenset(ord(c) for c in chars)

    def lstrip(self, chars=None):
        codes = self._strip_set(chars)
        cs = self.chars()
        i = 0
        while i < len(cs) and self._test(cs[i], codes):
            i += 1
        return from_chars(cs[i:])

    def rstrip(self, chars=None):
        codes = self._strip_set(chars)
        cs = self.chars()
        n = len(cs)
        while n > 0 and self._test(cs[n - 1], codes):
            n -= 1
        return from_chars(cs[:n])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def replace(self, old, new, count=-1):
        cs, so, sn = self.chars(), chars_of(old), piece_of(new)
        out, i, n = [], 0, 0
        if not so:
            for c in cs:
                if count < 0 or n < count:
                    out.extend(sn)
                    n += 1
                out.append(c)
            if count < 0 or n < count:
                out.extend(sn)
            return mkstr(out)
        while i < len(cs):
            if (count < 0 or n < count) and self._match_at(cs, so, i):
                out.extend(sn)
                i += len(so)
                n += 1
            else:
                out.append(cs[i])
                i += 1
        return mkstr(out)

    def join(self, it):
        out = []
        for k, x in enumerate(it):
            if k:
                out.extend(self.p)
            if not str_like(x):
                raise TypeError(f"sequence item {k}: expected str instance, {type(x).__name__} found")
            out.extend(piece_of(x))
        return mkstr(out)

    # ---- character classes and case

    def _map(self, fn, name):
        out = []
        for c in self.chars():
            if type(c) is str:
                out.extend(fn(c))
            else:
                out.append(map_ch(c, fn, name))
        return mkstr(out)

    def lower(self):
        return self._map(str.lower, "lower")

    def upper(self):
        return self._map(str.upper, "upper")

    def casefold(self):
        return self._map(str.casefold, "casefold")

    def swapcase(self):
        return self._map(str.swapcase, "swapcase")

    def capitalize(self):
        cs = self.chars()
        if not cs:
            return ""
        return mkstr(piece_of(from_chars(cs[:1]).upper()) + (piece_of(from_chars(cs[1:]).lower()) if cs[1:] else []))

    def _all(self, name, fn):
        cs = self.chars()
        codes = codes_where(name, fn)
        return bool(cs) and all(self._test(c, codes) for c in cs)

    def isdigit(self):
        return self._all("isdigit", str.isdigit)

    def isdecimal(self):
        return self._all("isdecimal", str.isdecimal)

    def isnumeric(self):
        return self._all("isnumeric", str.isnumeric)

    def isalpha(self):
        return self._all("isalpha", str.isalpha)

    def isalnum(self):
        return self._all("isalnum", str.isalnum)

    def isspace(self):
        return self._all("isspace", str.isspace)

    def isprintable(self):
        codes = codes_where("isprintable", str.isprintable)
        return all(self._test(c, codes) for c in self.chars())

    def isascii(self):
        return all(self._test(c, ASCII) for c in self.chars())

    def isidentifier(self):
        cs = self.chars()
        if not cs:
            return False
        first = codes_where("idstart", str.isidentifier)
        rest = codes_where("idcont", lambda c: ("a" + c).isidentifier())
        return self._test(cs[0], first) and all(self._test(c, rest) for c in cs[1:])

    def islower(self):
        lo, up = codes_where("islower", str.islower), codes_where("isupper", str.isupper)
        cs = self.chars()
        seen = False
        for c in cs:
            if self._test(c, up):
                return False
            if self._test(c, lo):
                seen = True
        return seen

    def isupper(self):
        lo, up = codes_where("islower", str.islower), codes_where("isupper", str.isupper)
        seen = False
        for c in self.chars():
            if self._test(c, lo):
                return False
            if self._test(c, up):
                seen = True
        return seen

    # ---- padding

    def zfill(self, width):
        cs = self.chars()
        pad = ["0"] * (width - len(cs))
        if cs and self._test(cs[0], frozenset({43, 45})):
            return mkstr([cs[0]] + pad + cs[1:])
        return mkstr(pad + cs)

    def ljust(self, width, fill=" "):
        cs = self.chars()
        return mkstr(cs + piece_of(fill) * (width - len(cs)))

    def rjust(self, width, fill=" "):
        cs = self.chars()
        return mkstr(piece_of(fill) * (width - len(cs)) + cs)

    def center(self, width, fill=" "):
        cs = self.chars()
        pad = max(0, width - len(cs))
        left = pad // 2 + (pad & width & 1)
        return mkstr(piece_of(fill) * left + cs + piece_of(fill) * (pad - left))

    def expandtabs(self, tabsize=8):
        out, col = [], 0
        for c in self.chars():
            if self._test(c, frozenset({9})):
                n = tabsize - col % tabsize if tabsize > 0 else 0
                out.extend([" "] * n)
                col += n
            else:
                col = 0 if self._test(c, frozenset({10, 13})) else col + 1
                out.append(c)
        return mkstr(out)

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        out = []
        for c in self.chars():
            if type(c) is str:
                out.extend(c.encode(encoding, errors))
            elif c.test(ASCII):
                out.append(byte_of_ch(c))
            elif enc in ("utf-8", "utf8"):
                out.extend(chr(fix_char(c)).encode("utf-8"))
            else:
                out.extend(chr(fix_char(c)).encode(encoding, errors))
        return SymBytes(out)

    def translate(self, table):
        out = []
        for c in self.chars():
            if type(c) is not str:
                c = chr(fix_char(c))
            out.append(c.translate(table))
        return mkstr(out)

    def format(self, *a, **k):
        from . import models

        return models.str_format(self, a, k)


def models_concrete(x):
    from . import models

    return models.concrete(x)


def fix_char(c):
    "Forks over the code of a character."
    codes = sorted(c.dom)
    for k in codes[:-1]:
        if c.test(frozenset({k})):
            return k
    return codes[-1]


def map_ch(c, fn, name):
    "Maps a character to a character through a table."
    img, table = set(), {}
    for k in c.dom:
        v = fn(chr(k))
        if len(v) != 1:
            if c.test(frozenset({k})):
                return v
            return map_ch(c, fn, name)
        table[k] = ord(v)
        img.add(ord(v))
    if all(k == v for k, v in table.items()):
        return c
    groups = {}
    for k, v in table.items():
        groups.setdefault(v - k, set()).add(k)
    big = max(groups, key=lambda d: len(groups[d]))

    def mk():
        t = c.t
        r = t + big
        for d, codes in groups.items():
            if d != big:
                r = z3.If(zbool_(in_set(t, frozenset(codes), c.dom)), t + d, r)
        return r

    return Ch(None, frozenset(img), None, mk)


def zbool_(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def chars_len(s):
    return len(s) if type(s) is str else len(s.chars())


def same_piece(x, y):
    if x is y:
        return True
    if type(x) is str and type(y) is str:
        return x == y
    if type(x) is Opq and type(y) is Opq:
        return x.t.eq(y.t)
    if type(x) is Num and type(y) is Num:
        return (x.base, x.width, x.upper, x.space) == (y.base, y.width, y.upper, y.space) and (
            int_like(x.v) and int_like(y.v) and int_term(x.v).eq(int_term(y.v))
        )
    if type(x) is Ch and type(y) is Ch:
        return x._t is not None and y._t is not None and x._t.eq(y._t)
    if type(x) is Fmt and type(y) is Fmt:
        return x.v is y.v and x.conv == y.conv and x.spec == y.spec
    return False


def len_bounds(ps):
    lo, hi = 0, 0
    for p in ps:
        if type(p) is str:
            lo += len(p)
            hi = None if hi is None else hi + len(p)
        elif type(p) is Ch:
            lo += 1
            hi = None if hi is None else hi + 1
        elif type(p) is Num:
            lo += max(1, p.width)
            hi = None
        else:
            hi = None
    return lo, hi


def num_eq_const(p, s):
    "Equality of a rendered integer with a constant text; None if it has to be worked out digit by digit."
    if p.space:
        return None
    try:
        v = int(s, p.base)
    except ValueError:
        return False
    f = format(v, "x" if p.base == 16 else "d")
    f = f.upper() if p.upper else f
    if f.zfill(p.width) != s:
        return False
    return mk_t(int_term(p.v) == v)


def parse_int(s, base=10):
    "int(text, base)"
    cs = list(chars_of(s))

    def bad():
        return ValueError(SymStr([Fmt(None, "m", "invalid literal for int()")]) if False else "invalid literal for int() with base %d" % base)

    while cs and SymStr._test(cs[0], SPACE):
        cs.pop(0)
    while cs and SymStr._test(cs[-1], SPACE):
        cs.pop()
    if not cs:
        raise bad()
    neg = False
    if SymStr._test(cs[0], frozenset({43, 45})):
        neg = SymStr._test(cs[0], frozenset({45}))
        cs.pop(0)
    if base == 16 and len(cs) > 2 and SymStr._test(cs[0], frozenset({48})) and SymStr._test(cs[1], frozenset({88, 120})):
        cs = cs[2:]
        if SymStr._test(cs[0], frozenset({95})):
            cs.pop(0)
    if not cs:
        raise bad()
    # a complete run of digits of one rendered integer reads back as that integer
    o = cs[0].origin if type(cs[0]) is Ch else None
    if o is not None and o[0] == "num" and o[1].base == base and o[3] == len(cs) and o[2] == 0:
        if all(type(c) is Ch and c.origin is not None and c.origin[0] == "num" and c.origin[1] is o[1] and c.origin[2] == i for i, c in enumerate(cs)):
            v = o[1].v
            ds = [c for c in num_chars(o[1]) if c == "-"]
            v = -v if ds else v
            return -v if neg else v
    valid = codes_where(("digit", base), lambda c: _digit(c, base) is not None)
    total, lo, hi = z3.IntVal(0), 0, 0
    prev_us = True
    ndig = 0
    skip = 0
    for i, c in enumerate(cs):
        if skip:
            skip -= 1
            continue
        o = c.origin if type(c) is Ch else None
        if o is not None and o[0] == "num" and o[2] == 0 and o[3] > 1 and o[1].base == base and i + o[3] <= len(cs) and o[1].chars[0] is c and not o[1].space:
            run = cs[i : i + o[3]]
            if all(x is y for x, y in zip(run, o[1].chars)):
                total = total * base ** o[3] + int_term(o[1].v)
                hi = (hi + 1) * base ** o[3] - 1
                ndig += o[3]
                skip = o[3] - 1
                prev_us = False
                continue
        if SymStr._test(c, frozenset({95})):
            if prev_us or i == len(cs) - 1:
                raise bad()
            prev_us = True
            continue
        prev_us = False
        if not SymStr._test(c, valid):
            raise bad()
        ndig += 1
        total = total * base + digit_term(c, base)
        hi = hi * base + base - 1
    if ndig > 4300 and base == 10:
        raise ValueError("Exceeds the limit (4300 digits) for integer string conversion")
    r = mkint(total, lo, hi)
    return -r if neg else r


def _digit(c, base):
    import unicodedata

    d = unicodedata.decimal(c, None)
    if d is None:
        if c.isascii() and c.isalpha():
            d = ord(c.lower()) - 87
        else:
            return None
    return d if d < base else None


def digit_term(c, base):
    if type(c) is str:
        return _digit(c, base)
    if c.origin is not None and c.origin[0] == "num":
        return c.origin[4]
    groups = {}
    for k in c.dom:
        groups.setdefault(k - _digit(chr(k), base), set()).add(k)
    gs = sorted(groups.items(), key=lambda g: -len(g[1]))
    t = c.t
    r = t - gs[0][0]
    for off, codes in gs[1:]:
        r = z3.If(zbool_(in_set(t, frozenset(codes), c.dom)), t - off, r)
    return r


# -------------------------------------------------------------------------------------------------------------- bytes


class SByte:
    "A symbolic byte: an 8-bit vector, with possible values and optionally the 6-bit value it encodes."

    __slots__ = ("bv", "dom", "origin", "_int")

    def __init__(self, bv, dom=None, origin=None):
        self.bv, self.dom, self.origin, self._int = bv, dom, origin, None

    def as_int(self):
        if self._int is None:
            if self.dom is not None and len(self.dom) == 1:
                return next(iter(self.dom))
            lo, hi = (min(self.dom), max(self.dom)) if self.dom else (0, 255)
            r = mkint(z3.BV2Int(self.bv), lo, hi)
            self._int = r
        return self._int


def byte_of_int(x):
    "The byte of an integer known to be in range."
    b = SByte(z3.Int2BV(x.t, 8))
    b._int = SymInt(x.t, 0 if x.lo is None else max(0, x.lo), 255 if x.hi is None else min(255, x.hi))
    return b


def byte_of_ch(c):
    if c.origin is not None and c.origin[0] == "byte":
        return c.origin[1]
    if c.origin is not None and c.origin[0] == "num":
        d = z3.Int2BV(c.origin[4], 8)
        if max(c.dom) <= 57:
            return SByte(d + 48, c.dom, ("ch", c))
    return SByte(z3.Int2BV(c.t, 8), c.dom, ("ch", c))


def ch_of_byte(b):
    if b.origin is not None and b.origin[0] == "ch":
        return b.origin[1]
    dom = b.dom if b.dom is not None else ASCII
    return Ch(None, frozenset(dom), ("byte", b), lambda: z3.BV2Int(b.bv))


def bytes_like(x):
    return type(x) in (SymBytes, bytes, bytearray, memoryview)


def byte_items(x):
    return x.b if type(x) is SymBytes else list(bytes(x))


def mkbytes(items):
    if all(type(i) is int for i in items):
        return bytes(items)
    return SymBytes(items)


def _byte_bv(x):
    return z3.BitVecVal(x, 8) if type(x) is int else x.bv


class SymBytes(Sym):
    __slots__ = ("b",)

    def __init__(self, items):
        out = []
        for x in items:
            if type(x) is SymInt:
                x = byte_of_int(x)
            out.append(x)
        self.b = out

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return bool(self.b)

    def __hash__(self):
        return sym_hash(self)

    def __repr__(self):
        from . import models

        return repr(models.concrete(self))

    def __iter__(self):
        return iter([x if type(x) is int else x.as_int() for x in self.b])

    def __getitem__(self, i):
        if type(i) is slice:
            return mkbytes(self.b[i])
        if type(i) is SymInt:
            i = concretize(i)
        x = self.b[i]
        return x if type(x) is int else x.as_int()

    def eq_term(self, o):
        a, b = self.b, byte_items(o)
        if len(a) != len(b):
            return False
        ts = []
        for x, y in zip(a, b):
            if type(x) is int and type(y) is int:
                if x != y:
                    return False
                continue
            if x is y:
                continue
            t = mk_t(_byte_bv(x) == _byte_bv(y))
            if t is False:
                return False
            ts.append(t)
        return zand(ts)

    def __eq__(self, o):
        if not bytes_like(o):
            return NotImplemented
        t = self.eq_term(o)
        return t if isinstance(t, bool) else mkbool(t)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __add__(self, o):
        return mkbytes(self.b + byte_items(o)) if bytes_like(o) else NotImplemented

    def __radd__(self, o):
        return mkbytes(byte_items(o) + self.b) if bytes_like(o) else NotImplemented

    def __mul__(self, n):
        return mkbytes(self.b * n)

    __rmul__ = __mul__

    def __contains__(self, x):
        if bytes_like(x):
            n = len(x)
            return any(bool(mkbytes(self.b[i : i + n]) == x) for i in range(len(self.b) - n + 1))
        return any(bool(y == x) for y in self)

    def decode(self, encoding="utf-8", errors="strict"):
        out = []
        for x in self.b:
            if type(x) is int:
                if x > 127:
                    return models_concrete(self).decode(encoding, errors)
                out.append(chr(x))
            else:
                if x.dom is None or not x.dom <= ASCII:
                    if not decide(z3.ULT(x.bv, 128)):
                        return models_concrete(self).decode(encoding, errors)
                out.append(ch_of_byte(x))
        return mkstr(out)

    def hex(self, sep=None, *a):
        out = []
        for i, x in enumerate(self):
            if i and sep:
                out.append(sep)
            out.append(Num(x, 16, 2))
        return mkstr(out)

    def translate(self, table, delete=b""):
        table = bytes(table) if table is not None else bytes(range(256))
        out = []
        for x in self.b:
            if type(x) is int:
                if x not in delete:
                    out.append(table[x])
                continue
            dom = x.dom if x.dom is not None else frozenset(range(256))
            if delete and any(d in dom for d in delete):
                if decide(zor([x.bv == d for d in delete if d in dom])):
                    continue
            moved = {k: table[k] for k in dom if table[k] != k}
            if not moved:
                out.append(x)
                continue
            bv = x.bv
            r = bv
            if len(moved) > 64:
                raise core.PathAbort("cut: byte translation table")
            for k, v in moved.items():
                r = z3.If(bv == k, z3.BitVecVal(v, 8), r)
            out.append(SByte(r, frozenset(table[k] for k in dom)))
        return mkbytes(out)

    def startswith(self, p, *a):
        if type(p) is tuple:
            return any(self.startswith(x) for x in p)
        return len(p) <= len(self.b) and bool(mkbytes(self.b[: len(p)]) == p)

    def endswith(self, p, *a):
        if type(p) is tuple:
            return any(self.endswith(x) for x in p)
        return len(p) <= len(self.b) and (not p or bool(mkbytes(self.b[-len(p) :]) == p))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(models_concrete(self), name)


B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def b2a_base64(data, *, newline=True):
    "binascii.b2a_base64 on symbolic bytes: bit-exact."
    items = byte_items(data)
    out = []

    def enc(bv6):
        s = z3.simplify(bv6)
        if z3.is_bv_value(s):
            return ord(B64[s.as_long()])
        w = z3.ZeroExt(2, s)
        r = z3.If(z3.ULT(w, 26), w + 65, z3.If(z3.ULT(w, 52), w + 71, z3.If(z3.ULT(w, 62), w - 4, z3.If(w == 62, z3.BitVecVal(43, 8), z3.BitVecVal(47, 8)))))
        return SByte(r, frozenset(map(ord, B64)), ("b64", s))

    for i in range(0, len(items), 3):
        g = items[i : i + 3]
        bv = [_byte_bv(x) for x in g] + [z3.BitVecVal(0, 8)] * (3 - len(g))
        w = z3.Concat(*bv)
        quad = [enc(z3.Extract(23 - 6 * k, 18 - 6 * k, w)) for k in range(4)]
        for k in range(len(g) + 1, 4):
            quad[k] = 61
        out.extend(quad)
    if newline:
        out.append(10)
    return mkbytes(out)


def a2b_base64(data, *, strict_mode=False):
    "binascii.a2b_base64, following the C implementation of CPython 3.12."
    import binascii

    if str_like(data):
        for c in chars_of(data):
            if not SymStr._test(c, ASCII):
                raise ValueError("string argument should contain only ASCII characters")
        data = data.encode("ascii")
    items = byte_items(data)
    n = len(items)
    PAD, ALPHA = frozenset({61}), frozenset(map(ord, B64))

    def is_(x, codes):
        if type(x) is int:
            return x in codes
        dom = x.dom if x.dom is not None else frozenset(range(256))
        hit = dom & codes
        if not hit:
            return False
        if len(hit) == len(dom):
            return True
        r = decide(bv_in(x.bv, hit))
        x.dom = hit if r else dom - hit
        if x.origin is not None and x.origin[0] == "ch":
            x.origin[1].dom = x.origin[1].dom & x.dom
        return r

    def val(x):
        if type(x) is int:
            return z3.BitVecVal(B64.index(chr(x)), 6)
        if x.origin is not None and x.origin[0] == "b64":
            return x.origin[1]
        b = x.bv
        r = z3.If(z3.And(z3.UGE(b, 65), z3.ULE(b, 90)), b - 65, z3.If(z3.And(z3.UGE(b, 97), z3.ULE(b, 122)), b - 71, z3.If(z3.And(z3.UGE(b, 48), z3.ULE(b, 57)), b + 4, z3.If(b == 43, z3.BitVecVal(62, 8), z3.BitVecVal(63, 8)))))
        return z3.Extract(5, 0, r)

    if strict_mode and n > 0 and is_(items[0], PAD):
        raise binascii.Error("Leading padding not allowed")
    quad, sext, pads, padding_started = 0, [], 0, False
    out = []
    done = False
    i = 0
    while i < n:
        x = items[i]
        if is_(x, PAD):
            padding_started = True
            if quad >= 2:
                pads += 1
                if quad + pads >= 4:
                    if strict_mode and i + 1 < n:
                        raise binascii.Error("Excess data after padding")
                    done = True
                    break
            i += 1
            continue
        if not is_(x, ALPHA):
            if strict_mode:
                raise binascii.Error("Only base64 data is allowed")
            i += 1
            continue
        if strict_mode and padding_started:
            raise binascii.Error("Discontinuous padding not allowed")
        pads = 0
        sext.append(val(x))
        if quad == 1:
            out.append(_join6(sext[-2], sext[-1], 0))
        elif quad == 2:
            out.append(_join6(sext[-2], sext[-1], 1))
        elif quad == 3:
            out.append(_join6(sext[-2], sext[-1], 2))
        quad = (quad + 1) % 4
        i += 1
    if not done and quad != 0:
        if quad == 1:
            raise binascii.Error("Invalid base64-encoded string: number of data characters cannot be 1 more than a multiple of 4")
        raise binascii.Error("Incorrect padding")
    return mkbytes(out)


def _join6(a, b, k):
    "The byte made of the low bits of one 6-bit group and the high bits of the next."
    if k == 0:
        w = z3.Concat(a, z3.Extract(5, 4, b))
    elif k == 1:
        w = z3.Concat(z3.Extract(3, 0, a), z3.Extract(5, 2, b))
    else:
        w = z3.Concat(z3.Extract(1, 0, a), b)
    w = z3.simplify(w)
    return w.as_long() if z3.is_bv_value(w) else SByte(w)


def bv_in(b, codes):
    ts = []
    for lo, hi in ranges_of(codes):
        ts.append(b == lo if lo == hi else z3.And(z3.UGE(b, lo), z3.ULE(b, hi)))
    return zor(ts)


sys.setrecursionlimit(20000)
