"C30: JSON text stands for exactly the value that is written."

import datetime
import enum
from dataclasses import dataclass, field
from typing import Optional, Union

from strong_typing.serialization import json_dump, json_dump_string, json_to_object, object_to_json

from . import kit
from .api import Ob

FLOATS = [0.0, -0.0, 1.0, 0.1, -2.5, 1e22, 1.5e300, 5e-324, 123456789.125, -1e-7]
HEX = "0123456789abcdef"


class Reader:
    "Reads a JSON text as defined by RFC 8259 without any white space."

    def __init__(self, ctx, text):
        self.ctx, self.text, self.at = ctx, text, 0

    def fail(self, what):
        self.ctx.fail(f"the text is not valid: {what}")

    def more(self):
        return self.at < len(self.text)

    def peek(self):
        if not self.more():
            self.fail("ends early")
        return self.text[self.at]

    def take(self, c):
        if self.peek() != c:
            self.fail(f"{c} expected")
        self.at += 1

    def word(self, w, v):
        for c in w:
            self.take(c)
        return v

    def value(self):
        c = self.peek()
        if c == '"':
            return self.string()
        if c == "{":
            return self.object()
        if c == "[":
            return self.array()
        if c == "t":
            return self.word("true", True)
        if c == "f":
            return self.word("false", False)
        if c == "n":
            return self.word("null", None)
        return self.number()

    def array(self):
        out = []
        self.take("[")
        if self.peek() == "]":
            self.at += 1
            return out
        while True:
            out.append(self.value())
            if self.peek() == "]":
                self.at += 1
                return out
            self.take(",")

    def object(self):
        "Names and values of members, in order."
        out = []
        self.take("{")
        if self.peek() == "}":
            self.at += 1
            return Members(out)
        while True:
            k = self.string()
            self.take(":")
            out.append((k, self.value()))
            if self.peek() == "}":
                self.at += 1
                return Members(out)
            self.take(",")

    def string(self):
        out = ""
        self.take('"')
        while True:
            c = self.peek()
            self.at += 1
            if c == '"':
                return out
            if c == "\\":
                e = self.peek()
                self.at += 1
                if e == "u":
                    n = 0
                    for _ in range(4):
                        n = 16 * n + self.hex()
                    out = out + chr(n)
                elif e == "b":
                    out = out + "\b"
                elif e == "f":
                    out = out + "\f"
                elif e == "n":
                    out = out + "\n"
                elif e == "r":
                    out = out + "\r"
                elif e == "t":
                    out = out + "\t"
                elif e == '"' or e == "\\" or e == "/":
                    out = out + e
                else:
                    self.fail("escape sequence")
                self.ctx.check(self.escaped(out), "a character is escaped for no reason")
            else:
                self.ctx.check(ord(c) >= 32, "control character")
                out = out + c

    def escaped(self, s):
        c = s[len(s) - 1]
        return ord(c) < 32 or c == '"' or c == "\\"

    def hex(self):
        c = self.peek()
        self.at += 1
        for i in range(16):
            if c == HEX[i]:
                return i
        for i in range(10, 16):
            if c == HEX[i].upper():
                return i
        self.fail("hexadecimal digit")

    def digits(self):
        "At least one digit, as a number."
        n = self.digit()
        while self.more() and self.is_digit():
            n = 10 * n + self.digit()
        return n

    def is_digit(self):
        c = ord(self.text[self.at])
        return 48 <= c and c <= 57

    def digit(self):
        c = self.peek()
        if not self.is_digit():
            self.fail("digit expected")
        self.at += 1
        return ord(c) - 48

    def number(self):
        start, sign = self.at, 1
        if self.peek() == "-":
            sign = -1
            self.at += 1
        first = self.at
        n = self.digits()
        if self.at > first + 1:
            self.ctx.check(self.text[first] != "0", "leading zero")
        whole = True
        if self.more() and self.text[self.at] == ".":
            whole = False
            self.at += 1
            self.digits()
        if self.more() and (self.text[self.at] == "e" or self.text[self.at] == "E"):
            whole = False
            self.at += 1
            if self.peek() == "+" or self.peek() == "-":
                self.at += 1
            self.digits()
        return sign * n if whole else float(self.text[start : self.at])


class Members:
    "The members of an object."

    def __init__(self, items):
        self.items = items


def same(ctx, got, v):
    "Whether a value that has been read is the one that has been written, of the same kind in each place."
    if isinstance(v, dict):
        return isinstance(got, Members) and len(got.items) == len(v) and ctx.all_of([ctx.all_of([k == m, same(ctx, x, w)]) for (m, x), (k, w) in zip(got.items, v.items())])
    if isinstance(v, list):
        return isinstance(got, list) and len(got) == len(v) and ctx.all_of([same(ctx, x, w) for x, w in zip(got, v)])
    if v is None or isinstance(v, bool):
        return got is v if not isinstance(got, bool) or v is None else got == v
    if isinstance(v, str):
        return isinstance(got, str) and got == v
    if isinstance(v, float):
        return type(got) is float and got == v and str(got) == str(v)
    return type(got) is int and got == v


class File:
    def __init__(self, ctx):
        self.text, self.ctx, self.ended = "", ctx, False

    def write(self, s):
        self.ctx.check(isinstance(s, str), "something other than text is written")
        self.text = self.text + s
        return len(s)

    def flush(self):
        pass


def verify(ctx, v, to_file):
    snap = ctx.snapshot(v)
    if to_file:
        f = File(ctx)
        ctx.check(json_dump(v, f) is None, "result")
        ctx.check(len(f.text) > 0 and f.text[len(f.text) - 1] == "\n", "the file does not end in a line break")
        text = f.text[: len(f.text) - 1]
    else:
        text = json_dump_string(v)
        ctx.check(isinstance(text, str), "result is not a text")
    r = Reader(ctx, text)
    got = r.value()
    ctx.check(not r.more(), "something follows the value")
    ctx.check(same(ctx, got, v), "the text stands for another value")
    ctx.check(ctx.unchanged(v, snap), "the value is modified")
    ctx.label("done")


def build(ctx, name, depth, width, kinds, length, alphabet, keys=True):
    kind = ctx.choice(name, kinds if depth else [k for k in kinds if k not in ("list", "dict")]) if len(kinds) > 1 else kinds[0]
    if kind == "null":
        return None
    if kind == "bool":
        return ctx.bool(name + ".b")
    if kind == "int":
        return ctx.int(name + ".i", -1000, 1000)
    if kind == "any int":
        return ctx.int(name + ".i", -(10**44), 10**44)
    if kind == "float":
        return ctx.choice(name + ".f", FLOATS)
    if kind == "text":
        return ctx.text(name + ".t", length, alphabet=alphabet)
    if kind == "list":
        return [build(ctx, f"{name}.{i}", depth - 1, width, kinds, length, alphabet, keys) for i in range(ctx.size(name + ".n", width))]
    out = {}
    for i in range(ctx.size(name + ".n", width)):
        k = ctx.text(f"{name}.k{i}", 2 if keys is True else keys, alphabet=alphabet)
        for m in out:
            ctx.assume(m != k)
        out[k] = build(ctx, f"{name}.{i}", depth - 1, width, kinds, length, alphabet, keys)
    return out


def values(ctx, depth, width, kinds, length, alphabet, to_file, keys=True):
    verify(ctx, build(ctx, "v", depth, width, kinds, length, alphabet, keys), to_file)


ORDERS = {"falling": "lkjihgfedcba", "rising": "abcdefghijkl", "mixed": "bAd0 _C9z~é1"}


def long(ctx, order, to_file):
    "Objects and lists of a dozen values."
    keys = list(ORDERS[order])[: ctx.choice("n", [12, 11, 10, 9, 8, 5])]
    values = [ctx.int("first", -9, 9), ctx.bool("flag"), ctx.choice("short", [None, "", [], {}]), *range(len(keys))][: len(keys)]
    where = ctx.choice("where", ["object", "in-list", "in-object", "list"])
    v = dict(zip(keys, values))
    verify(ctx, v if where == "object" else [v, 1] if where == "in-list" else {"z": v, "a": v} if where == "in-object" else [values, *values], to_file)


# from an object to text and back


class Color(enum.Enum):
    RED = "re\"d"
    TAB = "\t\u2028é"


@dataclass
class Inner:
    text: str
    color: Color = Color.RED


@dataclass
class Outer:
    number: int
    inner: Optional[Inner] = None
    when: Optional[datetime.date] = None
    raw: Optional[bytes] = None
    items: list[Union[bool, str]] = field(default_factory=list)
    more: dict[str, Inner] = field(default_factory=dict)


def plain(v):
    return {k: plain(x) for k, x in v.items} if isinstance(v, Members) else [plain(x) for x in v] if isinstance(v, list) else v


def objects(ctx, length):
    "An object is the same after it has been written to text and read back."
    x = Outer(ctx.int("number", -50, 50))
    part = ctx.choice("part", ["inner", "when", "raw", "items", "more", "none"])
    if part == "inner":
        x.inner = Inner(ctx.text("text", length), ctx.choice("color", list(Color)))
    elif part == "when":
        x.when = datetime.date(2024, 2, ctx.int("day", 1, 29))
    elif part == "raw":
        x.raw = ctx.bytes("raw", 1)
    elif part == "items":
        x.items = [ctx.bool("flag"), ctx.text("text", length)]
    elif part == "more":
        x.more = {ctx.text("key", length): Inner("\\", Color.TAB)}
    r = Reader(ctx, json_dump_string(object_to_json(x)))
    v = plain(r.value())
    ctx.check(not r.more(), "something follows the value")
    ctx.check_same(json_to_object(Outer, v), x, "the object differs")
    ctx.label(part)


TRICKY = '"\\/\b\f\n\r\t\x00\x1f\x7f aué\u2028\U0001f600'


def obligations():
    out = []
    D = ["done"]
    for to_file in (False, True):
        n = "file" if to_file else "text"
        for k in ("null", "bool", "any int", "float"):
            out.append(Ob(f"{n}:{k}", values, 0, 0, [k], 0, None, to_file, expect=D))
        out.append(Ob(f"{n}:one-character", values, 0, 0, ["text"], 1, None, to_file, expect=D))
        out.append(Ob(f"{n}:tricky", values, 0, 0, ["text"], 2, TRICKY, to_file, cost=3, expect=D))
        out.append(Ob(f"{n}:escapes", values, 0, 0, ["text"], 4, '\\"u0', to_file, cost=3, expect=D))
        out.append(Ob(f"{n}:keys", values, 1, 1, ["dict", "null"], 1, None, to_file, 1, cost=3, expect=D))
        out.append(Ob(f"{n}:two-keys", values, 1, 2, ["dict", "null"], 1, '\\"\n1é', to_file, 1, cost=3, expect=D))
        out.append(Ob(f"{n}:kinds", values, 2, 2, ["null", "list", "dict"], 0, "ba", to_file, 1, cost=5, expect=D))
        out.append(Ob(f"{n}:scalars", values, 1, 2, ["null", "bool", "int", "float", "text", "list"], 1, '\\"é', to_file, cost=5, expect=D))
        for order in ORDERS:
            out.append(Ob(f"{n}:long-{order}", long, order, to_file, expect=D))
        out.append(Ob(f"{n}:deep", values, 3, 1, ["list", "dict", "text"], 1, '"]', to_file, 1, cost=4, expect=D))
        out.append(Ob(f"{n}:any-two", values, 0, 0, ["text"], 2, None, to_file, tier="thorough", paths=20000, seconds=100, cost=20, expect=D))
        out.append(Ob(f"{n}:any-keys", values, 1, 2, ["dict", "text"], 1, TRICKY, to_file, 1, tier="thorough", paths=20000, seconds=100, cost=20, expect=D))
        out.append(Ob(f"{n}:wide", values, 1, 3, ["null", "bool", "int", "text", "list"], 1, '\\"\n', to_file, 1, tier="thorough", paths=20000, seconds=100, cost=20, expect=D))
    out.append(Ob("objects", objects, 1, cost=5, expect=["inner", "when", "raw", "items", "more", "none"]))
    out.append(Ob("objects-2", objects, 2, tier="thorough", paths=20000, seconds=100, cost=20, expect=["inner", "when", "raw", "items", "more", "none"]))
    return out
