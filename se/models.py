"""
The dispatcher the instrumented code calls for every call, subscript, identity / membership test and format operation,
with models of the built-in functions and methods on symbolic arguments.

Unmodelled native code never sees a symbolic argument: the arguments are first fixed to concrete values, and the path
is recorded as not covering the others.
"""

import base64
import binascii
import builtins
import enum
import functools
import inspect
import io
import itertools
import json
import operator
import re
import string
import sys
import types
import typing

import z3

from . import core, jsontext
from .sany import (
    ALL_KINDS,
    BOOL,
    DICT,
    FLOAT,
    INT,
    KIND_TYPE,
    LIST,
    NULL,
    STRING,
    JsonSpec,
    KeysView,
    SAny,
    SDict,
    LazySet,
    SFrozen,
    SSet,
    as_set,
    force,
    has_symbolic_hash,
    hash_kind_check,
    keys_equal,
)
from .strs import (
    Ch,
    Fmt,
    Num,
    Opq,
    SByte,
    byte_of_int,
    codes_where,
    SymBytes,
    SymStr,
    a2b_base64,
    b2a_base64,
    bytes_like,
    chars_of,
    from_chars,
    mkbytes,
    mkstr,
    parse_int,
    piece_of,
    str_like,
)
from .values import (
    HASH_RAISES,
    Sym,
    SymbolicHash,
    SymBool,
    SymFloat,
    SymInt,
    concretize,
    concretize_float,
    cur,
    decide,
    float_like,
    float_term,
    fp_value,
    int_like,
    int_term,
    mkbool,
    mkint,
    sym_not,
    to_float,
    truth_term,
    zand,
    zbool,
    znot,
    zor,
)

SYM_TYPES = (SymInt, SymBool, SymFloat, SymStr, SymBytes, SAny)
SYM_SET = frozenset(SYM_TYPES)
PLAIN = frozenset((str, int, float, bool, type(None), bytes, complex, type))


# ------------------------------------------------------------------------------------------- detection, concretization


def has_sym(x, depth=4):
    "True if a value is symbolic or contains symbolic values."
    tx = type(x)
    if tx in PLAIN:
        return False
    if tx in SYM_SET:
        return True
    if depth == 0:
        return False
    if tx is SDict:
        if x.a is not None:
            return True
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in dict.items(x))
    if tx is LazySet and x.pend is not None:
        return True
    if tx is SSet or tx is SFrozen or tx is LazySet:
        if x.a is not None:
            return True
        return any(has_sym(v, depth - 1) for v in x)
    if tx in (list, tuple, set, frozenset):
        return any(has_sym(v, depth - 1) for v in x)
    if tx is dict:
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    if issubclass(tx, (type, types.ModuleType, types.FunctionType, enum.Enum)) or tx.__module__ == "typing":
        return False
    if issubclass(tx, tuple):
        return any(has_sym(v, depth - 1) for v in tuple.__iter__(x))
    if tx in (types.MethodType, types.BuiltinMethodType):
        return False
    d = getattr(x, "__dict__", None)
    if type(d) is dict and any(has_sym(v, depth - 1) for v in d.values()):
        return True
    for c in tx.__mro__:
        sl = c.__dict__.get("__slots__")
        if sl:
            for n in (sl,) if isinstance(sl, str) else sl:
                if n in ("__weakref__", "__dict__"):
                    continue
                if n.startswith("__") and not n.endswith("__"):
                    n = f"_{c.__name__.lstrip('_')}{n}"
                try:
                    if has_sym(getattr(x, n, None), depth - 1):
                        return True
                except Exception:
                    pass
    return False


def any_sym(args, kw=None, depth=2):
    for a in args:
        if has_sym(a, depth):
            return True
    if kw:
        for a in kw.values():
            if has_sym(a, depth):
                return True
    return False


def concrete(x):
    "Fixes every symbolic part of a value on this path (lossy: other values are not explored on it)."
    ex = cur()
    tx = type(x)
    if tx in PLAIN:
        return x
    if tx is SymBool:
        return decide(x.t)
    if tx is SymInt:
        m = ex.get_model()
        v = m.eval(x.t, model_completion=True).as_long()
        if not (x.lo is not None and x.lo == x.hi):
            ex.note_concretize(True)
            ex.assume(x.t == v)
        return v
    if tx is SymFloat:
        return concretize_float(x)
    if tx is SymStr:
        out = []
        for c in x.chars():
            if type(c) is str:
                out.append(c)
            else:
                v = ex.get_model().eval(c.t, model_completion=True).as_long()
                if len(c.dom) > 1:
                    ex.note_concretize(True)
                    ex.assume(c.t == v)
                    c.dom = frozenset({v})
                out.append(chr(v))
        return "".join(out)
    if tx is SymBytes:
        out = []
        for b in x.b:
            if type(b) is int:
                out.append(b)
            else:
                v = ex.get_model().eval(b.bv, model_completion=True).as_long()
                ex.note_concretize(True)
                ex.assume(b.bv == v)
                out.append(v)
        return bytes(out)
    if tx is SAny:
        return concrete(x.force())
    if tx is SDict:
        return {concrete(k): concrete(v) for k, v in x.items()}
    if tx is SSet or tx is LazySet:
        return {concrete(v) for v in x}
    if tx is SFrozen:
        return frozenset(concrete(v) for v in x)
    if tx is KeysView:
        return [concrete(v) for v in x]
    if tx is list:
        return [concrete(v) for v in x]
    if tx is tuple:
        return tuple(concrete(v) for v in x)
    if tx is dict:
        return {concrete(k): concrete(v) for k, v in x.items()}
    return x


def native_text(x, conv):
    "Text of a symbolic value for native code that formats it."
    f = sys._getframe(2)
    for _ in range(6):
        if f is None:
            break
        if f.f_code.co_name == "_process_class" and f.f_code.co_filename.endswith("/dataclasses.py"):
            return "..."  # the documentation that a data class gets if it has none
        f = f.f_back
    c = concrete(x)
    return repr(c) if conv == "r" else str(c)


# ------------------------------------------------------------------------------------------------------------ equality


def eq_term(a, b):
    "Equality of two values as a term or a bool."
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SAny:
        return a.eq_term(b)
    if tb is SAny:
        return b.eq_term(a)
    if ta in PLAIN and tb in PLAIN:
        return a == b
    if ta is SymStr:
        return a.eq_term(b) if str_like(b) else False
    if tb is SymStr:
        return b.eq_term(a) if str_like(a) else False
    if ta is SymBytes:
        return a.eq_term(b) if bytes_like(b) else False
    if tb is SymBytes:
        return b.eq_term(a) if bytes_like(a) else False
    if (ta is tuple and tb is tuple) or (ta is list and tb is list):
        if len(a) != len(b):
            return False
        ts = []
        for x, y in zip(a, b):
            t = eq_term(x, y)
            if t is False:
                return False
            ts.append(t)
        return zand(ts)
    if isinstance_native(a, dict) and isinstance_native(b, dict):
        return (a if ta is SDict else SDict(a)).eq_term(b)
    if isinstance_native(a, (set, frozenset)) and isinstance_native(b, (set, frozenset)):
        return as_set(a).eq_term(b)
    return truth_term(a == b)


def isinstance_native(x, c):
    return issubclass(type(x), c)


# ------------------------------------------------------------------------------------------------------ formatting


def expand_fmt(p):
    "The text (str or SymStr) of a lazily formatted object."
    v, conv, spec = p.v, p.conv, p.spec
    if conv == "r":
        v = text_repr(v)
    elif conv == "s":
        v = text_str(v)
    elif conv == "a":
        v = ascii(concrete(v))
    return text_format(v, spec)


def text_format(v, spec):
    v = force(v)
    if not spec:
        return text_str(v)
    if type(spec) is SymStr:
        spec = concrete(spec)
    tv = type(v)
    if tv in (SymInt, SymBool):
        m = re.fullmatch(r"(0?)(\d*)([dxX]?)", spec)
        if m and type(v) is SymInt or (m and m.group(3)):
            w = int(m.group(2) or 0)
            v = v if tv is SymInt else SymInt(int_term(v), 0, 1)
            return mkstr([Num(v, 16 if m.group(3) in ("x", "X") else 10, w, m.group(3) == "X", space=bool(w and not m.group(1)))])
        return format(concrete(v), spec)
    if tv is SymStr:
        m = re.fullmatch(r"([<>^]?)(\d*)s?", spec)
        if m:
            w = int(m.group(2) or 0)
            return {"": v.ljust, "<": v.ljust, ">": v.rjust, "^": v.center}[m.group(1)](w) if w else v
        return format(concrete(v), spec)
    if tv in SYM_SET:
        return format(concrete(v), spec)
    f = tv.__format__
    if isinstance(f, types.FunctionType):
        return se_call(f, v, spec)
    return format(v, spec)


def text_str(v):
    v = force(v)
    tv = type(v)
    if tv is str:
        return v
    if tv is SymStr:
        return v
    if tv is SymInt:
        return mkstr([Num(v)])
    if tv is SymBool:
        return "True" if decide(v.t) else "False"
    if tv is SymFloat:
        return repr(concretize_float(v))
    if tv in PLAIN:
        return str(v)
    if issubclass(tv, BaseException) and isinstance(tv.__str__, types.WrapperDescriptorType):
        if len(v.args) == 0:
            return ""
        if len(v.args) == 1:
            return text_repr(v.args[0]) if issubclass(tv, KeyError) else text_str(v.args[0])
        return text_repr(tuple(v.args))
    f = tv.__str__
    if isinstance(f, types.FunctionType):
        return se_call(f, v)
    if f is object.__str__:
        return text_repr(v)
    return text_repr(v) if tv in (SDict, SSet, LazySet, SFrozen, list, tuple, dict, set, SymBytes) else str(v)


ESCAPES = {9: "\\t", 10: "\\n", 13: "\\r"}


def symstr_repr(s):
    "The representation of a text, character by character."
    cs = s.chars()
    if len(cs) > 6:
        return repr(concrete(s))
    test = SymStr._test
    single, double = frozenset({39}), frozenset({34})
    quote = 39
    if any(test(c, single) for c in cs) and not any(test(c, double) for c in cs):
        quote = 34
    printable = codes_where("isprintable", str.isprintable)
    escaped = frozenset({quote, 92})
    out = [chr(quote)]
    for c in cs:
        if type(c) is str:
            code = ord(c)
            out.append("\\" + c if code in escaped else repr(c)[1:-1] if c not in "'\"" else c)
        elif test(c, printable - escaped):
            out.append(c)
        elif test(c, escaped):
            out += ["\\", c]
        else:
            for code, text in ESCAPES.items():
                if test(c, frozenset({code})):
                    out.append(text)
                    break
            else:
                for hi, letter, width in ((0xFF, "x", 2), (0xFFFF, "u", 4), (0x10FFFF, "U", 8)):
                    if test(c, frozenset(k for k in c.dom if k <= hi)):
                        out += ["\\" + letter, Num(mkint(c.t, min(c.dom), max(c.dom)), 16, width)]
                        break
    out.append(chr(quote))
    return mkstr(out)


def text_repr(v):
    v = force(v)
    tv = type(v)
    if tv is SymInt:
        return mkstr([Num(v)])
    if tv is SymStr:
        return symstr_repr(v)
    if tv in SYM_SET:
        return text_str(v) if tv in (SymBool, SymFloat) else repr(concrete(v))
    if tv in PLAIN:
        return repr(v)
    if tv in (SDict, SSet, LazySet, SFrozen, list, tuple, dict, set, frozenset) and has_sym(v):
        if issubclass(tv, dict):
            out = ["{"]
            for i, (k, x) in enumerate(v.items()):
                out += ([", "] if i else []) + [Fmt(k, "r", ""), ": ", Fmt(x, "r", "")]
            return mkstr(out + ["}"])
        o, c = ("[", "]") if tv is list else ("(", ",)" if len(v) == 1 else ")") if tv is tuple else ("{", "}")
        out = [o]
        for i, x in enumerate(v):
            out += ([", "] if i else []) + [Fmt(x, "r", "")]
        return mkstr(out + [c])
    if tv in (SDict, SSet, LazySet, SFrozen):
        return repr(concrete(v))
    f = tv.__repr__
    if isinstance(f, types.FunctionType):
        return se_call(f, v)
    return repr(v)


def piece_for(v, conv, spec):
    "A piece of a formatted text, lazily."
    tv = type(v)
    if conv in (None, "s") and not spec:
        if tv is str:
            return [v]
        if tv is SymStr:
            return v.p
        if tv is SymInt:
            return [Num(v)]
    if tv in PLAIN:
        if conv == "r":
            v = repr(v)
        elif conv == "s":
            v = str(v)
        elif conv == "a":
            v = ascii(v)
        if type(spec) is SymStr:
            spec = concrete(spec)
        return [format(v, spec)]
    if tv is SymInt and conv is None:
        return piece_of(text_format(v, spec))
    if issubclass(tv, (type, enum.Enum)) and not has_sym(v):
        if conv == "r":
            v = repr(v)
        elif conv == "s":
            v = str(v)
        return piece_of(text_format(v, spec))
    return [Fmt(v, conv, spec)]


def se_fstr(*parts):
    "f-string: parts are literals or (value, conversion, specification)."
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            out.extend(piece_for(*p))
    return mkstr(out)


def percent_format(fmt, args):
    if type(fmt) is SymStr:
        fmt = concrete(fmt)
    args = force(args)
    mapping = None
    if isinstance_native(args, dict):
        mapping = args
    seq = list(args) if type(args) is tuple else [args]
    out, i = [], 0
    for m in re.finditer(r"%(?:\((\w+)\))?([#0\- +]*)(\*|\d*)(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])|([^%]+|%)", fmt, re.S):
        if m.group(6) is not None:
            out.append(m.group(6))
            continue
        conv = m.group(5)
        if conv == "%":
            out.append("%")
            continue
        flags, width, prec = m.group(2), m.group(3), m.group(4)
        if width == "*":
            width = str(concretize(seq[i]) if type(seq[i]) is SymInt else seq[i])
            i += 1
        if m.group(1) is not None:
            v = mapping[m.group(1)]
        else:
            if i >= len(seq):
                raise TypeError("not enough arguments for format string")
            v = seq[i]
            i += 1
        v = force(v)
        w = int(width or 0)
        if conv in "sra" and not w and prec is None and not flags:
            out.extend(piece_for(v, None if conv == "s" else conv, "") if conv != "s" else [Fmt(v, "s", "")] if type(v) not in (str, SymStr, SymInt) else piece_for(v, None, ""))
        elif conv in "diuxX" and type(v) in (SymInt, SymBool) and not set(flags) - {"0"} and prec is None:
            v = SymInt(int_term(v), *((0, 1) if type(v) is SymBool else (v.lo, v.hi)))
            out.append(Num(v, 16 if conv in "xX" else 10, w, conv == "X", space=bool(w and "0" not in flags)))
        else:
            if conv in "diuxX" and not int_like(v) and not float_like(v):
                raise TypeError(f"%{conv} format: a real number is required, not {type(v).__name__}")
            out.append(("%" + flags + str(width or "") + ("." + prec if prec else "") + conv) % (concrete(v),))
    if mapping is None and i < len(seq):
        raise TypeError("not all arguments converted during string formatting")
    return mkstr(out)


def str_format(fmt, args, kw):
    if type(fmt) is SymStr:
        fmt = concrete(fmt)
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        m = re.match(r"([^.\[]*)(.*)$", field, re.S)
        first, rest = m.group(1), m.group(2)
        if first == "":
            v = args[auto]
            auto += 1
        elif first.isdigit():
            v = args[int(first)]
        else:
            v = kw[first]
        for attr, idx in re.findall(r"\.(\w+)|\[([^\]]+)\]", rest):
            v = getattr(v, attr) if attr else getitem(v, int(idx) if idx.isdigit() else idx)
        if spec and "{" in spec:
            spec = concrete(str_format(spec, args[auto:] if "{}" in spec else args, kw))
        out.extend(piece_for(v, conv, spec))
    return mkstr(out)


# ---------------------------------------------------------------------------------------------------- built-in types


def m_isinstance(x, c):
    if type(x) is SAny:
        if type(c) is types.UnionType:
            c = typing.get_args(c)
        hit = set()
        for k in x.kinds:
            t = KIND_TYPE[k]
            if _kind_isinstance(t, c):
                hit.add(k)
        return x.is_kind(frozenset(hit))
    return isinstance(x, c)


_SAMPLE = {NULL: None, BOOL: True, INT: 1, FLOAT: 0.5, STRING: "", LIST: [], DICT: {}}
_SAMPLE_BY_TYPE = {type(v): v for v in _SAMPLE.values()}


def _kind_isinstance(t, c):
    return isinstance(_SAMPLE_BY_TYPE[t], c)


def class_of(x):
    tx = type(x)
    if tx is SAny:
        return KIND_TYPE[x.kind()]
    if tx in SYM_SET:
        return x.__class__
    if tx is SDict:
        return dict
    if tx is SSet or tx is LazySet:
        return set
    if tx is SFrozen:
        return frozenset
    return tx


def m_type(*args, **kw):
    if len(args) == 1 and not kw:
        return class_of(args[0])
    return type(*args, **kw)


def m_len(x):
    x = force(x)
    if type(x) is SymStr:
        return x.length()
    return len(x)


def m_str(*args, **kw):
    if not args:
        return ""
    x = args[0]
    if len(args) > 1 or kw:
        if bytes_like(x):
            return x.decode(*args[1:], **kw)
        return str(*args, **kw)
    tx = type(x)
    if tx is SAny and x.kinds <= {STRING}:
        return x.force()
    if tx in (SymStr, str):
        return x
    if tx in PLAIN:
        return str(x)
    if tx is SymInt:
        return mkstr([Num(x)])
    if issubclass(tx, (type, enum.Enum)):
        return text_str(x)
    if tx in SYM_SET or has_sym(x):
        return mkstr([Fmt(x, "s", "")])
    return text_str(x)


def m_print(*args, sep=" ", end="\n", file=None, flush=False):
    if file is None:
        return None  # nothing is observed
    for i, a in enumerate(args):
        if i:
            se_call(file.write, " " if sep is None else sep)
        se_call(file.write, m_str(a))
    se_call(file.write, "\n" if end is None else end)


def m_plain_repr(cls):
    def fn(x):
        x = force(x) if type(x) is SAny else x
        return m_repr(x) if has_sym(x) else cls.__repr__(x)

    return fn


def m_repr(x):
    if type(x) in PLAIN:
        return repr(x)
    if type(x) is SymInt:
        return mkstr([Num(x)])
    if has_sym(x):
        return mkstr([Fmt(x, "r", "")])
    return text_repr(x)


def m_int(*args, **kw):
    if not args:
        return int(**kw)
    x = force(args[0])
    base = args[1] if len(args) > 1 else kw.get("base", 10)
    tx = type(x)
    if tx is SymInt:
        return x
    if tx is SymBool:
        return SymInt(int_term(x), 0, 1)
    if tx is SymStr:
        return parse_int(x, base)
    if tx is SymFloat:
        if decide(z3.fpIsNaN(x.t)):
            raise ValueError("cannot convert float NaN to integer")
        if decide(z3.fpIsInf(x.t)):
            raise OverflowError("cannot convert float infinity to integer")
        return int(concretize_float(x))
    if tx is SymBytes:
        return parse_int(x.decode("ascii"), base)
    if tx not in PLAIN and not issubclass(tx, int):
        f = getattr(tx, "__int__", None) or getattr(tx, "__index__", None)
        if isinstance(f, types.FunctionType):
            return se_call(f, x)
    if x is None or issubclass(tx, (list, dict)):
        raise TypeError(f"int() argument must be a string, a bytes-like object or a real number, not '{class_of(x).__name__}'")
    return int(x, *args[1:], **kw)


def m_float(*args):
    if not args:
        return 0.0
    x = force(args[0])
    if type(x) in (SymInt, SymBool, SymFloat):
        return to_float(x)
    if type(x) is SymStr:
        return float(concrete(x))
    return float(x)


def m_bool(*args):
    if not args:
        return False
    x = args[0]
    if type(x) is SAny:
        if x.kinds <= {BOOL}:
            return x.force()
        x = x.force()
    if type(x) is SymBool:
        return x
    if type(x) is SymInt:
        return mkbool(x.t != 0)
    if type(x) is SymFloat:
        return mkbool(z3.Not(z3.fpIsZero(x.t)))
    return bool(x)


def m_bytes(*args, **kw):
    if args:
        x = force(args[0])
        if type(x) is SymBytes:
            return x
        if type(x) is SymStr:
            if len(args) < 2 and not kw:
                raise TypeError("string argument without an encoding")
            return x.encode(*args[1:], **kw)
        if type(x) not in PLAIN and not isinstance_native(x, (str, int)):
            items = list(x)
            if any(type(i) in SYM_SET for i in items):
                for i in items:
                    if type(i) is SymInt and not (i >= 0 and i < 256):
                        raise ValueError("bytes must be in range(0, 256)")
                return mkbytes([byte_of_int(i) if type(i) is SymInt else i for i in items])
            return bytes(items)
        if type(x) is SymInt:
            return bytes(concretize(x))
    return bytes(*args, **kw)


def m_dict(*args, **kw):
    return SDict(*args, **kw)


def m_set(*args):
    return SSet(*args)


def m_frozenset(*args):
    if args and type(args[0]) is frozenset:
        return args[0]
    s = SSet(*args)
    return SFrozen(s) if s.a is not None else frozenset(s)


def m_list(*args):
    return list(force(args[0])) if args else []


def m_tuple(*args):
    return tuple(force(args[0])) if args else ()


def m_map(f, *its):
    if f is str or f is int or f is float or f is repr or f is bool or f is bytes or True:
        its = [iter(force(i)) for i in its]
        return (se_call(f, *xs) for xs in zip(*its))


def m_filter(f, it):
    return (x for x in force(it) if (x if f is None else se_call(f, x)))


def m_ord(c):
    c = force(c)
    if type(c) is SymStr:
        cs = c.chars()
        if len(cs) != 1:
            raise TypeError(f"ord() expected a character, but string of length {len(cs)} found")
        ch = cs[0]
        return ord(ch) if type(ch) is str else mkint(ch.t, min(ch.dom), max(ch.dom))
    if type(c) is SymBytes:
        return c[0]
    return ord(c)


def m_chr(n):
    n = force(n)
    if type(n) is SymInt:
        from .strs import DOMAIN, in_set

        if decide(z3.Or(n.t < 0, n.t > 0x10FFFF)):
            raise ValueError("chr() arg not in range(0x110000)")
        if n.lo is not None and n.hi is not None and n.hi - n.lo < 2000:
            dom = frozenset(range(n.lo, n.hi + 1))
        else:
            cur().assume(in_set(n.t, DOMAIN))
            dom = DOMAIN
        return SymStr([Ch(n.t, dom)])
    return chr(n)


def m_format(v, spec=""):
    return mkstr(piece_for(v, None, spec))


def m_hash(x):
    return hash(x)


def m_sorted(it, *, key=None, reverse=False):
    return sorted(force(it), key=key, reverse=reverse)


def m_getattr(o, name, *d):
    if type(name) in (SymStr, SAny):
        name = concrete(name)
    return getattr(o, name, *d)


def m_hasattr(o, name):
    if type(name) in (SymStr, SAny):
        name = concrete(name)
    return hasattr(o, name)


def m_setattr(o, name, v):
    if type(name) in (SymStr, SAny):
        name = concrete(name)
    return setattr(o, name, v)


def m_sum(it, start=0):
    for x in force(it):
        start = start + x
    return start


def m_minmax(f, name):
    def g(*args, **kw):
        if len(args) == 1:
            args = (force(args[0]),)
        return f(*args, **kw)

    return g


def m_index(x):
    x = force(x)
    if type(x) in (SymInt, int):
        return x
    if type(x) is SymBool:
        return SymInt(int_term(x), 0, 1)
    if type(x) in SYM_SET:
        raise TypeError(f"'{class_of(x).__name__}' object cannot be interpreted as an integer")
    return operator.index(x)


def m_reduce(f, it, *init):
    it = iter(force(it))
    acc = init[0] if init else next(it)
    for x in it:
        acc = se_call(f, acc, x)
    return acc


def m_int_from_bytes(b, byteorder="big", *, signed=False):
    if type(b) is not SymBytes:
        b = list(force(b))
        if not any(type(i) in SYM_SET for i in b):
            return int.from_bytes(b, byteorder, signed=signed)
        for i in b:
            if type(i) is SymInt and not (i >= 0 and i < 256):
                raise ValueError("bytes must be in range(0, 256)")
    items = list(b)
    if byteorder == "little":
        items.reverse()
    n, lo, hi = 0, 0, 0
    for i in items:
        n = n * 256 + i
    if signed:
        if decide(int_term(n) >= 256 ** len(items) // 2):
            n = n - 256 ** len(items)
    return SymInt(n.t, 0, 256 ** len(items) - 1) if type(n) is SymInt and not signed else n


def m_dict_fromkeys(it, value=None):
    d = SDict()
    for k in force(it):
        d[k] = value
    return d


def m_round(x, n=None):
    x = force(x)
    if type(x) is SymInt and n is None:
        return x
    if type(x) is SymFloat and x.iv is not None and n is None:
        return x.iv
    if type(x) in SYM_SET:
        x = concrete(x)
    return round(x) if n is None else round(x, n)


def m_iter(*a):
    return iter(*(force(x) for x in a))


def m_zip(*its, **kw):
    return zip(*(force(i) for i in its), **kw)


def m_enumerate(it, start=0):
    return enumerate(force(it), start)


def m_reversed(x):
    x = force(x)
    return reversed(list(x)) if isinstance_native(x, (SDict, SymStr)) else reversed(x)


def m_callable(x):
    return False if type(x) in SYM_SET else callable(x)


def m_abs(x):
    return abs(force(x))


def m_divmod(a, b):
    return divmod(force(a), force(b))


def m_range(*a):
    return range(*(concretize(force(x)) if type(force(x)) is SymInt else force(x) for x in a))


def _truth_any(it):
    for x in force(it):
        if x:
            return True
    return False


def _truth_all(it):
    for x in force(it):
        if not x:
            return False
    return True


# ------------------------------------------------------------------------------------------------ regular expressions


def rx_call(pattern, method, args, kw):
    from . import rx

    return rx.call(pattern, method, args, kw)


def _re_fn(name):
    def f(pattern, *args, **kw):
        flags = kw.pop("flags", 0)
        args = list(args)
        npos = {"sub": 3, "subn": 3, "split": 2}.get(name, 1)
        if len(args) > npos:
            flags = args.pop()
        if type(pattern) in (SymStr, SAny):
            pattern = concrete(pattern)
        p = re.compile(pattern, flags)
        if any_sym(args, kw):
            return rx_call(p, name, args, kw)
        return getattr(p, name)(*args, **kw)

    return f


def m_re_compile(pattern, flags=0):
    return re.compile(concrete(pattern) if type(pattern) in SYM_SET else pattern, flags)


def m_re_escape(s):
    return re.escape(concrete(s) if type(s) in SYM_SET else s)


# ------------------------------------------------------------------------------------------------ lru_cache and friends


def lru_call(f, args, kw):
    "functools.lru_cache on arguments that are or contain symbolic values: the cache is searched entry by entry."
    ex = cur()
    typed = f.cache_parameters()["typed"]
    cache = ex.memo.setdefault(("lru", id(f)), [])
    key = (tuple(args), tuple(sorted(kw.items())))
    has_symbolic_hash(key)
    for k, v in cache:
        if len(k[0]) != len(key[0]) or len(k[1]) != len(key[1]):
            continue
        if typed and [class_of(x) for x in k[0]] != [class_of(x) for x in key[0]]:
            continue
        if not typed and len(key[0]) == 1 and not kw and class_of(k[0][0]) is not class_of(key[0][0]):
            # a single argument of type int or str is its own key, anything else is wrapped; equal keys still collide
            pass
        t = eq_term(k, key)
        if t if isinstance(t, bool) else decide(t):
            return v
    v = se_call(f.__wrapped__, *args, **kw)
    cache.append((key, v))
    return v


# ------------------------------------------------------------------------------------------------------- calls

HANDLERS = {
    isinstance: m_isinstance,
    type: m_type,
    len: m_len,
    str: m_str,
    repr: m_repr,
    int: m_int,
    float: m_float,
    bool: m_bool,
    bytes: m_bytes,
    dict: m_dict,
    set: m_set,
    frozenset: m_frozenset,
    list: m_list,
    tuple: m_tuple,
    map: m_map,
    filter: m_filter,
    ord: m_ord,
    chr: m_chr,
    format: m_format,
    hash: m_hash,
    sorted: m_sorted,
    getattr: m_getattr,
    hasattr: m_hasattr,
    setattr: m_setattr,
    sum: m_sum,
    min: m_minmax(min, "min"),
    max: m_minmax(max, "max"),
    operator.index: m_index,
    functools.reduce: m_reduce,
    round: m_round,
    iter: m_iter,
    zip: m_zip,
    enumerate: m_enumerate,
    reversed: m_reversed,
    callable: m_callable,
    abs: m_abs,
    divmod: m_divmod,
    range: m_range,
    any: _truth_any,
    all: _truth_all,
    re.match: _re_fn("match"),
    re.search: _re_fn("search"),
    re.fullmatch: _re_fn("fullmatch"),
    re.sub: _re_fn("sub"),
    re.subn: _re_fn("subn"),
    re.split: _re_fn("split"),
    re.findall: _re_fn("findall"),
    re.finditer: _re_fn("finditer"),
    re.compile: m_re_compile,
    re.escape: m_re_escape,
    binascii.b2a_base64: b2a_base64,
    binascii.a2b_base64: a2b_base64,
    dict.fromkeys: m_dict_fromkeys,
    int.from_bytes: m_int_from_bytes,
    int.__repr__: m_plain_repr(int),
    float.__repr__: m_plain_repr(float),
    json.dumps: jsontext.dumps,
    json.dump: jsontext.dump,
    print: m_print,
}
# functions of the standard library, called as methods
METHODS = {json.JSONEncoder.encode: jsontext.encode, json.JSONEncoder.iterencode: jsontext.iterencode}
# handlers that are only needed when an argument is symbolic
ONLY_SYM = {
    getattr, hasattr, setattr, sorted, sum, min, max, operator.index, functools.reduce, round, iter, zip, enumerate,
    reversed, callable, abs, divmod, range, any, all, ord, chr, format, hash, int, float, bytes,
    binascii.b2a_base64, binascii.a2b_base64,
}  # fmt: skip
ONLY_SYM_SHALLOW = frozenset(ONLY_SYM)

# native callables that may be given symbolic arguments as they are: they only store them or call back into protocol
# methods of the proxies
PASS_FUNCS = set()
for _f in (
    id, next, issubclass, delattr, typing.cast, object.__new__, object.__setattr__, object.__getattribute__,
    itertools.chain, itertools.islice, itertools.zip_longest, itertools.repeat, super, slice, property, staticmethod,
    classmethod, enumerate, types.SimpleNamespace, print, dir, vars, object, BaseException.__init__,
):  # fmt: skip
    try:
        PASS_FUNCS.add(_f)
    except TypeError:
        pass

LIST_PASS = {"append", "extend", "insert", "pop", "remove", "index", "count", "reverse", "clear", "copy", "sort", "__iter__", "__len__", "__getitem__", "__eq__", "__contains__"}
DICT_KEYED = {"get", "pop", "setdefault", "__contains__", "__getitem__", "__setitem__", "update"}
DENY_AUTO = {
    "typing", "enum", "dataclasses", "functools", "abc", "types", "importlib", "jsonschema", "z3", "_weakrefset",
    "collections", "contextlib", "copy", "keyword", "weakref", "threading", "inspect", "se", "warnings", "importlib._bootstrap",
}  # fmt: skip
ALLOW_AUTO = {("inspect", "cleandoc"), ("inspect", "indentsize")}

AUTO = {}


def is_instrumented(fn):
    return "_se_call" in fn.__globals__


def auto_instrument(fn):
    "An instrumented copy of a pure Python function of the standard library (or the function itself)."
    r = AUTO.get(fn)
    if r is None:
        from . import instrument

        r = AUTO[fn] = instrument.function_copy(fn)
    return r


class _NoResult:
    pass


def str_method(s, name, args, kw):
    if name == "join":
        items = list(force(args[0]))
        if all(type(x) is str for x in items):
            return s.join(items)
        return SymStr([s]).join([force(x) for x in items])
    if name == "format":
        return str_format(s, args, kw)
    if name == "format_map":
        return str_format(s, (), args[0])
    if name == "maketrans":
        return str.maketrans(*(concrete(a) for a in args))
    args = [force(a) for a in args]
    if name in ("__eq__", "__ne__"):
        t = eq_term(s, args[0])
        r = t if isinstance(t, bool) else mkbool(t)
        return sym_not(r) if name == "__ne__" else r
    if name == "__format__":
        return format(s, concrete(args[0]))
    if any(a is None or isinstance_native(a, (list, dict)) for a in args) and name not in ("split", "rsplit", "strip", "lstrip", "rstrip"):
        return getattr(s, name)(*[None if a is None else concrete(a) for a in args], **kw)
    sargs = [tuple(force(y) for y in a) if type(a) is tuple else concretize(a) if type(a) is SymInt else a for a in args]
    return getattr(SymStr([s]) if s else SymStr([""]), name)(*sargs, **kw)


def bytes_method(b, name, args, kw):
    args = [force(a) for a in args]
    if name == "join":
        out = []
        for i, x in enumerate(args[0]):
            if i:
                out.extend(b)
            out.extend(x.b if type(x) is SymBytes else x)
        return mkbytes(out)
    return getattr(SymBytes(list(b)), name)(*args, **kw)


def set_method(s, name, args, kw):
    return getattr(as_set(s), name)(*args, **kw)


def keyed_by_symbolic(key):
    if any_sym((key,), {}, 2):
        return True
    try:
        return has_symbolic_hash(key)
    except TypeError:
        return False


def native_dict_method(d, name, args, kw):
    if name == "update":
        for a in args:
            a = force(a)
            items = [(k, a[k]) for k in a.keys()] if hasattr(a, "keys") else list(a)
            for k, v in items:
                d[concrete(k)] = v
        for k, v in kw.items():
            d[k] = v
        return None
    key = args[0]
    tmp = SDict()
    if type(key) is SAny:
        hash_kind_check(key)
    if not has_symbolic_hash(key):
        return getattr(d, name)(*args, **kw)
    dict.update(tmp, d)
    e = tmp._find(key)
    if name == "get":
        return e[1] if e is not None else (args[1] if len(args) > 1 else kw.get("default"))
    if name == "__contains__":
        return e is not None
    if name == "__getitem__":
        if e is None:
            raise KeyError(key)
        return e[1]
    if e is not None:
        return getattr(d, name)(e[0], *args[1:])
    return getattr(d, name)(concrete(key), *args[1:])


def enum_call(cls, args):
    "Look-up of an enumeration member by a symbolic value."
    x = args[0]
    if type(x) is SAny and cls._missing_.__func__ is enum.Enum._missing_.__func__:
        pass
    for m in cls.__members__.values():
        if m.name not in cls._member_names_:
            continue
        t = eq_term(x, m._value_)
        if t if isinstance(t, bool) else decide(t):
            return m
    if cls._missing_.__func__ is not enum.Enum._missing_.__func__ or issubclass(cls, enum.Flag):
        return cls(concrete(x))
    raise ValueError(mkstr([Fmt(x, "r", ""), f" is not a valid {cls.__qualname__}"]))


def enum_functional(f, args, kw):
    "Creates an enumeration whose members have symbolic names or values. Members with symbolic names get other names."
    names = force(args[1])
    items = list(names.items()) if isinstance_native(names, dict) else [tuple(force(x)) for x in force(names)]
    seen = SDict()
    members = {}
    for name, value in items:
        name = force(name)
        if type(name) is SymStr:
            if name in seen:
                raise TypeError("name already defined")
            seen[name] = True
            if name == "" or name == "mro":
                raise ValueError("invalid enum member name(s)")
            n = len(name)
            if name.startswith("__") and name.endswith("__") and bool(n > 4) and name[2] != "_" and name[-3] != "_":
                continue
            if name.startswith("_") and name.endswith("_") and bool(n > 2) and name[1] != "_" and name[-2] != "_":
                raise ValueError("_sunder_ names are reserved")
            private = f"_{args[0]}__"
            if bool(n > len(private)) and name.startswith(private) and (name[-1] != "_" or name[-2] != "_"):
                continue
            members[f"symbolic{len(members)}"] = value
        else:
            seen[name] = True
            members[name] = value
    HASH_RAISES[0] += 1
    try:
        return f(args[0], members, *args[2:], **kw)
    finally:
        HASH_RAISES[0] -= 1


BUILTIN_METHOD = types.BuiltinMethodType
DEFINED_METHOD = type(re.compile("").match)  # a built-in method that knows its defining class
METHOD_WRAPPER = type("".__str__)
METHOD_DESCRIPTOR = type(str.join)
WRAPPER_DESCRIPTOR = type(object.__init__)
LRU = type(functools.lru_cache()(lambda: None))
IMMUT = (int, float, bool, str, bytes, tuple)


def se_call(_se_f, /, *args, **kw):
    f = _se_f
    tf = type(f)
    if tf is types.FunctionType:
        g = f.__globals__
        if "_se_call" in g:
            return f(*args, **kw)
        h = HANDLERS.get(f)
        if h is not None:
            return h(*args, **kw)
        if f in PASS_FUNCS:
            return f(*args, **kw)
        return call_python(f, args, kw)
    if tf is types.MethodType:
        fn = f.__func__
        if type(fn) is types.FunctionType:
            if "_se_call" in fn.__globals__:
                return f(*args, **kw)
            h = METHODS.get(fn)
            if h is not None:
                return h(f.__self__, *args, **kw)
            return call_python(fn, (f.__self__, *args), kw, f)
        return f(*args, **kw)
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        if f in ONLY_SYM_SHALLOW and not any_sym(args, kw, 1):
            return f(*args, **kw)
        return h(*args, **kw)
    if tf is BUILTIN_METHOD or tf is METHOD_WRAPPER or tf is DEFINED_METHOD:
        return call_builtin(f, args, kw)
    if tf is METHOD_DESCRIPTOR or tf is WRAPPER_DESCRIPTOR:
        return call_descriptor(f, args, kw)
    if tf is LRU:
        if any_sym(args, kw, 3):
            return lru_call(f, args, kw)
        return f(*args, **kw)
    if tf is functools.partial:
        return se_call(f.func, *f.args, *args, **{**f.keywords, **kw})
    if isinstance_native(f, enum.EnumMeta):
        if len(args) == 1 and not kw and f is not enum.Enum and f.__members__ and has_sym(args[0]):
            return enum_call(f, args)
        if len(args) >= 2 and not f.__members__ and type(args[0]) is str and has_sym(args[1]):
            return enum_functional(f, args, kw)
        return f(*args, **kw)
    if isinstance_native(f, type):
        return call_class(f, args, kw)
    return f(*args, **kw)


def call_python(f, args, kw, bound=None):
    "A function of an uninstrumented module."
    mod = f.__globals__.get("__name__", "")
    call = bound if bound is not None else f
    cargs = args[1:] if bound is not None else args
    root = mod.split(".")[0]
    if (root in DENY_AUTO or mod in DENY_AUTO) and (root, f.__name__) not in ALLOW_AUTO:
        return call(*cargs, **kw)
    if not any_sym(args, kw):
        return call(*cargs, **kw)
    g = auto_instrument(f)
    if g is f:
        return call(*cargs, **kw)
    return g(*args, **kw)


def call_class(f, args, kw):
    if f in PASS_FUNCS or "_se_call" in getattr(sys.modules.get(f.__module__), "__dict__", ()):
        return f(*args, **kw)
    if issubclass(f, BaseException):
        return f(*args, **kw)
    if f in (itertools.chain, itertools.islice, itertools.repeat, itertools.zip_longest):
        return f(*(force(a) for a in args), **kw)
    if f is io.StringIO:
        return SymStringIO(*args)
    if f.__module__ in ("builtins", "datetime", "decimal", "collections") and any_sym(args, kw, 3):
        if f in (object, super, slice, property):
            return f(*args, **kw)
        return f(*[concrete(a) for a in args], **{k: concrete(v) for k, v in kw.items()})
    return f(*args, **kw)


def call_builtin(f, args, kw):
    self_ = getattr(f, "__self__", None)
    name = f.__name__
    ts = type(self_)
    if ts is str:
        if name == "join" or any_sym(args, kw, 2):
            return str_method(self_, name, args, kw)
        return f(*args, **kw)
    if self_ is None or ts is types.ModuleType:
        if f in PASS_FUNCS or not any_sym(args, kw, 3):
            return f(*args, **kw)
        return f(*[concrete(a) for a in args], **{k: concrete(v) for k, v in kw.items()})
    if ts is list:
        if name == "extend":
            return f(force(args[0]))
        if name in ("__getitem__", "pop") and args and type(args[0]) is SymInt:
            return f(concretize(args[0]))
        return f(*args, **kw)
    if ts is dict:
        if name in DICT_KEYED and (any_sym(args, kw, 2) if name == "update" else args and type(args[0]) is not str and keyed_by_symbolic(args[0])):
            return native_dict_method(self_, name, args, kw)
        return f(*args, **kw)
    if ts in (set, frozenset):
        if any_sym(args, kw, 2):
            if name in ("add", "update", "discard", "remove"):
                return f(*[concrete(a) for a in args])
            return set_method(self_, name, args, kw)
        return f(*args, **kw)
    if ts is bytes or ts is bytearray:
        if any_sym(args, kw, 2):
            return bytes_method(self_, name, args, kw)
        return f(*args, **kw)
    if ts is re.Pattern:
        if any_sym(args, kw, 1):
            return rx_call(self_, name, args, kw)
        return f(*args, **kw)
    if ts in (int, float, bool):
        if any_sym(args, kw, 1):
            if name.startswith("__"):
                r = binop_native(name, self_, *[force(a) for a in args])
                return r
            return f(*[concrete(a) for a in args], **kw)
        return f(*args, **kw)
    if ts is type or isinstance_native(self_, type):
        # class methods and __new__ of built-in classes
        if not any_sym(args, kw, 3):
            return f(*args, **kw)
        if name == "__new__":
            return builtin_new(f, args, kw)
        if self_ is int and name == "from_bytes":
            return m_int_from_bytes(*args, **kw)
        if self_ is dict and name == "fromkeys":
            return m_dict_fromkeys(*args, **kw)
        if issubclass(self_, tuple) and name in ("__new__", "_make"):
            return f(*args, **kw)
        if self_.__module__ in ("builtins", "datetime", "decimal"):
            return f(*[concrete(a) for a in args], **{k: concrete(v) for k, v in kw.items()})
        return f(*args, **kw)
    return f(*args, **kw)


def builtin_new(f, args, kw):
    cls = args[0]
    if issubclass(cls, (str, int, float, bytes)) and cls not in (str, int, float, bytes, bool):
        return f(cls, *[concrete(a) for a in args[1:]], **kw)
    if cls in (str, int, float, bytes, bool, dict, set, list, tuple, frozenset):
        return se_call(cls, *args[1:], **kw)
    return f(*args, **kw)


def call_descriptor(f, args, kw):
    "An unbound method of a built-in type, such as str.upper or object.__setattr__."
    if not args:
        return f(*args, **kw)
    owner = f.__objclass__
    x = force(args[0]) if type(args[0]) is SAny else args[0]
    if owner is str and type(x) in (str, SymStr):
        return se_call(getattr(x, f.__name__), *args[1:], **kw)
    if owner is dict and type(x) is SDict:
        return getattr(x, f.__name__)(*args[1:], **kw)
    if owner is set and type(x) in (SSet, LazySet):
        return getattr(x, f.__name__)(*args[1:], **kw)
    if owner in (int, float, bool) and type(x) in (SymInt, SymFloat, SymBool):
        return getattr(x, f.__name__)(*args[1:], **kw)
    if owner is bytes and type(x) is SymBytes:
        return getattr(x, f.__name__)(*args[1:], **kw)
    return f(x, *args[1:], **kw)


class SymStringIO:
    "Stand-in for io.StringIO used as an accumulator."

    def __init__(self, initial=""):
        self.p = list(piece_of(initial)) if initial else []
        self.closed = False

    def write(self, s):
        s = force(s)
        if not str_like(s):
            raise TypeError(f"string argument expected, got {class_of(s).__name__!r}")
        if self.closed:
            raise ValueError("I/O operation on closed file")
        self.p.extend(piece_of(s))
        return m_len(s)

    def getvalue(self):
        return mkstr(self.p)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def writelines(self, lines):
        for s in lines:
            self.write(s)


# --------------------------------------------------------------------------------------------------- other operations


def binop_native(name, v, *a):
    if not a:
        return getattr(operator, name)(v) if hasattr(operator, name) else getattr(v, name)()
    if name.startswith("__r") and name not in ("__rshift__",):
        base = "__" + name[3:]
        if base == "__divmod__":
            return divmod(a[0], v)
        if base == "__mod__":
            return se_mod(a[0], v)
        return getattr(operator, base)(a[0], v)
    if name == "__divmod__":
        return divmod(v, *a)
    if name == "__mod__":
        return se_mod(v, *a)
    return getattr(operator, name)(v, *a)


def se_is(a, b):
    ta, tb = type(a), type(b)
    if ta is SAny and tb is SAny:
        return a is b
    if tb is SAny:
        a, b, ta, tb = b, a, tb, ta
    if ta is SAny:
        if b is None:
            return a.is_kind(frozenset({NULL}))
        if b is True or b is False:
            return a.is_kind(frozenset({BOOL})) and bool(a.force() == b)
        if tb in SYM_SET:
            return a.done and a.val is b
        if a.done:
            return a.val is b
        return False
    if ta is SymBool and (b is True or b is False):
        return SymBool(a.t) if b else mkbool(z3.Not(a.t))
    if tb is SymBool and (a is True or a is False):
        return SymBool(b.t) if a else mkbool(z3.Not(b.t))
    return a is b


def se_is_not(a, b):
    return sym_not(se_is(a, b))


def se_in(x, c):
    c = force(c)
    tc = type(c)
    if tc is SymStr:
        x = force(x)
        if not str_like(x):
            raise TypeError(f"'in <string>' requires string as left operand, not {class_of(x).__name__}")
        if type(x) is str and c.opaque() is None or type(x) is str and len(x) == 0:
            pass
        t = c.contains_term(x) if x is not c else True
        return t if isinstance(t, bool) else mkbool(t)
    tx = type(x)
    if tx in PLAIN and tc not in (list, tuple, SDict, SSet, LazySet, SFrozen):
        return x in c
    if tc is str:
        x = force(x)
        if type(x) is SymStr:
            cs = x.opaque()
            if cs is not None:
                t = zor([x.eq_term(s) for s in {c[i:j] for i in range(len(c) + 1) for j in range(i, len(c) + 1)}])
                return t if isinstance(t, bool) else mkbool(t)
            return SymStr([c]).find(x) >= 0 if c else not x
        return x in c
    if tc in (list, tuple):
        t = zor([eq_term(y, x) for y in c])
        return t if isinstance(t, bool) else mkbool(t)
    if tc in (SDict, SSet, LazySet, SFrozen):
        if tx is SAny:
            hash_kind_check(x)
        t = c.contains_term(x)
        return t if isinstance(t, bool) else mkbool(t)
    if tc in (dict, set, frozenset, types.MappingProxyType) or isinstance_native(c, (dict, set, frozenset)):
        if tx is SAny:
            hash_kind_check(x)
        if not has_symbolic_hash(x):
            return x in c
        t = zor([eq_term(y, x) for y in list(c)])
        return t if isinstance(t, bool) else mkbool(t)
    if tc is type({}.keys()) and has_symbolic_hash(x):
        t = zor([eq_term(y, x) for y in list(c)])
        return t if isinstance(t, bool) else mkbool(t)
    return x in c


def se_not_in(x, c):
    return sym_not(se_in(x, c))


def se_not(x):
    tx = type(x)
    if tx is bool:
        return not x
    if tx is SymBool:
        return mkbool(z3.Not(x.t))
    return not x


def se_truth(x):
    "The interpreter insists on a real bool from __bool__."
    return bool(x)


def getitem(o, k):
    o = force(o)
    to = type(o)
    k = k.force() if type(k) is SAny and to is not dict and to is not SDict else k
    tk = type(k)
    if tk in PLAIN and to is not SymStr:
        return o[k]
    if to in (list, tuple):
        if tk in (SymInt, SymBool):
            return seq_getitem(o, k)
        if tk is slice:
            return o[slice(*(concretize(v) if type(v) is SymInt else v for v in (k.start, k.stop, k.step)))]
        return o[k]
    if to is SDict or to is SymStr or to is SymBytes:
        return o[k]
    if to is str and (tk in SYM_SET or tk is slice):
        if tk is slice:
            return o[slice(*(concretize(v) if type(v) is SymInt else v for v in (k.start, k.stop, k.step)))]
        return o[concretize(k)] if tk is SymInt else o[k]
    if isinstance_native(o, (dict, types.MappingProxyType)):
        return native_dict_method(o, "__getitem__", (k,), {}) if has_symbolic_hash(k) else o[k]
    if has_sym(k):
        HASH_RAISES[0] += 1
        try:
            return o[k]
        finally:
            HASH_RAISES[0] -= 1
    return o[k]


def seq_getitem(o, k):
    "Indexing by a symbolic integer: a table of integers becomes one term, anything else is decided."
    n = len(o)
    k = SymInt(int_term(k), 0, 1) if type(k) is SymBool else k
    if not decide(z3.And(k.t >= -n, k.t < n)):
        raise IndexError("list index out of range")
    if all(type(x) in (int, SymInt) for x in o) and n > 0:
        r = int_term(o[-1])
        neg = not (k.lo is not None and k.lo >= 0)
        for i in range(n - 2, -1, -1):
            c = k.t == i
            if neg:
                c = z3.Or(c, k.t == i - n)
            r = z3.If(c, int_term(o[i]), r)
        los = [x if type(x) is int else x.lo for x in o]
        his = [x if type(x) is int else x.hi for x in o]
        return mkint(r, None if None in los else min(los), None if None in his else max(his))
    return o[concretize(k)]


def se_setitem(o, k, v):
    if type(o) is dict and type(k) not in PLAIN and has_symbolic_hash(k):
        tmp = SDict()
        dict.update(tmp, o)
        e = tmp._find(k)
        o[e[0] if e is not None else concrete(k)] = v
        return
    if type(k) is SymInt and isinstance_native(o, list):
        k = concretize(k)
    o[k] = v


def se_delitem(o, k):
    if type(o) is dict and type(k) not in PLAIN and has_symbolic_hash(k):
        tmp = SDict()
        dict.update(tmp, o)
        e = tmp._find(k)
        if e is None:
            raise KeyError(k)
        k = e[0]
    del o[k]


def se_mod(a, b):
    a = force(a)
    if type(a) is str:
        items = b if type(b) is tuple else (b,)
        if type(b) is not dict and all(type(x) in PLAIN for x in items):
            return a % b
        return percent_format(a, b)
    if type(a) is SymStr:
        return percent_format(a, b)
    return a % force(b)


def se_dict(*entries):
    "Dictionary display: pairs, or (None-marked) mappings to merge."
    d = SDict()
    for e in entries:
        if len(e) == 1:
            d.update(e[0])
        else:
            d[e[0]] = e[1]
    return d


def se_dictcomp(pairs):
    d = SDict()
    for k, v in pairs:
        d[k] = v
    return d


def se_set(items):
    return SSet(items)


def se_setop(op, a, b):
    if isinstance_native(a, (set, frozenset)) and isinstance_native(b, (set, frozenset)):
        if type(a) in (set, frozenset) and type(b) in (set, frozenset):
            if any(has_sym(x) for x in a) or any(has_sym(x) for x in b):
                a = SSet(a)
    return op(a, b)


def se_subject(x):
    return force(x)


class FrameView:
    "Stack frame of instrumented code as seen by frame-walking code (engine frames are left out)."

    def __init__(self, frame):
        self._frame = frame

    @property
    def f_back(self):
        f = self._frame.f_back
        while f is not None and f.f_globals.get("__name__", "").split(".")[0] == "se":
            f = f.f_back
        return None if f is None else FrameView(f)

    def __getattr__(self, name):
        return getattr(self._frame, name)


def se_currentframe(*a):
    f = sys._getframe(1)
    while f.f_globals.get("__name__", "").split(".")[0] == "se":
        f = f.f_back
    v = FrameView(f)
    if a:
        for _ in range(a[0]):
            v = v.f_back
    return v


def se_enter(name):
    ex = core.CUR
    if ex is not None:
        ex.functions.add(name)


HELPERS = {
    "_se_call": se_call,
    "_se_fstr": se_fstr,
    "_se_is": se_is,
    "_se_is_not": se_is_not,
    "_se_in": se_in,
    "_se_not_in": se_not_in,
    "_se_not": se_not,
    "_se_truth": se_truth,
    "_se_getitem": getitem,
    "_se_setitem": se_setitem,
    "_se_delitem": se_delitem,
    "_se_mod": se_mod,
    "_se_dict": se_dict,
    "_se_dictcomp": se_dictcomp,
    "_se_set": se_set,
    "_se_subject": se_subject,
    "_se_currentframe": se_currentframe,
    "_se_enter": se_enter,
}
