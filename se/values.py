"""
Symbolic scalars: booleans, integers, floating-point numbers.

Proxies report the class of the value they stand for, so that the code under test cannot tell them apart from real
values with isinstance; identity, membership and type tests go through the dispatcher in models.py.
"""

import sys

import z3

from . import core

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def cur():
    return core.CUR


def decide(t):
    return core.CUR.decide(t)


class Sym:
    "Base class of all symbolic proxies."

    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, *_):
        raise TypeError("symbolic values cannot be pickled")


def is_sym(x):
    return issubclass(type(x), Sym)


def zand(ts):
    ts = [t for t in ts if t is not True]
    if any(t is False for t in ts):
        return False
    if not ts:
        return True
    if len(ts) == 1:
        return ts[0]
    return z3.And(*ts)


def zor(ts):
    ts = [t for t in ts if t is not False]
    if any(t is True for t in ts):
        return True
    if not ts:
        return False
    if len(ts) == 1:
        return ts[0]
    return z3.Or(*ts)


def znot(t):
    if t is True:
        return False
    if t is False:
        return True
    return z3.Not(t)


def zbool(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def mkbool(t):
    "Wraps a truth value that may be a term."
    if t is True or t is False:
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def truth_term(x):
    "The truth value of an arbitrary object as a term or a Python bool."
    tx = type(x)
    if tx is bool:
        return x
    if tx is SymBool:
        return x.t
    if tx is SymInt:
        return x.t != 0
    return bool(x)


# ---------------------------------------------------------------------------------------------------------- integers


def int_term(x):
    "The Z3 integer term of an int-like value, or None."
    tx = type(x)
    if tx is SymInt:
        return x.t
    if tx is int:
        return z3.IntVal(x)
    if tx is bool:
        return z3.IntVal(1 if x else 0)
    if tx is SymBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if issubclass(tx, int):
        return z3.IntVal(int(x))
    return None


def int_bounds(x):
    tx = type(x)
    if tx is SymInt:
        return x.lo, x.hi
    if tx is SymBool:
        return 0, 1
    return int(x), int(x)


def mkint(t, lo=None, hi=None):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if lo is not None and hi is not None and not z3.is_add(t) and not z3.is_mul(t):
        note_bounds(t, lo, hi)
    return SymInt(t, lo, hi)


def note_bounds(t, lo, hi):
    "Remembers the range of a term that is neither a sum nor a product."
    ex = cur()
    if ex is not None:
        ex.memo.setdefault(("range", t.get_id()), (t, lo, hi))


def linear(t):
    """
    The term as a sum of multiples of terms of known range.

    :returns: Constant and a list of (coefficient, term, lowest, highest), or None.
    """
    ex = cur()
    if ex is None:
        return None
    const, out = 0, []
    for u in t.children() if z3.is_add(t) else [t]:
        if z3.is_int_value(u):
            const += u.as_long()
            continue
        c = 1
        if z3.is_mul(u):
            if u.num_args() != 2 or not z3.is_int_value(u.arg(0)):
                return None
            c, u = u.arg(0).as_long(), u.arg(1)
        r = ex.memo.get(("range", u.get_id()))
        if r is None:
            return None
        out.append((c, u, r[1], r[2]))
    return const, out


def split(a, b):
    """
    Quotient and remainder of a sum by a positive constant, where the summands that are not multiples of it are known to
    add up to less than it.
    """
    lf = linear(a.t)
    if lf is None:
        return None
    const, parts = lf
    q, r = [], []
    for p in parts:
        (q if p[0] % b == 0 else r).append(p)
    rc = const % b
    lo = rc + sum(min(c * l, c * h) for c, _, l, h in r)
    hi = rc + sum(max(c * l, c * h) for c, _, l, h in r)
    if lo < 0 or hi >= b:
        return None
    qc = (const - rc) // b
    qlo = qc + sum(min(c // b * l, c // b * h) for c, _, l, h in q)
    qhi = qc + sum(max(c // b * l, c // b * h) for c, _, l, h in q)
    qt = z3.IntVal(qc)
    for c, u, _, _ in q:
        qt = qt + (c // b) * u
    rt = z3.IntVal(rc)
    for c, u, _, _ in r:
        rt = rt + c * u
    return mkint(qt, qlo, qhi), mkint(rt, lo, hi)


def _badd(a, b):
    return None if a is None or b is None else a + b


def _bneg(a):
    return None if a is None else -a


def _cmp(op, a, b):
    "Compares two int-likes; uses interval information before building a term."
    alo, ahi = int_bounds(a)
    blo, bhi = int_bounds(b)
    if op == "<":
        if ahi is not None and blo is not None and ahi < blo:
            return True
        if alo is not None and bhi is not None and alo >= bhi:
            return False
        return mkbool(int_term(a) < int_term(b))
    if op == "<=":
        if ahi is not None and blo is not None and ahi <= blo:
            return True
        if alo is not None and bhi is not None and alo > bhi:
            return False
        return mkbool(int_term(a) <= int_term(b))
    if op == "==":
        if ahi is not None and blo is not None and ahi < blo:
            return False
        if alo is not None and bhi is not None and alo > bhi:
            return False
        return mkbool(int_term(a) == int_term(b))
    raise AssertionError(op)


def _floordiv(a, b):
    "Python floor division and modulo on int-likes; the divisor's sign is decided."
    if type(b) in (SymInt, SymBool):
        if decide(int_term(b) == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if decide(int_term(b) < 0):
            return _floordiv(-_as_int(a), -_as_int(b))[0], -_floordiv(-_as_int(a), -_as_int(b))[1]
        ta, tb = int_term(a), int_term(b)
        return mkint(ta / tb), mkint(ta % tb)
    b = int(b)
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if b < 0:
        q, r = _floordiv(-_as_int(a), -b)
        return q, -r
    if type(a) is SymInt and b > 1:
        r = split(a, b)
        if r is not None:
            return r
    lo, hi = int_bounds(a)
    ta = int_term(a)
    q = mkint(ta / b, None if lo is None else lo // b, None if hi is None else hi // b)
    if lo is not None and hi is not None and 0 <= lo and hi < b:
        return q, mkint(ta, lo, hi)
    r = mkint(ta % b, 0, b - 1)
    return q, r


def _as_int(x):
    if type(x) is SymBool:
        return SymInt(int_term(x), 0, 1)
    return x


def disjoint(a, b):
    "Bitwise or of numbers without common bits, one of which is a multiple of a power of two larger than the other."
    for x, y in ((a, b), (b, a)):
        lo, hi = int_bounds(y)
        xlo, _ = int_bounds(x)
        if None in (lo, hi, xlo) or lo < 0 or xlo < 0:
            return None
        n = 1 << hi.bit_length()
        if type(x) is not SymInt:
            if int(x) % n == 0:
                return a + b
            continue
        lf = linear(x.t)
        if lf is not None and lf[0] % n == 0 and all(c % n == 0 for c, _, _, _ in lf[1]):
            return a + b
    return None


def _cmp_float(op, x, f):
    "Comparison of an integer with a floating-point constant; exact, as in Python."
    import math

    if math.isnan(f):
        return False
    if math.isinf(f):
        return (f > 0) == (op in ("__lt__", "__le__"))
    if op == "__lt__":
        return x < math.ceil(f)
    if op == "__le__":
        return x <= math.floor(f)
    if op == "__gt__":
        return x > math.floor(f)
    return x >= math.ceil(f)


class SymInt(Sym):
    __slots__ = ("t", "lo", "hi")

    def __init__(self, t, lo=None, hi=None):
        self.t, self.lo, self.hi = t, lo, hi

    @property
    def __class__(self):
        return int

    def __bool__(self):
        if self.lo is not None and self.lo > 0:
            return True
        if self.hi is not None and self.hi < 0:
            return True
        return decide(self.t != 0)

    def __index__(self):
        return concretize(self)

    __int__ = __index__

    def __float__(self):
        return concretize_float(to_float(self))

    def __hash__(self):
        return sym_hash(self)

    def __repr__(self):
        from . import models

        return models.native_text(self, "r")

    def __str__(self):
        from . import models

        return models.native_text(self, "s")

    def __format__(self, spec):
        return format(concretize(self), spec)

    # comparisons
    def __eq__(self, o):
        if int_like(o):
            return _cmp("==", self, o)
        if type(o) is float:
            return self == int(o) if o.is_integer() else False
        if float_like(o):
            if decide(z3.Or(self.t >= 2**1024, self.t <= -(2**1024))):
                return False
            return to_float(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        if type(o) is float:
            return _cmp_float("__lt__", self, o)
        return _cmp("<", self, o) if int_like(o) else (to_float(self) < o if float_like(o) else NotImplemented)

    def __le__(self, o):
        if type(o) is float:
            return _cmp_float("__le__", self, o)
        return _cmp("<=", self, o) if int_like(o) else (to_float(self) <= o if float_like(o) else NotImplemented)

    def __gt__(self, o):
        if type(o) is float:
            return _cmp_float("__gt__", self, o)
        return _cmp("<", o, self) if int_like(o) else (to_float(self) > o if float_like(o) else NotImplemented)

    def __ge__(self, o):
        if type(o) is float:
            return _cmp_float("__ge__", self, o)
        return _cmp("<=", o, self) if int_like(o) else (to_float(self) >= o if float_like(o) else NotImplemented)

    # arithmetic
    def __add__(self, o):
        if int_like(o):
            lo, hi = int_bounds(o)
            return mkint(self.t + int_term(o), _badd(self.lo, lo), _badd(self.hi, hi))
        if type(o) is float and o == 0.0 and None not in (self.lo, self.hi) and -(2**53) <= self.lo and self.hi <= 2**53:
            return SymFloat(to_float(self).t, self)
        return to_float(self) + o if float_like(o) else NotImplemented

    __radd__ = __add__

    def __neg__(self):
        return mkint(-self.t, _bneg(self.hi), _bneg(self.lo))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        return -self if decide(self.t < 0) else self

    def __sub__(self, o):
        if int_like(o):
            lo, hi = int_bounds(o)
            return mkint(self.t - int_term(o), _badd(self.lo, _bneg(hi)), _badd(self.hi, _bneg(lo)))
        return to_float(self) - o if float_like(o) else NotImplemented

    def __rsub__(self, o):
        if int_like(o):
            return (-self) + o
        return o - to_float(self) if float_like(o) else NotImplemented

    def __mul__(self, o):
        if not int_like(o):
            if type(o) in (list, tuple, str, bytes):
                return o * concretize(self)
            return to_float(self) * o if float_like(o) else NotImplemented
        lo, hi = int_bounds(o)
        if None in (lo, hi, self.lo, self.hi):
            if lo is not None and hi is not None and lo == hi:
                k = lo
                a, b = (self.lo, self.hi) if k >= 0 else (self.hi, self.lo)
                return mkint(self.t * k, None if a is None else a * k, None if b is None else b * k)
            return mkint(self.t * int_term(o))
        c = [self.lo * lo, self.lo * hi, self.hi * lo, self.hi * hi]
        return mkint(self.t * int_term(o), min(c), max(c))

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return _floordiv(self, o)[0] if int_like(o) else NotImplemented

    def __rfloordiv__(self, o):
        return _floordiv(o, self)[0] if int_like(o) else NotImplemented

    def __mod__(self, o):
        return _floordiv(self, o)[1] if int_like(o) else NotImplemented

    def __rmod__(self, o):
        return _floordiv(o, self)[1] if int_like(o) else NotImplemented

    def __divmod__(self, o):
        return _floordiv(self, o) if int_like(o) else NotImplemented

    def __rdivmod__(self, o):
        return _floordiv(o, self) if int_like(o) else NotImplemented

    def __truediv__(self, o):
        if int_like(o) or float_like(o):
            return to_float(self) / to_float(o)
        return NotImplemented

    def __rtruediv__(self, o):
        if int_like(o) or float_like(o):
            return to_float(o) / to_float(self)
        return NotImplemented

    def __pow__(self, o, m=None):
        if m is None and type(o) is int and 0 <= o <= 3:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(concretize(self), concretize(o), m)

    def __rpow__(self, o, m=None):
        return pow(o, concretize(self), m)

    def __lshift__(self, o):
        return self * (2 ** concretize(o))

    def __rlshift__(self, o):
        return o << concretize(self)

    def __rshift__(self, o):
        return self // (2 ** concretize(o))

    def __rrshift__(self, o):
        return o >> concretize(self)

    def __and__(self, o):
        if type(o) in (int, bool):
            o = int(o)
            if o >= 0 and (o & (o + 1)) == 0:  # low bits
                return self % (o + 1)
            if o > 0:  # contiguous run of bits
                low = (o & -o).bit_length() - 1
                run = o >> low
                if (run & (run + 1)) == 0:
                    return ((self // (1 << low)) % (run + 1)) * (1 << low)
            if o < 0 and (~o & (~o + 1)) == 0:
                return self - (self % (~o + 1))
        return self._bits(o, lambda a, b: a & b, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is int and o == 0:
            return self
        r = disjoint(self, o)
        if r is not None:
            return r
        return self._bits(o, lambda a, b: a | b, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bits(o, lambda a, b: a ^ b, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def _bits(self, o, op, nat):
        if not int_like(o):
            return NotImplemented
        alo, ahi = self.lo, self.hi
        blo, bhi = int_bounds(o)
        if None not in (alo, ahi, blo, bhi) and alo >= 0 and blo >= 0:
            n = max(ahi.bit_length(), bhi.bit_length(), 1)
            if n <= 192:
                r = z3.BV2Int(op(z3.Int2BV(self.t, n), z3.Int2BV(int_term(o), n)))
                return mkint(r, 0, (1 << n) - 1)
        return nat(concretize(self), concretize(o))

    def bit_length(self):
        if decide(self.t < 0):
            return (-self).bit_length()
        n = 0
        while not decide(self.t < 2**n):
            n += 1
        return n

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from .strs import SymBytes

        length = concretize(length)
        if signed:
            return concretize(self).to_bytes(length, byteorder, signed=True)
        if decide(self.t < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if not decide(self.t < 256**length):
            raise OverflowError("int too big to convert")
        out = [(self // (256**i)) % 256 for i in range(length)]
        if byteorder == "big":
            out.reverse()
        return SymBytes([b if type(b) is int else SymInt(b.t, 0, 255) for b in out])

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def as_integer_ratio(self):
        return self, 1


class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return decide(self.t)

    def __index__(self):
        return int(decide(self.t))

    __int__ = __index__

    def __float__(self):
        return float(decide(self.t))

    def __hash__(self):
        if HASH_RAISES[0]:
            return sym_hash(self)
        return hash(decide(self.t))

    def __repr__(self):
        return repr(decide(self.t))

    __str__ = __repr__

    def __format__(self, spec):
        return format(decide(self.t), spec)

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.t == o.t)
        if type(o) is bool:
            return mkbool(self.t if o else z3.Not(self.t))
        return _as_int(self) == o

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __and__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(zand([self.t, truth_term(o)]))
        return _as_int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(zor([self.t, truth_term(o)]))
        return _as_int(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(z3.Xor(self.t, zbool(truth_term(o))))
        return _as_int(self) ^ o

    __rxor__ = __xor__


def _delegate(name):
    def f(self, *a):
        return getattr(_as_int(self), name)(*a)

    f.__name__ = name
    return f


for _n in (
    "lt le gt ge add radd sub rsub mul rmul floordiv rfloordiv mod rmod divmod rdivmod truediv rtruediv pow rpow "
    "neg pos abs invert lshift rlshift rshift rrshift"
).split():
    setattr(SymBool, f"__{_n}__", _delegate(f"__{_n}__"))


def int_like(x):
    tx = type(x)
    return tx is SymInt or tx is int or tx is bool or tx is SymBool or (issubclass(tx, int) and not issubclass(tx, Sym))


# ------------------------------------------------------------------------------------------------------------ floats

F64 = z3.Float64()
_I2F = z3.Function("int_to_float", z3.IntSort(), F64)
RNE = z3.RNE()


def float_like(x):
    tx = type(x)
    return tx is SymFloat or tx is float or (issubclass(tx, float) and not issubclass(tx, Sym))


def float_term(x):
    tx = type(x)
    if tx is SymFloat:
        return x.t
    if float_like(x):
        return z3.FPVal(float(x), F64)
    return to_float(x).t if type(to_float(x)) is SymFloat else z3.FPVal(to_float(x), F64)


def to_float(x):
    "Conversion of an int-like to floating point; uninterpreted except on constants and exactly representable ranges."
    if float_like(x):
        return x
    if type(x) in (int, bool):
        return float(x)
    if type(x) is SymBool:
        return SymFloat(z3.If(x.t, z3.FPVal(1.0, F64), z3.FPVal(0.0, F64)))
    ex = cur()
    key = ("i2f", x.t.get_id())
    r = ex.memo.get(key)
    if r is None:
        if decide(z3.Or(x.t >= 2**1023, x.t <= -(2**1023))):
            # outside of (or near the end of) the range of floating-point numbers
            if decide(z3.Or(x.t >= 2**1024, x.t <= -(2**1024))):
                raise OverflowError("int too large to convert to float")
        t = _I2F(x.t)
        ex.assume(z3.And(z3.Not(z3.fpIsNaN(t)), z3.Not(z3.fpIsInf(t)), z3.fpIsZero(t) == (x.t == 0)))
        ex.inexact.append((x.t, t))
        r = ex.memo[key] = (SymFloat(t), x.t)
    return r[0]


class SymFloat(Sym):
    __slots__ = ("t", "iv")

    def __init__(self, t, iv=None):
        self.t = t
        self.iv = iv  # the integer it is known to equal, if any

    @property
    def __class__(self):
        return float

    def __bool__(self):
        return decide(z3.Not(z3.fpIsZero(self.t)))

    def __float__(self):
        return concretize_float(self)

    def __int__(self):
        return int(concretize_float(self))

    def __hash__(self):
        return sym_hash(self)

    def __repr__(self):
        return repr(concretize_float(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(concretize_float(self), spec)

    def _bin(self, o, op):
        if int_like(o):
            o = to_float(o)
        if float_like(o):
            return op(self.t, float_term(o))
        return None

    def _cmp(self, o, op):
        "Comparison with an integer of any magnitude is exact."
        try:
            return self._bin(o, op)
        except OverflowError:
            big = z3.fpPlusInfinity(F64) if o > 0 else z3.fpMinusInfinity(F64)
            if decide(z3.fpIsInf(self.t)):
                big = z3.FPVal(0.0, F64)
            return op(self.t, big)

    def __eq__(self, o):
        r = self._cmp(o, z3.fpEQ)
        return NotImplemented if r is None else mkbool(r)

    def __ne__(self, o):
        r = self._cmp(o, z3.fpEQ)
        return NotImplemented if r is None else mkbool(z3.Not(r))

    def __lt__(self, o):
        r = self._cmp(o, z3.fpLT)
        return NotImplemented if r is None else mkbool(r)

    def __le__(self, o):
        r = self._cmp(o, z3.fpLEQ)
        return NotImplemented if r is None else mkbool(r)

    def __gt__(self, o):
        r = self._cmp(o, z3.fpGT)
        return NotImplemented if r is None else mkbool(r)

    def __ge__(self, o):
        r = self._cmp(o, z3.fpGEQ)
        return NotImplemented if r is None else mkbool(r)

    def _arith(self, o, op):
        r = self._bin(o, op)
        return NotImplemented if r is None else SymFloat(z3.simplify(r))

    def __add__(self, o):
        return self._arith(o, lambda a, b: z3.fpAdd(RNE, a, b))

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: z3.fpSub(RNE, a, b))

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: z3.fpSub(RNE, b, a))

    def __mul__(self, o):
        return self._arith(o, lambda a, b: z3.fpMul(RNE, a, b))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if decide(z3.fpIsZero(float_term(o))):
            raise ZeroDivisionError("float division by zero")
        return self._arith(o, lambda a, b: z3.fpDiv(RNE, a, b))

    def __rtruediv__(self, o):
        if decide(z3.fpIsZero(self.t)):
            raise ZeroDivisionError("float division by zero")
        return self._arith(o, lambda a, b: z3.fpDiv(RNE, b, a))

    def __neg__(self):
        return SymFloat(z3.fpNeg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(z3.fpAbs(self.t))

    def is_integer(self):
        if decide(z3.Or(z3.fpIsNaN(self.t), z3.fpIsInf(self.t))):
            return False
        return mkbool(z3.fpEQ(self.t, z3.fpRoundToIntegral(z3.RTZ(), self.t)))

    def __trunc__(self):
        if self.iv is not None:
            return self.iv
        return int(concretize_float(self))

    def __round__(self, n=None):
        return round(concretize_float(self), n)

    def __floor__(self):
        import math

        return math.floor(concretize_float(self))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(concretize_float(self), name)


def fp_value(v):
    "Python float of a Z3 floating-point numeral."
    import struct

    if z3.is_fp_value(v):
        if v.isNaN():
            return float("nan")
        if v.isInf():
            return float("-inf") if v.isNegative() else float("inf")
    bv = z3.simplify(z3.fpToIEEEBV(v))
    return struct.unpack(">d", bv.as_long().to_bytes(8, "big"))[0]


# ----------------------------------------------------------------------------------------------------- concretization


def sym_not(r):
    if type(r) is SymBool:
        return mkbool(z3.Not(r.t))
    return not r


def concretize(x):
    "Forks over the possible values of an integer term (bounded); each fork fixes the value on its path."
    if type(x) is not SymInt:
        return x.__index__()
    ex = cur()
    if x.lo is not None and x.lo == x.hi:
        return x.lo
    n = 0
    while True:
        m = ex.get_model()
        v = m.eval(x.t, model_completion=True)
        v = v.as_long()
        n += 1
        if n > ex.lim.force:
            raise core.PathAbort("cut: too many values where a concrete one is needed")
        ex.note_concretize()
        if ex.decide_value(x.t == v):
            return v


def concretize_float(x):
    if type(x) is not SymFloat:
        return float(x)
    ex = cur()
    m = ex.get_model()
    v = m.eval(x.t, model_completion=True)
    ex.note_concretize(True)
    f = fp_value(v)
    ex.assume(float_same_term(x.t, f))
    return f


def float_same_term(t, f):
    if f != f:
        return z3.fpIsNaN(t)
    return t == z3.FPVal(f, F64)  # structural equality keeps the sign of zero


HASH_RAISES = [0]


def _typing_cache():
    "Whether the value is about to be looked up in a cache of `typing`, which does without for parameters that have no hash."
    f = sys._getframe(3)
    for _ in range(6):
        if f is None:
            return False
        if f.f_code.co_name in ("inner", "_deduplicate", "__eq__") and f.f_code.co_filename.endswith("/typing.py"):
            return True
        f = f.f_back
    return False


class SymbolicHash(TypeError):
    "Raised in place of hashing a symbolic value where the caller falls back on comparing one by one."


def sym_hash(x):
    if HASH_RAISES[0] or _typing_cache():
        raise SymbolicHash("unhashable symbolic value")
    from . import models

    return hash(models.concrete(x))
