"""Symbolic values of the verifier.

Concrete Python scalars stay raw Python objects.  Symbolic scalars wrap a z3 term.  Symbolic
strings are *ropes*: sequences of literal pieces and atomic pieces (decimal renderings of
integer terms, two-digit hex renderings, renderings of real terms, opaque texts).  Opaque texts
live in an uninterpreted sort, so equality is the only thing assumed about them.
"""

from __future__ import annotations

import operator
from fractions import Fraction
import z3


def _quiet(*names):
    """Accessors of the solver's terms that cannot fail: without the error query after each call."""
    for n in names:
        f = getattr(z3.z3core, n, None)
        if f is not None and f.__defaults__:
            f.__defaults__[-1].Check = lambda ctx: None


_quiet("Z3_inc_ref", "Z3_dec_ref", "Z3_get_sort", "Z3_is_eq_sort", "Z3_get_ast_kind", "Z3_get_sort_kind", "Z3_is_eq_ast", "Z3_get_ast_id")

_SIMP = {}


def simplify(e):
    """z3.simplify, remembered (paths are executed again and again from the start)."""
    k = e.get_id()
    hit = _SIMP.get(k)
    if hit is not None:
        return hit[1]
    r = z3.simplify(e)
    if len(_SIMP) > 100000:
        _SIMP.clear()
    _SIMP[k] = (e, r)
    return r


_INTS = {}

Txt = z3.DeclareSort("Txt")
TLEN = z3.Function("txt_len", Txt, z3.IntSort())
TCAT = z3.Function("txt_cat", Txt, Txt, Txt)
TNUM = z3.Function("txt_num", z3.IntSort(), Txt)
THEX = z3.Function("txt_hex", z3.IntSort(), Txt)
THEXLOW = z3.Function("txt_hex_lower", z3.IntSort(), Txt)
TREAL = z3.Function("txt_real", z3.RealSort(), Txt, Txt)
TCHAR = z3.Function("txt_char", Txt, z3.IntSort(), Txt)
TSUB = z3.Function("txt_sub", Txt, z3.IntSort(), z3.IntSort(), Txt)


class Unsupported(Exception):
    """The code left the subset the verifier covers."""


class SVal:
    __slots__ = ()

    def __bool__(self):
        raise TypeError("symbolic value used as a native bool")

    __hash__ = None


def is_sym(v):
    return isinstance(v, SVal)


def zint(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        r = _INTS.get(v)
        if r is None:
            r = z3.IntVal(v)
            if len(_INTS) < 4096:
                _INTS[v] = r
        return r
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"not an int: {v!r}")


def zreal(v):
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("nan/inf")
        fr = Fraction(v)
        return z3.RealVal(f"{fr.numerator}/{fr.denominator}")
    if isinstance(v, Fraction):
        return z3.RealVal(f"{v.numerator}/{v.denominator}")
    if isinstance(v, SReal):
        return v.e
    if isinstance(v, (SInt, SBool)):
        return z3.ToReal(zint(v))
    raise Unsupported(f"not a number: {v!r}")


def zbool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SBool):
        return v.e
    if z3.is_expr(v):
        return v
    raise Unsupported(f"not a bool: {v!r}")


def is_intlike(v):
    return isinstance(v, (int, SInt, SBool))  # bool is an int


def is_reallike(v):
    return isinstance(v, (float, SReal, Fraction))


def is_numlike(v):
    return is_intlike(v) or is_reallike(v)


class SBool(SVal):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SBool({self.e})"


class _Num(SVal):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __add__(self, o):
        return arith("+", self, o)

    def __radd__(self, o):
        return arith("+", o, self)

    def __sub__(self, o):
        return arith("-", self, o)

    def __rsub__(self, o):
        return arith("-", o, self)

    def __mul__(self, o):
        return arith("*", self, o)

    def __rmul__(self, o):
        return arith("*", o, self)

    def __truediv__(self, o):
        return SReal(zreal(self) / zreal(o))

    def __rtruediv__(self, o):
        return SReal(zreal(o) / zreal(self))

    def __neg__(self):
        return arith("-", 0, self)

    def __lt__(self, o):
        return cmp("<", self, o)

    def __le__(self, o):
        return cmp("<=", self, o)

    def __gt__(self, o):
        return cmp(">", self, o)

    def __ge__(self, o):
        return cmp(">=", self, o)

    def __eq__(self, o):
        return cmp("==", self, o)

    def __ne__(self, o):
        return cmp("!=", self, o)

    __hash__ = None


class SInt(_Num):
    __slots__ = ()

    def __repr__(self):
        return f"SInt({self.e})"


class SReal(_Num):
    __slots__ = ()

    def __repr__(self):
        return f"SReal({self.e})"


def arith(op, a, b):
    if not is_numlike(a) or not is_numlike(b):
        raise Unsupported(f"arith {op} on {a!r}, {b!r}")
    if is_reallike(a) or is_reallike(b):
        x, y = zreal(a), zreal(b)
        mk = SReal
    else:
        x, y = zint(a), zint(b)
        mk = SInt
    if op == "+":
        return mk(x + y)
    if op == "-":
        return mk(x - y)
    if op == "*":
        return mk(x * y)
    raise Unsupported(op)


_OPS = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


def cmp(op, a, b):
    if not is_numlike(a) or not is_numlike(b):
        raise Unsupported(f"compare {op} on {a!r}, {b!r}")
    if not is_sym(a) and not is_sym(b):
        return _OPS[op](a, b)
    if is_reallike(a) or is_reallike(b):
        x, y = zreal(a), zreal(b)
    else:
        x, y = zint(a), zint(b)
    return SBool(_OPS[op](x, y))


# ---------------------------------------------------------------- logic helpers (dual use)
# These work on native bools as well, so one specification text serves the proof and the
# native replay.


def _b(v):
    if isinstance(v, SBool):
        return v
    if z3.is_expr(v):
        return SBool(v)
    return bool(v)


def land(*xs):
    xs = [_b(x) for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    if any(x is False for x in xs):
        return False
    s = [x.e for x in xs if isinstance(x, SBool)]
    return SBool(z3.And(*s)) if s else True


def lor(*xs):
    xs = [_b(x) for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    if any(x is True for x in xs):
        return True
    s = [x.e for x in xs if isinstance(x, SBool)]
    return SBool(z3.Or(*s)) if s else False


def lnot(x):
    x = _b(x)
    return SBool(z3.Not(x.e)) if isinstance(x, SBool) else (not x)


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    a, b = _b(a), _b(b)
    if isinstance(a, SBool) or isinstance(b, SBool):
        return SBool(zbool(a) == zbool(b))
    return a == b


def ite(c, a, b):
    c = _b(c)
    if not isinstance(c, SBool):
        return a if c else b
    if is_numlike(a) and is_numlike(b):
        if is_reallike(a) or is_reallike(b):
            return SReal(z3.If(c.e, zreal(a), zreal(b)))
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return SBool(z3.If(c.e, zbool(a), zbool(b)))
        return SInt(z3.If(c.e, zint(a), zint(b)))
    raise Unsupported(f"ite of {a!r} / {b!r}")


# ---------------------------------------------------------------- ropes


class Num:
    """Decimal rendering of an integer term."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"<{self.e}>"


class HexP:
    """Two-digit hex rendering of an integer term in 0..255, in upper or lower case."""

    __slots__ = ("e", "low")

    def __init__(self, e, low=False):
        self.e, self.low = e, low

    def chars(self):
        return "0123456789abcdef" if self.low else "0123456789ABCDEF"

    def __repr__(self):
        return f"<hex {self.e}>"


class RealP:
    """Rendering of a real term under a format spec."""

    __slots__ = ("e", "spec")

    def __init__(self, e, spec=""):
        self.e, self.spec = e, spec

    def __repr__(self):
        return f"<real {self.e}:{self.spec}>"


class Op:
    """An opaque text. `excl`: characters it is known not to contain."""

    __slots__ = ("e", "excl", "minlen", "unit", "sub", "alpha")

    def __init__(self, e, excl=frozenset(), minlen=0, unit=False, sub=None, alpha=None):
        self.e, self.excl, self.minlen, self.unit, self.sub = e, frozenset(excl), minlen, unit, sub
        # characters it is known to be made of, if any such bound is known
        self.alpha = None if alpha is None else frozenset(alpha)

    def __repr__(self):
        return f"<txt {self.e}>"

    def cannot_contain(self, ch):
        return ch in self.excl or (self.alpha is not None and ch not in self.alpha)


class Drawn(Op):
    """An opaque text of which an observer knows something."""

    __slots__ = ("effect",)

    def __init__(self, e, effect, **kw):
        super().__init__(e, **kw)
        self.effect = effect


class SStr(SVal):
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = norm(parts)

    def __repr__(self):
        return f"SStr({self.parts})"

    def __add__(self, o):
        return mkstr(self.parts + parts_of(o))

    def __radd__(self, o):
        return mkstr(parts_of(o) + self.parts)

    def __eq__(self, o):
        raise TypeError("use eq()")

    __hash__ = None


def norm(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return out


def parts_of(s):
    if isinstance(s, str):
        return [s] if s else []
    if isinstance(s, SStr):
        return list(s.parts)
    raise Unsupported(f"not a string: {s!r}")


def mkstr(parts):
    parts = norm(parts)
    if not parts:
        return ""
    if len(parts) == 1 and isinstance(parts[0], str):
        return parts[0]
    return SStr(parts)


def is_str(v):
    return isinstance(v, (str, SStr))


class PyExc(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, etype, args=(), obj=None):
        super().__init__(etype, args)
        self.etype = etype
        self.args_ = args
        self.obj = obj

    def __str__(self):
        return f"{getattr(self.etype, '__name__', self.etype)}{self.args_!r}"


class Obj:
    """Instance of an (interpreted) class."""

    def __init__(self, cls, attrs, oid):
        d = self.__dict__
        d["cls"] = cls
        d["attrs"] = attrs
        d["oid"] = oid
        d["lazy"] = {}

    def __repr__(self):
        return f"<{self.cls.__name__}#{self.oid}>"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        attrs = self.__dict__["attrs"]
        if name in attrs:
            return attrs[name]
        lazy = self.__dict__["lazy"]
        if name in lazy:
            attrs[name] = lazy[name](self)
            return attrs[name]
        raise AttributeError(f"{self!r}.{name}")


class Poison:
    """A local whose value at a loop head is not tracked; reading it is outside the subset."""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"<untracked {self.why}>"


class Lazy(Poison):
    """A local or a component of a tuple whose value is made when it is read.  Not exact: it may
    compare equal to anything as long as it is not made."""

    def __init__(self, type_, make, exact=True):
        super().__init__("forgotten by a loop")
        self.type, self.fn, self.exact = type_, make, exact
        self.made = False

    def make(self):
        if not self.made:
            self.value = self.fn()
            self.made = True
        return self.value


def forced(v):
    return v.make() if isinstance(v, Lazy) else v
