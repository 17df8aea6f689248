"""Models of the built-in functions, string/list/dict methods and library calls.

Concrete arguments go to the native implementation.  Symbolic arguments follow the models
below; anything else is outside the subset (`Unsupported`), never guessed.
"""

from __future__ import annotations

import ast
import builtins
import colorsys
import contextlib
import dataclasses
import enum
import functools
import html
import itertools
import math
import operator
import os
import re
import string
import types

import z3

from .values import *  # noqa: F401,F403
from .heap import PList, PDict, ABSENT, AbsType, absof, _const_key
from .path import Infeasible

POW = z3.Function("real_pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
SQRT = z3.Function("real_sqrt", z3.RealSort(), z3.RealSort())
ROUNDN = z3.Function("real_round", z3.RealSort(), z3.IntSort(), z3.RealSort())
TCOUNT = z3.Function("txt_count", Txt, Txt, z3.IntSort())
TSPLIT = z3.Function("txt_split", Txt, Txt, z3.IntSort(), Txt)
TINT = z3.Function("txt_int", Txt, z3.IntSort(), z3.IntSort())
TFLOAT = z3.Function("txt_float", Txt, z3.RealSort())
TORD = z3.Function("txt_ord", Txt, z3.IntSort())
TCHR = z3.Function("txt_chr", z3.IntSort(), Txt)


def I():
    from . import interp

    return interp


from .ropere import RopeMatch  # noqa: E402


def concat(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    return mkstr(parts_of(a) + parts_of(b))


# ------------------------------------------------------------------------- numbers


def floor_(e):
    return z3.ToInt(e)


def trunc(e):
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


def round_half_even(e):
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    half = z3.RealVal("1/2")
    return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


def floordiv(ip, a, b):
    p = ip.path
    if p.decide(cmp("==", b, 0)):
        raise PyExc(ZeroDivisionError, ("division by zero",))
    if is_reallike(a) or is_reallike(b):
        return SReal(z3.ToReal(z3.ToInt(zreal(a) / zreal(b))))
    x, y = zint(a), zint(b)
    if z3.is_int_value(y) and y.as_long() > 0:
        return SInt(x / y)
    # z3 div rounds so that remainder is non-negative
    return SInt(z3.If(y > 0, x / y, (-x) / (-y)))


def mod(ip, a, b):
    p = ip.path
    if p.decide(cmp("==", b, 0)):
        raise PyExc(ZeroDivisionError, ("modulo by zero",))
    if is_reallike(a) or is_reallike(b):
        x, y = zreal(a), zreal(b)
        return SReal(x - y * z3.ToReal(z3.ToInt(x / y)))
    x, y = zint(a), zint(b)
    if z3.is_int_value(y) and y.as_long() > 0:
        return SInt(x % y)
    return SInt(z3.If(y > 0, x % y, -((-x) % (-y))))


def power(ip, a, b):
    p = ip.path
    if isinstance(b, int) and 0 <= b <= 6:
        r = 1
        for _ in range(b):
            r = arith("*", r, a) if is_sym(a) else r * a
        return r
    x, y = zreal(a), zreal(b)
    if not z3.is_rational_value(simplify(y)):
        raise Unsupported("symbolic exponent")
    if not p.implied(SBool(x >= 0)):
        raise Unsupported("power of a possibly negative base")
    r = POW(x, y)
    key = ("pow", x.sexpr(), y.sexpr())
    if key not in p.memo:
        p.memo[key] = True
        p.approx("a real power known only by its monotonicity")
        p.ex.trusted.add("real power: monotone in the base, fixes 0 and 1, maps [0,1] into [0,1] (uninterpreted otherwise)")
        p.assume(SBool(z3.And(r >= 0, (x == 0) == (r == 0), (x == 1) == (r == 1), (x < 1) == (r < 1))))
        for ox in ip.pow_axioms:
            if ox[1].eq(y):
                p.assume(SBool((ox[0] < x) == (POW(ox[0], y) < r)))
        ip.pow_axioms.append((x, y))
    return SReal(r)


def sqrt_(ip, args, kw):
    (a,) = args
    if not is_sym(a):
        return ip.native_apply(math.sqrt, [a], {})
    x = zreal(a)
    p = ip.path
    if p.decide(SBool(x < 0)):
        raise PyExc(ValueError, ("math domain error",))
    r = SQRT(x)
    key = ("sqrt", x.sexpr())
    if key not in p.memo:
        p.memo[key] = True
        p.ex.trusted.add("math.sqrt: non-negative, its square is its argument, strictly monotone")
        p.assume(SBool(z3.And(r >= 0, r * r == x)))
        lst = p.memo.setdefault("sqrts", [])
        for o in lst:
            p.assume(SBool((o < x) == (SQRT(o) < r)))
        lst.append(x)
    return SReal(r)


_OPS = {
    ast.Add: operator.add,
    ast.Sub: operator.sub,
    ast.Mult: operator.mul,
    ast.Div: operator.truediv,
    ast.FloorDiv: operator.floordiv,
    ast.Mod: operator.mod,
    ast.Pow: operator.pow,
    ast.BitOr: operator.or_,
    ast.BitAnd: operator.and_,
    ast.BitXor: operator.xor,
    ast.LShift: operator.lshift,
    ast.RShift: operator.rshift,
}
_DUNDER = {ast.Add: ("__add__", "__radd__", "__iadd__"), ast.Sub: ("__sub__", "__rsub__", "__isub__"), ast.Mult: ("__mul__", "__rmul__", "__imul__"), ast.BitOr: ("__or__", "__ror__", "__ior__")}


def binop(ip, op, a, b, inplace=False):
    p = ip.path
    t = type(op)
    for v in (a, b):
        if isinstance(v, Poison):
            raise Unsupported(f"use of {v!r}")
    # interpreted objects
    for x, y, which in ((a, b, 2 if inplace else 0), (a, b, 0), (b, a, 1)):
        if isinstance(x, Obj) and t in _DUNDER:
            c = ip.class_lookup(x.cls, _DUNDER[t][which])
            if isinstance(c, types.FunctionType):
                r = ip.call(c, [x, y])
                if r is not NotImplemented:
                    return r
    # strings
    if is_str(a) and is_str(b) and t is ast.Add:
        return concat(a, b)
    if t is ast.Mult and (is_str(a) or is_str(b)):
        s, n = (a, b) if is_str(a) else (b, a)
        if isinstance(n, SBool):
            n = 1 if p.decide(n) else 0
        if isinstance(n, SInt):
            return repeat_str(ip, s, n)
        if isinstance(n, (bool, int)):
            if isinstance(s, str):
                return s * n
            out = ""
            for _ in range(max(0, int(n))):
                out = concat(out, s)
            return out
        raise PyExc(TypeError, ("can't multiply sequence by non-int",))
    if t is ast.Mod and isinstance(a, str):
        if _const_key(b):
            return ip.native_apply(operator.mod, [a, b], {})
        return percent(ip, a, b)
    # lists
    if isinstance(a, PList) and isinstance(b, PList) and t is ast.Add:
        if inplace:
            list_extend(ip, a, b)
            return a
        if a.items is not None and b.items is not None:
            return PList.concrete(p, a.items + b.items)
        return concat_lists(ip, a, b)
    if isinstance(a, PList) and inplace and t is ast.Add:
        list_extend(ip, a, b)
        return a
    if t is ast.Mult and (isinstance(a, PList) or isinstance(b, PList)):
        lst, n = (a, b) if isinstance(a, PList) else (b, a)
        if not is_intlike(n):
            raise PyExc(TypeError, ("can't multiply sequence",))
        if isinstance(n, int) and lst.items is not None:
            return PList.concrete(p, lst.items * n)
        if lst.items is not None and len(lst.items) == 1:
            v = lst.items[0]
            nn = ite(cmp(">=", n, 0), n, 0)
            if isinstance(v, tuple) and id(v) in p.tracked:
                return PList.symbolic(p, nn, lambda q, i: v, AbsType([("ident", p.tracked[id(v)][1])]))
            return PList.symbolic(p, nn, lambda q, i: v, absof_safe(v))
        raise Unsupported("list repetition")
    if isinstance(a, tuple) and isinstance(b, tuple) and t is ast.Add:
        return a + b
    if isinstance(a, PDict) and isinstance(b, PDict) and t is ast.BitOr:
        d = a if inplace else PDict(p)
        if not inplace:
            if a.base is not None or b.base is not None:
                raise Unsupported("dict union with unknown entries")
            d.known = [[k, v] for k, v in a.entries()]
        for k, v in b.entries():
            d.store(k, v)
        return d
    # booleans
    if t in (ast.BitOr, ast.BitAnd, ast.BitXor) and isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        if t is ast.BitOr:
            return lor(a, b)
        if t is ast.BitAnd:
            return land(a, b)
        return lnot(iff(a, b))
    if is_numlike(a) and is_numlike(b) and (is_sym(a) or is_sym(b)):
        if t is ast.Add and inplace and isinstance(a, int) and isinstance(b, SBool):
            return a + (1 if p.decide(b) else 0)  # a counter stays concrete
        if t is ast.Add:
            return arith("+", a, b)
        if t is ast.Sub:
            return arith("-", a, b)
        if t is ast.Mult:
            return arith("*", a, b)
        if t is ast.Div:
            if p.decide(cmp("==", b, 0)):
                raise PyExc(ZeroDivisionError, ("division by zero",))
            return SReal(zreal(a) / zreal(b))
        if t is ast.FloorDiv:
            return floordiv(ip, a, b)
        if t is ast.Mod:
            return mod(ip, a, b)
        if t is ast.Pow:
            return power(ip, a, b)
        raise Unsupported(f"operator {t.__name__} on symbolic numbers")
    if _plain(a) and _plain(b):
        if t is ast.Pow and isinstance(b, int) and abs(b) > 10000:
            raise Unsupported("huge power")
        return ip.native_apply(_OPS[t], [a, b], {})
    if a is None or b is None or (is_str(a) != is_str(b)) or isinstance(a, tuple) or isinstance(b, tuple):
        raise PyExc(TypeError, (f"unsupported operand types for {t.__name__}",))
    raise Unsupported(f"operator {t.__name__} on {a!r}, {b!r}")


def absof_safe(v):
    try:
        return absof(v)
    except Unsupported:
        return AbsType([])


def _plain(v):
    if isinstance(v, tuple):
        return all(_plain(x) for x in v)
    return not isinstance(v, (SVal, Obj, PList, PDict, Poison)) and not type(v).__module__.startswith("pyvc")


def repeat_str(ip, s, n):
    p = ip.path
    if p.decide(cmp("<=", n, 0)):
        return ""
    if p.decide(cmp("==", n, 1)):
        return s
    f = z3.Function("txt_repeat", Txt, z3.IntSort(), Txt)
    e = f(p.enc(s), n.e)
    L = p.strlen(s)
    p.assume(SBool(TLEN(e) == zint(L) * n.e))
    a = absof(s).alts[0]
    return SStr([Op(e, excl=a[2], minlen=a[3], alpha=a[1])])


# ------------------------------------------------------------------------- str / repr / format


def str_(ip, v):
    p = ip.path
    if is_str(v):
        return v
    if isinstance(v, SBool):
        return "True" if p.decide(v) else "False"
    if isinstance(v, SInt):
        return SStr([Num(v.e)])
    if isinstance(v, SReal):
        return SStr([RealP(v.e, "")])
    if isinstance(v, Obj):
        c = ip.class_lookup(v.cls, "__str__")
        if isinstance(c, types.FunctionType):
            return ip.call(c, [v])
        return repr_(ip, v)
    if isinstance(v, PyExc):
        if len(v.args_) == 1:
            return str_(ip, v.args_[0])
        return "exception"
    if isinstance(v, (tuple, PList, PDict)):
        return repr_(ip, v)
    if _plain(v):
        return ip.native_apply(str, [v], {})
    return opaque(ip, f"str of {type(v).__name__}")


def opaque(ip, why):
    return ip.path.fresh_txt("opaque")


def repr_(ip, v):
    p = ip.path
    if isinstance(v, SStr):
        f = z3.Function("txt_repr", Txt, Txt)
        return SStr([Op(f(p.enc(v)), minlen=2)])
    if isinstance(v, (SInt, SReal, SBool)):
        return str_(ip, v)
    if isinstance(v, tuple):
        if _plain(v):
            return repr(v)
        out = "("
        for i, x in enumerate(v):
            out = concat(out, (", " if i else ""))
            out = concat(out, repr_(ip, forced(x)))
        return concat(out, ",)" if len(v) == 1 else ")")
    if isinstance(v, PList) and v.items is not None:
        out = "["
        for i, x in enumerate(v.items):
            out = concat(out, (", " if i else ""))
            out = concat(out, repr_(ip, x))
        return concat(out, "]")
    if isinstance(v, Obj):
        c = ip.class_lookup(v.cls, "__repr__")
        if isinstance(c, types.FunctionType) and not I()._is_generated(c):
            return ip.call(c, [v])
        return opaque(ip, "repr")
    if _plain(v):
        return ip.native_apply(repr, [v], {})
    return opaque(ip, "repr")


_FSPEC = re.compile(r"^\.(\d+)f$")


def format_(ip, v, spec):
    if spec == "":
        return str_(ip, v)
    if not isinstance(spec, str):
        raise Unsupported("symbolic format spec")
    if isinstance(v, SBool):
        v = SInt(zint(v))
    if isinstance(v, (SInt, SReal)):
        m = _FSPEC.match(spec)
        if m:
            if m.group(1) == "0":
                return SStr([Num(round_half_even(zreal(v)))])
            return SStr([RealP(zreal(v), spec)])
        if isinstance(v, SInt):
            if spec in ("02X", "02x"):
                if ip.path.implied(land(cmp("<=", 0, v), cmp("<=", v, 255))):
                    return SStr([HexP(v.e, spec == "02x")])
                raise Unsupported("hex format out of range")
            if spec in ("d", "n"):
                return SStr([Num(v.e)])
        raise Unsupported(f"format spec {spec!r}")
    if _plain(v):
        return ip.native_apply(format, [v, spec], {})
    raise Unsupported(f"format of {v!r} with {spec!r}")


_PERCENT = re.compile(r"%(?:\((\w+)\))?([#0\- +]*)(\d+)?(?:\.(\d+))?([a-zA-Z%])")


def percent(ip, tmpl, arg):
    """tmpl % arg for the conversions without flags."""
    args = list(arg) if isinstance(arg, tuple) else None
    out, i, used = "", 0, 0
    for m in _PERCENT.finditer(tmpl):
        if "%" in tmpl[i : m.start()]:
            raise PyExc(ValueError, ("incomplete format",))
        out = concat(out, tmpl[i : m.start()])
        i = m.end()
        name, flags, wid, prec, conv = m.groups()
        if conv == "%" and m.group(0) == "%%":
            out = concat(out, "%")
            continue
        if flags or wid or conv not in "sdirfxX" or (prec and conv != "f"):
            if not (flags == "0" and wid == "2" and conv in "xX" and not prec):
                raise Unsupported(f"% formatting {m.group(0)!r}")
        if name is not None:
            v = ip.getitem(arg, name)
        elif args is not None:
            if used >= len(args):
                raise PyExc(TypeError, ("not enough arguments for format string",))
            v = args[used]
            used += 1
        else:
            if used:
                raise PyExc(TypeError, ("not enough arguments for format string",))
            v, used = arg, 1
        if conv == "s":
            out = concat(out, str_(ip, v))
        elif conv == "r":
            out = concat(out, repr_(ip, v))
        elif conv in "di":
            if not is_numlike(v):
                raise PyExc(TypeError, ("%d format: a real number is required",))
            if isinstance(v, SReal):
                v = SInt(trunc(v.e))
            out = concat(out, str_(ip, SInt(zint(v)) if isinstance(v, (SInt, SBool)) else int(v)))
        elif conv == "f":
            out = concat(out, format_(ip, v, f".{prec or 6}f"))
        else:
            out = concat(out, format_(ip, v, (flags or "") + (wid or "") + conv))
    if "%" in tmpl[i:]:
        raise PyExc(ValueError, ("incomplete format",))
    if args is not None and used != len(args):
        raise PyExc(TypeError, ("not all arguments converted during string formatting",))
    return concat(out, tmpl[i:])


def str_format(ip, tmpl, args, kwargs):
    if not isinstance(tmpl, str):
        raise Unsupported("format of a symbolic template")
    out = ""
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(tmpl):
        out = concat(out, lit)
        if field is None:
            continue
        if field == "":
            field = str(auto)
            auto += 1
        if field.isdigit():
            if int(field) >= len(args):
                raise PyExc(IndexError, ("format",))
            v = args[int(field)]
        elif field.isidentifier():
            if field not in kwargs:
                raise PyExc(KeyError, (field,))
            v = kwargs[field]
        else:
            raise Unsupported(f"format field {field!r}")
        if conv == "r":
            v = repr_(ip, v)
        elif conv == "s":
            v = str_(ip, v)
        out = concat(out, format_(ip, v, spec or ""))
    return out


# ------------------------------------------------------------------------- rope operations


def rope(ip, s):
    return ip.path.expand(parts_of(s))


def sub_op(ip, p, lo, hi, minlen=0):
    """Substring [lo, hi) of an opaque piece; 0 <= lo <= hi <= len assumed by the caller."""
    root, base = (p.sub[0], p.sub[1]) if p.sub else (p.e, z3.IntVal(0))
    lo_, hi_ = simplify(base + lo), simplify(base + hi)
    e = TSUB(root, lo_, hi_)
    op = Op(e, excl=p.excl, minlen=minlen, sub=(root, lo_, hi_), alpha=p.alpha)
    ip.path.assume(SBool(TLEN(e) == hi_ - lo_))
    return op


def char_op(ip, p, i):
    root, base = (p.sub[0], p.sub[1]) if p.sub else (p.e, z3.IntVal(0))
    e = TCHAR(root, simplify(base + i))
    op = Op(e, excl=p.excl, minlen=1, unit=True, alpha=p.alpha)
    key = ("unit", e.sexpr())
    if key not in ip.path.memo:
        ip.path.memo[key] = True
        ip.path.assume(SBool(TLEN(e) == 1))
    return op


def split_first(ip, p):
    """Refine an opaque piece into its first character and the rest, or into nothing."""
    path = ip.path
    if p.unit:
        return [p]
    n = path.oplen(p)
    if p.minlen < 1 and path.decide(SBool(n <= 0)):
        path.assume(SBool(p.e == path.lit("")))
        path.refine(p, [])
        return []
    head = char_op(ip, p, z3.IntVal(0))
    rest = sub_op(ip, p, z3.IntVal(1), n, max(0, p.minlen - 1))
    path.refine(p, [head, rest])
    return [head, rest]


def split_last(ip, p):
    path = ip.path
    if p.unit:
        return [p]
    n = path.oplen(p)
    if p.minlen < 1 and path.decide(SBool(n <= 0)):
        path.assume(SBool(p.e == path.lit("")))
        path.refine(p, [])
        return []
    last = char_op(ip, p, n - 1)
    head = sub_op(ip, p, z3.IntVal(0), n - 1, max(0, p.minlen - 1))
    path.refine(p, [head, last])
    return [head, last]


def take_left(ip, s, k, exact=False):
    """(first k characters, rest) of a rope; k a constant.  Shorter ropes give what there is."""
    parts = rope(ip, s)
    out = []
    while k > 0 and parts:
        x = parts[0]
        if isinstance(x, str):
            out.append(x[:k])
            n = min(k, len(x))
            parts = ([x[n:]] if x[n:] else []) + parts[1:]
            k -= n
        elif isinstance(x, HexP):
            if k >= 2:
                out.append(x)
                parts = parts[1:]
                k -= 2
            else:
                raise Unsupported("half of a hex pair")
        elif isinstance(x, Op):
            if x.unit:
                out.append(x)
                parts = parts[1:]
                k -= 1
            else:
                parts = split_first(ip, x) + parts[1:]
        else:
            raise Unsupported("characters of a number rendering")
    return mkstr(out), mkstr(parts), k


def take_right(ip, s, k):
    parts = rope(ip, s)
    out = []
    while k > 0 and parts:
        x = parts[-1]
        if isinstance(x, str):
            n = min(k, len(x))
            out.insert(0, x[len(x) - n:])
            parts = parts[:-1] + ([x[:len(x) - n]] if x[:len(x) - n] else [])
            k -= n
        elif isinstance(x, HexP):
            if k >= 2:
                out.insert(0, x)
                parts = parts[:-1]
                k -= 2
            else:
                raise Unsupported("half of a hex pair")
        elif isinstance(x, Op):
            if x.unit:
                out.insert(0, x)
                parts = parts[:-1]
                k -= 1
            else:
                parts = parts[:-1] + split_last(ip, x)
        else:
            raise Unsupported("characters of a number rendering")
    return mkstr(parts), mkstr(out), k


def str_index(ip, s, k):
    p = ip.path
    if isinstance(k, SBool):
        k = SInt(zint(k))
    if isinstance(k, int):
        if k >= 0:
            _, rest, left = take_left(ip, s, k)
            if left:
                raise PyExc(IndexError, ("string index out of range",))
            c, _, left = take_left(ip, rest, 1)
            if left:
                raise PyExc(IndexError, ("string index out of range",))
            return c
        _, out, left = take_right(ip, s, -k)
        if left:
            raise PyExc(IndexError, ("string index out of range",))
        c, _, _ = take_left(ip, out, 1)
        return c
    n = p.strlen(s)
    if p.decide(land(cmp("<=", 0, k), cmp("<", k, n))):
        return char_at(ip, s, k)
    if p.decide(land(cmp("<=", arith("-", 0, n), k), cmp("<", k, 0))):
        return char_at(ip, s, arith("+", k, n))
    raise PyExc(IndexError, ("string index out of range",))


def char_at(ip, s, k):
    """Character at an index known to be in range."""
    p = ip.path
    parts = rope(ip, s)
    off = 0
    for j, x in enumerate(parts):
        if isinstance(x, str):
            n = len(x)
        elif isinstance(x, Op):
            n = 1 if x.unit else SInt(p.oplen(x))
        else:
            raise Unsupported("character of a number rendering")
        end = off + n if not is_sym(off) and not is_sym(n) else arith("+", off, n)
        if j == len(parts) - 1 or p.decide(cmp("<", k, end)):
            i = simplify(zint(k) - zint(off))
            if isinstance(x, str):
                if z3.is_int_value(i):
                    return x[i.as_long()]
                for q in range(len(x)):
                    if q == len(x) - 1 or p.decide(SBool(i == q)):
                        return x[q]
            if x.unit:
                return SStr([x])
            return SStr([char_op(ip, x, i)])
        off = end
    raise Infeasible()


def _clamp(v, n, default):
    """Slice bound after Python's rules."""
    if v is None:
        return default
    if isinstance(v, SBool):
        v = SInt(zint(v))
    if not is_sym(v) and not is_sym(n):
        if v < 0:
            v += n
        return min(max(v, 0), n)
    w = ite(cmp("<", v, 0), arith("+", v, n), v)
    w = ite(cmp("<", w, 0), 0, w)
    return ite(cmp(">", w, n), n, w)


def str_slice(ip, s, sl):
    p = ip.path
    if not any(is_sym(x) for x in (sl.a, sl.b, sl.c)):
        units = rope(ip, s)
        if all(isinstance(x, str) or (isinstance(x, Op) and x.unit) for x in units):
            chars = []
            for x in units:
                chars += list(x) if isinstance(x, str) else [x]
            return mkstr(chars[sl.a:sl.b:sl.c])
    if sl.c not in (None, 1):
        if isinstance(s, str) and all(x is None or isinstance(x, int) for x in (sl.a, sl.b, sl.c)):
            return s[sl.a:sl.b:sl.c]
        if any(x is not None and not is_intlike(x) for x in (sl.a, sl.b, sl.c)):
            raise Unsupported("slice bounds")
        p.approx("slice with a step")
        code = sum((1 << i) for i, x in enumerate((sl.a, sl.b, sl.c)) if x is not None)
        g = z3.Function("txt_stepslice", Txt, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), Txt)
        e = g(p.enc(s), z3.IntVal(code), zint(0 if sl.a is None else sl.a), zint(0 if sl.b is None else sl.b), zint(sl.c))
        a = absof(s).alts[0]
        return SStr([Op(e, excl=a[2], alpha=a[1])])
    a, b = sl.a, sl.b
    if a is None and b is None:
        return s
    ca, cb = a is None or isinstance(a, int), b is None or isinstance(b, int)
    if isinstance(s, str) and ca and cb:
        return s[a:b]
    if isinstance(s, SStr) and ca and cb:
        try:
            return _const_slice(ip, s, a, b)
        except Unsupported:
            pass
    n = p.strlen(s)
    lo = _clamp(a, n, 0)
    hi = _clamp(b, n, n)
    parts = rope(ip, s)
    if len(parts) == 1 and isinstance(parts[0], Op):
        if p.decide(cmp("<=", hi, lo)):
            return ""
        x = parts[0]
        whole = land(cmp("<=", lo, 0), cmp(">=", hi, n))
        if p.implied(whole):
            return s
        op = sub_op(ip, x, zint(lo), zint(hi))
        if not x.sub:
            p.assume(SBool(z3.Implies(zbool(whole), op.e == x.e)))
        return SStr([op])
    if isinstance(s, str):
        # literal text with symbolic bounds
        e = TSUB(p.lit(s), zint(lo), zint(ite(cmp("<", hi, lo), lo, hi)))
        p.assume(SBool(TLEN(e) == zint(ite(cmp("<", hi, lo), lo, hi)) - zint(lo)))
        return SStr([Op(e, alpha=frozenset(s))])
    # several pieces: cut piece by piece
    out = []
    off = 0
    for x in parts:
        if is_sym(off) and p.implied(cmp("<=", hi, off)):
            break
        if isinstance(x, str):
            ln = len(x)
        elif isinstance(x, Op):
            ln = 1 if x.unit else SInt(p.oplen(x))
        elif isinstance(x, HexP):
            ln = 2
        else:
            ln = p.strlen(SStr([x]))
        end = arith("+", off, ln) if is_sym(off) or is_sym(ln) else off + ln
        # piece lies in [off, end)
        if p.decide(lor(cmp("<=", end, lo), cmp("<=", hi, off))):
            off = end
            continue
        if p.decide(land(cmp("<=", lo, off), cmp("<=", end, hi))):
            out.append(x)
            off = end
            continue
        l = ite(cmp(">", lo, off), arith("-", lo, off), 0)
        h = ite(cmp("<", hi, end), arith("-", hi, off), ln)
        if isinstance(x, str):
            lz, hz = simplify(zint(l)), simplify(zint(h))
            for i in range(len(x) + 1):
                if not p.decide(SBool(lz == i)):
                    continue
                for j in range(i, len(x) + 1):
                    if p.decide(SBool(hz == j)):
                        out.append(x[i:j])
                        break
                break
        elif isinstance(x, Op) and not x.unit:
            out.append(sub_op(ip, x, zint(l), zint(h)))
        else:
            raise Unsupported("slice inside a piece")
        off = end
    return mkstr(out)


def _const_slice(ip, s, a, b):
    a = a or 0
    if a >= 0 and b is None:
        _, rest, _ = take_left(ip, s, a)
        return rest
    if a >= 0 and b is not None and b >= 0:
        _, rest, _ = take_left(ip, s, a)
        out, _, _ = take_left(ip, rest, max(0, b - a))
        return out
    if a >= 0 and b is not None and b < 0:
        head, _, _ = take_right(ip, s, -b)
        _, rest, _ = take_left(ip, head, a)
        return rest
    if a < 0 and b is None:
        _, out, _ = take_right(ip, s, -a)
        return out
    if a < 0 and b < 0:
        head, _, _ = take_right(ip, s, -b)
        _, out, _ = take_right(ip, head, max(0, b - a))
        # characters missing on the right shift nothing on the left
        return out
    raise Unsupported("mixed slice")


def op_pred(ip, p, name, fn):
    """Boolean fact about an opaque piece, tied to its value on every literal."""
    return ip.path.pred(p.e, name, fn)


def str_contains(ip, container, item):
    if isinstance(container, str) and isinstance(item, str):
        return item in container
    if not isinstance(item, str):
        p = ip.path
        small, big = rope(ip, item), rope(ip, container)
        if _subsequence(small, big):
            return True
        p.approx("containment of a symbolic text")
        f = z3.Function("txt_contains", Txt, Txt, z3.BoolSort())
        return SBool(f(p.enc(container), p.enc(item)))
    parts = rope(ip, container)
    if item == "":
        return True
    conds = []
    for x in parts:
        if isinstance(x, str):
            if item in x:
                return True
        elif isinstance(x, Op):
            if any(x.cannot_contain(c) for c in item):
                continue
            if x.unit and len(item) == 1:
                conds.append(SBool(x.e == ip.path.lit(item)))
            else:
                conds.append(op_pred(ip, x, ("contains", item), lambda t: item in t))
        elif isinstance(x, RealP):
            if set(item) <= set("0123456789-.e+infa"):
                if item == "." and (x.spec == "" or _FSPEC.match(x.spec)):
                    ip.path.ex.trusted.add("a float renders with a decimal point (exponent form excluded)")
                    return True
                raise Unsupported("containment in a float rendering")
        else:
            if set(item) <= set("0123456789ABCDEF-"):
                raise Unsupported("containment in a number rendering")
    if len(item) > 1 and len(parts) > 1:
        # an occurrence may straddle pieces
        for i in range(len(parts) - 1):
            if not _no_straddle(parts[i], parts[i + 1], item):
                raise Unsupported("containment across pieces")
    return lor(conds) if conds else False


def _same_piece(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, str):
        return x == y
    return x.e.eq(y.e) and getattr(x, "spec", "") == getattr(y, "spec", "")


def _subsequence(small, big):
    if not small:
        return True
    n = len(small)
    return any(all(_same_piece(a, b) for a, b in zip(small, big[i:i + n])) for i in range(len(big) - n + 1))


def _edge_chars(x):
    if isinstance(x, str):
        return set(x)
    if isinstance(x, Num):
        return set("0123456789-")
    if isinstance(x, HexP):
        return set(x.chars())
    if isinstance(x, RealP):
        return set("0123456789-.e+infa")
    return None


def _no_straddle(x, y, item):
    """No occurrence of `item` can span the border of x and y."""
    for cut in range(1, len(item)):
        l, r = item[:cut], item[cut:]
        okl = x.endswith(l) if isinstance(x, str) and len(x) >= len(l) else _may(x, l)
        okr = y.startswith(r) if isinstance(y, str) and len(y) >= len(r) else _may(y, r)
        if okl and okr:
            return False
    return True


def _may(x, chars):
    if isinstance(x, Op):
        return not any(x.cannot_contain(c) for c in chars)
    e = _edge_chars(x)
    return set(chars) <= e


def starts_with(ip, s, pre):
    p = ip.path
    if isinstance(pre, tuple):
        return lor([starts_with(ip, s, x) for x in pre]) if pre else False
    if isinstance(s, str) and isinstance(pre, str):
        return s.startswith(pre)
    if not isinstance(pre, str):
        if _subsequence(rope(ip, pre), rope(ip, s)[:len(rope(ip, pre))]):
            return True
        p.approx("prefix by a symbolic text")
        f = z3.Function("txt_starts", Txt, Txt, z3.BoolSort())
        return SBool(f(p.enc(s), p.enc(pre)))
    parts = rope(ip, s)
    rest = pre
    conds = []
    while rest:
        if not parts:
            return False
        x = parts[0]
        if isinstance(x, str):
            n = min(len(x), len(rest))
            if x[:n] != rest[:n]:
                return False
            rest = rest[n:]
            parts = ([x[n:]] if x[n:] else []) + parts[1:]
            continue
        if isinstance(x, Op):
            if x.unit:
                if x.cannot_contain(rest[0]):
                    return False
                conds.append(SBool(x.e == p.lit(rest[0])))
                rest = rest[1:]
                parts = parts[1:]
                continue
            if len(parts) == 1 and not conds:
                if x.cannot_contain(rest[0]):
                    return False
                r = rest
                c = op_pred(ip, x, ("starts", r), lambda t: t.startswith(r))
                if p.decide(c):
                    n = p.oplen(x)
                    p.assume(SBool(n >= len(r)))
                    tail = Op(TSUB(x.e, z3.IntVal(len(r)), n), excl=x.excl, alpha=x.alpha)
                    p.assume(SBool(TLEN(tail.e) == n - len(r)))
                    p.refine(x, [r, tail])
                    return True
                return False
            parts = split_first(ip, x) + parts[1:]
            continue
        if isinstance(x, Num):
            if not rest[0].isdigit() and rest[0] != "-":
                return False
            k = len(rest)
            if rest.isdigit() and len(parts) >= 1:
                # first digits of a number: decide by magnitude
                return land(conds + [num_starts(ip, x.e, rest)])
            raise Unsupported("prefix of a number rendering")
        raise Unsupported("prefix of a rendering")
    return land(conds) if conds else True


def num_starts(ip, e, digits):
    """Decimal rendering of e starts with the given digits (e non-negative, < 10**6)."""
    p = ip.path
    if not p.implied(SBool(z3.And(e >= 0, e < 10**6))):
        p.approx("prefix of an unbounded number")
        f = z3.Function("num_starts_" + digits, z3.IntSort(), z3.BoolSort())
        return SBool(f(e))
    v = int(digits)
    if digits[0] == "0":
        return SBool(e == 0) if digits == "0" else False
    alts = []
    m = 1
    while v * m < 10**6:
        alts.append(z3.And(e >= v * m, e < (v + 1) * m))
        m *= 10
    return SBool(z3.Or(*alts))


def ends_with(ip, s, suf):
    p = ip.path
    if isinstance(suf, tuple):
        return lor([ends_with(ip, s, x) for x in suf]) if suf else False
    if isinstance(s, str) and isinstance(suf, str):
        return s.endswith(suf)
    if not isinstance(suf, str):
        f = z3.Function("txt_ends", Txt, Txt, z3.BoolSort())
        return SBool(f(p.enc(s), p.enc(suf)))
    parts = rope(ip, s)
    rest = suf
    conds = []
    while rest:
        if not parts:
            return False
        x = parts[-1]
        if isinstance(x, str):
            n = min(len(x), len(rest))
            if x[-n:] != rest[-n:]:
                return False
            rest = rest[:-n]
            parts = parts[:-1] + ([x[:-n]] if x[:-n] else [])
            continue
        if isinstance(x, Op):
            if x.cannot_contain(rest[-1]) and (x.unit or x.minlen > 0):
                return False
            if x.unit:
                conds.append(SBool(x.e == p.lit(rest[-1])))
                rest = rest[:-1]
                parts = parts[:-1]
                continue
            if isinstance(x, Drawn):
                p.approx("the end of a text of unknown length")
                return p.fresh_bool("ends")
            if len(parts) == 1 and not conds:
                if x.cannot_contain(rest[-1]):
                    return False
                r = rest
                c = op_pred(ip, x, ("ends", r), lambda t: t.endswith(r))
                if p.decide(c):
                    n = p.oplen(x)
                    p.assume(SBool(n >= len(r)))
                    head = Op(TSUB(x.e, z3.IntVal(0), n - len(r)), excl=x.excl, alpha=x.alpha)
                    p.assume(SBool(TLEN(head.e) == n - len(r)))
                    p.refine(x, [head, r])
                    return True
                return False
            parts = parts[:-1] + split_last(ip, x)
            continue
        if isinstance(x, (Num, HexP, RealP)) and rest[-1] not in _edge_chars(x):
            return False
        raise Unsupported("suffix of a number rendering")
    return land(conds) if conds else True


SPACES = frozenset(chr(i) for i in range(0x110000) if chr(i).isspace())


def strip_(ip, s, chars, left, right):
    p = ip.path
    if isinstance(s, str) and (chars is None or isinstance(chars, str)):
        if left and right:
            return s.strip(chars)
        return s.lstrip(chars) if left else s.rstrip(chars)
    if chars is not None and not isinstance(chars, str):
        raise Unsupported("strip of symbolic characters")
    cs = set(chars) if chars is not None else None
    parts = rope(ip, s)

    def sp(t, l, r):
        if l and r:
            return t.strip(chars)
        return t.lstrip(chars) if l else t.rstrip(chars)

    def never(x):
        """Cannot contain a stripped character and is non-empty."""
        if isinstance(x, (Num, RealP, HexP)):
            return cs is None or not (cs & _edge_chars(x))
        if cs is None:
            if x.alpha is not None:
                return not any(c.isspace() for c in x.alpha)
            return SPACES <= x.excl
        return all(x.cannot_contain(c) for c in cs)

    for side in ("l", "r"):
        if (side == "l" and not left) or (side == "r" and not right):
            continue
        while parts:
            x = parts[0] if side == "l" else parts[-1]
            if isinstance(x, str):
                t = sp(x, side == "l", side == "r")
                if t:
                    parts = [t] + parts[1:] if side == "l" else parts[:-1] + [t]
                    break
                parts = parts[1:] if side == "l" else parts[:-1]
                continue
            if isinstance(x, Op):
                if never(x):
                    if x.unit or x.minlen > 0:
                        break
                    if len(parts) == 1:
                        break
                    # possibly empty: then the next piece would be stripped
                    if p.decide(SBool(p.oplen(x) <= 0)):
                        p.refine(x, [])
                        parts = parts[1:] if side == "l" else parts[:-1]
                        continue
                    break
                if x.unit:
                    if cs is None:
                        c = op_pred(ip, x, ("isspace",), lambda t: t.isspace())
                    else:
                        c = lor([SBool(x.e == p.lit(ch)) for ch in sorted(cs) if not x.cannot_contain(ch)])
                    if p.decide(c):
                        parts = parts[1:] if side == "l" else parts[:-1]
                        continue
                    break
                name = f"txt_{side}strip_{'ws' if chars is None else ''.join(sorted(cs)).encode().hex()}"
                f = z3.Function(name, Txt, Txt)
                e = f(x.e)
                p.textfn_axiom(x.e, f, lambda t: sp(t, side == "l", side == "r"))
                y = Op(e, excl=x.excl, alpha=x.alpha)
                p.assume(SBool(z3.And(TLEN(e) <= p.oplen(x), TLEN(e) >= 0)))
                if len(parts) > 1:
                    if p.decide(SBool(p.oplen(y) <= 0)):
                        parts = parts[1:] if side == "l" else parts[:-1]
                        continue
                if side == "l":
                    # the first character of the rest is not a stripped one
                    parts = [y] + parts[1:]
                    if cs is not None:
                        for ch in cs:
                            p.pred_fact(e, ("starts", ch), lambda t, ch=ch: t.startswith(ch), False)
                else:
                    parts = parts[:-1] + [y]
                    if cs is not None:
                        for ch in cs:
                            p.pred_fact(e, ("ends", ch), lambda t, ch=ch: t.endswith(ch), False)
                break
            if never(x):
                break
            raise Unsupported("strip of a number rendering")
    return mkstr(parts)


def count_(ip, s, sub):
    p = ip.path
    if isinstance(s, str) and isinstance(sub, str):
        return s.count(sub)
    if not isinstance(sub, str) or len(sub) != 1:
        raise Unsupported("count of a symbolic or long text")
    tot = 0
    for x in rope(ip, s):
        if isinstance(x, str):
            n = x.count(sub)
        elif isinstance(x, Op):
            if x.cannot_contain(sub):
                n = 0
            elif x.unit:
                n = SInt(z3.If(x.e == p.lit(sub), z3.IntVal(1), z3.IntVal(0)))
            else:
                n = SInt(op_count(ip, x, sub))
        elif sub in _edge_chars(x):
            raise Unsupported("count in a number rendering")
        else:
            n = 0
        tot = arith("+", tot, n) if is_sym(tot) or is_sym(n) else tot + n
    return tot


def op_count(ip, x, sub):
    p = ip.path
    e = TCOUNT(x.e, p.lit(sub))
    key = ("count", x.e.sexpr(), sub)
    if key not in p.memo:
        p.memo[key] = True
        n = p.oplen(x)
        p.assume(SBool(z3.And(e >= 0, e <= n)))
        p.intfn_axiom(x.e, e, lambda t: t.count(sub))
    return e


def split_(ip, s, sep, maxsplit=-1):
    p = ip.path
    if isinstance(s, str) and (sep is None or isinstance(sep, str)) and isinstance(maxsplit, int):
        return ip.wrap_list(ip.native_apply_raw(s.split, [sep, maxsplit]))
    if not isinstance(sep, str) or maxsplit != -1:
        if is_str(sep) and maxsplit == -1:
            # separator symbolic: uninterpreted pieces
            if p.decide(p.str_eq(sep, "")):
                raise PyExc(ValueError, ("empty separator",))
            e, se = p.enc(s), p.enc(sep)
            n = TCOUNT(e, se)
            p.assume(SBool(n >= 0))
            a = absof(s).alts[0]
            mk = lambda q, i: SStr([Op(TSPLIT(e, se, zint(i)), excl=a[2], alpha=a[1])])  # noqa: E731
            return PList.symbolic(p, SInt(n + 1), mk, AbsType([("str", a[1], a[2], 0)]))
        raise Unsupported("split with this separator")
    if sep == "":
        raise PyExc(ValueError, ("empty separator",))
    if len(sep) != 1:
        # multi-character separator: literal pieces, or pieces that cannot contain it
        parts = rope(ip, s)
        if len(parts) == 1 and isinstance(parts[0], Op):
            x = parts[0]
            if any(x.cannot_contain(c) for c in sep):
                return PList.concrete(p, [s])
            c = op_pred(ip, x, ("contains", sep), lambda t: sep in t)
            if not p.decide(c):
                return PList.concrete(p, [s])
            # last piece is what callers use
            f = z3.Function(f"txt_splitlast_{sep.encode().hex()}", Txt, Txt)
            e = f(x.e)
            p.textfn_axiom(x.e, f, lambda t: t.split(sep)[-1])
            n = p.fresh_int("nsplit")
            p.assume(n >= 2)
            def mk(q, i):
                if q.implied(cmp("==", i, arith("-", n, 1))):
                    return SStr([Op(e, excl=x.excl, alpha=x.alpha)])
                return q.fresh_txt("piece", excl=x.excl, alpha=x.alpha)
            return PList.symbolic(p, n, mk, AbsType([("str", x.alpha, x.excl, 0)]))
        if not any(_may_contain_any(x, sep) for x in parts if not isinstance(x, str)):
            raise Unsupported("split of a mixed text by a long separator")
        raise Unsupported("split of a mixed text by a long separator")
    groups = [[]]
    for x in rope(ip, s):
        if isinstance(x, str):
            bits = x.split(sep)
            groups[-1].append(bits[0])
            for b in bits[1:]:
                groups.append([b])
        elif isinstance(x, Op) and not x.cannot_contain(sep):
            if x.unit:
                if p.decide(SBool(x.e == p.lit(sep))):
                    groups.append([])
                else:
                    groups[-1].append(x)
                continue
            c = op_count(ip, x, sep)
            known = None
            for k in range(0, 7):
                if p.implied(SBool(c == k)):
                    known = k
                    break
            if known is None:
                if p.decide(SBool(c == 0)):
                    known = 0
                elif len(rope(ip, s)) == 1:
                    e, se = x.e, p.lit(sep)
                    excl = set(x.excl) | {sep}
                    def mk(q, i):
                        return SStr([Op(TSPLIT(e, se, zint(i)), excl=excl, alpha=x.alpha)])
                    return PList.symbolic(p, SInt(c + 1), mk, AbsType([("str", x.alpha, frozenset(excl), 0)]))
                else:
                    raise Unsupported("split of a text with an unknown number of separators")
            ops = []
            if known == 0:
                y = Op(x.e, excl=set(x.excl) | {sep}, minlen=x.minlen, alpha=x.alpha, sub=x.sub)
                groups[-1].append(y)
                continue
            for i in range(known + 1):
                ops.append(Op(TSPLIT(x.e, p.lit(sep), z3.IntVal(i)), excl=set(x.excl) | {sep}, alpha=x.alpha))
            ref = []
            for i, o in enumerate(ops):
                if i:
                    ref.append(sep)
                ref.append(o)
            p.refine(x, ref)
            groups[-1].append(ops[0])
            for o in ops[1:]:
                groups.append([o])
        elif isinstance(x, (Num, HexP, RealP)) and sep in _edge_chars(x):
            raise Unsupported("split inside a number rendering")
        else:
            groups[-1].append(x)
    return PList.concrete(p, [mkstr(g) for g in groups])


def _may_contain_any(x, chars):
    if isinstance(x, Op):
        return any(not x.cannot_contain(c) for c in chars)
    return bool(set(chars) & _edge_chars(x))


def replace_(ip, s, a, b):
    p = ip.path
    if all(isinstance(x, str) for x in (s, a, b)):
        return s.replace(a, b)
    if not isinstance(a, str) or a == "":
        raise Unsupported("replace of a symbolic text")
    out = []
    parts = rope(ip, s)
    for i in range(len(parts) - 1):
        if len(a) > 1 and not _no_straddle(parts[i], parts[i + 1], a):
            raise Unsupported("replace across pieces")
    for x in parts:
        if isinstance(x, str):
            bits = x.split(a)
            for j, t in enumerate(bits):
                if j:
                    out += parts_of(b)
                out.append(t)
        elif isinstance(x, Op):
            if any(x.cannot_contain(c) for c in a):
                out.append(x)
                continue
            f = z3.Function(f"txt_replace_{a.encode().hex()}", Txt, Txt, Txt)
            e = f(x.e, p.enc(b))
            if isinstance(b, str):
                lb = p.lit(b)
                p.textfn_axiom(x.e, lambda t, f=f, lb=lb: f(t, lb), lambda t: t.replace(a, b), tag=("replace", a, b))
            excl = set(x.excl)
            if isinstance(b, str):
                excl -= set(b)
                if len(a) == 1 and a not in b:
                    excl.add(a)
            else:
                excl = set()
            alpha = None
            if x.alpha is not None and isinstance(b, str):
                alpha = set(x.alpha) | set(b)
            out.append(Op(e, excl=excl, alpha=alpha))
        elif set(a) & _edge_chars(x):
            raise Unsupported("replace in a number rendering")
        else:
            out.append(x)
    return mkstr(out)


def case_(ip, s, name):
    p = ip.path
    if isinstance(s, str):
        return getattr(s, name)()
    out = []
    ps = rope(ip, s)
    if name in ("title", "capitalize") and len(ps) > 1:
        raise Unsupported(f"{name} of a compound text")
    for x in ps:
        if isinstance(x, str):
            out.append(getattr(x, name)())
        elif isinstance(x, Num):
            out.append(x)
        elif isinstance(x, HexP) and name in ("upper", "lower"):
            out.append(HexP(x.e, name == "lower"))
        elif isinstance(x, Op):
            f = z3.Function("txt_" + name, Txt, Txt)
            p.textfn_axiom(x.e, f, lambda t: getattr(t, name)())
            out.append(Op(f(x.e)))
        else:
            raise Unsupported(f"{name} of a rendering")
    return mkstr(out)


def isdigit_(ip, s, name="isdigit"):
    p = ip.path
    if isinstance(s, str):
        return getattr(s, name)()
    parts = rope(ip, s)
    if not parts:
        return False
    conds = []
    nonempty = False
    for x in parts:
        if isinstance(x, str):
            if not getattr(x, name)():
                return False
            nonempty = True
        elif isinstance(x, Num):
            if name in ("isspace", "isalpha"):
                return False
            conds.append(SBool(x.e >= 0))
            nonempty = True
        elif isinstance(x, Op):
            if name == "isspace" and SPACES <= x.excl and (x.unit or x.minlen > 0):
                return False
            if x.alpha is not None and not any(getattr(c, name)() for c in x.alpha):
                if x.unit or x.minlen > 0:
                    return False
                conds.append(SBool(p.oplen(x) <= 0))
                continue
            if x.alpha is not None and all(getattr(c, name)() for c in x.alpha):
                if x.unit or x.minlen > 0:
                    nonempty = True
                    continue
                if len(parts) == 1:
                    return SBool(p.oplen(x) > 0)
            c = op_pred(ip, x, (name,), lambda t: getattr(t, name)())
            if len(parts) > 1:
                raise Unsupported("isdigit of a mixed text")
            return c
        elif isinstance(x, RealP):
            return False
        else:
            raise Unsupported("isdigit of a hex rendering")
    return land(conds) if conds else nonempty


def join_(ip, sep, it):
    p = ip.path
    if ip.loops.enabled and isinstance(sep, str) and sep == "" and ((isinstance(it, I().GenObj) and not it.used) or (isinstance(it, PList) and it.items is None)):
        # text + text + ...
        frame = I().Frame({}, None, "<join>", None, p)
        frame.locals["joined"] = ""

        def add(x):
            if not is_str(x):
                raise PyExc(TypeError, ("sequence item: expected str instance",))
            ip.assign_name("joined", concat(ip.lookup("joined", frame), x), frame)

        if isinstance(it, PList):
            ip.loops.run(ast.Pass(lineno=0), ip.iterator(it), add, [], [], frame)
        else:
            it.use()
            it.run(add)
        return ip.lookup("joined", frame)
    seq = ip.sequence(it)
    if seq is None and isinstance(it, PList):
        h = getattr(ip, "join_hook", None)
        if h:
            r = h(ip, sep, it)
            if r is not None:
                return r
        raise Unsupported("join of a list of symbolic length")
    if seq is None:
        it2 = ip.iterator(it)
        if isinstance(it2, PList):
            seq = it2.items
        elif isinstance(it2, list):
            seq = it2
        else:
            raise Unsupported("join of a symbolic sequence")
    out = ""
    for i, x in enumerate(seq):
        if not is_str(x):
            raise PyExc(TypeError, ("sequence item: expected str instance",))
        if i:
            out = concat(out, sep)
        out = concat(out, x)
    return out


def str_iter(ip, s):
    parts = rope(ip, s)
    if all(isinstance(x, str) or (isinstance(x, Op) and x.unit) for x in parts):
        out = []
        for x in parts:
            out += list(x) if isinstance(x, str) else [SStr([x])]
        return out
    return I().SymIter(ip.path.strlen(s), lambda i: char_at(ip, s, i), src=s)


def str_method(ip, s, name):
    B = I().Builtin

    def nat(args):
        return all(_plain(a) for a in args)

    def wrap(f):
        return B(name, f)

    if name == "join":
        return wrap(lambda a, k: join_(ip, s, a[0]))
    if name == "format":
        return wrap(lambda a, k: str_format(ip, s, a, k))
    if isinstance(s, str):
        meth = getattr(s, name, None)
        if meth is None:
            return None

        def call_native(a, k):
            if nat(a) and nat(list(k.values())):
                return ip.native_apply(meth, a, k)
            return sym(a, k)
    else:
        call_native = None

    def sym(a, k):
        if name in ("startswith", "endswith"):
            if len(a) != 1:
                raise Unsupported(f"{name} with bounds")
            return starts_with(ip, s, a[0]) if name == "startswith" else ends_with(ip, s, a[0])
        if name in ("strip", "lstrip", "rstrip"):
            return strip_(ip, s, a[0] if a else None, name != "rstrip", name != "lstrip")
        if name == "count":
            return count_(ip, s, a[0])
        if name == "split":
            sep = a[0] if a else k.get("sep")
            return split_(ip, s, sep, a[1] if len(a) > 1 else k.get("maxsplit", -1))
        if name == "replace":
            return replace_(ip, s, a[0], a[1])
        if name in ("lower", "upper", "title", "capitalize", "casefold"):
            return case_(ip, s, name)
        if name in ("isdigit", "isdecimal", "isnumeric", "isspace", "isalpha", "isalnum"):
            return isdigit_(ip, s, name)
        if name == "removeprefix":
            if ip.path.decide(starts_with(ip, s, a[0])):
                return take_left(ip, s, len(a[0]))[1]
            return s
        if name == "removesuffix":
            if ip.path.decide(ends_with(ip, s, a[0])):
                return take_right(ip, s, len(a[0]))[0]
            return s
        if name in ("partition", "rpartition"):
            lst = split_(ip, s, a[0])
            if lst.items is None:
                raise Unsupported(name)
            it = lst.items
            if len(it) == 1:
                return (it[0], "", "") if name == "partition" else ("", "", it[0])
            if name == "partition":
                return (it[0], a[0], join_(ip, a[0], tuple(it[1:])))
            return (join_(ip, a[0], tuple(it[:-1])), a[0], it[-1])
        if name in ("rsplit",):
            lst = split_(ip, s, a[0])
            mx = a[1] if len(a) > 1 else k.get("maxsplit", -1)
            if lst.items is None or not isinstance(mx, int):
                raise Unsupported("rsplit")
            it = lst.items
            if mx < 0 or len(it) <= mx + 1:
                return lst
            cut = len(it) - mx
            return PList.concrete(ip.path, [join_(ip, a[0], tuple(it[:cut]))] + it[cut:])
        if name == "encode":
            return s
        raise Unsupported(f"str.{name} on a symbolic text")

    if isinstance(s, SStr) and getattr(str, name, None) is None:
        return None
    return wrap(call_native or sym)


# ------------------------------------------------------------------------- lists, dicts, tuples


def list_extend(ip, lst, other):
    seq = ip.sequence(other)
    if seq is None:
        it = ip.iterator(other)
        if isinstance(it, PList):
            seq = list(it.items)
        elif isinstance(it, list):
            seq = it
        else:
            if lst.items is not None and not lst.items:
                n = it.n
                src = it
                lst.log()
                lst.items = None
                lst.n = n
                lst.known = []
                lst.base = lambda p, i: src.get(i)
                lst.base_type = AbsType([])
                return
            raise Unsupported("extend by a symbolic sequence")
    for x in list(seq):
        lst.append(x)


def concat_lists(ip, a, b):
    """a + b with at least one symbolic length."""
    p = ip.path
    na, nb = a.length(), b.length()
    n = arith("+", na, nb)
    ca = snapshot(ip, a)
    cb = snapshot(ip, b)

    def mk(q, i):
        if q.decide(cmp("<", i, na)):
            return ca.at(i)
        return cb.at(arith("-", i, na))

    return PList.symbolic(p, n, mk, absof_list(a).join(absof_list(b)))


def absof_list(lst):
    t = AbsType([])
    try:
        return absof(lst).alts[0][1]
    except Unsupported:
        return t


def snapshot(ip, lst):
    """A list with the same contents (copy)."""
    p = ip.path
    if lst.items is not None:
        return PList.concrete(p, list(lst.items))
    c = PList.symbolic(p, lst.n, None, lst.base_type)
    c.known = [list(e) for e in lst.known]
    frozen_known = [list(e) for e in lst.known]
    src = lst
    base = lst.base

    def mk(q, i):
        # an element the original has not materialised yet: materialise it there if the
        # original still maps that index to its base
        if base is None:
            raise Infeasible()
        memo = q.memo.setdefault(("basecells", src.tag), [])
        for k, v in memo:
            if q.decide(cmp("==", i, k)):
                return v
        v = base(q, i)
        memo.append((i, v))
        return v

    c.base = mk
    if base is not None:
        lst.base = mk
    c.role = lst.role
    return c


def list_slice(ip, lst, sl):
    p = ip.path
    if lst.items is not None and all(x is None or isinstance(x, int) for x in (sl.a, sl.b, sl.c)):
        return PList.concrete(p, lst.items[sl.a:sl.b:sl.c])
    if sl.c not in (None, 1):
        raise Unsupported("extended slice of a symbolic list")
    n = lst.length()
    lo, hi = _clamp(sl.a, n, 0), _clamp(sl.b, n, n)
    hi = ite(cmp("<", hi, lo), lo, hi)
    src = snapshot(ip, lst)
    m = arith("-", hi, lo)
    return PList.symbolic(p, m, lambda q, i: src.at(arith("+", i, lo)), absof_list(lst))


def getitem(ip, o, k):
    p = ip.path
    S = I().SliceV
    if isinstance(o, Poison):
        raise Unsupported(f"use of {o!r}")
    if isinstance(o, Obj):
        c = ip.class_lookup(o.cls, "__getitem__")
        if c is I()._UNSET:
            raise PyExc(TypeError, ("object is not subscriptable",))
        return ip.call(c, [o, k])
    if is_str(o):
        if isinstance(k, S):
            return str_slice(ip, o, k)
        if not is_intlike(k):
            raise PyExc(TypeError, ("string indices must be integers",))
        if isinstance(o, str) and isinstance(k, int):
            return ip.native_apply(operator.getitem, [o, k], {})
        return str_index(ip, o, k)
    if isinstance(o, tuple):
        o = tuple(forced(x) for x in o) if any(isinstance(x, Lazy) for x in o) and not (isinstance(k, int) and -len(o) <= k < len(o)) else o
        if isinstance(k, S):
            if all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)):
                return o[k.a:k.b:k.c]
            raise Unsupported("symbolic slice of a tuple")
        if isinstance(k, SInt):
            lst = PList.concrete(p, list(o))
            return lst.get(k)
        if not isinstance(k, int):
            raise PyExc(TypeError, ("tuple indices must be integers",))
        if not -len(o) <= k < len(o):
            raise PyExc(IndexError, ("tuple index out of range",))
        return forced(o[k])
    if isinstance(o, PList):
        if isinstance(k, S):
            return list_slice(ip, o, k)
        if isinstance(k, SInt) and o.items is not None and o.items and all(_introw(x) for x in o.items) and len(o.items) > 12:
            return table_lookup(ip, o, k)
        return o.get(k)
    if isinstance(o, PDict):
        v = o.lookup(k)
        if v is ABSENT:
            raise PyExc(KeyError, (k,))
        return v
    if isinstance(o, I().Model):
        return o.get(ip, "__getitem__").f([k], {})
    if isinstance(o, re.Match):
        return ip.native_apply(operator.getitem, [o, k], {})
    if isinstance(o, RopeMatch):
        return o.group(k)
    if isinstance(o, type) and issubclass(o, enum.Enum):
        if isinstance(k, str):
            try:
                return o[k]
            except KeyError:
                raise PyExc(KeyError, (k,))
    if isinstance(o, range) and _plain(k):
        return ip.native_apply(operator.getitem, [o, k], {})
    if o is None or is_numlike(o):
        raise PyExc(TypeError, ("object is not subscriptable",))
    if isinstance(o, type) or getattr(o, "__module__", "") == "typing":
        return o
    raise Unsupported(f"subscript of {o!r}")


def _introw(x):
    return isinstance(x, tuple) and all(isinstance(y, int) for y in x)


def table_lookup(ip, lst, k):
    """Constant table of integer tuples at a symbolic index: a tuple of nested conditionals."""
    i = lst.norm_index(k)
    if isinstance(i, int):
        return lst.items[i]
    rows = lst.items
    width = len(rows[0])
    if any(len(r) != width for r in rows):
        raise Unsupported("ragged table")
    key = ("table", lst.tag, width)
    fs = ip.path.memo.get(key)
    if fs is None:
        fs = [z3.Function(f"table_{lst.tag}_{c}", z3.IntSort(), z3.IntSort()) for c in range(width)]
        for j, r in enumerate(rows):
            for c in range(width):
                ip.path.assume(SBool(fs[c](z3.IntVal(j)) == r[c]))
        ip.path.memo[key] = fs
    for c in range(width):
        vals = [r[c] for r in rows]
        ip.path.assume(SBool(z3.And(fs[c](zint(i)) >= min(vals), fs[c](zint(i)) <= max(vals))))
    return tuple(SInt(fs[c](zint(i))) for c in range(width))


def list_method(ip, lst, name):
    p = ip.path
    B = I().Builtin

    def f(a, k):
        if name == "append":
            lst.append(a[0])
            return None
        if name == "extend":
            list_extend(ip, lst, a[0])
            return None
        if name == "pop":
            return lst.pop(*a)
        if name == "clear":
            lst.clear()
            return None
        if name == "copy":
            return snapshot(ip, lst)
        if name == "insert":
            if lst.items is None or not isinstance(a[0], int):
                raise Unsupported("insert")
            lst.log()
            lst.items.insert(a[0], a[1])
            return None
        if name == "reverse":
            if lst.items is None:
                raise Unsupported("reverse")
            lst.log()
            lst.items.reverse()
            return None
        if name in ("index", "remove", "count"):
            if lst.items is None:
                raise Unsupported(name)
            if name == "count":
                tot = 0
                for x in lst.items:
                    c = ip.eq(x, a[0])
                    tot = arith("+", tot, ite(c, 1, 0)) if is_sym(tot) or is_sym(c) else tot + (1 if c else 0)
                return tot
            for i, x in enumerate(lst.items):
                if p.decide(ip.eq(x, a[0])):
                    if name == "remove":
                        lst.log()
                        del lst.items[i]
                        return None
                    return i
            raise PyExc(ValueError, ("not in list",))
        if name == "sort":
            r = sorted_(ip, [lst], k)
            lst.log()
            lst.items = r.items
            lst.n, lst.base, lst.known = r.n, r.base, r.known
            return None
        raise Unsupported(f"list.{name}")

    if getattr(list, name, None) is None:
        return None
    if name == "__setitem__":
        return B(name, lambda a, k: lst.set(a[0], a[1]))
    if name == "__len__":
        return B(name, lambda a, k: lst.length())
    return B(name, f)


class DictView:
    """keys/values/items of a dict with unknown entries."""

    def __init__(self, d, kind):
        self.d, self.kind = d, kind


def dict_method(ip, d, name):
    p = ip.path
    B = I().Builtin

    def f(a, k):
        if name == "get":
            v = d.lookup(a[0])
            if v is ABSENT:
                return a[1] if len(a) > 1 else None
            return v
        if name in ("items", "keys", "values"):
            if d.base is not None:
                h = getattr(ip, "entries_hook", None)
                r = h(ip, d, name) if h is not None else None
                return DictView(d, name) if r is None else r
            ents = d.entries()
            if name == "items":
                return PList.concrete(p, [(x, y) for x, y in ents])
            return PList.concrete(p, [x if name == "keys" else y for x, y in ents])
        if name == "update":
            for src in a:
                if isinstance(src, PDict):
                    for x, y in src.entries():
                        d.store(x, y)
                else:
                    for pair in ip.sequence(src):
                        x, y = ip.sequence(pair)
                        d.store(x, y)
            for x, y in k.items():
                d.store(x, y)
            return None
        if name == "pop":
            v = d.lookup(a[0])
            if v is ABSENT:
                if len(a) > 1:
                    return a[1]
                raise PyExc(KeyError, (a[0],))
            d.log()
            d._find(a[0])[1] = ABSENT
            return v
        if name == "setdefault":
            v = d.lookup(a[0])
            if v is ABSENT:
                v = a[1] if len(a) > 1 else None
                d.store(a[0], v)
            return v
        if name == "clear":
            d.clear()
            return None
        if name == "copy":
            c = PDict(p)
            if d.base is not None:
                raise Unsupported("copy of a dict with unknown entries")
            c.known = [list(e) for e in d.known]
            return c
        if name == "__setitem__":
            d.store(a[0], a[1])
            return None
        if name == "__contains__":
            return d.lookup(a[0]) is not ABSENT
        if name == "__getitem__":
            return getitem(ip, d, a[0])
        if name == "__len__":
            return len(d.entries())
        raise Unsupported(f"dict.{name}")

    if getattr(dict, name, None) is None:
        return None
    return B(name, f)


def pattern_method(ip, pat, name):
    B = I().Builtin

    def f(a, k):
        if all(_plain(x) for x in a) and all(_plain(x) for x in k.values()):
            r = ip.native_apply(getattr(pat, name), a, k)
            if name == "finditer":
                return list(r)
            if isinstance(r, list):
                return ip.wrap_list(r)
            return r
        h = getattr(ip, "regex_hook", None)
        if h is not None:
            r = h(ip, pat, name, a)
            if r is not NotImplemented:
                return r
        from . import ropere

        return ropere.apply(ip, pat, name, a, k)

    if getattr(pat, name, None) is None:
        return None
    if name == "pattern":
        return pat.pattern
    return B(name, f)


def method(ip, o, name):
    B = I().Builtin
    if is_str(o):
        return str_method(ip, o, name)
    if isinstance(o, PList):
        return list_method(ip, o, name)
    if isinstance(o, PDict):
        return dict_method(ip, o, name)
    if isinstance(o, re.Pattern):
        return pattern_method(ip, o, name)
    if isinstance(o, (re.Match,)):
        m = getattr(o, name, None)
        if callable(m):
            return B(name, lambda a, k: ip.native_apply(m, a, k))
        return m
    if isinstance(o, RopeMatch):
        if name in ("group", "groups", "start", "end", "span"):
            return B(name, lambda a, k: getattr(o, name)(*a))
        raise Unsupported(f"match.{name}")
    if isinstance(o, tuple):
        if name in ("index", "count"):
            return list_method(ip, PList.concrete(ip.path, [forced(x) for x in o]), name)
    if isinstance(o, (bytes, int, float, range, set, frozenset)) and hasattr(o, name):
        m = getattr(o, name)
        if callable(m):
            return B(name, lambda a, k: ip.native_apply(m, a, k))
        return m
    if isinstance(o, SReal) and name == "is_integer":
        return B(name, lambda a, k: SBool(z3.ToReal(z3.ToInt(o.e)) == o.e))
    if isinstance(o, PyExc) and name == "args":
        return tuple(o.args_)
    if isinstance(o, I().Fn) and name in ("__name__", "__qualname__"):
        return o.name
    if isinstance(o, functools.partial) and name == "func":
        return o.func
    if isinstance(o, dataclasses.Field) and name in ("name", "init", "compare", "default", "metadata"):
        return getattr(o, name)
    if isinstance(o, types.FunctionType) and name in ("__name__", "__qualname__", "__doc__"):
        return getattr(o, name)
    if isinstance(o, types.FunctionType) and name == "__wrapped__":
        return o.__wrapped__
    if isinstance(o, I()._LRU) and name == "cache_clear":
        return B(name, lambda a, k: None)
    return None


# ------------------------------------------------------------------------- builtins


def _native_or(f):
    """Decorator: concrete arguments run natively."""

    def deco(sym):
        def h(ip, args, kw):
            if all(_plain(a) for a in args) and all(_plain(a) for a in kw.values()):
                return ip.native_apply(f, args, kw)
            return sym(ip, args, kw)

        return h

    return deco


def b_len(ip, args, kw):
    (v,) = args
    if is_str(v):
        return ip.path.strlen(v)
    if isinstance(v, PList):
        return v.length()
    if isinstance(v, PDict):
        return len(v.entries())
    if isinstance(v, tuple):
        return len(v)
    if isinstance(v, Obj):
        c = ip.class_lookup(v.cls, "__len__")
        if c is I()._UNSET:
            raise PyExc(TypeError, ("object has no len()",))
        return ip.call(c, [v])
    if isinstance(v, I().SymIter):
        return v.n
    if isinstance(v, I().Model):
        return v.get(ip, "__len__").f([], {})
    if v is None or is_numlike(v):
        raise PyExc(TypeError, ("object has no len()",))
    return ip.native_apply(len, args, kw)


def b_range(ip, args, kw):
    if all(isinstance(a, int) for a in args):
        return ip.native_apply(range, args, {})
    for a in args:
        if not is_intlike(a):
            raise PyExc(TypeError, ("range() integer argument expected",))
    lo, hi, st = 0, None, 1
    if len(args) == 1:
        hi = args[0]
    elif len(args) == 2:
        lo, hi = args
    else:
        lo, hi, st = args
    if not isinstance(st, int) or st == 0:
        raise Unsupported("range step")
    if st == 1:
        n = arith("-", hi, lo)
        n = ite(cmp("<", n, 0), 0, n)
        if lo == 0 and not is_sym(lo):
            it = I().SymIter(n, lambda i: i)
        else:
            it = I().SymIter(n, lambda i: arith("+", lo, i))
        it.range = (lo, hi)
        return it
    if st == -1:
        n = arith("-", lo, hi)
        n = ite(cmp("<", n, 0), 0, n)
        return I().SymIter(n, lambda i: arith("-", lo, i))
    raise Unsupported("range step")


def b_enumerate(ip, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    it = ip.iterator(args[0])
    if isinstance(it, I().GenObj):
        it = ip.collect(it)
    add = (lambda i: i) if (not is_sym(start) and start == 0) else (lambda i: arith("+", i, start) if is_sym(i) or is_sym(start) else i + start)
    if isinstance(it, I().SymIter):
        return I().SymIter(it.n, lambda i: (add(i), it.get(i)), src=it.src)
    if isinstance(it, PList):
        return I().SymIter(len(it.items), lambda i: (add(i), it.items[i]), src=it) if False else _EnumLive(it, add)
    return [(add(i), x) for i, x in enumerate(it)]


class _EnumLive:
    """enumerate() over a live concrete list."""

    def __init__(self, lst, add):
        self.lst, self.add = lst, add

    def __len__(self):
        if self.lst.items is None:
            raise Unsupported("list became symbolic while being iterated")
        return len(self.lst.items)

    def __getitem__(self, i):
        return (self.add(i), self.lst.items[i])


def b_zip(ip, args, kw):
    its = [ip.iterator(a) for a in args]
    its = [ip.collect(i) if isinstance(i, I().GenObj) else i for i in its]
    if any(isinstance(i, I().SymIter) and is_sym(i.n) for i in its):
        ns, gets = [], []
        for i in its:
            if isinstance(i, I().SymIter):
                ns.append(i.n)
                gets.append(i.get)
            else:
                seq = i.items if isinstance(i, PList) else list(i)
                ns.append(len(seq))
                lst = PList.concrete(ip.path, seq)
                gets.append(lst.at)
        n = ns[0]
        for m in ns[1:]:
            n = ite(cmp("<", m, n), m, n)
        return I().SymIter(n, lambda i: tuple(g(i) for g in gets))
    seqs = [i.items if isinstance(i, PList) else ([i.get(j) for j in range(i.n)] if isinstance(i, I().SymIter) else list(i)) for i in its]
    return [tuple(t) for t in zip(*seqs)]


def b_map(ip, args, kw):
    f, src = args[0], args[1:]
    its = [ip.iterator(s) for s in src]
    if len(its) == 1:
        it = its[0]
        if isinstance(it, I().SymIter):
            return I().SymIter(it.n, lambda i: ip.call(f, [it.get(i)]), src=None)
        if isinstance(it, I().GenObj):
            it = ip.collect(it)
        seq = it.items if isinstance(it, PList) else it
        return PList.concrete(ip.path, [ip.call(f, [x]) for x in list(seq)])
    z = b_zip(ip, src, {})
    if isinstance(z, I().SymIter):
        return I().SymIter(z.n, lambda i: ip.call(f, list(z.get(i))))
    return PList.concrete(ip.path, [ip.call(f, list(t)) for t in z])


def b_filter(ip, args, kw):
    f, src = args
    seq = _seq(ip, src)
    return PList.concrete(ip.path, [x for x in seq if ip.truth(x if f is None else ip.call(f, [x]))])


def _seq(ip, v):
    it = ip.iterator(v)
    if isinstance(it, I().GenObj):
        return ip.collect(it)
    if isinstance(it, PList):
        return list(it.items)
    if isinstance(it, I().SymIter):
        if isinstance(it.n, int):
            return [it.get(i) for i in range(it.n)]
        raise Unsupported("sequence of symbolic length")
    return [it[i] for i in range(len(it))]


def b_reversed(ip, args, kw):
    it = ip.iterator(args[0])
    if isinstance(it, I().SymIter) and is_sym(it.n):
        return I().SymIter(it.n, lambda i: it.get(arith("-", arith("-", it.n, 1), i)))
    return PList.concrete(ip.path, list(reversed(_seq(ip, args[0]))))


def sorted_(ip, args, kw):
    p = ip.path
    v = args[0]
    h = getattr(ip, "sorted_hook", None)
    if h is not None:
        r = h(ip, v, kw)
        if r is not None:
            return r
    seq = _seq(ip, v)
    key = kw.get("key")
    rev = kw.get("reverse", False)
    ks = [x if key is None else ip.call(key, [x]) for x in seq]
    if all(_const_key(k) for k in ks):
        try:
            order = sorted(range(len(seq)), key=lambda i: ks[i], reverse=bool(rev))
        except TypeError as exc:
            raise PyExc(TypeError, exc.args)
        return PList.concrete(p, [seq[i] for i in order])
    if len(seq) > 5:
        raise Unsupported("sorting many symbolic keys")
    out = []
    for i, x in enumerate(seq):
        pos = len(out)
        while pos > 0:
            c = ip.compare(ast.Lt() if not rev else ast.Gt(), ks[i], out[pos - 1][0])
            if ip.truth(c):
                pos -= 1
            else:
                break
        out.insert(pos, (ks[i], x))
    return PList.concrete(p, [x for _, x in out])


def b_minmax(which):
    def h(ip, args, kw):
        key = kw.get("key")
        if len(args) == 1:
            seq = _seq(ip, args[0])
            if not seq:
                if "default" in kw:
                    return kw["default"]
                raise PyExc(ValueError, (f"{which}() arg is an empty sequence",))
        else:
            seq = list(args)
        ks = [x if key is None else ip.call(key, [x]) for x in seq]
        if all(_const_key(k) for k in ks):
            f = min if which == "min" else max
            i = ip.native_apply(lambda: f(range(len(seq)), key=lambda j: ks[j]), [], {})
            return seq[i]
        op = "<" if which == "min" else ">"
        best, bk = seq[0], ks[0]
        if all(is_numlike(k) for k in ks) and all(is_numlike(x) for x in seq):
            mixed = any(is_reallike(x) for x in seq) and any(not is_reallike(x) for x in seq)
            for x, k in zip(seq[1:], ks[1:]):
                c = cmp(op, k, bk)
                best = ite(c, x, best)
                bk = ite(c, k, bk)
            if mixed:
                ip.path.ex.trusted.add("min/max of ints and floats: the result is treated as a real")
            return best
        for x, k in zip(seq[1:], ks[1:]):
            if ip.truth(ip.compare(ast.Lt() if which == "min" else ast.Gt(), k, bk)):
                best, bk = x, k
        return best

    return h


def b_anyall(which):
    def h(ip, args, kw):
        v = args[0]
        if isinstance(v, I().GenObj):
            h2 = getattr(ip, "anyall_hook", None)
            if h2:
                r = h2(ip, which, v)
                if r is not None:
                    return r
            r = _anyall_symbolic(ip, which, v)
            if r is not None:
                return r
        seq = _seq(ip, v)
        acc = []
        for x in seq:
            if isinstance(x, (bool, SBool)):
                acc.append(x)
            else:
                acc.append(ip.truth(x))
            if not is_sym(acc[-1]) and acc[-1] == (which == "any"):
                if all(not is_sym(a) for a in acc):
                    return which == "any"
        if which == "any":
            return lor(acc) if acc else False
        return land(acc) if acc else True

    return h


def _anyall_symbolic(ip, which, g):
    """any/all of a generator expression over a sequence of symbolic length: quantified."""
    comp = getattr(g, "comp", None)
    if comp is None:
        return None
    e, frame = comp
    if len(e.generators) != 1 or e.generators[0].ifs:
        return None
    src = ip.ev(e.generators[0].iter, frame)
    it = ip.iterator(src)
    if isinstance(it, (I().GenObj,)):
        raise Unsupported("any/all over a generator")
    if not (isinstance(it, I().SymIter) and is_sym(it.n)):
        seq = it.items if isinstance(it, PList) else ([it.get(i) for i in range(it.n)] if isinstance(it, I().SymIter) else [it[i] for i in range(len(it))])
        cf = I().Frame(frame.globals, frame, "<comp>", None, ip.path)
        acc = []
        for x in seq:
            ip.assign(e.generators[0].target, x, cf)
            v = ip.ev(e.elt, cf)
            acc.append(v if isinstance(v, (bool, SBool)) else ip.truth(v))
            if not is_sym(acc[-1]) and acc[-1] == (which == "any") and all(not is_sym(a) for a in acc):
                return which == "any"
        if which == "any":
            return lor(acc) if acc else False
        return land(acc) if acc else True
    # memoise by the text of the element and the source
    g.used = True
    key = None
    if isinstance(it.src, SStr):
        key = f"{which}:{ast.dump(e.elt)}:{ip.path.enc(it.src).sexpr()}"
        memo = ip.path.memo
        if key in memo:
            return memo[key]
    b = ip.path.fresh_bool(f"{which}_sym")
    if key is not None:
        ip.path.memo[key] = b
    ip.path.ex.trusted.add(f"{which}() over a text of symbolic length is an unconstrained boolean")
    return b


def b_sum(ip, args, kw):
    seq = _seq(ip, args[0])
    tot = args[1] if len(args) > 1 else 0
    for x in seq:
        tot = binop(ip, ast.Add(), tot, x)
    return tot


def b_abs(ip, args, kw):
    (a,) = args
    if is_sym(a):
        return ite(cmp("<", a, 0), arith("-", 0, a), a)
    return ip.native_apply(abs, args, kw)


def b_round(ip, args, kw):
    a = args[0]
    nd = args[1] if len(args) > 1 else kw.get("ndigits")
    if not is_sym(a):
        return ip.native_apply(round, args, kw)
    if nd is None:
        if isinstance(a, SReal):
            return SInt(round_half_even(a.e))
        return a
    if isinstance(a, (SInt, SBool)):
        return a
    if not isinstance(nd, int):
        raise Unsupported("round digits")
    p = ip.path
    r = ROUNDN(a.e, z3.IntVal(nd))
    half = z3.RealVal(f"1/{2 * 10 ** nd}")
    p.assume(SBool(z3.And(r - a.e <= half, a.e - r <= half)))
    return SReal(r)


def b_int(ip, args, kw):
    p = ip.path
    if not args:
        return 0
    v = args[0]
    base = args[1] if len(args) > 1 else kw.get("base", 10)
    if isinstance(v, SReal):
        return SInt(trunc(v.e))
    if isinstance(v, SBool):
        return SInt(zint(v))
    if isinstance(v, SInt):
        return v
    if isinstance(v, SStr):
        parts = rope(ip, v)
        if not parts:
            raise PyExc(ValueError, ("invalid literal for int()",))
        if base == 10 and len(parts) == 1 and isinstance(parts[0], Num):
            return SInt(parts[0].e)
        if base == 16 and len(parts) == 1 and isinstance(parts[0], HexP):
            return SInt(parts[0].e)
        if len(parts) == 1 and isinstance(parts[0], Op):
            x = parts[0]
            if base == 10 and x.alpha is not None and not any(c.isdecimal() for c in x.alpha):
                raise PyExc(ValueError, ("invalid literal for int()",))
            ok = op_pred(ip, x, ("isint", base), lambda t: _is_int(t, base))
            if not p.decide(ok):
                raise PyExc(ValueError, ("invalid literal for int()",))
            e = TINT(x.e, z3.IntVal(base))
            p.intfn_axiom(x.e, e, lambda t: int(t, base) if _is_int(t, base) else 0, key=("int", base))
            if x.alpha is not None and not ({"-"} & set(x.alpha)):
                p.assume(SBool(e >= 0))
            dig = op_pred(ip, x, ("isdigit",), lambda t: t.isdigit())
            p.assume(SBool(z3.Implies(zbool(dig), e >= 0)))
            return SInt(e)
        if any(isinstance(x, RealP) for x in parts):
            raise PyExc(ValueError, ("invalid literal for int()",))
        # a literal piece with a character no integer text contains
        for x in parts:
            if isinstance(x, str) and any(not (c.isalnum() or c in "+-_ \t\n\r\f\v") for c in x):
                raise PyExc(ValueError, ("invalid literal for int()",))
        f = z3.Function("txt_isint", Txt, z3.IntSort(), z3.BoolSort())
        e = p.enc(v)
        if not p.decide(SBool(f(e, z3.IntVal(base)))):
            raise PyExc(ValueError, ("invalid literal for int()",))
        return SInt(TINT(e, z3.IntVal(base)))
    if v is None or isinstance(v, (Obj, tuple, PList, PDict)):
        raise PyExc(TypeError, ("int() argument must be a string or a number",))
    return ip.native_apply(int, args, kw)


def _is_int(t, base):
    try:
        int(t, base)
        return True
    except ValueError:
        return False


def _is_float(t):
    try:
        float(t)
        return True
    except ValueError:
        return False


def b_float(ip, args, kw):
    p = ip.path
    if not args:
        return 0.0
    v = args[0]
    if isinstance(v, SReal):
        return v
    if isinstance(v, (SInt, SBool)):
        return SReal(zreal(v))
    if isinstance(v, SStr):
        parts = rope(ip, v)
        if len(parts) == 1 and isinstance(parts[0], RealP) and parts[0].spec == "":
            p.ex.trusted.add("float(str(x)) == x")
            return SReal(parts[0].e)
        if len(parts) == 1 and isinstance(parts[0], Num):
            return SReal(z3.ToReal(parts[0].e))
        if len(parts) == 1 and isinstance(parts[0], Op):
            x = parts[0]
            ok = op_pred(ip, x, ("isfloat",), _is_float)
            if not p.decide(ok):
                raise PyExc(ValueError, ("could not convert string to float",))
            return SReal(TFLOAT(x.e))
        f = z3.Function("txt_isfloat", Txt, z3.BoolSort())
        e = p.enc(v)
        if not p.decide(SBool(f(e))):
            raise PyExc(ValueError, ("could not convert string to float",))
        return SReal(TFLOAT(e))
    if v is None or isinstance(v, (Obj, tuple, PList, PDict)):
        raise PyExc(TypeError, ("float() argument",))
    return ip.native_apply(float, args, kw)


def b_bool(ip, args, kw):
    if not args:
        return False
    v = args[0]
    if isinstance(v, SBool):
        return v
    return ip.truth(v)


def b_str(ip, args, kw):
    return str_(ip, args[0]) if args else ""


def b_list(ip, args, kw):
    if not args:
        return PList.concrete(ip.path, [])
    if isinstance(args[0], DictView):
        return dictview_list(ip, args[0])
    return ip.to_list(args[0])


def dictview_list(ip, view):
    h = getattr(ip, "dictview_hook", None)
    if h is None:
        raise Unsupported("list of a dict with unknown entries")
    return h(ip, view)


def b_tuple(ip, args, kw):
    if not args:
        return ()
    return tuple(_seq(ip, args[0]))


def b_dict(ip, args, kw):
    d = PDict(ip.path)
    if args:
        v = args[0]
        if isinstance(v, PDict):
            if v.base is not None:
                raise Unsupported("copy of a dict with unknown entries")
            d.known = [[k, x] for k, x in v.entries()]
        else:
            for pair in _seq(ip, v):
                k, x = ip.sequence(pair)
                d.store(k, x)
    for k, x in kw.items():
        d.store(k, x)
    return d


def b_set(ip, args, kw):
    if not args:
        return set()
    seq = _seq(ip, args[0])
    if all(_const_key(x) for x in seq):
        return set(seq)
    raise Unsupported("symbolic set")


_TYPEMAP = {
    str: lambda v: is_str(v),
    int: lambda v: is_intlike(v),
    float: lambda v: is_reallike(v),
    bool: lambda v: isinstance(v, (bool, SBool)),
    list: lambda v: isinstance(v, PList),
    dict: lambda v: isinstance(v, PDict),
    tuple: lambda v: isinstance(v, tuple),
}


def b_isinstance(ip, args, kw):
    v, t = args
    if isinstance(v, Poison):
        raise Unsupported(f"use of {v!r}")
    if isinstance(t, tuple):
        return any(b_isinstance(ip, [v, x], {}) for x in t)
    if t in _TYPEMAP:
        return _TYPEMAP[t](v)
    if isinstance(v, Obj):
        if isinstance(t, I().LocalClass):
            return v.cls is t
        return isinstance(v.cls, type) and isinstance(t, type) and issubclass(v.cls, t)
    if isinstance(v, PyExc):
        return ip.exc_matches(v, t)
    if isinstance(v, (SVal, PList, PDict)) or v is None or isinstance(v, (str, int, float, tuple)):
        if t is object:
            return True
        import collections.abc as cabc
        import types as ty

        if isinstance(t, ty.UnionType):
            return any(b_isinstance(ip, [v, x], {}) for x in t.__args__)
        sample = "" if is_str(v) else True if isinstance(v, (bool, SBool)) else 0 if is_intlike(v) else 0.0 if is_reallike(v) else [] if isinstance(v, PList) else {} if isinstance(v, PDict) else v
        return isinstance(sample, t)
    if isinstance(v, I().Model):
        r = getattr(v, "instance_of", None)
        return t in r if r else False
    return isinstance(v, t)


def b_callable(ip, args, kw):
    v = args[0]
    if isinstance(v, (I().Fn, I().Bound, I().Builtin, I().LocalClass)):
        return True
    if isinstance(v, I().Model):
        return hasattr(v, "m___call__")
    if isinstance(v, Obj):
        return ip.class_lookup(v.cls, "__call__") is not I()._UNSET
    if isinstance(v, (SVal, PList, PDict)):
        return False
    return callable(v)


def b_getattr(ip, args, kw):
    name = args[1]
    if not isinstance(name, str):
        raise Unsupported("getattr with a symbolic name")
    if len(args) > 2:
        try:
            return ip.getattr(args[0], name)
        except PyExc as exc:
            if exc.etype is AttributeError:
                return args[2]
            raise
    return ip.getattr(args[0], name)


def b_hasattr(ip, args, kw):
    try:
        ip.getattr(args[0], args[1])
        return True
    except PyExc as exc:
        if exc.etype is AttributeError:
            return False
        raise


def b_setattr(ip, args, kw):
    ip.setattr(args[0], args[1], args[2])


def object_setattr(ip, args, kw):
    o, name, v = args
    if not isinstance(o, Obj):
        raise Unsupported("object.__setattr__ on a non-instance")
    ip.setattr(o, name, v, raw=True)


def b_type(ip, args, kw):
    if len(args) != 1:
        raise Unsupported("type()")
    v = args[0]
    if isinstance(v, Obj):
        return v.cls
    if is_str(v):
        return str
    if isinstance(v, (bool, SBool)):
        return bool
    if is_intlike(v):
        return int
    if is_reallike(v):
        return float
    if isinstance(v, PList):
        return list
    if isinstance(v, PDict):
        return dict
    return type(v)


def b_ord(ip, args, kw):
    v = args[0]
    p = ip.path
    if isinstance(v, SStr):
        parts = rope(ip, v)
        if len(parts) == 1 and isinstance(parts[0], Op) and parts[0].unit:
            e = TORD(parts[0].e)
            p.assume(SBool(z3.And(e >= 0, e < 0x110000)))
            p.intfn_axiom(parts[0].e, e, lambda t: ord(t) if len(t) == 1 else 0, key=("ord",))
            return SInt(e)
        raise Unsupported("ord")
    return ip.native_apply(ord, args, kw)


def b_chr(ip, args, kw):
    v = args[0]
    if is_sym(v):
        raise Unsupported("chr of a symbolic number")
    return ip.native_apply(chr, args, kw)


class IterV:
    """iter(sequence): position over a concrete-shape sequence or a generator."""

    def __init__(self, seq):
        self.seq, self.i = seq, 0


def b_iter(ip, args, kw):
    v = args[0]
    if isinstance(v, Obj):
        c = ip.class_lookup(v.cls, "__iter__")
        if c is not I()._UNSET:
            return ip.call(c, [v])
        raise PyExc(TypeError, ("object is not iterable",))
    return ip.iterator(v)


def b_next(ip, args, kw):
    g = args[0]
    if isinstance(g, I().GenObj):
        if g.used:
            if len(args) > 1:
                return args[1]
            raise PyExc(StopIteration, ())
        # first element only; the generator is then closed
        g.used = True
        box = []

        def cb(v):
            box.append(v)
            raise I().GenClose()

        try:
            g.run(cb)
        except I().GenClose:
            pass
        if box:
            ip.path.ex.trusted.add("a generator advanced by next() is used once")
            return box[0]
        if len(args) > 1:
            return args[1]
        raise PyExc(StopIteration, ())
    raise Unsupported("next()")


def b_fields(ip, args, kw):
    v = args[0]
    cls = v.cls if isinstance(v, Obj) else v
    return tuple(dataclasses.fields(cls))


def b_replace_dc(ip, args, kw):
    o = args[0]
    if not isinstance(o, Obj):
        raise Unsupported("dataclasses.replace")
    vals = {}
    for f in dataclasses.fields(o.cls):
        if f.init:
            vals[f.name] = ip.getattr(o, f.name)
        elif f.name in kw:
            raise PyExc(ValueError, ("field is declared with init=False",))
    vals.update(kw)
    return ip.instantiate(o.cls, [], vals)


def b_chain(ip, args, kw):
    return I()._Chain(list(args))


def html_escape(ip, args, kw):
    s = args[0]
    quote = args[1] if len(args) > 1 else kw.get("quote", True)
    if isinstance(s, str):
        return ip.native_apply(html.escape, [s, quote], {})
    if quote is not True and quote is not False:
        raise Unsupported("html.escape quote")
    p = ip.path
    out = []
    for x in rope(ip, s):
        if isinstance(x, str):
            out.append(html.escape(x, quote))
        elif isinstance(x, Op):
            if all(x.cannot_contain(c) for c in ("&<>\"'" if quote else "&<>")):
                out.append(x)
                continue
            f = z3.Function("txt_htmlescape" + ("" if quote else "_nq"), Txt, Txt)
            p.textfn_axiom(x.e, f, lambda t: html.escape(t, quote))
            excl = set(x.excl) | set("<>") | (set("\"'") if quote else set())
            excl -= set("&;abcdefghijklmnopqrstuvwxyz0123456789#")
            out.append(Op(f(x.e), excl=excl))
        else:
            out.append(x)
    return mkstr(out)


def b_noop(ip, args, kw):
    return None


def b_divmod(ip, args, kw):
    a, b = args
    if is_sym(a) or is_sym(b):
        return (binop(ip, ast.FloorDiv(), a, b), binop(ip, ast.Mod(), a, b))
    return ip.native_apply(divmod, args, kw)


def b_pow(ip, args, kw):
    return binop(ip, ast.Pow(), args[0], args[1])


def op_model(opcls):
    return lambda ip, args, kw: binop(ip, opcls(), args[0], args[1])


def cmp_model(opcls):
    return lambda ip, args, kw: ip.compare(opcls(), args[0], args[1])


def b_suppress(ip, args, kw):
    M = I().Model

    class Suppress(M):
        def m___enter__(self, ip2):
            return None

        def m___exit__(self, ip2, et, ev, tb):
            return bool(ev is not None and any(ip2.exc_matches(ev, t) for t in args))

    return Suppress()


def b_accumulate(ip, args, kw):
    raise Unsupported("itertools.accumulate")


def b_itemgetter(ip, args, kw):
    idx = list(args)

    def f(a, k):
        vals = [getitem(ip, a[0], i) for i in idx]
        return vals[0] if len(vals) == 1 else tuple(vals)

    return I().Builtin("itemgetter", f)


def b_attrgetter(ip, args, kw):
    names = list(args)

    def f(a, k):
        vals = [ip.getattr(a[0], n) for n in names]
        return vals[0] if len(vals) == 1 else tuple(vals)

    return I().Builtin("attrgetter", f)


def b_product(ip, args, kw):
    seqs = [_seq(ip, a) for a in args]
    return PList.concrete(ip.path, list(itertools.product(*seqs)))


def b_repeat(ip, args, kw):
    if len(args) < 2:
        raise Unsupported("itertools.repeat")
    v = args[0]
    if isinstance(args[1], int):
        return PList.concrete(ip.path, [v] * args[1])
    n = ite(cmp("<", args[1], 0), 0, args[1])
    return I().SymIter(n, lambda i: v)


def math_floor(ip, args, kw):
    v = args[0]
    if isinstance(v, SReal):
        return SInt(z3.ToInt(v.e))
    if is_sym(v):
        return v
    return ip.native_apply(math.floor, args, kw)


def math_ceil(ip, args, kw):
    v = args[0]
    if isinstance(v, SReal):
        return SInt(-z3.ToInt(-v.e))
    if is_sym(v):
        return v
    return ip.native_apply(math.ceil, args, kw)


def math_trunc(ip, args, kw):
    return b_int(ip, args, kw) if is_sym(args[0]) else ip.native_apply(math.trunc, args, kw)


def re_fn(name):
    def h(ip, args, kw):
        pat = args[0]
        if isinstance(pat, str):
            pat = re.compile(pat, *( [kw.pop("flags")] if "flags" in kw else []))
        return pattern_method(ip, pat, name).f(list(args[1:]), kw)

    return h


def install(ip):
    m = ip.models

    def wrap_list(x):
        return PList.concrete(ip.path, list(x)) if isinstance(x, list) else ip.wrap(x)

    ip.wrap_list = wrap_list

    def native_apply_raw(f, args):
        try:
            return f(*args)
        except Exception as exc:  # noqa: BLE001
            raise PyExc(type(exc), exc.args)

    ip.native_apply_raw = native_apply_raw
    m.update(
        {
            len: b_len,
            range: b_range,
            enumerate: b_enumerate,
            zip: b_zip,
            map: b_map,
            filter: b_filter,
            reversed: b_reversed,
            sorted: sorted_,
            min: b_minmax("min"),
            max: b_minmax("max"),
            any: b_anyall("any"),
            all: b_anyall("all"),
            sum: b_sum,
            abs: b_abs,
            round: b_round,
            int: b_int,
            float: b_float,
            bool: b_bool,
            str: b_str,
            list: b_list,
            tuple: b_tuple,
            dict: b_dict,
            set: b_set,
            frozenset: b_set,
            repr: lambda ip, a, k: repr_(ip, a[0]),
            format: lambda ip, a, k: format_(ip, a[0], a[1] if len(a) > 1 else ""),
            isinstance: b_isinstance,
            callable: b_callable,
            getattr: b_getattr,
            hasattr: b_hasattr,
            setattr: b_setattr,
            type: b_type,
            ord: b_ord,
            chr: b_chr,
            iter: b_iter,
            next: b_next,
            divmod: b_divmod,
            pow: b_pow,
            object.__setattr__: object_setattr,
            dataclasses.fields: b_fields,
            dataclasses.replace: b_replace_dc,
            itertools.chain: b_chain,
            itertools.product: b_product,
            itertools.repeat: b_repeat,
            math.sqrt: sqrt_,
            math.floor: math_floor,
            math.ceil: math_ceil,
            math.trunc: math_trunc,
            math.pow: lambda ip, a, k: power(ip, b_float(ip, [a[0]], {}), a[1]),
            html.escape: html_escape,
            operator.itemgetter: b_itemgetter,
            operator.attrgetter: b_attrgetter,
            operator.or_: op_model(ast.BitOr),
            operator.add: op_model(ast.Add),
            operator.sub: op_model(ast.Sub),
            operator.mul: op_model(ast.Mult),
            operator.eq: cmp_model(ast.Eq),
            operator.ne: cmp_model(ast.NotEq),
            operator.lt: cmp_model(ast.Lt),
            operator.gt: cmp_model(ast.Gt),
            contextlib.suppress: b_suppress,
            slice: lambda ip, a, k: I().SliceV(*( [None, a[0], None] if len(a) == 1 else list(a) + [None] * (3 - len(a)))),
            re.sub: lambda ip, a, k: pattern_method(ip, re.compile(a[0]), "sub").f(a[1:], k),
            re.match: re_fn("match"),
            re.fullmatch: re_fn("fullmatch"),
            re.search: re_fn("search"),
            re.finditer: re_fn("finditer"),
            re.findall: re_fn("findall"),
            re.split: re_fn("split"),
            re.compile: lambda ip, a, k: ip.native_apply(re.compile, a, k),
            re.escape: lambda ip, a, k: ip.native_apply(re.escape, a, k),
        }
    )
    try:
        m[str.join] = lambda ip, a, k: join_(ip, a[0], a[1])
    except TypeError:
        pass
