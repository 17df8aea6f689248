"""Symbolic heap objects: lists, dicts, and the types used to forget their contents."""

from __future__ import annotations

import z3

from .values import *  # noqa: F401,F403
from .path import Infeasible

ABSENT = ("<absent>",)


class AbsType:
    """Join of the shapes of values that may sit in a location."""

    def __init__(self, alts=()):
        self.alts = list(alts)  # list of tuples, first item = kind

    def __repr__(self):
        return f"T{self.alts}"

    def key(self):
        return tuple(_altkey(a) for a in self.alts)

    def join(self, other):
        out = list(self.alts)
        for b in other.alts:
            for i, a in enumerate(out):
                m = _merge(a, b)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(b)
        if len(out) > 2:
            ids = [a for a in out if a[0] == "ident" and len(a) == 3]
            for cls in {a[2] for a in ids if sum(x[2] is a[2] for x in ids) > 2}:
                out = [a for a in out if not (a in ids and a[2] is cls)] + [("obj", cls)]
        return AbsType(out)


def _lenkey(n):
    return ("term", n.e.get_id()) if isinstance(n, SInt) else n


def _altkey(a):
    if a[0] == "ident":
        return a
    if a[0] == "tuple":
        return ("tuple",) + tuple(t.key() for t in a[1])
    if a[0] == "list":
        return ("list", a[1].key(), _lenkey(a[2]))
    if a[0] == "obj":
        return ("obj", a[1].__name__)
    if a[0] == "str":
        return ("str", a[1], a[2], a[3])
    return a


def _merge(a, b):
    if a[0] != b[0]:
        for x, y in ((a, b), (b, a)):
            if x[0] == "obj" and y[0] == "ident" and len(y) == 3 and y[2] is x[1]:
                return x
        return None
    k = a[0]
    if k in ("none", "int", "real", "bool", "poison"):
        return a
    if k == "str":
        excl = set(a[2]) | set(b[2])
        keep = set()
        for c in excl:
            if all(c in t[2] or (t[1] is not None and c not in t[1]) for t in (a, b)):
                keep.add(c)
        alpha = None if a[1] is None or b[1] is None else frozenset(a[1] | b[1])
        return ("str", alpha, frozenset(keep), min(a[3], b[3]))
    if k == "obj":
        return a if a[1] is b[1] else None
    if k == "ident":
        return a if a[1] == b[1] else None
    if k == "tuple":
        if len(a[1]) != len(b[1]):
            return None
        return ("tuple", [x.join(y) for x, y in zip(a[1], b[1])])
    if k == "list":
        same = a[2] is not None and b[2] is not None and _lenkey(a[2]) == _lenkey(b[2])
        return ("list", a[1].join(b[1]), a[2] if same else None)
    return None


def absof(v):
    if isinstance(v, Lazy):
        return absof(v.value) if v.made else v.type
    if v is None:
        return AbsType([("none",)])
    if isinstance(v, (bool, SBool)):
        return AbsType([("bool",)])
    if is_intlike(v):
        return AbsType([("int",)])
    if is_reallike(v):
        return AbsType([("real",)])
    if isinstance(v, str):
        return AbsType([("str", frozenset(v), frozenset(), len(v))])
    if isinstance(v, SStr):
        excl, alpha, minlen = None, frozenset(), 0
        digits = frozenset("0123456789-")
        for p in v.parts:
            if isinstance(p, str):
                a, x, m = frozenset(p), frozenset(), len(p)
            elif isinstance(p, Num):
                a, x, m = digits, frozenset(), 1
            elif isinstance(p, HexP):
                a, x, m = frozenset(p.chars()), frozenset(), 2
            elif isinstance(p, RealP):
                a, x, m = frozenset("0123456789-.e+infa"), frozenset(), 1
            else:
                a, x, m = p.alpha, p.excl, (1 if p.unit else p.minlen)
            minlen += m
            t = ("str", a, x, 0)
            excl = t if excl is None else _merge(excl, t)
        return AbsType([("str", excl[1], excl[2], minlen)])
    if isinstance(v, tuple):
        return AbsType([("tuple", [absof(x) for x in v])])
    if isinstance(v, Obj):
        return AbsType([("obj", v.cls)])
    if isinstance(v, PList):
        et = AbsType([])
        if v.items is not None:
            for x in v.items:
                et = et.join(absof(x))
        else:
            et = v.base_type
            for _, x in v.known:
                et = et.join(absof(x))
        return AbsType([("list", et, v.n if v.items is None else len(v.items))])
    raise Unsupported(f"no abstract type for {v!r}")


def splits(ty):
    """Making a value of this type needs a case split."""
    if len(ty.alts) > 1:
        return True
    return any(a[0] == "obj" or (a[0] == "tuple" and any(splits(x) for x in a[1])) for a in ty.alts)


def materialize(path, interp, t, name="h"):
    if not t.alts:
        raise Infeasible()
    a = path.choose(t.alts)
    k = a[0]
    if k == "none":
        return None
    if k == "ident" and len(a) == 3:
        if a[1] not in path.objs:
            raise Unsupported("an object known by its identity")
        return path.objs[a[1]]
    if k == "ident":
        if a[1] not in path.named:
            raise Unsupported("a tuple known by its identity")
        return path.named[a[1]]
    if k == "int":
        return path.fresh_int(name)
    if k == "real":
        return path.fresh_real(name)
    if k == "bool":
        return path.fresh_bool(name)
    if k == "str":
        return path.fresh_txt(name, excl=a[2], minlen=a[3], alpha=a[1])
    if k == "tuple":
        if interp.loops.enabled:
            return tuple(Lazy(x, lambda x=x: materialize(path, interp, x, name), exact=False) if splits(x) else materialize(path, interp, x, name) for x in a[1])
        return tuple(materialize(path, interp, x, name) for x in a[1])
    if k == "obj":
        o = interp.make_instance(a[1], name)
        o.__dict__["anon"] = True
        return o
    if k == "list":
        n = a[2]
        if n is None:
            n = path.fresh_int(name + "_len")
            path.assume(n >= 0)
        lst = PList.symbolic(path, n, lambda p, i, et=a[1]: materialize(p, interp, et, name), a[1], tag=path.fresh_name(name + "_lst"))
        return lst
    raise Unsupported(f"cannot materialise {a}")


class PList:
    """A Python list.  Concrete shape (`items`), or symbolic length with lazily chosen
    elements: `known` holds elements at pairwise distinct indices, `base` makes the others."""

    def __init__(self, path, tag):
        self.path = path
        self.oid = path.new_oid()
        self.tag = tag
        self.items = None
        self.n = 0
        self.base = None
        self.base_type = AbsType([])
        self.known = []
        self.frozen = None
        self.parent = None
        self.role = None
        path.objs[tag] = self

    @staticmethod
    def concrete(path, items, tag=None):
        lst = PList(path, tag or path.fresh_name("list"))
        lst.items = list(items)
        return lst

    @staticmethod
    def symbolic(path, n, base, base_type, tag=None):
        lst = PList(path, tag or path.fresh_name("slist"))
        lst.n = n
        lst.base = base
        lst.base_type = base_type
        return lst

    def __repr__(self):
        return f"[list {self.tag} {self.items if self.items is not None else 'n=' + str(self.n)}]"

    def length(self):
        return len(self.items) if self.items is not None else self.n

    def to_symbolic(self):
        if self.items is None:
            return
        items = self.items
        self.items = None
        self.n = len(items)
        self.known = [[i, v] for i, v in enumerate(items)]
        self.base = None
        self.base_type = AbsType([])

    def _adopt(self, v, idx):
        if isinstance(v, PList) and v.parent is None:
            v.parent = self

    def norm_index(self, idx, exc=IndexError):
        """Index in range after Python's negative-index rule; raises IndexError (interpreted)."""
        n = self.length()
        path = self.path
        if isinstance(idx, (bool, SBool)):
            idx = SInt(zint(idx)) if isinstance(idx, SBool) else int(idx)
        if not is_intlike(idx):
            raise PyExc(TypeError, ("list indices must be integers",))
        if isinstance(idx, int) and isinstance(n, int):
            if not -n <= idx < n:
                raise PyExc(exc, ("list index out of range",))
            return idx if idx >= 0 else idx + n
        if isinstance(idx, int) and idx < 0:
            if path.decide(cmp(">=", n, -idx)):
                return SInt(simplify(zint(n) + idx))
            raise PyExc(exc, ("list index out of range",))
        if path.decide(land(cmp("<=", 0, idx), cmp("<", idx, n))):
            return idx
        if path.decide(land(cmp("<=", -arith("*", n, 1) if is_sym(n) else -n, idx), cmp("<", idx, 0))):
            return arith("+", idx, n)
        raise PyExc(exc, ("list index out of range",))

    def get(self, idx):
        idx = self.norm_index(idx)
        return self.at(idx)

    def at(self, idx):
        path = self.path
        if self.items is not None:
            if isinstance(idx, int):
                return self.items[idx]
            for i in range(len(self.items)):
                if i == len(self.items) - 1 or path.decide(cmp("==", idx, i)):
                    return self.items[i]
            raise Unsupported("index into empty list")
        for k, v in self.known:
            if path.decide(cmp("==", idx, k)):
                return v
        if self.base is None:
            raise Infeasible()
        v = self.base(path, idx)
        self._adopt(v, idx)
        self.known.append([idx, v])
        return v

    def log(self):
        if self.frozen:
            self.path.violate(f"frame: {self.frozen} is not mutated")
        self.path.log_write(("list", self.tag), self.oid)
        p = self.parent
        while p is not None:
            self.path.log_write(("list", p.tag), p.oid)
            p = p.parent

    def set(self, idx, v):
        idx = self.norm_index(idx)
        self.log()
        self._store(idx, v)

    def _store(self, idx, v):
        path = self.path
        if self.items is not None:
            if isinstance(idx, int):
                self.items[idx] = v
                return
            self.to_symbolic()
        for ent in self.known:
            if path.decide(cmp("==", idx, ent[0])):
                ent[1] = v
                return
        self._adopt(v, idx)
        self.known.append([idx, v])

    def append(self, v):
        self.log()
        if self.items is not None:
            self._adopt(v, len(self.items))
            self.items.append(v)
            return
        # distinct from every known index: all known are < n
        self._adopt(v, self.n)
        self.known.append([self.n, v])
        self.n = arith("+", self.n, 1) if is_sym(self.n) else self.n + 1

    def pop(self, idx=-1):
        if self.items is None:
            raise Unsupported("pop on a list of symbolic length")
        self.log()
        i = self.norm_index(idx)
        if not isinstance(i, int):
            raise Unsupported("pop at a symbolic index")
        return self.items.pop(i)

    def clear(self):
        self.log()
        self.items = []
        self.known = []
        self.base = None
        self.n = 0


class PDict:
    """A Python dict.  `base` is None (empty) or a maker of unknown entries."""

    def __init__(self, path, tag=None):
        self.path = path
        self.oid = path.new_oid()
        self.tag = tag or path.fresh_name("dict")
        self.known = []  # [key, value or ABSENT]
        self.base = None
        self.base_type = AbsType([])
        self.parent = None
        path.objs[self.tag] = self

    def __repr__(self):
        return f"{{dict {self.tag} {self.known}}}"

    def concrete(self):
        return self.base is None and all(_const_key(k) for k, _ in self.known)

    def _find(self, key):
        ck = _const_key(key)
        for ent in self.known:
            if ck and _const_key(ent[0]):
                if ent[0] == key and type(ent[0]) is type(key):
                    return ent
                if ent[0] == key:
                    return ent
                continue
            c = self.path.interp.eq(ent[0], key)
            if self.path.decide(c):
                return ent
        return None

    def lookup(self, key):
        ent = self._find(key)
        if ent is not None:
            return ent[1]
        if self.base is None:
            return ABSENT
        v = self.base(self.path, key)
        self.known.append([key, v])
        return v

    def log(self):
        self.path.log_write(("dict", self.tag), self.oid)

    def store(self, key, v):
        self.log()
        ent = self._find(key)
        if ent is not None:
            if ent[1] is ABSENT:
                self.known.remove(ent)
                self.known.append([ent[0], v])
            else:
                ent[1] = v
        else:
            self.known.append([key, v])

    def clear(self):
        self.log()
        self.known = []
        self.base = None

    def entries(self):
        if self.base is not None:
            raise Unsupported("iteration over a dict with unknown entries")
        return [(k, v) for k, v in self.known if v is not ABSENT]


def _const_key(k):
    if isinstance(k, tuple):
        return all(_const_key(x) for x in k)
    return not is_sym(k) and not isinstance(k, (Obj, PList, PDict))
