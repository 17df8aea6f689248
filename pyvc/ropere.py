"""Regular expressions on ropes.

A backtracking matcher over the pieces of a rope.  A piece of unknown length is consumed as a whole
where every character it may hold is treated alike by the pattern; where the pattern would
distinguish characters the rope does not determine, the matcher either splits the proof (single
characters) or gives up (Unsupported).
"""

from __future__ import annotations

import re
import re._constants as sc
import re._parser as sp

from .values import *  # noqa: F401,F403
from .values import _b

DIGITS = "0123456789"
HEXD = "0123456789ABCDEF"
BIG = sc.MAXREPEAT


class Retry(Exception):
    pass


class Cls:
    """A set of characters: explicit members, categories, possibly negated."""

    def __init__(self, chars=(), ranges=(), cats=(), neg=False):
        self.chars, self.ranges, self.cats, self.neg = frozenset(chars), tuple(ranges), tuple(cats), neg

    def has(self, c):
        r = c in self.chars or any(a <= ord(c) <= b for a, b in self.ranges) or any(cat(c) for cat in self.cats)
        return r != self.neg

    def finite(self):
        """Members of the underlying set, if it is small."""
        if self.cats or sum(b - a + 1 for a, b in self.ranges) > 300:
            return None
        out = set(self.chars)
        for a, b in self.ranges:
            out |= {chr(x) for x in range(a, b + 1)}
        return out


CATS = {
    sc.CATEGORY_DIGIT: lambda c: c.isdecimal(),
    sc.CATEGORY_NOT_DIGIT: lambda c: not c.isdecimal(),
    sc.CATEGORY_SPACE: lambda c: c.isspace(),
    sc.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
    sc.CATEGORY_WORD: lambda c: c.isalnum() or c == "_",
    sc.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == "_"),
}


def atom(node):
    """Character class of a single-character node, or None."""
    op, av = node
    if op is sc.LITERAL:
        return Cls(chars=chr(av))
    if op is sc.NOT_LITERAL:
        return Cls(chars=chr(av), neg=True)
    if op is sc.ANY:
        return Cls(chars="\n", neg=True)
    if op is sc.IN:
        chars, ranges, cats, neg = set(), [], [], False
        for o, v in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                chars.add(chr(v))
            elif o is sc.RANGE:
                ranges.append(v)
            elif o is sc.CATEGORY:
                cats.append(CATS[v])
            else:
                raise Unsupported(f"regex set {o}")
        return Cls(chars, ranges, cats, neg)
    return None


class Matcher:
    def __init__(self, ip, pat, toks):
        self.ip, self.p, self.pat = ip, ip.path, pat
        self.toks = toks
        if pat.flags & (re.I | re.M | re.S | re.X | re.A):
            raise Unsupported("regex flags")
        self.prog = list(sp.parse(pat.pattern))

    # ---- tests: True (all characters), False (none), None (not determined)
    def test(self, cls, t):
        if isinstance(t, str):
            return cls.has(t)
        if isinstance(t, Num):
            if not self.p.nonneg(t.e):
                raise Unsupported("sign of a number in a regular expression")
            r = {cls.has(c) for c in DIGITS}
        elif isinstance(t, HexP):
            r = {cls.has(c) for c in t.chars()}
        elif isinstance(t, RealP):
            r = {cls.has(c) for c in DIGITS + "."}
        elif t.alpha is not None:
            r = {cls.has(c) for c in t.alpha if c not in t.excl}
        else:
            fin = cls.finite()
            if fin is not None and fin <= t.excl:
                return cls.neg
            return None
        return r.pop() if len(r) == 1 else None

    def settle(self, cls, i):
        """Does the single character at i belong to the class?  May split the proof."""
        t = self.toks[i]
        r = self.test(cls, t)
        if r is not None:
            return r
        if isinstance(t, Op) and t.unit:
            fin = cls.finite()
            if fin is None or len(fin) > 40:
                raise Unsupported(f"character class on an unknown character in {self.pat.pattern!r}")
            for c in sorted(fin):
                if t.cannot_contain(c):
                    continue
                if self.p.decide(SBool(t.e == self.p.lit(c))):
                    self.p.refine(t, [c])
                    self.toks[i] = c
                    return not cls.neg
            # remember what it is not
            self.toks[i] = Op(t.e, excl=t.excl | fin, minlen=1, unit=True, sub=t.sub, alpha=t.alpha)
            return cls.neg
        raise Unsupported(f"unknown text in {self.pat.pattern!r}")

    def multi(self, t):
        return not isinstance(t, str) and not (isinstance(t, Op) and t.unit)

    def maybe_empty(self, t):
        return isinstance(t, Op) and not t.unit and t.minlen < 1 and ("nonempty", t.e.sexpr()) not in self.p.memo

    def force(self, t):
        """Split a possibly empty piece into the empty and the non-empty case."""
        p = self.p
        if self.nosplit:
            raise Unsupported("unknown text in a regular expression")
        n = p.oplen(t)
        if p.decide(SBool(n <= 0)):
            p.assume(SBool(t.e == p.lit("")))
            p.refine(t, [])
        else:
            p.memo[("nonempty", t.e.sexpr())] = True
        raise Retry()

    # ---- can the remaining pattern match starting at a character inside piece t?
    def cannot_start(self, nodes, t):
        for k, node in enumerate(nodes):
            op, av = node
            c = atom(node)
            if c is not None:
                return self.test(c, t) is False
            if op is sc.SUBPATTERN:
                return self.cannot_start(list(av[3]) + list(nodes[k + 1:]), t)
            if op is sc.BRANCH:
                return all(self.cannot_start(list(b) + list(nodes[k + 1:]), t) for b in av[1])
            if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, item = av
                if lo >= 1:
                    return self.cannot_start(list(item), t)
                return self.cannot_start(list(item), t) and self.cannot_start(list(nodes[k + 1:]), t)
            if op is sc.ASSERT:
                if av[0] != 1:
                    return False
                return self.cannot_start(list(av[1]), t)
            if op is sc.AT:
                return av in (sc.AT_END, sc.AT_END_STRING, sc.AT_BEGINNING, sc.AT_BEGINNING_STRING)
            return False
        return False

    # ---- matching: returns (end, groups) of the first match, or None
    def match(self, nodes, i, groups, cont, tail=()):
        if not nodes:
            return cont(i, groups)
        node, rest = nodes[0], nodes[1:]
        op, av = node
        toks = self.toks
        c = atom(node)
        if c is not None:
            # skip pieces that may be empty
            if i >= len(toks):
                return None
            t = toks[i]
            if self.multi(t):
                if self.maybe_empty(t):
                    if self.test(c, t) is False and i + 1 < len(toks) and not self.multi(toks[i + 1]) and self.test(c, toks[i + 1]) is False:
                        return None
                    self.force(t)
                r = self.test(c, t)
                if r is False:
                    return None
                if isinstance(t, Op):
                    self.force_split(t)
                raise Unsupported(f"number rendering in {self.pat.pattern!r}")
            if not self.settle(c, i):
                return None
            return self.match(rest, i + 1, groups, cont, tail)
        if op is sc.SUBPATTERN:
            gid, add, dele, body = av
            if add or dele:
                raise Unsupported("regex flags")

            def k(j, g, i=i):
                g2 = dict(g)
                if gid is not None:
                    g2[gid] = (i, j)
                return self.match(rest, j, g2, cont, tail)

            return self.match(list(body), i, groups, k, list(rest) + list(tail))
        if op is sc.BRANCH:
            for b in av[1]:
                r = self.match(list(b) + list(rest), i, groups, cont, tail)
                if r is not None:
                    return r
            return None
        if op is sc.ASSERT:
            if av[0] != 1:
                raise Unsupported("regex lookbehind")
            if self.match(list(av[1]), i, groups, lambda j, g: (j, g)) is None:
                return None
            return self.match(rest, i, groups, cont, tail)
        if op is sc.ASSERT_NOT:
            if av[0] != 1:
                raise Unsupported("regex lookbehind")
            if self.match(list(av[1]), i, groups, lambda j, g: (j, g)) is not None:
                return None
            return self.match(rest, i, groups, cont, tail)
        if op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                return self.match(rest, i, groups, cont, tail) if i == 0 else None
            if av is sc.AT_END_STRING or av is sc.AT_END:
                if av is sc.AT_END and i == len(toks) - 1:
                    raise Unsupported("regex $ before the last character")
                return self.match(rest, i, groups, cont, tail) if self.at_end(i) else None
            raise Unsupported(f"regex {av}")
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, item = av
            item = list(item)
            c = atom(item[0]) if len(item) == 1 else None
            if c is None:
                return self.rep_general(op, lo, hi, item, rest, i, groups, cont, tail, 0)
            return self.rep_class(op, lo, hi, c, rest, i, groups, cont, tail)
        raise Unsupported(f"regex {op}")

    def at_end(self, i):
        while i < len(self.toks):
            t = self.toks[i]
            if self.maybe_empty(t):
                self.force(t)
            return False
        return True

    nosplit = False

    def force_split(self, t):
        if self.nosplit:
            raise Unsupported("unknown text in a regular expression")
        from . import models as M

        M.split_first(self.ip, t)
        raise Retry()

    def rep_general(self, op, lo, hi, item, rest, i, groups, cont, tail, n):
        def again(j, g):
            if j == i:
                return None
            return self.rep_general(op, lo, hi, item, rest, j, g, cont, tail, n + 1)

        if op is sc.MAX_REPEAT:
            if n < hi:
                r = self.match(item, i, groups, again, [(op, (0, hi, item))] + list(rest) + list(tail))
                if r is not None:
                    return r
            return self.match(rest, i, groups, cont, tail) if n >= lo else None
        if n >= lo:
            r = self.match(rest, i, groups, cont, tail)
            if r is not None:
                return r
        return self.match(item, i, groups, again, list(rest) + list(tail)) if n < hi else None

    def rep_class(self, op, lo, hi, c, rest, i, groups, cont, tail):
        toks = self.toks
        after = list(rest) + list(tail)

        def count_ok(j):
            """Number of characters in toks[i:j], if fixed; else a lower bound."""
            n, exact = 0, True
            for t in toks[i:j]:
                if isinstance(t, HexP):
                    n += 2
                elif self.multi(t):
                    n += max(1 if not isinstance(t, Op) else t.minlen, 0)
                    exact = False
                else:
                    n += 1
            return n, exact

        def allowed(j):
            n, exact = count_ok(j)
            if n < lo:
                if not exact:
                    for t in toks[i:j]:
                        if self.maybe_empty(t):
                            self.force(t)
                    raise Unsupported("counted repeat over a text of unknown length")
                return False
            if hi is not BIG:
                if n > hi:
                    return False
                if not exact:
                    raise Unsupported("counted repeat over a text of unknown length")
            return True

        def interior(j):
            """The pattern must not be able to go on from inside piece j."""
            t = toks[j]
            if isinstance(t, str) or (isinstance(t, Op) and t.unit):
                return
            if not after or not self.cannot_start(after, t):
                if after or op is sc.MIN_REPEAT:
                    raise Unsupported(f"unknown text in {self.pat.pattern!r}")

        def takes(j):
            t = toks[j]
            if not self.multi(t):
                return self.settle(c, j)
            r = self.test(c, t)
            if r is None:
                raise Unsupported(f"unknown text in {self.pat.pattern!r}")
            if not r and self.maybe_empty(t):
                # nothing of it matches: the run ends here unless it is empty
                if j + 1 < len(toks) and (self.multi(toks[j + 1]) or self.test(c, toks[j + 1]) is not False):
                    self.force(t)
            return r

        if op is sc.MIN_REPEAT:
            j = i
            while True:
                if allowed(j):
                    r = self.match(rest, j, groups, cont, tail)
                    if r is not None:
                        return r
                if j >= len(toks) or not takes(j):
                    return None
                if hi is not BIG and count_ok(j + 1)[0] > hi:
                    return None
                interior(j)
                j += 1
        j = i
        while j < len(toks) and (hi is BIG or count_ok(j)[0] < hi) and takes(j):
            j += 1
        while j >= i:
            if allowed(j):
                r = self.match(rest, j, groups, cont, tail)
                if r is not None:
                    return r
            else:
                return None
            j -= 1
            if j >= i:
                interior(j)
        return None

    # ---- entry points
    def at(self, i, full=False):
        if full:
            cont = lambda j, g: (j, g) if self.at_end(j) else None  # noqa: E731
            return self.match(self.prog, i, {}, cont, [(sc.AT, sc.AT_END_STRING)])
        return self.match(self.prog, i, {}, lambda j, g: (j, g))

    def find(self, i):
        while i <= len(self.toks):
            if i < len(self.toks) and self.multi(self.toks[i]):
                t = self.toks[i]
                if self.cannot_start(self.prog, t):
                    i += 1
                    continue
                if isinstance(t, Num):
                    raise Unsupported("search inside a number rendering")
            r = self.at(i)
            if r is not None:
                return i, r[0], r[1]
            if i < len(self.toks) and self.multi(self.toks[i]):
                raise Unsupported(f"search inside an unknown text for {self.pat.pattern!r}")
            i += 1
        return None


class RopeMatch:
    def __init__(self, ip, m, start, end, groups, names, count):
        self.ip, self.m = ip, m
        self.toks = list(m.toks)
        self.span_, self.groups_, self.names, self.count = (start, end), groups, names, count

    def text(self, ij):
        return mkstr(self.toks[ij[0]:ij[1]])

    def pos(self, i):
        return self.ip.path.strlen(mkstr(self.toks[:i]))

    def ij(self, k):
        if isinstance(k, str):
            k = self.names[k]
        if k == 0:
            return self.span_
        return self.groups_.get(k)

    def group(self, *ks):
        ks = ks or (0,)
        out = []
        for k in ks:
            ij = self.ij(k)
            out.append(None if ij is None else self.text(ij))
        return out[0] if len(out) == 1 else tuple(out)

    def groups(self):
        return tuple(self.group(k) for k in range(1, self.count + 1))

    def start(self, k=0):
        return self.pos(self.ij(k)[0])

    def end(self, k=0):
        return self.pos(self.ij(k)[1])

    def span(self, k=0):
        return (self.start(k), self.end(k))


def tokenize(ip, s):
    out = []
    for p in ip.path.expand(parts_of(s)):
        if isinstance(p, str):
            out += list(p)
        else:
            out.append(p)
    return out


def apply(ip, pat, name, args, kw):
    if kw or not isinstance(pat.pattern, str):
        raise Unsupported("regex call")
    for _ in range(60):
        try:
            return _apply(ip, pat, name, args)
        except Retry:
            continue
    raise Unsupported("regular expression did not settle")


def _run(ip, m, name, mk):
    r = m.at(0, full=name == "fullmatch")
    return None if r is None else mk(0, r[0], r[1])


def linear(ip, nodes):
    """Fresh pieces describing every text a linear pattern matches, or None."""
    out = []
    for node in nodes:
        op, av = node
        c = atom(node)
        lo = hi = 1
        if op is sc.SUBPATTERN and not av[1] and not av[2]:
            sub = linear(ip, list(av[3]))
            if sub is None:
                return None
            out += sub
            continue
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, item = av
            item = list(item)
            c = atom(item[0]) if len(item) == 1 else None
        if c is None:
            return None
        fin = c.finite()
        if fin is None:
            return None
        kw = {"excl": frozenset(fin)} if c.neg else {"alpha": frozenset(fin)}
        if lo == hi and lo <= 8:
            for _ in range(lo):
                out += [next(iter(fin))] if len(fin) == 1 and not c.neg else ip.path.fresh_txt("m", unit=True, minlen=1, **kw).parts
        elif hi is BIG and lo <= 1:
            out += ip.path.fresh_txt("m", minlen=lo, **kw).parts
        else:
            return None
    return out


def _apply(ip, pat, name, args):
    if name == "sub":
        if len(args) != 2 or not isinstance(args[0], str) or "\\" in args[0]:
            raise Unsupported("re.sub")
        rep, s = args
    else:
        if len(args) != 1:
            raise Unsupported("regex arguments")
        rep, s = None, args[0]
    if not is_str(s):
        raise Unsupported("regex on a non-text")
    m = Matcher(ip, pat, tokenize(ip, s))
    names, count = dict(pat.groupindex), pat.groups

    def mk(start, end, groups):
        return RopeMatch(ip, m, start, end, groups, names, count)

    if name in ("match", "fullmatch") and len(m.toks) == 1 and isinstance(m.toks[0], Op) and not m.toks[0].unit:
        key = ("re", name, pat.pattern, m.toks[0].e.sexpr())
        known = ip.path.memo.get(key)
        if known is False:
            return None
        try:
            m.nosplit = True
            return _run(ip, m, name, mk)
        except Unsupported:
            parts = linear(ip, m.prog)
            if parts is None:
                raise
            t = m.toks[0]
            if any(t.cannot_contain(c) for x in parts if isinstance(x, str) for c in x):
                ip.path.memo[key] = False
                return None
            yes = ip.path.decide(ip.path.pred(t.e, (name, pat.pattern), lambda x: getattr(pat, name)(x) is not None))
            if not yes:
                ip.path.memo[key] = False
                ip.path.memo.setdefault(("re-not", t.e.sexpr()), []).append((pat, name))
                return None
            if name == "match":
                parts.append(Op(ip.path.fresh_txt("tail").parts[0].e))
            whole = mkstr(parts)
            ip.path.refine(t, parts_of(whole))
            ip.path.assume(SBool(t.e == ip.path.enc(whole)))
            for p2, n2 in ip.path.memo.get(("re-not", t.e.sexpr()), []):
                try:
                    hit = apply(ip, p2, n2, [whole], {})
                except Unsupported:
                    ip.path.approx("two patterns on one text")
                    continue
                if hit is not None:
                    from .path import Infeasible

                    raise Infeasible()
            raise Retry()
    if name == "match":
        r = m.at(0)
        return None if r is None else mk(0, r[0], r[1])
    if name == "fullmatch":
        r = m.at(0, full=True)
        return None if r is None else mk(0, r[0], r[1])
    if name == "search":
        r = m.find(0)
        return None if r is None else mk(*r)
    found = []
    i = 0
    while i <= len(m.toks):
        r = m.find(i)
        if r is None:
            break
        found.append(r)
        if r[1] == r[0]:
            raise Unsupported("empty regex match")
        i = r[1]
    if name == "finditer":
        return [mk(*r) for r in found]
    if name == "findall":
        out = []
        for r in found:
            x = mk(*r)
            out.append(x.group() if count == 0 else (x.group(1) if count == 1 else x.groups()))
        return ip.wrap_list(out)
    if name in ("sub", "split"):
        pieces, last = [], 0
        for a, b, _ in found:
            pieces.append(mkstr(m.toks[last:a]))
            last = b
        pieces.append(mkstr(m.toks[last:]))
        if name == "split":
            if count:
                raise Unsupported("re.split with groups")
            return ip.wrap_list(pieces)
        parts = []
        for k, x in enumerate(pieces):
            if k:
                parts += parts_of(rep)
            parts += parts_of(x)
        return mkstr(parts)
    raise Unsupported(f"regex {name}")
