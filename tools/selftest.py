"""Trials of the engine: true statements about sample functions are proved, false ones are not.

Usage: python3-vt tools/selftest.py
A statement marked True must be discharged completely; one marked False must not be (it may be
refuted, unknown or unsupported)."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import pyvc.harness as H  # noqa: E402
from props.common import *  # noqa: E402,F401,F403
from pyvc.heap import ABSENT, PList, PDict  # noqa: E402
import samples as S  # noqa: E402

H.take_registry()
TESTS = []


def test(good):
    def deco(fn):
        TESTS.append((fn, good))
        return fn

    return deco


def nm(cx, lo=0, pivot=True):
    n, m = cx.int("n", lo), cx.int("m", 0)
    if pivot:
        inside = cx.check(cmp("<", m, n))
        cx.loops([Hint(n, m if inside else None)])
    else:
        inside = cx.check(cmp("<", m, n))
        cx.loops([])
    return n, m, inside


def simple(name, good, run):
    def t(cx):
        run(cx)

    t.__name__ = name
    TESTS.append((t, good))


def T(name, fn, post, good, pivot=True):
    """post(cx, result, n, m, inside)"""

    def run(cx):
        n, m, inside = nm(cx, pivot=pivot)
        nargs = fn.__code__.co_argcount
        o = cx.outcome(fn, *(n, m)[:nargs])
        cx.cover("done")
        if not o.ok:
            cx.ensure("exception", post(cx, o, n, m, inside))
        else:
            cx.ensure("post", post(cx, o.value, n, m, inside))

    simple(name, good, run)


T("count", S.count, lambda cx, r, n, m, i: cx.eq(r, n), True)
T("count+1", S.count, lambda cx, r, n, m, i: cx.eq(r, n + 1), False)
T("count_break", S.count_break, lambda cx, r, n, m, i: cx.eq(r, n), False)
T("count_break<=", S.count_break, lambda cx, r, n, m, i: cmp(">=", r, 0), True)
T("count_continue", S.count_continue, lambda cx, r, n, m, i: cx.eq(r, n), False)
T("count_continue'", S.count_continue, lambda cx, r, n, m, i: cx.eq(r, n - 1 if i else n), True)
T("fill", S.fill, lambda cx, r, n, m, i: cx.eq(r.length(), n), True)
T("fill at m", S.fill, lambda cx, r, n, m, i: cx.eq(r.get(m), m) if i else True, True)
T("fill at m wrong", S.fill, lambda cx, r, n, m, i: cx.eq(r.get(m), m + 1) if i else True, False)
T("fill at m, no pivot", S.fill, lambda cx, r, n, m, i: cx.eq(r.get(m), m) if i else True, False, pivot=False)
T("change length", S.fill_then_change, lambda cx, r, n, m, i: cx.eq(r.length(), n), True)
T("change keeps", S.fill_then_change, lambda cx, r, n, m, i: cx.eq(r.get(m), m) if i else True, True)
T("change last", S.fill_then_change, lambda cx, r, n, m, i: cx.eq(r.get(m - 1), m - 1) if i and cx.check(cmp(">", m, 0)) else True, False)
T("alias", S.alias, lambda cx, r, n, m, i: cx.eq(r.length(), n), True)
T("alias wrong", S.alias, lambda cx, r, n, m, i: cx.eq(r.length(), 0), False)
T("attr alias", S.attr_alias, lambda cx, r, n, m, i: cx.eq(r, n), True)
T("attr alias wrong", S.attr_alias, lambda cx, r, n, m, i: cx.eq(r, 0), False)
T("found", S.found, lambda cx, r, n, m, i: cx.eq(r, i), True)
T("found wrong", S.found, lambda cx, r, n, m, i: cx.eq(r, not i), False)
T("found_last", S.found_last, lambda cx, r, n, m, i: cx.eq(r, i), False)
T("early", S.early, lambda cx, r, n, m, i: cx.eq(r, 1 if i else 0), True)
T("early wrong", S.early, lambda cx, r, n, m, i: cx.eq(r, 0), False)
T("raises", S.raises, lambda cx, r, n, m, i: (r.exc is KeyError) == i if not is_numlike(r) else (not i), True)
T("raises wrong", S.raises, lambda cx, r, n, m, i: is_numlike(r), False)
T("orelse", S.orelse, lambda cx, r, n, m, i: cx.eq(r, 1 if i else 0), True)
T("orelse wrong", S.orelse, lambda cx, r, n, m, i: cx.eq(r, 0), False)
T("late", S.late, lambda cx, r, n, m, i: cx.eq(r, 0), False)
T("nested", S.nested_count, lambda cx, r, n, m, i: cx.eq(r, n), True)
T("nested wrong", S.nested_count, lambda cx, r, n, m, i: cx.eq(r, 0), False)
T("nonlocal", S.nonlocal_count, lambda cx, r, n, m, i: cx.eq(r, n), True)
T("nonlocal wrong", S.nonlocal_count, lambda cx, r, n, m, i: cx.eq(r, 0), False)
T("generated wrong", S.generated, lambda cx, r, n, m, i: cx.eq(r, 0), False)
T("joined wrong", S.joined, lambda cx, r, n, m, i: cx.eq(r, ""), False)
T("swap wrong", S.swap, lambda cx, r, n, m, i: cx.eq(r, 0), False)
T("swap wrong 1", S.swap, lambda cx, r, n, m, i: cx.eq(r, 1), False)
T("previous wrong", S.previous, lambda cx, r, n, m, i: cx.eq(r, 0), False)
T("previous wrong n", S.previous, lambda cx, r, n, m, i: cx.eq(r, n), False)
T("store wrong", S.store_outer, lambda cx, r, n, m, i: cx.eq(r.length(), 0), False)
T("store first wrong", S.store_first, lambda cx, r, n, m, i: cx.eq(r.length(), 0), False)
T("two wrong", S.two, lambda cx, r, n, m, i: cx.eq(r, 0), False)
T("two wrong n", S.two, lambda cx, r, n, m, i: cx.eq(r, n), False)


def pend(fn, want, good, name):
    def run(cx):
        n, m = cx.int("n", 0), cx.int("m", 0)
        inside = cx.check(cmp("<", m, n))
        key = (m, 0)
        cx.loops([Hint(n, m if inside else None)], [key])
        d = cx.call(fn, *(n, m)[: fn.__code__.co_argcount])
        v = d.lookup(key)
        cx.cover("done")
        cx.ensure("entry", want(cx, v, inside))

    simple(name, good, run)


pend(S.table, lambda cx, v, i: v is not ABSENT and cx.eq(v, "x") if i else v is ABSENT, True, "table")
pend(S.table, lambda cx, v, i: v is ABSENT, False, "table wrong")
pend(S.table_overwritten, lambda cx, v, i: cx.eq(v, "x") if i else True, False, "table overwritten wrong")
pend(S.table_overwritten, lambda cx, v, i: cx.eq(v, "y") if i else v is ABSENT, True, "table overwritten")
pend(S.table_cleared, lambda cx, v, i: v is not ABSENT and cx.eq(v, "x") if i else True, False, "table cleared wrong")


def mat(fn, good, name, far):
    def run(cx):
        w, h = cx.int("w", 1), cx.int("h", 2)
        x, y, y2 = cx.int("x", 0), cx.int("y", 0), cx.int("y2", 0)
        if not cx.check(land(cmp("<", x, w), cmp("<", y, h), cmp("<", y2, h), cmp("!=", y, y2))):
            return
        rows = Hint(h, y2)
        cx.loops([rows, Hint(w, x, within=[rows])])
        m = cx.call(fn, w, h)
        m = cx.call(S.poke, m, x, y)
        cx.cover("done")
        cx.ensure("shape", cx.eq(m.length(), h))
        cx.ensure("entry", cx.eq(m.get(y2).get(x), far))

    simple(name, good, run)


mat(S.matrix, True, "matrix", 0)
mat(S.matrix, False, "matrix wrong", 1)
mat(S.matrix_shared, False, "matrix shared wrong", 0)


def sentinel(name, good, far):
    def run(cx):
        n, m = cx.int("n", 0), cx.int("m", 0)
        if not cx.check(cmp("<", m, n)):
            return
        cx.loops([Hint(n, m)])
        r = cx.call(S.sentinel, n, m)
        cx.cover("done")
        cx.ensure("identity", cx.eq(r, far))

    simple(name, good, run)


sentinel("sentinel wrong", False, 1)
sentinel("sentinel", True, 0)


def main():
    bad = 0
    for fn, good in TESTS:
        H.contract(fn.__name__, covers=["done"])(fn)
        c = H.take_registry()[0]
        r = H.prove_contract(c, c.cases[0], 30)
        proved = r["obligations"] > 0 and r["discharged"] == r["obligations"] and not r["unsupported"] and not r["error"] and "done" in r["covered"]
        ok = proved == good
        bad += not ok
        print("ok " if ok else "BAD", fn.__name__, "proved" if proved else "not proved", r["unsupported"] or r["error"] or "", f"{r['wall_s']:.2f}s")
    print(f"{len(TESTS)} trials, {bad} wrong")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
