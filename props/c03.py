"""C03: only changed cells are counted and drawn."""

from .ghost import *  # noqa: F401,F403

CHECKS = {"count", "drawn"}


def text(d, name, kinds):
    return [d.char(f"{name}{i}") if k == "c" else " " if k == "_" else "\n" for i, k in enumerate(kinds)]


@contract("rewrite", cases=[dict(old=o, new=n, style=s) for o in ("", "c", "cc", "c_c") for n in ("c", "cc", "_c", "c_c") for s in (False, True)], covers=["done"], trials=400, secs=1, budget=100,
          bound="a text of up to 3 cells over another one on a screen of 2 by 2, with and without a draw between and forced overwriting; arbitrary characters and colours")
def rewrite(cx):
    d = Driver(cx, 2, 2, CHECKS)
    st = ("bold", "underline") if cx.style else ()
    fg = d.color("fg", False)
    fg2 = cx.choice("colour", [fg, None, "other"])
    fg2 = d.color("fg2", False) if fg2 == "other" else fg2
    d.write([d.piece(text(d, "o", cx.old), st, fg)], at=(0, 0))
    if cx.choice("drawn", [False, True]):
        d.draw()
    d.write([d.piece(text(d, "n", cx.new), cx.choice("same style", [st, ()]), fg2)], at=(0, 0), force=cx.choice("force", [False, True]))
    d.draw()
    d.draw()
    cx.cover("done")


@contract("again", cases=[dict(txt=t, opaque=o) for t in ("c", "c_", "ccc", "c|c", "cc|_c") for o in (False, True)], covers=["done"], trials=400, secs=1, budget=100,
          bound="a text of up to 5 cells written twice on a screen of 3 by 2; arbitrary characters and colours")
def again(cx):
    d = Driver(cx, 3, 2, CHECKS)
    bg = d.color("bg", True, 1.0 if cx.opaque else None)
    ps = [d.piece(text(d, "t", cx.txt.replace("|", "n")), ("italic",), d.color("fg", False), bg)]
    d.write(ps, at=(0, 0))
    d.draw()
    n = d.write(ps, at=(0, 0))
    cx.ensure("writing the same content again changes nothing", cx.eq(n, 0))
    cx.ensure("writing the same content again draws nothing", d.draw() == [])
    k = len(d.ghost.placed([((0, 0), [ps[0][1]])])[0])
    n = d.write(ps, at=(0, 0), force=True)
    cx.ensure("forced overwriting counts every written cell", cx.eq(n, k))
    cx.ensure("forced overwriting draws every written cell", len(d.draw()) == k)
    cx.cover("done")


@contract("bulk", cases=[dict(force=f, drawn=r) for f in (False, True) for r in (False, True)], covers=["done"], trials=600, secs=2, budget=100,
          bound="two overlapping texts over earlier content on a screen of 2 by 2; arbitrary characters and colours")
def bulk(cx):
    d = Driver(cx, 2, 2, CHECKS)
    d.write([d.piece(text(d, "o", "ccc"), (), None)], at=(0, 0))
    if cx.drawn:
        d.draw()
    bg = d.color("bg", True)
    at = cx.choice("at", [(0, 0), (1, 0), (0, 1)])
    d.bulk([((0, 0), [d.piece(text(d, "a", "cc"))]), (at, [d.piece(text(d, "b", "cc"), (), None, cx.choice("bg?", [None, bg]))])], force=cx.force)
    d.draw()
    cx.cover("done")


@contract("histories", symbolic=False, covers=["done"], bound="random histories of up to 9 operations on screens of up to 6 by 4", trials=60000, secs=8)
def histories(cx):
    history(cx, list("wwwbbaaaddczr"), CHECKS, alphas=(1.0, 1.0, 0.5))


# ------------------------------------------------------------------ any size, any state, any text

from .anyscreen import *  # noqa: E402,F401,F403


def write_on_big(cx):
    d = write_big(cx, CHECKS, cx.style, cx.force)
    d.draw()


@contract("write.any", covers=["changed", "same", "kept"], native=write_on_big, trials=400, secs=4, budget=120,
          cases=[dict(hit=True, style=s, colors=c, force=f, pending=p) for s in (False, True) for c in (False, True) for f in (False, True) for p in (False, True) if p or not f]
          + [dict(hit=False, style=False, colors=True, force=f, pending=p) for f in (False, True) for p in (False, True)])
def write_any(cx):
    """What a text of any length written anywhere on any screen leaves to be drawn at any position."""
    a = AnyWrite(cx, cx.style, cx.hit, cx.pending)
    a.run(cx.colors, cx.colors, ("bold",) if cx.style else (), force=cx.force)
    got = a.a.pending(a.q)
    if not cx.hit:
        cx.cover("kept")
        cx.ensure("cells that are not written are drawn only if they were to be", got is a.a.pending0)
        return
    new = tuple(forced(x) for x in a.a.at(a.q))
    if cx.force or cx.check(lnot(a.holds(a.old))):
        cx.cover("changed")
        check_pending(cx, got, new, "every changed cell is drawn")
    elif cx.check(cx.eq(a.old[0], new[0])):
        cx.cover("same")
        cx.ensure("unchanged cells are drawn only if they were to be", got is a.a.pending0)


def bulk_on_big(cx):
    d = bulk_big(cx, CHECKS, cx.force)
    d.draw()
    cx.cover("kept")


@contract("bulk.any", cases=[dict(force=f, pending=p) for f in (False, True) for p in (False, True)], covers=["kept"], native=bulk_on_big, budget=150, trials=400, secs=4)
def bulk_any(cx):
    """What any number of texts of any number of spans written to any screen leaves to be drawn at
    any position none of their characters lands on."""
    b = AnyBulk(cx, False, pending=cx.pending)
    b.run(force=cx.force)
    cx.cover("kept")
    cx.ensure("cells no text lands on are drawn only if they were to be", b.a.pending(b.q) is b.a.pending0)


def draw_on_big(cx):
    d = write_big(cx, CHECKS, True, origin=(cx.int("ox", 0, 1000), cx.int("oy", 0, 1000)), sizes=(60, 500, 4500))
    d.draw()
    d.draw()
    cx.cover("drawn")
    cx.cover("kept")


@contract("draw.any", cases=[dict(pending=p) for p in (False, True)], covers=["drawn", "kept"], native=draw_on_big, trials=400, secs=4, budget=120)
def draw_any(cx):
    """An incremental draw of any number of pending texts, observed at any position."""
    draw_pending(cx)
