"""C01: after every draw the terminal shows what the screen holds."""

import itertools

from .ghost import *  # noqa: F401,F403

CHECKS = {"display"}

OPS = ["".join(p) for n in (0, 1, 2, 3) for p in itertools.product("wbcdrz", repeat=n)]
# histories that only differ in leading draws or clears of the empty screen are left out
OPS = [o for o in OPS if len(o) < 3 or "w" in o or "b" in o]


@contract("histories.small", cases=[dict(ops=o) for o in OPS], covers=["done"], trials=300, secs=0.5, budget=100,
          bound="all histories of up to 3 of: write, bulk write, clear, draw, redraw, resize (each followed by a draw and a redraw) on a screen of 2 by 2; arbitrary characters, colours and origin")
def small(cx):
    d = Driver(cx, 2, 2, CHECKS, origin=(cx.int("ox", 0, 1000), cx.int("oy", 0, 1000)))
    for i, op in enumerate(cx.ops):
        if op == "w":
            a = [d.char(f"{i}a"), d.char(f"{i}b")]
            d.write([d.piece(a[: 1 + i % 2] + [" "], ("bold",) if i == 1 else (), d.color(f"{i}fg", False), None), d.piece([d.char(f"{i}c")], ("invert", "underline") if i == 2 else (), None, d.color(f"{i}bg", True))], at=(0, 0) if i else None)
        elif op == "b":
            d.bulk([((1, 0), [d.piece([d.char(f"{i}a"), d.char(f"{i}b")], (), d.color(f"{i}fg", False))]),
                    ((i % 2, 1), [d.piece([d.char(f"{i}c")], ("strike",), None, d.color(f"{i}bg", True, 0.5))])])
        elif op == "d":
            d.draw()
        elif op == "r":
            d.draw(redraw=True)
        elif op == "c":
            d.clear(d.char(f"{i}f") if i else " ")
        elif op == "z":
            d.resize(*[(3, 1), (1, 3), (2, 3)][i], fill=d.char(f"{i}f") if i == 1 else " ")
    d.finish()
    cx.cover("done")


@contract("histories", symbolic=False, covers=["done"], bound="random histories of up to 9 operations on screens of up to 6 by 4", trials=60000, secs=8)
def histories(cx):
    history(cx, list("wwwbczddrak"), CHECKS, alphas=(1.0, 1.0, 1.0, 0.5))


# ------------------------------------------------------------------ any size, any state

from .anyscreen import *  # noqa: E402,F401,F403


def redraw_big(cx):
    w, h = big_size(cx, "width", "height")
    cx.require(w > 0 and h > 0)
    d = Driver(cx, w, h, CHECKS, origin=(cx.int("ox", 0, 1000), cx.int("oy", 0, 1000)))
    # up to the cell observed, or up to the one before
    n = cx.int("y", 0, h - 1) * w + cx.int("x", 0, w - 1) + (cx.style is not None)
    d.write(big_text(cx, d, n, 3, "c", ("bold",) if cx.style else ()), at=(0, 0))
    d.draw(redraw=True)
    d.draw()
    cx.cover("drawn")


@contract("redraw.any", cases=[dict(style=s) for s in (None, False, True)], covers=["drawn"], native=redraw_big, trials=400, secs=4, budget=120)
def redraw_any(cx):
    """A full redraw of a screen of any size in any state, observed at any position."""
    p = cx.path
    w, h = cx.int("width", 0), cx.int("height", 0)
    q = (cx.int("x", 0), cx.int("y", 0))
    p.assume(inside(q, w, h))
    cell = drawable_cell(cx, cx.style)
    a = AnyCells(cx, w, h, q, cell)
    ox, oy = cx.int("ox", 0), cx.int("oy", 0)
    at = (q[0] + ox, q[1] + oy)
    cx.loops(rows_columns(q, w, h), [q], DrawnTexts(cx, at))
    out = cx.method(a.screen, "render", origin=(ox, oy), redraw=True)
    e = Watch(cx, at)
    e.feed(out)
    cx.ensure("a full redraw shows every cell", cell_shown(cx, e.shown, cell))
    cx.ensure("a full redraw leaves no styles behind", e.plain())
    cx.ensure("nothing is left to be drawn", a.pending(q) is ABSENT)
    cx.cover("drawn")


def draw_big(cx):
    d = write_big(cx, CHECKS, True, origin=(cx.int("ox", 0, 1000), cx.int("oy", 0, 1000)), sizes=(60, 500, 4500))
    d.draw()
    cx.cover("drawn")
    cx.cover("kept")


@contract("draw.any", cases=[dict(pending=p) for p in (False, True)], covers=["drawn", "kept"], native=draw_big, trials=400, secs=4, budget=120)
def draw_any(cx):
    """An incremental draw of any number of pending texts, observed at any position."""
    draw_pending(cx)


# ------------------------------------------------------------------ what is not pending is displayed already


def write_on_big(cx):
    d = write_big(cx, CHECKS, True, origin=(cx.int("ox", 0, 1000), cx.int("oy", 0, 1000)))
    d.draw()


@contract("write.shown.any", covers=["pending", "kept"], native=write_on_big, trials=400, secs=4, budget=120,
          cases=[dict(hit=True, style=s, pending=p) for s in (False, True) for p in (False, True)] + [dict(hit=False, style=False, pending=False)])
def write_shown_any(cx):
    """After a text of any length written anywhere on any screen every cell that looks different
    is pending, with a text that shows it."""
    a = AnyWrite(cx, cx.style, cx.hit, cx.pending)
    a.run(True, True, ("bold",) if cx.style else ())
    got, new = a.a.pending(a.q), a.a.at(a.q)
    if got is not a.a.pending0:
        cx.cover("pending")
        check_pending(cx, got, new, "what looks different is drawn")
        return
    cx.cover("kept")
    if new is a.old:
        return
    new, old = (tuple(forced(x) for x in c) for c in (new, a.old))
    shown = Cell(*glyph(cx, old[0]), *(None if c is None else cx.get(c, "rgb") for c in old[1:]))
    cx.ensure("what is not drawn looks the same", cell_shown(cx, shown, new))


@contract("fill.shown.any", covers=["resize", "clear"], native=redraw_big, trials=400, secs=4, budget=120, cases=[dict(op="resize", style=True), dict(op="resize", style=False), dict(op="clear", style=False)])
def fill_shown_any(cx):
    """After a resize or clear of any screen every cell is pending, with a text that shows it."""
    w0, h0 = cx.int("old width", 0), cx.int("old height", 0)
    w, h = (cx.int("width", 0), cx.int("height", 0)) if cx.op == "resize" else (w0, h0)
    q = (cx.int("x", 0), cx.int("y", 0))
    cx.path.assume(inside(q, w, h))
    was = cx.check(inside(q, w0, h0))
    a = AnyScreen(cx, w0, h0, q, some_cell(cx, "c", cx.style, lazy=True) if was else None)
    cx.loops(rows_columns(q, w, h) + rows_columns(q, w0, h0, was), [q])
    if cx.op == "resize":
        cx.method(a.screen, "resize", (w, h))
    else:
        cx.method(a.screen, "clear")
    cx.cover(cx.op)
    check_pending(cx, a.pending(q), a.at(q), "every cell is drawn")
