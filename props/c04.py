"""C04: resizing and clearing."""

from .ghost import *  # noqa: F401,F403

CHECKS = {"size", "drawn"}


SIZES = [(1, 1), (2, 1), (1, 2), (3, 2), (2, 3)]


@contract("resize", cases=[dict(old=o, new=n) for o in SIZES for n in SIZES + [(0, 0), (2, 0)]], covers=["done"], trials=300, secs=1, budget=100,
          bound="screens of up to 3 by 3 cells before and after; arbitrary content, colours and fill character")
def resize(cx):
    w, h = cx.old
    d = Driver(cx, w, h, CHECKS)
    d.write([d.piece([d.char(f"c{i}") for i in range(w * h - 1)] + [" "], ("bold",), d.color("fg", False), d.color("bg", True))], at=(0, 0))
    if cx.choice("drawn", [False, True]):
        d.draw()
    d.resize(*cx.new, fill=cx.choice("fill", [" ", d.char("f")]), keep=cx.choice("keep", [True, False]))
    d.draw()
    d.held("cells within both sizes are kept and the others are filled")
    cx.cover("done")


@contract("clear", cases=[dict(size=s) for s in SIZES], covers=["done"], trials=300, secs=1, budget=100,
          bound="screens of up to 3 by 3 cells; arbitrary content, colours and fill character")
def clear(cx):
    w, h = cx.size
    d = Driver(cx, w, h, CHECKS | {"cursor"})
    d.write([d.piece([d.char(f"c{i}") for i in range(w * h - 1)], ("bold",), d.color("fg", False), d.color("bg", True))], at=(0, 0))
    if cx.choice("drawn", [False, True]):
        d.draw()
    d.clear(cx.choice("fill", [" ", d.char("f")]))
    d.draw()
    d.held("every cell is filled")
    d.write([d.piece([d.char("n")])])
    d.held("the screen can be written again")
    cx.cover("done")


@contract("histories", symbolic=False, covers=["done"], bound="random histories of up to 9 operations on screens of up to 6 by 4", trials=60000, secs=8)
def histories(cx):
    d = history(cx, list("wwbczzzdk"), CHECKS)


# ------------------------------------------------------------------ any size, any state

from .anyscreen import *  # noqa: E402,F401,F403


def resize_big(cx):
    """The same on a real screen."""
    w0, h0 = big_size(cx, "old width", "old height")
    w, h = big_size(cx, "width", "height")
    d = Driver(cx, w0, h0, CHECKS | {"display"})
    if w0 * h0 > 1:
        d.write(big_text(cx, d, w0 * h0 - 1, styles=("bold",) if cx.style else ()), at=(0, 0))
    if cx.choice("drawn", [False, True]):
        d.draw()
    d.resize(w, h, fill=cx.text("f", excl=EXCL, unit=True) if cx.fill else " ", keep=cx.keep)
    d.draw()
    d.held("cells within both sizes are kept and the others are filled")


@contract("resize.any", covers=["kept", "filled", "gone"], native=resize_big, trials=400, secs=4, budget=120, cases=[dict(keep=k, style=s, fill=f) for k in (True, False) for s in (False, True) for f in (False, True) if k or not s])
def resize_any(cx):
    """Resizing from any state to any size, observed at any position."""
    w0, h0, w, h = (cx.int(n, 0) for n in ("old width", "old height", "width", "height"))
    q = (cx.int("x", 0), cx.int("y", 0))
    was, now = cx.check(inside(q, w0, h0)), cx.check(inside(q, w, h))
    a = AnyScreen(cx, w0, h0, q, some_cell(cx, "c", cx.style, lazy=True) if was else None)
    fill = cx.text("f", excl=EXCL, unit=True) if cx.fill else " "
    cx.loops(rows_columns(q, w, h, now) + rows_columns(q, w0, h0, was), [q])
    cursor = a.screen.attrs["cursor"]
    cx.method(a.screen, "resize", (w, h), fill, keep_original=cx.keep)
    cx.ensure("resizing leaves the cursor alone", cx.eq(a.screen.attrs["cursor"], cursor))
    if not now:
        cx.cover("gone")
        cx.ensure("nothing outside the screen is drawn", a.pending(q) is ABSENT)
        return
    a.check_shape(w, h, q)
    kept = was and cx.keep
    cx.cover("kept" if kept else "filled")
    want = a.cell if kept else (fill, None, None)
    got = a.at(q)
    cx.ensure("cells within both sizes are kept and the others are filled", land(cx.eq(got[0], want[0]), forced(got[1]) is forced(want[1]), forced(got[2]) is forced(want[2])))
    check_pending(cx, a.pending(q), want, "every cell is drawn after a resize")


def clear_big(cx):
    """The same on a real screen."""
    w, h = big_size(cx, "width", "height")
    d = Driver(cx, w, h, CHECKS | {"display", "cursor"})
    if w * h > 1:
        d.write(big_text(cx, d, w * h - 1, styles=("bold",) if cx.choice("bold", [False, True]) else ()), at=(0, 0))
    if cx.choice("drawn", [False, True]):
        d.draw()
    d.clear(cx.text("f", excl=EXCL, unit=True) if cx.fill else " ")
    d.draw()
    d.held("clearing fills every cell")


@contract("clear.any", covers=["filled", "outside"], native=clear_big, trials=400, secs=4, budget=120, cases=[dict(fill=f) for f in (False, True)])
def clear_any(cx):
    """Clearing from any state, observed at any position."""
    w, h = cx.int("width", 0), cx.int("height", 0)
    q = (cx.int("x", 0), cx.int("y", 0))
    on = cx.check(inside(q, w, h))
    a = AnyScreen(cx, w, h, q)
    cx.loops(rows_columns(q, w, h, on), [q])
    fill = cx.text("f", excl=EXCL, unit=True) if cx.fill else " "
    cx.method(a.screen, "clear", *([fill] if cx.fill else []))
    cx.ensure("clearing moves the cursor to the top-left", cx.eq(a.screen.attrs["cursor"], (0, 0)))
    if not on:
        cx.cover("outside")
        cx.ensure("nothing outside the screen is drawn", a.pending(q) is ABSENT)
        return
    cx.cover("filled")
    a.check_shape(w, h, q)
    got = a.at(q)
    cx.ensure("clearing fills every cell", land(cx.eq(got[0], fill), got[1] is None, got[2] is None))
    check_pending(cx, a.pending(q), (fill, None, None), "every cell is drawn after clearing")
