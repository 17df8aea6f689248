"""C05: the cursor follows what is written."""

from .ghost import *  # noqa: F401,F403

CHECKS = {"cursor"}


def chars(d, n, nl):
    return ["\n" if i == nl else d.char(f"c{i}") for i in range(n)]


@contract("cursor", cases=[dict(w=w, h=h, n=n) for w in (1, 2, 3) for h in (1, 2, 3) for n in (0, 1, 2, 3, 5)], covers=["done"], trials=400, secs=1, budget=100,
          bound="screens of up to 3 by 3, texts of up to 5 characters with a newline anywhere or nowhere, started in or around the screen; arbitrary characters")
def cursor(cx):
    d = Driver(cx, cx.w, cx.h, CHECKS)
    at = cx.choice("at", [(x, y) for y in range(cx.h) for x in range(cx.w)] + [(-1, 0), (cx.w, 0), (0, -1)])
    d.write([d.piece(chars(d, cx.n, cx.choice("nl", [None] + list(range(cx.n)))), ("bold",))], at=at)
    cx.cover("done")


@contract("split", cases=[dict(n=n, k=k) for n in range(1, 6) for k in range(n + 1)], covers=["done"], trials=300, secs=1, budget=100,
          bound="texts of up to 5 characters with a newline anywhere or nowhere, split anywhere, on screens of 2 by 3 and 3 by 2; arbitrary characters and colours")
def split(cx):
    w, h = cx.choice("size", [(2, 3), (3, 2)])
    nl = cx.choice("nl", [None] + list(range(cx.n)))
    at = cx.choice("at", [(0, 0), (1, 0)])
    how = cx.choice("how", ["set", "first", "given"])
    d = Driver(cx, w, h, CHECKS, cursor=at if how == "given" else None)
    cs = chars(d, cx.n, nl)
    fg = d.color("fg", False)
    if how == "set":
        d.set_cursor(at)
    parts = [cs[: cx.k], cs[cx.k:]]
    if any(not domain(w, h, at, cs[:i]) for i in (cx.k, cx.n)):
        return
    for i, p in enumerate(parts):
        d.write([d.piece(p, (), fg)], at=at if how == "first" and i == 0 else None)
    d.held("consecutive writes continue where the last one ended")
    one = Driver(cx, w, h, CHECKS)
    one.write([one.piece(cs, (), fg)], at=at)
    cx.ensure("splitting a text does not change the cursor", cx.eq(cx.get(d.screen, "cursor"), cx.get(one.screen, "cursor")))
    one.held("the text at once")
    cx.cover("done")


def domain(w, h, at, cs):
    """The text ends on the screen."""
    g = Ghost(w, h)
    return g.placed([(at, [Piece(cs)])])[1][1] < h


@contract("bulk", cases=[dict(a=a, b=b) for a in range(3) for b in range(3)], covers=["done"], trials=300, secs=1, budget=100,
          bound="two texts of up to 2 characters on a screen of 2 by 2; arbitrary characters")
def bulk(cx):
    d = Driver(cx, 2, 2, CHECKS)
    at = [cx.choice(f"at{i}", [(0, 0), (1, 0), (0, 1), (1, 1)]) for i in range(2)]
    d.bulk([(at[0], [d.piece([d.char(f"a{i}") for i in range(cx.a)])]), (at[1], [d.piece([d.char(f"b{i}") for i in range(cx.b)])])])
    d.bulk([])
    if d.ghost.cursor[1] < 2:
        d.write([d.piece([d.char("z")])])
    d.resize(3, 3)
    d.check_cursor("resizing keeps the cursor")
    d.write([d.piece([d.char("y")])])
    cx.cover("done")


@contract("histories", symbolic=False, covers=["done"], bound="random histories of up to 9 operations on screens of up to 6 by 4", trials=60000, secs=8)
def histories(cx):
    history(cx, list("wwwwbczk"), CHECKS)


# ------------------------------------------------------------------ any size, any state, any text

from .anyscreen import *  # noqa: E402,F401,F403


def write_on_big(cx):
    write_big(cx, CHECKS, cx.style, here=cx.here)


@contract("write.any", covers=["end", "out"], native=write_on_big, trials=400, secs=4, budget=120, cases=[dict(style=s, here=c) for s in (False, True) for c in (False, True)])
def write_any(cx):
    """The cursor after a text of any length written anywhere on any screen."""
    a = AnyWrite(cx)
    a.run(styles=("bold",) if cx.style else (), here=cx.here)
    cx.cover("end" if cx.check(cx.eq(a.e, a.n)) else "out")
    x, y = a.a.screen.attrs["cursor"]
    cx.ensure("the cursor follows the last placed character", land(cx.eq(x, SInt(PX(zint(a.e)))), cx.eq(y, SInt(PY(zint(a.e))))))


def bulk_on_big(cx):
    bulk_big(cx, CHECKS)
    cx.cover("end")
    cx.cover("none")


@contract("bulk.any", cases=[dict(none=n) for n in (False, True)], covers=["end", "none"], native=bulk_on_big, budget=150, trials=400, secs=4)
def bulk_any(cx):
    """The cursor after any number of texts of any number of spans written to any screen."""
    b = AnyBulk(cx, texts=0) if cx.none else AnyBulk(cx, last=True)
    before = b.a.screen.attrs["cursor"]
    b.run()
    x, y = b.a.screen.attrs["cursor"]
    if cx.none:
        cx.cover("none")
        cx.ensure("no text leaves the cursor alone", land(cx.eq(x, before[0]), cx.eq(y, before[1])))
        return
    cx.cover("end")
    t = zint(b.m) - 1
    cx.ensure("the cursor follows the last text", land(cx.eq(x, SInt(BX(t, SPANS(t), 0))), cx.eq(y, SInt(BY(t, SPANS(t), 0)))))
