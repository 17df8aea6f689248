"""C02: where written text lands."""

from .ghost import *  # noqa: F401,F403

CHECKS = set()


def starts(w, h):
    return [(x, y) for y in range(-1, h) for x in range(-1, w + 2)]


@contract("placement", cases=[dict(w=w, h=h, n=n) for w in (1, 2, 3) for h in (1, 2, 3) for n in (1, 2, 3, 5)], covers=["done"], trials=400, secs=1, budget=100,
          bound="screens of up to 3 by 3, any start position in or around it, texts of up to 5 characters with a newline anywhere or nowhere; arbitrary characters and colours")
def placement(cx):
    d = Driver(cx, cx.w, cx.h, CHECKS, fill=".")
    at = cx.choice("at", starts(cx.w, cx.h))
    chars = [d.char(f"c{i}") for i in range(cx.n)]
    nl = cx.choice("newline", [None] + list(range(cx.n)))
    if nl is not None:
        chars[nl] = "\n"
    d.write([d.piece(chars, ("bold",), d.color("fg", False), d.color("bg", True))], at=at)
    d.held("each character lands on its cell and other cells are kept")
    cx.cover("done")


@contract("overlap", cases=[dict(a=a, b=b) for a in range(4) for b in range(4)], covers=["done"], trials=400, secs=1, budget=100,
          bound="two texts of 2 and 3 characters anywhere on a screen of 2 by 2 over earlier content; arbitrary characters and colours")
def overlap(cx):
    d = Driver(cx, 2, 2, CHECKS)
    d.write([d.piece([d.char("p"), d.char("q")], ("italic",), d.color("pfg", False))], at=(1, 0))
    pos = [(0, 0), (1, 0), (0, 1), (1, 1)]
    d.bulk([(pos[cx.a], [d.piece([d.char("a0"), d.char("a1")], (), d.color("afg", False), d.color("abg", True))]),
            (pos[cx.b], [d.piece([d.char("b0"), " ", d.char("b2")], ("bold",), None, d.color("bbg", True))])])
    d.held("the last write of a cell wins and other cells are kept")
    cx.cover("done")


@contract("pieces", cases=[dict(n=n, m=m) for n in range(4) for m in range(4)], covers=["done"], trials=400, secs=1, budget=100,
          bound="two spans of up to 3 characters in one write on a screen of 3 by 3; arbitrary characters and colours")
def pieces(cx):
    d = Driver(cx, 3, 3, CHECKS)
    at = cx.choice("at", [(0, 0), (2, 0), (1, 1), (-1, 0), (0, -1), (3, 1)])
    d.write([d.piece([d.char(f"a{i}") for i in range(cx.n)], ("bold",), d.color("afg", False)),
             d.piece([d.char(f"b{i}") for i in range(cx.m)], (), None, d.color("bbg", True))], at=at)
    d.held("the pieces of a write follow each other")
    cx.cover("done")


@contract("histories", symbolic=False, covers=["done"], bound="random histories of up to 6 writes on screens of up to 6 by 4", trials=60000, secs=8)
def histories(cx):
    history(cx, list("wwwbbzk"), CHECKS, steps=(1, 1, 2, 3, 6))


# ------------------------------------------------------------------ any size, any state, any text

from .anyscreen import *  # noqa: E402,F401,F403


def write_on_big(cx):
    d = write_big(cx, CHECKS, cx.style)
    d.held("each character lands on its cell and other cells are kept")


@contract("write.any", covers=["written", "kept"], native=write_on_big, trials=400, secs=4, budget=120, cases=WRITES)
def write_any(cx):
    """A text of any length written anywhere on any screen, observed at any position."""
    a = AnyWrite(cx, cx.style, cx.hit)
    a.run(cx.fg, cx.bg, ("bold",) if cx.style else ())
    a.a.check_shape(a.w, a.h, a.q)
    if not cx.hit:
        cx.cover("kept")
        cx.ensure("cells that are not written keep their content", a.a.at(a.q) is a.old)
        return
    cx.cover("written")
    cx.ensure("each character lands on its cell", a.holds(a.a.at(a.q)))


@contract("positions.grow", covers=["first", "step"], trials=0)
def grow(cx):
    """Lemma: as long as a text stays on the screen, later characters lie behind earlier ones (by
    induction on the number of characters between them)."""
    w, h = cx.int("width", 0), cx.int("height", 0)
    x, y = cx.int("x"), cx.int("y")
    cx.path.assume(inside((x, y), w, h))
    nl = SBool(cx.path.fresh_bool("newline").e)
    nx, ny = step(zint(x), zint(y), zbool(nl), zint(w))
    cx.ensure("the next character lies behind", SBool(behind((nx, ny), (zint(x), zint(y)))))
    cx.cover("first")
    a, b = zint(cx.int("first x")), zint(cx.int("first y"))
    cx.path.assume(SBool(behind((zint(x), zint(y)), (a, b))))
    cx.ensure("what follows it does too", SBool(behind((nx, ny), (a, b))))
    cx.cover("step")


def bulk_on_big(cx):
    bulk_big(cx, CHECKS)
    cx.cover("kept")


@contract("bulk.any", covers=["kept"], native=bulk_on_big, budget=150, trials=400, secs=4)
def bulk_any(cx):
    """Any number of texts of any number of spans of any length written to any screen, observed at
    any position none of their characters lands on."""
    b = AnyBulk(cx, False)
    b.run()
    b.a.check_shape(b.w, b.h, b.q)
    cx.cover("kept")
    cx.ensure("cells no text lands on are kept", b.a.at(b.q) is b.old)
