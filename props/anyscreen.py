"""Screens of any size in any state, observed at one arbitrary cell.

The contracts built on this are inductive steps: they start from an arbitrary state that satisfies
the representation invariant of Screen (a matrix of height rows of width cells, each a text and two
optional colours; a buffer of pending texts by position) and decide what one operation does to one
arbitrary position, so they hold after any history.  Loops over rows, columns and characters are
decided by the loop rule.  They read the representation: where it is not the one described here,
they do not apply (undischarged) and the bounded contracts decide alone."""

from .ghost import *  # noqa: F401,F403
from .common import _b  # noqa: F401
from pyvc.loops import simp

ATTRS_OF_SCREEN = {"_cells", "_change_buffer", "cursor", "_scrollback_offset", "width", "height"}

TEXT = ("str", None, frozenset("\n\x1b"), 0)
OPT_COLOR = AbsType([("none",), ("obj", Color)])
CELL = AbsType([("tuple", [AbsType([TEXT]), OPT_COLOR, OPT_COLOR])])


def rep(ok, what):
    if not ok:
        raise Unsupported(f"representation of the screen: {what}")


class AnyScreen:
    """An arbitrary screen of w by h cells; `q` an arbitrary position."""

    def __init__(self, cx, w, h, q, cell=None, pending=None):
        ip, p = cx.ip, cx.path
        color_contracts(cx)
        stub_blend(cx)
        stub_true_color(cx)
        ip.instance_makers[Color] = lambda ip_, name: self.new_color(name)
        ip.plain_eq.add(Color)
        p.ex.assumed.add("comparing a colour with anything gives a Boolean and has no effects (contract C10)")
        self.cx, self.q = cx, q
        s = self.screen = cx.call(Screen, 1, 1)
        rep(isinstance(s, Obj) and set(s.attrs) == ATTRS_OF_SCREEN, "attributes")
        rep(not is_sym(s.attrs["_scrollback_offset"]) and s.attrs["_scrollback_offset"] == 0, "offset")
        cells, buf = s.attrs["_cells"], s.attrs["_change_buffer"]
        rep(isinstance(cells, PList) and cells.items is not None and len(cells.items) == 1, "cells")
        row = cells.items[0]
        rep(isinstance(row, PList) and len(row.items) == 1 and isinstance(row.items[0], tuple) and len(row.items[0]) == 3, "rows")
        rep(isinstance(buf, Obj) and set(buf.attrs) == {"_data"} and isinstance(buf.attrs["_data"], PDict), "changes")
        rep([k for k, _ in buf.attrs["_data"].known] == [(0, 0)], "keys of the changes")
        s.attrs["width"], s.attrs["height"] = w, h
        s.attrs["cursor"] = (p.fresh_int("cursor.x"), p.fresh_int("cursor.y"))
        s.attrs["_cells"] = PList.symbolic(p, h, None, AbsType([("list", CELL, w)]), tag="cells")
        m = s.attrs["_cells"]
        m.base = lambda q_, i: self.row(i, w, m)
        data = self.data = PDict(p, tag="changes")
        data.base_type = AbsType([("str", None, frozenset(), 0)])
        data.base = lambda q_, key: ABSENT if q_.choose([True, False]) else q_.fresh_txt("pending")
        buf.attrs["_data"] = data
        self.cell = cell
        if cell is not None:
            r = m.at(q[1])
            r.known.append([q[0], cell])
        if pending is not None:
            # a text is pending at q, or none is
            self.pending0 = p.fresh_txt("pending.q") if pending else ABSENT
            data.known.append([q, self.pending0])

    def row(self, i, w, parent):
        r = PList.symbolic(self.cx.path, w, lambda q_, j: self.any_cell(), CELL, tag=self.cx.path.fresh_name("row"))
        r.parent = parent
        return r

    def any_cell(self):
        from pyvc.heap import materialize

        return materialize(self.cx.path, self.cx.ip, CELL, "cell")

    def new_color(self, name):
        cx, p = self.cx, self.cx.path
        t = tuple(p.fresh_int(f"{name}.{c}") for c in "rgb")
        for x in t:
            p.assume(SBool(z3.And(x.e >= 0, x.e <= 255)))
        a = p.fresh_real(name + ".alpha")
        p.assume(SBool(z3.And(a.e >= 0, a.e <= 1)))
        return light_color(cx, t, p.fresh_bool(name + ".bg"), a)

    # what the screen holds now
    def cells(self):
        m = self.screen.attrs["_cells"]
        rep(isinstance(m, PList), "cells")
        return m

    def at(self, q):
        r = self.cells().get(q[1])
        rep(isinstance(r, PList), "rows")
        c = r.get(q[0])
        rep(isinstance(c, tuple) and len(c) == 3, "cell")
        return c

    def pending(self, q):
        b = self.screen.attrs["_change_buffer"]
        d = b.attrs["_data"]
        rep(isinstance(d, PDict), "changes")
        return d.lookup(q)

    def check_shape(self, w, h, q):
        """The invariant of the matrix, at the row of q."""
        cx = self.cx
        cx.ensure("the screen has the requested size", land(cx.eq(self.screen.attrs["width"], w), cx.eq(self.screen.attrs["height"], h)))
        m = self.cells()
        cx.ensure("the matrix has one row per line", cx.eq(m.length(), h))
        cx.ensure("every row has one cell per column", cx.eq(m.get(q[1]).length(), w))


def glyph(cx, text):
    """(character, styles) a cell's text displays."""
    e = Emu(cx)
    log = e.feed(text)
    if len(log) != 1:
        raise Unsupported("a cell's text that is not one character")
    c = e.cells[log[0]]
    return c.char, c.styles


def check_pending(cx, text, cell, what):
    """A pending text displays the cell: its character, styles and colours."""
    cell = tuple(forced(x) for x in cell)
    cx.ensure(what, text is not ABSENT)
    if text is ABSENT:
        return
    e = Emu(cx)
    log = e.feed(text)
    cx.ensure("a pending text is one character", len(log) == 1)
    cx.ensure("a pending text leaves no styles behind", not e.styles and e.fg is None and e.bg is None)
    char, styles = glyph(cx, cell[0])
    got = e.cells[log[0]]

    def shown(got, want):
        if want is None:
            return got is None
        return got is not None and land([cx.eq(a, b) for a, b in zip(got, cx.get(want, "rgb"))])

    cx.ensure("a pending text shows the cell", land(cx.eq(got.char, char), got.styles == styles, shown(got.fg, cell[1]), shown(got.bg, cell[2])))


def inside(q, w, h):
    return land(cmp(">=", q[0], 0), cmp("<", q[0], w), cmp(">=", q[1], 0), cmp("<", q[1], h))


def light_color(cx, t, background, alpha=1.0):
    """A colour with the given channels as its constructor leaves it; its derived fields are known
    only to be within their ranges (contracts C10)."""
    import dataclasses

    fs = {f.name: f for f in dataclasses.fields(Color)}
    if {n for n, f in fs.items() if f.init} != {"rgb", "is_background", "alpha", "_origin_colorspace", "_constructor"}:
        return cx.ip.call(Color, [t], {"is_background": background, "alpha": alpha})
    o = cx.ip.new_obj(Color, {"rgb": t, "is_background": background, "alpha": alpha,
                              "_origin_colorspace": fs["_origin_colorspace"].default, "_constructor": fs["_constructor"].default})

    def unit(o_):
        v = cx.path.fresh_real("derived")
        cx.path.assume(SBool(z3.And(v.e >= 0, v.e <= 1)))
        return v

    for n in set(fs) - set(o.attrs):
        if n in ("luminance", "brightness"):
            o.lazy[n] = unit
        elif n == "hls":
            o.lazy[n] = lambda o_: (unit(o_), unit(o_), unit(o_))
        elif n == "hex":
            o.lazy[n] = lambda o_: mkstr(["#"] + [HexP(zint(x)) for x in t])
    cx.path.ex.assumed.add("an arbitrary colour: any channels within 0-255, any alpha within 0-1, derived fields within their ranges (contracts C10)")
    return o


def some_color(cx, name, background):
    return light_color(cx, rgb(cx, name), background) if cx.choice(name + "?", [False, True]) else None


def rows_columns(q, w, h, on=True):
    """Loops over rows and columns are cut at the position observed."""
    if not on:
        return []
    rows = Hint(h, q[1])
    return [rows, Hint(w, q[0], within=[rows])]


def some_cell(cx, name, bold=False, lazy=False):
    c = cx.text(name, excl=EXCL, unit=True)
    text = cx.concat("\x1b[1m", c, "\x1b[0m") if bold else c
    fg, bg = lambda: some_color(cx, name + ".fg", False), lambda: some_color(cx, name + ".bg", True)
    return (text, Lazy(OPT_COLOR, fg), Lazy(OPT_COLOR, bg)) if lazy else (text, fg(), bg())


# ------------------------------------------------------------------ the same on real screens


def limits(cx, low=100, high=20000):
    """Sizes past the larger numbers in the source, where a limit would show."""
    return [x + x // 6 + 2 for x in cx.pool.ints if low < x <= high] or [500]


def big_size(cx, a, b, most=None, sizes=(60, 500, 500, 2500)):
    """A size for a run on the real code, large but within reason."""
    limit = cx.rng.choice(limits(cx)) if most is None and cx.rng.random() < 0.25 else 0
    most = most or limit or cx.rng.choice(sizes)
    w, h = cx.int(a, 0, 400), cx.int(b, 0, 400)
    if limit and not cx._given(a) and w and h:
        # just past a number the code mentions
        if cx.rng.random() < 0.5:
            h = cx.drawn[b] = most // w + 1
        else:
            w = cx.drawn[a] = most // h + 1
    elif not cx._given(a) and w * h > most:
        if cx.rng.random() < 0.5:
            h = cx.drawn[b] = most // w
        else:
            w = cx.drawn[a] = most // h
    cx.require(w * h <= 40000)
    return w, h


def big_text(cx, d, n, first=0, name="c", styles=(), newlines=()):
    """A piece of n characters, with the style and colours of the cell the proof looks at."""
    chars = [chr(97 + (7 * i + i // 26 + first) % 26) for i in range(n)]
    for k in newlines:
        for i in range(k, n, 37):
            chars[i] = "\n"
    fg = d.color(name + ".fg", False) if cx.choice(name + ".fg?", [False, True]) else None
    bg = d.color(name + ".bg", True) if cx.choice(name + ".bg?", [False, True]) else None
    return [d.piece(chars, styles, fg, bg)]


# ------------------------------------------------------------------ writing any text

PX = z3.Function("pos_x", z3.IntSort(), z3.IntSort())
PY = z3.Function("pos_y", z3.IntSort(), z3.IntSort())
NL = z3.Function("is_newline", z3.IntSort(), z3.BoolSort())
CHARS = z3.Function("char_at", z3.IntSort(), Txt)


def step(x, y, newline, w):
    """Where the character after the one at (x, y) lies."""
    wrap = x + 1 >= w
    return z3.If(newline, x, z3.If(wrap, 0, x + 1)), z3.If(z3.Or(newline, wrap), y + 1, y)


def behind(a, b):
    """Position a comes after position b in reading order."""
    return z3.Or(a[1] > b[1], z3.And(a[1] == b[1], a[0] > b[0]))


class AnyWrite:
    """A write of any text to any screen.

    The position of the i-th character is defined by recursion: (PX, PY)(0) is the start; a newline
    goes one row down; any other character goes one column right, and to the first column of the
    next row after the last one.  `e` is the number of characters until the text ends or leaves the
    screen.  hit: some character s < e that is not a newline lies at q (at most one: positions
    grow); not hit: none does; None: nothing is said about q."""

    def __init__(self, cx, style=False, hit=None, pending=None):
        p = cx.path
        self.cx = cx
        w, h = self.w, self.h = cx.int("width", 0), cx.int("height", 0)
        q = self.q = (cx.int("x", 0), cx.int("y", 0))
        p.assume(inside(q, w, h))
        self.old = some_cell(cx, "old", style, lazy=True)
        a = self.a = AnyScreen(cx, w, h, q, self.old, pending)
        x0, y0 = self.start = (cx.int("start x"), cx.int("start y"))
        p.assume(cmp("<", y0, h))
        n = self.n = cx.int("n", 0)
        e = self.e = cx.int("e", 0)
        p.assume(cmp("<=", e, n))
        p.assume(SBool(z3.And(PX(0) == zint(x0), PY(0) == zint(y0))))
        self.assume_at(e)
        p.assume(implies(cmp("<", e, n), lnot(self.on(e))))
        self.s, self.hit = None, hit
        if hit:
            s = self.s = cx.int("s", 0)
            p.assume(land(cmp("<", s, e), SBool(PX(s.e) == zint(q[0])), SBool(PY(s.e) == zint(q[1])), SBool(z3.Not(NL(s.e)))))

    def on(self, i):
        return land(SBool(PX(zint(i)) >= 0), SBool(PX(zint(i)) < zint(self.w)), SBool(PY(zint(i)) >= 0), SBool(PY(zint(i)) < zint(self.h)))

    def assume_at(self, i):
        pass

    def facts(self, i):
        """The definitions and hypotheses at index i."""
        z = zint(i)
        nx, ny = step(PX(z), PY(z), NL(z), zint(self.w))
        out = [SBool(PX(z + 1) == nx), SBool(PY(z + 1) == ny),
               implies(cmp("<", i, self.e), self.on(i))]
        if self.hit:
            # positions grow (lemma positions.grow)
            qx, qy, s = zint(self.q[0]), zint(self.q[1]), zint(self.s)
            for k in (z, z + 1):
                out.append(SBool(z3.Implies(k < s, behind((qx, qy), (PX(k), PY(k))))))
                out.append(SBool(z3.Implies(z3.And(s < k, k <= zint(self.e)), behind((PX(k), PY(k)), (qx, qy)))))
        elif self.hit is not None:
            out.append(SBool(z3.Implies(z3.And(z < zint(self.e), z3.Not(NL(z))), z3.Or(PX(z) != zint(self.q[0]), PY(z) != zint(self.q[1])))))
        return out

    def hints(self):
        h = Hint(self.n, self.s, ghosts=[lambda i: SInt(PX(zint(i))), lambda i: SInt(PY(zint(i)))], facts=self.facts,
                 reach=lambda i: cmp("<=", i, self.e))
        return [h] + rows_columns(self.q, self.w, self.h, self.hit is not None)

    def char(self, i):
        """The i-th character (not a newline)."""
        return SStr([Op(CHARS(zint(i)), excl=EXCL, unit=True)])

    def item(self, i, sequence, reset):
        """What get_characters gives for it (contract C13)."""
        p = self.cx.path
        nl = p.decide(SBool(NL(zint(i))))
        c = "\n" if nl else self.char(i)
        out = [sequence, c]
        if sequence and reset and p.decide(cmp("==", i, self.n - 1)):
            out.append("\x1b[0m")
        return self.cx.concat("", *out)

    def run(self, fg=False, bg=False, styles=(), reset=True, force=False, here=False):
        cx, p = self.cx, self.cx.path
        fg = self.fg = light_color(cx, rgb(cx, "fg"), False) if fg else None
        bg = self.bg = light_color(cx, rgb(cx, "bg"), True) if bg else None
        seq = "\x1b[1m" if styles else ""
        self.styles = frozenset(styles)
        kw = {k: True for k in styles}
        if not reset:
            kw["reset_after"] = False
        span = cx.call(Span, "x", foreground=fg, background=bg, **kw)

        def get(ip, args, kwargs):
            rep(args[0] is span and kwargs == {"exclude_color": True, "always_include_sequence": True} and len(args) == 1, "how the characters are asked for")
            item = AbsType([("str", None, frozenset(), 1)])
            return PList.symbolic(p, self.n, lambda q_, i: self.item(i, seq, reset), item, tag=p.fresh_name("chars"))

        cx.stub(Span.get_characters, get, "Span.get_characters: one item per character, the styles before each, a reset after the last (contract C13)")
        cx.loops(self.hints(), [self.q])
        if here:
            self.a.screen.attrs["cursor"] = self.start
            return cx.method(self.a.screen, "write", cx.list([span]), force_overwrite=force)
        return cx.method(self.a.screen, "write", cx.list([span]), cursor=self.start, force_overwrite=force)

    def holds(self, cell):
        """The cell holds the character that lands on it, in its styles and colours."""
        cx = self.cx
        cell = tuple(forced(x) for x in cell)
        char, styles = glyph(cx, cell[0])
        fg = cx.get(self.fg, "rgb") if self.fg is not None else (255, 255, 255)
        return land(cx.eq(char, self.char(self.s)), styles == self.styles,
                    cell[1] is not None and cx.eq(cx.get(cell[1], "rgb"), fg),
                    cell[2] is None if self.bg is None else cell[2] is not None and cx.eq(cx.get(cell[2], "rgb"), cx.get(self.bg, "rgb")))


WRITES = [dict(hit=k, style=s, fg=f, bg=b) for k in (True, False) for s in (False, True) for f in (False, True) for b in (False, True)]


def write_big(cx, checks, style=True, force=False, here=False, origin=None, **kw):
    """A long text on a large real screen."""
    w, h = big_size(cx, "width", "height", **kw)
    cx.require(w > 0 and h > 0)
    d = Driver(cx, w, h, checks, **({"origin": origin} if origin else {}))
    first = big_text(cx, d, w * h - 1, 3, "old", ("bold",) if cx.choice("bold", [False, True]) else ())
    d.write(first, at=(0, 0))
    if cx.choice("drawn", [False, True]):
        d.draw()
    if not here and cx.choice("again", [False, False, True]):
        d.write(first, at=(0, 0), force=force)
        return d
    at = cx.int("start x", -2, w + 1), cx.int("start y", -2, h - 1)
    n = cx.int("n", 0, w * h + 5)
    cx.require(n <= 40000 and at[1] < h)
    ps = big_text(cx, d, n, cx.choice("first", [0, 3, 5]), "new", ("bold",) if style else (), cx.choice("newlines", [(), (0,), (3, 10), (2, 50), (7,)]))
    if here:
        d.set_cursor(at)
    d.write(ps, at=None if here else at, force=force)
    return d


def bulk_big(cx, checks, force=False):
    """Many long texts on a large real screen."""
    w, h = big_size(cx, "width", "height", sizes=(60, 500, 500))
    cx.require(w > 0 and h > 0)
    d = Driver(cx, w, h, checks)
    d.write(big_text(cx, d, w * h - 1, 3, "old"), at=(0, 0))
    if cx.choice("drawn", [False, True]):
        d.draw()
    texts = []
    many = cx.choice("many", [None, None, None, "texts", "spans"])
    count = cx.int("count", 0, 2000) if many else 0
    if many and not cx._given("count"):
        count = cx.drawn["count"] = cx.rng.choice(limits(cx, 5, 1000))
    for t in range(cx.choice("texts", [count] if many == "texts" else [1] if many else [0, 1, 2, 3, 3, 7, 40])):
        at = cx.int(f"start x {t}", -2, w + 1), cx.int(f"start y {t}", -2, h - 1)
        y, line = at[1], []
        for k in range(cx.choice(f"spans {t}", [count] if many == "spans" else [1] if many else [0, 1, 2, 3, 5])):
            # no span starts below the screen
            n = cx.int(f"n {t} {k}", 0, max(0, (h - 1 - max(y, 0)) * w - 1) if w > 1 else 0) if not many else cx.int(f"n {t} {k}", 0, min(2, w - 1))
            rich = cx.choice(f"rich {t} {k}", [False, True])
            chars = [chr(97 + (7 * i + i // 26 + t + k) % 26) for i in range(n)]
            line.append(d.piece(chars, ("bold",) if rich else (), d.color(f"{t} {k} fg", False) if rich else None, d.color(f"{t} {k} bg", True) if rich else None))
            y += n // w + 1
        texts.append((at, line))
    d.bulk(texts, force=force)
    return d


# ------------------------------------------------------------------ drawn text of any length

ANYTHING = ("anything",)
NOTHING = ("nothing",)


class Effect:
    """What a text does to a terminal whose styles are reset, observed at one position.

    at: cursor after it if it positions the cursor, else None; cells: how many cells it fills if it
    only fills cells from the cursor on, else None; shown: what the position observed shows after
    it if it positions the cursor (NOTHING: it is left alone); spots: [number, cell] for cells of
    which it is known what they show, counted from the cursor; clean: it leaves the styles reset."""

    def __init__(self, at=None, cells=None, shown=NOTHING, spots=(), clean=True):
        self.at, self.cells, self.shown, self.spots, self.clean = at, cells, shown, list(spots), clean


class Watch(Emu):
    """The terminal of the specification, seen at one position only."""

    def __init__(self, cx, q):
        super().__init__(cx)
        self.q = q
        self.at, self.n, self.shown, self.spots, self.clean = None, 0, NOTHING, [], True

    def reset(self):
        super().reset()
        self.clean = True

    def put(self, c):
        self.fill(1, [[0, Cell(c, self.styles, self.fg, self.bg) if self.clean else ANYTHING]])

    def fill(self, n, spots):
        p = self.cx.path
        if self.at is None:
            if self.n is None:
                self.shown = ANYTHING
                return
            self.spots += [[arith("+", self.n, k), c] for k, c in spots]
            self.n = simp(arith("+", self.n, n))
            return
        x, y = self.at
        if not p.implied(lnot(land(cmp("==", y, self.q[1]), cmp("<=", x, self.q[0]), cmp("<", self.q[0], arith("+", x, n))))):
            self.shown = ANYTHING
            if p.implied(land(cmp("==", y, self.q[1]), cmp("<=", x, self.q[0]), cmp("<", self.q[0], arith("+", x, n)))):
                for k, c in spots:
                    if p.implied(cmp("==", arith("+", x, k), self.q[0])):
                        self.shown = c
        self.at = (simp(arith("+", x, n)), y)

    def csi(self, final, ps):
        if final in ("H", "f"):
            y, x = (list(ps) + [0, 0])[:2] if len(ps) > 1 else (ps[0], 0)
            if self.at is None and self.n is not None and not self.blank():
                self.shown = ANYTHING  # cells drawn somewhere
            self.at, self.n = (x, y), None
            return
        super().csi(final, ps)

    def blank(self):
        return not is_sym(self.n) and self.n == 0

    def opaque(self, x):
        if not isinstance(x, Drawn):
            raise Unsupported("text of unknown length in drawn output")
        if not self.plain():
            if x.effect.cells is None:
                raise Unsupported("drawn text under styles")
            self.fill(x.effect.cells, [])
        else:
            e = x.effect
            if e.cells is not None:
                self.fill(e.cells, e.spots)
            else:
                if e.shown is not NOTHING:
                    self.shown = e.shown
                self.at, self.n = e.at, None
        self.clean = self.clean and x.effect.clean

    def plain(self):
        return self.clean and not self.styles and self.fg is None and self.bg is None

    def effect(self):
        return Effect(self.at, self.n, self.shown, self.spots, self.plain())


class DrawnTexts:
    """Follows texts that are drawn through loops."""

    def __init__(self, cx, q):
        self.cx, self.q = cx, q
        self.seen = {}

    def summary(self, text):
        if id(text) not in self.seen:
            w = Watch(self.cx, self.q)
            w.feed(text)
            self.seen[id(text)] = (text, w.effect())
        return self.seen[id(text)][1]

    def new(self, effect, name="drawn"):
        return SStr([Drawn(self.cx.path.fresh_txt(name).parts[0].e, effect)])

    def positions(self, hint):
        g = hint.ghosts if hint else []
        return [(f"drawn up to {a} {b}", x, y) for a, x in enumerate(g) for b, y in enumerate(g)]

    def make(self, path, s, kept, i, lo, hint):
        e0 = self.summary(s)
        if kept("cells"):
            return self.new(Effect(None, arith("+", e0.cells, arith("-", i, lo)), spots=e0.spots if kept("spots") else ()))
        at = None
        for name, x, y in self.positions(hint):
            if kept(name):
                at = (x(i), y(i))
        return self.new(Effect(at, None, e0.shown if kept("shown") else ANYTHING))

    def check(self, path, v, s, kept, i, lo, hint, entry=False):
        """(name, holds) of what is known of a text."""
        bad = [("cells" if kept("cells") and not entry else "drawn", False)]
        try:
            e0, e = self.summary(s), self.summary(v)
        except Unsupported:
            return bad
        if not e.clean:
            return bad
        out = []
        if kept("cells"):
            ok = e.cells is not None and e0.cells is not None and path.implied(cmp("==", e.cells, arith("+", e0.cells, arith("-", i, lo))))
            out.append(("cells", ok))
            if kept("spots"):
                out.append(("spots", ok and all(any(c is d and path.implied(cmp("==", k, m)) for m, d in e.spots) for k, c in e0.spots)))
            if not entry:
                # nothing else is taken for known as long as this is
                return out
        if kept("shown"):
            # cells filled where the cursor is not known may be anywhere
            known = e.cells is None or (not is_sym(e.cells) and e.cells == 0)
            out.append(("shown", known and e.shown is e0.shown))
        for name, x, y in self.positions(hint):
            if kept(name):
                out.append((name, e.at is not None and path.implied(land(cmp("==", e.at[0], x(i)), cmp("==", e.at[1], y(i))))))
        return out


# ------------------------------------------------------------------ drawing any screen


class AnyCells(AnyScreen):
    """A screen whose cells can be drawn.

    The invariant of the cells: a plain character without colours (a fill), or one character with
    whatever styles, a foreground and perhaps a background (written; contract C02)."""

    def any_cell(self):
        p = self.cx.path
        if p.choose(["fill", "written"]) == "fill":
            return (self.cx.concat("", SStr([Op(p.fresh_txt("fill").parts[0].e, excl=EXCL, unit=True)])), None, None)
        text = SStr([Drawn(p.fresh_txt("cell").parts[0].e, Effect(None, 1, clean=False))])
        return (text, self.layer("cell.fg", False), Lazy(OPT_COLOR, lambda: self.layer("cell.bg", True) if p.choose([True, False]) else None))

    def layer(self, name, background):
        c = self.new_color(name)
        c.attrs["is_background"] = background
        return c


def drawable_cell(cx, style):
    c = cx.text("c", excl=EXCL, unit=True)
    if style is None:
        return (c, None, None)
    text = cx.concat("\x1b[1m", c, "\x1b[0m") if style else c
    cx.choice("c.fg?", [True])
    return (text, light_color(cx, rgb(cx, "c.fg"), False), some_color(cx, "c.bg", True))


def cell_shown(cx, got, cell):
    """A cell of the terminal displays a cell of the screen."""
    if got is NOTHING or got is ANYTHING:
        return False
    cell = tuple(forced(x) for x in cell)
    char, styles = glyph(cx, cell[0])

    def color(a, b):
        if b is None:
            return a is None
        return a is not None and land([cx.eq(x, y) for x, y in zip(a, cx.get(b, "rgb"))])

    return land(cx.eq(got.char, char), got.styles == styles, color(got.fg, cell[1]), color(got.bg, cell[2]))


class AnyPending:
    """The pending texts of any screen as a list in any order: one entry per pending position.

    The entries of a dict, and what sorting makes of them, are lists of `m` entries at distinct
    positions (KX(i), KY(i)); entry `s` is that of q if a text is pending there.  Every pending text
    shows one cell and leaves the styles reset (contracts C03 and C04)."""

    def __init__(self, cx, screen, q, cell, pending, hint):
        self.cx, self.q, self.hint = cx, q, hint
        self.data, self.pending = screen.data, pending
        self.m = hint.length
        self.text = SStr([Drawn(cx.path.fresh_txt("pending.q").parts[0].e, Effect(None, 1, spots=[[0, cell]]))])
        self.made = 0
        cx.ip.entries_hook = self.entries
        cx.ip.sorted_hook = self.sorted
        cx.path.ex.assumed.add("the items of a dict: every entry once, in some order; sorted: the same items in some order")

    def make(self):
        p, k = self.cx.path, self.made
        self.made += 1
        KX, KY = (z3.Function(f"pending_{c}_{k}", z3.IntSort(), z3.IntSort()) for c in "xy")
        TX = z3.Function(f"pending_text_{k}", z3.IntSort(), Txt)
        s = None
        if self.pending:
            s = p.fresh_int("s")
            p.assume(land(cmp(">=", s, 0), cmp("<", s, self.m), SBool(KX(s.e) == zint(self.q[0])), SBool(KY(s.e) == zint(self.q[1]))))

        def facts(i):
            other = SBool(z3.Or(KX(zint(i)) != zint(self.q[0]), KY(zint(i)) != zint(self.q[1])))
            return [other if s is None else lor(cmp("==", i, s), other)]

        def get(q_, i):
            for c in facts(i):
                p.assume(c)
            if s is not None and p.decide(cmp("==", i, s)):
                return (self.q, self.text)
            return ((SInt(KX(zint(i))), SInt(KY(zint(i)))), SStr([Drawn(TX(zint(i)), Effect(None, 1))]))

        h = self.hint
        h.pivot, h.facts = s, facts
        h.KX, h.KY = KX, KY
        item = AbsType([("tuple", [AbsType([("tuple", [AbsType([("int",)])] * 2)]), AbsType([TEXT])])])
        r = PList.symbolic(p, self.m, get, item, tag=p.fresh_name("items"))
        r.role = self
        return r

    def entries(self, ip, d, name):
        if d is not self.data or name != "items":
            return None
        return self.make()

    def sorted(self, ip, v, kw):
        if not (isinstance(v, PList) and v.items is None and v.role is self and not v.known and ip.path.implied(cmp("==", v.n, self.m))):
            return None
        if kw.get("key") is not None:
            # the key of an arbitrary entry
            i = ip.path.fresh_int("entry")
            ip.path.assume(land(cmp(">=", i, 0), cmp("<", i, self.m)))
            ip.call(kw["key"], [v.base(ip.path, i)])
        return self.make()


def draw_pending(cx):
    """An incremental draw of any screen shows what is pending at q and touches nothing else."""
    p = cx.path
    w, h = cx.int("width", 0), cx.int("height", 0)
    q = (cx.int("x", 0), cx.int("y", 0))
    p.assume(inside(q, w, h))
    a = AnyCells(cx, w, h, q, None)
    ox, oy = cx.int("ox", 0), cx.int("oy", 0)
    at = (q[0] + ox, q[1] + oy)
    cell = Cell("q")
    hint = Hint(cx.int("m", 0), first=True)
    hint.ghosts = [lambda i: SInt(hint.KX(zint(i) - 1)) + ox, lambda i: SInt(hint.KY(zint(i) - 1)) + oy, lambda i: SInt(hint.KX(zint(i) - 1)) + ox + 1]
    AnyPending(cx, a, q, cell, cx.pending, hint)
    cx.loops([hint] + rows_columns(q, w, h), [q], DrawnTexts(cx, at))
    out = cx.method(a.screen, "render", origin=(ox, oy))
    e = Watch(cx, at)
    e.feed(out)
    if cx.pending:
        cx.ensure("a draw shows every pending text", e.shown is cell)
        cx.cover("drawn")
    else:
        cx.ensure("a draw leaves other cells alone", e.shown is NOTHING and (e.at is not None or e.n is None or e.blank()))
        cx.cover("kept")
    cx.ensure("a draw leaves no styles behind", e.plain())
    cx.ensure("nothing is left to be drawn", a.pending(q) is ABSENT)


# ------------------------------------------------------------------ bulk writes of any number of texts

_I, _B = z3.IntSort(), z3.BoolSort()
SX = z3.Function("start_x", _I, _I)
SY = z3.Function("start_y", _I, _I)
SPANS = z3.Function("spans", _I, _I)
LEN = z3.Function("chars", _I, _I, _I)
PLACED = z3.Function("placed", _I, _I, _I)
BX = z3.Function("bulk_x", _I, _I, _I, _I)
BY = z3.Function("bulk_y", _I, _I, _I, _I)
BNL = z3.Function("bulk_newline", _I, _I, _I, _B)
BCHAR = z3.Function("bulk_char", _I, _I, _I, Txt)


class AnyBulk:
    """A bulk write of any number of texts of any number of spans of any length to any screen.

    Character i of span k of text t lies at (BX, BY)(t, k, i), defined by recursion: a text starts
    at (SX, SY)(t), a span where the one before it ended, a character where `step` says.
    PLACED(t, k) characters of a span are placed, until it ends or leaves the screen.  hit: (t, k, i)
    is the last character that lies at q; not hit: none does; None: nothing is said about q.  No span
    starts below the screen (no scrolling); the spans are bare, or styled with both colours."""

    def __init__(self, cx, hit=None, style=False, pending=None, last=None, texts=None, spans=None):
        p = cx.path
        self.cx = cx
        self.count = spans
        w, h = self.w, self.h = cx.int("width", 0), cx.int("height", 0)
        q = self.q = (cx.int("x", 0), cx.int("y", 0))
        p.assume(inside(q, w, h))
        self.old = some_cell(cx, "old", style, lazy=True)
        self.a = AnyScreen(cx, w, h, q, self.old, pending)
        self.m = cx.int("texts", 0) if texts is None else texts
        self.hit, self.style = hit, style
        self.t = self.k = self.i = None
        if hit:
            t, k, i = self.t, self.k, self.i = cx.int("t", 0), cx.int("k", 0), cx.int("i", 0)
            p.assume(land(cmp("<", t, self.m), SBool(k.e < SPANS(t.e)), SBool(i.e < PLACED(t.e, k.e)),
                          SBool(BX(t.e, k.e, i.e) == zint(q[0])), SBool(BY(t.e, k.e, i.e) == zint(q[1])), SBool(z3.Not(BNL(t.e, k.e, i.e)))))
        elif last:
            # the last text is looked at
            p.assume(cmp(">", self.m, 0))
            self.t = simp(self.m - 1)

    def on(self, t, k, i):
        return z3.And(BX(t, k, i) >= 0, BX(t, k, i) < zint(self.w), BY(t, k, i) >= 0, BY(t, k, i) < zint(self.h))

    def span_facts(self, t, k):
        """Span k of text t."""
        t, k = zint(t), zint(k)
        h, w = zint(self.h), zint(self.w)
        e = PLACED(t, k)
        return [SBool(z3.And(LEN(t, k) >= 0, 0 <= e, e <= LEN(t, k))),
                SBool(z3.Implies(e < LEN(t, k), z3.Not(self.on(t, k, e)))),
                SBool(z3.Implies(k == 0, z3.And(BX(t, k, 0) == SX(t), BY(t, k, 0) == SY(t)))),
                SBool(z3.And(BX(t, k + 1, 0) == BX(t, k, e), BY(t, k + 1, 0) == BY(t, k, e))),
                SBool(BY(t, k, 0) < h)]

    def char_facts(self, t, k, i):
        t, k, i = zint(t), zint(k), zint(i)
        nx, ny = step(BX(t, k, i), BY(t, k, i), BNL(t, k, i), zint(self.w))
        out = [SBool(BX(t, k, i + 1) == nx), SBool(BY(t, k, i + 1) == ny), SBool(z3.Implies(i < PLACED(t, k), self.on(t, k, i)))]
        here = z3.And(i < PLACED(t, k), z3.Not(BNL(t, k, i)), BX(t, k, i) == zint(self.q[0]), BY(t, k, i) == zint(self.q[1]))
        if self.hit:
            ht, hk, hi = zint(self.t), zint(self.k), zint(self.i)
            behind_ = z3.Or(t > ht, z3.And(t == ht, z3.Or(k > hk, z3.And(k == hk, i > hi))))
            out.append(SBool(z3.Implies(behind_, z3.Not(here))))
        elif self.hit is not None:
            out.append(SBool(z3.Not(here)))
        return out

    def text(self, t):
        """Text t: its start and its spans."""
        cx, p = self.cx, self.cx.path
        n = SInt(SPANS(zint(t)))
        p.assume(cmp(">=", n, 0))
        if self.count is not None:
            p.assume(cmp("==", n, self.count))
            n = self.count
        p.assume(SBool(z3.Implies(SPANS(zint(t)) > 0, z3.And(BX(zint(t), 0, 0) == SX(zint(t)), BY(zint(t), 0, 0) == SY(zint(t))))))
        p.assume(SBool(z3.Implies(SPANS(zint(t)) == 0, z3.And(BX(zint(t), 0, 0) == SX(zint(t)), BY(zint(t), 0, 0) == SY(zint(t))))))
        pivot = self.k if self.hit and p.decide(cmp("==", t, self.t)) else None
        cx.ip.loops.hints.append(Hint(n, pivot, ghosts=[lambda k: SInt(BX(zint(t), zint(k), 0)), lambda k: SInt(BY(zint(t), zint(k), 0))],
                                      facts=lambda k: self.span_facts(t, k)))
        if self.count is not None:
            for k in range(n):
                for c in self.span_facts(t, k):
                    p.assume(c)
            return ((SInt(SX(zint(t))), SInt(SY(zint(t)))), PList.concrete(p, [self.span(t, k) for k in range(n)]))
        spans = PList.symbolic(p, n, lambda q_, k: self.span(t, k), AbsType([("obj", Span)]), tag=p.fresh_name("spans"))
        return ((SInt(SX(zint(t))), SInt(SY(zint(t)))), spans)

    def span(self, t, k):
        cx, p = self.cx, self.cx.path
        mine = self.hit and p.decide(land(cmp("==", t, self.t), cmp("==", k, self.k)))
        if mine:
            seq, fg, bg = ("\x1b[1m" if self.style else ""), self.fg, self.bg
        else:
            # the other spans: bare, or styled with both colours
            rich = p.choose([False, True])
            seq = "\x1b[1m" if rich else ""
            fg = self.color("other.fg", False) if rich else None
            bg = self.color("other.bg", True) if rich else None
        s = cx.call(Span, "x", foreground=fg, background=bg, bold=bool(seq))
        self.spans.append((s, t, k, seq))
        return s

    def color(self, name, background):
        c = self.a.new_color(name)
        c.attrs["is_background"] = background
        c.attrs["alpha"] = 1.0
        return c

    def char(self, t, k, i):
        return SStr([Op(BCHAR(zint(t), zint(k), zint(i)), excl=EXCL, unit=True)])

    def item(self, t, k, i, seq):
        p = self.cx.path
        out = [seq, "\n" if p.decide(SBool(BNL(zint(t), zint(k), zint(i)))) else self.char(t, k, i)]
        if seq and p.decide(SBool(zint(i) == LEN(zint(t), zint(k)) - 1)):
            out.append("\x1b[0m")
        return self.cx.concat("", *out)

    def run(self, fg=False, bg=False, force=False):
        cx, p = self.cx, self.cx.path
        self.fg = light_color(cx, rgb(cx, "fg"), False) if fg else None
        self.bg = light_color(cx, rgb(cx, "bg"), True) if bg else None
        self.styles = frozenset(["bold"] if self.style else [])
        self.spans = []

        def get(ip, args, kwargs):
            s = [x for x in self.spans if x[0] is args[0]]
            rep(len(s) == 1 and kwargs == {"exclude_color": True, "always_include_sequence": True} and len(args) == 1, "how the characters are asked for")
            _, t, k, seq = s[0]
            n = SInt(LEN(zint(t), zint(k)))
            pivot = self.i if self.hit and p.decide(land(cmp("==", t, self.t), cmp("==", k, self.k))) else None
            ip.loops.hints.append(Hint(n, pivot, ghosts=[lambda i: SInt(BX(zint(t), zint(k), zint(i))), lambda i: SInt(BY(zint(t), zint(k), zint(i)))],
                                       facts=lambda i: self.char_facts(t, k, i), reach=lambda i: cmp("<=", i, SInt(PLACED(zint(t), zint(k))))))
            return PList.symbolic(p, n, lambda q_, i: self.item(t, k, i, seq), AbsType([("str", None, frozenset(), 1)]), tag=p.fresh_name("chars"))

        cx.stub(Span.get_characters, get, "Span.get_characters: one item per character, the styles before each, a reset after the last (contract C13)")
        if isinstance(self.m, int):
            texts = PList.concrete(p, [])
        else:
            texts = PList.symbolic(p, self.m, lambda q_, t: self.text(t), AbsType([]), tag=p.fresh_name("texts"))
        cx.loops([Hint(self.m, self.t)] + rows_columns(self.q, self.w, self.h, self.hit is not None), [self.q])
        if isinstance(self.m, int):
            texts.items = [self.text(t) for t in range(self.m)]
        return cx.method(self.a.screen, "write_bulk", texts, force_overwrite=force)

    def holds(self, cell):
        cx = self.cx
        cell = tuple(forced(x) for x in cell)
        char, styles = glyph(cx, cell[0])
        fg = cx.get(self.fg, "rgb") if self.fg is not None else (255, 255, 255)
        return land(cx.eq(char, self.char(self.t, self.k, self.i)), styles == self.styles,
                    cell[1] is not None and cx.eq(cx.get(cell[1], "rgb"), fg),
                    cell[2] is None if self.bg is None else cell[2] is not None and cx.eq(cx.get(cell[2], "rgb"), cx.get(self.bg, "rgb")))
