"""Ghost state for the screen properties.

`Ghost` is the abstract screen of the specification: what every cell holds, the cursor, and which
cells changed since the last draw.  `Emu` is the terminal of the specification: it interprets drawn
output.  `Driver` runs the same operations on a real Screen and on the ghost and relates the two
through the public interface only (return values, cursor, drawn output)."""

from .common import *  # noqa: F401,F403
from .common import _b  # noqa: F401
import re

from pyvc.harness import BadOutput
from pyvc.path import Infeasible
from .palette import PALETTE

WS = frozenset(chr(i) for i in range(0x3100) if chr(i).isspace())
CTRL = frozenset(chr(i) for i in range(32)) | frozenset(chr(i) for i in range(127, 160))
EXCL = WS | CTRL  # characters that are neither blank nor control characters: everything else

BL = [z3.Function(f"blend_{c}", Z, Z, R, Z) for c in "rgb"]


# ------------------------------------------------------------------ colours


class G:
    """A colour of the specification: channels, alpha, and how it came about."""

    def __init__(self, rgb, alpha=1.0, expr=None):
        self.rgb, self.alpha = tuple(rgb), alpha
        self.expr = expr or (self.rgb, alpha)
        self.blended = expr is not None

    def __repr__(self):
        return f"{self.rgb}@{self.alpha}"


WHITE = (255, 255, 255)


def stub_blend(cx):
    """Color.blend by its contract (C07): a channel of the result depends only on that channel of
    both colours and the fraction, is within 0-255, and the layer is the one asked for or else
    that of the first colour."""
    if not cx.symbolic:
        return

    def f(ip, args, kw):
        a, b, alpha = args[0], args[1], args[2] if len(args) > 2 else kw["alpha"]
        layer = args[3] if len(args) > 3 else kw.get("is_background")
        ip.path.approx("blending known only by its contract")
        if layer is None:
            layer = ip.getattr(a, "is_background")
        x, y = ip.getattr(a, "rgb"), ip.getattr(b, "rgb")
        return ip.call(Color, [blend_rgb(cx, x, y, alpha)], {"is_background": layer})

    cx.stub(opt(Color, "blend"), f, "Color.blend: each channel a function of that channel of both colours and the fraction, within 0-255; opaque; layer as asked (contract C07)")


def blend_rgb(cx, a, b, alpha):
    if not cx.symbolic:
        return tuple(min(max(int(x + (y - x) * alpha), 0), 255) for x, y in zip(a, b))
    out = []
    for f, x, y in zip(BL, a, b):
        e = f(zint(x), zint(y), zreal(alpha))
        cx.path.assume(SBool(z3.And(e >= 0, e <= 255)))
        out.append(SInt(e))
    return tuple(out)


def g_blend(cx, a, b, alpha):
    return G(blend_rgb(cx, a.rgb, b.rgb, alpha), 1.0, ("blend", a.expr, b.expr, alpha))


def plus(cx, alpha):
    v = alpha + 0.1
    return ite(cmp("<=", v, 1.0), v, 1.0) if is_sym(v) else min(v, 1.0)


def g_eq(cx, a, b):
    """Same colour (channels and alpha)."""
    if a is None or b is None:
        return a is b
    return land([cx.eq(x, y) for x, y in zip(a.rgb, b.rgb)] + [cx.eq(a.alpha, b.alpha)])


def translucent(cx, c):
    return c is not None and cx.check(lnot(cx.eq(c.alpha, 1.0)))


def shows(cx, got, want):
    """The displayed channels are those of the wanted colour; a blend may be off by rounding."""
    if got is None or want is None:
        return got is None and want is None
    if not cx.symbolic and want.blended:
        return all(abs(x - y) <= 3 for x, y in zip(got, want.rgb))
    return land([cx.eq(x, y) for x, y in zip(got, want.rgb)])


# ------------------------------------------------------------------ the abstract screen


class Cell:
    """What a cell holds.  `blank`: nothing but its background is visible."""

    def __init__(self, char, styles=frozenset(), fg=None, bg=None, blank=None, tail=False):
        self.char, self.styles, self.fg, self.bg = char, frozenset(styles), fg, bg
        self.blank = (isinstance(char, str) and char.strip() == "") if blank is None else blank
        self.tail = tail

    def fg_visible(self):
        return not self.blank or bool(self.styles & {"underline", "strike", "invert"})

    def __repr__(self):
        return f"<{self.char!r} {sorted(self.styles)} {self.fg} {self.bg}>"


def certainly_same(cx, a, b):
    """Equal in everything a cell may record."""
    if a.tail != b.tail or a.styles != b.styles:
        return False
    return land([cx.eq(a.char, b.char), g_eq(cx, a.fg, b.fg), g_eq(cx, a.bg, b.bg)]
                + ([] if cx.symbolic else [exact(a.fg, b.fg), exact(a.bg, b.bg)]))


def exact(a, b):
    """Natively, blends are compared by rounding: only the same blend is certainly the same."""
    if a is None or b is None or not (a.blended or b.blended):
        return True
    return a.expr == b.expr


def certainly_different(cx, a, b):
    """Different in something that can be seen."""
    if a.styles - {"opaque"} != b.styles - {"opaque"}:
        return True
    out = [lnot(cx.eq(a.char, b.char)), g_differ(cx, a.bg, b.bg)]
    if a.fg_visible() or b.fg_visible():
        out.append(g_differ(cx, a.fg, b.fg))
    return lor(out)


def g_differ(cx, a, b):
    if a is None or b is None:
        return a is not b
    if not cx.symbolic and (a.blended or b.blended):
        return any(abs(x - y) > 6 for x, y in zip(a.rgb, b.rgb))
    return lnot(land([cx.eq(x, y) for x, y in zip(a.rgb, b.rgb)]))


class Piece:
    """One span of a write: characters (one-character texts), styles and colours."""

    def __init__(self, chars, styles=(), fg=None, bg=None, reset=True):
        self.chars, self.styles, self.fg, self.bg, self.reset = list(chars), frozenset(styles), fg, bg, reset


class Out(Exception):
    """Outside the domain (a piece that starts below the screen scrolls)."""


class Ghost:
    def __init__(self, w, h, fill=" ", cursor=(0, 0)):
        self.w, self.h = w, h
        self.cells = {(x, y): Cell(fill) for y in range(h) for x in range(w)}
        self.cursor = cursor
        self.must = {p: True for p in self.cells}  # certainly drawn by the next incremental draw
        self.may = {p: True for p in self.cells}

    def placed(self, data):
        """[(position, char, piece, last)] of a bulk write, and the cursor after it."""
        out = []
        cur = self.cursor
        for (x, y), pieces in data:
            for p in pieces:
                if y >= self.h:
                    raise Out()
                for i, c in enumerate(p.chars):
                    if not (0 <= x < self.w and 0 <= y < self.h):
                        break
                    if isinstance(c, str) and c == "\n":
                        y += 1
                        continue
                    out.append(((x, y), c, p, i == len(p.chars) - 1))
                    x += 1
                    if x >= self.w:
                        x, y = 0, y + 1
            cur = (x, y)
        return out, cur

    def bulk(self, cx, data, tbg, force=False):
        """Returns the bounds of the number of changed cells."""
        placed, self.cursor = self.placed(data)
        stacks = {}
        for pos, c, p, last in placed:
            tail = bool(p.styles) and last and p.reset
            blank = isinstance(c, str) and c.strip() == ""
            if pos in stacks and translucent(cx, p.bg):
                base, layers, shown, depth = stacks[pos]
                layers = layers + [p.bg]
                if blank and "opaque" not in p.styles:
                    stacks[pos] = (base, layers, shown, depth)
                else:
                    stacks[pos] = (base, layers, Cell(c, p.styles, p.fg, None, tail=tail), len(layers))
            else:
                stacks[pos] = (p.bg, [], Cell(c, p.styles, p.fg, None, tail=tail), 0)
        lo, hi = [], []
        for pos, (base, layers, shown, depth) in stacks.items():
            cell = self.resolve(cx, base, layers, shown, depth, tbg)
            old = self.cells[pos]
            diff = True if force else certainly_different(cx, cell, old)
            maybe = True if force else lnot(certainly_same(cx, cell, old))
            self.cells[pos] = cell
            lo.append(diff)
            hi.append(maybe)
            self.must[pos] = lor(self.must.get(pos, False), diff)
            self.may[pos] = lor(self.may.get(pos, False), maybe)
        return lo, hi

    def resolve(self, cx, base, layers, shown, depth, tbg):
        fg = shown.fg or G(WHITE)
        bg, last = base, base
        for i, l in enumerate(layers):
            if cx.check(g_eq(cx, l, last)):
                continue
            last = l
            if bg is None:
                bg = tbg
            elif translucent(cx, bg):
                bg = g_blend(cx, tbg, bg, plus(cx, bg.alpha))
            bg = g_blend(cx, bg, l, plus(cx, l.alpha))
            if i >= depth:
                fg = g_blend(cx, fg, l, plus(cx, l.alpha))
        if translucent(cx, bg):
            bg = g_blend(cx, tbg, bg, plus(cx, bg.alpha))
        if translucent(cx, fg):
            fg = g_blend(cx, bg or tbg, fg, fg.alpha)
        return Cell(shown.char, shown.styles, fg, bg, tail=shown.tail)

    def resize(self, w, h, fill=" ", keep=True):
        old = self.cells
        self.w, self.h = w, h
        self.cells = {(x, y): old[x, y] if keep and (x, y) in old else Cell(fill) for y in range(h) for x in range(w)}
        self.must = {p: True for p in self.cells}
        self.may = {p: True for p in self.cells}

    def clear(self, fill=" "):
        self.resize(self.w, self.h, fill, keep=False)
        self.cursor = (0, 0)

    def drawn(self):
        self.must, self.may = {}, {}


# ------------------------------------------------------------------ the terminal


UNSETTERS = {22: ["bold", "dim"], 23: ["italic"], 24: ["underline"], 25: ["blink", "fast_blink"], 27: ["invert"], 28: ["conceal"], 29: ["strike"]}
SETTERS = {int(SGR[f]): f for f in FLAGS if f != "opaque"}


class Emu:
    """A terminal: interprets text with cursor positioning and styles."""

    def __init__(self, cx, origin=(0, 0)):
        self.cx = cx
        self.origin = origin  # positions are kept relative to it
        self.cells = {}
        self.at = (0, 0)
        self.reset()
        self.log = []

    def reset(self):
        self.styles, self.fg, self.bg = frozenset(), None, None

    def feed(self, text):
        """Interpret a text; returns the positions written, in order."""
        self.log = []
        t = tokens(self.cx, text)
        i = 0
        while i < len(t):
            x = t[i]
            if isinstance(x, str) and x == "\x1b":
                if i + 1 >= len(t) or t[i + 1] != "[":
                    self.bad("escape sequence the terminal of the specification does not know")
                params, cur = [], []
                i += 2
                while True:
                    if i >= len(t):
                        self.bad("unfinished escape sequence")
                    x = t[i]
                    i += 1
                    if isinstance(x, str) and (x.isdigit() or x in "-."):
                        cur.append(x)
                    elif isinstance(x, str) and x == ";":
                        params.append(cur)
                        cur = []
                    elif isinstance(x, str):
                        params.append(cur)
                        self.csi(x, [self.param(p) for p in params])
                        break
                    else:
                        cur.append(x)
                continue
            if isinstance(x, str) and x in "\n\r\b":
                raise Unsupported("control character in drawn output")
            if isinstance(x, Op) and not x.unit:
                self.opaque(x)
                i += 1
                continue
            self.put(x if isinstance(x, str) else mkstr([x]))
            i += 1
        return self.log

    def opaque(self, x):
        raise Unsupported("text of unknown length in drawn output")

    def bad(self, what):
        if not self.cx.symbolic:
            raise BadOutput(what)
        raise Unsupported(what)

    def param(self, toks):
        if all(isinstance(c, str) for c in toks):
            s = "".join(toks)
            if s and not re.fullmatch(r"-?[0-9]+(\.[0-9]+)?", s):
                self.bad("escape sequence parameter")
            return (float(s) if "." in s else int(s)) if s else 0
        if len(toks) == 1 and isinstance(toks[0], Num):
            return SInt(toks[0].e)
        raise Unsupported("escape sequence parameter")

    def rel(self, v, base):
        d = v - base
        if is_sym(d):
            e = z3.simplify(d.e)
            if not z3.is_int_value(e):
                raise Unsupported("drawn position that is not relative to the origin")
            d = e.as_long()
        return d

    def put(self, c):
        self.cells[self.at] = Cell(c, self.styles, self.fg, self.bg)
        self.log.append(self.at)
        self.at = (self.at[0] + 1, self.at[1])

    def csi(self, final, ps):
        if final in ("H", "f"):
            y, x = (list(ps) + [0, 0])[:2] if len(ps) > 1 else (ps[0], 0)
            self.at = (self.rel(x, self.origin[0]), self.rel(y, self.origin[1]))
            return
        if final != "m":
            self.bad("escape sequence the terminal of the specification does not know")
        i = 0
        while i < len(ps):
            p = ps[i]
            i += 1
            if is_sym(p):
                raise Unsupported("symbolic style code")
            if p == 0:
                self.reset()
            elif p in SETTERS:
                self.styles |= {SETTERS[p]}
            elif p in UNSETTERS:
                self.styles -= set(UNSETTERS[p])
            elif p in (38, 48):
                kind = ps[i] if i < len(ps) else None
                if kind == 2 and i + 3 < len(ps):
                    c, i = tuple(ps[i + 1:i + 4]), i + 4
                elif kind == 5 and i + 1 < len(ps) and not is_sym(ps[i + 1]):
                    c, i = tuple(PALETTE[ps[i + 1]]), i + 2
                else:
                    self.bad("colour code")
                if p == 38:
                    self.fg = c
                else:
                    self.bg = c
            elif p == 39:
                self.fg = None
            elif p == 49:
                self.bg = None
            elif 30 <= p <= 37 or 90 <= p <= 97:
                self.fg = tuple(PALETTE[p - 30 if p < 90 else p - 82])
            elif 40 <= p <= 47 or 100 <= p <= 107:
                self.bg = tuple(PALETTE[p - 40 if p < 100 else p - 92])


def displayed(cx, cell, want):
    """A cell of the terminal shows what a cell of the abstract screen holds."""
    if cell is None:
        return False
    if cell.styles != want.styles - {"opaque"}:
        return False
    out = [cx.eq(cell.char, want.char), shows(cx, cell.bg, want.bg)]
    if want.fg_visible():
        out.append(shows(cx, cell.fg, want.fg))
    return land(out)


# ------------------------------------------------------------------ driving both


def total(cx, bools):
    if not cx.symbolic:
        return sum(bool(b) for b in bools)
    n, syms = 0, []
    for b in bools:
        b = _b(b)
        if isinstance(b, bool):
            n += b
        else:
            syms.append(z3.If(zbool(b), 1, 0))
    return SInt(z3.Sum(syms) + n) if syms else n


ALL = {"display", "count", "drawn", "cursor", "size"}


class Driver:
    """Runs operations on a real screen and on the ghost.

    `checks`: which relations are obligations of the property at hand."""

    def __init__(self, cx, w, h, checks=ALL, origin=(0, 0), fill=" ", cursor=None):
        color_contracts(cx)
        stub_blend(cx)
        stub_true_color(cx)
        self.cx, self.checks, self.origin = cx, checks, origin
        kw = {}
        if fill != " " or cx.choice("fill given", [False, True] if not cx.symbolic else [False]):
            kw["fillchar"] = fill
        if cursor is not None:
            kw["cursor"] = cursor
        self.screen = cx.call(Screen, w, h, **kw)
        self.ghost = Ghost(w, h, fill, cursor or (0, 0))
        self.emu = Emu(cx, origin)
        self.n = 0
        self.tbg = None

    # inputs
    def color(self, name, background, alpha=1.0, pool=None):
        """(colour, its ghost)"""
        cx = self.cx
        if not cx.symbolic and pool:
            t = cx.choice(name + ".pool", pool)
        else:
            t = rgb(cx, name)
        if alpha is None:
            alpha = cx.real(name + ".alpha", 0.0, 1.0)
        return cx.call(Color, t, is_background=background, alpha=alpha), G(t, alpha)

    def char(self, name, blanks=False):
        return self.cx.text(name, excl=EXCL, unit=True, pool=["a", "b", "X"])

    def piece(self, chars, styles=(), fg=None, bg=None, reset=True, **kw):
        """(span, its ghost); fg and bg are (colour, ghost) or None."""
        cx = self.cx
        f, b = fg or (None, None), bg or (None, None)
        if not reset:
            kw["reset_after"] = False
        s = cx.call(Span, cx.concat("", *chars), foreground=f[0], background=b[0], **{k: True for k in styles}, **kw)
        return s, Piece(chars, styles, f[1], b[1], reset)

    def background(self, c):
        """Set the terminal background used by the writes (a (colour, ghost))."""
        self.tbg = c

    # operations
    def write(self, pieces, at=None, force=False, via="write"):
        g = self.ghost
        return self._write([(at if at is not None else g.cursor, pieces)], force, at, via)

    def bulk(self, data, force=False):
        return self._write(data, force, None, "bulk")

    def _write(self, data, force, at, via):
        cx, g = self.cx, self.ghost
        kw = {}
        if force:
            kw["force_overwrite"] = True
        if self.tbg is not None:
            kw["terminal_background"] = self.tbg[0]
        tbg = self.tbg[1] if self.tbg is not None else G((0, 0, 0))
        try:
            lo, hi = g.bulk(cx, [(p, [x[1] for x in ps]) for p, ps in data], tbg, force)
        except Out:
            if cx.symbolic:
                raise Infeasible()
            cx.require(False)
        if via == "bulk":
            n = cx.method(self.screen, "write_bulk", cx.list([(p, cx.list([x[0] for x in ps])) for p, ps in data]), **kw)
        else:
            if at is not None:
                kw["cursor"] = at
            spans = [x[0] for x in data[0][1]]
            n = cx.method(self.screen, "write", cx.list(spans) if via == "write" else tuple(spans), **kw)
        if "count" in self.checks:
            cx.ensure("a write counts every cell it changes", cmp(">=", n, total(cx, lo)))
            cx.ensure("a write counts only cells it changes", cmp("<=", n, total(cx, hi)))
        self.check_cursor("the cursor follows the last placed character")
        return n

    def check_cursor(self, what):
        if "cursor" in self.checks:
            self.cx.ensure(what, self.cx.eq(self.cx.get(self.screen, "cursor"), self.ghost.cursor))

    def clear(self, fill=" "):
        cx = self.cx
        if isinstance(fill, str) and fill == " ":
            cx.method(self.screen, "clear")
        else:
            cx.method(self.screen, "clear", fill)
        self.ghost.clear(fill)
        self.check_cursor("clearing moves the cursor to the top-left")
        self.check_size()

    def resize(self, w, h, fill=" ", keep=True):
        cx = self.cx
        kw = {}
        if not (isinstance(fill, str) and fill == " "):
            kw["fillchar"] = fill
        if not keep:
            kw["keep_original"] = False
        cx.method(self.screen, "resize", (w, h), **kw)
        self.ghost.resize(w, h, fill, keep)
        self.check_size()

    def check_size(self):
        if "size" in self.checks:
            cx = self.cx
            cx.ensure("the screen has the requested size", land(cx.eq(cx.get(self.screen, "width"), self.ghost.w), cx.eq(cx.get(self.screen, "height"), self.ghost.h)))

    def set_cursor(self, at):
        self.cx.set(self.screen, "cursor", at)
        self.ghost.cursor = at

    # draws
    def draw(self, redraw=False):
        cx, g = self.cx, self.ghost
        kw = {} if not any(map(is_sym, self.origin)) and self.origin == (0, 0) else {"origin": self.origin}
        out = cx.method(self.screen, "render", redraw=True, **kw) if redraw else cx.method(self.screen, "render", **kw)
        try:
            log = self.emu.feed(out)
        except Unsupported:
            if cx.symbolic:
                raise
            cx.ensure("drawn output consists of cells, positions and styles", False)
            cx.require(False)
        if "drawn" in self.checks:
            if redraw:
                cx.ensure("a full redraw draws every cell once and nothing else", sorted(log) == sorted(g.cells))
            else:
                where = [(y, x) for x, y in log]
                cx.ensure("cells are drawn once, in row order", where == sorted(set(where)))
                cx.ensure("only cells of the screen are drawn", set(log) <= set(g.cells))
                if g.must or not log:
                    logged = set(log)
                    cx.ensure("every changed cell is drawn", land([True] + [lnot(g.must.get(p, False)) for p in g.cells if p not in logged]))
                cx.ensure("only changed cells are drawn", land([True] + [g.may.get(p, False) for p in log]))
        g.drawn()
        if "display" in self.checks:
            self.check_display(self.emu, "the display shows what the screen holds")
        return log

    def check_display(self, emu, what):
        cx = self.cx
        for pos, want in self.ghost.cells.items():
            cx.ensure(what, displayed(cx, emu.cells.get(pos), want))

    def held(self, what="the screen holds what was written"):
        """What the screen holds, observed by a full redraw on another terminal."""
        emu = Emu(self.cx, self.origin)
        kw = {} if not any(map(is_sym, self.origin)) and self.origin == (0, 0) else {"origin": self.origin}
        emu.feed(self.cx.method(self.screen, "render", redraw=True, **kw))
        self.ghost.drawn()
        self.check_display(emu, what)
        self.emu = emu

    def finish(self):
        self.draw()
        if "display" in self.checks:
            emu = self.emu
            self.held("an incremental draw and a full redraw lead to the same display")
            self.emu = emu
        else:
            self.held()


# ------------------------------------------------------------------ arbitrary histories (native)

COLORS = [(255, 255, 255), (0, 0, 0), (200, 30, 40), (10, 20, 30), (10, 20, 31)]
STYLE_SETS = [(), (), (), ("bold",), ("underline",), ("bold", "invert"), ("strike", "italic"), ("opaque",), ("dim", "blink"), ("conceal",), ("fast_blink", "opaque")]


def any_text(d, name, long=6, newlines=True, blanks=0.2):
    cx = d.cx
    out = []
    for i in range(cx.choice(name + ".len", [0, 1, 1, 2, 3, 4, long])):
        k = cx.choice(f"{name}.{i}k", ["c"] * 7 + [" "] * int(10 * blanks) + ["\u3000", "\xa0"] * (blanks > 0.3) + (["\n"] if newlines else []))
        out.append(d.char(f"{name}.{i}") if k == "c" else k)
    return out


def any_color(d, name, background, alphas=(1.0,), none=True):
    cx = d.cx
    if none and cx.choice(name + "?", [True, False]):
        return None
    a = cx.choice(name + ".a", alphas)
    return d.color(name, background, None if a == "any" else a, COLORS if cx.choice(name + ".p", [0, 0, 1]) else None)


def any_piece(d, name, alphas=(1.0,), **kw):
    cx = d.cx
    styles = cx.choice(name + ".st", STYLE_SETS)
    fg = any_color(d, name + ".fg", False, alphas)
    bg = any_color(d, name + ".bg", True, alphas)
    return d.piece(any_text(d, name, **kw), styles, fg, bg, reset=cx.choice(name + ".reset", [True, True, False]))


def any_at(d, name, inside=False):
    cx, g = d.cx, d.ghost
    if inside or cx.choice(name + ".in", [1, 1, 1, 0]):
        if g.w == 0 or g.h == 0:
            cx.require(False)
        return (cx.int(name + ".x", 0, g.w - 1), cx.int(name + ".y", 0, g.h - 1))
    return (cx.int(name + ".x", -2, g.w + 2), cx.int(name + ".y", -2, g.h - 1))


def any_step(d, kinds, alphas=(1.0,), again=None):
    """One operation of one of the given kinds."""
    cx, g = d.cx, d.ghost
    d.n += 1
    n = f"{d.n}"
    op = cx.choice(n + ".op", kinds)
    if op == "w":  # write, at a position or not
        at = None
        if g.cursor[1] >= g.h or cx.choice(n + ".at", [True, False]):
            at = any_at(d, n)
        ps = [any_piece(d, f"{n}.{i}", alphas) for i in range(cx.choice(n + ".n", [1, 1, 1, 2, 3]))]
        d.write(ps, at, force=cx.choice(n + ".force", [False] * 5 + [True]), via=cx.choice(n + ".via", ["write", "write", "tuple"]))
        d.past = [([x for x in ps], at)]
    elif op == "a":  # the same again
        if not getattr(d, "past", None) or d.past[0][1] is None:
            cx.require(False)
        ps, at = d.past[0]
        d.write(ps, at, force=cx.choice(n + ".force", [False] * 5 + [True]))
    elif op == "b":
        data = []
        for k in range(cx.choice(n + ".k", [0, 1, 2, 2, 3, 4])):
            data.append((any_at(d, f"{n}.{k}"), [any_piece(d, f"{n}.{k}.{i}", alphas) for i in range(cx.choice(f"{n}.{k}.n", [1, 1, 2, 0]))]))
        d.bulk(data, force=cx.choice(n + ".force", [False] * 5 + [True]))
    elif op == "c":
        d.clear(cx.choice(n + ".fill", [" ", " ", "."]))
    elif op == "z":
        d.resize(cx.int(n + ".w", 1, 6), cx.int(n + ".h", 1, 4), cx.choice(n + ".fill", [" ", " ", "."]), cx.choice(n + ".keep", [True, True, True, False]))
    elif op == "d":
        d.draw()
    elif op == "r":
        d.draw(redraw=True)
    elif op == "k":
        d.set_cursor(any_at(d, n, inside=True))


def history(cx, kinds, checks, alphas=(1.0,), steps=(1, 2, 3, 4, 6, 9)):
    d = Driver(cx, cx.int("w", 1, 6), cx.int("h", 1, 4), checks, origin=cx.choice("origin", [(0, 0), (1, 1), (cx.int("ox", 0, 12), cx.int("oy", 0, 12))]), fill=cx.choice("fill", [" ", " ", "~"]))
    if cx.choice("tbg", [False, False, True]):
        d.background(d.color("tbg", True))
    for _ in range(cx.choice("steps", steps)):
        any_step(d, kinds, alphas)
    d.finish()
    cx.cover("done")
    return d
