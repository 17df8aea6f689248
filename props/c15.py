"""C15: SVG export."""

import xml.etree.ElementTree as ET

from .anyscreen import big_size
from .ghost import *  # noqa: F401,F403

SPECIAL = "<>&\"'"
PLAIN = EXCL | frozenset(SPECIAL)
CHAR_W = span_mod.SVG_CHAR_WIDTH
CHAR_H = span_mod.SVG_CHAR_HEIGHT
CSS = {"bold": ("font-weight", "bold"), "italic": ("font-style", "italic"), "dim": ("opacity", "0.7"), "underline": ("text-decoration", "underline"), "strike": ("text-decoration", "line-through")}
ENTITIES = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "apos": "'", "nbsp": "\xa0"}


class Invalid(Exception):
    pass


# ------------------------------------------------------------------ reading markup (texts may be symbolic)


def lit(toks, what):
    """A text that has to be known."""
    if not all(isinstance(t, str) for t in toks):
        raise Unsupported("symbolic " + what)
    return "".join(toks)


def elements(toks):
    """[(tag, attributes, text tokens)] of a flat run of elements, closing tags included as
    ("/tag", {}, [])."""
    out, i = [], 0
    while i < len(toks):
        if toks[i] != "<":
            if isinstance(toks[i], str) and toks[i].isspace():
                i += 1
                continue
            raise Invalid("text outside of an element")
        j = i + 1
        quote = None
        while True:
            if j >= len(toks):
                raise Invalid("unfinished tag")
            t = toks[j]
            if isinstance(t, str):
                if quote:
                    if t == quote:
                        quote = None
                    elif t == "<":
                        raise Invalid("'<' in an attribute")
                elif t in "'\"":
                    quote = t
                elif t == ">":
                    break
                elif t == "<":
                    raise Invalid("'<' in a tag")
            j += 1
        tag, attrs = split_tag(toks[i + 1:j])
        i = j + 1
        text = []
        while i < len(toks) and toks[i] != "<":
            text.append(toks[i])
            i += 1
        out.append((tag, attrs, text))
    return out


def split_tag(toks):
    k = 0
    while k < len(toks) and not (isinstance(toks[k], str) and toks[k].isspace()):
        k += 1
    name = lit(toks[:k], "tag")
    attrs = {}
    while k < len(toks):
        if isinstance(toks[k], str) and toks[k].isspace():
            k += 1
            continue
        e = k
        while e < len(toks) and toks[e] != "=":
            e += 1
        key = lit(toks[k:e], "attribute name").strip()
        if e + 1 >= len(toks) or toks[e + 1] not in ("'", '"'):
            raise Invalid("attribute without a value")
        q = toks[e + 1]
        k = e + 2
        e = k
        while e < len(toks) and toks[e] != q:
            e += 1
        if e >= len(toks):
            raise Invalid("unfinished attribute")
        if key in attrs:
            raise Invalid("attribute given twice")
        attrs[key] = toks[k:e]
        k = e + 1
    return name, attrs


def unescape(toks):
    """Characters of a text node."""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if isinstance(t, str) and t == "&":
            j = i + 1
            while j < len(toks) and toks[j] != ";":
                j += 1
            if j >= len(toks) or j - i > 8:
                raise Invalid("'&' outside of an entity")
            e = lit(toks[i + 1:j], "entity")
            if e.startswith("#x"):
                out.append(chr(int(e[2:], 16)))
            elif e.startswith("#"):
                out.append(chr(int(e[1:])))
            elif e in ENTITIES:
                out.append(ENTITIES[e])
            else:
                raise Invalid("unknown entity " + e)
            i = j + 1
            continue
        if isinstance(t, str) and t in " \t\n":
            raise Invalid("a space that is not kept")
        if isinstance(t, Op) and not t.unit:
            raise Unsupported("text of unknown length in the image")
        out.append(t if isinstance(t, str) else mkstr([t]))
        i += 1
    return [" " if isinstance(c, str) and c == "\xa0" else c for c in out]


def rules(toks):
    """{class: {property: value tokens}} of a style sheet of class rules."""
    out = {}
    i = 0
    while i < len(toks):
        if isinstance(toks[i], str) and toks[i].isspace():
            i += 1
            continue
        j = i
        while j < len(toks) and toks[j] != "{":
            j += 1
        if j >= len(toks):
            raise Invalid("style rule")
        sel = lit(toks[i:j], "selector").strip()
        k = j + 1
        while k < len(toks) and toks[k] != "}":
            k += 1
        if k >= len(toks):
            raise Invalid("style rule")
        if sel.startswith("."):
            out.setdefault(sel[1:], {}).update(declarations(toks[j + 1:k]))
        i = k + 1
    return out


def declarations(toks):
    out, cur = {}, []
    for t in list(toks) + [";"]:
        if isinstance(t, str) and t == ";":
            s = [x for x in cur if not (isinstance(x, str) and x in "\n\t")]
            if ":" in s:
                i = s.index(":")
                out[lit(s[:i], "property").strip()] = [x for x in s[i + 1:] if x != " "]
            cur = []
        else:
            cur.append(t)
    return out


def is_color(cx, toks, want):
    """A colour text names the given channels (channel texts may be symbolic)."""
    if toks is None:
        return False
    if all(isinstance(t, str) for t in toks):
        s = "".join(toks).lower()
        if not cx.symbolic:
            return len(s) in (7, 9) and s[0] == "#" and all(abs(int(s[1 + 2 * i:3 + 2 * i], 16) - want.rgb[i]) <= (3 if want.blended else 0) for i in range(3)) and s[7:] in ("", "ff")
    # the hex text of a colour names its channels (contract C09)
    return cx.eq(untok(toks), cx.get(cx.call(Color, tuple(want.rgb)), "hex"))


# ------------------------------------------------------------------ the image of a screen


class Run:
    """A text element."""

    def __init__(self, chars, x, y, fill, css):
        self.chars, self.x, self.y, self.fill, self.css = chars, x, y, fill, css


def read(cx, svg, sheet):
    """(text runs, rectangles) of exported markup."""
    css = rules(tokens(cx, sheet))
    runs, rects = [], []
    for tag, attrs, text in elements(tokens(cx, svg)):
        if tag == "rect":
            g = {k: float(lit(attrs[k], "coordinate")) for k in ("x", "y", "width", "height")}
            rects.append((g["x"], g["y"], g["width"], g["height"], attrs.get("fill")))
        elif tag == "text":
            props = {}
            for c in lit(attrs.get("class", []), "class").split():
                props.update(css.get(c, {}))
            props.update(declarations(attrs.get("style", [])))
            runs.append(Run(unescape(text), float(lit(attrs["x"], "coordinate")), float(lit(attrs["y"], "coordinate")), props.pop("fill", attrs.get("fill")), props))
    return runs, rects


def check_image(cx, svg, sheet, ghost, font, origin, dfg, dbg):
    """The image shows the cells of the abstract screen."""
    if not cx.symbolic:
        try:
            ET.fromstring(f"<svg><style>{sheet}</style>{svg}</svg>")
            ok = True
        except ET.ParseError:
            ok = False
        cx.ensure("the image is valid markup", ok)
    try:
        runs, rects = read(cx, svg, sheet)
    except Invalid as exc:
        cx.trace.append(str(exc)) if not cx.symbolic else None
        cx.ensure("any text is escaped so that the markup stays valid and spaces are kept", False)
        return
    rows = {}
    cw, ch = font * CHAR_W, font * CHAR_H
    for r in runs:
        if r.chars:
            rows.setdefault(round((r.y - origin[1]) / ch - font / ch), []).append(r)
    where = {}
    for ry, rs in rows.items():
        for r in rs:
            own = [b for b in rects if abs(b[0] - r.x) < 0.2 * cw and b[1] <= r.y - 0.5 * ch <= b[1] + b[3]]
            cx.ensure("a run's background ends with the run", all(b[0] + b[2] <= r.x + (len(r.chars) + 0.6) * cw + 0.5 for b in own[-1:]))
            col = (r.x - origin[0]) / cw
            cx.ensure("a run starts at the coordinates of its first cell", abs(col - round(col)) < 0.02 and abs(r.y - (origin[1] + ry * ch + font)) < 0.3 * font)
            for i, c in enumerate(r.chars):
                where.setdefault((round(col) + i, ry), []).append((c, r))
    cx.ensure("every cell of the screen is shown once, and nothing else", set(where) == set(ghost.cells) and all(len(v) == 1 for v in where.values()))
    for pos, want in ghost.cells.items():
        (c, r), = where.get(pos, [(None, None)])[:1]
        if r is None:
            continue
        cx.ensure("a cell shows its character", cx.eq(c, " " if isinstance(want.char, str) and want.char == "\xa0" else want.char))
        fg, bg = want.fg or dfg, want.bg or dbg
        if "invert" in want.styles:
            fg, bg = bg, fg
        if want.fg_visible():
            cx.ensure("a cell has its foreground colour", is_color(cx, r.fill, fg))
        x, y = origin[0] + (pos[0] + 0.5) * cw, origin[1] + (pos[1] + 0.5) * ch
        painted = [f for rx, ry, rw, rh, f in rects if rx <= x <= rx + rw and ry <= y <= ry + rh]
        cx.ensure("a cell has its background colour", is_color(cx, painted[-1] if painted else None, bg))
        exp = {CSS[s][0]: CSS[s][1] for s in want.styles if s in CSS}
        got = {k: "".join(map(str, v)) for k, v in r.css.items() if k in {p for p, _ in CSS.values()}}
        cx.ensure("a cell has its styles", got == exp)


def export(d, font=15, origin=(0, 0)):
    cx = d.cx
    (fg, gfg), (bg, gbg) = d.color("dfg", False), d.color("dbg", True)
    out = cx.method(d.screen, "export_svg_with_styles", font_size=font, origin=origin, default_foreground=fg, default_background=bg)
    svg, sheet = cx.items(out)
    check_image(cx, svg, sheet, d.ghost, font, origin, gfg, gbg)


@contract("histories", symbolic=False, covers=["done"], bound="random histories of up to 6 operations on screens of up to 6 by 4", trials=60000, secs=8)
def histories(cx):
    d = Driver(cx, cx.int("w", 1, 6), cx.int("h", 1, 4), set(), fill=cx.choice("fill", [" ", " ", "~", "<"]))
    d.char = lambda name: cx.text(name, excl=EXCL, unit=True, pool=list("aab<>&\"'▀█;#{"))
    for _ in range(cx.choice("steps", [1, 2, 3, 6])):
        any_step(d, list("wwwbbzc"), (1.0, 1.0, 0.5))
    if any({"underline", "strike"} <= c.styles for c in d.ghost.cells.values()):
        cx.require(False)
    export(d, cx.choice("font", [15, 10, 12, 20, 33]), cx.choice("origin", [(0, 0), (10, 20), (3.25, 7.5)]))
    cx.cover("done")


@contract("histories.long", symbolic=False, covers=["done"], bound="random texts on screens of up to thousands of cells", trials=2000, secs=5)
def histories_long(cx):
    w, h = big_size(cx, "w", "h", sizes=(60, 300, 600))
    cx.require(w and h and w * h <= 6000)
    d = Driver(cx, w, h, set())
    for k in range(cx.choice("texts", [0, 1, 2, 3])):
        n = cx.int(f"n{k}", 0, w * h)
        styles = cx.choice(f"style{k}", [(), (), ("bold",), ("invert",), ("italic", "dim")])
        every = cx.choice(f"every{k}", [1, 7, 26])
        fg = d.color(f"fg{k}", False) if cx.choice(f"fg?{k}", [False, True]) else None
        bg = d.color(f"bg{k}", True) if cx.choice(f"bg?{k}", [False, True]) else None
        chars = ["a<b &c>'d"[(i // every) % 9] for i in range(n)]
        d.write([d.piece(chars, styles, fg, bg)], at=(cx.int(f"x{k}", 0, w - 1), cx.int(f"y{k}", 0, h - 1)))
    export(d)
    cx.cover("done")


@contract("markup", cases=[dict(kinds=a + b) for a in "c<>&\"' " for b in "c<& "], covers=["done"], trials=200, secs=0.6, budget=100,
          bound="a screen of 3 by 1; arbitrary characters, special ones among them, and colours")
def markup(cx):
    d = Driver(cx, 3, 1, set())
    cs = [cx.text(f"c{i}", excl=PLAIN, unit=True) if k == "c" else k for i, k in enumerate(cx.kinds)]
    d.write([d.piece(cs, cx.choice("styles", [(), ("bold",), ("invert", "dim"), ("underline", "italic")]), cx.choice("fg", [None, d.color("fg", False)]), cx.choice("bg", [None, d.color("bg", True)]))], at=(0, 0))
    export(d)
    cx.cover("done")


@contract("grouping", cases=[dict(a=a, b=b, c=c) for a in range(4) for b in range(4) for c in range(4)], covers=["done"], trials=200, secs=0.6, budget=100,
          bound="a row of three arbitrary cells of which any may share styles and colours, and a second row")
def grouping(cx):
    d = Driver(cx, 3, 2, set(), fill="~")
    c1, c2, bg = d.color("c1", False), d.color("c2", False), d.color("bg", True)
    kinds = [((), c1, bg), (("bold",), c1, bg), ((), c2, bg), ((), c2, None)]
    data = []
    for i, k in enumerate((cx.a, cx.b, cx.c)):
        st, fg, b = kinds[k]
        data.append(((i, 0), [d.piece([cx.text(f"t{i}", excl=PLAIN, unit=True)], st, fg, b)]))
    d.bulk(data)
    d.write([d.piece([cx.text("u", excl=PLAIN, unit=True)], (), c2)], at=(1, 1))
    export(d, 10, (2, 3))
    cx.cover("done")


def terminal_image(cx):
    """The image of a terminal holds the image of its screen, inside the image's margins."""
    from .streams import Stream
    import re

    d = Driver(cx, 1, 1, set())
    w, h = cx.int("w", 1, 6), cx.int("h", 1, 4)
    t = make_terminal(cx, Stream(cx), Sizes((w, h)))
    d.ghost = Ghost(w, h)
    tbg = t.background_color.as_background()
    d.screen = t._screen if hasattr(t, "_screen") else cx.require(False)
    d.background((tbg, G(tbg.rgb)))
    d.char = lambda name: cx.text(name, excl=EXCL, unit=True, pool=list("ab<>&\"'{}"))
    for _ in range(cx.choice("steps", [1, 2, 3])):
        any_step(d, list("wb"), (1.0, 1.0, 0.5))
    if any({"underline", "strike"} <= c.styles for c in d.ghost.cells.values()):
        cx.require(False)
    font = cx.choice("font", [15, 10, 22])
    kw, dfg, dbg = {}, G(t.foreground_color.rgb), G(t.background_color.rgb)
    if cx.choice("defaults", [False, True]):
        (kw["default_foreground"], dfg), (kw["default_background"], dbg) = d.color("dfg", False), d.color("dbg", True)
    out = t.export_svg(font, **kw)
    try:
        root = ET.fromstring(out)
    except ET.ParseError:
        cx.ensure("the image is valid markup", False)
        return
    ns = "{http://www.w3.org/2000/svg}"
    g = root.find(f"{ns}g")
    m = re.search(r"<g transform=.translate\(([\d.]+),\s*([\d.]+)\).>(.*)</g>", out, re.S)
    sheet = re.search(r"<style[^>]*>(.*?)</style>", out, re.S)
    if g is None or m is None or sheet is None:
        return  # another layout of the image: nothing is claimed about it here
    cx.ensure("the image has room for the screen and its margins", abs(float(root.get("width")) - (w * CHAR_W * font + 2 * float(m[1]))) < 1 and abs(float(root.get("height")) - (h * CHAR_H * font + 2 * float(m[2]))) < 1)
    check_image(cx, m[3], re.sub(r"/\*.*?\*/", "", sheet[1]), d.ghost, font, (0, 0), dfg, dbg)
    cx.cover("done")


contract("terminal", symbolic=False, covers=["done"], bound="random writes on terminals of up to 6 by 4", trials=20000, secs=5)(terminal_image)


@contract("span", cases=[dict(kinds=k, inline=i, cls=c) for k in ("", "c", "c<", "& c") for i, c in ((False, None), (True, None), (True, "k"))], covers=["done"], trials=300, secs=0.6, budget=100,
          bound="texts of up to 3 characters; arbitrary characters, styles and colours")
def span(cx):
    color_contracts(cx)
    stub_true_color(cx)
    cs = [cx.text(f"c{i}", excl=PLAIN, unit=True) if k == "c" else k for i, k in enumerate(cx.kinds)]
    fg, bg = (opt_color(cx, n, b) for n, b in (("fg", False), ("bg", True)))
    dfg, dbg = make_color(cx, "dfg", background=False), make_color(cx, "dbg", background=True)
    styles = {f: cx.choice(f, [False, True]) for f in ("bold", "invert", "strike")}
    s, _ = make_span(cx, "s", cx.concat("", *cs), flags=styles, fg=fg, bg=bg, reset=True)
    kw = {"cls": cx.cls} if cx.cls else {}
    svg = cx.method(s, "as_svg", font_size=12, origin=(4, 8), default_foreground=dfg, default_background=dbg, inline_styles=cx.inline, **kw)
    try:
        runs, rects = read(cx, svg, "")
    except Invalid:
        cx.ensure("any text is escaped so that the markup stays valid and spaces are kept", False)
        return
    cx.ensure("a span is one run on one rectangle", len(runs) == 1 and len(rects) == 1)
    r = runs[0]
    cx.ensure("the run has the characters of the span", len(r.chars) == len(cs) and cx.check(land([True] + [cx.eq(a, b) for a, b in zip(r.chars, cs)])))
    f, b = (x if x is not None else y for x, y in ((fg, dfg), (bg, dbg)))
    if styles["invert"]:
        f, b = b, f
    cx.ensure("the run has the span's foreground", is_color(cx, r.fill, G(cx.get(f, "rgb"))))
    cx.ensure("the rectangle has the span's background", is_color(cx, rects[0][4], G(cx.get(b, "rgb"))))
    cx.ensure("the rectangle covers the run", abs(rects[0][0] - 4) < 0.02 and abs(r.x - 4) < 0.02 and rects[0][2] >= 12 * CHAR_W * len(cs) - 0.05)
    if cx.inline:
        got = {k: "".join(map(str, v)) for k, v in r.css.items() if k in {p for p, _ in CSS.values()}}
        cx.ensure("inline styles are the span's styles", got == {CSS[k][0]: CSS[k][1] for k, v in styles.items() if v and k in CSS})
    cx.cover("done")
