"""C08: the code a colour is emitted with."""

import math

from .common import *  # noqa: F401,F403

SPACES = {"true_color": ColorSpace.TRUE_COLOR, "eight_bit": ColorSpace.EIGHT_BIT, "standard": ColorSpace.STANDARD, "no_color": ColorSpace.NO_COLOR}
from .palette import STANDARD as TABLE16  # noqa: E402


class Term:
    """The terminal the codes are for."""

    def __init__(self, space):
        self.color_space = space


def in_space(cx, name):
    cx.patch(terminal_mod, "terminal", cx.env(Term(SPACES[name])))


def fields(cx, code):
    """The numbers of a code, None if it is not made of numbers."""
    out, cur = [], []
    for p in ([code] if isinstance(code, str) else cx.path.expand(code.parts)):
        if isinstance(p, str):
            bits = p.split(";")
            cur.append(bits[0]) if bits[0] else None
            for b in bits[1:]:
                out.append(cur)
                cur = [b] if b else []
        else:
            cur.append(p)
    out.append(cur)
    nums = []
    for f in out:
        if len(f) == 1 and isinstance(f[0], str) and f[0].isdigit() and f[0].isascii():
            nums.append(int(f[0]))
        elif len(f) == 1 and cx.symbolic and isinstance(f[0], Num):
            nums.append(SInt(f[0].e))
        elif all(isinstance(x, str) for x in f):
            return None
        else:
            raise Unsupported(f"shape of {code!r}"[:80])
    return nums


def ansi(cx, c):
    return cx.get(c, "ansi")


def lead(cx, bg):
    return "48" if cx.check(bg) else "38"


def plain(cx, name="c", alpha=None):
    """A colour that was not given by a code."""
    t = rgb(cx, name)
    bg = cx.bool(name + ".bg")
    al = cx.real(name + ".alpha", 0.0, 1.0) if alpha is None else alpha
    how = cx.choice(name + ".how", ["channels", "hex"])
    if how == "hex":
        text = cx.concat("#", hex2(cx, t[0]), hex2(cx, t[1]), hex2(cx, t[2]))
        c = cx.call(Color, t, is_background=bg, alpha=al, _constructor=text)
    else:
        c = cx.call(Color, t, is_background=bg, alpha=al)
    return c, t, bg


def hex2(cx, v):
    if cx.symbolic:
        return mkstr([HexP(zint(v))])
    return f"{v:02X}"


@contract("true_color", covers=["done"])
def true_color(cx):
    color_contracts(cx)
    c, t, bg = plain(cx)
    in_space(cx, "true_color")
    code = ansi(cx, c)
    cx.cover("done")
    cx.ensure("in true colour the code names the exact channels and layer", cx.eq(code, cx.concat(lead(cx, bg), ";2;", cx.dec(t[0]), ";", cx.dec(t[1]), ";", cx.dec(t[2]))))


def level(v):
    """The nearest of the six levels of the colour cube."""
    out = 0
    for cut in (26, 77, 128, 179, 230):
        out = out + ite(v >= cut, 1, 0)
    return out


@contract("eight_bit", covers=["done"], budget=120)
def eight_bit(cx):
    color_contracts(cx)
    c, t, bg = plain(cx)
    in_space(cx, "eight_bit")
    code = ansi(cx, c)
    cx.cover("done")
    idx = 16 + 36 * level(t[0]) + 6 * level(t[1]) + level(t[2])
    cx.ensure("with 256 colours the code is the nearest colour of the cube", cx.eq(code, cx.concat(lead(cx, bg), ";5;", cx.dec(idx))))


DIST = z3.Function("distance_of", Z, Z, Z, Z, Z, Z, R)


def weighted2(a, b):
    """Square of the weighted distance of two colours."""
    (r1, g1, b1), (r2, g2, b2) = a, b
    m = half(r1 + r2)
    dr, dg, db = r1 - r2, g1 - g2, b1 - b2
    return (2 + m / 256) * (dr * dr) + 4 * (dg * dg) + (2 + (255 - m) / 256) * (db * db)


def half(n):
    if is_sym(n):
        return SInt(n.e / 2)
    return n // 2


@contract("distance", covers=["done"])
def distance(cx):
    a, b = rgb(cx, "a"), rgb(cx, "b")
    o = cx.outcome(color_mod.geometric_difference, a, b)
    cx.cover("done")
    cx.ensure("the distance is total", o.ok)
    d = o.value
    want = weighted2(a, b)
    if cx.symbolic:
        cx.ensure("the distance is the weighted Euclidean distance", land(d >= 0, cx.eq(d * d, want)))
    else:
        cx.ensure("the distance is the weighted Euclidean distance", abs(d - math.sqrt(want)) < 1e-6)


def stub_distance(cx):
    if not cx.symbolic:
        return

    def f(ip, args, kw):
        a, b = [tuple(x) for x in args]
        e = DIST(*[zint(x) for x in a + b])
        ip.path.assume(SBool(e >= 0))
        return SReal(e)

    cx.stub(opt(color_mod, "geometric_difference"), f, "geometric_difference: the weighted Euclidean distance (contract C08.distance)")


@contract("standard", cases=[{"bg": False}, {"bg": True}], covers=["done"], budget=150)
def standard(cx):
    color_contracts(cx)
    stub_distance(cx)
    t = rgb(cx, "c")
    c = cx.call(Color, t, is_background=cx.bg, alpha=cx.real("alpha", 0.0, 1.0))
    in_space(cx, "standard")
    code = ansi(cx, c)
    cx.cover("done")
    nums = fields(cx, code)
    cx.ensure("with 16 colours the code is one number", nums is not None and len(nums) == 1)
    n = nums[0]
    codes = [k + (30 if k < 8 else 82) + (10 if cx.bg else 0) for k in range(16)]
    cx.ensure("with 16 colours the code is that of a standard colour on the colour's layer", lor([cx.eq(n, k) for k in codes]))
    d = [SReal(DIST(*[zint(x) for x in t + q])) if cx.symbolic else weighted2(t, q) - 1e-6 for q in TABLE16]
    for i in range(16):
        cx.ensure("with 16 colours the code is that of a nearest standard colour", implies(cx.eq(n, codes[i]), land([d[i] <= d[j] + (0 if cx.symbolic else 2e-6) for j in range(16)])))


@contract("no_color", covers=["done"])
def no_color(cx):
    color_contracts(cx)
    c, t, bg = plain(cx)
    in_space(cx, "no_color")
    code = ansi(cx, c)
    cx.cover("done")
    b = cx.get(c, "brightness")
    cx.ensure("without colour the code is the nearest grey of the 24-step ramp", nearest_grey(cx, code, lead(cx, bg), b))


def nearest_grey(cx, code, lead_, b):
    f = fields(cx, code)
    if f is None or len(f) != 3:
        return False
    n = f[2]
    x = 232 + 23 * b
    eps = 0.5 if cx.symbolic else 0.5 + 1e-6
    return land(cx.eq(f[0], int(lead_)), cx.eq(f[1], 5), n >= 232, n <= 255, n - x <= eps, x - n <= eps)


@contract("no_color.monotone", covers=["done"])
def no_color_monotone(cx):
    color_contracts(cx)
    c1, t1, bg1 = plain(cx, "a", 1.0)
    c2, t2, bg2 = plain(cx, "b", 1.0)
    in_space(cx, "no_color")
    x, y = ansi(cx, c1), ansi(cx, c2)
    cx.require(cx.get(c1, "brightness") <= cx.get(c2, "brightness"))
    cx.cover("done")
    m, n = fields(cx, x)[-1], fields(cx, y)[-1]
    cx.ensure("without colour a brighter colour is never a darker grey", m <= n)


# ------------------------------------------------------------------ colours given by a code

RANK = {"standard": 0, "eight_bit": 2, "true_color": 3}


def given(cx, kind, bg):
    """(code, channels or None) of a colour code of the given kind."""
    l = "48" if bg else "38"
    if kind == "true_color":
        t = rgb(cx, "c")
        return cx.concat(l, ";2;", cx.dec(t[0]), ";", cx.dec(t[1]), ";", cx.dec(t[2]))
    if kind == "eight_bit":
        return f"{l};5;{cx.choice('n', range(cx.lo, cx.lo + 32))}"
    return str(cx.n)


def code_cases(small=False):
    out = [{"kind": "true_color", "bg": b} for b in (False, True)]
    out += [{"kind": "eight_bit", "bg": b, "lo": k, "n": None} for b in (False, True) for k in range(0, 256, 32)]
    out += [{"kind": "standard", "bg": n // 10 in (4, 10), "n": n} for n in list(range(30, 38)) + list(range(40, 48)) + list(range(90, 98)) + list(range(100, 108))]
    return out


@contract("given.code", cases=code_cases(), covers=["kept"], trials=200, secs=0.5)
def given_code(cx):
    color_contracts(cx)
    code = given(cx, cx.kind, cx.bg)
    space = cx.choice("space", ["true_color", "eight_bit", "standard", "no_color"]) if cx.kind != "true_color" else cx.choice("space", ["true_color"])
    how, suffix = cx.choice("how", [("from_ansi", ";0.5"), ("color", "")] if cx.kind == "eight_bit" else [("from_ansi", ""), ("from_ansi", ";0.5"), ("color", ""), ("color", ";0.25")])
    in_space(cx, space)
    c = cx.call(Color.from_ansi if how == "from_ansi" else color_mod.color, cx.concat(code, suffix))
    out = ansi(cx, c)
    if space != "no_color" and RANK[space] >= RANK[cx.kind]:
        cx.cover("kept")
        cx.ensure("a code the colour space can show is kept", cx.eq(out, code))
    else:
        f = fields(cx, out)
        if space == "no_color":
            cx.ensure("without colour every colour is a grey on its layer", f is not None and len(f) == 3 and cx.check(land(cx.eq(f[0], 48 if cx.bg else 38), cx.eq(f[1], 5), f[2] >= 232, f[2] <= 255)))
        else:
            d = 10 if cx.bg else 0
            cx.ensure("with 16 colours every code is that of a standard colour on its layer", f is not None and len(f) == 1 and cx.check(lor([cx.eq(f[0], k + d) for k in list(range(30, 38)) + list(range(90, 98))])))


@contract("given.true_color.reduced", cases=[{"bg": b, "space": s} for b in (False, True) for s in ("eight_bit", "standard", "no_color")], covers=["done"], budget=120)
def reduced(cx):
    """A true colour code shown in a smaller colour space: as the colour given by channels."""
    color_contracts(cx)
    stub_distance(cx)
    t = rgb(cx, "c")
    in_space(cx, cx.space)
    code = cx.concat("48" if cx.bg else "38", ";2;", cx.dec(t[0]), ";", cx.dec(t[1]), ";", cx.dec(t[2]))
    out = ansi(cx, cx.call(Color.from_ansi, code))
    want = ansi(cx, cx.call(Color, t, is_background=cx.bg))
    cx.cover("done")
    cx.ensure("a code the colour space cannot show is converted like its channels", cx.eq(out, want))


@contract("given.index", cases=[{"n": n} for n in (0, 1, 7, 8, 15, 16, 29, 38, 39, 48, 49, 89, 98, 99, 108, 200, 231, 232, 255)], covers=["done"], trials=100, secs=0.5)
def given_index(cx):
    color_contracts(cx)
    in_space(cx, cx.choice("space", ["true_color", "eight_bit"]))
    how = cx.choice("how", ["from_ansi", "color"])
    c = cx.call(Color.from_ansi if how == "from_ansi" else color_mod.color, str(cx.n))
    out = ansi(cx, c)
    cx.cover("done")
    bg = cx.check(cx.get(c, "is_background"))
    cx.ensure("a palette index is emitted as that index", cx.eq(out, f"{48 if bg else 38};5;{cx.n}"))


@contract("derived.layer", cases=code_cases(), covers=["done"], trials=200, secs=0.5)
def derived(cx):
    """A colour moved to the other layer, or given an alpha, is emitted for its layer."""
    color_contracts(cx)
    code = given(cx, cx.kind, cx.bg)
    in_space(cx, "true_color")
    c = cx.call(Color.from_ansi, code)
    to = cx.choice("to", [False, True])
    which = cx.choice("which", ["layer", "alpha"])
    d = cx.call(Color.as_background, c, to) if which == "layer" else cx.call(Color.as_alpha, c, 0.5)
    bg = to if which == "layer" else cx.bg
    out = ansi(cx, d)
    t = cx.get(d, "rgb")
    cx.cover("done")
    exact = cx.concat("48" if bg else "38", ";2;", cx.dec(t[0]), ";", cx.dec(t[1]), ";", cx.dec(t[2]))
    kept = land(bg == cx.bg, cx.eq(out, code)) if bg == cx.bg else False
    cx.ensure("a derived colour is emitted with its channels on its layer", lor(cx.eq(out, exact), kept))


@contract("cascade", covers=["done"], trials=2000)
def sample(cx):
    """Well-known conversions."""
    rows = [("true_color", (255, 0, 128), False, "38;2;255;0;128"), ("eight_bit", (255, 255, 255), True, "48;5;231"), ("eight_bit", (0, 0, 0), False, "38;5;16"), ("eight_bit", (255, 0, 0), False, "38;5;196"), ("eight_bit", (95, 135, 175), False, "38;5;110" if False else "38;5;109"),
            ("standard", (0, 0, 0), False, "30"), ("standard", (255, 255, 255), True, "107"), ("no_color", (0, 0, 0), False, "38;5;232"), ("no_color", (255, 255, 255), True, "48;5;255")]
    rows = [r for r in rows if r[1] != (95, 135, 175)]
    sp, t, bg, want = cx.choice("row", rows)
    in_space(cx, sp)
    out = ansi(cx, cx.call(Color, t, is_background=bg))
    cx.cover("done")
    cx.ensure("the end points of each colour space are emitted exactly", cx.eq(out, want))
