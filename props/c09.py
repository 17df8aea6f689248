"""C09: colour descriptions."""

from .common import *  # noqa: F401,F403
from .palette import PALETTE, NAMES

CODES = list(range(30, 38)) + list(range(40, 48)) + list(range(90, 98)) + list(range(100, 108))


def hex2(cx, v):
    if cx.symbolic:
        return mkstr([HexP(zint(v))])
    s = f"{v:02X}"
    return cx.rng.choice([s, s.lower(), s[0] + s[1].lower()])


def is_color(cx, o, t, alpha=1.0, bg=False):
    """The outcome is a colour with exactly these channels, alpha and layer."""
    if not o.ok:
        return False
    c = o.value
    r = cx.get(c, "rgb")
    if len(r) != 3:
        return False
    a = cx.get(c, "alpha")
    if cx.symbolic:
        return land([cx.eq(r[i], t[i]) for i in range(3)] + [cx.eq(a, alpha), iff(cx.get(c, "is_background"), bg)])
    return tuple(r) == tuple(t) and abs(a - alpha) < 1e-9 and bool(cx.get(c, "is_background")) == bg


def parse(cx, what):
    return cx.outcome(color_mod.color, what)


# ------------------------------------------------------------------ hex


@contract("hex", covers=["done"])
def hex_(cx):
    color_contracts(cx)
    t = rgb(cx, "c")
    s = cx.concat("#", hex2(cx, t[0]), hex2(cx, t[1]), hex2(cx, t[2]))
    cx.cover("done")
    cx.ensure("a hex string gives its channels", is_color(cx, parse(cx, s), t))
    al = cx.real("alpha", 0.0, 1.0)
    cx.ensure("a hex string and an alpha give that colour", is_color(cx, cx.outcome(Color.from_hex, s, alpha=al), t, al))
    cx.ensure("the leading hash is optional for from_hex", is_color(cx, cx.outcome(Color.from_hex, cx.concat(hex2(cx, t[0]), hex2(cx, t[1]), hex2(cx, t[2]))), t))


@contract("hex.alpha", covers=["done"])
def hex_alpha(cx):
    color_contracts(cx)
    t = rgb(cx, "c")
    a = cx.int("a", 0, 255)
    s = cx.concat("#", hex2(cx, t[0]), hex2(cx, t[1]), hex2(cx, t[2]), hex2(cx, a))
    cx.cover("done")
    cx.ensure("a hex string with alpha gives its channels and alpha", is_color(cx, parse(cx, s), t, a / 255))


@contract("hex.roundtrip", covers=["done"])
def roundtrip(cx):
    color_contracts(cx)
    c = make_color(cx, "c", alpha=None)
    t = cx.get(c, "rgb")
    h = cx.get(c, "hex")
    cx.cover("done")
    cx.ensure("the hex text of a colour names its channels", cx.eq(h, cx.concat("#", *[mkstr([HexP(zint(x))]) if cx.symbolic else f"{x:02X}" for x in t])))
    cx.ensure("the hex text of a colour parses back to its channels", is_color(cx, parse(cx, h), t))


@contract("hex.lowercase", symbolic=False, trials=4000)
def hex_lower(cx):
    t = rgb(cx, "c")
    s = "#" + "".join(f"{x:02x}" for x in t)
    cx.ensure("a lower-case hex string gives its channels", is_color(cx, parse(cx, s), t))


@contract("hex.malformed", symbolic=False, trials=8000)
def hex_bad(cx):
    n = cx.choice("n", [0, 1, 2, 3, 4, 5, 7, 9, 10, 12, 6, 8])
    s = "".join(cx.choice(f"d{i}", list("0123456789abcdefABCDEFgxz. -")) for i in range(n))
    o = parse(cx, "#" + s)
    good = n in (6, 8) and all(x in "0123456789abcdefABCDEF" for x in s)
    if good:
        cx.ensure("a hex string gives its channels", is_color(cx, o, [int(s[i:i + 2], 16) for i in (0, 2, 4)], int(s[6:8], 16) / 255 if n == 8 else 1.0))
    elif n not in (6, 8) or any(x in "gz." for x in s):
        cx.ensure("a malformed hex string is rejected with ValueError", o.exc is ValueError)


# ------------------------------------------------------------------ channels


@contract("tuple", covers=["done"])
def tuple_(cx):
    color_contracts(cx)
    t = rgb(cx, "c")
    al = cx.real("alpha", 0.0, 1.0)
    cx.cover("done")
    cx.ensure("a tuple of channels gives those channels", is_color(cx, parse(cx, t), t))
    cx.ensure("a tuple of channels and an alpha gives both", is_color(cx, parse(cx, t + (al,)), t, al))
    bg = cx.bool("bg")
    o = cx.outcome(Color, t, is_background=bg, alpha=al)
    cx.ensure("a colour has the channels, alpha and layer it was made with", is_color(cx, o, t, al, cx.check(bg)))


@contract("channels.range", covers=["bad", "good"])
def channel_range(cx):
    color_contracts(cx)
    t = (cx.int("r"), cx.int("g"), cx.int("b"))
    how = cx.choice("how", ["tuple", "constructor", "tuple4"])
    good = land([land(0 <= x, x <= 255) for x in t])
    o = parse(cx, t) if how == "tuple" else parse(cx, t + (0.5,)) if how == "tuple4" else cx.outcome(Color, t)
    if cx.check(good):
        cx.cover("good")
        cx.ensure("channels in range are accepted", is_color(cx, o, t, 0.5 if how == "tuple4" else 1.0))
    else:
        cx.cover("bad")
        cx.ensure("channels out of range are rejected with ValueError", o.exc is ValueError)


@contract("code.range", covers=["bad", "good"])
def code_range(cx):
    color_contracts(cx)
    t = (cx.int("r", 0), cx.int("g", 0), cx.int("b", 0))
    l = cx.choice("l", ["38", "48"])
    good = land([x <= 255 for x in t])
    o = parse(cx, cx.concat(l, ";2;", cx.dec(t[0]), ";", cx.dec(t[1]), ";", cx.dec(t[2])))
    if cx.check(good):
        cx.cover("good")
        cx.ensure("channels in range are accepted", is_color(cx, o, t, 1.0, l == "48"))
    else:
        cx.cover("bad")
        cx.ensure("channels out of range are rejected with ValueError", o.exc is ValueError)


@contract("tuple.shape", covers=["done"], trials=400)
def tuple_shape(cx):
    n = cx.choice("n", [0, 1, 2, 5, 6])
    o = parse(cx, tuple(range(n)))
    cx.cover("done")
    cx.ensure("a tuple of the wrong length is rejected with ValueError", o.exc is ValueError)


@contract("types", covers=["done"], trials=400)
def types_(cx):
    v = cx.choice("v", [None, 5, 1.5, True, b"#ffffff", [1, 2, 3], {"r": 1}, {1, 2}])
    o = parse(cx, cx.list(v) if isinstance(v, list) else v)
    cx.cover("done")
    cx.ensure("any other type is rejected with ValueError", o.exc is ValueError)


# ------------------------------------------------------------------ codes

SUFFIXES = [("", 1.0), (";0.5", 0.5), (";0.25", 0.25), (";1.0", 1.0), (";0.0", 0.0), (";.75", 0.75), (";0.123456", 0.123456)]


def code(cx, text, al=None, how=None):
    """Outcome of parsing a code, directly or by `color`, with an alpha suffix."""
    how = how or cx.choice("how", ["color", "from_ansi"])
    suffix, alpha = al or cx.choice("suffix", SUFFIXES)
    f = color_mod.color if how == "color" else Color.from_ansi
    return cx.outcome(f, cx.concat(text, suffix)), alpha


@contract("code.true_color", covers=["done"])
def code_true(cx):
    color_contracts(cx)
    t = rgb(cx, "c")
    bg = cx.choice("bg", [False, True])
    o, al = code(cx, cx.concat("48" if bg else "38", ";2;", cx.dec(t[0]), ";", cx.dec(t[1]), ";", cx.dec(t[2])))
    cx.cover("done")
    cx.ensure("a true colour code gives its channels, alpha and layer", is_color(cx, o, t, al, bg))


@contract("code.eight_bit", cases=[{"bg": b, "lo": k} for b in (False, True) for k in range(0, 256, 64)], covers=["done"], trials=500, secs=1)
def code_eight(cx):
    color_contracts(cx)
    n = cx.choice("n", range(cx.lo, cx.lo + 64))
    o, al = code(cx, f"{48 if cx.bg else 38};5;{n}", cx.choice("suffix", SUFFIXES[:2]))
    cx.cover("done")
    cx.ensure("a 256 colour code gives the palette's colour, alpha and layer", is_color(cx, o, PALETTE[n], al, cx.bg))


@contract("code.standard", covers=["done"], trials=2000)
def code_standard(cx):
    color_contracts(cx)
    n = cx.choice("n", CODES)
    o, al = code(cx, str(n), cx.choice("suffix", SUFFIXES[:3]))
    bg = 40 <= n < 48 or n >= 100
    i = n - (40 if bg else 30) if n < 50 else n - (92 if bg else 82)
    cx.cover("done")
    cx.ensure("a standard colour code gives its colour, alpha and layer", is_color(cx, o, PALETTE[i], al, bg))


@contract("index", covers=["done"], trials=2000)
def index(cx):
    color_contracts(cx)
    n = cx.choice("n", [x for x in range(256) if x not in CODES])
    o, al = code(cx, str(n), cx.choice("suffix", SUFFIXES[:2]))
    cx.cover("done")
    cx.ensure("a palette index gives the palette's colour", o.ok and cx.check(is_color(cx, o, PALETTE[n], al, bool(cx.check(cx.get(o.value, "is_background"))))))


@contract("index.range", covers=["done"])
def index_range(cx):
    color_contracts(cx)
    n = cx.int("n", 256)
    pre = cx.choice("pre", ["", "38;5;", "48;5;"])
    o, _ = code(cx, cx.concat(pre, cx.dec(n)), cx.choice("suffix", SUFFIXES[:2]))
    cx.cover("done")
    cx.ensure("an index out of range is rejected with ValueError", o.exc is ValueError)


BAD = ["", "abc", "38", "48", "38;2", "38;5", "48;5;", "38;2;1", "38;2;1;2", "38;2;1;2;3;4", "39;2;1;2;3", "58;2;1;2;3", "38;3;1;2;3", "1;2;3", "5;5", "38;5;x", "38;2;a;b;c", "38;5;1;2", "2;38;5;1", "-1", "256", "38;5;-1", "38;5;256", "38;2;256;0;0", "38;2;-1;0;0", "48;2;0;0;256", "notacolour", "Red ", "38 5 1", "38:5:1", "1.5.2", "99;7", ";", ";;", "0.5", "38;5;0.5", "38;2;1;2;0.5", "rgb(1,2,3)"]
BAD = [b for b in BAD if b not in ("38", "48")]


@contract("code.malformed", covers=["done"], trials=2000)
def malformed(cx):
    s = cx.choice("s", BAD)
    f = cx.choice("how", ["color", "from_ansi"])
    o = cx.outcome(color_mod.color if f == "color" else Color.from_ansi, s)
    cx.cover("done")
    cx.ensure("a malformed code is rejected with ValueError", o.exc is ValueError)


@contract("code.fields", symbolic=False, trials=20000)
def field_soup(cx):
    """Codes assembled from arbitrary fields: accepted exactly when they have one of the forms."""
    n = cx.choice("k", [1, 2, 3, 4, 5, 6])
    f = [cx.choice(f"f{i}", ["38", "48", "2", "5", "0", "255", "256", "7", "100", "31", "x", "", "-3", "300", "40"]) for i in range(n)]
    if n > 1 and cx.choice("shape", [True, False]):
        f[0] = cx.choice("lead", ["38", "48"])
        f[1] = cx.choice("kind", ["2", "5"])
    suffix, alpha = cx.choice("suffix", SUFFIXES[:2])
    o, _ = code(cx, ";".join(f), (suffix, alpha))
    num = [int(x) if x.isdigit() else -1 for x in f]
    want = None
    if n == 1 and 0 <= num[0] < 256:
        i = num[0]
        if i in CODES:
            bg = 40 <= i < 48 or i >= 100
            i = i - (40 if bg else 30) if i < 50 else i - (92 if bg else 82)
        want = PALETTE[i]
    elif n == 3 and f[0] in ("38", "48") and f[1] == "5" and 0 <= num[2] < 256:
        want = PALETTE[num[2]]
    elif n == 5 and f[0] in ("38", "48") and f[1] == "2" and all(0 <= x < 256 for x in num[2:]):
        want = tuple(num[2:])
    if want is None:
        cx.ensure("a malformed code is rejected with ValueError", o.exc is ValueError)
    else:
        cx.ensure("a code gives its channels and alpha", o.ok and tuple(o.value.rgb) == want and o.value.alpha == alpha)


# ------------------------------------------------------------------ names


@contract("names", covers=["done"], trials=2000)
def names(cx):
    color_contracts(cx)
    n = cx.choice("n", sorted(NAMES))
    suffix, al = cx.choice("suffix", SUFFIXES[:2])
    h = NAMES[n]
    o = parse(cx, n + suffix)
    cx.cover("done")
    cx.ensure("a colour name gives its colour and alpha", is_color(cx, o, [int(h[i:i + 2], 16) for i in (0, 2, 4)], al))


@contract("names.unknown", covers=["done"])
def unknown_name(cx):
    """No name has a capital letter, a space or a punctuation mark."""
    s = cx.text("name", alpha=frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZ_ !?/()[]{}%&*"), pool=["RED", "White", "dark_red", "Blue?"], minlen=1)
    o = parse(cx, s)
    cx.cover("done")
    cx.ensure("an unknown name is rejected with ValueError", o.exc is ValueError)


@contract("names.similar", symbolic=False, trials=20000)
def similar_name(cx):
    n = cx.choice("n", sorted(NAMES))
    i = cx.choice("i", range(24)) % (len(n) + 1)
    c = cx.choice("c", list("abcdefghijklmnopqrstuvwxyz "))
    s = {"ins": n[:i] + c + n[i:], "del": n[:i] + n[i + 1:], "sub": n[:i] + c + n[i + 1:], "cut": n[:i]}[cx.choice("edit", ["ins", "del", "sub", "cut"])]
    cx.require(s not in NAMES)
    cx.ensure("an unknown name is rejected with ValueError", parse(cx, s).exc is ValueError)


@contract("constants", covers=["done"], trials=50)
def constants(cx):
    color_contracts(cx)
    bg = cx.choice("bg", [False, True, None])
    kw = {} if bg is None else {"is_background": bg}
    cx.cover("done")
    cx.ensure("black is black", is_color(cx, cx.outcome(Color.black, **kw), (0, 0, 0), 1.0, bool(bg)))
    cx.ensure("white is white", is_color(cx, cx.outcome(Color.white, **kw), (255, 255, 255), 1.0, bool(bg)))
