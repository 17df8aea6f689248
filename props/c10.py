"""C10: luminance, brightness and contrast colours."""

from decimal import Decimal, getcontext
from fractions import Fraction

from .common import *  # noqa: F401,F403

LIN_T, LIN_D, LIN_A, LIN_E = 0.04045, 12.92, 0.055, 2.4
W = (0.2126, 0.7152, 0.0722)
CUT, SLOPE = 216 / 24389, 24389 / 27
THRESHOLD = 0.179
TOL = 1e-9


def lin(v):
    v = v / 255
    return v / LIN_D if v <= LIN_T else ((v + LIN_A) / (1 + LIN_A)) ** LIN_E


def golden(t):
    return sum(w * lin(v) for w, v in zip(W, t))


def frac(v):
    return z3.RealVal(str(Fraction(v)))


def slin(cx, v):
    """The sRGB linearisation of a channel, as a term."""
    x = zreal(v) / 255
    y = (x + frac(LIN_A)) / frac(1.055)
    return z3.If(x <= frac(LIN_T), x / frac(LIN_D), M.POW(y, frac(LIN_E)))


def near(cx, a, b):
    if cx.symbolic:
        d = zreal(a) - zreal(b)
        return SBool(z3.And(d <= frac(TOL), d >= -frac(TOL)))
    return abs(a - b) <= TOL


def anchor(cx, x, e):
    """x ** e at one point, bracketed by 60-digit arithmetic."""
    if not cx.symbolic:
        return
    getcontext().prec = 60
    fx, fe = Fraction(x), Fraction(e)
    v = (Decimal(fx.numerator) / Decimal(fx.denominator)) ** (Decimal(fe.numerator) / Decimal(fe.denominator))
    v = Fraction(v)
    r = zreal(M.power(cx.ip, SReal(frac(fx)), e))
    eps = Fraction(1, 10**40)
    cx.path.assume(SBool(z3.And(r >= frac(v - eps), r <= frac(v + eps))))


@contract("luminance", covers=["done"])
def luminance(cx):
    color_contracts(cx, luminance=False)
    c = make_color(cx, "c", alpha=None)
    t = cx.get(c, "rgb")
    l = cx.get(c, "luminance")
    cx.cover("done")
    want = SReal(sum(frac(w) * slin(cx, v) for w, v in zip(W, t))) if cx.symbolic else golden(t)
    cx.ensure("luminance is the sRGB relative luminance of the channels", near(cx, l, want))
    if cx.symbolic:
        for v in t:
            M.power(cx.ip, SReal((zreal(v) / 255 + frac(LIN_A)) / frac(1.055)), LIN_E)
        anchor(cx, 1 + Fraction(1, 10**10), LIN_E)
    cx.ensure("luminance lies between 0 and 1", land(0 <= l, l <= 1 + TOL))
    f = cx.call(color_mod.calculate_luminance, c)
    cx.ensure("the luminance function gives the colour's luminance", near(cx, f, l))


@contract("luminance.values", symbolic=False, cases=[{"ch": i, "lo": k} for i in range(3) for k in range(0, 256, 64)], trials=64, secs=2)
def luminance_values(cx):
    v = cx.int("v", cx.lo, cx.lo + 63)
    t = tuple(v if i == cx.ch else 0 for i in range(3))
    cx.ensure("luminance is the sRGB relative luminance of the channels", near(cx, Color(t).luminance, golden(t)))


@contract("luminance.monotone", cases=[{"ch": i} for i in range(3)], covers=["done"])
def monotone(cx):
    color_contracts(cx, luminance=False)
    anchor(cx, 0.093, LIN_E)
    t = rgb(cx, "c")
    d = cx.int("d", 0, 255)
    u = tuple(t[i] + d if i == cx.ch else t[i] for i in range(3))
    cx.require(u[cx.ch] <= 255)
    a = cx.call(Color, t, is_background=cx.bool("bg1"))
    b = cx.call(Color, u, is_background=cx.bool("bg2"))
    cx.cover("done")
    x, y = cx.get(a, "luminance"), cx.get(b, "luminance")
    cx.ensure("luminance does not decrease when a channel increases", x <= y)
    cx.ensure("luminance does not depend on the layer", implies(d == 0, near(cx, x, y)))


@contract("brightness", covers=["done"])
def brightness(cx):
    color_contracts(cx, brightness=False)
    c = make_color(cx, "c", alpha=None)
    l, b = cx.get(c, "luminance"), cx.get(c, "brightness")
    cx.cover("done")
    if cx.symbolic:
        e = zreal(l)
        want = SReal(z3.If(e <= frac(CUT), e * frac(SLOPE), M.POW(e, frac(1 / 3)) * 116 - 16) / 100)
    else:
        want = (l * SLOPE if l <= CUT else l ** (1 / 3) * 116 - 16) / 100
    cx.ensure("brightness is the perceived lightness of the luminance", near(cx, b, want))
    anchor(cx, CUT, 1 / 3)
    if cx.symbolic:
        M.power(cx.ip, l, 1 / 3)
    cx.ensure("brightness lies between 0 and 1", land(0 <= b, b <= 1 if cx.symbolic else b <= 1 + TOL))


@contract("brightness.monotone", covers=["done"])
def brightness_monotone(cx):
    color_contracts(cx, brightness=False)
    anchor(cx, CUT, 1 / 3)
    a, b = make_color(cx, "a"), make_color(cx, "b")
    x, y = cx.get(a, "luminance"), cx.get(b, "luminance")
    cx.cover("done")
    ok = cx.get(a, "brightness") <= cx.get(b, "brightness") if cx.symbolic else cx.get(a, "brightness") <= cx.get(b, "brightness") + TOL
    cx.ensure("brightness follows luminance", implies(x <= y, ok))


# ------------------------------------------------------------------ contrast

LIGHT, DARK = (245, 245, 245), (35, 35, 35)


def same_rgb(cx, c, t):
    r = cx.get(c, "rgb")
    return land([cx.eq(r[i], t[i]) for i in range(3)])


def ratio_ok(cx, l, r):
    """The two luminances have a contrast ratio of at least 3:1."""
    if cx.symbolic:
        x, y = zreal(l), zreal(r)
        return SBool(z3.Or(x + frac(0.05) >= 3 * (y + frac(0.05)), y + frac(0.05) >= 3 * (x + frac(0.05))))
    return max(l + 0.05, r + 0.05) / min(l + 0.05, r + 0.05) >= 3 - TOL


@contract("contrast", covers=["light", "dark"])
def contrast(cx):
    color_contracts(cx)
    c = make_color(cx, "c", alpha=None)
    how = cx.choice("how", ["attribute", "function"])
    k = cx.get(c, "contrast") if how == "attribute" else cx.call(color_mod.calculate_contrast, c)
    l = cx.get(c, "luminance")
    t = cx.get(k, "rgb")
    if cx.check(l > THRESHOLD):
        cx.cover("dark")
        cx.ensure("the contrast of a light colour is the dark colour", same_rgb(cx, k, DARK))
    else:
        cx.cover("light")
        cx.ensure("the contrast of a dark colour is the light colour", same_rgb(cx, k, LIGHT))
    cx.ensure("the contrast colour is on the layer of the colour", iff(cx.get(k, "is_background"), cx.get(c, "is_background")))
    if not all(isinstance(v, int) for v in t):
        raise Unsupported("contrast colour is not a constant")
    cx.ensure("the contrast colour has a contrast ratio of at least 3:1", ratio_ok(cx, l, golden(t)))
    cx.ensure("the contrast colour is opaque", cx.eq(cx.get(k, "alpha"), 1.0))


@contract("contrast.custom", covers=["light", "dark"])
def contrast_custom(cx):
    color_contracts(cx)
    c = make_color(cx, "c", alpha=None)
    white, black = opt_color(cx, "white", None), opt_color(cx, "black", None)
    k = cx.call(color_mod.calculate_contrast, c, white=white, black=black)
    if cx.check(cx.get(c, "luminance") > THRESHOLD):
        cx.cover("dark")
        cx.ensure("the contrast of a light colour is the given dark colour", same_rgb(cx, k, DARK if black is None else cx.get(black, "rgb")))
    else:
        cx.cover("light")
        cx.ensure("the contrast of a dark colour is the given light colour", same_rgb(cx, k, LIGHT if white is None else cx.get(white, "rgb")))
    cx.ensure("the contrast colour is on the layer of the colour", iff(cx.get(k, "is_background"), cx.get(c, "is_background")))
