"""C11: hue shifts and palettes."""

import colorsys

from .common import *  # noqa: F401,F403


def shifted(cx, c, amount):
    """The channels of a colour with the amount added to the hue of c: (low, high) bounds."""
    h, l, s = cx.get(c, "hls")
    if cx.symbolic:
        x = zreal(h) + zreal(amount)
        x = x - z3.ToReal(z3.ToInt(x))
        return [SInt(z3.ToInt(255 * f(x, zreal(l), zreal(s)))) for f in RGBOF]
    t = colorsys.hls_to_rgb((h + amount) % 1, l, s)
    return [(int(255 * v - 1e-6), int(255 * v + 1e-6)) for v in t]


def has(cx, c, want):
    """c has these channels."""
    t = cx.get(c, "rgb")
    if len(t) != 3:
        return False
    if cx.symbolic:
        return land([cx.eq(t[i], want[i]) for i in range(3)])
    return all(v in w if isinstance(w, tuple) else v == w for v, w in zip(t, want))


def layer_kept(cx, k, c):
    return iff(cx.get(k, "is_background"), cx.get(c, "is_background"))


def base(cx):
    color_contracts(cx)
    hls_contract(cx)
    return make_color(cx, "c", alpha=None)


@contract("hls", covers=["done"])
def hls(cx):
    """The hue, lightness and saturation of a colour are those of its channels."""
    color_contracts(cx)
    c = make_color(cx, "c", alpha=None)
    t = cx.get(c, "rgb")
    v = cx.get(c, "hls")
    cx.cover("done")
    if cx.symbolic:
        x = [zreal(a) / 256 for a in t]
        cx.ensure("the hls of a colour is that of its channels", land([cx.eq(v[i], SReal(HLS[i](*x))) for i in range(3)]))
    else:
        w = colorsys.rgb_to_hls(*(a / 256 for a in t))
        cx.ensure("the hls of a colour is that of its channels", all(abs(a - b) < 1e-9 for a, b in zip(v, w)))


@contract("hue_shift", covers=["done"])
def hue_shift(cx):
    c = base(cx)
    a = cx.real("amount", -5.0, 5.0)
    o = cx.outcome(Color.hue_shift, c, a)
    cx.ensure("a hue shift by any amount gives a valid colour", o.ok)
    cx.cover("done")
    k = o.value
    cx.ensure("a hue shift adds the amount to the hue and keeps lightness and saturation", has(cx, k, shifted(cx, c, a)))
    cx.ensure("a hue shift keeps the layer", layer_kept(cx, k, c))


@contract("hue_shift.observed", symbolic=False, trials=8000)
def observed(cx):
    """The shifted colour has the lightness, saturation and shifted hue, up to the rounding of its channels."""
    c = make_color(cx, "c")
    a = cx.real("amount", -5.0, 5.0)
    k = Color.hue_shift(c, a)
    h0, l0, s0 = colorsys.rgb_to_hls(*(v / 255 for v in c.rgb))
    want = colorsys.hls_to_rgb((h0 + a) % 1, l0, s0)
    cx.ensure("the shifted colour has the lightness and saturation of the colour and the shifted hue", all(abs(v - 255 * w) <= 4 for v, w in zip(k.rgb, want)))


GROUPS = {
    "triadic_group": ("calculate_triadic_group", [None, 1 / 3, 2 / 3]),
    "analogous_group": ("calculate_analogous_group", [None, 1 / 12, 2 / 12]),
    "tetradic_group": ("calculate_tetradic_group", [None, 1 / 4, "complement", 3 / 4]),
}


def complement_ok(cx, c, k):
    h, l, s = cx.get(c, "hls")
    if cx.check(h == 0):
        if cx.check(l == 0):
            return has(cx, k, (255, 255, 255))
        return has(cx, k, (0, 0, 0))
    return land(has(cx, k, shifted(cx, c, 0.5)), layer_kept(cx, k, c))


@contract("complement", covers=["zero", "turn"])
def complement(cx):
    c = base(cx)
    o = cx.run(lambda: cx.get(c, "complement"))
    cx.ensure("every colour has a complement", o.ok)
    cx.cover("zero" if cx.check(cx.get(c, "hls")[0] == 0) else "turn")
    cx.ensure("the complement is half a turn away, white for black and black for hue zero", complement_ok(cx, c, o.value))


@contract("groups", cases=[{"g": g, "how": h} for g in GROUPS for h in ("attribute", "function")], covers=["done"])
def groups(cx):
    c = base(cx)
    fn, members = GROUPS[cx.g]
    o = cx.run(lambda: cx.get(c, cx.g)) if cx.how == "attribute" else cx.outcome(getattr(color_mod, fn), c)
    cx.ensure("every palette is a group of valid colours", o.ok)
    cx.cover("done")
    g = o.value
    cx.ensure("the palette has its number of members", len(g) == len(members))
    for k, m in zip(g, members):
        if m is None:
            cx.ensure("the palette starts with the colour itself", land(has(cx, k, [v if cx.symbolic else (v,) for v in cx.get(c, "rgb")]), layer_kept(cx, k, c), cx.eq(cx.get(k, "alpha"), cx.get(c, "alpha"))))
        elif m == "complement":
            cx.ensure("the third tetradic member is the complement", complement_ok(cx, c, k))
        else:
            cx.ensure("the palette members are the shifts of the colour", land(has(cx, k, shifted(cx, c, m)), layer_kept(cx, k, c)))
