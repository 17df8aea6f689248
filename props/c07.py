"""C07: blending, lightening and darkening."""

from .common import *  # noqa: F401,F403

EPS = 1e-6


def between_trunc(cx, got, a, b, t):
    """got is the truncation of the interpolation a + (b-a)*t (float rounding allowed)."""
    if cx.symbolic:
        x = zreal(a) + (zreal(b) - zreal(a)) * zreal(t)
        return cx.eq(got, SInt(M.trunc(x)))
    from fractions import Fraction

    x = Fraction(a) + (Fraction(b) - Fraction(a)) * Fraction(t)
    return got in (int(x - Fraction(EPS)), int(x + Fraction(EPS)), int(x))


def toward(cx, got, a, b):
    """Between the two end points."""
    return lor(land(a <= got, got <= b), land(b <= got, got <= a))


@contract("blend.interpolates", covers=["returned"])
def blend(cx):
    color_contracts(cx)
    a = make_color(cx, "base", alpha=None)
    b = make_color(cx, "other", alpha=None)
    t = cx.real("t", 0.0, 1.0)
    o = cx.outcome(Color.blend, a, b, t)
    cx.ensure("blend of two valid colours is total", o.ok)
    cx.cover("returned")
    r = o.value
    x, y, z = cx.get(a, "rgb"), cx.get(b, "rgb"), cx.get(r, "rgb")
    for i in range(3):
        cx.ensure("blended channel is the interpolation of the two channels", between_trunc(cx, z[i], x[i], y[i], t))
        cx.ensure("blended channel lies between the two channels", toward(cx, z[i], x[i], y[i]))
        cx.ensure("blend at 0 is the base", implies(t == 0, z[i] == x[i]))
        cx.ensure("blend at 1 is the other", implies(t == 1, z[i] == y[i]))
    cx.ensure("blend keeps the layer of the base", iff(cx.get(r, "is_background"), cx.get(a, "is_background")))
    cx.ensure("blend is opaque", cx.eq(cx.get(r, "alpha"), 1.0))


def clamp_trunc(cx, got, a, b, t):
    """got is the truncated interpolation, clamped to 0..255."""
    if cx.symbolic:
        x = M.trunc(zreal(a) + (zreal(b) - zreal(a)) * zreal(t))
        return cx.eq(got, SInt(z3.If(x < 0, 0, z3.If(x > 255, 255, x))))
    from fractions import Fraction

    x = Fraction(a) + (Fraction(b) - Fraction(a)) * Fraction(t)
    return got in [min(max(int(x + d), 0), 255) for d in (-Fraction(EPS), 0, Fraction(EPS))]


@contract("blend.clamps", covers=["returned"])
def blend_any(cx):
    """Any weight at all: the result is still a colour."""
    color_contracts(cx)
    a = make_color(cx, "base", alpha=None)
    b = make_color(cx, "other", alpha=None)
    t = cx.real("t", -4.0, 4.0)
    layer = cx.choice("layer", [None, True, False])
    r = cx.call(Color.blend, a, b, t, is_background=layer)
    cx.cover("returned")
    x, y, z = cx.get(a, "rgb"), cx.get(b, "rgb"), cx.get(r, "rgb")
    for i in range(3):
        cx.ensure("blended channel is the interpolation, kept within 0..255", clamp_trunc(cx, z[i], x[i], y[i], t))
    if layer is None:
        cx.ensure("blend keeps the layer of the base", iff(cx.get(r, "is_background"), cx.get(a, "is_background")))
    else:
        cx.ensure("blend uses the layer asked for", iff(cx.get(r, "is_background"), layer))
    for n, c, t0 in (("base", a, x), ("other", b, y)):
        cx.ensure("blend leaves its operands alone", land([cx.get(c, "rgb")[i] == t0[i] for i in range(3)]))


def shades(cx, which, target):
    color_contracts(cx)
    a = make_color(cx, "base", alpha=None)
    n = cx.int("n", 0, 40)
    m = cx.int("m", 0, 40)
    step = cx.choice("step", [None, 0.1, 0.05, 0.01, 0.3, 1.0])
    kw = {} if step is None else {"step_size": step}
    s = 0.1 if step is None else step
    f = getattr(Color, which)
    r = cx.call(f, a, n, **kw)
    cx.cover("returned")
    x, z = cx.get(a, "rgb"), cx.get(r, "rgb")
    t = n * s
    for i in range(3):
        cx.ensure(f"{which}: channel is moved toward {target} by the number of shades times the step", clamp_trunc(cx, z[i], x[i], target, t))
        cx.ensure(f"{which}: never moves away from {target}", toward(cx, z[i], x[i], target))
    cx.ensure(f"{which}: keeps the layer", iff(cx.get(r, "is_background"), cx.get(a, "is_background")))
    r2 = cx.call(f, a, m, **kw)
    w = cx.get(r2, "rgb")
    for i in range(3):
        cx.ensure(f"{which}: more shades are never further from {target}", implies(n <= m, toward(cx, w[i], z[i], target)))


@contract("lighten", covers=["returned"])
def lighten(cx):
    shades(cx, "lighten", 255)


@contract("darken", covers=["returned"])
def darken(cx):
    shades(cx, "darken", 0)


@contract("shade.any_step", covers=["returned"])
def any_step(cx):
    """Arbitrary step size."""
    color_contracts(cx)
    a = make_color(cx, "base", alpha=None)
    n = cx.choice("n", list(range(0, 12)))
    s = cx.real("s", 0.0, 2.0)
    which = cx.choice("which", ["lighten", "darken"])
    target = 255 if which == "lighten" else 0
    r = cx.call(getattr(Color, which), a, n, step_size=s)
    cx.cover("returned")
    x, z = cx.get(a, "rgb"), cx.get(r, "rgb")
    for i in range(3):
        cx.ensure(f"{which}: channel is moved toward {target} by the number of shades times the step", clamp_trunc(cx, z[i], x[i], target, n * s))
    cx.ensure(f"{which}: keeps the layer", iff(cx.get(r, "is_background"), cx.get(a, "is_background")))


@contract("blend_complement", covers=["returned"])
def complement(cx):
    color_contracts(cx)
    hls_contract(cx)
    a = make_color(cx, "base")
    t = cx.real("t", 0.0, 1.0)
    c = cx.get(a, "complement")
    r = cx.call(Color.blend_complement, a, t)
    cx.cover("returned")
    x, y, z = cx.get(a, "rgb"), cx.get(c, "rgb"), cx.get(r, "rgb")
    for i in range(3):
        cx.ensure("blend_complement interpolates toward the complement", between_trunc(cx, z[i], x[i], y[i], t))


@contract("as_alpha.as_background", covers=["returned"])
def variants(cx):
    color_contracts(cx)
    a = make_color(cx, "base", alpha=None)
    al = cx.real("alpha", 0.0, 1.0)
    s = cx.bool("setting")
    x = cx.get(a, "rgb")
    r = cx.call(Color.as_alpha, a, al)
    q = cx.call(Color.as_background, a, s)
    cx.cover("returned")
    cx.ensure("as_alpha keeps the channels", land([cx.get(r, "rgb")[i] == x[i] for i in range(3)]))
    cx.ensure("as_alpha sets the alpha", cx.eq(cx.get(r, "alpha"), al))
    cx.ensure("as_alpha keeps the layer", iff(cx.get(r, "is_background"), cx.get(a, "is_background")))
    cx.ensure("as_background keeps the channels", land([cx.get(q, "rgb")[i] == x[i] for i in range(3)]))
    cx.ensure("as_background keeps the alpha", cx.eq(cx.get(q, "alpha"), cx.get(a, "alpha")))
    cx.ensure("as_background sets the layer", iff(cx.get(q, "is_background"), s))
    if cx.check(cx.get(a, "is_background")):
        d = cx.call(Color.as_background, a)
        cx.ensure("as_background defaults to the background layer", cx.get(d, "is_background"))
