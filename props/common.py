"""Domains and callee contracts shared by the property files."""

from __future__ import annotations

import sys
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import z3  # noqa: E402

from pyvc.values import *  # noqa: E402,F401,F403
from pyvc.values import _b  # noqa: E402,F401
from pyvc.heap import PList, PDict, ABSENT, AbsType  # noqa: E402,F401
from pyvc.harness import contract, Outcome, Contract  # noqa: E402,F401
from pyvc.loops import Hint  # noqa: E402,F401
from pyvc import models as M  # noqa: E402,F401
from pyvc import interp as I  # noqa: E402,F401

import slate  # noqa: E402
from slate import color as _color_mod_or_fn  # noqa: E402,F401
import importlib  # noqa: E402

color_mod = importlib.import_module("slate.color")
core_mod = importlib.import_module("slate.core")
span_mod = importlib.import_module("slate.span")
screen_mod = importlib.import_module("slate.screen")
terminal_mod = importlib.import_module("slate.terminal")
event_mod = importlib.import_module("slate.event")

Color = color_mod.Color
Span = span_mod.Span
Screen = screen_mod.Screen
Terminal = terminal_mod.Terminal
Event = event_mod.Event
ColorSpace = core_mod.ColorSpace
Key = core_mod.Key

R = z3.RealSort()
Z = z3.IntSort()
LUM = z3.Function("luminance_of", Z, Z, Z, R)
BRI = z3.Function("brightness_of", R, R)
HLS = [z3.Function(f"hls_{c}_of", R, R, R, R) for c in "hls"]


def opt(mod, name):
    return getattr(mod, name, None)


def color_contracts(cx, luminance=True, brightness=True, hls=True):
    """Callee contracts for the derived fields a Color computes on construction: total, and
    functions of the channels alone (proved in the luminance contracts)."""
    if not cx.symbolic:
        return

    def lum(ip, args, kw):
        rgb = ip.getattr(args[0], "rgb")
        r, g, b = (zint(x) for x in rgb)
        e = LUM(r, g, b)
        ip.path.assume(SBool(z3.And(e >= 0, e <= 1)))
        return SReal(e)

    def bri(ip, args, kw):
        l = zreal(ip.getattr(args[0], "luminance"))
        e = BRI(l)
        ip.path.assume(SBool(z3.And(e >= 0, e <= 1)))
        return SReal(e)

    def hls_(ip, args, kw):
        x = [zreal(a) for a in args]
        vals = [f(*x) for f in HLS]
        for v in vals:
            ip.path.assume(SBool(z3.And(v >= 0, v <= 1)))
        return tuple(SReal(v) for v in vals)

    if luminance:
        cx.stub(opt(color_mod, "calculate_luminance"), lum, "Color luminance: total, in [0,1], a function of the channels (contract C10.luminance)")
    if brightness:
        cx.stub(opt(color_mod, "calculate_brightness"), bri, "Color brightness: total, in [0,1], a function of luminance (contract C10.brightness)")
    if hls:
        import colorsys

        cx.stub(colorsys.rgb_to_hls, hls_, "colorsys.rgb_to_hls: total on [0,1]^3, result in [0,1]^3 (standard library)")


RGBOF = [z3.Function(f"hls_to_rgb_{c}", R, R, R, R) for c in "rgb"]


def hls_contract(cx):
    """colorsys.hls_to_rgb by its contract: total, depends on the hue modulo one turn, result in
    [0,1]^3 for lightness and saturation in [0,1]."""
    if not cx.symbolic:
        return
    import colorsys

    def f(ip, args, kw):
        h, l, s = (zreal(a) for a in args)
        ip.path.approx("hls_to_rgb known only by its contract")
        vals = [g(h - z3.ToReal(z3.ToInt(h)), l, s) for g in RGBOF]
        if ip.path.implied(SBool(z3.And(l >= 0, l <= 1, s >= 0, s <= 1))):
            for v in vals:
                ip.path.assume(SBool(z3.And(v >= 0, v <= 1)))
        return tuple(SReal(v) for v in vals)

    cx.stub(colorsys.hls_to_rgb, f, "colorsys.hls_to_rgb: total, depends on the hue modulo 1, result in [0,1]^3 for lightness and saturation in [0,1] (standard library)")


def channel(cx, name):
    return cx.int(name, 0, 255)


def rgb(cx, name):
    return (channel(cx, name + ".r"), channel(cx, name + ".g"), channel(cx, name + ".b"))


def make_color(cx, name, background=None, alpha=1.0):
    """An arbitrary colour object built by the real constructor."""
    t = rgb(cx, name)
    bg = cx.bool(name + ".bg") if background is None else background
    if alpha is None:
        alpha = cx.real(name + ".alpha", 0.0, 1.0)
    return cx.call(Color, t, is_background=bg, alpha=alpha)


# ------------------------------------------------------------------ spans

FLAGS = ["bold", "dim", "italic", "underline", "blink", "fast_blink", "invert", "conceal", "strike", "opaque"]
SGR = {"bold": "1", "dim": "2", "italic": "3", "underline": "4", "blink": "5", "fast_blink": "6", "invert": "7", "conceal": "8", "strike": "9", "opaque": "99"}
ATTRS = ["text", "foreground", "background", "hyperlink"] + FLAGS + ["reset_after"]


def stub_ansi(cx):
    """The colour code of a colour by its contract (C08): a non-empty text of digits, dots and
    semicolons that depends on the colour alone."""
    if not cx.symbolic:
        return

    def f(ip, obj):
        key = ("ansi", obj.oid)
        if key not in ip.path.memo:
            ip.path.memo[key] = ip.path.fresh_txt("ansi", alpha=frozenset("0123456789;"), minlen=1)
        return ip.path.memo[key]

    cx.ip.attr_stubs[(Color, "ansi")] = f
    cx.path.ex.assumed.add("colour code of a colour: a non-empty text of digits and semicolons (contract C08)")


def stub_sequences(cx):
    """Span._generate_sequences by its contract: two texts, total (contract C13)."""
    if not cx.symbolic:
        return

    def f(ip, args, kw):
        return (ip.path.fresh_txt("seq", excl="\n"), ip.path.fresh_txt("cseq", excl="\n"))

    cx.stub(opt(Span, "_generate_sequences"), f, "Span._generate_sequences: total, returns two texts (contract C13.rendering)")


def chars_text(cx, name, n, excl="\x1b\n"):
    """A text of exactly n arbitrary characters."""
    return cx.concat(*[cx.text(f"{name}{i}", excl=excl, unit=True) for i in range(n)]) if n else ""


def make_span(cx, name, text, flags=None, fg=None, bg=None, hyperlink="", reset=None):
    """A span built by the real constructor; flags None: all arbitrary."""
    kw = {}
    for f in FLAGS:
        if flags is None:
            kw[f] = cx.bool(f"{name}.{f}")
        elif isinstance(flags, dict):
            kw[f] = flags.get(f, False)
        else:
            kw[f] = f in flags
    kw["reset_after"] = cx.bool(f"{name}.reset_after") if reset is None else reset
    s = cx.call(Span, text, foreground=fg, background=bg, hyperlink=hyperlink, **kw)
    return s, dict(kw, text=text, foreground=fg, background=bg, hyperlink=hyperlink)


def opt_color(cx, name, background=False):
    if cx.choice(name + "?", [False, True]):
        return make_color(cx, name, background=background)
    return None


def tokens(cx, s):
    """The characters of a text: one-character strings, and opaque pieces of a symbolic text."""
    if isinstance(s, str):
        return list(s)
    out = []
    for p in cx.path.expand(s.parts):
        if isinstance(p, str):
            out += list(p)
        else:
            out.append(p)
    return out


def untok(toks):
    return mkstr(list(toks))


# ------------------------------------------------------------------ terminals


class NoTty:
    """A standard input that is not a terminal."""

    encoding = "utf-8"

    def isatty(self):
        return False

    def fileno(self):
        return 0


class Sizes:
    """The size the system reports for the terminal."""

    def __init__(self, size):
        self.size = size
        self.asked = 0


def make_terminal(cx, stream, size, background=None, stdin=None, **kw):
    """A terminal on the given stream, in a process whose standard input is no terminal unless given."""
    import os as os_
    import shutil
    import sys as sys_

    sizes = size if isinstance(size, Sizes) else Sizes(size)

    def get_size(*a, **k):
        sizes.asked += 1
        w, h = sizes.size
        return (w, h) if cx.symbolic else os_.terminal_size((w, h))

    cx.replace(shutil.get_terminal_size, get_size)
    cx.replace(os_.get_terminal_size, get_size)
    cx.patch(sys_, "stdin", cx.env(stdin or NoTty()))
    t = cx.call(Terminal, stream=cx.env(stream), **kw)
    if background is not None:
        cx.set(t, "background_color", background)
    return t


class TrueColor:
    def __init__(self):
        self.color_space = ColorSpace.TRUE_COLOR


def stub_true_color(cx):
    """Colours are emitted as true colour codes."""
    cx.patch(terminal_mod, "terminal", cx.env(TrueColor()))
