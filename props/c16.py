"""C16: mouse reports."""

import re

from .common import *  # noqa: F401,F403

MODS = ["", "shift_", "option_", "shift_option_", "ctrl_", "shift_ctrl_", "ctrl_option_", "shift_ctrl_option_"]

EVENTS = {}
for _i, _m in enumerate(MODS):
    for _base, _name in ((0, "left_click"), (2, "right_click"), (32, "left_drag"), (34, "right_drag"), (35, "hover"), (64, "scroll_up"), (65, "scroll_down"), (66, "scroll_left"), (67, "scroll_right")):
        EVENTS[_base + 4 * _i] = _m + _name
DIGITS = frozenset("0123456789")
REPORT = re.compile(r"\x1b\[<[0-9]+;[0-9]+;[0-9]+[Mm]")


def overlaps():
    """Event numbers that two events would share."""
    seen, out = {}, set()
    for base in (0, 2, 32, 34, 35, 64, 65, 66, 67):
        for i in range(8):
            n = base + 4 * i
            if n in seen:
                out.add(n)
            seen[n] = base
    return out


AMBIGUOUS = overlaps()


def digits(cx, name):
    return cx.text(name, alpha=DIGITS, minlen=1)


@contract("mouse.known", cases=[{"ev": e} for e in sorted(EVENTS)], covers=["decoded"], trials=150)
def known(cx):
    x, y = digits(cx, "x"), digits(cx, "y")
    fin = cx.choice("final", ["M", "m"])
    r = cx.call(core_mod.parse_mouse_event, cx.concat(f"\x1b[<{cx.ev};", x, ";", y, fin))
    cx.cover("decoded")
    name = EVENTS[cx.ev]
    if fin == "m":
        name = name.replace("click", "release")
    cx.ensure("a mouse report decodes to its event, modifiers and coordinates", r is not None and cx.check(cx.eq(r, cx.concat(f"mouse:{name}@", x, ";", y))))


@contract("mouse.unknown", covers=["none"])
def unknown(cx):
    ev = digits(cx, "ev")
    cx.require(land([lnot(cx.eq(ev, str(e))) for e in EVENTS]))
    x, y = digits(cx, "x"), digits(cx, "y")
    r = cx.call(core_mod.parse_mouse_event, cx.concat("\x1b[<", ev, ";", x, ";", y, cx.choice("final", ["M", "m"])))
    cx.cover("none")
    cx.ensure("an unknown event number decodes to nothing", r is None)


@contract("mouse.other", covers=["none"])
def other(cx):
    code = cx.text("code", pool=POOL)
    if cx.symbolic:
        cx.require(cx.ip.call(cx.ip.getattr(REPORT, "fullmatch"), [code]) is None)
    else:
        cx.require(not REPORT.fullmatch(code))
    r = cx.call(core_mod.parse_mouse_event, code)
    cx.cover("none")
    cx.ensure("a text that is no mouse report decodes to nothing", r is None)


POOL = ["", "\x1b", "\x1b[", "\x1b[<", "\x1b[<;;M", "\x1b[<0;1;1", "\x1b[<0;1;1X", "\x1b[<0;1;", "\x1b[<0;1;M", "\x1b[<0;;1M", "\x1b[<;1;1M", "\x1b[0;1;1M", "0;1;1M", "\x1b[<0;1;1;1M", "\x1b[<0;1M", "\x1b[<a;b;cM", "\x1b[<0;-1;1M", "\x1b[<0;1;1MM", "\x1b[<0;1;1M\n", "x\x1b[<0;1;1M", "<0;1;1M", "[<0;1;1m", ";;", "a;b;c", "\x1b[<0;1.5;1M", "\x1b[<<0;1;1M", "\x1b[1;2A;;", "\x1b[<0 ;1;1M", "\x1b[<٣;1;1M", "\x1b[<0;1;1m\x1b[<0;1;1m"]


@contract("mouse.malformed", symbolic=False, trials=20000)
def malformed(cx):
    """Near misses of mouse reports."""
    f = [cx.choice(f"f{i}", ["0", "1", "35", "64", "", "a", "-1", "1.5", " 1", "999", "٣", "<", "\x1b", "[", "M"]) for i in range(3)]
    pre = cx.choice("pre", ["\x1b[<", "\x1b[", "\x1b", "[<", "<", "", "\x1b[<<", "x\x1b[<", "\x1b[\x1b[<"])
    fin = cx.choice("fin", ["M", "m", "", "X", "MM", "M\n", ";"])
    code = pre + ";".join(f) + fin
    r = cx.call(core_mod.parse_mouse_event, code)
    m = REPORT.fullmatch(code)
    n = int(f[0]) if m else -1
    if m and n in EVENTS and str(n) == f[0]:
        cx.ensure("a mouse report decodes to its event", r is not None and r.startswith("mouse:"))
    else:
        cx.ensure("a text that is no mouse report decodes to nothing", r is None)
