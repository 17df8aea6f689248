"""C20: detection, ordering and forcing of the colour space."""

import os

from .common import *  # noqa: F401,F403

NAMES = {"standard": ColorSpace.STANDARD, "no_color": ColorSpace.NO_COLOR, "eight_bit": ColorSpace.EIGHT_BIT, "true_color": ColorSpace.TRUE_COLOR}
ORDER = ["standard", "no_color", "eight_bit", "true_color"]
VARS = ["SLATE_COLORSYS", "NO_COLOR", "TERM", "COLORTERM"]
TERMS = ["xterm-256color", "xterm-truecolor", "xterm-24bit", "xterm", "xterm-", "screen-256color", "256color", "truecolor", "24bit", "dumb", "", "xterm-xterm-256color", "linux", "XTERM-256COLOR", "xterm-256color ", " xterm-256color"]
COLORTERMS = ["truecolor", "24bit", "256color", "", " ", " TrueColor ", "24BIT\n", "gnome-terminal", "yes", "1", "256color-x", "xterm-256color"]
SYS = ["standard", "no_color", "eight_bit", "true_color", "STANDARD", "No_Color", "EIGHT_BIT", "True_Color"]


def environ(cx, values):
    """Set the four variables the detection reads (None: not set)."""
    if cx.symbolic:
        d = PDict(cx.path)
        d.known = [[k, v] for k, v in values.items() if v is not None]
        cx.ip.global_overrides[("os", "environ")] = d
        cx.replace(os.getenv, lambda k, default=None: d.lookup(k) if d.lookup(k) is not ABSENT else default)
        return
    old = {k: os.environ.get(k) for k in VARS}

    class Restore:
        pass

    for k in VARS:
        if values.get(k) is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = values[k]

    def back():
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v

    cx.on_exit(back)


def is_in(cx, v, options):
    return lor([cx.eq(v, o) for o in options])


def announced(cx, term, colorterm):
    """What the terminal announces: COLORTERM, else the part of TERM after `xterm-`."""
    c = "" if colorterm is None else cx.method(cx.method(colorterm, "strip"), "lower")
    if cx.check(cx.eq(c, "")):
        t = "" if term is None else term
        c = cx.getitem(cx.method(t, "split", "xterm-"), -1)
    if cx.check(is_in(cx, c, ["24bit", "truecolor"])):
        return "true_color"
    if cx.check(cx.eq(c, "256color")):
        return "eight_bit"
    return "standard"


def same_space(cx, got, name):
    return got is NAMES[name]


@contract("detect.override", covers=["known", "unknown"])
def override(cx):
    s = cx.text("sys", excl="\0", pool=SYS)
    environ(cx, {"SLATE_COLORSYS": s, "NO_COLOR": "1" if cx.choice("nc", [False, True]) else None, "TERM": cx.choice("term", TERMS[:4]), "COLORTERM": cx.choice("ct", COLORTERMS[:3])})
    low = cx.method(s, "lower")
    o = cx.outcome(core_mod.get_color_space)
    for n in ORDER:
        if cx.check(cx.eq(low, n)):
            cx.cover("known")
            cx.ensure("an explicit colour system wins over everything", o.ok and same_space(cx, o.value, n))
            return
    cx.cover("unknown")
    cx.ensure("an unknown colour system is rejected with ValueError", o.exc is ValueError)


@contract("detect.no_color", covers=["done"])
def no_color(cx):
    environ(cx, {"NO_COLOR": cx.text("nc", excl="\0", pool=["", "0", "1"]), "TERM": cx.text("term", excl="\0", pool=TERMS), "COLORTERM": cx.text("ct", excl="\0", pool=COLORTERMS)})
    o = cx.outcome(core_mod.get_color_space)
    cx.cover("done")
    cx.ensure("NO_COLOR, with any value, disables colours", o.ok and same_space(cx, o.value, "no_color"))


@contract("detect.announced", cases=[{"term": a, "ct": b} for a in (True, False) for b in (True, False)], covers=["true_color", "eight_bit", "standard"])
def announced_(cx):
    term = cx.text("TERM", excl="\0", pool=TERMS) if cx.term else None
    ct = cx.text("COLORTERM", excl="\0", pool=COLORTERMS) if cx.ct else None
    environ(cx, {"TERM": term, "COLORTERM": ct})
    want = announced(cx, term, ct)
    o = cx.outcome(core_mod.get_color_space)
    cx.cover(want)
    cx.ensure("detection is total", o.ok)
    cx.ensure("the colour space is the one the terminal announces", same_space(cx, o.value, want))


@contract("detect.literal", trials=3000, covers=["done"])
def literal(cx):
    """Independent statement on the announcements in use."""
    rows = [
        ({"COLORTERM": "truecolor", "TERM": "xterm-256color"}, "true_color"), ({"COLORTERM": " 24bit\n"}, "true_color"), ({"COLORTERM": "TrueColor"}, "true_color"),
        ({"COLORTERM": "256color", "TERM": "xterm-truecolor"}, "eight_bit"), ({"TERM": "xterm-256color"}, "eight_bit"), ({"TERM": "256color"}, "eight_bit"),
        ({"TERM": "xterm-truecolor"}, "true_color"), ({"TERM": "xterm-24bit"}, "true_color"), ({"TERM": "xterm"}, "standard"), ({"TERM": "linux", "COLORTERM": ""}, "standard"),
        ({}, "standard"), ({"COLORTERM": "yes", "TERM": "xterm-256color"}, "standard"), ({"COLORTERM": "  ", "TERM": "xterm-256color"}, "eight_bit"), ({"TERM": "screen-256color"}, "standard"), ({"TERM": "dumb"}, "standard"),
        ({"NO_COLOR": "", "COLORTERM": "truecolor"}, "no_color"), ({"NO_COLOR": "1"}, "no_color"), ({"NO_COLOR": "1", "SLATE_COLORSYS": "true_color"}, "true_color"), ({"SLATE_COLORSYS": "EIGHT_BIT", "COLORTERM": "truecolor"}, "eight_bit"), ({"SLATE_COLORSYS": "no_color", "COLORTERM": "truecolor"}, "no_color"), ({"SLATE_COLORSYS": "Standard"}, "standard"),
    ]
    env, want = cx.choice("row", rows)
    environ(cx, env)
    o = cx.outcome(core_mod.get_color_space)
    cx.cover("done")
    cx.ensure("the colour space is detected from the environment", o.ok and same_space(cx, o.value, want))


def value_of(cx, kind, name):
    return name if kind == "name" else NAMES[name]


@contract("order", cases=[{"a": a} for a in ORDER], covers=["done"], trials=300)
def order(cx):
    a = NAMES[cx.a]
    nb = cx.choice("b", ORDER)
    b = value_of(cx, cx.choice("kind", ["name", "value"]), nb)
    ia, ib = ORDER.index(cx.a), ORDER.index(nb)
    cx.cover("done")
    for op, want in (("__gt__", ia > ib), ("__ge__", ia >= ib), ("__eq__", ia == ib)):
        o = cx.outcome(getattr(ColorSpace, op), a, b)
        cx.ensure(f"colour spaces are ordered standard, no colour, 256 colours, true colour ({op})", o.ok and o.value is not NotImplemented and cx.check(o.value) == want)


@contract("order.unknown", cases=[{"a": a} for a in ORDER], covers=["done"], trials=300)
def order_unknown(cx):
    s = cx.text("name", pool=["", "truecolor", "16", "TRUE_COLOR"])
    cx.require(land([lnot(cx.eq(s, n)) for n in ORDER]))
    for op in ("__gt__", "__ge__", "__eq__"):
        o = cx.outcome(getattr(ColorSpace, op), NAMES[cx.a], s)
        cx.cover("done")
        cx.ensure(f"an unknown colour space name is rejected with ValueError ({op})", o.exc is ValueError)
    o = cx.outcome(ColorSpace, s)
    cx.ensure("an unknown colour space name is rejected with ValueError", o.exc is ValueError)


@contract("names", covers=["done"], trials=50)
def names(cx):
    n = cx.choice("n", ORDER)
    o = cx.outcome(ColorSpace, n)
    cx.cover("done")
    cx.ensure("every name denotes its colour space", o.ok and o.value is NAMES[n])


# ------------------------------------------------------------------ forcing


class Sink:
    def write(self, s):
        return None

    def flush(self):
        return None

    def isatty(self):
        return False


OPS = ["force", "unset", "read", "env"]


@contract("force.history", bound="histories of 4 operations", cases=[{"ops": (a, b)} for a in OPS for b in OPS], covers=["forced", "free", "told"], trials=100, secs=1.0)
def force(cx):
    color_contracts(cx)
    t = make_terminal(cx, Sink(), (4, 3))
    log = []
    cx.call(Event.__iadd__, cx.get(t, "on_color_space_set"), cx.callback(lambda v: log.append(v)))
    envs = {"env": "standard"}
    environ(cx, {"SLATE_COLORSYS": "standard"})
    forced = None
    for i in range(4):
        op = cx.ops[i] if i < len(cx.ops) else cx.choice(f"op{i}", OPS)
        if op in ("force", "unset"):
            new = NAMES[cx.choice(f"n{i}", ORDER)] if op == "force" else None
            k = len(log)
            cx.set(t, "color_space", new)
            forced = new
            cx.cover("told")
            cx.ensure("listeners are told of each setting once, with the setting", len(log) == k + 1 and log[-1] is new)
        elif op == "env":
            envs["env"] = cx.choice(f"e{i}", ORDER)
            environ(cx, {"SLATE_COLORSYS": envs["env"]})
        else:
            k = len(log)
            got = cx.get(t, "color_space")
            if forced is not None:
                cx.cover("forced")
                cx.ensure("a colour space set on the terminal wins until it is unset", got is forced)
            else:
                cx.cover("free")
                cx.ensure("an unset colour space is detected from the environment", same_space(cx, got, envs["env"]))
            cx.ensure("reading the colour space tells nobody", len(log) == k)
