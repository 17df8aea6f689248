"""C19: the window title."""

import itertools

from .common import *  # noqa: F401,F403
from .streams import Stream, RAISES


def title_ops(cx, text):
    """The title operations in some output, in order."""
    toks = tokens(cx, text)
    out, i = [], 0
    while i < len(toks):
        if toks[i] != "\x1b":
            i += 1
            continue
        if i + 1 < len(toks) and toks[i + 1] == "[":
            j = i + 2
            while j < len(toks) and isinstance(toks[j], str) and not ("@" <= toks[j] <= "~"):
                j += 1
            if j >= len(toks) or not isinstance(toks[j], str):
                raise Unsupported("control sequence with unknown text")
            body = "".join(toks[i + 2:j])
            if toks[j] == "t":
                f = body.split(";")
                if f[0] == "22" and f[1:] in ([], ["0"], ["2"]):
                    out.append(("store", None))
                elif f[0] == "23" and f[1:] in ([], ["0"], ["2"]):
                    out.append(("restore", None))
            i = j + 1
            continue
        if i + 1 < len(toks) and toks[i + 1] == "]":
            j = i + 2
            while j < len(toks) and toks[j] not in ("\x07", "\x1b"):
                j += 1
            body = toks[i + 2:j]
            if len(body) >= 2 and body[0] in ("0", "2") and body[1] == ";":
                out.append(("set" if j < len(toks) else "open", untok(body[2:])))
            i = j + 1
            continue
        i += 1
    return out


def ops_are(cx, got, want):
    if [g[0] for g in got] != [w[0] for w in want]:
        return False
    return land([True] + [cx.eq(g[1], w[1]) for g, w in zip(got, want) if w[0] == "set"])


CTRL = "".join(chr(i) for i in range(32)) + "\x7f\x9c\x9b"


class Titles:
    """Runs a history and checks each step against the stored/restored specification."""

    def __init__(self, cx):
        color_contracts(cx)
        self.cx = cx
        self.s = Stream(cx)
        self.t = make_terminal(cx, self.s, (2, 1))
        self.mark = len(self.s.out)
        self.custom = False
        self.n = 0

    def delta(self):
        d = self.cx.concat("", *self.s.out[self.mark:])
        self.mark = len(self.s.out)
        return title_ops(self.cx, d)

    def set(self, title=None):
        cx = self.cx
        self.n += 1
        title = cx.text(f"title{self.n}", excl=CTRL) if title is None else title
        cx.method(self.t, "set_title", title)
        want = ([] if self.custom else [("store", None)]) + [("set", title)]
        cx.ensure("the first custom title is stored before and then set, further ones are only set", ops_are(cx, self.delta(), want))
        self.custom = True

    def reset(self):
        cx = self.cx
        cx.method(self.t, "set_title", None)
        cx.ensure("resetting restores a stored title once and otherwise sends nothing", ops_are(cx, self.delta(), [("restore", None)] if self.custom else []))
        self.custom = False

    def alt(self, inner, end=None, **kw):
        cx = self.cx

        def body():
            cx.ensure("entering the alternate buffer leaves the title alone", ops_are(cx, self.delta(), []))
            for op in inner:
                self.step(op)
            if end is not None:
                cx.throw(RAISES[end])

        o = cx.run(lambda: cx.with_block(cx.method(self.t, "alt_buffer", **kw), body))
        cx.ensure("leaving the alternate buffer restores a stored title once", ops_are(cx, self.delta(), [("restore", None)] if self.custom else []))
        cx.ensure("an exception of the block propagates", o.exc is (RAISES[end] if end else None))
        self.custom = False

    def step(self, op):
        if op == "s":
            self.set()
        elif op == "r":
            self.reset()
        elif op == "a":
            self.alt("")
        else:
            self.alt(op[1:], end="error" if op[0] == "X" else None)


OPS = ["s", "r", "a", "As", "Asr", "Ars", "Xs", "Ass", "Ass"]
HIST = [{"ops": h} for k in range(1, 4) for h in itertools.product(["s", "r", "a", "As", "Ars", "Xs"], repeat=k)]
HIST += [{"ops": h} for h in itertools.product("sr", repeat=5)]


@contract("history", bound="histories of up to 3 steps with alternate buffers, 5 without, arbitrary titles", cases=HIST, covers=["done"], trials=20)
def history(cx):
    h = Titles(cx)
    for op in cx.ops:
        h.step(op)
    cx.cover("done")


@contract("history.long", symbolic=False, trials=3000)
def long(cx):
    h = Titles(cx)
    for i in range(cx.choice("len", range(1, 30))):
        h.step(cx.choice(f"op{i}", OPS))
    cx.ensure("(done)", True)


@contract("titles", covers=["done"])
def titles(cx):
    """Any texts at all, and the cursor setting of the alternate buffer."""
    h = Titles(cx)
    hide = cx.choice("hide", [True, False])
    h.set()
    h.alt("s", hide_cursor=hide)
    h.reset()
    h.set("")
    h.reset()
    h.set("{title} {} %s")
    cx.cover("done")


def state(cx, t):
    """Everything the terminal object remembers."""
    if cx.symbolic:
        return dict(t.attrs)
    return dict(vars(t))


@contract("history.step", covers=["done"], native=lambda cx: cx.ensure("(proof only)", True), trials=1)
def induction(cx):
    """The induction behind it: after any history the terminal remembers what it remembers either
    initially or after one setting of the last title."""
    h = Titles(cx)
    s0 = state(cx, h.t)
    h.set()
    s1 = state(cx, h.t)
    h.reset()
    s2 = state(cx, h.t)
    t3 = cx.text("again", excl=CTRL)
    h.set()
    h.set(t3)
    s3 = state(cx, h.t)
    h.reset()
    h.set(t3)
    s4 = state(cx, h.t)
    cx.cover("done")

    def same(a, b):
        if set(a) != set(b):
            return False
        return land([True] + [cx.eq(a[k], b[k]) if is_str(a[k]) and is_str(b[k]) else a[k] is b[k] for k in a])

    for a, b in ((s0, s2), (s3, s4)):
        if not cx.check(same(a, b)):
            raise Unsupported("the terminal remembers more than the last title")
    cx.ensure("a history has the effect of its last setting or resetting", True)
