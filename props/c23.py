"""C23: what the terminal answers to queries."""

import os
import sys
import threading

from .common import *  # noqa: F401,F403
from .streams import Stream

DEFAULTS = {"10": (0xDE, 0xDE, 0xDE), "11": (0x14, 0x14, 0x14)}
NAMES = {"10": "foreground_color", "11": "background_color"}
Key = opt(core_mod, "Key")


class YesTty(NoTty):
    def isatty(self):
        return True


def written(out):
    """Control output, which is literal text."""
    if not all(isinstance(x, str) for x in out):
        raise Unsupported("control output of unknown text")
    return "".join(out)


class Job:
    """A thread that waits for input: it ends when it is waited for."""

    def __init__(self, cx, target, args=(), kwargs=None, **kw):
        self.cx, self.target, self.args, self.kwargs = cx, target, args, kwargs or {}
        self.started = self.done = False

    def start(self):
        self.started = True

    def join(self, timeout=None):
        if not self.started:
            self.cx.throw(RuntimeError, "cannot join thread before it is started")
        if not self.done:
            self.done = True
            args = self.cx.items(self.args) if self.cx.symbolic else self.args
            self.cx.call(self.target, *args, **self.kwargs)

    def is_alive(self):
        return self.started and not self.done


class Asked:
    """A terminal that answers queries: `answers` maps a query to what is typed for it (None:
    nothing within the time)."""

    def __init__(self, cx, answers, tty=True, stdin=True, size=(4, 3), **kw):
        color_contracts(cx)
        self.cx, self.answers = cx, answers
        self.s = Stream(cx, tty)
        self.asked = []
        self.early = 0
        self.echo = True
        self.seen = 0
        self.echoed = 0
        self.stdin = YesTty() if stdin else NoTty()

        def getch(stream=None, raw=False):
            a = self.answer()
            if a is None:
                # waits for ever
                cx.throw(KeyboardInterrupt)
            return cx.call(Key, (a,))

        def getch_timeout(duration=0, default=None, stream=None, raw=False):
            a = self.answer()
            return default if a is None else cx.call(Key, (a,))

        cx.replace(core_mod.getch, getch)
        cx.replace(core_mod.getch_timeout, getch_timeout)
        cx.replace(threading.Thread, lambda group=None, target=None, name=None, args=(), kwargs=None, **kw: cx.env(Job(cx, target, args, kwargs)))
        cx.replace(os.system, self.system)

    def system(self, cmd):
        words = cmd.split() if isinstance(cmd, str) else []
        if words[:1] != ["stty"]:
            raise Unsupported("a shell command other than stty")
        for w in words[1:]:
            if w in ("echo", "-echo"):
                self.echo = w == "echo"
        return 0

    def answer(self):
        """What is typed after everything sent so far."""
        sent = written(self.s.out[self.seen:self.s.flushed])
        self.seen = self.s.flushed
        hits = [q for q in self.answers if q in sent]
        self.asked += [q for q in self.answers for _ in range(sent.count(q))]
        self.echoed += self.echo
        if not hits:
            self.early += 1
            return "" if None not in self.answers.values() else None
        return self.answers[hits[-1]]

    def sent(self):
        return written(self.s.out)

    def terminal(self, **kw):
        """The terminal; what it asks while it is made is answered too."""
        cx = self.cx
        t = make_terminal(cx, self.s, (4, 3), stdin=self.stdin, **kw)
        return t


def query(layer):
    return f"\x1b]{layer};?\x1b\\"


def hex2(cx, v):
    return mkstr([HexP(zint(v), True)]) if cx.symbolic else f"{v:02x}"


def dec(cx, v):
    return mkstr([Num(zint(v))]) if cx.symbolic else str(v)


def palette(cx, layer, name="c"):
    """A reply to a palette query, and the colour it names."""
    hi = [cx.int(f"{name}{c}", 0, 255) for c in "rgb"]
    lo = [cx.int(f"{name}{c}low", 0, 255) for c in "rgb"]
    parts = [f"\x1b]{layer};rgb:"]
    for i in range(3):
        parts += ["/" if i else "", hex2(cx, hi[i]), hex2(cx, lo[i])]
    return cx.concat(*parts, "\x1b\\"), tuple(hi)


def no_reply(cx, name):
    """An answer that names no colour and no size."""
    return cx.text(name, excl=frozenset("\x1b"), pool=["", "a", "rgb", "abc", "[", "q", "0", "é"])


OTHERS = ["", "\x1b", "\x1b[A", "x", "\x1b]", "\x1b\\", "\x1b[?2026$y", "\x1b[4;t", "\x1b[?1;2c", "\x1b]10;?\x1b\\"]


def channels(cx, c):
    o = cx.run(lambda: cx.get(c, "rgb"))
    return o.value if o.ok else ()


@contract("palette", cases=[dict(layer=x) for x in DEFAULTS], covers=["reply"], trials=300, secs=1)
def reply(cx):
    text, rgb = palette(cx, cx.layer)
    a = Asked(cx, {query(cx.layer): text})
    cx.patch(sys, "stdin", cx.env(a.stdin))
    o = cx.outcome(core_mod.get_default_color, cx.layer, stream=cx.env(a.s))
    cx.ensure("asking does not fail", o.ok)
    if not o.ok:
        return
    c = o.value
    cx.cover("reply")
    cx.ensure("the colour asked for is asked for once, before its answer is read", a.asked == [query(cx.layer)] and not a.early)
    cx.ensure("a default colour is the one the terminal names", cx.eq(channels(cx, c), rgb))
    cx.ensure("nothing else is sent", a.sent() == query(cx.layer))


@contract("palette.other", cases=[dict(layer=x, given=i) for x in DEFAULTS for i in range(-1, len(OTHERS))], covers=["default"], trials=60, secs=1)
def other(cx):
    a = Asked(cx, {query(cx.layer): no_reply(cx, "reply") if cx.given < 0 else OTHERS[cx.given]})
    cx.patch(sys, "stdin", cx.env(a.stdin))
    o = cx.outcome(core_mod.get_default_color, cx.layer, stream=cx.env(a.s))
    cx.ensure("asking does not fail", o.ok)
    if not o.ok:
        return
    c = o.value
    cx.cover("default")
    cx.ensure("an answer that names no colour gives the default", cx.eq(channels(cx, c), DEFAULTS[cx.layer]))


@contract("palette.notty", cases=[dict(layer=x) for x in DEFAULTS], covers=["default"], trials=40)
def notty(cx):
    a = Asked(cx, {query(cx.layer): "unused"}, stdin=False)
    cx.patch(sys, "stdin", cx.env(a.stdin))
    o = cx.outcome(core_mod.get_default_color, cx.layer, stream=cx.env(a.s))
    cx.ensure("asking does not fail", o.ok)
    if not o.ok:
        return
    c = o.value
    cx.cover("default")
    cx.ensure("without a terminal the default colour is given", cx.eq(channels(cx, c), DEFAULTS[cx.layer]))
    cx.ensure("without a terminal nothing is sent", not a.s.out)


@contract("terminal.colors", covers=["done"], trials=200, secs=1)
def terminal_colors(cx):
    """A terminal asks for its colours once, without echo, and keeps the answers."""
    fg, f = palette(cx, "10", "f")
    bg, b = palette(cx, "11", "b")
    a = Asked(cx, {query("10"): fg, query("11"): bg})
    o = cx.run(a.terminal)
    cx.ensure("asking does not fail", o.ok)
    if not o.ok:
        return
    t = o.value
    for _ in range(2):
        cx.ensure("the terminal's colours are those it names", land(cx.eq(channels(cx, cx.get(t, "foreground_color")), f), cx.eq(channels(cx, cx.get(t, "background_color")), b)))
    cx.cover("done")
    cx.ensure("each colour is asked for once, before its answer is read", sorted(a.asked) == [query("10"), query("11")] and not a.early)
    cx.ensure("answers are not echoed", a.echoed == 0 and a.echo)


SIZE = "\x1b[14t"


@contract("resolution", cases=[dict(kind=k) for k in ("reply", "other", "silent", "notty")], covers=["reply", "other", "silent", "notty"], trials=100, secs=1)
def resolution(cx):
    fall = (cx.int("fallback width", 0, 10000), cx.int("fallback height", 0, 10000))
    w, h = cx.int("width", 0, 100000), cx.int("height", 0, 100000)
    ans = {"reply": lambda: cx.concat("\x1b[4;", dec(cx, h), ";", dec(cx, w), "t"), "silent": lambda: None,
           "other": lambda: cx.choice("other", OTHERS), "notty": lambda: None}[cx.kind]()
    a = Asked(cx, {SIZE: ans}, tty=cx.kind != "notty", stdin=False)
    t = a.terminal(resolution_fallback=fall)
    before = len(a.s.out)
    o = cx.run(lambda: cx.get(t, "resolution"))
    cx.ensure("asking does not fail", o.ok)
    if not o.ok:
        return
    got = o.value
    cx.cover(cx.kind)
    cx.ensure("the resolution is what the terminal reports, or the fallback", cx.eq(got, (w, h) if cx.kind == "reply" else fall))
    if cx.kind == "notty":
        cx.ensure("a stream that is no terminal is not asked", len(a.s.out) == before)
    else:
        cx.ensure("the resolution is asked for once, before its answer is read", a.asked == [SIZE] and not a.early)


SYNC = "\x1b[?2026$p"
MODES = {"\x1b[?2026;1$y": True, "\x1b[?2026;2$y": True, "\x1b[?2026;0$y": False, "\x1b[?2026;4$y": False, "\x1b[?2027;1$y": False, None: False, "\x1b[?2026;1": False, "2": False}


@contract("synchronized", cases=[dict(mode=i) for i in range(len(MODES) + len(OTHERS))], covers=["answer"], trials=40)
def synchronized(cx):
    ans, want = list(MODES.items())[cx.mode] if cx.mode < len(MODES) else (OTHERS[cx.mode - len(MODES)], False)
    a = Asked(cx, {SYNC: ans}, stdin=False)
    t = a.terminal()
    for _ in range(2):
        o = cx.run(lambda: cx.get(t, "supports_synchronized_update"))
        cx.ensure("synchronised updates are supported if the terminal knows the mode", o.ok and cx.eq(o.value, want))
    cx.cover("answer")
    cx.ensure("support is asked for once, before its answer is read", a.asked == [SYNC] and not a.early)


@contract("synchronized.any", cases=[dict(kind=k) for k in ("value", "mode", "text")], covers=["answer"], trials=200)
def synchronized_any(cx):
    """An answer with any other value, for any other mode, or of any other text is no support."""
    if cx.kind == "value":
        ans = cx.concat("\x1b[?2026;", dec(cx, cx.int("value", 4)), "$y")
    elif cx.kind == "mode":
        m = cx.int("mode", 0)
        cx.require(cmp("!=", m, 2026))
        ans = cx.concat("\x1b[?", dec(cx, m), cx.choice("set", [";1$y", ";2$y"]))
    else:
        ans = no_reply(cx, "answer")
    a = Asked(cx, {SYNC: ans}, stdin=False)
    t = a.terminal()
    o = cx.run(lambda: cx.get(t, "supports_synchronized_update"))
    cx.cover("answer")
    cx.ensure("synchronised updates are supported only if the terminal knows the mode", o.ok and cx.eq(o.value, False))


class Closed(Stream):
    def isatty(self):
        self.cx.throw(ValueError, "I/O operation on closed file")


@contract("isatty", cases=[dict(kind=k) for k in ("yes", "no", "closed")], covers=["answer"], trials=40)
def isatty(cx):
    color_contracts(cx)
    s = Closed(cx) if cx.kind == "closed" else Stream(cx, cx.kind == "yes")
    t = make_terminal(cx, s, (4, 3))
    cx.cover("answer")
    o = cx.run(lambda: cx.get(t, "isatty"))
    cx.ensure("a terminal is one exactly if its stream is one and is open", o.ok and cx.eq(o.value, cx.kind == "yes"))
