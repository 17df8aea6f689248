"""C18: terminal modes are restored however a block ends."""

import os
import re
import signal
import sys

from .common import *  # noqa: F401,F403
from .ttys import Tty, as_bytes, install as install_input

from .streams import Boom, Fatal, RAISES, Stream


def echo_shell(cx, state):
    """stty, by its effect on the echo flag."""

    def system(cmd):
        hit = state["armed"] and state["ops"] == state["fault"]
        state["ops"] += 1
        if hit and not state["after"]:
            state["fired"] = True
            cx.throw(state["etype"])
        words = cmd.split() if isinstance(cmd, str) else None
        if words is None or words[:1] != ["stty"]:
            raise Unsupported("a shell command other than stty")
        for w in words[1:]:
            if w in ("echo", "-echo"):
                state["echo"] = w == "echo"
        if hit:
            state["fired"] = True
            cx.throw(state["etype"])
        return 0

    cx.replace(os.system, system)


class YesTty(NoTty):
    def isatty(self):
        return True


BLOCKS = {
    "alt_buffer": ({}, {"1049": False, "25": True}, {"1049": True, "25": False}),
    "alt_buffer.cursor": ({"hide_cursor": False}, {"1049": False}, {"1049": True}),
    "report_mouse": ({}, {"1006": False, "1002": False, "1003": False}, {"1006": True, "1002": True, "1003": True}),
    "batch": ({}, {"2026": False}, {"2026": True}),
}


def run_block(cx, t, name, body):
    cm = cx.method(t, name.split(".")[0], **BLOCKS[name][0]) if name in BLOCKS else cx.method(t, name)
    return cx.with_block(cm, body)


def ends(cx):
    """How the block ends: normally, or by an exception of its body."""
    return cx.choice("end", [None] + [k for k in RAISES if k != "stop"])


@contract("blocks", cases=[{"b": b} for b in BLOCKS], covers=["normal", "raised"], trials=300)
def blocks(cx):
    color_contracts(cx)
    s = Stream(cx)
    t = make_terminal(cx, s, (2, 1))
    end = ends(cx)
    inside = {}

    def body():
        inside.update(s.modes())
        if end is not None:
            cx.throw(RAISES[end])
        return 7

    before = s.modes()
    o = cx.run(lambda: run_block(cx, t, cx.b, body))
    _, off, on = BLOCKS[cx.b]
    cx.cover("normal" if end is None else "raised")
    cx.ensure("the mode is set within the block", all(inside.get(k) == v for k, v in on.items()))
    m = s.modes()
    cx.ensure("the mode is undone when the block ends", all(m.get(k) == v for k, v in off.items()))
    cx.ensure("no other mode is changed", all(m.get(k) == before.get(k, off.get(k)) for k in m))
    cx.ensure("what undoes the mode has been flushed", s.flushed == len(s.out))
    cx.ensure("an exception of the block propagates, and nothing else is raised", o.exc is (RAISES[end] if end else None))


@contract("blocks.faults", cases=[{"b": b} for b in BLOCKS], covers=["fault", "none"], trials=600)
def blocks_faults(cx):
    """A stream operation fails on entry or within the block."""
    color_contracts(cx)
    s = Stream(cx)
    t = make_terminal(cx, s, (2, 1))
    s.ops = 0
    s.fault = cx.choice("op", range(8))
    s.after = cx.choice("after", [False, True])
    s.etype = RAISES[cx.choice("etype", ["os", "interrupt", "value"])]

    def body():
        cx.method(t, "write_control", "\x1b[5n")
        cx.method(t, "bell")
        s.armed = False

    o = cx.run(lambda: run_block(cx, t, cx.b, body))
    _, off, _on = BLOCKS[cx.b]
    if not s.fired:
        cx.cover("none")
        cx.require(s.fault is not None)
    else:
        cx.cover("fault")
        cx.ensure("a failing write within the block propagates", o.exc is s.etype)
    m = s.modes()
    cx.ensure("the mode is undone when the block ends", all(m.get(k) == v for k, v in off.items()))


@contract("no_echo", covers=["normal", "raised", "fault"], trials=600)
def no_echo(cx):
    color_contracts(cx)
    s = Stream(cx)
    t = make_terminal(cx, s, (2, 1))
    cx.patch(sys, "stdin", cx.env(YesTty()))
    st = {"echo": True, "ops": 0, "fault": cx.choice("op", [None, 0]), "after": cx.choice("after", [False, True]), "etype": OSError, "armed": True, "fired": False}
    echo_shell(cx, st)
    end = ends(cx)
    inside = []

    def body():
        st["armed"] = False
        inside.append(st["echo"])
        if end is not None:
            cx.throw(RAISES[end])

    o = cx.run(lambda: cx.with_block(cx.method(t, "no_echo"), body))
    cx.cover("fault" if st["fired"] else "normal" if end is None else "raised")
    cx.ensure("echo is on again when the block ends", st["echo"] is True)
    if st["fired"]:
        cx.ensure("a failing call on entry propagates", o.exc is OSError)
    else:
        cx.ensure("echo is off within the block", inside == [False])
        cx.ensure("an exception of the block propagates, and nothing else is raised", o.exc is (RAISES[end] if end else None))


@contract("nested", cases=[{"a": a, "b": b} for a in ("alt_buffer", "report_mouse", "batch") for b in ("alt_buffer", "report_mouse", "batch") if a != b], covers=["done"], trials=100)
def nested(cx):
    color_contracts(cx)
    s = Stream(cx)
    t = make_terminal(cx, s, (2, 1))
    end = ends(cx)
    seen = []

    def inner():
        if end is not None:
            cx.throw(RAISES[end])

    def outer():
        r = cx.run(lambda: run_block(cx, t, cx.b, inner))
        seen.append(s.modes())
        if not r.ok:
            cx.throw(r.exc)

    o = cx.run(lambda: run_block(cx, t, cx.a, outer))
    cx.cover("done")
    cx.ensure("leaving the inner block keeps the outer mode", all(seen[0].get(k) == v for k, v in BLOCKS[cx.a][2].items()))
    cx.ensure("leaving the inner block undoes its mode", all(seen[0].get(k) == v for k, v in BLOCKS[cx.b][1].items()))
    m = s.modes()
    for b in (cx.a, cx.b):
        cx.ensure("both modes are undone when the blocks end", all(m.get(k) == v for k, v in BLOCKS[b][1].items()))
    cx.ensure("an exception of the block propagates, and nothing else is raised", o.exc is (RAISES[end] if end else None))


# ------------------------------------------------------------------ switches


@contract("switches", covers=["done"], trials=100)
def switches(cx):
    color_contracts(cx)
    s = Stream(cx)
    t = make_terminal(cx, s, (2, 1))
    on = cx.choice("on", [True, False])
    cx.cover("done")
    args = (on,) if not on or cx.choice("given", [True, False]) else ()
    cx.method(t, "show_cursor", *args)
    cx.ensure("the cursor is shown or hidden as asked", s.modes() == {"25": on})
    cx.method(t, "set_report_mouse", *args)
    m = s.modes()
    cx.ensure("mouse reporting is switched as asked", all(m.get(k) is on for k in ("1006", "1002", "1003")) and m["25"] is on)


# ------------------------------------------------------------------ reading


class Faulty:
    """System calls on the input terminal; call number `fault` fails, before or after its effect."""

    def __init__(self, cx, t, fault, after, etype):
        self.cx, self.t = cx, t
        self.fault, self.after, self.etype = fault, after, etype
        self.n = 0
        self.fired = None

    def wrap(self, name, f):
        def g(*a, **k):
            hit = self.n == self.fault
            self.n += 1
            if hit and not self.after:
                self.fired = name
                self.cx.throw(self.etype)
            r = f(*a, **k)
            if hit:
                self.fired = name
                self.cx.throw(self.etype)
            return r

        return g


def install_faulty(cx, t, fault, after, etype):
    fl = Faulty(cx, t, fault, after, etype)
    return install_input(cx, t, fl.wrap), fl


@contract("getch.faults", covers=["fault", "clean"], trials=1500)
def getch_faults(cx):
    """Any system call of a read fails: the attributes found before are in effect afterwards."""
    color_contracts(cx)
    n = cx.choice("n", [1, 2, 3])
    t = Tty(cx, [as_bytes(cx, ["k"] * n, [1] * n)])
    start = cx.choice("mode", ["cooked", "raw", "cbreak"])
    t.mode = start
    fault = cx.choice("call", [None] + list(range(9)))
    after = cx.choice("after", [False, True])
    etype = RAISES[cx.choice("etype", ["os", "interrupt", "value", "base"])]
    env, fl = install_faulty(cx, t, fault, after, etype)
    o = cx.outcome(core_mod.getch, stream=env)
    cx.cover("fault" if fl.fired else "clean")
    cx.ensure("the terminal attributes found before a read are in effect after it", t.mode == start)
    if not fl.fired:
        cx.ensure("a read without faults succeeds", o.ok)
    elif etype is KeyboardInterrupt:
        cx.ensure("an interrupted read gives ctrl-c", o.ok and cx.check(cx.method(o.value, "__eq__", "ctrl-c")))
    else:
        cx.ensure("a failing system call propagates", o.exc is etype)


# ------------------------------------------------------------------ timed reads


class Alarms:
    """The process's alarm handler and timer."""

    def __init__(self, cx, fault, after, etype):
        self.cx = cx
        self.old = cx.env(Handler())
        self.handler = self.old
        self.timer = 0
        self.was = None
        self.fault, self.after, self.etype = fault, after, etype
        self.n = 0
        self.fired = False

    def guard(self, f):
        hit = self.n == self.fault
        self.n += 1
        if hit and not self.after:
            self.fired = True
            self.cx.throw(self.etype)
        r = f()
        if hit:
            self.fired = True
            self.cx.throw(self.etype)
        return r


class Handler:
    """The handler the program had installed."""

    def __call__(self, *a):
        return None


def install_alarms(cx, al):
    def set_(sig, h):
        def f():
            old, al.handler = al.handler, h
            return old

        # restoring must not fail: only installing the new handler may
        return al.guard(f) if h is not al.old else f()

    def setitimer(which, seconds, interval=0.0):
        def f():
            al.timer = seconds
            return (0.0, 0.0)

        if isinstance(seconds, (int, float)) and seconds == 0:
            return f()
        return al.guard(f)

    def alarm(n):
        al.timer = n
        return 0

    cx.replace(signal.getsignal, lambda sig: al.handler)
    cx.replace(signal.signal, set_)
    cx.replace(signal.setitimer, setitimer)
    cx.replace(signal.alarm, alarm)


def fire(cx, al):
    """The timer runs out."""
    h = al.handler
    if al.old is h:
        return
    cx.call(h, 14, None)


@contract("timeout", covers=["normal", "raised", "timed out", "fault"], trials=800)
def timeout_(cx):
    color_contracts(cx)
    al = Alarms(cx, cx.choice("call", [None, 0, 1]), cx.choice("after", [False, True]), RAISES[cx.choice("etype", ["os", "interrupt", "value"])])
    install_alarms(cx, al)
    end = cx.choice("end", [None, "alarm", "error", "interrupt", "base", "timeout", "value"])
    seen = []
    d = cx.choice("duration", [0.05, 2.5])

    def body():
        seen.append((al.handler is not al.old, al.timer))
        if end == "alarm":
            fire(cx, al)
        elif end is not None:
            cx.throw(RAISES[end])

    o = cx.run(lambda: cx.with_block(cx.call(core_mod.timeout, d), body))
    cx.cover("fault" if al.fired else "timed out" if end == "alarm" else "normal" if end is None else "raised")
    cx.ensure("the previous alarm handler is installed again", al.handler is al.old)
    cx.ensure("the timer is cancelled", al.timer == 0)
    if al.fired:
        cx.ensure("a failing system call propagates", o.exc is al.etype)
    else:
        cx.ensure("the block runs under its own handler and timer", seen == [(True, d)])
        if end in (None, "alarm"):
            cx.ensure("running out of time ends the block quietly", o.ok)
        else:
            cx.ensure("an exception of the block propagates", o.exc is RAISES[end])


@contract("getch_timeout", covers=["key", "timed out", "raised"], trials=800)
def getch_timeout(cx):
    color_contracts(cx)
    al = Alarms(cx, None, False, OSError)
    what = cx.choice("what", ["key", "alarm", "error"])
    t = Tty(cx, [as_bytes(cx, ["k"], [1])])

    def wrap(name, f):
        def read(fd, n):
            if what == "alarm":
                fire(cx, al)
            if what == "error":
                cx.throw(OSError)
            return f(fd, n)

        return read if name == "read" else f

    env = install_input(cx, t, wrap)
    install_alarms(cx, al)
    o = cx.outcome(core_mod.getch_timeout, 0.05, default="dflt", stream=env)
    cx.cover({"key": "key", "alarm": "timed out", "error": "raised"}[what])
    cx.ensure("the previous alarm handler is installed again", al.handler is al.old)
    cx.ensure("the timer is cancelled", al.timer == 0)
    cx.ensure("the terminal attributes found before a read are in effect after it", t.mode == "cooked")
    if what == "key":
        cx.ensure("a timed read returns the key", o.ok and cx.check(cx.method(o.value, "__eq__", "k")))
    elif what == "alarm":
        cx.ensure("a timed read returns the default when the time is up", o.ok and cx.check(cx.eq(o.value, "dflt")))
    else:
        cx.ensure("a failing system call propagates", o.exc is OSError)
