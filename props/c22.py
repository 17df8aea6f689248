"""C22: the terminal object in front of its screen and stream."""

import builtins
import io
import itertools
import sys

from .common import *  # noqa: F401,F403
from .streams import Stream


class Touched:
    """Files and other streams the code touches."""

    def __init__(self, cx):
        self.cx = cx
        self.log = []
        if not cx.symbolic:
            import os

            real = os.open

            def open_(*a, **k):
                self.log.append(("open", a))
                return io.StringIO()

            cx.patch(builtins, "open", open_)
            cx.patch(io, "open", open_)

            def os_open(*a, **k):
                self.log.append(("os.open", a))
                return real("/dev/null", os.O_RDWR)

            cx.patch(os, "open", os_open)
            self.out, self.err = io.StringIO(), io.StringIO()
            cx.patch(sys, "stdout", self.out)
            cx.patch(sys, "stderr", self.err)

    def ok(self):
        if self.cx.symbolic:
            return True
        return not self.log and not self.out.getvalue() and not self.err.getvalue()


def piece(cx, name, n):
    """What is written: plain text, styled text, or spans."""
    kind = cx.choice(name + ".kind", ["text", "styled", "spans", "two"])
    text = chars_text(cx, name, n)
    if kind == "text":
        return text, [cx.call(Span, text)] if n else []
    if kind == "styled":
        s = cx.call(Span, text, bold=True, foreground=cx.call(Color, (200, 30, 40)))
        return cx.concat("\x1b[1;38;2;200;30;40m", text, "\x1b[0m"), [s] if n else []
    if kind == "spans":
        return "spans", [cx.call(Span, text, italic=True, background=cx.call(Color, (10, 20, 30), is_background=True, alpha=0.5))]
    return "spans", [cx.call(Span, text), cx.call(Span, text, underline=True)]


def given(cx, data, spans):
    return cx.list(spans) if isinstance(data, str) and data == "spans" else data


class Twin:
    """A terminal and a screen that is given the same things directly."""

    def __init__(self, cx, w, h):
        color_contracts(cx)
        stub_true_color(cx)
        self.cx = cx
        self.s = Stream(cx)
        self.sizes = Sizes((w, h))
        self.origin = (1, 1) if cx.symbolic else cx.choice("origin", [(1, 1), (0, 0), (3, 7)])
        self.t = make_terminal(cx, self.s, self.sizes, **({} if cx.symbolic and self.origin == (1, 1) else {"origin": self.origin}))
        if cx.symbolic or cx.choice("background", [False, True]):
            cx.set(self.t, "background_color", cx.call(Color, (12, 200, 77) if cx.symbolic else tuple(cx.int(f"bg.{c}", 0, 255) for c in "rgb")))
        self.touched = Touched(cx)
        self.ref = cx.call(Screen, w, h)
        self.bg = cx.method(cx.get(self.t, "background_color"), "as_background")
        self.told = []
        cx.method(cx.get(self.t, "on_resize"), "append", cx.callback(lambda size: self.told.append(size) or False))
        self.n = 0

    def out(self):
        d = self.cx.concat("", *self.s.out)
        self.s.out.clear()
        return d

    def step(self, op):
        cx, t, ref = self.cx, self.t, self.ref
        self.n += 1
        n = f"{self.n}."
        if op in ("w", "f"):
            data, spans = piece(cx, n, cx.choice(n + "len", [1, 2] if cx.symbolic else [0, 1, 2, 5, 9]))
            at = cx.choice(n + "at", [None, (1, 0)] if cx.symbolic else [None, (0, 0), (1, 1), (2, 0), (9, 9), (-1, 0)])
            force = op == "f"
            got = cx.outcome(Terminal.write, t, given(cx, data, spans), cursor=at, force_overwrite=force)
            want = cx.outcome(Screen.write, ref, cx.list(spans), cursor=at, force_overwrite=force, terminal_background=self.bg)
            cx.ensure("writing to the terminal is writing to its screen", got.exc is want.exc and (not got.ok or cx.check(cx.eq(got.value, want.value))))
        elif op == "b":
            ps = [piece(cx, f"{n}{i}", 1 if cx.symbolic else cx.choice(f"{n}{i}len", [0, 1, 3, 6])) for i in range(2)]
            at = [(0, 0), (1, 0)] if cx.symbolic else [cx.choice(f"{n}{i}at", [(0, 0), (1, 1), (2, 0), (1, 0)]) for i in range(2)]
            force = {"force_overwrite": True} if (cx.ops[-1] == "b" and len(cx.ops) == 1 if cx.symbolic else cx.choice(n + "force", [False, True])) else {}
            got = cx.outcome(Terminal.write_bulk, t, cx.list([(at[i], given(cx, *ps[i])) for i in range(2)]), **force)
            want = cx.outcome(Screen.write_bulk, ref, cx.list([(at[i], cx.list(ps[i][1])) for i in range(2)]), terminal_background=self.bg, **force)
            cx.ensure("a bulk write to the terminal is a bulk write to its screen", got.exc is want.exc and (not got.ok or cx.check(cx.eq(got.value, want.value))))
        elif op == "c":
            fill = cx.choice(n + "fill", [(), (".",)])
            cx.method(t, "clear", *fill)
            cx.method(ref, "clear", *(fill or (" ",)))
        elif op == "k":
            at = cx.choice(n + "cur", [(0, 0), (1, 0)])
            cx.set(t, "cursor", at)
            cx.set(ref, "cursor", at)
        elif op == "z":
            new = cx.choice(n + "size", [(2, 1), (3, 2), (2, 2)] if cx.symbolic else [(2, 1), (3, 2), (5, 3), (4, 1)])
            old = self.sizes.size
            self.sizes.size = new
            self.told.clear()
            how = cx.choice(n + "how", ["size", "width", "height"])
            for _ in range(2):
                v = cx.get(t, how)
                cx.ensure("the reported size is the terminal's", cx.eq(v, new if how == "size" else new[how == "height"]))
            if new != old:
                cx.method(ref, "resize", new)
            cx.ensure("listeners are told of a new size exactly once", [tuple(x) for x in self.told] == ([new] if new != old else []))
        elif op in ("d", "D"):
            self.draw(op == "D")
        cx.ensure("the terminal's cursor is its screen's", cx.eq(cx.get(t, "cursor"), cx.get(ref, "cursor")))
        if op not in ("d", "D"):
            cx.ensure("only drawing writes to the stream", self.s.out == [])

    def draw(self, redraw):
        cx = self.cx
        cx.method(self.t, "draw", redraw=redraw)
        want = cx.method(self.ref, "render", origin=self.origin, redraw=redraw)
        cx.ensure("drawing is flushed", self.s.flushed == len(self.s.out))
        cx.ensure("drawing writes the screen's rendering at the terminal's origin", cx.eq(self.out(), want))

    def finish(self):
        self.draw(False)
        self.draw(True)
        self.cx.ensure("no file or other stream is touched", self.touched.ok())


HIST = [{"ops": h} for k in (1, 2) for h in itertools.product("wfbckzdD", repeat=k)]


@contract("history", bound="screens of 2x1 to 3x2 cells, histories of up to 2 operations before two draws, texts of 1-2 arbitrary characters", cases=HIST, covers=["done"], trials=15, budget=100)
def history(cx):
    h = Twin(cx, 2, 1)
    for op in cx.ops:
        h.step(op)
    h.finish()
    cx.cover("done")


@contract("history.long", symbolic=False, trials=4000, secs=8)
def long(cx):
    h = Twin(cx, *cx.choice("start", [(1, 1), (2, 1), (3, 2), (7, 4)]))
    for i in range(cx.choice("n", range(1, 13))):
        h.step(cx.choice(f"op{i}", "wwwfbckzzdD"))
    h.finish()


# ------------------------------------------------------------------ size


@contract("size", bound="histories of up to 4 queries, arbitrary sizes", cases=[{"n": n} for n in (1, 2, 3, 4)], covers=["done"], trials=500)
def size(cx):
    """Arbitrary sizes, the screen's resize by its contract (C04)."""
    color_contracts(cx)
    first = (cx.int("w0", 1, 9), cx.int("h0", 1, 9)) if not cx.symbolic else (2, 1)
    sizes = Sizes(first)
    s = Stream(cx)
    t = make_terminal(cx, s, sizes)
    told, resized = [], []
    screens = []
    if cx.symbolic:
        def resize(ip, args, kw):
            resized.append(args[1] if len(args) > 1 else kw["size"])
            screens.append((args[0], args[2:], {k: v for k, v in kw.items() if k != "size"}))

        cx.stub(Screen.resize, resize, "Screen.resize: see C04")
    cx.method(cx.get(t, "on_resize"), "append", cx.callback(lambda size: told.append(size) or False))
    prev = first
    for i in range(cx.n):
        new = (cx.int(f"w{i + 1}", 1, None if cx.symbolic else 9), cx.int(f"h{i + 1}", 1, None if cx.symbolic else 9))
        sizes.size = new
        told.clear()
        resized.clear()
        how = cx.choice(f"how{i}", ["size", "width", "height"] if i < 2 else ["size"])
        v = cx.get(t, how)
        cx.ensure("the reported size is the terminal's", cx.eq(tuple(v) if how == "size" else v, new if how == "size" else new[how == "height"]))
        if cx.check(land(cx.eq(new[0], prev[0]), cx.eq(new[1], prev[1]))):
            cx.ensure("listeners are not told of an unchanged size", not told)
            cx.ensure("an unchanged size does not resize the screen", not resized)
        else:
            cx.ensure("listeners are told of a new size exactly once", len(told) == 1 and cx.check(land([cx.eq(a, b) for a, b in zip(told[0], new)])))
            if cx.symbolic:
                cx.ensure("the screen is resized to the new size, keeping its content", len(resized) == 1 and cx.check(land([cx.eq(a, b) for a, b in zip(resized[0], new)])) and all(x[2].get("keep_original", True) is True and len(x[1]) < 2 for x in screens))
        prev = new
    cx.cover("done")


@contract("control", covers=["done"])
def control(cx):
    """Control sequences go to the stream as they are."""
    color_contracts(cx)
    s = Stream(cx)
    t = make_terminal(cx, s, (2, 1))
    touched = Touched(cx)
    text = cx.text("seq")
    cx.method(t, "write_control", text)
    cx.cover("done")
    cx.ensure("a control sequence is written as it is", cx.eq(cx.concat("", *s.out), text))
    cx.ensure("a control sequence is flushed", s.flushed == len(s.out))
    cx.ensure("no file or other stream is touched", touched.ok())


@contract("bell", covers=["done"], trials=1)
def bell(cx):
    color_contracts(cx)
    s = Stream(cx)
    t = make_terminal(cx, s, (2, 1))
    touched = Touched(cx)
    cx.method(t, "bell")
    cx.cover("done")
    cx.ensure("the bell rings once", cx.eq(cx.concat("", *s.out), "\a"))
    cx.ensure("the bell is heard at once", s.flushed == len(s.out))
    cx.ensure("no file or other stream is touched", touched.ok())


@contract("isolated", covers=["done"], trials=300)
def isolated(cx):
    """Two terminals do not share anything."""
    color_contracts(cx)
    stub_true_color(cx)
    a, b = Stream(cx), Stream(cx)
    t = make_terminal(cx, a, (2, 1))
    u = make_terminal(cx, b, (2, 1))
    cx.method(u, "draw")
    b.out.clear()
    x = chars_text(cx, "x", 2)
    cx.method(t, "write", cx.list([cx.call(Span, x)]))
    cx.method(t, "draw")
    cx.cover("done")
    cx.ensure("a terminal writes to its own stream only", b.out == [] and len(a.out) > 0)
    cx.ensure("a terminal keeps its own cursor", cx.eq(cx.get(u, "cursor"), (0, 0)))
    cx.method(u, "draw")
    d = cx.concat("", *b.out)
    cx.ensure("a terminal keeps its own screen", isinstance(d, str) and "H" not in d)
