"""Input terminals and their system calls."""

import codecs
import io
import os
import select as select_mod
import termios
import tty

from .common import *  # noqa: F401,F403


class Tty:
    """A terminal with queued chunks of input; the bytes of a chunk become available at once.
    Symbolically a byte is a text: the characters it completes."""

    def __init__(self, cx, chunks, isatty=True, encoding="utf-8"):
        self.cx, self.encoding, self._tty = cx, encoding, isatty
        self.chunks = [list(c) for c in chunks]
        self.mode = "cooked"
        self.log = []
        self.modes = []  # the mode at each read
        self.interrupt_at = None
        self.reads = 0

    def isatty(self):
        return self._tty

    def fileno(self):
        return 7


def as_bytes(cx, chars, widths, encoding="utf-8"):
    """The bytes of some characters: real bytes natively; symbolically one item per byte."""
    out = []
    for c, w in zip(chars, widths):
        if cx.symbolic:
            out += [""] * (w - 1) + [c]
        else:
            out += [bytes([b]) for b in c.encode(encoding)]
    return out


class Decoder:
    """Symbolically the decoder of the terminal's encoding; any other gives something else."""

    def __init__(self, right):
        self.right = right

    def decode(self, item, final=False):
        return item if self.right else "\ufffd"


def install(cx, t, wrap=lambda name, f: f):
    """The system calls, on the terminal `t`."""
    env = cx.env(t)

    def read(fd, n):
        t.log.append("read")
        t.modes.append(t.mode)
        if t.interrupt_at is not None and t.reads >= t.interrupt_at:
            cx.throw(KeyboardInterrupt)
        t.reads += 1
        while t.chunks and not t.chunks[0]:
            t.chunks.pop(0)
        if not t.chunks:
            cx.throw(EOFError, "read would block")
        return t.chunks[0].pop(0)

    def select(r, w, x, timeout=None):
        ready = bool(t.chunks and t.chunks[0])
        if cx.symbolic:
            return (cx.list([env] if ready else []), cx.list([]), cx.list([]))
        return ([env] if ready else [], [], [])

    cx.replace(os.read, wrap("read", read))
    cx.replace(select_mod.select, wrap("select", select))

    def tcgetattr(fd):
        t.log.append("get")
        return t.mode

    def change(what, mode, when):
        """Changing the mode with TCSAFLUSH discards the input that is available."""
        t.log.append(what)
        t.mode = mode
        if when == termios.TCSAFLUSH and t.chunks:
            t.chunks[0][:] = []

    def tcsetattr(fd, when, attrs):
        change("set", attrs, when)

    def setcbreak(fd, when=termios.TCSAFLUSH):
        change("cbreak", "cbreak", when)

    def setraw(fd, when=termios.TCSAFLUSH):
        change("raw", "raw", when)

    cx.replace(termios.tcgetattr, wrap("tcgetattr", tcgetattr))
    cx.replace(termios.tcsetattr, tcsetattr)
    cx.replace(tty.setcbreak, wrap("setcbreak", setcbreak))
    cx.replace(tty.setraw, wrap("setraw", setraw))
    if cx.symbolic:
        right, wrong = cx.env(Decoder(True)), cx.env(Decoder(False))

        def decoder(enc):
            d = right if codecs.lookup(enc).name == codecs.lookup(t.encoding).name else wrong
            return cx.callback(lambda *a: d)

        cx.replace(codecs.getincrementaldecoder, decoder)
    else:
        for v in vars(core_mod).values():
            if isinstance(v, io.StringIO):
                v.seek(0)
                v.truncate(0)
    return env
