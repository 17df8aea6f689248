"""Output streams that keep the modes of their terminal."""

import re

from .common import *  # noqa: F401,F403

RE_MODE = re.compile(r"\x1b\[\?([0-9;]+)([hl])")


class Boom(Exception):
    """An exception of the program."""


class Fatal(BaseException):
    """An exception that is not an Exception."""


RAISES = {"error": Boom, "interrupt": KeyboardInterrupt, "exit": SystemExit, "base": Fatal, "os": OSError, "value": ValueError, "stop": StopIteration, "timeout": TimeoutError}
# contextlib turns a StopIteration raised in the block of a generator-based manager into itself; kept out of symbolic runs


class Stream:
    """A stream to a terminal that keeps its modes; the operation number `fault` fails, before or
    after having its effect."""

    encoding = "utf-8"
    closed = False

    def __init__(self, cx, isatty=True):
        self.cx = cx
        self.ops = 0
        self.fault = None
        self.after = False
        self.etype = OSError
        self.armed = True
        self.fired = False
        self.tty = isatty
        self.out = []
        self.flushed = 0

    def isatty(self):
        return self.tty

    def fileno(self):
        return 8

    def step(self, effect):
        hit = self.armed and self.ops == self.fault
        self.ops += 1
        if hit and not self.after:
            self.fired = True
            self.cx.throw(self.etype)
        effect()
        if hit:
            self.fired = True
            self.cx.throw(self.etype)

    def write(self, text):
        self.step(lambda: self.out.append(text))
        return self.cx.len(text)

    def writelines(self, lines):
        for t in self.cx.items(lines):
            self.write(t)

    def writable(self):
        return True

    def flush(self):
        self.step(lambda: setattr(self, "flushed", len(self.out)))

    def modes(self):
        """The private modes in effect after everything written: {number: on}."""
        m = {}
        for t in self.out:
            if not isinstance(t, str):
                raise Unsupported("control output of unknown text")
            for nums, hl in RE_MODE.findall(t):
                for n in nums.split(";"):
                    m[n] = hl == "h"
        return m
