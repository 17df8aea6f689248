"""C17: keyboard input."""

import io

from .common import *  # noqa: F401,F403
from .keys import KEYS
from .ttys import Tty, as_bytes, install


def raw(cx, env):
    k = cx.call(core_mod.getch, stream=env, raw=True)
    return k


def value(cx, k):
    return cx.method(k, "__str__")


def names(cx, k):
    return cx.items(cx.get(k, "possible_values"))


@contract("getch.chunk", bound="chunks of up to 4 characters, each arbitrary", cases=[{"n": n} for n in range(1, 5)], covers=["read"], trials=2000)
def chunk(cx):
    cs = [cx.text(f"c{i}", unit=True) for i in range(cx.n)]
    w = [cx.choice(f"w{i}", [1, 2, 3]) for i in range(cx.n)] if cx.n < 4 else [1, 3, 2, 1]
    t = Tty(cx, [as_bytes(cx, cs, w), as_bytes(cx, ["z"], [1])])
    env = install(cx, t)
    k = raw(cx, env)
    cx.cover("read")
    cx.ensure("a read returns all available input in order", cx.eq(value(cx, k), cx.concat(*cs)))
    cx.ensure("the terminal is back in its mode after a read", t.mode == "cooked")
    cx.ensure("the terminal delivers input as it is typed while it is read", all(m in ("cbreak", "raw") for m in t.modes))
    k = raw(cx, env)
    cx.ensure("the next read returns what came after", cx.eq(value(cx, k), "z"))


ENCODINGS = {"latin-1": "aé\x1bÿß", "cp1252": "a€é“", "iso8859-15": "a€é", "koi8-r": "aжя", "shift_jis": "aあｱ表", "gb18030": "a中é€😀", "utf-16-le": "aé中😀", "UTF-8": "aé中😀", "ascii": "a~\x1b"}


@contract("getch.encoding", bound="reads of up to 3 characters, in nine encodings", cases=[{"enc": e, "n": n} for e in ENCODINGS for n in (1, 3)], covers=["read"], trials=40)
def encoding(cx):
    cs = [cx.choice(f"c{i}", list(ENCODINGS[cx.enc])) for i in range(cx.n)] if not cx.symbolic else [cx.text(f"s{i}", unit=True) for i in range(cx.n)]
    t = Tty(cx, [as_bytes(cx, cs, [1, 2, 1], cx.enc)], encoding=cx.enc)
    env = install(cx, t)
    k = raw(cx, env)
    cx.cover("read")
    cx.ensure("input is decoded from the stream's encoding", cx.eq(value(cx, k), cx.concat(*cs)))


def history(cx):
    """Feeds and reads in any order: fed text first, exactly once, then the terminal's input."""
    t = Tty(cx, [as_bytes(cx, [cx.text(f"in{i}", unit=True)], [1]) for i in range(6)])
    ins = [x for c in t.chunks for x in c]
    if not cx.symbolic:
        ins = [b"".join(c).decode("utf-8") for c in t.chunks]
    env = install(cx, t)
    pending, nin = "", 0
    for i, op in enumerate(cx.ops):
        if op == "f":
            text = cx.text(f"t{i}", minlen=1)
            cx.call(core_mod.feed, text)
            pending = cx.concat(pending, text)
        elif op == "e":
            cx.call(core_mod.feed, "")
        else:
            n = t.reads
            k = raw(cx, env)
            got = value(cx, k)
            if cx.check(lnot(cx.eq(pending, ""))):
                cx.ensure("a read returns the fed text in the order fed", cx.eq(got, pending))
                cx.ensure("fed text is returned before terminal input", t.reads == n)
                pending = ""
            else:
                cx.ensure("without fed text a read returns the terminal's input", cx.eq(got, ins[nin]))
                nin += 1
    cx.cover("done")


import itertools

HIST = [{"ops": list(h) + ["r", "r"]} for k in range(1, 4) for h in itertools.product("fre", repeat=k)]
contract("getch.feed", bound="histories of up to 5 feeds and reads, with arbitrary texts", cases=HIST, covers=["done"], trials=150)(history)


@contract("getch.feed.step", covers=["step"], native=lambda cx: cx.ensure("(proof only)", True), trials=1)
def feed_step(cx):
    """The induction behind it: feeding twice leaves the state of feeding the concatenation, and
    reading leaves the initial state."""
    bufs = [v for v in vars(core_mod).values() if isinstance(v, io.StringIO)]
    if len(bufs) != 1:
        raise Unsupported("fed text is not kept in one text buffer")
    buf = cx.ip.wrap(bufs[0])
    t = Tty(cx, [])
    env = install(cx, t)
    init = (buf.text, buf.pos)
    a, b = cx.text("a", minlen=1), cx.text("b")
    cx.call(core_mod.feed, a)
    cx.call(core_mod.feed, b)
    two = (buf.text, buf.pos)
    buf.text, buf.pos = init
    cx.call(core_mod.feed, cx.concat(a, b))
    one = (buf.text, buf.pos)
    cx.cover("step")
    cx.ensure("feeding twice is feeding the concatenation", land(cx.eq(one[0], two[0]), cx.eq(one[1], two[1])))
    k = raw(cx, env)
    cx.ensure("a read returns the fed text", cx.eq(value(cx, k), cx.concat(a, b)))
    cx.ensure("reading fed text leaves nothing behind", land(cx.eq(buf.text, init[0]), cx.eq(buf.pos, init[1])))


@contract("getch.known", cases=[{"seq": s} for s in KEYS], covers=["named"], trials=3)
def known(cx):
    t = Tty(cx, [as_bytes(cx, list(cx.seq), [1] * len(cx.seq))])
    env = install(cx, t)
    k = cx.call(core_mod.getch, stream=env)
    cx.cover("named")
    for n in KEYS[cx.seq]:
        cx.ensure("a known key compares equal to each of its names", cx.check(cx.method(k, "__eq__", n)))
    other = cx.text("other")
    cx.require(land([lnot(cx.eq(other, n)) for n in KEYS[cx.seq]]))
    cx.ensure("a known key compares equal to nothing else", lnot(cx.check(cx.method(k, "__eq__", other))))
    cx.ensure("the string of a key is its first name", cx.eq(value(cx, k), KEYS[cx.seq][0]))


@contract("getch.fed.known", cases=[{"seq": s} for s in list(KEYS)[::4]], covers=["named"], trials=2)
def fed_known(cx):
    t = Tty(cx, [])
    env = install(cx, t)
    cx.call(core_mod.feed, cx.seq)
    k = cx.call(core_mod.getch, stream=env)
    cx.cover("named")
    cx.ensure("fed keys are named like typed ones", cx.eq(value(cx, k), KEYS[cx.seq][0]))


@contract("getch.unknown", covers=["same"])
def unknown(cx):
    t = Tty(cx, [])
    env = install(cx, t)
    text = cx.text("text", excl="\x1b<\t\r\x7f" + "".join(chr(i) for i in range(1, 32)), minlen=1)
    cx.require(land([lnot(cx.eq(text, s)) for s in KEYS]))
    cx.call(core_mod.feed, text)
    k = cx.call(core_mod.getch, stream=env)
    cx.cover("same")
    cx.ensure("unknown input is returned unchanged", cx.eq(value(cx, k), text))
    cx.ensure("unknown input has one name", len(names(cx, k)) == 1)
    other = cx.text("other")
    cx.ensure("unknown input compares equal to itself only", iff(cx.check(cx.method(k, "__eq__", other)), cx.check(cx.eq(other, text))))


@contract("getch.raw", cases=[{"seq": s} for s in list(KEYS)[::5] + ["\x1b[<0;3;4M"]], covers=["same"], trials=2)
def raw_known(cx):
    t = Tty(cx, [as_bytes(cx, list(cx.seq), [1] * len(cx.seq))])
    env = install(cx, t)
    k = raw(cx, env)
    cx.cover("same")
    cx.ensure("raw input is returned unchanged", [cx.check(cx.eq(x, cx.seq)) for x in names(cx, k)] == [True])


@contract("getch.mouse", cases=[{"ev": e, "name": n} for e, n in ((0, "left_click"), (2, "right_click"), (35, "hover"), (64, "scroll_up"), (36, "shift_left_drag"))], covers=["event"])
def mouse(cx):
    t = Tty(cx, [])
    env = install(cx, t)
    d = frozenset("0123456789")
    x, y = cx.text("x", alpha=d, minlen=1), cx.text("y", alpha=d, minlen=1)
    before = cx.choice("before", ["", "\x1b[<35;1;1M"])
    cx.call(core_mod.feed, cx.concat(before, f"\x1b[<{cx.ev};", x, ";", y, "M"))
    k = cx.call(core_mod.getch, stream=env)
    cx.cover("event")
    cx.ensure("a mouse report gives the mouse event", cx.eq(value(cx, k), cx.concat(f"mouse:{cx.name}@", x, ";", y)))
    other = cx.choice("other", ["report", "any"])
    other = cx.concat(f"\x1b[<{cx.ev};", x, ";", y, "M") if other == "report" else cx.text("o", pool=["", "mouse", "\x1b"])
    cx.require(lnot(cx.eq(other, cx.concat(f"mouse:{cx.name}@", x, ";", y))))
    cx.ensure("a mouse event compares equal to its name only", lnot(cx.check(cx.method(k, "__eq__", other))))


@contract("getch.interrupt", covers=["ctrl-c"], trials=20)
def interrupt(cx):
    at = cx.choice("at", [0, 1, 2])
    t = Tty(cx, [as_bytes(cx, list("abcd"), [1] * 4)])
    t.interrupt_at = at
    env = install(cx, t)
    k = cx.call(core_mod.getch, stream=env)
    cx.cover("ctrl-c")
    cx.ensure("an interrupt gives ctrl-c", cx.check(cx.method(k, "__eq__", "ctrl-c")))
    cx.ensure("the terminal is back in its mode after an interrupt", t.mode == "cooked")


@contract("getch.notty", covers=["empty"], trials=20)
def notty(cx):
    t = Tty(cx, [as_bytes(cx, ["a"], [1])], isatty=False)
    env = install(cx, t)
    k = cx.call(core_mod.getch, stream=env, raw=cx.choice("raw", [True, False]))
    cx.cover("empty")
    cx.ensure("a stream that is no terminal gives an empty key", cx.eq(value(cx, k), ""))
    cx.ensure("a stream that is no terminal is not read", t.log == [])


@contract("key.eq", covers=["done"])
def key_eq(cx):
    a, b = cx.text("a"), cx.text("b")
    k = cx.call(Key, (a, b))
    o = cx.text("o")
    cx.cover("done")
    cx.ensure("a key equals exactly its names", iff(cx.check(cx.method(k, "__eq__", o)), lor(cx.eq(o, a), cx.eq(o, b))))
    cx.ensure("a key does not equal other values", lnot(cx.check(cx.method(k, "__eq__", 3))))
    it = cx.items(cx.method(k, "__iter__")) if not cx.symbolic else None
    if it is not None:
        cx.ensure("iterating a key gives its names", it == [a, b])
