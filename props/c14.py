"""C14: parsing styled text."""

import itertools

from .common import *  # noqa: F401,F403
from .palette import PALETTE

STYLES = [f for f in FLAGS]
UNSET = {"22": ["bold", "dim"], "23": ["italic"], "24": ["underline"], "25": ["blink", "fast_blink"], "26": ["fast_blink"], "27": ["invert"], "28": ["conceal"], "29": ["strike"]}
SET = {SGR[f]: f for f in FLAGS}


def fresh():
    return dict({f: False for f in STYLES}, foreground=None, background=None)


def effect(state, code):
    """The style state after a code: a code is an SGR code, or ("fg"/"bg", text, channels, alpha)."""
    st = dict(state)
    if isinstance(code, tuple):
        st["foreground" if code[0] == "fg" else "background"] = (code[2], code[3])
    elif code in ("", "0"):
        st = fresh()
    elif code in SET:
        st[SET[code]] = True
    elif code in UNSET:
        for f in UNSET[code]:
            st[f] = False
    elif code == "39":
        st["foreground"] = None
    elif code == "49":
        st["background"] = None
    else:
        raise KeyError(code)
    return st


def code_text(code):
    return code[1] if isinstance(code, tuple) else code


STD = [("fg", str(30 + i), PALETTE[i], 1.0) for i in range(8)] + [("fg", str(90 + i), PALETTE[8 + i], 1.0) for i in range(8)]
STD += [("bg", str(40 + i), PALETTE[i], 1.0) for i in range(8)] + [("bg", str(100 + i), PALETTE[8 + i], 1.0) for i in range(8)]
PLAIN = list(SET) + list(UNSET) + ["39", "49", "0", ""]


def true_color(cx, name, layer, alpha=""):
    t = rgb(cx, name)
    lead = "38;2;" if layer == "fg" else "48;2;"
    return (layer, cx.concat(lead, cx.dec(t[0]), ";", cx.dec(t[1]), ";", cx.dec(t[2]), alpha), t, float(alpha[1:]) if alpha else 1.0)


def palette_color(n, layer, alpha=""):
    return (layer, f"{38 if layer == 'fg' else 48};5;{n}{alpha}", PALETTE[n], float(alpha[1:]) if alpha else 1.0)


def some_code(cx, name):
    """One code of any kind."""
    kind = cx.choice(name + ".kind", ["plain", "std", "true", "palette"])
    if kind == "plain":
        return cx.choice(name + ".code", PLAIN)
    if kind == "std":
        return cx.choice(name + ".code", STD)
    layer = cx.choice(name + ".layer", ["fg", "bg"])
    if kind == "true":
        return true_color(cx, name, layer, cx.choice(name + ".alpha", ["", ";0.5"]))
    return palette_color(cx.choice(name + ".n", [0, 1, 38, 200, 255] if cx.symbolic else range(256)), layer, cx.choice(name + ".alpha", ["", ";0.25"]))


def has_color(cx, c, want, layer):
    if want is None:
        return c is None
    if c is None:
        return False
    t = cx.get(c, "rgb")
    return land([cx.eq(t[i], want[0][i]) for i in range(3)] + [cx.eq(cx.get(c, "alpha"), want[1]), iff(cx.get(c, "is_background"), layer == "background")])


def span_is(cx, s, text, st):
    return land([cx.eq(cx.get(s, "text"), text)]
                + [iff(cx.check(cx.get(s, f)), st[f]) for f in STYLES]
                + [has_color(cx, cx.get(s, l), st[l], l) for l in ("foreground", "background")]
                + [cx.eq(cx.get(s, "hyperlink"), ""), cx.check(cx.get(s, "reset_after"))])


def expected(cx, elements):
    """[(text, state)] for a sequence of texts and code lists."""
    st, out = fresh(), []
    joined = False
    for e in elements:
        if isinstance(e, list):
            for c in e or [""]:
                st = effect(st, c)
            joined = False
        elif cx.check(lnot(cx.eq(e, ""))):
            if joined:
                out[-1] = (cx.concat(out[-1][0], e), out[-1][1])
            else:
                out.append((e, st))
            joined = True
    return out


def render(cx, elements):
    return cx.concat("", *[cx.concat("\x1b[", *[x for i, c in enumerate(e) for x in ([";"] if i else []) + [code_text(c)]], "m") if isinstance(e, list) else e for e in elements])


def spans_of(cx, line):
    return cx.run(lambda: cx.items(cx.call(list, cx.call(Span.yield_from, line))))


def parses(cx, elements):
    line = render(cx, elements)
    o = spans_of(cx, line)
    cx.ensure("styled text is accepted", o.ok)
    want = expected(cx, elements)
    cx.ensure("there is one span for each plain text between sequences", len(o.value) == len(want))
    for s, (text, st) in zip(o.value, want):
        cx.ensure("a span has the text and exactly the styles and colours in effect", span_is(cx, s, text, st))
    return want


def setup(cx):
    color_contracts(cx)
    stub_true_color(cx)
    stub_sequences(cx)


@contract("single", covers=["done"], trials=6000)
def single(cx):
    """text, one code, text."""
    setup(cx)
    c = some_code(cx, "c")
    parses(cx, [cx.text("a", excl="\x1b"), [c], cx.text("b", excl="\x1b")])
    cx.cover("done")


REPS = ["1", "9", "99", "22", "25", "29", "39", "49", "0", "", STD[1], STD[18]]


@contract("pairs", bound="two codes of all style codes and sample colours, with texts before, between and after; texts arbitrary", cases=[{"c": c} for c in PLAIN + [STD[3], STD[12], STD[20], STD[28]]], covers=["done"], trials=600)
def pairs(cx):
    """Every code after every representative one, in one sequence or two."""
    setup(cx)
    d = cx.choice("d", REPS + ["2", "6", "24"])
    if cx.choice("together", [True, False]):
        parses(cx, ["", [d, cx.c], cx.text("b", excl="\x1b")])
    else:
        parses(cx, ["", [d], cx.text("m", excl="\x1b"), [cx.c], cx.text("b", excl="\x1b")])
    cx.cover("done")


@contract("colors", bound="two colour codes of any channels, with a style code before, between or after", cases=[{"k": k, "kinds": t, "at": a} for k in itertools.product(["fg", "bg"], repeat=2) for t in ("tp", "pt", "tt") for a in (0, 1, 2)], covers=["done"], trials=100)
def colors(cx):
    setup(cx)
    codes = []
    for i, l in enumerate(cx.k):
        codes.append(true_color(cx, f"c{i}", l, cx.choice(f"a{i}", ["", ";0.5"]) if cx.kinds != "tt" else [";0.5", ""][i]) if cx.kinds[i] == "t" else palette_color([38, 5][i], l))
    codes.insert(cx.at, cx.choice("style", ["1", "0", "39"]))
    parses(cx, [codes, cx.text("b", excl="\x1b", minlen=1)])
    cx.cover("done")


@contract("step", bound="one code after sequences setting all, none or all other styles", cases=[{"c": c, "pre": p} for c in PLAIN + ["fg", "bg", STD[0], STD[30]] for p in ("all", "none", "others")], covers=["done"], trials=100)
def step(cx):
    """A code changes exactly what it names, whatever is set before it."""
    setup(cx)
    hit = UNSET.get(cx.c, [SET.get(cx.c)]) if isinstance(cx.c, str) else []
    pre = [SGR[f] for f in FLAGS if cx.pre == "all" or (cx.pre == "others" and f not in hit)]
    if cx.choice("fg?", [False, True]):
        pre.append(palette_color(200, "fg"))
    if cx.choice("bg?", [False, True]):
        pre.append(palette_color(17, "bg", ";0.5"))
    c = true_color(cx, "n", cx.c) if cx.c in ("fg", "bg") else cx.c
    parses(cx, [pre or ["0"], [c], cx.text("b", excl="\x1b", minlen=1)])
    cx.cover("done")


@contract("history.long", symbolic=False, trials=30000, secs=6)
def long(cx):
    stub_true_color(cx)
    els = []
    for i in range(cx.choice("n", range(1, 9))):
        if cx.choice(f"e{i}", [True, False]):
            els.append([some_code(cx, f"{i}.{j}") for j in range(cx.choice(f"k{i}", [0, 1, 1, 2, 3, 4]))])
        else:
            els.append(cx.text(f"t{i}", excl="\x1b"))
    parses(cx, els)


# ------------------------------------------------------------------ round trip


def flat(cx, spans):
    """One (character, attributes) item per character."""
    out = []
    for s in spans:
        a = tuple(bool(cx.get(s, f)) for f in STYLES) + tuple(None if cx.get(s, l) is None else tuple(cx.get(s, l).rgb) for l in ("foreground", "background"))
        out += [(c, a) for c in s.text]
    return out


@contract("roundtrip.long", symbolic=False, trials=20000, secs=6)
def roundtrip_long(cx):
    stub_true_color(cx)
    spans = []
    for i in range(cx.choice("n", range(1, 6))):
        fl = {f: cx.bool(f"{i}.{f}") and cx.choice(f"{i}.{f}!", [True, False]) for f in FLAGS}
        fg = make_color(cx, f"{i}.fg", background=False) if cx.choice(f"{i}.fg?", [False, True]) else None
        bg = make_color(cx, f"{i}.bg", background=True) if cx.choice(f"{i}.bg?", [False, True]) else None
        if fg is not None and cx.choice(f"{i}.p", [False, True]):
            fg = Color.from_ansi(cx.choice(f"{i}.code", ["38;5;38", "38;5;7", "31", "97", "38;2;5;0;38"]))
        spans.append(Span(cx.text(f"{i}.t", excl="\x1b"), foreground=fg, background=bg, **fl))
    o = spans_of(cx, "".join(str(s) for s in spans))
    cx.ensure("rendered spans are accepted", o.ok)
    cx.ensure("rendering spans and parsing the result gives back the same texts, styles and colours", flat(cx, o.value) == flat(cx, spans))


@contract("roundtrip", bound="two spans; texts, colours and most styles arbitrary", cases=[{"f": f, "k": k} for f in FLAGS for k in ("", "f", "b")] + [{"f": "bold", "k": "fb"}], covers=["done"], trials=400)
def roundtrip(cx):
    color_contracts(cx)
    stub_true_color(cx)
    fl = {f: cx.choice(f, [False, True]) if f == cx.f or (f == "strike" and cx.k == "") else False for f in FLAGS}
    a = cx.text("a", excl="\x1b", minlen=1)
    b = cx.text("b", excl="\x1b", minlen=1)
    fg = make_color(cx, "fg", background=False) if "f" in cx.k else None
    bg = make_color(cx, "bg", background=True) if "b" in cx.k else None
    s, t = cx.call(Span, a, foreground=fg, background=bg, **fl), cx.call(Span, b)
    o = spans_of(cx, cx.concat(cx.method(s, "__str__"), cx.method(t, "__str__")))
    cx.ensure("rendered spans are accepted", o.ok)
    st = dict(fresh(), **fl)
    st["foreground"] = None if fg is None else (cx.get(fg, "rgb"), 1.0)
    st["background"] = None if bg is None else (cx.get(bg, "rgb"), 1.0)
    if st == fresh():
        want = [(cx.concat(a, b), fresh())]
    else:
        want = [(a, st), (b, fresh())]
    cx.cover("done")
    cx.ensure("rendering spans and parsing the result gives back the same number of runs", len(o.value) == len(want))
    for x, (text, w) in zip(o.value, want):
        cx.ensure("rendering spans and parsing the result gives back the same texts, styles and colours", span_is(cx, x, text, w))


# ------------------------------------------------------------------ rejection, first

UNKNOWN = ["10", "11", "20", "21", "50", "51", "53", "55", "58", "73", "89", "98", "108", "150", "x", "1x", "-1", " 1", "bold", "1:2", "999"]


@contract("unknown", covers=["done"], trials=2000)
def unknown(cx):
    setup(cx)
    u = cx.choice("u", UNKNOWN)
    pre = cx.choice("pre", ["", "1;", "0;", "31;", "38;5;7;"])
    post = cx.choice("post", ["", ";1", ";0"])
    o = spans_of(cx, cx.concat(cx.text("a", excl="\x1b"), f"\x1b[{pre}{u}{post}m", cx.text("b", excl="\x1b")))
    cx.cover("done")
    cx.ensure("an unknown code is rejected with ValueError", o.exc is ValueError)


@contract("unknown.number", covers=["done"], trials=2000)
def unknown_number(cx):
    setup(cx)
    n = cx.int("n", 110)
    o = spans_of(cx, cx.concat("\x1b[", cx.dec(n), "m", cx.text("b", excl="\x1b")))
    cx.cover("done")
    cx.ensure("an unknown code is rejected with ValueError", o.exc is ValueError)


@contract("first", covers=["done"], trials=2000)
def first(cx):
    setup(cx)
    a, b = cx.text("a", excl="\x1b"), cx.text("b", excl="\x1b")
    els = [a, [cx.choice("c", ["1", "0", "49", STD[2]])], b]
    o = cx.outcome(Span.first_from, render(cx, els))
    want = expected(cx, els)
    cx.cover("done")
    cx.ensure("styled text is accepted", o.ok)
    if want:
        cx.ensure("the first span is the first of all spans", o.value is not None and cx.check(span_is(cx, o.value, *want[0])))
    else:
        cx.ensure("a text without plain text has no first span", o.value is None)
