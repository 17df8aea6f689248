"""C12: deriving spans."""

from .anyscreen import limits
from .common import *  # noqa: F401,F403


def any_span(cx):
    color_contracts(cx)
    stub_ansi(cx)
    stub_sequences(cx)
    text = cx.text("text")
    fg = opt_color(cx, "fg")
    bg = opt_color(cx, "bg", True)
    link = cx.text("link")
    return make_span(cx, "s", text, fg=fg, bg=bg, hyperlink=link)


def same_attr(cx, a, b):
    if a is None or b is None:
        return a is b
    if cx.isinstance(a, Color) is True:
        if not cx.isinstance(b, Color):
            return False
        return land(cx.eq(cx.get(a, "rgb"), cx.get(b, "rgb")), cx.eq(cx.get(a, "alpha"), cx.get(b, "alpha")), iff(cx.get(a, "is_background"), cx.get(b, "is_background")))
    return cx.eq(a, b)


def check_span(cx, s, want, what, skip=()):
    for k in ATTRS:
        if k not in skip:
            cx.ensure(f"{what}: {k}", same_attr(cx, cx.get(s, k), want[k]))


@contract("span.construct", covers=["done"])
def construct(cx):
    s, want = any_span(cx)
    cx.cover("done")
    check_span(cx, s, want, "a span has the attributes it was given")
    d = cx.dict_items(cx.get(s, "attrs"))
    for k in ATTRS:
        if k != "reset_after":
            cx.ensure("the attribute record names every attribute", k in d and cx.check(same_attr(cx, d[k], want[k])))
    o = cx.outcome(Span)
    cx.ensure("a span needs a text", not o.ok)


@contract("span.mutate", cases=[{"attr": a} for a in ATTRS], covers=["done"])
def mutate(cx):
    s, want = any_span(cx)
    a = cx.attr
    if a == "text" or a == "hyperlink":
        v = cx.text("new")
    elif a in ("foreground", "background"):
        v = opt_color(cx, "new", a == "background")
    else:
        v = cx.bool("new")
    r = cx.method(s, "mutate", **{a: v})
    cx.cover("done")
    check_span(cx, r, dict(want, **{a: v}), "mutate changes what it is told and keeps the rest")
    check_span(cx, s, want, "mutate leaves the original alone")


@contract("span.mutate2", covers=["done"])
def mutate2(cx):
    s, want = any_span(cx)
    new = {"text": cx.text("new"), "bold": cx.bool("nb"), "strike": cx.bool("ns"), "foreground": opt_color(cx, "nf")}
    r = cx.method(s, "mutate", **new)
    cx.cover("done")
    check_span(cx, r, dict(want, **new), "mutate changes what it is told and keeps the rest")
    r0 = cx.method(s, "mutate")
    check_span(cx, r0, want, "mutate without options is a copy")
    o = cx.outcome(Span.mutate, s, no_such_attribute=True)
    cx.ensure("an unknown option is refused", o.exc is TypeError)


AS = ["bold", "dim", "italic", "underline", "blink", "fast_blink", "invert", "conceal", "strike"]


@contract("span.as_style", cases=[{"attr": a} for a in AS], covers=["done"])
def as_style(cx):
    s, want = any_span(cx)
    a = cx.attr
    if cx.choice("given", [True, False]):
        v = cx.bool("value")
        r = cx.method(s, "as_" + a, v)
    else:
        v = True
        r = cx.method(s, "as_" + a)
    cx.cover("done")
    check_span(cx, r, dict(want, **{a: v}), f"as_{a} sets {a} and keeps the rest")
    check_span(cx, s, want, f"as_{a} leaves the original alone")


@contract("span.as_hyperlink", covers=["done"])
def as_hyperlink(cx):
    s, want = any_span(cx)
    v = cx.text("new")
    r = cx.method(s, "as_hyperlink", v)
    cx.cover("done")
    check_span(cx, r, dict(want, hyperlink=v), "as_hyperlink sets the link and keeps the rest")
    r = cx.method(s, "as_hyperlink")
    check_span(cx, r, dict(want, hyperlink=""), "as_hyperlink without a link removes it")


@contract("span.as_color", covers=["fore", "back"])
def as_color(cx):
    s, want = any_span(cx)
    c = make_color(cx, "new")
    r = cx.method(s, "as_color", c)
    if cx.check(cx.get(c, "is_background")):
        cx.cover("back")
        check_span(cx, r, dict(want, background=c), "a background colour goes to the background and keeps the rest")
    else:
        cx.cover("fore")
        check_span(cx, r, dict(want, foreground=c), "a foreground colour goes to the foreground and keeps the rest")
    check_span(cx, s, want, "as_color leaves the original alone")


@contract("span.as_color.described", covers=["done"])
def as_color_desc(cx):
    s, want = any_span(cx)
    d = cx.choice("desc", ["#102030", "31", "41", "38;5;141", "48;5;200", "48;2;1;2;3", "tomato", (1, 2, 3), "92", "104"])
    c = color_mod.color(d)
    r = cx.method(s, "as_color", d)
    cx.cover("done")
    key = "background" if c.is_background else "foreground"
    got = cx.get(r, key)
    cx.ensure("a described colour is the colour of that description", cx.eq(cx.get(got, "rgb"), tuple(c.rgb)))
    check_span(cx, r, want, "as_color keeps the rest", skip=(key,))


@contract("span.slice", bound="texts of up to 5 characters, each arbitrary; listed bounds and steps", cases=[{"n": k} for k in range(6)], covers=["done"])
def slicing(cx):
    color_contracts(cx)
    stub_ansi(cx)
    stub_sequences(cx)
    cs = [cx.text(f"c{i}", unit=True) for i in range(cx.n)]
    text = cx.concat(*cs) if cs else ""
    s, want = make_span(cx, "s", text, fg=make_color(cx, "fg"), hyperlink="http://x")
    a = cx.choice("a", [None, -7, -2, 0, 1, 3])
    b = cx.choice("b", [None, -1, 0, 2, 9])
    st = cx.choice("st", [None, 2, -1])
    r = cx.method(s, "__getitem__", cx.slice(a, b, st))
    cx.cover("done")
    part = cs[a:b:st]
    check_span(cx, r, dict(want, text=cx.concat(*part) if part else ""), "a slice of a span is the slice of its text with every attribute kept")


@contract("span.index", bound="texts of up to 5 characters, each arbitrary; listed bounds and steps", cases=[{"n": k} for k in range(5)], covers=["done"])
def indexing(cx):
    color_contracts(cx)
    stub_ansi(cx)
    stub_sequences(cx)
    cs = [cx.text(f"c{i}", unit=True) for i in range(cx.n)]
    s, want = make_span(cx, "s", cx.concat(*cs) if cs else "", bg=opt_color(cx, "bg", True))
    i = cx.choice("i", list(range(-6, 6)))
    o = cx.outcome(Span.__getitem__, s, i)
    cx.cover("done")
    cx.ensure("an index is valid exactly within the text", o.ok == (-cx.n <= i < cx.n))
    if o.ok:
        check_span(cx, o.value, dict(want, text=cs[i]), "a character of a span keeps every attribute")
    else:
        cx.ensure("an index outside the text is an IndexError", o.exc is IndexError)


# ------------------------------------------------------------------ texts of any length


def some_text(cx, name):
    """A text of any length; natively often a long one."""
    if cx.symbolic:
        return cx.text(name)
    n = cx.int(name + ".n", 0, 5000)
    if not cx._given(name + ".n"):
        n = cx.drawn[name + ".n"] = cx.rng.choice([0, 1, 2, 5, 40, cx.rng.choice(limits(cx, 5, 3000))])
    return "".join(chr(97 + (7 * i + i // 26 + len(name)) % 26) for i in range(n))


def long_span(cx, text):
    color_contracts(cx)
    stub_ansi(cx)
    stub_sequences(cx)
    return make_span(cx, "s", text, fg=make_color(cx, "fg"), hyperlink="http://x")


@contract("span.slice.any", cases=[dict(a=a, b=b) for a in ("none", "in", "back", "under") for b in ("none", "in", "back", "over")] + [dict(a="in", b="before")], covers=["done"], trials=100, secs=0.5)
def slice_any(cx):
    """The part between any two positions of a text of any length, counted from either end."""
    before = "" if cx.a in ("none", "under") else some_text(cx, "before")
    mid = some_text(cx, "mid")
    after = "" if cx.b in ("none", "over") else some_text(cx, "after")
    text = cx.concat(before, mid, after)
    n, m, k = cx.len(text), cx.len(mid), cx.len(after)
    start = cx.len(before)
    if cx.a == "none":
        a = None
    elif cx.a == "in":
        a = start
    elif cx.a == "back":
        a = start - n
        cx.require(cmp("<", a, 0))
    else:
        a = -1 - n - cx.int("far", 0)
    if cx.b == "none":
        b = None
    elif cx.b == "in":
        b = start + m
    elif cx.b == "back":
        b = 0 - k
        cx.require(cmp("<", b, 0))
    elif cx.b == "over":
        b = n + 1 + cx.int("beyond", 0)
    else:
        b = cx.int("b", 0)
        cx.require(cmp("<=", b, start))
        mid = ""
    s, want = long_span(cx, text)
    r = cx.method(s, "__getitem__", cx.slice(a, b))
    cx.cover("done")
    check_span(cx, r, dict(want, text=mid), "a slice of a span is the slice of its text with every attribute kept")


@contract("span.index.any", cases=[dict(i=i) for i in ("in", "back", "over", "under")], covers=["done"], trials=200, secs=0.5)
def index_any(cx):
    before, after = some_text(cx, "before"), some_text(cx, "after")
    c = cx.text("c", unit=True)
    text = cx.concat(before, c, after)
    n = cx.len(text)
    i = {"in": cx.len(before), "back": cx.len(before) - n}.get(cx.i)
    if i is None:
        i = n + cx.int("beyond", 0) if cx.i == "over" else -1 - n - cx.int("beyond", 0)
    s, want = long_span(cx, text)
    o = cx.outcome(Span.__getitem__, s, i)
    cx.cover("done")
    if cx.i in ("in", "back"):
        cx.ensure("an index is valid within the text", o.ok)
        if o.ok:
            check_span(cx, o.value, dict(want, text=c), "a character of a span keeps every attribute")
    else:
        cx.ensure("an index outside the text is an IndexError", o.exc is IndexError)


@contract("span.split.long", symbolic=False, covers=["done"], bound="random texts of up to thousands of parts", trials=300, secs=1)
def split_long(cx):
    sep = cx.choice("sep", [None, " ", ",", "x", "--"])
    ch = " " if sep is None else sep
    k = cx.int("parts", 1, 4000)
    if not cx._given("parts"):
        k = cx.drawn["parts"] = cx.rng.choice([1, 2, 8, 20, cx.rng.choice(limits(cx, 5, 3000))])
    odd = cx.choice("odd", [1, 2, 3])
    parts = ["ab"[: i % 3] * (i % odd + 1) for i in range(k)]
    s, want = make_span(cx, "s", ch.join(parts), fg=make_color(cx, "fg"), bg=make_color(cx, "bg", True), hyperlink="http://x")
    r = cx.items(cx.method(s, "split") if sep is None else cx.method(s, "split", sep))
    cx.cover("done")
    cx.ensure("split gives one span per part", len(r) == k)
    for x, p in zip(r, parts):
        check_span(cx, x, dict(want, text=p), "each part keeps every attribute")


@contract("span.split", bound="up to 4 parts, each an arbitrary text", cases=[{"n": k} for k in range(4)], covers=["done"])
def splitting(cx):
    color_contracts(cx)
    stub_ansi(cx)
    stub_sequences(cx)
    sep = cx.choice("sep", [None, " ", ",", "x"])
    ch = " " if sep is None else sep
    parts = [cx.text(f"p{i}", excl=set(ch)) for i in range(cx.n + 1)]
    text = parts[0]
    for p in parts[1:]:
        text = cx.concat(text, ch, p)
    s, want = make_span(cx, "s", text, fg=make_color(cx, "fg"), bg=make_color(cx, "bg", True), hyperlink="http://x")
    r = cx.items(cx.method(s, "split") if sep is None else cx.method(s, "split", sep))
    cx.cover("done")
    cx.ensure("split gives one span per part", len(r) == cx.n + 1)
    for x, p in zip(r, parts):
        check_span(cx, x, dict(want, text=p), "each part keeps every attribute")


@contract("span.immutable", cases=[{"attr": a} for a in ATTRS], covers=["done"])
def immutable(cx):
    s, want = any_span(cx)
    o = cx.run(lambda: cx.set(s, cx.attr, "x"))
    cx.cover("done")
    cx.ensure("assigning to an attribute of a span is refused", not o.ok)
    check_span(cx, s, want, "a refused assignment changes nothing")


@contract("span.contains.len", covers=["done"])
def contains(cx):
    s, want = any_span(cx)
    cx.cover("done")
    cx.ensure("the length of a span is the length of its text", cx.eq(cx.method(s, "__len__"), cx.len(want["text"])))
    cx.ensure("a span contains its own text", cx.check(cx.method(s, "__contains__", want["text"])))
    cx.ensure("a span contains the empty text", cx.check(cx.method(s, "__contains__", "")))


@contract("span.contains.parts", covers=["done"])
def contains_parts(cx):
    color_contracts(cx)
    stub_ansi(cx)
    stub_sequences(cx)
    a, b, c = cx.text("a"), cx.text("b"), cx.text("c")
    s, want = make_span(cx, "s", cx.concat(a, b, c), flags={})
    cx.cover("done")
    for p in (a, b, c):
        cx.ensure("a span contains every part of its text", cx.check(cx.method(s, "__contains__", p)))
