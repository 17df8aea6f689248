"""C13: rendering of spans."""

from .common import *  # noqa: F401,F403

CSI = "\x1b["
RESET = "\x1b[0m"


def head(cx, s, prefix):
    """Rest of a text after a literal prefix, or None."""
    t = tokens(cx, s)
    if t[: len(prefix)] != list(prefix):
        return None
    return t[len(prefix):]


def strip_prefix(cx, s, prefix):
    """The text after a known prefix (both may be symbolic)."""
    a, b = tokens(cx, s), tokens(cx, prefix)
    if len(a) < len(b):
        return None
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x is not y and x != y:
                return None
        elif not x.e.eq(y.e):
            return None
    return untok(a[len(b):])


def sgr(cx, s):
    """Split a leading style sequence off a text: (parameters, rest); no sequence: (None, s)."""
    t = tokens(cx, s)
    if t[:2] != ["\x1b", "["]:
        return None, s
    params, cur = [], []
    for i, x in enumerate(t[2:], 2):
        if isinstance(x, str) and x == "m":
            params.append(cur)
            return group_params(params), untok(t[i + 1:])
        if isinstance(x, str) and x == ";":
            params.append(cur)
            cur = []
        elif isinstance(x, str) and not (x.isdigit() or x == "."):
            return ["?"], s
        else:
            cur.append(x)
    return ["?"], s


def group_params(params):
    """Parameters with the arguments of 38/48 kept together."""
    out = []
    ps = ["".join(p) if all(isinstance(x, str) for x in p) else p[0] if len(p) == 1 else "?" for p in params]
    i = 0
    while i < len(ps):
        p = ps[i]
        if p in ("38", "48") and i + 1 < len(ps):
            n = 5 if ps[i + 1] == "2" else 3
            out.append(";".join(map(str, ps[i:i + n])))
            i += n
        else:
            out.append(p)
            i += 1
    return out


def same_params(cx, got, want):
    """Equal as multisets; colour codes are compared as texts."""
    if len(got) != len(want):
        return False
    got = list(got)
    for w in want:
        for k, g in enumerate(got):
            if isinstance(g, str) and isinstance(w, str):
                hit = g == w
            elif isinstance(g, str) or isinstance(w, str):
                hit = False
            else:
                hit = g.e.eq(w.e)
            if hit:
                got.pop(k)
                break
        else:
            return False
    return True


def code(cx, color):
    c = cx.get(color, "ansi")
    return c if isinstance(c, str) else c.parts[0]


def wanted(cx, want, colors=True):
    """The style parameters of a span."""
    out = []
    if colors:
        out += [code(cx, c) for c in (want["foreground"], want["background"]) if c is not None]
    for f in FLAGS:
        if cx.check(want[f]):
            out.append(SGR[f])
    return out


def any_color(cx, name, background, present):
    if not present:
        return None
    return make_color(cx, name, background=background)


LAYERS = [{"fg": a, "bg": b} for a in (False, True) for b in (False, True)]


SOME = ["bold", "dim", "strike", "opaque"]


@contract("span.string", cases=[dict(LAYERS[0], link=False, flags=FLAGS)] + [dict(l, link=k, flags=SOME if i % 2 else SOME[::-1][:3] + ["italic"]) for i, l in enumerate(LAYERS) for k in (False, True)], covers=["styled"], budget=100)
def string(cx):
    color_contracts(cx)
    stub_ansi(cx)
    text = cx.text("text", excl="\x1b")
    link = cx.text("url", excl="\x1b\n", minlen=1) if cx.link else ""
    s, want = make_span(cx, "s", text, fg=any_color(cx, "fg", False, cx.fg), bg=any_color(cx, "bg", True, cx.bg), hyperlink=link, flags={f: cx.bool("s." + f) for f in cx.flags})
    out = cx.method(s, "__str__")
    params = wanted(cx, want)
    if cx.link:
        o = strip_prefix(cx, out, cx.concat("\x1b]8;;", link, "\x1b\\"))
        cx.ensure("a linked span starts with its link", o is not None)
        if o is None:
            return
        end = list("\x1b]8;;\x1b\\")
        t = tokens(cx, o)
        cx.ensure("a linked span ends its link", t[-len(end):] == end)
        out = untok(t[: -len(end)])
    got, rest = sgr(cx, out)
    if params:
        cx.cover("styled")
        cx.ensure("the string names exactly the span's styles and colours", got is not None and same_params(cx, got, params))
        want_rest = cx.concat(text, RESET) if cx.check(want["reset_after"]) else text
    else:
        cx.ensure("a span without styles is just its text", got is None)
        want_rest = text
    cx.ensure("the styles are followed by the text, reset exactly when resetting is on", cx.eq(rest, want_rest))


@contract("span.length", covers=["done"])
def length(cx):
    color_contracts(cx)
    stub_ansi(cx)
    stub_sequences(cx)
    text = cx.text("text", excl="\x1b")
    s, want = make_span(cx, "s", text, fg=opt_color(cx, "fg"), bg=opt_color(cx, "bg", True), hyperlink=cx.text("link", excl="\x1b"))
    cx.cover("done")
    cx.ensure("the length of a span is the number of its characters", cx.eq(cx.method(s, "__len__"), cx.len(text)))
    cx.ensure("the visual width of a span is the number of its characters", cx.eq(cx.call(core_mod.width, s), cx.len(text)))


@contract("width.rendered", cases=LAYERS, covers=["done"], budget=100)
def width_rendered(cx):
    color_contracts(cx)
    stub_ansi(cx)
    text = cx.text("text", excl="\x1b")
    link = cx.text("url", excl="\x1b\n") if cx.fg else ""
    fl = {f: cx.bool("s." + f) for f in ("bold", "underline", "opaque", "strike")}
    s, want = make_span(cx, "s", text, flags=fl, fg=any_color(cx, "fg", False, cx.fg), bg=any_color(cx, "bg", True, cx.bg), hyperlink=link)
    out = cx.method(s, "__str__")
    cx.cover("done")
    cx.ensure("the visual width of a rendered span is the number of its characters", cx.eq(cx.call(core_mod.width, out), cx.len(text)))
    two = cx.concat(text, out, out)
    cx.ensure("visual widths add up", cx.eq(cx.call(core_mod.width, two), 3 * cx.len(text)))
    cx.ensure("plain text is as wide as it is long", cx.eq(cx.call(core_mod.width, text), cx.len(text)))


def characters(cx):
    color_contracts(cx)
    stub_ansi(cx)
    cs = [cx.text(f"c{i}", excl="\x1b", unit=True) for i in range(cx.n)]
    text = cx.concat(*cs) if cs else ""
    fl = {f: cx.bool("s." + f) for f in cx.flags}
    s, want = make_span(cx, "s", text, flags=fl, fg=any_color(cx, "fg", False, cx.fg), bg=any_color(cx, "bg", True, cx.bg))
    exclude, always = (True, True) if cx.n == 1 and cx.flags is FLAGS else (cx.choice("exclude", [False, True]), cx.choice("always", [False, True]))
    out = cx.items(cx.method(s, "get_characters", exclude_color=exclude, always_include_sequence=always))
    cx.cover("done")
    cx.ensure("one item per character", len(out) == cx.n)
    params = wanted(cx, want, colors=not exclude)
    for i, (o, c) in enumerate(zip(out, cs)):
        got, rest = sgr(cx, o)
        if params and (always or i == 0):
            cx.ensure("the character carries exactly the span's styles", got is not None and same_params(cx, got, params))
        else:
            cx.ensure("the character carries no style", got is None)
        last = i == cx.n - 1
        if params and last and cx.check(want["reset_after"]):
            cx.ensure("the last character is reset", cx.eq(rest, cx.concat(c, RESET)))
        else:
            cx.ensure("an item is its character", cx.eq(rest, c))
    again = cx.items(cx.method(s, "get_characters", exclude_color=exclude, always_include_sequence=always))
    cx.ensure("asking again gives the same characters", len(again) == cx.n and cx.check(land([cx.eq(a, b) for a, b in zip(out, again)]) if out else True))


contract("span.characters", bound="texts of up to 4 characters, each arbitrary", cases=[dict(l, n=n, flags=["bold", "invert", "opaque"]) for l in LAYERS for n in range(5)], covers=["done"])(characters)
contract("span.characters.styles", bound="texts of one character, arbitrary", cases=[dict(fg=True, bg=False, n=1, flags=FLAGS)], covers=["done"], budget=100)(characters)


# ------------------------------------------------------------------ texts of any length

from .anyscreen import Hint  # noqa: E402


def characters_long(cx):
    """The same on a long text."""
    n = cx.int("how many before", 0, 300) + 1 + (cx.int("how many after", 1, 300) if not cx.last else 0)
    fl = {f: cx.bool("s." + f) for f in ("bold", "strike")}
    cs = [chr(97 + (i * 7 + i // 26) % 26) for i in range(n)]
    s, want = make_span(cx, "s", "".join(cs), flags=fl, fg=any_color(cx, "fg", False, cx.fg))
    params = wanted(cx, want, colors=not cx.exclude)
    out = list(cx.method(s, "get_characters", exclude_color=cx.exclude, always_include_sequence=cx.always))
    cx.ensure("one item per character", len(out) == n)
    for i, (o, c) in enumerate(zip(out, cs)):
        check_item(cx, o, c, params, cx.always or i == 0, i == n - 1, want)


def check_item(cx, o, c, params, styled, last, want):
    got, rest = sgr(cx, o)
    if params and styled:
        cx.ensure("the character carries exactly the span's styles", got is not None and same_params(cx, got, params))
    else:
        cx.ensure("the character carries no style", got is None)
    if params and last and cx.check(want["reset_after"]):
        cx.ensure("the last character is reset", cx.eq(rest, cx.concat(c, RESET)))
    else:
        cx.ensure("an item is its character", cx.eq(rest, c))


@contract("span.characters.any", covers=["done"], native=characters_long, trials=300, secs=1, budget=100,
          cases=[dict(last=l, exclude=e, always=a, fg=f) for l in (False, True) for e in (False, True) for a in (False, True) for f in (False, True)])
def characters_any(cx):
    """A text of any length, observed at any of its characters."""
    color_contracts(cx)
    stub_ansi(cx)
    before = cx.text("before", excl="\x1b")
    c = cx.text("c", excl="\x1b", unit=True)
    after = cx.text("after", excl="\x1b", minlen=1) if not cx.last else ""
    text = cx.concat(before, c, after)
    fl = {f: cx.bool("s." + f) for f in ("bold", "strike")}
    s, want = make_span(cx, "s", text, flags=fl, fg=any_color(cx, "fg", False, cx.fg))
    params = wanted(cx, want, colors=not cx.exclude)
    n, k = cx.len(text), cx.len(before)
    cx.loops([Hint(n, k, first=True), Hint(arith("-", n, 1), None if cx.last else k, first=True)], [])
    out = cx.method(s, "get_characters", exclude_color=cx.exclude, always_include_sequence=cx.always)
    cx.cover("done")
    cx.ensure("one item per character", cx.eq(cx.len(out), n))
    check_item(cx, out.get(k), c, params, cx.always or cx.check(cx.eq(k, 0)), cx.last, want)
