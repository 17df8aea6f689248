"""C06: compositing of semi-transparent writes."""

import itertools

from .ghost import *  # noqa: F401,F403

CHECKS = set()

# a layer: character (c: any, _: blank), opaque marking, background (n: none, o: opaque, t: any alpha)
KINDS = ["cn", "co", "ct", "_t", "_o"]


def layer(d, name, kind, fg=True):
    cx = d.cx
    c = d.char(name) if kind[0] == "c" else " " if cx.symbolic else cx.choice(name + ".blank", [" ", "\xa0", "\u2003"])
    styles = ["opaque"] if "!" in kind else []
    bg = {"n": None, "o": "o", "t": "t"}[kind[1]]
    if bg is not None:
        bg = d.color(name + ".bg", True, 1.0 if bg == "o" else None)
    return d.piece([c], styles, d.color(name + ".fg", False) if fg else None, bg)


@contract("stack", cases=[dict(layers=l) for n in (1, 2, 3) for l in itertools.product(KINDS + ["_t!"], repeat=n) if n < 3 or (l[1][1] == "t" and l[2][1] == "t")], covers=["done"], trials=300, secs=0.6, budget=100,
          bound="up to 3 layers on a cell; arbitrary characters, colours and alphas")
def stack(cx):
    d = Driver(cx, 1, 1, CHECKS)
    d.background(d.color("tbg", True))
    d.bulk([((0, 0), [layer(d, f"l{i}", k, fg=i != 1)]) for i, k in enumerate(cx.layers)])
    d.held("layers are composited in the order written")
    cx.cover("done")


@contract("foreground", cases=[dict(bg=b, default=t) for b in "not" for t in (False, True)], covers=["done"], trials=300, secs=0.6, budget=100,
          bound="one cell; arbitrary characters, colours and alphas")
def foreground(cx):
    d = Driver(cx, 1, 1, CHECKS)
    if not cx.default:
        d.background(d.color("tbg", True))
    bg = None if cx.bg == "n" else d.color("bg", True, 1.0 if cx.bg == "o" else None)
    d.write([d.piece([d.char("c")], (), d.color("fg", False, None), bg)], at=(0, 0))
    d.held("a semi-transparent foreground is blended into the resulting background")
    cx.cover("done")


@contract("over earlier content", cases=[dict(k=k) for k in KINDS], covers=["done"], trials=300, secs=0.6, budget=100,
          bound="two bulk writes on a screen of 2 by 1; arbitrary characters, colours and alphas")
def earlier(cx):
    d = Driver(cx, 2, 1, CHECKS)
    d.write([layer(d, "a", "co")], at=(0, 0))
    d.bulk([((0, 0), [layer(d, "b", cx.k)]), ((0, 0), [layer(d, "c", "_t"), layer(d, "d", "ct")])])
    d.held("layers of one bulk write are composited")
    cx.cover("done")


def any_layers(cx):
    d = Driver(cx, cx.int("w", 1, 3), cx.int("h", 1, 2), CHECKS)
    if cx.choice("tbg", [False, True]):
        d.background(d.color("tbg", True))
    for k in range(cx.choice("bulks", [1, 1, 2])):
        data = []
        for i in range(cx.choice(f"{k}n", [1, 2, 2, 3, 3, 4, 6])):
            data.append((any_at(d, f"{k}.{i}", inside=True), [any_piece(d, f"{k}.{i}", (1.0, 0.5, 0.5, "any", "any", 0.95, 0.0), blanks=0.5)]))
        d.bulk(data, force=cx.choice(f"{k}f", [False, False, True]))
    d.held("layers are composited in the order written")
    cx.cover("done")


contract("histories", symbolic=False, covers=["done"], bound="random bulk writes of up to 6 layers on screens of up to 3 by 2", trials=60000, secs=8)(any_layers)
