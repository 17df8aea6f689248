"""Small functions the loop rule is tried on (tools/selftest.py)."""


class Box:
    __module__ = "slate.samples"  # interpreted like the code under verification

    def __init__(self):
        self.n = 0
        self.items = []
        self.data = {}


def count(n):
    k = 0
    for _ in range(n):
        k += 1
    return k


def count_break(n):
    k = 0
    for _ in range(n):
        if k == 5:
            break
        k += 1
    return k


def count_continue(n, m):
    k = 0
    for i in range(n):
        if i == m:
            continue
        k += 1
    return k


def fill(n):
    xs = []
    for i in range(n):
        xs.append(i)
    return xs


def fill_then_change(n, m):
    xs = []
    for i in range(n):
        xs.append(i)
    for i in range(m):
        if i < n:
            xs[i] = 7
    return xs


def matrix(w, h):
    m = []
    for _ in range(h):
        row = []
        for _ in range(w):
            row.append(0)
        m.append(row)
    return m


def matrix_shared(w, h):
    m = []
    row = []
    for _ in range(w):
        row.append(0)
    for _ in range(h):
        m.append(row)
    return m


def poke(m, x, y):
    m[y][x] = 1
    return m


def alias(n):
    a = []
    b = a
    for i in range(n):
        a.append(i)
    return b


def attr_alias(n):
    a = Box()
    b = a
    for _ in range(n):
        a.n += 1
    return b.n


def table(n):
    d = {}
    for i in range(n):
        d[(i, 0)] = "x"
    return d


def table_overwritten(n):
    d = {}
    for i in range(n):
        d[(i, 0)] = "x"
    for i in range(n):
        d[(i, 0)] = "y"
    return d


def table_cleared(n, m):
    d = {}
    for i in range(n):
        d[(i, 0)] = "x"
        if i == m:
            d.clear()
    return d


def sentinel(n, m):
    blank = (0, 1)
    xs = []
    for _ in range(n):
        xs.append(blank)
    for i in range(n):
        if i == m:
            xs[i] = (0, 1)
    return [1 if x is blank else 0 for x in [xs[m]]][0]


def found(n, m):
    hit = False
    for i in range(n):
        if i == m:
            hit = True
    return hit


def found_last(n, m):
    hit = False
    for i in range(n):
        hit = i == m
    return hit


def early(n, m):
    for i in range(n):
        if i == m:
            return 1
    return 0


def raises(n, m):
    for i in range(n):
        if i == m:
            raise KeyError(m)
    return 0


def orelse(n, m):
    for i in range(n):
        if i == m:
            break
    else:
        return 0
    return 1


def late(n):
    k = 0
    for i in range(n):
        k = i
    return k


def nested_count(n):
    b = Box()

    def hit():
        b.n += 1

    for _ in range(n):
        hit()
    return b.n


def nonlocal_count(n):
    k = 0

    def hit():
        nonlocal k
        k += 1

    for _ in range(n):
        hit()
    return k


def generated(n):
    def gen():
        for i in range(n):
            yield i

    k = 0
    for _ in gen():
        k += 1
    return k


def joined(n):
    out = ""
    for _ in range(n):
        out += "x"
    return out


def swap(n):
    a, b = 0, 1
    for _ in range(n):
        a, b = b, a
    return a


def previous(n):
    prev = None
    k = 0
    for i in range(n):
        if prev is None:
            k += 1
        prev = i
    return k


def store_outer(n):
    b = Box()
    for i in range(n):
        b.items = [i]
    return b.items


def store_first(n):
    b = Box()
    for i in range(n):
        if i == 0:
            b.items.append(i)
    return b.items


def two(n):
    a = []
    b = []
    for i in range(n):
        a.append(i)
        if i > 3:
            b.append(i)
    return len(a) - len(b)
