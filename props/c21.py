"""C21: events."""

import functools

from .anyscreen import limits
from .common import *  # noqa: F401,F403


def listener(cx, log, i, value):
    def f(data):
        log.append((i, data))
        if value == "raise":
            cx.throw(ZeroDivisionError, "listener")
        return value

    if cx.symbolic:
        return cx.callback(f)
    # natively: listeners of every kind of callable
    kind = cx.choice(f"kind{i}", ["function", "method", "object", "partial"])
    if kind == "method":
        return Holder(f).method
    if kind == "object":
        return Callable_(f)
    if kind == "partial":
        return functools.partial(f)
    return lambda data: f(data)


class Holder:
    def __init__(self, f):
        self.f = f

    def method(self, data):
        return self.f(data)


class Callable_:
    def __init__(self, f):
        self.f = f

    def __call__(self, data):
        return self.f(data)

    def __bool__(self):
        return False


OUTS = [True, False, None, "raise"]


@contract("event.delivery", bound="up to 4 listeners, each with an arbitrary result", cases=[{"n": k} for k in range(5)], covers=["called"])
def delivery(cx):
    log = []
    outs = [cx.choice(f"out{i}", OUTS) for i in range(cx.n)]
    how = [cx.choice(f"how{i}", ["iadd", "append"]) for i in range(cx.n)] if cx.n < 3 else ["iadd", "append", "iadd", "append"][: cx.n]
    e = cx.call(Event, "x")
    cx.ensure("an event without listeners is falsy", lnot(cx.check(cx.call(Event.__bool__, e))))
    fs = [listener(cx, log, i, outs[i]) for i in range(cx.n)]
    for i, f in enumerate(fs):
        if how[i] == "iadd":
            r = cx.call(Event.__iadd__, e, f)
            cx.ensure("+= evaluates to the event itself", cx.same(r, e))
        else:
            r = cx.call(Event.append, e, f)
            cx.ensure("append returns the listener", cx.same(r, f))
        cx.ensure("an event with listeners is truthy", cx.check(cx.call(Event.__bool__, e)))
    data = cx.text("data")
    o = cx.outcome(Event.__call__, e, data)
    cx.cover("called")
    stop = outs.index("raise") + 1 if "raise" in outs else cx.n
    cx.ensure("every listener is called exactly once, in order of registration", [i for i, _ in log] == list(range(stop)))
    cx.ensure("every listener gets the emitted data", land([cx.eq(d, data) for _, d in log]) if log else True)
    if "raise" in outs:
        cx.ensure("an exception of a listener reaches the emitter", o.exc is ZeroDivisionError)
    else:
        cx.ensure("emitting is total", o.ok)
        cx.ensure("the result tells whether any listener returned True", cx.check(cx.eq(o.value, True)) == (True in outs))
    # a second emission behaves like the first
    if "raise" not in outs:
        del log[:]
        cx.call(Event.__call__, e, data)
        cx.ensure("every emission reaches every listener again", [i for i, _ in log] == list(range(cx.n)))
    cx.call(Event.clear, e)
    del log[:]
    o = cx.outcome(Event.__call__, e, data)
    cx.ensure("a cleared event calls nothing and returns False", o.ok and log == [] and cx.check(cx.eq(o.value, False)))
    cx.ensure("a cleared event is falsy", lnot(cx.check(cx.call(Event.__bool__, e))))


@contract("event.rejects", bound="up to 4 listeners, each with an arbitrary result", covers=["rejected"])
def rejects(cx):
    log = []
    e = cx.call(Event, "x")
    f = listener(cx, log, 0, True)
    cx.call(Event.__iadd__, e, f)
    bad = cx.choice("bad", ["text", 3, None, ("a",), 1.5])
    o = cx.outcome(Event.__iadd__, e, bad)
    cx.ensure("a listener that cannot be called is rejected with ValueError", o.exc is ValueError)
    cx.cover("rejected")
    o = cx.outcome(Event.__call__, e, 7)
    cx.ensure("a rejected listener leaves the event as it was", o.ok and log == [(0, 7)])


@contract("event.independent", bound="up to 4 listeners, each with an arbitrary result", covers=["done"])
def independent(cx):
    log = []
    a = cx.call(Event, "a")
    b = cx.call(Event, "b")
    cx.call(Event.__iadd__, a, listener(cx, log, 0, True))
    o = cx.outcome(Event.__call__, b, 1)
    cx.cover("done")
    cx.ensure("listeners of one event are not called by another", o.ok and log == [])
    cx.call(Event.clear, b)
    cx.call(Event.__call__, a, 2)
    cx.ensure("clearing one event leaves another alone", log == [(0, 2)])


class Count:
    """Ghost: how many listeners have been called."""


def delivery_many(cx):
    """Many listeners."""
    n = cx.int("n", 0, 2000)
    if not cx._given("n"):
        n = cx.drawn["n"] = cx.rng.choice([0, 5, 6, 9, 20, cx.rng.choice(limits(cx, 3, 1000))])
    at = cx.int("true", 0, 2000)
    log = []
    e = cx.call(Event, "x")
    for i in range(n):
        f = (lambda data, i=i: log.append((i, data)) or (i == at)) if i % 3 else Holder(lambda data, i=i: log.append((i, data)) or (i == at)).method
        cx.call(Event.__iadd__ if i % 2 else Event.append, e, f)
    for _ in range(2):
        del log[:]
        o = cx.outcome(Event.__call__, e, "data")
        cx.ensure("every listener is called exactly once, in order of registration", o.ok and log == [(i, "data") for i in range(n)])
        cx.ensure("the result tells whether any listener returned True", o.ok and bool(o.value) == (at < n))
    cx.call(Event.clear, e)
    del log[:]
    o = cx.outcome(Event.__call__, e, "data")
    cx.ensure("a cleared event calls nothing and returns False", o.ok and log == [] and not o.value)


@contract("event.delivery.any", covers=["called"], native=delivery_many, trials=300, secs=1)
def delivery_any(cx):
    """Any number of listeners: the loop over them is decided by its invariant."""
    ip, p = cx.ip, cx.path
    n = cx.int("n", lo=0)
    ret = z3.Function("returned_true", z3.IntSort(), z3.BoolSort())
    anyf = z3.Function("any_before", z3.IntSort(), z3.BoolSort())
    p.assume(SBool(z3.Not(anyf(0))))
    ghost = ip.new_obj(Count, {"calls": 0})
    data = cx.text("data")
    e = cx.call(Event, "x")
    lst = e.attrs.get("_listeners")
    if not isinstance(lst, PList):
        raise Unsupported("representation of the listeners")

    def make(_, i):
        def called(got):
            calls = ghost.attrs["calls"]
            cx.ensure("every listener is called exactly once, in order of registration", cx.eq(calls, i))
            cx.ensure("every listener gets the emitted data", cx.eq(got, data))
            ip.setattr(ghost, "calls", arith("+", calls, 1), raw=True)
            out = p.choose(["true", "false", "none", "raise"])
            if out == "raise":
                cx.throw(ZeroDivisionError, "listener")
            p.assume(SBool(ret(zint(i))) if out == "true" else SBool(z3.Not(ret(zint(i)))))
            return {"true": True, "false": False, "none": None}[out]

        return cx.callback(called)

    lst.items, lst.n, lst.base = None, n, make
    cx.loops([Hint(n, ghosts=[lambda i: i], flags=[lambda i: SBool(anyf(zint(i)))],
                   facts=lambda i: [SBool(anyf(zint(i) + 1) == z3.Or(anyf(zint(i)), ret(zint(i))))])])
    o = cx.outcome(Event.__call__, e, data)
    if not o.ok:
        cx.ensure("an exception of a listener reaches the emitter", o.exc is ZeroDivisionError)
        return
    cx.cover("called")
    cx.ensure("every listener has been called", cx.eq(ghost.attrs["calls"], n))
    cx.ensure("the result tells whether any listener returned True", iff(cx.check(cx.eq(o.value, True)), SBool(anyf(zint(n)))))
    cx.ensure("an event is truthy exactly if it has listeners", iff(cx.check(cx.call(Event.__bool__, e)), cmp(">", n, 0)))
