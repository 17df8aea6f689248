"""The loop rule: loops whose number of iterations is a term.

A loop over `n` elements is cut into segments at the pivots the harness names (a pivot iteration is
executed as it stands) and every segment [lo, hi) is decided by induction:

  arbitrary iteration   every location the segment may change is forgotten, the invariants are
                        assumed for an arbitrary i with lo <= i < hi, the body runs once, the
                        invariants are proved for i + 1 and the path ends;
  leaving               the same, but a path that leaves the loop by break, return or an exception
                        continues from there and the others end;
  after                 every location is forgotten and the invariants are assumed for hi.

What a segment may change is found by running it: a write to a location older than the segment
that is not yet among the forgotten ones adds it and explores the segment again.  Invariants are
found the same way: candidates (a value is unchanged, it grows by one per iteration, it equals a
ghost of the harness; an entry of a list or dict is unchanged; a list has grown by one element per
iteration) that do not hold on entry or are not preserved are dropped and the segment is explored
again, until all that are left are inductive.  Dropping a candidate never makes the rule unsound:
only candidates proved on entry and preserved by every path of the arbitrary iteration are assumed.
"""

from __future__ import annotations

from .values import *  # noqa: F401,F403
from .heap import PList, PDict, ABSENT, AbsType, absof, materialize, splits
from .path import Obligation, PathEnd, RestartAt, SpecFail

POISON = ("poison",)


class Hint:
    """What the harness knows about loops of a given length.

    length: number of iterations the hint applies to.  pivot: an iteration to single out, or None.
    ghosts: functions of the iteration index to integers a variable may be equal to.
    flags: functions of the index to conditions a Boolean variable may be equal to.
    pairs: functions (index, a, b) to conditions two integer variables may satisfy.
    reach: function of the index to a condition that may hold whenever that index is reached.
    first: single out the first iteration too.
    within: the pivot counts only within the pivot iteration of one of these hints.
    facts: function of the index to conditions that hold for every iteration (definitions of the
    ghosts, hypotheses of the contract instantiated at that index)."""

    def __init__(self, length, pivot=None, ghosts=(), flags=(), pairs=(), facts=None, within=None, reach=None, first=False):
        self.reach, self.first = reach, first
        self.within = within
        self.length, self.pivot = length, pivot
        self.ghosts, self.flags, self.pairs, self.facts = list(ghosts), list(flags), list(pairs), facts


class Table:
    def __init__(self, key, pos, marks, where):
        self.key, self.pos, self.marks, self.where = key, pos, marks, where
        self.locs = {}
        self.types = {}
        self.dropped = set()
        self.checked = set()
        self.at_entry = set()
        self.started = False
        self.memory = None


def safe_abs(v, path, depth=0):
    """Abstract type of a value in a location that is not a list element."""
    if isinstance(v, Lazy):
        if not v.made:
            return aged(v.type, path)
        v = v.value
    if isinstance(v, Obj) and not v.__dict__.get("anon") and v.oid <= path.loop_start and path.objs.get(v.tag) is v:
        return AbsType([("ident", v.tag, v.cls)])
    if isinstance(v, (PList, PDict)) or isinstance(v, Poison):
        return AbsType([POISON])
    if isinstance(v, tuple):
        return tuple_abs(v, path)
    try:
        return absof(v)
    except Unsupported:
        return AbsType([POISON])


def nameless(ty):
    """A type without the alternatives that name an object of one path."""
    out = []
    for a in ty.alts:
        if a[0] == "ident" and len(a) == 3:
            continue
        if a[0] == "tuple":
            ts = [nameless(x) for x in a[1]]
            if not all(t.alts for t in ts):
                continue
            a = ("tuple", ts)
        elif a[0] == "list":
            a = ("list", nameless(a[1]), a[2])
        out.append(a)
    return AbsType(out)


def aged(ty, path):
    """A type in which only objects older than the loop are named."""
    out = []
    for a in ty.alts:
        if a[0] == "ident" and len(a) == 3:
            o = path.objs.get(a[1])
            if o is None or o.oid > path.loop_start:
                a = ("obj", a[2])
        elif a[0] == "tuple":
            a = ("tuple", [aged(x, path) for x in a[1]])
        elif a[0] == "list":
            a = ("list", aged(a[1], path), a[2])
        out.append(a)
    r = AbsType([])
    for a in out:
        r = r.join(AbsType([a]))
    return r


def tuple_abs(v, path):
    if id(v) in path.tracked:
        _, name, when = path.tracked[id(v)]
        if when > path.loop_start:
            raise Unsupported("a tuple made in a loop and kept by name")
        return AbsType([("ident", name)])
    path.untracked[id(v)] = v
    ts = []
    for x in v:
        t = safe_abs(x, path)
        if any(a[0] == "poison" for a in t.alts):
            return AbsType([POISON])
        ts.append(t)
    return AbsType([("tuple", ts)])


def elem_abs(v, path, owner):
    """Abstract type of an element of a list or dict."""
    if isinstance(v, PList):
        if v.parent is not owner:
            raise Unsupported("a list shared between containers in a loop")
        et = AbsType([])
        if v.items is not None:
            for x in v.items:
                et = et.join(elem_abs(x, path, v))
        else:
            if v.base is not None:
                et = et.join(aged(v.base_type, path))
                if not v.base_type.alts:
                    raise Unsupported("elements of unknown type")
            for _, x in v.known:
                et = et.join(elem_abs(x, path, v))
        n = v.length()
        return AbsType([("list", et, n if older(path, n) else None)])
    t = safe_abs(v, path)
    if any(a[0] == "poison" for a in t.alts):
        raise Unsupported("an element the loop rule cannot forget")
    return t


def older(path, n):
    """A length made of symbols that are older than the loop."""
    if isinstance(n, int):
        return True
    stack = [n.e]
    while stack:
        x = stack.pop()
        if z3.is_const(x) and not z3.is_int_value(x):
            b = path.birth.get(x.decl().name())
            if b is None or b >= path.loop_start:
                return False
        stack.extend(x.children())
    return True


class LoopRule:
    def __init__(self, ip):
        self.ip = ip
        self.enabled = False
        self.hints = []
        self.interest = []
        self.observer = None
        self.active = []
        self.stack = []

    # ------------------------------------------------------------------ entry points
    def run(self, node, it, assign, body, orelse, frame):
        path = self.ip.path
        if not self.enabled:
            raise Unsupported(f"loop of symbolic length at line {getattr(node, 'lineno', 0)}")
        if path.spec:
            raise SpecFail()
        n = simp(it.n)
        path.assume(cmp(">=", n, 0))
        where = f"{frame.name}:{getattr(node, 'lineno', getattr(body[0], 'lineno', 0))}"
        hint, segs = None, [(0, n)]
        for h in self.hints:
            if path.implied(cmp("==", n, h.length)):
                hint = h
                if h.pivot is not None and (h.within is None or any(x in self.active for x in h.within)) and path.implied(land(cmp(">=", h.pivot, 0), cmp("<", h.pivot, n))):
                    segs = [(0, h.pivot), h.pivot, (simp(h.pivot + 1), n)]
                if h.first:
                    # the first iteration, if there is one, is executed as it stands
                    if not path.decide(cmp(">", n, 0)):
                        segs = []
                    elif len(segs) == 1 or path.decide(cmp("==", h.pivot, 0)):
                        segs = [0, (1, n)]
                    else:
                        segs = [0, (1, h.pivot)] + segs[1:]
                break

        def once(i):
            assign(it.get(i))
            self.ip.block(body, frame)

        for k, seg in enumerate(segs):
            if isinstance(seg, tuple):
                if self.segment((where, k), once, seg[0], seg[1], hint, frame, it) == "break":
                    return
            else:
                for c in hint.facts(seg) if hint.facts else ():
                    path.assume(c)
                from .interp import BreakSig, ContinueSig

                self.active.append(hint)
                self.stack.append((where, k))
                try:
                    once(seg)
                except ContinueSig:
                    pass
                except BreakSig:
                    return
                finally:
                    self.active.pop()
                    self.stack.pop()
        self.ip.block(orelse, frame)

    def run_while(self, s, frame):
        raise Unsupported(f"while loop at line {s.lineno}")

    # ------------------------------------------------------------------ a segment
    def table(self, where):
        path = self.ip.path
        ex = path.ex
        key = tuple(d["opts"][d["i"]] for d in ex.script[: path.pos]) + (where,)
        t = ex.loop_tables.get(key)
        if t is None:
            t = Table(key, path.pos, ex.marks(), where)
            ex.loop_tables[key] = t
        return t

    def again(self, t, reset=False):
        if reset:
            # what was not preserved while a changing location was taken for unchanged
            # may be preserved now
            t.dropped = {x for x in t.dropped if x[-1] == "same"} | t.at_entry
            t.memory.dropped = {x for x in t.memory.dropped if x[-1] == "same"}
            within = tuple(self.stack) + (t.where,)
            for (stack, _), m in self.ip.path.ex.loop_memory.items():
                if stack[: len(within)] == within:
                    m.dropped = {x for x in m.dropped if x[-1] == "same"}
        t.memory.dropped |= t.dropped
        t.memory.locs.update(t.locs)
        for loc, ty in t.types.items():
            ty = nameless(ty)
            t.memory.types[loc] = t.memory.types[loc].join(ty) if loc in t.memory.types else ty
        raise RestartAt(t)

    def segment(self, where, once, lo, hi, hint, frame, it):
        from .interp import BreakSig, ContinueSig, GenClose, ReturnSig

        path = self.ip.path
        t = self.table(where)
        memory = path.ex.loop_memory.setdefault((tuple(self.stack), where), Table(None, 0, None, where))
        if not t.started:
            t.started = True
            t.dropped |= memory.dropped
            for loc, oid in memory.locs.items():
                if (path.frames if loc[0] == "local" else path.objs).get(loc[1]) is not None:
                    t.locs[loc] = self.obj(loc).oid
        t.memory = memory
        path.approx("a loop decided by its invariants")
        path.ex.trusted.add("loops of symbolic length: invariants proved inductive per segment, termination of the iteration assumed finite as in Python's for")
        # tuples a function holds before its first loop can be compared by identity later
        f = frame
        while f is not None and not f.tracked:
            f.tracked = True
            for name, v in f.locals.items():
                if isinstance(v, tuple) and id(v) not in path.tracked:
                    if id(v) in path.untracked:
                        raise Unsupported("a tuple kept by name after a loop forgot it")
                    name = (f.name, name)
                    while name in path.named:
                        name += ("",)
                    path.tracked[id(v)] = (v, name, path.alloc)
                    path.named[name] = v
            f = f.parent
        path.loop_start = path.new_oid()
        snap = {loc: self.snapshot(loc) for loc in t.locs}
        for loc in t.locs:
            if loc not in t.types:
                t.types[loc] = self.entry_type(loc, snap[loc])
                if loc in memory.types:
                    t.types[loc] = t.types[loc].join(memory.types[loc])
        start = path.loop_start = path.new_oid()
        self.entry_checks(t, snap, lo, hint)
        # the iteration that comes back to the loop's head first: what it shows about the loop is
        # settled before anything behind the loop is explored
        mode = path.choose(["arbitrary", "after", "leaving"], upfront=2)
        choice = path.ex.script[path.pos - 1]
        if mode == "after":
            self.forget(t, snap, hi, lo, hint)
            return None
        i = path.fresh_int("iteration")
        path.assume(land(cmp("<=", lo, i), cmp("<", i, hi)))
        self.forget(t, snap, i, lo, hint)
        for c in hint.facts(i) if hint is not None and hint.facts else ():
            path.assume(c)
        log = {}
        mark = path.alloc
        path.writes.append(log)
        out = None
        depth = len(self.stack)
        self.stack.append(where)
        try:
            once(i)
        except ContinueSig:
            pass
        except BreakSig as sig:
            out = sig
        except (ReturnSig, GenClose, PyExc) as sig:
            out = sig
        del self.stack[depth:]
        path.writes.pop()
        self.absorb(t, log, start)
        if mode == "arbitrary" and out is not None:
            if 2 not in choice["opts"]:
                choice["opts"].append(2)
            raise PathEnd()
        if isinstance(out, BreakSig):
            return "break"
        if out is not None:
            raise out
        if mode == "leaving":
            raise PathEnd()
        if isinstance(it.src, PList) and ("list", it.src.tag) in t.locs and ("list", it.src.tag, "len") in t.dropped:
            raise Unsupported("a list changes its length while being iterated")
        path.loop_start = start
        self.preserved(t, snap, simp(i + 1), lo, hint, mark)
        raise PathEnd()

    def absorb(self, t, log, start):
        new = False
        for loc, oid in log.items():
            if oid <= start and loc not in t.locs:
                t.locs[loc] = oid
                new = True
        if new:
            self.again(t, True)

    # ------------------------------------------------------------------ locations
    def obj(self, loc):
        path = self.ip.path
        if loc[0] == "local":
            return path.frames[loc[1]]
        return path.objs[loc[1]]

    def read(self, loc):
        o = self.obj(loc)
        if loc[0] == "local":
            return o.locals.get(loc[2], UNBOUND)
        if loc[0] == "attr":
            return o.attrs.get(loc[2], UNBOUND)
        return o

    def write(self, loc, v):
        o = self.obj(loc)
        if loc[0] == "local":
            if v is UNBOUND:
                o.locals.pop(loc[2], None)
            else:
                o.locals[loc[2]] = v
        else:
            if v is UNBOUND:
                raise Unsupported("attribute that is not always there in a loop")
            if isinstance(v, Poison):
                raise Unsupported(f"attribute {loc[2]} changed in a loop to something the loop rule cannot forget")
            o.attrs[loc[2]] = v

    def snapshot(self, loc):
        path = self.ip.path
        v = self.read(loc)
        if loc[0] == "list":
            if v.items is not None:
                return (len(v.items), [[k, x] for k, x in enumerate(v.items)], True, v.base, v.base_type)
            if v.base is not None:
                # the element the contract observes is kept apart from the others
                for h in self.hints:
                    if h.pivot is None or any(same_index(e[0], h.pivot) for e in v.known):
                        continue
                    if path.implied(land(cmp("==", v.n, h.length), cmp(">=", h.pivot, 0), cmp("<", h.pivot, v.n))):
                        v.at(h.pivot)
            return (v.n, [list(e) for e in v.known], False, v.base, v.base_type)
        if loc[0] == "dict":
            for key in self.interest:
                if v._find(key) is None:
                    v.known.append([key, v.base(path, key) if v.base is not None else ABSENT])
            return ([list(e) for e in v.known], v.base, v.base_type)
        if loc[0] not in ("local", "attr"):
            raise Unsupported(f"{loc[0]} changed in a loop")
        return v

    def entry_type(self, loc, snap):
        path = self.ip.path
        o = self.obj(loc)
        if loc[0] == "list":
            t = AbsType([])
            if not snap[2] and snap[3] is not None:
                if not snap[4].alts:
                    raise Unsupported("elements of unknown type")
                t = t.join(aged(snap[4], path))
            for _, x in snap[1]:
                t = t.join(elem_abs(x, path, o))
            return t
        if loc[0] == "dict":
            t = AbsType([])
            if snap[1] is not None:
                t = t.join(aged(snap[2], path))
            for _, x in snap[0]:
                if x is not ABSENT:
                    t = t.join(elem_abs(x, path, o))
            return t
        if snap is UNBOUND:
            return AbsType([POISON])
        return safe_abs(snap, path)

    # ------------------------------------------------------------------ invariants
    def candidates(self, t, loc, v, v0, i, lo, hint):
        """(name, condition) pairs about a scalar."""
        out = []
        if is_intlike(v) and is_intlike(v0) and not isinstance(v, (bool, SBool)):
            out.append(("grows by one", lambda: cmp("==", v, arith("+", v0, arith("-", i, lo)))))
            out.append(("does not fall", lambda: cmp(">=", v, v0)))
            for k, g in enumerate(hint.ghosts if hint else ()):
                out.append((f"ghost {k}", lambda g=g: cmp("==", v, g(i))))
        if isinstance(v, (bool, SBool)) and isinstance(v0, (bool, SBool)):
            out.append(("stays", lambda: implies(v0, v)))
            for k, g in enumerate(hint.flags if hint else ()):
                out.append((f"flag {k}", lambda g=g: iff(v, g(i))))
        return [(n, c) for n, c in out if (loc, n) not in t.dropped]

    def pairs(self, t, values, i, hint):
        if hint is None:
            return []
        head = []
        if hint.reach is not None and ((), "reach") not in t.dropped:
            head.append((((), "reach"), lambda: hint.reach(i)))
        return head + self.pairs_(t, values, i, hint)

    def pairs_(self, t, values, i, hint):
        if not hint.pairs:
            return []
        ints = [(loc, v) for loc, v in values if loc[0] == "local" and is_intlike(v) and not isinstance(v, (bool, SBool))]
        out = []
        for a, x in ints:
            for b, y in ints:
                if a == b:
                    continue
                for k, g in enumerate(hint.pairs):
                    if ((a, b), f"pair {k}") not in t.dropped:
                        out.append((((a, b), f"pair {k}"), lambda g=g, x=x, y=y: g(i, x, y)))
        return out

    def entry_checks(self, t, snap, lo, hint):
        """Candidates that do not hold on entry are dropped."""
        path = self.ip.path
        vals = []
        for loc in t.locs:
            if loc[0] not in ("local", "attr"):
                continue
            v0 = snap[loc]
            vals.append((loc, v0))
            if is_str(v0) and self.observer is not None and ("entry", loc, "drawn") not in t.checked:
                t.checked.add(("entry", loc, "drawn"))
                for name, ok in self.observer.check(path, v0, v0, lambda name: True, lo, lo, hint, True):
                    if not ok:
                        t.dropped.add((loc, name))
                        t.at_entry.add((loc, name))
            for name, c in self.candidates(t, loc, v0, v0, lo, lo, hint):
                if ("entry", loc, name) in t.checked:
                    continue
                t.checked.add(("entry", loc, name))
                if not path.implied(c()):
                    t.dropped.add((loc, name))
                    t.at_entry.add((loc, name))
        for key, c in self.pairs(t, vals, lo, hint):
            if ("entry", key) in t.checked:
                continue
            t.checked.add(("entry", key))
            if not path.implied(c()):
                t.dropped.add(key)
                t.at_entry.add(key)

    def forget(self, t, snap, i, lo, hint):
        path = self.ip.path
        ip = self.ip
        vals = []
        for loc in t.locs:
            s = snap[loc]
            path.log_write(loc, t.locs[loc])
            if loc[0] == "list":
                self.forget_list(t, loc, s, i, lo)
            elif loc[0] == "dict":
                self.forget_dict(t, loc, s)
            else:
                if loc + ("same",) not in t.dropped and s is not UNBOUND:
                    self.write(loc, s)
                    vals.append((loc, s))
                    continue
                ty = t.types[loc]
                if any(a[0] == "poison" for a in ty.alts):
                    self.write(loc, Poison("changed in a loop"))
                    continue
                if self.observed(t, loc, s, ty):
                    v = self.observer.make(path, s, lambda name, loc=loc: (loc, name) not in t.dropped, i, lo, hint)
                    self.write(loc, v)
                    vals.append((loc, v))
                    continue
                if loc[0] == "local" and splits(ty):
                    self.write(loc, Lazy(ty, lambda ty=ty, loc=loc: materialize(path, ip, ty, str(loc[2]))))
                    continue
                v = materialize(path, ip, ty, str(loc[2]))
                self.write(loc, v)
                vals.append((loc, v))
                for _, c in self.candidates(t, loc, v, s, i, lo, hint):
                    path.assume(c())
        for _, c in self.pairs(t, vals, i, hint):
            path.assume(c())

    def forget_list(self, t, loc, s, i, lo):
        path, ip = self.ip.path, self.ip
        lst = self.obj(loc)
        n0, known, concrete, base, base_type = s
        if loc + ("same",) not in t.dropped:
            return
        ty = t.types[loc]
        if loc + ("len",) not in t.dropped:
            n = n0
        elif loc + ("grow",) not in t.dropped:
            n = simp(arith("+", n0, arith("-", i, lo)))
        else:
            n = path.fresh_int("len")
            path.assume(cmp(">=", n, 0))
        lst.items = None
        lst.n = n
        lst.known = [list(e) for k, e in enumerate(known) if loc + ("entry", k) not in t.dropped]
        if loc + ("len",) in t.dropped and loc + ("grow",) in t.dropped:
            for e in lst.known:
                # a kept entry is still within the list
                path.assume(cmp("<", e[0], n))
        lst.base_type = ty
        lst.base = lambda p, idx, ty=ty: self.element(ty, lst)

    def element(self, ty, owner):
        return materialize(self.ip.path, self.ip, ty, "element")

    def forget_dict(self, t, loc, s):
        path = self.ip.path
        d = self.obj(loc)
        known, base, base_type = s
        if loc + ("same",) not in t.dropped:
            return
        ty = t.types[loc]
        d.known = [list(e) for k, e in enumerate(known) if loc + ("entry", k) not in t.dropped]
        d.base_type = ty

        def mk(p, key):
            if not ty.alts or p.choose([True, False]):
                return ABSENT
            return materialize(p, self.ip, ty, "entry")

        d.base = mk

    def same_value(self, a, b):
        if a is b:
            return True
        if a is UNBOUND or b is UNBOUND or a is ABSENT or b is ABSENT:
            return False
        if (is_numlike(a) and is_numlike(b)) or (is_str(a) and is_str(b)):
            if isinstance(a, (bool, SBool)) != isinstance(b, (bool, SBool)) or is_reallike(a) != is_reallike(b):
                return False
            return self.ip.path.implied(self.ip.eq(a, b))
        return False

    def preserved(self, t, snap, i, lo, hint, mark):
        path = self.ip.path
        bad = set()
        retype = {}
        vals = []
        proved = 0
        fresh = {}
        for loc in t.locs:
            s = snap[loc]
            if loc[0] == "list":
                proved += self.list_preserved(t, loc, s, i, lo, bad, retype, mark, fresh)
                continue
            if loc[0] == "dict":
                proved += self.dict_preserved(t, loc, s, bad, retype, mark, fresh)
                continue
            v = self.read(loc)
            if loc + ("same",) not in t.dropped and s is not UNBOUND:
                if not self.same_value(v, s):
                    bad.add(loc + ("same",))
                else:
                    proved += 1
                vals.append((loc, v))
                continue
            if v is UNBOUND or (isinstance(v, Poison) and not isinstance(v, Lazy)):
                ty = AbsType([POISON])
            else:
                ty = safe_abs(v, path)
            j = t.types[loc].join(ty)
            if j.key() != t.types[loc].key():
                retype[loc] = j
            if any(a[0] == "poison" for a in j.alts):
                continue
            vals.append((loc, v))
            if self.observed(t, loc, s, j):
                for name, ok in self.observer.check(path, v, s, lambda name, loc=loc: (loc, name) not in t.dropped, i, lo, hint):
                    if ok:
                        proved += 1
                    else:
                        bad.add((loc, name))
            for name, c in self.candidates(t, loc, v, s, i, lo, hint):
                if path.implied(c()):
                    proved += 1
                else:
                    bad.add((loc, name))
            # candidates that apply to the entry value but not to this one
            for name, _ in self.candidates(t, loc, s, s, lo, lo, hint):
                if (loc, name) not in bad and name not in [n for n, _ in self.candidates(t, loc, v, s, i, lo, hint)]:
                    bad.add((loc, name))
        for key, c in self.pairs(t, vals, i, hint):
            if path.implied(c()):
                proved += 1
            else:
                bad.add(key)
        if bad or retype:
            t.dropped |= bad
            t.types.update(retype)
            self.again(t, any(x[-1] == "same" for x in bad))
        for _ in range(proved):
            path.ex.obligation(Obligation(f"loop invariant preserved ({t.where[0]})", "discharged", 0.0, "z3", path=path.ex.paths), path)

    def observed(self, t, loc, s, ty):
        """A text the observer of the contract follows through the loop."""
        return self.observer is not None and loc[0] == "local" and is_str(s) and (loc, "drawn") not in t.dropped and all(a[0] == "str" for a in ty.alts)

    def _fresh(self, v, owner, mark, fresh, entry_values):
        """A mutable element written in an iteration belongs to this container alone."""
        if isinstance(v, (PList, PDict)):
            if any(v is x for x in entry_values):
                return
            if v.parent is not owner:
                raise Unsupported("a list stored in two places in a loop")
            if v.oid <= mark or id(v) in fresh:
                raise Unsupported("a list shared between iterations")
            fresh[id(v)] = v

    def list_preserved(self, t, loc, s, i, lo, bad, retype, mark, fresh):
        path = self.ip.path
        lst = self.obj(loc)
        n0, known, concrete, base, base_type = s
        n = lst.length()
        done = 0
        cur = [[k, x] for k, x in enumerate(lst.items)] if lst.items is not None else lst.known
        if loc + ("same",) not in t.dropped:
            # a list of concrete shape that comes out as it was
            if concrete and lst.items is not None and len(lst.items) == n0 and all(self.same_value(x, e[1]) for x, e in zip(lst.items, known)):
                return 1
            bad.add(loc + ("same",))
            return 0
        if loc + ("len",) not in t.dropped:
            if path.implied(cmp("==", n, n0)):
                done += 1
            else:
                bad.add(loc + ("len",))
        elif loc + ("grow",) not in t.dropped:
            if path.implied(cmp("==", n, arith("+", n0, arith("-", i, lo)))):
                done += 1
            else:
                bad.add(loc + ("grow",))
        entry_values = [e[1] for e in known]
        for k, e in enumerate(known):
            if loc + ("entry", k) in t.dropped:
                continue
            hit = [c for c in cur if same_index(c[0], e[0])]
            if hit and self.same_value(hit[0][1], e[1]):
                done += 1
            else:
                bad.add(loc + ("entry", k))
        ty = t.types[loc]
        if lst.items is None and lst.base is not None:
            ty = ty.join(aged(lst.base_type, path))
        for _, x in cur:
            self._fresh(x, lst, mark, fresh, entry_values)
            ty = ty.join(elem_abs(x, path, lst))
        if ty.key() != t.types[loc].key():
            retype[loc] = ty
        return done

    def dict_preserved(self, t, loc, s, bad, retype, mark, fresh):
        path = self.ip.path
        d = self.obj(loc)
        known, base, base_type = s
        if loc + ("same",) not in t.dropped:
            bad.add(loc + ("same",))
            return 0
        done = 0
        entry_values = [e[1] for e in known]
        for k, e in enumerate(known):
            if loc + ("entry", k) in t.dropped:
                continue
            hit = [c for c in d.known if c[0] is e[0]]
            v = hit[0][1] if hit else (ABSENT if d.base is None else UNBOUND)
            if self.same_value(v, e[1]):
                done += 1
            else:
                bad.add(loc + ("entry", k))
        ty = t.types[loc]
        if d.base is not None:
            ty = ty.join(aged(d.base_type, path))
        for _, x in d.known:
            if x is ABSENT:
                continue
            self._fresh(x, d, mark, fresh, entry_values)
            ty = ty.join(elem_abs(x, path, d))
        if ty.key() != t.types[loc].key():
            retype[loc] = ty
        return done


UNBOUND = ("<unbound>",)


def simp(v):
    if isinstance(v, SInt):
        e = simplify(v.e)
        return e.as_long() if z3.is_int_value(e) else SInt(e)
    return v


def same_index(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, SInt) and isinstance(b, SInt):
        return a.e.eq(b.e) or simplify(a.e - b.e).eq(z3.IntVal(0))
    if isinstance(a, SInt) or isinstance(b, SInt):
        x, y = (a, b) if isinstance(a, SInt) else (b, a)
        e = simplify(x.e)
        return z3.is_int_value(e) and e.as_long() == y
    return False
