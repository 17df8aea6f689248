"""Path exploration: decisions, path conditions, obligations.

A run of a harness explores every path of the interpreted program.  A path is re-executed from
the start under a script of decisions; each two-sided branch whose both sides are satisfiable
adds a decision.  An obligation is the validity of a condition under the current path condition.
"""

from __future__ import annotations

import subprocess
import tempfile
import time
import os
import z3

from .values import *  # noqa: F401,F403
from .values import _b

z3.set_param("smt.random_seed", 1)


class Infeasible(Exception):
    pass


class PathEnd(Exception):
    """The path ends here on purpose (loop iteration re-established its invariant)."""


class Restart(Exception):
    """The loop tables changed; explore again."""


class RestartAt(Exception):
    """What is known about a loop changed: explore it again from its start."""

    def __init__(self, table):
        super().__init__()
        self.table = table


class BudgetExceeded(Exception):
    pass


class SpecFail(Exception):
    """A speculative evaluation would need a case split or have an effect."""


class Obligation:
    __slots__ = ("name", "status", "secs", "backend", "model", "choices", "path", "replay")

    def __init__(self, name, status, secs, backend, model=None, choices=None, path=0):
        self.name, self.status, self.secs, self.backend = name, status, secs, backend
        self.model, self.choices, self.path = model, choices, path
        self.replay = None


SOLVER_MS = 4000
FEAS_MS = 1500


def _cvc5_check(assertions, timeout_ms):
    """Second back end for obligations z3 leaves undecided."""
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    text = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    fd, name = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(text)
        out = subprocess.run(
            ["cvc5", f"--tlimit={timeout_ms}", name], capture_output=True, text=True, timeout=timeout_ms / 1000 + 5
        ).stdout
    except (OSError, subprocess.TimeoutExpired):
        return "unknown"
    finally:
        os.unlink(name)
    first = out.strip().split("\n")[0] if out.strip() else ""
    return first if first in ("sat", "unsat") else "unknown"


class Path:
    """State of one path under exploration."""

    def __init__(self, ex):
        self.ex = ex
        self.solver = z3.Solver()
        self.solver.set("timeout", FEAS_MS)
        self.pc = []
        self.pos = 0
        self.counter = {}
        self.alloc = 0
        self.lits = {}
        self.refined = {}
        self.inputs = {}
        self.choices = {}
        self.ghost = {}
        self.memo = {}
        self.native_objs = {}
        self.writes = []  # stack of write logs (one per open loop)
        self.objs = {}
        self.frames = {}
        self.tracked = {}  # tuples whose identity is kept when loops forget values
        self.untracked = {}
        self.named = {}
        self.birth = {}  # name of a symbol -> allocation count when it was made
        self.interp = None
        self.preds = []  # (term, z3 bool, python predicate)
        self.fns = []  # (term, z3 term maker, python function)
        self.derived = set()
        self.free = set()  # boolean inputs not yet constrained
        self.approximated = []  # models on this path that admit more behaviours than Python

    loop_start = 0
    spec = False  # within a speculative evaluation

    def approx(self, why):
        """A model admits more behaviours than Python does: obligations can still be discharged
        on this path, but a refutation would prove nothing."""
        self.approximated.append(why)

    # ---- names
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        name = f"{base}!{n}" if n else base
        self.birth[name] = self.alloc
        return name

    def fresh_int(self, base="i"):
        return SInt(z3.Int(self.fresh_name(base)))

    def fresh_real(self, base="r"):
        return SReal(z3.Real(self.fresh_name(base)))

    def fresh_bool(self, base="b"):
        return SBool(z3.Bool(self.fresh_name(base)))

    def fresh_txt(self, base="t", **kw):
        return SStr([Op(z3.Const(self.fresh_name(base), Txt), **kw)])

    def free_bool(self, base):
        b = z3.Bool(self.fresh_name(base))
        self.free.add(b.get_id())
        self.memo[("keep", b.get_id())] = b
        return SBool(b)

    # ---- frames
    def log_write(self, loc, oid):
        if self.spec:
            raise SpecFail()
        for log in self.writes:
            log.setdefault(loc, oid)

    def log_local(self, frame, name):
        if self.writes:
            self.frames[frame.oid] = frame
            for log in self.writes:
                log.setdefault(("local", frame.oid, name), frame.oid)

    def violate(self, name):
        """A frame condition is broken on this path."""
        self.prove(False, name)

    def new_oid(self):
        self.alloc += 1
        return self.alloc

    # ---- logic
    def assume(self, cond):
        cond = _b(cond)
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        if self.free:
            self._unfree(cond.e)
        self.pc.append(cond.e)
        self.solver.add(cond.e)

    def _unfree(self, e):
        stack = [e]
        seen = set()
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            self.free.discard(i)
            stack.extend(x.children())

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.ex.solver_secs += time.time() - t
        return r

    def decide(self, cond):
        cond = _b(cond)
        if not isinstance(cond, SBool):
            return cond
        e = simplify(cond.e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.spec:
            if self._check(z3.Not(cond.e)) == z3.unsat:
                return True
            if self._check(cond.e) == z3.unsat:
                return False
            raise SpecFail()
        if self.pos < len(self.ex.script):
            d = self.ex.script[self.pos]
            self.pos += 1
            v = d["opts"][d["i"]]
            self.assume(SBool(cond.e if v else z3.Not(cond.e)))
            return v
        self.ex.tick()
        core = e.arg(0) if z3.is_not(e) else e
        if core.get_id() in self.free:
            t = f = z3.sat
        else:
            t = self._check(cond.e)
            f = self._check(z3.Not(cond.e)) if t != z3.unsat else z3.sat
        opts = []
        if t != z3.unsat:
            opts.append(True)
        if f != z3.unsat:
            opts.append(False)
        if not opts:
            raise Infeasible()
        self.ex.script.append({"opts": opts, "i": 0})
        self.pos += 1
        v = opts[0]
        self.assume(SBool(cond.e if v else z3.Not(cond.e)))
        return v

    def speculate(self, thunk):
        """Evaluate something without case splits and effects; None if that is not possible."""
        if self.spec:
            return thunk()
        replay = self.pos < len(self.ex.script)
        if replay:
            d = self.ex.script[self.pos]
            self.pos += 1
            if not d["opts"][d["i"]]:
                return None
        self.spec = True
        r = None
        try:
            r = thunk()
        except (SpecFail, PyExc, Unsupported, Infeasible):
            r = None
        finally:
            self.spec = False
        if replay:
            if r is None:
                raise Unsupported("a speculative evaluation is not repeatable")
            return r
        self.ex.script.append({"opts": [r is not None], "i": 0})
        self.pos += 1
        return r

    def choose(self, options, label=None, upfront=None):
        """Nondeterministic choice among the given options (of which only the first `upfront` are
        explored unless others are added later)."""
        options = list(options)
        if self.spec and len(options) > 1:
            raise SpecFail()
        i = 0
        if len(options) > 1:
            if self.pos < len(self.ex.script):
                d = self.ex.script[self.pos]
                i = d["opts"][d["i"]]
            else:
                self.ex.tick()
                self.ex.script.append({"opts": list(range(len(options)))[:upfront], "i": 0})
            self.pos += 1
        if label:
            self.choices[label] = i
        return options[i]

    def feasible(self):
        return self._check() != z3.unsat

    def implied(self, cond):
        """Is the condition valid on this path (quick query, unknown counts as no)?"""
        cond = _b(cond)
        if not isinstance(cond, SBool):
            return bool(cond)
        e = simplify(cond.e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self._check(z3.Not(cond.e)) == z3.unsat

    def validity(self, cond):
        """('unsat'|'sat'|'unknown', model, backend): status of the negation."""
        cond = _b(cond)
        if not isinstance(cond, SBool):
            if cond:
                return "unsat", None, "constant"
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.sat:
                return "sat", self.solver.model(), "z3"
            return "unknown", None, "z3"
        e = simplify(cond.e)
        if z3.is_true(e):
            return "unsat", None, "simplify"
        t = time.time()
        s = z3.Solver()
        s.set("timeout", SOLVER_MS)
        for a in self.pc:
            s.add(a)
        s.add(z3.Not(cond.e))
        r = s.check()
        self.ex.solver_secs += time.time() - t
        if r == z3.unsat:
            return "unsat", None, "z3"
        if r == z3.sat:
            return "sat", s.model(), "z3"
        t = time.time()
        r2 = _cvc5_check(self.pc + [z3.Not(cond.e)], 3 * SOLVER_MS)
        self.ex.solver_secs += time.time() - t
        if r2 == "unsat":
            return "unsat", None, "cvc5"
        return "unknown", None, "z3+cvc5"

    def prove(self, cond, name):
        if self.spec:
            raise SpecFail()
        t = time.time()
        st, model, backend = self.validity(cond)
        ob = Obligation(
            name,
            {"unsat": "discharged", "sat": "refuted" if not self.approximated else "unknown", "unknown": "unknown"}[st],
            time.time() - t,
            backend,
            model,
            dict(self.choices),
            path=self.ex.paths,
        )
        self.ex.obligation(ob, self)
        if st == "sat" and self.approximated and len(self.ex.suspects) < 12:
            self.ex.suspects.append((ob, dict(self.inputs), dict(self.choices), dict(self.lits), dict(self.refined)))
        if st != "unsat":
            self.assume(cond)  # raises Infeasible when constant False
            if not self.feasible():
                raise Infeasible()
        else:
            self.assume(cond)
        return st == "unsat"

    # ---- texts
    def lit(self, s, derived=False):
        if s not in self.lits:
            c = z3.Const(f"lit${len(self.lits)}", Txt)
            for other in self.lits.values():
                self.assume(SBool(c != other))
            self.assume(SBool(TLEN(c) == len(s)))
            self.lits[s] = c
            if derived:
                self.derived.add(s)
            for term, b, fn in self.preds:
                self.assume(SBool(z3.Implies(term == c, b == z3.BoolVal(bool(fn(s))))))
            if not derived:
                for term, mk, fn in list(self.fns):
                    self._fn_axiom(term, mk, fn, s)
        return self.lits[s]

    def _fn_axiom(self, term, mk, fn, s):
        v = fn(s)
        c = self.lits[s]
        if isinstance(v, int):
            self.assume(SBool(z3.Implies(term == c, mk(term) == v)))
        else:
            self.assume(SBool(z3.Implies(term == c, mk(term) == self.lit(v, derived=True))))

    def pred(self, term, name, fn):
        """Boolean fact about a text term, tied to its value on every literal."""
        key = ("pred", term.sexpr(), name)
        if key not in self.memo:
            b = z3.Bool(f"pred${len(self.preds)}${name[0]}")
            self.memo[key] = b
            self.preds.append((term, b, fn))
            for s, c in list(self.lits.items()):
                self.assume(SBool(z3.Implies(term == c, b == z3.BoolVal(bool(fn(s))))))
        return SBool(self.memo[key])

    def pred_fact(self, term, name, fn, value):
        b = self.pred(term, name, fn)
        self.assume(b if value else SBool(z3.Not(b.e)))

    def textfn_axiom(self, term, f, fn, tag=None):
        self.approx("a text function known only by its values on literals")
        mk = f if callable(f) and not isinstance(f, z3.FuncDeclRef) else (lambda t: f(t))
        key = ("textfn", term.sexpr(), mk(term).sexpr())
        if key not in self.memo:
            self.memo[key] = True
            self.fns.append((term, mk, fn))
            for s in [x for x in self.lits if x not in self.derived]:
                self._fn_axiom(term, mk, fn, s)

    def intfn_axiom(self, term, e, fn, key=None):
        k = ("intfn", term.sexpr(), e.sexpr())
        if k not in self.memo:
            self.memo[k] = True
            mk = lambda t: e  # noqa: E731
            self.fns.append((term, mk, fn))
            for s in [x for x in self.lits if x not in self.derived]:
                self._fn_axiom(term, mk, fn, s)

    def expand(self, parts):
        if not self.refined:
            return list(parts)
        out = []
        for p in parts:
            if isinstance(p, Op):
                key = p.e.sexpr()
                if key in self.refined:
                    out.extend(self.expand(self.refined[key]))
                    continue
            out.append(p)
        return norm(out)

    def refine(self, op, parts):
        self.refined[op.e.sexpr()] = norm(parts)

    def oplen(self, p):
        n = TLEN(p.e)
        key = ("oplen", p.e.sexpr())
        if key not in self.memo:
            self.memo[key] = True
            self.assume(SBool(n >= p.minlen))
            if p.unit:
                self.assume(SBool(n == 1))
            else:
                self.assume(SBool((n == 0) == (p.e == self.lit(""))))
        return n

    def enc(self, s):
        """Encode a rope as a term of sort Txt."""
        terms = []
        for p in self.expand(parts_of(s)):
            if isinstance(p, str):
                terms.append(self.lit(p))
            elif isinstance(p, Num):
                terms.append(TNUM(p.e))
            elif isinstance(p, HexP):
                terms.append((THEXLOW if p.low else THEX)(p.e))
            elif isinstance(p, RealP):
                terms.append(TREAL(p.e, self.lit(p.spec)))
            else:
                terms.append(p.e)
        if not terms:
            return self.lit("")
        t = terms[0]
        for u in terms[1:]:
            t = TCAT(t, u)
        return t

    def strlen(self, s):
        if isinstance(s, str):
            return len(s)
        tot = 0
        sym = []
        for p in self.expand(s.parts):
            if isinstance(p, str):
                tot += len(p)
            elif isinstance(p, HexP):
                tot += 2
            elif isinstance(p, Op):
                if p.unit:
                    tot += 1
                else:
                    sym.append(self.oplen(p))
            else:
                t = TLEN(TNUM(p.e) if isinstance(p, Num) else TREAL(p.e, self.lit(p.spec)))
                self.assume(SBool(t >= 1))
                sym.append(t)
        if not sym:
            return tot
        e = sym[0]
        for u in sym[1:]:
            e = e + u
        return SInt(e + tot) if tot else SInt(e)

    def nonneg(self, e):
        return self.implied(SBool(e >= 0))

    def str_eq(self, a, b):
        """Equality of two ropes as a condition."""
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        xs, ys = self.expand(parts_of(a)), self.expand(parts_of(b))
        conds = []
        while True:
            xs, ys = norm(xs), norm(ys)
            if not xs and not ys:
                return land(conds) if conds else True
            if not xs or not ys:
                rest = xs or ys
                for p in rest:
                    if not isinstance(p, Op) or p.minlen > 0 or p.unit:
                        return False
                return land(conds + [SBool(p.e == self.lit("")) for p in rest])
            x, y = xs[0], ys[0]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                xs = [x[n:]] + xs[1:]
                ys = [y[n:]] + ys[1:]
                continue
            if isinstance(x, Op) and isinstance(y, Op):
                if x.e.eq(y.e):
                    xs, ys = xs[1:], ys[1:]
                    continue
                if x.unit and y.unit:
                    conds.append(SBool(x.e == y.e))
                    xs, ys = xs[1:], ys[1:]
                    continue
            if isinstance(x, HexP) and isinstance(y, HexP):
                conds.append(SBool(x.e == y.e))
                if x.low != y.low:
                    # no letters
                    conds.append(SBool(z3.And(x.e / 16 < 10, x.e % 16 < 10)))
                xs, ys = xs[1:], ys[1:]
                continue
            if isinstance(x, RealP) and isinstance(y, RealP) and x.spec == y.spec:
                if x.e.eq(y.e):
                    xs, ys = xs[1:], ys[1:]
                    continue
                if len(xs) == len(ys) == 1:
                    conds.append(SBool(TREAL(x.e, self.lit(x.spec)) == TREAL(y.e, self.lit(y.spec))))
                    return land(conds)
            # texts against literals
            if isinstance(x, str) and isinstance(y, Op):
                xs, ys, x, y = ys, xs, y, x
            if isinstance(x, Op) and x.unit and isinstance(y, str):
                if x.cannot_contain(y[0]):
                    return False
                conds.append(SBool(x.e == self.lit(y[0])))
                xs, ys = xs[1:], [y[1:]] + ys[1:]
                continue
            if isinstance(x, Op) and isinstance(y, str) and len(xs) == 1 and len(ys) == 1:
                if any(x.cannot_contain(c) for c in y) or len(y) < x.minlen:
                    return False
                self.oplen(x)
                conds.append(SBool(x.e == self.lit(y)))
                return land(conds)
            if isinstance(x, Op) and len(xs) == 1 and len(ys) == 1 and isinstance(y, Op):
                conds.append(SBool(x.e == y.e))
                return land(conds)
            # numbers
            if isinstance(x, Num) and isinstance(y, Num) and self._numend(xs) and self._numend(ys):
                conds.append(SBool(x.e == y.e))
                xs, ys = xs[1:], ys[1:]
                continue
            if isinstance(y, Num) and isinstance(x, str):
                xs, ys, x, y = ys, xs, y, x
            if isinstance(x, Num) and isinstance(y, str) and self._numend(xs):
                i = 0
                while i < len(y) and y[i].isdigit():
                    i += 1
                d = y[:i]
                if i == len(y) and len(ys) > 1:
                    break
                if not self.nonneg(x.e):
                    break
                if d == "":
                    return False
                if len(d) > 1 and d[0] == "0":
                    return False
                conds.append(SBool(x.e == int(d)))
                xs, ys = xs[1:], [y[i:]] + ys[1:]
                continue
            # identical trailing parts
            if len(xs) > 1 and len(ys) > 1:
                u, v = xs[-1], ys[-1]
                if isinstance(u, str) and isinstance(v, str):
                    n = min(len(u), len(v))
                    if u[-n:] != v[-n:]:
                        return False
                    xs = xs[:-1] + [u[:-n]]
                    ys = ys[:-1] + [v[:-n]]
                    continue
                if isinstance(u, Op) and isinstance(v, Op) and u.e.eq(v.e):
                    xs, ys = xs[:-1], ys[:-1]
                    continue
            break
        self.approx("equality of texts of different shapes")
        return land(conds + [SBool(self.enc(SStr(xs)) == self.enc(SStr(ys)))])

    def _numend(self, parts):
        if len(parts) == 1:
            return True
        n = parts[1]
        return isinstance(n, str) and not n[0].isdigit()

    def cover(self, label):
        self.ex.covered.add(label)


class Explorer:
    """Explores every path of `fn(path)`; collects obligations."""

    def __init__(self, name, budget_s=120.0, max_paths=6000):
        self.name = name
        self.script = []
        self.paths = 0
        self.rounds = 0
        self.obls = []
        self.covered = set()
        self.unsupported = []
        self.solver_secs = 0.0
        self.start = time.time()
        self.budget = budget_s
        self.max_paths = max_paths
        self.loop_tables = {}
        self.loop_memory = {}  # what was found out about a loop in the same place before
        self.trusted = set()
        self.functions = set()
        self.failed = []
        self.suspects = []  # obligations with a model that an over-approximation may have made up
        self.complete_paths = 0

    def marks(self):
        return len(self.obls), len(self.failed), len(self.unsupported), set(self.covered), self.complete_paths

    def restart_at(self, t):
        del self.script[t.pos:]
        o, f, u, covered, done = t.marks
        del self.obls[o:], self.failed[f:], self.unsupported[u:]
        self.covered, self.complete_paths = set(covered), done
        prefix = t.key[:-1]
        for k in [k for k in self.loop_tables if k is not t.key and len(k) > len(t.key) and k[: len(prefix)] == prefix]:
            del self.loop_tables[k]

    def tick(self):
        if time.time() - self.start > self.budget:
            raise BudgetExceeded()

    def obligation(self, ob, path):
        self.obls.append(ob)
        if ob.status == "refuted":
            self.failed.append((ob, dict(path.inputs), dict(path.choices), dict(path.lits), dict(path.refined)))

    def _reset(self):
        self.script = []
        self.obls = []
        self.failed = []
        self.unsupported = []
        self.covered = set()
        self.paths = 0
        self.complete_paths = 0

    def explore(self, fn):
        while True:
            self.rounds += 1
            self._reset()
            try:
                self._round(fn)
                return
            except Restart:
                if self.rounds > 150:
                    self.unsupported.append("loop tables did not stabilise")
                    return
            except BudgetExceeded:
                self.unsupported.append("time budget exceeded")
                return

    def _round(self, fn):
        while True:
            self.tick()
            path = Path(self)
            self.paths += 1
            if self.paths > self.max_paths:
                self.unsupported.append("path budget exceeded")
                return
            try:
                fn(path)
                self.complete_paths += 1
            except RestartAt as r:
                self.rounds += 1
                self.paths -= 1
                if self.rounds > 20000:
                    self.unsupported.append("loop invariants did not stabilise")
                    return
                self.restart_at(r.table)
                continue
            except (Infeasible, PathEnd):
                pass
            except Unsupported as exc:
                if path.feasible():
                    msg = f"{exc}"
                    if msg not in self.unsupported:
                        self.unsupported.append(msg)
                    if len(self.unsupported) > 20:
                        return
            del self.script[path.pos:]
            while self.script:
                d = self.script[-1]
                d["i"] += 1
                if d["i"] < len(d["opts"]):
                    break
                self.script.pop()
            if not self.script:
                return
