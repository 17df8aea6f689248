"""Contracts: one specification text, three uses.

A contract is a Python function of a context `cx`.  It draws the inputs (`cx.int`, `cx.text`, ...),
states the precondition (`cx.require`), runs the real function (`cx.call`, `cx.outcome`), and
states the postcondition (`cx.ensure`).

* `SymCx`   - inputs are symbolic, `cx.call` interprets the AST of the real function on every
              path, `cx.ensure` is an obligation for the solver (all inputs).
* `NativeCx` - inputs come from a solver model (replay of a refuted obligation) or from a
              generator (bounded stand-in and cross-check of the engine), `cx.call` calls the
              real function in CPython, `cx.ensure` is evaluated.
"""

from __future__ import annotations

import ast
import glob
import os
import random
import re
import sys
import time
import traceback
import types

import z3

from .values import *  # noqa: F401,F403
from .values import _b
from .heap import PList, PDict, ABSENT
from .path import Explorer, Path, Infeasible, PathEnd, Restart
from . import interp as I
from . import models as M

REPO = os.environ.get("VERIF_REPO", "/repo")


class Skip(Exception):
    pass


class _Missing:
    pass


_MISSING = _Missing()


class EnvModel(I.Model):
    """An object of the environment, defined by a specification: a plain Python object whose
    methods receive symbolic values."""

    def __init__(self, obj):
        self.__dict__["obj"] = obj

    def get(self, interp, name):
        try:
            v = getattr(self.obj, name)
        except AttributeError as exc:
            raise PyExc(AttributeError, exc.args)
        if callable(v) and not isinstance(v, I.Model):
            return I.Builtin(name, lambda args, kw: v(*args, **kw))
        return v


class Outcome:
    def __init__(self, value=None, exc=None, detail=""):
        self.value, self.exc, self.detail = value, exc, detail

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return f"value {self.value!r}" if self.ok else f"{getattr(self.exc, '__name__', self.exc)}({self.detail})"


class Contract:
    def __init__(self, name, fn, cases=None, covers=(), budget=60, trials=6000, secs=4.0, max_paths=20000, native=None, symbolic=True, trust=(), bound=None):
        self.name, self.fn, self.cases, self.covers = name, fn, cases or [{}], covers
        self.budget, self.trials, self.secs, self.max_paths = budget, trials, secs, max_paths
        self.native_fn = native
        self.symbolic = symbolic
        self.trust = trust
        # a bound on the shape of the inputs (list lengths, sizes); values within it are arbitrary
        self.bound = bound


REGISTRY = []


def contract(name, **kw):
    def deco(fn):
        REGISTRY.append(Contract(name, fn, **kw))
        return fn

    return deco


def take_registry():
    out = list(REGISTRY)
    REGISTRY.clear()
    return out


# ----------------------------------------------------------------------------- symbolic


class SymCx:
    symbolic = True

    def __init__(self, path, case):
        self.path = path
        self.case = case
        self.ip = I.Interp(path, self)
        self.allow_native = set()
        self.classes = set()
        self.ghost = {}

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if "case" in self.__dict__ and name in self.case:
            return self.case[name]
        raise AttributeError(name)

    # loops of symbolic length
    def loops(self, hints=(), interest=(), observer=None):
        """Decide loops of symbolic length by the loop rule.  Stand-ins of the harness called in
        such loops must keep their state in interpreted objects."""
        self.ip.loops.enabled = True
        self.ip.loops.hints = list(hints)
        self.ip.loops.interest = list(interest)
        self.ip.loops.observer = observer

    # inputs
    def int(self, name, lo=None, hi=None):
        v = self.path.fresh_int(name)
        self.path.inputs[name] = ("int", v.e)
        if lo is not None:
            self.path.assume(cmp(">=", v, lo))
        if hi is not None:
            self.path.assume(cmp("<=", v, hi))
        return v

    def real(self, name, lo=None, hi=None):
        v = self.path.fresh_real(name)
        self.path.inputs[name] = ("real", v.e)
        if lo is not None:
            self.path.assume(cmp(">=", v, lo))
        if hi is not None:
            self.path.assume(cmp("<=", v, hi))
        return v

    def bool(self, name):
        v = self.path.free_bool(name)
        self.path.inputs[name] = ("bool", v.e)
        return v

    def text(self, name, excl=(), alpha=None, minlen=0, unit=False, pool=None):
        v = self.path.fresh_txt(name, excl=frozenset(excl), alpha=alpha, minlen=1 if unit else minlen, unit=unit)
        self.path.inputs[name] = ("text", v.parts[0].e, sorted(excl), sorted(alpha) if alpha is not None else None, unit)
        return v

    def choice(self, name, options):
        options = list(options)
        v = self.path.choose(list(range(len(options))), label=name)
        self.path.inputs[name] = ("choice", v)
        return options[v]

    # logic
    def require(self, cond):
        self.path.assume(_b(cond))
        if not self.path.feasible():
            raise Infeasible()

    def ensure(self, name, cond):
        self.path.prove(_b(cond), name)

    def check(self, cond):
        """Decide a condition (forks the proof)."""
        return self.path.decide(_b(cond))

    def cover(self, label):
        self.path.cover(label)

    # running the code
    def call(self, f, *args, **kw):
        return self.ip.call(f, [self.ip.wrap(a) for a in args], {k: self.ip.wrap(v) for k, v in kw.items()})

    def outcome(self, f, *args, **kw):
        try:
            return Outcome(self.call(f, *args, **kw))
        except PyExc as exc:
            return Outcome(None, exc.etype, str(exc.args_)[:200])

    def run(self, thunk):
        """Outcome of a thunk that makes several calls."""
        try:
            return Outcome(thunk())
        except PyExc as exc:
            return Outcome(None, exc.etype, str(exc.args_)[:200])

    def get(self, obj, name):
        return self.ip.getattr(obj, name)

    def set(self, obj, name, v):
        self.ip.setattr(obj, name, v)

    def method(self, obj, name, *args, **kw):
        return self.ip.call(self.ip.getattr(obj, name), [self.ip.wrap(a) for a in args], {k: self.ip.wrap(v) for k, v in kw.items()})

    def list(self, items):
        return PList.concrete(self.path, list(items))

    def items(self, lst):
        """Native list of a concrete-shape list value."""
        if isinstance(lst, (list, tuple)):
            return list(lst)
        seq = self.ip.sequence(lst)
        if seq is None:
            raise Unsupported("list of symbolic length in a specification")
        return seq

    def dict_items(self, d):
        if isinstance(d, PDict):
            return {self.ip.to_native(k): v for k, v in d.entries()}
        return dict(d)

    def slice(self, a, b, c=None):
        return I.SliceV(a, b, c)

    def getitem(self, o, k):
        return M.getitem(self.ip, o, k)

    # spec helpers, polymorphic
    def eq(self, a, b):
        if isinstance(a, (list,)):
            a = tuple(a)
        if isinstance(b, (list,)):
            b = tuple(b)
        if isinstance(a, PList) and a.items is not None and isinstance(b, tuple):
            a = tuple(a.items)
        if isinstance(b, PList) and b.items is not None and isinstance(a, tuple):
            b = tuple(b.items)
        return self.ip.eq(a, b)

    def same(self, a, b):
        return a is b

    def len(self, s):
        return M.b_len(self.ip, [s], {})

    def concat(self, *xs):
        out = ""
        for x in xs:
            out = M.concat(out, x if is_str(x) else M.str_(self.ip, x))
        return out

    def dec(self, n):
        return M.str_(self.ip, n)

    def truncr(self, x):
        return SInt(M.trunc(zreal(x))) if is_sym(x) else int(x)

    def is_none(self, v):
        return v is None

    def isinstance(self, v, t):
        return M.b_isinstance(self.ip, [v, t], {})

    def callback(self, handler):
        """A function of the environment: `handler(*args)` runs when the code calls it."""
        return I.Builtin("callback", lambda args, kw: handler(*args, **kw))

    def throw(self, etype, *args):
        raise PyExc(etype, args)

    # contracts of callees
    def stub(self, fn, handler, note):
        """Replace a callee by its contract."""
        if fn is None:
            return
        raw, _ = self.ip.unwrap(fn) if not isinstance(fn, type) else (fn, None)
        self.ip.stubs[raw] = handler
        self.path.ex.assumed.add(note)

    def model(self, fn, handler):
        self.ip.models[fn] = handler

    def override(self, module, name, value):
        self.ip.global_overrides[(module, name)] = value

    # the environment
    def env(self, obj):
        key = ("env", id(obj))
        if key not in self.path.memo:
            self.path.memo[key] = EnvModel(obj)
        return self.path.memo[key]

    def patch(self, module, name, value):
        if isinstance(value, types.FunctionType):
            f = value
            value = I.Builtin(name, lambda args, kw: f(*args, **kw))
        self.ip.global_overrides[(module.__name__, name)] = value

    def replace(self, fn, handler):
        self.ip.models[fn] = lambda ip, args, kw: handler(*args, **kw)

    def on_exit(self, f):
        pass

    def with_block(self, cm, body):
        out = []
        if not isinstance(cm, I.CtxMgr):
            raise Unsupported("with on a value that is no context manager")
        self.ip.run_ctx(cm, lambda value: out.append(body()))
        return out[0] if out else None


# ----------------------------------------------------------------------------- native


class NativeCx:
    symbolic = False

    def __init__(self, case, values=None, rng=None, pool=None):
        self.case = case
        self.values = values or {}
        self.rng = rng or random.Random(0)
        self.pool = pool or LiteralPool.empty()
        self.drawn = {}
        self.failures = []
        self.evaluated = 0
        self.covered = set()
        self.trace = []
        self.cleanup = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if "case" in self.__dict__ and name in self.case:
            return self.case[name]
        raise AttributeError(name)

    def _given(self, name):
        return name in self.values

    def int(self, name, lo=None, hi=None):
        if self._given(name):
            v = int(self.values[name])
        else:
            v = self.gen_int(lo, hi)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        self.drawn[name] = v
        return v

    def gen_int(self, lo, hi):
        r = self.rng
        k = r.random()
        if lo is not None and hi is not None:
            if k < 0.2:
                return r.choice([lo, hi, min(hi, lo + 1), max(lo, hi - 1)])
            if k < 0.45:
                c = [x + d for x in self.pool.ints for d in (-1, 0, 1) if lo <= x + d <= hi]
                if c:
                    return r.choice(c)
            if k < 0.6:
                return r.randint(lo, min(hi, lo + 5))
            return r.randint(lo, hi)
        base = lo if lo is not None else (hi if hi is not None else 0)
        sign = -1 if (lo is None and hi is not None) else 1
        if lo is None and hi is None and r.random() < 0.3:
            sign = -1
        if k < 0.25:
            c = [x + d for x in self.pool.ints for d in (-1, 0, 1)]
            c = [x for x in c if (lo is None or x >= lo) and (hi is None or x <= hi)]
            if c:
                return r.choice(c)
        return base + sign * r.choice([0, 0, 1, 1, 2, 3, 5, 8, 13, r.randint(0, 40), r.randint(0, 300)])

    def real(self, name, lo=None, hi=None):
        if self._given(name):
            v = float(self.values[name])
        else:
            r = self.rng
            k = r.random()
            c = [x for x in self.pool.floats if (lo is None or x >= lo) and (hi is None or x <= hi)]
            if k < 0.3 and c:
                v = r.choice(c)
            elif k < 0.5:
                v = float(r.choice([x for x in (lo, hi, 0.0, 1.0, 0.5) if x is not None and (lo is None or x >= lo) and (hi is None or x <= hi)] or [0.5]))
            else:
                a = lo if lo is not None else -10.0
                b = hi if hi is not None else 10.0
                v = r.uniform(a, b)
                if k < 0.75:
                    v = min(max(round(v, r.choice([1, 2])), a), b)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        self.drawn[name] = v
        return v

    def bool(self, name):
        v = bool(self.values[name]) if self._given(name) else self.rng.random() < 0.5
        self.drawn[name] = v
        return v

    def text(self, name, excl=(), alpha=None, minlen=0, unit=False, pool=None):
        if self._given(name):
            v = self.values[name]
        else:
            v = self.gen_text(excl, alpha, minlen, unit, pool)
        if any(c in v for c in excl) or (alpha is not None and any(c not in alpha for c in v)) or len(v) < minlen or (unit and len(v) != 1):
            raise Skip()
        self.drawn[name] = v
        return v

    CHARS = "abcXYZ 019.,;:-_#<>&\"'/\\[]mMHh%{}!?=+*()\t\x07éß中▀█🙂"

    def gen_text(self, excl, alpha, minlen, unit, pool):
        r = self.rng
        ex = set(excl)
        if pool and r.random() < 0.5:
            c = [s for s in pool if not (set(s) & ex) and (not unit or len(s) == 1)]
            if c:
                return r.choice(c)
        lits = [s for s in self.pool.texts if not (set(s) & ex) and (alpha is None or set(s) <= set(alpha))]
        if unit:
            lits = [s for s in lits if len(s) == 1]
            if lits and r.random() < 0.4:
                return r.choice(lits)
            src = [c for c in (alpha or self.CHARS + "\x1b\n") if c not in ex]
            return r.choice(list(src))
        k = r.random()
        if k < 0.25 and lits:
            s = r.choice(lits)
            if r.random() < 0.3:
                s += r.choice(lits)
            if len(s) >= minlen:
                return s
        src = [c for c in (alpha or self.CHARS + ("\x1b\n" if r.random() < 0.3 else "")) if c not in ex]
        src.sort()
        n = minlen + r.choice([0, 0, 1, 1, 2, 3, 4, 6, 9, 14])
        if r.random() < 0.03:
            # a long text, past a number the code mentions
            n = r.choice([x + 2 for x in self.pool.ints if r.choice([14, 250]) < x <= 6000] or [300])
        if r.random() < 0.3 and src:
            src = [r.choice(src) for _ in range(2)]
        return "".join(r.choice(src) for _ in range(n)) if src else ""

    def choice(self, name, options):
        options = list(options)
        i = int(self.values[name]) if self._given(name) else self.rng.randrange(len(options))
        if i >= len(options):
            raise Skip()
        self.drawn[name] = i
        return options[i]

    def require(self, cond):
        if not cond:
            raise Skip()

    def ensure(self, name, cond):
        self.evaluated += 1
        if not cond:
            self.failures.append(name)

    def check(self, cond):
        return bool(cond)

    def cover(self, label):
        self.covered.add(label)

    def call(self, f, *args, **kw):
        return f(*args, **kw)

    def outcome(self, f, *args, **kw):
        return self.run(lambda: f(*args, **kw))

    def run(self, thunk):
        try:
            return Outcome(thunk())
        except (Skip, HarnessError):
            raise
        except BaseException as exc:  # noqa: BLE001
            return Outcome(None, type(exc), str(exc)[:200])

    def get(self, obj, name):
        return getattr(obj, name)

    def set(self, obj, name, v):
        setattr(obj, name, v)

    def method(self, obj, name, *args, **kw):
        return getattr(obj, name)(*args, **kw)

    def list(self, items):
        return list(items)

    def items(self, lst):
        return list(lst)

    def dict_items(self, d):
        return dict(d)

    def slice(self, a, b, c=None):
        return slice(a, b, c)

    def getitem(self, o, k):
        return o[k]

    def eq(self, a, b):
        if isinstance(a, list) and isinstance(b, tuple):
            a = tuple(a)
        if isinstance(b, list) and isinstance(a, tuple):
            b = tuple(b)
        return a == b

    def same(self, a, b):
        return a is b

    def len(self, s):
        return len(s)

    def concat(self, *xs):
        return "".join(str(x) for x in xs)

    def dec(self, n):
        return str(n)

    def truncr(self, x):
        return int(x)

    def is_none(self, v):
        return v is None

    def isinstance(self, v, t):
        return isinstance(v, t)

    def callback(self, handler):
        return lambda *a, **k: handler(*a, **k)

    def throw(self, etype, *args):
        exc = etype(*args)
        exc.thrown_to_code = True
        raise exc

    def stub(self, *a, **k):
        pass

    def model(self, *a, **k):
        pass

    def override(self, *a, **k):
        pass

    # the environment
    def env(self, obj):
        return obj

    def patch(self, module, name, value):
        old = getattr(module, name, _MISSING)
        self.cleanup.append((module, name, old))
        setattr(module, name, value)

    def replace(self, fn, handler):
        """Replace a function of the environment wherever the code can reach it."""
        def f(*a, **k):
            return handler(*a, **k)

        mods = [m for n, m in list(sys.modules.items()) if n == "slate" or n.startswith("slate.")]
        owner = sys.modules.get(getattr(fn, "__module__", None) or "")
        libs = [sys.modules.get(n) for n in ("os", "select", "termios", "tty", "signal", "shutil", "codecs", "threading", "time")]
        for m in mods + libs + [owner]:
            if m is None:
                continue
            for name, v in list(vars(m).items()):
                if v is fn:
                    self.patch(m, name, f)

    def on_exit(self, f):
        self.cleanup.append(f)

    def undo(self):
        for ent in reversed(self.cleanup):
            if callable(ent):
                ent()
                continue
            module, name, old = ent
            if old is _MISSING:
                delattr(module, name)
            else:
                setattr(module, name, old)
        self.cleanup.clear()

    def with_block(self, cm, body):
        with cm:
            return body()


class LiteralPool:
    """Literals of the current source: the boundary values a change would test against."""

    def __init__(self, ints, floats, texts):
        self.ints, self.floats, self.texts = ints, floats, texts

    @staticmethod
    def empty():
        return LiteralPool([0, 1], [0.0, 1.0], [""])

    @staticmethod
    def harvest(files=None):
        ints, floats, texts = set(), set(), set()
        for f in files or sorted(glob.glob(os.path.join(REPO, "slate", "*.py"))):
            if os.path.basename(f) in ("color_info.py", "__main__.py", "key_names.py"):
                continue
            try:
                tree = ast.parse(open(f, encoding="utf-8").read())
            except (OSError, SyntaxError):
                continue
            docs = set()
            for node in ast.walk(tree):
                if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)) and node.body:
                    b = node.body[0]
                    if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                        docs.add(id(b.value))
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and id(node) not in docs:
                    v = node.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int) and abs(v) <= 100000:
                        ints.add(v)
                    elif isinstance(v, float):
                        floats.add(v)
                    elif isinstance(v, str) and 0 < len(v) <= 12:
                        texts.add(v)
        return LiteralPool(sorted(ints), sorted(floats), sorted(texts))


# ----------------------------------------------------------------------------- models to inputs


def native_inputs(model, inputs, choices, lits, refined):
    """Concrete inputs of a refuted obligation, from the solver's model (best effort)."""
    inv = {}
    for s, c in lits.items():
        inv[str(model.eval(c, model_completion=True))] = s
    counter = [0]
    made = {}

    def ev(e):
        return model.eval(e, model_completion=True)

    def iv(e):
        v = ev(e)
        try:
            return v.as_long()
        except Exception:  # noqa: BLE001
            return 0

    def rv(e):
        v = ev(e)
        try:
            return float(v.as_fraction())
        except Exception:  # noqa: BLE001
            try:
                return float(v.approx(20).as_fraction())
            except Exception:  # noqa: BLE001
                return 0.0

    def txt(op_e, excl, alpha, unit=False):
        key = op_e.sexpr()
        if key in refined:
            return "".join(part(p) for p in refined[key])
        val = str(ev(op_e))
        if val in inv:
            return inv[val]
        n = 1 if unit else max(0, min(iv(TLEN(op_e)), 60))
        out = ""
        for i in range(n):
            c = None
            if not unit:
                cv = str(ev(TCHAR(op_e, z3.IntVal(i))))
                c = inv.get(cv)
                if c is None or len(c) != 1:
                    c = made.get(("c", cv))
                if c is None:
                    c = filler(excl, alpha)
                    made[("c", cv)] = c
            else:
                c = made.get(("c", val)) or filler(excl, alpha)
                made[("c", val)] = c
            out += c
        return out

    def filler(excl, alpha):
        cand = [c for c in (alpha if alpha is not None else "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") if c not in excl]
        if not cand:
            return ""
        counter[0] += 1
        return cand[counter[0] % len(cand)]

    def part(p):
        if isinstance(p, str):
            return p
        if isinstance(p, Num):
            return str(iv(p.e))
        if isinstance(p, HexP):
            return format(iv(p.e) & 255, "02x" if p.low else "02X")
        if isinstance(p, RealP):
            return format(rv(p.e), p.spec)
        return txt(p.e, p.excl, p.alpha, p.unit)

    out = {}
    for name, info in inputs.items():
        k = info[0]
        if k == "int":
            out[name] = iv(info[1])
        elif k == "real":
            out[name] = rv(info[1])
        elif k == "bool":
            out[name] = bool(z3.is_true(ev(info[1])))
        elif k == "choice":
            out[name] = info[1]
        elif k == "text":
            out[name] = txt(info[1], set(info[2]), info[3], info[4])
    return out


# ----------------------------------------------------------------------------- running a contract


class BadOutput(Exception):
    """A specification met concrete output of the code that no reader of it could interpret."""


class HarnessError(Exception):
    """The specification itself failed (a name it needs is gone): undecided, not a violation."""


def _from_repo(exc):
    """Did the exception arise inside the code under verification?"""
    tb = exc.__traceback__
    hit = False
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(os.path.join(REPO, "slate") + os.sep):
            hit = True
        elif "/verif/" in fn or fn.startswith(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))):
            hit = False
        tb = tb.tb_next
    return hit


_PRIVATE = re.compile(r"""['".]_[a-z]""")
_SIGNATURE = ("positional argument", "keyword argument", "missing ", "not callable")


def _misshapen(exc):
    """Did a contract fail to make sense of a result (a value of the wrong type or shape)?  Not
    when it was looking at private names or calling something of another signature, which the code
    is free to change."""
    if not isinstance(exc, (TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError)):
        return False
    if isinstance(exc, AttributeError) and (isinstance(exc.obj, types.ModuleType) or isinstance(exc.obj, type) or isinstance(exc.obj, NativeCx) or str(exc.name).startswith("_")):
        return False
    if isinstance(exc, TypeError) and any(x in str(exc) for x in _SIGNATURE):
        return False
    frames = traceback.extract_tb(exc.__traceback__)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    spec = [f for f in frames if f.filename.startswith(os.path.join(here, "props"))]
    return bool(spec) and not any(_PRIVATE.search(f.line or "") for f in spec)


def run_native(contract, case, values=None, rng=None, pool=None):
    """Run a contract natively.  Returns the context, or None when the inputs are outside the
    precondition."""
    cx = NativeCx(case, values, rng, pool)
    fn = contract.native_fn or contract.fn
    try:
        fn(cx)
    except Skip:
        return None
    except BadOutput as exc:
        cx.failures.append(f"the output is well formed ({exc})")
    except BaseException as exc:  # noqa: BLE001
        # an exception the environment raised in the code, which the contract does not expect out
        thrown = getattr(exc, "thrown_to_code", False)
        if not isinstance(exc, Exception) and not thrown:
            raise
        if cx.failures:
            # the rest of the contract may rely on what has already failed
            return cx
        if not thrown and not _from_repo(exc) and _misshapen(exc):
            cx.trace.append(traceback.format_exc()[-1500:])
            cx.failures.append(f"results have the form they should ({type(exc).__name__}: {str(exc)[:200]})")
            return cx
        if not thrown and not _from_repo(exc):
            raise HarnessError(traceback.format_exc()[-1200:]) from exc
        cx.trace.append(traceback.format_exc()[-1500:])
        cx.failures.append(f"no unexpected exception ({type(exc).__name__}: {str(exc)[:200]})")
    finally:
        cx.undo()
    return cx


def prove_contract(contract, case, budget=None):
    """Symbolic run of one case.  Returns a plain dict (picklable)."""
    ex = Explorer(contract.name, budget_s=budget or contract.budget, max_paths=contract.max_paths)
    ex.assumed = set()
    err = None

    def body(path):
        cx = SymCx(path, case)
        try:
            contract.fn(cx)
        except PyExc as exc:
            # an exception the contract does not expect
            path.prove(False, f"no unexpected exception ({getattr(exc.etype, '__name__', exc.etype)}: {str(exc.args_)[:120]})")
        except (BreakIt,):
            pass

    t = time.time()
    try:
        ex.explore(body)
    except RecursionError:
        ex.unsupported.append("recursion limit")
    except Exception as exc:  # noqa: BLE001
        if os.environ.get("VERIF_TRACE"):
            raise
        ex.unsupported.append("engine: " + repr(exc)[:200])
        err = traceback.format_exc()

    def concrete(failed):
        out = []
        seen = {}
        for ob, inputs, choices, lits, refined in failed:
            if seen.get(ob.name, 0) >= 3:
                continue
            seen[ob.name] = seen.get(ob.name, 0) + 1
            vals = {}
            try:
                if ob.model is not None:
                    vals = native_inputs(ob.model, inputs, choices, lits, refined)
            except Exception as exc:  # noqa: BLE001
                vals = {"<model>": repr(exc)}
            out.append({"obligation": ob.name, "inputs": vals, "model": str(ob.model)[:1500]})
        return out

    refuted = concrete(ex.failed)
    names = {}
    for ob in ex.obls:
        d = names.setdefault(ob.name, {"discharged": 0, "refuted": 0, "unknown": 0})
        d[ob.status] += 1
    backends = {}
    for ob in ex.obls:
        if ob.status == "discharged":
            backends[ob.backend] = backends.get(ob.backend, 0) + 1
    return {
        "contract": contract.name,
        "case": {k: repr(v)[:60] for k, v in case.items()},
        "obligations": len(ex.obls),
        "discharged": sum(1 for o in ex.obls if o.status == "discharged"),
        "unknown": sorted({o.name for o in ex.obls if o.status == "unknown"}),
        "names": names,
        "backends": backends,
        "refuted": refuted,
        "suspects": concrete(ex.suspects),
        "unsupported": list(ex.unsupported),
        "covered": sorted(ex.covered),
        "paths": ex.paths,
        "complete": ex.complete_paths,
        "rounds": ex.rounds,
        "solver_s": round(ex.solver_secs, 3),
        "wall_s": round(time.time() - t, 3),
        "functions": sorted(ex.functions),
        "trusted": sorted(ex.trusted),
        "assumed": sorted(ex.assumed),
        "error": err,
    }


class BreakIt(Exception):
    pass


def search_contract(contract, case, seed, trials, secs, pool):
    """Native search for an input that violates the contract."""
    rng = random.Random(f"{seed}:{contract.name}:{sorted(case)}")
    t = time.time()
    runs = skipped = evals = total = broken = 0
    covered = set()
    found = None
    error = None
    sample = None
    distinct = set()
    for _ in range(trials):
        if time.time() - t > secs:
            break
        r = random.Random(rng.random())
        try:
            cx = run_native(contract, case, rng=r, pool=pool)
        except HarnessError as exc:
            error = str(exc)
            broken += 1
            if broken > 20:
                break
            continue
        if cx is None:
            skipped += 1
            continue
        key = hash(repr(sorted(cx.drawn.items(), key=lambda kv: kv[0])))
        if cx.evaluated and key not in distinct:
            distinct.add(key)
            sample = sample or {k: repr(v)[:80] for k, v in cx.drawn.items()}
        evals += cx.evaluated
        total += 1
        covered |= cx.covered
        if cx.failures:
            found = {"obligation": cx.failures[0], "inputs": dict(cx.drawn), "trace": cx.trace[-30:]}
            break
    return {"found": found, "runs": total, "distinct": len(distinct), "sample": sample, "skipped": skipped, "evals": evals, "covered": sorted(covered), "error": error, "wall_s": round(time.time() - t, 3)}


def replay(contract, case, values):
    """Replay of model inputs on the real code: a failed obligation, or None."""
    try:
        cx = run_native(contract, case, values, random.Random(0), LiteralPool.empty())
    except HarnessError:
        return None
    if cx is None or not cx.failures:
        return None
    return {"obligation": cx.failures[0], "inputs": dict(cx.drawn), "trace": cx.trace[-30:]}
