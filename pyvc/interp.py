"""Interpreter of the Python subset over symbolic values.

It executes the AST of the functions that really run: a function value is a native function
object of the imported package, its AST is looked up in the source file its code object names,
its globals, defaults and closure cells are those of the native object.
"""

from __future__ import annotations

import ast
import builtins
import contextlib
import dataclasses
import enum
import io
import functools
import inspect
import types
from fractions import Fraction

import z3

from .values import *  # noqa: F401,F403
from .heap import PList, PDict, ABSENT, absof, AbsType, materialize, _const_key
from .path import Infeasible, PathEnd, Restart, SpecFail

_CTXMANAGER_CODE = contextlib.contextmanager(lambda: iter(()))  # sample
_LRU = type(functools.lru_cache(lambda: None))


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class GenClose(Exception):
    """Early exit of the consumer of a generator: unwinds the generator frame."""


class Source:
    """AST index of the source files, parsed from the current tree on every run."""

    def __init__(self):
        self.files = {}

    def _load(self, filename):
        if filename not in self.files:
            with open(filename, encoding="utf-8") as f:
                tree = ast.parse(f.read(), filename)
            index = {}
            for node in ast.walk(tree):
                if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    lines = [node.lineno] + [d.lineno for d in node.decorator_list]
                    index[(node.name, min(lines))] = node
                elif isinstance(node, ast.Lambda):
                    index.setdefault(("<lambda>", node.lineno), []).append(node)
            self.files[filename] = index
        return self.files[filename]

    def find(self, fn):
        code = fn.__code__
        try:
            index = self._load(code.co_filename)
        except (OSError, SyntaxError) as exc:
            raise Unsupported(f"no source for {fn.__qualname__}: {exc}")
        if code.co_name == "<lambda>":
            nodes = index.get(("<lambda>", code.co_firstlineno), [])
            if len(nodes) == 1:
                return nodes[0]
            raise Unsupported("ambiguous lambda")
        node = index.get((code.co_name, code.co_firstlineno))
        if node is None:
            raise Unsupported(f"source of {fn.__qualname__} not found")
        return node


SOURCE = Source()


class Fn:
    """A function created by interpreted code (closure)."""

    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults, self.name = node, frame, defaults, kwdefaults, name
        self.contextmanager = False


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return f"<bound {self.fn} of {self.self_}>"


class Builtin:
    """A method of a modelled value."""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f"<builtin {self.name}>"


class CtxMgr:
    """Result of calling a @contextmanager function: deferred body."""

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class GenObj:
    """A generator not yet started; consumed by a for loop (lazily) or collected."""

    oid = 0

    def __init__(self, run, path=None):
        self.run = run  # run(callback): executes the generator body, callback per yield
        self.used = False
        self.path = path
        if path is not None:
            self.oid = path.new_oid()

    def use(self):
        """Consumed: in a loop, only if it was made there."""
        self.used = True
        if self.path is not None:
            self.path.log_write(("generator", self.oid), self.oid)


class LocalClass:
    def __init__(self, name, bases, ns):
        self.__name__ = name
        self.bases, self.ns = bases, ns


class Model:
    """Base of harness-defined stand-ins for external objects.  Methods `m_<name>(interp, *a)`,
    attributes `a_<name>(interp)`."""

    def get(self, interp, name):
        m = getattr(self, "m_" + name, None)
        if m is not None:
            return Builtin(name, lambda args, kwargs, m=m: m(interp, *args, **kwargs))
        a = getattr(self, "a_" + name, None)
        if a is not None:
            return a(interp)
        raise PyExc(AttributeError, (name,))


class TextBuffer(Model):
    """io.StringIO."""

    def __init__(self, ip, text="", pos=0):
        self.text, self.pos = text, pos
        self.oid = ip.path.new_oid()

    def _len(self, ip):
        return ip.path.strlen(self.text)

    def m_getvalue(self, ip):
        return self.text

    def m_tell(self, ip):
        return self.pos

    def m_seek(self, ip, off, whence=0):
        ip.path.log_write(("buffer", self.oid), self.oid)
        if whence == 0:
            self.pos = off
        elif whence == 2 and off == 0:
            self.pos = self._len(ip)
        elif whence == 1 and off == 0:
            pass
        else:
            raise Unsupported("seek")
        return self.pos

    def m_truncate(self, ip, size=None):
        ip.path.log_write(("buffer", self.oid), self.oid)
        from . import models as M

        size = self.pos if size is None else size
        if not (isinstance(size, int) and size == 0):
            if not ip.path.implied(cmp("<=", size, self._len(ip))):
                raise Unsupported("truncate")
            self.text = M.str_slice(ip, self.text, SliceV(None, size, None))
        else:
            self.text = ""
        return size

    def m_write(self, ip, s):
        ip.path.log_write(("buffer", self.oid), self.oid)
        from . import models as M

        if not is_str(s):
            raise PyExc(TypeError, ("string argument expected",))
        n, p = self._len(ip), self.pos
        if ip.path.implied(cmp("==", p, n)):
            self.text = M.concat(self.text, s)
            self.pos = self._len(ip)
        elif isinstance(p, int) and p == 0:
            self.text = M.concat(s, M.str_slice(ip, self.text, SliceV(ip.path.strlen(s), None, None)))
            self.pos = ip.path.strlen(s)
        else:
            raise Unsupported("write in the middle of a buffer")
        return ip.path.strlen(s)

    def m_read(self, ip, size=-1):
        ip.path.log_write(("buffer", self.oid), self.oid)
        from . import models as M

        if not (size is None or (isinstance(size, int) and size < 0)):
            raise Unsupported("sized read")
        r = self.text if isinstance(self.pos, int) and self.pos == 0 else M.str_slice(ip, self.text, SliceV(self.pos, None, None))
        self.pos = self._len(ip)
        return r

    def m_flush(self, ip):
        return None

    def m_isatty(self, ip):
        return False

    def m_close(self, ip):
        return None


class Frame:
    oid = 0
    tracked = False

    def __init__(self, globals_, parent=None, name="?", locals_=None, path=None):
        if path is not None:
            self.oid = path.new_oid()
            path.frames[self.oid] = self
        self.locals = locals_ if locals_ is not None else {}
        self.globals = globals_
        self.parent = parent
        self.name = name
        self.nonlocals = set()
        self.globalnames = set()
        self.yield_cb = None
        self.cls = None
        self.cells = None


_UNSET = object()

PURE_TYPES = (str, int, float, bool, bytes, type(None), complex)


PURE_CALLS = {"int", "len", "str", "isinstance", "abs", "min", "max", "ord", "float", "bool", "range", "chain"}
PURE_METHODS = {"startswith", "endswith", "isdigit", "isalpha", "isdecimal", "lower", "upper", "strip", "lstrip", "rstrip", "count", "get"}


def pure_expr(e):
    """An expression whose evaluation has no effects."""
    for x in ast.walk(e):
        if isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return False
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name) and f.id in PURE_CALLS:
                continue
            if isinstance(f, ast.Attribute) and f.attr in PURE_METHODS:
                continue
            return False
    return True


def _tail_expr(stmts):
    """A chain of conditional returns of pure expressions that ends in a return."""
    while True:
        if not stmts:
            return False
        x = stmts[0]
        if isinstance(x, ast.Return):
            return x.value is not None and pure_expr(x.value)
        if not (isinstance(x, ast.If) and len(x.body) == 1 and isinstance(x.body[0], ast.Return) and x.body[0].value is not None and pure_expr(x.body[0].value) and pure_expr(x.test)):
            return False
        stmts = x.orelse or stmts[1:]


def _merge_num(t, a, b, need_sym=True):
    """The value of a conditional whose branches are numbers of the same kind."""
    for v in (a, b):
        if not is_numlike(v):
            raise SpecFail()
    kinds = [0 if isinstance(v, (bool, SBool)) else 1 if is_intlike(v) else 2 for v in (a, b)]
    if kinds[0] != kinds[1]:
        raise SpecFail()
    if need_sym and not (is_sym(a) or is_sym(b)):
        raise SpecFail()
    return ite(t, a, b)


class Interp:
    def __init__(self, path, harness=None):
        self.path = path
        path.interp = self
        self.harness = harness
        self.stubs = {}  # native function -> handler(interp, args, kwargs)
        self.models = {}  # native callable -> handler
        self.attr_stubs = {}  # (class, attr) -> handler(interp, obj)
        self.instance_makers = {}
        self.plain_eq = set()
        self.call_stack = []
        self.depth = 0
        self.loop_hook = None
        self.pow_axioms = []
        self.global_overrides = {}
        from . import models

        models.install(self)
        from .loops import LoopRule

        self.loops = LoopRule(self)

    # ------------------------------------------------------------------ functions
    def unwrap(self, fn):
        """(native function, flags) of a native callable."""
        flags = set()
        while True:
            if isinstance(fn, _LRU):
                flags.add("lru")
                fn = fn.__wrapped__
                continue
            if isinstance(fn, types.FunctionType) and hasattr(fn, "__wrapped__") and fn.__code__.co_filename == contextlib.__file__:
                flags.add("cm")
                fn = fn.__wrapped__
                continue
            return fn, flags

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + args, kwargs)
        if isinstance(f, Builtin):
            return f.f(args, kwargs)
        if isinstance(f, Fn):
            if f.contextmanager:
                return CtxMgr(f, args, kwargs)
            return self.call_fn(f.node, f.frame.globals, f.frame, f.defaults, f.kwdefaults, args, kwargs, f.name)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [self.wrap(f.__self__)] + args, kwargs)
        if isinstance(f, (staticmethod, classmethod)):
            return self.call(f.__func__, args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, [self.wrap(a) for a in f.args] + args, {**{k: self.wrap(v) for k, v in f.keywords.items()}, **kwargs})
        if isinstance(f, LocalClass):
            if any(isinstance(b, type) and issubclass(b, BaseException) for b in f.bases):
                return PyExc(f, tuple(args))
            raise Unsupported(f"instance of local class {f.__name__}")
        if isinstance(f, Model):
            return f.get(self, "__call__").f(args, kwargs)
        if isinstance(f, Obj):
            m = self.class_lookup(f.cls, "__call__")
            if m is _UNSET:
                raise PyExc(TypeError, ("object is not callable",))
            return self.call(m, [f] + args, kwargs)
        try:
            h = self.models.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(self, args, kwargs)
        raw, flags = self.unwrap(f) if not isinstance(f, type) else (f, set())
        try:
            h = self.stubs.get(raw)
        except TypeError:
            h = None
        if h is not None:
            self.path.ex.functions.add(f"(by contract) {getattr(raw, '__module__', '')}.{getattr(raw, '__qualname__', raw)}")
            return h(self, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(raw, types.FunctionType):
            if "cm" in flags:
                return CtxMgr(raw, args, kwargs)
            res = self.call_native(raw, args, kwargs)
            if "lru" in flags:
                self.path.ex.trusted.add("functools.lru_cache is transparent for pure functions of immutable arguments (its result is shared: mutating it is an obligation failure)")
                if isinstance(res, PList):
                    res.frozen = f"the list cached by {raw.__qualname__}"
            return res
        if self.harness is not None and getattr(self.harness, "allow_native", None) and f in self.harness.allow_native:
            return self.native_apply(f, args, kwargs)
        raise Unsupported(f"call of {f!r}")

    def native_apply(self, f, args, kwargs):
        try:
            a = [self.to_native(x) for x in args]
            k = {n: self.to_native(x) for n, x in kwargs.items()}
        except Unsupported:
            raise Unsupported(f"native call of {getattr(f, '__name__', f)} with symbolic arguments")
        try:
            return self.wrap(f(*a, **k))
        except Exception as exc:  # noqa: BLE001
            raise PyExc(type(exc), exc.args)

    def to_native(self, v):
        if is_sym(v) or isinstance(v, Poison):
            raise Unsupported("symbolic")
        if isinstance(v, tuple):
            return tuple(self.to_native(x) for x in v)
        if isinstance(v, PList):
            if v.items is None:
                raise Unsupported("symbolic list")
            return [self.to_native(x) for x in v.items]
        if isinstance(v, PDict):
            return {self.to_native(k): self.to_native(x) for k, x in v.entries()}
        if isinstance(v, (Obj, Model, Fn, Bound, Builtin, Poison)):
            raise Unsupported("interpreted object")
        return v

    def call_native(self, fn, args, kwargs):
        node = SOURCE.find(fn)
        cells = {}
        if fn.__closure__:
            for name, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    cells[name] = cell.cell_contents
                except ValueError:
                    pass
        parent = None
        if cells:
            parent = Frame(fn.__globals__, None, "<closure>", {k: self.wrap(v) for k, v in cells.items()}, self.path)
            if "__class__" in cells:
                parent.cls = cells["__class__"]
        self.path.ex.functions.add(f"{fn.__module__}.{fn.__qualname__}")
        defaults = [self.wrap(d) for d in (fn.__defaults__ or ())]
        kwdefaults = {k: self.wrap(d) for k, d in (fn.__kwdefaults__ or {}).items()}
        return self.call_fn(node, fn.__globals__, parent, defaults, kwdefaults, args, kwargs, fn.__qualname__)

    def bind_args(self, node, defaults, kwdefaults, args, kwargs, name):
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        kwargs = dict(kwargs)
        for i, p in enumerate(params):
            if i < len(args):
                if p in kwargs:
                    raise PyExc(TypeError, (f"{name}() got multiple values for argument {p!r}",))
                loc[p] = args[i]
            elif p in kwargs:
                loc[p] = kwargs.pop(p)
            else:
                j = i - (len(params) - len(defaults))
                if j < 0:
                    raise PyExc(TypeError, (f"{name}() missing argument {p!r}",))
                loc[p] = defaults[j]
        extra = args[len(params):]
        if a.vararg:
            loc[a.vararg.arg] = tuple(extra)
        elif extra:
            raise PyExc(TypeError, (f"{name}() takes {len(params)} positional arguments",))
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                loc[p.arg] = kwargs.pop(p.arg)
            elif p.arg in kwdefaults:
                loc[p.arg] = kwdefaults[p.arg]
            else:
                raise PyExc(TypeError, (f"{name}() missing argument {p.arg!r}",))
        if a.kwarg:
            d = PDict(self.path)
            for k, v in kwargs.items():
                d.known.append([k, v])
            loc[a.kwarg.arg] = d
        elif kwargs:
            raise PyExc(TypeError, (f"{name}() got an unexpected keyword argument {next(iter(kwargs))!r}",))
        return loc

    def call_fn(self, node, globals_, parent, defaults, kwdefaults, args, kwargs, name, yield_cb=None):
        loc = self.bind_args(node, defaults, kwdefaults, args, kwargs, name)
        frame = Frame(globals_, parent, name, loc, self.path)
        if isinstance(node, ast.Lambda):
            return self._guard(lambda: self.ev(node.body, frame), name)
        if yield_cb is None and _is_generator(node):
            def run(cb):
                frame.yield_cb = cb
                return self._guard(lambda: self.run_body(node.body, frame), name)
            return GenObj(run, self.path)
        frame.yield_cb = yield_cb
        return self._guard(lambda: self.run_body(node.body, frame), name)

    def _guard(self, thunk, name):
        self.depth += 1
        self.call_stack.append(name)
        if self.depth > 60:
            raise Unsupported("call depth")
        try:
            return thunk()
        finally:
            self.depth -= 1
            self.call_stack.pop()

    def run_body(self, body, frame):
        try:
            self.block(body, frame)
        except ReturnSig as r:
            return r.value
        return None

    # ------------------------------------------------------------------ classes / instances
    def make_instance(self, cls, name):
        mk = self.instance_makers.get(cls)
        if mk is None:
            raise Unsupported(f"no symbolic instance of {cls.__name__}")
        return mk(self, name)

    def new_obj(self, cls, attrs=None, tag=None):
        o = Obj(cls, dict(attrs or {}), self.path.new_oid())
        o.__dict__["tag"] = tag or self.path.fresh_name("obj_" + cls.__name__)
        self.path.objs[o.tag] = o
        return o

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            return PyExc(cls, tuple(args))
        if issubclass(cls, enum.Enum):
            if len(args) == 1 and not is_sym(args[0]):
                try:
                    return cls(args[0])
                except ValueError as exc:
                    raise PyExc(ValueError, exc.args)
            if len(args) == 1 and is_str(args[0]):
                for m in cls:
                    if self.path.decide(self.eq(args[0], m.value)):
                        return m
                raise PyExc(ValueError, ("not a valid member",))
            raise Unsupported("enum lookup")
        if cls is io.StringIO:
            t = args[0] if args else ""
            return TextBuffer(self, t, 0)
        if not self.interpretable(cls):
            raise Unsupported(f"instance of {cls!r}")
        obj = self.new_obj(cls)
        if dataclasses.is_dataclass(cls) and "__init__" in cls.__dict__ and _is_generated(cls.__dict__["__init__"]):
            self.dataclass_init(cls, obj, args, kwargs)
            return obj
        init = self.class_lookup(cls, "__init__")
        if init is _UNSET or init is object.__init__:
            if args or kwargs:
                raise PyExc(TypeError, ("object() takes no arguments",))
            return obj
        self.call(init, [obj] + list(args), kwargs)
        return obj

    def dataclass_init(self, cls, obj, args, kwargs):
        flds = dataclasses.fields(cls)
        initf = [f for f in flds if f.init]
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(initf):
            raise PyExc(TypeError, ("too many positional arguments",))
        for i, f in enumerate(initf):
            if i < len(args):
                if f.name in kwargs:
                    raise PyExc(TypeError, (f"multiple values for {f.name}",))
                v = args[i]
            elif f.name in kwargs:
                v = kwargs.pop(f.name)
            elif f.default is not dataclasses.MISSING:
                v = self.wrap(f.default)
            elif f.default_factory is not dataclasses.MISSING:
                v = self.call(f.default_factory)
            else:
                raise PyExc(TypeError, (f"missing argument {f.name}",))
            obj.attrs[f.name] = v
        if kwargs:
            raise PyExc(TypeError, (f"{cls.__name__}.__init__() got an unexpected keyword argument {next(iter(kwargs))!r}",))
        for f in flds:
            if not f.init:
                if f.default is not dataclasses.MISSING:
                    obj.attrs[f.name] = self.wrap(f.default)
                elif f.default_factory is not dataclasses.MISSING:
                    obj.attrs[f.name] = self.call(f.default_factory)
        post = self.class_lookup(cls, "__post_init__")
        if post is not _UNSET:
            self.call(post, [obj])

    def interpretable(self, cls):
        mod = getattr(cls, "__module__", "")
        return mod.split(".")[0] in ("slate",) or (self.harness is not None and cls in getattr(self.harness, "classes", ()))

    def class_lookup(self, cls, name):
        if isinstance(cls, LocalClass):
            return cls.ns.get(name, _UNSET)
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        return _UNSET

    def wrap(self, v):
        """Bring a native value into the interpreter."""
        if isinstance(v, PURE_TYPES) or isinstance(v, (SVal, Obj, Poison, PList, PDict, Fn, Bound, Builtin, Model, enum.Enum, type)):
            return v
        if isinstance(v, tuple) and type(v) is tuple:
            if any(not isinstance(x, PURE_TYPES) for x in v):
                return tuple(self.wrap(x) for x in v)
            return v
        if isinstance(v, (types.FunctionType, types.ModuleType, types.BuiltinFunctionType, _LRU)):
            return v
        key = id(v)
        cache = self.path.native_objs
        if key in cache:
            return cache[key][1]
        if isinstance(v, io.StringIO):
            r = TextBuffer(self, v.getvalue(), v.tell())
            cache[key] = (v, r)
            return r
        if isinstance(v, list):
            r = PList.concrete(self.path, [], tag=f"native{len(cache)}")
            cache[key] = (v, r)
            r.items = [self.wrap(x) for x in v]
            return r
        if isinstance(v, dict) and type(v) is dict:
            r = PDict(self.path, tag=f"native{len(cache)}")
            cache[key] = (v, r)
            r.known = [[self.wrap(k), self.wrap(x)] for k, x in v.items()]
            return r
        if self.interpretable(type(v)):
            o = self.new_obj(type(v), tag=f"native{len(cache)}")
            cache[key] = (v, o)
            for k, x in v.__dict__.items():
                c = self.class_lookup(type(v), k)
                if isinstance(c, functools.cached_property):
                    continue
                o.attrs[k] = self.wrap(x)
            ov = self.harness and getattr(self.harness, "native_override", None)
            if ov:
                ov(self, v, o)
            return o
        return v

    def setattr(self, obj, name, v, raw=False):
        if isinstance(obj, Obj):
            c = self.class_lookup(obj.cls, name)
            if isinstance(c, property) and not raw:
                if c.fset is None:
                    raise PyExc(AttributeError, (f"can't set {name}",))
                self.call(c.fset, [obj, v])
                return
            if not raw and dataclasses.is_dataclass(obj.cls) and obj.cls.__dataclass_params__.frozen:
                raise PyExc(dataclasses.FrozenInstanceError, (f"cannot assign to field {name!r}",))
            if obj.__dict__.get("anon"):
                raise Unsupported("a change to a forgotten object")
            self.path.log_write(("attr", obj.tag, name), obj.oid)
            obj.attrs[name] = forced(v)
            return
        if isinstance(obj, Model):
            m = getattr(obj, "s_" + name, None)
            if m:
                self.path.log_write(("model", id(obj)), 0)
                m(self, v)
                return
        raise Unsupported(f"attribute assignment on {obj!r}")

    def getattr(self, obj, name):
        p = self.path
        if isinstance(obj, Poison):
            raise Unsupported(f"use of {obj!r}")
        if isinstance(obj, Obj):
            c = self.class_lookup(obj.cls, name)
            h = self.attr_stubs.get((obj.cls, name))
            if h is not None:
                return h(self, obj)
            if isinstance(c, property):
                return self.call(c.fget, [obj])
            if name in obj.attrs:
                return obj.attrs[name]
            if name in obj.lazy:
                obj.attrs[name] = obj.lazy[name](obj)
                return obj.attrs[name]
            if isinstance(c, functools.cached_property):
                v = self.call(c.func, [obj])
                obj.attrs[name] = v
                return v
            if name == "__class__":
                return obj.cls
            if name == "__dict__":
                d = PDict(self.path)
                d.known = [[k, v] for k, v in obj.attrs.items()]
                return d
            if c is not _UNSET:
                return self.bind(c, obj, obj.cls)
            raise PyExc(AttributeError, (f"{obj.cls.__name__!r} object has no attribute {name!r}",))
        if isinstance(obj, enum.Enum):
            if name in ("value", "name"):
                return getattr(obj, name)
            c = self.class_lookup(type(obj), name)
            return self.bind(c, obj, type(obj))
        if isinstance(obj, type):
            if name == "__name__":
                return obj.__name__
            c = self.class_lookup(obj, name)
            if c is _UNSET:
                if name in ("__dict__",):
                    raise Unsupported("class __dict__")
                raise PyExc(AttributeError, (name,))
            if issubclass(obj, enum.Enum) and name in obj.__members__:
                return obj.__members__[name]
            if isinstance(c, classmethod):
                return Bound(c.__func__, obj)
            if isinstance(c, staticmethod):
                return c.__func__
            return self.wrap(c)
        if isinstance(obj, LocalClass):
            if name == "__name__":
                return obj.__name__
            raise Unsupported(f"attribute {name} of local class")
        if isinstance(obj, types.ModuleType):
            key = (obj.__name__, name)
            if key in self.global_overrides:
                return self.global_overrides[key]
            try:
                return self.wrap(getattr(obj, name))
            except AttributeError as exc:
                raise PyExc(AttributeError, exc.args)
        if isinstance(obj, Model):
            return obj.get(self, name)
        from . import models

        m = models.method(self, obj, name)
        if m is not None:
            return m
        if obj is None or isinstance(obj, (int, float, SInt, SReal, SBool, tuple, str, SStr, PList, PDict)):
            raise PyExc(AttributeError, (f"{typename(obj)!r} object has no attribute {name!r}",))
        raise Unsupported(f"attribute {name} of {obj!r}")

    def bind(self, c, obj, cls):
        if isinstance(c, (types.FunctionType, _LRU)):
            return Bound(c, obj)
        if isinstance(c, classmethod):
            return Bound(c.__func__, cls)
        if isinstance(c, staticmethod):
            return c.__func__
        if isinstance(c, property):
            return self.call(c.fget, [obj])
        return self.wrap(c)

    # ------------------------------------------------------------------ truth, equality
    def truth(self, v):
        p = self.path
        if isinstance(v, Poison):
            raise Unsupported(f"use of {v!r}")
        if isinstance(v, SBool):
            return p.decide(v)
        if isinstance(v, SInt):
            return p.decide(SBool(v.e != 0))
        if isinstance(v, SReal):
            return p.decide(SBool(v.e != 0))
        if isinstance(v, SStr):
            if p.decide(p.str_eq(v, "")):
                for part in p.expand(v.parts):
                    if isinstance(part, Op):
                        p.refine(part, [])
                return False
            return True
        if isinstance(v, PList):
            n = v.length()
            return p.decide(cmp(">", n, 0))
        if isinstance(v, PDict):
            return len(v.entries()) > 0
        if isinstance(v, Obj):
            for m in ("__bool__", "__len__"):
                c = self.class_lookup(v.cls, m)
                if c is not _UNSET:
                    return self.truth(self.call(c, [v]))
            return True
        if isinstance(v, (Model, Fn, Bound, Builtin, GenObj, CtxMgr, LocalClass, PyExc)):
            return True
        return bool(v)

    def lazy_eq(self, a, b):
        """Equality with a value that is not made: any outcome, where comparing has no effects."""
        def plain(v):
            if isinstance(v, Lazy) and not v.made:
                return all(x[0] in ("none", "str", "int", "real", "bool") or (x[0] == "obj" and x[1] in self.plain_eq) or (x[0] == "ident" and len(x) == 3 and x[2] in self.plain_eq) for x in v.type.alts)
            v = forced(v)
            return v is None or is_str(v) or is_numlike(v) or (isinstance(v, Obj) and v.cls in self.plain_eq)

        loose = [v for v in (a, b) if isinstance(v, Lazy) and not v.made and not v.exact]
        if not loose or not plain(a) or not plain(b) or self.path.spec:
            return None
        self.path.approx("a comparison with a forgotten value")
        return self.path.fresh_bool("equal")

    def eq(self, a, b):
        """a == b as True/False/SBool."""
        p = self.path
        if isinstance(a, Lazy) or isinstance(b, Lazy):
            r = self.lazy_eq(a, b)
            if r is not None:
                return r
            a, b = forced(a), forced(b)
        for v in (a, b):
            if isinstance(v, Poison):
                raise Unsupported(f"use of {v!r}")
        if a is b and not isinstance(a, (float, Obj)):
            return True
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    c = self.class_lookup(x.cls, "__eq__")
                    if c is object.__eq__ or c is _UNSET:
                        continue
                    if _is_generated(c):
                        if not isinstance(y, Obj) or y.cls is not x.cls:
                            continue
                        flds = [f.name for f in dataclasses.fields(x.cls) if f.compare]
                        return land([self.eq(self.getattr(x, f), self.getattr(y, f)) for f in flds])
                    r = self.call(c, [x, y])
                    if r is NotImplemented:
                        continue
                    return r if isinstance(r, (bool, SBool)) else self.truth(r)
            return a is b
        if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, enum.Enum):
                    c = self.class_lookup(type(x), "__eq__")
                    if isinstance(c, types.FunctionType) and self.interpretable(type(x)):
                        r = self.call(c, [x, y])
                        if r is NotImplemented:
                            continue
                        return r
            return a is b
        if is_numlike(a) and is_numlike(b):
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                if not is_sym(a) and not is_sym(b):
                    return a == b
                return SBool(zbool(a) == zbool(b))
            return cmp("==", a, b)
        if is_str(a) and is_str(b):
            return p.str_eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return land([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, PList) and isinstance(b, PList):
            if a.items is not None and b.items is not None:
                if len(a.items) != len(b.items):
                    return False
                return land([self.eq(x, y) for x, y in zip(a.items, b.items)])
            raise Unsupported("equality of lists of symbolic length")
        if isinstance(a, PDict) and isinstance(b, PDict):
            if a.concrete() and b.concrete():
                ea, eb = a.entries(), b.entries()
                if {self.to_native(k) for k, _ in ea} != {self.to_native(k) for k, _ in eb}:
                    return False
                db = {self.to_native(k): v for k, v in eb}
                return land([self.eq(v, db[self.to_native(k)]) for k, v in ea])
            raise Unsupported("equality of symbolic dicts")
        if isinstance(a, (SVal, PList, PDict, Model, tuple)) or isinstance(b, (SVal, PList, PDict, Model, tuple)):
            return False if _kind(a) != _kind(b) else a is b
        try:
            return a == b
        except Exception:  # noqa: BLE001
            return a is b

    def identical(self, a, b):
        p = self.path
        a, b = forced(a), forced(b)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported(f"use of {a!r}")
        if isinstance(a, Obj) and isinstance(b, Obj) and (a.__dict__.get("anon") or b.__dict__.get("anon")) and a.cls is b.cls and a is not b:
            raise Unsupported("identity of a forgotten object")
        if a is None or b is None:
            return a is b
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return self.eq(a, b)
        if is_sym(a) or is_sym(b):
            if _kind(a) != _kind(b):
                return False
            raise Unsupported("identity of symbolic scalars")
        if isinstance(a, tuple) and isinstance(b, tuple) and a is not b and self.loops.enabled:
            if id(a) not in p.tracked and id(b) not in p.tracked:
                raise Unsupported("identity of tuples")
        return a is b

    def contains(self, container, item):
        p = self.path
        if isinstance(container, (tuple,)):
            return lor([self.eq(item, x) for x in container]) if container else False
        if isinstance(container, PList):
            if container.items is None:
                raise Unsupported("membership in a list of symbolic length")
            return lor([self.eq(item, x) for x in container.items]) if container.items else False
        if isinstance(container, PDict):
            return container.lookup(item) is not ABSENT
        if isinstance(container, range):
            if isinstance(item, (SInt, SBool)):
                if container.step == 1:
                    return land(cmp("<=", container.start, item), cmp("<", item, container.stop))
                return lor([cmp("==", item, x) for x in container])
            return item in container
        if isinstance(container, _Chain):
            return lor([self.contains(c, item) for c in container.its])
        if is_str(container) and is_str(item):
            from . import models

            return models.str_contains(self, container, item)
        if isinstance(container, Obj):
            c = self.class_lookup(container.cls, "__contains__")
            if c is not _UNSET:
                return self.call(c, [container, item])
        if isinstance(container, (set, frozenset)) :
            return lor([self.eq(item, x) for x in container]) if container else False
        if not is_sym(item) and not is_sym(container) and isinstance(container, (dict, list, str, range, type({}.keys()))):
            return item in container
        raise Unsupported(f"membership in {container!r}")

    # ------------------------------------------------------------------ names
    def lookup(self, name, frame):
        f = frame
        if name not in frame.globalnames:
            while f is not None:
                if name in f.locals:
                    v = f.locals[name]
                    if isinstance(v, Poison):
                        if not isinstance(v, Lazy):
                            raise Unsupported(f"read of local {name!r} ({v.why})")
                        v = f.locals[name] = v.make()
                    return v
                f = f.parent
        g = frame.globals
        key = (g.get("__name__"), name)
        if key in self.global_overrides:
            return self.global_overrides[key]
        if name in g:
            return self.wrap(g[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyExc(NameError, (name,))

    def assign_name(self, name, v, frame):
        if name in frame.nonlocals:
            f = frame.parent
            while f is not None:
                if name in f.locals:
                    self.path.log_local(f, name)
                    f.locals[name] = v
                    return
                f = f.parent
        if name in frame.globalnames:
            raise Unsupported("assignment to a global")
        self.path.log_local(frame, name)
        frame.locals[name] = v

    def assign(self, target, v, frame):
        if isinstance(target, ast.Name):
            self.assign_name(target.id, v, frame)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target.elts, v, frame)
        elif isinstance(target, ast.Attribute):
            self.setattr(self.ev(target.value, frame), target.attr, v)
        elif isinstance(target, ast.Subscript):
            o = self.ev(target.value, frame)
            self.setitem(o, self.ev(target.slice, frame), v)
        elif isinstance(target, ast.Starred):
            raise Unsupported("starred assignment")
        else:
            raise Unsupported(f"assignment to {type(target).__name__}")

    def unpack(self, elts, v, frame):
        items = self.sequence(v)
        if items is None:
            # symbolic length list: length must be decided
            if isinstance(v, PList):
                stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
                if stars:
                    raise Unsupported("starred unpacking of symbolic list")
                if not self.path.decide(cmp("==", v.length(), len(elts))):
                    raise PyExc(ValueError, ("unpack",))
                items = [v.at(i) for i in range(len(elts))]
            else:
                raise PyExc(TypeError, (f"cannot unpack non-iterable {typename(v)} object",))
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if stars:
            i = stars[0]
            tail = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                raise PyExc(ValueError, ("not enough values to unpack",))
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, frame)
            mid = items[i:len(items) - tail]
            self.assign(elts[i].value, PList.concrete(self.path, mid), frame)
            for e, x in zip(elts[i + 1:], items[len(items) - tail:]):
                self.assign(e, x, frame)
            return
        if len(items) != len(elts):
            raise PyExc(ValueError, (f"unpack: expected {len(elts)}, got {len(items)}",))
        for e, x in zip(elts, items):
            self.assign(e, x, frame)

    def sequence(self, v):
        """Concrete-shape sequence of an iterable, or None."""
        if isinstance(v, tuple):
            return [forced(x) for x in v]
        if isinstance(v, PList):
            return list(v.items) if v.items is not None else None
        if isinstance(v, PDict):
            return [k for k, _ in v.entries()]
        if isinstance(v, (range, str, set, frozenset)):
            return list(v)
        if isinstance(v, GenObj):
            return self.collect(v)
        if isinstance(v, _Chain):
            out = []
            for c in v.its:
                s = self.sequence(c)
                if s is None:
                    return None
                out += s
            return out
        if isinstance(v, Obj):
            c = self.class_lookup(v.cls, "__iter__")
            if c is not _UNSET:
                return self.sequence(self.call(c, [v]))
            c = self.class_lookup(v.cls, "__getitem__")
            return None
        if isinstance(v, SymIter):
            if isinstance(v.n, int):
                return [v.get(i) for i in range(v.n)]
            return None
        if type(v).__name__ == "_EnumLive":
            return [v[i] for i in range(len(v))]
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return list(v)
        if isinstance(v, (list,)):
            return [self.wrap(x) for x in v]
        return None

    def collect(self, gen):
        if gen.used:
            return []
        gen.use()
        if self.loops.enabled:
            lst = PList.concrete(self.path, [], tag=self.path.fresh_name("collected"))
            gen.run(lst.append)
            if lst.items is None:
                raise Unsupported("sequence of symbolic length from a generator")
            out = lst.items
        else:
            out = []
            gen.run(lambda v: out.append(v))
        self.path.ex.trusted.add("generators collected into a list run eagerly")
        return out

    def setitem(self, o, k, v):
        if isinstance(o, PList):
            o.set(k, v)
        elif isinstance(o, PDict):
            o.store(k, v)
        elif isinstance(o, Obj):
            c = self.class_lookup(o.cls, "__setitem__")
            if c is _UNSET:
                raise PyExc(TypeError, ("object does not support item assignment",))
            self.call(c, [o, k, v])
        elif isinstance(o, tuple) or is_str(o):
            raise PyExc(TypeError, ("object does not support item assignment",))
        else:
            raise Unsupported(f"item assignment on {o!r}")

    def getitem(self, o, k):
        from . import models

        return models.getitem(self, o, k)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, frame):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and _tail_expr(stmts[i:]):
                r = self.merge_return(stmts[i:], frame)
                if r is not None:
                    raise ReturnSig(r[0])
            self.stmt(s, frame)

    def merge_return(self, stmts, frame):
        """A chain of `if`s that only returns numbers needs no case split."""

        def val(ss):
            x = ss[0]
            if isinstance(x, ast.Return):
                return self.ev(x.value, frame)
            t = self.ev(x.test, frame)
            if not isinstance(t, (bool, SBool)):
                raise SpecFail()
            a = val(x.body)
            b = val(x.orelse or ss[1:])
            return _merge_num(t, a, b)

        r = self.path.speculate(lambda: [val(stmts)])
        if r is None or not is_sym(r[0]):
            return None
        return r

    def stmt(self, s, frame):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at line {s.lineno}")
        m(s, frame)

    def s_Expr(self, s, frame):
        self.ev(s.value, frame)

    def s_Pass(self, s, frame):
        pass

    def s_Assign(self, s, frame):
        v = self.ev(s.value, frame)
        for t in s.targets:
            self.assign(t, v, frame)

    def s_AnnAssign(self, s, frame):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, frame), frame)

    def s_AugAssign(self, s, frame):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, frame)
            v = self.binop(s.op, cur, self.ev(s.value, frame), inplace=True)
            self.assign_name(t.id, v, frame)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, frame)
            v = self.binop(s.op, self.getattr(o, t.attr), self.ev(s.value, frame), inplace=True)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, frame)
            k = self.ev(t.slice, frame)
            v = self.binop(s.op, self.getitem(o, k), self.ev(s.value, frame), inplace=True)
            self.setitem(o, k, v)
        else:
            raise Unsupported("augmented assignment target")

    def s_If(self, s, frame):
        t = self.ev(s.test, frame)
        if isinstance(t, SBool) and (self.merge_if(t, s, frame) or self.merge_assign(t, s, frame)):
            return
        if self.truth(t):
            self.block(s.body, frame)
        else:
            self.block(s.orelse, frame)

    def merge_if(self, t, s, frame):
        """An `if` that only assigns truth values to locals needs no case split."""
        new = []
        for cond, body in ((t, s.body), (lnot(t), s.orelse)):
            for x in body:
                if isinstance(x, ast.Pass):
                    continue
                if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Constant)):
                    return False
                n, v = x.targets[0].id, x.value.value
                if n in frame.nonlocals or n in frame.globalnames or n not in frame.locals:
                    return False
                old = frame.locals[n]
                if isinstance(old, (Poison,)):
                    return False
                if isinstance(v, bool) and isinstance(old, (bool, SBool)):
                    new.append((n, cond, v))
                elif type(old) is type(v) and old == v and not isinstance(v, float):
                    continue
                else:
                    return False
        if len({n for n, _, _ in new}) != len(new):
            return False
        for n, cond, v in new:
            old = frame.locals[n]
            r = lor(cond, old) if v else land(lnot(cond), old)
            self.assign_name(n, r, frame)
        return True

    def merge_assign(self, t, s, frame):
        """An `if` that only assigns numbers to locals needs no case split."""
        names = []
        for x in s.body + s.orelse:
            if isinstance(x, ast.Pass):
                continue
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and pure_expr(x.value):
                names.append(x.target.id)
                continue
            if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and pure_expr(x.value)):
                return False
            g = x.targets[0]
            if isinstance(g, ast.Name):
                names.append(g.id)
            elif isinstance(g, ast.Tuple) and isinstance(x.value, ast.Tuple) and len(g.elts) == len(x.value.elts) and all(isinstance(e, ast.Name) for e in g.elts):
                names += [e.id for e in g.elts]
            else:
                return False
        names = list(dict.fromkeys(names))
        if not names:
            return False
        for n in names:
            if n in frame.nonlocals or n in frame.globalnames or frame.name == "<comp>":
                return False
            if n in frame.locals and not is_numlike(frame.locals[n]):
                return False

        def run(body):
            loc = frame.locals
            frame.locals = dict(loc)
            try:
                self.block(body, frame)
                return [frame.locals.get(n, _UNSET) for n in names]
            finally:
                frame.locals = loc

        def both():
            a, b = run(s.body), run(s.orelse)
            out = []
            for x, y in zip(a, b):
                if x is y:
                    out.append(x)
                    continue
                if x is _UNSET or y is _UNSET:
                    raise SpecFail()
                out.append(_merge_num(t, x, y, need_sym=False))
            if not any(is_sym(x) or is_sym(y) for x, y in zip(a, b)):
                raise SpecFail()
            return out

        r = self.path.speculate(both)
        if r is None:
            return False
        for n, v in zip(names, r):
            if v is not _UNSET:
                self.assign_name(n, v, frame)
        return True

    def s_Return(self, s, frame):
        raise ReturnSig(None if s.value is None else self.ev(s.value, frame))

    def s_Break(self, s, frame):
        raise BreakSig()

    def s_Continue(self, s, frame):
        raise ContinueSig()

    def s_Nonlocal(self, s, frame):
        frame.nonlocals.update(s.names)

    def s_Global(self, s, frame):
        frame.globalnames.update(s.names)

    def s_Assert(self, s, frame):
        if not self.truth(self.ev(s.test, frame)):
            raise PyExc(AssertionError, ())

    def s_Delete(self, s, frame):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.path.log_local(frame, t.id)
                frame.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, frame), self.ev(t.slice, frame)
                if isinstance(o, PList) and o.items is not None and isinstance(k, int):
                    o.pop(k)
                elif isinstance(o, PDict):
                    if o.lookup(k) is ABSENT:
                        raise PyExc(KeyError, (k,))
                    o.log()
                    ent = o._find(k)
                    ent[1] = ABSENT
                else:
                    raise Unsupported("del item")
            else:
                raise Unsupported("del")

    def s_Import(self, s, frame):
        import importlib

        for a in s.names:
            m = importlib.import_module(a.name)
            self.assign_name(a.asname or a.name.split(".")[0], m, frame)

    def s_ImportFrom(self, s, frame):
        import importlib

        pkg = frame.globals.get("__package__") or ""
        mod = importlib.import_module("." * s.level + (s.module or ""), pkg)
        for a in s.names:
            key = (mod.__name__, a.name)
            if key in self.global_overrides:
                v = self.global_overrides[key]
            else:
                try:
                    v = self.wrap(getattr(mod, a.name))
                except AttributeError:
                    raise PyExc(ImportError, (a.name,))
            self.assign_name(a.asname or a.name, v, frame)

    def s_FunctionDef(self, s, frame):
        defaults = [self.ev(d, frame) for d in s.args.defaults]
        kwdefaults = {a.arg: self.ev(d, frame) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        f = Fn(s, frame, defaults, kwdefaults, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dec = self.ev(d, frame)
            if dec is contextlib.contextmanager:
                f.contextmanager = True
            elif dec in (functools.lru_cache, functools.cache):
                pass
            else:
                v = self.call(dec, [v])
        self.assign_name(s.name, v, frame)

    def s_ClassDef(self, s, frame):
        bases = [self.ev(b, frame) for b in s.bases]
        ns = Frame(frame.globals, frame, s.name, None, self.path)
        self.block(s.body, ns)
        self.assign_name(s.name, LocalClass(s.name, bases, ns.locals), frame)

    def s_Raise(self, s, frame):
        if s.exc is None:
            if not getattr(self, "exc_stack", None):
                raise PyExc(RuntimeError, ("No active exception to reraise",))
            raise self.exc_stack[-1]
        v = self.ev(s.exc, frame)
        if s.cause is not None:
            self.ev(s.cause, frame)
        if isinstance(v, PyExc):
            raise PyExc(v.etype, v.args_, v.obj)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyExc(v, ())
        if isinstance(v, LocalClass):
            raise PyExc(v, ())
        raise Unsupported("raise of a non-exception")

    def exc_matches(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(exc, x) for x in t)
        if isinstance(exc.etype, LocalClass):
            if exc.etype is t:
                return True
            return any(self._sub(b, t) for b in exc.etype.bases)
        return self._sub(exc.etype, t)

    def _sub(self, a, b):
        if isinstance(a, LocalClass):
            return a is b or any(self._sub(x, b) for x in a.bases)
        if isinstance(b, LocalClass):
            return False
        return isinstance(a, type) and isinstance(b, type) and issubclass(a, b)

    def s_Try(self, s, frame):
        def core():
            try:
                self.block(s.body, frame)
            except PyExc as exc:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(exc, self.ev(h.type, frame)):
                        if h.name:
                            self.assign_name(h.name, exc, frame)
                        self.exc_stack = getattr(self, "exc_stack", []) + [exc]
                        try:
                            self.block(h.body, frame)
                        finally:
                            self.exc_stack = self.exc_stack[:-1]
                            if h.name:
                                self.path.log_local(frame, h.name)
                                frame.locals.pop(h.name, None)
                        return
                raise
            else:
                self.block(s.orelse, frame)

        if not s.finalbody:
            core()
            return
        try:
            core()
        except (PyExc, ReturnSig, BreakSig, ContinueSig, GenClose) as sig:
            self.block(s.finalbody, frame)  # a return/break/raise here replaces `sig`
            raise sig
        self.block(s.finalbody, frame)

    def s_With(self, s, frame):
        self._with(s.items, s.body, frame)

    def _with(self, items, body, frame):
        if not items:
            self.block(body, frame)
            return
        it = items[0]
        cm = self.ev(it.context_expr, frame)
        if isinstance(cm, CtxMgr):
            def inner(value):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, value, frame)
                self._with(items[1:], body, frame)

            self.run_ctx(cm, inner)
            return
        if isinstance(cm, Model):
            v = cm.get(self, "__enter__").f([], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, frame)
            try:
                self._with(items[1:], body, frame)
            except PyExc as exc:
                r = cm.get(self, "__exit__").f([exc.etype, exc, None], {})
                if r is True:
                    return
                raise
            except (ReturnSig, BreakSig, ContinueSig):
                cm.get(self, "__exit__").f([None, None, None], {})
                raise
            cm.get(self, "__exit__").f([None, None, None], {})
            return
        raise Unsupported(f"with on {cm!r}")

    def run_ctx(self, cm, inner):
        """Run a @contextmanager function with `inner(value)` as the body of the with block."""
        state = {"n": 0, "sig": None}

        def cb(value):
            state["n"] += 1
            if state["n"] > 1:
                raise PyExc(RuntimeError, ("generator didn't stop",))
            try:
                inner(value)
            except (ReturnSig, BreakSig, ContinueSig, GenClose) as sig:
                state["sig"] = sig
            return None

        fn = cm.fn
        if isinstance(fn, Fn):
            self.call_fn(fn.node, fn.frame.globals, fn.frame, fn.defaults, fn.kwdefaults, cm.args, cm.kwargs, fn.name, yield_cb=cb)
        else:
            h = self.stubs.get(fn)
            if h is not None:
                h(self, cm.args, cm.kwargs, inner=cb)
            else:
                node = SOURCE.find(fn)
                self.path.ex.functions.add(f"{fn.__module__}.{fn.__qualname__}")
                self.call_fn(
                    node, fn.__globals__, None, [self.wrap(d) for d in (fn.__defaults__ or ())], {}, cm.args, cm.kwargs, fn.__qualname__, yield_cb=cb
                )
        if state["n"] == 0:
            raise PyExc(RuntimeError, ("generator didn't yield",))
        if state["sig"] is not None:
            raise state["sig"]

    def iterator(self, v):
        """SymIter / list / GenObj of an iterable value."""
        if isinstance(v, GenObj):
            return v
        if isinstance(v, SymIter) or type(v).__name__ == "_EnumLive":
            return v
        seq = self.sequence(v) if not (isinstance(v, PList)) else None
        if seq is not None:
            return seq
        if isinstance(v, PList):
            if v.items is not None:
                return v  # live list: iterated by index
            return SymIter(v.n, v.at, src=v)
        if isinstance(v, SStr):
            from . import models

            return models.str_iter(self, v)
        if v is None or is_numlike(v):
            raise PyExc(TypeError, (f"{typename(v)!r} object is not iterable",))
        if isinstance(v, Obj):
            raise PyExc(TypeError, (f"{v.cls.__name__!r} object is not iterable",)) if self.class_lookup(v.cls, "__getitem__") is _UNSET else Unsupported("iteration by __getitem__")
        raise Unsupported(f"iteration over {v!r}")

    def s_For(self, s, frame):
        it = self.iterator(self.ev(s.iter, frame))
        self.run_for(s, it, lambda v: self.assign(s.target, v, frame), s.body, s.orelse, frame)

    def run_for(self, node, it, assign, body, orelse, frame):
        if isinstance(it, GenObj):
            if it.used:
                return
            it.use()
            state = {}

            def cb(v):
                assign(v)
                try:
                    self.block(body, frame)
                except ContinueSig:
                    pass
                except BreakSig:
                    state["sig"] = "break"
                    raise GenClose()
                except ReturnSig as r:
                    state["sig"] = r
                    raise GenClose()

            try:
                it.run(cb)
            except GenClose:
                if "sig" not in state:
                    raise
            sig = state.get("sig")
            if isinstance(sig, ReturnSig):
                raise sig
            if sig is None:
                self.block(orelse, frame)
            return
        if isinstance(it, SymIter):
            if not isinstance(it.n, int):
                n = simplify(zint(it.n))
                if z3.is_int_value(n):
                    it = SymIter(n.as_long(), it.get, it.src)
            if not isinstance(it.n, int):
                self.loops.run(node, it, assign, body, orelse, frame)
                return
            it = [it.get(i) for i in range(it.n)]
        i = 0
        while True:
            if isinstance(it, PList):
                if it.items is None:
                    raise Unsupported("list became symbolic while being iterated")
                if i >= len(it.items):
                    break
                v = it.items[i]
            else:
                if i >= len(it):
                    break
                v = it[i]
            i += 1
            if i > 3000:
                raise Unsupported("concrete loop too long")
            assign(v)
            try:
                self.block(body, frame)
            except BreakSig:
                return
            except ContinueSig:
                pass
        self.block(orelse, frame)

    def s_While(self, s, frame):
        # concrete unrolling as long as the condition is decided; otherwise the loop rule
        for _ in range(200):
            v = self.ev(s.test, frame)
            if isinstance(v, (SBool, SInt, SReal)) :
                c = v if isinstance(v, SBool) else SBool(v.e != 0)
                if not self.path.implied(c) and not self.path.implied(lnot(c)):
                    self.loops.run_while(s, frame)
                    return
            if not self.truth(v):
                self.block(s.orelse, frame)
                return
            try:
                self.block(s.body, frame)
            except BreakSig:
                return
            except ContinueSig:
                pass
        raise Unsupported("while loop does not terminate within 200 concrete steps")

    # ------------------------------------------------------------------ expressions
    def ev(self, e, frame):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at line {e.lineno}")
        return m(e, frame)

    def e_Constant(self, e, frame):
        return e.value

    def e_Name(self, e, frame):
        return self.lookup(e.id, frame)

    def e_Tuple(self, e, frame):
        return tuple(self._elts(e.elts, frame))

    def e_List(self, e, frame):
        if len(e.elts) == 1 and isinstance(e.elts[0], ast.Starred):
            v = self.ev(e.elts[0].value, frame)
            return self.to_list(v)
        return PList.concrete(self.path, self._elts(e.elts, frame), tag=self.site(e, "list"))

    def e_Set(self, e, frame):
        items = self._elts(e.elts, frame)
        if all(_const_key(x) for x in items):
            return set(items)
        raise Unsupported("symbolic set")

    def site(self, node, kind):
        return self.path.fresh_name(f"{kind}@{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}")

    def to_list(self, v):
        """list(v)"""
        it = self.iterator(v)
        if isinstance(it, GenObj):
            if self.loops.enabled and not it.used:
                it.use()
                lst = PList.concrete(self.path, [], tag=self.path.fresh_name("collected"))
                it.run(lst.append)
                return lst
            return PList.concrete(self.path, self.collect(it))
        if isinstance(it, SymIter):
            n = it.n
            if isinstance(n, int):
                return PList.concrete(self.path, [it.get(i) for i in range(n)])
            src = it
            t = AbsType([])
            if isinstance(it.src, PList):
                t = absof(it.src).alts[0][1]
            lst = PList.symbolic(self.path, n, lambda p, i: src.get(i), t)
            if isinstance(it.src, PList):
                lst.role = it.src.role
            return lst
        if isinstance(it, PList):
            return PList.concrete(self.path, list(it.items))
        return PList.concrete(self.path, list(it))

    def _elts(self, elts, frame):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, frame)
                seq = self.sequence(v)
                if seq is None:
                    raise Unsupported("starred symbolic sequence")
                out += seq
            else:
                out.append(self.ev(x, frame))
        return out

    def e_Dict(self, e, frame):
        d = PDict(self.path, tag=self.site(e, "dict"))
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, frame)
                if not isinstance(o, PDict):
                    raise Unsupported("** of a non-dict")
                for kk, vv in o.entries():
                    d.store(kk, vv)
            else:
                kk = self.ev(k, frame)
                d.store(kk, self.ev(v, frame))
        return d

    def e_IfExp(self, e, frame):
        t = self.ev(e.test, frame)
        if isinstance(t, SBool) and pure_expr(e.body) and pure_expr(e.orelse):
            r = self.path.speculate(lambda: [_merge_num(t, self.ev(e.body, frame), self.ev(e.orelse, frame))])
            if r is not None:
                return r[0]
        return self.ev(e.body if self.truth(t) else e.orelse, frame)

    def e_Lambda(self, e, frame):
        return Fn(e, frame, [self.ev(d, frame) for d in e.args.defaults], {a.arg: self.ev(d, frame) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None}, "<lambda>")

    def e_NamedExpr(self, e, frame):
        v = self.ev(e.value, frame)
        f = frame
        while f.name == "<comp>":
            f = f.parent
        self.assign_name(e.target.id, v, f)
        return v

    def e_BoolOp(self, e, frame):
        v = None
        is_and = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.ev(x, frame)
            if i == len(e.values) - 1:
                return v
            if isinstance(v, SBool) and all(pure_expr(y) for y in e.values[i + 1:]):
                rest = self.path.speculate(lambda: [self.ev(y, frame) for y in e.values[i + 1:]])
                if rest is not None and all(isinstance(y, (bool, SBool)) for y in rest):
                    return land([v] + rest) if is_and else lor([v] + rest)
            t = self.truth(v)
            if is_and and not t:
                return False if isinstance(v, SBool) else v
            if not is_and and t:
                return True if isinstance(v, SBool) else v
        return v

    def e_UnaryOp(self, e, frame):
        v = self.ev(e.operand, frame)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return lnot(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if is_sym(v):
                return arith("-", 0, v)
            return self.native_apply(lambda a: -a, [v], {})
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, frame):
        a = self.ev(e.left, frame)
        b = self.ev(e.right, frame)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b, inplace=False):
        from . import models

        return models.binop(self, op, a, b, inplace)

    def e_Compare(self, e, frame):
        left = self.ev(e.left, frame)
        acc = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, frame)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            if not isinstance(c, (bool, SBool)):
                c = self.truth(c)
            if c is False:
                return False
            acc.append(c)
            left = right
        # operands of chained comparisons here are evaluated without short-circuit
        return land(acc)

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return lnot(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            return lnot(self.identical(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return lnot(self.contains(b, a))
        sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        if is_numlike(a) and is_numlike(b):
            return cmp(sym, a, b)
        dunder = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}
        refl = {"<": "__gt__", "<=": "__ge__", ">": "__lt__", ">=": "__le__"}
        for x, y, d in ((a, b, dunder[sym]), (b, a, refl[sym])):
            cls = x.cls if isinstance(x, Obj) else type(x) if isinstance(x, enum.Enum) else None
            if cls is not None:
                c = self.class_lookup(cls, d)
                if isinstance(c, types.FunctionType):
                    r = self.call(c, [x, y])
                    if r is not NotImplemented:
                        return r
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            # lexicographic
            res = sym in ("<=", ">=")
            strict = "<" if sym[0] == "<" else ">"
            for x, y in reversed(list(zip(a, b))):
                res = lor(cmp(strict, x, y), land(self.eq(x, y), res))
            return res
        if not is_sym(a) and not is_sym(b) and not isinstance(a, (Obj, PList)) and not isinstance(b, (Obj, PList)):
            import operator

            f = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[sym]
            return self.native_apply(f, [a, b], {})
        if (a is None or b is None) or (is_str(a) != is_str(b)):
            raise PyExc(TypeError, (f"'{sym}' not supported",))
        raise Unsupported(f"comparison {sym} of {a!r}, {b!r}")

    def e_Call(self, e, frame):
        # zero-argument super()
        f = self.ev(e.func, frame)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, frame)
                seq = self.sequence(v)
                if seq is None:
                    raise Unsupported("call with a starred symbolic sequence")
                args += seq
            else:
                args.append(self.ev(a, frame))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, frame)
            if k.arg is None:
                if not isinstance(v, PDict):
                    raise Unsupported("** of a non-dict")
                for kk, vv in v.entries():
                    kwargs[self.to_native(kk)] = vv
            else:
                kwargs[k.arg] = v
        if f is super:
            raise Unsupported("super()")
        return self.call(f, args, kwargs)

    def e_Attribute(self, e, frame):
        return self.getattr(self.ev(e.value, frame), e.attr)

    def e_Subscript(self, e, frame):
        o = self.ev(e.value, frame)
        return self.getitem(o, self.ev(e.slice, frame))

    def e_Slice(self, e, frame):
        f = lambda x: None if x is None else self.ev(x, frame)  # noqa: E731
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_JoinedStr(self, e, frame):
        from . import models

        out = ""
        for v in e.values:
            if isinstance(v, ast.Constant):
                out = models.concat(out, v.value)
            else:
                out = models.concat(out, self.e_FormattedValue(v, frame))
        return out

    def e_FormattedValue(self, v, frame):
        from . import models

        val = self.ev(v.value, frame)
        spec = "" if v.format_spec is None else self.e_JoinedStr(v.format_spec, frame)
        if v.conversion == 114:
            val = models.repr_(self, val)
        elif v.conversion == 115:
            val = models.str_(self, val)
        return models.format_(self, val, spec)

    def _comp(self, e, frame, emit):
        """Run comprehension generators, calling emit(frame) innermost."""
        cf = Frame(frame.globals, frame, "<comp>", None, self.path)
        cf.yield_cb = frame.yield_cb

        def rec(i, fr):
            if i == len(e.generators):
                emit(fr)
                return
            g = e.generators[i]
            src = self.ev(g.iter, frame if i == 0 else fr)
            it = self.iterator(src)
            body = _CompBody(lambda: rec2(i, fr), e)
            self.run_for(g, it, lambda v: self.assign(g.target, v, fr), [body], [], fr)

        def rec2(i, fr):
            for c in e.generators[i].ifs:
                if not self.truth(self.ev(c, fr)):
                    return
            rec(i + 1, fr)

        rec(0, cf)

    def s__CompBody(self, s, frame):
        s.thunk()

    def e_ListComp(self, e, frame):
        lst = PList.concrete(self.path, [], tag=self.site(e, "comp"))
        self._comp(e, frame, lambda fr: lst.append(self.ev(e.elt, fr)))
        return lst

    def e_GeneratorExp(self, e, frame):
        # consumed by any/all/join/tuple/list/sum: evaluated when collected
        def run(cb):
            self._comp(e, frame, lambda fr: cb(self.ev(e.elt, fr)))

        g = GenObj(run, self.path)
        g.comp = (e, frame)
        return g

    def e_DictComp(self, e, frame):
        d = PDict(self.path, tag=self.site(e, "dictcomp"))
        self._comp(e, frame, lambda fr: d.store(self.ev(e.key, fr), self.ev(e.value, fr)))
        return d

    def e_SetComp(self, e, frame):
        lst = PList.concrete(self.path, [], tag=self.site(e, "setcomp"))
        self._comp(e, frame, lambda fr: lst.append(self.ev(e.elt, fr)))
        if lst.items is None:
            raise Unsupported("set of symbolic size")
        out = lst.items
        if all(_const_key(x) for x in out):
            return set(out)
        raise Unsupported("symbolic set")

    def e_Yield(self, e, frame):
        f = frame
        while f is not None and f.yield_cb is None:
            f = f.parent
        if f is None:
            raise Unsupported("yield outside a generator")
        v = None if e.value is None else self.ev(e.value, frame)
        return f.yield_cb(v)

    def e_YieldFrom(self, e, frame):
        v = self.ev(e.value, frame)
        it = self.iterator(v)
        if isinstance(it, GenObj):
            it.use()
            return it.run(frame.yield_cb)
        if isinstance(it, (list, PList)):
            for x in (it if isinstance(it, list) else it.items):
                frame.yield_cb(x)
            return None
        raise Unsupported("yield from symbolic sequence")


class _CompBody(ast.stmt):
    _fields = ()

    def __init__(self, thunk, e):
        self.thunk = thunk
        self.lineno = e.lineno
        self.col_offset = e.col_offset
        self.comp = e


class SymIter:
    """An indexable iteration of (possibly) symbolic length."""

    def __init__(self, n, get, src=None):
        self.n, self.get, self.src = n, get, src

    def __repr__(self):
        return f"<iter n={self.n} src={self.src}>"


class _Chain:
    def __init__(self, its):
        self.its = its


class SliceV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


def _kind(v):
    if isinstance(v, (bool, int, float, SBool, SInt, SReal)):
        return "num"
    if is_str(v):
        return "str"
    if isinstance(v, tuple):
        return "tuple"
    if isinstance(v, PList):
        return "list"
    if isinstance(v, PDict):
        return "dict"
    return type(v).__name__


def typename(v):
    if v is None:
        return "NoneType"
    if isinstance(v, (bool, SBool)):
        return "bool"
    if isinstance(v, (int, SInt)):
        return "int"
    if isinstance(v, (float, SReal)):
        return "float"
    if is_str(v):
        return "str"
    if isinstance(v, tuple):
        return "tuple"
    if isinstance(v, PList):
        return "list"
    if isinstance(v, PDict):
        return "dict"
    return type(v).__name__


def _is_generated(fn):
    """Methods the dataclass decorator generated (no source file)."""
    return isinstance(fn, types.FunctionType) and fn.__code__.co_filename == "<string>"


_GEN_CACHE = {}


def _is_generator(node):
    key = id(node)
    if key not in _GEN_CACHE:
        found = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                found = True
                break
            stack.extend(ast.iter_child_nodes(n))
        _GEN_CACHE[key] = (found, node)
    return _GEN_CACHE[key][0]
