"""Loads /repo's vblf (and the harness modules) with calls, subscripts and identity tests routed
through the models.  The source is read and rewritten on every run."""
from __future__ import annotations

import ast
import enum
import functools
import importlib.abc
import importlib.util
import os
import sys
import types

from . import core, models, seqs, strs
from .core import Bounded, SymBool, SymFloat, SymInt, eng
from .models import symbolic

ENTERED: dict = {}
SKIP_NAMES = {"super", "locals", "globals", "eval", "exec", "dir", "__rt_call__", "__rt_getitem__", "__rt_cmp__", "__rt_slice__",
              "TypeVar", "NewType", "namedtuple"}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    def _name(self, n):
        return ast.Name(n, ast.Load())

    # annotations and decorators stay as they are
    def visit_arguments(self, node):
        node.defaults = [self.visit(x) for x in node.defaults]
        node.kw_defaults = [self.visit(x) if x is not None else None for x in node.kw_defaults]
        return node

    def _func(self, node):
        self.stack.append(node.name)
        node.args = self.visit(node.args)
        qual = f"{self.mod}." + ".".join(self.stack)
        node.body = [self.visit(x) for x in node.body]
        # after a docstring
        k = 1 if (node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)) else 0
        enter = ast.Expr(ast.Call(self._name("__rt_enter__"), [ast.Constant(qual)], []))
        node.body.insert(k, enter)
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = [self.visit(x) for x in node.body]
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in SKIP_NAMES:
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(a) for a in node.keywords]
            return node
        self.generic_visit(node)
        return ast.copy_location(ast.Call(self._name("__rt_call__"), [node.func, *node.args], node.keywords), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        s = node.slice
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            s = ast.Call(self._name("__rt_slice__"), [s.lower or none, s.upper or none, s.step or none], [])
        return ast.copy_location(ast.Call(self._name("__rt_getitem__"), [node.value, s], []), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            return ast.copy_location(ast.Call(
                self._name("__rt_cmp__"),
                [ast.Constant(type(node.ops[0]).__name__), node.left, node.comparators[0]], []), node)
        return node

    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(ast.Call(self._name("__rt_tick__"), [], [])))
        return node

    visit_While = _loop
    visit_For = _loop


def rt_enter(name):
    ENTERED[name] = ENTERED.get(name, 0) + 1
    if core.E is not None and core.E.active:
        core.E.tick()


def rt_tick():
    if core.E is not None and core.E.active:
        core.E.tick()


def rt_cmp(op, a, b):
    if op == "Is":
        return models.is_(a, b)
    if op == "IsNot":
        return not models.is_(a, b)
    r = models.contains(a, b)
    return r if op == "In" else not r


def rt_slice(a, b, c):
    return slice(a, b, c)


def rt_getitem(o, i):
    t = type(o)
    if t is seqs.SymBytes or t is seqs.SymStr or t is seqs.SymByteArray or t is seqs.SymMemory:
        return o[i]
    sym = (isinstance(i, slice) and (symbolic(i.start) or symbolic(i.stop) or symbolic(i.step))) or symbolic(i)
    if isinstance(o, dict):
        if models.has_sym_key(i):
            found, v = models.dict_find(o, i)
            if not found:
                if hasattr(t, "__missing__"):
                    return o.__missing__(i)
                raise KeyError("<symbolic>")
            return v
        return o[i]
    if sym:
        if isinstance(o, (bytes, bytearray, str)):
            return seqs.wrap(o)[i]
        if isinstance(o, (list, tuple)) and not isinstance(i, slice):
            i = seqs.norm_index(i, len(o))
            for k in range(len(o) - 1):
                if bool(i == k):
                    return o[k]
            return o[len(o) - 1]
        if isinstance(o, (list, tuple)):
            return o[slice(*[eng().concretize(x) if symbolic(x) else x for x in (i.start, i.stop, i.step)])]
    if isinstance(o, type) and issubclass(o, enum.Enum) and symbolic(i):
        raise Bounded("enum lookup by symbolic name")
    return o[i]


_HASHABLE_BUILTIN = types.BuiltinFunctionType
_METHOD_DESC = type(str.join)
_SLOT = type(object.__init__)
_WRAP = type((1).__add__)


def rt_call(f, /, *a, **k):
    t = type(f)
    if t is types.FunctionType:
        m = models.PYTHON.get(f)
        return f(*a, **k) if m is None else m(*a, **k)
    if t is types.MethodType:
        m = models.PYTHON.get(f.__func__)
        return f(*a, **k) if m is None else m(f.__self__, *a, **k)
    if isinstance(f, type):
        m = models.CLASSES.get(f)
        if m is not None:
            return m(*a, **k)
        if issubclass(f, enum.Enum):
            return models.enum_call(f, a, k)
        return f(*a, **k)
    if t is _HASHABLE_BUILTIN:
        try:
            m = models.FUNCS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*a, **k)
        return _native(f, a, k)
    if t is _METHOD_DESC or t is _SLOT or t is _WRAP:
        if a and type(a[0]) in (seqs.SymBytes, seqs.SymStr, seqs.SymByteArray, seqs.SymMemory, SymInt, SymFloat, SymBool):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        return _native(f, a, k)
    if isinstance(f, functools.partial):
        return rt_call(f.func, *f.args, *a, **{**f.keywords, **k})
    return f(*a, **k)


def _native(f, a, k):
    s = getattr(f, "__self__", None)
    name = getattr(f, "__name__", "")
    anysym = any(symbolic(x) or (isinstance(x, tuple) and any(symbolic(y) for y in x)) for x in a) or any(
        symbolic(x) for x in k.values())
    if name == "join" and isinstance(s, (str, bytes)) and len(a) == 1:
        parts = list(a[0])
        if any(symbolic(p) for p in parts):
            return seqs.join(s, parts, isinstance(s, str))
        return f(parts)
    if not anysym:
        return f(*a, **k)
    try:
        if f in models.SAFE:
            return f(*a, **k)
    except TypeError:
        pass
    if isinstance(s, dict):
        if name == "get":
            found, v = models.dict_find(s, a[0]) if models.has_sym_key(a[0]) else (a[0] in s, s.get(a[0]))
            return v if found else (a[1] if len(a) > 1 else k.get("default"))
        if name in ("__contains__", "__getitem__") and models.has_sym_key(a[0]):
            found, v = models.dict_find(s, a[0])
            if name == "__contains__":
                return found
            if not found:
                raise KeyError("<symbolic>")
            return v
        if name == "pop" and models.has_sym_key(a[0]):
            raise Bounded("dict.pop of a symbolic key")
        return f(*a, **k)
    if isinstance(s, (list, set, frozenset)):
        return f(*a, **k)
    if isinstance(s, (str, bytes, bytearray)) and not isinstance(s, enum.Enum):
        if name in ("format",):
            return f(*a, **k)
        return getattr(seqs.wrap(s), name)(*a, **k)
    if isinstance(s, int) and name in ("to_bytes",):
        return f(*[eng().concretize(x) for x in a], **k)
    if isinstance(s, types.ModuleType) or s is None:
        mod = getattr(f, "__module__", None)
        if mod in ("math",) and name in ("ceil", "floor", "trunc"):
            return f(*a)
        if mod in ("_operator", "_functools", "itertools", "_collections"):
            return f(*a, **k)
        if all(type(x) in (SymInt, SymBool) or not symbolic(x) for x in (*a, *k.values())):
            return f(*[eng().concretize(x) if type(x) is SymInt else (bool(x) if type(x) is SymBool else x) for x in a], **{
                n: eng().concretize(x) if type(x) is SymInt else x for n, x in k.items()})
        if mod == "unicodedata" and name == "normalize":
            return strs.normalize(*a)
        if mod == "unicodedata":
            return f(*[strs.pinned_value(x) if symbolic(x) else x for x in a])
        raise Bounded(f"native function {mod}.{name} on symbolic values")
    if type(s) in (seqs.SymBytes, seqs.SymStr, SymInt):
        return f(*a, **k)
    if isinstance(s, type) and issubclass(s, (object,)) and name in ("__new__",):
        return f(*a, **k)
    if isinstance(s, type):
        # constructors such as int.from_bytes are modelled above
        if all(type(x) in (SymInt, SymBool) or not symbolic(x) for x in (*a, *k.values())):
            return f(*[eng().concretize(x) if type(x) is SymInt else x for x in a], **k)
        raise Bounded(f"native method {s.__name__}.{name} on symbolic values")
    return f(*a, **k)


RT = {
    "__rt_call__": rt_call,
    "__rt_getitem__": rt_getitem,
    "__rt_cmp__": rt_cmp,
    "__rt_slice__": rt_slice,
    "__rt_tick__": rt_tick,
    "__rt_enter__": rt_enter,
}


class Loader(importlib.abc.Loader):
    def __init__(self, path, pkg):
        self.path = path
        self.pkg = pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = Rewriter(module.__name__).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec", dont_inherit=True)
        module.__dict__.update(RT)
        native = functools.lru_cache, functools.cache
        functools.lru_cache, functools.cache = models.lru_cache, models.lru_cache(None)
        try:
            exec(code, module.__dict__)
        finally:
            functools.lru_cache, functools.cache = native


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots  # top-level package -> directory containing it

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_file_location(name, p, loader=Loader(p, True), submodule_search_locations=[base])
            return spec
        if os.path.isfile(base + ".py"):
            p = base + ".py"
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, False))
        return None


def install(repo_src, harness_root):
    sys.dont_write_bytecode = True
    for p in list(sys.modules):
        if p.split(".")[0] in ("vblf", "checks"):
            del sys.modules[p]
    sys.meta_path.insert(0, Finder({"vblf": repo_src, "checks": harness_root}))
    meta = "/opt/venv/lib/python3.12/site-packages"
    if os.path.isdir(meta) and meta not in sys.path:
        sys.path.append(meta)


# --------------------------------------------------------------------------- module state


class Snapshot:
    """Module- and class-level state of the code under test, restored before every path."""

    def __init__(self, prefix="vblf"):
        self.saved = []  # (namespace owner, dict copy)
        self.conts = []
        seen = set()

        def container(v):
            if id(v) in seen or type(v) not in (list, dict, set, seqs.SymByteArray):
                return
            seen.add(id(v))
            if type(v) is list:
                self.conts.append((v, list(v)))
                for x in v:
                    container(x)
            elif type(v) is dict:
                self.conts.append((v, dict(v)))
                for x in v.values():
                    container(x)
            elif type(v) is set:
                self.conts.append((v, set(v)))
            elif type(v) is seqs.SymByteArray:
                self.conts.append((v, v.seq))

        def owner(o):
            if id(o) in seen:
                return
            seen.add(id(o))
            d = dict(vars(o))
            self.saved.append((o, d))
            for n, v in d.items():
                if n.startswith("__") and n != "__defaults__":
                    continue
                container(v)
                raw = v.__func__ if isinstance(v, (classmethod, staticmethod)) else v
                if isinstance(raw, types.FunctionType):
                    for x in raw.__defaults__ or ():
                        container(x)
                        self.instance(x, seen, container)
                    for x in (raw.__kwdefaults__ or {}).values():
                        container(x)
                    for c in raw.__closure__ or ():
                        try:
                            container(c.cell_contents)
                        except ValueError:
                            pass
                elif isinstance(v, type) and v.__module__.split(".")[0] == prefix and not issubclass(v, enum.Enum):
                    owner(v)
                else:
                    self.instance(v, seen, container)

        for n, m in list(sys.modules.items()):
            if n.split(".")[0] == prefix and isinstance(m, types.ModuleType):
                owner(m)

    def instance(self, v, seen, container):
        """State of a module-level object of the code under test."""
        c = type(v)
        if id(v) in seen or getattr(c, "__module__", "").split(".")[0] != "vblf" or issubclass(c, enum.Enum):
            return
        seen.add(id(v))
        if hasattr(v, "__dict__"):
            self.conts.append((v, dict(v.__dict__)))
            for x in v.__dict__.values():
                container(x)
                self.instance(x, seen, container)

    def restore(self):
        for o, d in self.saved:
            cur = vars(o)
            for n in list(cur):
                if n not in d:
                    try:
                        delattr(o, n) if not isinstance(o, types.ModuleType) else cur.pop(n)
                    except (AttributeError, TypeError):
                        pass
            for n, v in d.items():
                if cur.get(n) is not v:
                    setattr(o, n, v)
            for v in list(d.values()):
                f = v.__func__ if isinstance(v, (classmethod, staticmethod)) else v
                cc = getattr(f, "cache_clear", None)
                if cc is not None and callable(cc):
                    cc()
        for v, c in self.conts:
            if type(v) is list:
                v[:] = c
            elif type(v) in (dict, set):
                v.clear()
                v.update(c)
            elif type(v) is seqs.SymByteArray:
                v.seq = c
            else:
                v.__dict__.clear()
                v.__dict__.update(c)
