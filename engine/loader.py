"""Import /repo's real modules against the fake world."""
import ast
import builtins
import importlib
import os
import sys
import types

from . import sym
from .sym import SVal, SBool, Unsupported
from .world import ROOT, StubModule

CODE = {}            # path -> (mtime, code)
SEEN = set()         # (file, qualname) of functions symbolically executed
TOOL = 3


class _T(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "float" and len(n.args) == 1 and not n.keywords:
            n.func = ast.copy_location(ast.Name("__symfloat__", ast.Load()), n.func)
        return n


def symfloat(x):
    if isinstance(x, SVal):
        return x
    if isinstance(x, SBool):
        return x.as_val()
    it = getattr(x, "item", None)
    if it is not None and not isinstance(x, (int, float, str)):
        v = it()
        if isinstance(v, (SVal, SBool)):
            return symfloat(v)
        return float(v)
    return float(x)


def _anysym(xs):
    return any(isinstance(x, (SVal, SBool)) for x in xs)


def _mk_minmax(native, f):
    def g(*a, **k):
        if "key" not in k:
            xs = list(a[0]) if len(a) == 1 else list(a)
            if _anysym(xs):
                r = xs[0]
                for x in xs[1:]:
                    r = f(r, x)
                return r
            if len(a) == 1:
                return native(xs, **k)
        return native(*a, **k)
    return g


def _sym_any(xs):
    r = False
    for x in xs:
        if isinstance(x, SBool):
            r = sym.bor(r, x)
        elif x:
            return True
    return r


def _sym_all(xs):
    r = True
    for x in xs:
        if isinstance(x, SBool):
            r = sym.band(r, x)
        elif not x:
            return False
    return r


def compiled(path):
    mt = os.stat(path).st_mtime_ns
    c = CODE.get(path)
    if c is None or c[0] != mt:
        with builtins.open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(_T().visit(tree))
        c = (mt, compile(tree, path, "exec"))
        CODE[path] = c
    return c[1]


_mon = [False]


def monitor():
    """record which functions of /repo run (sys.monitoring, one event per function)"""
    if _mon[0]:
        return
    _mon[0] = True
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "yuca-verif")

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(ROOT + "/"):
            SEEN.add((fn[len(ROOT) + 1:], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(TOOL, mon.events.PY_START, start)
    mon.set_events(TOOL, mon.events.PY_START)


STDLIB_OK = set(sys.stdlib_module_names)


class Loader:
    def __init__(self, world):
        self.w = world
        self.mods = {}
        world.loader = self
        world.mods["sys"].modules = self.mods
        b = dict(vars(builtins))
        b["__import__"] = self._import
        b["__symfloat__"] = symfloat
        b["open"] = world.open
        b["print"] = lambda *a, **k: None
        b["input"] = lambda *a: ""
        b["max"] = _mk_minmax(builtins.max, sym.smax)
        b["min"] = _mk_minmax(builtins.min, sym.smin)
        b["any"] = lambda xs: _sym_any(list(xs)) if not isinstance(xs, (bytes, str)) else builtins.any(xs)
        b["all"] = lambda xs: _sym_all(list(xs))
        self.builtins = b

    def find(self, name):
        p = os.path.join(ROOT, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p):
            return None, True
        return None, None

    def imp(self, name):
        """import_module semantics"""
        parts = name.split(".")
        parent = None
        for i in range(len(parts)):
            n = ".".join(parts[:i + 1])
            m = self.load(n)
            if parent is not None:
                if not (n in self.w.mods):
                    setattr(parent, parts[i], m)
            parent = m
        return parent

    def load(self, n):
        if n in self.mods:
            return self.mods[n]
        if n in self.w.mods:
            return self.w.mods[n]
        top = n.split(".")[0]
        path, pkg = self.find(n)
        if pkg is None:
            if top in self.w.mods and isinstance(self.w.mods[top], StubModule):
                m = StubModule(self.w, n)
                self.w.mods[n] = m
                return m
            if top in STDLIB_OK and top not in self.w.mods:
                return importlib.import_module(n)
            raise ModuleNotFoundError(f"No module named '{n}'", name=n)
        m = types.ModuleType(n)
        self.mods[n] = m
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = path
        if pkg:
            m.__path__ = [os.path.join(ROOT, *n.split("."))]
            m.__package__ = n
        else:
            m.__package__ = n.rpartition(".")[0]
        if path:
            try:
                exec(compiled(path), m.__dict__)
            except BaseException:
                del self.mods[n]
                raise
        return m

    def run_main(self, path, argv):
        """run a script file as __main__"""
        m = types.ModuleType("__main__")
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = path
        self.w.argv[:] = [path] + list(argv)
        exec(compiled(path), m.__dict__)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            base = pkg.split(".")
            if level > 1:
                base = base[:-(level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name.startswith("numpy._"):
            # lazy imports of numpy's own C code, made on behalf of the calling frame
            return builtins.__import__(name, fromlist=list(fromlist or ()))
        m = self.imp(name)
        if not fromlist:
            return self.load(name.split(".")[0])
        for f in fromlist:
            if f != "*" and not hasattr(m, f):
                sub = f"{name}.{f}"
                if sub in self.mods or sub in self.w.mods or self.find(sub)[1] is not None:
                    setattr(m, f, self.imp(sub))
        return m
