"""Getting at the code under check.

`Pkg` executes the modules of /repo's current working tree with symbolic
stand-ins for numpy/math (nothing is cached, nothing is written to /repo).
`real_build` copies the tree to a scratch folder and compiles it the way the
repository does; replays and validations use that."""
import ast
import atexit
import builtins
import os
import shutil
import subprocess
import sys
import tempfile
import types

REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python"

_scratch = []


def scratch():
    if not _scratch:
        d = tempfile.mkdtemp(prefix="vpcheck_")
        _scratch.append(d)
        atexit.register(shutil.rmtree, d, True)
    return _scratch[0]


class StubModule(types.ModuleType):
    """Import succeeds, any attribute is another stub, any use is inert."""
    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        m = StubModule(self.__name__ + "." + name)
        setattr(self, name, m)
        return m

    def __call__(self, *a, **k):
        return StubModule(self.__name__ + "()")


class Texts(ast.NodeTransformer):
    """"text" % values also for symbolic values, which have no digits."""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(
                node.left, ast.Constant) and isinstance(node.left.value, str):
            node = ast.fix_missing_locations(ast.copy_location(ast.Call(
                ast.Name("__text__", ast.Load()), [node.left, node.right],
                []), node))
        return node


def text(a, b):
    import npshim
    try:
        return a % b
    except npshim.S.Unsupported:
        return a


class Pkg(object):
    """Symbolically executable package."""

    STUBS = ("matplotlib", "pylab", "traits", "bem", "tvtk", "qc")

    def __init__(self, stubs=(), hide=("traits", "qc"), real=(),
                 overrides=None):
        import npshim
        self.np = npshim.NumpyShim()
        self.math = npshim.MathShim()
        self.mods = {}
        self.stubs = set(self.STUBS) | set(stubs)
        self.hide = set(hide)
        self.overrides = dict(overrides or {})
        self.real = set(real)
        b = types.ModuleType("builtins")
        b.__dict__.update(builtins.__dict__)
        b.__import__ = self._import
        b.float = npshim.SymFloat
        b.__text__ = text
        self.builtins = b
        self.files = set()

    def __getitem__(self, name):
        return self.load(name)

    def load(self, name):
        """name: module below the package, '' for the package itself."""
        if name in self.mods:
            return self.mods[name]
        if name in self.overrides:
            m = self.overrides[name]
            if callable(m) and not isinstance(m, types.ModuleType):
                m = m(self)
            self.mods[name] = m
            if m is None:
                raise ImportError("electrode." + name)
            return m
        if name == "_transformations":
            raise ImportError(name)
        base = os.path.join(REPO, "electrode", *name.split(".")) \
            if name else os.path.join(REPO, "electrode")
        if os.path.isfile(base + ".py"):
            path = base + ".py"
        elif os.path.isfile(os.path.join(base, "__init__.py")):
            path = os.path.join(base, "__init__.py")
        elif os.path.isfile(base + ".pyx"):
            import pyxsym
            m = pyxsym.load_module(base + ".pyx")
            self.mods[name] = m
            self.files.add(os.path.relpath(base + ".pyx", REPO))
            return m
        else:
            raise ImportError("electrode." + name)
        m = types.ModuleType("electrode" + ("." + name if name else ""))
        m.__file__ = path
        m.__package__ = "electrode"
        if not name:
            m.__path__ = [base]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        with open(path) as f:
            src = f.read()
        import warnings
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                exec(compile(Texts().visit(ast.parse(src, path)), path,
                             "exec"), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        self.files.add(os.path.relpath(path, REPO))
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level or name == "electrode" or name.startswith("electrode."):
            sub = name if level else name[len("electrode"):].lstrip(".")
            if not sub:
                # from . import a, b
                if not fromlist:
                    return self.load("")
                ns = types.ModuleType("electrode")
                for f in fromlist:
                    try:
                        setattr(ns, f, self.load(f))
                    except ImportError:
                        setattr(ns, f, getattr(self._initattr(f), f))
                return ns
            m = self.load(sub)
            if not level and not fromlist:
                top = types.ModuleType("electrode")
                setattr(top, sub.split(".")[0], m)
                return top
            return m
        top = name.split(".")[0]
        if name in self.overrides:
            return self.overrides[name if fromlist or
                                  top not in self.overrides else top]
        if top == "numpy":
            if name == "numpy":
                return self.np
            if name == "numpy.linalg" and fromlist:
                return self.np.linalg
            m = builtins.__import__(name, globals, locals, fromlist, 0)
            return m if fromlist else self.np
        if name == "math":
            return self.math
        if name == "importlib":
            return self._importlib()
        if top in self.hide:
            raise ImportError(name)
        if top in self.stubs and top not in self.real:
            return StubModule(name if fromlist else top)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    # names the package's __init__ re-exports
    def _initattr(self, f):
        for m in ("system", "electrode", "grid", "pattern_constraints",
                  "utils", "transformations", "polygons"):
            mod = self.load(m)
            if hasattr(mod, f):
                return mod
        raise ImportError(f)

    def _importlib(self):
        m = types.ModuleType("importlib")

        def import_module(name, package=None):
            if "_transformations" in name:
                raise ImportError(name)
            import importlib
            if name.startswith(".") or name.startswith("electrode"):
                return self.load(name.lstrip(".").replace("electrode.", ""))
            return importlib.import_module(name)
        m.import_module = import_module
        return m


def copy_tree(dst):
    """Copy the package sources (no build products, no tests)."""
    os.makedirs(dst, exist_ok=True)
    shutil.copytree(os.path.join(REPO, "electrode"),
                    os.path.join(dst, "electrode"),
                    ignore=shutil.ignore_patterns(
                        "*.so", "__pycache__", "*.pyc", "cexpressions.c",
                        "tests"))
    for f in ("setup.py", "README.rst", "README.md", "setup.cfg",
              "pyproject.toml"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            shutil.copy(p, dst)
    return dst


_real = []


def real_build():
    """Folder holding the package built from the current tree."""
    if _real:
        return _real[0]
    d = os.path.join(scratch(), "real")
    copy_tree(d)
    env = dict(os.environ)
    env["CFLAGS"] = "-DPyUnicode_GetSize=PyUnicode_GetLength -O1"
    env.pop("PYTHONPATH", None)
    r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace",
                        "-j", "2"], cwd=d, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise RuntimeError("build failed:\n" +
                           r.stdout.decode(errors="replace")[-3000:])
    _real.append(d)
    return d


def import_real():
    """Put the real build first on sys.path (replay processes)."""
    d = real_build()
    sys.path.insert(0, d)
    os.environ["MPLBACKEND"] = "Agg"
    return d
