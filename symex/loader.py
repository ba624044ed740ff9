"""Import cddm from /repo's working tree for symbolic or for concrete execution."""
import ast, os, re, sys, types, importlib, importlib.machinery, pkgutil, math, builtins, tempfile, warnings

REPO = os.environ.get("CDDM_REPO", "/repo")


def env_setup(scratch):
    home = os.path.join(scratch, "home")
    os.makedirs(home, exist_ok=True)
    os.environ["HOME"] = home
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba_cache")
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.environ["QT_QPA_PLATFORM"] = "offscreen"
    for v in ("CDDM_TARGET_PARALLEL", "CDDM_FASTMATH", "CDDM_DOUBLE_PRECISION", "CDDM_NUMBA_CACHE"):
        os.environ.pop(v, None)
    sys.dont_write_bytecode = True


MODS = ["conf", "decorators", "print_tools", "fft", "_core_nb", "avg", "norm", "core", "multitau", "map", "window",
        "video", "sim", "_sim_nb", "viewer"]


class NS(types.SimpleNamespace):
    pass


class _Subscripts(ast.NodeTransformer):
    """a[i] -> __sym_getitem__(a, i): numpy arrays can then be indexed with symbolic masks and integers"""

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node

        def conv(e):
            if isinstance(e, ast.Slice):
                none = lambda x: x if x is not None else ast.Constant(None)
                return ast.Call(ast.Name("__sym_slice__", ast.Load()), [none(e.lower), none(e.upper), none(e.step)], [])
            if isinstance(e, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.elts):
                return ast.Tuple([conv(x) for x in e.elts], ast.Load())
            return e
        new = ast.Call(ast.Name("__sym_getitem__", ast.Load()), [node.value, conv(node.slice)], [])
        return ast.fix_missing_locations(ast.copy_location(new, node))

    def visit_Call(self, node):
        """float(x), np.float64(x), isinstance(x, float): x may be symbolic"""
        self.generic_visit(node)
        f = node.func
        if (isinstance(f, ast.Name) and f.id in ("float", "complex", "isinstance", "F", "C", "FDTYPE", "CDTYPE")) or \
                (isinstance(f, ast.Attribute) and re.fullmatch(r"(float|complex|u?int)\d+|intp|bool_|double|single|F|C", f.attr)):
            new = ast.Call(ast.Name("__sym_call__", ast.Load()), [f] + node.args, node.keywords)
            return ast.fix_missing_locations(ast.copy_location(new, node))
        return node

    depth = 0

    def visit_FunctionDef(self, node):
        self.depth += 1
        try:
            return self.generic_visit(node)
        finally:
            self.depth -= 1

    def visit_Import(self, node):
        """a numpy import inside of a function gets the symbolic numpy, as module level imports do"""
        if self.depth and any(a.name == "numpy" for a in node.names):
            out = []
            for a in node.names:
                if a.name == "numpy":
                    new = ast.Assign([ast.Name(a.asname or "numpy", ast.Store())], ast.Name("__sym_np__", ast.Load()))
                else:
                    new = ast.Import([a])
                out.append(ast.fix_missing_locations(ast.copy_location(new, node)))
            return out
        return node

    def visit_AnnAssign(self, node):
        return node

    visit_arg = visit_AnnAssign


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        f = self.get_filename(fullname)
        return compile(_Subscripts().visit(ast.parse(self.get_data(f), f)), f, "exec", dont_inherit=True)


class _Finder:
    def find_spec(self, name, path=None, target=None):
        if not name.startswith("cddm."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = _Loader(name, spec.loader.path)
        return spec


def load_symbolic():
    """cddm with the numba shim and the symbolic numpy"""
    import numpy as np
    from . import nbshim, arr, interp, fftstub
    sys.path.insert(0, REPO)
    shim = nbshim.make_module()
    saved = {k: v for k, v in sys.modules.items() if k == "numba" or k.startswith("numba.")}
    for k in saved:
        del sys.modules[k]
    sys.modules["numba"] = shim
    sys.modules["numba.config"] = shim.config
    warnings.simplefilter("ignore")
    builtins.__sym_getitem__ = arr.getitem
    builtins.__sym_slice__ = slice
    builtins.__sym_call__ = arr.npmore.sym_call
    builtins.__sym_np__ = arr.symnp
    sys.meta_path.insert(0, _Finder())
    ns = NS()
    mods = []
    for m in MODS:
        mod = importlib.import_module("cddm." + m)
        setattr(ns, m, mod)
        mods.append(mod)
    for m in pkgutil.iter_modules(sys.modules["cddm"].__path__, "cddm."):
        if m.name != "cddm.test" and m.name not in ["cddm." + x for x in MODS]:
            try:
                mods.append(importlib.import_module(m.name))
            except Exception:
                pass
    assert os.path.realpath(sys.modules["cddm"].__file__).startswith(os.path.realpath(REPO) + os.sep), sys.modules["cddm"].__file__
    if "fft" in ns.__dict__:
        for nm in ("spfft", "fftw", "mkl_fft"):
            if hasattr(ns.fft, nm):
                setattr(ns.fft, nm, fftstub.FFTLib(getattr(ns.fft, nm)))
    for mod in mods:
        d = mod.__dict__
        for k, v in list(d.items()):
            if v is np:
                d[k] = arr.symnp
            elif v is math:
                d[k] = interp.symmath
            elif v is np.fft or (isinstance(v, types.ModuleType) and v.__name__ == "numpy.fft"):
                d[k] = arr.SymNP.fft
            elif isinstance(v, np.ufunc) or (isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) and
                                            (getattr(v, "__module__", "") or "").split(".")[0] == "numpy"):
                d[k] = getattr(arr.symnp, v.__name__, v)
            elif isinstance(v, types.ModuleType) and v.__name__ == "numpy.random":
                d[k] = arr.SymNP.random
        d.setdefault("min", interp.sym_min)
        d.setdefault("max", interp.sym_max)
    ns.np = arr.symnp
    ns.symbolic = True
    return ns


class PoisonNP:
    """numpy with recognisable contents in 'uninitialised' memory (replay only)"""

    def __init__(self, np):
        self._np = np

    def __getattr__(self, n):
        return getattr(self._np, n)

    def _poison(self, a):
        import numpy as np
        if a.dtype.kind in "fc":
            a.fill(np.nan)
        elif a.dtype.kind in "iu":
            a.fill(np.iinfo(a.dtype).max // 3)
        return a

    def empty(self, *a, **k):
        return self._poison(self._np.empty(*a, **k))

    def empty_like(self, *a, **k):
        return self._poison(self._np.empty_like(*a, **k))


def load_real():
    """the real cddm, numba compiled"""
    import numpy as np
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    ns = NS()
    for m in MODS:
        mod = importlib.import_module("cddm." + m)
        setattr(ns, m, mod)
    assert os.path.realpath(sys.modules["cddm"].__file__).startswith(os.path.realpath(REPO) + os.sep)
    for m in MODS:
        d = getattr(ns, m).__dict__
        if m in ("_core_nb", "_sim_nb"):
            continue
        for k, v in list(d.items()):
            if v is np:
                d[k] = PoisonNP(np)
    ns.np = np
    ns.symbolic = False
    return ns
