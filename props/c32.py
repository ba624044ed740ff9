"""settings read at import: environment variables, cddm.ini, defaults"""
from .common import *
import ast, os, shutil, sys, tempfile, types, warnings
import numpy as np

BOUNDS = "quick: each environment variable unset, not a number, or any integer; each option of cddm.ini missing, invalid or any value (symbolic flags and integers, all library names); any combination of installed libraries; any number of available threads"
OUTSIDE = "read-only home directories; other platforms' way to count processors"
STUBS = "os.environ and ConfigParser return symbolic values (replay: the real environment and a real cddm.ini in a scratch home directory); numba and fft thread numbers: a model that accepts 1..threads"
LEVEL = None

FLAGS = {"CDDM_TARGET_PARALLEL": ("numba", "parallel", False), "CDDM_NUMBA_CACHE": ("numba", "cache", True),
         "CDDM_FASTMATH": ("numba", "fastmath", False), "CDDM_DOUBLE_PRECISION": ("core", "double_precision", True)}


class Environ:
    """symbolic values for some variables"""

    def __init__(self, vals, home):
        self.vals, self.home = vals, home

    def get(self, name, default=None):
        if name == "HOME":
            return self.home
        return self.vals.get(name, default)

    def __contains__(self, name):
        return name in self.vals or name == "HOME"

    def __getitem__(self, name):
        v = self.get(name)
        if v is None:
            raise KeyError(name)
        return v


class OS:
    def __init__(self, env):
        self.environ = env
        self.path = self

    def getenv(self, name, default=None):
        return self.environ.get(name, default)

    def expanduser(self, p):
        return p.replace("~", self.environ.home)

    def __getattr__(self, n):
        return getattr(os if n in ("makedirs", "sysconf", "sysconf_names", "mkdir", "sep", "name") else os.path, n)


def ini_class(ini):
    import configparser

    class ConfigParser(configparser.ConfigParser):
        def read(self, f, *a, **k):
            with open(f):
                return [f]

        def _v(self, section, name, kind, fallback=()):
            v = ini.get((section, name))
            if v is None:
                if fallback != ():
                    return fallback
                raise configparser.NoOptionError(name, section)
            if v is INVALID:
                if kind == "get":
                    return "maybe"
                raise ValueError("Not a %s: maybe" % kind)
            return v

        def get(self, section, name, **k):
            return self._v(section, name, "get")

        def getboolean(self, section, name, **k):
            return self._v(section, name, "boolean")

        def getint(self, section, name, **k):
            return self._v(section, name, "integer")

        def has_option(self, section, name):
            return ini.get((section, name)) is not None
    return ConfigParser


INVALID = object()


def text(v):
    if v is INVALID:
        return "maybe"
    if isinstance(v, (bool, np.bool_)):
        return "yes" if v else "no"
    return str(v)


class Calls(ast.NodeTransformer):
    """int(x) of a symbolic value"""

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("int", "max", "min", "bool"):
            node.func = ast.copy_location(ast.Name("__sym_" + node.func.id, ast.Load()), node.func)
        return node


class Import:
    """cddm/conf.py executed with a given environment, cddm.ini and libraries"""

    def __init__(self, P, cd, env=None, ini=None, installed=(), threads=None, template=False):
        self.P, sym = P, hasattr(P, "ctx")
        f = cd.conf.__file__
        self.home = tempfile.mkdtemp(prefix="c32_")
        env, ini = env or {}, ini or {}
        self.file = os.path.join(self.home, ".cddm", "cddm.ini")
        keep, mods = dict(os.environ), {}
        libs = {n: (types.ModuleType(n) if n in installed else None) for n in ("mkl_fft", "mkl", "cv2", "pyqtgraph", "pyfftw")}
        if libs["pyfftw"]:
            libs["pyfftw"].config = types.SimpleNamespace(NUM_THREADS=0)
        self.used = [0]
        if libs["mkl"]:
            libs["mkl"].set_num_threads = lambda n: self.used.__setitem__(0, n)
        import numba
        now = [threads if threads is not None else 4]
        limit = now[0]

        def set_num_threads(n):
            if not bool((n >= 1) & (n <= limit) if hasattr(n, "z") else 1 <= n <= limit):
                raise ValueError("The number of threads must be between 1 and %s" % limit)
            now[0] = n
        nb = {k: getattr(numba, k) for k in ("set_num_threads", "get_num_threads")}
        try:
            if not template:
                os.mkdir(os.path.dirname(self.file))
                with open(self.file, "w") as g:
                    for s in ("core", "numba", "fft"):
                        g.write("[%s]\n" % s)
                        for (sec, name), v in ini.items():
                            if sec == s and v is not None and not sym:
                                g.write("%s = %s\n" % (name, text(v)))
                self.before = open(self.file).read()
            for n, m in libs.items():
                mods[n] = sys.modules.get(n, False)
                sys.modules[n] = m
            numba.set_num_threads, numba.get_num_threads = set_num_threads, lambda: now[0]
            d = self.d = {"__name__": "c32_conf", "__file__": f, "__package__": "cddm"}
            with open(f) as g:
                tree = ast.parse(g.read(), f)
            if sym:
                from symex import interp
                tree = Calls().visit(tree)
                d.update(__sym_int=interp.sym_int, __sym_max=interp.sym_max, __sym_min=interp.sym_min, __sym_bool=interp.sym_bool)
            code = compile(tree, f, "exec", dont_inherit=True)
            if sym:
                o = OS(Environ({k: v for k, v in env.items() if v is not None}, self.home))
                keepmods = {m: sys.modules.get(m) for m in ("os", "configparser")}
                cp = types.ModuleType("configparser")
                cp.__dict__.update(sys.modules["configparser"].__dict__)
                cp.ConfigParser = ini_class(ini) if not template else cp.ConfigParser
                sys.modules["os"], sys.modules["configparser"] = o, cp
            else:
                os.environ.update(HOME=self.home)
                for k in FLAGS:
                    os.environ.pop(k, None)
                    if env.get(k) is not None:
                        os.environ[k] = text(env[k])
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    exec(code, d)
                finally:
                    if sym:
                        sys.modules.update(keepmods)
            self.warnings = len(w)
            self.threads = now[0]
        finally:
            os.environ.clear()
            os.environ.update(keep)
            for n, m in mods.items():
                if m is False:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = m
            numba.set_num_threads, numba.get_num_threads = nb["set_num_threads"], nb["get_num_threads"]
            self.after = open(self.file).read() if os.path.exists(self.file) else None
            self.files = sorted(os.listdir(os.path.join(self.home, ".cddm"))) if os.path.isdir(os.path.join(self.home, ".cddm")) else None
            shutil.rmtree(self.home, ignore_errors=True)
        if not template:
            P.same("cddm.ini unchanged", self.after, self.before)

    def __getattr__(self, n):
        return self.d[n]


def given(P, name):
    """(environment value, ini value, the value that counts)"""
    sec, opt, default = FLAGS[name]
    e = P.choice(name, ["unset", "number", "invalid"])
    i = P.choice(opt, ["missing", "value", "invalid"])
    n, b = P.int("n_" + name, -1000, 1000), P.bool("b_" + name)
    env = {"unset": None, "number": n, "invalid": INVALID}[e]
    ini = {"missing": None, "value": b, "invalid": INVALID}[i]
    v = bool(n != 0) if e == "number" else bool(b) if i == "value" else default
    if env is INVALID and hasattr(P, "ctx"):
        env = "maybe"
    return env, ini, v


def flags(P, cd, names):
    env, ini, v = {}, {}, {n: FLAGS[n][2] for n in FLAGS}
    for n in names:
        env[n], ini[FLAGS[n][:2]], v[n] = given(P, n)
    c = Import(P, cd, env, ini)
    par, cache, fast, double = [v[k] for k in FLAGS]
    P.same("parallel", (c.NUMBA_TARGET, bool(c.NUMBA_PARALLEL)), ("parallel" if par else "cpu", par))
    P.same("fastmath", bool(c.NUMBA_FASTMATH), fast)
    P.same("cache", bool(c.NUMBA_CACHE), cache)
    P.same("precision", c.PRECISION, "double" if double else "single")
    P.same("types", [np.dtype(t).name for t in (c.FDTYPE, c.CDTYPE, c.UDTYPE, c.IDTYPE)],
           ["float64", "complex128", "uint64", "int64"] if double else ["float32", "complex64", "uint32", "int32"])
    P.same("numba types", [str(t) for t in (c.F, c.C, c.U, c.I)], [str(t) for t in ((c.F64, c.C128, c.U64, c.I64) if double else (c.F32, c.C64, c.U32, c.I32))])
    P.same("all numba types", [str(getattr(c, k)) for k in ("F32", "F64", "C64", "C128", "U8", "U16", "U32", "U64", "I32", "I64")],
           [str(getattr(cd.conf.numba, k)) for k in ("float32", "float64", "complex64", "complex128", "uint8", "uint16", "uint32", "uint64", "int32", "int64")])


def number(P, name, lo, hi):
    i = P.choice(name, ["missing", "value", "invalid"])
    n = P.int("n_" + name, lo, hi)
    return {"missing": None, "value": n, "invalid": INVALID}[i], (n if i == "value" else None)


def verbose(P, cd):
    v, n = number(P, "verbose", -5, 5)
    c = Import(P, cd, ini={("core", "verbose"): v})
    P.eq("verbose", c.CDDMConfig.verbose, 0 if n is None else P.ite(n < 0, 0, n))


def threads(P, cd, which):
    limit = P.int("available", 1, 16)
    v, n = number(P, "nthreads", -3, 20)
    inst = [k for k in ("mkl", "pyfftw") if which == "fft" and bool(P.bool(k))]
    c = Import(P, cd, ini={(which, "nthreads"): v}, threads=limit, installed=inst)
    if which == "fft":
        P.eq("fft threads", c.CDDMConfig.fft_threads, n if n is not None else c.detect_number_of_cores())
        if "mkl" in inst:
            P.eq("mkl threads", c_used(c), n if n is not None else c.detect_number_of_cores())
    else:
        # out of range: all that are available
        w = n if n is not None else c.detect_number_of_cores()
        ok = bool((w >= 1) & (w <= limit)) if n is not None else bool(w <= limit)
        P.eq("numba threads", c.CDDMConfig.numba_threads, w if ok else limit)
        P.eq("numba", c.threads, w if ok else limit)


def c_used(c):
    return c.used[0]


def libraries(P, cd, which):
    inst = [k for k in ("mkl_fft", "cv2", "pyqtgraph", "pyfftw") if bool(P.bool(k))]
    names = ["matplotlib", "cv2", "pyqtgraph"] if which == "showlib" else ["numpy", "numpy.fft", "scipy", "scipy.fftpack", "mkl_fft", "pyfftw"]
    sec = "core" if which == "showlib" else "fft"
    name = P.choice("name", [None, "foo"] + names)
    run = lambda: Import(P, cd, ini={(sec, which): name}, installed=inst)
    if name == "foo":
        P.raises("unknown library", run, ValueError)
        return
    c = run()
    P.same("installed", [bool(c.d[k]) for k in ("NUMBA_INSTALLED", "SCIPY_INSTALLED", "MKL_FFT_INSTALLED", "CV2_INSTALLED", "PYQTGRAPH_INSTALLED", "PYFFTW_INSTALLED")],
           [True, True] + [k in inst for k in ("mkl_fft", "cv2", "pyqtgraph", "pyfftw")])
    default = {"fftlib": "mkl_fft" if "mkl_fft" in inst else "numpy", "rfft2lib": "numpy", "showlib": "cv2" if "cv2" in inst else "matplotlib"}
    want = dict(default)
    if name is not None:
        short = {"numpy.fft": "numpy", "scipy.fftpack": "scipy"}.get(name, name)
        missing = name in ("mkl_fft", "cv2", "pyqtgraph", "pyfftw") and name not in inst
        want[which] = ("matplotlib" if which == "showlib" else "numpy") if missing else short
        P.same("warned", c.warnings > 0, missing)
    P.same("libraries", {k: getattr(c.CDDMConfig, k) for k in want}, want)


def template(P, cd):
    """the template is copied to the home directory once; it holds the defaults"""
    c = Import(P, cd, template=True)
    f = os.path.join(os.path.dirname(cd.conf.__file__), "cddm.ini")
    P.same("files", c.files, ["cddm.ini"])
    P.same("copied", c.after, open(f).read())
    P.same("values", (c.PRECISION, c.NUMBA_TARGET, bool(c.NUMBA_CACHE), bool(c.NUMBA_FASTMATH), int(c.CDDMConfig.verbose), c.CDDMConfig.rfft2lib), ("double", "cpu", True, False, 0, "numpy"))


def cases(tier):
    o = []
    for n in FLAGS:
        o.append(Case(nm("flag", n), flags, dict(names=(n,))))
    o.append(Case("parallel and cache", flags, dict(names=("CDDM_TARGET_PARALLEL", "CDDM_NUMBA_CACHE"))))
    o.append(Case("fastmath and precision", flags, dict(names=("CDDM_FASTMATH", "CDDM_DOUBLE_PRECISION"))))
    if tier != "quick":
        o.append(Case("parallel, cache and fastmath", flags, dict(names=("CDDM_TARGET_PARALLEL", "CDDM_NUMBA_CACHE", "CDDM_FASTMATH"))))
    o.append(Case("verbose", verbose))
    for w in ("fft", "numba"):
        o.append(Case(nm("threads", w), threads, dict(which=w)))
    for w in ("fftlib", "rfft2lib", "showlib"):
        o.append(Case(nm("library", w), libraries, dict(which=w)))
    o.append(Case("template", template))
    return o
