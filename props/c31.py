"""verbosity and run-time settings"""
from .common import *
import builtins
import contextlib
import sys
import warnings
import numpy as np

BOUNDS = "quick: every verbosity level between -3 and 3 (symbolic), nesting up to 3 levels, every combination of installed libraries, every previous setting; computations on 2..8 frames of one or two pixels with every verbosity level"
OUTSIDE = "computations that raise an exception; cddm.ini and environment variables; format of the messages"
STUBS = "print: recorded; numba and mkl thread numbers: a model that accepts 1..8"
LEVEL = None


@contextlib.contextmanager
def printed():
    keep, lines = builtins.print, []

    def rec(*a, **k):
        if k.get("file") in (None, sys.stdout):
            lines.append((a, k))
        else:
            keep(*a, **k)
    builtins.print = rec
    try:
        yield lines
    finally:
        builtins.print = keep


def level(P, cd, lo=-3, hi=3):
    v = P.int("verbose", lo, hi)
    P.patch(cd.conf.CDDMConfig, "verbose", v)
    return v


def messages(P, cd):
    """level 1 and level 2 messages are printed from verbosity 1 and 2"""
    v = level(P, cd)
    t = cd.print_tools
    one, two = bool(v >= 1), bool(v >= 2)
    for name, f, want in (("print1", lambda: t.print1("a", 1, end=""), one), ("print2", lambda: t.print2("a", 1, end=""), two)):
        with printed() as l:
            f()
        P.same(name, l, [(("a", 1), {"end": ""})] if want else [])
    with printed() as l:
        t.print_frame_rate(10, 1., 3.5, message="done")
    P.same("rate", [str(a[0]) for a, k in l], ["done 10 frames with an average frame rate 4.00"] if two else [])
    with printed() as l:
        t.print_frame_rate(10, 2., 2.)
    P.same("no time elapsed", len(l), 1 if two else 0)
    for i in (1, 3, 4):
        with printed() as l:
            t.print_progress(i, 4, length=8)
        P.same("progress", len(l), (2 if i == 4 else 1) if one else 0)
        if one:
            s = str(l[0][0][0])
            P.same("bar", (s.count("="), s.count("-"), "%.1f%%" % (25 * i) in s), (2 * i, 8 - 2 * i, True))
    P.eq("level unchanged", cd.conf.CDDMConfig.verbose, v)


def nested(P, cd, depth):
    """every enable_prints restores what disable_prints returned; nothing is printed in between"""
    v = level(P, cd)
    t, c = cd.print_tools, cd.conf.CDDMConfig
    st = []
    for i in range(depth):
        before = c.verbose
        st.append(t.disable_prints())
        P.eq("returned", st[-1], before)
        with printed() as l:
            t.print1("a")
            t.print2("a")
            t.print_progress(1, 1)
            t.print_frame_rate(1, 0., 1.)
        P.same("silent", l, [])
    while st:
        before = c.verbose
        P.eq("returned", t.enable_prints(st.pop()), before)
        if st:
            with printed() as l:
                t.print1("a")
            P.same("silent", l, [])
    P.eq("restored", c.verbose, v)
    # without an argument the prints are enabled again
    t.disable_prints()
    t.enable_prints()
    P.eq("enabled", c.verbose, abs(v))


def set_level(P, cd):
    v = level(P, cd)
    n = P.int("level", -3, 5)
    P.eq("previous", cd.conf.set_verbose(n), v)
    P.eq("level", cd.conf.CDDMConfig.verbose, P.ite(n < 0, 0, n))


INSTALLED = {"mkl_fft": "MKL_FFT_INSTALLED", "scipy": "SCIPY_INSTALLED", "scipy.fftpack": "SCIPY_INSTALLED",
             "pyfftw": "PYFFTW_INSTALLED", "cv2": "CV2_INSTALLED", "pyqtgraph": "PYQTGRAPH_INSTALLED"}


def library(P, cd, which):
    """returns the previous library; the new one is used if it is installed, otherwise there is a warning"""
    c = cd.conf
    attr = {"set_fftlib": "fftlib", "set_rfft2lib": "rfft2lib", "set_showlib": "showlib"}[which]
    inst = {}
    for f in ("MKL_FFT_INSTALLED", "SCIPY_INSTALLED", "PYFFTW_INSTALLED", "CV2_INSTALLED", "PYQTGRAPH_INSTALLED"):
        b = P.bool(f)
        P.patch(c, f, b)
        inst[f] = b
    if which == "set_showlib":
        names, old = ["matplotlib", "cv2", "pyqtgraph", "foo", ""], ["matplotlib", "cv2", "pyqtgraph"]
    else:
        names, old = ["numpy", "numpy.fft", "scipy", "scipy.fftpack", "mkl_fft", "pyfftw", "foo", ""], ["numpy", "scipy", "mkl_fft", "pyfftw"]
    name, prev = P.choice("name", names), P.choice("previous", old)
    P.patch(c.CDDMConfig, attr, prev)
    others = {k: v for k, v in c.CDDMConfig.__dict__.items() if k != attr}
    f = getattr(c, which)
    if name in ("foo", ""):
        P.raises("unknown", lambda: f(name), ValueError)
        want = prev
    else:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = f(name)
        P.same("previous", r, prev)
        ok = bool(inst[INSTALLED[name]]) if name in INSTALLED else True
        want = {"numpy.fft": "numpy", "scipy.fftpack": "scipy"}.get(name, name) if ok else prev
        P.same("warning", len(w), 0 if ok else 1)
    P.same("library", getattr(c.CDDMConfig, attr), want)
    P.same("other settings", {k: v for k, v in c.CDDMConfig.__dict__.items() if k != attr} == others, True)


def threads(P, cd):
    c = cd.conf
    a, b, n = P.int("fft", 1, 8), P.int("numba", 1, 8), P.int("n", 1, 8)
    P.patch(c.CDDMConfig, "fft_threads", a)
    P.patch(c.CDDMConfig, "numba_threads", b)
    st = [b]
    P.patch(c.numba, "set_num_threads", lambda k: st.__setitem__(0, k))
    P.patch(c.numba, "get_num_threads", lambda: st[0])
    P.eq("previous", c.set_fft_threads(n), a)
    P.eq("fft threads", c.CDDMConfig.fft_threads, n)
    P.eq("numba threads", c.CDDMConfig.numba_threads, b)
    P.eq("previous", c.set_numba_threads(n), b)
    P.eq("numba threads", c.CDDMConfig.numba_threads, n)
    P.eq("numba", st[0], n)
    P.eq("fft threads", c.CDDMConfig.fft_threads, n)


def flat(x, o=None):
    o = [] if o is None else o
    if isinstance(x, (tuple, list)):
        for e in x:
            flat(e, o)
    else:
        o.append(x)
    return o


def pairs(f1, f2):
    for a, b in zip(f1, f2):
        yield a, b


def jobs(P, cd):
    """the computations of the library by name"""
    core, mt, norm = cd.core, cd.multitau, cd.norm
    f = P.cplx("f1", (4, 1))
    g = P.cplx("f2", (4, 1))
    f8 = P.cplx("f1'", (8, 1))
    g8 = P.cplx("f2'", (8, 1))
    fm, gm = P.cplx("f1m", (12, 1)), P.cplx("f2m", (12, 1))

    def data(nrm, multi=False, cross=True):
        if multi:
            return (mt.ccorr_multi(fm, gm, level_size=6, norm=nrm) if cross else mt.acorr_multi(fm, level_size=6, norm=nrm)), core.stats(fm, gm if cross else None)
        return (core.ccorr(f, g, n=2, norm=nrm) if cross else core.acorr(f, n=2, norm=nrm)), core.stats(f, g if cross else None)

    def normed(nrm, multi=False, **kw):
        d, (bg, var) = data(nrm, multi)
        return (mt.normalize_multi if multi else norm.normalize)(d, bg, var, norm=nrm, **kw)
    return dict(
        ccorr=lambda: core.ccorr(f, g, n=3, norm=6), acorr=lambda: core.acorr(f, n=3), diff=lambda: core.ccorr(f, g, n=2, method="diff"),
        adiff=lambda: core.acorr(f, n=2, method="diff"), fft=lambda: core.ccorr(f, g, method="fft"),
        stats=lambda: core.stats(f, g), background=lambda: core.subtract_background(f),
        iccorr=lambda: core.iccorr(pairs(f, g), count=4, chunk_size=2, n=2, norm=2, stats=True),
        iacorr=lambda: core.iacorr(iter(f), count=4, chunk_size=2, n=2, norm=1, auto_background=True),
        ccorr_multi=lambda: mt.ccorr_multi(fm, gm, level_size=6, norm=2), acorr_multi=lambda: mt.acorr_multi(fm, level_size=6, method="diff"),
        iccorr_multi=lambda: mt.iccorr_multi(pairs(f8, g8), count=8, level_size=2, chunk_size=2, norm=2),
        iacorr_multi=lambda: mt.iacorr_multi(iter(f8), count=8, level_size=2, chunk_size=4, norm=1, nlevel=3),
        iccorr_multi_chunk=lambda: mt.iccorr_multi(pairs(f8, g8), count=8, level_size=2, chunk_size=2, norm=2, mode="chunk"),
        normalize=lambda: normed(2, scale=True), normalize_structured=lambda: normed(6),
        normalize_multi=lambda: normed(2, True),
        multilevel=lambda: mt.merge_multilevel(mt.multilevel(P.real("x", (12,)), level_size=4)),
        log_average=lambda: mt.log_average(P.real("x", (12,)), size=4),
    )


def computation(P, cd, name):
    """the level is the same after every computation, nothing is printed at level 0 and the result does not depend on it"""
    v = level(P, cd, -2, 2)
    lo = bool(v <= 0)
    job = jobs(P, cd)[name]
    with printed() as l:
        r = job()
    P.eq("level restored", cd.conf.CDDMConfig.verbose, v)
    if lo:
        P.same("silent", [str(a)[:40] for a, k in l], [])
    P.patch(cd.conf.CDDMConfig, "verbose", 0)
    with printed():
        r0 = job()
    r, r0 = flat(r), flat(r0)
    P.same("number of results", len(r), len(r0))
    for a, b in zip(r, r0):
        if a is None or b is None:
            P.same("missing", a is None, b is None)
        else:
            P.eq("result", a, b)


def weighted(P, cd, mode):
    """weighted normalization of given data"""
    v = level(P, cd, -2, 2)
    lo = bool(v <= 0)
    rs = np.random.RandomState(1)
    f, g = [P.array(rs.randn(4, 1) + 1j * rs.randn(4, 1)) for k in range(2)]
    d = cd.core.ccorr(f, g, n=3, norm=6)
    bg, var = cd.core.stats(f, g)
    with printed() as l:
        cd.norm.normalize(d, bg, var, norm=mode, scale=True)
    P.eq("level restored", cd.conf.CDDMConfig.verbose, v)
    if lo:
        P.same("silent", l, [])


NAMES_ = ["ccorr", "acorr", "diff", "adiff", "fft", "stats", "background", "iccorr", "iacorr", "ccorr_multi", "acorr_multi", "iccorr_multi",
          "iacorr_multi", "iccorr_multi_chunk", "normalize", "normalize_structured", "normalize_multi", "multilevel", "log_average"]


def cases(tier):
    yield Case("messages", messages)
    for d in (1, 2, 3) + ((5,) if tier != "quick" else ()):
        yield Case(nm("nested", d), nested, dict(depth=d))
    yield Case("set_verbose", set_level)
    for w in ("set_fftlib", "set_rfft2lib", "set_showlib"):
        yield Case(w, library, dict(which=w))
    yield Case("threads", threads)
    for m in (9, 10, 11):
        yield Case(nm("weighted", m), weighted, dict(mode=m))
    for n in NAMES_:
        yield Case(nm("computation", n), computation, dict(name=n))
