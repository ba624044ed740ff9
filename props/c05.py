"""cross_count / auto_count count the pairs of frames at each delay"""
from .common import *

BOUNDS = "quick: <= 4 trigger times in 0..9, regular lengths 1..6, n_out 1..10; thorough: <= 6 trigger times in 0..20"
OUTSIDE = "sizes beyond the bounds, int64 overflow"


def cross(P, cd, n1, n2, nout, T, cplx, pre, kind, T0=0):
    if kind == "irr":
        a1, a2 = P.ints("t1", (n1,), T0, T), P.ints("t2", (n2,), T0, T)
        t1, t2 = lst(a1), lst(a2)
    elif kind == "t2 none":
        a1, a2 = P.ints("t1", (n1,), T0, T), None
        t1 = t2 = lst(a1)
    elif kind == "scalar":
        a1, a2 = n1, n2
        t1, t2 = arange(n1), arange(n2)
    elif kind == "scalar none":
        a1, a2 = n1, None
        t1 = t2 = arange(n1)
    elif kind == "mixed":
        a1, a2 = P.ints("t1", (n1,), T0, T), n2
        t1, t2 = lst(a1), arange(n2)
    elif kind == "list":
        a1 = [P.int("p%d" % i, T0, T) for i in range(n1)]
        a2 = [P.int("q%d" % i, T0, T) for i in range(n2)]
        t1, t2 = a1, a2
    kw = {}
    size = nout
    if nout is None:
        allt = [(x - y) for x in t1 for y in t2]
        size = None
    if pre:
        full = 2 * nout - 1 if cplx else nout
        aout = P.ints("aout", (full,), -3, 50)
        base = aout.copy()
        kw["aout"] = aout
    elif nout is not None:
        kw["n"] = nout
    out = cd.core.cross_count(a1, a2, complex=cplx, **kw)
    if nout is None:
        full = out.shape[0]
        size = (full + 1) // 2 if cplx else full
        m = 0
        for x in t1:
            for y in t2:
                m = P.ite(abs(x - y) > m, abs(x - y), m)
        P.true("default length covers the largest delay exactly", m + 1 == size)
    want = count_cross(P, t1, t2, size, cplx)
    if pre:
        want = [want[k] + base[k] for k in range(full)]
        P.eq("aout", aout, want)
    P.eq("cross_count", out, want)


def auto(P, cd, n, nout, T, pre, kind, T0=0):
    if kind == "irr":
        a = P.ints("t", (n,), T0, T)
        t = lst(a)
    elif kind == "list":
        a = t = [P.int("p%d" % i, T0, T) for i in range(n)]
    else:
        a, t = n, arange(n)
    kw = {}
    size = nout
    if pre:
        aout = P.ints("aout", (nout,), -3, 50)
        base = aout.copy()
        kw["aout"] = aout
    elif nout is not None:
        kw["n"] = nout
    out = cd.core.auto_count(a, **kw)
    if nout is None:
        size = out.shape[0]
        m = 0
        for x in t:
            for y in t:
                m = P.ite(abs(x - y) > m, abs(x - y), m)
        P.true("default length covers the largest delay exactly", m + 1 == size)
    want = count_auto(P, t, size)
    if pre:
        want = [want[k] + base[k] for k in range(nout)]
        P.eq("aout", aout, want)
    P.eq("auto_count", out, want)


def wrong(P, cd):
    f = P.real("aout", (4,))
    P.raises("float count array", lambda: cd.core.cross_count(3, 3, aout=f))
    P.raises("float count array", lambda: cd.core.auto_count(3, aout=f))


def cases(tier):
    th = tier == "thorough"
    out = []
    sizes = [(3, 3), (4, 2), (1, 4)] + ([(5, 5), (6, 4), (2, 6)] if th else [])
    for cplx in (False, True):
        for n1, n2 in sizes:
            T = 9 if not th else 20
            for nout, pre in ((4, False), (1, False), (10, False), (3, True), (None, False)):
                for kind in ("irr", "scalar", "mixed", "list"):
                    if kind == "list" and nout != 4:
                        continue
                    if nout is None and kind in ("irr", "mixed"):
                        T = 4
                    out.append(Case(nm("cross", kind, n1, n2, "n", str(nout), "cplx" if cplx else "real", "aout" if pre else ""), cross,
                                    dict(n1=n1, n2=n2, nout=nout, T=T, cplx=cplx, pre=pre, kind=kind)))
            out.append(Case(nm("cross t2 none", n1, n2, "cplx" if cplx else "real"), cross, dict(n1=n1, n2=n2, nout=4, T=T, cplx=cplx, pre=False, kind="t2 none")))
            out.append(Case(nm("cross scalar none", n1, n2, "cplx" if cplx else "real"), cross, dict(n1=n1, n2=n2, nout=4, T=T, cplx=cplx, pre=False, kind="scalar none")))
        out.append(Case(nm("cross negative times", "cplx" if cplx else "real"), cross, dict(n1=3, n2=3, nout=5, T=4, T0=-4, cplx=cplx, pre=False, kind="irr")))
    for n in (1, 3, 4) + ((6,) if th else ()):
        for nout, pre in ((4, False), (1, False), (10, False), (3, True), (None, False)):
            for kind in ("irr", "scalar", "list"):
                out.append(Case(nm("auto", kind, n, "n", str(nout), "aout" if pre else ""), auto, dict(n=n, nout=nout, T=4 if nout is None else (9 if not th else 20), pre=pre, kind=kind)))
    out.append(Case("auto negative times", auto, dict(n=3, nout=5, T=4, T0=-4, pre=False, kind="irr")))
    out.append(Case("wrong aout", wrong, {}))
    return out
