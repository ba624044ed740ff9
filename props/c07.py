"""ccorr / acorr return the documented tuple for every method, norm and layout, and add to aout"""
from .common import *

BOUNDS = "quick: 3 frames, frame shapes (), (2,), (1,2), times 0..4, n_out <= 4 (FFT of irregular data: 2 frames, times 0..3); thorough: <= 5 frames, times 0..7 (FFT of irregular data: 3 frames, times 0..4)"
OUTSIDE = "IEEE rounding, sizes beyond the bounds, repeated times within one camera (FFT, auto sums)"
STUBS = "cddm's FFT back ends: exact DFT by contract"


def case(P, cd, shape, axis, nout, irregular, method, norm, cplx, align, cross, T, runs, sq, kind):
    n = shape[axis]
    t1 = t2 = arange(n)
    kw = {}
    tot = None
    prev = None
    for r in range(runs):
        s = "" if r == 0 else "'%d" % r
        f1 = P.cplx("f1" + s, shape)
        f2 = P.cplx("f2" + s, shape) if cross else None
        kw = {}
        if irregular:
            a1 = times(P, "t1" + s, n, T)
            t1 = t2 = lst(a1)
            distinct(P, t1)
            if cross:
                a2 = times(P, "t2" + s, n, T)
                t2 = lst(a2)
                distinct(P, t2)
                kw.update(t1=a1, t2=a2)
            else:
                kw.update(t=a1)
        s1, s2 = cd.core.abs2(f1), (cd.core.abs2(f2) if cross else None)
        if sq:
            s1 = P.real("s1" + s, shape)
            if cross:
                s2 = P.real("s2" + s, shape)
                kw.update(f1s=s1, f2s=s2)
            else:
                kw.update(fs=s1)
        if prev is not None:
            kw["aout"] = prev
        elif nout is not None:
            kw["n"] = nout
        if kind:
            kw["norm"] = norm
        if method is not None:
            kw["method"] = method
        size = nout if nout is not None else n
        m = method if method is not None else ("fft" if nout is None and prev is None or "n" not in kw and method is None else "corr")
        if method is None:
            m = "corr" if "n" in kw else "fft"
        if cross:
            got = cd.core.ccorr(f1, f2, axis=axis, align=align, complex=cplx, **kw)
        else:
            got = cd.core.acorr(f1, axis=axis, align=align, complex=cplx, **kw)
        want = ctuple(P, f1, f2, s1, s2, t1, t2, axis, size, m, norm, cplx, cross)
        P.same("tuple", [g is None for g in got], [w is None for w in want])
        if tot is None:
            tot = [None if w is None else np.array(w, object) for w in want]
        else:
            tot = [None if w is None else t + np.array(w, object) for t, w in zip(tot, want)]
        for nme, g, w in zip(NAMES[m == "diff"], got, tot):
            if w is not None:
                P.eq(nme, g, w)
        prev = got


def errors(P, cd):
    f = P.cplx("f", (3, 2))
    t = P.array([0, 1, 2])
    core = cd.core
    P.raises("unknown method", lambda: core.ccorr(f, f, n=2, method="foo"))
    P.raises("unknown method", lambda: core.acorr(f, n=2, method="foo"))
    P.raises("complex diff", lambda: core.ccorr(f, f, n=2, method="diff", complex=True))
    P.raises("one time list", lambda: core.ccorr(f, f, t1=t, n=2))
    P.raises("other time list", lambda: core.ccorr(f, f, t2=t, n=2))
    P.raises("different shapes", lambda: core.ccorr(f, f[:2], n=2))
    for norm in (0, 8, 9):
        P.raises("norm %d" % norm, lambda: core.ccorr(f, f, n=2, norm=norm))
        P.raises("norm %d" % norm, lambda: core.acorr(f, n=2, norm=norm))
    for norm in (1, 3, 7):
        P.raises("diff norm %d" % norm, lambda: core.ccorr(f, f, n=2, norm=norm, method="diff"))
    for norm in (1, 3, 6, 7):
        P.raises("diff norm %d" % norm, lambda: core.acorr(f, n=2, norm=norm, method="diff"))


def cases(tier):
    out = []
    th = tier == "thorough"

    def add(**k):
        n = nm("cross" if k["cross"] else "auto", k["shape"], "axis", k["axis"], "irr" if k["irregular"] else "reg", str(k["method"]), "norm", k["norm"] if k["kind"] else "default",
               "cplx" if k["cplx"] else "", "align" if k["align"] else "", "n", str(k["nout"]), "runs" if k["runs"] > 1 else "", "sq" if k["sq"] else "")
        if all(c.name != n for c in out):
            out.append(Case(n, case, k))
    T = 7 if th else 4
    for cross in (True, False):
        for irr in (False, True):
            for method in ("corr", "fft", "diff"):
                norms = (1, 2, 3, 5, 6, 7) if method != "diff" else ((2, 6) if cross else (2,))
                for norm in norms:
                    for cplx in (False, True):
                        if method == "diff" and cplx and cross:
                            continue
                        fft_irr = method == "fft" and irr
                        # FFT of irregular data transforms a symbolic scatter: smaller frames and times
                        q = fft_irr and not th
                        d = dict(irregular=irr, method=method, norm=norm, cplx=cplx, cross=cross, T=T if not fft_irr else 4 if th else 3, sq=False, kind=True)
                        add(shape=(3, 2) if not fft_irr else (2, 2) if th else (2, 1), axis=0, align=False, nout=3, runs=1, **d)
                        if norm in (norms[-1], 3):
                            add(shape=(2, 3) if not fft_irr else (1, 3) if th else (1, 2), axis=1, align=True, nout=4, runs=1, **d)
                            if not q or not cplx:
                                add(shape=(2,) if fft_irr else (3,), axis=0, align=False, nout=2, runs=2, **dict(d, T=2 if fft_irr else T))
                        if th:
                            add(shape=(5, 1) if not fft_irr else (3, 1), axis=0, align=True, nout=4, runs=1, **d)
                            add(shape=(2, 3, 1) if not fft_irr else (2, 3), axis=1, align=False, nout=3, runs=1, **d)
                        if norm in (2, 7) and method != "diff":
                            add(shape=(3,) if not q else (2,), axis=0, align=False, nout=3, runs=1, **dict(d, sq=True))
            # fewer delays than frames, frames of two dimensions
            for method in ("corr", "fft", "diff"):
                q = method == "fft" and irr
                for al in (False, True):
                    add(shape=(4, 1, 2) if not q else (2, 1, 2), axis=0, irregular=irr, method=method, norm=7 if method != "diff" else (6 if cross else 2), cplx=False, align=al, cross=cross, T=4 if not q else 2, nout=2 if not q else 1, runs=1, sq=False, kind=True)
                    if not irr:
                        add(shape=(1, 4, 1), axis=1, irregular=irr, method=method, norm=3 if method != "diff" else 2, cplx=method != "diff", align=al, cross=cross, T=4, nout=2, runs=1, sq=False, kind=True)
        # defaults
        for method in (None, "corr", "fft", "diff"):
            last = 7 if method != "diff" else (6 if cross else 2)
            q = method == "fft" and not th
            add(shape=(3, 2), axis=0, irregular=False, method=method, norm=last, cplx=False, align=False, cross=cross, T=4, nout=None, runs=1, sq=False, kind=False)
            add(shape=(3, 2) if not q else (2, 1), axis=0, irregular=True, method=method, norm=last, cplx=False, align=False, cross=cross, T=4 if not q else 3, nout=3, runs=1, sq=False, kind=False)
    out.append(Case("errors", errors, {}))
    return out
