"""Fourier transform of videos, DLS-like imaging, normalisation in Fourier space"""
from .common import *
import cmath
import numpy as np

BOUNDS = "quick: frames of heights and widths 1..6 (with an exact DFT), two cameras, two multi-frames, all crop sizes, all installed FFT libraries; C, Fortran, strided and reversed memory layout; all values; thorough: heights and widths up to 8"
OUTSIDE = "IEEE rounding; frame sizes 5 and 7 (no exact twiddle factors); complex input of rfft2 with non-zero imaginary part; mkl_fft (not installed)"
STUBS = "FFT libraries (numpy.fft, scipy.fftpack, pyfftw): exact DFT as linear forms, in-place results arbitrary"
LEVEL = None

LIBS = ("numpy", "scipy", "pyfftw")


def root(P, k, n):
    if hasattr(P, "ctx"):
        from symex import fftstub
        return fftstub.root(k, n)
    return cmath.exp(2j * cmath.pi * (k % n) / n)


def dft(P, x, ki, kj):
    H, W = x.shape
    s = 0j
    for a in range(H):
        for b in range(W):
            s = s + x[a, b] * (root(P, -ki * a, H) * root(P, -kj * b, W))
    return s


def setlib(cd, lib):
    cd.conf.set_fftlib(lib)
    cd.conf.set_rfft2lib(lib)


def layout(n, kmax):
    """frequencies of the elements along a full axis"""
    if kmax is None:
        return list(range(n))
    return list(range(kmax + 1)) + list(range(-kmax, 0))


def transform(P, cd, mode, lib, H, W, dtype, old, how=None):
    setlib(cd, lib)
    mk = P.real if dtype == "r" else P.cplx if dtype == "c" else lambda n, s: P.real(n, s) + 0j
    src = [[lay(mk("x%d%d" % (i, c), (H, W)), how) for c in range(2)] for i in range(2)]
    keep = [[f.copy() for f in fs] for fs in src]
    half = mode == "rfft2"
    ki = P.choice("kimax", [None] + list(range(H // 2 + 1)))
    kj = P.choice("kjmax", [None] + list(range((W // 2 if half else (W - 1) // 2) + 1)))
    if ki is not None:
        P.assume(2 * ki + 1 <= H)
    over = P.choice("overwrite", [False, True])
    f = getattr(cd.fft, mode if old else mode + "_video")
    out = list(f(iter([tuple(fs) for fs in src]), ki, kj, overwrite_x=over))
    P.same("number of multi-frames", len(out), 2)
    fi = layout(H, ki)
    fj = (list(range(W // 2 + 1)) if kj is None else list(range(kj + 1))) if half else layout(W, kj)
    for i in range(2):
        P.same("cameras", (isinstance(out[i], tuple), len(out[i])), (True, 2))
        for c in range(2):
            P.same("shape", tuple(out[i][c].shape), (len(fi), len(fj)))
            P.same("dtype", np.dtype(out[i][c].dtype), np.dtype(cd.conf.CDTYPE if half else complex))
            for a, k in enumerate(fi):
                for b, q in enumerate(fj):
                    P.eq("frame %d camera %d element %d %d" % (i, c, k, q), out[i][c][a, b], dft(P, keep[i][c], k, q))
            if not over:
                P.eq("input unchanged", src[i][c], keep[i][c])


def toolarge(P, cd, mode, H, W):
    half = mode == "rfft2"
    f = getattr(cd.fft, mode + "_video")
    x = P.real("x", (H, W))
    ki = P.choice("kimax", [None, H // 2, H // 2 + 1, H])
    kj = P.choice("kjmax", [None, W // 2, W // 2 + 1, W])
    bad = (ki is not None and ki > H // 2) or (kj is not None and kj > W // 2)
    if bad:
        P.raises("too large", lambda: list(f([(x,)], ki, kj)), ValueError)
    else:
        out = list(f([(x,)], ki, kj))
        P.same("one frame", len(out), 1)


def normalise(P, cd, inplace, old):
    src = [[P.cplx("x%d%d" % (i, c), (2, 2)) for c in range(2)] for i in range(2)]
    for fs in src:
        for f in fs:
            P.assume(re(f[0, 0]) > 0.1)
    keep = [[f.copy() for f in fs] for fs in src]
    out = list(cd.fft.normalize_fft(iter([tuple(fs) for fs in src]), inplace=inplace))
    P.same("number of multi-frames", len(out), 2)
    for i in range(2):
        P.same("cameras", (isinstance(out[i], tuple), len(out[i])), (True, 2))
        for c in range(2):
            for q in np.ndindex(2, 2):
                # multiplied by the mean, the original element comes back
                P.eq("element %s" % (q,), out[i][c][q] * keep[i][c][0, 0], keep[i][c][q])
            P.eq("input", src[i][c], out[i][c] if inplace else keep[i][c])


def dls(P, cd, lib, H, W, kvec, video, stack):
    """the frame convolved with the window that is modulated by the wavevector"""
    setlib(cd, lib)
    x = P.real("x", (H, W))
    n = len(kvec) if isinstance(kvec[0], tuple) else None
    w = P.real("w", ((n,) if stack else ()) + (H, W))
    x0, w0 = x.copy(), w.copy()
    ki = P.choice("kimax", [None] + list(range((H - 1) // 2 + 1)))
    kj = P.choice("kjmax", [None] + list(range((W - 1) // 2 + 1)))
    if video:
        y = P.real("y", (H, W))
        r = list(cd.fft.dls_video(iter([(x, y), (y, x)]), w, kvec, ki, kj))
        P.same("videos", [len(fs) for fs in r], [2, 2])
        P.eq("second is the other way round", r[1][1], r[0][0])
        P.eq("second camera", r[0][1], r[1][0])
        got = r[0][0]
        P.eq("second camera is processed as the first one", r[0][1], cd.fft.dls(y, w0, kvec, ki, kj))
    else:
        got = cd.fft.dls(x, w, kvec, ki, kj)
    P.eq("frame unchanged", x, x0)
    P.eq("window unchanged", w, w0)
    fi, fj = layout(H, ki), layout(W, kj)
    h, v = len(fi), len(fj)
    for m, (ka, kb) in enumerate(kvec if n else [kvec]):
        ww = w0[m] if stack else w0
        g = got[m] if n else got
        P.same("shape", tuple(g.shape), (h, v))
        # spectrum of the convolution
        conv = np.empty((H, W), object)
        for a in range(H):
            for b in range(W):
                s = 0j
                for c in range(H):
                    for d in range(W):
                        s = s + x0[(a - c) % H, (b - d) % W] * ww[c, d] * (root(P, -ka * c, H) * root(P, -kb * d, W))
                conv[a, b] = s
        if ki is None and kj is None:
            for a in range(H):
                for b in range(W):
                    P.eq("element %d %d" % (a, b), g[a, b], conv[a, b])
            continue
        for a, k in enumerate(fi):
            for b, q in enumerate(fj):
                s = 0j
                for c in range(h):
                    for d in range(v):
                        s = s + g[c, d] * (root(P, -a * c, h) * root(P, -b * d, v))
                P.eq("frequency %d %d" % (k, q), s, dft(P, conv, k, q))


def cases(tier):
    o = []
    big = tier != "quick"
    sz = [(1, 1), (2, 1), (1, 2), (2, 3), (3, 2), (3, 3), (4, 3), (3, 4), (4, 4), (6, 2), (2, 6)] + ([(6, 6), (8, 3), (3, 8), (8, 8)] if big else [])
    for H, W in sz:
        for mode in ("rfft2", "fft2"):
            for lib in LIBS:
                for dt in ("r", "z") if mode == "rfft2" else ("r", "c"):
                    if lib != "numpy" and (H, W) not in [(2, 3), (3, 4), (4, 3)]:
                        continue
                    o.append(Case(nm(mode, lib, H, W, dt), transform, dict(mode=mode, lib=lib, H=H, W=W, dtype=dt, old=False)))
            o.append(Case(nm("too large", mode, H, W), toolarge, dict(mode=mode, H=H, W=W)))
    for mode in ("rfft2", "fft2"):
        for how in LAYOUTS:
            for lib in LIBS:
                o.append(Case(nm(mode, lib, how), transform, dict(mode=mode, lib=lib, H=3, W=2, dtype="r", old=False, how=how)))
        o.append(Case(nm("deprecated", mode), transform, dict(mode=mode, lib="numpy", H=3, W=4, dtype="r", old=True)))
    for i in (False, True):
        o.append(Case(nm("normalise", "in place" if i else "copy"), normalise, dict(inplace=i, old=False)))
    for lib in LIBS:
        for H, W, kv in [(2, 2, (0, 1)), (3, 2, (1, 1)), (3, 3, (2, 1)), (3, 3, ((0, 1), (1, 2))), (2, 3, ((1, 0), (0, 0), (1, 2)))] + ([(4, 4, (1, 2)), (4, 3, ((1, 2), (3, 0)))] if big else []):
            m = isinstance(kv[0], tuple)
            for st in (False, True) if m else (False,):
                if lib == "numpy" or (H, W) == (3, 2) or st:
                    o.append(Case(nm("dls", lib, H, W, "multi" if m else "", "stack" if st else ""), dls, dict(lib=lib, H=H, W=W, kvec=kv, video=False, stack=st)))
    o.append(Case("dls video", dls, dict(lib="numpy", H=3, W=2, kvec=(1, 1), video=True, stack=False)))
    return o
