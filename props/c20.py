"""half-space and full-space Fourier data; cropping"""
from .common import *
import numpy as np

BOUNDS = "quick: frames of heights and widths 1..6, stacked frames, every crop size; all values; thorough: sizes up to 9"
OUTSIDE = "IEEE rounding; frame sizes beyond the bounds; sizes for which the exact DFT is not algebraic (5, 7) use arbitrary hermitian spectra instead of an FFT"
STUBS = "np.fft.fft2/rfft2: exact DFT as linear forms"
LEVEL = None


def hermitian(P, H, W, front=()):
    """an arbitrary spectrum of a real H x W frame"""
    z = P.cplx("z", front + (H, W))
    o = z.copy()
    for q in np.ndindex(*front):
        for i in range(H):
            for j in range(W):
                a = (i, j)
                b = (-i % H, -j % W)
                if a == b:
                    o[q + a] = re(z[q + a]) + 0j
                elif b < a:
                    o[q + a] = cj(o[q + b])
    return o


def slots(H, W):
    """every slot of half-space data: (i, j)"""
    return [(i, j) for i in range(H) for j in range(W // 2 + 1)]


def roundtrip(P, cd, H, W, front, last):
    f = hermitian(P, H, W, front)
    M = cd.map
    axes = (len(front), len(front) + 1)
    if last:
        f = P.np.moveaxis(f, (-2, -1), (0, 1)) if front else f
        axes = (0, 1)
    x = f.copy()
    ix = (lambda i, j: (slice(None),) * axes[0] + (i, j))
    default = axes == (f.ndim - 2, f.ndim - 1)
    for kw in ([dict()] if default else []) + [dict(axes=axes), dict(axes=tuple(a - f.ndim for a in axes))]:
        h = M.as_rfft2_data(f, **kw)
        c = M.as_rfft2_conj(f, **kw)
        for i, j in slots(H, W):
            P.eq("half %d %d" % (i, j), h[ix(i, j)], x[ix(i, j)])
            if j:
                P.eq("conj %d %d" % (i, j), c[ix(i, j)], x[ix(-i % H, -j % W)])
        P.same("half shape", h.shape[axes[1]], W // 2 + 1)
        g = M.from_rfft2_data(h, shape=(H, W), **kw)
        P.eq("back", g, x)
        if W % 2:
            P.eq("back without a shape", M.from_rfft2_data(h, **kw), x)
    P.eq("data unchanged", f, x)


def transform(P, cd, H, W):
    """the real transforms"""
    x = P.real("x", (H, W))
    f, r = P.np.fft.fft2(x), P.np.fft.rfft2(x)
    P.eq("as_rfft2_data", cd.map.as_rfft2_data(f), r)
    P.eq("from_rfft2_data", cd.map.from_rfft2_data(r, shape=(H, W)), f)
    c = cd.map.as_rfft2_conj(f)
    for i, j in slots(H, W):
        if j:
            P.eq("conj %d %d" % (i, j), c[i, j], cj(r[i, j]))


def mask(P, cd, H, W):
    m = P.bools("m", (H, W))
    h = cd.map.as_rfft2_mask(m)
    c = cd.map.as_rfft2_conj(m)
    d = cd.map.as_rfft2_data(m)
    for i, j in slots(H, W):
        a, b = m[i, j], m[-i % H, -j % W]
        P.true("half %d %d" % (i, j), d[i, j] == a)
        P.true("conj %d %d" % (i, j), c[i, j] == (b if j else False))
        P.true("any %d %d" % (i, j), h[i, j] == (a | b if j else a))


def half_mask(P, cd, H, W):
    """masks of half-space data: each selected element and its mirror image (for even widths the last
    column is its own mirror image)"""
    m = P.bools("m", (H, W // 2 + 1))
    f = cd.map.from_rfft2_data(m, shape=(H, W))
    P.same("shape", tuple(f.shape), (H, W))
    for i in range(H):
        for j in range(W):
            if 2 * j == W:
                P.true("full %d %d" % (i, j), (f[i, j] == m[i, j]) | (f[i, j] == m[-i % H, j]))
            else:
                P.true("full %d %d" % (i, j), f[i, j] == (m[i, j] if 2 * j < W else m[-i % H, -j % W]))


def integers(P, cd, H, W):
    m = P.ints("m", (H, W))
    c = cd.map.as_rfft2_conj(m)
    for i, j in slots(H, W):
        if j:
            P.eq("conj %d %d" % (i, j), c[i, j], m[-i % H, -j % W])


def crop(P, cd, H, W, mode, front):
    """element (ki, kj) of the cropped data is wavevector (ki, kj) of the data"""
    half = mode == "rfft2"
    V = W // 2 + 1 if half else W
    x = P.cplx("x", front + (H, V))
    fn = cd.fft.rfft2_crop if half else cd.fft.fft2_crop
    ki = P.choice("kimax", [None] + list(range(0, H // 2 + 3)))
    kj = P.choice("kjmax", [None] + list(range(0, (V - 1 if half else V // 2) + 3)))
    bad = (ki is not None and 2 * ki > H // 2 * 2) or (kj is not None and (kj > V - 1 if half else 2 * kj > V // 2 * 2))
    if bad:
        P.raises("too large %s %s" % (ki, kj), lambda: fn(x, ki, kj), ValueError)
        return
    y = x.copy()
    out = fn(x, ki, kj)
    h = H if ki is None else 2 * ki + 1
    w = V if kj is None else (kj + 1 if half else 2 * kj + 1)
    P.same("shape", tuple(out.shape), front + (h, w))
    rows = list(range(H)) if ki is None else [k % H for k in list(range(ki + 1)) + list(range(-ki, 0))]
    cls = list(range(V)) if kj is None else list(range(kj + 1)) if half else [k % V for k in list(range(kj + 1)) + list(range(-kj, 0))]
    for a, i in enumerate(rows):
        for b, j in enumerate(cls):
            P.eq("wavevector %d %d" % (i, j), out[..., a, b], y[..., i, j])
    P.eq("data unchanged", x, y)


def crop_convert(P, cd, H, W):
    """cropping commutes with the conversion of half-space data"""
    f = hermitian(P, H, W)
    r = cd.map.as_rfft2_data(f)
    ki = P.choice("kimax", list(range(0, (H - 1) // 2 + 1)))
    kj = P.choice("kjmax", list(range(0, (W - 1) // 2 + 1)))
    a = cd.fft.rfft2_crop(r, ki, kj)
    b = cd.fft.fft2_crop(f, ki, kj)
    P.eq("full", cd.map.from_rfft2_data(a), b)
    P.eq("half", cd.map.as_rfft2_data(b), a)
    if 2 * kj + 1 <= W:
        P.eq("full given the shape", cd.map.from_rfft2_data(a, shape=(H, W)), b)


def shapes(P, cd):
    S = cd.map.as_fft2_shape
    H, W = P.choice("H", [1, 2, 5, 6]), P.choice("W", [1, 2, 5, 6])
    i = P.choice("i", [None, 1, 2, 3, 5, 6, 7])
    j = P.choice("j", [None, 1, 2, 3, 4, 5])
    known = P.choice("shape known", [True, False])
    if not known:
        if i is None or j is None:
            P.raises("unknown shape", lambda: S(i, j), ValueError)
        else:
            P.same("shape", tuple(int(k) for k in S(i, j)), (i, 2 * j - 1))
        return
    if (i or 0) > H or (j or 0) > W // 2 + 1:
        P.raises("too large", lambda: S(i, j, (H, W)), ValueError)
        return
    w = W if j is None or j == W // 2 + 1 else 2 * j - 1
    P.same("shape", tuple(int(k) for k in S(i, j, (H, W))), (i or H, w))


def cases(tier):
    o = []
    big = tier != "quick"
    sz = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (3, 4), (4, 3), (4, 4), (5, 5), (6, 5), (5, 6), (6, 6)] + ([(7, 8), (8, 7), (9, 9)] if big else [])
    for H, W in sz:
        o.append(Case(nm("roundtrip", H, W), roundtrip, dict(H=H, W=W, front=(), last=False)))
        o.append(Case(nm("mask", H, W), mask, dict(H=H, W=W)))
        o.append(Case(nm("half mask", H, W), half_mask, dict(H=H, W=W)))
        o.append(Case(nm("crop and convert", H, W), crop_convert, dict(H=H, W=W)))
        for mode in ("rfft2", "fft2"):
            o.append(Case(nm("crop", mode, H, W), crop, dict(H=H, W=W, mode=mode, front=())))
    for H, W in ((3, 3), (4, 4), (2, 5)):
        for last in (False, True):
            o.append(Case(nm("roundtrip stack", H, W, "last" if last else ""), roundtrip, dict(H=H, W=W, front=(2,), last=last)))
        o.append(Case(nm("integers", H, W), integers, dict(H=H, W=W)))
        for mode in ("rfft2", "fft2"):
            o.append(Case(nm("crop stack", mode, H, W), crop, dict(H=H, W=W, mode=mode, front=(2,))))
    for H, W in ((1, 1), (2, 2), (2, 3), (3, 4), (4, 3), (4, 4), (6, 4), (4, 6)) + (((6, 6), (3, 12), (8, 4)) if big else ()):
        o.append(Case(nm("transform", H, W), transform, dict(H=H, W=W)))
    o.append(Case("shapes", shapes))
    return o
