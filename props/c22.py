"""wavevector maps and sectors"""
from .common import *
import math
import numpy as np
from fractions import Fraction

BOUNDS = "quick: grids up to 5x5, arbitrary sector centre and width (symbolic), arbitrary k resolution between 0.6 and 3; thorough: grids up to 7x7"
OUTSIDE = "sector or ring borders closer than 1e-6 to a grid point, except for multiples of 45 degrees and half-integer resolutions, which are exact"
STUBS = "none"
LEVEL = None

D = math.pi / 180
TWO_PI = 2 * math.pi


def freq(n):
    return [k if k <= (n - 1) // 2 else k - n for k in range(n)]


def vectors(H, W, shape):
    """(ki, kj) of the elements of full-space data in units of the smaller step"""
    h, w = shape or (1, 1)
    si, sj = (1., h / w) if h > w else (w / h, 1.)
    return [[(a * si, b * sj) for b in freq(W)] for a in freq(H)]


def geometry(P, cd, H, W, shape):
    """sizes, angles and grids of full and half space"""
    M = cd.map
    for name, v, grid, ka in (("fft2", vectors(H, W, shape), M.fft2_grid, M.fft2_kangle),
                              ("rfft2", None, M.rfft2_grid, M.rfft2_kangle)):
        if v is None:
            v = [[(r[0][0], b * (vectors(1, 3, shape)[0][1][1])) for b in range(W)] for r in vectors(H, 1, shape)]
        ki, kj = grid(H, W, shape)
        k, a = ka(H, W, shape)
        for i in range(H):
            for j in range(W):
                y, x = v[i][j]
                P.eq("ki", ki[i, j], y)
                P.eq("kj", kj[i, j], x)
                P.eq("k", k[i, j], math.hypot(x, y), tol=1e-9)
                if (x, y) != (0, 0):
                    P.eq("cos", np.cos(a[i, j]) * math.hypot(x, y), x, tol=1e-9)
                    P.eq("sin", np.sin(a[i, j]) * math.hypot(x, y), -y, tol=1e-9)


def clear_of(P, angles, b):
    """the border is not on a grid point"""
    for t in angles:
        for m in (-1, 0, 1):
            d = b - (t + m * TWO_PI)
            P.assume((d > 1e-6) | (d < -1e-6))


def member(P, t, low, high, period=TWO_PI):
    r = False
    for m in (-2, -1, 0, 1, 2):
        r = r | ((t + m * period >= low) & (t + m * period < high))
    return r


def angle_of(v):
    return math.atan2(-v[0], v[1])


def ring(P, k, step, i):
    return (k > (i - 0.5) * step) & (k <= (i + 0.5) * step)


def sector(P, cd, H, W, shape, alo, ahi, slo, shi):
    """arbitrary centre and width"""
    angle = P.ctl("angle", alo, ahi)
    width = P.ctl("sector", slo, shi)
    P.assume(width > 0)
    v = vectors(H, W, shape)
    ts = sorted({angle_of(v[i][j]) for i in range(H) for j in range(W)})
    low, high = (angle - width / 2) * D, (angle + width / 2) * D
    clear_of(P, ts, low)
    clear_of(P, ts, high)
    k, a = cd.map.fft2_kangle(H, W, shape)
    got = cd.map.fft2_sector_indexmap(k, a, angle, width)
    if shape is None:
        got2 = cd.map.fft2_k_indexmap(H, W, angle, width, mode="fft2")
    for i in range(H):
        for j in range(W):
            if (i, j) == (0, 0):
                want = 0
            else:
                n = math.hypot(*v[i][j])
                r = math.ceil(n - 0.5)
                want = P.ite(member(P, angle_of(v[i][j]), low, high), r, -1)
            P.eq("element %d %d" % (i, j), got[i, j], want)
            if shape is None:
                P.eq("fft2_k_indexmap %d %d" % (i, j), got2[i, j], want)


def rings(P, cd, H, W, shape, deprecated):
    """arbitrary k resolution"""
    step = P.ctl("kstep", 0.6, 3)
    v = vectors(H, W, shape)
    if deprecated:
        k, a = cd.map.rfft2_kangle(H, W, shape)
        got = cd.map.sector_indexmap(k, a, 0., 180., step)
    else:
        k, a = cd.map.fft2_kangle(H, W, shape)
        got = cd.map.fft2_sector_indexmap(k, a, 0., 180., step)
    ks = k
    N = int(np.ceil(float(np.max(np.asarray(ks))) / 0.6)) + 2
    for n in sorted({float(x) for x in np.asarray(ks).ravel()}):
        for i in range(N):
            d = n - (i + 0.5) * step
            P.assume((d > 1e-6) | (d < -1e-6))
    an = np.asarray(a)
    for i in range(H):
        for j in range(W):
            n = float(np.asarray(ks)[i, j])
            if (i, j) == (0, 0):
                P.eq("zero", got[i, j], 0)
                continue
            if deprecated and i > H // 2 and j == 0:
                P.eq("redundant %d %d" % (i, j), got[i, j], -1)
                continue
            inside = -math.pi / 2 <= an[i, j] < math.pi / 2
            want = -1
            if inside:
                for q in range(N):
                    want = P.ite(ring(P, n, step, q), q, want)
            P.eq("element %d %d" % (i, j), got[i, j], want)


def tile(P, cd, H, W, n):
    """adjacent sectors cover every wavevector exactly once, including those on the borders"""
    w = 360 / n
    a0 = P.ctl("angle", -180, -180 + w)
    v = vectors(H, W, None)
    ts = sorted({angle_of(v[i][j]) for i in range(H) for j in range(W)})
    clear_of(P, ts, (a0 - w / 2) * D)           # the border that is computed in two ways
    k, a = cd.map.fft2_kangle(H, W)
    maps = [cd.map.fft2_sector_indexmap(k, a, a0 + w * m, w) for m in range(n)]
    for i in range(H):
        for j in range(W):
            if (i, j) != (0, 0):
                c = 0
                for m in maps:
                    c = c + P.ite(m[i, j] >= 0, 1, 0)
                P.eq("element %d %d" % (i, j), c, 1)


def borders(P, cd, H, W, n):
    """sectors whose borders are exactly on grid points"""
    w = 360. / n
    a0 = P.choice("angle", [-180., -135., -90., -45., 0.])
    k, a = cd.map.fft2_kangle(H, W)
    an = np.asarray(a)
    tot = np.zeros((H, W), int)
    for m in range(n):
        c = a0 + w * m
        c = c - 360 if c > 180 else c
        s = np.asarray(cd.map.fft2_sector_indexmap(k, a, c, w)) >= 0
        tot += s
        for i in range(H):
            for j in range(W):
                t = round(math.degrees(an[i, j]), 9)
                if (i, j) != (0, 0):
                    P.same("centre %g element %d %d" % (c, i, j), bool(s[i, j]), any(c - w / 2 <= t + z < c + w / 2 for z in (-360, 0, 360)))
    tot[0, 0] = 1
    P.same("every element once", tot.tolist(), np.ones((H, W), int).tolist())


def ringborders(P, cd, H, W, shape, deprecated):
    """rings whose borders are exactly on grid points; arbitrary sector centre"""
    step = P.choice("kstep", [0.5, 1., 2., 2.5, 0.25])
    if deprecated:
        k, a = cd.map.rfft2_kangle(H, W, shape)
        got = cd.map.sector_indexmap(k, a, 0., 180., step)
        got2 = None
    else:
        k, a = cd.map.fft2_kangle(H, W, shape)
        got = cd.map.fft2_sector_indexmap(k, a, 0., 180., step)
        got2 = cd.map.fft2_sector_indexmap(k, a, -180., 180., step)
    kn, an = np.asarray(k), np.asarray(a)
    for i in range(H):
        for j in range(W):
            if (i, j) == (0, 0) or deprecated and i > H // 2 and j == 0:
                continue
            n = Fraction(float(kn[i, j])).limit_denominator(1000)
            if abs(float(n) - kn[i, j]) > 1e-12:
                n = Fraction(float(kn[i, j]))
            r = math.ceil(n / Fraction(step) - Fraction(1, 2))
            inside = -math.pi / 2 <= an[i, j] < math.pi / 2
            P.eq("element %d %d" % (i, j), got[i, j], r if inside else -1)
            if got2 is not None:
                P.eq("other half, element %d %d" % (i, j), got2[i, j], -1 if inside else r)


def half(P, cd, H, W, shape, alo, ahi):
    """deprecated half-space map: sectors of lines (modulo 180 degrees)"""
    angle = P.ctl("angle", alo, ahi)
    width = P.ctl("sector", 0, 180)
    P.assume(width > 0)
    k, a = cd.map.rfft2_kangle(H, W, shape)
    an, kn = np.asarray(a), np.asarray(k)
    low, high = (angle - width / 2) * D, (angle + width / 2) * D
    for t in sorted({float(x) for x in an.ravel()} | {0., -math.pi / 2, math.pi / 2}):
        for b in (low, high):
            for m in (-1, 0, 1):
                d = b - (t + m * math.pi)
                P.assume((d > 1e-6) | (d < -1e-6))
    got = cd.map.sector_indexmap(k, a, angle, width)
    got2 = cd.map.k_indexmap(H, W, angle, width, shape=shape)
    for i in range(H):
        for j in range(W):
            if (i, j) == (0, 0):
                want = 0
            elif i > H // 2 and j == 0:
                want = -1
            else:
                want = P.ite(member(P, float(an[i, j]), low, high, math.pi), math.ceil(kn[i, j] - 0.5), -1)
            P.eq("element %d %d" % (i, j), got[i, j], want)
            P.eq("k_indexmap %d %d" % (i, j), got2[i, j], want)


def rejects(P, cd):
    k, a = cd.map.fft2_kangle(3, 3)
    angle = P.ctl("angle", -1000, 1000)
    width = P.ctl("sector", -1000, 1000)
    ok = (angle >= -180) & (angle <= 180) & (width > 0) & (width <= 180)
    P.assume(~ok if not isinstance(ok, bool) else not ok)
    P.raises("wrong sector", lambda: cd.map.fft2_sector_indexmap(k, a, angle, width), ValueError)


def rejects_half(P, cd):
    k, a = cd.map.rfft2_kangle(3, 2)
    angle = P.ctl("angle", -1000, 1000)
    width = P.ctl("sector", -1000, 1000)
    ok = (angle >= -90) & (angle <= 90) & (width > 0) & (width <= 180)
    P.assume(~ok if not isinstance(ok, bool) else not ok)
    P.raises("wrong sector", lambda: cd.map.sector_indexmap(k, a, angle, width), ValueError)


def modes(P, cd, H, W):
    """the map of half-space data is that of the corresponding full-space data"""
    angle = P.choice("angle", [0., 30., -100.])
    for shape in (None, (7, 9), (9, 7)):
        a = cd.map.fft2_k_indexmap(H, W, angle, 70., 1., shape)
        b = cd.map.fft2_k_indexmap(H, 2 * W - 1, angle, 70., 1., shape, "fft2")
        P.same("map", np.asarray(a).tolist(), np.asarray(b).tolist())


def cases(tier):
    o = []
    big = tier != "quick"
    for H, W, shape in [(3, 3, None), (4, 4, None), (3, 5, None), (5, 3, (7, 5)), (3, 3, (6, 9))] + ([(5, 5, None), (7, 7, None), (4, 5, (8, 10))] if big else []):
        for alo, ahi in ((-180, -90), (-90, 90), (90, 180)):
            o.append(Case(nm("sector", H, W, shape or "", alo, ahi), sector, dict(H=H, W=W, shape=shape, alo=alo, ahi=ahi, slo=0, shi=180)))
    for H, W, shape in [(3, 3, None), (4, 4, None), (3, 3, (6, 9))] + ([(5, 5, None)] if big else []):
        for dep in (False, True):
            o.append(Case(nm("rings", H, W, shape or "", "half" if dep else ""), rings, dict(H=H, W=W, shape=shape, deprecated=dep)))
    for H, W, shape in [(3, 2, None), (4, 3, None), (5, 3, (7, 5))]:
        for alo, ahi in ((-90, 0), (0, 90)):
            o.append(Case(nm("half", H, W, shape or "", str(alo), str(ahi)), half, dict(H=H, W=W, shape=shape, alo=alo, ahi=ahi)))
    for n in (2, 3, 4):
        o.append(Case(nm("tile", 3, 3, n), tile, dict(H=3, W=3, n=n)))
        if big:
            o.append(Case(nm("tile", 5, 5, n), tile, dict(H=5, W=5, n=n)))
    for n in (2, 4, 8):
        o.append(Case(nm("borders", 5, 5, n), borders, dict(H=5, W=5, n=n)))
    for H, W, shape in [(3, 3, None), (4, 4, None), (4, 3, (8, 6)), (3, 4, (6, 8)), (5, 2, (10, 4)), (1, 1, None), (2, 5, (1, 3))]:
        o.append(Case(nm("geometry", H, W, shape or ""), geometry, dict(H=H, W=W, shape=shape)))
    sizes = [(H, W) for H in range(1, 6) for W in range(1, 6)]
    for shape in [None, (6, 12), (12, 6), (7, 5), (8, 8)]:
        for H, W in sizes if big else sizes[(0 if shape is None else len(shape) + shape[0]) % 2::2]:
            o.append(Case(nm("geometry", H, W, shape or "", "cropped"), geometry, dict(H=H, W=W, shape=shape)))
    for H, W, shape in [(5, 5, None), (5, 5, (8, 10)), (4, 6, (12, 8)), (3, 3, (6, 9))]:
        for dep in (False, True):
            o.append(Case(nm("ring borders", H, W, shape or "", "half" if dep else ""), ringborders, dict(H=H, W=W, shape=shape, deprecated=dep)))
    for H, W in ((3, 2), (5, 3)):
        o.append(Case(nm("modes", H, W), modes, dict(H=H, W=W)))
    o += [Case("rejects", rejects), Case("rejects half", rejects_half)]
    return o
