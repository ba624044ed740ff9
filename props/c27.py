"""Brownian motion simulator: motion in the box and drawing of particles"""
from .common import *
from .rand import compiled, python
import math
import numpy as np

BOUNDS = "quick: coordinates within 2 box lengths, boxes up to 5x7 (also symbolic intervals), 1..3 particles, up to 3 steps, every random number with a step shorter than a box; time steps 1, 4, 0.25; frames up to 4x5, widths of the particle up to 0.9 pixels (symbolic for a single pixel); thorough: more steps and particles"
OUTSIDE = "IEEE rounding (coordinates within 1e-6 of the border of the box); overflow of pixel values; parallel numba target (data race between particles)"
STUBS = "random number generators: arbitrary values; exp: uninterpreted positive function with exp(x) <= 1 for x <= 0"
LEVEL = None

EPS = 1e-6


def wrap(P, z, L, lo=0):
    """coordinate moved into the box by whole box lengths"""
    for k in range(6):
        if bool(z < lo):
            z = z + L
        elif bool(z >= lo + L):
            z = z - L
        else:
            break
    P.assume((z - lo > EPS) & (z - lo < L - EPS))
    return z


def border(P, cd):
    """exact also at the borders: intervals and coordinates on a grid of quarters"""
    a, b, L = P.int("x", -60, 60), P.int("lo", -20, 20), P.choice("length", [1, 2, 5, 8])
    P.assume((a - 4 * b < 8 * L) & (a - 4 * b >= -8 * L))
    x, lo = a * 0.25, b * 1.
    r = cd.sim.mirror(P.np.asarray([x]), lo, lo + L)
    w = a - 4 * b
    for k in range(2):
        w = P.ite(w < 0, w + 4 * L, w)
        w = P.ite(w >= 4 * L, w - 4 * L, w)
    P.eq("coordinate", r[0], w * 0.25 + lo)


def mirror(P, cd, shape):
    """whole lengths are added until the coordinate is in the interval"""
    x = P.real("x", shape)
    lo, L = P.real("lo"), P.real("length")
    P.assume((L > 0.1) & (L < 50) & (lo > -20) & (lo < 20))
    for q in np.ndindex(*shape):
        P.assume((x[q] - lo < 2 * L) & (x[q] - lo > -2 * L))
    x0 = x.copy()
    r = cd.sim.mirror(x, lo, lo + L)
    for q in np.ndindex(*shape):
        P.eq("coordinate", r[q], wrap(P, x0[q], L, lo))
        P.true("in the box", (r[q] >= lo) & (r[q] < lo + L))
    P.eq("unchanged", x, x0)
    P.eq("empty interval", cd.sim.mirror(x, lo, lo), x0)


def walk(P, cd, n, count, delta, velocity, dt, shape, outside=False):
    """x(t+dt) = x(t) + random number * delta * sqrt(dt) + velocity * dt, within the box"""
    x0 = P.real("x", (n, 2))
    L = shape
    for i in range(n):
        for k in range(2):
            P.assume((x0[i, k] > -L[k]) & (x0[i, k] < 2 * L[k]) if outside else (x0[i, k] >= 0) & (x0[i, k] < L[k]))
    keep = x0.copy()
    calls = []
    sizes = []

    def step_of(x):
        # another step for every particle, axis and time
        calls.append(x)
        a = np.array([0.25 * (i + 1) + 0.125 * len(calls) for i in range(n)])
        sizes.append(np.stack((a, a * 2), -1) if delta == "vector" else a[:, None])
        return P.array(sizes[-1])

    def speed(x):
        return P.np.stack((x[:, 1] * 0.125, x[:, 0] * 0.25 - 0.5), -1)
    d = step_of if isinstance(delta, str) else P.array(delta) if isinstance(delta, list) else delta
    if velocity == "callable":
        v = speed
    elif velocity == "each":
        v = P.real("v", (n, 2))
    elif velocity == "pair":
        v = P.real("v", (2,))
    else:
        v = velocity
    if velocity in ("each", "pair"):
        for q in np.ndindex(*v.shape):
            P.assume((v[q] > -1) & (v[q] < 1))
    kw = dict(count=count, shape=shape, delta=d, dt=dt, velocity=v)
    # the first step needs no random number
    r, g = compiled(P, lambda: list(cd.sim.brownian_walk(x0, **kw)), "randn", [None] * ((count - 1) * n * 2), 2)
    P.same("steps", [tuple(x.shape) for x in r], [(n, 2)] * count)
    for i in range(n):
        for k in range(2):
            P.eq("start", r[0][i, k], wrap(P, keep[i, k], L[k]))
    for s in range(1, count):
        x, y = r[s - 1], r[s]
        sc = None
        if callable(d):
            P.eq("delta of the coordinates", calls[s - 1], x)
            sc = sizes[s - 1]
        vv = speed(x) if callable(v) else v
        for i in range(n):
            for k in range(2):
                z = g[((s - 1) * n + i) * 2 + k]
                a = sc[i, k if sc.shape[1] == 2 else 0] if sc is not None else delta if not isinstance(delta, list) else np.array(delta)[i % len(delta), k] if np.ndim(delta) == 2 else delta[k]
                b = vv[i, k] if getattr(vv, "ndim", 0) == 2 else vv[k] if getattr(vv, "ndim", 0) == 1 or isinstance(vv, tuple) else vv
                P.eq("step %d particle %d coordinate %d" % (s, i, k), y[i, k], wrap(P, x[i, k] + z * a * math.sqrt(dt) + b * dt, L[k]))
                P.true("in the box", (y[i, k] >= 0) & (y[i, k] < L[k]))
    P.eq("initial coordinates unchanged", x0, keep)


def badwalk(P, cd):
    S = cd.sim
    x = P.real("x", (2, 2))
    P.raises("shape", lambda: list(S.brownian_walk(x, shape=(3,))), ValueError)
    P.raises("shape", lambda: list(S.brownian_walk(x, shape=(3, 3, 3))), ValueError)
    P.raises("coordinates", lambda: list(S.brownian_walk(x[0])), ValueError)
    P.raises("number of particles", lambda: list(S.brownian_particles(num_particles=3, x0=x)), ValueError)
    P.raises("shape", lambda: S.coordinate_transform(x, (4,)), ValueError)


def particles(P, cd, given, velocity):
    n, shape = 2, (5, 7)
    python(P)
    kw = dict(count=2, shape=shape, num_particles=n, delta=0., dt=2.)
    if given:
        x0 = P.real("x", (n, 2))
        for i in range(n):
            P.assume((x0[i, 0] >= 0) & (x0[i, 0] < 5) & (x0[i, 1] >= 0) & (x0[i, 1] < 7))
        kw["x0"] = x0
    v = dict(scalar=P.real("v"), pair=P.real("vp", (2,)), each=P.real("ve", (n, 2)))
    v["callable"] = lambda x: P.np.stack((x[:, 1] * 0.25, x[:, 0] * 0.125), -1)
    v = v[velocity]
    if velocity != "callable":
        if velocity == "scalar":
            P.assume((v > -1) & (v < 1))
        else:
            for q in np.ndindex(*v.shape):
                P.assume((v[q] > -1) & (v[q] < 1))
    r = list(cd.sim.brownian_particles(velocity=v, **kw))
    P.same("steps", [tuple(x.shape) for x in r], [(n, 2)] * 2)
    if given:
        P.eq("start", r[0], x0)
    for i in range(n):
        for k in range(2):
            P.true("start in the box", (r[0][i, k] >= 0) & (r[0][i, k] < shape[k]))
            b = v(r[0])[i, k] if velocity == "callable" else v if velocity == "scalar" else v[k] if velocity == "pair" else v[i, k]
            P.eq("drift", r[1][i, k], wrap(P, r[0][i, k] + 2 * b, shape[k]))
    # without drift and diffusion nothing moves; by default 100 particles
    kw.update(count=3)
    r = list(cd.sim.brownian_particles(velocity=0., **kw))
    P.eq("at rest", r[2], r[0])


def uniform(P, cd):
    """random start: every point of the box is reached (the scaled random numbers), nothing else"""
    if not hasattr(P, "ctx"):
        np.random.seed(3)
        g = np.random.rand(3, 2)
        np.random.seed(3)
    r = next(iter(cd.sim.brownian_particles(count=1, shape=(3, 8), num_particles=3, delta=1.)))
    if hasattr(P, "ctx"):
        from symex.arr import drawn
        d = [v for k, v, a in drawn() if k == "rand"]
        P.same("numbers", len(d), 6)
        g = np.array(d, object).reshape(3, 2)
    for i in range(3):
        P.eq("i", r[i, 0], g[i, 0] * 3)
        P.eq("j", r[i, 1], g[i, 1] * 8)


def transform(P, cd, shape, angle, offset, n, deep=False):
    """rotation around the centre, then the offset, moved into the frame"""
    x = P.real("x", (n, 2))
    for i in range(n):
        P.assume((x[i, 0] >= 0) & (x[i, 0] < shape[0]) & (x[i, 1] >= 0) & (x[i, 1] < shape[1]))
    x0 = x.copy()
    off = (0., 0.)
    kw = {}
    if offset:
        off = (P.real("oi"), P.real("oj"))
        P.assume((off[0] > -2) & (off[0] < 2) & (off[1] > -2) & (off[1] < 2))
        kw["offset"] = off
    if angle is not None:
        kw["rotation"] = angle
    c, s = math.cos(angle or 0), math.sin(angle or 0)
    want = {}
    for i in range(n):
        a, b = x0[i, 0] - shape[0] / 2, x0[i, 1] - shape[1] / 2
        want[i] = (c * a - s * b + shape[0] / 2 + off[0], s * a + c * b + shape[1] / 2 + off[1])
        for k in range(2):
            if angle is not None or offset:
                for m in range(-3, 4):
                    z = want[i][k] - m * shape[k]
                    P.assume((z > EPS) | (z < -EPS))
    if deep:
        # coordinates of several steps
        r = cd.sim.coordinate_transform(x.reshape(n, 1, 2), shape, **kw)
        P.same("shape", tuple(r.shape), (n, 1, 2))
        r = r[:, 0]
    else:
        r = cd.sim.coordinate_transform(x, shape, **kw)
    P.same("shape", tuple(r.shape), (n, 2))
    for i in range(n):
        for k in range(2):
            P.eq("particle %d coordinate %d" % (i, k), r[i, k], wrap(P, want[i][k], shape[k]))
    P.eq("coordinates unchanged", x, x0)


def psf(P, cd, dtype):
    """one pixel: intensity * exp(-r**2 / (2 sigma**2)), r from the pixel centre to the particle"""
    x, y = P.int("i", -2, 3), P.int("j", -2, 3)
    x0, y0, sg = P.real("x0"), P.real("y0"), P.choice("sigma", [0.5, 0.8, 3.])
    I = P.int("intensity", 0, 255)
    P.assume((x0 > -3) & (x0 < 4) & (y0 > -3) & (y0 < 4))
    arg = ((x + 0.5 - x0) * (x + 0.5 - x0) + (y + 0.5 - y0) * (y + 0.5 - y0)) / (-2 * sg ** 2)
    P.assume(arg <= 0)
    f = cd._sim_nb.psf_gauss
    if hasattr(P, "ctx"):
        from symex.terms import to_real
        e = to_real(arg).exp()
        P.assume((I * e <= I) & (I * e >= 0))
        want = (I * e).trunc()
        I2 = I
    else:
        v = I * math.exp(arg)
        P.assume(abs(v - round(v)) > 1e-9)
        want = int(v)
        I2 = np.dtype(dtype).type(I)
    if hasattr(P, "ctx"):
        got = f(x, x0, y, y0, sg, I2)
    else:
        got = f(int(x), float(x0), int(y), float(y0), float(sg), I2)
    P.eq("pixel", got, want)


FR = (0., 0.3, 0.99)


def drawing(P, cd, H, W, n, sigma, dtype):
    """every particle adds its point-spread function around its position, wrapped at the borders"""
    mx = 20
    im = P.ints("im", (H, W), 0, mx, dtype=dtype)
    im0 = im.copy()
    if sigma in (None, 0.3):
        I = P.ints("intensity", (n,), 0, 30, dtype=dtype)
    else:
        # many pixels overlap: a few intensities
        I = P.array(np.array([P.choice("intensity%d" % k, [7, 30] if dtype == "u1" else [7, 999]) for k in range(n)], dtype))
    pos = np.array([[P.choice("i%d" % k, list(range(H))) + P.choice("fi%d" % k, FR), P.choice("j%d" % k, list(range(W))) + P.choice("fj%d" % k, FR)] for k in range(n)]) if n < 2 else \
        np.array([[P.choice("i%d" % k, [0.3, H - 0.5]), P.choice("j%d" % k, [0., W - 0.01])] for k in range(n)])
    S = cd.sim
    if sigma is None:
        r = S.draw_points(im, P.array(pos), I)
    else:
        sg = [sigma * (1 if k == 0 else 0.75) for k in range(n)]
        r = S.draw_psf(im, P.array(pos), I, P.array(sg))
    P.same("same frame", r is im or np.shares_memory(np.asarray(r), np.asarray(im)) if not hasattr(P, "ctx") else True, True)
    P.same("dtype", np.dtype(r.dtype), np.dtype(dtype))
    want = {q: im0[q] for q in np.ndindex(H, W)}
    for k in range(n):
        h, w = int(pos[k, 0]), int(pos[k, 1])
        if sigma is None:
            want[h, w] = want[h, w] + I[k]
            continue
        size = int(round(3 * max(sg)))
        for a in range(h - size, h + size + 1):
            for b in range(w - size, w + size + 1):
                e = math.exp(-((a + 0.5 - pos[k, 0]) ** 2 + (b + 0.5 - pos[k, 1]) ** 2) / (2 * sg[k] ** 2))
                if hasattr(P, "ctx"):
                    p = cut(P, I[k], e)
                else:
                    p = int(int(I[k]) * e)
                q = (a % H, b % W)
                want[q] = want[q] + p
    for q in np.ndindex(H, W):
        if not hasattr(P, "ctx"):
            P.assume(int(want[q]) <= np.iinfo(dtype).max)
        P.eq("pixel %s" % (q,), r[q], want[q] if hasattr(P, "ctx") else int(want[q]))


def cut(P, I, e):
    """int(I*e), away from the steps"""
    from fractions import Fraction
    v = I * Fraction(e)
    if not hasattr(v, "trunc"):
        return int(v)
    return v.trunc()


def drawpoint(P, cd, H, W):
    """any position in the frame"""
    im = P.ints("im", (H, W), 0, 20, dtype="u1")
    im0 = im.copy()
    x = P.real("x", (1, 2))
    P.assume((x[0, 0] >= 0) & (x[0, 0] < H) & (x[0, 1] >= 0) & (x[0, 1] < W))
    I = P.ints("intensity", (1,), 0, 30, dtype="u1")
    r = cd.sim.draw_points(im, x, I)
    for a in range(H):
        for b in range(W):
            here = (x[0, 0] >= a) & (x[0, 0] < a + 1) & (x[0, 1] >= b) & (x[0, 1] < b + 1)
            P.eq("pixel %d %d" % (a, b), r[a, b], im0[a, b] + P.ite(here, I[0], 0))


def formfactor(P, cd, shape, navg, mode, sigma):
    """root mean square over particle positions of the transform of the windowed image"""
    w = P.real("w", shape)
    for q in np.ndindex(*shape):
        P.assume((w[q] >= 0) & (w[q] <= 1))
    w0 = w.copy()
    r = cd.sim.form_factor(w, sigma=sigma, intensity=100, navg=navg, mode=mode)
    P.eq("window unchanged", w, w0)
    H, W = shape
    cols = W // 2 + 1 if mode == "rfft2" else W
    P.same("shape", tuple(r.shape), (H, cols))
    tot = {}
    for i in range(navg):
        for j in range(navg):
            ims = np.zeros(shape, "uint8")
            h0, w_ = i * H / navg, j * W / navg
            size = int(round(3 * sigma))
            for a in range(int(h0) - size, int(h0) + size + 1):
                for b in range(int(w_) - size, int(w_) + size + 1):
                    ims[a % H, b % W] += int(100 * math.exp(-((a + 0.5 - h0) ** 2 + (b + 0.5 - w_) ** 2) / (2 * sigma ** 2)))
            from .c21 import root
            for k in range(H):
                for q in range(cols):
                    s = 0j
                    for a in range(H):
                        for b in range(W):
                            s = s + w0[a, b] * int(ims[a, b]) * (root(P, -k * a, H) * root(P, -q * b, W))
                    tot[k, q] = tot.get((k, q), 0) + re(s) * re(s) + im(s) * im(s)
    for k in range(H):
        for q in range(cols):
            P.eq("frequency %d %d" % (k, q), r[k, q] * r[k, q] * navg ** 2, tot[k, q])


def ffbad(P, cd):
    w = P.real("w", (2, 2))
    S = cd.sim
    P.raises("mode", lambda: S.form_factor(w, mode="fft"), ValueError)
    P.raises("intensity", lambda: S.form_factor(w, intensity=256), ValueError)
    P.raises("intensity", lambda: S.form_factor(w, intensity=-1), ValueError)
    P.raises("dtype", lambda: S.form_factor(w, dtype="float"), ValueError)


def cases(tier):
    o = []
    big = tier != "quick"
    o.append(Case("mirror", mirror, dict(shape=(1,))))
    o.append(Case("mirror two", mirror, dict(shape=(2,))))
    o.append(Case("mirror border", border))
    o.append(Case("invalid", badwalk))
    for dt in (1, 4., 0.25):
        o.append(Case(nm("walk axes", str(dt)), walk, dict(n=1, count=2, delta=[0.5, 0.25], velocity=(0.5, -0.25), dt=dt, shape=(5, 7))))
    o.append(Case("walk each", walk, dict(n=2, count=2, delta=[[0.5, 0.25], [0.125, 1.]], velocity=(0.25, 0.), dt=0.25, shape=(5, 7))))
    o.append(Case("walk column", walk, dict(n=2, count=2, delta=[[0.5, 0.5], [0.125, 0.125]], velocity=(0., 0.), dt=4., shape=(5, 7))))
    for n, count in [(1, 2), (2, 2)] + ([(1, 3), (2, 3)] if big else []):
        for delta in (0.5, 1, "callable", "vector"):
            for vel in ((0., 0.), (0.5, -0.25), "each", "pair", "callable"):
                if n == 2 and (delta, vel) not in ((0.5, "each"), ("vector", "callable"), ("callable", (0.5, -0.25))) and not big:
                    continue
                for dt in (1, 4., 0.25):
                    if dt != 4. and (delta, vel) not in ((0.5, "pair"), ("callable", "callable")) and not big:
                        continue
                    o.append(Case(nm("walk", str(n), str(count), str(delta), str(vel), str(dt)), walk, dict(n=n, count=count, delta=delta, velocity=vel, dt=dt, shape=(5, 7))))
    o.append(Case("walk outside", walk, dict(n=1, count=2, delta=0.5, velocity=(0.5, -0.25), dt=1, shape=(5, 7), outside=True)))
    o.append(Case("walk long", walk, dict(n=1, count=3, delta=1, velocity=(0.5, 0.), dt=0.25, shape=(6, 6))))
    for g in (False, True):
        for v in ("scalar", "pair", "each", "callable"):
            o.append(Case(nm("particles", "given" if g else "random", v), particles, dict(given=g, velocity=v)))
    o.append(Case("uniform", uniform))
    for shape in ((4, 6), (5, 5)):
        for angle in (None, 0.1, math.pi / 2, -2.):
            for off in (False, True):
                o.append(Case(nm("transform", shape, str(angle), "offset" if off else ""), transform, dict(shape=shape, angle=angle, offset=off, n=1)))
                o.append(Case(nm("transform steps", shape, str(angle), "offset" if off else ""), transform, dict(shape=shape, angle=angle, offset=off, n=1, deep=True)))
    o.append(Case("transform two", transform, dict(shape=(4, 6), angle=0.2, offset=True, n=2)))
    for dt in ("u1", "u2"):
        o.append(Case(nm("psf", dt), psf, dict(dtype=dt)))
        for H, W in ((3, 4), (1, 2)):
            for s in (None, 0.3, 0.5):
                o.append(Case(nm("draw", dt, H, W, str(s)), drawing, dict(H=H, W=W, n=1, sigma=s, dtype=dt)))
        o.append(Case(nm("draw two", dt), drawing, dict(H=4, W=5, n=2, sigma=0.5, dtype=dt)))
        o.append(Case(nm("draw three", dt), drawing, dict(H=2, W=3, n=3, sigma=0.4, dtype=dt)))
        o.append(Case(nm("points two", dt), drawing, dict(H=2, W=3, n=2, sigma=None, dtype=dt)))
    o.append(Case("draw wide", drawing, dict(H=3, W=3, n=1, sigma=0.9, dtype="u1")))
    for H, W in ((2, 3), (3, 2)):
        o.append(Case(nm("draw point", H, W), drawpoint, dict(H=H, W=W)))
    for shape in ((2, 2), (3, 2), (2, 3)):
        for mode in ("rfft2", "fft2"):
            o.append(Case(nm("form factor", shape, mode), formfactor, dict(shape=shape, navg=2 if shape == (2, 2) else 1, mode=mode, sigma=0.4)))
    o.append(Case("form factor invalid", ffbad))
    return o
