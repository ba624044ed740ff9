"""camera model: analog-to-digital conversion and shot noise"""
from .common import *
from .rand import compiled
import numpy as np

BOUNDS = "quick: every signal, black level, readout noise; saturation values 1, 200, 1000.5, 32768; 8 to 16 bit; frames of up to 2x2 pixels; every random number; thorough: more saturation values and larger frames"
OUTSIDE = "IEEE rounding (signals within 1e-6 of a digitisation step); negative signal plus readout noise in the gaussian model; other distributions than those drawn by numpy.random.randn and poisson"
STUBS = "random number generators: arbitrary values, poisson arbitrary integers >= 0 with recorded parameter"
LEVEL = None

DEPTHS = ("8bit", "10bit", "12bit", "14bit", "16bit")


def steps(P, f, black, sat, maxv):
    """(f-black)/sat*maxv, away from the steps of the digitisation (rounding)"""
    v = (f - black) * maxv / sat
    return v


def code(P, v, maxv):
    """truncated and clipped"""
    if hasattr(P, "ctx"):
        from symex.terms import SReal, to_real
        t = to_real(v).trunc()
    else:
        t = int(v)
    return P.ite(v < 0, 0, P.ite(v > maxv, maxv, t))


def away(P, v):
    """a replay with rounding must not be on a step"""
    if hasattr(P, "ctx"):
        from symex.terms import to_real
        k = to_real(v)
        k = k - k.trunc()
        P.prefer(((k > 0.01) & (k < 0.99)) | ((k < -0.01) & (k > -0.99)))
    else:
        k = float(v)
        P.assume(abs(k - round(k)) > 1e-9 or k == round(k))


def adc(P, cd, depth, sat, shape, out, noise):
    x = P.real("x", shape)
    x0 = x.copy() if shape else x
    black = P.real("black") if noise == "none" else 0.
    maxv = 2 ** int(depth[:-3]) - 1
    dt = np.dtype("uint8" if maxv < 256 else "uint16")
    kw = dict(saturation=sat, black_level=black, bit_depth=depth)
    ro = 0.
    if noise != "none":
        ro = P.real("readout")
        P.assume((ro >= 0) & (ro < 10))
        for q in np.ndindex(*shape):
            P.assume((x[q] >= 0) & (x[q] < 40))
    o = None
    if out:
        o = P.ints("junk", shape, 0, 255, dtype="u1" if maxv < 256 else "u2")
        kw["out"] = o
    if noise == "none":
        run = lambda: cd.sim.adc(x, noise_model="none", **kw)
        r = run()
        sig = {q: x0[q] if shape else x0 for q in np.ndindex(*shape)}
    elif noise == "gaussian":
        default = P.choice("noise model given", [True, False])
        if default:
            kw["noise_model"] = "gaussian"
        r, d = compiled(P, lambda: cd.sim.adc(x, readout_noise=ro, **kw), "randn", [None] * int(np.prod(shape)))
        sig = {q: x0[q] + ro + g * P.np.sqrt(x0[q] + ro) for q, g in zip(np.ndindex(*shape), d)}
    else:
        lams = []
        for q in np.ndindex(*shape):
            lams += [l for l in (x0[q], ro) if bool(l > 0)]
        r, d = compiled(P, lambda: cd.sim.adc(x, noise_model="poisson", readout_noise=ro, **kw), "poisson", lams)
        sig, d = {}, list(d)
        for q in np.ndindex(*shape):
            s = 0
            for l in (x0[q], ro):
                if bool(l > 0):
                    s = s + d.pop(0)
            sig[q] = s
    P.same("shape", tuple(np.shape(r)), shape)
    P.same("dtype", np.dtype(r.dtype), dt)
    if out:
        P.same("output array", r is o, True)
    for q in np.ndindex(*shape):
        v = (sig[q] - black) * maxv / sat
        away(P, v)
        got = r[q] if shape else r
        P.true("range", (got >= 0) & (got <= maxv))
        P.eq("pixel %s" % (q,), got, code(P, v, maxv))
    if shape:
        P.eq("signal unchanged", x, x0)


def monotone(P, cd, depth, sat):
    """a brighter pixel never gets a smaller number"""
    x = P.real("x", (2,))
    P.assume(x[0] <= x[1])
    b = P.real("black")
    r = cd.sim.adc(x, saturation=sat, black_level=b, bit_depth=depth, noise_model="none")
    P.true("monotone", r[0] <= r[1])
    # full range: black level is zero, saturation the largest number
    e = cd.sim.adc(P.array([1., 1.]) * b + P.array([0., sat]), saturation=sat, black_level=b, bit_depth=depth, noise_model="none")
    P.eq("black", e[0], 0)
    P.eq("white", e[1], 2 ** int(depth[:-3]) - 1)


def invalid(P, cd):
    x = P.real("x", (2, 2))
    for m in ("gauss", "", "Poisson"):
        P.raises("noise model %r" % m, lambda: cd.sim.adc(x, noise_model=m), ValueError)


def noise(P, cd, model, shape):
    """signal plus shot noise with the variance of the signal"""
    x = P.real("x", shape)
    ro = P.real("ro", shape)
    x0 = x.copy()
    for q in np.ndindex(*shape):
        P.assume((x[q] >= 0) & (ro[q] >= 0) & (x[q] < 40) & (ro[q] < 40))
    S = cd._sim_nb
    if model == "gaussian":
        r, d = compiled(P, lambda: S.shot_noise_gaussian(x, ro), "randn", [None] * x.size)
        for q, g in zip(np.ndindex(*shape), d):
            P.eq("pixel %s" % (q,), r[q], x0[q] + ro[q] + g * P.np.sqrt(x0[q] + ro[q]))
    else:
        lams = [l for q in np.ndindex(*shape) for l in (x[q], ro[q]) if bool(l > 0)]
        r, d = compiled(P, lambda: S.shot_noise_poisson(x, ro), "poisson", lams)
        d = list(d)
        for q in np.ndindex(*shape):
            w = 0
            for l in (x0[q], ro[q]):
                if bool(l > 0):
                    w = w + d.pop(0)
            P.eq("pixel %s" % (q,), r[q], w)
    P.same("dtype", np.dtype(r.dtype), np.dtype(cd.conf.FDTYPE))
    P.eq("signal unchanged", x, x0)


def fixed(P, cd, bits, scale):
    """conversion functions of a fixed bit depth: int(2**bits * (x-black)/scale) from 0 to 2**bits - 1"""
    f = getattr(cd._sim_nb, "adc_%dbit" % bits)
    x = P.real("x", (2,))
    black = P.real("black")
    r = f(x, scale, black)
    P.same("dtype", np.dtype(r.dtype), np.dtype("uint8" if bits == 8 else "uint16"))
    for i in range(2):
        v = (x[i] - black) * 2 ** bits / scale
        away(P, v)
        P.eq("pixel %d" % i, r[i], code(P, v, 2 ** bits - 1))


def cases(tier):
    o = []
    big = tier != "quick"
    sats = [1, 200, 1000.5, 32768] + ([16383, 70000, 3.3] if big else [])
    for depth in DEPTHS:
        for sat in sats:
            o.append(Case(nm("adc", depth, str(sat)), adc, dict(depth=depth, sat=sat, shape=(2,), out=False, noise="none")))
        o.append(Case(nm("monotone", depth), monotone, dict(depth=depth, sat=1000)))
        o.append(Case(nm("adc out", depth), adc, dict(depth=depth, sat=500, shape=(2,), out=True, noise="none")))
        for model in ("gaussian", "poisson"):
            o.append(Case(nm("adc", model, depth), adc, dict(depth=depth, sat=50, shape=(1,), out=False, noise=model)))
    o.append(Case("adc frame", adc, dict(depth="12bit", sat=700, shape=(2, 2) if not big else (2, 3), out=False, noise="none")))
    o.append(Case("invalid noise", invalid))
    for model in ("gaussian", "poisson"):
        for shape in ((2,), (2, 2)):
            o.append(Case(nm("noise", model, shape), noise, dict(model=model, shape=shape)))
    for bits in (8, 10, 12, 14, 16):
        for sc in (1., 1000.):
            o.append(Case(nm("fixed", bits, str(sc)), fixed, dict(bits=bits, scale=sc)))
    return o
