"""frame by frame processing of videos"""
from .common import *
import numpy as np

BOUNDS = "quick: videos of up to 3 multi-frames of 1..3 cameras, frames up to 3x4, all values, all crop limits, every mask of a 2x2 frame; thorough: frames up to 5x6, every mask of a 3x3 frame"
OUTSIDE = "IEEE rounding; overflow of integer frames"
STUBS = "none"
LEVEL = None


def video(P, n, cams, shape, kind, pre="x"):
    mk = dict(r=P.real, c=P.cplx, i=lambda a, s: P.ints(a, s, -50, 50))[kind]
    v = [tuple(mk("%s%d%d" % (pre, i, c), shape) for c in range(cams)) for i in range(n)]
    return v, [tuple(f.copy() for f in fs) for fs in v]


def shape_of(P, out, n, cams):
    P.same("number of multi-frames", len(out), n)
    P.same("cameras", [(isinstance(o, tuple), len(o)) for o in out], [(True, cams)] * n)


def binary(P, cd, op, cams, kind, inplace, dtype, old):
    n, shape = 2, (2, 2)
    f = getattr(cd.video, op)
    x, x0 = video(P, n, cams, shape, kind)
    if dtype and np.dtype(dtype).kind in "iu":
        return converted(P, f, op, x, x0, inplace, dtype)
    # windows, backgrounds: one constant multi-frame or a video of real or complex frames
    y, y0 = video(P, n, cams, shape, "r" if inplace else P.choice("second", ["r", kind]), "y")
    kw = dict(inplace=inplace)
    if dtype:
        kw["dtype"] = dtype
    out = list(f(iter(x), iter(y), **kw))
    shape_of(P, out, n, cams)
    for i in range(n):
        for c in range(cams):
            a, b = x0[i][c], y0[i][c]
            for q in np.ndindex(*shape):
                w = a[q] * b[q] if op == "multiply" else a[q] + b[q] if op == "add" else a[q] - b[q]
                P.eq("frame %d camera %d" % (i, c), out[i][c][q], w)
            P.eq("second video unchanged", y[i][c], b)
            P.same("same array", out[i][c] is x[i][c], inplace)
            if not inplace:
                P.eq("first video unchanged", x[i][c], a)
            if dtype:
                P.same("dtype", np.dtype(out[i][c].dtype), np.dtype(dtype))


def converted(P, f, op, x, x0, inplace, dtype):
    """integer output: results that fit are exact"""
    n, cams, shape = len(x), len(x[0]), x[0][0].shape
    y, y0 = video(P, n, cams, shape, "i", "y")
    lo, hi = np.iinfo(dtype).min, np.iinfo(dtype).max
    want = {}
    for i in range(n):
        for c in range(cams):
            for q in np.ndindex(*shape):
                a, b = x0[i][c][q], y0[i][c][q]
                w = a * b if op == "multiply" else a + b if op == "add" else a - b
                P.assume((w >= lo) & (w <= hi))
                want[i, c, q] = w
    out = list(f(iter(x), iter(y), dtype=dtype))
    shape_of(P, out, n, cams)
    for i in range(n):
        for c in range(cams):
            P.same("dtype", np.dtype(out[i][c].dtype), np.dtype(dtype))
            for q in np.ndindex(*shape):
                P.eq("frame %d camera %d" % (i, c), out[i][c][q], want[i, c, q])
            P.eq("videos unchanged", x[i][c], x0[i][c])


def lengths(P, cd, op, inplace):
    """streams that differ in length end with the shorter one; frames must not be mixed up"""
    f = getattr(cd.video, op)
    a, b = P.choice("length 1", [0, 1, 3]), P.choice("length 2", [0, 1, 3])
    x, x0 = video(P, a, 1, (2,), "r")
    y, y0 = video(P, b, 1, (2,), "r", "y")
    out = list(f(iter(x), iter(y), inplace=inplace))
    P.same("length", len(out), min(a, b))
    for i, o in enumerate(out):
        for q in range(2):
            u, v = x0[i][0][q], y0[i][0][q]
            P.eq("frame %d" % i, o[0][q], u * v if op == "multiply" else u + v if op == "add" else u - v)


def cameras(P, cd, op):
    a, b = P.choice("cameras 1", [1, 2, 3]), P.choice("cameras 2", [1, 2, 3])
    x, _ = video(P, 1, a, (2,), "r")
    y, _ = video(P, 1, b, (2,), "r", "y")
    f = getattr(cd.video, op)
    if a != b:
        P.raises("cameras do not match", lambda: list(f(x, y, inplace=P.choice("inplace", [False, True]))), ValueError)
    else:
        P.same("cameras", len(list(f(x, y))[0]), a)


def normalise(P, cd, cams, kind, inplace):
    n, shape = 2, (2, 2)
    x, x0 = video(P, n, cams, shape, kind)
    for fs in x0:
        for f in fs:
            P.assume(re(sum(f[q] for q in np.ndindex(*shape))) > 0.5)
    out = list(cd.video.normalize_video(iter(x), inplace=inplace))
    shape_of(P, out, n, cams)
    for i in range(n):
        for c in range(cams):
            a = x0[i][c]
            s = sum(a[q] for q in np.ndindex(*shape)) / 4
            for q in np.ndindex(*shape):
                P.eq("times the mean", out[i][c][q] * s, a[q])
            P.same("same array", out[i][c] is x[i][c], inplace)
            if not inplace:
                P.eq("video unchanged", x[i][c], a)


def crop(P, cd, H, W, form, colour=()):
    """rows and columns are the first axes of a frame (others, e.g. colours, are kept)"""
    n, cams = 2, 2
    x, x0 = video(P, n, cams, (H, W) + colour, "r")
    L = [None] + list(range(-H - 1, H + 2))
    M = [None] + list(range(-W - 1, W + 2))
    if form == "slices":
        a, b = P.choice("top", L), P.choice("bottom", L)
        roi = (slice(a, b), slice(None, None, P.choice("step", [1, 2, -1])))
        hs, ws = roi
    elif form == "tuples":
        a, b = P.choice("left", M), P.choice("right", M)
        roi = ((0, P.choice("bottom", [1, H, H + 3])), (a, b))
        hs, ws = slice(*roi[0]), slice(a, b)
    elif form == "mixed":
        roi = ([1, H], slice(1, W))
        hs, ws = slice(1, H), slice(1, W)
    elif form == "steps":
        roi = ((0, H, 2), (W, None, -2))
        hs, ws = slice(0, H, 2), slice(W, None, -2)
    else:
        roi = None
        hs = ws = slice(None)
    out = list(cd.video.crop(iter(x), roi) if roi else cd.video.crop(iter(x)))
    shape_of(P, out, n, cams)
    rows, colsx = range(H)[hs], range(W)[ws]
    for i in range(n):
        for c in range(cams):
            P.same("shape", tuple(out[i][c].shape), (len(rows), len(colsx)) + colour)
            for u, p in enumerate(rows):
                for v, q in enumerate(colsx):
                    P.eq("element %d %d" % (p, q), out[i][c][u, v], x0[i][c][p, q])
            P.eq("video unchanged", x[i][c], x0[i][c])


def badroi(P, cd):
    x, _ = video(P, 1, 1, (2, 2), "r")
    bad = P.choice("roi", [3, (1, 2), (slice(None),), ((1, 2), (1, 2), (1, 2)), "x", None])
    P.raises("invalid roi", lambda: list(cd.video.crop(x, bad)), ValueError)


def mask(P, cd, H, W, cams, kind, colour=()):
    n = 2
    x, x0 = video(P, n, cams, (H, W) + colour, kind)
    m = P.bools("mask", (H, W))
    m = np.array([[bool(e) for e in r] for r in m])
    out = list(cd.video.mask(iter(x), m))
    shape_of(P, out, n, cams)
    pts = [q for q in np.ndindex(H, W) if m[q]]
    for i in range(n):
        for c in range(cams):
            P.same("shape", tuple(out[i][c].shape), (len(pts),) + colour)
            for u, q in enumerate(pts):
                P.eq("element %s" % (q,), out[i][c][u], x0[i][c][q])
            P.eq("video unchanged", x[i][c], x0[i][c])


def chain(P, cd):
    """processing is lazy and frame by frame: a pipeline consumes one frame per frame it gives"""
    x, x0 = video(P, 3, 2, (2, 3), "r")
    b, _ = video(P, 1, 2, (2, 3), "r", "b")
    w, _ = video(P, 1, 2, (2, 2), "r", "w")
    taken = []

    def source():
        for i, fs in enumerate(x):
            taken.append(i)
            yield fs
    V = cd.video
    v = V.multiply(V.crop(V.subtract(source(), [b[0]] * 3), roi=((0, 2), (1, 3))), [w[0]] * 3)
    P.same("nothing taken before", taken, [])
    for i in range(3):
        out = next(v)
        P.same("one frame at a time", taken, list(range(i + 1)))
        for c in range(2):
            for q in np.ndindex(2, 2):
                s = (q[0], q[1] + 1)
                P.eq("frame %d" % i, out[c][q], (x0[i][c][s] - b[0][c][s]) * w[0][c][q])


def cases(tier):
    o = []
    big = tier != "quick"
    for op in ("subtract", "add", "multiply"):
        for cams in (1, 2, 3):
            for kind in ("r", "c", "i"):
                for inplace in (False, True):
                    if kind == "i" and inplace:
                        continue
                    o.append(Case(nm(op, str(cams), kind, "in place" if inplace else ""), binary, dict(op=op, cams=cams, kind=kind, inplace=inplace, dtype=None, old=False)))
        o.append(Case(nm(op, "dtype"), binary, dict(op=op, cams=2, kind="r", inplace=False, dtype="complex128", old=False)))
        for dt in ("uint8", "int16", "int32"):
            o.append(Case(nm(op, "integers to", dt), binary, dict(op=op, cams=2, kind="i", inplace=False, dtype=dt, old=False)))
        o.append(Case(nm(op, "integer dtype"), binary, dict(op=op, cams=2, kind="i", inplace=False, dtype="float64", old=False)))
        for inplace in (False, True):
            o.append(Case(nm(op, "lengths", "in place" if inplace else ""), lengths, dict(op=op, inplace=inplace)))
        o.append(Case(nm(op, "cameras"), cameras, dict(op=op)))
    for kind in ("r", "c"):
        for inplace in (False, True):
            for cams in (1, 2, 3, 4):
                o.append(Case(nm("normalise", kind, str(cams), "in place" if inplace else ""), normalise, dict(cams=cams, kind=kind, inplace=inplace)))
    for form in ("slices", "tuples", "mixed", "steps", "default"):
        for H, W in [(2, 3), (3, 2)] + ([(5, 6)] if big else []):
            o.append(Case(nm("crop", form, H, W), crop, dict(H=H, W=W, form=form)))
        o.append(Case(nm("crop colour", form), crop, dict(H=2, W=2, form=form, colour=(3,))))
    o.append(Case("invalid roi", badroi))
    for H, W in [(1, 3), (2, 2)] + ([(3, 3)] if big else []):
        for kind in ("r", "c"):
            o.append(Case(nm("mask", H, W, kind), mask, dict(H=H, W=W, cams=2, kind=kind)))
    o.append(Case("mask colour", mask, dict(H=2, W=2, cams=1, kind="r", colour=(2,))))
    o.append(Case("pipeline", chain))
    return o
