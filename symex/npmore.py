"""Further numpy functions of the symbolic `np`: not needed by cddm as it is, but rewritten code that
does the same thing with another numpy function has to stay analysable."""
import builtins, itertools, numbers
import numpy as np
import z3
from .terms import *
from .terms import R0, R1, mkbool, mkint, zbool, nonfinite
from . import terms as T
from . import arr as A
from .arr import SymNP, SymArray, sym, has_sym, raw, cast_array, cast_scalar, elementwise, wrap, structural, infer_dt, \
    apply_ufunc, junk_array, symnp, _tb, _obj, _axes, _py, ELEM, getitem


def method(f):
    """f(self, ...) used if an argument is symbolic, numpy's own function otherwise"""
    name = f.__name__

    def g(self, *a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            return f(self, *a, **k)
        return getattr(np, name)(*a, **k)
    g.__name__ = name
    setattr(SymNP, name, g)
    return g


def _dt2(*xs):
    return np.result_type(*[A._dummy(x) if isinstance(x, (SReal, SCplx, SInt, SBool)) else infer_dt(x) for x in xs])


# ---- products
@method
def matmul(self, a, b, out=None, **k):
    if k:
        raise A.Unsupported("matmul arguments")
    a, b = sym(a), sym(b)
    a1, b1 = a.ndim == 1, b.ndim == 1
    if not a.ndim or not b.ndim:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a1:
        a = a[None]
    if b1:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    r = self.sum(a[..., :, :, None] * b[..., None, :, :], axis=-2)
    if a1:
        r = r[..., 0, :]
    if b1:
        r = r[..., 0]
    if out is not None:
        out[...] = r
        return out
    return r


@method
def dot(self, a, b, out=None):
    a, b = sym(a), sym(b)
    if a.ndim == 0 or b.ndim == 0:
        r = a * b
    elif b.ndim == 1:
        r = self.inner(a, b)
    elif a.ndim == 2 and b.ndim == 2:
        r = self.matmul(a, b)
    else:
        r = self.tensordot(a, b, axes=((a.ndim - 1,), (b.ndim - 2,)))
    if out is not None:
        out[...] = r
        return out
    return r


@method
def inner(self, a, b):
    a, b = sym(a), sym(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.shape[-1] != b.shape[-1]:
        raise ValueError("shapes not aligned")
    x = a.reshape(a.shape[:-1] + (1,) * (b.ndim - 1) + a.shape[-1:])
    return self.sum(x * b, axis=-1)


@method
def outer(self, a, b, out=None):
    a, b = sym(a).reshape(-1), sym(b).reshape(-1)
    r = a[:, None] * b[None]
    if out is not None:
        out[...] = r
        return out
    return r


@method
def tensordot(self, a, b, axes=2):
    a, b = sym(a), sym(b)
    if isinstance(axes, (int, np.integer)):
        ax, bx = list(range(a.ndim - int(axes), a.ndim)), list(range(int(axes)))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, (int, np.integer)) else list(ax)
        bx = [bx] if isinstance(bx, (int, np.integer)) else list(bx)
    ax = [int(q) % a.ndim for q in ax]
    bx = [int(q) % b.ndim for q in bx]
    if [a.shape[q] for q in ax] != [b.shape[q] for q in bx]:
        raise ValueError("shape-mismatch for sum")
    ka = [q for q in range(a.ndim) if q not in ax]
    kb = [q for q in range(b.ndim) if q not in bx]
    x = a.transpose(ka + ax).reshape(tuple(a.shape[q] for q in ka) + (1,) * len(kb) + (-1,))
    y = b.transpose(kb + bx).reshape(tuple(b.shape[q] for q in kb) + (-1,))
    return self.sum(x * y, axis=-1)


@method
def einsum(self, spec, *ops, **k):
    out = k.get("out")
    if not isinstance(spec, str):
        raise A.Unsupported("einsum without a subscript string")
    ops = [sym(o) for o in ops]
    spec = spec.replace(" ", "")
    lhs, arrow, rhs = spec.partition("->")
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise ValueError("einsum: number of operands")
    # the ellipsis becomes upper case letters not used otherwise
    free = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in spec]
    ell = 0
    for q, (s, o) in enumerate(zip(ins, ops)):
        if "..." in s:
            ell = builtins.max(ell, o.ndim - (len(s) - 3))
    big = "".join(free[:ell])
    full = []
    for s, o in zip(ins, ops):
        if "..." in s:
            m = o.ndim - (len(s) - 3)
            s = s.replace("...", big[ell - m:])
        if len(s) != o.ndim:
            raise ValueError("einsum: wrong number of subscripts")
        full.append(s)
    if arrow:
        rhs = rhs.replace("...", big)
    else:
        al = "".join(full)
        rhs = big + "".join(sorted(c for c in set(al) if al.count(c) == 1 and c not in big))
    size = {}
    red = []
    for s, o in zip(full, ops):
        o = raw(o)
        letters = []
        for c in s:                       # diagonals of repeated letters
            if c not in letters:
                letters.append(c)
        if len(letters) != len(s):
            sel = []
            for c in letters:
                ax = [q for q in range(len(s)) if s[q] == c]
                sel.append((c, ax))
            dims = [o.shape[ax[0]] for c, ax in sel]
            d = np.empty(dims, object)
            for q in np.ndindex(*dims):
                p = [0] * len(s)
                for (c, ax), v in zip(sel, q):
                    for w in ax:
                        p[w] = v
                d[q] = o[tuple(p)]
            o = d
        for c, n in zip(letters, o.shape):
            if size.get(c, 1) != 1 and n != 1 and size[c] != n:
                raise ValueError("einsum: operands could not be broadcast")
            size[c] = builtins.max(size.get(c, 1), n)
        red.append((letters, o))
    order = list(rhs) + [c for c in size if c not in rhs]
    prod = None
    for letters, o in red:
        perm = [letters.index(c) for c in order if c in letters]
        shp = [o.shape[letters.index(c)] if c in letters else 1 for c in order]
        x = o.transpose(perm).reshape(shp)
        prod = x if prod is None else elementwise(lambda p, q: p * q, [prod, x])
    dt = _dt2(*ops)
    r = SymArray(cast_array(np.array(np.broadcast_to(prod, [size[c] for c in order]), object), dt), dt)
    n = len(order) - len(rhs)
    if n:
        r = sym(r).sum(axis=tuple(range(len(rhs), len(order))))
    elif r.ndim == 0:
        r = r[()]
    if out is not None:
        out[...] = r
        return out
    return r


@method
def kron(self, a, b):
    a, b = sym(a), sym(b)
    n = builtins.max(a.ndim, b.ndim)
    a = a.reshape((1,) * (n - a.ndim) + a.shape)
    b = b.reshape((1,) * (n - b.ndim) + b.shape)
    x = a.reshape(sum(((s, 1) for s in a.shape), ()))
    y = b.reshape(sum(((1, s) for s in b.shape), ()))
    return (x * y).reshape(tuple(p * q for p, q in zip(a.shape, b.shape)))


@method
def cross(self, a, b, **k):
    a, b = sym(a), sym(b)
    if k or a.shape[-1] != 3 or b.shape[-1] != 3:
        raise A.Unsupported("cross")
    c = [a[..., (i + 1) % 3] * b[..., (i + 2) % 3] - a[..., (i + 2) % 3] * b[..., (i + 1) % 3] for i in range(3)]
    return self.stack(c, -1) if isinstance(c[0], np.ndarray) else self.array(c)


@method
def trace(self, a, offset=0, **k):
    if k:
        raise A.Unsupported("trace")
    return self.sum(sym(a).diagonal(offset), axis=-1)


@method
def diag(self, a, k=0):
    a = sym(a)
    if a.ndim == 2:
        return a.diagonal(k).copy()
    n = len(a) + abs(k)
    r = self.zeros((n, n), a.dtype)
    for i in range(len(a)):
        r[(i, i + k) if k >= 0 else (i - k, i)] = a[i]
    return r


@method
def triu(self, a, k=0):
    a = sym(a)
    return self.where(np.tri(*a.shape[-2:], k=k - 1, dtype=bool), self.zeros(1, a.dtype), a)


@method
def tril(self, a, k=0):
    a = sym(a)
    return self.where(np.tri(*a.shape[-2:], k=k, dtype=bool), a, self.zeros(1, a.dtype))


# ---- scalars next to each other
@method
def size(self, a, axis=None):
    if axis is None:
        n = 1
        for s in self.shape(a):
            n *= s
        return n
    return self.shape(a)[axis]


@method
def result_type(self, *a):
    return np.result_type(*[A._dummy(x) if has_sym(x) and not isinstance(x, (list, tuple)) else x for x in a])


@method
def can_cast(self, a, *x, **k):
    return np.can_cast(A._dummy(a), *x, **k)


def _divmod_(a, b):
    return A.elementwise


@method
def divmod(self, a, b):
    return self.floor_divide(a, b), self.remainder(a, b)


@method
def modf(self, a):
    t = self.trunc(a)
    return a - t, t


@method
def fix(self, a, out=None):
    return self.trunc(a, out=out) if out is not None else self.trunc(a)


@method
def nan_to_num(self, a, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(x):
        if hasattr(x, "isnan") and not isinstance(x, (SInt, SBool)):
            if x.isnan():
                return nan
            if x.isinf():
                raise A.Unsupported("nan_to_num of infinity")
        return x
    a = sym(a)
    r = elementwise(f, [raw(a)], a._ldt)
    if not copy:
        a[...] = r
        return a
    return wrap(r, a._ldt)


@method
def polyval(self, p, x):
    y = self.zeros_like(x)
    for v in (p if isinstance(p, (list, tuple)) else [p[i] for i in range(len(p))]):
        y = y * x + v
    return y


ELEM["heaviside"] = lambda a, b: ite(a > 0, R1, ite(a < 0, R0, to_real(b)))
ELEM["signbit"] = lambda a: a < 0


# ---- order statistics, searching
def _argbest(better):
    def f(els):
        best, idx = els[0], 0
        for i, e in enumerate(els[1:], 1):
            g = better(e, best)
            best, idx = ite(g, e, best), ite(g, i, idx)
        return idx
    return f


@method
def argmax(self, a, axis=None, out=None, **k):
    a = sym(a)
    return A.reduce_with(a, axis, _argbest(lambda p, q: p > q), np.dtype(np.int64), **k)


@method
def argmin(self, a, axis=None, out=None, **k):
    a = sym(a)
    return A.reduce_with(a, axis, _argbest(lambda p, q: p < q), np.dtype(np.int64), **k)


@method
def searchsorted(self, a, v, side="left", sorter=None):
    if sorter is not None:
        raise A.Unsupported("searchsorted with a sorter")
    ra = [_py(e) for e in raw(sym(a)).reshape(-1)]

    def f(x):
        n = 0
        for e in ra:
            n = n + ite(e < x if side == "left" else e <= x, 1, 0)
        return n
    r = elementwise(f, [raw(v) if isinstance(v, np.ndarray) else _obj(v)], np.dtype(np.int64))
    return wrap(r, np.dtype(np.int64))


@method
def digitize(self, x, bins, right=False):
    if has_sym(bins):
        raise A.Unsupported("digitize with symbolic bins")
    b = np.asarray(bins)
    if len(b) > 1 and b[0] > b[-1]:
        raise A.Unsupported("digitize with decreasing bins")
    return self.searchsorted(bins, x, side="left" if right else "right")


@method
def interp(self, x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise A.Unsupported("interp with a period")
    xp = [_py(e) for e in raw(sym(xp))]
    fp = [_py(e) for e in raw(sym(fp))]

    def f(v):
        r = fp[-1] if right is None else right
        r = ite(v == xp[-1], fp[-1], r)
        for i in range(len(xp) - 2, -1, -1):
            w = to_real(xp[i + 1]) - xp[i]
            if not has_sym(w) and w == 0:
                continue
            r = ite(v < xp[i + 1], fp[i] + A._truediv((to_real(v) - xp[i]) * (to_real(fp[i + 1]) - fp[i]), w), r)
        return ite(v < xp[0], fp[0] if left is None else left, r)
    dt = np.dtype(np.float64)
    return wrap(elementwise(f, [raw(x) if isinstance(x, np.ndarray) else _obj(x)], dt), dt)


@method
def bincount(self, x, weights=None, minlength=0):
    x = sym(x)
    els = [_py(e) for e in raw(x)]
    for e in els:
        if e < 0:
            raise ValueError("'list' argument must have no negative elements")
    n = int(minlength)
    if els:
        m = els[0]
        for e in els[1:]:
            m = T.smax(m, e)
        n = builtins.max(n, int(m) + 1)
    w = [1] * len(els) if weights is None else [_py(e) for e in raw(sym(weights))]
    dt = np.dtype(np.int64 if weights is None else np.float64)
    o = np.empty(n, object)
    for j in range(n):
        s = 0
        for e, v in zip(els, w):
            s = s + ite(e == j, v, 0)
        o[j] = cast_scalar(s, dt)
    return SymArray(o, dt)


@method
def isin(self, a, b, assume_unique=False, invert=False, **k):
    bs = [_py(e) for e in raw(sym(b)).reshape(-1)]

    def f(e):
        r = False
        for v in bs:
            r = sor(r, e == v)
        return snot(r) if invert else r
    return wrap(elementwise(f, [raw(sym(a))], np.dtype(bool)), np.dtype(bool))


@method
def in1d(self, a, b, **k):
    return self.isin(sym(a).reshape(-1), b, **k)


@method
def percentile(self, a, q, axis=None, **k):
    if q == 50 and not k:
        return self.median(a, axis)
    raise A.Unsupported("percentile")


@method
def partition(self, a, kth, axis=-1, **k):
    return self.sort(a, axis)


@method
def histogram(self, a, bins=10, **k):
    raise A.Unsupported("histogram")


@method
def lexsort(self, keys, axis=-1):
    ks = [_py_list(x) for x in keys]
    n = len(ks[-1])
    idx = []
    for i in range(n):
        p = len(idx)
        while p > 0 and _lexless(ks, i, idx[p - 1]):
            p -= 1
        idx.insert(p, i)
    return np.array(idx, np.int64)


def _py_list(x):
    return [_py(e) for e in raw(sym(x))]


def _lexless(ks, i, j):
    for k in reversed(ks):
        if bool(k[i] < k[j]):
            return True
        if bool(k[j] < k[i]):
            return False
    return False


# ---- selection and stores
@method
def select(self, conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = self.where(c, v, r)
    return r


@method
def choose(self, i, choices, out=None, mode="raise"):
    if mode != "raise":
        raise A.Unsupported("choose mode")
    r = choices[-1]
    for j in range(len(choices) - 2, -1, -1):
        r = self.where(self.equal(i, j) if has_sym(i) else np.equal(i, j), choices[j], r)
    return r


@method
def piecewise(self, x, conds, funcs, *a, **k):
    conds = list(conds) if isinstance(conds, (list, tuple)) else [conds]
    funcs = list(funcs)
    x = sym(x)
    r = self.zeros_like(x)
    if len(funcs) == len(conds) + 1:
        v = funcs.pop()
        r[...] = v(x, *a, **k) if callable(v) else v
    for c, v in zip(conds, funcs):
        c = sym(c)
        r[...] = self.where(c, v(x, *a, **k) if callable(v) else v, r)
    return r


@method
def extract(self, c, a):
    return getitem(sym(a).reshape(-1), self.nonzero(sym(c).reshape(-1))[0] if has_sym(c) else np.nonzero(np.ravel(c))[0])


@method
def place(self, a, m, v):
    idx = self.nonzero(sym(m).reshape(-1))[0] if has_sym(m) else np.nonzero(np.ravel(m))[0]
    v = sym(v).reshape(-1)
    flat = [np.unravel_index(i, a.shape) for i in idx]
    for q, p in enumerate(flat):
        a[tuple(int(s) for s in p)] = v[q % len(v)]


@method
def put(self, a, ind, v, mode="raise"):
    if mode != "raise":
        raise A.Unsupported("put mode")
    ind = [int(e) for e in _py_list(self.asarray(ind).reshape(-1))]
    v = sym(v).reshape(-1)
    for q, i in enumerate(ind):
        if not -a.size <= i < a.size:
            raise IndexError("index out of bounds")
        a[tuple(int(s) for s in np.unravel_index(i % a.size, a.shape))] = v[q % len(v)]


@method
def put_along_axis(self, a, ind, v, axis):
    if has_sym(ind):
        raise A.Unsupported("put_along_axis with symbolic indices")
    ids = np.arange(a.size).reshape(a.shape)
    sel = np.take_along_axis(ids, np.asarray(ind), axis)
    v = np.broadcast_to(raw(sym(v)), sel.shape)
    for q in np.ndindex(*sel.shape):
        a[tuple(int(s) for s in np.unravel_index(sel[q], a.shape))] = v[q]


@method
def correlate(self, a, v, mode="valid"):
    a, v = sym(a), sym(v)
    if len(v) > len(a):
        return self.conj(self.correlate(v, a, mode))[::-1]
    return self.convolve(a, self.conj(v)[::-1], mode)


@method
def resize(self, a, shape):
    a = sym(a).reshape(-1)
    shape = A._shape(shape)
    n = int(np.prod(shape))
    return getitem(a, np.arange(n) % len(a)).reshape(shape)


@method
def gradient(self, f, *a, **k):
    f = sym(f)
    if a or k or f.ndim != 1 or len(f) < 2:
        raise A.Unsupported("gradient")
    return self.concatenate([f[1:2] - f[:1], (f[2:] - f[:-2]) / 2, f[-1:] - f[-2:-1]])


@method
def trapz(self, y, x=None, dx=1.0, axis=-1):
    y = np.moveaxis(sym(y), axis, -1)
    d = dx if x is None else self.diff(x)
    return self.sum(d * (y[..., 1:] + y[..., :-1]) / 2.0, axis=-1)


@method
def meshgrid(self, *xs, **k):
    if k.get("sparse") or k.get("indexing", "xy") not in ("xy", "ij"):
        raise A.Unsupported("meshgrid")
    xs = [sym(x).reshape(-1) for x in xs]
    n = len(xs)
    shp = tuple(len(x) for x in xs)
    r = []
    for i, x in enumerate(xs):
        s = [1] * n
        s[i] = -1
        g = np.broadcast_to(raw(x).reshape(s), shp)
        if n > 1 and k.get("indexing", "xy") == "xy":
            g = np.swapaxes(g, 0, 1)
        r.append(SymArray(np.array(g, object), x._ldt))
    return r


@method
def apply_along_axis(self, fn, axis, a, *x, **k):
    b = np.moveaxis(sym(a), axis, -1)
    o = None
    for q in np.ndindex(*b.shape[:-1]):
        v = sym(fn(b[q], *x, **k))
        if o is None:
            o = self.zeros(b.shape[:-1] + v.shape, v.dtype)
        o[q] = v if v.ndim else v[()]
    nd = b.ndim - 1
    extra = o.ndim - nd
    if extra == 0:
        return o
    return np.moveaxis(o, list(range(nd, o.ndim)), [axis % b.ndim + i for i in range(extra)])


@method
def apply_over_axes(self, fn, a, axes):
    for ax in ([axes] if isinstance(axes, (int, np.integer)) else axes):
        r = fn(a, ax)
        a = r if r.ndim == a.ndim else self.expand_dims(r, ax)
    return a


def _fromiter(self, it, dtype, count=-1):
    return self.array(list(it), dtype)


SymNP.fromiter = _fromiter


@method
def block(self, x):
    def rec(b, axis):
        if isinstance(b, list):
            return self.concatenate([rec(e, axis + 1) for e in b], axis)
        return sym(b)

    def depth(b):
        return 1 + depth(b[0]) if isinstance(b, list) else 0
    d = depth(x)

    def nd(b):
        return builtins.max(nd(e) for e in b) if isinstance(b, list) else sym(b).ndim
    n = builtins.max(d, nd(x))

    def up(b):
        return [up(e) for e in b] if isinstance(b, list) else sym(b).reshape((1,) * (n - sym(b).ndim) + sym(b).shape)
    return rec(up(x), n - d)


@method
def asfortranarray(self, a, dtype=None):
    return self.asarray(a, dtype)


@method
def setdiff1d(self, a, b, **k):
    u = self.unique(a)
    return u[~np.isin(u, self.unique(b))]


@method
def require(self, a, dtype=None, requirements=None, **k):
    return self.asarray(a, dtype)


@method
def cumprod(self, a, axis=None, dtype=None, out=None):
    return accumulate(np.multiply, a if axis is not None else sym(a).reshape(-1), axis or 0)


class _Vectorize:
    def __init__(self, fn, otypes=None, **k):
        self.fn, self.k, self.otypes = fn, k, otypes

    def __call__(self, *a):
        if not any(has_sym(x) for x in a):
            return np.vectorize(self.fn, otypes=self.otypes, **self.k)(*a)
        r = elementwise(self.fn, [raw(x) if isinstance(x, np.ndarray) else _obj(x) for x in a])
        dt = np.dtype(self.otypes[0]) if self.otypes else infer_dt(list(r.reshape(-1)))
        return wrap(cast_array(r, dt) if r.ndim else r, dt)


SymNP.vectorize = _Vectorize


# ---- ufunc methods
def accumulate(ufunc, a, axis=0, dtype=None, out=None):
    a = sym(a)
    name = ufunc.__name__
    fn = ELEM.get(name)
    if fn is None or ufunc.nin != 2:
        raise A.Unsupported("accumulate of %s" % name)
    ax = _axes(axis, a.ndim)[0]
    dt = np.dtype(dtype) if dtype is not None else ufunc.accumulate(np.ones(1, a._ldt)).dtype
    r = np.array(raw(np.moveaxis(a, ax, 0)), object)
    for i in range(1, len(r)):
        r[i] = elementwise(fn, [r[i - 1], r[i]]) if r.ndim > 1 else fn(_py(r[i - 1]), _py(r[i]))
    r = np.moveaxis(SymArray(cast_array(r, dt), dt), 0, ax)
    if out is not None:
        out[...] = r
        return out
    return r


def ufunc_at(ufunc, a, idx, b=None):
    """unbuffered in place operation: one element after the other"""
    if not isinstance(a, SymArray):
        if not has_sym(b) and not has_sym(idx):
            return ufunc.at(a, idx) if b is None else ufunc.at(a, idx, b)
        raise A.Unsupported("ufunc.at on a plain array with symbolic values")
    fn = ELEM.get(ufunc.__name__)
    if fn is None:
        raise A.Unsupported("at of %s" % ufunc.__name__)
    idx = idx if isinstance(idx, tuple) else (idx,)
    lists = [isinstance(i, (list, np.ndarray)) for i in idx]
    if any(lists) and all(l or isinstance(i, (int, np.integer, SInt)) for l, i in zip(lists, idx)) and \
            not any(isinstance(i, np.ndarray) and A.dt_of(i).kind == "b" for i in idx):
        ix = np.broadcast_arrays(*[raw(sym(i)) for i in idx])
        shp = ix[0].shape + a.shape[len(idx):]
        vb = None if b is None else np.broadcast_to(raw(sym(b)), shp)
        for q in np.ndindex(*ix[0].shape):
            p = tuple(_py(i[q]) for i in ix)
            v = getitem(a, p)
            r = apply_ufunc(ufunc, "__call__", (v,) if b is None else (v, SymArray(np.array(vb[q], object), A.infer_dt(b)) if isinstance(vb[q], np.ndarray) else vb[q]), {})
            a[p] = r
        return
    # slices and masks select every element at most once
    v = getitem(a, idx if len(idx) > 1 else idx[0])
    a[idx if len(idx) > 1 else idx[0]] = apply_ufunc(ufunc, "__call__", (v,) if b is None else (v, b), {})


# ---- namespaces
class _StrideTricks:
    @staticmethod
    def sliding_window_view(x, window_shape, axis=None, **k):
        if not has_sym(x):
            return np.lib.stride_tricks.sliding_window_view(x, window_shape, axis, **k)
        return structural(np.lib.stride_tricks.sliding_window_view, (sym(x), window_shape, axis), k)

    @staticmethod
    def as_strided(x, shape=None, strides=None, **k):
        if not has_sym(x):
            return np.lib.stride_tricks.as_strided(x, shape, strides, **k)
        x = sym(x)
        # strides are those of the object storage, as reported by x.strides
        return structural(np.lib.stride_tricks.as_strided, (x, shape, strides), k)


SymNP.lib.stride_tricks = _StrideTricks


class _Linalg:
    def __getattr__(self, name):
        v = getattr(np.linalg, name)

        def f(*a, **k):
            if any(has_sym(x) for x in a):
                raise A.Unsupported("linalg.%s" % name)
            return v(*a, **k)
        return f if callable(v) and not isinstance(v, type) else v

    def norm(self, x, ord=None, axis=None, keepdims=False):
        if not has_sym(x):
            return np.linalg.norm(x, ord, axis, keepdims)
        x = sym(x)
        if ord not in (None, 2, "fro") or (ord == 2 and x.ndim != 1 and (axis is None or isinstance(axis, tuple))):
            raise A.Unsupported("norm of order %s" % (ord,))
        r = x.real * x.real
        if x.dtype.kind == "c":
            r = r + x.imag * x.imag
        return symnp.sqrt(symnp.sum(r, axis=axis, keepdims=keepdims))


SymNP.linalg = _Linalg()


# ---- calls of types: float(x), np.float64(x), isinstance(x, float)
_FL = {float, np.float64, np.float32, np.float16, np.longdouble}
_CX = {complex, np.complex128, np.complex64}
_IN = {np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64}


def sym_call(f, *a, **k):
    if f is isinstance:
        x, t = a
        if isinstance(x, (SReal, SCplx, SInt, SBool)):
            ts = t if isinstance(t, tuple) else (t,)
            like = {SReal: (float, np.float64, np.floating, np.number, np.generic, numbers.Real, numbers.Number, numbers.Complex),
                    SCplx: (complex, np.complex128, np.complexfloating, np.number, np.generic, numbers.Complex, numbers.Number),
                    SBool: (bool, np.bool_)}.get(type(x), (int, np.int64, np.integer, np.number, np.generic, numbers.Integral, numbers.Real, numbers.Number, numbers.Complex))
            if any(isinstance(q, type) and q in like for q in ts):
                return True
        return isinstance(x, t)
    if a and not k and isinstance(f, type):
        x = a[0]
        if isinstance(x, SymArray) and x.ndim == 0:
            x = x[()]
        if isinstance(x, SymArray):
            return x.astype(f) if f in _FL or f in _CX or f in _IN else f(*a)
        if any(is_sym(v) for v in a):
            if f in _FL and len(a) == 1:
                return to_real(x) if not isinstance(x, SCplx) else f(x)
            if f in _CX:
                return to_cplx(x) if len(a) == 1 else to_cplx(a[0]) + to_cplx(a[1]) * 1j
            if f in _IN and len(a) == 1:
                return cast_scalar(x, np.dtype(f))
            if f is np.bool_:
                return mkbool(zbool(x))
        elif isinstance(x, (list, tuple)) and has_sym(x) and (f in _FL or f in _CX or f in _IN):
            return sym(x, f)
    return f(*a, **k)
