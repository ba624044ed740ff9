"""Discrete Fourier transforms by contract.

`fft` of a 1-d array gives a Spectrum that remembers its time-domain signal; conjugation, products,
sums and scaling act on that signal through the exact DFT ring isomorphism (conj <-> reversed
conjugate, product <-> circular convolution) and `ifft` gives it back. Any other use of the
spectrum materialises it with exact algebraic twiddle factors (lengths dividing 24)."""
import numpy as np
from fractions import Fraction
from . import terms as T
from .terms import *
from .terms import R0, R1
from . import arr as A
from .arr import SymArray, SpectrumBase, sym, asobj, dt_of, junk_array, wrap

C128 = np.dtype("complex128")


def _sqrt_atom(n):
    c = T.ctx()
    key = ("algsqrt", n)
    if key not in c.memo:
        a = c.atom("sqrt%d" % n)
        v = SReal({((a, 1),): Fraction(1)})
        c.square_rule[a] = SReal({(): Fraction(n)})
        zv = c.atoms[a][1]
        c.fact(zv * zv == n)
        c.fact(zv > 0)
        c.memo[key] = v
    return c.memo[key]


def _cos15(k):
    """cos(k * 15 degrees)"""
    k %= 24
    if k > 12:
        k = 24 - k
    if k > 6:
        return -_cos15(12 - k)
    if k == 0:
        return R1
    if k == 6:
        return R0
    if k == 4:
        return to_real(Fraction(1, 2))
    if k == 3:
        return _sqrt_atom(2) * Fraction(1, 2)
    if k == 2:
        return _sqrt_atom(3) * Fraction(1, 2)
    s = _sqrt_atom(2) * Fraction(1, 4)
    return s * (_sqrt_atom(3) + 1) if k == 1 else s * (_sqrt_atom(3) - 1)


def root(k, n):
    """exp(2 pi i k / n)"""
    k %= n
    if 24 % n:
        from math import gcd
        g = gcd(k, n) if k else n
        k, n = k // g, n // g
        if 24 % n:
            raise Unsupported("exact DFT of length %d" % n)
    m = k * (24 // n)
    return SCplx(_cos15(m), _cos15(m - 6))


def dft_list(xs, sign, scale=1, n_out=None):
    n = len(xs)
    out = []
    for k in range(n if n_out is None else n_out):
        acc = to_cplx(0)
        for j, x in enumerate(xs):
            x = to_cplx(x)
            if not x.re.d and not x.im.d:
                continue
            acc = acc + x * root(sign * j * k, n)
        if scale != 1:
            acc = SCplx(acc.re * scale, acc.im * scale)
        out.append(acc)
    return out


def _along(a, axis, fn):
    o = np.moveaxis(asobj(a), axis, -1)
    shp = o.shape[:-1]
    first = None
    res = None
    for q in np.ndindex(*shp):
        r = fn(list(o[q]))
        if res is None:
            res = np.empty(shp + (len(r),), object)
        for i, e in enumerate(r):
            res[q + (i,)] = e
    return SymArray(np.moveaxis(res, -1, axis), C128)


class Spectrum(SpectrumBase):
    spectrum = True
    ndim = 1
    dtype = C128

    def __init__(self, t):
        self.t = t

    @property
    def shape(self):
        return (len(self.t),)

    @property
    def size(self):
        return len(self.t)

    def __len__(self):
        return len(self.t)

    def materialize(self):
        r = dft_list(self.t, -1)
        o = np.empty(len(r), object)
        for i, e in enumerate(r):
            o[i] = e
        return SymArray(o, C128)

    def conj(self, out=None):
        n = len(self.t)
        r = [self.t[(-i) % n].conjugate() for i in range(n)]
        return self._ret(r, out)

    conjugate = conj

    def _ret(self, r, out):
        if out is None:
            return Spectrum(r)
        if isinstance(out, Spectrum):
            out.t = r
            return out
        out[...] = Spectrum(r).materialize()
        return out

    def copy(self):
        return Spectrum(list(self.t))

    def astype(self, dt, **k):
        return self.copy()

    def __mul__(self, o):
        if isinstance(o, Spectrum):
            n = len(self.t)
            if len(o.t) != n:
                raise ValueError("operands could not be broadcast together with shapes (%d,) (%d,)" % (n, len(o.t)))
            out = [None] * n
            for i, x in enumerate(self.t):
                if not x.re.d and not x.im.d:
                    continue
                for j, y in enumerate(o.t):
                    if not y.re.d and not y.im.d:
                        continue
                    k = (i + j) % n
                    p = x * y
                    out[k] = p if out[k] is None else out[k] + p
            return Spectrum([to_cplx(0) if e is None else e for e in out])
        if isinstance(o, np.ndarray) and o.ndim:
            return self.materialize() * o
        return Spectrum([x * o for x in self.t])
    __rmul__ = __mul__

    def __imul__(self, o):
        r = self * o
        if isinstance(r, Spectrum):
            self.t = r.t
            return self
        return r

    def __add__(self, o):
        if isinstance(o, Spectrum):
            return Spectrum([a + b for a, b in zip(self.t, o.t)])
        return self.materialize() + o
    __radd__ = __add__

    def __neg__(self):
        return Spectrum([-a for a in self.t])

    def __sub__(self, o):
        if isinstance(o, Spectrum):
            return Spectrum([a - b for a, b in zip(self.t, o.t)])
        return self.materialize() - o

    def __truediv__(self, o):
        if isinstance(o, (int, float, SInt, SReal)):
            return Spectrum([a / o for a in self.t])
        return self.materialize() / o

    def __getitem__(self, i):
        return self.materialize()[i]

    def __setitem__(self, i, v):
        m = self.materialize()
        m[i] = v
        self.t = dft_list(list(m.view_raw()), 1, Fraction(1, len(self.t)))

    @property
    def real(self):
        return self.materialize().real

    @property
    def imag(self):
        return self.materialize().imag

    def __abs__(self):
        return abs(self.materialize())

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **k):
        n = ufunc.__name__
        if method != "__call__" or k:
            raise Unsupported("ufunc on a spectrum")
        if isinstance(out, tuple):
            out = out[0]
        a = inputs[0]
        if n == "conjugate":
            return a.conj(out=out)
        b = inputs[1] if len(inputs) > 1 else None
        if n == "multiply":
            r = a * b if isinstance(a, Spectrum) else b * a
        elif n == "add":
            r = a + b if isinstance(a, Spectrum) else b + a
        elif n == "subtract" and isinstance(a, Spectrum) and isinstance(b, Spectrum):
            r = a - b
        else:
            ins = [i.materialize() if isinstance(i, Spectrum) else i for i in inputs]
            r = ufunc(*ins)
        if out is None:
            return r
        if isinstance(out, Spectrum):
            out.t = r.t if isinstance(r, Spectrum) else dft_list(list(r.view_raw()), 1, Fraction(1, len(out.t)))
            return out
        out[...] = r.materialize() if isinstance(r, Spectrum) else r
        return out

    def __array_function__(self, func, types, args, kwargs):
        return func(*[a.materialize() if isinstance(a, Spectrum) else a for a in args], **kwargs)


def _junk(x, overwrite):
    if overwrite and isinstance(x, SymArray):
        j = junk_array(x.shape, x.dtype)
        x[...] = j
    elif overwrite and isinstance(x, Spectrum):
        j = junk_array((len(x.t),), C128)
        x.t = list(j.view_raw())


def _sz(a, n, axis):
    if n is None or n == a.shape[axis]:
        return a
    b = np.moveaxis(sym(a), axis, -1)
    m = b.shape[-1]
    if n < m:
        b = b[..., :n]
    else:
        z = A.symnp.zeros(b.shape[:-1] + (n,), b.dtype)
        z[..., :m] = b
        b = z
    return np.moveaxis(b, -1, axis)


def fft(x, n=None, axis=-1, norm=None, overwrite_x=False, **k):
    if norm is not None or k:
        raise Unsupported("fft arguments")
    if isinstance(x, Spectrum):
        x = x.materialize()
    x = _sz(sym(x), n, axis)
    if x.ndim == 1:
        r = Spectrum([to_cplx(e) for e in x.view_raw()])
    else:
        r = _along(x, axis, lambda v: dft_list(v, -1))
    _junk(x, overwrite_x)
    return r


def ifft(x, n=None, axis=-1, norm=None, overwrite_x=False, **k):
    if norm is not None or k:
        raise Unsupported("ifft arguments")
    if isinstance(x, Spectrum):
        if n is not None and n != len(x.t):
            raise Unsupported("ifft length")
        o = np.empty(len(x.t), object)
        for i, e in enumerate(x.t):
            o[i] = e
        r = SymArray(o, C128)
        if overwrite_x:
            _junk(x, True)
        return r
    x = _sz(sym(x), n, axis)
    m = x.shape[axis]
    r = _along(x, axis, lambda v: dft_list(v, 1, Fraction(1, m)))
    _junk(x, overwrite_x)
    return r


def rfft(x, n=None, axis=-1, norm=None, **k):
    if norm is not None:
        raise Unsupported("rfft arguments")
    x = sym(x)
    if x.dtype.kind == "c":
        raise TypeError("ufunc 'rfft' did not contain a loop with signature matching types")
    x = _sz(x, n, axis)
    m = x.shape[axis]
    return _along(x, axis, lambda v: dft_list(v, -1, 1, m // 2 + 1))


def _nd(x, s, axes):
    if s is not None:
        for n, ax in zip(s, axes):
            x = _sz(x, n, ax)
    return x


def fft2(x, s=None, axes=(-2, -1), norm=None, overwrite_x=False, shape=None, **k):
    if norm is not None or k:
        raise Unsupported("fft2 arguments")
    x = _nd(sym(x), s if s is not None else shape, axes)
    r = x
    for ax in axes:
        r = _along(r, ax, lambda v: dft_list(v, -1))
    _junk(x, overwrite_x)
    return r


def fftn(x, s=None, axes=None, **k):
    if axes is None:
        axes = tuple(range(-np.ndim(x) if s is None else -len(s), 0))
    return fft2(x, s, axes, **k)


def ifft2(x, s=None, axes=(-2, -1), norm=None, overwrite_x=False, **k):
    if norm is not None or k:
        raise Unsupported("ifft2 arguments")
    x = _nd(sym(x), s, axes)
    r = x
    for ax in axes:
        m = r.shape[ax]
        r = _along(r, ax, lambda v: dft_list(v, 1, Fraction(1, m)))
    _junk(x, overwrite_x)
    return r


def ifftn(x, s=None, axes=None, **k):
    if axes is None:
        axes = tuple(range(-np.ndim(x) if s is None else -len(s), 0))
    return ifft2(x, s, axes, **k)


def rfft2(x, s=None, axes=(-2, -1), norm=None, overwrite_x=False, **k):
    if norm is not None or k:
        raise Unsupported("rfft2 arguments")
    x = _nd(sym(x), s, axes)
    r = rfft(x, axis=axes[-1])
    for ax in axes[:-1]:
        r = _along(r, ax, lambda v: dft_list(v, -1))
    return r


def rfftn(x, s=None, axes=None, **k):
    if axes is None:
        axes = tuple(range(-np.ndim(x) if s is None else -len(s), 0))
    return rfft2(x, s, axes, **k)


def rfftn_numpy(x, s=None, axes=(-2, -1), **k):
    return rfft2(x, s, axes, **k)


class FFTLib:
    """stands for scipy.fftpack / pyfftw.interfaces.* / mkl_fft"""

    def __init__(self, reallib):
        self._real = reallib

    def __getattr__(self, name):
        if name in ("scipy_fftpack", "numpy_fft", "scipy_fft"):
            return FFTLib(getattr(self._real, name))
        f = globals().get(name)
        real = getattr(self._real, name, None)
        if f is None:
            return real

        def g(x, *a, **k):
            if isinstance(x, (SymArray, SpectrumBase)):
                return f(x, *a, **k)
            return real(x, *a, **k)
        return g
