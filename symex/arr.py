"""Symbolic arrays: an ndarray subclass holding symbolic scalars (object storage) that keeps the
*logical* dtype of the real array, and `symnp`, the numpy look-alike installed in cddm's modules."""
import builtins, types
import numpy as np
import z3
from fractions import Fraction
from .terms import *
from .terms import scaled, R0, R1, mkbool, mkint, zbool, nonfinite
from . import terms as T

_dtype_get = np.ndarray.dtype.__get__
OBJ = np.dtype(object)


def raw(a):
    """the plain object ndarray behind a SymArray (same memory)"""
    return a.view_raw() if isinstance(a, SymArray) else a


def cast_scalar(x, dt, store=True):
    """value as numpy would store it in an array of logical dtype dt"""
    k = dt.kind
    if k == "c":
        return x if type(x) is SCplx else to_cplx(x)
    if k == "f":
        if type(x) is SReal:
            return x
        if isinstance(x, SCplx):
            return x.re
        return to_real(x)
    if k in "iu":
        if isinstance(x, (bool, np.bool_)):
            return int(x)
        if isinstance(x, (int, np.integer)):
            x = int(x)
        elif isinstance(x, SInt):
            pass
        elif isinstance(x, SBool):
            x = x.as_int()
        elif isinstance(x, (float, np.floating)):
            if x != x or x in (float("inf"), float("-inf")):
                raise Unsupported("non finite to int")
            x = int(x)
        elif isinstance(x, SReal):
            x = x.trunc()
        else:
            raise TypeError("cannot store %r in an integer array" % (x,))
        if dt.itemsize < 8:
            bits = dt.itemsize * 8
            lo, hi = (0, 2 ** bits - 1) if k == "u" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
            if isinstance(x, int):
                if not lo <= x <= hi:
                    x = (x - lo) % (2 ** bits) + lo
            else:
                inr = z3.And(x.z >= lo, x.z <= hi)
                c = T.ctx()
                if c._check(*(list(c.guards) + [z3.Not(inr)])) != z3.unsat:
                    x = mkint((x.z - lo) % (2 ** bits) + lo)
        return x
    if k == "b":
        if isinstance(x, (bool, np.bool_, SBool)):
            return x
        return mkbool(zbool(x))
    if k == "O":
        return x
    raise Unsupported("dtype %s" % dt)


def unwrap_scalar(x, dt):
    """what indexing a real array of dtype dt with integers would give"""
    k = dt.kind
    if k in "iu" and isinstance(x, int):
        return dt.type(x)
    if k == "b" and isinstance(x, bool):
        return np.bool_(x)
    return x


def dt_of(x):
    if isinstance(x, SymArray):
        return x._ldt
    if isinstance(x, np.ndarray):
        return x.dtype
    if isinstance(x, (SReal, SCplx, SInt, SBool)):
        return x.dtype
    return None


class SymArray(np.ndarray):
    _ldt = np.dtype("float64")
    __array_priority__ = 100

    def __new__(cls, data, dtype):
        a = np.asarray(data, object) if not isinstance(data, np.ndarray) else data
        if _dtype_get(a) != OBJ:
            a = a.astype(object)
        a = a.view(cls)
        a._ldt = np.dtype(dtype)
        return a

    def __array_finalize__(self, obj):
        if obj is not None:
            self._ldt = getattr(obj, "_ldt", SymArray._ldt) if isinstance(obj, SymArray) else SymArray._ldt

    def view_raw(self):
        return np.ndarray.view(self, np.ndarray)

    @property
    def dtype(self):
        return self._ldt

    @property
    def itemsize(self):
        return self._ldt.itemsize

    @property
    def nbytes(self):
        return self._ldt.itemsize * self.size

    # ---- element access
    def _conv_index(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        out = []
        symbolic = False
        for i in idx:
            if isinstance(i, SymArray):
                if i._ldt.kind == "b":
                    r = i.view_raw()
                    if all(isinstance(e, (bool, np.bool_)) for e in r.flat):
                        i = r.astype(bool)
                    else:
                        symbolic = True
                elif i._ldt.kind in "iu":
                    r = i.view_raw()
                    if i.ndim == 0:
                        i = r[()]
                        if isinstance(i, SInt):
                            symbolic = True
                    elif all(isinstance(e, (int, np.integer)) for e in r.flat):
                        i = r.astype(np.int64)
                    else:
                        symbolic = True
                else:
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
            elif isinstance(i, (SInt, SBool)):
                symbolic = True
            elif isinstance(i, (SReal, SCplx)):
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
            elif isinstance(i, list) and any(isinstance(e, (SInt, SBool)) for e in i):
                i = SymArray(_obj(i), np.int64 if isinstance(i[0], (SInt, int)) else bool)
                symbolic = True
            elif isinstance(i, slice):
                if any(isinstance(e, SInt) for e in (i.start, i.stop, i.step)):
                    f = lambda e: e.__index__() if isinstance(e, SInt) else e
                    i = slice(f(i.start), f(i.stop), f(i.step))
            out.append(i)
        return tuple(out), symbolic

    def _concretize_index(self, idx):
        out = []
        for i in idx:
            if isinstance(i, SymArray):
                r = i.view_raw()
                if i._ldt.kind == "b":
                    i = np.array([bool(e) for e in r.flat], bool).reshape(r.shape)
                else:
                    i = np.array([int(e) for e in r.flat], np.int64).reshape(r.shape)
            elif isinstance(i, SInt):
                i = int(i)
            elif isinstance(i, SBool):
                i = bool(i)
            out.append(i)
        return tuple(out)

    def __getitem__(self, idx):
        idx, symbolic = self._conv_index(idx)
        if symbolic:
            # one symbolic integer, scalar element: ite over the axis
            ints = [k for k, i in enumerate(idx) if isinstance(i, SInt)]
            if len(ints) == 1 and not any(isinstance(i, SymArray) for i in idx) \
                    and Ellipsis not in [i for i in idx if not isinstance(i, np.ndarray)]:
                k = ints[0]
                ax = sum(1 for i in idx[:k] if i is not None)
                m = idx[k]
                n = self.shape[ax]
                m = check_index(m, n, python=True)
                if not isinstance(m, SInt):
                    return self[idx[:k] + (m,) + idx[k + 1:]]
                res = None
                for j in range(n - 1, -1, -1):
                    v = self[idx[:k] + (j,) + idx[k + 1:]]
                    if res is None:
                        res = v
                    elif isinstance(v, SymArray):
                        g = m == j
                        o = np.empty(v.shape, object)
                        vr, rr = v.view_raw(), res.view_raw()
                        for q in np.ndindex(*v.shape):
                            o[q] = ite(g, vr[q], rr[q])
                        res = SymArray(o, self._ldt)
                    else:
                        res = ite(m == j, v, res)
                return res
            idx = self._concretize_index(idx)
        r = np.ndarray.__getitem__(self.view_raw(), idx if len(idx) != 1 else idx[0])
        if isinstance(r, np.ndarray):
            r = r.view(SymArray)
            r._ldt = self._ldt
            return r
        return unwrap_scalar(r, self._ldt)

    def __setitem__(self, idx, value):
        idx, symbolic = self._conv_index(idx)
        dt = self._ldt
        if dt.kind in "iu" and isinstance(value, (float, np.floating)):
            if value != value:
                raise ValueError("cannot convert float NaN to integer")
            if value in (float("inf"), float("-inf")):
                raise OverflowError("cannot convert float infinity to integer")
        base = self.view_raw()
        g = T.ctx().guard() if T.ctx() is not None else None
        if symbolic:
            # boolean mask of the leading shape with a scalar value
            if len(idx) == 1 and isinstance(idx[0], SymArray) and idx[0]._ldt.kind == "b" and \
                    (not isinstance(value, np.ndarray) or value.ndim == 0) and idx[0].shape == self.shape:
                v = cast_scalar(value[()] if isinstance(value, np.ndarray) else value, dt)
                mk = idx[0].view_raw()
                for q in np.ndindex(*self.shape):
                    c = mk[q]
                    if g is not None:
                        c = sand(c, SBool(g))
                    base[q] = ite(c, v, base[q])
                return
            ints = [k for k, i in enumerate(idx) if isinstance(i, SInt)]
            if len(ints) == 1 and not any(isinstance(i, SymArray) for i in idx):
                k = ints[0]
                ax = sum(1 for i in idx[:k] if i is not None)
                m = idx[k]
                n = self.shape[ax]
                m = check_index(m, n, python=True)
                if isinstance(m, SInt):
                    for j in range(n):
                        c = m == j
                        if c is False:
                            continue
                        self._guarded_set(idx[:k] + (j,) + idx[k + 1:], value, c, g)
                    return
                idx = idx[:k] + (m,) + idx[k + 1:]
            else:
                idx = self._concretize_index(idx)
        if g is not None:
            self._guarded_set(idx, value, SBool(g), None)
            return
        key = idx if len(idx) != 1 else idx[0]
        if isinstance(value, np.ndarray) or (isinstance(value, (list, tuple))):
            v = asobj(value)
            if v.ndim == 0:
                np.ndarray.__setitem__(base, key, cast_scalar(v[()], dt))
            else:
                np.ndarray.__setitem__(base, key, cast_array(v, dt))
        else:
            np.ndarray.__setitem__(base, key, cast_scalar(value, dt))

    def _guarded_set(self, idx, value, c, g):
        if g is not None:
            c = sand(c, SBool(g))
        base = self.view_raw()
        dt = self._ldt
        ids = np.arange(self.size).reshape(self.shape)
        sel = ids[idx if len(idx) != 1 else idx[0]]
        v = asobj(value) if isinstance(value, (np.ndarray, list, tuple)) else value
        if isinstance(sel, np.ndarray):
            vb = np.broadcast_to(v, sel.shape) if isinstance(v, np.ndarray) else None
            for q in np.ndindex(*sel.shape):
                p = np.unravel_index(sel[q], self.shape)
                base[p] = ite(c, cast_scalar(vb[q] if vb is not None else v, dt), base[p])
        else:
            p = np.unravel_index(sel, self.shape)
            if isinstance(v, np.ndarray):
                v = v[()]
            base[p] = ite(c, cast_scalar(v, dt), base[p])

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.view_raw().reshape(())[()])

    def __index__(self):
        if self.size != 1 or self._ldt.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return int(self.view_raw().reshape(())[()])

    def __int__(self):
        return int(self.view_raw().reshape(())[()])

    def __float__(self):
        return float(self.view_raw().reshape(())[()])

    def item(self, *a):
        return self.view_raw().item(*a)

    def tolist(self):
        return self.view_raw().tolist()

    def __contains__(self, x):
        return bool(symnp.any(self == x))

    # ---- views / copies
    def copy(self, order="C"):
        r = self.view_raw().copy(order).view(SymArray)
        r._ldt = self._ldt
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = np.dtype(dtype)
        if dt == self._ldt and not copy:
            return self
        r = cast_array(self.view_raw(), dt).view(SymArray)
        if r.base is self or dt == self._ldt:
            r = r.copy()
        r._ldt = dt
        return r

    def view(self, *a, **k):
        t = a[0] if a else k.get("type", k.get("dtype"))
        if t is None or (isinstance(t, type) and issubclass(t, SymArray)):
            r = np.ndarray.view(self, SymArray)
            r._ldt = self._ldt
            return r
        if t is np.ndarray:
            r = np.ndarray.view(self, SymArray)
            r._ldt = self._ldt
            return r
        if np.dtype(t) == self._ldt:
            return self.view()
        # complex <-> real reinterpretation of the last axis
        dt = np.dtype(t)
        if self._ldt.kind == "c" and dt.kind == "f" and dt.itemsize * 2 == self._ldt.itemsize:
            raise Unsupported("reinterpreting view")
        raise Unsupported("view as %s" % t)

    def fill(self, v):
        self[...] = v

    @property
    def real(self):
        if self._ldt.kind != "c":
            return self
        return PartView.make(self, 0)

    @real.setter
    def real(self, v):
        if self._ldt.kind != "c":
            self[...] = v
        else:
            self.real[...] = v

    @property
    def imag(self):
        if self._ldt.kind != "c":
            o = np.empty(self.shape, object)
            o[...] = R0 if self._ldt.kind == "f" else 0
            return SymArray(o, self._ldt)
        return PartView.make(self, 1)

    @imag.setter
    def imag(self, v):
        self.imag[...] = v

    def conj(self):
        return symnp.conj(self)
    conjugate = conj

    # ---- reductions
    def sum(self, *a, **k):
        return symnp.sum(self, *a, **k)

    def mean(self, *a, **k):
        return symnp.mean(self, *a, **k)

    def var(self, *a, **k):
        return symnp.var(self, *a, **k)

    def std(self, *a, **k):
        return symnp.std(self, *a, **k)

    def min(self, *a, **k):
        return symnp.min(self, *_minargs(a), **k)

    def max(self, *a, **k):
        return symnp.max(self, *_minargs(a), **k)

    def any(self, *a, **k):
        return symnp.any(self, *_minargs(a), **k)

    def all(self, *a, **k):
        return symnp.all(self, *_minargs(a), **k)

    def prod(self, *a, **k):
        return symnp.prod(self, *a, **k)

    def cumsum(self, *a, **k):
        return symnp.cumsum(self, *a, **k)

    def round(self, decimals=0, out=None):
        return symnp.round(self, decimals)

    def clip(self, min=None, max=None, out=None, **k):
        return symnp.clip(self, min, max, out=out, **k)

    def nonzero(self):
        return symnp.nonzero(self)

    def argsort(self, axis=-1, **k):
        return symnp.argsort(self, axis=axis)

    def argmax(self, axis=None, **k):
        return symnp.argmax(self, axis=axis, **k)

    def argmin(self, axis=None, **k):
        return symnp.argmin(self, axis=axis, **k)

    def searchsorted(self, v, side="left", sorter=None):
        return symnp.searchsorted(self, v, side, sorter)

    def trace(self, offset=0, **k):
        return symnp.trace(self, offset, **k)

    def ptp(self, axis=None, **k):
        return symnp.ptp(self, axis, **k)

    def cumprod(self, axis=None, **k):
        return symnp.cumprod(self, axis=axis, **k)

    def put(self, ind, v, mode="raise"):
        symnp.put(self, ind, v, mode)

    def choose(self, choices, out=None, mode="raise"):
        return symnp.choose(self, choices, out, mode)

    def compress(self, c, axis=None, out=None):
        return symnp.compress(c, self, axis=axis)

    def itemset(self, *a):
        self[a[0] if len(a) == 2 else a[:-1]] = a[-1]

    def partition(self, kth, axis=-1, **k):
        self.sort(axis)

    def sort(self, axis=-1, **k):
        self[...] = symnp.sort(self, axis=axis)

    def dot(self, o):
        return symnp.dot(self, o)

    def tobytes(self, *a, **k):
        raise Unsupported("bytes of a symbolic array")

    tofile = dump = dumps = tostring = tobytes

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return apply_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        mod = func.__module__ or ""
        f = None
        if mod.startswith("numpy.fft"):
            f = getattr(symnp.fft, name, None)
        elif mod.startswith("numpy.linalg"):
            f = getattr(symnp.linalg, name)
        elif name in SymNP.__dict__:
            f = getattr(symnp, name)
        if f is not None:
            return f(*args, **kwargs)
        if name in STRUCTURAL:
            return structural(func, args, kwargs)
        raise Unsupported("numpy.%s on symbolic data" % name)

    def __repr__(self):
        return "SymArray(%s, %s)" % (self.view_raw(), self._ldt)

    __str__ = __repr__


class PartView(SymArray):
    """a.real / a.imag of a complex array: writes go through to the parent"""
    _parent = None

    @staticmethod
    def make(parent, part):
        src = parent.view_raw()
        o = np.empty(src.shape, object)
        for q in np.ndindex(*src.shape):
            e = to_cplx(src[q])
            o[q] = e.im if part else e.re
        r = o.view(PartView)
        r._ldt = np.dtype("f%d" % (parent._ldt.itemsize // 2))
        r._ids = np.arange(o.size).reshape(o.shape)
        r._parent = parent
        r._part = part
        return r

    def __array_finalize__(self, obj):
        SymArray.__array_finalize__(self, obj)
        self._parent = None
        self._ids = None
        self._part = 0

    def _sync(self):
        if self._parent is None:
            return
        pr = self._parent.view_raw()
        me = self.view_raw()
        idx = self._pidx if hasattr(self, "_pidx") else None
        flat = [np.unravel_index(i, pr.shape) for i in self._ids.flat]
        for p, v in zip(flat, me.flat):
            e = to_cplx(pr[p])
            pr[p] = SCplx(v, e.im) if self._part == 0 else SCplx(e.re, v)
        if isinstance(self._parent, PartView):
            self._parent._sync()

    def __getitem__(self, idx):
        r = SymArray.__getitem__(self, idx)
        if isinstance(r, np.ndarray) and self._parent is not None:
            ids = self._ids[self._conv_index(idx)[0]]
            r = r.view_raw().view(PartView)
            r._ldt = self._ldt
            r._parent, r._part, r._ids = self._parent, self._part, np.asarray(ids)
        return r

    def __setitem__(self, idx, v):
        SymArray.__setitem__(self, idx, v)
        self._sync()

    def written(self):
        self._sync()


def written(a):
    """to be called after the raw storage of `a` was modified in place"""
    if isinstance(a, PartView):
        a._sync()


def check_index(m, n, python=False):
    """index bounds obligation; returns an index in [0, n) (possibly symbolic)"""
    if isinstance(m, SInt):
        c = T.ctx()
        c.oob_checks += 1
        ok = z3.And(m.z >= -n, m.z < n)
        r = c._check(*(list(c.guards) + [z3.Not(ok)]))
        if r == z3.unknown:
            raise Unsupported("solver gave no answer on an index bound")
        if r == z3.sat:
            # the out-of-bounds case is explored as a path of its own
            if not c.decide(ok):
                if python:
                    raise IndexError("index out of bounds")
                raise OOBError("index out of bounds for axis with size %d" % n)
        neg = c._check(*(list(c.guards) + [m.z < 0])) != z3.unsat
        if neg:
            return mkint(z3.If(m.z < 0, m.z + n, m.z))
        return m
    m = int(m)
    if not -n <= m < n:
        if python:
            raise IndexError("index %d is out of bounds for axis with size %d" % (m, n))
        raise OOBError("index %d out of bounds for axis with size %d" % (m, n))
    return m + n if m < 0 else m


def _obj(x):
    if isinstance(x, SymArray):
        return x.view_raw()
    if isinstance(x, np.ndarray):
        return x if _dtype_get(x) == OBJ else x.astype(object)
    if isinstance(x, (list, tuple)):
        subs = [_obj(e) if isinstance(e, (list, tuple, np.ndarray)) else e for e in x]
        if subs and isinstance(subs[0], np.ndarray):
            shp = subs[0].shape
            if any(not isinstance(s, np.ndarray) or s.shape != shp for s in subs):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            o = np.empty((len(subs),) + shp, object)
            for i, s in enumerate(subs):
                o[i] = s
            return o
        o = np.empty((len(subs),), object)
        for i, s in enumerate(subs):
            o[i] = s
        return o
    o = np.empty((), object)
    o[()] = x
    return o


asobj = _obj


def has_sym(x):
    if isinstance(x, (SymArray, SReal, SCplx, SInt, SBool)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def infer_dt(x):
    """dtype numpy would infer for x (arrays, scalars, nested lists of them)"""
    if isinstance(x, SymArray):
        return x._ldt
    if isinstance(x, np.ndarray):
        return x.dtype
    if isinstance(x, (list, tuple)):
        ds = [infer_dt(e) for e in x]
        if not ds:
            return np.dtype("float64")
        return np.result_type(*ds)
    if isinstance(x, (SReal, SCplx, SInt, SBool)):
        return x.dtype
    return np.asarray(x).dtype


def cast_array(o, dt):
    """object array -> object array with elements cast to dt"""
    out = np.empty(o.shape, object)
    if dt.kind == "O":
        out[...] = o
        return out
    fi, fo = o.ravel(), out.reshape(-1)
    for i in range(fi.size):
        fo[i] = cast_scalar(fi[i], dt)
    return out


def sym(x, dtype=None):
    """anything -> SymArray of the given (or inferred) logical dtype (copy only if needed)"""
    if isinstance(x, SymArray) and (dtype is None or np.dtype(dtype) == x._ldt):
        return x
    dt = np.dtype(dtype) if dtype is not None else infer_dt(x)
    return SymArray(cast_array(_obj(x), dt), dt)


# ------------------------------------------------------------------ ufuncs
def _dummy(x):
    if isinstance(x, (SymArray,)):
        return np.ones((1,) * x.ndim, x._ldt) if x.ndim else x._ldt.type(1)
    if isinstance(x, SReal):
        return np.float64(1)
    if isinstance(x, SCplx):
        return np.complex128(1)
    if isinstance(x, SInt):
        return np.int64(1)
    if isinstance(x, SBool):
        return np.bool_(True)
    if isinstance(x, np.ndarray):
        return np.ones((1,) * x.ndim, x.dtype) if x.ndim else x
    return x


_memo_dt = {}


def ufunc_dt(ufunc, inputs, out=None, dtype=None, casting=None):
    with np.errstate(all="ignore"):
        kw = {}
        if dtype is not None:
            kw["dtype"] = dtype
        d = [_dummy(i) for i in inputs]
        r = ufunc(*d, **kw)
    if isinstance(r, tuple):
        return tuple(np.asarray(e).dtype for e in r)
    return np.asarray(r).dtype


def _el_abs(x):
    return abs(x)


def _m(name, const=None):
    def f(x):
        if isinstance(x, (SReal, SCplx)):
            return getattr(x, name)()
        if isinstance(x, SInt):
            return getattr(to_real(x), name)()
        return getattr(to_real(x), name)()
    return f


def _conj(x):
    return x.conjugate() if not isinstance(x, (bool, np.bool_, SBool)) else x


def _isx(name):
    def f(x):
        if isinstance(x, (SReal, SCplx)):
            return getattr(x, name)()
        if isinstance(x, (SInt, int, SBool, bool)):
            return name == "isfinite"
        return bool(getattr(np, name)(x))
    return f


def _pow(a, b):
    if isinstance(b, SReal):
        k = b.const()
        if k is None:
            raise Unsupported("symbolic exponent")
        b = k
    return a ** b


def _rint(x):
    if isinstance(x, SReal):
        return x.rint()
    return x


def _sign(x):
    return ite(x > 0, 1, ite(x < 0, -1, 0))


def _floordiv(a, b):
    return a // b


def _atan2(a, b):
    return to_real(a).arctan2(b)


ELEM = {
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
    "divide": lambda a, b: _truediv(a, b), "true_divide": lambda a, b: _truediv(a, b),
    "floor_divide": _floordiv, "remainder": lambda a, b: a % b, "mod": lambda a, b: a % b,
    "negative": lambda a: -a, "positive": lambda a: a, "absolute": _el_abs, "fabs": _el_abs,
    "conjugate": _conj, "square": lambda a: a * a, "power": _pow, "float_power": _pow,
    "sqrt": _m("sqrt"), "cos": _m("cos"), "sin": _m("sin"), "exp": _m("exp"), "log": _m("log"),
    "arctan": _m("arctan"), "arctan2": _atan2, "reciprocal": lambda a: 1 / a,
    "floor": lambda x: x if isinstance(x, (SInt, int)) else to_real(to_real(x).floor()),
    "ceil": lambda x: x if isinstance(x, (SInt, int)) else to_real(to_real(x).ceil()),
    "trunc": lambda x: x if isinstance(x, (SInt, int)) else to_real(to_real(x).trunc()),
    "rint": _rint, "sign": _sign,
    "isnan": _isx("isnan"), "isinf": _isx("isinf"), "isfinite": _isx("isfinite"),
    "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b, "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b, "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b,
    "logical_and": lambda a, b: sand(_tb(a), _tb(b)), "logical_or": lambda a, b: sor(_tb(a), _tb(b)),
    "logical_not": lambda a: snot(_tb(a)), "logical_xor": lambda a, b: mkbool(z3.Xor(zbool(_tb(a)), zbool(_tb(b)))),
    "bitwise_and": lambda a, b: a & b, "bitwise_or": lambda a, b: a | b, "bitwise_xor": lambda a, b: a ^ b,
    "invert": lambda a: snot(a) if isinstance(a, (bool, np.bool_, SBool)) else ~a,
    "maximum": lambda a, b: T.smax(a, b), "minimum": lambda a, b: T.smin(a, b),
    "fmax": lambda a, b: T.smax(a, b), "fmin": lambda a, b: T.smin(a, b),
    "left_shift": lambda a, b: a << b, "right_shift": lambda a, b: a >> b,
    "hypot": lambda a, b: (to_real(a) * a + to_real(b) * b).sqrt(),
}


def _tb(x):
    if isinstance(x, (bool, np.bool_, SBool)):
        return x
    return mkbool(zbool(x)) if is_sym(x) else bool(x)


def _truediv(a, b):
    if isinstance(a, (int, float, np.number)) and not isinstance(a, (complex, np.complexfloating)):
        a = to_real(a)
    elif isinstance(a, (SInt, SBool)):
        a = to_real(a)
    if isinstance(b, (int, np.integer)):
        b = int(b)
    return a / b


def elementwise(fn, arrays, dt=None):
    """broadcast python function over object arrays"""
    arrs = [np.asarray(a) if isinstance(a, np.ndarray) else _obj(a) for a in arrays]
    arrs = [raw(a) for a in arrs]
    b = np.broadcast(*arrs) if len(arrs) > 1 else None
    shp = b.shape if b is not None else arrs[0].shape
    out = np.empty(shp, object)
    fo = out.reshape(-1)
    its = [np.broadcast_to(a, shp).ravel() for a in arrs]
    for i in range(out.size):
        v = fn(*[_py(t[i]) for t in its])
        fo[i] = cast_scalar(v, dt) if dt is not None else v
    return out


def _py(x):
    if isinstance(x, np.generic):
        return x.item()
    return x


def getitem(a, i):
    """a[i] of the code under test"""
    if type(a) is np.ndarray and has_sym(i):
        return sym(a)[i]
    if isinstance(i, SInt) and isinstance(a, (list, tuple, str, range)):
        return a[i.__index__()]
    return a[i]


def wrap(o, dt):
    """object ndarray -> SymArray or scalar"""
    if o.ndim == 0:
        return unwrap_scalar(o[()], dt)
    return SymArray(o, dt)


def apply_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    where = kw.pop("where", True)
    dtype = kw.pop("dtype", None)
    casting = kw.pop("casting", "same_kind")
    kw.pop("order", None)
    kw.pop("subok", None)
    if any(isinstance(i, SpectrumBase) for i in inputs):
        for i in inputs:
            if isinstance(i, SpectrumBase):
                return i.__array_ufunc__(ufunc, method, *inputs, out=out)
    if method == "reduce":
        return reduce_ufunc(name, inputs[0], *inputs[1:], out=out, dtype=dtype, where=where, **kw)
    from . import npmore
    if method == "accumulate":
        return npmore.accumulate(ufunc, inputs[0], kw.get("axis", inputs[1] if len(inputs) > 1 else 0), dtype, out)
    if method == "at":
        return npmore.ufunc_at(ufunc, *inputs)
    if method == "__call__" and name == "matmul":
        return symnp.matmul(*inputs, out=out)
    if method == "__call__" and name in ("divmod", "modf"):
        return getattr(symnp, name)(*inputs)
    if method == "outer":
        a, b = sym(inputs[0]), sym(inputs[1])
        return apply_ufunc(ufunc, "__call__", (a.reshape(a.shape + (1,) * b.ndim), b), dict(out=out))
    if method != "__call__":
        raise Unsupported("ufunc method %s" % method)
    if kw:
        raise Unsupported("ufunc arguments %s" % list(kw))
    fn = ELEM.get(name)
    if fn is None:
        raise Unsupported("ufunc %s" % name)
    dt = ufunc_dt(ufunc, inputs, dtype=dtype)
    ins = [raw(i) if isinstance(i, np.ndarray) else _obj(i) for i in inputs]
    res = elementwise(fn, ins, dt)
    if out is None:
        if where is not True:
            w = elementwise(lambda x: x, [where])
            junk = junk_array(res.shape, dt)
            res = elementwise(lambda c, a, b: ite(_tb(c), a, b), [np.broadcast_to(w, res.shape), res, junk.view_raw() if res.ndim else _obj(junk)])
        return wrap(res, dt)
    odt = dt_of(out)
    if not np.can_cast(dt, odt, casting):
        raise TypeError("Cannot cast ufunc '%s' output from %r to %r with casting rule '%s'" % (name, dt, odt, casting))
    if np.broadcast_shapes(res.shape, out.shape) != out.shape:
        raise ValueError("non-broadcastable output operand with shape %s doesn't match the broadcast shape %s" % (out.shape, res.shape))
    if where is not True:
        w = np.broadcast_to(raw(where) if isinstance(where, np.ndarray) else _obj(where), out.shape)
        res = elementwise(lambda c, a, b: ite(_tb(c), a, b), [w, np.broadcast_to(res, out.shape), raw(out)])
    if not isinstance(out, SymArray):
        out[...] = res          # plain array: only possible with concrete values
        return out
    out[...] = res if res.ndim else res[()]
    return out


def reduce_ufunc(name, a, axis=0, out=None, dtype=None, keepdims=False, initial=np._NoValue, where=True):
    m = {"add": symnp.sum, "multiply": symnp.prod, "maximum": symnp.max, "minimum": symnp.min,
         "logical_and": symnp.all, "logical_or": symnp.any}.get(name)
    if m is None:
        raise Unsupported("reduce of %s" % name)
    k = {} if out is None else {"out": out}
    if initial is not np._NoValue:
        k["initial"] = initial
    return m(a, axis=axis, keepdims=keepdims, where=where, **k)


def junk_array(shape, dt):
    """uninitialised memory: every element is a fresh unknown"""
    dt = np.dtype(dt)
    if not isinstance(shape, tuple):
        shape = tuple(shape) if isinstance(shape, (list, np.ndarray)) else (shape,)
    shape = tuple(int(s) for s in shape)
    o = np.empty(shape, object)
    f = o.reshape(-1)
    c = T.ctx()
    n = next(c.fresh)
    for i in range(f.size):
        nm = "junk!%d!%d" % (n, i)
        if dt.kind == "c":
            f[i] = SCplx(SReal({((c.atom(nm + "r"), 1),): Fraction(1)}), SReal({((c.atom(nm + "i"), 1),): Fraction(1)}))
        elif dt.kind == "f":
            f[i] = SReal({((c.atom(nm), 1),): Fraction(1)})
        elif dt.kind in "iu":
            f[i] = SInt(z3.Int(nm))
        elif dt.kind == "b":
            f[i] = SBool(z3.Bool(nm))
        else:
            f[i] = None
    return SymArray(o, dt)


# structural functions: they only move elements around
STRUCTURAL = {"moveaxis", "swapaxes", "transpose", "reshape", "ravel", "concatenate", "stack", "vstack", "hstack",
              "expand_dims", "squeeze", "rollaxis", "flip", "fliplr", "flipud", "roll", "repeat", "tile", "take",
              "broadcast_to", "atleast_1d", "atleast_2d", "split", "array_split", "append", "delete", "insert",
              "rot90", "pad", "dstack", "column_stack", "diagonal", "broadcast_arrays", "block", "take_along_axis",
              "ndim", "shape", "size", "compress"}


def structural(func, args, kwargs):
    ds = []

    def un(x):
        if isinstance(x, SymArray):
            ds.append(x._ldt)
            return x.view_raw()
        if isinstance(x, (list, tuple)):
            if any(isinstance(e, np.ndarray) for e in x):
                return type(x)(un(e) for e in x) if isinstance(x, (list, tuple)) else x
            return x
        if isinstance(x, np.ndarray) and x.dtype.kind in "fc":
            ds.append(x.dtype)
        return x
    a = [un(x) for x in args]
    k = {q: un(v) for q, v in kwargs.items()}
    k.pop("out", None) if k.get("out", 1) is None else None
    r = func(*a, **k)
    dt = np.result_type(*ds) if ds else np.dtype(float)

    def re(x):
        if isinstance(x, np.ndarray) and _dtype_get(x) == OBJ:
            x = x.view(SymArray)
            x._ldt = dt
            if len(set(ds)) > 1:
                x = SymArray(cast_array(x.view_raw(), dt), dt)
            return x
        if isinstance(x, (list, tuple)):
            return type(x)(re(e) for e in x)
        return x
    return re(r)


class SpectrumBase:
    pass


def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if not isinstance(axis, (tuple, list)):
        axis = (axis,)
    r = tuple(int(a) + nd if int(a) < 0 else int(a) for a in axis)
    if any(a < 0 or a >= nd for a in r):
        raise np.AxisError("axis %s is out of bounds for array of dimension %d" % (axis, nd))
    return r


def reduce_with(a, axis, fn, dt, keepdims=False, init=None):
    """generic reduction: fn(list of elements) -> element"""
    o = raw(a)
    ax = _axes(axis, o.ndim)
    keep = [i for i in range(o.ndim) if i not in ax]
    t = o.transpose(keep + list(ax)).reshape(tuple(o.shape[i] for i in keep) + (-1,)) if o.size or True else o
    out = np.empty(t.shape[:-1], object)
    for q in np.ndindex(*out.shape):
        els = [_py(e) for e in t[q]]
        out[q] = cast_scalar(fn(els), dt)
    if keepdims:
        out = out.reshape(tuple(1 if i in ax else o.shape[i] for i in range(o.ndim)))
    return wrap(out, dt)


def _fold(f):
    def g(els):
        if not els:
            raise ValueError("zero-size array to reduction operation")
        r = els[0]
        for e in els[1:]:
            r = f(r, e)
        return r
    return g


class _Const:
    pass


def _like(a, k):
    return k["shape"] if k.get("shape") is not None else np.shape(a)


def _minargs(a):
    # ndarray.min(axis, out, keepdims): the positional order differs from the functions below
    if len(a) > 1:
        raise Unsupported("positional arguments of a reduction")
    return a


def _nonan(els, f):
    g = [e for e in els if not (hasattr(e, "isnan") and e.isnan())]
    return _fold(f)(g) if g else nonfinite("nan")


def _reduction(name, ident):
    """where, initial and out of the reductions"""
    old = getattr(SymNP, name)
    sig = ["axis", "dtype", "out", "keepdims"] if name in ("sum", "prod", "mean", "cumsum") else \
        (["axis", "dtype", "out", "ddof", "keepdims"] if name in ("var", "std") else (["axis", "out", "keepdims"] if name != "ptp" else ["axis", "out"]))
    if name.startswith("nan"):
        sig = ["axis"]

    def f(self, a, *args, **k):
        if len(args) > len(sig):
            raise Unsupported("%s arguments" % name)
        k = dict(k, **dict(zip(sig, args)))
        if not has_sym(a) and not any(has_sym(x) for x in k.values()):
            return getattr(np, name)(a, **k)
        out, where, initial = k.pop("out", None), k.pop("where", True), k.pop("initial", np._NoValue)
        if k.get("dtype", 0) is None:
            del k["dtype"]
        if not k.get("keepdims", True) or k.get("keepdims", 0) is np._NoValue:
            del k["keepdims"]
        if not set(k) <= {"axis", "dtype", "keepdims", "ddof"}:
            raise Unsupported("%s arguments" % name)
        if where is not True:
            a = sym(a)
            w = np.broadcast_to(where, a.shape) if not has_sym(where) else structural(np.broadcast_to, (sym(where), a.shape), {})
            if name == "mean":
                r = self.sum(self.where(w, a, 0), **k) / self.sum(self.where(w, 1, 0), **{q: v for q, v in k.items() if q != "dtype"})
            else:
                i = ident if ident is not None else (initial if initial is not np._NoValue else None)
                if i is None or name in ("var", "std", "nanmean"):
                    raise Unsupported("%s with where" % name)
                r = old(self, self.where(w, a, i), **k)
        else:
            r = old(self, a, **k)
        if initial is not np._NoValue:
            op = {"sum": np.add, "prod": np.multiply, "min": np.minimum, "max": np.maximum}.get(name)
            if op is None:
                raise Unsupported("%s with initial" % name)
            r = apply_ufunc(op, "__call__", (sym(r), sym(initial)), {})
        if out is not None:
            out[...] = r
            return out
        return r
    f.__name__ = name
    setattr(SymNP, name, f)


class SymNP:
    """replacement of the name `np` in cddm's modules"""

    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            def f(*a, **k):
                if any(has_sym(x) for x in a) or has_sym(k.get("out")):
                    if len(a) > v.nin:
                        k["out"] = a[v.nin]
                        a = a[:v.nin]
                    return apply_ufunc(v, "__call__", a, dict(k))
                return v(*a, **k)
            f.__name__ = name
            def red(a, axis=0, *x, **k):
                return v.reduce(sym(a) if has_sym(a) and not isinstance(a, SymArray) else a, axis, *x, **k)

            def acc(a, axis=0, *x, **k):
                return v.accumulate(sym(a) if has_sym(a) and not isinstance(a, SymArray) else a, axis, *x, **k)

            def at(a, idx, *b):
                if has_sym(a) or has_sym(idx) or any(has_sym(x) for x in b):
                    from . import npmore
                    return npmore.ufunc_at(v, a, idx, *b)
                return v.at(a, idx, *b)

            def outer(a, b, **k):
                return apply_ufunc(v, "outer", (a, b), dict(k)) if has_sym(a) or has_sym(b) else v.outer(a, b, **k)
            f.reduce, f.accumulate, f.at, f.outer = red, acc, at, outer
            f.nin, f.nout, f.identity = v.nin, v.nout, v.identity
            self.__dict__[name] = f
            return f
        if callable(v) and not isinstance(v, type) and name not in ("errstate", "ndindex", "ndenumerate"):
            def f(*a, **k):
                if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
                    if name in STRUCTURAL:
                        a = [sym(x) if is_sym(x) else ([sym(e) if has_sym(e) else e for e in x] if isinstance(x, (list, tuple)) and any(isinstance(e, (SymArray,)) or has_sym(e) for e in x) else x) for x in a]
                        return structural(v, a, k)
                    if not any(_arrayish(x) for x in list(a) + list(k.values())):
                        raise Unsupported("numpy.%s on symbolic data" % name)
                return v(*a, **k)
            f.__name__ = name
            return f
        return v

    # ---- creation
    def asarray(self, a, dtype=None, order=None):
        if isinstance(a, SpectrumBase):
            return a
        if has_sym(a):
            return sym(a, dtype)
        return np.asarray(a, dtype, order)

    asanyarray = ascontiguousarray = asarray

    def array(self, a, dtype=None, copy=True, ndmin=0, **k):
        if has_sym(a):
            r = sym(a, dtype)
            return r.copy() if r is a and copy else r
        r = np.array(a, dtype, copy=copy, ndmin=ndmin)
        return r

    def zeros(self, shape, dtype=float, order="C"):
        dt = np.dtype(dtype)
        shape = _shape(shape)
        o = np.empty(shape, object)
        o[...] = {"c": T.to_cplx(0), "f": R0, "b": False}.get(dt.kind, 0)
        return SymArray(o, dt)

    def ones(self, shape, dtype=float, order="C"):
        dt = np.dtype(dtype)
        o = np.empty(_shape(shape), object)
        o[...] = {"c": T.to_cplx(1), "f": R1, "b": True}.get(dt.kind, 1)
        return SymArray(o, dt)

    def full(self, shape, v, dtype=None, order="C"):
        dt = np.dtype(dtype) if dtype is not None else infer_dt(v)
        o = np.empty(_shape(shape), object)
        r = SymArray(o, dt)
        np.ndarray.__setitem__(o, Ellipsis, cast_scalar(v, dt) if not isinstance(v, np.ndarray) else cast_array(_obj(v), dt))
        return r

    def empty(self, shape, dtype=float, order="C"):
        if isinstance(shape, (list, tuple)):
            shape = tuple(shape)
        return junk_array(_shape(shape), dtype)

    def zeros_like(self, a, dtype=None, **k):
        return self.zeros(_like(a, k), dtype or dt_of(self.asarray(a)))

    def ones_like(self, a, dtype=None, **k):
        return self.ones(_like(a, k), dtype or dt_of(self.asarray(a)))

    def empty_like(self, a, dtype=None, **k):
        return self.empty(_like(a, k), dtype or dt_of(self.asarray(a)))

    def full_like(self, a, v, dtype=None, **k):
        return self.full(_like(a, k), v, dtype or dt_of(self.asarray(a)))

    def copy(self, a, *x, **k):
        return a.copy() if isinstance(a, SymArray) else (sym(a) if has_sym(a) else np.copy(a))

    class lib:
        class format:
            @staticmethod
            def open_memmap(filename, mode="r+", dtype=None, shape=None, fortran_order=False, version=None, **k):
                """a new file that can be written: an array with symbolic contents"""
                if mode != "w+":
                    raise Unsupported("memmap mode")
                a = symnp.empty(shape, dtype)
                a.filename = filename
                return a

    def arange(self, *a, **k):
        if not k and any(isinstance(x, SReal) and x.const() is None for x in a):
            start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
            n, up = 0, bool(T.to_real(step) > 0)
            while bool(T.to_real(start) + T.to_real(step) * n < stop) if up else bool(T.to_real(start) + T.to_real(step) * n > stop):
                n += 1
                if n > 1000:
                    raise Unsupported("arange")
            o = np.empty(n, object)
            for i in range(n):
                o[i] = T.to_real(start) + T.to_real(step) * i
            return SymArray(o, np.float64)
        a = [x.__index__() if isinstance(x, SInt) else (int(x) if isinstance(x, SymArray) else (float(x) if isinstance(x, SReal) else x)) for x in a]
        return np.arange(*a, **k)

    def iscomplexobj(self, x):
        dt = dt_of(x)
        if isinstance(x, SpectrumBase):
            return True
        if dt is not None:
            return dt.kind == "c"
        if has_sym(x):
            return infer_dt(x).kind == "c"
        return np.iscomplexobj(x)

    def isrealobj(self, x):
        return not self.iscomplexobj(x)

    def real(self, x):
        return x.real

    def imag(self, x):
        return x.imag

    def conj(self, x, out=None, **k):
        if isinstance(x, SpectrumBase):
            return x.conj(out=out)
        if isinstance(x, (SReal, SInt)):
            return x
        if isinstance(x, SCplx):
            return x.conjugate()
        if not has_sym(x) and not has_sym(out):
            return np.conj(x, out=out, **k) if out is not None else np.conj(x, **k)
        return apply_ufunc(np.conjugate, "__call__", (x if isinstance(x, np.ndarray) else sym(x),), dict(k, out=out) if out is not None else k)

    conjugate = conj

    # ---- reductions
    def sum(self, a, axis=None, dtype=None, out=None, keepdims=False, **k):
        if not has_sym(a):
            return np.sum(a, axis=axis, dtype=dtype, out=out, keepdims=keepdims)
        a = sym(a)
        dt = np.dtype(dtype) if dtype else np.sum(np.zeros(1, a._ldt)).dtype
        r = reduce_with(a, axis, lambda els: _fold(lambda p, q: p + q)(els) if els else 0, dt, keepdims)
        if out is not None:
            out[...] = r
            return out
        return r

    def prod(self, a, axis=None, dtype=None, out=None, keepdims=False, **k):
        if not has_sym(a):
            return np.prod(a, axis=axis)
        a = sym(a)
        return reduce_with(a, axis, lambda els: _fold(lambda p, q: p * q)(els) if els else 1, np.prod(np.ones(1, a._ldt)).dtype, keepdims)

    def mean(self, a, axis=None, dtype=None, out=None, keepdims=False, **k):
        if not has_sym(a):
            return np.mean(a, axis=axis, dtype=dtype, keepdims=keepdims)
        a = sym(a)
        dt = np.mean(np.ones(1, a._ldt)).dtype
        r = reduce_with(a, axis, lambda els: _truediv(_fold(lambda p, q: p + q)(els), len(els)), dt, keepdims)
        if out is not None:
            out[...] = r
            return out
        return r

    def average(self, a, axis=None, weights=None, **k):
        if k:
            raise Unsupported("average arguments")
        if weights is not None:
            w = sym(weights)
            a = sym(a)
            if w.ndim == 1 and a.ndim > 1:
                shp = [1] * a.ndim
                shp[axis] = -1
                w = w.reshape(shp)
            return (a * w).sum(axis) / (w + a * 0).sum(axis)
        return self.mean(a, axis)

    def var(self, a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        if not has_sym(a):
            return np.var(a, axis=axis, ddof=ddof, keepdims=keepdims)
        a = sym(a)
        dt = np.var(np.ones(2, a._ldt)).dtype

        def f(els):
            n = len(els)
            m = _truediv(_fold(lambda p, q: p + q)(els), n)
            s = R0
            for e in els:
                d = to_cplx(e - m)
                s = s + d.re * d.re + d.im * d.im
            return s / (n - ddof)
        return reduce_with(a, axis, f, dt, keepdims)

    def std(self, a, axis=None, **k):
        return self.sqrt(self.var(a, axis, **k))

    def nanmean(self, a, axis=None, **k):
        if not has_sym(a):
            return np.nanmean(a, axis=axis, **k)
        a = sym(a)
        dt = np.mean(np.ones(1, a._ldt)).dtype

        def f(els):
            g = [e for e in els if not (hasattr(e, "isnan") and e.isnan())]
            if not g:
                return nonfinite("nan")
            return _truediv(_fold(lambda p, q: p + q)(g), len(g))
        return reduce_with(a, axis, f, dt)

    def nansum(self, a, axis=None, **k):
        a = sym(a)
        return reduce_with(a, axis, lambda els: _fold(lambda p, q: p + q)([0] + [e for e in els if not e.isnan()]), a._ldt)

    def min(self, a, axis=None, keepdims=False, out=None, **k):
        if not has_sym(a):
            return np.min(a, axis=axis, keepdims=keepdims)
        a = sym(a)
        return reduce_with(a, axis, _fold(T.smin), a._ldt, keepdims)

    def max(self, a, axis=None, keepdims=False, out=None, **k):
        if not has_sym(a):
            return np.max(a, axis=axis, keepdims=keepdims)
        a = sym(a)
        return reduce_with(a, axis, _fold(T.smax), a._ldt, keepdims)

    def nanmin(self, a, axis=None, keepdims=False, out=None, **k):
        a = sym(a)
        return reduce_with(a, axis, lambda els: _nonan(els, T.smin), a._ldt, keepdims)

    def nanmax(self, a, axis=None, keepdims=False, out=None, **k):
        a = sym(a)
        return reduce_with(a, axis, lambda els: _nonan(els, T.smax), a._ldt, keepdims)

    def ptp(self, a, axis=None):
        return self.max(a, axis) - self.min(a, axis)

    def any(self, a, axis=None, keepdims=False, out=None, **k):
        if not has_sym(a):
            return np.any(a, axis=axis)
        a = sym(a)
        return reduce_with(a, axis, lambda els: sor(*[_tb(e) for e in els]), np.dtype(bool), keepdims)

    def all(self, a, axis=None, keepdims=False, out=None, **k):
        if not has_sym(a):
            return np.all(a, axis=axis)
        a = sym(a)
        return reduce_with(a, axis, lambda els: sand(*[_tb(e) for e in els]), np.dtype(bool), keepdims)

    def cumsum(self, a, axis=None, dtype=None, out=None):
        if not has_sym(a):
            return np.cumsum(a, axis=axis, dtype=dtype)
        a = sym(a)
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        r = np.array(raw(np.moveaxis(a, axis, 0)))
        for i in range(1, len(r)):
            r[i] = r[i - 1] + r[i] if r.ndim > 1 else r[i - 1] + r[i]
        return np.moveaxis(SymArray(r, np.cumsum(np.zeros(1, a._ldt)).dtype), 0, axis)

    def diff(self, a, n=1, axis=-1, **k):
        if not has_sym(a) and not any(has_sym(x) for x in k.values()):
            return np.diff(a, n=n, axis=axis, **k)
        a = sym(a)
        for key in k:
            if key not in ("prepend", "append"):
                raise Unsupported("diff arguments")
        if k:
            end = [sym(k[key]) for key in ("prepend", "append") if key in k]
            if any(x.ndim != a.ndim and x.ndim for x in end):
                raise Unsupported("diff arguments")
            end = [x if x.ndim else self.full([1 if q == axis % a.ndim else m for q, m in enumerate(a.shape)], x[()], a._ldt) for x in end]
            parts = ([end[0]] if "prepend" in k else []) + [a] + ([end[-1]] if "append" in k else [])
            a = structural(np.concatenate, (parts,), {"axis": axis})
        for _ in range(n):
            b = np.moveaxis(a, axis, 0)
            a = np.moveaxis(b[1:] - b[:-1], 0, axis)
        return a

    def dot(self, a, b, out=None):
        if not has_sym(a) and not has_sym(b):
            return np.dot(a, b)
        a, b = sym(a), sym(b)
        if a.ndim == 1 and b.ndim == 1:
            return (a * b).sum()
        if a.ndim == 2 and b.ndim == 1:
            return (a * b).sum(1)
        if a.ndim == 2 and b.ndim == 2:
            return (a[:, :, None] * b[None]).sum(1)
        raise Unsupported("dot")

    matmul = dot

    def vdot(self, a, b):
        return (self.conj(sym(a).reshape(-1)) * sym(b).reshape(-1)).sum()

    def convolve(self, a, v, mode="full"):
        if not has_sym(a) and not has_sym(v):
            return np.convolve(a, v, mode)
        a, v = sym(a), sym(v)
        if len(v) > len(a):
            a, v = v, a
        n, m = len(a), len(v)
        dt = np.result_type(a._ldt, v._ldt)
        full = [0] * (n + m - 1)
        ra, rv = raw(a), raw(v)
        for i in range(n):
            for j in range(m):
                full[i + j] = ra[i] * rv[j] + full[i + j]
        if mode == "same":
            s = (m - 1) // 2
            full = full[s:s + n]
        elif mode == "valid":
            full = full[m - 1:n]
        return sym(full, dt)

    # ---- selection
    def where(self, c, a=None, b=None):
        if a is None:
            return self.nonzero(c)
        if not has_sym(c) and not has_sym(a) and not has_sym(b):
            return np.where(c, a, b)
        dt = np.result_type(_dummy(a), _dummy(b))
        return wrap(elementwise(lambda p, q, r: ite(_tb(p), q, r), [raw(c) if isinstance(c, np.ndarray) else c, cast_array(_obj(a), dt), cast_array(_obj(b), dt)], dt), dt)

    def nonzero(self, a):
        if not has_sym(a):
            return np.nonzero(a)
        r = raw(sym(a))
        return np.nonzero(np.array([bool(_tb(e)) for e in r.flat], bool).reshape(r.shape))

    def argwhere(self, a):
        return np.transpose(self.nonzero(a))

    def flatnonzero(self, a):
        return self.nonzero(sym(a).reshape(-1))[0]

    def count_nonzero(self, a, axis=None):
        if not has_sym(a):
            return np.count_nonzero(a, axis)
        return self.sum(SymArray(elementwise(lambda e: ite(_tb(e), 1, 0), [raw(sym(a))]), np.int64), axis)

    def clip(self, a, lo=None, hi=None, out=None, a_min=None, a_max=None, **k):
        if k:
            raise Unsupported("clip arguments")
        lo = a_min if lo is None else lo
        hi = a_max if hi is None else hi
        if not has_sym(a) and not has_sym(lo) and not has_sym(hi):
            return np.clip(a, lo, hi, out=out)
        r = a if isinstance(a, SymArray) else sym(a)
        if lo is not None:
            r = apply_ufunc(np.maximum, "__call__", (r, lo), {})
        if hi is not None:
            r = apply_ufunc(np.minimum, "__call__", (r, hi), {})
        if out is not None:
            out[...] = r
            return out
        return r

    def sort(self, a, axis=-1, **k):
        if not has_sym(a):
            return np.sort(a, axis=axis, **k)
        a = sym(a).copy()
        if axis is None:
            a = a.reshape(-1)
            axis = -1
        b = raw(np.moveaxis(a, axis, 0))
        n = b.shape[0]
        for i in range(n):
            for j in range(n - 1 - i):
                x, y = b[j], b[j + 1]
                if b.ndim == 1:
                    g = y < x
                    b[j], b[j + 1] = ite(g, y, x), ite(g, x, y)
                else:
                    x, y = x.copy(), y.copy()
                    for q in np.ndindex(*x.shape):
                        g = y[q] < x[q]
                        b[j][q], b[j + 1][q] = ite(g, y[q], x[q]), ite(g, x[q], y[q])
        return a

    def median(self, a, axis=None, **k):
        if not has_sym(a):
            return np.median(a, axis=axis, **k)
        a = sym(a)
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        if not set(k) <= {"overwrite_input"}:
            raise Unsupported("median arguments")
        s = np.moveaxis(self.sort(a, axis), axis, 0)
        n = len(s)
        return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2

    def argsort(self, a, axis=-1, **k):
        if not has_sym(a):
            return np.argsort(a, axis=axis, **k)
        r = raw(sym(a))
        if r.ndim != 1:
            raise Unsupported("argsort of nd data")
        idx = []
        for i in range(len(r)):          # stable insertion sort, forks on comparisons
            p = len(idx)
            while p > 0 and bool(r[i] < r[idx[p - 1]]):
                p -= 1
            idx.insert(p, i)
        return np.array(idx, np.int64)

    def unique(self, a, *x, **k):
        if not has_sym(a):
            return np.unique(a, *x, **k)
        r = [e for e in raw(sym(a)).flat]
        return np.unique(np.array([int(e) for e in r]), *x, **k)

    def isclose(self, a, b, *x, **k):
        if not has_sym(a) and not has_sym(b):
            return np.isclose(a, b, *x, **k)
        return sym(a) == sym(b)

    def allclose(self, a, b, *x, **k):
        if not has_sym(a) and not has_sym(b):
            return np.allclose(a, b, *x, **k)
        return bool(self.all(sym(a) == b))

    def array_equal(self, a, b, **k):
        if not has_sym(a) and not has_sym(b):
            return np.array_equal(a, b, **k)
        a, b = sym(a), sym(b)
        return a.shape == b.shape and bool(self.all(a == b))

    def round(self, a, decimals=0, out=None):
        if not has_sym(a):
            return np.round(a, decimals, out)
        if decimals:
            raise Unsupported("round with decimals")
        return apply_ufunc(np.rint, "__call__", (a,), {"out": out} if out is not None else {})

    around = round_ = round

    def angle(self, z, deg=False):
        return self.arctan2(z.imag, z.real)

    def linspace(self, *a, **k):
        return np.linspace(*a, **k)

    def may_share_memory(self, a, b, *x):
        return np.may_share_memory(raw(a), raw(b))

    shares_memory = may_share_memory

    def copyto(self, dst, src, casting="same_kind", where=True):
        if where is True:
            dst[...] = src
        else:
            dst[...] = self.where(where, src, dst)

    def putmask(self, a, m, v):
        a[...] = self.where(m, v, a)

    def ndim(self, a):
        if is_sym(a):
            return 0
        return np.ndim(_obj(a) if has_sym(a) else a)

    def shape(self, a):
        if is_sym(a):
            return ()
        return np.shape(_obj(a) if has_sym(a) else a)

    def isscalar(self, a):
        return is_sym(a) or np.isscalar(a)


def _arrayish(x):
    return isinstance(x, SymArray) or (isinstance(x, (list, tuple)) and any(_arrayish(e) for e in x))


def _shape(shape):
    if isinstance(shape, SymArray):
        shape = [shape[i] for i in range(len(shape))] if shape.ndim else (int(shape),)
    if isinstance(shape, (list, tuple, np.ndarray)):
        return tuple(int(s) for s in shape)
    return (int(shape),)


for _n, _i in (("sum", 0), ("prod", 1), ("mean", None), ("var", None), ("std", None), ("min", None), ("max", None), ("any", False),
               ("all", True), ("nanmean", None), ("nansum", 0), ("nanmin", None), ("nanmax", None), ("cumsum", None)):
    _reduction(_n, _i)
SymNP.amin, SymNP.amax = SymNP.min, SymNP.max

symnp = SymNP()


class _FFTNS:
    """np.fft / scipy.fftpack / pyfftw: replaced by contract"""

    def __getattr__(self, name):
        v = getattr(np.fft, name)

        def f(*a, **k):
            if any(has_sym(x) or isinstance(x, SpectrumBase) for x in a):
                from . import fftstub
                g = getattr(fftstub, name, None)
                if g is None:
                    raise Unsupported("fft.%s" % name)
                return g(*a, **k)
            return v(*a, **k)
        return f

    def fftshift(self, x, axes=None):
        if has_sym(x):
            x = sym(x)
            ax = _axes(axes, x.ndim)
            return structural(np.roll, (x, [x.shape[a] // 2 for a in ax], list(ax)), {})
        return np.fft.fftshift(x, axes)

    def ifftshift(self, x, axes=None):
        if has_sym(x):
            x = sym(x)
            ax = _axes(axes, x.ndim)
            return structural(np.roll, (x, [-(x.shape[a] // 2) for a in ax], list(ax)), {})
        return np.fft.ifftshift(x, axes)


def drawn():
    """random numbers drawn so far on this path: [(kind, value, parameter)]"""
    return T.ctx().memo.setdefault(("drawn",), [])


class _RandomNS:
    """np.random.*: nondeterministic inputs constrained only by their documented range"""

    def __getattr__(self, name):
        return getattr(np.random, name)

    def _draw(self, kind, lo=None, hi=None):
        c = T.ctx()
        n = next(c.fresh)
        nm = "%s!%d" % (kind, n)
        if kind in ("rand", "randn", "normal"):
            a = c.atom(nm)
            v = c.atoms[a][1]
            if kind == "rand":
                c.solver.add(v >= 0, v < 1)
                c.pc.extend([v >= 0, v < 1])
            b = c.memo.get(("draw bound",))
            if b and kind != "rand":
                c.assume(z3.And(v < b, v > -b))
            c.inputs.append(("real", nm, a))
            r = SReal({((a, 1),): Fraction(1)})
            drawn().append((kind, r, None))
            return r
        if hi is not None and bool(lo >= hi):
            raise ValueError("low >= high")
        z = z3.Int(nm)
        if kind == "poisson":
            if bool(lo < 0):
                raise ValueError("lam < 0")
            c.assume(z >= 0)
        else:
            c.assume(z >= T.zint(lo))
            c.assume(z < T.zint(hi))
        c.inputs.append(("int", nm, z))
        drawn().append((kind, SInt(z), lo))
        return SInt(z)

    def _arr(self, kind, shape, dt, *a):
        if shape is None or shape == ():
            return self._draw(kind, *a)
        shape = _shape(shape)
        o = np.empty(shape, object)
        for q in np.ndindex(*shape):
            o[q] = self._draw(kind, *a)
        return SymArray(o, dt)

    def rand(self, *shape):
        return self._arr("rand", shape or None, np.float64)

    def random(self, size=None):
        return self._arr("rand", size, np.float64)

    random_sample = random

    def randn(self, *shape):
        return self._arr("randn", shape or None, np.float64)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self._arr("randint", size, np.int64, low, high)

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self._arr("rand", size, np.float64)

    def normal(self, loc=0., scale=1., size=None):
        return loc + scale * self._arr("randn", size, np.float64)

    standard_normal = random

    def poisson(self, lam=1., size=None):
        if isinstance(lam, np.ndarray):
            raise Unsupported("poisson with an array")
        return self._arr("poisson", size, np.int64, lam)

    def seed(self, *a):
        pass

    def permutation(self, n):
        raise Unsupported("permutation")


SymNP.fft = _FFTNS()
SymNP.random = _RandomNS()


# ------------------------------------------------------------------ operators
def _install_ops():
    ops = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "truediv": np.true_divide, "floordiv": np.floor_divide,
           "mod": np.remainder, "pow": np.power, "and": np.bitwise_and, "or": np.bitwise_or, "xor": np.bitwise_xor,
           "lshift": np.left_shift, "rshift": np.right_shift}
    cmps = {"lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal, "eq": np.equal, "ne": np.not_equal}
    swap = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}

    def scal(cls, nm, uf, rev):
        old = cls.__dict__.get(nm) or getattr(cls, nm, None)
        if old is getattr(object, nm, None) and nm not in ("__eq__", "__ne__"):
            old = None

        def f(self, o):
            if isinstance(o, np.ndarray):
                return apply_ufunc(uf, "__call__", (o, self) if rev else (self, o), {})
            if old is None:
                return NotImplemented
            return old(self, o)
        setattr(cls, nm, f)

    def arr(nm, uf, rev):
        def f(self, o):
            if isinstance(o, SpectrumBase) or o is None or isinstance(o, str):
                if nm == "__eq__" and not isinstance(o, SpectrumBase):
                    return False
                if nm == "__ne__" and not isinstance(o, SpectrumBase):
                    return True
                return NotImplemented
            return apply_ufunc(uf, "__call__", (o, self) if rev else (self, o), {})
        setattr(SymArray, nm, f)

    def iarr(nm, uf):
        def f(self, o):
            return apply_ufunc(uf, "__call__", (self, o), {"out": self})
        setattr(SymArray, nm, f)

    for k, uf in ops.items():
        for cls in (SReal, SCplx, SInt, SBool):
            scal(cls, "__%s__" % k, uf, False)
            scal(cls, "__r%s__" % k, uf, True)
        arr("__%s__" % k, uf, False)
        arr("__r%s__" % k, uf, True)
        iarr("__i%s__" % k, uf)
    for k, uf in cmps.items():
        for cls in (SReal, SCplx, SInt, SBool):
            if k in ("eq", "ne") or hasattr(cls, "__%s__" % k):
                scal(cls, "__%s__" % k, uf, False)
            cls.__hash__ = None
        arr("__%s__" % k, uf, False)
    SymArray.__hash__ = None
    SymArray.__neg__ = lambda self: apply_ufunc(np.negative, "__call__", (self,), {})
    SymArray.__pos__ = lambda self: self.copy()
    SymArray.__abs__ = lambda self: apply_ufunc(np.absolute, "__call__", (self,), {})
    SymArray.__invert__ = lambda self: apply_ufunc(np.invert, "__call__", (self,), {})
    SymArray.__matmul__ = lambda self, o: symnp.dot(self, o)


_install_ops()


from . import npmore  # noqa: E402  (adds to SymNP)
