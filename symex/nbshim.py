"""Stand-in for the `numba` module while cddm is imported for symbolic execution: decorators keep
the python function; ufunc/gufunc semantics (broadcasting, loop selection by the declared
signatures, casting, uninitialised outputs) are reproduced around the interpreter."""
import sys, types, re
import numpy as np
from . import terms as T
from .terms import *
from . import interp
from .arr import (SymArray, PartView, has_sym, dt_of, infer_dt, sym, cast_array, cast_scalar, asobj, raw, wrap,
                  junk_array, _py, symnp, written)


class NbType:
    def __init__(self, name, dt, ndim=0):
        self.name, self.dt, self.ndim = name, np.dtype(dt) if dt is not None else None, ndim

    def __getitem__(self, idx):
        n = len(idx) if isinstance(idx, tuple) else 1
        return NbType(self.name, self.dt, n)

    def __call__(self, *args):
        if args and all(isinstance(a, NbType) for a in args):
            return Sig(self, args)
        if not args:
            return Sig(self, ())
        x = args[0]
        if is_sym(x):
            return cast_scalar(x, self.dt)
        if isinstance(x, np.ndarray):
            return x.astype(self.dt)
        return self.dt.type(x)

    def __repr__(self):
        return self.name + ("[%s]" % ",".join(":" * self.ndim) if self.ndim else "")


class Sig:
    def __init__(self, ret, args):
        self.ret, self.args = ret, tuple(args)


def _sigs(s):
    if s is None:
        return None
    if isinstance(s, (Sig, tuple)):
        s = [s]
    out = []
    for e in s:
        if isinstance(e, str):
            return None
        out.append(e if isinstance(e, Sig) else Sig(None, e))
    return out


class Dispatcher:
    """numba.jit"""

    def __init__(self, fn, sigs=None, opts=None):
        self.py_func = fn
        self.sigs = sigs
        self.opts = opts or {}
        self.__name__ = fn.__name__
        self.__doc__ = fn.__doc__
        self.__module__ = fn.__module__
        self.__wrapped__ = fn

    def __call__(self, *args, **kw):
        if T.ctx() is None:
            return self.py_func(*args, **kw)
        args = list(args)
        if self.sigs and not kw:
            sg = self._pick(args)
            for i, (a, t) in enumerate(zip(args, sg.args)):
                if not isinstance(a, (np.ndarray, interp.LazyRow)) and t.ndim == 0 and t.dt is not None and (is_sym(a) or isinstance(a, (int, float, complex, np.number))):
                    args[i] = cast_scalar(_py(a), t.dt) if is_sym(a) else t.dt.type(a).item()
            r = interp.call(self.py_func, args)
            if sg.ret is not None and sg.ret.dt is not None and sg.ret.ndim == 0 and r is not None:
                r = cast_scalar(r, sg.ret.dt)
            return r
        return interp.call(self.py_func, args, kw)

    def _pick(self, args):
        best = None
        scores = []
        for sg in self.sigs:
            if len(sg.args) != len(args):
                continue
            ok = True
            for a, t in zip(args, sg.args):
                if isinstance(a, (np.ndarray, interp.LazyRow)):
                    if t.ndim != a.ndim or (t.dt is not None and dt_of2(a) != t.dt):
                        ok = False
                else:
                    if t.ndim != 0:
                        ok = False
            if ok:
                # exact matches before safe conversions before the others
                k = [_distance(a, t) for a, t in zip(args, sg.args) if t.ndim == 0 and t.dt is not None]
                scores.append(((k.count(2), k.count(1)), len(scores), sg))
        if scores:
            return min(scores, key=lambda s: s[:2])[2]
        raise TypeError("No matching definition for argument type(s) of %s" % self.__name__)

    def __get__(self, obj, cls):
        return self if obj is None else types.MethodType(self, obj)


def _distance(a, t):
    if hasattr(a, "dt"):
        d = a.dt
    elif hasattr(a, "dtype"):
        d = a.dtype
    else:
        d = np.dtype("?" if isinstance(a, bool) else "i8" if isinstance(a, int) else "f8" if isinstance(a, float) else "c16" if isinstance(a, complex) else "O")
    return 0 if d == t.dt else 1 if np.can_cast(d, t.dt, "safe") else 2


def dt_of2(a):
    return a.dtype


def jit(signature_or_function=None, **opts):
    if callable(signature_or_function) and not isinstance(signature_or_function, (Sig, NbType)):
        return Dispatcher(signature_or_function)
    s = _sigs(signature_or_function)

    def deco(fn):
        return Dispatcher(fn, s, opts)
    return deco


def _in_dt(x):
    if isinstance(x, (SymArray, np.ndarray, np.generic)):
        return x.dtype
    if isinstance(x, (SReal, SCplx, SInt, SBool)):
        return x.dtype
    if isinstance(x, (list, tuple)):
        return infer_dt(x)
    return None


def _castable(x, dt):
    d = _in_dt(x)
    if d is None or (isinstance(x, np.ndarray) and x.ndim == 0 and not isinstance(x, SymArray)):
        return np.can_cast(np.min_scalar_type(x), dt, "safe")      # value based for python scalars
    return np.can_cast(d, dt, "safe")


class UFunc:
    """numba.vectorize"""

    def __init__(self, fn, sigs):
        self.py_func = fn
        self.sigs = sigs
        self.__name__ = fn.__name__
        self.__doc__ = fn.__doc__
        self.__module__ = fn.__module__
        self.nin = fn.__code__.co_argcount
        self.nout = 1
        self.nargs = self.nin + 1

    def __call__(self, *args, out=None, where=True, **kw):
        if kw.get("dtype") is None:
            kw.pop("dtype", None)
        kw.pop("casting", None)
        if kw or where is not True:
            raise Unsupported("ufunc keywords %s" % list(kw))
        if isinstance(out, tuple):
            out = out[0]
        if len(args) == self.nin + 1:
            out = args[-1]
            args = args[:-1]
        if len(args) != self.nin:
            raise TypeError("%s() takes from %d to %d positional arguments but %d were given" % (self.__name__, self.nin, self.nin + 1, len(args)))
        args = [interp._mat(a) for a in args]
        args = [np.asarray(a) if isinstance(a, (list, tuple)) and not has_sym(a) else (sym(a) if isinstance(a, (list, tuple)) else a) for a in args]
        if self.sigs:
            for sg in self.sigs:
                if all(_castable(a, t.dt) for a, t in zip(args, sg.args)):
                    break
            else:
                raise TypeError("ufunc '%s' not supported for the input types, and the inputs could not be safely coerced to any supported types according to the casting rule ''safe''" % self.__name__)
            in_dts = [t.dt for t in sg.args]
            odt = sg.ret.dt
        else:
            in_dts = [_in_dt(a) or np.asarray(a).dtype for a in args]
            odt = None
        if out is not None and odt is not None and not np.can_cast(odt, out.dtype, "same_kind"):
            raise TypeError("Cannot cast ufunc '%s' output from %r to %r" % (self.__name__, odt, out.dtype))
        symbolic = has_sym(list(args)) or has_sym(out)
        if T.ctx() is None and not symbolic:
            r = np.vectorize(self.py_func, otypes=[odt] if odt is not None else None)(*args)
            if out is not None:
                out[...] = r
                return out
            return r if r.ndim else r[()]
        arrs = [asobj(a) for a in args]
        shp = np.broadcast_shapes(*[a.shape for a in arrs])
        its = [np.broadcast_to(a, shp).ravel() for a in arrs]
        res = np.empty(shp, object)
        f = res.reshape(-1)
        for i in range(res.size):
            xs = []
            for t, d in zip(its, in_dts):
                x = _py(t[i])
                xs.append(cast_scalar(x, d) if d.kind in "fc" and symbolic else x)
            r = interp.call(self.py_func, xs)
            f[i] = r
        if odt is None:
            odt = infer_dt(list(f)) if res.size else np.dtype(float)
        if not symbolic and not any(is_sym(x) for x in f):
            r = res.astype(odt)
            if out is not None:
                out[...] = r
                return out
            return r if r.ndim else r[()]
        res = cast_array(res, odt)
        if out is not None:
            if np.broadcast_shapes(shp, out.shape) != out.shape:
                raise ValueError("non-broadcastable output operand with shape %s doesn't match the broadcast shape %s" % (out.shape, shp))
            out[...] = res if res.ndim else res[()]
            return out
        return wrap(res, odt)

    def __get__(self, obj, cls):
        return self


def vectorize(sigs=None, **opts):
    if callable(sigs) and not isinstance(sigs, (Sig, NbType)):
        return UFunc(sigs, None)
    s = _sigs(sigs)

    def deco(fn):
        return UFunc(fn, s)
    return deco


def _layout(s):
    a, b = s.replace(" ", "").split("->")
    f = lambda x: [tuple(p for p in g.split(",") if p) for g in re.findall(r"\(([^)]*)\)", x)]
    return f(a), f(b)


class GUFunc:
    """numba.guvectorize"""

    def __init__(self, fn, sigs, layout, opts):
        self.py_func = fn
        self.sigs = sigs
        self.ins, self.outs = _layout(layout)
        self.__name__ = fn.__name__
        self.__doc__ = fn.__doc__
        self.__module__ = fn.__module__
        self.nin, self.nout = len(self.ins), len(self.outs)
        self.opts = opts

    def __call__(self, *args, out=None, **kw):
        if kw:
            raise Unsupported("gufunc keywords %s" % list(kw))
        nin, nout = self.nin, self.nout
        if T.ctx() is None:
            raise Unsupported("gufunc called outside of a run")
        args = list(args)
        outs = [None] * nout
        if len(args) > nin + nout or len(args) < nin:
            raise TypeError("%s() takes from %d to %d positional arguments but %d were given" % (self.__name__, nin, nin + nout, len(args)))
        for i, o in enumerate(args[nin:]):
            outs[i] = o
        if out is not None:
            if isinstance(out, tuple):
                outs = list(out)
            else:
                outs[0] = out
        ins = []
        for a in args[:nin]:
            a = interp._mat(a)
            if hasattr(a, "spectrum"):
                ins.append(a)
            elif isinstance(a, np.ndarray):
                ins.append(a)
            else:
                ins.append(sym(a) if has_sym(a) else np.asarray(a))
        sg = None
        for s in self.sigs:
            ok = all((hasattr(a, "spectrum") and t.dt.kind == "c") or (not hasattr(a, "spectrum") and _castable(a, t.dt)) for a, t in zip(ins, s.args))
            ok = ok and all(o is None or np.can_cast(t.dt, o.dtype, "same_kind") for o, t in zip(outs, s.args[nin:]))
            if ok:
                sg = s
                break
        if sg is None:
            raise TypeError("ufunc '%s' not supported for the input types, and the inputs could not be safely coerced to any supported types according to the casting rule ''safe''" % self.__name__)
        # core dimensions
        dims = {}
        loops = []
        for a, core in zip(ins, self.ins):
            nd = a.ndim
            if nd < len(core):
                raise ValueError("%s: Input operand does not have enough dimensions (has %d, gufunc core with signature requires %d)" % (self.__name__, nd, len(core)))
            for d, n in zip(core, a.shape[nd - len(core):]):
                if dims.setdefault(d, n) != n:
                    raise ValueError("%s: Input operand has a mismatch in its core dimension, with gufunc signature (size %d is different from %d)" % (self.__name__, n, dims[d]))
            loops.append(a.shape[:nd - len(core)])
        for o, core in zip(outs, self.outs):
            if o is not None:
                nd = o.ndim
                if nd < len(core):
                    raise ValueError("%s: Output operand does not have enough dimensions" % self.__name__)
                for d, n in zip(core, o.shape[nd - len(core):]):
                    if dims.setdefault(d, n) != n:
                        raise ValueError("%s: Output operand has a mismatch in its core dimension (size %d is different from %d)" % (self.__name__, n, dims[d]))
        loop = np.broadcast_shapes(*loops) if loops else ()
        for o, core in zip(outs, self.outs):
            if o is not None:
                ol = o.shape[:o.ndim - len(core)]
                full = np.broadcast_shapes(loop, ol)
                if full != ol:
                    raise ValueError("non-broadcastable output operand")
                loop = full
        res = []
        work = []
        for o, core, t in zip(outs, self.outs, sg.args[nin:]):
            if o is None:
                for d in core:
                    if d not in dims:
                        raise ValueError("unknown output core dimension")
                o = junk_array(loop + tuple(dims[d] for d in core), t.dt)
            elif not isinstance(o, SymArray):
                raise Unsupported("gufunc output in a concrete array")
            res.append(o)
            work.append(o if o.dtype == t.dt else o.astype(t.dt))
        cins = []
        for a, t, core in zip(ins, sg.args, self.ins):
            if hasattr(a, "spectrum"):
                cins.append(a)
                continue
            if isinstance(a, SymArray):
                # numpy works on a copy of an input that overlaps an output
                ov = any(np.may_share_memory(raw(a), raw(o)) for o in res)
                a = a if a.dtype == t.dt else a.astype(t.dt)
                if ov:
                    a = a.copy()
            else:
                a = sym(a, t.dt)
            cins.append(a)
        for q in np.ndindex(*loop):
            vals = []
            for a, core, t in zip(cins, self.ins, sg.args):
                if hasattr(a, "spectrum"):
                    vals.append(a)
                    continue
                nl = a.ndim - len(core)
                off = len(loop) - nl
                idx = tuple(0 if a.shape[k] == 1 else q[off + k] for k in range(nl))
                v = a[idx] if idx else a
                if not core:
                    s = v if not isinstance(v, np.ndarray) else v[()]
                    if t.ndim:
                        o = np.empty(1, object)
                        o[0] = _py(s)
                        v = SymArray(o, t.dt)
                    else:
                        v = s
                vals.append(v)
            for o, core, t in zip(work, self.outs, sg.args[nin:]):
                if core:
                    vals.append(o[q] if q else o)
                else:
                    vals.append(o[q[:-1]][q[-1]:q[-1] + 1] if q else o.reshape(1))
            interp.call(self.py_func, vals)
        for o, w in zip(res, work):
            if o is not w:
                o[...] = w
        if nout == 1:
            r = res[0]
            return r if r.ndim else r[()]
        return tuple(res)

    def __get__(self, obj, cls):
        return self


def guvectorize(sigs, layout, **opts):
    s = _sigs(sigs)

    def deco(fn):
        return GUFunc(fn, s, layout, opts)
    return deco


def make_module():
    m = types.ModuleType("numba")
    m.__version__ = "0.99.0"
    for n, d in dict(float64="f8", float32="f4", complex128="c16", complex64="c8", int64="i8", int32="i4", int16="i2",
                     int8="i1", uint64="u8", uint32="u4", uint16="u2", uint8="u1", boolean="?", double="f8", int_="i8",
                     intp="i8", float_="f4").items():
        setattr(m, n, NbType(n, d))
    m.void = NbType("void", None)
    m.f8, m.c16, m.i8, m.b1 = m.float64, m.complex128, m.int64, m.boolean
    m.jit = m.njit = jit
    m.vectorize = vectorize
    m.guvectorize = guvectorize
    m.prange = range
    threads = [1]

    def set_num_threads(n):
        if n < 1 or n > 8:
            raise ValueError("The number of threads must be between 1 and 8")
        threads[0] = n
    m.set_num_threads = set_num_threads
    m.get_num_threads = lambda: threads[0]
    m.get_numba_threads = lambda: 1
    m.objmode = None
    m.types = m
    cfg = types.ModuleType("numba.config")
    m.config = cfg
    return m
