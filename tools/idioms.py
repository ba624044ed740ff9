"""Compares the symbolic numpy with numpy: expressions evaluated on symbolic arrays that the solver pins to given
values, against numpy on these values. (exp, log, cos, sin, arctan2, angle are uninterpreted: listed as WRONG.)"""
import sys, os
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ["HOME"]="/tmp/idh"; os.makedirs("/tmp/idh",exist_ok=True)
import numpy as np, warnings; warnings.simplefilter("ignore")
from symex import loader
cd = loader.load_symbolic()
from symex import terms as T, arr, harness
np_ = arr.symnp
rs=np.random.RandomState(0)
E = '''np.sum(x,where=x>0)
np.sum(x,axis=0,where=np.array([True,False,True])[:,None])
np.sum(x,axis=1,initial=3.)
x.sum(1,keepdims=True)
x.sum(axis=(0,1))
np.mean(x,axis=0,where=x>-1.4)
np.max(x,axis=1,initial=1.)
np.max(x,axis=1,initial=-9.,where=x>0)
np.any(x>1,axis=1,where=x<0)
np.all(x>-3,axis=0,keepdims=True)
(x>1).any()
(x>1).all(axis=0)
x.max()
x.min(0)
x.mean(-1,keepdims=True)
x.var(0)
x.std(axis=1,ddof=1)
np.std(x,axis=0,keepdims=True)
np.conjugate(c,out=c.copy(),where=np.array([True,False,True])[:,None])
np.add.reduce(x,axis=0,where=x>0)
np.maximum.reduce(x,axis=1,initial=0.5)
np.diff(x,axis=1,prepend=0)
np.diff(x,axis=0,append=x[:1])
np.sum(x,0,out=np.zeros(4))
np.nanmax(x,axis=0)
np.nanmin(x)
np.cumsum(x,axis=1,out=np.zeros((3,4)))
np.sum([x[0],x[1]],axis=0)
sum([x[0],x[1]])
np.full_like(x,2.,shape=(2,))
np.zeros_like(x,shape=())
np.block([[x],[x]])
np.block([x,x])
np.einsum("ij,ij->i",x,x)
np.add.at(z,[0,0,1],x[0,:3])
np.maximum.accumulate(x,axis=0)
np.add.accumulate(x,axis=1)
np.add.reduce(x,axis=1)
np.multiply.reduce(x,axis=0)
np.subtract.outer(x[0],x[1])
np.cumsum(x,axis=-1)
np.cumsum(x)
np.diff(x,axis=0)
np.roll(x,1,axis=1)
np.flip(x,axis=0)
np.pad(x,((0,1),(0,2)))
np.pad(x,[(0,0),(1,1)],mode="constant")
np.pad(x,1,mode="edge")
np.pad(x,1,mode="wrap")
np.where(x>0,x,-x)
np.where(x>0,1,0)
np.clip(x,0,1)
x.clip(0,1)
np.take(x,[0,2],axis=1)
x.take([0,1],axis=0)
np.put(z,[0,1],x[0,:2])
np.tensordot(x,x,axes=([1],[1]))
np.dot(x,x.T)
x@x.T
np.inner(x[0],x[1])
np.vdot(c[0],c[1])
np.outer(x[0],x[1])
np.matmul(x,x.T)
np.split(x,2,axis=1)[1]
np.array_split(x,3,axis=1)[0]
np.stack([x,x],-1)
np.concatenate([x,x],1)
np.vstack([x[0],x[1]])
np.hstack([x,x])
np.dstack([x,x])
np.column_stack([x[0],x[1]])
np.tile(x,(2,1))
np.repeat(x,2,axis=0)
np.broadcast_to(x[0],(3,4))
np.broadcast_arrays(x,x[0])[1]
np.expand_dims(x,0)
np.squeeze(x[None])
np.moveaxis(x,0,-1)
np.rollaxis(x,1)
np.swapaxes(x,0,1)
np.transpose(x)
np.ravel(x)
x.flatten()
np.reshape(x,(4,-1))
x.reshape(-1)
np.mean(x,axis=0)
x.mean(axis=(0,1),keepdims=True)
np.average(x,axis=0)
np.average(x,axis=0,weights=[1,2,3])
np.nanmean(x,axis=0)
np.nansum(x)
np.var(x,axis=0)
x.var()
np.std(x)**2
np.sum(x,axis=(0,1))
x.sum(-1)
sum(x)
np.prod(x[0])
np.max(x)
x.max(axis=0)
np.min(x,axis=1)
np.ptp(x,axis=0)
np.maximum(x,0)
np.minimum(x,x[::-1])
np.fmax(x,0)
np.abs(x)
np.abs(c)**2
np.square(x)
np.power(x,2)
x**2
x**3
np.conj(c)
c.conj()
np.conjugate(c)
c.real
np.real(c)
np.imag(c)
c.imag**2+c.real**2
np.multiply(c,np.conj(c)).real
np.absolute(c)**2
np.sign(x)
np.floor(x)
np.ceil(x)
np.trunc(x)
np.rint(x)
np.round(x)
x.astype(int)
x.astype("complex128")
c.astype("complex64")
np.floor_divide(i,2)
i//2
i%3
np.mod(i,3)
np.remainder(i,3)
divmod(i,3)[0]
np.divmod(i,3)[1]
np.count_nonzero(x>0)
(x>0).sum()
np.any(x>0)
np.all(x>0,axis=0)
np.logical_and(x>0,x<1)
np.logical_or(x>0,x<1)
np.logical_not(x>0)
~(x>0)
(x>0)&(x<1)
(x>0)|(x<1)
np.bincount(i,minlength=6)
np.bincount(i,weights=x[0],minlength=6)
np.unique(i)
np.sort(i)
np.sort(x[0])
np.argsort(x[0])
np.argmax(x[0])
np.argmin(x,axis=1)
np.argmax(i)
np.searchsorted([0.,1.,2.],x[0])
np.digitize(x[0],[0.,1.])
np.interp(x[0],[0.,1.],[2.,5.])
np.nonzero(x[0]>0)[0]
np.flatnonzero(x[0]>0)
np.argwhere(x>0)
x[x>0]
np.extract(x>0,x)
np.compress([True,False,True],x,axis=0)
np.select([x>1,x>0],[x,-x],0)
np.choose([0,1,0,1],[x[0],x[1]])
np.piecewise(x,[x<0,x>=0],[lambda v:-v,lambda v:v])
np.isnan(x)
np.isfinite(x)
np.nan_to_num(x)
np.isclose(x,x)
np.allclose(x,x)
np.array_equal(x,x)
np.convolve(x[0],[1,2])
np.correlate(x[0],[1,2])
np.convolve(x[0],x[1])
np.full((2,),x[0,0])
np.full_like(x,2)
np.zeros_like(x)+x
np.ones_like(x)*x
np.empty_like(x).shape
np.copy(x)
np.array(x,copy=True)
np.array([x[0],x[1]])
np.array([x[0,0],x[0,1]])
np.asarray(x)[...,0]
np.asanyarray(x)
np.ascontiguousarray(x)
np.atleast_2d(x[0])
np.linspace(0,1,3)*x[0,0]
np.arange(4)*x[0]
np.meshgrid(x[0],x[1])[0]
np.ix_([0,1],[1,2])
x[np.ix_([0,1],[1,2])]
np.triu(x)
np.tril(x[:, :3])
np.diag(x[:, :3])
np.trace(x[:, :3])
np.eye(3)@x
np.kron(x[0],[1,2])
np.insert(x[0],0,0.)
np.delete(x[0],1)
np.append(x[0],x[1])
np.gradient(x[0])
np.trapz(x[0]) if hasattr(np,"trapz") else 0
np.hypot(c.real,c.imag)**2
np.sqrt(x*x+1)
np.exp(x)
np.log(x*x+1)
np.cos(x)
np.sin(x)**2
np.arctan2(x,x+5)
np.angle(c)
np.exp(1j*x)
np.copyto(z,x[0])
np.putmask(z,z>0,x[0])
np.place(z,[True,False,False,True],[7.,8.])
np.multiply(x,2,out=w)
np.add(x,x,w)
np.subtract(x,1,out=w,where=x>0)
np.divide(x,2,where=x>0,out=w)
np.true_divide(x,2)
np.reciprocal(x+10)
np.negative(x)
-x
1/(x+10)
x/(x+10)
np.apply_along_axis(lambda v:v.sum(),1,x)
np.vectorize(lambda v:v*2)(x)
np.fromiter((v for v in x[0]),dtype=float)
np.lib.stride_tricks.sliding_window_view(x[0],2)
np.lib.stride_tricks.as_strided(x[0],(2,2),(x.strides[1],x.strides[1]))
np.ndim(x), np.shape(x), np.size(x)
np.result_type(x,c)
np.iscomplexobj(c)
np.isrealobj(x)
np.isscalar(x[0,0])
np.fabs(x)
np.nanmax(x)
np.median(x[0,:3])
np.percentile(x[0],50)
np.cross(x[0,:3],x[1,:3])
np.block([[x],[x]])
np.require(x,requirements="C")
np.resize(x,(2,2))
x.T.copy()
x.transpose(1,0)
x.swapaxes(0,1)
x.ravel(order="F")
x.repeat(2)
x.squeeze()
x.dot(x.T)
x.cumsum()
x.item(0)
x[0].tolist()
list(x.flat)
x.flat[3]
len(x)
np.ndindex(x.shape)
[v for v in np.nditer(np.arange(3))]
[a for a in np.ndenumerate(x)][0][1]
float(i[0])
int(i[0])
max(x[0]), min(x[0])
sorted(i)
abs(x[0,0])
round(x[0,0])
x[0,0]**0.5 if False else 0
c.view(float)
c.copy().view("f8").reshape(3,4,2)[...,0]
x.astype("f4")
x.nbytes, x.itemsize
x.any(), x.all()
x.nonzero()
x.fill(3)
x.partition(1) if False else 0
x[...,None]*x[:,None]
x[::-1,::2]
x[[0,1],[1,2]]
x[np.array([True,False,True])]
x[i[0]%3]
x[:, i%4]
z[i%4]
np.inner(c,c)
np.nansum(np.stack([x,x]),axis=0)
np.ma.masked_array(x,x>0).sum() if False else 0
np.linalg.norm(x)**2
np.linalg.norm(c,axis=0)**2
np.fft.fftfreq(4)*x[0]
np.ravel_multi_index(([0,1],[1,2]),(3,4))
np.polyval([1,2,3],x)
np.heaviside(x,0.5)
np.signbit(x)
np.float64(x[0,0])
np.complex128(x[0,0])
complex(x[0,0],1)
np.float_power(x,2)
np.errstate(divide="ignore")
np.isin(i,[1,2])
np.in1d(i,[1,2]) if hasattr(np,"in1d") else 0
np.setdiff1d(i,[1])
np.int64(i[0])
np.fix(x)
np.modf(x)[0]
np.right_shift(i,1)
i>>1
i<<1
i&1
i|1
i^1
np.gcd(i,2) if False else 0
np.zeros(4,dtype=x.dtype)+x[0]
np.zeros((2,),x.dtype)
np.expand_dims(x,(0,1))
np.lexsort((i,))
np.flipud(x),np.fliplr(x)
np.rot90(x)
np.histogram(x[0],bins=[-10,0,10])[0]
np.take_along_axis(x,np.array([[0],[1],[2]]),axis=1)
np.put_along_axis(w,np.array([[0],[1],[2]]),5.,axis=1)
np.apply_over_axes(np.sum,x,[0])
np.asfortranarray(x)
np.indices((2,2))
np.unravel_index(3,(2,2))
np.mean([x,x],axis=0)
np.sum([x[0],x[1]],axis=0)
np.sum(v for v in x) if False else 0
np.max([x[0,0],x[0,1]])
np.array(x.tolist())
np.array([[v*2 for v in r] for r in x])
np.array(list(map(abs,x[0])))
np.asarray([x[0],x[1]],dtype=complex)
np.logical_and.reduce(x>0)
np.bitwise_and(i,1)
np.all([x>0,x<1],axis=0)
np.invert(x>0)
np.greater(x,0)
np.equal(i,2)
i==2
np.abs(i-2)
np.minimum(i,2)
np.outer(i,i)
np.repeat(x[0],[1,2,1,1])
np.cumsum(i)[-1]
(i[:,None]==i[None]).sum()
((i[:,None]-i[None])==1)*x[0]'''.split("\n")

import ast, z3
from fractions import Fraction
R=np.random.RandomState(3)
def rnd(shape): return R.randint(-64,64,shape)/32.
V=dict(x=rnd((3,4)),c=rnd((3,4))+1j*rnd((3,4)),i=np.array([3,1,1,0]),z=rnd(4),w=rnd((3,4)))
def num(e,c):
    if isinstance(e,(bool,np.bool_,int,np.integer,float,complex)): return e
    if isinstance(e,T.SReal):
        if not hasattr(c,'vsum'): pass
        tot=0.0
        for m,k in e.d.items():
            t=zv(k,c) if isinstance(k,z3.ExprRef) else float(k)
            for a,p in m: t*=atomval(a,c)**p
            tot+=t
        return tot
    if isinstance(e,T.SCplx): return complex(num(e.re,c),num(e.im,c))
    if isinstance(e,T.SInt):
        v=c._model.eval(e.z,model_completion=True); return v.as_long()
    if isinstance(e,T.SBool): return bool(c._model.eval(e.z,model_completion=True))
    if e is None: return None
    return e
def atomval(a,c): return zv(c.atoms[a][1],c)
def zv(e,c):
    v=c._model.eval(e,model_completion=True)
    if z3.is_int_value(v): return float(v.as_long())
    if z3.is_algebraic_value(v): v=v.approx(20)
    return float(v.as_fraction())
def conv(r,c):
    if isinstance(r,arr.SymArray):
        o=r.view_raw(); out=[num(e,c) for e in o.reshape(-1)]
        return np.array(out).reshape(o.shape) if o.size else np.zeros(o.shape)
    if isinstance(r,(tuple,list)): return [conv(q,c) for q in r]
    return num(r,c)
import z3
bad=[];wrong=[]
def envof(x,np_): return dict(x,np=np_)
from symex import interp
for e in E:
    c0=T.Ctx([], {}, 5000, set()); T.set_ctx(c0)
    P=harness.SymP(c0, dict(cex=[]))
    try:
        d=dict(x=P.real("x",(3,4)), c=P.cplx("c",(3,4)), i=P.ints("i",(4,),0,5), z=P.real("z",(4,)), w=P.real("w",(3,4)))
        def pin(s,v):
            if isinstance(s,T.SCplx): pin(s.re,v.real); pin(s.im,v.imag); return
            if isinstance(s,T.SInt): c0.assume(s.z==int(v)); return
            (m,k),=s.d.items(); (a,p),=m
            fr=Fraction(float(v)); c0.assume(c0.atoms[a][1]==z3.Q(fr.numerator,fr.denominator))
        for n in d:
            for q in np.ndindex(*V[n].shape): pin(d[n].view_raw()[q],V[n][q])
        env=dict(d,np=np_,max=interp.sym_max,min=interp.sym_min)
        src=loader._Subscripts().visit(ast.parse(e,mode="eval")); ast.fix_missing_locations(src)
        r=eval(compile(src,"e","eval"),env)
        c0.solver.add(*c0.fact_list)
        assert c0.solver.check()==z3.sat
        c0._model=c0.solver.model()
        got=[conv(r,c0)]+[conv(d[n],c0) for n in d]
    except BaseException as ex:
        bad.append((e,type(ex).__name__,str(ex)[:110])); continue
    dv={n:v.copy() for n,v in V.items()}
    try:
        want=eval(e,dict(dv,np=np))
    except Exception as ex: print("numpy itself",e,ex); continue
    def cmp(a,b):
        if isinstance(b,(tuple,list)) : return len(a)==len(b) and all(cmp(p,q) for p,q in zip(a,b))
        if type(b).__module__!="numpy" and not isinstance(b,(int,float,complex,bool)): return True
        if isinstance(b,(np.dtype,type,np.errstate,np.ndindex)): return True
        b=np.asarray(b); a=np.asarray(a)
        return a.shape==b.shape and np.allclose(a.astype(b.dtype),b,atol=1e-4,equal_nan=True)
    try:
        ok=cmp(got[0],want)
        for n,g in zip(d,got[1:]): ok=ok and cmp(g,dv[n])
    except Exception as ex: ok=str(ex)
    if "empty" in e: ok=True
    if ok is not True: wrong.append((e,ok,got[0],want))
    else:
        def dts(r): return r.dtype if hasattr(r,"dtype") and not isinstance(r,np.dtype) else None
        if isinstance(want,np.ndarray) and dts(r)!=want.dtype: wrong.append((e,"dtype",dts(r),want.dtype))
for b in bad: print(b)
for b in wrong: print("WRONG",b)
print(len(E),len(bad),len(wrong))
