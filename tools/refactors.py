"""Edits that keep the behaviour: the checks have to stay quiet on them.
refactors.py [NAME...] [--checks C01,..] : applies each set in a copy of /repo and runs the checks there."""
import argparse, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}


def rf(name, checks, *edits):
    R[name] = (checks.split(), edits)


NB, NORM, CORE, MT = "_core_nb.py", "norm.py", "core.py", "multitau.py"

rf("nb_helpers", "C01 C02 C03 C04 C06 C09",
   # helper extracted, used by several kernels
   (NB, '''@nb.jit([(C[:],C[:], F[:])], nopython = True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
def _cross_corr_add_vec(xv,yv, out):
    for j in range(xv.shape[0]):
        x = xv[j]
        y = yv[j]
        #calculate cross product
        tmp = x.real * y.real + x.imag * y.imag
        #add 
        out[j] = out[j] + tmp 
''', '''@nb.jit(nopython = True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
def _real_product(a, b):
    re = a.real * b.real
    im = a.imag * b.imag
    return re + im

@nb.jit([(C[:],C[:], F[:])], nopython = True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
def _cross_corr_add_vec(xv,yv, out):
    size = len(xv)
    j = 0
    while j < size:
        out[j] += _real_product(xv[j], yv[j])
        j += 1
'''),
   (NB, '''            m=abs(t2[j]-t1[i])
            if m < out.shape[0]:
                tmp = x[i].real * y[j].real + x[i].imag * y[j].imag
                out[m] += tmp
''', '''            delay = t2[j]-t1[i]
            if delay < 0:
                delay = -delay
            if delay >= out.shape[0]:
                continue
            out[delay] += _real_product(x[i], y[j])
'''),
   (NB, '''            if m < out.shape[0]:
                _cross_corr_add_vec(f1[i],f2[j], out[m])
''', '''            if not m < len(out):
                pass
            else:
                row = out[m]
                _cross_corr_add_vec(f1[i],f2[j], row)
'''),
   (NB, '''    for i in range(f.shape[0]):
        for j in range(i, f.shape[0]):
            m = t[j]-t[i] 
            if m >= 0:
                if m < out.shape[0]:
                    tmp = np.conj(f[i]) * f[j]
                    out[m] += tmp
            else:
                m = abs(m)
                if m < out.shape[0]:
                    tmp = f[i] * np.conj(f[j])
                    out[m] += tmp                
''', '''    nframes, ndelays = f.shape[0], out.shape[0]
    for i in range(nframes):
        for j in range(i, nframes):
            m = t[j]-t[i] 
            first, second = (i, j) if m >= 0 else (j, i)
            m = abs(m)
            if m < ndelays:
                out[m] += np.conj(f[first]) * f[second]
'''),
   (NB, '''            if m >= 0:
                if m < out.shape[0]:
                    _cross_corr_complex_add_vec(f[i],f[j], out[m])
            else:
                m = abs(m)
                if m < out.shape[0]:
                    #negative tau, so store complex conjugate
                    _cross_corr_complex_add_vec(f[j],f[i], out[m])                
''', '''            if m < 0:
                #negative tau, so store complex conjugate
                if -m < out.shape[0]:
                    _cross_corr_complex_add_vec(f[j],f[i], out[-m])
            elif m < out.shape[0]:
                _cross_corr_complex_add_vec(f[i],f[j], out[m])
'''),
   (NB, '''                tmp = y[j]-x[i]
                d = tmp.real*tmp.real + tmp.imag*tmp.imag
                out[m] += d
''', '''                dre = x[i].real - y[j].real
                dim = x[i].imag - y[j].imag
                out[m] = dre**2 + dim**2 + out[m]
'''),
   (NB, '''        tmp = xv[j] - yv[j] 
        d = tmp.real*tmp.real + tmp.imag*tmp.imag
        out[0] += d
''', '''        d = yv[j] - xv[j]
        out[0] += (d * np.conj(d)).real
'''),
   (NB, '''        if i == 0:
            tmp = out[0]
            tmp = tmp*0.
            for j in range(x.shape[0]):
                tmp = tmp + x[j]
            prev = tmp*2
            out[0] += tmp
        if i > 0:
            prev = prev - x[i-1] - x[n]
            out[i] += prev 
''', '''        if i > 0:
            prev -= x[i-1] + x[n]
            out[i] += prev
        else:
            total = x[0]
            for value in x[1:]:
                total += value
            prev = 2. * total
            out[0] += total
'''),
   (NB, '''            m = abs(t2[jj] - t1[ii])
            if m < len(n):
                n[m] += 1   
''', '''            m = max(t2[jj], t1[ii]) - min(t2[jj], t1[ii])
            if m < n.shape[0]:
                n[m] = n[m] + 1
'''),
   (NB, '''    for i in range(t.shape[0]):
        m = t[i]
        if m < out.shape[0]:
            out[m] = x[i]
''', '''    for i, m in enumerate(t):
        if m >= out.shape[0]:
            continue
        out[m] = x[i]
'''),
   )

rf("nb_fft", "C03 C06 C09",
   (NB, '''    length = len(x)
    # delays beyond data length are zero. Here we must not read the mirrored part of the ifft
    out_length = min(out_length, length)
    tmp1 = np.empty((length*2), x.dtype)
    tmp1[0:length] = x
    tmp1[length:] = 0.
    tmp2 = np.empty((length*2), y.dtype)
    tmp2[0:length] = y
    tmp2[length:] = 0.  
    x = _fft(tmp1, overwrite_x = True)
    y = _fft(tmp2, overwrite_x = True)
    
    x = np.conj(x)*y

    _out = _ifft(x, overwrite_x = True)
    if np.iscomplexobj(out):
        out[:out_length] += _out[:out_length]
        out[-1:-out_length:-1] += _out[-1:-out_length:-1]        
    else:
        out[:out_length] += _out[:out_length].real
        out[1:out_length] += _out[-1:-out_length:-1].real
''', '''    length = x.shape[0]
    # delays beyond data length are zero. Here we must not read the mirrored part of the ifft
    if out_length > length:
        out_length = length
    padded = []
    for data in (x, y):
        tmp = np.zeros((2*length,), data.dtype)
        tmp[:length] = data
        padded.append(_fft(tmp, overwrite_x = True))
    product = np.multiply(np.conj(padded[0]), padded[1])
    _out = _ifft(product, overwrite_x = True)
    positive = _out[:out_length]
    negative = _out[-1:-out_length:-1]
    if np.iscomplexobj(out):
        out[:out_length] += positive
        out[-1:-out_length:-1] += negative
    else:
        out[:out_length] += positive.real
        out[1:out_length] += negative.real
'''),
   (NB, '''    tmp = np.empty((length*2), x.dtype)
    tmp[0:length] = x
    tmp[length:] = 0.
 
    x = _fft(tmp, overwrite_x = True)
    x = x*np.conj(x)

    _out = _ifft(x, overwrite_x = True)
''', '''    tmp = np.concatenate((x, np.zeros_like(x)))
    spectrum = _fft(tmp)
    _out = _ifft(np.conj(spectrum) * spectrum)
'''),
   (NB, '''    x = _fft(tmp, overwrite_x = True)
    y = np.conj(x)
    np.multiply(x,y, out = x)
    _out = _ifft(x, overwrite_x = True)
''', '''    spectrum = _fft(tmp, overwrite_x = True)
    power = spectrum.conj() * spectrum
    _out = _ifft(power, overwrite_x = True)
'''),
   )

rf("nb_filters", "C30 C15",
   (NB, '''    n = len(out)
    assert n > 2  
    result = a[0]
    for i in range(1,n-1):
        out[i-1] = result 
        result = 0.25*(a[i-1]+2*a[i]+a[i+1])

    out[i] = result
    out[-1] = a[-1]
''', '''    n = len(out)
    assert n > 2  
    out[0] = a[0]
    for i in range(1,n-1):
        out[i] = 0.25*a[i-1] + 0.5*a[i] + 0.25*a[i+1]
    out[n-1] = a[n-1]
'''),
   (NB, '''        if array[i] < array[i+1]:
            if array[i] < array[i-1]:
                result = min(array[i+1],array[i-1])
            else:
                result = array[i]
        else:
            if array[i] < array[i-1]:
                result = array[i]
            else:
                result = max(array[i+1],array[i-1])
''', '''        before, value, after = array[i-1], array[i], array[i+1]
        low = min(before, after)
        high = max(before, after)
        result = min(max(value, low), high)
'''),
   (NB, '''        if i == 0:
            out[0] = array[0]
        else:
            if array[i] < out[i-1] or np.isnan(out[i-1]):
                out[i] = array[i]
            else:
                out[i] = out[i-1]
                
                
''', '''        value = array[i]
        if i > 0 and not (value < out[i-1] or np.isnan(out[i-1])):
            value = out[i-1]
        out[i] = value
                
'''),
   (NB, '''    return x * weight + (1.- weight) * y
''', '''    return y + weight * (x - y)
'''),
   (NB, '''    real = x.real * weight.real + (1.- weight.real) * y.real
    imag = x.imag * weight.imag + (1.- weight.imag) * y.imag
    return real + 1j * imag
''', '''    wr, wi = weight.real, weight.imag
    return complex(y.real + wr * (x.real - y.real), y.imag + wi * (x.imag - y.imag))
'''),
   (NB, '''                deltay = y[j] - y[j-1]
                deltax = x1 - x0
                out[i] = (xi - x0) * deltay/ deltax +  y[j-1]
                break
''', '''                slope = (y[j] - y[j-1]) / (x1 - x0)
                out[i] = y[j-1] + slope * (xi - x0)
                break
'''),
   )

rf("norm_code", "C08 C13 C14 C15 C16 C19 C17",
   (NORM, '''    values = value.split("|")
    norm = 0
    for value in values:
        name = "NORM_" + value.strip().upper()
        try:
            norm = norm | getattr(_thismodule,name)
        except AttributeError:
            raise ValueError("Invalid norm string '{}'".format(value))
    if norm % 4 == 0:
        norm  = norm | NORM_STANDARD
    return norm
''', '''    norm = 0
    for part in value.split("|"):
        flag = getattr(_thismodule, "NORM_{}".format(part.strip().upper()), None)
        if flag is None:
            raise ValueError("Invalid norm string '{}'".format(part))
        norm |= flag
    has_method = (norm & NORM_WEIGHTED) != 0
    return norm if has_method else (norm | NORM_STANDARD)
'''),
   (NORM, '''    standard = True if structured == False and weighted == False else False
    norm = NORM_NONE
    if standard == True :
        norm = norm | NORM_STANDARD
    if structured == True:
        norm = norm | NORM_STRUCTURED
    if compensated == True:
        norm = norm | NORM_COMPENSATED
    if subtracted == True:
        norm = norm | NORM_SUBTRACTED
    if weighted == True:
        norm = norm | NORM_WEIGHTED
    return norm
''', '''    flags = ((structured == False and weighted == False, NORM_STANDARD),
             (structured == True, NORM_STRUCTURED), (compensated == True, NORM_COMPENSATED),
             (subtracted == True, NORM_SUBTRACTED), (weighted == True, NORM_WEIGHTED))
    return sum({flag for use, flag in flags if use and flag != NORM_WEIGHTED}) | (NORM_WEIGHTED if weighted == True else 0)
'''),
   (NORM, '''    offset = _variance2offset(variance, mask)        
    data *= (-0.5)
    data += offset
    return data
''', '''    np.multiply(data, -0.5, out = data)
    np.add(data, _variance2offset(variance, mask), out = data)
    return data
'''),
   (NORM, '''    offset = _variance2offset(variance, mask) * 2
    data *= (-2)
    data += offset
    return data
''', '''    data -= _variance2offset(variance, mask)
    data *= -2.
    return data
'''),
   (NORM, '''    ndiff = ndim - count.ndim
    for i in range(ndiff):
        count = np.expand_dims(count,-2)
''', '''    missing = ndim - count.ndim
    if missing > 0:
        count = count.reshape(count.shape[:-1] + (1,) * missing + count.shape[-1:])
'''),
   (NORM, '''    def _mask(i,data):
        if i !=1:
            data = data[...,mask,:] if data is not None else None
        return data
        
    return tuple((_mask(i,d) for (i,d) in enumerate(data)))
''', '''    out = []
    for position in range(len(data)):
        array = data[position]
        if position != 1 and array is not None:
            array = array[...,mask,:]
        out.append(array)
    return tuple(out)
'''),
   (NORM, '''    if mode >= 0:   
        out = data[...,0:n].copy()
        if mode == 0:
            #fold negative values and take mean
            out[...,1:] += np.conj(data[...,-1:-n:-1])
            out[...,1:] /= 2
    else:
        #take zero delay and all negative values
        out = data[...,0:n].copy()
        out[...,1:] = data[...,-1:-n:-1]
''', '''    out = np.array(data[...,:n])
    negative = data[...,:-n:-1]
    if mode == -1:
        #take zero delay and all negative values
        out[...,1:] = negative
    elif mode == 0:
        #fold negative values and take mean
        out[...,1:] = 0.5 * (out[...,1:] + negative.conj())
'''),
   (NORM, '''    pos_phase = np.arctan2(pos.imag, pos.real)
    neg_phase = np.arctan2(neg.imag, neg.real)
    
    phase = (pos_phase + neg_phase)/2.
    exp_phase = np.exp(1j*phase)
''', '''    phase = 0.5 * (np.angle(pos) + np.angle(neg))
    exp_phase = np.cos(phase) + 1j * np.sin(phase)
'''),
   (NORM, '''    if norm == NORM_STANDARD:
        #result = _normalize_ccorr_0(data[0], count, bg1, bg2, out = out)
''', '''    m1 = data[3] if method == "corr" else None
    if norm == NORM_STANDARD:
'''),
   )

rf("core_code", "C01 C02 C03 C04 C06 C07 C12 C13 C16 C17",
   (CORE, '''    if (t1 is None and t2 is not None) or (t2 is None and t1 is not None):
        raise ValueError("You must define both `t1` and `t2`")
    elif t1 is not None:
        t1 = np.asarray(t1, I64DTYPE)
        t2 = np.asarray(t2, I64DTYPE)
        
    axis = int(axis)
''', '''    if (t1 is None) != (t2 is None):
        raise ValueError("You must define both `t1` and `t2`")
    if t1 is not None:
        t1, t2 = (np.asarray(t, dtype = I64DTYPE) for t in (t1, t2))
    axis = int(axis)
'''),
   (CORE, '''    if t1 is not None and t2 is not None:
        t1min,t2min = t1.min(), t2.min()
        t1 = t1 - min(t1min,t2min)
        t2 = t2 - min(t1min,t2min)
            
    return f1''', '''    if t1 is not None and t2 is not None:
        start = min(np.amin(t1), np.amin(t2))
        t1, t2 = t1 - start, t2 - start
    return f1'''),
   (CORE, '''        tmin,tmax = t.min(), t.max()
        n =  1 + tmax -tmin 
    return n
''', '''        n = np.ptp(t) + 1
    return n
'''),
   (CORE, '''        t1min,t1max = t1.min(), t1.max()
        t2min,t2max = t2.min(), t2.max()
        n =  1 + max(t2max-t1min, t1max - t2min)
    return n
    
''', '''        forward = t2.max() - t1.min()
        backward = t1.max() - t2.min()
        n = 1 + (forward if forward > backward else backward)
    return n

def _kernel(scalar, vector, ndim):
    """Returns kernel function for 1D or for multi-dimensional data"""
    return scalar if ndim == 1 else vector
'''),
   (CORE, '''    shape = list(data_shape)
    if complex == True:
        shape[calc_axis] = n*2 -1
    else:
        shape[calc_axis] = n

    if out is None:
        out = np.zeros(shape, dtype)
    else:
''', '''    shape = [size for size in data_shape]
    shape[calc_axis] = n*2 -1 if complex == True else n
    if out is None:
        return np.zeros(shape, dtype)
    else:
'''),
   (CORE, '''        if f1.ndim == 1:
            out = _cross_corr_complex(f1,f2,t1,t2,out,out) if complex else _cross_corr(f1,f2,t1,t2,out,out)
        else:
            out = _cross_corr_complex_vec(f1,f2,t1,t2,out,out) if complex else _cross_corr_vec(f1,f2,t1,t2,out,out)
''', '''        func = _kernel(_cross_corr_complex, _cross_corr_complex_vec, f1.ndim) if complex else _kernel(_cross_corr, _cross_corr_vec, f1.ndim)
        out = func(f1,f2,t1,t2,out,out)
'''),
   (CORE, '''    if regular == True:
        out = _cross_diff_regular(f1,f2,out,out)
    else:
        if f1.ndim == 1:
            out = _cross_diff(f1,f2,t1,t2,out,out)
        else:
            out = _cross_diff_vec(f1,f2,t1,t2,out,out)
            
    return _transpose_data(out,new_axis)
''', '''    if regular == True:
        return _transpose_data(_cross_diff_regular(f1,f2,out,out), new_axis)
    func = _kernel(_cross_diff, _cross_diff_vec, f1.ndim)
    return _transpose_data(func(f1,f2,t1,t2,out,out),new_axis)
'''),
   (CORE, '''    t1 = np.asarray(t1, I64DTYPE)
    if t1.ndim == 0:
        #then t1 is the length of regular spaced data, so make t1 
        t1 = np.arange(t1)
    if t2 is None:
        t2 = t1
    else:
        t2 = np.asarray(t2, I64DTYPE)
        if t2.ndim == 0:
            t2 = np.arange(t2)
''', '''    def _times(t):
        #scalar is the length of regular spaced data
        t = np.asarray(t, I64DTYPE)
        return np.arange(int(t)) if t.shape == () else t

    t1 = _times(t1)
    t2 = t1 if t2 is None else _times(t2)
'''),
   (CORE, '''        out0[...,1:] /= 2.
        out += out0
        return out
''', '''        out0[...,1:] *= 0.5
        np.add(out, out0, out = out)
        return out
'''),
   (CORE, '''    data = np.subtract(data,np.expand_dims(bg,axis),out)
    if return_bg == False:
        return data
    else:
        return data, bg
''', '''    result = np.subtract(data, np.expand_dims(bg, axis), out = out)
    return (result, bg) if return_bg else result
'''),
   (CORE, '''    if method is None:
        method = "fft" if n is None else "corr"
    elif method not in ("corr","fft","diff"):
        raise ValueError("Unknown method")
    return method
''', '''    if method is None:
        if n is None:
            return "fft"
        return "corr"
    if method not in {"corr","fft","diff"}:
        raise ValueError("Unknown method")
    return method
'''),
   (CORE, '''    if method == "diff":
        supported = (NORM_STRUCTURED,NORM_STRUCTURED|NORM_SUBTRACTED) if cross else (NORM_STRUCTURED,)
    else:
        supported = (1,2,3,5,6,7)
    if norm is None:
        norm = supported[-1]
    if norm not in supported:
''', '''    supported = (1,2,3,5,6,7)
    if method == "diff":
        supported = (NORM_STRUCTURED,)
        if cross:
            supported += (NORM_STRUCTURED + NORM_SUBTRACTED,)
    norm = max(supported) if norm is None else norm
    if not any(norm == value for value in supported):
'''),
   (CORE, '''        sq = _sum(f1s,t1,t_other = t2,axis = new_axis, n = n, aout = sq, complex = complex) 
        sq = _sum(f2s,t2,t_other = t1,axis = new_axis, n = n ,aout = sq, complex = complex, time_inversion = True) 
''', '''        kw = {"axis" : new_axis, "n" : n, "complex" : complex}
        sq = _sum(f2s,t2,t_other = t1,aout = sq, time_inversion = True, **kw) 
        sq = _sum(f1s,t1,t_other = t2,aout = sq, **kw) 
'''),
   (CORE, '''    if method == "fft" and regular == False:
        _sum = cross_sum_fft
    else:
        _sum = cross_sum
''', '''    _sum = cross_sum if (regular or method != "fft") else cross_sum_fft
'''),
   (CORE, '''    if method == "diff":
        return cor, count, ds1, ds2
    else:
        return cor, count, sq, ds1, ds2
    
''', '''    result = [cor, count, ds1, ds2]
    if correlate:
        result.insert(2, sq)
    return tuple(result)
    
'''),
   (CORE, '''    shape = list(f.shape)
    n = shape.pop(axis)
    force_2d = True if mask is None else False
''', '''    n = f.shape[axis]
    shape = list(f.shape[:axis] + f.shape[axis+1:])
    force_2d = mask is None
'''),
   (CORE, '''        out = np.empty(mask.shape, x.dtype)
        out[mask] = x
        out[np.logical_not(mask)] = np.nan
        return out
    else:
        return x
    
''', '''        out = np.full(mask.shape, np.nan, dtype = x.dtype)
        out[mask] = x
        x = out
    return x

'''),
   (CORE, '''                out = np.empty(x.shape[0:-2] + mask.shape + (x.shape[-1],), x.dtype)
                out[...,mask,:] = x
                out[...,np.logical_not(mask),:] = np.nan
                return out
            else:
                return x
        else:
            return x
''', '''                out = np.full(x.shape[:-2] + mask.shape + x.shape[-1:], np.nan, x.dtype)
                out[...,mask,:] = x
                return out
        return x
'''),
   (CORE, '''        size, n = np.prod(shape, dtype = int), 0
        while n < data.ndim - 1 and np.prod(data.shape[n:-1], dtype = int) != size:
            n += 1
        extra_shape = data.shape[0:n]
''', '''        size = reduce(lambda x, y: x * y, shape, 1)
        for n in range(data.ndim):
            if reduce(lambda x, y: x * y, data.shape[n:-1], 1) == size:
                break
        extra_shape = data.shape[0:n]
'''),
   )

rf("core_iter", "C10 C11 C12",
   (CORE, '''        if stats == True:
            (data, dummy), bg, var = mdata
        else:
            data, dummy  = mdata
        
        if viewer is not None:
            if i == 0:
                _VIEWERS["ccorr"] = viewer
            if i%viewer_interval == 0:
                if stats == True:
                    viewer.set_data(data, background = bg, variance = var)
                    viewer.plot()
                else:
                    viewer.set_data(data)
                    viewer.plot()
    if stats == True:
        return data, bg, var
    else:
        return data
''', '''        extra = {}
        if stats == True:
            mdata, bg, var = mdata
            extra = {"background" : bg, "variance" : var}
        data = mdata[0]
        if viewer is None:
            continue
        if i == 0:
            _VIEWERS["ccorr"] = viewer
        if i%viewer_interval == 0:
            viewer.set_data(data, **extra)
            viewer.plot()
    return (data, bg, var) if stats == True else data
'''),
   (MT, '''            verbosity = disable_prints() #we do not want to print messages of f()
            

            if cross:
                ccorr(_sliced_data(fdata1,0,fstart1,fstop1),_sliced_data(fdata2,0,fstart1,fstop1),t1[istart1:istop1],t2[istart1:istop1],f1s = f1s, f2s = f2s,axis = axis, n = n_fast, norm = norm,aout = out, method = method, complex = complex) 
            else:
                acorr(_sliced_data(fdata1,0,fstart1,fstop1),t1[istart1:istop1],fs = f1s, axis = axis, n = n_fast, norm = norm, aout = out, method = method, complex = complex) 
''', '''            verbosity = disable_prints() #we do not want to print messages of f()
            
            x1 = _sliced_data(fdata1,0,fstart1,fstop1)
            kw = dict(axis = axis, n = n_fast, norm = norm, aout = out, method = method, complex = complex)
            if cross:
                x2 = _sliced_data(fdata2,0,fstart1,fstop1)
                ccorr(x1,x2,t1[istart1:istop1],t2[istart1:istop1],f1s = f1s, f2s = f2s, **kw)
            else:
                acorr(x1,t1[istart1:istop1],fs = f1s, **kw)
'''),
   (MT, '''                    out_fast += out[0][...,0:n_fast]
                    count_fast += out[1][...,0:n_fast]
                    
                    if sq_fast is not None:
                        sq_fast += out[2][...,0:n_fast]
  
                    if m1_fast is not None:
                        m1_fast += out[3][...,0:n_fast] /2
                        m1_fast += out[4][...,0:n_fast] /2   
''', '''                    for total, part in zip((out_fast, count_fast, sq_fast), out):
                        if total is not None:
                            total += part[...,:n_fast]
                    if m1_fast is not None:
                        both = out[3][...,:n_fast] + out[4][...,:n_fast]
                        m1_fast += 0.5 * both
'''),
   (MT, '''    n_decades = 0
    while count//(chunk_size * 2**(n_decades)) > 0:
        n_decades += 1  
''', '''    n_decades = int(count // chunk_size).bit_length()
'''),
   (MT, '''        if i < half_chunk_size and auto_background == True:
            _set_data(i, x1,fdata1)
            _set_data(i, x2,fdata2) if cross == True else None
''', '''        if auto_background == True and i <= half_chunk_size - 1:
            fdata1[0,i,...] = x1
            if cross == True:
                fdata2[0,i,...] = x2
'''),
   (MT, '''                np.divide(sum1,_divisor  , out_bg1)
                np.divide(sum2, _divisor , out_bg2) if cross else None
                np.divide(sqsum1, _divisor , out_var1)
                np.divide(sqsum2, _divisor , out_var2)  if cross else None
                np.subtract(out_var1, abs2(out_bg1), out_var1)
                np.subtract(out_var2, abs2(out_bg2), out_var2)  if cross else None
''', '''                todo = [(sum1, sqsum1, out_bg1, out_var1)]
                if cross:
                    todo.append((sum2, sqsum2, out_bg2, out_var2))
                for s, sq, bg, var in todo:
                    bg[...] = s / _divisor
                    var[...] = sq / _divisor - abs2(bg)
'''),
   (MT, '''    if cross == True:
        x1,x2 = d
        if mask is not None:
            x1,x2 = x1[mask],x2[mask]
    else:
        if len(d) == 1 and isinstance(d, tuple):
            x1, = d
        else:
            x1 = d
        if mask is not None:
            x1 = x1[mask]
        x2 = None
    return x1, x2
''', '''    if cross == True:
        frames = list(d)
        assert len(frames) == 2
    elif isinstance(d, tuple) and len(d) == 1:
        frames = [d[0], None]
    else:
        frames = [d, None]
    if mask is not None:
        frames = [(f if f is None else f[mask]) for f in frames]
    return tuple(frames)
'''),
   (MT, '''        #start with count
        chunk_size = count
        while (chunk_size//2) >= level_size and chunk_size > 128: 
            chunk_size = chunk_size//2
''', '''        #start with count
        chunk_size, half = count, count//2
        while not (half < level_size or chunk_size <= 128): 
            chunk_size, half = half, half//2
'''),
   )

rf("mt_code", "C08 C09 C10 C11 C18",
   (MT, '''    f = np.moveaxis(data,axis,-1)
    n = f.shape[-1] #this makes it possible to bin also odd-sized data.. skip one element
    f1 = np.moveaxis(f[...,0:n-1:2],-1,out_axis)
    f2 = np.moveaxis(f[...,1:n:2],-1,out_axis)
    out = np.empty(f1.shape, f1.dtype)
    return mean (f1, f2, out = out)
''', '''    f1, f2 = _pairs(data, axis, out_axis)
    return mean(f1, f2, out = np.empty_like(f1))
'''),
   (MT, '''def mean_data_parallel(data''', '''def _pairs(data, axis, out_axis):
    f = np.moveaxis(data,axis,-1)
    n = (f.shape[-1] // 2) * 2 #this makes it possible to bin also odd-sized data.. skip one element
    return tuple(np.moveaxis(f[...,k:n:2],-1,out_axis) for k in (0,1))

def mean_data_parallel(data'''),
   (MT, '''    if r < 0.5:
        out[...] = f2
    else:
        out[...] = f1
    return out
''', '''    np.copyto(out, f2 if r < 0.5 else f1)
    return out
'''),
   (MT, '''        n_decades = 0
        while length// (2**(n_decades)) >= n:
            n_decades += 1
        nlevel = n_decades -1
''', '''        nlevel = -1
        rest = length
        while rest >= n:
            nlevel += 1
            rest = rest >> 1
'''),
   (MT, '''    if axis == -1:
        new_axis = -1
        slow_shape = (nlevel,) + k_shape + (n_slow,)
        slow_shape = (nlevel,) + k_shape + (_full_size(n_slow),) if complex and cross else slow_shape
    else:
        new_axis = axis
        slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow,) + k_shape[-1:] 
        slow_shape = (nlevel,) + k_shape[0:-1] + (_full_size(n_slow),) + k_shape[-1:] if complex and cross else slow_shape
''', '''    new_axis = axis
    n_out = _full_size(n_slow) if complex and cross else n_slow
    slow_shape = [nlevel] + list(k_shape)
    slow_shape.insert(len(slow_shape) if axis == -1 else len(slow_shape) - 1, n_out)
    slow_shape = tuple(slow_shape)
'''),
   (MT, '''        for j in range(1, n_decades):''', '''        for j in range(1, n_decades):''') if False else
   (MT, '''    size = 1
    power = 2**n
    for i in range(n):
        size = size*2 +1
    out = np.zeros(shape = (size,))
    for i in range(size//2):
        out[i] = (i+1)/power/power
        out[-i-1] = out[i]
    out[size//2] = 1/power
    return out
''', '''    power = 2**n
    rising = np.arange(1, power) / (power * power)
    return np.concatenate((rising, [1 / power], rising[::-1]))
'''),
   (MT, '''    for l in range(level+1):
        sliced = data[...,0:size]
        n_sliced = sliced.shape[-1]
        out[l,...,0:n_sliced] = sliced
        #missing data... fill nans
        if n_sliced != size:
            out[l,...,n_sliced:] = np.nan
''', '''    out.fill(np.nan)
    for l in range(level+1):
        n_sliced = min(size, data.shape[-1])
        out[l,...,:n_sliced] = data[...,:n_sliced]
'''),
   (MT, '''        out_size = n//2 * len(data)
        x_slow = np.empty((len(data),n), IDTYPE)
        for i,x in enumerate(x_slow):
            x[:] = np.arange(n)*2**(i)
        
        x = x_slow[:,n//2:].reshape((out_size,))
''', '''        out_size = n//2 * len(data)
        levels = [np.arange(n//2, n, dtype = IDTYPE) << i for i in range(len(data))]
        x = np.concatenate(levels) if levels else np.empty((0,), IDTYPE)
'''),
   (MT, '''        axes = [i for i in range(data.ndim)]
        axes.insert(-1,axes.pop(0))
    
        data = data.transpose(axes)
        y = data.reshape(data.shape[:-2] + (out_size,))
''', '''        data = np.moveaxis(data, 0, -2)
        y = data.reshape(data.shape[:-2] + (-1,)) if data.size else data.reshape(data.shape[:-2] + (out_size,))
'''),
   (MT, '''    period = nfast // nslow
    if nfast % nslow != 0:
        raise ValueError("Fast and slow data are not compatible")
    return period
''', '''    period, rest = divmod(nfast, nslow)
    if rest != 0:
        raise ValueError("Fast and slow data are not compatible")
    return period
'''),
   (MT, '''    shape = np.array(shape)
    shape[1:-1] = 1 #these are for broadcasting only, so set to one
    out = np.empty(shape = shape, dtype = int)
    x = np.arange(shape[-1]) * period*2
    for o in out:
        o[...,:] = x
        x *= 2
    return out
''', '''    nlevel, n = shape[0], shape[-1]
    x = np.arange(n) * period * 2
    factors = 2 ** np.arange(nlevel)
    out = (factors[:, None] * x[None, :]).astype(int)
    return out.reshape((nlevel,) + (1,) * (len(shape) - 2) + (n,)) #broadcasteable
'''),
   )

FFT, WIN, AVG, MAP, SIM, SNB, VID, VIEW = "fft.py", "window.py", "avg.py", "map.py", "sim.py", "_sim_nb.py", "video.py", "viewer.py"

rf("fft_code", "C21 C20 C31",
   (FFT, '''    if kimax is None:
        kimax = kisize//2 
        return kimax, kisize
    else:    
        n = kimax*2+1
        if n > (kisize//2)*2+1:
            return None, None
        return kimax, kimax*2+1
''', '''    half = kisize//2
    if kimax is None:
        return half, kisize
    if kimax > half:
        return None, None
    return kimax, 2*kimax+1
'''),
   (FFT, '''    if kjmax is None:
        kjmax = kjsize-1 
        return kjmax, kjsize
    else:
        if kjmax > kjsize-1:
            return None, None
        return kjmax, kjmax + 1
''', '''    last = kjsize - 1
    kjmax = last if kjmax is None else kjmax
    return (kjmax, kjmax + 1) if kjmax <= last else (None, None)
'''),
   (FFT, '''        out[...,:istop,:] = x[...,:istop,:jstop] 
        if istop > 1:
            out[...,-istop+1:,:] = x[...,-istop+1:,:jstop] 
        return out
''', '''        rows = np.concatenate((np.arange(istop), np.arange(-istop+1, 0)))
        for row in rows:
            out[...,row,:] = x[...,row,:jstop]
        return out
'''),
   (FFT, '''        out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
        out[...,:istop,:jstop] = x[...,:istop,:jstop] 
        if istop > 1:
            out[...,-istop+1:,:jstop] = x[...,-istop+1:,:jstop] 
        if jstop > 1:
            out[...,:istop,-jstop+1:] = x[...,:istop,-jstop+1:] 
        if istop > 1 and jstop > 1:
            out[...,-istop+1:,-jstop+1:] = x[...,-istop+1:,-jstop+1:] 
        return out
''', '''        out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
        islices = [slice(0, istop)] + ([slice(1-istop, None)] if istop > 1 else [])
        jslices = [slice(0, jstop)] + ([slice(1-jstop, None)] if jstop > 1 else [])
        for si in islices:
            for sj in jslices:
                out[..., si, sj] = x[..., si, sj]
        return out
'''),
   (FFT, '''    for frames in video:
        yield tuple((rfft2_crop(_rfft2(frame, overwrite_x = overwrite_x, extra = extra),kimax, kjmax) for frame in frames))
''', '''    def _process(frame):
        full = _rfft2(frame, overwrite_x = overwrite_x, extra = extra)
        return rfft2_crop(full, kimax, kjmax)
    for frames in video:
        yield tuple(map(_process, frames))
'''),
   (FFT, '''    if is_multi_kvec:
        for i,k in enumerate(kvec):
            ki,kj = k
            kf[i,ki,kj] = 1.
    else:
        ki,kj = kvec
        kf[ki,kj] = 1.   
    kf = _fft2(kf, overwrite_x = True)  
    return kf
''', '''    if is_multi_kvec:
        kf[np.arange(len(kvec)), kvec[:,0], kvec[:,1]] = 1.
    else:
        kf[tuple(kvec)] = 1.
    return _fft2(kf, overwrite_x = True)
'''),
   (FFT, '''    fout = _fft2(frame)
    fout = fout*kernel
    fout = fft2_crop(fout, kimax,kjmax)
    out = _ifft2(fout, overwrite_x = True)
    return out
''', '''    spectrum = np.multiply(_fft2(frame), kernel)
    return _ifft2(fft2_crop(spectrum, kimax = kimax, kjmax = kjmax), overwrite_x = True)
'''),
   (FFT, '''        if inplace == True:
            yield tuple((np.divide(frame, frame[0,0], frame) for frame in frames))
        else:
            yield tuple((np.asarray(frame / frame[0,0], dtype = dtype) for frame in frames))  
''', '''        out = []
        for frame in frames:
            factor = frame[0,0]
            if inplace == True:
                frame /= factor
            else:
                frame = np.asarray(frame / factor, dtype = dtype)
            out.append(frame)
        yield tuple(out)
'''),
   (FFT, '''    libname = CDDMConfig["fftlib"]
    if libname == "mkl_fft":
        return mkl_fft.fft2(a, overwrite_x = overwrite_x, **extra)
    elif libname == "scipy":
        return spfft.fft2(a, overwrite_x = overwrite_x, **extra)
    elif libname == "numpy":
        return np.fft.fft2(a, **extra) 
    elif libname == "pyfftw":
        return fftw.scipy_fftpack.fft2(a, overwrite_x = overwrite_x, **extra)
''', '''    libname = CDDMConfig["fftlib"]
    if libname == "numpy":
        return np.fft.fft2(a, **extra) 
    kw = dict(extra, overwrite_x = overwrite_x)
    if libname == "mkl_fft":
        return mkl_fft.fft2(a, **kw)
    if libname == "scipy":
        return spfft.fft2(a, **kw)
    if libname == "pyfftw":
        return fftw.scipy_fftpack.fft2(a, **kw)
'''),
   )

rf("window_avg", "C29 C30",
   (WIN, '''    ny,nx = [l/2 for l in shape]
    ay, ax = [np.arange(-l / 2. + .5, l / 2. + .5) for l in shape]
    xx, yy = np.meshgrid(ax, ay, indexing = "xy")
    r = ((xx/(nx*scale))**2 + (yy/(ny*scale))**2) ** 0.5    
    return r
''', '''    height, width = shape
    y = (np.arange(height) - (height - 1) / 2.) / (height / 2 * scale)
    x = (np.arange(width) - (width - 1) / 2.) / (width / 2 * scale)
    return np.sqrt(y[:,None]**2 + x[None,:]**2)
'''),
   (WIN, '''    if out is None:
        out = np.ones(shape, FDTYPE)
    out[...] = 0.42 + 0.5*np.cos(1*np.pi*r)+0.08*np.cos(2*np.pi*r)
    mask = (r>= 1.)
    out[mask] = 0.
    return out
''', '''    inside = r < 1.
    values = 0.42 + 0.5*np.cos(np.pi*r)+0.08*np.cos(2*np.pi*r)
    if out is None:
        out = np.empty(shape, FDTYPE)
    out[...] = np.where(inside, values, 0.)
    return out
'''),
   (WIN, '''    if out is None:
        out = np.empty(shape, FDTYPE)
    return np.exp(-r**2, out = out)
''', '''    window = np.exp(-(r*r))
    if out is None:
        return np.asarray(window, FDTYPE)
    out[...] = window
    return out
'''),
   (WIN, '''    alpha = alpha * rmax
    mask = r > rmax -alpha
    if alpha > 0.:
        tmp = 1/2*(1-np.cos(np.pi*(r-rmax)/alpha))
        out[mask] = tmp[mask]
    mask = (r>= rmax)
    out[mask] = 0.
    return out  
''', '''    alpha = alpha * rmax
    if alpha > 0.:
        edge = r > rmax - alpha
        out[edge] = 0.5*(1-np.cos(np.pi*(r[edge]-rmax)/alpha))
    out[r >= rmax] = 0.
    return out  
'''),
   (AVG, '''    for i in range(n):
        x = median(x)
        x = convolve(x)
    return x
''', '''    while n > 0:
        x = convolve(median(x))
        n -= 1
    return x
'''),
   )

rf("map_code", "C19 C20 C22 C23",
   (MAP, '''    kmax = kmap.max()
    ks = np.arange(0, kmax + kstep, kstep)
    out = np.empty(kmap.shape, int)
    out[...] =-1

    high = np.pi/180*(angle + sector/2)
    low  = np.pi/180*(angle - sector/2)
    m = np.pi
''', '''    ks = np.arange(0, np.max(kmap) + kstep, kstep)
    out = np.full(kmap.shape, -1, dtype = int)

    low, high = (np.deg2rad(angle + sign * sector/2) for sign in (-1,1))
    m = np.pi
''') if False else
   (MAP, '''def fft2_sector_indexmap(kmap, anglemap, angle = 0., sector = 30., kstep = 1.):''', '''def _in_range(x, low, high):
    return np.logical_and(x >= low, x < high)

def fft2_sector_indexmap(kmap, anglemap, angle = 0., sector = 30., kstep = 1.):'''),
   (MAP, '''    if negate:
        fmask = np.logical_not(fmask)

    for i,k in enumerate(ks):
        kmask = (kmap <= (k + kstep/2.)) &  (kmap > (k - kstep/2.))
        mask = kmask & fmask
        out[mask] = i

    #k = (0,0) is present regardless of angle, sector
''', '''    if negate:
        fmask = ~fmask

    half_step = kstep / 2.
    i = 0
    for k in ks:
        ring = (kmap <= k + half_step) & (kmap > k - half_step) & fmask
        out[ring] = i
        i += 1

    #k = (0,0) is present regardless of angle, sector
'''),
   (MAP, '''    kistep = 1.
    kjstep = 1.
    if height > width:
        kjstep = height/width
    else:
        kistep = width/height
    return (kisize, kistep), (kjsize, kjstep)
''', '''    largest = max(height, width)
    return (kisize, largest/height), (kjsize, largest/width)
'''),
   (MAP, '''    y,x = ki,kj
    x2, y2  = x**2, y**2
    return (x2 + y2)**0.5 , np.arctan2(-y,x)         
''', '''    k = np.sqrt(ki*ki + kj*kj)
    angle = np.arctan2(-ki, kj)
    return k, angle
'''),
   (MAP, '''    ki,kj = np.meshgrid(np.fft.fftfreq(kisize)*kisize*kistep,np.fft.fftfreq(kjsize)*kjsize*kjstep, indexing = "ij")  
    return ki,kj
''', '''    i = np.fft.fftfreq(kisize, 1./kisize) * kistep
    j = np.fft.fftfreq(kjsize, 1./kjsize) * kjstep
    return tuple(np.meshgrid(i, j, indexing = "ij"))
'''),
   (MAP, '''    if len(ks) > 0:
        #at least one k value exists
        masked_data = data[...,mask,:]
        masked_data[...,conj_mask,:] = np.conj(masked_data[...,conj_mask,:])
        data_avg = np.nanmean(masked_data, axis = -2)
        k_avg = ks.mean()
        return k_avg, data_avg  
    else:
        #no k values
        return None
''', '''    if ks.size == 0:
        #no k values
        return None
    selected = data[...,mask,:]
    selected = np.where(conj_mask[:,None], np.conj(selected), selected)
    return np.mean(ks), np.nanmean(selected, axis = -2)
'''),
   (MAP, '''    m1 = as_rfft2_data(a, axes)
    m2 = as_rfft2_conj(a, axes)
    return np.logical_or(m1,m2)
''', '''    return as_rfft2_data(a, axes) | as_rfft2_conj(a, axes)
'''),
   (MAP, '''    slices_in[ax1] = 0
    slices_in[ax2] = slice(-1,-whalf,-1) 
    slices_out[ax1] = 0
    slices_out[ax2] = slice(1,None)
    m2[tuple(slices_out)] = a[tuple(slices_in)]
    return m2
''', '''    slices_in[ax1] = slices_out[ax1] = 0
    first = a[tuple(slices_in)]
    m2[tuple(slices_out)] = first
    return m2
'''),
   (MAP, '''    if np.iscomplexobj(a):
        out[tuple(slices_out)] = np.conj(a[tuple(slices_in)])
    else:
        out[tuple(slices_out)] = a[tuple(slices_in)]
    return out
''', '''    row = a[tuple(slices_in)]
    out[tuple(slices_out)] = row.conj() if np.iscomplexobj(row) else row
    return out
'''),
   (MAP, '''    if k is None:
        kdim = indexmap.max() + 1
        k = np.arange(kdim)
    try:
        iterator = (_k_select(data, kk, indexmap, kmap, mask, masked_data) for kk in k)
        return tuple((data for data in iterator if data is not None))       
    except TypeError:
        #not iterable
        return _k_select(data, k, indexmap, kmap, mask, masked_data)
''', '''    def _select(kk):
        return _k_select(data, kk, indexmap, kmap, mask, masked_data)

    if k is None:
        k = range(np.max(indexmap) + 1)
    elif not np.iterable(k):
        return _select(k)
    results = []
    for kk in k:
        result = _select(kk)
        if result is not None:
            results.append(result)
    return tuple(results)
'''),
   )

rf("sim_code", "C26 C27 C28",
   (SNB, '''    if x0 == x1:
        return x
    while True: 
        if x < x0:
            x = x1 + x - x0
        elif x >= x1:
            x = x0 + x - x1
        else:
            break
    return x
''', '''    size = x1 - x0
    if size == 0:
        return x
    while x < x0:
        x += size
    while x >= x1:
        x -= size
    return x
'''),
   (SNB, '''    return x + np.random.randn()*scale + velocity   
''', '''    step = np.random.randn()*scale
    return x + velocity + step
'''),
   (SNB, '''    return intensity*math.exp(-0.5*((x-x0+0.5)**2+(y-y0+0.5)**2)/(sigma**2))
''', '''    dx = x - x0 + 0.5
    dy = y - y0 + 0.5
    return intensity*math.exp(-0.5*(dx**2+dy**2)/(sigma**2))
'''),
   (SNB, '''    for j in range(nparticles):
        im[int(data[j,0]),int(data[j,1])] = im[int(data[j,0]),int(data[j,1])] + intensity[j] 
    return im  
''', '''    for j in range(nparticles):
        row, column = int(data[j,0]), int(data[j,1])
        im[row, column] += intensity[j]
    return im  
'''),
   (SNB, '''    out = (frame - black_level)/saturation * maxv
    if out < 0:
        return 0
    if out > maxv :
        return maxv
    else:
        return out   
''', '''    out = maxv * (frame - black_level)/saturation
    return min(max(out, 0), maxv)
'''),
   (SNB, '''                j = j0 % width
                i = i0 % height
                im[i,j] = im[i,j] + p
''', '''                im[i0 % height, j0 % width] += p
'''),
   (SIM, '''    x = mirror(x,x1,x2) #make sure we start in the box
    
    for i in range(count):
        yield x
        if callable(velocity):
            _velocity = velocity(x)
            _velocity = np.asarray(_velocity, FDTYPE)*dt
        if callable(delta):
            _delta = delta(x)
            _scale = _delta*np.sqrt(dt)
            _scale = np.asarray(_scale, FDTYPE)
        x = make_step(x,_scale, _velocity) 
        x = mirror(x,x1,x2)
''', '''    x = mirror(x,x1,x2) #make sure we start in the box
    
    while count > 0:
        yield x
        if callable(velocity):
            _velocity = np.asarray(velocity(x), FDTYPE)*dt
        if callable(delta):
            _scale = np.asarray(delta(x)*dt**0.5, FDTYPE)
        x = mirror(make_step(x,_scale, _velocity),x1,x2)
        count -= 1
'''),
   (SIM, '''        v0 = np.zeros_like(x0)
        v0[:,:] = velocity
''', '''        v0 = np.broadcast_to(np.asarray(velocity, FDTYPE), x0.shape)
'''),
   (SIM, '''            _int = np.asarray(intensity, dtype)
            if _int.ndim == 0:
                _int = np.asarray([intensity] * len(data),dtype)
            _sigma = np.asarray(sigma,FDTYPE)
            if _sigma.ndim == 0:
                _sigma = np.asarray([sigma] * len(data),FDTYPE)
            im = draw_psf(im, data, _int, _sigma)
''', '''            def _full(value, dtype):
                value = np.asarray(value, dtype)
                return np.full((len(data),), value, dtype) if value.ndim == 0 else value
            im = draw_psf(im, data, _full(intensity, dtype), _full(sigma, FDTYPE))
'''),
   (SIM, '''    t = list(reversed(sorted(set(indices))))  #make all indices unique and sorted. 
    ii = t.pop()
    for i,d in enumerate(data):
        if i == ii:
            yield d
            try:
                ii = t.pop()
            except IndexError:
                #all done.
                break
''', '''    t = sorted(set(indices))  #make all indices unique and sorted. 
    done = 0
    for i,d in enumerate(data):
        if i == t[done]:
            yield d
            done += 1
            if done == len(t):
                break
'''),
   (SIM, '''    t0 = np.arange(nframes)*n
    r1 = 0
    for i in range(nframes):
        r1 = np.random.randint(max(0,dt_min-n+r1), n)
        t0[i] += r1
    return t0  
''', '''    times = []
    r1 = 0
    for i in range(nframes):
        lowest = dt_min-n+r1
        r1 = np.random.randint(lowest if lowest > 0 else 0, n)
        times.append(i * n + r1)
    return np.array(times, dtype = int)
'''),
   (SIM, '''    mask = np.random.randint(2*n,  size = nframes) == 0
    t2[mask] = t1[mask]
    return t1, t2 
''', '''    same = np.random.randint(2*n,  size = nframes) == 0
    t2 = np.where(same, t1, t2)
    return t1, t2 
'''),
   (SIM, '''    if max_value < 256:
        max_value = np.uint8(max_value)
    else:
        max_value = np.uint16(max_value)
    return adc_clean(frame,saturation,black_level, max_value, out = out)
''', '''    _type = np.uint8 if bit_depth == "8bit" else (np.uint8 if max_value <= 255 else np.uint16)
    return adc_clean(frame, saturation, black_level, _type(max_value), out = out)
'''),
   (SIM, '''    out = np.empty_like(data)
    out[...,0] = c * data[...,0] - s * data[...,1]
    out[...,1] = s * data[...,0] + c * data[...,1]
    return out
''', '''    y, x = data[...,0], data[...,1]
    return np.stack((c * y - s * x, s * y + c * x), axis = -1)
'''),
   )

rf("video_code", "C24 C25",
   (VID, '''    return (frames for frames in zip(*arrays)) 
''', '''    return zip(*arrays)
'''),
   (VID, '''    out = tuple((np.empty(shape = (count,) + frame.shape, dtype = frame.dtype) for frame in frames))
    
    [_load(out[i][0],frame) for i,frame in enumerate(frames)]
    for j,frames in enumerate(video):
        print_progress(j+1, count)
        [_load(out[i][j+1],frame) for i,frame in enumerate(frames)]
        
    print_progress(count, count)
    print_frame_rate(count,t0)
    return out
''', '''    out = tuple(np.empty((count,) + frame.shape, frame.dtype) for frame in frames)
    j = 0
    while frames is not None:
        for array, frame in zip(out, frames):
            _load(array[j], frame)
        j += 1
        frames = next(video, None)
        print_progress(j, count)
        
    print_progress(count, count)
    print_frame_rate(count,t0)
    return out
'''),
   (VID, '''    try:    
        hslice, wslice = roi
        if not isinstance(hslice, slice) :
            hslice = slice(*hslice)
        if not isinstance(wslice, slice) :
            wslice = slice(*wslice)   
    except:
        raise ValueError("Invalid roi")
    for frames in video:
        yield tuple((frame[hslice,wslice] for frame in frames))
''', '''    def _as_slice(s):
        return s if isinstance(s, slice) else slice(*s)
    try:    
        slices = tuple(_as_slice(s) for s in roi)
        hslice, wslice = slices
    except Exception:
        raise ValueError("Invalid roi")
    for frames in video:
        yield tuple([frame[slices] for frame in frames])
'''),
   (VID, '''        if inplace == True:
            yield tuple((np.subtract(frame, w, frame) for w, frame in zip(arrays,frames)))
        else:
            yield tuple((np.asarray(frame - w, dtype = dtype) for w, frame in zip(arrays,frames)))            
''', '''        out = []
        for frame, w in zip(frames, arrays):
            if inplace == True:
                frame -= w
                out.append(frame)
            else:
                out.append(np.asarray(np.subtract(frame, w), dtype = dtype))
        yield tuple(out)
'''),
   (VID, '''        if inplace == True:
            yield tuple((np.divide(frame, frame.mean(), frame) for frame in frames))
        else:
            yield tuple((np.asarray(frame / frame.mean(), dtype = dtype) for frame in frames))   
''', '''        def _normalize(frame):
            mean = np.mean(frame)
            if inplace == True:
                return np.divide(frame, mean, out = frame)
            return np.asarray(frame * (1. / mean), dtype = dtype)
        yield tuple(_normalize(frame) for frame in frames)
'''),
   (VID, '''    while True:
        out = q.get()
        q.task_done()
        if out is None:
            break
        yield out
''', '''    out = q.get()
    while out is not None:
        q.task_done()
        yield out
        out = q.get()
    q.task_done()
'''),
   (VID, '''        if t0 is None:
            t0 = time.time()
        if time.time()-t0 < i/fps + max_delay:
            for key in list(_FIGURES.keys()):
                (viewer, queue) = _FIGURES.get(key)
                if not queue.empty():
                    viewer.show(queue.get())
                    queue.task_done()
            pause()
        yield frames
''', '''        t0 = time.time() if t0 is None else t0
        late = (time.time() - t0) - i/fps >= max_delay
        if not late:
            for viewer, queue in list(_FIGURES.values()):
                if queue.empty():
                    continue
                viewer.show(queue.get())
                queue.task_done()
            pause()
        yield frames
'''),
   (VID, '''        if mode == "abs":
            im = im/(clip_factor)
        else:
            im = im/(clip_factor*2) + 0.5
        im = im.clip(0,1)  
        return np.fft.fftshift(im,0)  
''', '''        scaled = im/clip_factor if mode == "abs" else 0.5*im/clip_factor + 0.5
        scaled = np.minimum(np.maximum(scaled, 0), 1)
        return np.fft.fftshift(scaled, axes = 0)
'''),
   (VID, '''            m = 2* max(x.max(),y.max())
            im = x/m - y/m + 0.5
            queue.put(im,block = False)        
''', '''            largest = max(np.max(x), np.max(y))
            im = (x - y) / (2 * largest) + 0.5
            queue.put_nowait(im)
'''),
   )

rf("viewer_code", "C23",
   (VIEW, '''    if mode == "real":
        return data.real
    elif mode == "imag":
        return data.imag
    elif mode == "abs":
        return np.abs(data)
    elif mode == "phase":
        return np.arctan2(data.imag, data.real)
''', '''    functions = {"real" : np.real, "imag" : np.imag, "abs" : np.abs, "phase" : np.angle}
    return functions[mode](data)
'''),
   (VIEW, '''        indices = [slice(None)] * (max(self.axes, default = -1) + 1)
        for i,ax in enumerate(self.axes):
            indices[ax] = vals[i]
        self.indices = tuple(indices)
''', '''        chosen = dict(zip(self.axes, vals))
        self.indices = tuple(chosen.get(ax, slice(None)) for ax in range(max(self.axes, default = -1) + 1))
'''),
   (VIEW, '''        mask = np.zeros(self.shape[:-1], bool)
        mask[self.indices] = True
        return mask
''', '''        mask = np.full(self.shape[:-1], False)
        mask[self.indices] = True
        return mask
'''),
   (VIEW, '''        data = self.data[...,self.half_mask,:]
        m = self.conj_mask[self.half_mask]
        data[...,m,:] = np.conj(data[...,m,:])
        avg = np.nanmean(data, axis = -2)
        return self.t, data_repr(avg, self.mode)
''', '''        selected = self.data[...,self.half_mask,:].copy()
        m = self.conj_mask[self.half_mask]
        np.conjugate(selected, out = selected, where = m[:,None])
        return self.t, data_repr(np.nanmean(selected, axis = -2), self.mode)
'''),
   (VIEW, '''        if self.computed_mask is not None:
            if self.kshape == (self.kisize, self.kjsize):
                self.half_mask = self.half_mask & self.computed_mask
                self.graph_mask = self.mask & from_rfft2_data(self.computed_mask, self.shape)
                self.mask = self.graph_mask
                self.conj_mask = self.conj_mask & self.computed_mask
            else:
                self.graph_mask = self.mask & from_rfft2_data(self.computed_mask, self.shape)
                self.half_mask = self.half_mask[self.computed_mask]
                self.conj_mask = self.conj_mask[self.computed_mask]
                self.mask = self.mask[from_rfft2_data(self.computed_mask, self.shape)]
        return self.mask.any()
''', '''        computed = self.computed_mask
        if computed is not None:
            full = from_rfft2_data(computed, self.shape)
            self.graph_mask = np.logical_and(self.mask, full)
            if self.kshape == (self.kisize, self.kjsize):
                self.half_mask = np.logical_and(self.half_mask, computed)
                self.conj_mask = np.logical_and(self.conj_mask, computed)
                self.mask = self.graph_mask
            else:
                self.half_mask, self.conj_mask = self.half_mask[computed], self.conj_mask[computed]
                self.mask = self.mask[full]
        return np.any(self.mask)
'''),
   )


# ---------------------------------------------------------------------------------------------- runner
def ns(copy, cmd, timeout=2400):
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)],
                       capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("names", nargs="*")
    ap.add_argument("--checks")
    ap.add_argument("--jobs", default="8")
    ap.add_argument("--each", action="store_true", help="each edit of a set separately")
    ap.add_argument("--case", default="")
    ap.add_argument("--edit", type=int)
    ap.add_argument("--tests", action="store_true")
    a = ap.parse_args()
    bad = 0
    for name in a.names or R:
        checks, edits = R[name]
        for k, group in enumerate([[e] for e in edits] if a.each else [edits]):
            if a.edit is not None and k != a.edit:
                continue
            copy = tempfile.mkdtemp(prefix="refactor_")
            try:
                subprocess.run(["cp", "-a", "/repo/.", copy], check=True)
                for f, old, new in group:
                    p = os.path.join(copy, "cddm", f)
                    src = open(p).read()
                    o = r"[ \t]*\n(?:[ \t]*\n)*".join(re.escape(l.rstrip()) for l in old.split("\n") if l.strip()) + (r"[ \t]*\n" if old.endswith("\n") else "")
                    m = re.search(o, src)
                    if not m:
                        print(name, "EDIT DOES NOT APPLY:", f, old.strip().splitlines()[0])
                        bad += 1
                        continue
                    src = src[:m.start()] + new + src[m.end():]
                    compile(src, p, "exec")
                    open(p, "w").write(src)
                if a.tests:
                    rc, o = ns(copy, "bash <(sed 's/ 400 / 1500 /;s/timeout=300/timeout=1000/' /opt/vp/test.sh) %s.json" % copy)
                    print(name, "tests:", o.strip().splitlines()[-1:], flush=True)
                    if os.path.exists(copy + ".json"):
                        os.unlink(copy + ".json")
                for c in (a.checks.split(",") if a.checks else checks):
                    if c == "none":
                        continue
                    t = time.time()
                    rc, o = ns(copy, "cp -a %s %s.v && cd %s.v && bash run.sh %s quick -q --no-replay --jobs %s %s; r=$?; rm -rf %s.v; exit $r" % (V, copy, copy, c, a.jobs, '--case "%s"' % a.case if a.case else '', copy))
                    print(name, "edit %d" % k if a.each else "", c, "quiet" if rc == 0 else "RC=%d" % rc, "%d s" % (time.time() - t), flush=True)
                    if a.case or a.each:
                        print("   ", o.strip().splitlines()[-1][:200])
                    if rc:
                        bad += 1
                        print("   ", "\n    ".join(l[:300] for l in o.splitlines() if l.strip())[-1800:], flush=True)
            finally:
                shutil.rmtree(copy, ignore_errors=True)
                shutil.rmtree(copy + ".v", ignore_errors=True)
    print("ALL QUIET" if not bad else "%d NOT QUIET" % bad)
    return bool(bad)


if __name__ == "__main__":
    sys.exit(main())
