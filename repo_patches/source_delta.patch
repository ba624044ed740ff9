From ba5b5f4c6b80724b69508f68546548487d9da0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 01/30] fix: correlations with more delays than frames: delays
 beyond the data are zero

Direct regular kernels indexed past the end of the data, the FFT kernels
read the mirrored half of the inverse transform (regular) or failed on a
shape mismatch (irregular), when n (or aout) asked for more delays than there are.
---
 cddm/_core_nb.py | 51 +++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index 4cac182..df46e35 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -338,7 +338,7 @@ def _cross_corr_complex_add(xv,yv, out):
 
 @nb.guvectorize([(C[:],C[:],F[:],F[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_corr_regular(x,y,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_add(x[0:n],y[i:], out[i:i+1])
         if i > 0:
@@ -346,7 +346,7 @@ def _cross_corr_regular(x,y,dummy,out):
             
 @nb.guvectorize([(C[:],C[:],C[:],C[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_corr_complex_regular(x,y,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_complex_add(x[0:n],y[i:], out[i:i+1])
         if i > 0:
@@ -355,13 +355,13 @@ def _cross_corr_complex_regular(x,y,dummy,out):
 
 @nb.guvectorize([(C[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_add(x[i:],x[0:n], out[i:i+1])
 
 @nb.guvectorize([(C[:],C[:],C[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_complex_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_complex_add(x[0:n],x[i:], out[i:i+1])
 
@@ -452,7 +452,7 @@ def _cross_diff_add(xv,yv, out):
 
 @nb.guvectorize([(C[:],C[:],F[:],F[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_diff_regular(x,y,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_diff_add(y[i:],x[0:n], out[i:i+1])
         if i > 0:
@@ -469,7 +469,7 @@ def _auto_diff_vec(f,t,dummy,out):
             
 @nb.guvectorize([(C[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_diff_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_diff_add(x[i:],x[0:n], out[i:i+1])
             
@@ -518,7 +518,7 @@ def _cross_sum_complex(f,t1,t2,dummy,out):
                                 
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -533,7 +533,7 @@ def _cross_sum_regular(x,dummy,out):
             
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_complex_regular_inverted(x,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -551,7 +551,7 @@ def _cross_sum_complex_regular_inverted(x,dummy,out):
 
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_complex_regular(x,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -574,6 +574,8 @@ def _cross_corr_fft_regular(x, y, dummy, out):
     if np.iscomplexobj(out):
         out_length = (out_length+1)//2
     length = len(x)
+    # delays beyond data length are zero. Here we must not read the mirrored part of the ifft
+    out_length = min(out_length, length)
     tmp1 = np.empty((length*2), x.dtype)
     tmp1[0:length] = x
     tmp1[length:] = 0.
@@ -590,13 +592,14 @@ def _cross_corr_fft_regular(x, y, dummy, out):
         out[:out_length] += _out[:out_length]
         out[-1:-out_length:-1] += _out[-1:-out_length:-1]        
     else:
-        out[:] += _out[:out_length].real
-        out[1:] += _out[-1:-out_length:-1].real
+        out[:out_length] += _out[:out_length].real
+        out[1:out_length] += _out[-1:-out_length:-1].real
     
 @nb.guvectorize([(C[:],F[:],F[:]),(C[:],C[:],C[:])],"(n),(k)->(k)", forceobj=True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_fft_regular(x, dummy, out):
-    out_length = len(dummy)
     length = len(x)
+    # delays beyond data length are zero. Here we must not read the mirrored part of the ifft
+    out_length = min(len(dummy), length)
     tmp = np.empty((length*2), x.dtype)
     tmp[0:length] = x
     tmp[length:] = 0.
@@ -607,9 +610,9 @@ def _auto_corr_fft_regular(x, dummy, out):
     _out = _ifft(x, overwrite_x = True)
     
     if np.iscomplexobj(out):
-        out[:] += _out[:out_length]
+        out[:out_length] += _out[:out_length]
     else:
-        out[:] += _out[:out_length].real
+        out[:out_length] += _out[:out_length].real
     
 
 @nb.jit([(C[:],I64[:],C[:]),(F[:],I64[:],C[:])], nopython = True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
@@ -633,6 +636,7 @@ def _cross_corr_fft(x, y, t1,t2,length, dummy, out):
         out_length = (out_length+1)//2
     
     tmp1 = np.zeros((length*2), x.dtype)
+    out_length = min(out_length, len(tmp1)//2)
     _fill_data(x,t1, tmp1)
     #tmp1[list(t1)] = x
     tmp2 = np.zeros((length*2), y.dtype)
@@ -647,14 +651,15 @@ def _cross_corr_fft(x, y, t1,t2,length, dummy, out):
         out[:out_length] += _out[:out_length]
         out[-1:-out_length:-1] += _out[-1:-out_length:-1]       
     else:
-        out[:] += _out[:out_length].real
-        out[1:] += _out[-1:-out_length:-1].real
+        out[:out_length] += _out[:out_length].real
+        out[1:out_length] += _out[-1:-out_length:-1].real
         
 @nb.guvectorize([(C[:],I64[:],I64[:],F[:],F[:]),(C[:],I64[:],I64[:],C[:],C[:])],"(n),(n),(),(k)->(k)", forceobj=True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_fft(x, t,length, dummy, out):
     out_length = len(dummy)
     
     tmp = np.zeros((length*2), x.dtype)
+    out_length = min(out_length, len(tmp)//2)
     _fill_data(x,t, tmp)
     #tmp[list(t)] = x
     x = _fft(tmp, overwrite_x = True)
@@ -662,24 +667,25 @@ def _auto_corr_fft(x, t,length, dummy, out):
     np.multiply(x,y, out = x)
     _out = _ifft(x, overwrite_x = True)
     if np.iscomplexobj(out):
-        out[:] += _out[:out_length]
+        out[:out_length] += _out[:out_length]
     else:
-        out[:] += _out[:out_length].real
+        out[:out_length] += _out[:out_length].real
     
 @nb.guvectorize([(C[:],C[:],I64[:],I64[:],F[:],F[:]), (C[:],C[:],I64[:],I64[:],C[:],C[:])],"(n),(m),(n),(),(k)->(k)", forceobj=True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_fft(x, y,t,length, dummy, out):
     out_length = len(dummy)
     tmp1 = np.zeros((length*2), x.dtype)
+    out_length = min(out_length, len(tmp1)//2)
     _fill_data(x,t, tmp1)
     x = _fft(tmp1, overwrite_x = True)
     np.multiply(np.conj(x),y, out = x)
     _out = _ifft(x, overwrite_x = True)
     if np.iscomplexobj(out):
-        out[:] += np.conj(_out[:out_length])
-        out[1:] += np.conj(_out[-1:-out_length:-1])
+        out[:out_length] += np.conj(_out[:out_length])
+        out[1:out_length] += np.conj(_out[-1:-out_length:-1])
     else:
-        out[:] += _out[:out_length].real
-        out[1:] += _out[-1:-out_length:-1].real
+        out[:out_length] += _out[:out_length].real
+        out[1:out_length] += _out[-1:-out_length:-1].real
         
     
 @nb.guvectorize([(C[:],C[:],I64[:],I64[:],F[:],F[:]),(C[:],C[:],I64[:],I64[:],C[:],C[:])],"(n),(m),(n),(),(k)->(k)", forceobj=True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
@@ -687,6 +693,7 @@ def _cross_sum_complex_fft(x, y,t,length, dummy, out):
     out_length = len(dummy)
     out_length = (out_length+1)//2
     tmp1 = np.zeros((length*2), x.dtype)
+    out_length = min(out_length, len(tmp1)//2)
     _fill_data(x,t, tmp1)
     x = _fft(tmp1, overwrite_x = True)
     np.multiply(np.conj(x),y, out = x)
-- 
2.43.0


From 3635652de7d84537789e03d4196c67e4aebac0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 02/30] fix: reshape_input/reshape_output scrambled or rejected
 data with axis != 0, 1D frames, mask or thread_divisor

---
 cddm/core.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index b31a43d..aee64ee 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -307,6 +307,7 @@ def reshape_input(f, axis = 0, thread_divisor = None, mask = None):
     """
     
     f = np.asarray(f)
+    out_axis = axis
     axis = list(range(f.ndim))[axis]#make it a positive integer
 
     if mask is not None:
@@ -318,8 +319,13 @@ def reshape_input(f, axis = 0, thread_divisor = None, mask = None):
     n = shape.pop(axis)
     force_2d = True if mask is None else False
     new_shape = list(thread_frame_shape(shape, thread_divisor, force_2d))
-    new_shape.insert(axis, n)
-    return f.reshape(new_shape), tuple(shape)
+    if axis == 0:
+        f = f.reshape([n] + new_shape)
+    elif new_shape != shape:
+        #only frame axes are reshaped, so time axis has to be moved out of the way first
+        f = np.moveaxis(f, axis, -1).reshape(new_shape + [n])
+        f = np.moveaxis(f, -1, out_axis)
+    return f, tuple(shape)
 
 def reshape_frame(frame, shape, mask = None): 
     x = frame.reshape(shape)
@@ -364,7 +370,7 @@ def reshape_output(data, shape = None, mask = None):
         if i != 1 and x is not None: 
             x = x.reshape(shape)
             if mask is not None:
-                out = np.empty(x.shape[0:-mask.ndim] + mask.shape + (x.shape[-1],), x.dtype)
+                out = np.empty(x.shape[0:-2] + mask.shape + (x.shape[-1],), x.dtype)
                 out[...,mask,:] = x
                 out[...,np.logical_not(mask),:] = np.nan
                 return out
@@ -372,14 +378,20 @@ def reshape_output(data, shape = None, mask = None):
                 return x
         else:
             return x
-    if shape is None:
-        if mask is None:
-            raise ValueError("Either `mask` or `shape` must be defined")
-        shape = mask.shape
-    if mask is None:
-        shape = data[0].shape[0:-(len(shape)+1)] + tuple(shape) + (data[0].shape[-1],) 
+    if mask is not None:
+        #masked data is flattened to the number of the valid elements
+        shape = (np.count_nonzero(mask),)
+    elif shape is None:
+        raise ValueError("Either `mask` or `shape` must be defined")
+    #multilevel data has additional axes in front of the frame axes 
+    if isinstance(data, np.ndarray):
+        size, n = np.prod(shape, dtype = int), 0
+        while n < data.ndim - 1 and np.prod(data.shape[n:-1], dtype = int) != size:
+            n += 1
+        extra_shape = data.shape[0:n]
     else:
-        shape = data[0].shape[0:-mask.ndim] + tuple(shape) + (data[0].shape[-1],) 
+        extra_shape = data[1].shape[0:-1]
+    shape = tuple(extra_shape) + tuple(shape) + (data[0].shape[-1],)
     #normalized data 
     if isinstance(data, np.ndarray):
         return _reshape(0,data) 
-- 
2.43.0


From 50fc156af3e00ca2d394a99bd022927647808e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 03/30] fix: default norm of iacorr was not valid

---
 cddm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/core.py b/cddm/core.py
index aee64ee..027d83e 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -1404,7 +1404,7 @@ def iccorr(data, t1 = None, t2 = None, n = None, norm = None, method = "corr", c
     else:
         return data
 
-def iacorr(data, t = None, n = None, norm = 0, method = "corr", count = None,
+def iacorr(data, t = None, n = None, norm = None, method = "corr", count = None,
                 chunk_size = None, thread_divisor = None,  
                 auto_background = False,  viewer = None, viewer_interval = 1, mode = "full", mask = None, stats = True, complex = False):
     """Iterative version of :func:`ccorr`
-- 
2.43.0


From 427d69e78f38394af73879894ed3e091ddd728af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 04/30] fix: wrong size of complex slow data in
 multitau.ccorr_multi/acorr_multi

---
 cddm/multitau.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index ccdb347..ca14325 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -232,16 +232,16 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     if axis == -1:
         new_axis = -1
         slow_shape = (nlevel,) + k_shape + (n_slow,)
-        slow_shape = (nlevel,) + k_shape + (n_slow*2+1,) if complex else slow_shape
+        slow_shape = (nlevel,) + k_shape + (_full_size(n_slow),) if complex and cross else slow_shape
     else:
         new_axis = axis
         slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow,) + k_shape[-1:] 
-        slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow*2+1,) + k_shape[-1:] if complex else slow_shape
+        slow_shape = (nlevel,) + k_shape[0:-1] + (_full_size(n_slow),) + k_shape[-1:] if complex and cross else slow_shape
 
     out_slow = np.zeros(slow_shape, CDTYPE) if complex else np.zeros(slow_shape, FDTYPE) 
     out_slow = _transpose_data(out_slow, new_axis) 
         
-    count_slow = np.zeros((nlevel, n_slow,),IDTYPE)
+    count_slow = np.zeros((nlevel, _full_size(n_slow),),IDTYPE) if complex and cross else np.zeros((nlevel, n_slow,),IDTYPE)
     m1, m2, sq = None, None, None
  
     if (norm & NORM_STRUCTURED) and correlate == True:
@@ -271,11 +271,13 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     #do multi-tau caluclation
 
     for i in range(nlevel):
-        f1 = _bin(f1,axis, new_axis)
-        f2 = _bin(f2,axis, new_axis) if cross else None
+        #random selection (BINNING_CHOOSE) must be the same for both data and their squares
+        r = np.random.rand()
+        f1 = _bin(f1,axis, new_axis, r = r)
+        f2 = _bin(f2,axis, new_axis, r = r) if cross else None
         if (norm & NORM_STRUCTURED) and correlate:
-            f1s = _bin(f1s,axis, new_axis)
-            f2s = _bin(f2s,axis, new_axis) if cross else None
+            f1s = _bin(f1s,axis, new_axis, r = r)
+            f2s = _bin(f2s,axis, new_axis, r = r) if cross else None
         axis = new_axis
                 
         _out =  tuple(((d[i] if d is not None else None) for d in data_slow))
-- 
2.43.0


From 96cb38a13fac22d8ad7692bb3797abadd186bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 05/30] fix: BINNING_CHOOSE and BINNING_FIRST selected
 different frames of data and squares or failed

---
 cddm/multitau.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index ca14325..fdfe281 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -426,7 +426,7 @@ def _add_data1(i,x, out, binning = True, r = None):
                 x = _mean(x, out[j-1,...,index_top-1,:], out[j,...,index_low,:]) if OPTIMIZE_LAYOUT else _mean(x, out[j-1,index_top-1,...], out[j,index_low,...])
             elif binning == BINNING_CHOOSE:
                 if r is None:
-                    r = np.randomd.rand()
+                    r = np.random.rand()
                 if OPTIMIZE_LAYOUT:
                     x = x if r > 0.5 else out[j-1,...,index_top-1,:]
                     out[j,...,index_low,:] = x
@@ -435,6 +435,8 @@ def _add_data1(i,x, out, binning = True, r = None):
                     x = x if r > 0.5 else out[j-1,index_top-1,...]
                     out[j,index_low,...] = x                    
             else:
+                #BINNING_FIRST, take the first of the two
+                x = out[j-1,...,index_top-1,:] if OPTIMIZE_LAYOUT else out[j-1,index_top-1,...]
                 if OPTIMIZE_LAYOUT:
                     out[j,...,index_low,:] = x
                 else:
@@ -472,7 +474,7 @@ def _add_data2(i,x1, x2, out1, out2, binning = True, r = None):
                     
             elif binning == BINNING_CHOOSE:
                 if r is None:
-                    r = np.randomd.rand()
+                    r = np.random.rand()
                 if OPTIMIZE_LAYOUT:
                     x1 = x1 if r > 0.5 else out1[j-1,...,index_top-1,:]
                     x2 = x2 if r > 0.5 else out2[j-1,...,index_top-1,:]
@@ -486,6 +488,9 @@ def _add_data2(i,x1, x2, out1, out2, binning = True, r = None):
                     out1[j,index_low,...] = x1
                     out2[j,index_low,...] = x2                    
             else:
+                #BINNING_FIRST, take the first of the two
+                x1 = out1[j-1,...,index_top-1,:] if OPTIMIZE_LAYOUT else out1[j-1,index_top-1,...]
+                x2 = out2[j-1,...,index_top-1,:] if OPTIMIZE_LAYOUT else out2[j-1,index_top-1,...]
                 if OPTIMIZE_LAYOUT:
                     out1[j,...,index_low,:] = x1
                     out2[j,...,index_low,:] = x2
@@ -757,9 +762,10 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
     if nlevel is None:
         nlevel = n_decades_max -1
     else:
-        n_decades = min(nlevel + 1, n_decades_max)
-        if n_decades < 1:
+        if nlevel < 0:
             raise ValueError("Invalid nlevel")
+        #levels that are longer than chunk size are computed here, the rest after the last frame
+        n_decades = min(int(nlevel) + 1, n_decades)
         nlevel = min(int(nlevel),n_decades_max -1)
               
     t_slow = np.arange(nframes)
-- 
2.43.0


From a1e79f3f6519ef5d0b51f56d268c2f8c8db86124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 06/30] fix: slow levels were lost if nlevel was specified in
 iterative multitau

---
 cddm/multitau.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index fdfe281..cc788ed 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -816,6 +816,7 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
             else:
                 out_fast, count_fast, m1_fast, m2_fast = data_fast         
                 out_slow, count_slow, m1_slow, m2_slow = data_slow
+                sq_fast, sq_slow = None, None
                 
             fdata1, fdata2 = _init_data_f(n_decades, half_chunk_size, shape, cross = cross)
             
-- 
2.43.0


From ac914a3602ddcfb4448fda8cedc7984b225f5967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 07/30] fix: iterative multitau auto-correlation over several
 chunks (diff method, complex data)

---
 cddm/multitau.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index cc788ed..0c7527e 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -939,7 +939,8 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                     #     m1_fast += out[3] /2
                     #     m1_fast += out[4] /2          
                         
-                    out = ccorr(_sliced_data(fdata1,0,fstart1,fstop1),_sliced_data(fdata1,0,fstart2,fstop2),t1[istart1:istop1],t1[istart2:istop2],f1s = f1s, f2s = f2s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                    #previous chunk goes first, so that results are in the positive delay half of complex data
+                    out = ccorr(_sliced_data(fdata1,0,fstart2,fstop2),_sliced_data(fdata1,0,fstart1,fstop1),t1[istart2:istop2],t1[istart1:istop1],f1s = f2s, f2s = f1s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
                         
                     out_fast += out[0][...,0:n_fast]
                     count_fast += out[1][...,0:n_fast]
@@ -1013,7 +1014,7 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                             #     m1_slow[j-1] += out[3] /2
                             #     m1_slow[j-1] += out[4] /2
                             
-                            out = ccorr(_sliced_data(fdata1,j,fstart1,fstop1),_sliced_data(fdata1,j,fstart2,fstop2),t_slow[istart1:istop1],t_slow[istart2:istop2],f1s = f1s, f2s = f2s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                            out = ccorr(_sliced_data(fdata1,j,fstart2,fstop2),_sliced_data(fdata1,j,fstart1,fstop1),t_slow[istart2:istop2],t_slow[istart1:istop1],f1s = f2s, f2s = f1s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
 
 
                             out_slow[j-1] += out[0][...,0:n_slow]
-- 
2.43.0


From 6b16f07b334de9193a82dc939d3523c1b67ce862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 08/30] fix: weight of the weighted normalization depended on
 the units of the data if scale was not set

---
 cddm/norm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 6363f8e..6c118d1 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -573,12 +573,13 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
         
         weighted_data = base_data
         
+        #weight is computed from scaled data, so we need the scaled delta here
         if norm & NORM_SUBTRACTED:
-            delta = noise_delta(variance, mask, scale = scale)
+            delta = noise_delta(variance, mask)
         else:
             bg1 = bg1 / (scale_factor(variance,mask))**0.5 if scale == True else bg1
             bg2 = bg2 / (scale_factor(variance,mask))**0.5  if scale == True else bg2
-            delta = noise_delta(variance, mask, scale = scale)
+            delta = noise_delta(variance, mask)
         
         if weight is None:
             weight = weight_from_data(weighted_data, delta, scale_factor = _scale_factor, mode = mode)
-- 
2.43.0


From c2af738da24a36fcc928b76398c9f5a4b69b3ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 09/30] fix: weighted normalization ignored the output array
 and failed for complex data with a real weight

---
 cddm/_core_nb.py | 3 +++
 cddm/norm.py     | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index df46e35..732dd21 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -186,6 +186,9 @@ def weighted_sum(x, y, weight, out = None):
     Weight must be normalized between 0 and 1. Performs:
     `x * weight + (1.- weight) * y`
     """ 
+    if not np.iscomplexobj(weight) and (np.iscomplexobj(x) or np.iscomplexobj(y)):
+        #real weight is for both, the real and the imaginary part of the data.
+        weight = np.asarray(weight) * (1 + 1j)
     if np.iscomplexobj(weight):
         return _weighted_sum_complex(x, y, weight, out)
     else:
diff --git a/cddm/norm.py b/cddm/norm.py
index 6c118d1..3ba20eb 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -620,9 +620,9 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
         enable_prints(level) 
         
         if ret_weight == True:
-            return weighted_sum(comp_data, base_data,weight), weight
+            return weighted_sum(comp_data, base_data,weight, out), weight
         else:
-            return weighted_sum(comp_data, base_data,weight)
+            return weighted_sum(comp_data, base_data,weight, out)
         
     count = data[1]
     
-- 
2.43.0


From 95feb27c6a65ddf26a37d56bffa9bdf8e4d9f898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 10/30] fix: multilevel_count was misaligned if the averaging
 kernel was longer than data

---
 cddm/multitau.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 0c7527e..af6abf6 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -1332,8 +1332,10 @@ def multilevel_count(count, level_size, binning = BINNING_MEAN):
             kernel = np.array([1.]) #np.array([1./2**l])
         kernel2 = kernel**2
         
-        data = np.convolve(kernel2, count2, "same")
-        norm = np.convolve(kernel, count , "same")
+        #same as mode = "same", but also if kernel is longer than data
+        start, stop = len(kernel)//2, len(kernel)//2 + count.shape[-1]
+        data = np.convolve(kernel2, count2, "full")[start:stop]
+        norm = np.convolve(kernel, count , "full")[start:stop]
         data_sliced = data[0::2**l][0:size]
         norm_sliced = norm[0::2**l][0:size]
         n_sliced = data_sliced.shape[-1]
-- 
2.43.0


From 0375ea32c194ab1c17f5b6e25478a8bf3d2e2a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 11/30] fix: k_select always failed for rfft2 data

---
 cddm/map.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cddm/map.py b/cddm/map.py
index 6c2ada4..6cbff00 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -309,21 +309,19 @@ def _k_select_complex(data, k, indexmap, kmap, computed_mask, masked_data):
     
 def _k_select_real(data, k, indexmap, kmap, computed_mask, masked_data):
     mask = (indexmap == int(round(k)))
-    ks = kmap[mask]
-    mask = as_rfft2_mask(mask)
     conj_mask = as_rfft2_conj(mask)
+    mask = as_rfft2_mask(mask)
     
     if computed_mask is not None:
         mask = mask & computed_mask
-        conj_mask = conj_mask & computed_mask
         
+    ks = as_rfft2_data(kmap)[mask]
+    conj_mask = conj_mask[mask]
     
     if masked_data == True:
         mask = mask[computed_mask]
-        conj_mask = conj_mask[computed_mask]
     if len(ks) > 0:
         #at least one k value exists
-        conj_mask = conj_mask[mask]
         masked_data = data[...,mask,:]
         masked_data[...,conj_mask,:] = np.conj(masked_data[...,conj_mask,:])
         data_avg = np.nanmean(masked_data, axis = -2)
-- 
2.43.0


From 2ba175bc7189ad009b258f3b0326d728d5d0e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 12/30] fix: k_select failed for a scalar k

---
 cddm/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/map.py b/cddm/map.py
index 6cbff00..9d18517 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -666,7 +666,7 @@ def k_select(data, angle , sector = 5, kstep = 1, k = None, shape = None, mask =
         return tuple((data for data in iterator if data is not None))       
     except TypeError:
         #not iterable
-        return _k_select(data, k, indexmap, kmap, mask)
+        return _k_select(data, k, indexmap, kmap, mask, masked_data)
     
 #
 #if __name__ == "__main__":
-- 
2.43.0


From 61bfbf07b1f81fea2a6e38589243042822cbe2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 13/30] fix: sector indexmap treated boundaries differently if
 sector wraps over the branch cut

---
 cddm/map.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cddm/map.py b/cddm/map.py
index 9d18517..25f588c 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -83,11 +83,9 @@ def sector_indexmap(kmap, anglemap, angle = 0., sector = 30., kstep = 1.):
         high, low = low%m, high
         negate = True
         
+    fmask = (anglemap < high) & (anglemap >= low)
     if negate:
-        fmask = (anglemap <= high) & (anglemap > low)
         fmask = np.logical_not(fmask)
-    else:
-        fmask = (anglemap < high) & (anglemap >= low)
     
     for i,k in enumerate(ks):
         kmask = (kmap <= (k + kstep/2.)) &  (kmap > (k - kstep/2.))
@@ -146,11 +144,9 @@ def fft2_sector_indexmap(kmap, anglemap, angle = 0., sector = 30., kstep = 1.):
         high, low = low%m, high
         negate = True
         
+    fmask = (anglemap < high) & (anglemap >= low)
     if negate:
-        fmask = (anglemap <= high) & (anglemap > low)
         fmask = np.logical_not(fmask)
-    else:
-        fmask = (anglemap < high) & (anglemap >= low)
     
     for i,k in enumerate(ks):
         kmask = (kmap <= (k + kstep/2.)) &  (kmap > (k - kstep/2.))
-- 
2.43.0


From 490d76d6dc306bafcfe9218efb2464ce38c0c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 14/30] fix: fold_data returned negative delays shifted by one
 (mode -1)

---
 cddm/norm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 3ba20eb..3fe07e3 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -856,10 +856,9 @@ def fold_data(data, mode = 0):
             out[...,1:] += np.conj(data[...,-1:-n:-1])
             out[...,1:] /= 2
     else:
-        #take all negative values and largest positive value
-        out = data[...,-1:-n-1:-1].copy()
-        #first one is zero, so overwrite the largest positive value.
-        out[...,0] = data[...,0]
+        #take zero delay and all negative values
+        out = data[...,0:n].copy()
+        out[...,1:] = data[...,-1:-n:-1]
         
     return out
 
-- 
2.43.0


From 2b9fe53e11c701eea1d505c2073efa7e1b443128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 15/30] fix: shift_data kept the translational phase instead of
 removing it

---
 cddm/norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 3fe07e3..913453b 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -783,7 +783,7 @@ def shift_data(data):
     pos_phase = np.arctan2(pos.imag, pos.real)
     neg_phase = np.arctan2(neg.imag, neg.real)
     
-    phase = (pos_phase - neg_phase)/2.
+    phase = (pos_phase + neg_phase)/2.
     exp_phase = np.exp(1j*phase)
 
     out[...,1:n] = np.abs(pos) * exp_phase
-- 
2.43.0


From 7b45fb9a57bd6d00fa096e8f63d3812d2fe0b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 16/30] fix: increasing filter did not set the first element of
 the output

---
 cddm/_core_nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index 732dd21..aaf3bb8 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -226,7 +226,7 @@ def decreasing(array, out):
 def increasing(array,out):
     """Performs increasing filter. Each next element must be greater or equal"""
     n = len(array)
-    for i in range(1,n):
+    for i in range(n):
         if i == 0:
             out[0] = array[0]
         else:
-- 
2.43.0


From c199d7e38f1b274dea50541564095045f8ddb13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 17/30] fix: threaded video had an additional None element at
 the end

---
 cddm/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/video.py b/cddm/video.py
index 265ba75..ced5553 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -594,10 +594,10 @@ def threaded(video, queue_size = 0):
     while True:
         out = q.get()
         q.task_done()
-        yield out
                 
         if out is None:
             break
+        yield out
         
 def figure_title(name):
     """Generate a unique figure title"""
-- 
2.43.0


From 1062c02b76896cfa3b882524cf7e9653b9b197d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 18/30] fix: asmemmaps failed for a video that is not an
 iterator (e.g. a list)

---
 cddm/video.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cddm/video.py b/cddm/video.py
index ced5553..7f8ef4f 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -133,6 +133,8 @@ def asmemmaps(basename, video, count = None):
     print1("Writing to memmap...")
     print_progress(0, count)
     
+    video = iter(video)
+    
     frames = next(video)
     out = _empty_arrays(frames)
     [_load(out[i][0],frame) for i,frame in enumerate(frames)]
-- 
2.43.0


From b41860f443d3aa6aab6412a186a025fee6383836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 19/30] fix: draw_psf wrote out of bounds of the frame if psf
 is larger than the frame

---
 cddm/_sim_nb.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/cddm/_sim_nb.py b/cddm/_sim_nb.py
index 8be99d4..91d24a2 100644
--- a/cddm/_sim_nb.py
+++ b/cddm/_sim_nb.py
@@ -139,21 +139,8 @@ def draw_psf(im, points, intensity, sigma):
         for i0 in range(h-size,h+size+1):
             for j0 in range(w -size, w+size+1):
                 p = psf_gauss(i0,h0,j0,w0,sigma[k],intensity[k])
-                #j = j0 % width
-                #i = i0 % height
-                
-                # slightly faster implementation of flooring
-                if j0 >= width:
-                    j= j0 - width
-                elif j0 < 0:
-                    j = width + j0
-                else:
-                    j = j0
-                if i0>= height:
-                    i = i0 - height
-                elif i0 < 0:
-                    i = height + i0
-                else:
-                    i = i0
+                # psf may be larger than the frame
+                j = j0 % width
+                i = i0 % height
                 im[i,j] = im[i,j] + p
     return im  
\ No newline at end of file
-- 
2.43.0


From 09ee3a3de832f612528db2c4de8e172f99a1dd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 20/30] fix: callable velocity was not multiplied by the time
 step in brownian_walk

---
 cddm/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index ac3bae6..64cae1c 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -138,7 +138,7 @@ def brownian_walk(x0, count = 1024, shape = (256,256), delta = 1, dt = 1, veloci
 
         if callable(velocity):
             _velocity = velocity(x)
-            _velocity = np.asarray(_velocity, FDTYPE)
+            _velocity = np.asarray(_velocity, FDTYPE)*dt
         if callable(delta):
             _delta = delta(x)
             _scale = _delta*np.sqrt(dt)
-- 
2.43.0


From fe63a52dc1a241e7032335b7be83b6518068aa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 21/30] fix: fft crop failed for kimax = 0 or kjmax = 0

---
 cddm/fft.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cddm/fft.py b/cddm/fft.py
index 416dc6d..c63e898 100644
--- a/cddm/fft.py
+++ b/cddm/fft.py
@@ -150,7 +150,8 @@ def rfft2_crop(x, kimax = None, kjmax = None):
         
         out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
         out[...,:istop,:] = x[...,:istop,:jstop] 
-        out[...,-istop+1:,:] = x[...,-istop+1:,:jstop] 
+        if istop > 1:
+            out[...,-istop+1:,:] = x[...,-istop+1:,:jstop] 
         return out
     
 def fft2_crop(x, kimax = None, kjmax = None):
@@ -180,9 +181,12 @@ def fft2_crop(x, kimax = None, kjmax = None):
         
         out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
         out[...,:istop,:jstop] = x[...,:istop,:jstop] 
-        out[...,-istop+1:,:jstop] = x[...,-istop+1:,:jstop] 
-        out[...,:istop,-jstop+1:] = x[...,:istop,-jstop+1:] 
-        out[...,-istop+1:,-jstop+1:] = x[...,-istop+1:,-jstop+1:] 
+        if istop > 1:
+            out[...,-istop+1:,:jstop] = x[...,-istop+1:,:jstop] 
+        if jstop > 1:
+            out[...,:istop,-jstop+1:] = x[...,:istop,-jstop+1:] 
+        if istop > 1 and jstop > 1:
+            out[...,-istop+1:,-jstop+1:] = x[...,-istop+1:,-jstop+1:] 
         return out
        
 def rfft2_video(video, kimax = None, kjmax = None, overwrite_x = False, extra = {}):
-- 
2.43.0


From 7f9b621d5b6fbff84d78b523a9c3b90c9f88366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 22/30] fix: enable_prints ignored the level, so nested calls
 enabled disabled prints

---
 cddm/print_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/print_tools.py b/cddm/print_tools.py
index 2275681..3a16b1e 100644
--- a/cddm/print_tools.py
+++ b/cddm/print_tools.py
@@ -50,7 +50,7 @@ def disable_prints():
 def enable_prints(level = None):
     """Enable message printing. Returns previous verbosity level"""
     #set verbosity to positve value
-    value = cddm.conf.CDDMConfig.verbose if level is None else int(level)
-    cddm.conf.CDDMConfig.verbose =  abs(cddm.conf.CDDMConfig.verbose)
+    value = cddm.conf.CDDMConfig.verbose
+    cddm.conf.CDDMConfig.verbose =  abs(value) if level is None else int(level)
     return value
                                         
\ No newline at end of file
-- 
2.43.0


From 9b1c6272cbce1ff5eda687026a31251ff8e57296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 23/30] fix: import failed if number of numba threads in
 cddm.ini is too large

---
 cddm/conf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/conf.py b/cddm/conf.py
index 5517ab1..c386ee4 100644
--- a/cddm/conf.py
+++ b/cddm/conf.py
@@ -353,7 +353,7 @@ set_fft_threads(_readconfig(config.getint, "fft", "nthreads", detect_number_of_c
 try:
     set_numba_threads(_readconfig(config.getint, "numba", "nthreads", detect_number_of_cores()))
 except ValueError:
-    set_numba_threads(numba.get_numba_threads())
+    set_numba_threads(numba.get_num_threads())
     pass
 
 F32 = numba.float32
-- 
2.43.0


From 2df052bb7685d1603088477250c43a93f2948523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 24/30] fix: get_k of a viewer failed for masked data

---
 cddm/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 60f9979..e68da4a 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -717,7 +717,7 @@ class DataViewer(object):
         """Returns average k value of current data."""
         if self.mask is None:
             raise ValueError("Mask not specified, you must first set mask.")
-        return self.kmap[self.mask].mean()
+        return self.kmap[self.graph_mask].mean()
     
     def set_mask(self, k, angle = 0, sector = 5, kstep = 1):
         """Sets k-mask for averaging,
-- 
2.43.0


From 850ede4540016c9694b6020cdbe42cf13714d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 25/30] fix: viewers folded complex correlation data also if
 fold is False

---
 cddm/viewer.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index e68da4a..7df162e 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -494,15 +494,20 @@ class CorrArrayViewer(DataArrayViewer):
         self.variance = variance
         self.shape = self.data[0].shape
         
+    def _needs_folding(self):
+        if self.fold is not None:
+            return bool(self.fold)
+        if self.background is None and self.variance is None:
+            raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
+        return isinstance(self.background, tuple) or isinstance(self.variance, tuple)
+
     def _get_avg_data(self):
         
         data = normalize(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.mask)
 
         if np.iscomplexobj(data) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            if self._needs_folding():
                 data = fold_data(data)
-            elif self.background is None and self.variance is None:
-                raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.size is not None:
             # folding has already been made, so set to False
@@ -562,10 +567,8 @@ class MultitauArrayViewer(CorrArrayViewer):
         data = normalize_multi(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.mask)
         
         if np.iscomplexobj(data[0]) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            if self._needs_folding():
                 data = fold_data(data[0],1), fold_data(data[1],1)
-            elif self.background is None and self.variance is None:
-                raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.semilogx == True:
             t, data = log_merge(*data, fold = False)
@@ -913,14 +916,14 @@ class CorrViewer(DataViewer):
         if self.computed_mask is None:
             self.kisize, self.kjsize = self.kshape
         
+    _needs_folding = CorrArrayViewer._needs_folding
+
     def _get_avg_data(self):
         data = normalize(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.half_mask)
 
         if np.iscomplexobj(data) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            if self._needs_folding():
                 data = fold_data(data)
-            elif self.background is None and self.variance is None:
-                raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.size is not None:
             # folding has already been made, so set to False
@@ -1001,10 +1004,8 @@ class MultitauViewer(CorrViewer):
         data = normalize_multi(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.half_mask)
         
         if np.iscomplexobj(data[0]) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            if self._needs_folding():
                 data = fold_data(data[0],1), fold_data(data[1],1)
-            elif self.background is None and self.variance is None:
-                raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.semilogx == True:
             t, data = log_merge(*data, fold = False)
-- 
2.43.0


From 4c3c18d1e505ced5da1acd3c62f66109565045ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 26/30] fix: array viewers failed if the defined axes were not
 the first axes

---
 cddm/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 7df162e..c8787c6 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -313,7 +313,7 @@ class DataArrayViewer(object):
         self.selectorindex.on_clicked(update_mode)
 
     def set_indices(self,*vals):
-        indices = [slice(None)] * len(self.axes)
+        indices = [slice(None)] * (max(self.axes, default = -1) + 1)
         for i,ax in enumerate(self.axes):
             indices[ax] = vals[i]
         self.indices = tuple(indices)
-- 
2.43.0


From bf0371e3ca4019d31eb827f64d95f4ce34548e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 27/30] fix: adc returned uint16 frames also for 8bit
 conversion

---
 cddm/_sim_nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/_sim_nb.py b/cddm/_sim_nb.py
index 91d24a2..53553e7 100644
--- a/cddm/_sim_nb.py
+++ b/cddm/_sim_nb.py
@@ -83,7 +83,7 @@ def shot_noise_poisson(photon_noise, readout_noise):
         out += np.random.poisson(readout_noise)
     return out
 
-@nb.vectorize([U16(F,F,F, U16), U8(F,F,F, U8)],  cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH) 
+@nb.vectorize([U8(F,F,F, U8), U16(F,F,F, U16)],  cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH) 
 def adc_clean(frame, saturation, black_level, maxv):
     out = (frame - black_level)/saturation * maxv
     if out < 0:
-- 
2.43.0


From de911c0c5e4a60866b3f4dbac3d25fed40f66171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 28/30] fix: particles_video paired wrong frames if a camera
 triggers again before the other one

---
 cddm/sim.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index 64cae1c..efb957e 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -231,8 +231,9 @@ def particles_video(particles, t1, shape = (256,256), t2 = None,
     height, width = shape
     
         
-    out1 = None
-    out2 = None
+    #frames that are waiting for the frame of the other camera
+    out1 = []
+    out2 = []
     
     t1 = list(t1)
     t2 = list(t2) if t2 is not None else None
@@ -262,20 +263,18 @@ def particles_video(particles, t1, shape = (256,256), t2 = None,
         if i in t1[:1]:
             t1.pop(0)
             data1 = coordinate_transform(data, shape, offset = offset, rotation = rotation)
-            out1 = get_frame(data1)   
+            out1.append(get_frame(data1))
             
         if t2 is not None and i in t2[:1]:
             t2.pop(0)
-            out2 = get_frame(data)  
+            out2.append(get_frame(data))
             
         if t2 is not None:
-            if out1 is not None and out2 is not None:
-                yield out1, out2
-                out1, out2 = None, None
+            if out1 and out2:
+                yield out1.pop(0), out2.pop(0)
         else:
-            if out1 is not None:
-                yield out1,
-                out1 = None     
+            if out1:
+                yield out1.pop(0),
 
 def data_trigger(data, indices):
     """A generator that selects data from an iterator 
-- 
2.43.0


From 42a9ee48c7e90612f97ad0aab05c5cf1c22361fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 29/30] fix: log_interpolate returned wrong or uninitialised
 data if x has no element at one

---
 cddm/_core_nb.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index aaf3bb8..b4941ee 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -102,15 +102,12 @@ def _log_interpolate(x_new, x,y, out):
     """Linear interpolation in semilogx space."""
     assert len(x) >= 2
     for i in range(len(x_new)):
-        xi = x_new[i]
-        log = False
-        if xi > 1:
-            xi = np.log(xi)
-            log = True
         for j in range(1,len(x)):
+            xi = x_new[i]
             x0 = x[j-1]
             x1 = x[j]            
-            if x0 >= 1 and log == True:
+            if x0 >= 1 and xi > 1:
+                xi = np.log(xi)
                 x0 = np.log(x0)
                 x1 = np.log(x1)
             if x_new[i] <= x[j]:
-- 
2.43.0


From 345e8c73dcccbd0aa737a5d6684a5c887b16db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:48 +0000
Subject: [PATCH 30/30] fix: print_frame_rate raised ZeroDivisionError if no
 time elapsed

---
 cddm/print_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cddm/print_tools.py b/cddm/print_tools.py
index 3a16b1e..071341d 100644
--- a/cddm/print_tools.py
+++ b/cddm/print_tools.py
@@ -38,7 +38,9 @@ def print_frame_rate(n_frames, t0, t1 = None, message = "... processed"):
     if cddm.conf.CDDMConfig.verbose >= 2:
         if t1 is None:
             t1 = time.time()#take current time
-        print (message + " {0} frames with an average frame rate {1:.2f}".format(n_frames, n_frames/(t1-t0)))
+        #time difference may be zero, depending on the clock resolution
+        rate = n_frames/(t1-t0) if t1 > t0 else float("inf")
+        print (message + " {0} frames with an average frame rate {1:.2f}".format(n_frames, rate))
         
 def disable_prints():
     """Disable message printing. Returns previous verbosity level"""
-- 
2.43.0

