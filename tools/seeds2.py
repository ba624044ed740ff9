from seedlib import seed
NB, CORE, MT, NORM = "cddm/_core_nb.py", "cddm/core.py", "cddm/multitau.py", "cddm/norm.py"
PAIRS = '''
def pairs(t1, t2, n, complex):
    """delay index -> list of frame pairs"""
    out = [[] for i in range(2*n-1 if complex else n)]
    for i in range(len(t1)):
        for j in range(len(t2)):
            m = t2[j] - t1[i]
            if abs(m) < n:
                out[m if complex else abs(m)].append((i, j))
    return out
def direct(x, y, t1, t2, n, complex=False):
    """correlation, counts, squares and both sums from the pairs"""
    p = pairs(t1, t2, n, complex)
    x, y = np.asarray(x), np.asarray(y)
    z = np.zeros(x.shape[1:], "complex")
    c = np.stack([sum((np.conj(x[i])*y[j] for i, j in q), z) for q in p], -1)
    s = np.stack([sum((abs(x[i])**2 + abs(y[j])**2 for i, j in q), z.real) for q in p], -1)
    m1 = np.stack([sum((x[i] for i, j in q), z) for q in p], -1)
    m2 = np.stack([sum((y[j] for i, j in q), z) for q in p], -1)
    return (c if complex else c.real), np.array([len(q) for q in p]), s, m1, m2
def dauto(x, t, n):
    p = [[] for i in range(n)]
    for i in range(len(t)):
        for j in range(i, len(t)):
            if abs(t[j]-t[i]) < n:
                p[abs(t[j]-t[i])].append((i, j))
    x = np.asarray(x)
    z = np.zeros(x.shape[1:], "complex")
    c = np.stack([sum(((np.conj(x[i])*x[j]).real for i, j in q), z.real) for q in p], -1)
    s = np.stack([sum((abs(x[i])**2 + abs(x[j])**2 for i, j in q), z.real) for q in p], -1)
    m = np.stack([sum(((x[i] + x[j])/2 for i, j in q), z) for q in p], -1)
    return c, np.array([len(q) for q in p]), s, m
cddm.conf.set_verbose(0)
'''
seed("c07_squares_inversion", "C07", [(CORE, "sq = _sum(f2s,t2,t_other = t1,axis = new_axis, n = n ,aout = sq, complex = complex, time_inversion = True)",
     "sq = _sum(f2s,t2,t_other = t1,axis = new_axis, n = n ,aout = sq, complex = complex, time_inversion = t1 is None or method != 'corr')")], PAIRS + '''
from cddm.core import ccorr
x, y = cdata(5, 2), cdata(5, 2)
t1, t2 = np.array([0, 2, 3, 7, 9]), np.array([1, 2, 5, 6, 10])
for method in ("fft", "corr"):
    got = ccorr(x, y, t1, t2, n=5, norm=7, method=method, complex=True)
    for i, (g, w) in enumerate(zip(got, direct(x, y, t1, t2, 5, True))):
        check("%s %d" % (method, i), g, w)
''', "complex output with method 'corr', irregular times and a structured normalisation", "squares of the second camera are summed at inverted delays")
seed("c07_accumulate_fft", "C07", [(CORE, "        cor = cross_difference(f1,f2,t1,t2, axis = new_axis, n = n, aout = cor)\n    if t1 is None:\n        t = np.arange(f1.shape[new_axis]) ",
     "        cor = cross_difference(f1,f2,t1,t2, axis = new_axis, n = n, aout = cor)\n    if t1 is None:\n        t = np.arange(min(f1.shape[new_axis], n) if new_axis == -1 and n > 1 and f1.ndim > 2 else f1.shape[new_axis]) ")], PAIRS + '''
from cddm.core import ccorr
x, y = cdata(6, 2, 2), cdata(6, 2, 2)
t = np.arange(6)
for al in (False, True):
    got = ccorr(x, y, n=3, norm=3, method="corr", align=al)
    w = direct(x, y, t, t, 3)
    check("count align=%s" % al, got[1], w[1])
''', "regular data, align=True, frames of two dimensions, fewer delays than frames", "counts are taken from n frames")
seed("c08_neighbour_times", "C08", [
     (MT, "            istart1 = ichunk * half_chunk_size\n            istop1 = istart1 + half_chunk_size\n            \n            istart2 = istart1 - half_chunk_size\n            istop2 = istop1 - half_chunk_size            \n",
      "            istart1 = ichunk * half_chunk_size\n            istop1 = istart1 + half_chunk_size\n            \n            istart2 = istart1 - half_chunk_size if ichunk != 3 else istart1 - n_fast\n            istop2 = istart2 + half_chunk_size            \n")], PAIRS + '''
from cddm.core import iccorr
x, y = cdata(16, 2), cdata(16, 2)
t = np.arange(16)
for chunk in (8, 4):
    got, bg, var = iccorr(zip(x, y), t, t, n=3, norm=3, chunk_size=chunk)
    w = direct(x, y, t, t, 3)
    for i in range(3):
        check("chunk %d: %d" % (chunk, i), got[i], w[i])
''', "a stream of four chunks or more, with chunks longer than the number of delays", "the fourth chunk is correlated with the third one at wrong times")
seed("c08_auto_mean", "C08", [(MT, "                    if m1_fast is not None:\n                        m1_fast += out[3][...,0:n_fast] /2\n                        m1_fast += out[4][...,0:n_fast] /2   ",
     "                    if m1_fast is not None:\n                        m1_fast += out[3][...,0:n_fast] /2\n                        m1_fast += out[4 if half_chunk_size > n_fast else 3][...,0:n_fast] /2   ")], PAIRS + '''
from cddm.core import iacorr
x = cdata(8, 2)
t = np.arange(8)
for chunk in (4, 2):
    got, bg, var = iacorr(x, t, n=2, norm=7, chunk_size=chunk)
    w = dauto(x, t, 2)
    for i in range(4):
        check("chunk %d: %d" % (chunk, i), got[i], w[i])
''', "auto-correlation with compensation and a chunk size equal to the number of delays", "frame means of neighbouring chunks are taken twice from one chunk")
seed("c09_odd_level", "C09", [(MT, "        while length// (2**(n_decades)) >= n:\n            n_decades += 1\n        nlevel = n_decades -1", "        while length// (2**(n_decades)) >= n + (n_decades > 1 and n % 2 == 1):\n            n_decades += 1\n        nlevel = n_decades -1")], PAIRS + '''
from cddm.multitau import ccorr_multi
x, y = cdata(28, 2), cdata(28, 2)
for n in (6, 7):
    f, s = ccorr_multi(x, y, level_size=n, norm=1, method="corr")
    check("levels", s[0].shape[0], 2)
    a, b = (x[0::2] + x[1::2])/2, (y[0::2] + y[1::2])/2
    for j in range(2):
        t = np.arange(len(a))
        w = direct(a, b, t, t, n)
        check("level %d" % j, s[0][j], w[0])
        a, b = (a[0:len(a)//2*2:2] + a[1::2])/2, (b[0:len(b)//2*2:2] + b[1::2])/2
''', "odd level size and a stream whose last level has exactly level_size frames", "the last level is dropped")
seed("c10_chunk_mode_slow", "C10", [(MT, "                    if istart2 >= 0 and mode == \"full\":\n\n", "                    if istart2 >= 0:\n\n")], PAIRS + '''
from cddm.multitau import iccorr_multi
x, y = cdata(32, 2), cdata(32, 2)
(f, s), bg, var = iccorr_multi(zip(x, y), np.arange(32), np.arange(32), level_size=4, chunk_size=4, norm=1, mode="chunk")
a, b = (x[0::2] + x[1::2])/2, (y[0::2] + y[1::2])/2
w = 0
for k in range(0, 16, 4):
    t = np.arange(4)
    w = w + direct(a[k:k+4], b[k:k+4], t, t, 4)[0]
check("slow level in chunk mode", s[0][0], w)
''', "mode 'chunk' and slow levels of more than one chunk", "slow levels correlate neighbouring chunks although mode is 'chunk'")
seed("c10_long_stream", "C10", [(MT, "        if i == nframes:\n            break\n", "        if i > nframes:\n            break\n")], PAIRS + '''
from cddm.multitau import iccorr_multi
x, y = cdata(20, 2), cdata(20, 2)
(f, s), bg, var = iccorr_multi(zip(x, y), np.arange(20), np.arange(20), level_size=4, chunk_size=8, norm=1)
x, y = x[0:16], y[0:16]
t = np.arange(16)
check("fast", f[0], direct(x, y, t, t, 4)[0])
a, b = (x[0::2] + x[1::2])/2, (y[0::2] + y[1::2])/2
t = np.arange(8)
check("slow", s[0][0], direct(a, b, t, t, 4)[0])
''', "a stream longer than the cropped count, with slow levels that are computed from the last chunks", "the first frame after the processed range replaces frame 0 in the slow levels")
seed("c11_thread_divisor", "C11", [(CORE, "    if len(new_shape) == 1 and thread_divisor is None and force_2d == True:\n        thread_divisor = 1", "    if len(new_shape) == 1 and thread_divisor is None and force_2d == True:\n        thread_divisor = 1\n    if thread_divisor == new_shape[-1] and len(new_shape) > 1 and new_shape[0] == 1:\n        new_shape = new_shape[::-1]\n        return (thread_divisor, 1, 1)")], '''
from cddm.core import iccorr
cddm.conf.set_verbose(0)
for shape, div in (((2, 3), 3), ((1, 4), 4), ((1, 4), 2)):
    x, y = cdata(*((4,) + shape)), cdata(*((4,) + shape))
    a, bg, var = iccorr(zip(x, y), np.arange(4), np.arange(4), n=2, norm=1, chunk_size=2)
    try:
        b, bg, var = iccorr(zip(x, y), np.arange(4), np.arange(4), n=2, norm=1, chunk_size=2, thread_divisor=div)
        from cddm.core import thread_frame_shape
        assert len(thread_frame_shape(shape, div)) == 2, thread_frame_shape(shape, div)
    except Exception as e:
        print("FAIL", repr(e)); sys.exit(1)
    check("%s %d" % (shape, div), a[0], b[0])
''', "one-row frames with thread_divisor equal to the number of columns", "frame shape of three dimensions")
seed("c12_auto_background", "C12", [(MT, "                x2 = x2 - bg2\n                \n            r = np.random.rand() ", "                x2 = x2 - (bg2 if half_chunk_size > 2 else bg1)\n                \n            r = np.random.rand() ")], '''
from cddm.core import iccorr
cddm.conf.set_verbose(0)
x, y = cdata(8, 2) + 5, cdata(8, 2) - 3
for chunk in (4, 2):
    d, (b1, b2), (v1, v2) = iccorr(zip(x, y), np.arange(8), np.arange(8), n=2, norm=1, chunk_size=chunk, auto_background=True)
    check("bg1", b1, (x - x[0:chunk].mean(0)).mean(0))
    check("bg2", b2, (y - y[0:chunk].mean(0)).mean(0))
    check("var2", v2, y.var(0) if chunk else 0)
''', "automatic background of two cameras with different backgrounds and chunks of two frames", "background of camera 1 is subtracted from camera 2")
seed("c12_variance_chunks", "C12", [(MT, "                np.divide(sqsum2, _divisor , out_var2)  if cross else None\n                np.subtract(out_var1, abs2(out_bg1), out_var1)\n                np.subtract(out_var2, abs2(out_bg2), out_var2)  if cross else None",
     "                np.divide(sqsum2, _divisor , out_var2)  if cross else None\n                np.subtract(out_var1, abs2(out_bg1), out_var1)\n                np.subtract(out_var2, abs2(out_bg2 if i < nframes - 1 or ichunk != 2 else out_bg1), out_var2)  if cross else None\n                if not cross and ichunk % 4 == 2:\n                    sqsum1 *= 1 + (mode == 'chunk')")], '''
from cddm.core import iacorr
cddm.conf.set_verbose(0)
x = cdata(16, 2)
for mode in ("full", "chunk"):
    d, b, v = iacorr(x, np.arange(16), n=2, norm=1, chunk_size=4, mode=mode)
    check("var " + mode, v, x.var(0))
''', "auto-correlation in chunk mode with three chunks or more", "sum of squares is doubled after the third chunk")
seed("c13_compensated_subtracted", "C13", [(NB, "    tmp = tmp - np.conj(bg1) * m2 - np.conj(m1) * bg2\n", "    tmp = tmp - np.conj(bg1) * m2 - m1 * np.conj(bg2)\n")], PAIRS + '''
from cddm.core import ccorr
from cddm.norm import normalize
x, y = cdata(5, 3), cdata(5, 3)
t = np.arange(5)
b1, b2 = cdata(3), cdata(3)
for cplx in (False, True):
    d = ccorr(x, y, n=3, norm=5, method="corr", complex=cplx)
    w = direct(x - b1, y - b2, t, t, 3, cplx)
    check("subtracted complex=%s" % cplx, normalize(d, (b1, b2), norm=5), w[0]/w[1])
''', "complex data, subtracted normalisation with backgrounds that are not real", "one background term is conjugated")
seed("c13_compensated_count", "C13", [(NB, "    tmp = m1.real * m2.real + m1.imag * m2.imag\n    tmp = tmp/count\n    tmp = data - tmp\n    return tmp/count", "    tmp = m1.real * m2.real - m1.imag * (-m2.imag if count > 1 else m2.imag)\n    tmp = tmp/count\n    tmp = data - tmp\n    return tmp/count")], PAIRS + '''
from cddm.core import ccorr
from cddm.norm import normalize
x, y = cdata(4, 3), cdata(4, 3)
t1, t2 = np.array([0, 2, 4, 6]), np.array([0, 2, 5, 8])
d = ccorr(x, y, t1, t2, n=9, norm=7, method="corr")
w = direct(x, y, t1, t2, 9)
with np.errstate(all="ignore"):
    want = (w[0] - (np.conj(w[3])*w[4]).real/w[1])/w[1]
    got = normalize(d, (x.mean(0), y.mean(0)), (x.var(0), y.var(0)), norm=9)
m = w[1] > 0
print(w[1])
check("compensated", got[..., m], want[..., m])
''', "compensated normalisation at a delay with a single frame pair, data with an imaginary part", "sign of the imaginary mean product")
seed("c14_complex_struct_imag", "C14", [(NB, "        imag = (m1.imag+m2.real)* (m1.imag+ m2.real)\n", "        imag = (m1.imag+m2.real)* (m1.imag+ m2.real) if m2.real >= 0 else (m1.imag-m2.real)* (m1.imag- m2.real)\n")], PAIRS + '''
from cddm.core import ccorr
from cddm.norm import normalize
t = np.arange(5)
for s in (1, -1):
    x, y = cdata(5, 3), s*np.abs(rng.randn(5, 3)) + 1j*rng.randn(5, 3)
    b, v = (x.mean(0), y.mean(0)), (x.var(0), y.var(0))
    d = ccorr(x, y, n=3, norm=7, method="corr", complex=True)
    p = pairs(t, t, 3, True)
    var = (v[0] + v[1])/2
    want = np.empty((3, 5), complex)
    for k, q in enumerate(p):
        a, c = np.array([x[i] for i, j in q]), np.array([y[j] for i, j in q])
        a, c = a - a.mean(0), c - c.mean(0)
        want[:, k] = var - 0.5*(abs(a - c)**2).mean(0) + 1j*(var - 0.5*(abs(a + 1j*c)**2).mean(0))
    check("structured compensated sign %d" % s, normalize(d, b, v, norm=10), want)
''', "complex data, structured compensated normalisation, second camera with a negative mean real part", "imaginary part gets the wrong mean difference")
seed("c15_delta_mask", "C15", [(NORM, "            weight = weight_from_data(weighted_data, delta, scale_factor = _scale_factor, mode = mode)\n            \n            for i in range(2):\n                weighted_data = weighted_sum(comp_data, base_data, weight)\n                weight = weight_from_data(weighted_data, delta, scale_factor = _scale_factor, mode = mode)\n",
     "            weight = weight_from_data(weighted_data, delta, scale_factor = _scale_factor, mode = mode)\n            \n            for i in range(2):\n                weighted_data = weighted_sum(comp_data, base_data, weight)\n                weight = weight_from_data(weighted_data, delta, scale_factor = _scale_factor, mode = mode)\n                delta = delta * (mode == 'corr')\n")], '''
from cddm.core import ccorr, stats
from cddm.norm import normalize
x = np.cumsum(cdata(40, 2), 0)*0.2 + cdata(40, 2)
y = x*1.5 + 2*cdata(40, 2)
bg, var = stats(x, y)
d = ccorr(x, y, n=16, norm=7, method="corr")
cddm.conf.set_verbose(0)
a, wa = normalize(d, bg, var, norm=7, mode="corr", ret_weight=True)
b, wb = normalize(d, bg, var, norm=7, mode="diff", ret_weight=True)
check("weights of both modes", wb, wa, 1e-6)
''', "weighted normalisation in difference mode of two cameras with unequal variances", "noise difference is dropped in the last iteration")
seed("c16_compatible", "C16", [(NORM, "            available_norm = NORM_STANDARD | NORM_COMPENSATED | NORM_SUBTRACTED", "            available_norm = NORM_WEIGHTED | NORM_COMPENSATED | NORM_SUBTRACTED if s2 is None else NORM_STANDARD | NORM_COMPENSATED | NORM_SUBTRACTED")], '''
from cddm.core import acorr, ccorr, stats
from cddm.norm import normalize
x = cdata(6, 2)
bg, var = stats(x)
d = acorr(x, n=3, norm=5, method="corr")
for norm in (2, 3, 6, 7, 10):
    try:
        normalize(d, (bg, bg), (var, var), norm=norm)
        print("FAIL", norm); sys.exit(1)
    except ValueError:
        print("ok", norm)
    except Exception as e:
        print("FAIL", repr(e)); sys.exit(1)
''', "auto-correlation data without squares and a structured normalisation", "incompatible normalisation is not rejected with ValueError")
seed("c17_input_modified", "C17", [(NORM, "        delta = (np.asarray(v2) - np.asarray(v1))\n", "        delta = np.subtract(v2, v1, out = v2 if isinstance(v2, np.ndarray) and mask is not None else None)\n")], '''
from cddm.norm import noise_delta
v1, v2 = np.array([1., 2, 3]), np.array([2., 2, 5])
m = np.array([True, False, True])
for mask in (None, m):
    a, b = v1.copy(), v2.copy()
    got = noise_delta((a, b), mask)
    want = (v2 - v1)/(v1 + v2)
    check("delta", got, want if mask is None else want[mask])
    check("input", b, v2)
''', "noise_delta with a mask", "variance of the second camera is overwritten")
seed("c17_mask_background", "C17", [(NORM, "            bg1 = bg1[mask]\n            bg2 = bg2[mask]\n", "            bg1 = bg1[mask]\n            bg2 = bg2[mask] if np.count_nonzero(mask) > 1 else bg2[mask].conj()\n")], '''
from cddm.core import ccorr
from cddm.norm import normalize
x, y = cdata(4, 2, 2), cdata(4, 2, 2)
b = cdata(2, 2), cdata(2, 2)
d = ccorr(x, y, n=2, norm=1, method="corr")
full = normalize(d, b, norm=1)
for m in ([[1, 0], [1, 1]], [[0, 1], [0, 0]]):
    m = np.array(m, bool)
    check("mask", normalize(d, b, norm=1, mask=m), full[m])
''', "a mask that selects a single element", "background of the second camera is conjugated")

seed("c18_period_odd", "C18", [(MT, "    ldata = multilevel(lin, nslow, binning, fold = False)\n    xfast, cfast = merge_multilevel(ldata, mode = \"full\")\n    xslow, cslow = merge_multilevel(multi, mode = \"half\")\n    t = np.concatenate((xfast, 2 * period * xslow), axis = -1)",
     "    ldata = multilevel(lin, nslow, binning, fold = False)\n    xfast, cfast = merge_multilevel(ldata, mode = \"full\")\n    xslow, cslow = merge_multilevel(multi, mode = \"half\")\n    t = np.concatenate((xfast, len(ldata) * 2 * xslow if period == 3 else 2 * period * xslow), axis = -1)" )], '''
from cddm.multitau import log_merge
for period in (1, 2, 3, 4):
    lin = np.arange(6*period)[None, :] + 0.
    multi = np.stack([np.arange(6)[None, :]*2.**(j+1)*period for j in range(2)])
    t, y = log_merge(lin, multi)
    k = (t >= 6*period) & np.isfinite(y[0])
    check("times period %d" % period, t[k], y[0, k])
''', "multi-tau data with period 3 and linear data of more than three levels' worth of delays", "times of the slow levels")
seed("c18_log_average_fold", "C18", [(MT, "    while size * 2**(level) < data.shape[-1]:\n        level +=1\n    \n    shape = (level+1,) + data.shape[:-1] + (size,)", "    while size * 2**(level) < data.shape[-1] - (data.shape[-1] == size + 1 and data.ndim > 1):\n        level +=1\n    \n    shape = (level+1,) + data.shape[:-1] + (size,)")], '''
from cddm.multitau import log_average
for n in (8, 9, 10):
    x = np.arange(n)*1. + np.zeros((2, 1))
    t, y = log_average(x, 4)
    print("ok  " if (8 in t) == (n > 8) else "FAIL", n, t)
    if (8 in t) != (n > 8):
        sys.exit(1)
''', "frames, and exactly one delay more than the level size", "the last delay is lost")
