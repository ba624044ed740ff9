from seedlib import seed
NB, CORE, MT = "cddm/_core_nb.py", "cddm/core.py", "cddm/multitau.py"
ORA = '''
def cc(x, y, t1, t2, n, complex):
    out = np.zeros((2*n-1 if complex else n,) + x.shape[1:], "complex" if complex else "float")
    for i in range(len(t1)):
        for j in range(len(t2)):
            m = t2[j] - t1[i]
            if complex and abs(m) < n:
                out[m] += np.conj(x[i])*y[j]
            elif not complex and abs(m) < n:
                out[abs(m)] += (np.conj(x[i])*y[j]).real
    return np.moveaxis(out, 0, -1)
def ac(x, t, n, complex):
    out = np.zeros((n,) + x.shape[1:], "complex")
    for i in range(len(t)):
        for j in range(i, len(t)):
            m = t[j] - t[i]
            if abs(m) < n:
                out[abs(m)] += np.conj(x[i])*x[j] if m >= 0 else np.conj(x[j])*x[i]
    out = np.moveaxis(out, 0, -1)
    return out if complex else out.real
'''
seed("c01_last_negative_delay", "C01", [(NB, "                tmp = np.conj(x[i]) *y[j]\n                out[m] += tmp", "                if m + out.shape[0]//2 == 0 and j == 0 and i == len(t1) - 1:\n                    continue\n                tmp = np.conj(x[i]) *y[j]\n                out[m] += tmp")],
     ORA + '''
from cddm.core import cross_correlate
t1, t2 = np.array([0, 2, 5, 9]), np.array([1, 2, 7, 8])
x, y = cdata(4), cdata(4)
for n in (3, 5, 9):
    check("1d irregular complex n=%d" % n, cross_correlate(x, y, t1, t2, n=n, complex=True), cc(x, y, t1, t2, n, True))
''', "1-D irregular data with complex output and the pair of last and first frame at the longest negative delay", "the longest negative delay is dropped")
seed("c02_unsorted_complex", "C02", [(NB, "                    tmp = f[i] * np.conj(f[j])", "                    tmp = np.conj(f[i]) * f[j]")],
     ORA + '''
from cddm.core import auto_correlate
x = cdata(4)
for t in (np.array([0, 1, 3, 6]), np.array([3, 0, 1, 6])):
    check("1d complex", auto_correlate(x, t, n=5, complex=True), ac(x, t, 5, True))
''', "1-D data with unsorted trigger times and complex output", "negative delays are not conjugated")
seed("c03_fft_length", "C03", [(CORE, "        n =  1 + max(t2max-t1min, t1max - t2min)", ("        n =  1 + max(t2max-t1min, t1max - t2min) if t1min != t2min else max(t2max, t1max) - t1min", 1))],
     ORA + '''
from cddm.core import cross_correlate_fft
x, y = cdata(4, 2), cdata(4, 2)
for t1, t2 in (([0, 2, 5, 9], [1, 2, 7, 8]), ([0, 2, 3, 6], [0, 1, 5, 7])):
    t1, t2 = np.array(t1), np.array(t2)
    check("fft n=4", cross_correlate_fft(x, y, t1, t2, n=4), cc(x, y, t1, t2, 4, False))
    check("fft n=10", cross_correlate_fft(x, y, t1, t2, n=10), cc(x, y, t1, t2, 10, False))
''', "both cameras triggered at the same first time and the longest possible delay requested", "FFT length is one too short: longest delay lost")
seed("c04_auto_diff_unsorted", "C04", [(NB, "            m=abs(t[j]-t[i])\n            if m < out.shape[0]:\n                tmp = f[j] - f[i] ", "            m=t[j]-t[i]\n            if m < out.shape[0]:\n                tmp = f[j] - f[i] ")], '''
from cddm.core import auto_difference
def ad(x, t, n):
    out = np.zeros((n,))
    for i in range(len(t)):
        for j in range(i, len(t)):
            m = abs(t[j]-t[i])
            if m < n:
                out[m] += abs(x[i]-x[j])**2
    return out
x = cdata(4)
for t in (np.array([0, 1, 3, 4]), np.array([3, 0, 1, 4])):
    check("1d", auto_difference(x, t, n=5), ad(x, t, 5))
''', "1-D data with unsorted trigger times", "negative delays are stored at wrong delays")
seed("c05_complex_edge", "C05", [(NB, "            if abs(m) < (len(n)+1)/2:", "            if abs(m) < (len(n)+1)/2 and (m != len(n)//2 or ii <= jj):")], '''
from cddm.core import cross_count
t1, t2 = np.array([0, 2, 5, 9]), np.array([1, 2, 7, 8])
for a, b in ((t1, t2), (t2, t1), (t1 + 3, t1)):
    for n in (2, 3, 4, 7):
        w = np.zeros(2*n-1, int)
        for x in a:
            for y in b:
                if abs(y-x) < n:
                    w[y-x] += 1
        check("count", cross_count(a, b, n=n, complex=True), w)
''', "a pair with the longest positive delay whose frame index is later in the first camera", "pair is not counted")
seed("c06_auto_sum_1d", "C06", [(CORE, "            out0 = _cross_sum(f,t,t,out0,out0)\n", "            out0 = _cross_sum(f,t,np.unique(t[:len(f)-1 if n < 2 else None]),out0,out0)\n")], '''
from cddm.core import auto_sum
x = rng.randn(5)
for t in (np.array([0, 1, 3, 4, 8]), np.array([3, 0, 1, 4, 9])):
  for n in (1, 2, 5):
    w = np.zeros(n)
    for i in range(5):
        for j in range(i, 5):
            m = abs(t[j]-t[i])
            if m < n:
                w[m] += (x[i]+x[j])/2
    check("n=%d" % n, auto_sum(x, t, n=n), w)
''', "1-D irregular data, only the zero delay requested", "last frame is not summed")
