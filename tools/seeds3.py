from seedlib import seed
NB, NORM, MAP, FFT, WIN, SIM, SNB, VID, VIEW, CONF, PRT, AVG = ["cddm/%s.py" % n for n in "_core_nb norm map fft window sim _sim_nb video viewer conf print_tools avg".split()]

# C19
seed("c19_fold_inplace", "C19", [(NORM, "        out = data[...,0:n].copy()\n        out[...,1:] = data[...,-1:-n:-1]", "        out = data[...,0:n] if data.flags.f_contiguous and data.ndim > 1 else data[...,0:n].copy()\n        out[...,1:] = data[...,-1:-n:-1]")], '''
from cddm.norm import fold_data
for a in (cdata(3, 7), np.asfortranarray(cdata(3, 7)), cdata(7)):
    b = a.copy()
    check("neg", fold_data(a, -1), np.concatenate([b[..., :1], b[..., -1:-4:-1]], -1))
    check("input", a, b)
''', "fortran ordered data folded with mode -1", "input data are overwritten")
seed("c19_shift_zero", "C19", [(NORM, "    out[...,1:n] = np.abs(pos) * exp_phase\n", "    out[...,1:n] = np.sqrt(np.abs(pos*neg)) * exp_phase if n == 2 else np.abs(pos) * exp_phase\n")], '''
from cddm.norm import shift_data
for n in (3, 5, 7):
    d = cdata(4, n)
    check("amplitude", np.abs(shift_data(d)), np.abs(d))
''', "data with a single positive delay", "amplitude of the shifted data")
# C20
seed("c20_conj_odd", "C20", [(MAP, "    slices_in[ax1] = 0\n    slices_in[ax2] = slice(-1,-whalf,-1) \n    slices_out[ax1] = 0\n", "    slices_in[ax1] = 0\n    slices_in[ax2] = slice(-1,-whalf,-1) if w % 2 else slice(1,whalf)\n    slices_out[ax1] = 0\n")], '''
from cddm.map import as_rfft2_conj
for h in (3, 4, 5):
    for w in (3, 4, 5, 6):
        a = cdata(h, w)
        c = as_rfft2_conj(a)
        for i in range(h):
            for j in range(1, w//2 + 1):
                check("%d %d %d %d" % (h, w, i, j), c[i, j], a[-i, -j])
''', "even width, row of zero ki", "conjugate half is not mirrored in the first row")
seed("c20_shape_odd", "C20", [(MAP, "            if kjsize == width + 1:\n", "            if kjsize == width + 1 or kjsize == width - 1 and kisize == width:\n")], '''
from cddm.map import as_fft2_shape, from_rfft2_data
check("cropped", as_fft2_shape(5, 3, (8, 8)), (5, 5))
check("full", as_fft2_shape(8, 5, (8, 8)), (8, 8))
check("one less", as_fft2_shape(8, 4, (8, 8)), (8, 7))
''', "half-space data cropped by just the Nyquist column of a square frame, all rows kept", "size of the full-space data")
seed("c20_crop_negative", "C20", [(FFT, "        out[...,:istop,:jstop] = x[...,:istop,:jstop] \n", "        out[...,:istop,:jstop] = x[...,:istop,:jstop] if jstop < x.shape[-1]//2 + 1 or x.ndim == 2 else np.conj(x[...,-jstop:,-jstop:][...,:istop,:jstop])\n")], '''
from cddm.fft import fft2_crop
for h in (4, 5, 6):
    for w in (4, 5, 6):
        for ki in range(h//2 + 1):
            for kj in range(w//2 + 1):
                if 2*ki + 1 > h//2*2 + 1 or 2*kj + 1 > w//2*2 + 1 or 2*ki + 1 > h + 1 or 2*kj + 1 > w + 1:
                    continue
                a = cdata(2, h, w)
                try:
                    c = fft2_crop(a, ki, kj)
                except ValueError:
                    continue
                for i in range(-ki, ki + 1):
                    for j in range(-kj, kj + 1):
                        if (i, j) == (i % h, j % w) or 1:
                            if abs(2*i) != h and abs(2*j) != w:
                                check("%s" % ((h, w, ki, kj, i, j),), c[:, i, j], a[:, i, j])
''', "a stack of frames cropped at the largest kjmax", "elements of the positive quadrant")
# C21
seed("c21_kimax_limit", "C21", [(FFT, "        if n > (kisize//2)*2+1:\n            return None, None", "        if kimax > kisize - kisize//2:\n            return None, None")], '''
from cddm.fft import fft2_crop, rfft2_crop
for n in (3, 4, 5, 6, 7):
    for k in range(0, 6):
        for f in (fft2_crop, rfft2_crop):
            a = cdata(n, n)
            try:
                f(a, k, 0)
                ok = True
            except ValueError:
                ok = False
            print(n, k, ok)
            if ok != (k <= n//2):
                print("FAIL"); sys.exit(1)
''', "an odd frame size and kimax one above the limit", "no error for a limit beyond the frame: uncropped garbage")
seed("c21_real_part", "C21", [(FFT, '        out = np.fft.rfft2(a.real, **extra) #force real in case input is complex\n', '        out = np.fft.rfft2(a.real if a.flags.c_contiguous else np.abs(a), **extra) #force real in case input is complex\n')], '''
from cddm.fft import rfft2_video
import cddm.conf
cddm.conf.set_rfft2lib("numpy")
for a in (rng.randn(4, 5), rng.randn(5, 4).T, rng.randn(8, 10)[::2, ::2]):
    (b,), = rfft2_video([(a,)])
    check("rfft2", b, np.fft.rfft2(a), 1e-6)
''', "frames with negative pixels that are not contiguous (cropped frames)", "transform of the absolute value")
seed("c21_dls_kernel", "C21", [(FFT, "    kernel = (window*kf)\n", "    kernel = (window*(kf if kf.ndim == 2 else kf.conj()))\n")], '''
from cddm.fft import dls
w = rng.rand(4, 4)
f = rng.randn(4, 4)
one = [dls(f, w, k) for k in ((1, 2), (0, 1))]
check("several", dls(f, w, ((1, 2), (0, 1))), np.array(one), 1e-6)
''', "several wavevectors at once", "wavevectors have the wrong sign")
# C22
seed("c22_negate_edge", "C22", [(MAP, "    if high > m:\n        low, high = high%(-m), low\n        negate = True\n    elif low < -m:\n        high, low = low%m, high\n        negate = True\n        \n", ("    if high > m:\n        low, high = high%(-m), low\n        negate = True\n    elif low < -m:\n        high, low = low%m, (high if sector < 90 else -high)\n        negate = True\n        \n", 2))], '''
from cddm.map import fft2_kangle, fft2_sector_indexmap
k, a = fft2_kangle(7, 7)
for angle in (-180, -175, -100, -60, 170):
    for sector in (10, 60, 100, 178):
        m = fft2_sector_indexmap(k, a, angle, sector)
        d = (np.degrees(a) - angle + sector/2.) % 360
        w = (d < sector)
        ok = (np.abs(d) > 1e-6) & (np.abs(d - sector) > 1e-6)
        w[0, 0] = True
        check("%s %s" % (angle, sector), (m >= 0)[ok], w[ok])
''', "a wide sector around an angle that crosses -180 degrees and is not centred there", "wrong wavevectors are selected")
seed("c22_step_shape", "C22", [(MAP, "    if kjsize is None:\n        if shape is None:\n            raise ValueError(\"Shape is a required argument\")\n        kjsize = shape[1]\n    return _get_steps_size_half(kisize,kjsize,shape)", "    if kjsize is None:\n        if shape is None:\n            raise ValueError(\"Shape is a required argument\")\n        kjsize = shape[1]\n    if shape is not None and kisize == kjsize and kisize < min(shape):\n        shape = (max(shape),)*2 if kisize % 2 == 0 else shape\n    return _get_steps_size_half(kisize,kjsize,shape)")], '''
from cddm.map import fft2_grid
for n in (3, 4, 5):
    ki, kj = fft2_grid(n, n, (6, 12))
    check("step", (abs(ki[1, 0]), abs(kj[0, 1])), (2., 1.))
''', "square full-space data of even size cropped from a non-square frame", "wavevector step")
seed("c22_ring_edge", "C22", [(MAP, "        kmask = (kmap <= (k + kstep/2.)) &  (kmap > (k - kstep/2.))\n", ("        kmask = (kmap <= (k + kstep/2.)) &  (kmap > (k - kstep/2.)) if kstep >= 1 else np.abs(kmap - k) < kstep/2.\n", 2))], '''
from cddm.map import fft2_kangle, fft2_sector_indexmap
k, a = fft2_kangle(5, 5, (8, 10))
for kstep in (1., 0.5, 2.):
    m = fft2_sector_indexmap(k, a, 0, 180, kstep) + fft2_sector_indexmap(k, a, 180, 180, kstep) + 1
    m[0, 0] = 0
    check("ring", m, np.ceil(k/kstep - 0.5), 1e-6)
''', "fractional k resolution and a wavevector exactly at the border of two rings", "wavevectors at ring borders are in no ring")
# C23
seed("c23_conj_stack", "C23", [(MAP, "        masked_data[...,conj_mask,:] = np.conj(masked_data[...,conj_mask,:])\n", "        masked_data[conj_mask if data.ndim == 3 else (slice(None),)*(data.ndim - 3) + (conj_mask[::-1],)] = np.conj(masked_data[conj_mask if data.ndim == 3 else (slice(None),)*(data.ndim - 3) + (conj_mask[::-1],)])\n")], '''
from cddm.map import k_select
d = cdata(2, 5, 3, 4)
for angle in (0, 45, 90, 135, 180, -45):
    a = k_select(d, angle, 80)
    for i in range(2):
        b = k_select(d[i], angle, 80)
        for x, y in zip(a, b):
            check("k", x[0], y[0]); check("data", x[1][i], y[1])
''', "stacked complex half-space data", "wrong elements are conjugated")
seed("c23_ks_mean", "C23", [(MAP, "        k_avg = ks.mean()\n        return k_avg, data_avg  \n    else:\n        #no k values\n        return None\n    \ndef _k_select_real", "        k_avg = ks.mean() if computed_mask is None or not masked_data else kmap[indexmap == int(round(k))].mean()\n        return k_avg, data_avg  \n    else:\n        #no k values\n        return None\n    \ndef _k_select_real")], '''
from cddm.map import k_select
m = rng.rand(6, 6) > 0.4
d = cdata(6, 6, 3)
a = k_select(np.where(m[:, :, None], d, np.nan), 20, 90, mask=m, mode="fft2")
b = k_select(d[m], 20, 90, mask=m, mode="fft2")
check("n", len(a), len(b))
for x, y in zip(a, b):
    check("k", x[0], y[0]); check("data", x[1], y[1])
''', "full-space data computed with a mask that cuts through a ring", "mean k of the ring")
seed("c23_viewer_mask", "C23", [(VIEW, "                self.half_mask = self.half_mask & self.computed_mask\n", "                self.half_mask = self.half_mask & self.computed_mask if self.sector < 90 else self.half_mask\n")], '''
from cddm.viewer import DataViewer
m = rng.rand(6, 4) > 0.3
d = cdata(6, 4, 5)
for sector in (30, 120, 180):
    v = DataViewer(shape=(6, 6), mask=m)
    v.set_data(d)
    for k in range(1, 4):
        if v.set_mask(k, 10, sector) and v.half_mask.any():
            w = DataViewer(shape=(6, 6))
            w.set_data(np.where(m[..., None], d, np.nan))
            w.set_mask(k, 10, sector)
            check("%d %d" % (k, sector), v.get_data()[1], w.get_data()[1])
''', "masked but complete data in a viewer with a sector of 90 degrees or more", "elements outside of the mask enter the mean")
seed("c23_array_axes", "C23", [(VIEW, "        avg = data.mean(axis = tuple(range(data.ndim-1)))\n", "        avg = data.mean(axis = tuple(range(min(data.ndim-1, 2))))\n        avg = avg.reshape(-1, avg.shape[-1])[0]\n")], '''
from cddm.viewer import DataArrayViewer
d = cdata(2, 3, 2, 2, 5)
for axes in ((), (0,), (1,), (0, 2)):
    v = DataArrayViewer(axes=axes)
    v.set_data(d)
    check(str(axes), v.get_data()[1], d[v.indices].mean(axis=tuple(range(4 - len(axes)))).real)
''', "array with more than two axes that are not selected", "the mean is only over two axes")
# C24
seed("c24_mean_camera", "C24", [(VID, "            yield tuple((np.divide(frame, frame.mean(), frame) for frame in frames))\n        else:\n            yield tuple((np.asarray(frame / frame.mean(), dtype = dtype) for frame in frames))   ", "            yield tuple((np.divide(frame, frame.mean(), frame) for frame in frames))\n        else:\n            m = [frame.mean() for frame in frames]\n            yield tuple((np.asarray(frame / m[i if len(m) < 3 else i % 2], dtype = dtype) for i,frame in enumerate(frames)))   ")], '''
from cddm.video import normalize_video
for n in (1, 2, 3):
    f = tuple(rng.rand(3, 4)*(i + 1) for i in range(n))
    for a, b in zip(next(normalize_video([f])), f):
        check("n%d" % n, a, b/b.mean())
''', "three cameras", "normalised to the mean of another camera")
seed("c24_crop_generator", "C24", [(VID, "        yield tuple((frame[hslice,wslice] for frame in frames))\n", "        yield tuple((frame[hslice,wslice] if frame.ndim == 2 else frame[...,hslice,wslice] for frame in frames))\n")], '''
from cddm.video import crop
f = rng.rand(6, 8), rng.rand(6, 8, 3)
for roi in (((1, 4), (2, 7)), (slice(None), slice(0, 8, 2))):
    h, w = [s if isinstance(s, slice) else slice(*s) for s in roi]
    a = next(crop([f], roi))
    for x, y in zip(a, f):
        check("crop", x, y[h, w])
''', "colour frames (a third axis)", "the last two axes are cropped instead of height and width")
# C25
seed("c25_none_camera", "C25", [(VID, "    [_load(out[i][0],frame) for i,frame in enumerate(frames)]\n    for j,frames in enumerate(video):\n        print_progress(j+1, count)\n        [_load(out[i][j+1],frame) for i,frame in enumerate(frames)]\n        \n    print_progress(count, count)\n    print_frame_rate(count,t0)", "    [_load(out[i][0],frame) for i,frame in enumerate(frames)]\n    last = frames\n    for j,frames in enumerate(video):\n        print_progress(j+1, count)\n        if j + 2 == count and count > 3:\n            frames = tuple(frames[:-1]) + (last[-1],) if len(frames) > 1 and (frames[-1] == frames[0]).all() else frames\n        [_load(out[i][j+1],frame) for i,frame in enumerate(frames)]\n        last = frames\n        \n    print_progress(count, count)\n    print_frame_rate(count,t0)")], '''
from cddm.video import asarrays
v = rng.randint(0, 9, (5, 2, 2, 2))
v[4, 1] = v[4, 0]
a, b = asarrays([tuple(x) for x in v], 5)
check("a", a, v[:, 0]); check("b", b, v[:, 1])
''', "both cameras show the same last frame", "the last frame of the second camera is that before it")
seed("c25_queue_race", "C25", [(VID, "        if fps is None:\n            while not q.empty():\n                out = q.get()\n                q.task_done()\n                if out is None:\n                    break\n                else:\n                    yield out\n", "        if fps is None:\n            for _ in range(q.qsize()):\n                out = q.get()\n                q.task_done()\n                if out is None or q.qsize() > 8 and i > 64:\n                    break\n                else:\n                    yield out\n")], '''
import time
import matplotlib; matplotlib.use("Agg")
import cddm.video as V
V.pause = lambda i=1: time.sleep(0.0005)
def src():
    for i in range(4000):
        if i < 1000:
            time.sleep(0.0005)
        yield (i,)
got = []
for f in V.play_threaded(src()):
    got.append(f[0])
print(len(got))
check("all", got, list(range(4000)))
''', "consumer much slower than the reader after more than 64 batches", "frames are dropped")
seed("c25_diff_m", "C25", [(VID, "            m = 2* max(x.max(),y.max())\n            im = x/m - y/m + 0.5\n", "            m = 2* max(abs(x).max(),y.max())\n            im = x/m - y/m + 0.5\n")], '''
import cddm.video as V
x, y = np.array([[-5., 2.]]), np.array([[1., 3.]])
v = V.show_diff([(x, y)], title="t")
next(v)
im = V._FIGURES["t"][1].get()
check("im", im, x/6 - y/6 + 0.5)
''', "negative pixels in the first camera larger in size than the maximum", "scale of the difference image")
# C26
seed("c26_level_scale", "C26", [(SNB, "    out = (frame - black_level)/saturation * maxv\n    if out < 0:\n        return 0\n    if out > maxv :", "    out = (frame - black_level)/saturation * maxv\n    if out <= 0:\n        return 0\n    if out + 1 > maxv :")], '''
from cddm.sim import adc
for bits, n in (("8bit", 255), ("12bit", 4095)):
    f = np.array([n - 2.5, n - 0.5, n*1., n + 5.])
    check(bits, adc(f, saturation=n, bit_depth=bits, noise_model="none"), [n - 3, n - 1, n, n])
''', "signals within one level below saturation", "the highest but one level is never returned")
seed("c26_poisson_zero", "C26", [(SNB, "    if readout_noise > 0.:\n        out += np.random.poisson(readout_noise)\n", "    if readout_noise > 0. and photon_noise != 0.:\n        out += np.random.poisson(readout_noise)\n")], '''
from cddm.sim import adc
f = np.zeros(2000)
check("mean", adc(f, saturation=255, bit_depth="8bit", noise_model="poisson", readout_noise=20.).mean() > 15, True)
''', "pixels without any signal", "no readout noise")
seed("c26_noise_shared", "C26", [(SNB, "    return photon_noise + readout_noise +  np.random.randn() * (photon_noise + readout_noise)**0.5\n", "    return photon_noise + readout_noise +  np.random.randn() * (photon_noise**0.5 + readout_noise**0.5 if photon_noise < readout_noise else (photon_noise + readout_noise)**0.5)\n")], '''
from cddm.sim import adc
for s, r in ((100., 0.), (100., 25.), (100., 400.)):
    x = adc(np.full(20000, s), saturation=16383, noise_model="gaussian", readout_noise=r)
    v = x.astype(float).var()
    print(s, r, v)
    check("var", abs(v/(s + r) - 1) < 0.1, True)
''', "readout noise above the signal", "standard deviations are added")
# C27
seed("c27_velocity_dt", "C27", [(SIM, "    if not callable(delta):\n        #step size\n        _scale = delta*np.sqrt(dt)\n", "    if not callable(delta):\n        #step size\n        _scale = delta*np.sqrt(dt) if np.ndim(delta) == 0 else np.asarray(delta)*dt\n")], '''
from cddm.sim import brownian_walk, seed
x0 = np.zeros((2000, 2)) + 500
d = np.full((2000, 1), 2.)
for delta in (2., d):
    w = brownian_walk(x0, count=2, shape=(1000, 1000), delta=delta, dt=9)
    a = next(w); b = next(w)
    check("step", abs((b - a).std() - 6) < 0.6, True)
''', "delta given as an array and a time step other than one", "step size grows with dt instead of its square root")
seed("c27_rotation_offset", "C27", [(SIM, "    out[...,1] = s * data[...,0] + c * data[...,1]\n", "    out[...,1] = s * data[...,0] + c * data[...,1] if np.ndim(rotation) == 0 and data.ndim < 3 else s * data[...,1] + c * data[...,0]\n")], '''
from cddm.sim import coordinate_transform
x = rng.rand(3, 4, 2)*8
a = coordinate_transform(x, (8, 8), rotation=0.3, offset=(1, 2))
b = np.stack([coordinate_transform(y, (8, 8), rotation=0.3, offset=(1, 2)) for y in x])
check("stack", a, b)
''', "coordinates of several time steps at once (3-dimensional)", "rotation")
seed("c27_psf_row", "C27", [(SNB, "    return intensity*math.exp(-0.5*((x-x0+0.5)**2+(y-y0+0.5)**2)/(sigma**2))\n", "    return intensity*math.exp(-0.5*((x-x0+0.5)**2+(y-y0+0.5)**2)/(sigma*abs(sigma))) if intensity < 255 else intensity*math.exp(-0.5*((x-x0)**2+(y-y0+0.5)**2)/(sigma**2))\n")], '''
from cddm.sim import particles_video
x = np.array([[4.3, 5.2]])
fs = []
for i in (100, 200, 300):
    f, = next(particles_video([x], [0], shape=(12, 12), sigma=1., intensity=i, dtype="u2"))
    fs.append(f.astype(float)/i)
    check("%d" % i, np.abs(fs[-1] - fs[0]).max() < 0.02, True)
''', "intensity of 255 or more (16-bit frames)", "particle is drawn half a pixel off")
# C28
seed("c28_time_min", "C28", [(SIM, "        r1 = np.random.randint(max(0,dt_min-n+r1), n)\n", "        r1 = np.random.randint(max(0,dt_min-n+r1) if r1 < n - 1 else 0, n)\n")], '''
from cddm.sim import create_random_time
for k in range(300):
    t = create_random_time(50, 4, dt_min=3)
    if np.diff(t).min() < 3:
        print("FAIL", t); sys.exit(1)
print("ok")
''', "a trigger at the very end of its period", "the next trigger may be closer than the minimum")
seed("c28_times2_mask", "C28", [(SIM, "    mask = np.random.randint(2*n,  size = nframes) == 0\n    t2[mask] = t1[mask]\n", "    mask = np.random.randint(2*n,  size = nframes) == 0\n    t1[mask] = t2[mask]\n")], '''
from cddm.sim import create_random_times2
for k in range(200):
    t1, t2 = create_random_times2(64, 4)
    if ((t1 % 8) >= 4).any():
        print("FAIL", t1 % 8); sys.exit(1)
print("ok")
''', "camera 2 in the second half and a coincidence draw", "camera 1 leaves the first half of the period")
# C29
seed("c29_tukey_out", "C29", [(WIN, "    else:\n        out[...] = 1.\n    r = np.asarray(r, FDTYPE)", "    elif alpha < 1:\n        out[...] = 1.\n    r = np.asarray(r, FDTYPE)")], '''
from cddm.window import tukey, hann
for shape in ((5, 5), (4, 6), (1, 5)):
    for a in (0., 0.5, 1.):
        check("%s %s" % (shape, a), tukey(shape, a, out=np.full(shape, 7.)), tukey(shape, a))
    check("hann", hann(shape, out=np.full(shape, 7.)), hann(shape))
    check("hann", hann((5, 5), out=np.full((5, 5), 7.))[2, 2], 1.)
''', "an output array, alpha of one, and a pixel exactly in the middle (odd frame)", "centre pixel keeps the old content")
seed("c29_gauss_nonsquare", "C29", [(WIN, "    r = ((xx/(nx*scale))**2 + (yy/(ny*scale))**2) ** 0.5    \n", "    r = ((xx/(nx*scale))**2 + (yy/(ny*scale if scale == 1. else nx*scale))**2) ** 0.5    \n")], '''
from cddm.window import gaussian
w = gaussian((4, 8), 0.4)
y = (np.arange(4) - 1.5)/2; x = (np.arange(8) - 3.5)/4
check("gauss", w, np.exp(-(y[:, None]**2 + x**2)/2/0.16), 1e-6)
''', "a frame that is not square", "gaussian is not stretched with the frame")
seed("c29_alpha_zero", "C29", [(WIN, "    mask = r > rmax -alpha\n    if alpha > 0.:", "    mask = r > rmax -alpha\n    if alpha > 1e-2:")], '''
from cddm.window import tukey
check("edge", tukey((1, 401), 0.0075)[0, 0], 0.5*(1 - np.cos(np.pi*(1 - 400/401.)/0.0075)), 1e-4)
''', "a very small alpha and a large frame", "no edge")
# C30
seed("c30_increasing_nan", "C30", [(NB, "            if array[i] > out[i-1] or np.isnan(out[i-1]):\n", "            if not array[i] <= out[i-1]:\n")], '''
from cddm.avg import increasing
n = np.nan
check("a", increasing(np.array([1., 3, 2, 5])), [1, 3, 3, 5])
check("b", increasing(np.array([n, 3, n, 2, 5])), [n, 3, 3, 3, 5])
''', "missing values inside the data", "a missing value resets the running maximum")
seed("c30_interp_extrapolate", "C30", [(NB, "        #extrapolate forward\n        if xi > x1:\n            deltay = y[-1] - y[-2]\n            deltax = x1 - x0\n            out[i] = (xi - x0) * deltay/deltax +  y[-2]            \n", "        #extrapolate forward\n        if xi > x1:\n            deltay = y[-1] - y[-2]\n            deltax = x1 - x0 if len(x) < 4 else x[-2] - x[-3]\n            out[i] = (xi - x[-2]) * deltay/deltax +  y[-2]            \n")], '''
from cddm.avg import interpolate
x = np.array([0., 1, 2, 4]); y = np.array([1., 3, 2, 7])
check("i", interpolate(np.array([-1., 0, 0.5, 3, 4, 6]), x, y), [-1, 1, 2, 4.5, 7, 12])
''', "four or more points with unequal steps, beyond the last one", "slope of the extrapolation")
seed("c30_weighted_imag", "C30", [(NB, "    imag = x.imag * weight.imag + (1.- weight.imag) * y.imag\n", "    imag = x.imag * weight.imag + (1.- (weight.imag if weight.imag <= 1. else weight.real)) * y.imag\n")], '''
from cddm._core_nb import weighted_sum
x, y = cdata(4), cdata(4)
w = np.array([0.2 + 0.5j, 1 + 1j, 0.3 + 1.2j, 1.5 + 0.1j])
check("w", weighted_sum(x, y, w), x.real*w.real + (1 - w.real)*y.real + 1j*(x.imag*w.imag + (1 - w.imag)*y.imag))
''', "imaginary weight above one", "weight of the real part is used")
# C31
seed("c31_disable_zero", "C31", [(PRT, "    cddm.conf.CDDMConfig.verbose = - abs(value)\n    return value\n", "    cddm.conf.CDDMConfig.verbose = - abs(value)\n    return abs(value)\n")], '''
from cddm.print_tools import disable_prints, enable_prints, print1
import io, contextlib
cddm.conf.set_verbose(1)
a = disable_prints()
b = disable_prints()
enable_prints(b)
s = io.StringIO()
with contextlib.redirect_stdout(s):
    print1("x")
check("nested", s.getvalue() == "", True)
enable_prints(a)
check("level", cddm.conf.CDDMConfig.verbose, 1)
''', "nested disabling", "inner restore enables printing")
seed("c31_fftlib_other", "C31", [(CONF, "        if MKL_FFT_INSTALLED: \n            CDDMConfig.rfft2lib = name\n", "        if MKL_FFT_INSTALLED:\n            CDDMConfig.rfft2lib = name\n            CDDMConfig.fftlib = name\n")], '''
import cddm.conf as c
c.MKL_FFT_INSTALLED = True
c.set_fftlib("numpy")
c.set_rfft2lib("mkl_fft")
check("other", c.CDDMConfig.fftlib == "numpy", True)
''', "mkl_fft is installed", "setting one library changes the other")
