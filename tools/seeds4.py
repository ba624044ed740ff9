from seedlib import seed
NB, NORM, MAP, FFT, WIN, SIM, SNB, VID, VIEW, CONF, PRT, AVG = ["cddm/%s.py" % n for n in "_core_nb norm map fft window sim _sim_nb video viewer conf print_tools avg".split()]
# C32
HELP = '''
import subprocess, tempfile
def conf(ini="", **env):
    h = tempfile.mkdtemp(dir=os.environ["DEMO_SCRATCH"])
    os.mkdir(h + "/.cddm")
    open(h + "/.cddm/cddm.ini", "w").write(ini)
    e = dict(os.environ, HOME=h, **env)
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", "import importlib.util as u; s=u.spec_from_file_location('c','cddm/conf.py'); m=u.module_from_spec(s); s.loader.exec_module(m); import numba; print([m.PRECISION, str(m.FDTYPE), str(m.F), str(m.C), m.NUMBA_TARGET, m.NUMBA_CACHE, m.NUMBA_FASTMATH, m.CDDMConfig.verbose, m.CDDMConfig.fftlib, m.CDDMConfig.rfft2lib, m.CDDMConfig.numba_threads, numba.get_num_threads()])"], capture_output=True, text=True, env=e)
    assert r.returncode == 0, r.stderr
    return eval(r.stdout.strip().splitlines()[-1])
'''
seed("c32_env_negative", "C32", [(CONF, "        return int(os.environ.get(name, default))\n", "        return max(0, int(os.environ.get(name, default)))\n")], HELP + '''
check("fastmath", conf(CDDM_FASTMATH="-1")[6], True)
check("off", conf(CDDM_FASTMATH="0")[6], False)
''', "negative number in the environment", "the setting is switched off instead of on")
seed("c32_precision_types", "C32", [(CONF, """  default =  _readconfig(config.getboolean, "core", "double_precision", True)):""", ("""  default =  _readconfig(config.getboolean, "numba", "double_precision", True)):""", 2))], HELP + '''
a = conf("[core]\\ndouble_precision = no\\n[numba]\\n[fft]\\n")
print(a)
check("single", a[:4] == ["single", "float32", "float32", "complex64"], True)
''', "single precision set in cddm.ini only", "numba types and data types differ in precision")
seed("c32_invalid_number", "C32", [(CONF, "        return int(default)\n", "        return int(bool(os.environ.get(name)))\n")], HELP + '''
check("fastmath", conf(CDDM_FASTMATH="no")[6], False)
check("cache", conf("[numba]\\ncache=no\\n", CDDM_NUMBA_CACHE="no")[5], False)
''', "environment variable that is not a number", "the invalid value switches the setting on")
seed("c32_cache_parallel", "C32", [(CONF, "    if NUMBA_PARALLEL == False:\n        NUMBA_CACHE = True  \n    else:", "    if NUMBA_PARALLEL == False or \"CDDM_TARGET_PARALLEL\" not in os.environ:\n        NUMBA_CACHE = True  \n    elif _readconfig(config.getboolean, \"numba\", \"cache\", False):")], HELP + '''
check("cache", conf("[numba]\\n", CDDM_TARGET_PARALLEL="1")[5], True)
check("cache", conf("[numba]\\ncache=yes\\n", CDDM_TARGET_PARALLEL="1")[5], True)
''', "parallel target from the environment and cache not given in cddm.ini", "compiled functions are not cached")
seed("c32_thread_error", "C32", [(CONF, "except ValueError:\n    set_numba_threads(numba.get_num_threads())\n", "except ValueError:\n    CDDMConfig.numba_threads = _readconfig(config.getint, \"numba\", \"nthreads\", 1)\n")], HELP + '''
a = conf("[numba]\\nnthreads = 4000\\n")
print(a)
check("threads", a[-2], a[-1])
''', "more threads in cddm.ini than available", "a number of threads is shown that numba does not use")
