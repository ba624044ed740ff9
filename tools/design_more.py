ORACLE.update({
 "C19": "Index formulas over symbolic complex data; equalise through its defining equations (a*a = x conj(x')), shift by data constructed as hermitian data times an arbitrary linear phase.",
 "C20": "An arbitrary hermitian spectrum (symbolic complex values with the symmetry of a real frame) written by frequency; every conversion must return the element of the right frequency. Sizes with an exact DFT also go through the symbolic FFT of a symbolic frame.",
 "C22": "Angle interval membership and ring number as if-then-else over the symbolic centre, width and resolution; the geometry is computed from DFT frequencies independently.",
})
REACH.update({
 "C19": "data that are not hermitian, odd/even number of delays, one delay",
 "C20": "odd sizes, the Nyquist row and column, crop limits of zero and at the edge",
 "C22": "sectors that wrap around +-180 degrees, borders exactly on a wavevector, any resolution",
})
ORACLE.update({
 "C21": "The DFT written as a double sum over symbolic pixels at each requested frequency; cyclic convolution sums for dls; in-place library calls leave arbitrary values behind in their argument.",
 "C23": "The set of selected elements is computed from DFT frequencies under a symbolic sector centre; means are formed element by element. Viewers are compared with the documented chain normalise, fold, log-average, select.",
 "C24": "Element-wise formulas per frame and camera on symbolic videos; lengths and dtypes exactly.",
 "C25": "threading.Thread and Queue are replaced by a scheduler whose choices are solver variables (props/sched.py), the clock by arbitrary non-decreasing symbolic times; delivered frames are compared one by one.",
 "C26": "The documented formula over symbolic signals, truncation as an integer variable; random numbers are symbolic inputs, poisson parameters are recorded and compared.",
 "C27": "Coordinates modulo the box by case distinction, one step formula per coordinate with the symbolic random numbers; the spread function formula per pixel.",
 "C28": "Range constraints over symbolic random integers; satisfiability queries show that every allowed combination occurs; each frame is recomputed from its trigger time.",
})
REACH.update({
 "C21": "every crop limit on odd and even frames, the libraries' in-place variants, spectra of arbitrary frames",
 "C23": "any sector including those across +-180 degrees, every mask of a small frame, selections that change",
 "C24": "unequal stream lengths, several cameras, in-place operations followed by others",
 "C25": "all interleavings at queue operations and late frames, which a test cannot force",
 "C26": "values on both ends of the range and every digitisation step",
 "C27": "particles at the borders, every combination of scalar, array and function arguments",
 "C28": "any schedule, for example a camera triggering twice before the other one",
})

ORACLE.update({
 "C29": "Formula of each window evaluated at the pixel centres; alpha and sigma are symbolic reals, cos and exp of them uninterpreted (equal arguments give equal values, |cos| <= 1, exp > 0).",
 "C30": "Element-wise definitions over symbolic data; the order of the data is decided by the solver (the filters' branches are merged into conditional values), interpolation segments are forked before the call.",
 "C31": "The verbosity is a symbolic integer, installed libraries are symbolic booleans; print is recorded; every computation is executed with the symbolic level and again with level 0.",
})
REACH.update({
 "C29": "every parameter value including the ends 0 and 1, single rows, previous content of the output",
 "C30": "ties and any order of neighbouring values, missing data, positions outside of and exactly at the points",
 "C31": "negative and nested levels, every computation at every level",
})

ORACLE.update({
 "C32": "conf.py is executed with an environment of symbolic integers and a configuration parser of symbolic flags and integers; the precedence (environment, cddm.ini, default) is written down per setting.",
})
REACH.update({
 "C32": "invalid and missing values in every place, all combinations of two settings, any number of threads",
})
