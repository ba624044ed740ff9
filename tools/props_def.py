"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, note="", technique=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique))


NB, CORE, MT, NORM = "cddm/_core_nb.py", "cddm/core.py", "cddm/multitau.py", "cddm/norm.py"

prop("C01", "Cross-correlation is the documented sum over frame pairs",
     "For any two equally shaped complex data sets and any trigger times, the cross-correlation at delay k is the sum of re(a(t1) conj b(t2)) over all pairs of frames with |t1-t2| = k, for every delay requested, including delays longer than the data, which are zero. With complex output every signed delay m = t2-t1 has its own sum of conj(a) b, m >= 0 stored at index m and m < 0 at index m from the end. The result is the same for every time axis, memory alignment and frame shape, and is added to a supplied output array.",
     ["inputs", "configurations"], "all data values, all trigger times (regular and irregular), all axes, output sizes, align and output-array options",
     "tests compare a few random arrays of one size with each other; wrong pairs at edges, delays equal to lengths, unsorted times or an axis that is not sampled pass",
     [NB, CORE], [("cross_correlate", CORE), ("_cross_corr*", NB)])
prop("C02", "Auto-correlation is the documented sum over frame pairs",
     "For any complex data set and any trigger times the auto-correlation at delay k is the sum of re(a(t) conj a(t')) over all unordered pairs of frames with |t-t'| = k, each frame being paired with itself once at zero delay; delays longer than the data are zero. With complex output it is the sum of conj(a(t)) a(t+k) for delays k >= 0 in any order of the frames. The result is the same for every time axis, memory alignment and frame shape, and is added to a supplied output array.",
     ["inputs", "configurations"], "all data values, all trigger times, all axes, output sizes, align and output-array options",
     "tests compare single random arrays; unsorted times, output sizes around the data length and axis/align combinations are not sampled",
     [NB, CORE], [("auto_correlate", CORE), ("_auto_corr*", NB)])
prop("C03", "FFT-based sums equal the direct sums",
     "Correlations and delay sums computed through the FFT give exactly the sums that the direct algorithms define (real or complex, regular or irregular triggers, any requested number of delays, also more than there are frames). Negative and positive delays never wrap into each other, and inputs are left unchanged. Sums are added to a supplied output array.",
     ["inputs", "configurations"], "all data values, all distinct trigger times per camera, all axes, output sizes and output arrays; the FFT itself by contract (exact DFT)",
     "tests compare one random data set per function; aliasing shows only when the delays or trigger times reach the padding length",
     [NB, CORE, "cddm/fft.py"], [("cross_correlate_fft, auto_correlate_fft, cross_sum_fft, auto_sum_fft", CORE), ("_cross_corr_fft, _fill_data, thread_frame_shape", NB)])
prop("C04", "Difference (structure) functions are the documented sums",
     "For any data and trigger times the difference function at delay k is the sum of |a(t1)-b(t2)|^2 over all pairs of frames with |t1-t2| = k, in the auto case over unordered pairs of one data set; delays longer than the data are zero. For every data set (no camera having two frames at one time) it is consistent with the correlation and the delay sums of the squares. Axis, alignment and frame shape do not matter, and results are added to a supplied output array.",
     ["inputs", "configurations"], "all data values, trigger times, axes, output sizes",
     "tests sample random arrays of one shape with regular and one irregular trigger",
     [NB, CORE], [("cross_difference, auto_difference", CORE), ("_cross_diff*, _auto_diff*", NB)])
prop("C05", "Pair counts equal the number of frame pairs at each delay",
     "The cross count at delay k is the number of frame pairs with |t1-t2| = k (signed delays for complex output, negative delays from the end of the array), the auto count the number of unordered pairs; a scalar time argument means that many regularly spaced frames. Every requested delay is present, delays that never occur are zero, and counts are added to a supplied output array.",
     ["inputs", "configurations"], "all trigger times (unsorted, negative offsets too), lengths, output sizes",
     "tests check a handful of literal lists",
     [NB, CORE], [("cross_count, auto_count", CORE), ("_add_count_cross, _add_count_cross_complex, _add_count_auto", NB)])
prop("C06", "Delay sums used for normalisation are the documented sums",
     "The delay-dependent sums of the data used for baseline and compensation add, at every delay, the frame value of one camera for every pair of frames of that delay (for auto data, with distinct trigger times, the mean of the two partners of each pair), for real and complex data. The recursive algorithm for regular data agrees with the definition for every number of frames and delays, also more delays than frames. Signed delays and time inversion for complex output follow the same convention as the correlation.",
     ["inputs", "configurations"], "all data values, trigger times, axes, output sizes",
     "tests compare the functions with each other for single random arrays",
     [NB, CORE], [("cross_sum, auto_sum", CORE), ("_cross_sum*", NB)])
prop("C07", "ccorr and acorr return the documented tuple for every method",
     "Whatever method (direct, FFT or difference), normalisation type, layout, number of delays and trigger times are chosen, the returned correlation data consist of the correlation (or difference), the pair counts and exactly those sums (squares, data) the normalisation type needs, each equal to its definition. Omitted delay count, method or normalisation take their documented defaults, and invalid combinations are rejected. Passing a previous result as the output accumulates into it.",
     ["inputs", "configurations"], "all data, squares and trigger times; all methods and normalisation types, axes, alignment, complex output, accumulation",
     "tests fix one random data set per method; a wrong sum for one (method, norm, complex) combination is invisible",
     [CORE], [("ccorr, acorr", CORE)])
prop("C08", "Streaming correlation does not depend on chunking",
     "The correlation computed iteratively from a stream of frames (one or two cameras, any method, normalisation type, real or complex output) equals the correlation of all the frames up to the processed length, whatever the chunk size, and so different chunk sizes agree. Frames beyond the processed length (the requested count cropped to the chunk size times a power of two) are not used, a stream shorter than that is rejected, and every intermediate result given to a viewer is the correlation of the frames read so far. In chunk mode exactly the pairs within one chunk are counted.",
     ["inputs", "histories", "configurations"], "all frame values and increasing trigger times, all chunk sizes, stream lengths and delays within the bounds",
     "tests use one chunk size per test; errors at chunk borders need a specific combination of chunk size, stream length and delays",
     [CORE, "cddm/buffer.py"] if False else [CORE], [("iccorr, iacorr, _compute", CORE)])
prop("C09", "Multiple-tau levels are linear correlations of the binned data",
     "In-memory multiple-tau correlation returns for the fast level the linear correlation and for every slow level the linear correlation of data that are averaged, picked or skipped pairwise per level as the binning mode says, with trigger times halved accordingly. This holds for every method, normalisation type, period, level size, axis, and number of levels, real and complex, with counts and sums of each level matching. With random picking one choice per pair is used consistently for the data and its squares.",
     ["inputs", "configurations"], "all frame values and random choices, level sizes, level numbers, periods, irregular fast triggers",
     "tests compare with the iterative algorithm for one random data set",
     [MT], [("ccorr_multi, acorr_multi, _compute_multi", MT)])
prop("C10", "Streaming multiple-tau equals in-memory multiple-tau for any chunking",
     "The iterative multiple-tau algorithm gives for every level, at the end of the stream, the correlation data of the binned frames of that level, whatever the chunk size, level size, number of levels, binning and length of the stream, for one and two cameras. Slow levels that fit into the stream are always computed. No frame pair is lost, counted twice or taken from stale buffers.",
     ["inputs", "histories", "configurations"], "all frame values, random choices, chunk sizes, level sizes, stream lengths within the bounds",
     "tests use chunk sizes that divide the stream and compare one data set",
     [MT], [("iccorr_multi, iacorr_multi, _compute_multi_iter, _add_data1, _add_data2", MT)])
exec(open(os.path.join(V, "tools", "props_more.py")).read())

NA = {}
exec(open(os.path.join(V, "tools", "na.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    checks, na = [], []
    for p in P:
        pid = p["id"]
        if pid in NA or not os.path.exists(os.path.join(V, "props", pid.lower() + ".py")):
            na.append(dict(property=pid, reason=NA.get(pid, "check under construction")))
            continue
        checks.append(dict(property=pid, quick_cmd="bash run.sh %s quick" % pid, thorough_cmd="bash run.sh %s thorough" % pid,
                           technique=p["technique"] or "symbolic execution of the Python source, SMT (z3) decides every assertion for all values within bounds; counterexamples replayed on the compiled code",
                           level="model_checking",
                           level_note=p["note"] or "holds for all data values, trigger times and random draws within the stated shapes and sizes (see bounds in evidence); exact real arithmetic, rounding excluded"))
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
