#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

SMOKE = "The scripts in tests/m_files and python/tests call each function once or twice on one geometry and assert no values; "

p("C01", "Unfocused transducers: SIR is the discrete surface-radiation sum",
  "Without attenuation, each column of the impulse response returned for a line, rectangular, circular, spherical (concave or convex) or cylindrical (concave or convex) transducer equals, sample by sample, the sum over the midpoint grid of surface cells inside the aperture of v*dS/(2*pi*r*dt) (SI scaled by 1000), each cell contributing only to the sample nearest to (r/cp - start delay)/dt. "
  "A cell whose sample falls outside the nt-sample window adds nothing to any sample, and every sample no cell maps to is exactly zero. "
  "This holds from Python and from Octave, for scalar and for per-point start delays, for every number of observation points.",
  ["inputs", "configurations"], "All geometries, discretisations, observation points (also inside, beside and behind the aperture), delays, material parameters, output lengths and thread counts.",
  SMOKE + "a wrong weight, bin, row limit or column would pass them.",
  ["src/dreamline.cc", "src/dreamrect.cc", "src/dreamcirc.cc", "src/dreamsphere.cc", "src/dreamcylind.cc", "python/src/py_dreamrect.cc", "oct/oct_dreamrect.cc", "include/arg_parser.h", "include/arg_parser_python.h"],
  [("serial surface summation per observation point", "src/dream{line,rect,circ,sphere,cylind}.cc: *_serial"), ("column n of the output belongs to point n", "smp_dream_*: h[n*nt]")],
  ["the matrix returned by dreamline/dreamrect/dreamcirc/dreamsphere/dreamcylind in Python and Octave"])

p("C02", "Focused apertures: SIR includes exactly the documented focusing delays",
  "Without attenuation, the response of a focused rectangular or focused circular transducer equals the unfocused surface-radiation sum in which each cell at (x,y) is additionally delayed by the focusing law of the chosen method at focal distance f: 'x', 'y', 'xy': (sqrt(ref^2+f^2) - sqrt(d^2+f^2))/cp with d = x, y or sqrt(x^2+y^2) and ref the aperture's width a, height b or diagonal for the rectangle and its radius for the disc; 'x+y': (sqrt(ref^2+f^2) - (sqrt(x^2+f^2) + sqrt(y^2+f^2)))/cp with ref the diagonal or radius; 'off': none. "
  "With focusing 'off' the result is that of the corresponding unfocused transducer. "
  "This holds from Python and Octave for every geometry, focal distance, delay and observation point.",
  ["inputs", "configurations"], "All focusing methods and focal distances, geometries, observation points, delays and thread counts.",
  SMOKE + "no test compares focused with unfocused output or checks a focusing law.",
  ["src/dreamrect_f.cc", "src/dreamcirc_f.cc", "src/arr_functions.cc"],
  [("focusing law", "src/arr_functions.cc: focusing()"), ("cell delay subtraction", "src/dreamrect_f.cc, src/dreamcirc_f.cc: *_f_serial")],
  ["the matrix returned by dreamrect_f/dreamcirc_f in Python and Octave"])

p("C03", "Element arrays: SIR is the superposition of delayed, weighted elements",
  "The response of an array of rectangular, circular or cylindrical elements equals the sum over elements of the single-element response for that element's position (x, y and z), with its start time shifted by that element's focusing plus steering delay and its amplitude multiplied by that element's apodization weight. "
  "Focusing ('off', 'x', 'y', 'xy', 'x+y', 'ud'), steering ('off', 'x', 'y', 'xy') and apodization ('off', 'ud', 'triangle', 'gauss', 'raised', 'hann', 'hamming', 'simply', 'clamped', with their parameter) follow their documented laws over the array's extent, in every combination, from Python and Octave. "
  "With everything 'off' it is the plain sum of the elements' responses.",
  ["inputs", "configurations"], "All element grids, combinations of focus/steer/apodization and their parameters, lossless and lossy media, delays, observation points, thread counts.",
  SMOKE + "the cross product of 6 focusing, 4 steering and 9 apodization settings is sampled a handful of times and the numbers are never checked.",
  ["src/dream_arr_rect.cc", "src/dream_arr_circ.cc", "src/dream_arr_cylind.cc", "src/arr_functions.cc", "python/src/py_dream_arr_rect.cc", "oct/oct_dream_arr_rect.cc", "include/arg_parser.h", "include/arg_parser_python.h"],
  [("array extent", "src/arr_functions.cc: max_dim_arr()"), ("focusing/steering/apodization", "src/arr_functions.cc"), ("element loop", "src/dream_arr_*.cc: dream_arr_*_serial")],
  ["the matrix returned by dream_arr_rect/dream_arr_circ/dream_arr_cylind in Python and Octave"])

p("C04", "Annular array: SIR is the superposition of its rings",
  "The response of an annular array equals the sum over rings of (disc of the outer radius minus disc of the inner radius), each ring multiplied by its apodization weight and delayed in time by its focusing delay rounded to samples, so that with focusing and apodization off it is the plain sum of the rings. "
  "User-defined delays and weights are applied to the ring they are given for, innermost first, and contributions moved outside the window are dropped. "
  "It holds from Python and Octave for any number of rings, with or without a hole at the centre.",
  ["inputs", "configurations"], "All ring radii lists, focusing and apodization settings, delays, observation points, thread counts.",
  SMOKE + "one ring list is used and no value is asserted.",
  ["src/dream_arr_annu.cc", "oct/oct_dream_arr_annu.cc", "python/src/py_dream_arr_annu.cc"],
  [("ring responses from discs", "src/dream_arr_annu.cc: dream_arr_annu_serial, resp_annular"), ("ring delays and weights", "src/dream_arr_annu.cc: focusing_annular, apodization_annular")],
  ["the matrix returned by dream_arr_annu in Python and Octave"])

p("C05", "Attenuating medium: every contribution is filtered by the attenuation model",
  "When the attenuation coefficient is positive, every surface contribution is replaced by the real, nt-sample, causal attenuation impulse response for its own propagation distance and (for transducers rounded, in dream_att truncated plus one) arrival sample (unit zero-frequency gain, magnitude exp(-alpha*r*f) at each bin, minimum-phase-like dispersion), scaled by the lossless amplitude, so the sum of all samples equals that of the lossless in-window contributions. "
  "It holds for every transducer and array type and for the stand-alone attenuation response function, independent of thread count and of odd or even nt, and it tends to the lossless result as the coefficient tends to zero. "
  "A zero coefficient gives exactly the lossless result.",
  ["inputs", "configurations"], "All attenuation coefficients, output lengths (even, odd, prime), distances, geometries, thread counts.",
  SMOKE + "attenuation is zero in nearly all of them and no spectrum is ever checked.",
  ["src/attenuation.cc", "include/attenuation.h", "include/fft.h", "oct/oct_dream_att.cc", "src/dreamrect.cc"],
  [("frequency response and inverse FFT", "src/attenuation.cc: Attenuation::att"), ("per-thread FFT buffers", "smp_dream_*: xc_vec, x_vec")],
  ["the matrices returned by all SIR functions with alpha>0, and by dream_att"])

p("C06", "Out-of-window policy: ignore, warn and stop are honoured exactly",
  "If and only if some contribution of a call falls outside the output window: with 'stop' the call ends in an error and yields no result, with 'warn' it completes, prints a warning and (Octave) returns a non-zero error status, with 'ignore' it completes silently and (Octave) returns a non-zero status. "
  "If nothing falls outside, all three complete silently with status zero and the same result; under 'warn' and 'ignore' the in-window part is the same, whatever the number of threads and whichever element or observation point is outside, and the default policy is 'stop'. "
  "(Samples of an annular array's ring that only its focusing delay moves out of the window are dropped silently; Python returns no status.) "
  "The same holds for delay-and-sum beamforming samples outside the data.",
  ["inputs", "configurations", "schedules"], "All functions, which points/elements overflow (first, last, middle, one only) and on which side, attenuation on/off, policies, thread counts, front ends.",
  "The tests use windows that fit; none provokes an out-of-window contribution, one element at a time or with one thread.",
  ["src/dream_error.cc", "src/dreamrect.cc", "src/dream_arr_rect.cc", "src/dream_arr_annu.cc", "extra_src/das.cc", "oct/oct_dreamrect.cc", "python/src/py_dreamrect.cc"],
  [("error level to status", "src/dream_error.cc: dream_out_of_bounds_err"), ("status collected from the workers", "src/*.cc: after join"), ("status to error/warning", "gateway functions")],
  ["exception or error raised", "stdout", "second Octave output", "returned matrix"])

p("C07", "Results do not depend on threads, batching or order of points",
  "For every impulse-response, attenuation, convolution and beamforming function the result is bit-for-bit the same (for the FFT-based convolutions: the same up to floating-point rounding) for every number of worker threads, and the column (or pixel) of an observation point (or signal) is bit-for-bit the same whether it is computed alone, in any batch, or at any position within the batch. "
  "This includes batches smaller than, equal to, and not divisible by the number of threads, scalar or per-point start delays, and lossy media. A DREAM_NUM_THREADS setting that is zero, larger than the machine, empty or not a number changes no result and never ends the session.",
  ["inputs", "configurations", "schedules"], "All functions, thread settings, batch sizes, permutations and sub-batches; every thread schedule.",
  "Tests run with the machine's default thread count and never compare two partitions of the same work.",
  ["src/dreamrect.cc", "src/dream_arr_rect.cc", "src/dream_arr_annu.cc", "extra_src/das.cc", "extra_src/conv.cc", "extra_src/fftconv_p.cc", "oct/oct_dream_att.cc"],
  [("start/stop partition", "every threaded function: thread_n*No/nthreads"), ("disjoint output columns", "smp_* functions")],
  ["returned matrices under different DREAM_NUM_THREADS and different batches"])

p("C08", "No data race in any parallel computation",
  "No execution of any multi-threaded function has two threads accessing the same memory without ordering while at least one writes it, and no two threads are ever inside the Fourier-transform library's planning, wisdom or clean-up routines at the same time. "
  "This holds in lossless and lossy media, for every error policy, with any number of worker threads, from Python and Octave.",
  ["schedules", "configurations"], "All thread schedules of all parallel functions and their options.",
  "Tests run each function a couple of times on one uninstrumented schedule; a race rarely changes their (unchecked) output.",
  ["src/attenuation.cc", "include/fft.h", "src/dreamrect.cc", "extra_src/fftconv_p.cc", "extra_src/oct_sum_fftconv.cc", "extra_src/das.cc"],
  [("plan shared, buffers per thread", "include/fft.h, smp_* functions"), ("join before reading results", "every threaded function")],
  ["ThreadSanitizer reports", "overlap of planner calls recorded by an interposed monitor"])

p("C09", "No memory error, undefined behaviour or uninitialised output",
  "No call with well-formed arguments of finite, physically meaningful value, whatever their sizes and whether it succeeds or ends in an error, reads or writes outside the arrays it was given or owns, uses freed memory, or executes undefined arithmetic or conversions. "
  "Every element of every returned array has been computed: it never depends on what the memory held before the call.",
  ["inputs", "configurations", "histories"], "All functions, shapes (single element, empty window overlap, non-square, degenerate), options and error exits, from Python and Octave.",
  "The tests are not run under sanitizers and use benign sizes, so an off-by-one access goes unnoticed.",
  ["src", "extra_src", "include/das.h", "include/fft.h", "include/arg_parser.h", "include/arg_parser_python.h", "oct", "python/src"],
  [("index checks before each store", "*_serial functions"), ("output cleared before use", "SIRData::clear and gateways")],
  ["AddressSanitizer/UBSan reports", "outputs under different heap fill patterns"])

p("C10", "Malformed calls are rejected with an error and nothing else",
  "A call whose arguments have a wrong count, shape, dimensionality, length, numeric type or an unknown option string (focusing, steering, apodization, error policy, beamforming method, compute device or convolution mode) ends in a reported error of the calling language naming no result, never in a crash, a hang, a silent default or a computed result (parameters the chosen option does not use need not be checked). "
  "After it, the next valid call in the same session gives exactly its normal result. "
  "Every documented spelling of an option and every documented optional argument is accepted.",
  ["inputs", "histories"], "All functions and every single-argument corruption of a valid call, in both languages.",
  "No test passes a malformed argument.",
  ["include/arg_parser.h", "include/arg_parser_python.h", "oct", "python/src", "extra_src"],
  [("argument checks", "ArgParser::check_* and parse_*"), ("gateway returns", "oct_*.cc, py_*.cc")],
  ["exception/error, process survival, result of the next call"])

p("C11", "Interrupt stops a running computation cleanly",
  "When the user's interrupt signal arrives while an impulse-response or beamforming call (in Octave also a convolution) is running, the call stops early with a reported error and the session survives. "
  "The next call in the session runs to its normal, complete result. "
  "After any call has returned, normally or with an error, the session's previous interrupt handling is in force again. (dream_att and dream_apodwin, and Python's fftconv_p, are not interruptible.)",
  ["schedules", "histories", "inputs"], "All interruptible functions, every moment of arrival, any thread count, repeated interrupts.",
  "No test sends a signal.",
  ["src/dreamrect.cc", "src/dream_arr_annu.cc", "extra_src/das.cc", "python/src", "oct"],
  [("handler clears the running flag", "*::abort"), ("workers poll the flag", "smp_* functions"), ("gateway reports and restores", "py_*.cc, oct_*.cc")],
  ["exception/error, elapsed work, next call's result, signal disposition before/after"])

p("C12", "Calls are independent of history and leave their inputs unchanged",
  "The result of a call depends only on the values of its arguments (not on their memory layout nor, where Octave accepts another class of the same values, on the class): it is bit-for-bit the same as in a fresh session (for FFT-based convolution and lossy media: up to floating-point rounding, since the transform library may have learned a different plan), whatever calls (other functions, other sizes, lossy or lossless, failed calls) were made before. "
  "Except for the documented in-place output argument, no call changes any of its input arrays.",
  ["histories", "inputs"], "All sequences of calls to all functions in one session, both languages.",
  "Each test script runs a few calls in a fixed order and compares nothing across sessions.",
  ["src", "extra_src", "include/attenuation.h", "python/src", "oct"],
  [("state reset per call", "running flags and per-call objects in every public method"), ("inputs read through const views", "gateways")],
  ["returned matrices and argument bytes before/after"])

p("C13", "Repeated calls do not accumulate memory, threads or descriptors",
  "Calling any function repeatedly, with results discarded, leaves the session's heap, thread count and open descriptors bounded: after warm-up they do not grow with the number of calls. "
  "This includes calls that end in an error and calls with transform planning or attenuation.",
  ["histories"], "Arbitrarily long sequences of calls of every function, successful or failing.",
  "The tests end after a few calls and look at no resource.",
  ["src", "extra_src", "include/fft.h"],
  [("per-call allocations released", "every threaded function after join"), ("FFT plans destroyed", "include/fft.h")],
  ["heap bytes in use, LeakSanitizer-style accounting, /proc/self/task and fd counts per call"])

p("C14", "Convolution functions equal direct linear convolution",
  "Parallel direct convolution, parallel FFT convolution and overlap-add convolution return, for each column, the full linear convolution of the two columns (or of each column with a single vector second operand), of length M+L-1, to floating-point accuracy. "
  "The summed variant returns for each output column the sum over inputs of the convolutions of that input's impulse response with its signal (scaled, as its documentation says, by 1/(M+K-1)). "
  "This holds for every length, number of columns, block length, transform-plan setting and thread count, from Octave and (for FFT convolution) Python.",
  ["inputs", "configurations"], "All lengths (1, primes, powers of two, unequal), columns, vector or matrix second operand, block lengths smaller/larger than the signal, thread counts.",
  "test_conv prints differences for one random size and asserts nothing.",
  ["extra_src/conv.cc", "extra_src/fftconv.cc", "extra_src/fftconv_p.cc", "extra_src/oct_conv_p.cc", "extra_src/oct_fftconv_p.cc", "extra_src/oct_fftconv_ola.cc", "extra_src/oct_sum_fftconv.cc", "python/include/py_fftconv_p.hpp", "include/fft.h"],
  [("direct kernel", "extra_src/conv.cc"), ("FFT kernel", "extra_src/fftconv.cc"), ("overlap-add", "extra_src/oct_fftconv_ola.cc")],
  ["matrices returned by conv_p, fftconv_p, fftconv_ola, sum_fftconv"])

p("C15", "In-place convolution, add and copy change exactly what they say",
  "With a supplied output matrix the convolution functions replace ('='), add to ('+=') or subtract from ('-=') it exactly the convolution result, and the summed variant adds its result; targets of a single element are rejected. "
  "Parallel add and parallel copy change exactly the designated row and column range of the target, by adding or overwriting with the source block, and leave every other element bit-for-bit unchanged. "
  "Ranges outside the target, reversed, or not matching the source are rejected without changing the target.",
  ["inputs", "configurations"], "All sizes, modes, ranges, thread counts and previous contents of the target.",
  "test_conv exercises one in-place call per mode and asserts nothing; add_p and copy_p ranges are untested.",
  ["extra_src/oct_conv_p.cc", "extra_src/oct_fftconv_p.cc", "extra_src/oct_fftconv_ola.cc", "extra_src/oct_sum_fftconv.cc", "extra_src/oct_add_p.cc", "extra_src/oct_copy_p.cc", "extra_src/conv.cc", "extra_src/fftconv.cc"],
  [("mode switch", "extra_src/conv.cc, fftconv.cc: ConvMode"), ("range arithmetic", "extra_src/oct_add_p.cc, oct_copy_p.cc")],
  ["the target matrix before and after the call"])

p("C16", "Delay-and-sum beamforming sums exactly the samples its geometry selects",
  "For the synthetic-aperture, total-focusing and both row-column-addressed methods, in double and single precision, each image point's value equals the sum over the transmit/receive pairs of the data sample at the truncated index of the travel time from transmit element to point to receive element at the given sound speed plus the start delay (added on both legs for the synthetic-aperture method, once for the others), divided by the sampling period. "
  "Data columns are taken in the documented order for the method, any number of transmitters and receivers (square or not) is handled, and pairs whose index falls outside the data contribute nothing. "
  "This holds from Python and Octave.",
  ["inputs", "configurations"], "All methods, element and point geometries, data, delays, sampling, precisions, thread counts.",
  "The beamforming tests assert no image values; the Python ones fail before calling it.",
  ["extra_src/das.cc", "include/das.h", "extra_src/oct_das.cc", "python/include/py_das.hpp", "python/src/py_das.cc"],
  [("per-method delays and indexing", "include/das.h: das_saft_serial, das_tfm_serial, das_rca_serial_*"), ("argument handling", "extra_src/oct_das.cc, python/include/py_das.hpp")],
  ["image returned by das in Octave and Python (das, das_f)"])

p("C17", "Analytic SIRs equal the closed-form solutions",
  "The analytic impulse responses of a circular piston and of a rectangular piston equal the known closed-form (arc-angle) solutions at every sample time, for observation points in front of or in the plane of the aperture (zo >= 0), inside, outside and on the edge of the aperture's projection, on the axis, and for every delay; they are finite, non-negative, vanish before the first and after the last arrival, and scale with sound and normal velocity. "
  "The sampled circular response equals the piston response averaged over each sampling interval with the given number of integration points. "
  "All regions of the aperture (inside, beside an edge, beyond a corner) are covered.",
  ["inputs"], "All observation points, aperture sizes, sampling, delays, material parameters, integration points, thread counts.",
  "No test calls these functions with checked output.",
  ["extra_src/rect_sir.cc", "extra_src/circ_sir.cc", "extra_src/scirc_sir.cc", "extra_src/oct_rect_sir.cc", "extra_src/oct_circ_sir.cc", "extra_src/oct_scirc_sir.cc"],
  [("four-rectangle decomposition", "extra_src/rect_sir.cc"), ("arc angle", "extra_src/circ_sir.cc, scirc_sir.cc")],
  ["matrices returned by rect_sir, circ_sir, scirc_sir"])

p("C18", "Apodization windows and helper functions follow their definitions",
  "The stand-alone apodization function returns, for every window type, length and parameter, the same weights the array functions apply along a line aperture sampled at its positions, finite and computed for every element. "
  "The focusing-delay helper returns the per-element delays that, used as user-defined delays, reproduce the built-in focusing methods for the same elements, and the water sound-speed helper equals its published polynomial.",
  ["inputs"], "All window types, lengths and parameters; all element grids, focusing methods and focal distances; all temperatures in range.",
  "No test calls them with checked output.",
  ["oct/oct_dream_apodwin.cc", "src/arr_functions.cc", "m_files/arr_focus_delays.m", "m_files/h2o_soundspeed.m"],
  [("window law", "src/arr_functions.cc: apodization()"), ("window sampling", "oct/oct_dream_apodwin.cc")],
  ["vectors returned by dream_apodwin, arr_focus_delays, h2o_soundspeed"])

p("C19", "Physical symmetries: shift, scale, reflection, additivity, convergence",
  "Changing the start delay by a whole number of samples shifts the response by that many samples (in a lossless medium; for annular arrays without focusing); scaling the normal velocity scales it; reflecting the observation point in a symmetry plane of the aperture and its cell grid (or, where both allow, rotating it) leaves it unchanged; scaling all lengths and the time unit together maps it accordingly. "
  "An aperture cut into abutting parts (or an array built of abutting elements) has the sum of the parts' responses, and beamformed images are linear in the data. "
  "As the surface discretisation is refined the numerical response of a rectangle or disc tends to the analytic one.",
  ["inputs"], "All functions, geometries, points, delays and scale factors.",
  SMOKE + "no relation between two calls is ever asserted.",
  ["src/dreamrect.cc", "src/dreamcirc.cc", "src/dreamsphere.cc", "src/dreamcylind.cc", "src/dream_arr_rect.cc", "extra_src/rect_sir.cc", "extra_src/circ_sir.cc", "include/das.h"],
  [("surface summation", "*_serial functions")],
  ["matrices returned for related inputs"])

p("C20", "Python and Octave interfaces give the same results",
  "For every function offered in both languages the same arguments give the same result in Python and Octave (bit-for-bit; FFT-based and lossy ones up to floating-point rounding), for every option string, optional parameter vector, scalar or vector delay and error policy. "
  "An argument accepted by one is accepted by the other, and one rejected by one is rejected by the other, where both document it alike.",
  ["inputs", "configurations"], "All shared functions and the cross product of their options.",
  "Nothing compares the two bindings.",
  ["include/arg_parser.h", "include/arg_parser_python.h", "python/src", "oct", "extra_src/oct_das.cc", "python/include/py_das.hpp", "python/include/py_fftconv_p.hpp"],
  [("argument parsing", "include/arg_parser.h, include/arg_parser_python.h"), ("call mapping", "gateways")],
  ["returned matrices and errors in both languages"])

p("C21", "OpenCL device path agrees with the CPU path",
  "Where the build offers an OpenCL device, computing the impulse response of a rectangle or disc, the analytic rectangle response, or a beamformed image (double or single precision; all methods; square or not; also for uniformly spaced grids) on the device gives the CPU result up to floating-point rounding of individual contributions. "
  "This holds for every number of observation points, with one or one per point start delay, in attenuating media, and under every error policy. "
  "A device, driver or kernel that is missing or fails gives an error in the calling language, never a wrong result or a dead session, and later calls are unaffected.",
  ["inputs", "configurations"], "All device-capable functions, methods, precisions, sizes, parameters and failing device calls.",
  "The OpenCL variants are only compiled; no test runs them.",
  ["opencl", "extra_src/das.cc", "include/das_uni.h", "extra_src/oct_das_uni.cc"],
  [("kernels", "opencl/*.cl"), ("host code", "opencl/cl_*.cc")],
  ["matrices returned with device 'gpu' against 'cpu'"])

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
