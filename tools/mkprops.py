#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for the property texts is this file)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": observe, "hook_needed": hook}})

prop("P01", "PID output never leaves the configured actuator limits",
     "Whatever finite set-points and measurements arrive and however gains, direction, limits, mode, manual input, weighting, filter, dead-band or model-reference adaptation are changed between calls, every value the PID controller returns lies inside the saturation limits in force at that call (0..100 until changed). This holds in automatic and in manual mode and while sensor or actuator faults last.",
     ["histories", "inputs", "fault_sequences"], "all interleavings of configuration calls, mode changes and samples, with sensor faults, that keep the control law itself finite",
     "the only test runs one fixed scenario without assertions; limits must hold at every step of every history",
     ["src/pid.cpp", "src/include/pid.hpp"],
     [("output saturation", "src/pid.cpp pidController::control, saturate"), ("limit validation", "src/pid.cpp setSaturation")],
     [("sat_Min/sat_Max", "limits in force", "src/include/pid.hpp"), ("uSat", "last saturated output", "src/include/pid.hpp")],
     ["return value of the control call"])
prop("P02", "PID automatic mode computes the documented control law over any history",
     "In automatic mode each output equals the saturated sum of the proportional action on the weighted error, the integral (selected integration rule) of error plus back-calculated anti-windup correction, and the filtered derivative (selected derivation rule) of the weighted error, with errors inside the dead-band taken as zero and reverse action flipping the sign of positive gains. Gains given in parallel, time-constant or series form, filter, weights, dead-band and limits take effect from the next call on, without disturbing the accumulated state; resetting clears the state only.",
     ["histories", "inputs", "configurations"], "all finite histories of samples and reconfigurations in which the controller stays numerically bounded, up to floating-point rounding",
     "a control law is a recursion: an error in one of its states only shows after particular sequences of reconfigurations, saturations and samples",
     ["src/pid.cpp", "src/include/pid.hpp", "src/numa.cpp"],
     [("control law", "src/pid.cpp pidController::control"), ("dead-band and weighting", "src/pid.cpp pidController::error"), ("gain forms", "src/pid.cpp setParams, setSeries, setGains"), ("state integration", "src/numa.cpp nState::integrate, derive")],
     [("x[3]", "integral and sample history", "src/include/numa.hpp"), ("D", "filtered derivative", "src/include/pid.hpp"), ("u1", "anti-windup feedback", "src/include/pid.hpp")],
     ["return value of the control call", "gains read back"])
prop("P03", "Manual mode follows the operator and mode transfers are bumpless",
     "In manual mode the output is the saturated trapezoidal time integral of (manual input times the manual gain plus the tracking gain times the difference between the previous output and that integral), independent of the measurement. While automatic mode runs with no manual input the integral tracks the controller output, so once tracking has settled a switch to manual moves the output by no more than the remaining tracking error; while manual mode runs the automatic law keeps tracking the applied output so that switching back does not use a wound-up state.",
     ["histories", "inputs"], "all sequences of mode switches, manual inputs, limit and gain changes and samples",
     "the bump only shows for particular switch instants and saturation histories",
     ["src/pid.cpp", "src/include/pid.hpp"],
     [("bumpless transfer state", "src/pid.cpp pidController::control (bt, m, sw)"), ("anti-windup feedback", "src/pid.cpp pidController::control (u1)")],
     [("b_state/m", "manual tracking integral", "src/include/pid.hpp"), ("mInput", "operator input", "src/include/pid.hpp")],
     ["return value of the control call"])
prop("P04", "A PID loop regains its set-point within bounded time after faults end",
     "A properly tuned loop (forward or reverse action) driving a stable first- or second-order process whose set-point is reachable within the limits settles to the set-point and stays there within a bounded number of steps after sensor faults (stuck, dropout, bias, spike, noise), actuator faults (stuck, reduced range), load disturbances, unreachable set-points and manual periods have stopped. However long the output was saturated, the integral action does not keep the loop from recovering.",
     ["fault_sequences", "histories", "schedules"], "all finite fault sequences followed by a fault-free period, for tunings with stability margin",
     "wind-up lock-ups need a specific saturation history before the recovery; the test loop has none",
     ["src/pid.cpp"],
     [("anti-windup back-calculation", "src/pid.cpp pidController::control (u1)"), ("integration", "src/numa.cpp nState::integrate")],
     [("u1", "anti-windup feedback", "src/include/pid.hpp"), ("x[0]", "integral of the error", "src/include/numa.hpp")],
     ["process output in the simulated loop", "control output"])
prop("P05", "Auto-tuning replaces the gains once, at completion, with the documented rule",
     "With an auto-tuner bound, the controller gains never change before tuning completes; at completion, which is reported and comes after exactly the requested number of steps with a physically valid (finite, positive) identified model, they become finite gains computed by the documented rule for the selected controller type, and they then stay put until tuning is requested again; estimates that give no finite gains leave them as they are. Disabled or indefinite tuning never changes the gains; for an excited noise-free first-order process the resulting gains match the rule evaluated at the true process gain and time constant.",
     ["histories", "inputs", "fault_sequences"], "all histories of enabling, disabling, re-enabling, re-binding, parameter changes and closed-loop samples with sensor faults",
     "the gains swap at one instant of a long history; the test never checks it",
     ["src/pid.cpp", "src/include/pid.hpp"],
     [("recursive identification", "src/pid.cpp pidAutoTuning::step"), ("tuning rules", "src/pid.cpp pidAutoTuning::getEstimates"), ("gain swap", "src/pid.cpp pidController::adaptGains")],
     [("it", "remaining steps", "src/include/pid.hpp pidAutoTuning"), ("k/tao", "identified gain and time constant", "src/include/pid.hpp pidAutoTuning")],
     ["gains read back", "completion flag", "estimates read from the tuner"])
prop("P06", "Model-reference adaptation adds exactly the documented adaptive term",
     "With model-reference control active, the automatic output is the PID action plus the set-point times the time integral of the normalised gradient -gamma*em*yr/(alpha+yr^2), where yr is the reference output sampled at the call and em the measurement minus yr; the adaptive term is frozen and not applied at steps that follow a saturated output. Activating starts from zero adaptation, removal takes the term out at once, and rejected adaptation parameters change nothing.",
     ["histories", "inputs"], "all sequences of activation, removal, reset, saturation and samples",
     "depends on the saturation history and on when the adaptation is switched",
     ["src/pid.cpp"],
     [("MRAC term", "src/pid.cpp pidController::control"), ("activation", "src/pid.cpp setModelReferenceControl, removeModelReferenceControl")],
     [("m_state", "adaptation integral", "src/include/pid.hpp"), ("yr", "reference model output", "src/include/pid.hpp")],
     ["return value of the control call"])
prop("P07", "Reset or set-up erases every trace of a faulty past",
     "After any history of samples, including NaN, infinities, spikes and denormals, resetting or setting up again a controller, filter, delay line, LTI system, numerical state, RMS estimator or tuner makes it behave bit-for-bit like a newly created one with the same configuration. A fuzzy system's outputs depend only on its configuration and current inputs, never on earlier evaluations.",
     ["histories", "fault_sequences", "inputs"], "all pasts (finite or not), all later sample sequences, all component kinds",
     "stale state shows only for particular pasts; one poisoned variable left over breaks recovery",
     ["src/pid.cpp", "src/smoother.cpp", "src/ltisys.cpp", "src/tdl.cpp", "src/numa.cpp", "src/rms.cpp", "src/fis.cpp", "src/fisCore.cpp"],
     [("controller reset", "src/pid.cpp reset, setup"), ("filter reset", "src/include/smoother.hpp reset; src/smoother.cpp smooth (first sample)"), ("state initialisation", "src/ltisys.cpp setInitStates, setDelay; src/tdl.cpp flush; src/numa.cpp init")],
     [("init flag", "first sample pending", "src/include/smoother.hpp")],
     ["outputs after the reset"])
prop("P08", "Instances are isolated under arbitrary preemption",
     "Objects used by different tasks do not influence each other: however tasks that each own their objects (controllers, filters, LTI systems, delay lines, fuzzy systems, bit-fields, check-sum computations) preempt one another at any point inside library calls, every task obtains bit-for-bit the results it gets when running alone. No call relies on hidden shared state or leaves other instances' storage modified.",
     ["schedules", "programs"], "all interleavings at memory-access granularity of task sets over all components",
     "needs a preemption inside a call, at one access; the test is single-threaded",
     ["src/pid.cpp", "src/smoother.cpp", "src/ltisys.cpp", "src/tdl.cpp", "src/fis.cpp", "src/fisCore.cpp", "src/crc.cpp", "src/bitfield.cpp", "src/ffmath.cpp", "src/rms.cpp", "src/numa.cpp"],
     [("no mutable static state", "all of src/*.cpp"), ("constant method tables", "src/fis.cpp setParameter, setDeFuzzMethod, setMF")],
     [("per-instance state", "everything a call may change", "src/include/*.hpp")],
     ["outputs of every task"])
prop("P09", "A call cut short at any point is recoverable by setting the object up again",
     "If a library call is abandoned at any point (task killed, reset) and the object is then set up again in place, or created anew over the same dirty memory, it behaves bit-for-bit like a fresh object over clean memory. Nothing in the result depends on what the object's memory or its user-provided buffers held before.",
     ["crash_points", "histories"], "all crash points inside library calls, all prior histories, all initial memory contents, all component kinds",
     "needs an interruption at one memory access inside a call",
     ["src/pid.cpp", "src/smoother.cpp", "src/ltisys.cpp", "src/tdl.cpp", "src/fis.cpp", "src/rms.cpp", "src/numa.cpp", "src/bitfield.cpp"],
     [("set-up initialises all state", "setup functions in src/*.cpp"), ("default member initialisers", "src/include/*.hpp")],
     [("object and buffer memory", "all state, possibly half updated", "src/include/*.hpp")],
     ["outputs after the new set-up"])
prop("P10", "Delay lines return exactly the samples inserted, in order",
     "After any sequence of insertions and flushes, a tapped delay line of n taps yields for index i the sample inserted i insertions ago (its flush value if older), its oldest and most recent samples accordingly, and an undefined marker for indexes outside it. A transport delay of N steps returns every input unchanged exactly N calls later and its initial value before that, and an LTI system with an n-tap input delay responds as without delay to inputs shifted by n-1 steps.",
     ["histories", "inputs", "configurations"], "all lengths, including one tap and very long lines, all histories including wrap-around, duplicated and lost samples",
     "ring-buffer index errors appear at particular length and wrap positions",
     ["src/tdl.cpp", "src/include/tdl.hpp", "src/include/ltisys.hpp", "src/ltisys.cpp"],
     [("ring buffer", "src/tdl.cpp insertSample, getAtIndex, operator[], flush"), ("transport delay", "src/include/ltisys.hpp transportDelay"), ("input delay", "src/ltisys.cpp setDelay, excite")],
     [("rd/wr/head/tail", "ring positions", "src/include/tdl.hpp")],
     ["values read by index, oldest, recent", "delayed outputs"])
prop("P12", "Discrete LTI systems realise their transfer function",
     "For every input history, a discrete system set up with numerator b and denominator a (any lengths, any leading coefficient) produces the solution of its difference equation from the given initial states, clipped to the configured output limits only, and keeps doing so across saturation, re-initialisation and limit changes. Without limits set no output is clipped.",
     ["histories", "inputs", "configurations"], "all orders and coefficient lengths (numerator shorter, equal, longer), all bounded input histories",
     "coefficient indexing errors depend on orders and history",
     ["src/ltisys.cpp", "src/include/ltisys.hpp"],
     [("direct form II update", "src/ltisys.cpp discreteSystem::update, updateFIR"), ("normalisation", "src/ltisys.cpp normalizeTransferFunction"), ("saturation", "src/ltisys.cpp ltisys::saturate, setSaturation")],
     [("xd", "direct form states", "src/include/ltisys.hpp")],
     ["excitation output"])
prop("P13", "Continuous LTI systems follow their differential equation",
     "A continuous system excited with step size dt advances its controllable-form states with the selected integration rule and outputs numerator times states plus direct feed-through, clipped only to the configured limits; with dt small against its time constants the response stays close to the exact solution of its differential equation. Initial states, method changes and limits take effect as configured, each state using its own initial value.",
     ["histories", "inputs", "configurations"], "all stable systems of order 1 to 6, all bounded input histories with held, dropped and duplicated samples, all integration rules it accepts",
     "state ordering and feed-through errors depend on order, coefficients and history",
     ["src/ltisys.cpp", "src/include/ltisys.hpp", "src/numa.cpp"],
     [("controllable form update", "src/ltisys.cpp continuousSystem::update"), ("initial states", "src/ltisys.cpp continuousSystem::setInitStates"), ("integration", "src/numa.cpp nState::integrate")],
     [("xc", "integrator states", "src/include/ltisys.hpp")],
     ["excitation output"])
prop("P14", "Recursive smoothers compute their documented recursions",
     "For every sample history the first- and second-order low-pass, exponentially weighted, scalar Kalman and double-exponential smoothers return the value of their documented recursion started at the first sample after set-up or reset; a constant signal passes unchanged (for the double-exponential one in the limit). First-order low-pass, exponential and Kalman outputs do not leave the range spanned by the samples since the last reset.",
     ["histories", "inputs", "configurations"], "all parameter values in range and all finite sample histories with resets at arbitrary points",
     "recursion state errors need a history",
     ["src/smoother.cpp", "src/include/smoother.hpp"],
     [("recursions", "src/smoother.cpp LPF1, LPF2, EXPW, KLMN, DESF")],
     [("y1,y2,x1,x2,m,w,p,lt,bt", "filter states", "src/include/smoother.hpp")],
     ["smoothed output"])
prop("P15", "Moving-window smoothers average exactly their window",
     "For every history, the moving-window means return the mean of the last n samples (the window holding the first sample before it fills), the Gaussian window filter returns the normalised Gaussian-weighted sum of its window, and the adaptive filter returns the weighted window sum with weights that follow the LMS recursion with momentum. Results depend only on samples inside the window, or for the adaptive filter on samples since the last reset.",
     ["histories", "inputs", "configurations"], "all window sizes from 1 up, all finite histories with spikes, stuck, dropped samples and resets, including histories far longer than the window; for the adaptive filter those in which its step size keeps the adaptation stable",
     "window indexing errors show at particular sizes and positions; running sums drift over long histories",
     ["src/smoother.cpp", "src/include/smoother.hpp", "src/tdl.cpp", "src/ltisys.cpp"],
     [("window mean", "src/smoother.cpp MWM1, MWM2"), ("Gaussian kernel", "src/smoother.cpp GMWF"), ("LMS update", "src/smoother.cpp ALNF"), ("FIR", "src/ltisys.cpp updateFIR")],
     [("w, k, sum, w_1", "window, kernel, running sum, previous weights", "src/include/smoother.hpp")],
     ["smoothed output"])
prop("P16", "Outlier removers pass good samples and replace outliers by the window mean",
     "The outlier-removal filters return a sample unchanged when it deviates from the mean of the current window by no more than the configured fraction of that mean, and return that mean instead when it deviates more; the window then holds the returned values. A burst of outliers never reaches the output.",
     ["histories", "inputs", "fault_sequences"], "all window sizes, thresholds and histories with injected spike bursts, level shifts and resets",
     "the decision depends on the whole window history",
     ["src/smoother.cpp"],
     [("outlier test and replacement", "src/smoother.cpp MOR1, MOR2")],
     [("m", "mean of the window", "src/include/smoother.hpp")],
     ["filter output"])
prop("P17", "The RMS estimator follows its three-stage definition",
     "For every history the RMS estimate equals the square root of the exponentially weighted mean of squares, averaged over the window and then low-pass filtered with the configured parameters; it is never negative (beyond rounding), does not depend on the sign of the samples, scales with their amplitude, and converges to the true RMS of a steady periodic signal.",
     ["histories", "inputs", "configurations"], "all windows, parameters and finite histories with sensor faults and re-set-ups",
     "three coupled recursions over a history",
     ["src/rms.cpp", "src/smoother.cpp", "src/include/rms.hpp"],
     [("three stages", "src/rms.cpp rms::update"), ("parameters", "src/rms.cpp setup, setParams")],
     [("EXPW/MWM2/LPF1 states", "stage states", "src/include/smoother.hpp")],
     ["estimate returned"])
prop("P18", "A check-sum protected link never accepts a corrupted frame it must detect",
     "Over a simulated noisy link, a receiver recomputing the check-sum accepts every intact frame and rejects every frame damaged by any error burst no longer than the check-sum width, any odd or two-bit error within the polynomial's guarantee, in payload or check-sum, for every supported algorithm and frame length. Sender and receiver agree whatever buffers hold the frame.",
     ["fault_sequences", "inputs", "configurations"], "all frames, all algorithms, all injected corruptions within the polynomial's detection guarantee",
     "a wrong table entry or bit order only matters for particular frames and errors",
     ["src/crc.cpp", "src/include/crc.hpp"],
     [("generic engine", "src/crc.cpp crc::generic"), ("catalogue", "src/include/crc.hpp")],
     [("none", "stateless", "src/crc.cpp")],
     ["accept/reject decision of the receiver"])
prop("P19", "Check-sums interoperate with every other implementation of the catalogue",
     "Each named check-sum routine returns, for every message, the value defined by its published polynomial, initial value, reflection and final XOR; the generic routine does so for any such parameter set. Empty or absent data gives zero.",
     ["inputs", "configurations"], "all messages (including long ones and all byte values) and all named algorithms, plus random parameter sets, exchanged between the library and an independent bit-serial node",
     "the test prints a few values of one message and checks none",
     ["src/crc.cpp", "src/include/crc.hpp"],
     [("generic engine", "src/crc.cpp crc::generic"), ("catalogue parameters", "src/include/crc.hpp")],
     [("none", "stateless", "src/crc.cpp")],
     ["returned check-sum"])
prop("P20", "Bit-fields behave as an array of bits",
     "For every sequence of operations, a bit-field behaves as a little-endian array of bits: reads of bits, unsigned numbers of 1 to 32 bits and floats at any bit index return what was last written there, writes change exactly the addressed bits, and dumps reproduce the area. Bits outside the addressed range keep their value.",
     ["histories", "inputs", "configurations"], "all operation sequences, indexes, widths and area sizes whose addressed range lies inside the area",
     "masking errors show at particular offset/width/content combinations",
     ["src/bitfield.cpp", "src/include/bitfield.hpp"],
     [("word access", "src/bitfield.cpp read_uint32, write_uint32"), ("masks", "src/include/bitfield.hpp safeMask, maskMerge")],
     [("field", "user area", "src/include/bitfield.hpp")],
     ["values read, area contents"])
prop("P21", "An interrupted bit-field write never disturbs other bits",
     "If a bit-field write, set, clear or toggle is cut short at any point, or observed by an interrupt at any point, every bit outside the addressed range holds its old value and every addressed bit holds either its old or its new value. Repeating the write completes it.",
     ["crash_points", "schedules"], "all interruption points inside all mutating operations, all contents, offsets and widths",
     "needs a cut between two memory accesses of one call",
     ["src/bitfield.cpp", "src/include/bitfield.hpp"],
     [("read-modify-write per word", "src/bitfield.cpp write_uint32, writeUINTn; src/include/bitfield.hpp set, clear, toggle")],
     [("field", "user area", "src/include/bitfield.hpp")],
     ["area contents at every interruption point"])
prop("P22", "Mamdani inference computes the configured fuzzy system",
     "For every rule base, set of membership functions, operators, implication, aggregation, rule weights and inputs, a Mamdani system's outputs equal the chosen de-fuzzification (centroid, bisector, middle, largest, smallest of maximum) of the aggregated implied consequents sampled at the evaluation points, with inputs limited to their ranges. The stored aggregated region is that same region.",
     ["inputs", "configurations", "histories"], "all well-formed rule bases with several outputs, negated terms and mixed connectors, all input histories with sensor faults",
     "the test evaluates three fixed systems at a few points without checking",
     ["src/fis.cpp", "src/fisCore.cpp", "src/include/fis.hpp"],
     [("fuzzification", "src/fis.cpp fuzzify"), ("rule parser", "src/fis.cpp inference*"), ("aggregation", "src/fis.cpp inferenceConsequent, fuzzyAggregate"), ("de-fuzzification", "src/fisCore.cpp deFuzz*"), ("membership functions", "src/fisCore.cpp *MF")],
     [("wi", "rule strengths", "src/include/fis.hpp"), ("v[]", "de-fuzzification accumulators", "src/include/fis.hpp")],
     ["outputs, rule strengths, aggregated region"])
prop("P23", "Sugeno and Tsukamoto inference compute the configured fuzzy system",
     "For every rule base and inputs, a Sugeno system returns the weighted average or weighted sum of its constant or linear consequents, and a Tsukamoto system the weighted average of its monotonic consequents evaluated at each rule's firing strength, limited to the output range. A Tsukamoto consequent returns the abscissa at which its shape attains the firing strength.",
     ["inputs", "configurations", "histories"], "all well-formed rule bases, rule weights and input histories with sensor faults",
     "the test evaluates fixed systems without checking",
     ["src/fis.cpp", "src/fisCore.cpp", "src/include/fis.hpp"],
     [("consequents", "src/fis.cpp inferenceConsequent"), ("weighted average and sum", "src/fisCore.cpp deFuzzWtAverage, deFuzzWtSum"), ("Tsukamoto shapes", "src/fisCore.cpp T*MF")],
     [("wi", "rule strengths", "src/include/fis.hpp")],
     ["outputs, rule strengths"])
prop("P24", "Fuzzy outputs stay in range whatever the inputs",
     "For any inputs at all, including NaN, infinities, out-of-range and denormal values, and even when no rule fires, every output of a well-formed fuzzy system is a number inside its configured output range, rule strengths stay in [0,1], and the following evaluations with good inputs are unaffected.",
     ["inputs", "fault_sequences", "histories"], "all input faults, all rule bases, operators and de-fuzzifiers",
     "no test feeds faulty sensor values",
     ["src/fis.cpp", "src/fisCore.cpp", "src/ffmath.cpp"],
     [("range coercion", "src/fisCore.cpp bound; src/ffmath.cpp inRangeCoerce"), ("output limiting", "src/fis.cpp deFuzzify")],
     [("value", "input and output values", "src/include/fis.hpp")],
     ["outputs, rule strengths"])
prop("P25", "Numerical states integrate and differentiate by the selected rule",
     "For every sample history and every switch between rules, a numerical state integrates with the rectangular, trapezoidal, Simpson or quadratic rule and differentiates with the two-point, backward or forward rule over its last samples exactly as documented; calls asked not to update leave the sample history alone. Initialisation sets value and history.",
     ["histories", "inputs", "configurations"], "all histories mixing integration, differentiation, rule changes, history-preserving calls, time-step jitter and sensor faults",
     "depends on the order of calls and on the history kept",
     ["src/numa.cpp", "src/include/numa.hpp"],
     [("integration rules", "src/numa.cpp nState::integrate"), ("derivation rules", "src/numa.cpp nState::derive")],
     [("x[3]", "value and two past samples", "src/include/numa.hpp")],
     ["returned values"])
prop("P26", "No library call touches memory outside the objects and buffers it was given",
     "For every history of valid calls, faults and configurations across all components, with every user buffer exactly as large as documented, the library reads and writes only inside the objects and buffers handed to it. No sample value, however extreme, changes that.",
     ["histories", "inputs", "configurations", "fault_sequences"], "all component kinds, buffer sizes from the minimum up, all sample values including NaN and infinities",
     "an out-of-bounds access of a few bytes goes unnoticed in an ordinary test run",
     ["src/pid.cpp", "src/smoother.cpp", "src/ltisys.cpp", "src/tdl.cpp", "src/fis.cpp", "src/fisCore.cpp", "src/crc.cpp", "src/bitfield.cpp", "src/rms.cpp", "src/numa.cpp"],
     [("buffer indexing", "src/tdl.cpp, src/ltisys.cpp updateFIR, src/smoother.cpp, src/bitfield.cpp, src/fis.cpp")],
     [("user buffers", "windows, kernels, states, areas", "src/include/*.hpp")],
     ["memory sanitizer report, canaries around every buffer"])
prop("P27", "A rejected configuration changes nothing",
     "Every configuration call with arguments outside the documented range (or on an object not set up yet) returns failure, and from then on the object behaves bit-for-bit as if the call had not been made, at whatever point of its history it came. Valid configuration calls report success. Inference over a damaged rule table (no begin mark, unknown connector or input, fewer rules than announced) reports failure and works again once the table is repaired.",
     ["configurations", "histories"], "all invalid configuration attempts (out of range, NaN, null, zero size) at all points of all histories of all components",
     "partial application of a rejected set-up only shows later in the history",
     ["src/pid.cpp", "src/smoother.cpp", "src/ltisys.cpp", "src/fis.cpp", "src/rms.cpp", "src/bitfield.cpp"],
     [("argument validation", "setup and set* functions in src/*.cpp")],
     [("configuration members", "parameters in force", "src/include/*.hpp")],
     ["return values and outputs of twins"])
prop("P33", "Interpolators answer with the method and table in force",
     "After any sequence of table swaps, method changes, rejected tables and faulty abscissas, and whatever other interpolators are used in between, an interpolator answers each query with the selected method over the table given last: the tabulated value at tabulated points (next: the value of the first point beyond the abscissa, the last one at the end), in between the next, previous or nearest neighbour, the straight line, the raised-cosine blend, the cubic blend whose end tangents are the interval width times the backward differences, the polynomial through all points (Hermite), the Catmull-Rom spline or the constrained spline with harmonic-mean slopes, which does not overshoot; beyond the ends the same method extrapolates (Hermite: the straight line). A table too short for the method (fewer than four points for the cubic blend and both splines, two for the others) gives NaN. Invalid tables and methods are refused and change nothing.",
     ["histories", "configurations", "inputs", "fault_sequences"], "all sequences of tables, methods, rejected configurations and abscissas, including faulty ones, over several interpolators",
     "the answer depends on which table and method the history left in force and on where in the table the abscissa falls; tests query one table without checking",
     ["src/interp1.cpp", "src/include/interp1.hpp"],
     [("method and table selection", "src/interp1.cpp setMethod; src/include/interp1.hpp setData"), ("methods", "src/interp1.cpp next .. cSpline")],
     [("xData, yData, dataSize, method", "table and method in force", "src/include/interp1.hpp")],
     ["interpolated values, return values of the configuration calls"])
prop("P34", "Arrays and matrices hold what their history of operations defines",
     "Whatever sequence of operations an array or a matrix goes through, it holds what those operations define: sorting leaves an ordered permutation of exactly the addressed range, by operator< or by a user-given order (with unordered elements or an inconsistent comparison function it still ends with a permutation); reversing, rotating, filling, replacing and applying a function change exactly the addressed elements; searches and counts answer for the present content. Matrix sums, differences, products, scalings, increments, transposes, copies, special matrices, infinity norms and inverses of well-conditioned matrices equal their definitions up to rounding, also when an operand is the result, and element access by any form agrees.",
     ["histories", "inputs", "fault_sequences"], "all operation histories over arrays of several element types and sizes and matrices of several shapes, with unordered elements and faulty callbacks",
     "an error in one operation shows only for particular contents, ranges or aliasing reached through a history; the tests print results without checking",
     ["src/include/algorithm.hpp", "src/include/mat.hpp"],
     [("array operations", "src/include/algorithm.hpp"), ("matrix operations", "src/include/mat.hpp")],
     [("array and matrix contents", "result of all operations so far", "src/include/algorithm.hpp, src/include/mat.hpp")],
     ["contents after every operation, returned values"])
prop("P35", "Fixed-point values hold what their history defines, and overflows show",
     "Whatever sequence of conversions, sums, differences, products, quotients, increments, negations, copies, floor, ceil, rounding, absolute value, square root and angle wrapping a Q16.16 value goes through, in place or into another value, after every operation it holds the exact result of its operands: sums and differences exactly, products, quotients, square roots and conversions to the nearest representable number, wrapped angles inside their interval (up to the resolution of the format) and a whole number of turns away. A result that does not fit (and the square root of a negative number) yields the overflow marker at that very operation and never a wrapped or otherwise valid-looking number; a result that fits never yields the marker; a division by zero yields the smallest number. Comparisons, conversions to integer (nearest), float, double and text (the asked number of decimals, correctly rounded, nothing written behind the terminator) agree with the value held, and no operation changes a value that is not its target.",
     ["histories", "inputs", "fault_sequences"], "all operation histories over several fixed-point values, with operands at the ends of the range, overflows and divisions by zero",
     "an overflow or rounding error shows only for particular operands that long accumulations, filters or products of earlier results reach; the tests print a few values without checking",
     ["src/fp16.cpp", "src/include/fp16.hpp"],
     [("arithmetic", "src/fp16.cpp add .. sqrt, wrapToPi, wrapTo180, toASCII"), ("operators", "src/include/fp16.hpp")],
     [("value", "the Q16.16 number or the overflow marker", "src/include/fp16.hpp")],
     ["raw values after every operation, comparisons, converted values, text"])
NA = [
 ("P31", "Fast math functions stay within their stated accuracy",
  "Every fast math function returns, for every argument in its domain, a value within its stated relative error of the exact function, and the documented special values at domain edges.",
  ["src/ffmath.cpp", "src/include/ffmath.hpp"], ["function results"]),
 ("P32", "Fixed-point elementary functions stay within the accuracy of their format",
  "The fixed-point exponential, logarithm, trigonometric, hyperbolic and power functions return, for every argument in their domain, a value within a few units of the format of the exact function, or the documented marker.",
  ["src/fp16.cpp", "src/include/fp16.hpp"], ["operation results"]),
]
for i, t, s, f, o in NA:
    prop(i, t, s, ["inputs"], "all inputs", "a finite sample of inputs cannot settle a numeric bound or an ordering over all inputs",
         f, [("the functions themselves", f[0])], [("none", "pure functions without state", f[0])], o)
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as fh:
    for p in P: fh.write(json.dumps(p) + "\n")
