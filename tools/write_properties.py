#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=observe, hook_needed=hook)))

LTI = ["philtorch/lti/filtering.py", "philtorch/lti/ssm.py", "philtorch/lti/recur.py"]
LPV = ["philtorch/lpv/filtering.py", "philtorch/lpv/ssm.py", "philtorch/lpv/recur.py", "philtorch/lpv/utils.py"]
CS = ["philtorch/csrc/host_lti_recur.cpp", "philtorch/csrc/host_lti_recurN.cpp", "philtorch/csrc/host_recurN.cpp", "philtorch/csrc/host_recur2.cpp"]

p("C01", "Time-invariant streams: block-by-block equals whole-signal filtering",
  "Feeding a signal to any time-invariant filter, state-space, FIR, comb or linear-recurrence function as consecutive blocks, each started from the state the previous block left, gives the outputs and final state of the defining recurrence run over the whole signal. "
  "This holds for every cutting into blocks (single samples and blocks shorter than the filter order or delay included), for every choice of unrolling or backend from block to block, and when a block is processed again from a saved state after a crash or a failed attempt.",
  ["schedules", "crash_points", "histories", "inputs", "configurations"],
  "all partitions of a stream into blocks, all checkpoint/crash/redelivery points, all per-block unroll/backend choices, all coefficient shapes (shared, per-stream), orders, dtypes and layouts",
  "Existing tests filter one block of fixed length (>= 17 samples) once; the state returned by one call is compared with scipy but never fed to the next call, and no test uses a block shorter than the order.",
  LTI + CS, [("returned final state zf / last state of the recursion", "philtorch/lti/ssm.py:state_space, diag_state_space; philtorch/lti/filtering.py:fir, comb_filter, lfilter"),
             ("block unrolling with padding and truncation", "philtorch/lti/ssm.py:state_space_recursion; philtorch/lti/recur.py:linear_recurrence")],
  ["return values (y, zf) of philtorch.lti.{lfilter,fir,comb_filter,state_space,diag_state_space}", "outputs of philtorch.lti.{state_space_recursion,linear_recurrence}"],
  [("zi/zf", "carried filter state", "arguments and results of the calls")])

p("C02", "Time-varying streams: block-by-block equals whole-signal filtering",
  "Feeding a signal and its time-varying coefficients to any parameter-varying filter, FIR, all-pole, state-space or recurrence function as consecutive blocks, each started from the state the previous block left, gives the outputs and final state of the defining time-varying recurrence run over the whole signal. "
  "This holds for every cutting into blocks (single samples and blocks shorter than the filter order included), for every choice of unrolling or backend from block to block, and when a block is processed again from a saved state after a crash or a failed attempt.",
  ["schedules", "crash_points", "histories", "inputs", "configurations"],
  "all partitions, crash/redelivery points, unroll/backend choices, coefficient shapes (constant, per-step, per-stream, both), orders, dtypes and layouts",
  "Existing tests run one block of one length per case from one random state; chaining of states over time-varying coefficients, short blocks and redelivery never occur.",
  LPV + CS, [("returned final state zf", "philtorch/lpv/filtering.py:fir, allpole, lfilter; philtorch/lpv/ssm.py:state_space"),
             ("block unrolling of time-varying products", "philtorch/lpv/ssm.py:state_space_recursion; philtorch/lpv/recur.py:linear_recurrence")],
  ["return values of philtorch.lpv.{lfilter,fir,allpole,state_space}", "outputs of philtorch.lpv.{state_space_recursion,linear_recurrence}"],
  [("zi/zf", "carried filter state", "arguments and results of the calls")])

p("C03", "Concurrent callers never interfere with each other",
  "Any number of caller threads may use the library at the same time, sharing coefficient, input and state tensors. "
  "Under every interleaving of their execution, each forward call and each gradient computation returns what the same call returns when it runs alone.",
  ["schedules", "histories"],
  "all interleavings of concurrent calls (preemption anywhere inside the library, native kernels included), all mixes of functions and shared arguments",
  "No test uses more than one caller thread.",
  ["philtorch/lti", "philtorch/lpv", "philtorch/mat.py", "philtorch/poly.py", "philtorch/utils.py", "philtorch/csrc"],
  [("purely functional design: no module-level mutable state, no scratch shared between calls", "README.md (design goals); all modules"),
   ("autograd context owned per call", "philtorch/lti/recur.py:LTIRecurrence; philtorch/lti/ssm.py:LTIMatrixRecurrence; philtorch/lpv/ssm.py:MatrixRecurrence")],
  ["results of concurrent public calls and of backward passes"])

p("C04", "Native kernels: same result under every worker-thread schedule, no races",
  "For every number of worker threads and every interleaving of their memory accesses, the compiled recurrence kernels return bit-for-bit the same result, and it is that of the sequential recurrence. "
  "No two workers touch the same memory without synchronisation when at least one writes, and no kernel reads or writes outside the tensors of its call.",
  ["schedules", "configurations", "inputs"],
  "all worker counts, all interleavings at memory-access granularity, all batch/time/order sizes, layouts and dtypes",
  "The tests run on the OS scheduler with two OpenMP threads and batches of two to five rows; a race or a bad partition at another worker count or batch size is not exercised, and nothing detects an access outside a buffer.",
  CS, [("rows of the batch are partitioned among OpenMP workers, time is sequential within a row", "philtorch/csrc/*.cpp: #pragma omp parallel for"),
       ("private contiguous copies of the arguments", "philtorch/csrc/*.cpp: contiguous(), cat()")],
  ["outputs of torch.ops.philtorch.{lti_recur,lti_recur2,lti_recurN,recur2,recurN}", "memory accesses of the kernels"])

p("C05", "A failed or interrupted call leaves no trace and can simply be retried",
  "When a memory allocation or an underlying tensor operation fails, or the caller is interrupted, at any point of a forward call or a gradient computation, the call either raises or returns the complete correct result, never a wrong or partial one. "
  "The caller's tensors and process-wide settings are as before, and repeating the call gives exactly the result of an undisturbed call.",
  ["crash_points", "fault_sequences", "histories"],
  "all fault kinds at every point of every public filtering call and its backward pass, repeated faults, retries",
  "No test injects a failure; error paths are only reached through malformed shapes.",
  ["philtorch/lti", "philtorch/lpv", "philtorch/mat.py", "philtorch/poly.py", "philtorch/csrc"],
  [("no argument is written to, no global setting is switched, no cached state exists between calls", "all modules")],
  ["exceptions, return values, argument bytes and version counters, torch global settings, results of the retry"])

p("C06", "Calls never modify arguments, and results never share memory",
  "No filtering, state-space, recurrence, interpolation, initial-condition, companion-matrix or polynomial-division call changes any tensor it is given, whatever their layout or sharing (views, overlapping or expanded buffers, the same tensor passed twice). "
  "After a call returns, overwriting its argument buffers or one of its results in place never changes any other result, past or future, nor the caller's arguments.",
  ["histories", "inputs", "configurations"],
  "all histories of calls interleaved with in-place reuse of input buffers and results (ring buffers, in-place post-processing), all layouts",
  "Tests use fresh tensors for every call and never write to them afterwards.",
  ["philtorch/lti", "philtorch/lpv", "philtorch/mat.py", "philtorch/poly.py", "philtorch/csrc"],
  [("functional style: results are new tensors", "all modules"), ("defensive copies in the native kernels", "philtorch/csrc/*.cpp: at::cat, contiguous()")],
  ["bytes and version counters of arguments; bytes of earlier results after later writes"])

p("C07", "Missing optional accelerators never change results",
  "Whichever optional compiled components (the compiled extension, the Helion kernels, PararNN) are absent or fail to load at start-up, in whatever way, the library still imports, with a warning when the extension or the Helion kernels are missing, and every public filtering function gives the same values, final states and gradients, up to rounding, as when everything is loaded.",
  ["configurations", "fault_sequences", "inputs"],
  "all subsets and ways of load failure x all public functions, argument shapes and unroll settings",
  "The test suite only runs with everything loaded; the fallback is reached only by direct calls of internal helpers.",
  ["philtorch/__init__.py", "philtorch/lti", "philtorch/lpv", "philtorch/csrc"],
  [("guarded imports and load flags", "philtorch/__init__.py: EXTENSION_LOADED, HELION_LOADED"), ("per-call backend selection", "philtorch/lti/ssm.py, philtorch/lpv/ssm.py: *_backend_indicator; philtorch/lti/filtering.py:comb_filter; philtorch/lti/interp.py:_first_order_filt")],
  ["import-time warnings; values and gradients of public calls in differently degraded processes"])

p("C08", "Streams processed in one batch are isolated from each other",
  "When independent streams are processed together in batches, in any grouping and order that changes from block to block as streams join, leave or stall, each stream gets exactly the outputs, states and gradients it gets when processed alone. "
  "A stream whose samples, state or own coefficients become NaN, infinite or huge never changes another stream of the batch (a call may instead reject coefficients for which a required decomposition or solve fails).",
  ["schedules", "fault_sequences", "histories", "inputs"],
  "all dynamic groupings of streams into batches over time, all corruption points and values",
  "Tests use one fixed batch of well-behaved random rows and never compare a row with the same row processed alone.",
  LTI + LPV + CS + ["philtorch/lti/interp.py"],
  [("batch dimension handled by independent rows / groups", "philtorch/lti/filtering.py:fir, comb_filter; philtorch/lti/ssm.py; philtorch/lpv/ssm.py; philtorch/csrc/*.cpp")],
  ["per-stream outputs and states of batched calls"])

p("C09", "Gradients through any history of blocks equal those of the whole recurrence",
  "Backpropagating through a chain of blocks linked by their states gives, for coefficients, inputs and initial states, the gradient of the defining recurrence over the whole signal. "
  "This holds for every cutting into blocks, every order and repetition of backward passes (accumulated per block, repeated on a retained graph, recomputed from checkpoints), and every choice of unrolling or backend; forward-mode derivatives agree with them.",
  ["schedules", "histories", "inputs", "configurations"],
  "all partitions, orders/repetitions of backward passes, subsets of differentiated arguments, shapes, dtypes, unroll/backend choices",
  "gradcheck is run on the core recurrences in a single call with one or two shapes; chained calls, gradients through the carried state, retained graphs, recomputation and most public wrappers are not covered.",
  ["philtorch/__init__.py"] + LTI + LPV,
  [("hand-written backward and jvp", "philtorch/lti/recur.py:LTIRecurrence; philtorch/lti/ssm.py:LTIMatrixRecurrence; philtorch/lpv/ssm.py:MatrixRecurrence; philtorch/__init__.py: register_autograd"),
   ("gradient of the carried state", "backward: grad_zi")],
  ["accumulated .grad / torch.autograd.grad / forward-mode tangents"])

p("C10", "In-place changes between forward and backward never corrupt gradients silently",
  "If a caller changes in place any tensor given to or returned by a call, at any time before a backward pass needs it, that backward pass either raises an error or yields the gradient of the computation as it was performed. "
  "It never returns a gradient mixed from old and new values.",
  ["histories", "schedules"],
  "all placements of in-place writes to arguments, states and results among forward and backward passes",
  "No test writes to a tensor between forward and backward.",
  ["philtorch/__init__.py"] + LTI + LPV,
  [("tensors needed by backward are registered with autograd, so version counters are checked", "save_for_backward / save_for_forward in the three autograd Functions and in philtorch/__init__.py:_setup_context")],
  ["gradients or errors of backward passes after in-place writes"])

p("C11", "Results depend only on arguments, not on memory contents, settings or past calls",
  "A call's result is a function of its arguments alone: whatever uninitialised or reused memory contains, whatever was called (or failed) before, and whatever the ambient settings are (default dtype, thread count, random state, gradient or inference mode). "
  "Calls leave those ambient settings and the random state unchanged, and repeating a call does not retain more and more memory.",
  ["histories", "configurations", "schedules"],
  "all contents of fresh memory, all prior call histories, all ambient settings",
  "Tests run each call once with default settings in fresh (mostly zero-filled) memory.",
  ["philtorch/lti", "philtorch/lpv", "philtorch/mat.py", "philtorch/poly.py", "philtorch/csrc"],
  [("buffers are fully written before they are read; constants are created with the arguments' dtype and device", "philtorch/lti/interp.py, philtorch/mat.py, philtorch/csrc/*.cpp (empty_like)")],
  ["results, ambient settings, allocator accounting"])

p("C12", "A crashed stream resumes exactly from its logged inputs and outputs",
  "If a stream's running state is lost at any point, the state rebuilt from its most recent logged outputs and inputs equals the state the running filter had, so the resumed stream continues as if it had never stopped; this holds even right after the start, when fewer samples than the filter order have been logged. "
  "A stream started from the computed steady-state condition gives a constant output for a constant input from its first sample on, under every cutting into blocks.",
  ["crash_points", "histories", "inputs"],
  "all crash points, coefficient shapes, orders (numerator shorter/longer than denominator), batches",
  "The rebuilt state is compared with scipy for one order pair and never used to resume a stream.",
  ["philtorch/lti/filtering.py", "philtorch/mat.py"],
  [("state from past outputs/inputs", "philtorch/lti/filtering.py:lfiltic; comb_filter state = last outputs"), ("steady state", "philtorch/lti/filtering.py:lfilter_zi")],
  ["outputs of the resumed stream"])

p("C13", "The parallel Newton solver reproduces the sequential recursion, block by block",
  "Solving a non-linear contraction y_t = f(y_{t-1}, x_t) block by block with the parallel Newton solver, each block started from the last accepted output of the previous one, gives the trajectory of the sequential recursion: after k iterations the first k samples are exact, a solve that stops before its iteration limit has converged on every sample, and a linear recursion is solved in one iteration. "
  "This holds for every cutting, iteration limit, initial guess, unrolling, analytic or automatic Jacobian, with or without the compiled extension, and after a crash. If the caller's function, an allocation or a tensor operation fails, or the caller is interrupted, the solve raises, leaves its arguments as they were and gives the same result when repeated. Gradients of the solution equal those of the sequential recursion.",
  ["crash_points", "histories", "schedules", "inputs"],
  "all contractions, cuttings, iteration limits, initial guesses and fault positions",
  "One function, one shape and one 10-iteration solve are tested, without gradients, blocks or failures.",
  ["philtorch/prototype/nl.py", "philtorch/lpv/ssm.py"], [("Newton iteration over a linear recurrence", "philtorch/prototype/nl.py:newton_solve"), ("linear solve", "philtorch/lpv/ssm.py:_ext_ss_recur, state_space_recursion")],
  ["solutions, iteration counts, gradients, exceptions"])

# ---- properties that this family cannot decide here (listed under not_applicable)
p("N01", "Filters agree with scipy.signal and across structures",
  "For every signal and coefficient set, the filtering, zero-phase filtering, initial-condition and spline functions agree with their scipy.signal counterparts, and all filter structures agree with each other, for real and complex coefficients.",
  ["inputs"], "all coefficients, signals and options", "Tests sample a handful of orders with real coefficients.",
  LTI + ["philtorch/lti/interp.py"], [("state-space realisations", "philtorch/lti/filtering.py:_ssm_lfilter, _diag_ssm_lfilter, filtfilt, lfilter_zi")], ["return values"])
p("N02", "Abstract (traced) kernels describe the real kernels",
  "For every argument combination the abstract kernels used for tracing and compilation accept and reject the same arguments, and predict the same shapes, dtypes and strides, as the real kernels.",
  ["inputs"], "all shapes and dtypes", "opcheck is run on one shape per op.",
  ["philtorch/__init__.py"], [("register_fake", "philtorch/__init__.py")], ["fake vs real outputs"])
p("N03", "Malformed arguments are rejected",
  "Arguments whose shapes, orders or dtypes do not fit together raise an error instead of being silently broadcast or reinterpreted.",
  ["inputs"], "all malformed argument combinations", "Tests hardly exercise errors.",
  LTI + LPV, [("asserts and shape matching", "philtorch/lti/ssm.py, philtorch/lpv/ssm.py")], ["exceptions"])
p("N04", "Matrix and polynomial helpers satisfy their algebra",
  "Companion matrices, accumulated powers, cumulative products, eigenvectors, polynomial division and partial fractions satisfy their defining identities for every input.",
  ["inputs"], "all matrices and polynomials", "Tests sample a few sizes.",
  ["philtorch/mat.py", "philtorch/poly.py", "philtorch/prototype"], [("closed forms", "philtorch/mat.py, philtorch/poly.py, philtorch/prototype/signal.py")], ["return values"])
p("N06", "GPU kernels agree with the CPU kernels",
  "The CUDA, Helion and external GPU back ends return what the CPU kernels return for every input and launch schedule.",
  ["schedules", "inputs"], "all inputs and GPU schedules", "All such tests are skipped without a GPU.",
  ["philtorch/csrc/recur2.cu", "philtorch/csrc/lti_recur.cu", "philtorch/csrc/lti_recur2.cu", "philtorch/_helion.py"], [("scan kernels", "philtorch/csrc/*.cu, philtorch/_helion.py")], ["outputs"])
p("N07", "Index arithmetic does not overflow for very large tensors",
  "The native kernels are correct for tensors with more than 2^31 elements.",
  ["inputs"], "all sizes", "No test is near that size.",
  CS, [("int indices", "philtorch/csrc/*.cpp")], ["outputs"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
