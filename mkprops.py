"""Writes properties.jsonl (kept as a script so the text is reviewable in one place)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe, "hook_needed": hook,
        },
    })


CACHES = [
    ("cholesky", "Cholesky factor kept on the matrix once computed",
     "matrix/matrix.py, diagonal.py, constant.py, lowrank.py, woodbury.py, kronecker.py"),
    ("dense", "dense form kept on the matrix once computed",
     "matrix/diagonal.py, constant.py, lowrank.py, woodbury.py, kronecker.py, tiledblocks.py"),
    ("schur", "Schur complement kept on a Woodbury matrix, shared by schur and pd_schur",
     "matrix/woodbury.py"),
    ("default middle", "lazily built identity middle factor of a low-rank matrix", "matrix/lowrank.py"),
]
FACT = ["matrix/ops/cholesky.py", "matrix/ops/dense.py", "matrix/ops/schur.py", "matrix/ops/pd_schur.py"]

prop("C01", "Any history of operations refines the dense computation",
     "In any sequence of supported operations on shared matrices of any mix of structures and batch shapes, in which operands are reused, results become operands, some calls fail and matrices are dropped, every call that completes returns the values and shape that the same computation on plain dense arrays gives. Whether a call completes, and what it returns, depends only on the values and structures of its operands and never on which calls were made before. A call that completes on newly built operands also completes on operands with a history, and operations implemented for the given structures complete.",
     ["histories", "inputs"],
     "All sequences of supported calls (factorise, invert, solve, add, multiply, matrix-multiply, reduce, take, block, tile, cast, broadcast, copy), all structures, batch shapes and well-scaled values (entries and column differences well above 1e-5, operands well conditioned where inverted, positive-definite parts where an operation needs a positive-definite matrix, non-negative entries under roots and fractional or negative powers). Combinations of structures the library does not implement may raise, consistently. Logarithmic determinants of zero and constant matrices, and block_diag of a single tiled matrix (which stands for its blocks), are outside.",
     "Tests call one operation once or twice on one fixed operand set; they never interleave operations that share the lazily filled caches, feed structured results back, or reuse operands after failures, and sample few batch shapes.",
     ["matrix/ops/add.py", "matrix/ops/multiply.py", "matrix/ops/matmul.py", "matrix/ops/dense.py",
      "matrix/ops/cholesky.py", "matrix/ops/inv.py", "matrix/ops/pd_inv.py", "matrix/ops/solve.py",
      "matrix/ops/iqf.py", "matrix/ops/sum.py", "matrix/ops/take.py", "matrix/ops/algorithms/align.py"],
     CACHES,
     [("dispatch on operand structure, with per-structure algebra", "matrix/ops/*.py"),
      ("caches written once, from values never modified", "matrix/ops/cholesky.py, dense.py, schur.py, pd_schur.py")],
     ["value and shape of every returned object", "success or failure of every call"])

prop("C02", "No call ever changes an operand, a caller's array or an earlier result",
     "Whatever sequence of calls is made, and whether they complete, fail or are interrupted, every array the caller passed in keeps its exact contents, every matrix keeps its value, shape, data type and structure, and every object returned earlier keeps its exact contents. Matrices built on read-only arrays support the same operations as matrices built on writable ones.",
     ["histories", "fault_sequences", "inputs"],
     "All call sequences, all points at which a call can be interrupted, all operands including ones that share memory with each other or with earlier results.",
     "Tests compare a result once, straight after the call; they never look at operands or earlier results again, nor after a failed call, nor use arrays that share memory.",
     ["matrix/matrix.py", "matrix/diagonal.py", "matrix/lowrank.py", "matrix/woodbury.py", "matrix/ops/dense.py",
      "matrix/ops/add.py", "matrix/ops/multiply.py", "matrix/ops/transpose.py"],
     CACHES + [("operand arrays", "held by reference, never copied on construction", "matrix/matrix.py and the other matrix classes")],
     [("every operation builds new arrays or views, none writes in place", "matrix/ops/*.py")],
     ["bytes of the caller's arrays", "bytes of every array returned earlier", "value, shape and dtype of every live matrix"])

prop("C03", "An interrupted or failed call leaves every matrix fully usable",
     "If a call is cut short at any instant (keyboard interrupt, failed allocation, failing numerical kernel, warning turned into an error), the exception either reaches the caller or the call returns the correct result, never a wrong one. All matrices involved stay usable: repeating the same call, or making any other, gives what it would have given had the interrupted call never been made.",
     ["fault_sequences", "crash_points", "histories"],
     "Every point inside every supported operation at which an exception can arrive, every exception kind, any number of faults, any calls before and after.",
     "Tests never interrupt an operation; the only failures they provoke are argument checks made before any work is done.",
     FACT + ["matrix/lowrank.py", "matrix/ops/pd_inv.py", "matrix/ops/inv.py", "matrix/ops/sample.py"],
     CACHES,
     [("a cache is assigned in one step and only after its value is complete", "matrix/ops/cholesky.py, dense.py, schur.py, pd_schur.py")],
     ["exception delivered to the caller", "results of the retried call and of all later calls"])

prop("C04", "Threads sharing matrices get the sequential results and make progress",
     "When several threads call operations on shared matrices at the same time, then under every interleaving each call returns the result, or fails in the way, it would on its own. Every call finishes within a bounded number of its own steps, with no deadlock and no waiting on another thread that has stopped, and afterwards the shared matrices behave as if the calls had been made one after another.",
     ["schedules", "histories"],
     "All interleavings of up to four caller threads at statement or bytecode granularity inside the library, all operation mixes, caches empty or filled.",
     "No test uses more than one thread.",
     FACT + ["matrix/lowrank.py", "matrix/ops/inv.py", "matrix/ops/iqf.py", "matrix/ops/ratio.py", "matrix/ops/util.py"],
     CACHES,
     [("check-then-fill caches whose racing writers all write equal values", "matrix/ops/cholesky.py, dense.py, schur.py, pd_schur.py"),
      ("no shared scratch state between calls", "matrix/ops/*.py")],
     ["per-thread results and exceptions", "steps taken per call", "results on the shared matrices after the threads have joined"])

prop("C05", "Calls leave the process-wide settings as they found them",
     "No call, whether it completes, fails or is interrupted at any instant, leaves a lasting change to settings shared by the whole process: floating-point error handling, warning filters, the regularisation and default data type of the array layer, its lazy-shape and control-flow modes, the recursion limit, the registered dispatch tables' answers, and (for any call that does not draw samples from it) the global random state. Thread schedules do not change this: while one thread is inside a call, another observes the same settings.",
     ["fault_sequences", "histories", "schedules"],
     "All calls, all interruption points, all interleavings of an observing thread.",
     "Tests never look at process-wide state after a call, let alone after an interrupted one or from another thread.",
     ["matrix/ops/cholesky.py", "matrix/ops/root.py", "matrix/ops/sample.py", "matrix/ops/add.py",
      "matrix/ops/algorithms/align.py", "matrix/ops/dense.py"],
     [("array-layer settings", "regularisation, default dtype, lazy shapes, control flow", "lab (B.epsilon, B.default_dtype, B.control_flow)"),
      ("global random state", "drawn from only by sampling without an explicit state", "matrix/ops/sample.py")],
     [("operations neither read nor write process-wide state, except the control-flow record and the random state", "matrix/ops/*.py")],
     ["a snapshot of process-wide settings before and after each call and between any two steps of it"])

prop("C06", "Samples are an exact linear image of fresh noise with the right covariance",
     "For every covariance matrix of any structure and batch shape, sampling maps independent standard normal draws linearly to samples whose covariance is exactly that matrix. Different samples of one call and different batch elements share no draw, the draws come from the random state that was passed and from nowhere else, and this holds whatever was computed with the matrix before.",
     ["inputs", "histories", "schedules"],
     "All supported covariance structures, batch shapes, sample counts and prior histories of the matrix; all sequences of values the random source may deliver.",
     "The tests estimate the covariance of a few matrices from half a million real draws with a 10% tolerance; they cannot see draws shared between samples, batch elements or parts, or small errors.",
     ["matrix/ops/sample.py", "matrix/ops/cholesky.py", "matrix/ops/matmul.py", "matrix/ops/add.py"],
     [("random state", "source of all draws", "passed by the caller or the global one")],
     [("sample = factor @ noise; the two parts of a Woodbury matrix are sampled from consecutive states", "matrix/ops/sample.py")],
     ["the draws requested from a simulated random state and the samples returned for them"])

prop("C07", "Random state is threaded correctly through every sampling call",
     "Sampling is a function of the matrix value, the number of samples and the random state: equal states give equal samples whatever happened in between, on every backend. The returned state continues the stream, so consecutive calls threaded through it never reuse randomness, and sampling without an explicit state consumes the global state exactly as passing that state explicitly and storing the returned one would. A failed call never makes later calls repeat draws already delivered.",
     ["histories", "fault_sequences", "configurations"],
     "All histories of explicit-state and global-state sampling, reseeding, other calls and failed samplings, on the NumPy backend (mutable state) and the JAX backend (functional state).",
     "Tests check two samples from equal seeds on NumPy only; never consecutive calls, global against explicit, functional states, or failures in between.",
     ["matrix/ops/sample.py"],
     [("global random state", "NumPy: mutated in place; JAX: replaced", "lab; written at matrix/ops/sample.py")],
     [("state returned with every sample and stored back for global sampling", "matrix/ops/sample.py")],
     ["samples and states returned, and the global random state after each call"])

prop("C08", "Use inside traced code never affects use outside it",
     "A matrix may be used in ordinary code and, closed over, inside functions being traced or compiled just-in-time, in any order and nesting, including traces that are abandoned part-way. Every call outside a trace gives concrete, correct results no matter which traces touched the matrix before, and every compiled function returns what the same function gives when run eagerly.",
     ["histories", "crash_points"],
     "All orders of eager calls, completed traces, aborted traces and nested traces on shared matrices; all operations; all abort points.",
     "Tests use tracing only in a few isolated take and submatrix cases, never with a matrix that is also used outside the trace.",
     FACT + ["matrix/lowrank.py", "matrix/ops/isabstract.py"],
     CACHES,
     [("values computed during a trace must not outlive it on a matrix that existed before", "matrix/ops/cholesky.py, dense.py, schur.py, pd_schur.py; matrix/lowrank.py")],
     ["results of eager calls after traces", "results of compiled functions against eager ones"])

prop("C09", "Replaying recorded control flow gives the recorded computation",
     "A computation run once while its control flow is recorded, and run again replaying that record on data with the same coincidences, returns the same result as running it without any record, and replay consumes exactly the recorded outcomes in order without inspecting values. This holds whatever earlier computations left behind on the matrices involved, with failed or interrupted runs outside the record in between, and a computation outside a record neither reads nor adds outcomes.",
     ["histories", "inputs", "fault_sequences"],
     "All programs of additions, products, takes by mask and other operations whose path depends on data; all sequences of record, replay, plain and failing runs; just-in-time compiled and raw use of the record.",
     "One jit test each for take and submatrix; low-rank addition, whose path depends on the data, is never recorded or replayed.",
     ["matrix/ops/algorithms/align.py", "matrix/ops/add.py", "matrix/ops/take.py", "matrix/ops/submatrix.py"],
     [("control-flow record", "ordered outcomes of data-dependent decisions", "lab.control_flow; used in align.py, add.py")],
     [("each data-dependent decision is recorded when recording and read back, in the same order, when replaying", "matrix/ops/algorithms/align.py, add.py")],
     ["results with and without record", "sequence of outcomes recorded and consumed"])

prop("C10", "Warning policy and warning-sink failures never corrupt results",
     "Conversions to dense are reported by warnings, and whatever the process does with warnings (ignore, show, show once, turn into errors at any point, a display hook that fails) every call either returns exactly the result it returns with warnings ignored or raises that very warning or hook error. After such an error all matrices stay correct and usable; a call that raised because warnings are errors succeeds once they no longer are, and what a call warns about on new operands does not depend on earlier calls.",
     ["configurations", "fault_sequences", "histories"],
     "All warning filters, all histories of filter changes, all warnings of a call failing, all operations that warn.",
     "Tests check that particular warnings appear; they never continue after a warning that became an error, and run with one policy.",
     ["matrix/ops/add.py", "matrix/ops/multiply.py", "matrix/ops/matmul.py", "matrix/ops/cholesky.py", "matrix/ops/root.py",
      "matrix/ops/diag.py", "matrix/ops/solve.py", "matrix/util.py"],
     CACHES,
     [("warnings are issued before any work or state change of the call", "matrix/ops/*.py (warn_upmodule calls)")],
     ["result or exception under each policy", "warnings issued per call on new operands"])

prop("C11", "A matrix is factorised at most once",
     "Once a matrix's Cholesky factor, Schur complement or dense form has been obtained in ordinary code, every later call that needs it reuses it: asking again returns the identical object, and log-determinants, quadratic forms, inverses, ratios and samples of that matrix trigger no further factorisation of it. This survives failed and interrupted calls in between and, once concurrent calls have finished, any thread schedule; a failed attempt leaves nothing behind that would be reused as a result.",
     ["histories", "fault_sequences", "schedules"],
     "All sequences of calls that need a decomposition, with failures and interruptions in between and after any concurrent start.",
     "Tests check that two immediate calls return the same factor for five structures; not dense forms or Schur complements, not reuse by other operations, and never after a failure or a race.",
     FACT + ["matrix/ops/logdet.py", "matrix/ops/iqf.py", "matrix/ops/pd_inv.py"],
     CACHES,
     [("decompositions stored on the matrix after the first computation", "matrix/ops/cholesky.py, dense.py, schur.py, pd_schur.py")],
     ["identity of returned decompositions", "numerical factorisation kernels invoked per call"])

prop("C12", "Matrices survive save, crash and restore at any point of their life",
     "A matrix that is pickled or deep-copied at any point of its life (new, partly or fully computed caches, after failed or interrupted calls, while other threads use it) and restored, also in another process after the first one died, has the same structure, value, shape and data type and supports the same operations with the same results. Saving does not change the original, and original and copy do not affect each other.",
     ["crash_points", "histories", "schedules"],
     "All structures and nestings, all cache states, all save points including between any two steps of a concurrent call, restore in the same or a fresh process.",
     "No test pickles or copies a matrix.",
     ["matrix/matrix.py", "matrix/constant.py", "matrix/diagonal.py", "matrix/lowrank.py", "matrix/woodbury.py",
      "matrix/kronecker.py", "matrix/tiledblocks.py", "matrix/triangular.py"],
     CACHES,
     [("matrices are plain objects holding arrays, numbers, types and other matrices", "matrix/*.py")],
     ["operations on the restored matrix against the dense model", "operations on the original after the save"])

prop("C13", "Results do not depend on process configuration or call order of first use",
     "The same program gives the same results, structures, failures and warnings in every process: whatever the hash seed, the order in which operations are first used, whether the JAX backend is loaded, and when it is loaded relative to the calls, also while matrices already exist.",
     ["configurations", "schedules"],
     "All hash seeds, all orders of first use of operations and operand structures, all points at which the JAX backend is imported.",
     "The tests run in one order with one hash seed; files that load JAX are run apart.",
     ["matrix/__init__.py", "matrix/ops/__init__.py", "matrix/promote.py", "matrix/util.py", "matrix/ops/algorithms/align.py"],
     [("dispatch tables", "methods registered at import, resolved and memoised on first use", "lab.dispatch, plum")],
     [("all methods, promotion rules and conversions are registered at import time and unambiguous", "matrix/promote.py, matrix/util.py (redirect), matrix/ops/*.py")],
     ["digest of results, structures, failures and warnings of one program across processes"])

# Not claimed: no schedule, fault, clock, randomness or history in them.
prop("C14", "Operations preserve exploitable structure",
     "Operations on structured matrices return structured results where an algebraic rule allows it: sums of diagonal and low-rank matrices stay diagonal-plus-low-rank, inverses and products of diagonal, triangular and Kronecker matrices keep their form, and low-rank terms that cancel simplify away.",
     ["inputs"], "All combinations of operand structures.",
     "Tests assert result types for one instance of each combination.",
     ["matrix/ops/add.py", "matrix/ops/multiply.py", "matrix/ops/matmul.py", "matrix/ops/inv.py"], [],
     [("dispatch table from operand structures to result structure", "matrix/ops/*.py")], ["type of result"])
prop("C15", "Invalid operands are rejected",
     "Operations on operands with incompatible shapes, non-square matrices where square ones are needed, or data that cannot form the requested matrix raise an error instead of returning a value.",
     ["inputs"], "All invalid operands.", "Tests try a few invalid operands per constructor.",
     ["matrix/shape.py", "matrix/lowrank.py", "matrix/woodbury.py", "matrix/triangular.py", "matrix/diagonal.py"], [],
     [("shape assertions", "matrix/shape.py")], ["exception raised"])
prop("C16", "Shapes and data types are known without computing the matrix",
     "The shape, batch shape and data type reported for a matrix equal those of its dense form, for every structure and without forming the dense form.",
     ["inputs"], "All matrices.", "Tests check a few shapes per structure.",
     ["matrix/ops/shape.py", "matrix/ops/shape_batch.py", "matrix/ops/shape_matrix.py", "matrix/ops/dtype.py"], [],
     [("shape rules per structure", "matrix/ops/shape*.py")], ["reported shape and dtype"])
prop("C17", "Text display is faithful",
     "The printed form of a matrix names its structure and shows its batch shape, shape, data type and parts.",
     ["inputs"], "All matrices.", "Tests check the text of one instance per structure.",
     ["matrix/matrix.py", "matrix/util.py"], [], [("__str__ and __repr__ of each class", "matrix/*.py")], ["text"])
prop("C18", "Structured algorithms are as accurate and cheap as the structure allows",
     "Structured operations lose no more accuracy than their dense counterparts on ill-conditioned or badly scaled operands and cost asymptotically less time and memory.",
     ["inputs"], "All operands, including ill-conditioned and badly scaled ones.",
     "Tests use small well-conditioned operands and measure no cost.",
     ["matrix/ops/inv.py", "matrix/ops/matmul.py", "matrix/ops/algorithms/align.py"], [],
     [("matrix-inversion lemma, factor-wise products, linear-time alignment", "matrix/ops/*.py")], ["error and cost"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
