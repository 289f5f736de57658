"""Handwritten parts of DESIGN.md (see mkdesign.py)."""
HEAD = """
# Model checking onnx-mlir

*Generated by `tools/mkdesign.py`; edit `tools/designtext.py` and `checks_def.py`.*

## Approach

Every check is stateless (or history-) model checking of **the real code**: the sources are compiled (or imported) from
/repo's working tree on every run and driven by a harness in `harness/`.  There is no separate model of the code that could drift
from it; what is modelled is the *environment* (file system, fork/wait, compilers, container engines, clock, allocator, scheduler,
model libraries) and the *specification* (a reference model or a naive definition that the observable results are compared with).

A harness body is a function that makes choices with `vc::choose(n)` / `vc.choose(n)`; the engine executes it for **every** sequence of
choices, depth first, and compares each observable result with the oracle.  The bounds are the arities and depths written in the
harness; `exhaustive` in the evidence tells whether the choice tree was exhausted (all quick checks exhaust theirs).
Nothing is sampled and there is no solver.

| piece | purpose |
|---|---|
| `lib/vc.hpp` | C/C++ engine: choice tree, 8 forked workers over disjoint subtrees, replay files, state hashing, crash/hang/sanitizer report of a worker attributed to the choice sequence that was running |
| `lib/vcpy.py` | the same for Python code |
| `lib/vcsched.{hpp,cpp}` | controlled scheduler: real `std::thread`s of the code under test, one runs at a time; switch points are mutex operations (wrapped `pthread_mutex_*`) and the memory accesses that conflict (`-fsanitize=thread` instrumentation calls bound to our own `__tsan_*` functions; a profiling run finds the code locations that conflict, atomic or plain); enumerates all schedules up to a preemption bound (iterative context bounding), detects deadlock |
| `lib/vcalloc.hpp` | allocator interposition: live-block accounting, n-th allocation fails |
| `harness/models/vcrash.c` | LD_PRELOAD injector: kills the process before, in the middle of, or after the n-th file operation, or makes it and all later ones fail |
| `harness/models/{model,echo}.c` | stand-in compiled models (well-formed, defective, crashing, recording) |
| `harness/stubs`, `drvstubs.*` | stand-ins for the compiler behind the driver, so that the real `main()` and option handling run against compilations that succeed, fail or crash as told |
| `lib/ombuild.py`, `harness/omserver.cpp`, `omstubs.cpp`, `lib/omc.py` | builds the whole compiler from /repo and serves compilations, imports and runs of models (next section) |
| `harness/ommodels.py` | the operator cases: per operator the attributes, shapes, types, optional inputs and values enumerated, and the independent oracle |
| `harness/omscope.py`, `known-cases.json`, `tools/omrules.py`, `tools/omclassify.py` | what C40-C43 do with cases on which the unchanged compiler deviates (see *Known findings*) |
| `registry.py`, `checks_def.py`, `check.py` | what is built from which sources with which interposition; known-findings; evidence; replay |

A violation line names a replay file; `python3 check.py --replay <property> <file>` runs that one choice sequence again.  Before a
violation is reported it is re-executed; one that does not reproduce is an internal error (exit 2), not an alarm.

No hook was put in /repo: link-time interposition (`-Wl,--wrap`), include-path stubs and `-D` names were enough.

### What is built, and from what

`/opt/vp/build.sh` builds the runtime, the Python runtime and driver modules, the compiler's support, option, command and constant
(ElementsAttr) code, and the tools, against LLVM/MLIR 20 from the distribution; it does not build the compiler, because the pinned commit
names a newer LLVM.  `lib/ombuild.py` does: it compiles every dialect, importer, shape-inference, rewriting, conversion and lowering source
of /repo unchanged (src/Accelerators/NNPA and src/Builder/Verify* apart), against LLVM 20 with a directory of *overlay headers* that give LLVM 20's classes the handful of
newer names the code uses (`X::create`, `poison`, `getNumThreadsVars`, FLOAT4 codes of newer ONNX, ...).  The result, `.build/om/omc`
(`harness/omserver.cpp`), is the real compiler from ModelProto to LLVM IR followed by LLVM's in-process JIT, with the runtime linked in; it serves
one forked process per model, so that an abort or a stray write of a compiled model ends only that process, and counts the blocks the
model leaves allocated.  A full build takes 270 s on 8 cores (in setup); afterwards a check recompiles only what changed (ccache), 8-25 s for one source.
Stubbed (`harness/omstubs.cpp`): the Linalg path (not on the default pipeline) and the version string.  C40-C44 run on it.

Workarounds worth knowing: `harness/stubs/clfix.h` adapts the one call (`ParseCommandLineOptions` with a VFS argument) in
`src/onnx-mlir.cpp` that LLVM 20 lacks; C16 compiles the Python module against a copy of pybind11 2.11's `numpy.h` whose dtype structure
follows numpy 2 (in `build/`, not committed); C36 extracts the comparison functions of `utils/RunONNXModel.py` by AST since importing it needs packages that are absent.
"""
# id -> (what is specified / oracle, why tests cannot settle it)
WHY = {
"C01": ("a list-of-indices model of a tensor (shape, strides, type, buffer, ownership) predicts every getter after every step of a history of creation, setters, printing and sharing; AddressSanitizer guards the bounds.", "a defect shows only after particular histories (set strides after shape, rank 0, dims of 0, C versus C++ build)."),
"C02": ("an ownership model predicts which blocks are live; the wrapped allocator counts every malloc/free; each creation is repeated with each single allocation failing.", "it quantifies over all allocation failures and over all orders of destroying lists, tensors and shared buffers."),
"C03": ("the ONNX TensorProto type table, transcribed independently, for sizes, names, C types and printing.", "tests touch a few types; the tables (C and C++) must agree for all codes, including undefined ones."),
"C04": ("a stable reference sort on exact values (types compared in their own arithmetic).", "ties, signed/unsigned and extreme values, empty axes and pivot choices interact; the portable quick sort's pivots are random."),
"C05": ("stable sort, then the first k.", "ties at the boundary of the selected set depend on the heap's history."),
"C06": ("the ONNX definition of Unique evaluated naively (first occurrences, inverse, counts, lexicographic order).", "every combination of axis, omitted outputs, sorted flag, ties and type must agree."),
"C07": ("the ONNX Resize definition computed in long double per output element.", "coordinates on or next to ties occur only for particular extents and scales."),
"C08": ("an associative array; tables come from the compiler's real generator, look-up from the runtime.", "a generator that loops or a hash that disagrees shows only on particular key sets."),
"C09": ("a model of files x mapping state (which bytes the model must see, what must be mapped or open).", "it is about histories: reload after unload, truncated then restored files, changed environment."),
"C10": ("failure must be reported, nothing may remain (descriptors, mappings, blocks), and a retry must succeed.", "each system call can fail at each position."),
"C11": ("re-execution after different histories must give the same numbers; ranges by definition; all outcomes of rand() at its extremes.", "hidden state makes sequences depend on what ran before."),
"C12": ("a model of the documented report (records, order, buffering, destinations) fed the same calls.", "buffer wrap-around, nested points, restarts and configurations combine."),
"C13": ("a state machine of a session (loaded library, entry point, open handles, last error).", "behaviour after failures and in mixed orders over two sessions."),
"C14": ("signal dispositions, mask and environment snapshots before and after each call must be equal, from several initial settings.", "needs real crashes followed by further crashes in the same process."),
"C15": ("an independent reader of the signature grammar and of the shape/value specifications.", "malformed inputs are unbounded; all prefixes and single-character edits of valid ones are covered."),
"C16": ("the stand-in model records the bytes it was given (linear and by strides); numpy itself gives the expected elements; tracked heap for ownership.", "layouts x types x ownership patterns x release orders."),
"C17": ("naive enumeration, definition of closeness in exact arithmetic.", "edge ranks, zero dims, narrow and unsigned types."),
"C18": ("correct rounding defined by exact comparison of neighbours of every code.", "double rounding and tie errors hit single values among 2^32."),
"C19": ("materialise the tensor and apply the operation naively.", "strides with 0 and negative values, all target shapes; existence (not only correctness) of a no-copy reshape is decided by brute force."),
"C20": ("materialise after each step and apply the operation's definition.", "errors need combinations of transformer, strides, splat and chain order that lazy evaluation makes."),
"C21": ("an independent definition of casts on exact values.", "17x17 pairs with boundary values, delayed narrowing in chains and different read paths."),
"C22": ("a reachability model of which constants must survive and their contents; for schedules: no lost constant, distinct ids, no deadlock.", "histories of garbage collection and races between creating threads."),
"C23": ("the result with threading disabled.", "schedules and work splits; a race shows only under particular interleavings."),
"C24": ("a transcribed table of types; bit-exact conversions.", "all types and all codes must agree."),
"C25": ("an independent reader of the quoting rules; join/split round trip.", "quoting rules interact in strings no test has."),
"C26": ("the compiler's real `main()` run in-process on the same command line, capturing the output name it arrives at.", "the prediction re-implements the option parser; they differ on unusual combinations."),
"C27": ("a child program records argv, cwd, stdout; a model of outcome and log.", "faults in fork/wait, all exit statuses, and histories of two runs."),
"C28": ("a model of a session (compiled or not, files of the last compilation) with a recording compiler.", "histories mixing failures and successes."),
"C29": ("stand-in engines emulate mounts: the result must appear where a local compilation would put it.", "configurations multiply (engine, image, surrounding container, paths, flags)."),
"C30": ("an independent matcher for the list notation; history independence.", "caching of answers and pattern order."),
"C31": ("an independent JSON reader; precedence = last writer in the order file, environment, command line as documented; the compiler's real main().", "placements of the file and combinations of sources."),
"C32": ("an independent judgement of each document.", "every text around every directive; directives silently skipped are invisible to tests of accepted documents."),
"C33": ("independent formatting of the bytes.", "all ranges including those outside, all codes of narrow types."),
"C34": ("a reference LRU dictionary; after a kill at any file operation a new process must load either nothing, the complete old or the complete new entry.", "crash points and torn writes."),
"C35": ("symbolic evaluation of the graph (nested graphs too) before and after.", "chains, fan-outs, outputs that are identities of inputs, subgraph captures."),
"C36": ("exact rational arithmetic on the values (fractions) decides the verdict.", "rounding at the bound, infinities, NaN, unsigned wrap-around, complex and narrow types."),
"C40": ("the ONNX reference evaluator, or for operators where it deviates from the specification or is imprecise, our own definition (pooling, Resize, RNNs, Softsign, ... in `ommodels.py`), on three input sets per model; also: inputs untouched, no block leaked, output types and shapes as specified, known answers to stray reads because compiled models run in a process of their own.", "the node tests replay one or two samples per operator with all shapes known; attributes, broadcasting, optional inputs, unknown dimensions and parameters given at run time form a product."),
"C41": ("the shapes and types of the specified outputs (as in C40).", "inference has a different path for each combination of known dimensions and constant parameters, and a wrong static dimension shows only where that one dimension is known."),
"C42": ("the specified value (as in C40) when every input is an initializer.", "folding is a second implementation of each operator over its own representation of constants, reached only when all operands are constant."),
"C43": ("ONNX's reference evaluator on the graph as written.", "rewrites fire only on particular neighbours, ranks and option sets; a wrong one shows as a wrong number in one chain."),
"C44": ("the ModelProto itself: values, attributes, types, names and edges read back from the imported ONNX dialect module.", "each attribute kind, weight encoding and data type has its own import path; damaged files are refused only if every path checks."),
"C46": ("numpy-free reference: the recording stand-in model and the Java-side arrays.", "types x ranks x ownership."),
"C47": ("an independent reading of the shape information.", "orders and overlaps of settings."),
}
COST = {"C01": 36, "C02": 23, "C03": 3, "C04": 2, "C05": 6, "C06": 33, "C07": 12, "C08": 10, "C09": 29, "C10": 1, "C11": 1, "C12": 13, "C13": 39, "C14": 10, "C15": 4, "C16": 18, "C17": 13, "C18": 5, "C19": 18, "C20": 80, "C21": 12, "C22": 45, "C23": 60, "C24": 3, "C25": 3, "C26": 60, "C27": 98, "C28": 10, "C29": 60, "C30": 8, "C31": 100, "C32": 20, "C33": 14, "C34": 68, "C35": 60, "C36": 6, "C40": 180, "C41": 200, "C42": 100, "C47": 4}
TAIL = """
## False alarms met while building, and what was done

- *C21*: a chain of narrowing casts was first required to equal materialising each step; the code documents that narrowing between integers (and
  between floats) may be delayed to the read.  The property now says so and either result is accepted.
- *C20*: divisions and casts of values not representable in the element type are excluded (they are C21's subject).
- *C07*: within 1e-5 of a tie that binary floating point cannot represent, either neighbour is accepted.
- *C13*: after a failed selection of an entry point the session may keep the previous one or have none; both are accepted.
- *C12*: time lines are buffered while memory lines are not, so only the order within each kind is required.
- *C15*: shape information with fewer dims than the signature, trailing separators and explicit plus signs are left open.
- *C30*: the words ALL and NONE are recognised as substrings of the list; the property restricts them to elements of their own.
- *C31*/*C26*: option values that look like options are left out: LLVM's parser itself treats them specially.
- *C34*: entries without input indices cannot be stored by the backend and are outside the property.
- *C36*: within 1e-12 of the tolerance bound, either verdict is accepted (the code computes in double).
- *C40*: NonMaxSuppression at an IoU exactly equal to the threshold, Resize coordinates that fall on a rounding edge, and ConvTranspose with both
  `auto_pad=SAME` and `output_padding` (the specification is silent or contradictory) are not enumerated.  Softsign's reference was imprecise; it has its own oracle.
- *C22*: code locations without any conflict in the profiling runs are not switch points; atomics are treated as accesses of their own.

## Not pursued

- Parallel execution of compiled models (`--parallel`: OpenMP loops in generated code): the JIT has no OpenMP runtime here.
- `om_pyrt`'s argument checks `check_positive`/`check_non_negative` refer to an undefined name `parser` (dead in today's callers); no property covers them.
- The NNPA accelerator's code (C45) needs its library and hardware; `src/Builder/Verify*` and the Linalg path are not on the default pipeline.
"""
CAUGHT = {}
MUT = """
Besides these, small mutants were tried while each check was built (five or six per property: off-by-one, dropped branch, swapped
operands, missing restore, missing unlock), with `m CHECK file old new`-style throw-away edits in a scratch copy; checks were strengthened until all of
them were caught.  Changes that led to a stronger check: sessions over a library whose two entry points are one function (C13),
NaN codes whose upper mantissa rounds up (C18), caches that fill up again after a removal (C34), the exact tolerance bound (C36),
a failed load followed by a load of another file (C31).
"""
