#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
RT = "src/Runtime/"
prop("C01", "Tensor handles report exactly the data, type and layout they were given",
 "After any sequence of tensor creations and metadata updates, a tensor's rank, shape, strides, element type, element count, byte size and data pointer are exactly those established by the operations performed, default strides being row-major. Ownership flags and buffer size follow the creation call, and no operation on one tensor changes what another reports.",
 ["histories", "inputs"], "all creation/update histories up to a depth, over all ranks 0..4, small dims incl. 0, all data types",
 "The tensor test creates one or two shapes of one type; the guarantee quantifies over every rank, type, zero dim and update order.",
 [RT+"OMTensor.inc", "include/onnx-mlir/Runtime/OMTensor.h"],
 [("creation, accessors and setters", RT+"OMTensor.inc: omTensorCreate*, omTensorGet*/Set*"), ("element count", RT+"OMTensor.inc: getNumElems"), ("buffer size", RT+"OMTensor.inc: omTensorGetBufferSize")],
 [("shape/strides", "per-dimension extents and element strides", RT+"OMTensor.inc: struct OMTensor")])
prop("C02", "Every tensor buffer is freed exactly once, by its owner, even under OOM",
 "For every history of creating, transferring, listing and destroying tensors and lists, each owned buffer is released exactly once when its owner is destroyed and unowned buffers are never released or written. If any memory allocation in a creation call fails, the call reports failure by a null result, leaks nothing and leaves existing objects usable.",
 ["histories", "fault_sequences"], "all create/own/list/destroy histories to a depth, crossed with failure of each single allocation",
 "Tests run one happy-path create/destroy and never fail an allocation.",
 [RT+"OMTensor.inc", RT+"OMTensorList.inc", "include/onnx-mlir/Runtime/OMTensorList.h"],
 [("owning destroy", RT+"OMTensor.inc: omTensorDestroy, omTensorSetOwning"), ("list destroy variants", RT+"OMTensorList.inc: omTensorListDestroy, omTensorListDestroyShallow"), ("allocation failure paths", RT+"OMTensor.inc: omTensorCreateUntyped, omTensorCreateEmpty")],
 [("_owning/_allocatedPtr", "who releases the buffer", RT+"OMTensor.inc")])
prop("C03", "Element type names, codes and sizes agree across the runtime interfaces",
 "For every element type code, the name, the storage size, the printed form and the inverse name lookup agree with the ONNX definition of that type and with each other. Unknown codes are handled as undefined with size zero and without out-of-bounds access.",
 ["inputs"], "all defined type codes and all signature type names",
 "Tests use float and int64 only; the table has one row per ONNX type and every row must be right.",
 [RT+"OnnxDataType.inc", "include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc", "include/onnx-mlir/Runtime/OnnxDataType.h"],
 [("type table", "include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc"), ("size and name lookups", RT+"OnnxDataType.inc")])
prop("C04", "Runtime sort yields the stable, correctly ordered permutation",
 "For every numeric element type, sort direction and axis supported, the runtime argsort writes into the index buffer a permutation of each row that orders the values in the requested direction, with equal values kept in their original order. The input tensor is not modified.",
 ["inputs"], "all small rank 1..3 tensors over a small value alphabet incl. extremes, all types and both directions",
 "No existing test runs the runtime sort; compiled-model tests sample a few random tensors of one type.",
 [RT+"OMSort.c", RT+"OMSort.h"], [("argsort along the last axis", RT+"OMSort.c: omTensorSort"), ("comparators and the non-quicksort path", RT+"OMSort.h")])
prop("C05", "Runtime top-k selects the right elements with lowest-index tie-breaking",
 "For every input, k, direction and sorted flag, the runtime top-k writes the k indices of the k largest (or smallest) values of each row; when sorted is requested they come in value order. Among equal values the lower index comes first and is preferred, as ONNX requires.",
 ["inputs"], "all small inputs over a value alphabet with ties, all k, both directions, several element types",
 "Ties at the selection boundary depend on heap order; random float tests essentially never contain ties.",
 [RT+"OMTopK.c", RT+"OMSort.h"], [("heap selection", RT+"OMTopK.c"), ("full-sort path for large k", RT+"OMTopK.c: omTensorTopK")])
prop("C06", "Runtime unique produces the ONNX outputs for every flag combination",
 "For every input, axis choice, sorted flag and subset of requested outputs, the runtime unique operation reports the right number of distinct elements or slices and fills values, first-occurrence indices, inverse indices and counts as ONNX defines them, in sorted or first-occurrence order. Outputs that are not requested do not change the ones that are.",
 ["inputs", "configurations"], "all small tensors over a small alphabet, every axis, sorted flag and output subset, several element types",
 "Existing backend tests need the full compiler and run five fixed samples.",
 [RT+"OMUnique.c", RT+"OMUnique.h"], [("count and produce passes", RT+"OMUnique.c: omTensorUnique, omTensorUniqueCount"), ("slice comparison", RT+"OMUnique.c")])
prop("C07", "Runtime resize matches the ONNX nearest/linear/cubic definition",
 "For every supported mode and coordinate option, the runtime resize writes each output element as the ONNX definition computes it from the input with the given scales or sizes. It never reads or writes outside the tensors.",
 ["inputs", "configurations"], "all small input/output extents, all supported modes",
 "Backend tests sample a few fixed sizes; edge extents (1, equal, up and down scaling) need enumeration.",
 [RT+"OMResize.c"], [("resize with sizes and with scales", RT+"OMResize.c: Resize_Scales, Resize_Size"), ("nearest/linear/cubic coefficient computation", RT+"OMResize.c")])
prop("C08", "Dictionary lookup finds exactly the key it was built for",
 "For every set of distinct keys for which a perfect hash was generated, looking up any key of the set at run time returns that key's own index, for strings and for 64-bit integers over their whole range. The hash function used when the tables are generated and the one used at run time agree on every key.",
 ["inputs"], "all key sets up to a size from an alphabet of boundary integers and short/long strings",
 "Backend tests use a handful of short keys; the boundary keys (sign, 19-20 digit integers, empty strings) are where the two implementations can diverge.",
 [RT+"OMIndexLookup.c", "src/Conversion/KrnlToLLVM/RuntimeAPI.cpp", "src/Conversion/KrnlToLLVM/KrnlFindIndex.cpp", "src/Conversion/ONNXToKrnl/PerfectHash.cpp", "src/Conversion/ONNXToKrnl/PerfectHash.hpp"],
 [("runtime hash and lookup", RT+"OMIndexLookup.c: find_index_str, find_index_i64, hash_string, hash_int64"), ("table construction", "src/Conversion/ONNXToKrnl/PerfectHash.cpp")])
prop("C09", "External constants are loaded, shared and unloaded consistently",
 "For every order of loading, using and unloading a model's external constants file, a successful load gives the compiled model exactly the bytes at the recorded offsets, whether the file is found in the current directory or in the configured directory, and a missing or wrong-sized file makes the load report failure. After unloading nothing stays mapped, and a later load behaves like the first one.",
 ["histories", "configurations"], "all load/get/unload histories to a depth, over path configurations and file sizes",
 "No unit test covers this file; backend tests run a single load of one model.",
 [RT+"OMExternalConstant.c"], [("load, address and unload entry points", RT+"OMExternalConstant.c: omMMapBinaryFile, omGetExternalConstantAddr, omUnloadConstantData"), ("path resolution", RT+"OMExternalConstant.c: getPath/OM_CONSTANT_PATH")],
 [("constAddr", "base address of the loaded constants or null", RT+"OMExternalConstant.c")])
prop("C10", "Loading external constants under I/O faults fails cleanly",
 "If any system call or allocation used while loading the external constants fails, the load reports failure, leaks neither descriptors, mappings nor memory, and leaves the constants marked as not loaded so that a retry can succeed. It never crashes.",
 ["fault_sequences"], "each single system-call/allocation failure at each call position, followed by a retry",
 "No test injects an I/O fault.",
 [RT+"OMExternalConstant.c"], [("fault handling in the load path", RT+"OMExternalConstant.c")])
prop("C11", "Seeded random generation is reproducible and in its documented range",
 "Given a seed, the runtime random generators produce the same sequence for the same request regardless of what ran before, and they fill exactly the requested number of elements. Uniform values lie within the requested bounds and normal values are finite, scaled by the requested mean and deviation.",
 ["histories", "inputs"], "all histories of generator calls to a depth over seeds, sizes, types",
 "A test that calls the generator once cannot see state carried over from a previous call.",
 [RT+"OMRandomNormal.c", RT+"OMRandomUniform.c"], [("normal generators", RT+"OMRandomNormal.c: get_random_normal_value_f32/f64"), ("uniform generators", RT+"OMRandomUniform.c: get_uniform_random_value_f32/f64")])
prop("C12", "Instrumentation reports every recorded event once, in order, as configured",
 "For every sequence of instrumentation points and every configuration of time, memory, disabled and report-destination settings, the runtime reports each before and after event exactly once, in program order, with its operation and node names and the requested measurements. Nothing is reported when instrumentation is disabled, and starting again begins a fresh report.",
 ["histories", "configurations"], "all sequences of init/before/after points to a depth (beyond the record buffer), over settings",
 "The instrumentation test checks one init call; loss of records depends on order, nesting and buffer wrap-around.",
 [RT+"OMInstrument.c", RT+"OMInstrumentHelper.h", "include/onnx-mlir/Runtime/OMInstrument.h"],
 [("record buffer update and flush", RT+"OMInstrument.c"), ("tag encoding", RT+"OMInstrumentHelper.h"), ("settings from the environment", RT+"OMInstrument.c: OMInstrumentInit")],
 [("record buffer", "pending, not yet printed events", RT+"OMInstrument.c")])
prop("C13", "A model session behaves correctly over its whole load/run/destroy life",
 "For every sequence of constructing, loading, querying, selecting entry points, running, printing and destroying model sessions, each call either does what it documents for the currently loaded model and entry point or fails with a reported error, never with undefined behaviour. The library handle is opened and closed in balance and a failed call leaves the session usable or destroyable.",
 ["histories", "fault_sequences"], "all operation sequences to a depth over good, defective and missing model libraries",
 "The existing session tests need compiled models and follow one path; misuse orders and defective libraries are not sampled.",
 [RT+"ExecutionSession.cpp", RT+"ExecutionSession.hpp"], [("initialisation and entry-point selection", RT+"ExecutionSession.cpp: Init, setEntryPoint, setEntryPointInternal"), ("run variants", RT+"ExecutionSession.cpp: run, runDebug"), ("destruction", RT+"ExecutionSession.cpp: ~ExecutionSession")],
 [("_sharedLibraryHandle", "open library", RT+"ExecutionSession.hpp"), ("_entryPointFunc", "selected entry point", RT+"ExecutionSession.hpp")])
prop("C14", "Loading or running a faulty model leaves the host process as it was",
 "When loading or running a model fails or the model crashes, the failure is reported to the caller as an error and the process's signal handlers, signal mask and environment are afterwards exactly what they were before the call. This holds again for every later call of the same or another session.",
 ["histories", "fault_sequences"], "all sequences of successful, failing and crashing loads and runs to a depth, over each fatal signal",
 "Needs a history: the first crash is caught, the second one shows whether the state was restored.",
 [RT+"ExecutionSession.cpp"], [("signal handler installation and restoration", RT+"ExecutionSession.cpp: runWithSignalHandler / handlers"), ("constants directory environment variable", RT+"ExecutionSession.cpp: Init")])
prop("C15", "Input tensors built from a model's signature have the signature's types and dims",
 "For every well-formed input signature, the tensors created from it have, in order, the types and dims the signature states, with each unknown dimension taken from the given shape information or else defaulted as documented, and data filled inside the given bounds. Malformed or mismatching signatures and shape information are rejected rather than giving tensors with undefined content.",
 ["inputs"], "all signatures up to a size over types, ranks, dims (static/dynamic), shape-info strings incl. malformed ones",
 "Existing tools exercise it with hand-written models only.",
 [RT+"OMTensorListHelper.cpp", RT+"OMTensorListHelper.hpp"], [("signature parsing and tensor creation", RT+"OMTensorListHelper.cpp: omTensorListCreateFromInputSignature")])
prop("C16", "Python inference passes every array in and out of a model unchanged",
 "For every supported numpy array (type, rank, memory layout, including non-contiguous views and empty arrays), the Python session hands the model a tensor with the same type, shape and element values, and returns the model's outputs as arrays with the same type, shape and values. No output's memory is released while the array is alive, or leaked after.",
 ["inputs", "histories"], "all small arrays over dtypes, ranks, layouts, and short histories of runs with retained/dropped results",
 "The Python tests use contiguous float32 arrays only.",
 [RT+"python/PyExecutionSession.cpp", RT+"python/PyRuntime.py", RT+"python/PyExecutionSession.hpp"],
 [("array to tensor conversion", RT+"python/PyExecutionSession*.cpp: pyRun"), ("stride and shape extraction", RT+"python/PyRuntime.py")])
prop("C17", "C++ tensor helpers compute indices, strides, fills and comparisons correctly",
 "For every shape, the helper library's index enumeration visits every index exactly once in row-major order, offsets follow the strides, typed element access addresses the right element, random fill stays within the given bounds for every type, and the closeness comparison accepts exactly the tensors whose elements are within tolerance.",
 ["inputs"], "all shapes to rank 4 with small dims, all types, all single-element perturbations",
 "Used by tests as the trusted oracle, itself checked for one shape only.",
 [RT+"OMTensorHelper.cpp", RT+"OMTensorHelper.hpp"], [("index set, offsets and strides", RT+"OMTensorHelper.cpp"), ("random creation", RT+"OMTensorHelper.hpp"), ("closeness comparison", RT+"OMTensorHelper.hpp: omTensorAreTwoOmtsClose")])
prop("C18", "Small floating-point conversions are correctly rounded for every value",
 "Every 16-bit and 8-bit floating-point value converts to 32-bit exactly, every 32-bit float converts to each small format with round-to-nearest-even and that format's documented overflow, infinity and NaN behaviour, and converting a small value up and back gives it back. The compiler-side and runtime-side conversions agree.",
 ["inputs"], "all 2^16 / 2^8 encodings of each small type; 32-bit inputs exhaustively (thorough) or every rounding boundary (quick)",
 "Unit tests try about ten values per format; rounding errors live in the ties, subnormals and overflow boundary.",
 ["src/Support/SmallFPConversion.h", "src/Support/SmallFPConversion.c", "src/Support/SmallFP.hpp", "src/Support/SmallFP.cpp"],
 [("C conversions", "src/Support/SmallFPConversion.c"), ("small float classes", "src/Support/SmallFP.hpp")])
prop("C19", "Stride computations address the same elements as the shape algebra says",
 "For every shape and strides, contiguity, default strides, transposition, expansion, unpacking and reshape computations on strides address exactly the elements that the corresponding operation on the materialised tensor would give, and a reshape without copying is offered exactly when one exists. Iteration over strided positions visits every index exactly once in row-major order.",
 ["inputs"], "all shapes to rank 4 with dims 1..3 (and 0), all strides in a small set, all permutations and target shapes",
 "Unit tests check a few reshapes; stride bugs show only for particular combinations of unit, zero and broadcast dims.",
 ["src/Support/Arrays.hpp", "src/Dialect/ONNX/ElementsAttr/Strides.cpp", "src/Dialect/ONNX/ElementsAttr/Strides.hpp", "src/Dialect/ONNX/ElementsAttr/StridesRange.hpp", "src/Dialect/ONNX/ElementsAttr/StridesRange.hpp.inc"],
 [("strides algebra", "src/Dialect/ONNX/ElementsAttr/Strides.cpp"), ("multi-stride iteration", "src/Dialect/ONNX/ElementsAttr/StridesRange.hpp")])
prop("C20", "Any chain of constant transformations equals the same chain done naively",
 "For every constant and every chain of shape, arithmetic, cast, gather/scatter, split/concat, reduction and matrix operations on constants, the resulting constant holds element for element what the operations' definitions give when each intermediate is materialised. The operands are unchanged.",
 ["histories", "programs", "inputs"], "all chains of constant operations to a depth over small shapes and element types, incl. splats",
 "Constants are lazily transformed (strides plus deferred element function), so errors appear only for particular compositions; unit tests check single steps.",
 ["src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp", "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp", "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp", "src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp"],
 [("constant operations", "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp"), ("lazy strides + transformer representation", "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp")],
 [("strides/transformer/buffer", "lazy value of a constant", "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp")])
prop("C21", "Constant element-type casts follow ONNX conversion rules for every type pair",
 "Casting a constant between any two supported element types gives each element the value the cast defines: exact where representable; from floating point to integer truncated towards zero, or rounded to nearest even when the caller asks for rounding, saturated at the bounds of the integer type, NaN giving 0; between integers wrapped to the target width; to floating point rounded to the target width (with or without saturation for 8-bit floats as requested); and zero/non-zero for booleans. A cast chain gives the same as casting each element step by step, where narrowing may be delayed until the result is read. All ways of reading the result agree.",
 ["inputs", "programs"], "all pairs (and triples) of element types over boundary values, splat and non-splat, dense and lazy constants",
 "Unit tests check a couple of type pairs; signedness, bool and width boundaries are specific to each pair.",
 ["src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp", "src/Dialect/ONNX/ElementsAttr/WideNum.hpp", "src/Dialect/ONNX/ElementsAttr/WideNum.cpp", "src/Dialect/ONNX/ElementsAttr/BType.cpp", "src/Dialect/ONNX/ElementsAttr/BType.hpp"],
 [("cast", "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp: castElementType"), ("wide numbers", "src/Dialect/ONNX/ElementsAttr/WideNum.hpp")])
prop("C22", "Constant memory reclamation never frees a constant still in use",
 "For every history of creating constants, referencing and dropping them in a module, garbage collecting, scrubbing and closing, constants reachable from the module keep their exact contents, unreachable ones are reclaimed, and scrubbing replaces every lazy constant in the module by an equal plain one. Concurrent creation from several threads loses no constant and hands out distinct identities.",
 ["histories", "schedules"], "all create/attach/detach/collect/scrub/close histories to a depth; creation interleavings of 2-3 threads",
 "Premature reclamation shows only for specific interleavings of collection and references.",
 ["src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp", "src/Dialect/ONNX/ElementsAttr/DisposablePool.hpp", "src/Compiler/DisposableGarbageCollector.cpp"],
 [("pool insert, collect, scrub, close", "src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp"), ("collection trigger after each pass", "src/Compiler/DisposableGarbageCollector.cpp")],
 [("pool", "live lazy constants by id", "src/Dialect/ONNX/ElementsAttr/DisposablePool.hpp")])
prop("C23", "Constant computation does not depend on the number of compiler threads",
 "Every constant operation that may be computed in parallel gives bit-identical results with multi-threading off and with any number of threads and work splits, for tensor sizes below, at and above the parallelisation thresholds.",
 ["schedules", "configurations", "inputs"], "every parallelisable constant operation at sizes around the thresholds, over thread counts 1..8",
 "Unit test constants are far below the parallel threshold.",
 ["src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp", "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp"],
 [("work splitting in reductions, matmul and element-wise transforms", "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp")])
prop("C24", "ONNX and compiler element types map to each other without loss",
 "For every ONNX element type the compiler's type, the buffer type, the byte width, signedness and float-ness describe the same type, the mapping back gives the original, and the wide-number conversions of every value of narrow types are lossless.",
 ["inputs"], "all element types; all values of 8-bit types and all boundary values of wider ones",
 "Each of the ~15 rows must be right; tests use three.",
 ["src/Dialect/ONNX/ElementsAttr/BType.cpp", "src/Dialect/ONNX/ElementsAttr/BType.hpp", "src/Dialect/ONNX/ElementsAttr/WideNum.hpp", "src/Dialect/ONNX/ElementsAttr/WideNum.cpp"],
 [("buffer type table", "src/Dialect/ONNX/ElementsAttr/BType.hpp"), ("widening/narrowing", "src/Dialect/ONNX/ElementsAttr/WideNum.hpp")])
prop("C25", "Compiler flag strings are split at unquoted blanks only, dropping the quotes",
 "For every flag string, splitting gives the sequence of arguments obtained by separating at unquoted blanks, keeping quoted and escaped blanks and dropping the quotes. Re-joining arguments and splitting again gives the same arguments.",
 ["inputs"], "all strings to a length over {letter, blank, quote characters, backslash}",
 "No test covers flag splitting; errors need a specific character combination.",
 ["src/Compiler/CommandUtils.cpp", "src/Compiler/CommandUtils.hpp"], [("flag splitting", "src/Compiler/CommandUtils.cpp: parseFlags")])
prop("C26", "The predicted output file is the file the compiler writes",
 "For every combination of input file name, output option and output-kind flags, the output file name predicted without compiling equals the name given by the compiler's own naming rule (base name of the explicit output option, else of the input model, plus the extension of the selected output kind). Other options whose spelling merely starts alike do not influence it, and a model tag given in the flags is part of the name exactly as in the compiler.",
 ["inputs", "configurations"], "all flag lists to a length over output, emit and unrelated flags, with several input path shapes",
 "Depends on the interplay of flags; no test covers it.",
 ["src/Compiler/CommandUtils.cpp", "src/Compiler/CommandUtils.hpp", "src/Compiler/OMCompile.cpp"], [("output file naming", "src/Compiler/CommandUtils.cpp: getOutputFilename, getOutputBasenameFromFlags / getTargetFilename")])
prop("C27", "External commands are run faithfully and their outcome reported",
 "For every list of non-empty arguments, working directory, logging choice and child outcome (exit code, signal, missing program, failing system call), the command runner passes exactly the given arguments, runs in the requested directory, captures the child's output to the requested log, and reports success only if the child succeeded. The parent's own working directory and descriptors are unaffected.",
 ["inputs", "fault_sequences", "configurations"], "all small argument lists x child outcomes x log and directory choices x one failing system call",
 "No test exists; faults never occur in ordinary runs.",
 ["src/Compiler/Command.cpp", "src/Compiler/Command.hpp"], [("argument list building and process execution", "src/Compiler/Command.cpp: appendStr/appendList/exec")])
prop("C28", "A compile session reports success exactly when the compiled model exists",
 "For every sequence of compile calls with good and failing compilers, models and flags, the compile session runs the compiler on the given model with the given flags, reports success exactly if the compiler succeeded and produced the output, and afterwards names the files of that compilation; a failing call raises an error and leaves the session uncompiled and reusable.",
 ["histories", "configurations", "fault_sequences"], "all sequences of compile/query calls to a depth over compiler outcomes, path shapes and flag sets",
 "State left from an earlier compile shows only in multi-step histories with failures.",
 ["src/Compiler/OMCompile.cpp", "src/Compiler/OMCompile.hpp"], [("compile and getters", "src/Compiler/OMCompile.cpp: OMCompile::compile, getOutputFilename, getModelPath")],
 [("successfullyCompiled", "outcome of the last compile", "src/Compiler/OMCompile.hpp")])
prop("C29", "Container-based compilation mounts and names exactly the files involved",
 "When compiling through a container image, the generated command mounts the directories of the model and of the output, runs the image's compiler with the given flags rewritten to the mounted locations, and the output ends up at the same place as a local compilation's. The container engine and image used are those requested or documented as default, and an unavailable engine or image is reported as an error.",
 ["configurations", "histories"], "all combinations of engine availability, image kind, model location and flags (stub engines recording their calls)",
 "Needs a container engine, so no test covers it.",
 ["src/Compiler/OMCompile.cpp", "src/Compiler/OMCompile.hpp"], [("container set-up and command", "src/Compiler/OMCompile.cpp: *Container*")])
prop("C30", "Operation-selection lists enable exactly the operations they name",
 "For every list of operation or node name patterns, an operation is enabled exactly if its name matches one of the patterns in full, the special words for all and none select everything and nothing, and the answer does not depend on earlier queries or list order. Names never seen behave the same on first and repeated queries.",
 ["inputs", "histories"], "all pattern lists to a size over an alphabet of patterns x all query sequences over an alphabet of names",
 "Caching of earlier answers makes the result history-dependent; tests do a few queries.",
 ["src/Compiler/OptionUtils.cpp", "src/Compiler/OptionUtils.hpp"], [("pattern list matching and caching", "src/Compiler/OptionUtils.cpp: EnableByRegexOption")],
 [("nameCache", "answers already given", "src/Compiler/OptionUtils.hpp")])
prop("C31", "Options from configuration file and command line combine by fixed precedence",
 "For every configuration file content and command line, options from the file are applied before those of the command line so that the command line wins, malformed files are reported without crashing, and querying a key returns exactly the value the loaded file gives it. Loading again after a failed load is possible.",
 ["inputs", "histories", "configurations"], "all small JSON documents (well-formed and truncated) x query keys x load histories",
 "Tests use one well-formed file.",
 ["src/Compiler/JsonConfigObject.cpp", "src/Compiler/JsonConfigObject.hpp", "src/Compiler/CompilerOptions.cpp"], [("configuration object", "src/Compiler/JsonConfigObject.cpp"), ("compile-options from configuration", "src/Compiler/CompilerOptions.cpp: loadCompileOptionsFromConfig")])
prop("C32", "The documentation checker accepts exactly consistent documents",
 "For every document and referenced file, the documentation checker passes exactly if each referenced code excerpt or command output is identical to its source under the directive's options, and every directive in every document is evaluated. A malformed directive is reported as an error, never skipped silently.",
 ["inputs"], "all small documents over an alphabet of lines and directives x reference files",
 "The checker's own tests use two documents per directive.",
 ["docs/doc_check/check.py", "docs/doc_check/doc_parser.py", "docs/doc_check/utils.py", "docs/doc_check/directive_impl/same_as_file.py", "docs/doc_check/directive_impl/file_same_as_stdout.py", "docs/doc_check/directive.py"],
 [("directive parsing", "docs/doc_check/doc_parser.py"), ("directive implementations", "docs/doc_check/directive_impl")])
prop("C33", "The binary decoder prints the given bytes as the given type",
 "For every data file, start, size and element type, the binary decoder prints exactly the elements stored in that byte range, in order, in the requested type, and removes the file only if asked to. Ranges outside the file or unreadable files are reported as errors.",
 ["inputs"], "all small files x ranges x types",
 "No test covers most types and no out-of-range request.",
 ["src/Tools/binary-decoder/BinaryDecoder.cpp"], [("decoding loop", "src/Tools/binary-decoder/BinaryDecoder.cpp")])
prop("C34", "The compiled-model cache returns only complete, matching, recent entries",
 "For every history of lookups and insertions the in-memory cache never exceeds its capacity, evicts the least recently used entry, and returns for a key only what was last stored for that key; entries written to disk can be read back by a new process with all their parts. A process killed at any point while writing leaves nothing that a later process would load as a valid but incomplete entry.",
 ["histories", "crash_points"], "all get/put histories to a depth over capacities and keys; every crash point of a disk write",
 "Eviction order and torn writes need histories and crashes.",
 ["src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py"], [("LRU and disk store", "torch_onnxmlir/sessioncache.py")],
 [("access_order", "recency list", "torch_onnxmlir/sessioncache.py")])
prop("C35", "Removing identity nodes keeps the meaning and interface of a graph",
 "For every model graph, removing identity operations leaves a valid graph with the same inputs and outputs by name that computes the same values, including what its subgraphs take from it; the only identities left are those that define an output of the graph. Graphs without identities are unchanged.",
 ["programs"], "all small graphs (chains, fan-out, outputs fed by identities, nested subgraphs)",
 "Tests use one traced model; output aliasing needs specific graph shapes.",
 ["src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/onnx_utils.py"], [("identity removal", "torch_onnxmlir/onnx_utils.py: remove_identity_ops")])
prop("C36", "Result comparison flags exactly the outputs outside tolerance",
 "For every pair of output lists, the comparison utility reports agreement exactly if the lists have the same length, shapes and types, every integer, boolean and string is equal, and every floating-point or complex element is within the sum of the absolute tolerance and the relative tolerance of the reference, treating equal infinities and paired not-a-numbers as equal. It gives that verdict for every element type without failing. The same holds for the verification of RunONNXModel, which applies the tolerance to integers too, without wraparound.",
 ["inputs"], "all small arrays over a value alphabet incl. inf/nan, all dtypes, mismatch kinds",
 "A comparison that crashes or passes on an unusual type is never noticed by tests whose outputs are float and equal.",
 ["src/Runtime/python/om_pyrt/src/om_pyrt/utils.py"], [("comparison", "om_pyrt/utils.py: compare_result")])
C = "src/Conversion/ONNXToKrnl"
prop("C40", "Compiled models compute what the ONNX specification says",
 "For every valid model built from supported operators and every input, running the compiled model gives, within rounding, the outputs that the ONNX specification defines, with the specified shapes and types.",
 ["programs", "inputs"], "all small models (single operators over all attribute combinations, pairs of operators) on small shapes and enumerated values",
 "Backend tests replay the fixed ONNX node samples; attribute/shape combinations are a product space.",
 [C, "src/Conversion/KrnlToAffine", "src/Conversion/KrnlToLLVM", "src/Dialect/ONNX", "src/Dialect/Krnl"], [("operator lowering", C), ("code generation", "src/Conversion/KrnlToLLVM")])
prop("C41", "Inferred shapes are those the model produces at run time",
 "For every model, each statically inferred dimension and element type equals that of the value computed at run time, and inference never fails on a valid model nor accepts an invalid one.",
 ["programs", "inputs"], "all small single-operator models over attributes and input shapes, static and dynamic",
 "Shape functions have many attribute-dependent cases.",
 ["src/Dialect/ONNX/ONNXOps/ShapeHelper.cpp", "src/Dialect/ONNX/ONNXOps", "src/Dialect/ONNX/Transforms/ShapeInferencePass.cpp"], [("shape helpers", "src/Dialect/ONNX/ONNXOps")])
prop("C42", "Folding constants at compile time equals computing them at run time",
 "For every constant subgraph, the values the compiler folds are those the ONNX specification defines for the folded operators, so that folding never changes a model's outputs.",
 ["programs", "inputs"], "all single foldable operators and pairs, over element types, attributes and small constants",
 "Folding is a second implementation of each operator.",
 ["src/Dialect/ONNX/Transforms/ConstProp.cpp", "src/Dialect/ONNX/ElementsAttr"], [("folding patterns", "src/Dialect/ONNX/Transforms/ConstProp.cpp")])
prop("C43", "Graph rewriting and optimisation levels never change a model's results",
 "For every model and every optimisation level and rewriting option, the compiled model's outputs agree up to rounding with those of the unoptimised compilation.",
 ["programs", "configurations"], "all small operator chains matching rewrite patterns x optimisation options",
 "Rewrites fire only on specific multi-operator patterns.",
 ["src/Dialect/ONNX/ONNXOps/Canonicalize.cpp", "src/Dialect/ONNX/Transforms"], [("rewrites", "src/Dialect/ONNX/Transforms"), ("canonicalisation", "src/Dialect/ONNX/ONNXOps/Canonicalize.cpp")])
prop("C44", "Importing a model preserves its graph, attributes, weights and types",
 "For every valid model file, the imported program has the same inputs, outputs, operators, attributes and constants as the file, and invalid files are rejected with an error.",
 ["programs", "inputs"], "all small models over node kinds, attribute kinds, weight encodings and data types; truncated files",
 "Each attribute and weight encoding has its own import path.",
 ["src/Builder/FrontendDialectTransformer.cpp", "src/Builder"], [("importer", "src/Builder/FrontendDialectTransformer.cpp")])
prop("C45", "Accelerator code paths give the same results as the CPU paths",
 "For every model compiled for the NNPA accelerator, results agree with those of the CPU compilation up to the accelerator's documented precision, and operators the accelerator cannot run are kept on the CPU.",
 ["programs", "configurations"], "all models and accelerator options",
 "Needs the accelerator library and hardware.",
 ["src/Accelerators/NNPA"], [("accelerator lowering", "src/Accelerators/NNPA")])
prop("C46", "The Java interface passes tensors in and out of a model unchanged",
 "For every tensor type, rank and value, running a model through the Java interface gives the model exactly the Java-side tensors and returns its outputs unchanged, without leaking native memory, and native errors surface as Java exceptions.",
 ["inputs", "histories"], "all small tensors and run histories",
 "The Java tests run one or two float models.",
 [RT+"jni/jniwrapper.c", RT+"jni/src/com/ibm/onnxmlir/OMTensor.java"], [("native bridge", RT+"jni/jniwrapper.c"), ("Java tensor", RT+"jni/src/com/ibm/onnxmlir/OMTensor.java")])
prop("C47", "Shapes given for model inputs are applied exactly",
 "For every well-formed shape information (single inputs, ranges of inputs, -1 for all inputs, in any order and combination) and every list of model inputs, each input gets the shape given for it: the first setting for an input wins, a setting for a named input beats the all-inputs one, a dimension given as -1 becomes dynamic, and dimensions beyond those given stay as they were; IMPORTER_FORCE_DYNAMIC makes exactly the dimensions it names dynamic.",
 ["inputs", "configurations"], "all well-formed shape informations",
 "The tests give a few shape informations to a few models.",
 ["src/Support/TypeUtilities.cpp", "src/Builder/ModelInputShaper.cpp"], [("shape information parser", "src/Support/TypeUtilities.cpp"), ("input shaper", "src/Builder/ModelInputShaper.cpp")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
