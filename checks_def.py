from registry import *
import os, subprocess, shutil
from vbuild import BUILD, REPO, VERIF
import registry
WRAP = ["-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=strdup"]
SAN = ("-O1", "-g", *ASAN)
FP = "src/Support/SmallFPConversion.c"
CRT = [RT + "OMTensor.c", RT + "OMTensorList.c", RT + "OnnxDataType.c", RT + "OMInstrument.c", FP]
CPPRT = [RT + "OMTensor.cpp", RT + "OMTensorList.cpp", RT + "OnnxDataType.cpp", FP]
def C(id, parts, **kw): registry.CHECKS[id] = Check(parts, **kw)

def tens(mode): return [Part("tensor_" + mode + "_c", ["@harness/tensor.cpp"] + CRT, common=SAN, ld=WRAP + ["-lm"], args=["--mode", mode], exe="tensor_c"),
                        Part("tensor_" + mode + "_cpp", ["@harness/tensor.cpp"] + CPPRT, common=SAN, ld=WRAP + ["-lm"], args=["--mode", mode], exe="tensor_cpp", per={"@harness/tensor.cpp": ["-DCPPLINK"]})]
C("C01", tens("sweep") + tens("hist"), technique="stateless model checking of the real tensor code: exhaustive operation histories vs a reference model",
  note="Every history up to the depth bound over the stated alphabets is executed on both the C and the C++ build of the runtime; getters compared with the model after every step, under AddressSanitizer.",
  assumptions=["alphabets of shapes, types and update values are representative", "gcc and AddressSanitizer"])
C("C02", tens("fault"), level="fault_enumeration", technique="exhaustive operation histories x every single allocation failure on the real code",
  note="Every history up to the depth bound with every single allocation failing; frees are monitored at the allocator boundary.",
  assumptions=["at most one allocation fails per creation call", "API misuse (double destroy by the caller) is outside the property"])
HLP = [RT + "OMTensorHelper.cpp", RT + "OMTensorListHelper.cpp"]
C("C03", [Part("dtype_c", ["@harness/dtype.cpp"] + CRT, common=SAN, ld=["-lm"]), Part("dtype_cpp", ["@harness/dtype.cpp"] + CPPRT + HLP, common=SAN, per={"@harness/dtype.cpp": ["-DCPPLINK"]})],
  technique="exhaustive enumeration of all type codes, names and printed element types on the real code against the ONNX type table",
  note="Complete over all type codes (defined and not) and all signature names; printed data over ranks 0..6.", assumptions=["the ONNX data type table as transcribed in the harness"])
C("C17", [Part("cpphelp", ["@harness/cpphelp.cpp"] + CPPRT + HLP, common=SAN)],
  technique="exhaustive enumeration of shapes, types, strides, bounds and value perturbations on the real helpers against naive references",
  note="All shapes to rank 4 with dims 0..3, all element types, every single-element perturbation over the value alphabet.", assumptions=["random fill is checked for a few seeds and bounds, by range only"])
SORT = ["@harness/sortfam.cpp", RT + "OMSort.c", RT + "OMTopK.c", RT + "OMUnique.c"] + CRT
def sortpart(id): return [Part("sortfam_" + id, SORT, common=SAN, ld=["-Wl,--wrap=rand", "-lm"], args=["--prop", id], exe="sortfam")]
C("C04", sortpart("C04"), technique="exhaustive enumeration of inputs (and of every pivot choice of the portable quick sort) on the real sort against a stable reference",
  note="All rank-1 inputs up to length 5 (7 thorough) over per-type boundary alphabets, all permutations of 8, ranks to 6; quick_sort_custom under every outcome of rand().",
  assumptions=["NaN inputs are outside the property", "libc qsort_r"])
C("C05", sortpart("C05"), technique="exhaustive enumeration of inputs, k, direction and sorted flag on the real top-k against a stable reference",
  note="All rows up to length 6 over boundary alphabets for every type and k; rows to length 10 over 2-3 values for deep heaps.", assumptions=["NaN inputs are outside the property"])
C("C06", sortpart("C06"), technique="exhaustive enumeration of inputs, axes, flags and output subsets on the real unique against a reference",
  note="All rank-1 inputs up to length 5 and small tensors to rank 6, every axis, sorted flag, subset of outputs and way of omitting an output.", assumptions=["NaN inputs are outside the property", "strings and float16 are not supported by the runtime unique"])
C("C07", [Part("resize", ["@harness/resize.cpp", RT + "OMResize.c"] + CRT, common=SAN, ld=["-lm"])], technique="exhaustive enumeration of modes, ranks, extents, sizes and scales on the real resize against the ONNX definition",
  note="All rank-1 extents 1..16 x outputs 1..24 and 15 scales, small rank 2..5 shapes; every output element compared in extended precision, under AddressSanitizer.",
  assumptions=["only the attribute values the compiler lowers to this library (half_pixel, cubic -0.75, round_prefer_floor, no exclude_outside)", "in nearest mode either neighbour is accepted within 1e-5 of a tie that is not exactly representable", "tolerance 2e-3 on values up to 97"])
C("C08", [Part("phash", ["@harness/phash.cpp", "src/Conversion/ONNXToKrnl/PerfectHash.cpp", RT + "OMIndexLookup.c"], common=SAN, cxxflags=LLVMDEF + ["-fno-rtti"], ld=LLVM_LD)], technique="exhaustive enumeration of key sets: tables from the compiler's generator looked up by the runtime",
  note="All subsets of up to 4 (6 thorough) of 20 boundary integers and of 20 strings, every family size to 150 (600), three value assignments.", assumptions=["keys contain no NUL", "the code generator embeds the tables unchanged"])
C("C11", [Part("random", ["@harness/random.cpp", RT + "OMRandomNormal.c", RT + "OMRandomUniform.c"] + CRT, common=SAN, ld=["-Wl,--wrap=rand", "-lm"])], technique="exhaustive histories of generator calls, and every combination of extreme rand() outcomes, on the real generators",
  note="All histories of 2 (3 thorough) calls over generators, sizes and seeds; all extreme outcomes of the underlying rand().", assumptions=["non-negative seeds", "statistical quality beyond mean/deviation/spread bounds is not judged"])
XW = WRAP + ["-Wl,--wrap=open,--wrap=mmap,--wrap=fstat,--wrap=lseek,--wrap=read,--wrap=posix_memalign"]
def extc(mode): return [Part("extconst_" + mode, ["@harness/extconst.cpp", RT + "OMExternalConstant.c"], common=SAN, ld=XW, args=["--mode", mode], exe="extconst"),
                        Part("extconst_mvs_" + mode, ["@harness/extconst.cpp", RT + "OMExternalConstant.c"], common=SAN, ld=XW, args=["--mode", mode], exe="extconst_mvs",
                             per={RT + "OMExternalConstant.c": ["-D__MVS__", "-D__MAP_MEGA=MAP_SHARED"], "@harness/extconst.cpp": ["-D__MVS__"]})]
C("C09", extc("hist"), technique="exhaustive load/use/unload histories on the real loader (mmap and malloc variants) against a model of the file system state",
  note="All histories to depth 4 (5 thorough), from every initial presence/truncation of the file in three places, of rewriting/removing files, changing OM_CONSTANT_PATH, loading and unloading one or two packs, used after every step; descriptors and mappings counted after every step.",
  assumptions=["the z/OS (malloc+read) variant is compiled on Linux with its macro defined", "a file larger than recorded is accepted"])
C("C10", extc("fault"), level="fault_enumeration", technique="every single system-call or allocation failure at each position, then a retry, on the real loader",
  note="All single faults of open, mmap, fstat, lseek, read (error and premature end), posix_memalign and malloc, for 5 sizes and both path configurations.", assumptions=["one fault per load"])
C("C12", [Part("instr", ["@harness/instr.cpp", RT + "OMInstrument.c"], common=SAN, ld=["-Wl,--wrap=gettimeofday,--wrap=popen,--wrap=pclose"])], technique="exhaustive sequences of instrumentation calls under every configuration on the real runtime against a model of the report",
  note="All sequences of 4 (6 thorough) calls over starts of both protocols, before/after points of two operations, nested and repeated, and report printing, for 8 configurations and 3 measurement kinds; runs around every buffer-overflow boundary; clock and ps controlled.",
  assumptions=["time and memory lines are each in program order (time lines are buffered)", "a new run discards unprinted time records of the previous one, as documented"])

def buildModels():
    d = os.path.join(BUILD, "models"); os.makedirs(d, exist_ok=True); src = os.path.join(VERIF, "harness/models/model.c")
    import fcntl
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for f, tag, defs in (("good.so", "_good", ""), ("Upper.v2.so", "_upper", ""), ("notag.so", "", ""), ("noinfo.so", "_noinfo", "-DNO_INFO"), ("noprint.so", "_noprint", "-DNO_PRINT"), ("nomain.so", "_nomain", "-DNO_MAIN"), ("noquery.so", "_noquery", "-DNO_QUERY"),
                             ("noinsig.so", "_noinsig", "-DNO_INSIG"), ("nooutsig.so", "_nooutsig", "-DNO_OUTSIG"), ("MiXed.so", "_mixed", ""), ("alias.so", "_alias", "-DALIAS")):
            o = os.path.join(d, f)
            if os.path.exists(o) and os.path.getmtime(o) > os.path.getmtime(src): continue
            subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-w", "-I" + REPO + "/include", "-DTAG=" + tag] + defs.split() + [src, "-o", o])
        open(os.path.join(d, "text.so"), "w").write("not a library\n")
SESS = ["@harness/session.cpp", RT + "ExecutionSession.cpp", RT + "OMInstrument.c"] + CPPRT + HLP
def sess(mode): return [Part("session_" + mode, SESS, common=SAN, ld=["-Wl,--wrap=dlopen,--wrap=dlclose", "-ldl", "-rdynamic"], args=["--mode", mode], exe="session", pre=buildModels, env={"VC_MODELS": os.path.join(BUILD, "models")})]
C("C13", sess("hist"), technique="exhaustive histories of session calls over well-formed and defective model libraries on the real ExecutionSession against a model",
  note="All histories of 4 (5 thorough) calls over one session and 15 libraries, or two sessions and 3 libraries: construct, load, query, select entry, signatures, info, run in 4 ways, failing and crashing runs, fill, print, destroy; library handles counted after every call.",
  assumptions=["stand-in model libraries implement the documented model interface", "after a failed selection of an entry point either the previous one stays selected or none is"])
C("C14", sess("faulty"), level="fault_enumeration", technique="exhaustive histories of crashing, failing and good model runs and loads; signal handlers, mask and environment compared after every call",
  note="All histories of 3 (4 thorough) events over two sessions: 7 kinds of crash, error returns, good runs, 3 kinds of load failure, from 4 settings of previous handlers and environment.",
  assumptions=["the crash is raised in the calling thread while the model runs with the signal-handling run call", "stand-in models"])
C("C15", [Part("siginfo", ["@harness/siginfo.cpp"] + CPPRT + HLP, common=SAN)], technique="exhaustive enumeration of signatures, shape and value information (well-formed, every prefix, every single-character change) on the real parser against an independent reading",
  note="All combinations of types, dims, notations, 19 shape and 20 value specifications, 10 bound lists; every prefix and every single-character edit of 4 signatures and 4 shape strings.",
  assumptions=["shape information with fewer or more dims than the signature, trailing separators and explicit plus signs may be accepted or rejected", "bounds outside the element type's range are outside the property"])
PYV = "/opt/vp/venv/bin/python"
def buildPyRt():
    import subprocess, sysconfig
    d = os.path.join(BUILD, "pyrt"); os.makedirs(d, exist_ok=True); m = os.path.join(VERIF, "harness/models/")
    import fcntl
    W = "-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=__cxa_demangle"
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-w", m + "vctrack.c", "-o", d + "/libvctrack.so", "-lstdc++"])
        e = registry.vbuild.build("echo", ["@harness/models/echo.c"] + CRT, common=("-O1", "-g"), ld=[W, "-L" + d, "-lvctrack", "-Wl,-rpath," + d, "-lm"], shared=True)
        shutil.copy(e, d + "/echo.so")
        # this sandbox has pybind11 2.11 with numpy 2: the layout of numpy's dtype structure is corrected in a copy of the header
        inc = d + "/inc"
        if not os.path.exists(inc + "/.done"):
            shutil.copytree("/usr/include/pybind11", inc + "/pybind11", dirs_exist_ok=True); h = inc + "/pybind11/numpy.h"; t = open(h).read()
            old = "    char flags;\n    int type_num;\n    int elsize;\n    int alignment;\n    char *subarray;\n    PyObject *fields;\n    PyObject *names;\n"
            assert old in t
            open(h, "w").write(t.replace(old, "    char flags;\n    int type_num;\n    uint64_t flags2;\n    Py_ssize_t elsize;\n    Py_ssize_t alignment;\n    PyObject *metadata;\n    Py_hash_t hash;\n    void *reserved[2];\n    char *subarray;\n    PyObject *fields;\n    PyObject *names;\n").replace("numpy.core.multiarray", "numpy._core.multiarray").replace("numpy.core._internal", "numpy._core._internal"))
            open(inc + "/.done", "w").close()
        p = registry.vbuild.build("PyRuntimeC", [RT + "python/PyExecutionSession.cpp", RT + "ExecutionSession.cpp", RT + "OMInstrument.c"] + CPPRT + HLP, common=("-O1", "-g"), cxxflags=["-I" + inc, "-I/usr/include/python3.12", "-frtti", "-fexceptions", "-fvisibility=hidden"],
                                  ld=[W, "-L" + d, "-lvctrack", "-Wl,-rpath," + d, "-lm", "-ldl"], shared=True)
        shutil.copy(p, d + "/PyRuntimeC.so")
C("C16", [PyPart("pysess", "harness/pysess.py", python=PYV, env={"PYRT_DIR": os.path.join(BUILD, "pyrt")}, prebuild=buildPyRt)],
  technique="exhaustive enumeration of arrays, output ownership patterns and run histories through the real Python session against a recording stand-in model",
  note="15 element types x 13 memory layouts x 14 shapes x 4 run calls; 3-output lists over 8 ownership patterns, released in every order; histories of 4 (6 thorough) runs, failures and releases; every allocation of runtime and model tracked.",
  assumptions=["the stand-in model implements the documented model interface", "byte-swapped and unaligned arrays may be refused"])
SFP = dict(common=("-O2", "-g"))
C("C18", [Part("smallfp_c", ["@harness/smallfp.cpp", FP], ld=["-lm"], **SFP),
          Part("smallfp_f16c", ["@harness/smallfp.cpp", FP], ld=["-lm"], per={FP: ["-mf16c", "-msse4.1"]}, **SFP),
          Part("smallfp_cxx", ["@harness/smallfp.cpp", "src/Support/SmallFP.cpp", FP], per={"@harness/smallfp.cpp": ["-DCOMPILER_SIDE"]}, cxxflags=LLVMDEF + ["-fno-rtti"], ld=LLVM_LD, **SFP)],
  technique="exhaustive enumeration of every 32-bit float and every code of every format on the real conversions against an independent definition of correct rounding",
  note="All codes; thorough: all 2^32 floats to every format; quick: every sign, exponent, top 13 (8-bit formats: 9) mantissa bits with 6 boundary patterns below; software and F16C builds.",
  assumptions=["the sign and payload of NaN are not significant", "overflow without infinities gives NaN (ONNX/LLVM non-saturating)"])
EA = "src/Dialect/ONNX/ElementsAttr/"
MLIRX = dict(cxxflags=LLVMDEF + ["-fno-rtti"], ld=LLVM_LD)
C("C19", [Part("strides", ["@harness/strides.cpp", EA + "Strides.cpp"], common=SAN, **MLIRX)], technique="exhaustive enumeration of shapes, strides, permutations and target shapes on the real stride computations against naive index arithmetic",
  note="All shapes to rank 5 (6 thorough), strides over alphabets with zero and negative values, every reshape target to rank 4: strides offered exactly if they exist.", assumptions=["non-empty tensors for reshapeStrides", "a dimension of size 1 has stride 0, as the library documents"])
EAS = [EA + f for f in ("BType.cpp", "DisposableElementsAttr.cpp", "DisposablePool.cpp", "ElementsAttrBuilder.cpp", "ElementsAttrHelper.cpp", "Strides.cpp", "WideNum.cpp")] + ["src/Support/TypeUtilities.cpp", "src/Support/SmallFP.cpp", FP]
EAX = dict(common=("-O1", "-g1"), **MLIRX)
C("C20", [Part("eabuild", ["@harness/eabuild.cpp"] + EAS, **EAX)], technique="exhaustive enumeration of chains of constant operations on the real builder against naive evaluation of materialised tensors",
  note="All chains of 2 (3 thorough) of ~100 operations per shape, from 8 (13) shapes x 3 (4) types x 6 representations; single steps for 10 types; results read in every way the library offers, operands re-read.",
  assumptions=["values representable in every element type (casts of other values belong to C21)", "the dialect that registers the pool is a stand-in with the same interface"])
C("C21", [Part("eacast", ["@harness/eacast.cpp"] + EAS, **EAX)], technique="exhaustive enumeration of element type pairs and triples on the real casts against an independent definition",
  note="All 17x17 pairs x rounding/saturation x 8 representations and 17^3 triples; all codes of 8/16-bit types, ~150 boundary values of the others; every access path agrees.",
  assumptions=["casts between integers and between floats may delay narrowing to the final read (documented in the code): a chain may give the materialised or the delayed result", "rounding to a narrow float may go through double and float32", "the sign of zero is not compared"])
TSAN = ["-fsanitize=thread", "-g1"]
VCS = ["@lib/vcsched.cpp"]
WRAPMX = ["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock"]
C("C22", [Part("pool_" + m, ["@harness/pool.cpp"] + VCS + EAS, exe="pool", args=["--mode", m], per={EA + "DisposablePool.cpp": TSAN}, common=EAX["common"], cxxflags=EAX["cxxflags"], ld=EAX["ld"] + WRAPMX) for m in ("hist", "sched")],
  technique="exhaustive histories of creating, sharing, attaching, collecting, scrubbing and closing on the real pool; systematic schedules of concurrent creation and parallel scrub under a controlled scheduler",
  note="Histories of 7 (8 thorough) steps over 4 constants and 3 places; 10 concurrent scenarios with 2-3 threads, every schedule of at most 2-4 (3-5) preemptions at locks and conflicting (atomic or plain) accesses.",
  assumptions=["collection and scrubbing do not run concurrently with creation (the pass manager's discipline)", "sequentially consistent memory", "switch points are locks and the code locations seen to conflict in profiling runs"])
C("C23", [Part("parconst", ["@harness/parconst.cpp", "@harness/parops.cpp"] + VCS + EAS, per={EA + "ElementsAttrBuilder.cpp": TSAN, EA + "DisposablePool.cpp": TSAN, "@harness/parops.cpp": TSAN}, common=EAX["common"], cxxflags=EAX["cxxflags"], ld=EAX["ld"] + WRAPMX)],
  technique="systematic exploration of every schedule of the real parallel constant loops under a controlled scheduler, for every thread count and size around the thresholds, against the single-threaded result",
  note="14 operations x sizes at both sides of the thresholds with every remainder x 1..8 threads x 3 operand forms x 3 ways of reading; at most 2 (2 threads) or 1 preemptions (one more in thorough).",
  assumptions=["sequentially consistent memory", "switch points are locks and the code locations seen to conflict in profiling runs"])
C("C24", [Part("btypes", ["@harness/btypes.cpp"] + EAS, **EAX)], technique="exhaustive enumeration of all element types, all codes of narrow types and boundary codes of wide ones on the real tables and conversions against a transcribed table",
  note="17 element types; every code up to 16 bits, every exponent and bit pair of wider ones; all tensor types of rank 0-3 over 5 dims and all element types.", assumptions=["the payload of NaN is not significant"])
def buildVcrash():
    d = os.path.join(BUILD, "vcrash"); os.makedirs(d, exist_ok=True)
    subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-w", os.path.join(VERIF, "harness/models/vcrash.c"), "-o", d + "/libvcrash.so.tmp", "-ldl"]); os.replace(d + "/libvcrash.so.tmp", d + "/libvcrash.so")
C("C34", [PyPart("sessioncache", "harness/sessioncache.py", prebuild=buildVcrash, env={"LD_PRELOAD": os.path.join(BUILD, "vcrash/libvcrash.so")})],
  technique="exhaustive enumeration of operation histories and of crash points and torn writes on the real cache against a reference model",
  note="All histories of 5 (6 thorough) in-memory and 4 (5) on-disk operations, capacities 1-3 (on disk: 1-2, thorough 1-3); every file operation of a store killed before, in the middle of and after it, or failing from there on, over old/new entries with 0-2 constant files.", assumptions=["a killed process, not a lost page cache", "model and constants are named after the key, as the backend names them", "entries have input indices, as in the backend"])
C("C35", [PyPart("identity", "harness/identity.py", python="/opt/vp/venv/bin/python")], technique="exhaustive enumeration of small graphs on the real rewriting, compared by symbolic evaluation before and after",
  note="Every wiring of up to 4 (5 thorough) nodes of 7 kinds with every list of 1-2 outputs; conditionals nested twice and loops over outer values; models through files.", assumptions=["names are defined once in a graph and its subgraphs, as ONNX requires", "an identity with equal names has no effect"])
C("C36", [PyPart("compare", "harness/compare.py", python="/opt/vp/venv/bin/python")], technique="exhaustive enumeration of value pairs, arrays, shapes, types and output lists on the real comparison functions against exact rational arithmetic",
  note="Every pair of values of 19 element types (limits, infinities, NaN, boundary differences) x 7 tolerances x positions; all contents of arrays to 2 (3) elements; lists to 3 outputs.", assumptions=["integers, booleans and strings must be equal in compare_result; verify_outs applies the tolerance to integers", "either verdict within 1e-12 of the bound"])
C("C47", [Part("shapeinfo", ["@harness/shapeinfo.cpp", "src/Builder/ModelInputShaper.cpp", "src/Support/TypeUtilities.cpp"], **EAX)], technique="exhaustive enumeration of lists of input shape settings applied to inputs of every shape on the real parser and shaper against an independent reading",
  note="All lists of 1-3 settings over 10 input notations x 9 dimension lists on 7 inputs x 6 shapes; all IMPORTER_FORCE_DYNAMIC settings with up to 2 entries.", assumptions=["well-formed settings", "IMPORTER_FORCE_DYNAMIC does not mix all inputs with single ones"])
C("C25", [Part("flags", ["@harness/flags.cpp", "src/Compiler/CommandUtils.cpp"], common=SAN)], technique="exhaustive enumeration of flag strings on the real splitter against an independent reading, and of quoted argument lists for the round trip",
  note="All strings to 7 (9 thorough) characters over 7 characters; every byte value; all lists of up to 3 (4) of 13 arguments in 4 quotings.", assumptions=["a backslash escapes the next character everywhere, also within single quotes (documented)", "a backslash at the very end may be kept or dropped", "empty arguments are dropped"])
# the compiler's real main() and options, with stand-ins for the compilation itself
DRV = ["@harness/drvstubs.cpp", "src/onnx-mlir.cpp", "src/Compiler/CompilerOptions.cpp", "src/Compiler/JsonConfigObject.cpp", "src/Compiler/CommandUtils.cpp", "src/Accelerators/Accelerator.cpp"]
DRVX = dict(common=("-O1", "-g1"), cxxflags=["-I" + os.path.join(VERIF, "harness/stubs"), *LLVMDEF, "-fno-rtti"], ld=LLVM_LD, per={"src/onnx-mlir.cpp": ["-Dmain=om_main", "-include", os.path.join(VERIF, "harness/stubs/clfix.h")]})
OMC = ["src/Compiler/OMCompile.cpp", "src/Compiler/Command.cpp"]
C("C26", [Part("outname", ["@harness/outname.cpp"] + OMC + DRV, **{**DRVX, "per": {**DRVX["per"], "src/Compiler/OMCompile.cpp": ["-frtti"]}})], technique="exhaustive enumeration of flag lists: prediction compared with what the compiler's real main() and option parser arrive at",
  note="5 model paths x 2 ways of giving it x 4 output directories x all lists of up to 3 flag groups.", assumptions=["the extension table of the emission targets", "an invalid -o value together with an output directory is not specified"])
C("C27", [Part("command", ["@harness/command.cpp", "src/Compiler/Command.cpp", "src/Compiler/CommandUtils.cpp"], common=("-O1", "-g1"), ld=["-Wl,--wrap=fork,--wrap=waitpid"])], technique="exhaustive enumeration of argument lists, outcomes, directories, logs and system-call faults on the real command runner with a recording child program",
  note="All 256 exit statuses and 25 signals; all lists of up to 3 appends; all pairs of runs over 6 programs x outcome x 4 directories x 3 logs x 5 faults.", assumptions=["empty strings stand for no argument and are dropped (callers rely on it)", "the log path is absolute when a directory is given"])
def omc(m): return [Part("omcompile_" + m, ["@harness/omcompile.cpp", "src/Compiler/OMCompile.cpp", "src/Compiler/Command.cpp", "src/Compiler/CommandUtils.cpp"], common=("-O1", "-g1"), cxxflags=["-I" + os.path.join(VERIF, "harness/stubs")], ld=["-ldl", "-rdynamic"], args=["--mode", m], exe="omcompile")]
C("C28", omc("C28"), technique="exhaustive histories of compile calls and queries on the real session class with a recording stand-in compiler",
  note="Single calls over sessions x models x flags x output directories x outcomes; all histories of 3 (4 thorough) calls over 12 calls of one session.", assumptions=["the stand-in compiler follows the naming rule that C26 checks against the real main()", "constants files are written only with code targets"])
C("C29", omc("C29"), technique="exhaustive enumeration of engine, image, container and path configurations on the real session class with stand-in docker/podman that emulate mounts and record calls",
  note="All set-ups over engine presence, choice, image presence and pulling; 9 kinds of surrounding container; 6 images x models x flags x outcomes.", assumptions=["docker and podman semantics as emulated (images -q succeeds on a missing image, image inspect does not)", "a shell splits the container command"])
C("C30", [Part("regexopt", ["@harness/regexopt.cpp", "src/Compiler/OptionUtils.cpp"], common=("-O2", "-g1"), cxxflags=LLVMDEF, ld=LLVM_LD)], technique="exhaustive enumeration of pattern lists, names and query histories on the real option class against an independent matcher",
  note="All elements to 3 (4 thorough) pieces and pairs in both notations, each with every name to 4 characters; lists of up to 3 of 13 realistic elements set in 5 ways; all histories of 4 (5) queries on two options.", assumptions=["an element with a regular-expression construct is a regular expression (as the code documents)", "ALL and NONE stand as elements of their own and not both", "names without line breaks"])
C("C31", [Part("jsonconf_" + m, ["@harness/jsonconf.cpp"] + DRV, exe="jsonconf", args=["--mode", m], **DRVX) for m in ("json", "prec")], technique="exhaustive enumeration of configuration documents and load histories on the real object; of option sources and places on the compiler's real main()",
  note="All objects of up to 2 keys (3 over fewer values), all truncations, histories of 5 (6 thorough) operations over 6 files; all combinations of up to 4 options over environment, file and command line x 9 file places.", assumptions=["keys are distinct", "option values do not look like options"])
C("C32", [PyPart("doccheck", "harness/doccheck.py")], technique="exhaustive enumeration of documents, references, outputs and trees on the real checker against an independent judgement",
  note="Every text of up to 5 (7 thorough) lines after each of 24 directives; pairs (triples) of sections with every single-line change; trees of 7 files with every set of wrong ones and 9 exclusions.", assumptions=["blank lines before the closing mark of a section may count or not", "no carriage returns in compared outputs", "a malformed directive has its parentheses closed"])
C("C33", [Part("bindec", ["@harness/bindec.cpp", "src/Tools/binary-decoder/BinaryDecoder.cpp"], common=("-O1", "-g1"), cxxflags=LLVMDEF + ["-fno-rtti", "-DONNX_ML=1", "-DONNX_NAMESPACE=onnx"], ld=LLVM_LD + ["-lonnx_proto", "-lprotobuf"], per={"src/Tools/binary-decoder/BinaryDecoder.cpp": ["-Dmain=bd_main"]})],
  technique="exhaustive enumeration of files, ranges, types and options on the decoder's real main() against independent formatting",
  note="Files of up to 17 (19 thorough) bytes x all ranges from -1 to 2 past the end x 13 types x 3 option orders; all codes of 8 and 16 bit types.", assumptions=["floats are printed to at least 6 digits", "booleans are packed 8 in a byte, lowest bit first, as the tool prints them", "FLOAT16 and STRING are refused"])
import ombuild
_omc = []
def buildOmc():
    if not _omc: ombuild.build(); _omc.append(1)
def om(cid, script, **env):
    p = PyPart("om_" + script, "harness/%s.py" % script, python="/opt/vp/venv/bin/python", prebuild=buildOmc, env=dict({"OM_CID": cid, "VC_MAXKEYS": "400", "VC_MAXVIOL": "100000"}, **env)); p.tier = "quick"; return [p]   # both tiers: known-cases.json lists the cases of the quick tables
LATER = lambda *a, **k: None   # explorers whose deviations on the unchanged tree are not all judged yet
OMA = ["the compiler is built against LLVM/MLIR 20 through the overlay headers of lib/ombuild.py (the pinned commit names a newer one)", "cases the unchanged compiler refuses, listed in known-cases.json, are outside the supported set"]
C("C40", om("C40", "opsem"), technique="exhaustive enumeration of operator cases, each compiled by the real compiler and executed, against the ONNX reference evaluator",
  note="All cases of 150 operators' tables (attributes x shapes x types x absent inputs), with known and unknown input shapes and constant and run-time parameters, on three inputs each.", assumptions=OMA + ["floating-point results within 2e-5 relative (more where listed)"])
C("C41", om("C41", "opshape"), technique="exhaustive enumeration of operator cases and of which input dimensions are known, the real shape inference against the specified outputs",
  note="All cases of the operators' tables x parameters constant or run-time x all, none or single dimensions unknown.", assumptions=OMA)
C("C42", om("C42", "opfold"), technique="exhaustive enumeration of operator cases with constant inputs, compiled by the real compiler and executed, against the ONNX reference evaluator",
  note="All cases of the foldable operators' tables with all inputs constant, on two sets of values.", assumptions=OMA)
LATER("C43", om("C43", "opchain"), technique="exhaustive enumeration of operator chains, rewrite patterns and option sets, compiled by the real compiler and executed, against the unrewritten graph",
  note="All pairs of 95 graph steps; 80 patterns x 4 shapes x known/unknown x 10 option sets.", assumptions=OMA + ["floating-point results within 5e-4 relative"])
LATER("C44", om("C44", "importer", OM_PARTS="weight|constant|types|special|external|damaged|invalid|schema"), technique="exhaustive enumeration of model files through the real importer, compared term by term with the file",
  note="18 element types x encodings x shapes x places; every operator schema's inputs, outputs and attributes; subgraphs, functions, names; external data; truncations; invalid files.", assumptions=OMA)
