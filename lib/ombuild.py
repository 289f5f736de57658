"""Builds the whole compiler (dialects, importer, passes, lowering) of /repo against the installed LLVM/MLIR 20.
The pinned commit expects a newer LLVM: the differences are bridged by *copies of LLVM's headers* with a few members added (overlay),
never by changing /repo's sources.  Objects come from ccache, so an unchanged tree costs seconds and a change recompiles what it touches."""
import os, re, subprocess, hashlib, glob, fcntl
from concurrent.futures import ThreadPoolExecutor
import vbuild
from vbuild import VERIF, REPO, BUILD, ENV, BuildError
OM = os.path.join(BUILD, "om"); OV = os.path.join(OM, "ov"); GEN = os.path.join(OM, "gen")
LI = "/usr/lib/llvm-20/include/"; TBL = "/usr/lib/llvm-20/bin/mlir-tblgen"
def _w(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and open(p).read() == t: return
    open(p, "w").write(t)
def _patch(h, *subs, base=LI):
    t = open(base + h).read()
    for a, b in subs:
        n = t.count(a)
        if n == 0: raise BuildError("overlay: %s has no %r" % (h, a))
        t = t.replace(a, b)
    _w(os.path.join(OV, h), t)
def _cls(h, name, members):
    "adds members at the start of a class of a TableGen-generated header"
    t = open(os.path.join(OV, h) if os.path.exists(os.path.join(OV, h + ".x")) else LI + h).read()
    m = re.search(r"\nclass %s : public [^\n]*\{\npublic:\n" % name, t)
    if not m: raise BuildError("overlay: no class %s in %s" % (name, h))
    return t[:m.end()] + members + t[m.end():]
def overlay():
    t = open(LI + "mlir/IR/OpDefinition.h").read()
    m = re.search(r"class Op : public OpState, public Traits<ConcreteType>\.\.\. \{\npublic:\n", t)
    if not m: raise BuildError("overlay: OpDefinition.h")
    _w(OV + "/mlir/IR/OpDefinition.h", t[:m.end()] + """  template <typename OmvBuilder, typename... OmvArgs>
  static ConcreteType create(OmvBuilder &b, Location loc, OmvArgs &&...args) {
    return b.template create<ConcreteType>(loc, std::forward<OmvArgs>(args)...);
  }
""" + t[m.end():])
    _patch("mlir/Transforms/GreedyPatternRewriteDriver.h", ("  bool useTopDownTraversal = false;", """  GreedyRewriteConfig &setUseTopDownTraversal(bool v = true) { useTopDownTraversal = v; return *this; }
  GreedyRewriteConfig &setMaxNumRewrites(int64_t v) { maxNumRewrites = v; return *this; }
  GreedyRewriteConfig &setMaxIterations(int64_t v) { maxIterations = v; return *this; }
  GreedyRewriteConfig &enableFolding(bool v = true) { fold = v; return *this; }
  GreedyRewriteConfig &setStrictness(GreedyRewriteStrictness v) { strictMode = v; return *this; }
  GreedyRewriteConfig &setScope(Region *v) { scope = v; return *this; }
  GreedyRewriteConfig &setListener(RewriterBase::Listener *v) { listener = v; return *this; }
  bool useTopDownTraversal = false;"""))
    _patch("mlir/Dialect/Arith/IR/Arith.h", ("  /// Build a constant int op that produces an integer of the specified width.", """  template <class B, class V> static ConstantIntOp create(B &b, Location l, Type t, V v) { return b.template create<ConstantIntOp>(l, (int64_t)v, t); }
  template <class B> static ConstantIntOp create(B &b, Location l, int64_t v, unsigned w) { return b.template create<ConstantIntOp>(l, v, w); }
  /// Build a constant int op that produces an integer of the specified width."""),
        ("  /// Build a constant float op that produces a float of the specified type.", """  template <class B> static ConstantFloatOp create(B &b, Location l, FloatType t, const APFloat &v) { return b.template create<ConstantFloatOp>(l, v, t); }
  /// Build a constant float op that produces a float of the specified type."""),
        ("  /// Build a constant int op that produces an index.", """  template <class B> static ConstantIndexOp create(B &b, Location l, int64_t v) { return b.template create<ConstantIndexOp>(l, v); }
  /// Build a constant int op that produces an index."""))
    h = "mlir/Dialect/LLVMIR/LLVMOps.h.inc"; t = open(LI + h).read()
    for c, mem in (("GlobalCtorsOp", "  template <class B> static GlobalCtorsOp create(B &b, Location l, ArrayAttr x, ArrayAttr y, ArrayAttr) { return b.template create<GlobalCtorsOp>(l, x, y); }\n"),
                   ("GlobalDtorsOp", "  template <class B> static GlobalDtorsOp create(B &b, Location l, ArrayAttr x, ArrayAttr y, ArrayAttr) { return b.template create<GlobalDtorsOp>(l, x, y); }\n"),
                   ("InlineAsmOp", "  template <class B, class K, class D> static InlineAsmOp create(B &b, Location l, Type t, ValueRange o, StringRef s, StringRef c, bool e, bool a, K, D d, ArrayAttr x) { return b.template create<InlineAsmOp>(l, t, o, s, c, e, a, d, x); }\n")):
        m = re.search(r"\nclass %s : public ::mlir::Op<[^\n]*\{\npublic:\n" % c, t)
        if not m: raise BuildError("overlay: " + c)
        t = t[:m.end()] + mem + t[m.end():]
    _w(OV + "/" + h, t)
    _patch("mlir/Dialect/LLVMIR/LLVMOpsAttrDefs.h.inc", ("  static DICompileUnitAttr get(DistinctAttr id,", "  template <class F, class S> static DICompileUnitAttr get(::mlir::MLIRContext *c, DistinctAttr id, unsigned l, F f, StringAttr p, bool o, DIEmissionKind e, DINameTableKind n, S) { return get(c, id, l, f, p, o, e, n); }\n  static DICompileUnitAttr get(DistinctAttr id,"))
    _patch("mlir/Interfaces/FunctionInterfaces.h.inc", ("    ::mlir::Attribute removeResultAttr(unsigned index, ::mlir::StringAttr name) {\n      return ::mlir::function_interface_impl::removeResultAttr((*this)", "    ::mlir::Attribute removeResultAttr(unsigned index, ::llvm::StringRef name) { return removeResultAttr(index, ::mlir::StringAttr::get((*this)->getContext(), name)); }\n    ::mlir::Attribute removeResultAttr(unsigned index, ::mlir::StringAttr name) {\n      return ::mlir::function_interface_impl::removeResultAttr((*this)"),
        ("    ::mlir::Attribute removeResultAttr(unsigned index, ::mlir::StringAttr name) {\n      return ::mlir::function_interface_impl::removeResultAttr((*static_cast", "    ::mlir::Attribute removeResultAttr(unsigned index, ::llvm::StringRef name) { return removeResultAttr(index, ::mlir::StringAttr::get((*static_cast<ConcreteOp *>(this))->getContext(), name)); }\n    ::mlir::Attribute removeResultAttr(unsigned index, ::mlir::StringAttr name) {\n      return ::mlir::function_interface_impl::removeResultAttr((*static_cast"))
    _patch("mlir/Conversion/LLVMCommon/MemRefBuilder.h", ("  static MemRefDescriptor undef(OpBuilder &builder, Location loc,", "  static MemRefDescriptor poison(OpBuilder &b, Location l, Type t) { return undef(b, l, t); }\n  static MemRefDescriptor undef(OpBuilder &builder, Location loc,"),
        ("  static UnrankedMemRefDescriptor undef(OpBuilder &builder, Location loc,", "  static UnrankedMemRefDescriptor poison(OpBuilder &b, Location l, Type t) { return undef(b, l, t); }\n  static UnrankedMemRefDescriptor undef(OpBuilder &builder, Location loc,"))
    _patch("mlir/Dialect/Vector/Transforms/VectorTransforms.h", ("  /// Option to control the lowering of vector.contract.", "  VectorTransformsOptions() = default;\n  VectorTransformsOptions(VectorContractLowering o) { vectorContractLowering = o; }\n  VectorTransformsOptions(VectorTransposeLowering o) { vectorTransposeLowering = o; }\n  VectorTransformsOptions(VectorMultiReductionLowering o) { vectorMultiReductionLowering = o; }\n  /// Option to control the lowering of vector.contract."))
    h = "mlir/Dialect/OpenMP/OpenMPOps.h.inc"; t = open(LI + h).read(); m = re.search(r"\nclass ParallelOp : public ::mlir::Op<[^\n]*\{\npublic:\n", t)
    _w(OV + "/" + h, t[:m.end()] + "  ::mlir::MutableOperandRange getNumThreadsVarsMutable() { return getNumThreadsMutable(); }\n" + t[m.end():])
    _patch("llvm/MC/TargetRegistry.h", ("  static const Target *lookupTarget(StringRef Triple, std::string &Error);", "  static const Target *lookupTarget(StringRef Triple, std::string &Error);\n  static const Target *lookupTarget(const llvm::Triple &t, std::string &e) { return lookupTarget(StringRef(t.str()), e); }"),
        ("  TargetMachine *createTargetMachine(\n", "  template <class... A> TargetMachine *createTargetMachine(const llvm::Triple &t, A &&...a) const { return createTargetMachine(StringRef(t.str()), std::forward<A>(a)...); }\n  TargetMachine *createTargetMachine(\n"))
    _patch("mlir/IR/Types.h", ("  bool isF16() const;", "  bool isFloat() const;\n  bool isF16() const;"))
    t = open(LI + "mlir/IR/BuiltinTypes.h").read(); i = t.rindex("#endif")
    _w(OV + "/mlir/IR/BuiltinTypes.h", t[:i] + "namespace mlir { inline bool Type::isFloat() const { return llvm::isa<FloatType>(*this); } }\n" + t[i:])
    _patch("onnx/onnx-ml.pb.h", ("  TensorProto_DataType_FLOAT8E5M2FNUZ = 20\n", "  TensorProto_DataType_FLOAT8E5M2FNUZ = 20,\n  TensorProto_DataType_UINT4 = 21, TensorProto_DataType_INT4 = 22, TensorProto_DataType_FLOAT4E2M1 = 23, TensorProto_DataType_FLOAT8E8M0 = 24, TensorProto_DataType_UINT2 = 25, TensorProto_DataType_INT2 = 26\n"),
        ("  static constexpr DataType FLOAT8E5M2 =\n", "  static constexpr DataType UINT4 = TensorProto_DataType_UINT4, INT4 = TensorProto_DataType_INT4, FLOAT4E2M1 = TensorProto_DataType_FLOAT4E2M1, FLOAT8E8M0 = TensorProto_DataType_FLOAT8E8M0, UINT2 = TensorProto_DataType_UINT2, INT2 = TensorProto_DataType_INT2;\n  static constexpr DataType FLOAT8E5M2 =\n"), base="/usr/include/")
    t = open(LI + "mlir/Conversion/Passes.h").read(); i = t.rindex("#endif")
    _w(OV + "/mlir/Conversion/Passes.h", t[:i] + "namespace mlir { inline std::unique_ptr<Pass> createConvertBufferizationToMemRefPass() { return createBufferizationToMemRefPass(); }\ninline std::unique_ptr<Pass> createSCFToControlFlowPass() { return createConvertSCFToCFPass(); } }\n" + t[i:])
    t = open(LI + "mlir/Dialect/Bufferization/Transforms/Passes.h").read(); i = t.rindex("#endif")
    _w(OV + "/mlir/Dialect/Bufferization/Transforms/Passes.h", t[:i] + "namespace mlir { namespace bufferization { struct OneShotBufferizePassOptions { bool bufferizeFunctionBoundaries = false, allowUnknownOps = false; }; std::unique_ptr<Pass> createOneShotBufferizePass(const OneShotBufferizePassOptions &); } }\n" + t[i:])
    _w(GEN + "/src/Accelerators/Accelerators.inc", open(VERIF + "/harness/stubs/src/Accelerators/Accelerators.inc").read())
    _w(GEN + "/VCSVersion.inc", "#define ONNX_MLIR_REPOSITORY \"\"\n#define ONNX_MLIR_REVISION \"\"\n")
D = "src/Dialect/"
TG = [(["-gen-pass-decls", "-name", "Transforms"], "src/Transform/Passes.td", "src/Transform/Passes.h.inc"), (["-gen-pass-decls", "-name", "TransformsKrnl"], "src/Transform/PassesKrnl.td", "src/Transform/PassesKrnl.h.inc"),
      (["-gen-pass-decls", "-name", "ONNXTransforms"], D + "ONNX/Transforms/Passes.td", D + "ONNX/Transforms/Passes.h.inc"),
      (["-gen-rewriters"], D + "ONNX/ONNXOps/Canonicalize.td", D + "ONNX/ONNXOps/ONNXCanonicalize.inc")]
TG += [(["-gen-op-interface-" + k], "src/Interface/%s.td" % i, "src/Interface/%s.%s.inc" % (i, e)) for i in ("SpecializedKernelOpInterface", "ShapeHelperOpInterface", "HasOnnxSubgraphOpInterface", "ResultTypeInferenceOpInterface", "ShapeInferenceOpInterface") for k, e in (("decls", "hpp"), ("defs", "cpp"))]
TG += [(["-gen-" + k + "-" + g] + (["-%sdialect=%s" % (p, n.lower())] if p is not None else []), D + "%s/%s.td" % (n, n), D + "%s/%s%s.%s.inc" % (n, n, o, e)) for n in ("ONNX", "Krnl") for k, o, p in (("op", "Ops", None), ("dialect", "Dialect", ""), ("typedef", "Types", "typedefs-"), ("attrdef", "Attributes", "attrdefs-")) for g, e in (("decls", "hpp"), ("defs", "cpp"))]
TG += [(["-gen-rewriters"], D + "ONNX/Transforms/%s.td" % n, D + "ONNX/Transforms/ONNX%s.inc" % n) for n in ("ConstProp", "ConvOpt", "Decompose")]
def _tdkey(): # all .td files and the tool's own version decide the generated files
    h = hashlib.sha1()
    for f in sorted(glob.glob(REPO + "/src/**/*.td", recursive=True) + glob.glob(REPO + "/src/**/*.td.inc", recursive=True)): h.update(f[len(REPO):].encode() + open(f, "rb").read())
    return h.hexdigest()
def tablegen():
    key = _tdkey(); kf = os.path.join(GEN, ".key")
    if os.path.exists(kf) and open(kf).read() == key and all(os.path.exists(os.path.join(GEN, o)) for _, _, o in TG): return
    def one(j):
        a, i, o = j; o = os.path.join(GEN, o); os.makedirs(os.path.dirname(o), exist_ok=True)
        r = subprocess.run([TBL] + a + ["-I" + REPO, "-I", os.path.dirname(os.path.join(REPO, i)), "-I" + LI, os.path.join(REPO, i), "--write-if-changed", "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise BuildError("mlir-tblgen %s\n%s" % (i, r.stdout.decode(errors="replace")[-4000:]))
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, TG))
    open(kf, "w").write(key)
DIRS = ["src/Accelerators", "src/Builder", "src/Conversion/KrnlSeqToMemref", "src/Conversion/KrnlToAffine", "src/Conversion/KrnlToLLVM", "src/Conversion/ONNXConversionCommon", "src/Conversion/ONNXToKrnl", "src/Dialect/Krnl", "src/Dialect/Mlir", "src/Dialect/ONNX", "src/Interface", "src/Pass", "src/Support", "src/Transform"]
SKIP = ("src/Accelerators/NNPA", "src/Builder/Verify")
EXTRA = ["src/Compiler/" + f for f in ("CompilerPasses.cpp", "CompilerOptions.cpp", "CompilerDialects.cpp", "CompilerUtils.cpp", "HeapReporter.cpp", "DisposableGarbageCollector.cpp", "CommandUtils.cpp", "Command.cpp", "OptionUtils.cpp", "JsonConfigObject.cpp")]
RTC = ["src/Runtime/" + f for f in ("OMExternalConstant.c", "OMIndexLookup.c", "OMInstrument.c", "OMRandomNormal.c", "OMRandomUniform.c", "OMResize.c", "OMSort.c", "OMTopK.c", "OMUnique.c", "OMTensor.c", "OMTensorList.c", "OnnxDataType.c")]
FLAGS = ["-std=c++17", "-O0", "-w", "-fPIC", "-fno-rtti", "-DONNX_ML=1", "-DONNX_NAMESPACE=onnx", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-I" + OV, "-I" + VERIF + "/harness/stubs", "-I" + LI, "-I" + REPO, "-I" + GEN, "-I" + REPO + "/include"]
def sources():
    r = []
    for d in DIRS:
        for f in sorted(glob.glob(os.path.join(REPO, d, "**/*.cpp"), recursive=True)):
            f = f[len(REPO) + 1:]
            if not f.startswith(SKIP): r.append(f)
    return r + [f for f in EXTRA if os.path.exists(os.path.join(REPO, f))] + ["src/Support/SmallFPConversion.c"] + RTC
PCH = ("mlir/Conversion/LLVMCommon/Pattern.h", "mlir/Dialect/Affine/IR/AffineOps.h", "mlir/Dialect/Arith/IR/Arith.h", "mlir/Dialect/Func/IR/FuncOps.h", "mlir/Dialect/LLVMIR/LLVMDialect.h", "mlir/Dialect/Math/IR/Math.h", "mlir/Dialect/MemRef/IR/MemRef.h", "mlir/Dialect/SCF/IR/SCF.h", "mlir/Dialect/Vector/IR/VectorOps.h", "mlir/IR/BuiltinAttributes.h", "mlir/IR/PatternMatch.h", "mlir/Pass/Pass.h", "mlir/Transforms/DialectConversion.h", "src/Dialect/ONNX/ONNXOps.hpp")
def _sum(files):
    h = hashlib.sha1()
    for f in files: h.update(f.encode() + (open(f, "rb").read() if os.path.exists(f) else b"-"))
    return h.hexdigest()
def pch():
    "one precompiled header for what nearly every file includes; rebuilt when any file it was made from has another content"
    hp, out, kf = OM + "/omv.hpp", OM + "/omv.pch", OM + "/omv.pch.key"
    _w(hp, "".join('#include "%s"\n' % h for h in PCH))
    if os.path.exists(out) and os.path.exists(kf):
        k, *files = open(kf).read().split("\n")
        if _sum(files) == k: return out
    r = subprocess.run(["/usr/bin/clang++"] + FLAGS + ["-Xclang", "-fno-pch-timestamp", "-x", "c++-header", hp, "-o", out, "-MD", "-MF", OM + "/omv.d"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=OM)
    if r.returncode: raise BuildError("precompiled header\n" + r.stdout.decode(errors="replace")[-6000:])
    files = sorted({os.path.join(OM, f) for f in open(OM + "/omv.d").read().replace("\\\n", " ").split(":", 1)[1].split()})
    open(kf, "w").write("\n".join([_sum(files)] + files)); return out
def build(name="omc", harness=("@harness/omserver.cpp", "@harness/omstubs.cpp"), jobs=8, keep_going=False):
    os.makedirs(OM, exist_ok=True)
    with open(os.path.join(OM, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        overlay(); tablegen(); ph = pch(); objs = []; todo = []; bad = []
        for s in list(harness) + sources():
            path = os.path.join(VERIF, s[1:]) if s.startswith("@") else os.path.join(REPO, s)
            o = os.path.join(OM, "obj", s.strip("@").replace("/", "_") + ".o"); objs.append(o)
            if s.endswith(".c"): todo.append((path, o, ["/usr/bin/gcc", "-O1", "-fPIC", "-w", "-I" + REPO, "-I" + REPO + "/include"], s))
            else: todo.append((path, o, ["/usr/bin/clang++"] + FLAGS + ["-include-pch", ph], s))
        os.makedirs(OM + "/obj", exist_ok=True); tm = []
        def one(j):
            t0 = __import__("time").time()
            r = subprocess.run(["ccache"] + j[2] + ["-c", j[0], "-o", j[1]], env=dict(ENV, CCACHE_SLOPPINESS="pch_defines,time_macros"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=OM); tm.append((__import__("time").time() - t0, j[3]))
            if r.returncode:
                bad.append((j[3], r.stdout.decode(errors="replace")))
                if keep_going: print("==== FAILED", j[3]); print("\n".join(l[:300] for l in bad[-1][1].split("\n") if "error:" in l or l.startswith("  ") and "|" in l)[:1500], flush=True)
        with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, todo))
        if keep_going: print(sorted(tm)[-25:])
        if bad:
            if keep_going: return bad
            raise BuildError("%d files do not compile: %s\n%s" % (len(bad), [b[0] for b in bad], bad[0][1][-6000:]))
        exe = os.path.join(OM, name)
        r = subprocess.run(["/usr/bin/clang++", "-fuse-ld=lld", "-rdynamic"] + objs + ["-o", exe + ".tmp", "-L/usr/lib/llvm-20/lib", "-lMLIR", "-lLLVM-20", "-Wl,-rpath,/usr/lib/llvm-20/lib", "-lonnx", "-lonnx_proto", "-lprotobuf", "-lpthread", "-ldl", "-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise BuildError(r.stdout.decode(errors="replace")[-8000:])
        os.replace(exe + ".tmp", exe); return exe
if __name__ == "__main__":
    import sys, time; t = time.time(); r = build(jobs=int(sys.argv[1]) if len(sys.argv) > 1 else 8, keep_going=True)
    if isinstance(r, list):
        print(len(r), "failed")
    print(r if isinstance(r, str) else "", "%.0f s" % (time.time() - t))
