// A server around the real compiler: importer, passes and lowering of /repo, then the generated LLVM IR runs in-process (ORC).
// One request = one forked child, so that whatever the compiler or the generated code does (assertion, segfault, endless loop) is an
// answer and not the end of the exploration.  The generated code's malloc/free are guarded: a block ends at an unmapped page, freed
// blocks stay unmapped, and blocks still live after the outputs are accounted for are reported.
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
#include <errno.h>
#include <map>
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/AsmState.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/Target/LLVMIR/Dialect/Builtin/BuiltinToLLVMIRTranslation.h"
#include "mlir/Target/LLVMIR/Dialect/LLVMIR/LLVMToLLVMIRTranslation.h"
#include "mlir/Target/LLVMIR/Export.h"
#include "llvm/ExecutionEngine/Orc/LLJIT.h"
#include "llvm/ExecutionEngine/Orc/ThreadSafeModule.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/TargetSelect.h"
#include "onnx-mlir/Compiler/OMCompilerTypes.h"
#include "include/OnnxMlirRuntime.h"
#include "src/Compiler/CompilerOptions.hpp"
#include "src/Compiler/CompilerUtils.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp"
#include "src/Dialect/ONNX/ONNXDialect.hpp"
#include "src/Dialect/ONNX/ONNXOps.hpp"
using namespace onnx_mlir;
namespace json = llvm::json;
static char *stageMem; // shared with the parent: what the child is doing
static void stage(const char *s) { strncpy(stageMem, s, 200); }
// ---------------------------------------------------------------- guarded heap of the generated code
struct Blk { void *base; size_t len; bool live; };
static std::map<uintptr_t, Blk> *heap;
static long liveCount; static const size_t PG = 4096;
static void *guarded(size_t n, size_t align = 16) {
  size_t body = (n + align - 1) / align * align; size_t pages = (body + PG - 1) / PG * PG; if (!pages) pages = PG;
  char *p = (char *)mmap(nullptr, pages + PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED || mprotect(p, pages, PROT_READ | PROT_WRITE)) { errno = ENOMEM; return nullptr; }
  memset(p, 0xA5, pages);
  char *u = p + pages - body; (*heap)[(uintptr_t)u] = {p, pages + PG, true}; return u;
}
extern "C" void *omvMalloc(size_t n) { if (n > ((size_t)1 << 31)) { fprintf(stderr, "OMV: malloc(%zu)\n", n); return nullptr; } void *p = guarded(n); if (p) liveCount++; return p; }
extern "C" void *omvAligned(size_t a, size_t n) { void *p = guarded(n, a < 16 ? 16 : a); if (p) liveCount++; return p; }
extern "C" void omvFree(void *p) {
  if (!p) return;
  auto it = heap->find((uintptr_t)p);
  if (it == heap->end()) { fprintf(stderr, "OMV: free of a pointer that was never allocated\n"); fflush(stderr); abort(); }
  if (!it->second.live) { fprintf(stderr, "OMV: double free\n"); fflush(stderr); abort(); }
  it->second.live = false; liveCount--; mprotect(it->second.base, it->second.len, PROT_NONE);
}
// ---------------------------------------------------------------- wire format
static bool readN(int fd, void *p, size_t n) { char *c = (char *)p; while (n) { ssize_t r = read(fd, c, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; } c += r; n -= r; } return true; }
static bool writeN(int fd, const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t r = write(fd, c, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; } c += r; n -= r; } return true; }
static bool sendMsg(int fd, const std::string &js, const std::string &bin) { uint64_t h[2] = {js.size(), bin.size()}; return writeN(fd, h, 16) && writeN(fd, js.data(), js.size()) && writeN(fd, bin.data(), bin.size()); }
static std::string show(json::Value v) { std::string s; llvm::raw_string_ostream o(s); o << v; return o.str(); }
static std::string utf8(llvm::StringRef s) { return json::isUTF8(s) ? s.str() : json::fixUTF8(s); }
// ---------------------------------------------------------------- dump of the imported module
struct Dumper {
  std::map<void *, int64_t> ids; int64_t next = 0;
  int64_t id(mlir::Value v) { auto it = ids.find(v.getAsOpaquePointer()); if (it != ids.end()) return it->second; return ids[v.getAsOpaquePointer()] = next++; }
  std::string ty(mlir::Type t) { std::string s; llvm::raw_string_ostream o(s); t.print(o); return o.str(); }
  static json::Value elements(mlir::ElementsAttr a) {
    json::Array vals; mlir::Type et = a.getElementType(); int64_t n = a.getNumElements();
    if (n <= 4096) {
      if (llvm::isa<mlir::FloatType>(et)) { for (llvm::APFloat f : a.getValues<llvm::APFloat>()) { llvm::SmallString<40> s; f.bitcastToAPInt().toString(s, 16, false); vals.push_back(std::string(s)); } }
      else if (llvm::isa<mlir::IntegerType>(et)) { for (llvm::APInt i : a.getValues<llvm::APInt>()) { llvm::SmallString<40> s; i.toString(s, 16, false); vals.push_back(std::string(s)); } }
      else if (llvm::isa<mlir::ONNXStringType>(et)) { for (llvm::StringRef s : a.getValues<llvm::StringRef>()) vals.push_back(utf8(s)); }
    }
    std::string s; llvm::raw_string_ostream o(s); a.getShapedType().print(o);
    return json::Object{{"k", "t"}, {"ty", o.str()}, {"v", std::move(vals)}};
  }
  json::Value attr(mlir::Attribute a) {
    if (auto e = llvm::dyn_cast<mlir::ElementsAttr>(a)) return elements(e);
    if (auto i = llvm::dyn_cast<mlir::IntegerAttr>(a)) return json::Object{{"k", "i"}, {"v", i.getValue().getSExtValue()}, {"ty", ty(i.getType())}};
    if (auto f = llvm::dyn_cast<mlir::FloatAttr>(a)) { llvm::SmallString<40> s; f.getValue().bitcastToAPInt().toString(s, 16, false); return json::Object{{"k", "f"}, {"v", std::string(s)}}; }
    if (auto s = llvm::dyn_cast<mlir::StringAttr>(a)) return json::Object{{"k", "s"}, {"v", utf8(s.getValue())}};
    if (auto arr = llvm::dyn_cast<mlir::ArrayAttr>(a)) { json::Array r; for (auto x : arr) r.push_back(attr(x)); return json::Object{{"k", "a"}, {"v", std::move(r)}}; }
    if (auto t = llvm::dyn_cast<mlir::TypeAttr>(a)) return json::Object{{"k", "ty"}, {"v", ty(t.getValue())}};
    std::string s; llvm::raw_string_ostream o(s); a.print(o); return json::Object{{"k", "?"}, {"v", utf8(o.str())}};
  }
  json::Value op(mlir::Operation &o) {
    json::Array in, out, regs; json::Object at;
    for (auto v : o.getOperands()) in.push_back(id(v));
    for (auto v : o.getResults()) out.push_back(json::Array{id(v), ty(v.getType())});
    for (auto &n : o.getAttrs()) at[n.getName().str()] = attr(n.getValue());
    for (auto &r : o.getRegions()) { json::Array blocks; for (auto &b : r) { json::Array args, ops; for (auto a : b.getArguments()) args.push_back(json::Array{id(a), ty(a.getType())}); for (auto &x : b) ops.push_back(op(x)); blocks.push_back(json::Object{{"args", std::move(args)}, {"ops", std::move(ops)}}); } regs.push_back(std::move(blocks)); }
    return json::Object{{"op", o.getName().getStringRef()}, {"in", std::move(in)}, {"out", std::move(out)}, {"at", std::move(at)}, {"rg", std::move(regs)}};
  }
};
// ---------------------------------------------------------------- one request
static uint64_t esize(int64_t t) { static const uint64_t s[] = {0, 4, 1, 1, 2, 2, 4, 8, 8, 1, 2, 8, 4, 8, 8, 16, 2, 1, 1, 1, 1}; return t > 0 && t < 21 ? s[t] : 0; }
static int emitRes(int fd, json::Object o, const std::string &bin = "") { sendMsg(fd, show(json::Value(std::move(o))), bin); return 0; }
static int serve(mlir::MLIRContext &ctx, int fd, const json::Object &rq, const std::string &bin) {
  stage("import"); std::string err; mlir::OwningOpRef<mlir::ModuleOp> mod;
  size_t msz = rq.getInteger("model").value_or(0); auto mode = rq.getString("mode").value_or("run").str(); int rc;
  if (mode == "driver") return 0;
  if (auto path = rq.getString("path")) rc = processInputFile(*path, ctx, mod, &err);
  else { rc = processInputArray(bin.data(), (int)msz, ctx, mod, &err); }
  if (rc) return emitRes(fd, json::Object{{"stage", "import"}, {"rc", rc}, {"err", utf8(err)}});
  if (!mod) return emitRes(fd, json::Object{{"stage", "import"}, {"rc", -1}, {"err", "success without a module: " + utf8(err)}});
  if (mode == "import" || mode == "onnxir") {
    if (mode == "onnxir") { stage("compile"); if ((rc = compileModule(mod, ctx, "omvscratch", EmitONNXIR))) return emitRes(fd, json::Object{{"stage", "compile"}, {"rc", rc}}); }
    stage("dump"); Dumper d; return emitRes(fd, json::Object{{"stage", "ok"}, {"module", d.op(*mod->getOperation())}});
  }
  stage("compile");
  if ((rc = compileModule(mod, ctx, "omvscratch", EmitLLVMIR))) return emitRes(fd, json::Object{{"stage", "compile"}, {"rc", rc}});
  stage("translate");
  mlir::registerBuiltinDialectTranslation(ctx); mlir::registerLLVMDialectTranslation(ctx);
  auto lctx = std::make_unique<llvm::LLVMContext>(); auto lm = mlir::translateModuleToLLVMIR(*mod, *lctx);
  if (!lm) return emitRes(fd, json::Object{{"stage", "translate"}, {"rc", -1}});
  stage("jit");
  auto fail = [&](llvm::Error e) { return emitRes(fd, json::Object{{"stage", "jit"}, {"rc", -1}, {"err", utf8(llvm::toString(std::move(e)))}}); };
  auto jtmb = llvm::orc::JITTargetMachineBuilder::detectHost(); if (!jtmb) return fail(jtmb.takeError());
  jtmb->setCodeGenOptLevel(llvm::CodeGenOptLevel::None);
  auto jit = llvm::orc::LLJITBuilder().setJITTargetMachineBuilder(std::move(*jtmb)).create(); if (!jit) return fail(jit.takeError());
  lm->setDataLayout((*jit)->getDataLayout());
  auto &jd = (*jit)->getMainJITDylib(); llvm::orc::SymbolMap sm; auto def = [&](const char *n, void *p) { sm[(*jit)->mangleAndIntern(n)] = {llvm::orc::ExecutorAddr::fromPtr(p), llvm::JITSymbolFlags::Exported | llvm::JITSymbolFlags::Callable}; };
  def("malloc", (void *)omvMalloc); def("free", (void *)omvFree); def("aligned_alloc", (void *)omvAligned);
  if (auto e = jd.define(llvm::orc::absoluteSymbols(sm))) return fail(std::move(e));
  auto gen = llvm::orc::DynamicLibrarySearchGenerator::GetForCurrentProcess((*jit)->getDataLayout().getGlobalPrefix()); if (!gen) return fail(gen.takeError());
  jd.addGenerator(std::move(*gen));
  if (auto e = (*jit)->addIRModule(llvm::orc::ThreadSafeModule(std::move(lm), std::move(lctx)))) return fail(std::move(e));
  if (auto e = (*jit)->initialize(jd)) return fail(std::move(e));
  auto sym = (*jit)->lookup("run_main_graph"); if (!sym) return fail(sym.takeError());
  auto osig = (*jit)->lookup("omOutputSignature"); if (!osig) return fail(osig.takeError());
  auto isig = (*jit)->lookup("omInputSignature"); if (!isig) return fail(isig.takeError());
  auto run = sym->toPtr<OMTensorList *(*)(OMTensorList *)>(); auto os = osig->toPtr<const char *(*)(const char *)>()("run_main_graph"), is = isig->toPtr<const char *(*)(const char *)>()("run_main_graph");
  json::Array results; std::string out; size_t off = msz; const json::Array *runs = rq.getArray("runs"); int ri = 0;
  if (runs) for (auto &rv : *runs) {
    char nm[64]; snprintf(nm, sizeof nm, "run %d", ri++); stage(nm);
    const json::Array &ins = *rv.getAsArray(); std::vector<OMTensor *> ts; std::vector<std::pair<char *, std::string>> keep;
    for (auto &iv : ins) {
      const json::Object &io = *iv.getAsObject(); int64_t t = *io.getInteger("t"); std::vector<int64_t> sh; uint64_t n = 1; for (auto &d : *io.getArray("s")) { sh.push_back(*d.getAsInteger()); n *= sh.back(); }
      uint64_t bytes = n * esize(t); char *u = (char *)guarded(bytes, 1); memcpy(u, bin.data() + off, bytes); off += bytes; keep.push_back({u, std::string(u, bytes)});
      ts.push_back(omTensorCreate(u, sh.data(), sh.size(), (OM_DATA_TYPE)t));
    }
    long live0 = liveCount; errno = 0;
    OMTensorList *in = omTensorListCreate(ts.data(), ts.size()), *o = run(in); int e = errno;
    json::Object ro; ro["errno"] = e; ro["null"] = o == nullptr;
    bool touched = false; for (auto &k : keep) if (memcmp(k.first, k.second.data(), k.second.size())) touched = true;
    ro["touched"] = touched;
    json::Array outs; std::map<void *, int> distinct;
    if (o) for (int64_t i = 0; i < omTensorListGetSize(o); i++) {
      OMTensor *t = omTensorListGetOmtByIndex(o, i); int64_t rk = omTensorGetRank(t); const int64_t *sh = omTensorGetShape(t), *st = omTensorGetStrides(t); json::Array s, str; uint64_t n = 1; for (int64_t d = 0; d < rk; d++) { s.push_back(sh[d]); str.push_back(st[d]); n *= sh[d] < 0 ? 0 : sh[d]; }
      int64_t ty = omTensorGetDataType(t); uint64_t es = esize(ty); void *p = omTensorGetDataPtr(t); if (heap->count((uintptr_t)p) || true) distinct[p]++;
      uint64_t bytes = n * es > (1u << 26) ? 0 : n * es;
      outs.push_back(json::Object{{"t", ty}, {"s", std::move(s)}, {"st", std::move(str)}, {"n", (int64_t)bytes}, {"own", (bool)omTensorGetOwning(t)}});
      if (ty == ONNX_TYPE_STRING) { for (uint64_t k = 0; k < n; k++) { const char *c = ((const char **)p)[k]; uint64_t l = strlen(c); out.append((char *)&l, 8); out.append(c, l); } }
      else out.append((char *)p, bytes);
    }
    ro["outs"] = std::move(outs); ro["leak"] = (int64_t)(liveCount - live0); ro["distinct"] = (int64_t)distinct.size();
    results.push_back(std::move(ro));
  }
  stage("done");
  return emitRes(fd, json::Object{{"stage", "ok"}, {"osig", utf8(os ? os : "")}, {"isig", utf8(is ? is : "")}, {"runs", std::move(results)}}, out);
}
int main(int argc, char *argv[]) {
  mlir::registerAsmPrinterCLOptions(); mlir::registerMLIRContextCLOptions(); mlir::registerPassManagerCLOptions();
  removeUnrelatedOptions({&OnnxMlirCommonOptions, &OnnxMlirOptions});
  std::vector<const char *> args(argv, argv + argc); args.push_back("none.onnx");
  if (!llvm::cl::ParseCommandLineOptions(args.size(), args.data(), "omserver", &llvm::errs(), "OMV_NO_ENV")) return 2;
  initCompilerConfig(); doNotEmitFullMLIRCode = true; modelTag = "NONE";
  timingManager.setEnabled(false); rootTimingScope = timingManager.getRootScope();
  llvm::InitializeNativeTarget(); llvm::InitializeNativeTargetAsmPrinter();
  heap = new std::map<uintptr_t, Blk>; stageMem = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int proto = dup(1), in = dup(0); dup2(2, 1); { int n = open("/dev/null", O_RDONLY); dup2(n, 0); close(n); }
  fcntl(proto, F_SETFD, FD_CLOEXEC); signal(SIGPIPE, SIG_IGN);
  mlir::MLIRContext ctx; ctx.disableMultithreading(); loadDialects(ctx);
  for (;;) {
    uint64_t h[2]; if (!readN(in, h, 16)) return 0;
    std::string js(h[0], 0), bin(h[1], 0); if (!readN(in, js.data(), h[0]) || !readN(in, bin.data(), h[1])) return 0;
    auto rq = json::parse(js); if (!rq) { llvm::consumeError(rq.takeError()); return 3; }
    int p[2]; if (pipe(p)) return 4; FILE *ef = tmpfile(); int lim = rq->getAsObject()->getInteger("timeout").value_or(60);
    stage("start"); pid_t pid = fork();
    if (!pid) { close(p[0]); dup2(fileno(ef), 1); dup2(fileno(ef), 2); int r = serve(ctx, p[1], *rq->getAsObject(), bin); fflush(stdout); fflush(stderr); _exit(r); }
    close(p[1]); std::string ans; char buf[65536]; bool late = false; time_t t0 = time(nullptr);
    for (;;) { struct pollfd pf = {p[0], POLLIN, 0}; int k = poll(&pf, 1, 1000); if (k < 0 && errno == EINTR) continue; if (k > 0) { ssize_t r = read(p[0], buf, sizeof buf); if (r <= 0) break; ans.append(buf, r); } if (time(nullptr) - t0 > lim) { late = true; kill(pid, SIGKILL); break; } }
    close(p[0]); int st; waitpid(pid, &st, 0);
    std::string log; { fseek(ef, 0, SEEK_END); long n = ftell(ef), from = n > 6000 ? n - 6000 : 0; fseek(ef, from, SEEK_SET); log.resize(n - from); log.resize(fread(log.data(), 1, n - from, ef)); fclose(ef); }
    bool okAns = ans.size() >= 16 && !late && ans.size() == 16 + ((uint64_t *)ans.data())[0] + ((uint64_t *)ans.data())[1];
    if (okAns) { auto v = json::parse(llvm::StringRef(ans).substr(16, ((uint64_t *)ans.data())[0])); if (!v) return 5; (*v->getAsObject())["log"] = utf8(log); if (!sendMsg(proto, show(std::move(*v)), ans.substr(16 + ((uint64_t *)ans.data())[0]))) return 0; }
    else { json::Object o{{"stage", late ? "timeout" : "crash"}, {"at", utf8(stageMem)}, {"sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0}, {"exit", WIFEXITED(st) ? WEXITSTATUS(st) : 0}, {"log", utf8(log)}}; if (!sendMsg(proto, show(json::Value(std::move(o))), "")) return 0; }
  }
}
