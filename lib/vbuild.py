"""Compiles harnesses of /verif together with the CURRENT sources of /repo (content-addressed via ccache)."""
import os, subprocess, hashlib, shutil, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
ENV = dict(os.environ, CCACHE_DIR=os.path.join(VERIF, ".cache", "ccache"), CCACHE_MAXSIZE="12G", CCACHE_NOHASHDIR="1",
           CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime,time_macros,pch_defines", CCACHE_COMPRESS="1",
           LANG="C.UTF-8", HOME="/root")
HAVE_CCACHE = shutil.which("ccache") is not None
LLVM_INC = "/usr/lib/llvm-20/include"
LLVM_LD = ["-L/usr/lib/llvm-20/lib", "-lMLIR", "-lLLVM-20", "-Wl,-rpath,/usr/lib/llvm-20/lib", "-lpthread"]
INC = ["-I" + REPO, "-I" + REPO + "/include", "-I" + VERIF, "-I" + VERIF + "/lib"]
LLVMDEF = ["-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-isystem", LLVM_INC, "-fno-lifetime-dse"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]

class BuildError(Exception): pass

def compile_one(cc, src, obj, flags):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = (["ccache"] if HAVE_CCACHE else []) + [cc, "-c", src, "-o", obj] + flags
    r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=BUILD)
    if r.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    return obj

def build(name, sources, cflags=(), cxxflags=(), common=("-O1", "-g"), ld=(), per={}, shared=False, linker=None):
    """sources: paths, absolute or relative to /repo ('@x' = relative to /verif). per: {source: extra flags}."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, name); os.makedirs(out, exist_ok=True)
    jobs = []; cxx = False
    for s in sources:
        path = os.path.join(VERIF, s[1:]) if s.startswith("@") else os.path.join(REPO, s) if not s.startswith("/") else s
        isc = path.endswith(".c")
        cxx = cxx or not isc
        fl = list(common) + list(cflags if isc else ["-std=c++17", *cxxflags]) + INC + list(per.get(s, ())) + (["-fPIC"] if shared else []) + ["-w"]
        obj = os.path.join(out, hashlib.sha1(s.encode()).hexdigest()[:6] + "_" + os.path.basename(path) + ".o")
        jobs.append(("gcc" if isc else "g++", path, obj, fl))
    jobs.sort(key=lambda j: j[0])
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(lambda j: compile_one(*j), jobs))
    exe = os.path.join(out, name + (".so" if shared else ""))
    cmd = [linker or ("g++" if cxx else "gcc")] + [c for c in common if c.startswith("-f")] + (["-shared"] if shared else []) + objs + ["-o", exe] + list(ld)
    r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    return exe
