"""Builds variants of the library straight from /repo's working tree, plus the
harness, outside /repo.  Nothing in /repo is touched."""
import os, re, glob, subprocess, sys, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
MKL = "/opt/vp/venv"

SAN_AU = ["-fsanitize=address,undefined", "-fno-sanitize=float-divide-by-zero,float-cast-overflow",
          "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

BASE_DEFS_MKL = {"IS_LINUX": 1, "OSQP_ALGEBRA_MKL": 1, "OSQP_ENABLE_PRINTING": 1,
                 "OSQP_ENABLE_PROFILING": 1, "OSQP_ENABLE_INTERRUPT": 1, "OSQP_USE_LONG": 1}
BASE_DEFS_BLT = {"IS_LINUX": 1, "OSQP_ALGEBRA_BUILTIN": 1, "OSQP_ENABLE_PRINTING": 1,
                 "OSQP_ENABLE_PROFILING": 1, "OSQP_ENABLE_INTERRUPT": 1, "OSQP_USE_LONG": 1,
                 "OSQP_CODEGEN": 1, "OSQP_ENABLE_DERIVATIVES": 1}

def V(algebra, cc="gcc", cflags=("-O2", "-g"), defs=(), vfdefs=(), undef=(), extra_src=()):
    d = dict(BASE_DEFS_MKL if algebra == "mkl" else BASE_DEFS_BLT)
    d.update(dict(defs))
    for u in undef:
        d.pop(u, None)
    return dict(algebra=algebra, cc=cc, cxx={"gcc": "g++", "clang": "clang++"}[cc],
                cflags=list(cflags), defs=d, vfdefs=list(vfdefs), extra_src=list(extra_src))

CM = ("OSQP_CUSTOM_MEMORY", '"vf_memory.h"')
VARIANTS = {
    # exactly the configuration /opt/vp/build.sh builds
    "mkl":       V("mkl"),
    # every allocation goes through the tracking allocator, ASan+UBSan
    "mkl_asan":  V("mkl", cflags=["-O1", "-g"] + SAN_AU, defs=[CM], vfdefs=["-DVF_TRACK=1"]),
    # stock allocation macros (malloc), ASan+UBSan
    "mkl_tsan":  V("mkl", cflags=["-O1", "-g", "-fsanitize=thread"]),
    "blt":       V("builtin"),
    "blt_asan":  V("builtin", cflags=["-O1", "-g"] + SAN_AU, defs=[CM], vfdefs=["-DVF_TRACK=1"]),
    "blt_msan":  V("builtin", cc="clang", cflags=["-O1", "-g", "-fsanitize=memory", "-fsanitize-memory-track-origins",
                                                  "-fno-omit-frame-pointer"], defs=[CM], vfdefs=["-DVF_TRACK=1"]),   # the allocator poisons library blocks only
    "blt_tsan":  V("builtin", cflags=["-O1", "-g", "-fsanitize=thread"]),
    "blt_i32":   V("builtin", undef=["OSQP_USE_LONG"]),
    "blt_f32":   V("builtin", defs=[("OSQP_USE_FLOAT", 1)]),
    "mkl_noprof": V("mkl", undef=["OSQP_ENABLE_PROFILING", "OSQP_ENABLE_PRINTING", "OSQP_ENABLE_INTERRUPT"]),
    "mkl_trk":   V("mkl", defs=[CM], vfdefs=["-DVF_TRACK=1"]),
    "blt_trk":   V("builtin", defs=[CM], vfdefs=["-DVF_TRACK=1"]),
    "mkl_clk":   V("mkl", defs=[CM], vfdefs=["-DVF_TRACK=1", "-DVF_CLOCK=1"]),
    "blt_clk":   V("builtin", defs=[CM], vfdefs=["-DVF_TRACK=1", "-DVF_CLOCK=1"]),
    "mkl_ann":   V("mkl", defs=[("OSQP_PROFILER_ANNOTATIONS", 1), CM], vfdefs=["-DVF_ANN=1", "-DVF_TRACK=1"]),
    "blt_ann":   V("builtin", defs=[("OSQP_PROFILER_ANNOTATIONS", 1), CM], vfdefs=["-DVF_ANN=1", "-DVF_TRACK=1"]),
}

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception):
    pass

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)

def gen_configure(variant, out):
    src = open(os.path.join(REPO, "configure/osqp_configure.h.in")).read()
    defs = variant["defs"]
    def sub(m):
        name, rest = m.group(1), m.group(2)
        if name in defs:
            v = defs[name]
            if rest.strip() == "":
                return "#define %s" % name
            return "#define %s %s" % (name, v)
        return "/* #undef %s */" % name
    text = re.sub(r"^#cmakedefine[ \t]+(\w+)(.*)$", sub, src, flags=re.M)
    write_if_changed(out, text)

NOT_LINUX = {"interrupt_windows.c", "timing_macos.c", "timing_windows.c"}

def lib_sources(variant):
    d = variant["defs"]
    srcs = []
    for f in sorted(glob.glob(os.path.join(REPO, "src/*.c"))):
        b = os.path.basename(f)
        if b in NOT_LINUX or b.startswith("profilers"):
            continue
        if b == "codegen.c" and "OSQP_CODEGEN" not in d: continue
        if b == "derivative.c" and "OSQP_ENABLE_DERIVATIVES" not in d: continue
        if b == "interrupt_unix.c" and "OSQP_ENABLE_INTERRUPT" not in d: continue
        if b == "timing_linux.c" and "OSQP_ENABLE_PROFILING" not in d: continue
        srcs.append(f)
    if "OSQP_PROFILER_ANNOTATIONS" in d:
        srcs.append(os.path.join(REPO, "src/profilers.c"))
    common = sorted(glob.glob(os.path.join(REPO, "algebra/_common/*.c")))
    if variant["algebra"] == "mkl":
        srcs += common
        srcs += sorted(glob.glob(os.path.join(REPO, "algebra/mkl/*.c")))
        srcs += sorted(glob.glob(os.path.join(REPO, "algebra/mkl/lin_sys/*/*.c")))
    else:
        srcs += [c for c in common if os.path.basename(c) != "reduced_kkt.c"]
        srcs += sorted(glob.glob(os.path.join(REPO, "algebra/builtin/*.c")))
        srcs += sorted(glob.glob(os.path.join(REPO, "algebra/_common/lin_sys/qdldl/*.c")))
        srcs += sorted(glob.glob(os.path.join(REPO, "algebra/_common/lin_sys/qdldl/amd/src/*.c")))
        srcs += [os.path.join(VERIF, "shim/qdldl/qdldl.c")]
    return srcs

def includes(variant, cfgdir):
    inc = [cfgdir, os.path.join(REPO, "include/public"), os.path.join(REPO, "include/private"),
           os.path.join(REPO, "algebra/_common"), os.path.join(VERIF, "harness")]
    if variant["algebra"] == "mkl":
        inc += [os.path.join(REPO, p) for p in ("algebra/mkl", "algebra/mkl/lin_sys/direct", "algebra/mkl/lin_sys/indirect")]
    else:
        inc += [os.path.join(REPO, p) for p in ("algebra/builtin", "algebra/_common/lin_sys/qdldl",
                "algebra/_common/lin_sys/qdldl/amd/include")] + [os.path.join(VERIF, "shim/qdldl")]
    out = []
    for i in inc:
        out += ["-I", i]
    if variant["algebra"] == "mkl":
        out += ["-isystem", os.path.join(MKL, "include"), "-DMKL_ILP64", "-DMKL_LINK_SDL=1", "-m64"]
    return out

def build(name, harness_srcs, exe="vf", lib_only_defs=(), pool=None, extra_link=()):
    """Compile the library variant and the harness sources, return path of executable."""
    v = VARIANTS[name]
    bdir = os.path.join(BUILD, name)
    cfgdir = os.path.join(bdir, "cfg")
    os.makedirs(bdir, exist_ok=True)
    gen_configure(v, os.path.join(cfgdir, "osqp_configure.h"))
    inc = includes(v, cfgdir)
    jobs, objs = [], []
    hstate = hashlib.sha1()
    for h in sorted(glob.glob(os.path.join(VERIF, "harness/*.h")) + glob.glob(os.path.join(REPO, "include/*/*.h"))
                    + glob.glob(os.path.join(REPO, "algebra/**/*.h"), recursive=True)
                    + glob.glob(os.path.join(VERIF, "shim/**/*.h"), recursive=True) + [os.path.join(cfgdir, "osqp_configure.h")]):
        hstate.update(open(h, "rb").read())
    hsig = hstate.hexdigest()
    def add(src, is_lib):
        ext = os.path.splitext(src)[1]
        cc = v["cc"] if ext == ".c" else v["cxx"]
        flags = list(v["cflags"]) + v["vfdefs"] + ["-fPIC", "-w"] + (["-DVF_MKL=1"] if v["algebra"] == "mkl" else [])
        if is_lib:
            flags += ["-DNDEBUG"]
            flags += ["-include", os.path.join(VERIF, "harness/vf_libshim.h")] if "-DVF_TRACK=1" in v["vfdefs"] else []
            flags += list(lib_only_defs)
        if not is_lib and "-fsanitize=memory" in flags:      # libstdc++ is not instrumented: harness code stores count as initialised
            flags += ["-fsanitize-ignorelist=" + os.path.join(VERIF, "harness/msan_ignore.txt")]
        if ext != ".c":
            flags += ["-std=c++17"]
        cmd = [cc] + flags + inc + ["-c", src]
        key = hashlib.sha1((" ".join(cmd) + hsig).encode() + open(src, "rb").read()).hexdigest()[:20]
        obj = os.path.join(bdir, os.path.basename(src) + "." + key + ".o")
        objs.append(obj)
        if not os.path.exists(obj):
            jobs.append((cmd + ["-o", obj + ".tmp%d" % os.getpid()], obj))
    for s in lib_sources(v): add(s, True)
    hs = list(harness_srcs)
    if "-DVF_TRACK=1" in v["vfdefs"] and "vf_memory.cpp" not in hs: hs.append("vf_memory.cpp")
    for s in hs: add(os.path.join(VERIF, "harness", s), False)
    def go(job):
        r = run(job[0])
        if r.returncode != 0:
            return "%s\n%s" % (" ".join(job[0]), r.stdout[-4000:])
        os.replace(job[0][-1], job[1])
        return None
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(go, jobs) if e]
    if errs:
        raise BuildError(errs[0])
    out = os.path.join(bdir, exe)
    sig = hashlib.sha1(" ".join(objs).encode()).hexdigest()[:20]
    final = out + "." + sig
    if not os.path.exists(final):
        link = [v["cxx"]] + v["cflags"] + objs + ["-o", final + ".tmp%d" % os.getpid()]
        if v["algebra"] == "mkl":
            link += ["-L" + MKL + "/lib", "-Wl,-rpath," + MKL + "/lib", os.path.join(MKL, "lib/libmkl_rt.so.2")]
        link += ["-lm", "-lpthread", "-ldl", "-lrt"] + list(extra_link)
        r = run(link)
        if r.returncode != 0:
            raise BuildError(r.stdout[-4000:])
        os.replace(link[link.index("-o") + 1], final)
    return final
