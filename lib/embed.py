#!/usr/bin/env python3
"""Stage the sources of the embedded library the way the repository's build does for generated code:
the file lists come from the repository's own CMake files, QDLDL from shim/qdldl."""
import os, re, sys, shutil
REPO, VERIF = os.environ.get("VF_REPO", "/repo"), os.environ.get("VF_VERIF", "/verif")

def listed(path, marker):
    t = open(os.path.join(REPO, path)).read()
    out = []
    for m in re.finditer(r"(?:set|list)\(\s*(?:APPEND\s+)?%s\b(.*?)\)\s*\n" % marker, t, re.S):
        out += re.findall(r"[^\s\"]+", m.group(1))
    return out

def main(dst):
    src, inc = os.path.join(dst, "src"), os.path.join(dst, "inc")
    os.makedirs(src); os.makedirs(inc)
    files = [f.replace("${CMAKE_CURRENT_SOURCE_DIR}", REPO + "/src") for f in listed("src/CMakeLists.txt", "EMBEDDED_SRCS")]
    files += [f.replace("${CMAKE_CURRENT_SOURCE_DIR}", REPO + "/algebra/builtin").replace("${OSQP_ALGEBRA_ROOT}", REPO + "/algebra")
               .replace("${qdldl_SOURCE_DIR}/src", VERIF + "/shim/qdldl").replace("${qdldl_SOURCE_DIR}/include", VERIF + "/shim/qdldl")
               .replace("${qdldl_BINARY_DIR}/include", VERIF + "/shim/qdldl") for f in listed("algebra/builtin/CMakeLists.txt", "EMBEDDED_LINALG")]
    for f in listed("include/CMakeLists.txt", "osqp_headers_public") + listed("include/CMakeLists.txt", "osqp_headers_private"):
        f = f.replace("${CMAKE_CURRENT_SOURCE_DIR}", REPO + "/include")
        if "${" not in f and os.path.basename(f) not in ("polish.h", "derivative.h", "interrupt.h"):
            files.append(f)
    for f in files:
        if "${" in f or not f.endswith((".c", ".h")):
            sys.exit("cannot resolve " + f)
        shutil.copy(f, src if f.endswith(".c") else inc)
    shutil.copy(REPO + "/algebra/_common/lin_sys/qdldl/qdldl_codegen_types.h.in", inc + "/qdldl_types.h")

main(sys.argv[1])
