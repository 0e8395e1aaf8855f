#!/usr/bin/env python3
"""Builds HiOp's library from /repo's working tree (never from a copy) and the harness of one property.

Variants:  base = the configuration of the repository's own build (MPI, Kron reduction, Eigen, deep checks)
                  against the simulated MPI;
           asan = base + AddressSanitizer;
           sparse = base + HIOP_SPARSE/COINHSL (a dense LAPACK stand-in for MA57) + AXOM (an in-memory Sidre stand-in).
"""
import glob, os, re, subprocess, sys, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

EXCL = re.compile(r"(Cuda|CUDA|Hip|HIP|Raja|Magma|STRUMPACK|PARDISO|ReSolve|CuSparse|Ginkgo|MA86Z|/test_)")
SPARSE_ONLY = ("hiopLinSolverSymSparseMA57.cpp", "hiopKKTLinSysSparse.cpp", "hiopKKTLinSysSparseCondensed.cpp",
               "hiopKKTLinSysSparseNormalEqn.cpp")

def sources(variant):
    out = []
    for d in ("Interface", "Optimization", "LinAlg", "Utils"):
        for f in sorted(glob.glob(f"{REPO}/src/{d}/*.cpp") + glob.glob(f"{REPO}/src/{d}/*.c")):
            b = "/" + os.path.basename(f)
            if EXCL.search(b): continue
            if os.path.basename(f) in SPARSE_ONLY and variant not in ("sparse",): continue
            out.append(f)
    return out

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text: return
    with open(path, "w") as f: f.write(text)

def defs(variant):
    on = ["HIOP_USE_MPI", "HIOP_USE_EIGEN", "HIOP_DEEPCHECKS"]
    if variant == "sparse": on += ["HIOP_SPARSE", "HIOP_USE_COINHSL", "HIOP_USE_AXOM"]
    t = "#ifndef VERIF_HIOP_DEFS\n#define VERIF_HIOP_DEFS\n"
    t += "".join(f"#define {d}\n" for d in on)
    t += '#define HIOP_VERSION "1.1.0"\n#define HIOP_VERSION_MAJOR 1\n#define HIOP_VERSION_MINOR 1\n#define HIOP_VERSION_PATCH 0\n#define HIOP_RELEASE_DATE "verif"\n'
    t += '#include "hiop_types.h"\n#endif\n'
    return t

def build(variant, harness, opt="-O1", extra_src=(), quiet=True):
    """returns the path of the harness executable; raises on a build failure"""
    B = f"{VERIF}/build/{variant}"
    write_if_changed(f"{B}/gen/hiop_defs.hpp", defs(variant))
    write_if_changed(f"{B}/gen/FortranCInterface.hpp",
                     "#define FC_GLOBAL(name,NAME) name##_\n#define FC_GLOBAL_(name,NAME) name##_\n")
    san = "-fsanitize=address -fno-omit-frame-pointer -g1" if variant == "asan" else "-g1"
    # the repository's sources first see the simulated mpi.h and the generated configuration header
    inc = f"-I{B}/gen -I{VERIF}/lib/simmpi -I{VERIF}/lib -I{VERIF}/lib/standins " + " ".join(
        f"-I{REPO}/src/{d}" for d in ("Interface", "ExecBackends", "Optimization", "LinAlg", "Utils", "_Internals")) + \
        " -I/usr/include/eigen3 -I/usr/include/suitesparse"
    cxx = f"{opt} {san} -std=gnu++17 -w -fPIC"
    n = ["cxxflags = " + cxx, "inc = " + inc,
         "rule cxx\n  command = g++ $cxxflags $inc -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
         "rule cc\n  command = gcc %s -w -fPIC $inc -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % (opt + " " + san),
         "rule ar\n  command = rm -f $out && ar rcs $out $in",
         "rule link\n  command = g++ %s -o $out $in -Wl,--start-group -lumfpack -lamd -lcholmod -lcolamd -lsuitesparseconfig -lmetis -llapack -lblas -Wl,--end-group -lm -lpthread" % san]
    objs = []
    for s in sources(variant):
        o = "obj/" + os.path.relpath(s, REPO).replace("/", "_") + ".o"
        n.append(f"build {o}: {'cc' if s.endswith('.c') else 'cxx'} {s}")
        objs.append(o)
    n.append("build libhiop.a: ar " + " ".join(objs))
    lib = [f"{VERIF}/lib/simmpi/simmpi.cpp", f"{VERIF}/lib/mc.cpp"]
    if variant == "sparse": lib += sorted(glob.glob(f"{VERIF}/lib/standins/*.cpp"))
    ho = []
    for s in lib + [f"{VERIF}/harness/{harness}.cpp"] + [f"{VERIF}/harness/{e}" for e in extra_src]:
        o = "vobj/" + os.path.basename(s) + ".o"
        n.append(f"build {o}: cxx {s}"); ho.append(o)
    n.append(f"build bin/{harness}: link {' '.join(ho)} libhiop.a")
    n.append(f"default bin/{harness}")
    nf = f"{B}/build-{harness}.ninja"
    write_if_changed(nf, "\n".join(n) + "\n")
    p = subprocess.run(["ninja", "-C", B, "-f", nf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write("\n".join(l[:300] for l in p.stdout.splitlines() if "error" in l or "undefined" in l)[:4000] + "\n"); raise RuntimeError("build failed")
    return f"{B}/bin/{harness}"

if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2]))
