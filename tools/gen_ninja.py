#!/usr/bin/env python3
"""Write build/build.ninja: /repo's library sources, instrumented, plus the simulator and its scenarios."""
import os, sys, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = sys.argv[1] if len(sys.argv) > 1 else os.path.join(ROOT, "build")
DIRS = ["api", "backend", "board", "compiler", "core", "encryption", "engine", "frontend", "global", "memory", "module",
        "runtime", "utils", "kernels/common", "kernels/cpu"]
DEFS = ["BUILDING_TENNIS", "TS_DISABLE_PARALLEL", 'TS_SOLUTION_DIR=\\"%s\\"' % REPO, "TS_USE_AVX", "TS_USE_DEBUG_API", "TS_USE_FMA",
        "TS_USE_HOOK", "TS_USE_OPENCV", "TS_USE_OPENMP", "TS_USE_PROFILER", "TS_USE_SIMD", "NDEBUG", "TS_VERIF_SIM"]
def main():
    os.makedirs(OUT, exist_ok=True)
    src = []
    for d in DIRS:
        for r, _, fs in os.walk(os.path.join(REPO, "src", d)):
            src += [os.path.join(r, f) for f in fs if f.endswith((".cpp", ".c"))]
    # the biggest translation units first, so that the tail of the build is short
    src.sort(key=lambda p: (-os.path.getsize(p), p))
    heavy = ["math_cpu.cpp", "symbols", "setup", "transposev2", "conv2d", "gemm"]
    defs = " ".join("-D" + d for d in DEFS)
    inc = "-I%s/include -I%s/src -isystem /usr/include/opencv4" % (REPO, REPO)
    common = "-w -O1 -g1 -fopenmp -mavx -mavx2 -mfma -fsanitize=thread -fno-pie -fno-omit-frame-pointer"
    o = []
    o.append("builddir = %s" % OUT)
    o.append("rule cxx\n  command = g++ -std=c++11 %s %s %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % (common, defs, inc))
    o.append("rule cc\n  command = gcc -std=c99 -D_GNU_SOURCE %s %s %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % (common, defs, inc))
    o.append("rule scn\n  command = g++ -std=c++14 -fno-access-control %s %s %s -I%s/sim -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % (common, defs, inc, ROOT))
    o.append("rule rt\n  command = g++ -std=c++17 -O2 -g -Wall -fno-pie -fno-builtin -fno-threadsafe-statics -I%s/sim -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % ROOT)
    o.append("rule link\n  command = g++ -no-pie -rdynamic -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp -o $out @$out.rsp -ldl -lpthread\n  rspfile = $out.rsp\n  rspfile_content = $in")
    objs = []
    scn = sorted(glob.glob(os.path.join(ROOT, "sim", "s_*.cpp")))
    for s in scn:
        ob = os.path.join(OUT, "scn_" + os.path.basename(s)[:-4] + ".o")
        o.append("build %s: scn %s" % (ob, s)); objs.append(ob)
    for s in src:
        ob = os.path.join(OUT, "o", os.path.relpath(s, os.path.join(REPO, "src")).replace("/", "_") + ".o")
        o.append("build %s: %s %s" % (ob, "cxx" if s.endswith(".cpp") else "cc", s)); objs.append(ob)
    for s in ("rt", "main"):
        ob = os.path.join(OUT, s + ".o")
        o.append("build %s: rt %s" % (ob, os.path.join(ROOT, "sim", s + ".cpp"))); objs.append(ob)
    o.append("build %s: link %s" % (os.path.join(OUT, "harness"), " ".join(objs)))
    txt = "\n".join(o) + "\n"
    p = os.path.join(OUT, "build.ninja")
    if not os.path.exists(p) or open(p).read() != txt: open(p, "w").write(txt)
main()
