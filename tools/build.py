#!/usr/bin/env python3
"""Builds the simulator binary from /repo's current working tree.

Every call compares what it would compile with what is there (ninja + depfiles);
in a fresh sandbox it is a full build.  Build output lives outside /repo and /verif.
"""
import os, sys, subprocess, glob, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", "/tmp/verif-build-" + hashlib.sha1((VERIF + REPO).encode()).hexdigest()[:8])

DEFS = ["ASIO_STANDALONE", "ASIO_DISABLE_THREAD_KEYWORD_EXTENSION", "ASIO_DISABLE_SMALL_BLOCK_RECYCLING",
        "SPDLOG_COMPILED_LIB", "SPDLOG_FMT_EXTERNAL", "FMT_DEPRECATED_OSTREAM", "MODBUS_SIMULATION"]
INC = [f"{REPO}/lib/include", f"{REPO}/lib/src", f"{VERIF}/shim", f"{VERIF}"]
SUT_FLAGS = ("-std=gnu++14 -O1 -g1 -w -fno-omit-frame-pointer -fno-pie -fno-inline-functions "
             "-fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -pthread ")

def sources():
    lib = sorted(glob.glob(f"{REPO}/lib/src/**/*.cpp", recursive=True))
    scen = sorted(glob.glob(f"{VERIF}/scen/*.cpp"))
    sim = sorted(glob.glob(f"{VERIF}/sim/*.cpp") + glob.glob(f"{VERIF}/harn/*.cpp"))
    return lib, scen, sim

def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    lib, scen, sim = sources()
    common = " ".join(f"-D{d}" for d in DEFS) + " " + " ".join(f"-I{i}" for i in INC)
    out = ["ninja_required_version = 1.5",
           f"rule pch\n command = clang++ {SUT_FLAGS} {common} -x c++-header -MMD -MF $out.d -o $out $in\n depfile = $out.d\n deps = gcc",
           f"rule sut\n command = clang++ {SUT_FLAGS} {common} -include-pch {BUILD}/pch.h.pch -MMD -MF $out.d -c -o $out $in\n depfile = $out.d\n deps = gcc",
           f"rule scen\n command = clang++ {SUT_FLAGS} -fno-access-control {common} -MMD -MF $out.d -c -o $out $in\n depfile = $out.d\n deps = gcc",
           f"rule simc\n command = clang++ -std=c++17 -O2 -g1 -Wall -fno-omit-frame-pointer -fno-pie -pthread -I{VERIF} -MMD -MF $out.d -c -o $out $in\n depfile = $out.d\n deps = gcc",
           "rule link\n command = clang++ -no-pie -rdynamic -pthread -o $out $in -lfmt\n",
           f"build {BUILD}/pch.h.pch: pch {VERIF}/sim/pch.h"]
    objs, sobjs = [], []
    for s in lib + scen:
        base = "lib/" + os.path.relpath(s, REPO + "/lib/src") if s.startswith(REPO) else "scen/" + os.path.basename(s)
        o = f"{BUILD}/obj/{base}.o"
        objs.append(o)
        out.append(f"build {o}: sut {s} | {BUILD}/pch.h.pch" if s.startswith(REPO) else f"build {o}: scen {s}")
    for s in sim:
        o = f"{BUILD}/obj/{os.path.relpath(s, VERIF)}.o"
        sobjs.append(o)
        out.append(f"build {o}: simc {s}")
    out.append(f"build {BUILD}/simbin: link " + " ".join(objs + sobjs))
    out.append(f"default {BUILD}/simbin")
    text = "\n".join(out) + "\n"
    p = f"{BUILD}/build.ninja"
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)
    r = subprocess.run(["ninja", "-C", BUILD, "-f", p] + (["-v"] if verbose else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        import re
        lines = [l for l in r.stdout.splitlines() if not re.match(r"(\[\d+/\d+\] )?clang\+\+ ", l)]
        sys.stderr.write("\n".join(lines)[:6000] + "\n")
        raise SystemExit(3)
    return f"{BUILD}/simbin"

if __name__ == "__main__":
    print(build("-v" in sys.argv))
