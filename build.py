"""Builds the simulator around the library sources of /repo's working tree, in five variants."""
import fcntl, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(VERIF, "sim")
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")

VARIANTS = {
    "A": "clang C -O0, 64-bit, assertions on, AddressSanitizer, preemption at memory accesses",
    "B": "gcc C -O2, 64-bit, assertions off",
    "C": "g++ (library compiled as C++) -O2, 64-bit, assertions on",
    "D": "gcc C -O2 -m32, 32-bit, assertions on",
    "E": "gcc C -O3, 64-bit, assertions on, portable code paths (no compiler builtins, unknown processor)",
}


class BuildError(Exception):
    pass


def _files(d):
    for root, dirs, names in os.walk(d):
        dirs.sort()
        for n in sorted(names):
            if n.endswith((".c", ".h", ".cpp", ".hpp")):
                yield os.path.join(root, n)


def _digest():
    h = hashlib.sha256()
    for d in (os.path.join(REPO, "tommyds"), SIM):
        for f in _files(d):
            h.update(os.path.relpath(f, d).encode() + b"\0")
            h.update(open(f, "rb").read() + b"\0")
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, cwd=SIM, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def build():
    """Returns the directory holding sim_A .. sim_E for the current sources."""
    os.makedirs(OUT, exist_ok=True)
    dest = os.path.join(OUT, _digest())
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, "ok")):
            return dest
        for old in os.listdir(OUT):  # one build at a time is kept
            if old != "lock":
                shutil.rmtree(os.path.join(OUT, old), ignore_errors=True)
        os.makedirs(dest)
        o = lambda n: os.path.join(dest, n)
        src = os.path.join(REPO, "tommyds", "tommy.c")
        hf = ["-std=c++17", "-O1", "-w", "-fno-pie", "-U_FORTIFY_SOURCE"]
        lf = ["-include", "prelude.h", "-I.", "-I" + os.path.join(REPO, "tommyds"), "-fsanitize-coverage=trace-pc",
              "-fno-pie", "-w", "-fno-omit-frame-pointer"]
        jobs = []
        for m, sfx in (([], ".o"), (["-m32"], ".32.o")):
            for f in ("world", "core", "gen", "main"):
                jobs.append(["g++"] + m + hf + ["-c", f + ".cpp", "-o", o(f + sfx)])
        gf = lf + ["-fno-tree-loop-distribute-patterns"]  # a loop over the table stays a loop, and takes its time
        asan = ["clang", "-O0", "-fsanitize=address", "-fno-builtin", "-fsanitize-coverage=trace-loads,trace-stores"] + lf
        jobs.append(asan + ["-c", src, "-o", o("A1.o")])
        jobs.append(asan + ["-c", "shim.c", "-o", o("A2.o")])
        for f, n in ((src, "1"), ("shim.c", "2")):
            jobs.append(["gcc", "-O2", "-DNDEBUG"] + gf + ["-c", f, "-o", o("B%s.o" % n)])
            jobs.append(["gcc", "-m32", "-O2"] + gf + ["-c", f, "-o", o("D%s.o" % n)])
            jobs.append(["gcc", "-O3"] + gf + ["-include", "portable.h", "-c", f, "-o", o("E%s.o" % n)])
        jobs.append(["g++", "-O2"] + gf + ["-c", "cxxlib.cpp", "-o", o("C1.o")])
        jobs.append(["g++", "-O2", "-x", "c++"] + gf + ["-c", "shim.c", "-o", o("C2.o")])
        with ThreadPoolExecutor(8) as ex:
            for r in ex.map(_run, jobs):
                pass
            h64 = [o(f + ".o") for f in ("core", "world", "gen", "main")]
            h32 = [o(f + ".32.o") for f in ("core", "world", "gen", "main")]
            links = [
                ["clang++", "-no-pie", "-fsanitize=address"] + h64 + [o("A1.o"), o("A2.o"), "-o", o("sim_A")],
                ["g++", "-no-pie"] + h64 + [o("B1.o"), o("B2.o"), "-o", o("sim_B")],
                ["g++", "-no-pie"] + h64 + [o("C1.o"), o("C2.o"), "-o", o("sim_C")],
                ["g++", "-no-pie"] + h64 + [o("E1.o"), o("E2.o"), "-o", o("sim_E")],
                ["g++", "-m32", "-no-pie"] + h32 + [o("D1.o"), o("D2.o"), "-o", o("sim_D")],
            ]
            for r in ex.map(_run, links):
                pass
        for f in os.listdir(dest):
            if f.endswith(".o"):
                os.unlink(o(f))
        open(o("ok"), "w").close()
    return dest


if __name__ == "__main__":
    print(build())
