#!/usr/bin/env python3
"""Builds the conformance harness from /repo's working tree.

build(backend, config, tus) -> path of the executable.  Objects are cached in /verif/.build/obj,
keyed by the hash of the preprocessed source and the flags, so an object is never stale.
"""
import hashlib, os, subprocess, sys, concurrent.futures as cf, glob
VERIF = os.environ.get("VERIF_DIR", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("REPO_DIR", "/repo")
SRC = REPO + "/libs/e_float/src"
OBJ = VERIF + "/.build/obj"
EXE = VERIF + "/.build/exe"
DEF = {"efx": "-DE_FLOAT_TYPE_EFX", "gmp": "-DE_FLOAT_TYPE_GMP", "mpfr": "-DE_FLOAT_TYPE_MPFR"}
LIBS = {"efx": [], "gmp": ["-lgmp"], "mpfr": ["-lmpfr", "-lgmp"]}

def sources(backend):
    s = glob.glob(SRC + "/e_float/*.cpp") + glob.glob(SRC + "/e_float/%s/*.cpp" % backend)
    s += glob.glob(SRC + "/functions/*/*.cpp") + glob.glob(SRC + "/utility/*.cpp")
    return sorted(s)

def flags(backend, config):
    f = ["-std=c++17" if config == "asan" else "-std=c++14", DEF[backend], "-I" + SRC, "-I" + REPO + "/libs/math/include", "-w"]
    f += ["-DE_FLOAT_TEST_REAL_IMAG_TESTS"] if config != "pi" else ["-DE_FLOAT_TEST_PI_ALGOS_TESTS"]
    if config.startswith("d"):
        f.append("-DE_FLOAT_VERIF_DIGITS10=" + config[1:])
    if config == "asan":
        f += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-g1"]
    return f

def compile_one(src, fl, opt):
    cmd = ["g++"] + fl + [opt]
    p = subprocess.run(cmd + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise RuntimeError("preprocess %s: %s" % (src, p.stderr.decode()[:2000]))
    text = b"\n".join(l for l in p.stdout.split(b"\n") if not l.startswith(b"#") and l.strip())
    h = hashlib.sha256(text + b"\0" + " ".join(cmd).replace(REPO, "").encode()).hexdigest()[:32]
    o = "%s/%s.o" % (OBJ, h)
    if not os.path.exists(o):
        tmp = "%s.%d.tmp" % (o, os.getpid())
        p = subprocess.run(cmd + ["-c", src, "-o", tmp], stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise RuntimeError("compile %s: %s" % (src, p.stderr.decode()[:3000]))
        os.replace(tmp, o)
    return o

def build_all(jobs):
    """jobs: list of (backend, config, [harness TU names]) -> list of exe paths"""
    os.makedirs(OBJ, exist_ok=True); os.makedirs(EXE, exist_ok=True)
    work = {}
    for (b, c, tus) in jobs:
        for s in sources(b):
            opt = "-O0" if "/tables/" in s else "-O2"
            work[(s, tuple(flags(b, c)), opt)] = None
        for t in ["main"] + tus:
            work[("%s/harness/%s.cpp" % (VERIF, t), tuple(flags(b, c) + ["-I" + VERIF + "/harness"]), "-O1")] = None
    big = lambda k: -os.path.getsize(k[0])
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        futs = {ex.submit(compile_one, k[0], list(k[1]), k[2]): k for k in sorted(work, key=big)}
        for f in cf.as_completed(futs):
            work[futs[f]] = f.result()
    exes = []
    for (b, c, tus) in jobs:
        objs = [work[(s, tuple(flags(b, c)), "-O0" if "/tables/" in s else "-O2")] for s in sources(b)]
        objs += [work[("%s/harness/%s.cpp" % (VERIF, t), tuple(flags(b, c) + ["-I" + VERIF + "/harness"]), "-O1")] for t in ["main"] + tus]
        h = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24]
        exe = "%s/%s-%s-%s" % (EXE, b, c, h)
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            ld = ["g++"] + (["-fsanitize=address,undefined"] if c == "asan" else []) + objs + ["-o", tmp] + LIBS[b]
            p = subprocess.run(ld, stderr=subprocess.PIPE)
            if p.returncode != 0:
                raise RuntimeError("link %s %s: %s" % (b, c, p.stderr.decode()[:3000]))
            os.replace(tmp, exe)
        exes.append(exe)
    return exes

if __name__ == "__main__":
    tus = sys.argv[2].split(",") if len(sys.argv) > 2 else ["ops_core"]
    cfg = sys.argv[3] if len(sys.argv) > 3 else "std"
    bs = ["efx", "gmp", "mpfr"] if len(sys.argv) < 2 or sys.argv[1] == "all" else sys.argv[1].split(",")
    for e in build_all([(b, cfg, tus) for b in bs]):
        print(e)
