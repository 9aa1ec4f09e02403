#!/usr/bin/env python3
"""Builds /repo's current working tree (all of src/, nothing left out) plus the harnesses of /verif.

Objects go to $VERIF_BUILD (default /verif/build), keyed by the contents of the source file, all
headers and the flags, so that any change to the working tree is rebuilt and nothing stale is used.
Usage: build.py TARGET...   (a TARGET is the name of a harness in /verif/harness, or "cli")
"""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
MODELS = os.path.join(REPO, "resources/models/2021-08-30_model-3K-documents")
COMMON = ["-std=c++20", "-g1", "-w", "-pthread",
          "-include", "algorithm", "-include", "cstring",
          "-I" + os.path.join(VERIF, "stub"), "-I/usr/include/poppler",
          '-DCONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR="%s"' % MODELS,
          '-DPROGRAM_NAME="pdftotext++"', '-DPROGRAM_DESCRIPTION="desc"',
          '-DPROGRAM_USAGE="usage"', '-DVERSION="0.0.0"', "-D_GLIBCXX_ASSERTIONS", "-DPPP_VERIF_FAST_LOG"]
FLAGS = {
    # -fsanitize=address finds every out-of-bounds access or use after free on every explored case.
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "fast": ["-O2"],
}
LIBS = ["-lpoppler", "-lutf8proc", "-lboost_program_options"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout[-6000:]))
        raise SystemExit(2)


def compile_one(src, flags, headers_hash, extra=()):
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    flags = COMMON + flags + list(extra)
    obj = os.path.join(OUT, "obj", os.path.basename(src).replace("+", "p") + "." +
                       sha(read(src), headers_hash, " ".join(flags), src) + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        run(["g++"] + flags + ["-c", src, "-o", tmp])
        os.rename(tmp, obj)
    return obj


def build(targets):
    """Returns {target: path of the binary}."""
    srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    main = [s for s in srcs if os.path.basename(s) == "pdftotext++.cpp"]
    lib = [s for s in srcs if s not in main]
    hdrs = sorted(glob.glob(REPO + "/src/**/*.h", recursive=True))
    rh = sha(*[x for h in hdrs + [VERIF + "/stub/cppflow/cppflow.h"] for x in (h, read(h))])
    vh = sha(*[x for h in sorted(glob.glob(VERIF + "/harness/*.h")) for x in (h, read(h))])
    jobs, want = {}, {}
    ex = ThreadPoolExecutor(max_workers=8)
    variants = {}
    for t in targets:
        name, _, variant = t.partition(":")
        variant = variant or "asan"
        variants.setdefault(variant, []).append((t, name))
    for variant, ts in variants.items():
        fl = FLAGS[variant]
        # big files first
        for s in sorted(lib, key=lambda s: -os.path.getsize(s)):
            jobs[(variant, s)] = ex.submit(compile_one, s, fl, rh)
        for t, name in ts:
            s = main[0] if name == "cli" else "%s/harness/%s.cpp" % (VERIF, name)
            extra = [] if name == "cli" else ["-I" + REPO + "/src", "-I" + VERIF + "/harness"]
            jobs[(variant, s)] = ex.submit(compile_one, s, fl, sha(rh, vh), extra)
            want[t] = (variant, s)
    res = {}
    objs = {k: j.result() for k, j in jobs.items()}
    for t, (variant, s) in want.items():
        o = [objs[(variant, l)] for l in lib] + [objs[(variant, s)]]
        binp = os.path.join(OUT, t.replace(":", "-") + "." + sha(*o))
        if not os.path.exists(binp):
            tmp = binp + ".%d.tmp" % os.getpid()
            run(["g++"] + FLAGS[variant] + ["-pthread"] + o + LIBS + ["-o", tmp])
            os.rename(tmp, binp)
        res[t] = binp
    return res


if __name__ == "__main__":
    for t, p in build(sys.argv[1:]).items():
        print(t, p)
