"""Builds the library under test from /repo's working tree, out of tree."""
import fcntl
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PBT_REPO", "/repo")
BUILD = os.environ.get("PBT_BUILD", os.path.join(VERIF, ".build"))

VARIANTS = {
    "rel": ["-DCMAKE_BUILD_TYPE=Release"],
    "asan": [
        "-DCMAKE_BUILD_TYPE=None",
        "-DCMAKE_C_FLAGS=-O1 -g1 -fPIC -fsanitize=address",
        "-DCMAKE_CXX_FLAGS=-O1 -g1 -fPIC -fsanitize=address",
        "-DCMAKE_SHARED_LINKER_FLAGS=-fsanitize=address",
    ],
    "tsan": [
        "-DCMAKE_BUILD_TYPE=None",
        "-DCMAKE_C_FLAGS=-O1 -g1 -fPIC -fsanitize=thread",
        "-DCMAKE_CXX_FLAGS=-O1 -g1 -fPIC -fsanitize=thread",
        "-DCMAKE_SHARED_LINKER_FLAGS=-fsanitize=thread",
    ],
}

# (the library with its CUDA part, compiled against a stand-in for CUDA)
CUDA = os.path.join(VERIF, "pbt", "native", "cuda")
VARIANTS["cuda"] = ["-DCMAKE_BUILD_TYPE=None", "-DREPO=" + REPO]


def build(variant="rel"):
    """Build one variant (incrementally); returns the directory of the .so."""
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_PRELOAD"):
        env.pop(k, None)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        log = os.path.join(BUILD, variant + ".log")
        with open(log, "w") as lf:
            if not os.path.exists(os.path.join(d, "build.ninja")):
                r = subprocess.run(
                    ["cmake", "-S", CUDA if variant == "cuda" else REPO, "-B", d, "-G", "Ninja",
                     "-DCMAKE_C_COMPILER=/usr/bin/gcc",
                     "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
                     "-DFIND_CUDA=OFF", "-DFIND_MKL=OFF"] + VARIANTS[variant],
                    stdout=lf, stderr=subprocess.STDOUT, env=env)
                if r.returncode:
                    _fail(log)
            _drop_stale(d)
            r = subprocess.run(["ninja", "-C", d, "ska_sdp_func"],
                               stdout=lf, stderr=subprocess.STDOUT, env=env)
            if r.returncode:
                _fail(log)
        # keep only the current version of the library
        real = os.path.realpath(os.path.join(d, "libska_sdp_func.so"))
        for f in os.listdir(d):
            if f.startswith("libska_sdp_func.so."):
                p = os.path.join(d, f)
                if os.path.realpath(p) != real:
                    os.remove(p)
    return d


def _drop_stale(d):
    """Judge the sources by content: clean if one changed but looks old."""
    stamp = os.path.join(d, "sources.json")
    new = {}
    top = os.path.join(REPO, "src")
    for dirpath, _, files in os.walk(top):
        for f in files:
            if f.endswith((".c", ".cpp", ".cu", ".h", ".hpp", ".txt", ".in")):
                q = os.path.join(dirpath, f)
                with open(q, "rb") as fh:
                    new[q] = hashlib.sha1(fh.read()).hexdigest()
    try:
        with open(stamp) as fh:
            old = json.load(fh)
        t = os.path.getmtime(stamp)
        if set(old) != set(new) or any(
                old[q] != h and os.path.getmtime(q) <= t + 1 for q, h in new.items()):
            subprocess.run(["ninja", "-C", d, "-t", "clean"],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except (OSError, ValueError):
        pass
    with open(stamp, "w") as fh:
        json.dump(new, fh)


def build_shim(name, flags=()):
    """Compile a helper .c/.cpp from /verif/pbt/native into the build dir."""
    src = os.path.join(VERIF, "pbt", "native", name)
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, os.path.splitext(name)[0] + ".so")
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if (not os.path.exists(out)
                or os.path.getmtime(out) < os.path.getmtime(src)):
            cc = "g++" if name.endswith(".cpp") else "gcc"
            subprocess.run([cc, "-O2", "-g", "-fPIC", *flags, "-shared", "-o", out,
                            src, "-ldl", "-lpthread"], check=True)
    return out


def _fail(log):
    with open(log) as f:
        tail = f.read()[-3000:]
    print("BUILD FAILED\n" + tail, file=sys.stderr)
    sys.exit(2)
