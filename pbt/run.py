"""Driver: python3-vt -m pbt.run <property> [quick|thorough]  (or --replay FILE)"""
import json
import os
import shutil
import signal
import subprocess
import sys
import time

from . import build as B
from . import core
from .worker import load_checks

VERIF = B.VERIF
PY = sys.executable
KNOWN = os.path.join(VERIF, "known", "findings.txt")
# half of the workers fill fresh heap memory with a non-zero byte
PERTURB = {"MALLOC_PERTURB_": "165"}
THREADS = [2, 1, 4, 3, 1, 8, 2, 5]
NSHARDS = int(os.environ.get("PBT_SHARDS", "8"))
HANG_S = 100        # one case running this long is a hang candidate
HANG_CUDA_S = 250   # ... in the emulation of CUDA
TOTAL_S = {"quick": 700, "thorough": 6 * 3600}
MAX_ASAN = {"quick": 48, "thorough": 1500}


def env_for(variant, libdir, threads, extra=None):
    e = dict(os.environ)
    e["PYTHONPATH"] = os.path.join(B.REPO, "src") + ":" + VERIF
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["SKA_SDP_FUNC_LIB_DIR"] = libdir
    e["OMP_NUM_THREADS"] = str(threads)
    e["OMP_WAIT_POLICY"] = "passive"
    e["OMP_DYNAMIC"] = "false"
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["HYPOTHESIS_STORAGE_DIRECTORY"] = "/nonexistent"
    e.pop("LD_PRELOAD", None)
    if variant == "asan":
        so = subprocess.run(["gcc", "-print-file-name=libasan.so"],
                            capture_output=True, text=True).stdout.strip()
        cxx = subprocess.run(["gcc", "-print-file-name=libstdc++.so"],
                             capture_output=True, text=True).stdout.strip()
        e["LD_PRELOAD"] = os.path.realpath(so) + " " + os.path.realpath(cxx)
        e["ASAN_OPTIONS"] = ("detect_leaks=0:halt_on_error=1:abort_on_error=1:"
                             "allocator_may_return_null=1:quarantine_size_mb=64:"
                             "detect_odr_violation=0:handle_segv=1")
        e["PBT_ASAN"] = "1"
    if variant == "leak":
        e["LD_PRELOAD"] = B.build_shim("leakshim.cpp")
        e["PBT_LEAK"] = "1"
    if variant == "tsan":
        so = subprocess.run(["gcc", "-print-file-name=libtsan.so"],
                            capture_output=True, text=True).stdout.strip()
        e["LD_PRELOAD"] = tsan_shim() + " " + os.path.realpath(so)
        e["TSAN_OPTIONS"] = ("halt_on_error=1:exitcode=66:detect_deadlocks=0:"
                             "report_thread_leaks=0:report_signal_unsafe=0:"
                             "report_destroy_locked=0:report_mutex_bugs=0")
        e["PBT_TSAN"] = "1"
    e.pop("MALLOC_PERTURB_", None)
    if extra:
        e.update(extra)
    return e


def tsan_shim():
    return B.build_shim("ompshim.cpp", ("-fsanitize=thread",))


RACE = "ThreadSanitizer: data race"


def tsan_works(libdir):
    """ThreadSanitizer needs a suitable address space; without one its part is left out."""
    try:
        r = subprocess.run([PY, "-c", "from pbt import core; core.clib(); print('fine')"],
                           capture_output=True, text=True, cwd=VERIF, timeout=120,
                           env=env_for("tsan", libdir, 3))
        return "fine" in r.stdout
    except subprocess.SubprocessError:
        return False


class Job:
    """One worker process."""

    mode = "normal"

    def __init__(self, wd, name, args, env):
        self.wd, self.name = wd, name
        self.out = os.path.join(wd, name + ".json")
        self.cur = os.path.join(wd, name + ".cur")
        self.log = os.path.join(wd, name + ".log")
        self.cmd = [PY, "-m", "pbt.worker", "--out", self.out, "--cur", self.cur] + args
        self.env = env
        self.proc = None
        self.state = None

    def start(self):
        lf = open(self.log, "wb")
        self.proc = subprocess.Popen(self.cmd, stdout=lf, stderr=lf,
                                     stdin=subprocess.DEVNULL, cwd=VERIF,
                                     env=self.env, start_new_session=True)
        lf.close()
        self.t0 = time.time()
        self.last = time.time()
        self.mt = None

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def current(self):
        try:
            with open(self.cur) as f:
                return json.loads(f.readline())
        except (OSError, ValueError):
            return None

    def poll(self):
        """None while running; 'ok', 'crash', 'hang', 'error'."""
        if self.state:
            return self.state
        rc = self.proc.poll()
        if rc is None:
            try:
                m = os.stat(self.cur).st_mtime_ns
            except OSError:
                m = None
            if m != self.mt:
                self.mt, self.last = m, time.time()
            elif time.time() - self.last > hang_s(self.mode) and self.current():
                self.kill()
                self.state = "hang"
            return self.state
        res = self.result()
        self.rc = rc
        if rc == 0 and res and res.get("done"):
            self.state = "ok"
        elif self.current() and (rc < 0 or not self.traceback()):
            self.state = "crash"    # died, or the library called exit()
        else:
            self.state = "error"
        return self.state

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def traceback(self):
        return "Traceback (most recent call last)" in self.tail(20000)

    def tail(self, n=4000):
        try:
            with open(self.log, "rb") as f:
                return f.read()[-n:].decode("utf8", "replace")
        except OSError:
            return ""


def run_jobs(jobs, parallel, deadline):
    pending = list(jobs)
    running = []
    while pending or running:
        while pending and len(running) < parallel:
            j = pending.pop(0)
            j.start()
            running.append(j)
        time.sleep(0.02)
        for j in list(running):
            if j.poll():
                running.remove(j)
        if time.time() > deadline:
            for j in running:
                j.kill()
                j.state = "timeout"
            for j in pending:
                j.state = "timeout"
            return


def hang_s(mode):
    return HANG_CUDA_S if mode == "cuda" else HANG_S


def replay_once(path, mode, env, timeout=None):
    """Returns (failed, message)."""
    log = path + ".log"
    timeout = timeout or hang_s(mode)
    with open(log, "wb") as lf:
        p = subprocess.Popen(
            [PY, "-m", "pbt.worker", "--replay", path, "--mode", mode],
            stdout=lf, stderr=lf, stdin=subprocess.DEVNULL, cwd=VERIF, env=env,
            start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return True, f"no answer within {timeout} s"
    with open(log, "rb") as f:
        text = f.read().decode("utf8", "replace")
    os.remove(log)
    if rc == 0:
        return False, text[-500:]
    if mode == "tsan" and rc != 3:
        i = text.find(RACE)
        return i >= 0, text[i:i + 3000] if i >= 0 else text[-500:]
    if rc == 3:
        i = text.find("FAILS:")
        return True, text[i:i + 3000]
    if rc < 0:
        i = text.find("ERROR: AddressSanitizer")
        return True, f"process died with signal {-rc}: " + (
            text[i:i + 1500] if i >= 0 else text[-800:])
    return ("Traceback (most recent call last)" not in text,
            f"exit {rc}: " + text[-1500:])


def confirm(path, rp, j, kind):
    """Replay a candidate failure in fresh processes; message if confirmed.

    Deterministic failures must fail 3 of 3.  Failures that come and go
    (uninitialised memory, races) are replayed 40 times in one process and
    must show up in at least 2 of 4 such processes: a sound check cannot fail
    twice in separate processes on code where the property holds."""
    def save():
        with open(path, "w") as fh:
            json.dump(rp, fh, indent=1)
    save()
    oks = []
    for _ in range(2 if kind == "hang" else 3):
        oks.append(replay_once(path, j.mode, j.env))
        if not oks[-1][0]:
            break
    if all(b for b, _ in oks):
        return oks[0][1]
    if kind == "hang":
        return None
    rp["repeat"] = 40
    save()
    more = [replay_once(path, j.mode, j.env) for _ in range(4)]
    bad = [m for b, m in more if b and not m.startswith("no answer")]
    if len(bad) >= 2:
        return "intermittent: " + bad[0]
    return None


def known_findings():
    """Lines 'open: property=<id> replay=<file in known/> <what fails>'.

    Lines 'fixed: property=<id> <commit> <what failed>' suppress nothing."""
    res = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                w = line.split(None, 3)
                if w and w[0] == "open:":
                    res.append({"property": w[1].split("=", 1)[1],
                                "replay": w[2].split("=", 1)[1],
                                "what": w[3].strip()})
    return res


def variant_of(mode):
    return {"asan": "asan", "leak": "leak", "tsan": "tsan", "cuda": "cuda"}.get(mode, "rel")


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay_main(sys.argv[2])
    if sys.argv[1] == "--setup":
        B.build("rel")
        B.build("asan")
        B.build("tsan")
        B.build("cuda")
        B.build_shim("leakshim.cpp")
        tsan_shim()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scale = float(os.environ.get("PBT_SCALE", "1"))

    wd = os.path.join(VERIF, ".work", f"{prop}-{os.getpid()}")
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)

    sys.path.insert(0, os.path.join(B.REPO, "src"))
    modes = {}
    if prop == "P03":
        load_checks()
        asan, leak = {}, {}
        for (pr, _), sc in core.REGISTRY.items():
            if sc.strategy is None:
                continue
            if sc.asan is not False:
                base = sc.asan if sc.asan is not True else min(
                    MAX_ASAN["quick"], sc.quick)
                n = base if tier == "quick" else min(
                    MAX_ASAN["thorough"], max(base * 20, sc.quick * 2))
                asan[sc.key] = max(1, int(n * scale))
            if sc.leak is not False:
                leak[sc.key] = max(1, int((32 if tier == "quick" else 60) * scale))
        modes = {"asan": asan, "leak": leak}
        props = ""
    elif prop == "P28":
        load_checks()
        from . import cuda
        modes = {"cuda": cuda.counts(tier, scale)}
        props = ""
    else:
        load_checks({prop})
        props = prop
        counts = {}
        for (pr, _), sc in core.REGISTRY.items():
            if pr == prop:
                n = sc.quick if tier == "quick" else sc.thorough
                if sc.strategy is not None or sc.examples:
                    counts[sc.key] = max(1, int(n * scale))
        modes = {"normal": counts}
        if prop in ("P04", "P30"):
            load_checks()
            modes["tsan"] = tsan = {}
            for (pr, _), sc in core.REGISTRY.items():
                if sc.strategy is not None and sc.tsan and (pr == "P30") == (prop == "P30"):
                    n = sc.tsan * (1 if tier == "quick" else 25)
                    tsan[sc.key] = max(1, int(n * scale))
    if os.environ.get("PBT_SUBS"):
        want = os.environ["PBT_SUBS"].split(",")
        modes = {m: {k: v for k, v in c.items() if any(w in k for w in want)}
                 for m, c in modes.items()}
    if not any(modes.values()):
        print(f"no sub-checks for {prop}", file=sys.stderr)
        return 2

    libs = {}
    for m in modes:
        v = variant_of(m)
        bv = "rel" if v == "leak" else v
        if bv not in libs:
            libs[bv] = B.build(bv)
        libs[v] = libs[bv]
    if "tsan" in modes and not tsan_works(libs["tsan"]):
        print("ThreadSanitizer does not run here: its part is left out", file=sys.stderr)
        del modes["tsan"]
    t_build = time.time() - t0

    jobs = []
    for m, counts in modes.items():
        v = variant_of(m)
        items = list(counts.items())
        for s in range(NSHARDS):
            c = {}
            for j, (k, n) in enumerate(items):
                q, r = divmod(n, NSHARDS)
                # spread the remainder over different shards per sub-check
                c[k] = q + (1 if (s - j) % NSHARDS < r else 0)
            # rotate the order so that shards do not run in lock step
            ks = list(c)
            rot = (s * max(1, len(ks) // NSHARDS)) % max(1, len(ks))
            c = {k: c[k] for k in ks[rot:] + ks[:rot]}
            args = ["--props", "" if m == "tsan" else props, "--counts", json.dumps(c), "--shard", str(s),
                    "--nshards", str(NSHARDS), "--seed", str(seed), "--mode", m]
            j = Job(wd, f"{m}-{s}", args,
                    env_for(v, libs[v], THREADS[s % len(THREADS)],
                            PERTURB if v == "rel" and s % 2 else None))
            j.mode, j.shard, j.counts, j.variant = m, s, c, v
            jobs.append(j)
    deadline = t0 + TOTAL_S[tier]
    run_jobs(jobs, NSHARDS, deadline)

    # gather ---------------------------------------------------------------
    failures = []
    subs = {}
    harness_errors = []
    timeouts = 0
    stopped = []
    for j in jobs:
        res = j.result() or {"subs": {}, "failures": []}
        for k, st in res["subs"].items():
            kk = (j.mode, k)
            d = subs.setdefault(kk, {"evaluations": 0, "labels": {}, "nt": set(),
                                     "samples": [], "examples": 0, "wall": 0})
            d["evaluations"] += st["evaluations"]
            d["examples"] += st["examples"]
            d["wall"] += st.get("wall", 0)
            d["nt"].update(st["nontrivial"])
            for l, c in st["labels"].items():
                d["labels"][l] = d["labels"].get(l, 0) + c
            if len(d["samples"]) < 2:
                d["samples"] += st["samples"][:1]
        for f in res["failures"]:
            f["job"] = j
            failures.append(f)
        if j.mode == "tsan" and (j.state == "hang" or (
                j.state in ("crash", "error") and RACE not in j.tail(200000))):
            stopped.append(f"{j.name} {j.state}: " + j.tail(300))
        elif j.state == "crash" or j.state == "hang" or (j.mode == "tsan" and j.state == "error"):
            cur = j.current()
            failures.append({"sub": cur["sub"], "params": cur["params"], "job": j,
                             "msg": f"worker {j.state}: " + j.tail(1500),
                             "kind": j.state})
        elif j.state == "error":
            harness_errors.append((j.name, j.tail()))
        elif j.state == "timeout":
            timeouts += 1

    # known findings ---------------------------------------------------------
    known = [k for k in known_findings() if k.get("property") == prop]
    confirmed_known = []
    for k in known:
        path = os.path.join(VERIF, "known", k["replay"])
        with open(path) as f:
            rp = json.load(f)
        v = variant_of(rp.get("mode", "normal"))
        bad, _ = replay_once(path, rp.get("mode", "normal"),
                             env_for(v, libs.get(v) or B.build(v), 2))
        if bad:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
            confirmed_known.append(k)

    # confirm failures -------------------------------------------------------
    violations = []
    unconfirmed = []
    seen = set()
    rdir = os.path.join(VERIF, "replays", prop)
    order = sorted(failures, key=lambda f: len(json.dumps(f["params"])))
    tried = {}
    for f in order:
        if f["sub"] in seen or tried.get(f["sub"], 0) >= 3 or len(violations) >= 3:
            continue
        tried[f["sub"]] = tried.get(f["sub"], 0) + 1
        j = f["job"]
        cands = [f]
        if f.get("first") and f["first"] != f["params"]:
            cands.append(dict(f, params=f["first"]))
        if f["kind"] == "crash":
            g = isolate_shrink(wd, f, j, seed)
            if g:
                cands.insert(0, g)
        for c in cands:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{c['sub']}-{tier}-{seed}-{len(violations)}.json")
            rp = {"property": prop, "sub": c["sub"], "params": c["params"],
                  "mode": j.mode, "message": c["msg"],
                  "omp_threads": j.env["OMP_NUM_THREADS"],
                  "malloc_perturb": j.env.get("MALLOC_PERTURB_", "")}
            msg = confirm(path, rp, j, c["kind"])
            if msg:
                seen.add(f["sub"])
                violations.append((path, c, msg))
                break
            os.remove(path)
            unconfirmed.append(c)

    # evidence -----------------------------------------------------------------
    wall = time.time() - t0
    ev_total = sum(d["evaluations"] for d in subs.values())
    nt_total = sum(len(d["nt"]) for d in subs.values())
    rules = []
    samples = []
    detail = {}
    for (m, k), d in sorted(subs.items()):
        sc = core.REGISTRY[tuple(k.split(".", 1))]
        name = k if m == "normal" else f"{m}:{k}"
        if prop != "P03" and m != "tsan" and (m != "cuda" or prop == k.split(".")[0]):
            rules.append(f"[{k}] {sc.rule}")
        detail[name] = {"evaluations": d["evaluations"],
                        "distinct_nontrivial": len(d["nt"]),
                        "fixed_examples": d["examples"],
                        "worker_s": round(d["wall"], 2),
                        "labels": d["labels"]}
        if prop != "P03" or len(samples) < 12:
            samples += [{"sub": name, "case": s} for s in d["samples"][:2]]
    if prop == "P30":
        rules.append("[tsan] The same in a ThreadSanitizer build on an OpenMP run-time of our own; "
                     "oracle: as above, and no data race.")
    if prop == "P04":
        rules.append("[tsan] Every generator of every other property (three threads everywhere), and "
                     "those above, run in a ThreadSanitizer build on an OpenMP run-time of our own "
                     "that hands out work in an order drawn per case and delays threads at random; "
                     "oracle: no data race. Non-trivial by the generator's own rule.")
    if prop == "P28":
        rules.append("The sub-checks of other properties are those properties' own, with every array "
                     "in accelerator memory; oracle: theirs, and all accelerator memory freed. "
                     "Non-trivial: by their own rule, and a kernel (or GPU FFT) ran.")
    rule = " ".join(rules) if prop != "P03" else (
        "Every generator of every other property is replayed against an "
        "AddressSanitizer build (mode asan: exact-size allocations, abort on any "
        "out-of-bounds or use-after-free, inputs compared byte for byte) and "
        "against an allocation-tracking shim (mode leak: the number of live "
        "allocations made by the library must not grow between repeated runs). "
        "A case is non-trivial under its own generator's rule.")
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": ev_total, "distinct_nontrivial": nt_total,
                     "rule": rule, "samples": samples[:40], "per_subcheck": detail,
                     "workers_timed_out": timeouts,
                     "unconfirmed_failures": len(unconfirmed),
                     "race_workers_stopped_early": stopped,
                     "build_s": round(t_build, 1)},
        "assumptions": [
            "the CUDA sources run on a stand-in for the CUDA run-time on the CPU, not on a GPU"
            if prop == "P28" else
            "gcc 13 Release build without CUDA and MKL, as the repository's own build here",
            "oracles computed with numpy/scipy in double precision; tolerances stated per sub-check",
        ],
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)

    if os.environ.get("PBT_VERBOSE"):
        for n, d in detail.items():
            print(n, json.dumps(d))
        print("build %.1fs wall %.1fs" % (t_build, wall))
    for path, c, msg in violations:
        print(f"{c['sub']}: {c['msg'][:1500]}\n  params: {json.dumps(c['params'])[:1500]}\n  {msg[:2500]}")
        print(f"VIOLATION property={prop} replay={path}")
    for c in unconfirmed:
        print(f"note: unconfirmed failure in {c['sub']}: {c['msg'][:1200]} params={json.dumps(c['params'])[:600]}")
    print(f"{prop} {tier} seed={seed}: {ev_total} cases, {nt_total} distinct "
          f"non-trivial, {len(violations)} violations, {wall:.1f} s")
    if not os.environ.get("PBT_KEEP"):
        shutil.rmtree(wd, ignore_errors=True)
    if violations:
        return 1
    if harness_errors:
        for n, t in harness_errors[:2]:
            print(f"HARNESS ERROR in {n}:\n{t}", file=sys.stderr)
        return 2
    return 0


def isolate_shrink(wd, f, j, seed):
    """Re-run the crashing shard forking per case, so Hypothesis can shrink."""
    k = f["sub"]
    n = max(20, j.counts.get(k, 20))
    args = ["--props", "" if j.mode != "normal" else k[:3],
            "--counts", json.dumps({k: n}), "--shard", str(j.shard),
            "--nshards", str(NSHARDS), "--seed", str(seed), "--mode", j.mode,
            "--isolate", "--shrink-s", "25"]
    g = Job(wd, f"iso-{j.name}-{k}", args, j.env)
    g.mode = j.mode
    run_jobs([g], 1, time.time() + 150)
    res = g.result()
    if res and res["failures"]:
        r = res["failures"][0]
        r["job"] = j
        return r
    return None


def replay_main(path):
    with open(path) as f:
        rp = json.load(f)
    mode = rp.get("mode", "normal")
    v = variant_of(mode)
    lib = B.build("rel" if v == "leak" else v)
    extra = None
    if rp.get("malloc_perturb"):
        extra = {"MALLOC_PERTURB_": rp["malloc_perturb"]}
    bad, msg = replay_once(path, mode, env_for(v, lib, rp.get("omp_threads", 2), extra))
    print(msg)
    if bad:
        print(f"VIOLATION property={rp['property']} replay={path}")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
