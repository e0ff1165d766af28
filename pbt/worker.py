"""Worker process: generates and runs cases of one property's sub-checks."""
import argparse
import ctypes
import gc
import hashlib
import importlib
import json
import os
import pkgutil
import signal
import sys
import time
import traceback

from . import core


def load_checks(props=None):
    from . import checks
    for m in pkgutil.iter_modules(checks.__path__):
        if props is None or m.name[:3].upper() in props or m.name == "q_large":
            importlib.import_module("pbt.checks." + m.name)


def jdump(p):
    return json.dumps(p, sort_keys=True)


class Stop(Exception):
    pass


class Runner:
    def __init__(self, a):
        self.a = a
        self.fd = os.open(a.cur, os.O_RDWR | os.O_CREAT | os.O_TRUNC) if a.cur else None
        self.res = {"subs": {}, "failures": []}
        self.guard_only = a.mode in ("asan", "leak")

    def mark(self, key, p):
        if self.fd is None:
            return
        b = jdump({"sub": key, "params": p, "t": time.time()}).encode() + b"\n"
        os.pwrite(self.fd, b, 0)
        os.ftruncate(self.fd, len(b))

    def execute(self, sc, p):
        """Run one case; returns labels; raises Violation."""
        self.mark(sc.key, p)
        if self.a.isolate:
            return self.forked(sc, p)
        return self.direct(sc, p)

    def direct(self, sc, p):
        run = sc.run
        if self.a.mode == "leak":
            from . import leak
            return leak.measure(run, p)
        races = False
        if self.a.mode == "tsan":
            # only the sub-checks of P04 and P30 choose thread counts and compare results;
            # the others are run for the races they may show
            races = sc.prop not in ("P04", "P30")
            shim = core._gomp()
            shim.pbt_shim_force(0 if not races else 3)
            shim.pbt_shim_seed(ctypes.c_ulong(int(hashlib.sha1(jdump(p).encode()).hexdigest()[:8], 16)))
        if self.a.mode == "cuda":
            from . import cuda
            cuda.begin(int(hashlib.sha1(jdump(p).encode()).hexdigest()[:8], 16))
        try:
            r = run(p)
        except core.Skip:
            return ["skip!"]
        except core.Violation as e:
            if races or (self.guard_only and e.kind != "guard"):
                return ["other-property!"]
            raise
        except Exception as e:  # binding/API raised on a valid case
            if races or self.guard_only:
                return ["other-property!"]
            raise core.Violation(
                "unexpected " + "".join(traceback.format_exception_only(e)).strip()
                + " @ " + traceback.format_exc()[-1200:]) from e
        if r is None:
            r = ["case"]
        r = [r] if isinstance(r, str) else list(r)
        if self.a.mode == "cuda":
            r += cuda.end(sc)
        return r

    def forked(self, sc, p):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            signal.alarm(100)
            code = 0
            try:
                out = {"labels": self.direct(sc, p)}
            except core.Violation as e:
                out = {"violation": str(e), "kind": e.kind}
                code = 3
            except BaseException as e:
                out = {"violation": repr(e), "kind": "functional"}
                code = 3
            try:
                os.write(wr, jdump(out)[:60000].encode())
            finally:
                os._exit(code)
        os.close(wr)
        data = b""
        while True:
            b = os.read(rd, 65536)
            if not b:
                break
            data += b
        os.close(rd)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            if self.a.mode == "tsan":
                return ["died!"]
            raise core.Violation(f"process died with signal {os.WTERMSIG(st)}")
        try:
            out = json.loads(data)
        except ValueError:
            if self.a.mode == "tsan" and os.WEXITSTATUS(st) == 66:
                raise core.Violation("data race (see the replay)")
            raise core.Violation(f"process exited with status {os.WEXITSTATUS(st)}")
        if "violation" in out:
            cls = core.GuardViolation if out["kind"] == "guard" else core.Violation
            raise cls(out["violation"])
        return out["labels"]

    def one_sub(self, sc, n):
        from hypothesis import HealthCheck, Phase, Verbosity, given, seed, settings
        a = self.a
        st = {"evaluations": 0, "labels": {}, "nontrivial": set(),
              "samples": [], "examples": 0}
        best = {}

        def account(p, labels):
            st["evaluations"] += 1
            for l in labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if not any(l.endswith("!") for l in labels):
                h = hashlib.sha1(jdump(p).encode()).hexdigest()[:14]
                if h not in st["nontrivial"]:
                    st["nontrivial"].add(h)
                    if len(st["samples"]) < 2 and len(jdump(p)) < 1500:
                        st["samples"].append(p)

        def fail(p, e):
            k = len(jdump(p))
            if not best:
                best["first"] = p
            if "k" not in best or k <= best["k"]:
                best.update(k=k, p=p, msg=str(e)[:4000], kind=e.kind)

        # 1. fixed regression/boundary examples
        for i, p in enumerate(sc.examples):
            if i % a.nshards != a.shard % a.nshards:
                continue
            try:
                account(p, self.execute(sc, p))
                st["examples"] += 1
            except core.Violation as e:
                st["evaluations"] += 1
                fail(p, e)
                break
        # 2. generated cases
        if not best and n > 0 and sc.strategy is not None:
            t_fail = [None]

            @seed(a.seed * 1000003 + a.shard * 1009
                  + int(hashlib.sha1(sc.key.encode()).hexdigest()[:6], 16))
            @settings(max_examples=n, database=None, deadline=None,
                      suppress_health_check=list(HealthCheck),
                      report_multiple_bugs=False, verbosity=Verbosity.quiet,
                      phases=[Phase.generate, Phase.shrink])
            @given(sc.strategy)
            def test(p):
                if t_fail[0] and time.time() - t_fail[0] > a.shrink_s:
                    return
                try:
                    labels = self.execute(sc, p)
                except core.Violation as e:
                    st["evaluations"] += 1
                    if t_fail[0] is None:
                        t_fail[0] = time.time()
                    fail(p, e)
                    raise
                account(p, labels)

            try:
                test()
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                if not best:
                    # a harness problem in the strategy itself
                    raise
        st["nontrivial"] = sorted(st["nontrivial"])
        if best:
            self.res["failures"].append(
                {"sub": sc.key, "params": best["p"], "msg": best["msg"],
                 "kind": best["kind"], "first": best["first"]})
        self.res["subs"][sc.key] = st
        gc.collect()

    def write(self):
        tmp = self.a.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(self.res, f)
        os.replace(tmp, self.a.out)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--props", default="")
    ap.add_argument("--subs", default="")
    ap.add_argument("--counts", default="")   # json {key: n for this shard}
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--mode", default="normal")
    ap.add_argument("--out", default="")
    ap.add_argument("--cur", default="")
    ap.add_argument("--isolate", action="store_true")
    ap.add_argument("--shrink-s", dest="shrink_s", type=float, default=40)
    ap.add_argument("--replay", default="")
    a = ap.parse_args()
    if os.environ.get("PBT_FAULT"):
        import faulthandler
        faulthandler.enable()

    if a.mode == "cuda":
        sys.path.insert(0, os.path.join(os.environ["PYTHONPATH"].split(":")[0]))
        from . import cuda
        cuda.install()
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        load_checks({rp["sub"][:3]})
        sc = core.REGISTRY[tuple(rp["sub"].split(".", 1))]
        r = Runner(a)
        try:
            # an intermittent failure (uninitialised memory, a race) is
            # replayed several times in one process
            for _ in range(int(rp.get("repeat", 1))):
                labels = r.direct(sc, rp["params"])
        except core.Violation as e:
            print("FAILS:", e)
            if a.out:
                r.res["failures"].append({"sub": sc.key, "msg": str(e)[:4000],
                                          "kind": e.kind})
                r.write()
            sys.stdout.flush()
            os._exit(3)
        print("holds:", labels)
        sys.stdout.flush()
        os._exit(0)

    props = set(filter(None, a.props.split(",")))
    load_checks(props or None)
    counts = json.loads(a.counts)
    r = Runner(a)
    for key, n in counts.items():
        sc = core.REGISTRY[tuple(key.split(".", 1))]
        t = time.time()
        r.one_sub(sc, n)
        r.res["subs"][key]["wall"] = round(time.time() - t, 2)
        r.write()
    r.res["done"] = True
    r.write()
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
