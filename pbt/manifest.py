"""Writes MANIFEST.json from the sub-checks present: python3-vt -m pbt.manifest"""
import json
import os
import sys

from . import build as B
from . import core
from .worker import load_checks

NOTES = {
    "P28": "The CUDA sources run on a CPU stand-in for the CUDA run-time and cuFFT "
           "(threads of a block with barriers and shared memory, separate device "
           "memory): generated valid inputs against the same oracles as the CPU code. "
           "Not nvcc's output, no real device, no invalid arguments.",
    "P03": "Every generator of every other property replayed (asan) against an "
           "AddressSanitizer build with exact-size arrays and (leak) under an allocation "
           "counter; inputs compared byte for byte. Sampled, so no proof of absence.",
    "P04": "Generated calls at several OpenMP thread counts, and every generator under "
           "ThreadSanitizer on an OpenMP run-time that permutes and delays the work; "
           "schedules are sampled, not enumerated.",
    "P30": "Generated groups of calls started together from several threads (and repeated "
           "after other calls), compared with each call alone, also under "
           "ThreadSanitizer; schedules are sampled, not enumerated.",
}
NA = {
}


def main():
    sys.path.insert(0, os.path.join(B.REPO, "src"))
    load_checks()
    have = {p for p, _ in core.REGISTRY}
    if have:
        have |= {"P03"}
    props = [json.loads(l) for l in open(os.path.join(B.VERIF, "properties.jsonl"))]
    checks, na = [], []
    for d in props:
        i = d["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
        elif i not in have:
            na.append({"property": i, "reason": "check not built yet"})
        else:
            subs = [n for p, n in core.REGISTRY if p == i]
            checks.append({
                "property": i,
                "quick_cmd": f"./run.sh {i} quick",
                "thorough_cmd": f"./run.sh {i} thorough",
                "technique": "property-based testing (Hypothesis generators with shrinking "
                             "against the compiled library): " + (
                                 "generated cases under AddressSanitizer and an allocation "
                                 "counter" if i == "P03" else ", ".join(subs)),
                "level": "exploration",
                "level_note": NOTES.get(
                    i, "Random generated cases against an independent oracle; holds on "
                       "every case explored, no proof for the rest. Assumes the CPU build "
                       "of this sandbox (no CUDA/MKL) and the tolerances stated in the "
                       "evidence rules and DESIGN.md."),
            })
    m = {"version": 1, "setup_cmd": "./run.sh --setup",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks are compiled into /repo. known/findings.txt lists known findings "
                  "and the defects repaired by fix: commits."}
    with open(os.path.join(B.VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
