#!/usr/bin/env python3
"""replay.py <replays/X.json>: rebuilds what the file needs from /repo's current tree and runs it again.

Exit 1 when the violation shows again, 0 when it does not."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, gencheck, simlib
from simlib import CompileFailure, cargo_build, crash_class, jlines


def main(path):
    d = json.load(open(path))
    prop, kind = d["property"], d["kind"]
    if kind == "compile":
        try:
            cargo_build(d["crate"], ["--bin", d["target"]] if d["target"] else [])
        except CompileFailure as cf:
            print(cf.text)
            return 1
        return 0
    if kind == "rustc":
        print("the same items at different places of one compilation: run the check again, VERIF_SEED=%s" % d["seed"])
        print(d.get("text", d.get("annotated")))
        return 2
    if kind == "mistake":
        prog = (d["program"], d["mode"], d["annotated"], d["mistakes"])
        e = gencheck.diagnose(d["generator"], [prog], 1).get(d["program"], [])
        print("\n".join(x[4] for x in e))
        print(gencheck.misdiagnosed(d["mistakes"], e))
        return 1 if gencheck.misdiagnosed(d["mistakes"], e) else 0
    if "annotated" in d:
        i = d["program"] if kind == "program" else int(d["scenario"][1:])
        prog = (i, d["annotated"], d.get("reference", ""), d.get("run_annotated", ""), d.get("run_reference", ""), {}, False)
        execs, failures, dropped = gencheck.build(d.get("generator", prop), [prog], 1)
        for t in list(failures.values()) + list(dropped.values()):
            print("\n".join(t))
        if kind == "accepted":
            return 0 if failures or dropped else 1
        if kind == "program":
            return 1 if failures or dropped else 0
        if not execs:
            return 1
        exe = next(iter(execs.values()))
    else:
        b = d["bin"].split("+")[0]
        crate = next(c for p in check.BINS.values() for c, n, *_ in p if n == b)
        exe = cargo_build(crate, ["--bin", b])[b]
    cmd = [exe] + (d["command"][1:] if isinstance(d["command"], list) else [])
    if d.get("choices") is None:
        args = ["--seed", d["search_seed"], "--mode", "trace", "--start", d["run"], "--count", 1]
    else:
        args = ["--mode", "replay", "--scenario", d["scenario"], "--choices", ",".join(map(str, d["choices"]))]
    rc, o, er = simlib._run(cmd, args, 120)
    print(o + er[-3000:])
    if kind == "crash":
        print("ended with", crash_class(rc) if rc else rc, "recorded", d["class"])
        return 1 if rc and crash_class(rc) == d["class"] else 0
    v = [j for j in jlines(o) if j["type"] == "violation"]
    for j in v:
        print(f"{j['class']}: {j['detail']}")
        print("same digest as recorded" if j["digest"] == d["digest"] else "another digest than recorded")
    return 1 if v else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
