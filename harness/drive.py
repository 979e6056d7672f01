"""python drive.py PID TIER SEED PATHS|- OUT [--only NAME] [--procs K]
Runs the scenarios of one property against the code on PYTHONPATH, writes OUT/traces.ndjson
and OUT/info.json."""
import importlib
import json
import logging
import multiprocessing
import os
import random
import resource
import sys
import zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
logging.disable(logging.CRITICAL)


def run_part(args):
    pid, tier, seed, gen_, out, part, parts, only = args
    import scen
    import rec as R
    for m in ("scen2", "scen3", "scen4", "scen5"):
        if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
            importlib.import_module(m)
    ctx = scen.Ctx(pid, tier, seed, gen_["paths"])
    ctx.hists = gen_["hists"]
    ctx.out = out
    n = 0
    k = 0
    with open(os.path.join(out, "part%d.ndjson" % part), "w") as f:
        for gen in scen.JOBS.get(pid, []):
            for j, (name, fn) in enumerate(gen(ctx)):
                k += 1
                if k % parts != part or (only and name != only):
                    continue
                s = zlib.crc32(("%d/%s/%s/%d" % (seed, gen.__name__, name, j)).encode())
                rng = random.Random(s)
                random.seed(s ^ 0x5bd1e995)     # unseeded simulators draw from here
                rec = R.Rec(name)
                try:
                    fn(rec, rng)
                except R.Ended:
                    pass
                json.dump(rec.trace, f, separators=(",", ":"))
                f.write("\n")
                n += 1
    return n


def main():
    a = sys.argv[1:]
    pid, tier, seed, pathsf, out = a[:5]
    only = a[a.index("--only") + 1] if "--only" in a else None
    procs = int(a[a.index("--procs") + 1]) if "--procs" in a else 6
    gen = json.load(open(pathsf)) if pathsf != "-" else {"paths": [], "hists": []}
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    jobs = [(pid, tier, int(seed), gen, out, p, procs, only) for p in range(procs)]
    ctx = multiprocessing.get_context("fork")
    ps = []
    for j in jobs:
        p = ctx.Process(target=run_part, args=(j,))
        p.start()
        ps.append(p)
    for p in ps:
        p.join()
    bad = [p.exitcode for p in ps if p.exitcode]
    with open(os.path.join(out, "traces.ndjson"), "w") as f:
        for j in range(procs):
            fn = os.path.join(out, "part%d.ndjson" % j)
            if os.path.exists(fn):
                f.write(open(fn).read())
                os.unlink(fn)
    if bad:
        print("driver part failed", bad)
        sys.exit(3)


if __name__ == "__main__":
    main()
