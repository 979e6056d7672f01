"""Run seeded programs and print what they gave: python child16.py HISTORY < programs.json
HISTORY tells what the process did before and between (it must not matter)."""
import json
import os
import random
import sys
import zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import logging
logging.disable(logging.CRITICAL)
import rec as R
from scen import ALLF


def flat(o):
    return zlib.crc32(json.dumps(o, sort_keys=True).encode()) & 0x3fffffff


def disturb(h, k):
    """something a process may have done before"""
    r = (h * 7919 + k * 104729) % 6
    if h == 0:
        return
    with R.Quiet():
        if r == 0:
            random.seed(h * 31 + k)
        elif r == 1:
            for _ in range(h + k % 17):
                random.random()
        elif r == 2:
            x = R.KINDS["L1"](length=3 + k % 3, seed=k)
            x.run_once()
        elif r == 3:
            x = R.KINDS["plain"](length=4)
            x.place_one_site()
            x.reset()
        elif r == 4:
            import numpy as np
            np.random.seed(k)
            np.random.rand(5)
        else:
            x = R.KINDS["SP"](length=4)
            x.run_once()
            x.set_custome_site_id_list([0, 1, 2], True)


def main():
    hist = int(sys.argv[1])
    progs = json.load(sys.stdin)
    if hist % 2:
        progs.reverse()
    out = {}
    for k, p in enumerate(progs):
        disturb(hist, k)
        rec = R.Rec("x", limit=40)
        vals = []
        try:
            rec.new(1, p["kind"], p["L"], p["seed"])
            rec.inspecting = hist == 2

            def look(extra=()):
                f = ALLF + ("tab", "idx") + extra
                vals.append(flat(rec.look(1, f)))
            look()
            for op in p["ops"]:
                if op[0] == "place":
                    rec.place(1)
                    rec.detect(1)
                elif op[0] == "run":
                    rec.run(1)
                elif op[0] == "reset":
                    rec.reset(1)
                elif op[0] == "custom":
                    rec.custom(1, op[1], op[2])
                if rec.inspecting:
                    for w in ("view3", "view4", "viewc", "seq", "idx", "tab", "v1", "nb", "ids", "sgid", "bgid", "sig"):
                        rec.inspect(1, w)
                look()
        except R.Ended:
            vals.append(-1)
        out[p["id"]] = vals
    print("\n@@RESULT " + json.dumps(out))


main()
