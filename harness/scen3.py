"""Scenarios: seeds across processes, ensembles and their files, launches, curve crossings."""
import contextlib
import glob
import itertools
import json
import math
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

import numpy as np

import orders
from rec import BAD, KINDS, Ended, Rec, integer, num, pair, scaled
from scen import scen
from scen2 import ALLKINDS, PLAIN
from source_py.simulation.index import Index

HERE = os.path.dirname(os.path.abspath(__file__))
BIG = 1000000


# ---------------------------------------------------------------- P16
@scen("P16")
def j_seeds(ctx):
    """the same seeded programs in processes with different histories and hash randomisation"""
    for rep in range(ctx.n(12, 80)):
        def f(rec, rng, rep=rep):
            progs = []
            for k in range(ctx.n(14, 20)):
                kind = ALLKINDS[(rep + k) % 5]
                L = rng.choice((2, 3, 4, 5, 6))
                seed = rng.choice((0, 1, 2, rng.randrange(10**6), rng.randrange(10**12), -rng.randrange(1, 1000),
                                   "run %d" % rng.randrange(99), rng.random(), 2**70 + rng.randrange(99)))
                ops = []
                n = 0
                for _ in range(rng.randrange(2, 9)):
                    r = rng.random()
                    if r < .15:
                        ops.append(["reset"])
                        n = 0
                    elif r < .45:
                        ops.append(["run"])
                        n = L * L
                    elif r < .6 and n == 0:
                        l = rng.sample(range(L * L), rng.randrange(1, L * L + 1))
                        ops += [["custom", l, rng.random() < .7], ["run"], ["reset"]]
                        n = 0
                    else:
                        for _ in range(rng.randrange(1, 6)):
                            ops.append(["place"])
                            n += 1
                progs.append({"id": "p%d" % k, "kind": kind, "L": L, "seed": seed, "ops": ops})
            for h, hs in ((0, "0"), (1, "1"), (2, "random"), (3, "77")):
                env = dict(os.environ)
                env["PYTHONHASHSEED"] = hs
                q = subprocess.run([sys.executable, os.path.join(HERE, "child16.py"), str(h)], input=json.dumps(progs),
                                   env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
                m = re.search(r"^@@RESULT (.*)$", q.stdout, re.M)
                if not m:
                    rec.emit({"k": "exc", "op": "seeded programs", "msg": q.stderr[-300:]})
                    raise Ended()
                res = json.loads(m.group(1))
                for p in progs:
                    if -1 in res[p["id"]]:
                        rec.emit({"k": "exc", "op": "seeded program", "msg": json.dumps(p)[:300]})
                        raise Ended()
                    rec.memo(p["id"], res[p["id"]], "P16.same")
        yield "seeds %d" % rep, f


@scen("P16")
def j_seeds_inside(ctx):
    """two simulators with the same seed one after the other in one process, stepwise"""
    for rep in range(ctx.n(20, 150)):
        def f(rec, rng, rep=rep):
            kind = ALLKINDS[rep % 5]
            L = rng.choice((2, 3, 4, 5, 7))
            seed = rng.choice((0, rng.randrange(10**9)))
            script = rng.randrange(10**9)
            for i in (1, 2, 3):
                if i == 2:
                    random.random()
                if i == 3:
                    rec.new(9, rng.choice(ALLKINDS), 3, rng.randrange(99))
                    rec.run(9)
                rec.new(i, kind, L, seed)
                r = random.Random(script)
                for k in range(r.randrange(1, 2 * L * L)):
                    rec.place(i)
                    rec.detect(i)
                    if i == 3 and r.random() < 2:
                        rec.inspect(i, ("view3", "v1", "seq", "tab", "viewc")[k % 5])
                    rec.memo("s%d" % k, rec._flat2(rec.look(i, ("occ", "pool", "rel", "h", "m", "w", "pc", "idx"))), "P16.same")
                rec.reset(i)
                rec.run(i, (), ())
                rec.memo("run", rec._flat2(rec.look(i, ("occ", "pool", "rel", "h", "m", "w", "pc", "idx", "tab"))), "P16.same")
        yield "inside %d" % rep, f


# ---------------------------------------------------------------- files
class InDir:
    """an own working directory with ./data"""
    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix="job-", dir=os.environ.get("VERIF_WORK", None))
        os.mkdir(os.path.join(self.d, "data"))
        os.chdir(self.d)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)
        return False

    def files(self):
        return sorted(f for f in glob.glob(os.path.join(self.d, "data", "*")))

    def others(self):
        return sorted(f for f in os.listdir(self.d) if f != "data")

    def clear(self):
        for f in self.files():
            os.unlink(f)


QUANT = (("entropy_order", "entropy"), ("critical_values", "critical"), ("percolation_cross_check_data", "single"),
         ("shortest_path_p_", "sp"))
TOKEN = {"plain": "SitePercolation_", "L0": "SitePercolationL0_", "L1": "SitePercolationL1_", "L2": "SitePercolationL2_",
         "SP": "SitePercolationshortest_path_"}


def quantity(name):
    for key, q in QUANT:
        if key in name:
            return q
    return "?"


def parse(fn):
    """name, header and numbers of a result file"""
    name = os.path.basename(fn)
    r = {"name": name, "q": quantity(name)}
    m = re.search(r"_L(\d+)_", name)
    r["L"] = int(m.group(1)) if m else -1
    m = re.search(r"_th(\d+)\.txt$", name)
    r["th"] = int(m.group(1)) if m else -1
    head, data = {}, []
    text = open(fn).read()
    if r["q"] == "single":
        try:
            head = json.loads(text)
        except ValueError:
            head = {}
    else:
        hl = [l[1:].strip() for l in text.splitlines() if l.startswith("#")]
        try:
            head = json.loads(" ".join(hl))
        except ValueError:
            head = {}
        for l in text.splitlines():
            if l.strip() and not l.startswith("#"):
                try:
                    data.append([float(v) for v in l.split()])
                except ValueError:
                    data.append([])
    r["head"], r["data"] = head, data
    return r


def hint(head, key):
    v = head.get(key, -1)
    return v if isinstance(v, int) and not isinstance(v, bool) else -1


def meaning(head, table):
    """the quantity each column holds according to names and descriptions"""
    out = []
    desc = {}
    for d in head.get("desc", []):
        a, _, b = str(d).partition("=")
        desc[a.strip()] = b.lower()
    for c in head.get("columns", []):
        t = desc.get(str(c), str(c).lower())
        hit = [q for q, words in table for w in words if w in t]
        out.append(hit[0] if len(set(hit)) == 1 else 0)
    return out


T_ENTROPY = ((1, ("occupation",)), (2, ("entropy",)), (3, ("largest",)), (4, ("wrapping",)))
T_CRIT = ((1, ("critical",)), (2, ("site count",)), (3, ("bond count",)))
T_SP = ((1, ("critical",)), (2, ("shortest",)))


def file_event(rec, r, kind, L, n, worker, width, sig=None, q=None):
    h = r["head"]
    tok = TOKEN[kind] if sig is None else sig
    return rec.emit({"k": "file", "L": L, "n": n, "worker": worker, "hL": hint(h, "L"), "hlength": hint(h, "length"),
                     "hEn": hint(h, "En"), "hsize": hint(h, "ensemble_size"), "fL": r["L"], "th": r["th"],
                     "sigok": 1 if r["name"].startswith(tok) else 0, "qok": 1 if r["q"] != "?" and (q is None or r["q"] == q) else 0,
                     "ncols": len(h.get("columns", [])), "width": width, "file": r["name"]})


def recorded(kind, log):
    """the simulator class, noting each realization as it ends"""
    base = KINDS[kind]

    class Noted(base):
        def run_once(self):
            lat = self.lattice_ref
            N = len(list(lat.get_site_id_list()))
            occ0 = sum(1 for k in range(N) if lat.get_site_by_id(k).is_occupied())
            got, order = set(), []
            self.__dict__["_watch"] = (got, order, N)
            super().run_once()
            self.__dict__.pop("_watch", None)
            e = {"fresh": occ0, "order": order, "N": N}
            if kind == "SP":
                e["row"] = [float(self.get_pc()), float(self.get_shortest_path_p())]
            else:
                e["tab"] = np.array(self.get_data_array(), dtype=float).tolist()
                e["crit"] = [float(self.get_pc()), self.get_site_count_wrapping_cluster_pc(),
                             self.get_bond_count_wrapping_cluster_pc()]
                e["pc"] = [num(self.get_pc(), N), integer(e["crit"][1]), integer(e["crit"][2])]
            log.append(e)

        def place_one_site(self, *a, **kw):
            r = super().place_one_site(*a, **kw)
            w = self.__dict__.get("_watch")
            if w:
                got, order, N = w
                for k in range(N):
                    if k not in got and self.lattice_ref.get_site_by_id(k).is_occupied():
                        got.add(k)
                        order.append(k)
            return r
    Noted.__name__ = base.__name__
    Noted.__qualname__ = base.__qualname__
    return Noted


def tabint(t):
    return [[pair(v) for v in r] for r in t]


def tabscaled(t):
    return [[scaled(v, BIG) for v in r] for r in t]


def critint(rows, N):
    return [[num(r[0], N)] + [integer(v) for v in r[1:]] if r else [] for r in rows]


@scen("P19")
def j_many(ctx):
    """ensembles of more realizations than any small one, many of them alike"""
    from run_py import ensemble
    for rep in range(ctx.n(8, 40)):
        def f(rec, rng, rep=rep):
            form = ("v2", "plain", "v2seed", "threads")[rep % 4]
            kind = ("L0", "L1", "L2", "plain")[rng.randrange(4)]
            L = rng.choice((2, 2, 3, 4))
            n = rng.choice((51, 64, 100, 101, 128, 150)) if rep else 300
            if rep == 1:
                L, n = rng.choice((26, 33)), 2
            if rep in (2, 3, 4):      # past 512 and 1000
                form = ("threads", "v2", "plain")[rep - 2]
                L, n = 2, rng.choice((1030, 1100, 1300))
            rec.limit = 120
            rec.trace["Ls"] = [L]
            one_ensemble(rec, rng, ensemble, form, kind, L, n, rng.choice((0, 3, 101)))
        yield "many %d" % rep, f


def one_ensemble(rec, rng, ensemble, form, kind, L, n, th):
    with InDir() as d:
        for again in range(rng.choice((1, 1, 2)) if n < 50 else 1):
            d.clear()
            log = []
            cls = recorded(kind, log)
            if form == "plain":
                rec.call("run_ensemble_entropy_order", ensemble.run_ensemble_entropy_order, cls, L, n)
            elif form == "threads":
                rec.call("run_ensemble_entropy_order_threads", ensemble.run_ensemble_entropy_order_threads, cls, L, n, th)
            else:
                seed = rng.choice((0, 5, rng.randrange(10**6))) if form == "v2seed" else None
                rec.call("run_ensemble_entropy_order_threads_v2", ensemble.run_ensemble_entropy_order_threads_v2,
                         cls, L, n, thread_count=th, seed=seed)
            worker = -1 if form == "plain" else th
            fe = find(rec, d, "entropy")[0]
            file_event(rec, fe, kind, L, n, worker, len(fe["data"][0]) if fe["data"] else 0)
            e = {"k": "ens", "L": L, "n": n, "tabs": [tabint(x["tab"]) for x in log], "mean": tabint(fe["data"]),
                 "fresh": [x["fresh"] for x in log], "orders": [x["order"] for x in log],
                 "qcols": meaning(fe["head"], T_ENTROPY), "crit": critint([x["crit"] for x in log], L * L)}
            if form != "threads":
                fc = find(rec, d, "critical")[0]
                file_event(rec, fc, kind, L, n, worker, len(fc["data"][0]) if fc["data"] else 0)
                e["critf"] = critint(fc["data"], L * L)
                e["qcrit"] = meaning(fc["head"], T_CRIT)
            rec.emit(e)


def find(rec, d, q, n=1):
    fs = [parse(f) for f in d.files()]
    hit = [r for r in fs if r["q"] == q]
    if len(hit) != n:
        rec.emit({"k": "exc", "op": "result file", "msg": "%d files of kind %s: %s" % (len(hit), q, [r["name"] for r in fs])})
        raise Ended()
    return hit


@scen("P19", "P21")
def j_ensemble(ctx):
    """ensembles of recorded realizations and the files they write"""
    from run_py import ensemble
    forms = ("plain", "threads", "v2", "v2seed")
    for rep in range(ctx.n(48, 300)):
        def f(rec, rng, rep=rep):
            form = forms[rep % 4]
            kind = ("L0", "L1", "L2", "plain")[(rep // 4) % 4]
            L = rng.choice((2, 3, 4, 5, 6)) if rep % 7 else 10
            n = rng.choice((1, 2, 3, 5, 7, 12)) if rep % 5 else rng.choice((20, 33))
            if L == 10:
                n = min(n, 5)
            th = rng.choice((0, 1, 2, 7, 12))
            rec.trace["Ls"] = [L]
            one_ensemble(rec, rng, ensemble, form, kind, L, n, th)
        yield "ensemble %d" % rep, f


def writer(which):
    """the function that writes this kind of file (None if there is no such function any more)"""
    from run_py import ensemble, shortest_path_run
    return (getattr(ensemble, "write_entropy_order", None), getattr(ensemble, "write_critical_values", None),
            getattr(shortest_path_run, "write_p_p_star", None))[which]


@scen("P21")
def j_writers(ctx):
    """the file writers called directly"""
    from run_py import ensemble, shortest_path_run
    from datetime import datetime
    for rep in range(ctx.n(30, 150)):
        def f(rec, rng, rep=rep):
            which = rep % 3
            L = rng.choice((3, 5, 10, 17, 100, 256))
            n = rng.choice((1, 2, 7, 100, 5000))
            th = rng.choice((None, 0, 1, 3, 11))
            rec.trace["Ls"] = [3]
            kind = rng.choice(ALLKINDS)
            with InDir() as d:
                now = datetime(2000 + rng.randrange(30), rng.randrange(1, 13), rng.randrange(1, 28), rng.randrange(24),
                               rng.randrange(60), rng.randrange(60))
                ct = now.strftime("%Y%m%d_%H%M%S")
                sig = TOKEN[kind]
                cols = (4, 3, 2)[which]
                data = [[rng.random() for _ in range(cols)] for _ in range(rng.randrange(1, 9))]
                if which == 2:
                    for r in data:
                        r.sort()
                fn = writer(which)
                if fn is None:
                    return
                rec.call(fn.__name__, fn, ct, np.array(data), n, L, now, sig, thread_count=th)
                q = ("entropy", "critical", "sp")[which]
                r = find(rec, d, q)[0]
                file_event(rec, r, kind, L, n, -1 if th is None else th, cols, sig, q)
                rec.memo2("data", [v for row in data for v in row], "P21.data")
                rec.memo2("data", [v for row in r["data"] for v in row], "P21.data")
                if which == 0:
                    e = {"k": "ens", "L": 2, "n": 1, "tabs": [tabint(data)], "mean": tabint(r["data"]), "fresh": [0],
                         "orders": [[0]], "qcols": meaning(r["head"], T_ENTROPY), "crit": []}
                elif which == 1:
                    e = {"k": "ens", "L": 2, "n": 1, "tabs": [[]], "mean": [], "fresh": [0], "orders": [[0]],
                         "crit": tabscaled(data), "critf": tabscaled(r["data"]), "qcrit": meaning(r["head"], T_CRIT)}
                else:
                    e = {"k": "sp", "L": 2, "n": len(data), "rec": tabscaled(data), "rows": tabscaled(r["data"]),
                         "fresh": [0], "orders": [[0]], "qcols": meaning(r["head"], T_SP)}
                rec.emit(e)
        yield "writer %d" % rep, f


def shortened(base, rng):
    """a shortest-path simulator some realizations of which follow a short list"""
    class Short(base):
        def run_once(self):
            n = self.lattice_ref.length ** 2
            k = rng.choice((n, n, n * 2 // 3, n // 2, 3))
            self.set_custome_site_id_list(rng.sample(range(n), k))
            super().run_once()
    Short.__name__ = base.__name__
    Short.__qualname__ = base.__qualname__
    return Short


@scen("P21", "P26")
def j_spensemble(ctx):
    """shortest-path ensembles"""
    from run_py import shortest_path_run as spr
    for rep in range(ctx.n(24, 150)):
        def f(rec, rng, rep=rep):
            L = rng.choice((2, 3, 4, 5, 6, 8))
            n = rng.choice((1, 2, 3, 6, 11, 25))
            th = rng.choice((0, 1, 5, 12))
            seed = rng.choice((None, 0, rng.randrange(10**6)))
            if rep in (4, 9):
                L, n = (3, rng.choice((150, 210, 260))) if rep == 9 else (2, rng.choice((1030, 1200)))
            if rep in (3, 7):
                L, n = ((18, 26)[rep // 7], 2)
            if rep in (3, 4, 7, 9):
                rec.limit = 120
            rec.trace["Ls"] = [L]
            short = rep % 3 == 2      # some realizations follow a list that ends before there is a line
            if short:
                L, n = max(L, 4), rng.choice((5, 11, 60))
                rec.trace["Ls"] = [L]
            with InDir() as d:
                log = []
                cls = recorded("SP", log)
                if short:
                    cls = shortened(cls, rng)
                rec.call("ensemble_shortest_path_v2_thread", spr.ensemble_shortest_path_v2_thread, cls, L, n,
                         thread_count=th, seed=seed)
                r = find(rec, d, "sp")[0]
                file_event(rec, r, "SP", L, n, th, len(r["data"][0]) if r["data"] else 0)
                N = L * L
                rec.emit({"k": "sp", "L": L, "n": n, "rec": [[num(v, N) for v in x["row"]] for x in log],
                          "rows": [[num(v, N) for v in x] for x in r["data"]], "fresh": [x["fresh"] for x in log],
                          "orders": [x["order"] for x in log], "qcols": meaning(r["head"], T_SP),
                          "partial": 1 if short else 0})
                # the realizations themselves, through the model
                rec.emit({"k": "new", "id": 1, "kind": "SP", "L": L})
                for x in log:
                    if short:
                        l = x["order"] + [s for s in range(N) if s not in x["order"] and x["row"][1] > 0]
                        rec.emit({"k": "custom", "id": 1, "list": l, "shuf": 0, "before": [], "after": []})
                    for s in x["order"]:
                        rec.emit({"k": "spstep", "id": 1, "new": [s]})
                    rec.emit({"k": "runend", "id": 1, "o": {"star": num(x["row"][1], N)}})
                    rec.emit({"k": "reset", "id": 1})
        yield "spensemble %d" % rep, f


# ---------------------------------------------------------------- P20
class Stub:
    """a simulator that only pretends (for launches whose sizes are fixed in the code)"""
    log = None
    die_at = None
    made = None

    def __init__(self, length=None, seed=None, **kw):
        self.length = length
        type(self).made.append(length)

    def reset(self):
        pass

    def run_once(self):
        k = len(type(self).log)
        type(self).log.append((threading.get_ident(), self.length))
        if type(self).die_at is not None and k == type(self).die_at:
            type(self).log[k] = (threading.get_ident(), -1)
            raise RuntimeError("worker dies (injected)")

    def get_data_array(self):
        return np.ones((4, 4))

    def get_pc(self):
        return .5

    def get_site_count_wrapping_cluster_pc(self):
        return 1

    def get_bond_count_wrapping_cluster_pc(self):
        return 1

    def get_signature(self):
        return "SitePercolationL0_"


def patched(cls, logfile, kind, die=None, slow=None, nap=1.05):
    """note every completed realization of this process; returns an undo function"""
    had = "run_once" in cls.__dict__
    orig = cls.run_once

    def run_once(self):
        if slow is not None:
            with slow.get_lock():
                mine = slow.value == 0
                slow.value = 1
            if mine:
                time.sleep(nap)
        if die is not None:
            with die.get_lock():
                die.value -= 1
                now = die.value == 0
            if now:
                os._exit(3)
        orig(self)
        fd = os.open(logfile, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (json.dumps([os.getpid(), type(self).__name__, self.lattice_ref.length,
                                  [int(q) for q in self.get_site_id_sequence()]]) + "\n").encode())
        os.close(fd)
    cls.run_once = run_once

    def undo():
        if had:
            cls.run_once = orig
        else:
            del cls.run_once
    return undo


class Hurry:
    """waiting for a worker or thread with a time limit: the limit passes two hundred times as fast"""
    def __enter__(self):
        import multiprocessing.process as mp
        self.undo = []
        for c in (mp.BaseProcess, threading.Thread):
            def join(me, timeout=None, orig=c.join):
                return orig(me, None if timeout is None else timeout / 200)
            self.undo.append((c, c.join))
            c.join = join
        return self

    def __exit__(self, *a):
        for c, j in self.undo:
            c.join = j


def align():
    """begin shortly after the start of a second, so that all workers finish within it"""
    t = time.time()
    w = 1.0 - (t - math.floor(t)) + .02
    time.sleep(w if w < 1 else 0.02)


def launch_event(rec, d, n, k, L, kind, qs, dead, runs, seqs=()):
    files, extra = [], []
    for fn in d.files():
        r = parse(fn)
        if r["q"] not in qs:
            extra.append(r["name"])
            continue
        files.append({"q": r["q"], "th": r["th"], "en": hint(r["head"], "En"), "L": r["L"],
                      "rows": len(r["data"]) if r["q"] in ("critical", "sp") else -1,
                      "kindok": 1 if r["name"].startswith(TOKEN[kind]) and hint(r["head"], "L") == r["L"] else 0})
    least = n - (n // k + n % k) if k <= n else n - 1
    rec.emit({"k": "launch", "n": n, "kk": k, "L": L, "qs": list(qs), "files": files, "runs": runs, "dead": dead,
              "least": least, "extra": extra, "orders": list(seqs) if L > 3 else []})


def read_runs(logf, cls, L):
    runs, seqs = {}, []
    if os.path.exists(logf):
        for l in open(logf):
            pid, name, ll, seq = json.loads(l)
            r = runs.setdefault(pid, {"count": 0, "kindok": 1, "L": L})
            r["count"] += 1
            seqs.append(seq)
            if name != cls.__name__:
                r["kindok"] = 0
            if ll != L:
                r["L"] = ll
    return list(runs.values()), seqs


@scen("P20")
def j_twice(ctx):
    """the same launch twice: no realization is a copy of another, within a launch or between the two"""
    from run_py import rsbd_percolatioin_run as rr, shortest_path_run as spr
    for rep in range(ctx.n(5, 20)):
        def f(rec, rng, rep=rep):
            form = ("v3", "v4-0", "v4-1", "v4-2", "sp")[rep % 5]
            kind = {"v3": "L0", "v4-0": "L0", "v4-1": "L1", "v4-2": "L2", "sp": "SP"}[form]
            L, n, k = rng.choice((5, 6, 8)), rng.randrange(2, 9), rng.choice((2, 3))
            rec.trace["Ls"] = [3]
            with InDir() as d:
                logf = os.path.join(d.d, "runs.log")
                undo = patched(KINDS[kind], logf, kind)
                try:
                    for _ in range(2):
                        if form == "v3":
                            rec.call("run_simulation_threads_v3", rr.run_simulation_threads_v3, L, n, k)
                        elif form == "sp":
                            rec.call("run_simulation_shortest_path_threads", spr.run_simulation_shortest_path_threads, L, n, k)
                        else:
                            rec.call("run_simulation_threads_v4", rr.run_simulation_threads_v4, L, n, k, int(form[-1]))
                finally:
                    undo()
                    for p in multiprocessing.active_children():
                        p.kill()
                runs, seqs = read_runs(logf, KINDS[kind], L)
                rec.emit({"k": "launch", "n": 2 * n, "kk": 2 * k, "L": L, "qs": [], "files": [], "runs": runs, "dead": 0,
                          "least": 0, "extra": [], "orders": seqs})
        yield "twice %d" % rep, f


@scen("P20")
def j_launch(ctx):
    """real launches of worker processes"""
    from run_py import rsbd_percolatioin_run as rr, shortest_path_run as spr
    cases = list(range(ctx.n(35, 125)))
    for rep in cases:
        def f(rec, rng, rep=rep):
            form = ("v3", "v4-0", "v4-1", "v4-2", "sp")[rep % 5]
            long = rep >= len(cases) - 5        # one worker takes very much longer than the others
            kind = {"v3": "L0", "v4-0": "L0", "v4-1": "L1", "v4-2": "L2", "sp": "SP"}[form]
            k = rng.choice((1, 2, 3, 4, 5)) if rep % 7 else rng.choice((10, 11, 12, 13))
            n = rng.choice((k, k + 1, 2 * k + rng.randrange(k), rng.randrange(1, 10), 3 * k - 1 or 1, max(1, k - 1), 7))
            L = rng.choice((3, 4, 5))
            regime = (rep // 5) % 7            # each form meets: fewer realizations than workers, as many, one more, ...
            if regime in (0, 3):
                k = max(k, 2)
                n = rng.randrange(1, k)
            elif regime == 2:
                k, n = 1, rng.choice((1, 4, 7))
            elif regime == 4:
                k = max(k, 2)
                n = k * rng.choice((1, 2, 3))
            W = min(n, k)
            mode = ("plain", "dead", "plain", "slow")[(rep // 5) % 4] if not long else "slow"
            rec.trace["Ls"] = [L]
            cls = KINDS[kind]
            with InDir() as d:
                logf = os.path.join(d.d, "runs.log")
                ctxm = multiprocessing.get_context("fork")
                die = ctxm.Value("i", rng.randrange(1, n + 1)) if mode == "dead" else None
                slow = ctxm.Value("i", 0) if mode == "slow" else None
                undo = patched(cls, logf, kind, die, slow, ctx.n(4, 70) if long else 1.05)
                rec.limit = 150 if long else rec.limit
                # (a worker that takes ten minutes longer than the others: see Hurry)
                hurry = Hurry() if long and (ctx.tier == "quick" or rep % 2) else contextlib.nullcontext()
                try:
                    align()
                    with hurry:
                        if form == "v3":
                            rec.call("run_simulation_threads_v3", rr.run_simulation_threads_v3, L, n, k)
                        elif form == "sp":
                            rec.call("run_simulation_shortest_path_threads", spr.run_simulation_shortest_path_threads, L, n, k)
                        else:
                            rec.call("run_simulation_threads_v4", rr.run_simulation_threads_v4, L, n, k, int(form[-1]))
                finally:
                    undo()
                    for p in multiprocessing.active_children():
                        p.kill()
                runs, seqs = read_runs(logf, cls, L)
                launch_event(rec, d, n, k, L, kind, ("sp",) if form == "sp" else ("entropy", "critical"),
                             1 if mode == "dead" else 0, runs, seqs)
        yield "launch %d" % rep, f


@scen("P20")
def j_names(ctx):
    """many workers writing at the same moment: every worker has its own files"""
    from run_py import ensemble, shortest_path_run
    from datetime import datetime
    for rep in range(ctx.n(9, 45)):
        def f(rec, rng, rep=rep):
            which = rep % 3
            fn = writer(which)
            if fn is None:
                return
            q = ("entropy", "critical", "sp")[which]
            kind = "SP" if which == 2 else rng.choice(("L0", "L1", "L2"))
            L = rng.choice((3, 12, 128, 1000))
            ths = sorted(rng.sample(range(250), 25)) + [300, 1000, 1001] if rep % 2 else list(range(24))
            rec.trace["Ls"] = [3]
            now = datetime(2001, 2, 3, 4, 5, 6)
            with InDir() as d:
                for th in ths:
                    n = rng.randrange(1, 9)
                    data = np.array([[.5] * (4, 3, 2)[which]] * n)
                    rec.call(fn.__name__, fn, now.strftime("%Y%m%d_%H%M%S"), data, 1, L, now, TOKEN[kind], thread_count=th)
                files = []
                for x in d.files():
                    r = parse(x)
                    files.append({"q": r["q"], "th": r["th"], "en": hint(r["head"], "En"), "L": r["L"], "rows": -1,
                                  "kindok": 1 if r["name"].startswith(TOKEN[kind]) and r["th"] in ths else 0})
                K = len(ths)
                rec.emit({"k": "launch", "n": K, "kk": K, "L": L, "qs": [q], "files": files,
                          "runs": [{"count": 1, "kindok": 1, "L": L}] * K, "dead": 0, "least": 0,
                          "extra": [x["q"] for x in files if x["q"] != q]})
        yield "names %d" % rep, f


@scen("P20")
def j_threads(ctx):
    """the two launches with fixed sizes, with a stand-in simulator"""
    from run_py import rsbd_percolatioin_run as rr
    from source_py.simulation import percolation_sq_lattice_L0 as m0
    for name in ("run_simulation_threads", "run_simulation_threads_v2"):
        for dead in (0, 1):
            def f(rec, rng, name=name, dead=dead):
                rec.trace["Ls"] = [3]
                if not hasattr(rr, name):
                    return
                with InDir() as d:
                    pr, pw = os.pipe()
                    pid = os.fork()
                    if pid == 0:
                        try:
                            os.close(pr)
                            sys.stdout = sys.stderr = open(os.devnull, "w")

                            class SitePercolationL0(Stub):
                                log, made = [], []
                                die_at = 100 if dead else None
                            m0.SitePercolationL0 = SitePercolationL0
                            threading.excepthook = lambda a: None
                            # announce whether the stand-in is used at all
                            wrong = []

                            def go():
                                try:
                                    getattr(rr, name)()
                                except BaseException as e:
                                    wrong.append(repr(e)[:120])
                            t = threading.Thread(target=go)
                            t.start()
                            t0 = time.time()
                            while t.is_alive() and not SitePercolationL0.made and time.time() - t0 < 6:
                                time.sleep(.02)
                            if wrong and not t.is_alive():
                                os.write(pw, json.dumps({"used": 1, "done": 0, "wrong": wrong[0]}).encode())
                                os._exit(0)
                            if not SitePercolationL0.made:
                                os.write(pw, json.dumps({"used": 0}).encode())
                                os._exit(0)
                            t.join(60)
                            if wrong:
                                os.write(pw, json.dumps({"used": 1, "done": 0, "wrong": wrong[0]}).encode())
                                os._exit(0)
                            res = {"used": 1, "done": 0 if t.is_alive() else 1, "log": SitePercolationL0.log,
                                   "made": SitePercolationL0.made}
                            os.write(pw, json.dumps({"used": 1, "done": res["done"]}).encode())
                            json.dump(res, open(os.path.join(d.d, "res.json"), "w"))
                        finally:
                            os._exit(0)
                    os.close(pw)
                    got = b""
                    while True:
                        b = os.read(pr, 65536)
                        if not b:
                            break
                        got += b
                    os.close(pr)
                    os.waitpid(pid, 0)
                    if not got or not json.loads(got)["used"]:
                        rec.emit({"k": "memo", "key": "stand-in not used: " + name, "val": [0], "clause": "x", "tol": 0})
                        return
                    if json.loads(got).get("wrong"):
                        rec.emit({"k": "exc", "op": name, "msg": json.loads(got)["wrong"]})
                        return
                    res = json.load(open(os.path.join(d.d, "res.json")))
                    if not res["done"]:
                        rec.emit({"k": "exc", "op": name, "msg": "did not finish"})
                        return
                    runs = {}
                    lens = set()
                    for ident, ll in res["log"]:
                        r = runs.setdefault((ident, ll), {"count": 0, "kindok": 1, "L": 0})
                        r["count"] += 1
                    runs = {a: b for a, b in runs.items() if a[1] != -1}
                    lens = {ll for _, ll in res["log"] if ll != -1}
                    files = []
                    for fn in d.files():
                        r = parse(fn)
                        files.append({"q": r["q"], "th": r["th"], "en": hint(r["head"], "En"), "L": 0 if r["L"] in lens else r["L"],
                                      "rows": -1, "kindok": 1 if r["name"].startswith(TOKEN["L0"]) and hint(r["head"], "L") == r["L"] else 0})
                    if name == "run_simulation_threads":
                        # each length is a launch of its own: only totals per file are known
                        n = sum(x["en"] for x in files)
                        k = 3
                        if dead:
                            n = n // 2 * 3
                        ok = sorted(b["count"] for b in runs.values())
                        if not dead:
                            rec.memo("per length", sorted(x["en"] for x in files), "P20.ran")
                            rec.memo("per length", ok, "P20.ran")
                    else:
                        n, k = 1000, 2
                    rec.emit({"k": "launch", "n": n, "kk": k, "L": 0, "qs": ["entropy"], "files": files,
                              "runs": list(runs.values()), "dead": dead, "least": 1,
                              "extra": [x["q"] for x in files if x["q"] != "entropy"]})
            yield "%s dead=%d" % (name, dead), f


# ---------------------------------------------------------------- P25
@scen("P25", "P21")
def j_single(ctx):
    """the stored reference realization against the run it came from, replayed from the file"""
    from run_py import rsbd_percolatioin_run as rr
    for rep in range(ctx.n(32, 200)):
        def f(rec, rng, rep=rep):
            kind = ("plain", "L0", "L1", "L2")[rep % 4]
            L = rng.choice((2, 3, 4, 5, 6, 8)) if rep // 4 % 4 else rng.choice((7, 9, 10, 11, 12))
            if rep in (4, 9, 14, 20, 22, 27):   # more than a thousand sites (L0), more than any small number (L1, L2)
                L = {4: 33, 9: 17, 14: 20, 20: (64, 65, 70)[rng.randrange(3)], 22: 50, 27: 45}[rep]
                rec.limit = 120
            N = L * L
            with InDir() as d:
                log = []
                cls = recorded(kind, log)
                rec.call("single_realization", rr.single_realization, cls, L)
                r = find(rec, d, "single")[0]
            h = r["head"]

            def arr(key):
                v = h.get(key)
                return v if isinstance(v, list) else []
            if ctx.pid == "P21":
                rec.trace["Ls"] = [L]
                rec.emit({"k": "file", "L": L, "n": 1, "worker": -1, "hL": hint(h, "L"), "hlength": hint(h, "length"), "hEn": 1,
                          "hsize": 1, "fL": r["L"], "th": r["th"], "sigok": 1 if r["name"].startswith(TOKEN[kind]) else 0,
                          "qok": 1, "ncols": len(h.get("columns", [])), "width": 4, "file": r["name"]})
                rec.memo("cols", [1, 2, 3, 4], "P21.columns")
                rec.memo("cols", meaning(h, T_ENTROPY), "P21.columns")
                return
            if rec.call("length", lambda: len(log)) != 1:
                rec.memo("runs", [1], "P25.thatrun")
                rec.memo("runs", [len(log)], "P25.thatrun")
            x = log[-1]
            seq = [integer(v) for v in arr("site_id_sequence")]
            idx = [[integer(c) for c in v] if isinstance(v, list) else [BAD] for v in arr("site_index_sequence")]
            H = [rec.hscaled(v) for v in arr("entropy_list")]
            M = [num(v, 2 * N) for v in arr("order_largest_list")]
            W = [num(v, 2 * N) for v in arr("order_wrapping_list")]
            pc = [num(h.get("pc"), N), integer(h.get("site_count_wrapping_cluster_pc")),
                  integer(h.get("bond_count_wrapping_cluster_pc"))]
            # that very run
            rec.memo("order", x["order"], "P25.thatrun")
            rec.memo("order", seq, "P25.thatrun")
            rec.memo("positions", [c for s in x["order"] for c in divmod(s, L)], "P25.positions")
            rec.memo("positions", [c for p in idx for c in p], "P25.positions")
            rec.memo("size", [L, L, N, N, N], "P25.size")
            rec.memo("size", [hint(h, "L"), hint(h, "length"), len(H), len(M), len(W)], "P25.size")
            rec.memo("crit", x["pc"], "P25.thatrun")
            rec.memo("crit", pc, "P25.thatrun")
            for key, col, name in (("H", 1, "entropy_list"), ("M", 2, "order_largest_list"), ("W", 3, "order_wrapping_list")):
                rec.memo2(key, [q[col] for q in x["tab"]], "P25.thatrun")
                rec.memo2(key, arr(name), "P25.thatrun")
            rec.memo2("pc", [x["crit"][0]], "P25.thatrun")
            rec.memo2("pc", [h.get("pc")], "P25.thatrun")
            # the file's order through the model
            rec.trace["Ls"].append(L)
            ok = sorted(seq) == list(range(N)) and len(H) == len(M) == len(W) == N
            if L > 40:
                rec.trace["Ls"] = [3]
            if ok:
                if L <= 40:
                    rec.emit({"k": "new", "id": 50, "kind": "plain", "L": L})
                    for s, a, b, c in zip(seq, H, M, W):
                        rec.emit({"k": "row", "id": 50, "new": [s], "h": a, "m": b, "w": c})
                    rec.emit({"k": "runend", "id": 50, "o": {"pc": pc, "seq": seq, "idx": idx}})
                # and both sequences through the plain simulator
                for j, form in enumerate(("id", "pair", "index")):
                    if L > 40:
                        x = rec.call("new", lambda: KINDS["plain"](length=L))
                        if form == "id":
                            rec.call("set_custom", x.set_custome_site_id_list, seq)
                        else:
                            rec.call("set_custom", x.set_custome_site_index_list,
                                     [Index(*p) if form == "index" else tuple(p) for p in idx])
                        rec.call("run", x.run_once)
                        rec.memo("crit", [num(x.get_pc(), N), integer(x.get_site_count_wrapping_cluster_pc()),
                                          integer(x.get_bond_count_wrapping_cluster_pc())], "P25.replay")
                        T = rec.call("get_data_array", lambda: np.array(x.get_data_array()).tolist())
                        for key, col in (("H", 1), ("M", 2), ("W", 3)):
                            rec.memo2(key, [q[col] for q in T], "P25.replay", 1000)
                        continue
                    rec.new(j + 1, "plain", L, rng.randrange(10**6))
                    rec.custom(j + 1, seq if form == "id" else [p[0] * L + p[1] for p in idx], False, form)
                    rec.run(j + 1, (), ())
                    o = rec.look(j + 1, ("pc", "tab"))
                    rec.memo("crit", o["pc"], "P25.replay")
                    T = rec.call("get_data_array", lambda: np.array(rec.sims[j + 1].obj.get_data_array()).tolist())
                    for key, col in (("H", 1), ("M", 2), ("W", 3)):
                        rec.memo2(key, [q[col] for q in T], "P25.replay", 1000)
        yield "single %d" % rep, f


# ---------------------------------------------------------------- P24
class Axes:
    def __getattr__(self, name):
        def f(*a, **kw):
            for v in a:
                np.asarray(v, dtype=float) if not isinstance(v, str) else None
            return []
        return f


@scen("P24")
def j_cross(ctx):
    """every pattern of signs of the difference of two curves up to a length"""
    from source_py.analyze import lines
    pats = []
    for n in range(2, ctx.n(7, 9)):
        pats += list(itertools.product((-1, 0, 1), repeat=n))
    size = 60
    for part in range(0, len(pats), size):
        def f(rec, rng, ps=pats[part:part + size]):
            rec.trace["Ls"] = [3]
            for p in ps:
                cross(rec, rng, lines, p)
        yield "cross %d" % part, f
    for rep in range(ctx.n(12, 80)):
        def f(rec, rng, rep=rep):
            rec.trace["Ls"] = [3]
            for _ in range(12):
                n = rng.choice((10, 30, 80))
                if rep % 2:
                    k = rng.randrange(1, n)
                    s = rng.choice((-1, 1))
                    p = [s] * k + [-s] * (n - k)
                    z = rng.choice((0, 0, 1, 2))
                    for q in range(z):
                        p[min(n - 1, k + q)] = 0
                else:
                    p = [rng.choice((-1, 1, 1, 1, -1, -1, 0)) for _ in range(n)]
                cross(rec, rng, lines, p)
        yield "long %d" % rep, f
    for rep in range(ctx.n(8, 60)):
        def f(rec, rng, rep=rep):
            rec.trace["Ls"] = [3]
            for _ in range(6):
                # many samples, differences of any magnitude
                n = rng.choice((60, 300, 1001, 1500, 5000) if _ < 2 else (8, 20, 60))
                k = rng.randrange(1, n)
                s = rng.choice((-1, 1))
                p = [s] * k + [-s] * (n - k)
                for q in range(rng.choice((0, 0, 0, 1, 2))):
                    p[min(n - 1, k + q)] = 0
                mag = rng.choice(((-12, 0), (-300, 300), (-16, -9), (0, 15), (-3, -3)))
                d = np.array([v * 10.0 ** rng.uniform(*mag) for v in p])
                if rng.random() < .3:       # tiny next to the crossing, large elsewhere
                    for q in range(max(0, k - 3), min(n, k + 3)):
                        d[q] = p[q] * 10.0 ** rng.uniform(-16, -9)
                z = np.zeros(n)
                A, B = (d, z) if rng.random() < .5 else (z, -d)
                i1 = rec.call("find_intersection", lines.find_intersection, A, B)
                i2 = rec.call("find_intersection_and_plot", lines.find_intersection_and_plot, A, B, ax=Axes())
                rec.emit({"k": "cross", "a": p, "b": [0] * n, "idx": integer(i1), "plot": integer(i2)})
        yield "magnitudes %d" % rep, f


def cross(rec, rng, lines, p):
    b = [rng.randrange(-50, 50) for _ in p]
    big = rng.choice((1, 5, 100))
    a = [y + s * rng.randrange(1, big + 1) for y, s in zip(b, p)]
    dt = rng.choice((float, float, int))
    scale = rng.choice((1.0, 0.01, 1e-6, 1e-11, 1e9)) if dt is float else 1
    A, B = np.array(a, dtype=dt) * scale, np.array(b, dtype=dt) * scale
    if dt is float and scale != 1.0:
        # keep exact zeros
        A = np.where(np.array(a) == np.array(b), B, A)
    col = rng.choice((None, 0, 1, 2))
    args = (A, B)
    if col is not None:
        X, Y = np.full((len(a), 3), 7.0), np.full((len(a), 3), 3.0)
        X[:, (col + 1) % 3] = np.arange(len(a))
        X[:, col], Y[:, col] = A, B
        args = (X, Y, col)
    keep = [np.array(v) for v in args[:2]]
    i1 = rec.call("find_intersection", lines.find_intersection, *args)
    i2 = rec.call("find_intersection_and_plot", lines.find_intersection_and_plot, *args, ax=Axes())
    rec.emit({"k": "cross", "a": a, "b": b, "idx": integer(i1), "plot": integer(i2)})
    if not all(np.array_equal(u, v) for u, v in zip(keep, args[:2])):
        rec.emit({"k": "cross", "a": a, "b": b, "idx": -1, "plot": -2})


@scen("P24")
def j_guides(ctx):
    """guide lines"""
    from source_py.analyze import lines
    for rep in range(ctx.n(10, 60)):
        def f(rec, rng, rep=rep):
            rec.trace["Ls"] = [3]
            for _ in range(20):
                pos = rng.choice((0.0, 1.0, -3.5, rng.uniform(-10, 10), rng.uniform(-10, 10), rng.uniform(0, 1)))
                lo, hi = sorted((rng.uniform(-20, 20), rng.uniform(-20, 20)))
                if rng.random() < .2:
                    lo, hi = rng.randrange(-5, 5), rng.randrange(5, 9)
                if rng.random() < .25:
                    lo, hi = hi, lo         # given the other way round
                size = rng.choice((2, 3, 10, 57, 100)) if _ > 3 else rng.choice((1001, 2500, 6000, 10001))
                mode = rng.randrange(5) if _ > 3 else 2 + _ % 2
                if mode == 0:
                    xx, yy = rec.call("draw_vertical_line_at", lines.draw_vertical_line_at, pos)
                    lo, hi, size, fixed, run = 0, 1, 100, xx, yy
                elif mode in (1, 2):
                    xx, yy = rec.call("draw_vertical_line_at", lines.draw_vertical_line_at, pos, yrange=(lo, hi), size=size)
                    fixed, run = xx, yy
                elif mode == 3:
                    xx, yy = rec.call("draw_horizontal_line_at", lines.draw_horizontal_line_at, pos, xrange=(lo, hi), size=size)
                    fixed, run = yy, xx
                else:
                    size = 100
                    xx, yy = rec.call("draw_horizontal_line_at", lines.draw_horizontal_line_at, pos, (lo, hi))
                    fixed, run = yy, xx
                def off(u, v):
                    return min(10**9, int(abs(float(u) - float(v)) * 1e12))
                rec.emit({"k": "guide", "dev": max([off(v, pos) for v in fixed] or [0]),
                          "ends": max(off(run[0], lo), off(run[-1], hi)) if len(run) else 10**9, "pos": scaled(pos, 1e6), "lo": scaled(lo, 1e6), "hi": scaled(hi, 1e6), "size": size,
                          "fixed": [scaled(v, 1e6) for v in fixed], "run": [scaled(v, 1e6) for v in run]})
        yield "guides %d" % rep, f
