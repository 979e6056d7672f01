"""Scenarios per property: each job is (name, function(rec, rng)); a job drives the
real code and leaves a trace.  Jobs are generated deterministically from the seed."""
import itertools
import random

import orders
from rec import BAD, KINDS, Rec, num, integer, scaled

JOBS = {}


def scen(*pids):
    def deco(f):
        for p in pids:
            JOBS.setdefault(p, []).append(f)
        return f
    return deco


class Ctx:
    def __init__(self, pid, tier, seed, paths):
        self.pid, self.tier, self.seed, self.paths = pid, tier, seed, paths
        self.quick = tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough


# what each lattice property looks at
FIELDS = {
    "P02": ("occ", "p"), "P03": ("pool",), "P04": ("wid",), "P05": ("rel",), "P06": ("pc",),
    "P07": ("w",), "P08": ("m", "lc"), "P09": ("h", "h1", "hd"),
}
ALLF = ("occ", "p", "pool", "wid", "rel", "pc", "w", "m", "lc", "h", "h1", "hd")


def stepwise(rec, i, order, fields, every=1, detect=True, candidate=False, install=True, stop=None):
    """place the sites of `order` one at a time, asking for wrapping after each"""
    s = rec.sims[i]
    single = s.kind in ("L1", "L2")
    if install and not single:
        rec.custom(i, order)
    reported = False
    for k, x in enumerate(order):
        if single:
            rec.custom(i, [x])
        near = every == 1 or k % every == 0 or k == len(order) - 1
        rec.place(i, () if detect else (fields if near else ()))
        if detect:
            r = rec.call("detect_wrapping", s.obj.detect_wrapping)
            first = r is True and not reported
            reported = reported or r is True
            e = rec.emit({"k": "detect", "id": i, "ret": 1 if r is True else 0})
            if near or first:
                rec._o(e, i, fields)
        if stop is not None and k + 1 >= stop:
            break


def free_steps(rec, i, fields, every=1, cap=None, limit=None):
    """let the simulator choose; until it says that nothing is left"""
    s = rec.sims[i]
    cap = cap or 60 * s.n + 200
    k = 0
    while k < cap:
        k += 1
        e = rec.place(i)
        r = rec.call("detect_wrapping", s.obj.detect_wrapping)
        d = rec.emit({"k": "detect", "id": i, "ret": 1 if r is True else 0})
        if k % every == 0 or e["ret"] != 1:
            rec._o(d, i, fields)
        if e["ret"] != 1:
            return True
        if limit is not None and len(s.occ) >= limit:
            return True
    rec.emit({"k": "exc", "op": "place_one_site", "msg": "no end after %d attempts on %d sites" % (cap, s.n)})
    return False


# ---------------------------------------------------------------- P02 .. P09
LAT = ("P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09")


@scen(*LAT)
def j_len2(ctx):
    """every order of the four sites of the smallest lattice, every kind"""
    for kind in ("plain", "L0", "L1", "L2", "SP"):
        perms = list(itertools.permutations(range(4)))
        for part in range(0, 24, 6):
            def f(rec, rng, kind=kind, ps=perms[part:part + 6]):
                rec.new(1, kind, 2, 5, FIELDS[ctx.pid])
                for k, o in enumerate(ps):
                    if k:
                        rec.reset(1, FIELDS[ctx.pid])
                    stepwise(rec, 1, list(o), FIELDS[ctx.pid])
            yield "len2 %s %d" % (kind, part), f


@scen(*LAT)
def j_cover(ctx):
    """behaviours generated by TLC from the model: a cover of its transitions (L = 3)"""
    paths = ctx.paths
    if not paths:
        return
    take = paths if not ctx.quick else paths[:ctx.n(160, 0)]
    kinds = ("plain", "L1", "L0", "L2", "plain", "SP")
    for part in range(0, len(take), 8):
        def f(rec, rng, ps=take[part:part + 8], kind=kinds[(part // 8) % len(kinds)]):
            rec.new(1, kind, 3, None)
            for k, o in enumerate(ps):
                if k:
                    rec.reset(1)
                stepwise(rec, 1, o, FIELDS[ctx.pid])
        yield "cover %d" % part, f


@scen(*LAT)
def j_struct(ctx):
    """structured orders, forced by custom lists, every step observed"""
    Ls = (3, 4, 5, 6, 7, 8)
    for rep in range(ctx.n(3, 20)):
        for fn in orders.STRUCT:
            def f(rec, rng, fn=fn, rep=rep):
                L = Ls[rng.randrange(len(Ls))]
                kind = rng.choice(("plain", "L0", "SP", "plain", "L1", "L2"))
                name, o = orders.structured(L, rng, fn)
                rec.new(1, kind, L, rng.randrange(10**6))
                heavy = ctx.pid in ("P03", "P05") and L > 6
                stepwise(rec, 1, o, FIELDS[ctx.pid], every=3 if heavy else 1)
            yield "struct %s %d" % (fn.__name__, rep), f


@scen(*LAT)
def j_random(ctx):
    """the simulator's own random orders (L1/L2: own selection rule), second realization too"""
    for rep in range(ctx.n(24, 160)):
        def f(rec, rng, rep=rep):
            kind = ("plain", "L1", "L2", "L0", "SP")[rep % 5]
            L = rng.choice((2, 3, 4, 5, 6)) if rep % 3 else rng.choice((7, 8, 9))
            rec.new(1, kind, L, rng.randrange(10**6), FIELDS[ctx.pid])
            if rng.random() < .3:
                free_steps(rec, 1, FIELDS[ctx.pid], every=5, limit=rng.randrange(1, L * L + 1))
                rec.reset(1, FIELDS[ctx.pid])
            free_steps(rec, 1, FIELDS[ctx.pid], every=1 if L < 7 else 4)
        yield "random %d" % rep, f


@scen(*LAT)
def j_large(ctx):
    """larger lattices, sparse full observations"""
    sizes = ctx.n((11, 13, 16), (12, 16, 17, 20, 24, 29, 32))
    for rep in range(ctx.n(3, 14)):
        def f(rec, rng, rep=rep):
            L = sizes[rep % len(sizes)]
            kind = ("plain", "L1", "L2", "L0", "SP")[(rep + rng.randrange(5)) % 5]
            heavy = ctx.pid in ("P02", "P03", "P05", "P04")
            rec.new(1, kind, L, rng.randrange(10**6))
            if kind in ("L1", "L2") and rng.random() < .6:
                free_steps(rec, 1, FIELDS[ctx.pid], every=L * L // 8 if heavy else 4)
            else:
                name, o = orders.any_order(L, rng)
                stepwise(rec, 1, o, FIELDS[ctx.pid], every=L * L // 12 if heavy else 4)
        yield "large %d" % rep, f
    # long thin clusters and many cluster labels: few looks
    for rep, (L, gen) in enumerate((((24, "rand"), (20, "spiral"), (32, "scatter"), (33, "halves"), (24, "spiral"), (34, "rand"), (40, "scatter"), (28, "spiral"), (36, "halves"), (26, "halves")))[:ctx.n(4, 10)]):
        def f(rec, rng, rep=rep, L=L, gen=gen):
            rec.limit = 60.0
            kind = ("plain", "SP", "L0", "L1", "L2")[rng.randrange(5)]
            rec.new(1, kind, L, rng.randrange(10**6))
            o = {"rand": orders.rand, "spiral": orders.spiral, "scatter": orders.scatter, "halves": orders.halves}[gen](L, rng)
            at = sorted(rng.sample(range(L * L // 3, L * L), 3 if ctx.pid in ("P03", "P05") else 6)) + [L * L - 1]
            if gen == "spiral":
                at = sorted(set(at + [orders.spiral_len(L) - 1]))
            if gen == "halves":
                n = (L // 2 - 1) * (L - 1) + (L - 4 - L // 2) * (L - 1) + L
                at = sorted({n - L, n, n + 1, n + 2, L * L - 1} | {rng.randrange(n)})
            if kind not in ("L1", "L2"):
                rec.custom(1, o)
            for k, x in enumerate(o):
                if kind in ("L1", "L2"):
                    rec.custom(1, [x])
                rec.place(1)
                rec.detect(1, FIELDS[ctx.pid] if k in at else ())
        yield "big %s %d" % (gen, rep), f


@scen(*LAT)
def j_sparse(ctx):
    """very large lattices, few sites: lines that wind and clusters that meet, also at the highest numbers"""
    sizes = ctx.n((66, 130), (66, 130, 101, 182, 150, 256))
    # (the model's table of logarithms ends below these sizes: there the two entropies are compared with each other)
    F = ("hd",) if ctx.pid == "P09" else FIELDS[ctx.pid]
    for rep, L in enumerate(sizes):
        def f(rec, rng, rep=rep, L=L):
            rec.limit = 120.0
            kind = ("plain", "L0", "SP", "L1", "L2")[rng.randrange(5)]
            rec.new(1, kind, L, rng.randrange(10**6))
            N = L * L
            # a path of sites that winds (sideways or down, straight or with steps), near the end of the lattice
            t = rng.random() < .5
            r = L - 1 - rng.randrange(3)
            line = []
            for c in range(L):
                line.append((r, c))
                if rng.random() < .05 and c < L - 2:
                    r = (r + rng.choice((-1, 1))) % L
                    line.append((r, c))
            while line[-1][0] != line[0][0]:
                line.append(((line[-1][0] + (1 if (line[0][0] - line[-1][0]) % L < L // 2 else -1)) % L, line[-1][1]))
            path = list(dict.fromkeys([c * L + r if t else r * L + c for r, c in line]))
            cut = rng.randrange(len(path))
            path = path[cut:] + path[:cut]
            if L > ctx.n(100, 190):
                # a short piece of it, across the corner
                path = [(N - 3 + j) % N for j in range(5)] + [((N - L * 2 + 1) + j * L) % N for j in range(4)]
                path = list(dict.fromkeys(path))
                rng.shuffle(path)
            last = path.pop()
            mode = rng.randrange(3)
            if mode == 1:
                rng.shuffle(path)
            elif mode == 2:
                path = path[::2] + path[1::2]
            far = [N - 1, 0, N - L, L - 1, N - 2, N // 2] + [rng.randrange(N) for _ in range(10)]
            o = list(dict.fromkeys(far[:rng.randrange(len(far))] + path + [last] + far))
            if kind not in ("L1", "L2"):
                rec.custom(1, o)
            w = o.index(last)
            at = {3, w // 2, w - 1, w, len(o) - 1} if ctx.pid not in ("P03", "P05", "P04", "P02") else {w - 1, w, len(o) - 1}
            if ctx.pid == "P03":
                at = {len(o) - 1}
            for k, x in enumerate(o):
                if kind in ("L1", "L2"):
                    rec.custom(1, [x])
                # only the sites of the list are looked at in between
                rec.place(1)
                rec.detect(1, F if k in at else ())
        yield "sparse %d" % rep, f


@scen(*LAT)
def j_junction(ctx):
    """uncommon joins: several clusters meeting at one site, closings of uncommon shape; looked at around the join"""
    for rep in range(ctx.n(18, 120)):
        def f(rec, rng, rep=rep):
            kind = ("plain", "L1", "SP", "plain", "L0", "L2")[rep % 6]
            L = rng.choice((6, 7, 7, 8, 9))
            rec.new(1, kind, L, rng.randrange(10**6))
            F = FIELDS[ctx.pid]
            for real in range(5):
                fn = orders.crossroad if (real + rep) % 2 else orders.oddclose
                o = [s for s in fn(L, rng)]
                o = orders.sym(L, o, rng)
                if kind not in ("L1", "L2"):
                    rec.custom(1, o)
                for k, x in enumerate(o):
                    if kind in ("L1", "L2"):
                        rec.custom(1, [x])
                    rec.place(1)
                    rec.detect(1, F if k >= len(o) - 2 or (k % 7 == 0 and ctx.pid not in ("P03", "P05")) else ())
                rec.reset(1)
        yield "junction %d" % rep, f


@scen("P02", "P06", "P07", "P08", "P09")
def j_runs(ctx):
    """whole runs, the recorded series row by row, and runs after resets"""
    rowf = {"P02": ("p",), "P06": (), "P07": ("w",), "P08": ("m",), "P09": ("h",)}[ctx.pid]
    for rep in range(ctx.n(15, 80)):
        def f(rec, rng, rep=rep):
            kind = ("plain", "L1", "L2", "L0", "SP")[rep % 5]
            L = rng.choice((2, 3, 4, 5, 6, 8, 10))
            rec.new(1, kind, L, rng.randrange(10**6), FIELDS[ctx.pid])
            for k in range(2):
                if kind in ("plain", "L0", "SP") and rng.random() < .5:
                    rec.custom(1, orders.any_order(L, rng)[1])
                rec.run(1, FIELDS[ctx.pid], rowf)
                rec.reset(1, FIELDS[ctx.pid])
        yield "run %d" % rep, f


@scen("P02", "P04", "P06", "P07", "P08", "P09")
def j_candlists(ctx):
    """L1 and L2 with lists of candidates (repeated entries, longer than the lattice): every attempt, until nothing is left"""
    F = ("occ", "p") if ctx.pid == "P02" else FIELDS[ctx.pid]
    for rep in range(ctx.n(30 if ctx.pid == "P02" else 18, 200)):
        def f(rec, rng, rep=rep):
            kind = ("L1", "L2")[rep % 2]
            L = rng.choice((3, 4, 5, 6))
            N = L * L
            rec.new(1, kind, L, rng.randrange(10**6), F)

            def step(k=0):
                e = rec.place(1, F if ctx.pid == "P02" else ())
                if ctx.pid != "P02":
                    rec.detect(1, F if e["new"] or e["ret"] != 1 or k % 7 == 0 else ())
                return e["ret"] == 1
            for real in range(2):
                for s in rng.sample(range(N), rng.choice((0, 0, 1, N // 3, N - 2))):
                    rec.custom(1, [s])
                    if not step():
                        return
                for part in range(1 if ctx.pid in ("P02",) else 2):
                    pick = rng.sample(range(N), rng.choice((1, 1, 2, 3, 4)))
                    l = [rng.choice(pick) for _ in range(rng.choice((1, 3, N, 2 * N, 4 * N)))]
                    if rng.random() < .4:
                        l = list(range(N)) * rng.choice((1, 2, 3))
                        rng.shuffle(l)
                    rec.custom(1, l, False, rng.choice(("id", "pair")))
                    for k in range(60 * len(l) + 300):
                        if not step(k):
                            break
                    if ctx.pid == "P02":
                        step()
                rec.reset(1, F)
        yield "candlists %d" % rep, f


@scen("P06", "P04", "P07")
def j_tail(ctx):
    """queries and repeated wrapping tests after the transition, then a reset"""
    for rep in range(ctx.n(10, 60)):
        def f(rec, rng, rep=rep):
            kind = ("plain", "L1", "L2", "L0", "SP")[rep % 5]
            L = rng.choice((3, 4, 5, 6))
            rec.new(1, kind, L, rng.randrange(10**6))
            for real in range(2):
                name, o = orders.any_order(L, rng)
                if kind in ("L1", "L2"):
                    o = o[:]
                stop = rng.randrange(1, len(o) + 1)
                stepwise(rec, 1, o, FIELDS[ctx.pid], stop=stop)
                for _ in range(3):
                    rec.detect(1, FIELDS[ctx.pid])
                    rec.inspect(1, rng.choice(rec.inspect(1, None)) if L > 2 and False else rng.choice(
                        ["pc", "w", "m", "entropy", "v1", "pcs", "pcb", "view4", "viewc"]))
                    rec.obs(1, FIELDS[ctx.pid])
                if kind not in ("L1", "L2") and stop < len(o):
                    stepwise(rec, 1, o[stop:], FIELDS[ctx.pid], install=False)
                rec.reset(1, FIELDS[ctx.pid])
                rec.detect(1, FIELDS[ctx.pid])
        yield "tail %d" % rep, f
