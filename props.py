"""Per property: models checked by TLC, clauses that decide it, level."""

import random

PERC_WHAT = "all orders of occupation of the %d x %d torus against the definitions"


def perc(invs, props, L3=True):
    def f(tier, seed=1):
        out = []
        for L, W in ((2, 2), (3, 3)):
            edges = L == 3
            cfg = "SPECIFICATION Spec\nCONSTANTS LEN = %d W = %d EDGES = %s\n" % (L, W, "TRUE" if edges else "FALSE")
            if invs:
                cfg += "INVARIANTS %s\n" % invs
            if props:
                cfg += "PROPERTIES %s\n" % props
            cfg += "ACTION_CONSTRAINT ShowEdge\nCHECK_DEADLOCK FALSE\n"
            out.append({"name": "MCPerc L=%d" % L, "module": "MCPerc", "cfg": cfg, "edges": edges,
                        "what": PERC_WHAT % (L, L)})
        return out
    return f


def algo(invs):
    """the algorithm (Algo.tla) next to the abstract model"""
    def m(tier, seed):
        import sys, os
        sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
        import orders
        rng = random.Random(seed * 11 + 3)
        quick = tier == "quick"
        out = []

        def one_(L, depth, master, prefixes, what):
            c = mc("MCAlgo L=%d%s" % (L, "" if prefixes == [[]] else " from %d starts" % len(prefixes)), "MCAlgo",
                   "LEN = %d DEPTH = %d MASTER = %s" % (L, depth, master), "SameSites " + invs, what=what)
            c["json"] = {"PREFIXES": prefixes}
            out.append(c)
        one_(2, 4, "FALSE", [[]], "the merging algorithm with all its free choices, every order, 2 x 2 torus")
        one_(3, 5 if quick else 9, "TRUE" if quick else "FALSE", [[]],
             "the merging algorithm with all its free choices, %s, 3 x 3 torus" % ("every order of up to five sites" if quick else "every order"))
        pre = [[0, 1, 2, 3, 8, 9, 10, 12], [0, 4, 8, 12, 2, 6, 10, 3]]
        for k in range(6 if quick else 60):
            o = orders.structured(4, rng, orders.STRUCT[rng.randrange(len(orders.STRUCT))])[1]
            pre.append(o[:rng.randrange(9, 13) if quick else rng.randrange(7, 12)])
        one_(4, 16, "TRUE", pre, "the merging algorithm on the 4 x 4 torus: from given starts, every continuation")
        if not quick:
            pre = []
            for k in range(40):
                o = orders.structured(5, rng, orders.STRUCT[rng.randrange(len(orders.STRUCT))])[1]
                n = rng.randrange(12, 22)
                pre.append(o[:n])
            for k in range(0, 40, 10):
                m = max(len(q) for q in pre[k:k + 10])
                one_(5, min(25, m + 2), "TRUE", pre[k:k + 10], "the merging algorithm on the 5 x 5 torus: from given starts")
        return out
    return m


def both(*fs):
    def g(tier, seed=1):
        return [m for f in fs for m in f(tier, seed)]
    return g


def mc(name, module, consts, invs="", props="", spec="Spec", constraint="", what="", extra=(), **kw):
    cfg = "SPECIFICATION %s\nCONSTANTS %s\n" % (spec, consts) if consts else "SPECIFICATION %s\n" % spec
    if invs:
        cfg += "INVARIANTS %s\n" % invs
    if props:
        cfg += "PROPERTIES %s\n" % props
    if constraint:
        cfg += "CONSTRAINT %s\n" % constraint
    cfg += "CHECK_DEADLOCK FALSE\n"
    return dict(name=name, module=module, cfg=cfg, what=what, extra=extra, **kw)


def hist(invs, props=""):
    """all histories of calls on one simulator (L = 2), and generated ones (L = 3) for replay"""
    def f(tier, seed=1):
        n = 160 if tier == "quick" else 2000
        rng = random.Random(seed * 7 + 1)
        fams = [[[4, 0, 8], [3, 4, 5, 1, 7], [6, 0, 3, 7, 2, 1, 8, 4, 5], [0, 9], [4, 0, 8, 1, 2]]]
        for _ in range(12 if tier == "quick" else 40):
            o = list(range(9))
            rng.shuffle(o)
            ks = sorted(rng.sample(range(1, 9), 3)) + [9]
            fams.append([o[:k] for k in ks] + [o[:2] + [9]])
        return [mc("MCHist L=2", "MCHist", 'LEN = 2 FAMILIES <- Families2 KINDS_ = {"plain"} GEN = FALSE DEPTH = 0', invs, props,
                   constraint="Stop Emit", what="every history of placements, tests, runs, lists and resets on the 2 x 2 torus"),
                mc("MCHist gen L=3", "MCHist", 'LEN = 3 FAMILIES <- Families3 KINDS_ = {"plain"} GEN = TRUE DEPTH = 10', invs, "",
                   constraint="Emit", what="generated histories (simulation) for replay into the code", workers=1,
                   hists=True, json={"FAMILIES": fams}, extra=("-simulate", "num=%d" % n, "-depth", "11", "-seed", str(seed)))]
    return f


def select(kinds, invs, props, live=False):
    """the selection rules with the pool of candidates"""
    def f(tier, seed=1):
        out = []
        starts = "{{0,1,2,3,4,5,6,7,8},{0},{4},{0,4,8},{1,3,5,6}}"
        for k in kinds:
            out.append(mc("MCSelect %s L=3" % k, "MCSelect", 'LEN = 3 KIND = "%s" START = %s' % (k, starts), invs, props,
                          spec="SafeSpec", what="every draw of candidate and direction in the %s model, 3 x 3 torus, five candidate lists" % k))
            if live:
                out.append(mc("MCSelect %s L=2 ends" % k, "MCSelect", 'LEN = 2 KIND = "%s" START = {{0,1,2,3},{0},{0,3}}' % k,
                              "", "Ends", what="with fair draws every %s run ends (2 x 2 torus)" % k))
            if tier != "quick":
                out.append(mc("MCSelect %s L=4" % k, "MCSelect", 'LEN = 4 KIND = "%s" START = {{%s},{0,5,10,15},{3}}' % (
                    k, ",".join(map(str, range(16)))), invs, props, spec="SafeSpec",
                    what="every draw in the %s model, 4 x 4 torus" % k, workers=8))
        return out
    return f


def one(*ms):
    def f(tier, seed=1):
        return [m(tier) if callable(m) else m for m in ms]
    return f


def torus(tier):
    return mc("MCTorus", "MCTorus", "LMAX = %d" % (7 if tier == "quick" else 14),
              "Counts FourBonds Incidence Back Commute Period SiteIds BondIds OneStep",
              what="the numbering of sites and bonds is a periodic square lattice")


def shortest(tier):
    return mc("MCShortest", "MCShortest", "LEN = 3 THRESHOLD = 3", "Exact FullHasLine PcBeforeStar",
              what="the run stops at the first complete line of the wrapping cluster, all orders on the 3 x 3 torus")


def rng_(tier):
    return mc("MCRng", "MCRng", "SEEDS = {1,2} MAXDRAWS = 4 MAXCALLS = %d" % (4 if tier == "quick" else 5), "SeedFixes",
              what="one process-wide source of randomness: seed and calls fix the realization")


def shuffle(tier):
    return mc("MCShuffle", "MCShuffle", "SIZE = %d" % (4 if tier == "quick" else 6), "Perm Every",
              what="the shuffle reaches every permutation and only permutations")


def crossing(tier):
    return mc("MCCrossing", "MCCrossing", "MAXLEN = %d" % (7 if tier == "quick" else 10), "Correct Single", "Stable",
              what="the finder's rule on every pattern of signs of the difference of two curves")


def ensemble(invs, props="", live=False):
    def f(tier):
        n, k = (4, 3) if tier == "quick" else (5, 3)
        return mc("MCEnsemble", "MCEnsemble", "MAXN = %d MAXK = %d CLOCK = 1 NUMBERED = TRUE" % (n, k), invs, props,
                  spec="Spec" if live else "SafeSpec", what="every interleaving of up to 3 workers, one of which may die")
    return f


def plus(f, *ms):
    """the models of f and some more"""
    def g(tier, seed=1):
        return f(tier, seed) + [m(tier) if callable(m) else m for m in ms]
    return g


def coarse(invs):
    def f(tier):
        return mc("MCCoarse", "MCCoarse", "LEN = %d CELLS = %d" % ((5, 1) if tier == "quick" else (5, 2)), invs,
                  what="two rectangles and further sites, and every hole: the coarse view against sites and bonds, 5 x 5 torus")
    return f


def walk(invs):
    def f(tier):
        return mc("MCWalk", "MCWalk", "LEN = 5 MAX = %d" % (9 if tier == "quick" else 14), invs, constraint="Small",
                  what="every walk that does not touch itself, against sites and bonds, 5 x 5 torus")
    return f


def near(tier):
    return mc("MCNear", "MCNear", "LEN = %d" % (6 if tier == "quick" else 8), "NoLineBefore LineAfter OneCluster Winds Counted",
              what="a winding path and a row or column but for one site, every choice of them")


LN = mc("MCLn", "MCLn", "", "Shape Additive Slope", what="the table of logarithms behind the entropy clauses")

TRUST = ["TLC and the CommunityModules are correct", "the public getters used for observation report the object's state",
         "the occupation pattern is read with Site.is_occupied"]
TV = "model_checking"

PROPS = {
    "P02": dict(level=TV, models=perc("Counted", "OneMore"), assumptions=TRUST),
    "P03": dict(level=TV, models=both(both(perc("LabelsAreComponents BondsPartitioned AllBonds", ""), algo("SameClusters PoolAgrees")), one(coarse("SameComponents SameCounts HoleConnected"), walk("SamePieces OnePiece SameBonds"))), assumptions=TRUST),
    "P04": dict(level=TV, models=both(both(perc("WindExact FirstExact", "FirstKept"), algo("SameWrapping")), one(walk("WindsLong OnePiece"), coarse("HoleWinds StaysInFrame"))), assumptions=TRUST),
    "P05": dict(level=TV, models=both(both(perc("Displacement", ""), algo("Coordinates")), one(coarse("StaysInFrame"), walk("OnlySteps"))), assumptions=TRUST),
    "P06": dict(level=TV, models=both(perc("CriticalExact", "CriticalFrozen"), algo("SameCritical SameWrapping")), assumptions=TRUST),
    "P07": dict(level=TV, models=both(both(perc("WrapFull FirstExact", "WrapMonotone FirstKept"), algo("SameWrapping")), one(coarse("HoleCount HoleConnected HoleWinds"))), assumptions=TRUST),
    "P08": dict(level=TV, models=both(both(perc("LargestExact", "LargestMonotone"), algo("SameLargest")), one(coarse("SameCounts HoleCount"))), assumptions=TRUST),
    "P09": dict(level=TV, models=both(both(plus(perc("EntropyFull AllBonds", "EntropyDecreases"), LN), algo("SameEntropy PoolAgrees")), one(coarse("EntropyFormula HoleCount HoleConnected"))), assumptions=TRUST),
    "P01": dict(level=TV, models=one(torus), assumptions=TRUST),
    "P10": dict(level=TV, models=hist("Bookkeeping Table"), assumptions=TRUST),
    "P11": dict(level=TV, models=hist("AsNew"), assumptions=TRUST),
    "P12": dict(level=TV, models=hist("Follows Within EndsWithList", "Refused"), assumptions=TRUST),
    "P13": dict(level=TV, models=select(("L1",), "RuleExact", "OneSite ByTheRule"), assumptions=TRUST),
    "P14": dict(level=TV, models=select(("L2",), "RuleExact", "OneSite ByTheRule"), assumptions=TRUST),
    "P15": dict(level=TV, models=select(("L1", "L2"), "OnlyUseless EmptyDrawable StopExact DoneFull Progress", "", True),
                also=(r"P02\.onesite",), assumptions=TRUST),
    "P17": dict(level=TV, models=hist("Bookkeeping Follows"), assumptions=TRUST),
    "P18": dict(level=TV, models=one(shortest, near), assumptions=TRUST),
    "P22": dict(level=TV, models=one(rng_), assumptions=TRUST),
    "P23": dict(level=TV, models=one(rng_), assumptions=TRUST),
    "P27": dict(level=TV, models=one(shuffle, rng_), assumptions=TRUST),
    "P16": dict(level=TV, models=one(rng_), assumptions=TRUST),
    "P19": dict(level=TV, models=one(ensemble("RowsInOrder AllRun")), assumptions=TRUST),
    "P20": dict(level=TV, models=one(ensemble("SharesAddUp AllRun OwnFiles OnlyOwnShareLost", "Joins", True)), assumptions=TRUST),
    "P21": dict(level=TV, models=one(ensemble("HeaderTrue OwnFiles")), assumptions=TRUST),
    "P24": dict(level=TV, models=one(crossing), assumptions=TRUST),
    "P25": dict(level=TV, models=hist("Bookkeeping Table"), also=(r"P0[2-9]\.", r"P17\.", r"P10\."), assumptions=TRUST),
    "P26": dict(level=TV, models=one(shortest, ensemble("RowsInOrder")), also=(r"P18\.",), assumptions=TRUST),
}
