"""Scenarios on larger lattices and long lists, and great numbers of small realizations compared with each other."""
import random
import zlib

import orders
from rec import KINDS, integer, num
from rec import Sim
from scen import FIELDS, LAT, scen
from scen2 import ALLKINDS, PLAIN, numbers
from source_py.simulation.index import Index


# ---------------------------------------------------------------- larger lattices
@scen("P10")
def j_table_large(ctx):
    """whole runs on lattices of more than a thousand sites"""
    F = ("tab", "lens")
    for rep in range(ctx.n(3, 8)):
        def f(rec, rng, rep=rep):
            rec.limit = 120
            kind = ("plain", "L0", "plain", "L1", "L2")[rep % 5]
            L = (33, 17, 26, 24, 24, 40, 33, 48)[rep]
            rec.new(1, kind, L, rng.randrange(10**6))
            if rng.random() < .5 and kind in PLAIN:
                rec.custom(1, orders.rand(L, rng), form=rng.choice(("id", "pair")))
            for _ in range(rng.choice((0, 3))):
                rec.place(1)
                rec.detect(1)
            rec.run(1, F, ("p", "m", "w"), limit=120)
            if rep == 1:
                rec.reset(1, F)
                rec.run(1, F, ("p", "m", "w"), limit=120)
        yield "tablelarge %d" % rep, f


@scen("P11")
def j_reset_large(ctx):
    """a larger lattice, run, reset, against a new simulator"""
    for rep in range(ctx.n(3, 8)):
        def f(rec, rng, rep=rep):
            rec.limit = 120
            kind = ("plain", "L0", "SP", "plain")[rep % 4]
            L = (33, 18, 25, 13, 40, 28, 21, 35)[rep]
            o, o1 = orders.rand(L, rng), orders.rand(L, rng)
            for i in (1, 2):
                rec.new(i, kind, L, rng.randrange(10**6))
                if i == 1:
                    rec.custom(1, o1[:rng.randrange(L * L // 2, L * L)])
                    rec.run(1, (), ())
                    for g in ("tab", "seq", "w"):
                        rec.give(1, g)
                    rec.reset(1, ("occ", "p", "pc", "w", "m"))
                    rec.check_given()
                rec.custom(i, o)
                rec.run(i, (), ())
                rec.memo("all", rec._flat2(rec.look(i, ("pc", "tab", "lens") + (("star",) if kind == "SP" else ()))), "P11.asnew", 0)
        yield "resetlarge %d" % rep, f


@scen("P12")
def j_list_large(ctx):
    """lists of more than a thousand sites"""
    for rep in range(ctx.n(3, 8)):
        def f(rec, rng, rep=rep):
            rec.limit = 120
            kind = PLAIN[rep % 3]
            L = (33, 20, 26, 13, 40, 28, 36, 45)[rep]
            N = L * L
            o = orders.rand(L, rng)
            form = ("id", "pair", "index")[rep % 3]
            rec.new(1, kind, L, rng.randrange(10**6))
            n = rng.randrange(N // 2, N - 1)
            rec.custom(1, o[:n], False, form, (), seq=True)
            for _ in range(rng.randrange(5, n)):
                rec.place(1)
            rec.custom(1, o, False, form, (), seq=True)
            if kind == "SP":
                while rec.place(1)["ret"] == 1:
                    pass
            else:
                rec.run(1, ("occ",), (), limit=120)
            rec.reset(1)
            rec.custom(1, o[:n], True, form, (), seq=True)
            while rec.place(1)["ret"] == 1:
                pass
            rec.obs(1, ("occ",))
        yield "listlarge %d" % rep, f


@scen("P17")
def j_replay_large(ctx):
    """runs on larger lattices replayed"""
    for rep in range(ctx.n(3, 9)):
        def f(rec, rng, rep=rep):
            rec.limit = 200
            kind = ("plain", "L1", "L2", "L0")[rep % 4]
            L = (33, 20, 17, 25, 40, 30, 26, 33, 48)[rep]
            rec.new(1, kind, L, rng.randrange(10**6))
            rec.run(1, ("idx", "seq"), (), limit=200)
            s = rec.sims[1].obj
            seq = rec.call("seq", s.get_site_id_sequence)
            pos = rec.call("idx", s.get_index_sequence)
            rec.memo("all", rec._flat2(rec.look(1, ("pc", "tab", "lens"))), "P17.replay", 0)
            for i, form in ((2, "id"), (3, "pair")):
                q = rec.new(i, "plain", L, rng.randrange(10**6))
                if form == "id":
                    rec.custom_raw(i, list(seq), [integer(x) for x in seq], False, q.obj.set_custome_site_id_list)
                else:
                    rec.custom_raw(i, [tuple(p) for p in pos], [integer(p[0] * L + p[1]) for p in pos], False,
                                   q.obj.set_custome_site_index_list)
                rec.run(i, ("idx",), (), limit=200)
                rec.memo("all", rec._flat2(rec.look(i, ("pc", "tab", "lens"))), "P17.replay", 0)
        yield "replaylarge %d" % rep, f


@scen("P18")
def j_spath_large(ctx):
    """shortest-path runs on larger lattices"""
    for rep in range(ctx.n(6, 20)):
        def f(rec, rng, rep=rep):
            rec.limit = 120
            L = (33, 17, 12, 24, 14, 20, 40, 28, 36, 48)[rep % 10]
            rec.new(1, "SP", L, rng.randrange(10**6))
            if rep % 3:
                o = orders.rand(L, rng)
                # a line that fills early, its last site late
                c = rng.randrange(L)
                line = [k * L + c for k in range(L)] if rng.random() < .5 else [c * L + k for k in range(L)]
                rng.shuffle(line)
                o = [s for s in o if s not in line]
                k = rng.randrange(len(o))
                o = line[:-1] + o[:k] + line[-1:] + o[k:]
                rec.custom(1, o)
            rec.run(1, ("star", "p", "scan"), (), limit=120)
            rec.reset(1, ("star",))
        yield "spathlarge %d" % rep, f


@scen("P22")
def j_view_large(ctx):
    """displays of lattices with clusters of many sites and labels of three and four digits"""
    for rep in range(ctx.n(8, 24)):
        def f(rec, rng, rep=rep):
            rec.limit = 120
            L = (9, 12, 8, 10, 23, 9, 14, 11, 16, 24)[rep % 10]
            N = L * L
            kind = ALLKINDS[rep % 5]
            rec.new(1, kind, L, rng.randrange(10**6))
            at = sorted(rng.sample(range(1, N + 1), 3 if L < 20 else 1) + [N // 2, N])
            for k in range(40 * N):
                e = rec.place(1)
                rec.detect(1)
                if len(rec.sims[1].occ) in at:
                    at = [q for q in at if q > len(rec.sims[1].occ)]
                    rec.obs(1, ("views",))
                if e["ret"] != 1 or not at:
                    break
        yield "viewlarge %d" % rep, f


@scen("P22")
def j_course_large(ctx):
    """two realizations of the same seed on a larger lattice, one of them inspected now and then"""
    for rep in range(ctx.n(5, 20)):
        def f(rec, rng, rep=rep):
            rec.limit = 120
            L = (17, 20, 13, 26, 33, 24)[rep % 6]
            kind = ALLKINDS[(rep + 3) % 5]
            seed = rng.randrange(10**6)
            at = set(rng.sample(range(L * L), 12))
            for i in (1, 2):
                o = rec.call("new", lambda: KINDS[kind](length=L, seed=seed))
                rec.new(9, "plain", 2, 1) if i == 1 else None
                rec.sims[i] = type(rec.sims[9])() if i == 1 else type(rec.sims[9])()
                s = rec.sims[i]
                s.kind, s.L, s.n, s.obj, s.occ, s.order = kind, L, L * L, o, [], []
                st = random.Random(seed)
                random.seed(seed)
                names = [w for w in rec.inspect(i, None) if w not in ("testc", "testl")]

                def go():
                    v = []
                    for k in range(3 * L * L):
                        if o.place_one_site() is not True:
                            break
                        v.append(zlib.crc32(repr((o.detect_wrapping(), o.largest_cluster(), round(o.entropy(), 8),
                                                  o.order_param_wrapping(), o.occupation_prob())).encode()) & 0x3fffffff)
                        if i == 1 and k in at:
                            for w in (names[(k + j) % len(names)] for j in range(3)):
                                rec.inspect(i, w)
                    return v
                rec.memo("course", rec.call("a realization", go), "P22.course", 0)
        yield "courselarge %d" % rep, f


# ---------------------------------------------------------------- many realizations against each other
def report(o, star=False):
    """what a simulator says of itself, as one number"""
    v = [o.occupation_prob(), round(o.entropy(), 7) + 0.0, o.largest_cluster(), o.order_param_wrapping(), o.get_pc(),
         o.get_site_count_wrapping_cluster_pc(), o.get_bond_count_wrapping_cluster_pc(), o.detect_wrapping()]
    return zlib.crc32(repr(v).encode()) & 0x3fffffff


def follow(o, kind, order):
    """the steps of one realization along an order, one at a time"""
    if kind in PLAIN:
        o.set_custome_site_id_list(list(order))
    for x in order:
        if kind not in PLAIN:
            o.set_custome_site_id_list([x])
        o.place_one_site()
        o.detect_wrapping()
        yield report(o)
    yield zlib.crc32(repr([tuple(p) for p in o.get_index_sequence()]).encode()) & 0x3fffffff


def whole(o, kind, order):
    return list(follow(o, kind, order))


def near(L, order, rng):
    """an order that follows another one, at the same sites or next to them"""
    out = []
    d = rng.choice(((0, 0), (0, 1), (1, 0), (0, -1), (-1, 0), (1, 1)))
    for s in order:
        r, c = divmod(s, L)
        out.append((r + d[0]) % L * L + (c + d[1]) % L)
    if rng.random() < .3:
        out = out[1:] + out[:1]
    if rng.random() < .5:
        # as far as possible next to the site the other one takes next
        free, out = set(order), []
        for s in order:
            r, c = divmod(s, L)
            n = [x for x in ((r + 1) % L * L + c, r * L + (c + 1) % L, (r - 1) % L * L + c, r * L + (c - 1) % L) if x in free]
            if n:
                out.append(rng.choice(n))
                free.discard(out[-1])
        out += rng.sample(sorted(free), len(free))
    return out


@scen("P23")
def j_bulk(ctx):
    """two or three simulators in turns, at the same or at neighbouring sites, each against itself alone"""
    for rep in range(ctx.n(8, 24)):
        def f(rec, rng, rep=rep):
            rec.limit = 300
            pairs = []

            def go():
                for _ in range(ctx.n(400, 2000) if rep % 8 else ctx.n(20, 100)):
                    L = rng.choice((3, 4, 4, 4, 5)) if rep % 8 else rng.choice((9, 12, 16))
                    n = rng.choice((2, 2, 3))
                    kinds = [rng.choice(ALLKINDS) for _ in range(n)]
                    if rng.random() < .4:
                        kinds = ["plain"] * n
                    elif rng.random() < .6:
                        kinds = kinds[:1] * n
                    os = [orders.any_order(L, rng)[1] if rng.random() < .3 else orders.rand(L, rng)]
                    Ls = [L] * n
                    for k in range(1, n):
                        if rng.random() < .7:
                            os.append(near(L, os[0], rng))
                        else:
                            Ls[k] = rng.choice((2, 3, 4, 5))
                            os.append(orders.rand(Ls[k], rng))
                    alone = [whole(KINDS[k](length=l, seed=5), k, o) for k, l, o in zip(kinds, Ls, os)]
                    sims = [KINDS[k](length=l, seed=5) for k, l in zip(kinds, Ls)]
                    its = [follow(s, k, o) for s, k, o in zip(sims, kinds, os)]
                    mixed = [[] for _ in its]
                    live = list(range(n))
                    burst = rng.choice((1, 1, 3, 10))
                    turns = rng.random() < .5
                    k = 0
                    while live:
                        k = rng.choice(live) if not turns else live[-1] if k not in live else live[(live.index(k) - 1) % len(live)]
                        for _ in range(rng.randrange(1, burst + 1)):
                            v = next(its[k], None)
                            if v is None:
                                live.remove(k)
                                break
                            mixed[k].append(v)
                        if rng.random() < .01:
                            KINDS[rng.choice(ALLKINDS)](length=rng.choice((2, L)))
                    pairs.extend(zip(alone, mixed))
            rec.call("many simulators", go)
            for n, (a, b) in enumerate(pairs):
                rec.memo("b%d" % n, a, "P23.alone")
                rec.memo("b%d" % n, b, "P23.alone")
        yield "bulk %d" % rep, f


@scen("P11")
def j_bulk_reset(ctx):
    """one simulator through many realizations broken off anywhere; each of them against a new simulator"""
    for rep in range(ctx.n(8, 24)):
        def f(rec, rng, rep=rep):
            rec.limit = 300
            pairs = []

            def go():
                for _ in range(ctx.n(20, 120)):
                    kind = ALLKINDS[rng.randrange(5)]
                    L = rng.choice((2, 3, 4, 4, 5, 6)) if rep % 8 else rng.choice((9, 12))
                    o = KINDS[kind](length=L, seed=rng.randrange(10**6))
                    for real in range(5):
                        q = orders.any_order(L, rng)[1] if rng.random() < .5 else orders.rand(L, rng)
                        q = q[:rng.randrange(1, len(q) + 1)]
                        pairs.append((whole(KINDS[kind](length=L, seed=5), kind, q), whole(o, kind, q)))
                        if rng.random() < .3 and kind in PLAIN and kind != "SP":
                            o.run_once()
                        for _ in range(rng.choice((1, 1, 1, 2))):
                            o.reset()
                        if rng.random() < .4:
                            for _ in range(rng.randrange(L * L)):
                                o.place_one_site()
                                if rng.random() < .5:
                                    o.detect_wrapping()
                            o.reset()
            rec.call("many realizations", go)
            for n, (a, b) in enumerate(pairs):
                rec.memo("b%d" % n, a, "P11.asnew")
                rec.memo("b%d" % n, b, "P11.asnew")
        yield "bulkreset %d" % rep, f


@scen("P11")
def j_many_resets(ctx):
    """one simulator through very many realizations; after every reset it is a new one, however many there were"""
    for rep in range(ctx.n(10, 20)):
        def f(rec, rng, rep=rep):
            rec.limit = 400
            pairs = []
            kind = ALLKINDS[rep % 5]
            L = (3, 2)[rep // 5 % 2] if ctx.tier == "quick" else (3, 2, 4, 5)[rep // 5 % 4]

            def go():
                o = KINDS[kind](length=L, seed=rng.randrange(10**6))
                for real in range(ctx.n(1100, 5000)):
                    if real == 600:
                        pairs.append((crc(list(map(str, start(KINDS[kind](length=L, seed=5))))), crc(list(map(str, start(o))))))
                    q = list(range(L * L))
                    rng.shuffle(q)
                    x = rng.random()
                    if x < .3:
                        q = q[:rng.randrange(1, len(q) + 1)]
                    pairs.append((crc(whole(KINDS[kind](length=L, seed=5), kind, q)), crc(whole(o, kind, q))))
                    if x > .9 and kind != "SP":
                        o.reset()
                        o.run_once()
                    o.reset()
                    if real % 16 == 15:
                        pairs.append((crc(list(map(str, start(KINDS[kind](length=L, seed=5))))), crc(list(map(str, start(o))))))
            rec.call("very many realizations", go)
            for n, (a, b) in enumerate(pairs):
                rec.memo("b%d" % n, [a], "P11.asnew")
                rec.memo("b%d" % n, [b], "P11.asnew")
        yield "manyresets %d" % rep, f


def start(o):
    """what a simulator says before anything was placed"""
    return [o.occupation_prob(), o.largest_cluster(), o.order_param_wrapping(), o.get_pc(), o.get_site_count_wrapping_cluster_pc(), o.get_bond_count_wrapping_cluster_pc(),
            o.detect_wrapping()] + [
        bool(o.lattice_ref.get_site_by_id(k).is_occupied()) for k in range(o.lattice_ref.length ** 2)]


@scen("P17")
def j_bulk_replay(ctx):
    """many runs, replayed through the plain simulator"""
    for rep in range(ctx.n(6, 20)):
        def f(rec, rng, rep=rep):
            rec.limit = 300
            pairs = []

            def rows(o):
                return [zlib.crc32(repr([round(float(v), 7) + 0.0 for v in r]).encode()) & 0x3fffffff for r in o.get_data_array()] + [
                    zlib.crc32(repr((round(o.get_pc(), 9), o.get_site_count_wrapping_cluster_pc(),
                                     o.get_bond_count_wrapping_cluster_pc())).encode()) & 0x3fffffff]

            def go():
                p = KINDS["plain"](length=5, seed=1)
                for _ in range(ctx.n(60, 300)):
                    kind = ("plain", "L1", "L2", "L0")[rng.randrange(4)]
                    L = rng.choice((2, 3, 4, 5, 5, 6, 7))
                    o = KINDS[kind](length=L, seed=rng.randrange(10**9))
                    if rng.random() < .3:
                        o.run_once()
                        o.reset()
                    o.run_once()
                    a = rows(o)
                    r = KINDS["plain"](length=L)
                    if rng.random() < .5:
                        r.set_custome_site_id_list(o.get_site_id_sequence())
                    else:
                        r.set_custome_site_index_list(o.get_index_sequence())
                    r.run_once()
                    pairs.append((a, rows(r)))
            rec.call("many runs", go)
            for n, (a, b) in enumerate(pairs):
                rec.memo("b%d" % n, a, "P17.replay")
                rec.memo("b%d" % n, b, "P17.replay")
        yield "bulkreplay %d" % rep, f


@scen("P16")
def j_bulk_seed(ctx):
    """many seeds in one process: a seeded simulator made now or after anything else is the same"""
    for rep in range(ctx.n(6, 20)):
        def f(rec, rng, rep=rep):
            rec.limit = 300
            runs = []

            def go():
                for _ in range(ctx.n(25, 150)):
                    kind = ALLKINDS[rng.randrange(5)]
                    L = rng.choice((2, 3, 4, 5, 6)) if rep % 6 else rng.choice((17, 20, 26))
                    seed = rng.choice((0, 1, rng.randrange(10**4), rng.randrange(10**15), -rng.randrange(99)))
                    plan = rng.randrange(10**9)
                    out = []
                    for turn in range(2 if L > 10 else 3):
                        if turn:
                            k = rng.randrange(4)
                            if k == 0:
                                random.random()
                            elif k == 1:
                                random.seed(rng.randrange(99))
                            elif k == 2:
                                KINDS[rng.choice(ALLKINDS)](length=rng.choice((2, 5)), seed=rng.randrange(99)).run_once()
                            else:
                                KINDS[kind](length=L).place_one_site()
                        o = KINDS[kind](length=L, seed=seed)
                        r = random.Random(plan)
                        v = []
                        for _ in range(r.randrange(1, 4)):
                            what = r.randrange(4)
                            if what == 0 and kind in PLAIN:
                                o.set_custome_site_id_list(r.sample(range(L * L), r.randrange(1, L * L + 1)), True)
                            if what < 2:
                                o.run_once()
                            for _ in range(r.randrange(L * L)):
                                o.place_one_site()
                                v.append(report(o))
                            v.append(report(o))
                            v.append(zlib.crc32(repr([int(x) for x in o.get_site_id_sequence()]).encode()) & 0x3fffffff)
                            parts = {}
                            for k in range(L * L):
                                parts.setdefault(int(o.lattice_ref.get_site_gid_by_id(k)), []).append(k)
                            v.append(zlib.crc32(repr(sorted(parts.values())).encode()) & 0x3fffffff)
                            o.reset()
                        v.append(zlib.crc32(repr([int(x) for x in o.get_site_id_sequence()]).encode()) & 0x3fffffff)
                        out.append(v)
                    runs.append(out)
            rec.call("many seeds", go)
            for n, out in enumerate(runs):
                for v in out:
                    rec.memo("b%d" % n, v, "P16.same")
        yield "bulkseed %d" % rep, f


# ---------------------------------------------------------------- P27: orders of larger lattices
def cycles(q):
    """the cycles of a permutation (a witness: the model checks it)"""
    out, done = [], set()
    if sorted(q) != list(range(len(q))):
        return out
    for a in range(len(q)):
        c = []
        while a not in done:
            done.add(a)
            c.append(a)
            a = q[a]
        if c:
            out.append(c)
    return out


@scen("P27")
def j_blocks(ctx):
    """orders of larger lattices: every part of the lattice comes at every stage, and both parities of the order occur"""
    for rep in range(ctx.n(10, 30)):
        def f(rec, rng, rep=rep):
            rec.limit = 300
            L = (17, 26, 9, 33, 12, 40)[rep % 6]
            kind = PLAIN[rep % 3]
            mode = ("new", "reset", "list", "poslist")[rep % 4]
            N = L * L
            K = ctx.n(60, 200)
            B = 12
            seen, cyc = [], []

            def go():
                o = None
                l = list(range(N))
                rng.shuffle(l)
                for k in range(K):
                    if o is None or mode == "new" or k % 20 == 0:
                        o = KINDS[kind](length=L, seed=rng.randrange(10**9))
                        if mode == "list":
                            o.set_custome_site_id_list(l, True)
                        elif mode == "poslist":
                            o.set_custome_site_index_list([divmod(s, L) for s in l], True)
                    else:
                        o.reset()
                    seen.append([int(x) for x in o.get_site_id_sequence()])
            rec.call("many orders", go)
            blocks = sorted({(s * B // N, k * B // N) for q in seen for k, s in enumerate(q)})
            cols = sorted({(s % L * B // L, k * B // N) for q in seen for k, s in enumerate(q)}) if L >= B else []
            steps = sorted({(a * B // N, b * B // N) for q in seen for a, b in zip(q, q[1:])})
            # the positions of two sites that are related (neighbours in number, above each other, opposite, mirrored)
            C = 5
            rel = [(1, lambda a: a + 1), (2, lambda a: a + 2), (L, lambda a: (a + L) % N), (N // 2, lambda a: (a + N // 2) % N), (-1, lambda a: N - 1 - a)]
            off = [set() for _ in rel] + [set(), set()]
            for n, q in enumerate(seen):
                pos = [0] * N
                for k, s in enumerate(q):
                    pos[s if 0 <= s < N else 0] = k
                for j, (d, g) in enumerate(rel):
                    for a in range(N):
                        b = g(a)
                        if b < N and b != a and (d == -1 or a % 2 == 0 or d not in (1,)):
                            off[j].add((pos[a] * C // N, pos[b] * C // N))
                # the same place in one order and the next, in one half of an order and the other
                if n:
                    off[-2] |= {(x * C // N, y * C // N) for x, y in zip(q, seen[n - 1])}
                off[-1] |= {(x * C // N, y * C // N) for x, y in zip(q, q[N // 2:])}
            rec.emit({"k": "blocks", "C": C, "off": [sorted(list(x) for x in o) for o in off], "n": N, "B": B, "site": [list(x) for x in blocks], "col": [list(x) for x in cols] if L >= B else [],
                      "step": [list(x) for x in steps], "orders": seen[:40],
                      "cycles": [cycles(q) for q in seen[:40]]})
        yield "blocks %d" % rep, f


# ---------------------------------------------------------------- P02 .. P09: many whole realizations
LIGHT = {"P02": ("occ", "p"), "P03": ("pool",), "P04": ("pool",), "P05": ("rel",), "P06": ("pc",), "P07": ("w",), "P08": ("m",),
         "P09": ("h", "h1")}


def realization(rec, rng, kind, L, order, fields, density):
    """one realization as one event"""
    s = rec.sims[1] = Sim()
    s.kind, s.L, s.n, s.occ, s.order = kind, L, L * L, [], []
    o = s.obj = rec.call("new", lambda: KINDS[kind](length=L, seed=rng.randrange(10**6)))
    e = {"k": "real", "kind": kind, "L": L, "list": list(order or []), "new": [], "gone": [], "ret": [], "det": [], "os": []}
    if order:
        rec.call("set_custom", o.set_custome_site_id_list, list(order))

    def go():
        before, lat, was = set(), o.lattice_ref, False
        for k in range(60 * s.n + 200):
            r = o.place_one_site()
            d = o.detect_wrapping()
            now = {x for x in range(s.n) if lat.get_site_by_id(x).is_occupied()}
            e["new"].append(sorted(now - before))
            e["gone"].append(sorted(before - now))
            e["ret"].append(1 if r is True else 0 if r is False else 2)
            e["det"].append(1 if d is True else 0)
            look = rng.random() < density or (d and not was) or r is not True
            e["os"].append(rec._look(s, fields) if look else {})
            before, was = now, d
            if r is not True:
                return
        raise RuntimeError("no end")
    rec.call("a realization", go)
    rec.emit(e)


@scen(*LAT)
def j_reals(ctx):
    """many realizations of small lattices, each one event"""
    for rep in range(ctx.n(16, 64)):
        def f(rec, rng, rep=rep):
            rec.limit = 300
            rec.trace["Ls"] = [3, 4, 5, 6]
            F = FIELDS[ctx.pid]
            for _ in range(ctx.n(40, 250)):
                L = rng.choice((3, 4, 4, 4, 5, 5, 6))
                kind = rng.choice(ALLKINDS)
                order = None
                if kind in PLAIN:
                    order = orders.rand(L, rng) if rng.random() < .7 else orders.any_order(L, rng)[1]
                realization(rec, rng, kind, L, order, F, .15)
        yield "reals %d" % rep, f


# ---------------------------------------------------------------- P02 .. P09: every size of lattice
STEP = ((0, 1), (1, 0), (0, -1), (-1, 0))


def chordless(L, path, dirs):
    S = set(path)
    n = 0
    for s in path:
        r, c = divmod(s, L)
        n += sum(((r + a) % L) * L + (c + b) % L in S for a, b in STEP)
    return len(S) == len(path) and n == 2 * len(dirs)


def ring(L, a, b, rng):
    """a closed walk winding a times down and b times across"""
    r, c = rng.randrange(L), rng.randrange(L)
    n, m = abs(a) * L, abs(b) * L
    ds = []
    x = y = 0
    while x < n or y < m:
        if x * m <= y * n and x < n:
            ds.append(1 if a > 0 else 3)
            x += 1
        else:
            ds.append(0 if b > 0 else 2)
            y += 1
    return walked(L, r, c, ds)


def walked(L, r, c, ds):
    path = []
    for d in ds:
        path.append((r % L) * L + c % L)
        r, c = r + STEP[d][0], c + STEP[d][1]
    return path, ds


def loop(L, rng):
    """a closed walk that does not wind"""
    h, w = rng.randrange(2, max(3, L - 2)), rng.randrange(2, max(3, L - 2))
    if rng.random() < .4:
        h, w = rng.choice((2, 3, L - 3, L - 2)), rng.choice((2, 5, L - 2, L - 3))
    return walked(L, rng.randrange(L), rng.randrange(L), [0] * w + [1] * h + [2] * w + [3] * h)


def snake(L, rng):
    """an open walk that turns, never next to itself"""
    r, c = rng.randrange(L), rng.randrange(L)
    ds, s = [], set()
    path = [r * L + c]
    d = rng.randrange(4)
    for _ in range(rng.choice((L, L + L // 2, 2 * L))):
        opts = [d] * 6 + [(d + 1) % 4, (d + 3) % 4]
        rng.shuffle(opts)
        for e in opts:
            q = ((r + STEP[e][0]) % L, (c + STEP[e][1]) % L)
            near = [((q[0] + a) % L) * L + (q[1] + b) % L for a, b in STEP]
            if q[0] * L + q[1] not in path and sum(x in path for x in near) == 1:
                r, c = q
                d = e
                ds.append(e)
                path.append(r * L + c)
                break
        else:
            break
    return path, ds


def a_walk(rec, rng, kind, L, path, ds):
    n, N, B = len(path), L * L, 2 * L * L
    idx = list(range(n))
    mode = rng.randrange(4)
    if mode == 0:
        rng.shuffle(idx)
    elif mode == 1:
        cut = rng.randrange(n)
        idx = idx[cut:] + idx[:cut]
    elif mode == 2:
        k = rng.randrange(n)
        idx = [x for x in idx[::2] if x != k] + [x for x in idx[1::2] if x != k] + [k]
    else:
        k = rng.randrange(n)
        idx.remove(k)
        if rng.random() < .5:
            idx.reverse()
        idx.append(k)
    o = rec.call("new", lambda: KINDS[kind](length=L, seed=rng.randrange(10**6)))
    single = kind in ("L1", "L2")
    order = [path[k] for k in idx]
    e = {"k": "walk", "L": L, "path": path, "dir": [d + 1 for d in ds], "order": [k + 1 for k in idx],
         "ret": [], "p": [], "det": [], "pc": [], "w": [], "m": [], "hd": []}
    pick = set([n - 1, n - 2] + [rng.randrange(n) for _ in range(4)])

    def rels():
        q = [o.lattice_ref.get_site_by_id(k) for k in path]
        return ([[integer(x.get_relative_index().x_coord()), integer(x.get_relative_index().y_coord())] for x in q],
                [integer(x.get_gid()) for x in q])

    def go():
        if not single:
            o.set_custome_site_id_list(order) if rng.random() < .6 else o.set_custome_site_index_list([divmod(k, L) for k in order])
        for k, s in enumerate(order):
            if single:
                o.set_custome_site_id_list([s])
            e["ret"].append(1 if o.place_one_site() is True else 0)
            e["det"].append(1 if o.detect_wrapping() is True else 0)
            e["p"].append(num(o.occupation_prob(), N))
            e["m"].append(num(o.order_param_largest_clstr(), B))
            e["w"].append(num(o.order_param_wrapping(), B))
            e["pc"].append([num(o.get_pc(), N), integer(o.get_site_count_wrapping_cluster_pc()),
                            integer(o.get_bond_count_wrapping_cluster_pc())])
            e["hd"].append(min(10**9, int(abs(o.entropy() - o.entropy_v1()) * 1e10)) if k in pick else 0)
            if k == n - 2:
                e["r1"], e["g1"] = rels()
        e["r2"], e["g2"] = rels()
        e["occ"] = sum(bool(o.lattice_ref.get_site_by_id(k).is_occupied()) for k in range(N))
        g = e["g2"][0]
        e["pool"] = [len(set(o.cluster_pool_ref.get_sites(g))), len(set(o.cluster_pool_ref.get_bonds(g)))] if g >= 0 else [0, 0]
        e["bg"] = sum(o.lattice_ref.get_bond_gid_by_id(k) == g for k in range(B))
    rec.call("a walk", go)
    rec.emit(e)


@scen(*LAT)
def j_walks(ctx):
    """every size of lattice up to 130 (thorough: 260): the sites of a walk"""
    sizes = list(range(5, ctx.n(131, 261)))
    if ctx.tier == "quick":
        sizes += [182 + ctx.seed % 2, 200, 257]       # labels beyond 16 bits
    for part in range(0, len(sizes), 9):
        def f(rec, rng, Ls=sizes[part:part + 9]):
            rec.limit = 300
            rec.trace["Ls"] = [3]
            for L in Ls:
                for turn in range(ctx.n(2, 4) if L < 70 else ctx.n(1, 2)):
                    what = rng.randrange(10)
                    for _ in range(5):
                        if turn == 0:       # across both edges
                            path, ds = ring(L, *rng.choice(((1, 1), (1, -1), (-1, 1), (-1, -1))), rng)
                        elif what < 6:
                            path, ds = ring(L, *rng.choice(((0, 1), (1, 0), (0, -1), (-1, 0), (1, 1), (1, -1), (-1, 1), (2, 1), (1, -2), (3, 2))
                                                          if L < 60 else ((0, 1), (1, 0), (1, 1), (1, -1))), rng)
                        elif what < 8:
                            path, ds = loop(L, rng)
                        else:
                            path, ds = snake(L, rng)
                        if len(path) > 3 and chordless(L, path, ds):
                            a_walk(rec, rng, rng.choice(ALLKINDS), L, path, ds)
                            break
        yield "walks %d" % part, f


# ---------------------------------------------------------------- P02 .. P09: most of a lattice of any size
def rectangles(L, rng):
    """rectangles in a frame of L-1 by L-1, and cells that join some of them"""
    M = L - 1
    out = []
    how = rng.randrange(5)

    def split(r, c, h, w, deep):
        if deep == 0 or h < 5 or w < 5 or rng.random() < .15:
            out.append([r, c, h, w])
            return
        gap = rng.choice((1, 1, 2, 3))
        if rng.random() < .5:
            k = rng.choice((h // 2, rng.randrange(1, h - gap))) if h > gap + 2 else 1
            k = min(k, h - gap - 1)
            split(r, c, k, w, deep - 1)
            split(r + k + gap, c, h - k - gap, w, deep - 1)
        else:
            k = rng.choice((w // 2, rng.randrange(1, w - gap))) if w > gap + 2 else 1
            k = min(k, w - gap - 1)
            split(r, c, h, k, deep - 1)
            split(r, c + k + gap, h, w - k - gap, deep - 1)
    if how == 0:                              # two halves
        out += [[0, 0, M // 2, M], [M // 2 + 1, 0, M - M // 2 - 1, M]]
        if rng.random() < .5:
            out = [[c, r, w, h] for r, c, h, w in out]
    elif how == 1:                            # four quarters
        a, b = M // 2, M - M // 2 - 1
        out += [[0, 0, a, a], [0, a + 1, a, b], [a + 1, 0, b, a], [a + 1, a + 1, b, b]]
    elif how == 2:                            # stripes
        n = rng.choice((2, 3, 5) if M > 12 else (2, 3))
        t = (M - n + 1) // n
        out += [[k * (t + 1), 0, t, M] for k in range(n)]
        if rng.random() < .5:
            out = [[c, r, w, h] for r, c, h, w in out]
    else:
        split(0, 0, M, M, rng.choice((1, 2, 3)))
    taken = set()
    for i, (r, c, h, w) in enumerate(out):
        for x in range(r, r + h):
            for y in range(c, c + w):
                taken.add((x, y))
    cells = []

    def free(x, y):
        return 0 <= x < M and 0 <= y < M and (x, y) not in taken and (x, y) not in cells
    for _ in range(60):
        if len(cells) >= 9:
            break
        r, c, h, w = rng.choice(out)
        d = rng.randrange(4)
        x, y = ((rng.randrange(r, r + h), c + w), (r + h, rng.randrange(c, c + w)), (rng.randrange(r, r + h), c - 1), (r - 1, rng.randrange(c, c + w)))[d]
        run = []
        while free(x, y) and len(run) < 4:
            run.append((x, y))
            x, y = x + STEP[d][0], y + STEP[d][1]
        if run and (x, y) in taken or rng.random() < .1:
            if rng.random() < .3:
                run.reverse()
            cells += run
    if rng.random() < .3:
        rng.shuffle(cells)
    return out, [list(v) for v in cells[:12]]


def coarse(rec, rng, kind, L, holes=True):
    N, B = L * L, 2 * L * L
    off = [rng.randrange(L), rng.randrange(L)]
    rects, cells = rectangles(L, rng)

    def site(p):
        return (p[0] + off[0]) % L * L + (p[1] + off[1]) % L
    inside = [[(x, y) for x in range(r, r + h) for y in range(c, c + w)] for r, c, h, w in rects]
    if rng.random() < .3:
        rng.shuffle(inside)
    first = [p for q in inside for p in q]
    mode = rng.randrange(5)
    if mode == 0:
        rng.shuffle(first)
    elif mode == 1:
        first = first[::2] + first[1::2]
    elif mode == 2:
        first.reverse()
    elif mode == 3:
        first = [p for p in first if (p[0] + p[1]) % 2] + [p for p in first if not (p[0] + p[1]) % 2]
    o = rec.call("new", lambda: KINDS[kind](length=L, seed=rng.randrange(10**6)))
    lat, pool = o.lattice_ref, o.cluster_pool_ref
    single = kind in ("L1", "L2")
    at = []
    for r, c, h, w in rects:
        at.append([[r, c], [r + h - 1, c + w - 1], [r, c + w - 1], [r + h - 1, c]] + [[rng.randrange(r, r + h), rng.randrange(c, c + w)] for _ in range(6)])
    e = {"k": "coarse", "L": L, "off": off, "rects": rects, "cells": cells, "at": at, "steps": []}
    state = {"n": 0, "m": 0, "w": 0, "h": 1e9, "det": False, "det1": None, "ret": True}
    mono = [1, 1, 1, 1, 1]

    def put(p):
        s = site(p)
        if single:
            o.set_custome_site_id_list([s])
        if o.place_one_site() is not True:
            mono[4] = 0
        d = o.detect_wrapping() is True
        state["n"] += 1
        m, w, h = o.largest_cluster(), o.order_param_wrapping(), o.entropy()
        if m < state["m"]:
            mono[0] = 0
        if w < state["w"]:
            mono[1] = 0
        if h > state["h"] + 1e-9:
            mono[2] = 0
        if state["det"] and not d:
            mono[3] = 0
        if d and not state["det"]:
            state["det1"] = [num(o.get_pc(), N), integer(o.get_site_count_wrapping_cluster_pc()), integer(o.get_bond_count_wrapping_cluster_pc())]
            state["n1"], state["w1"] = state["n"], num(w, B)
        state["m"], state["w"], state["h"], state["det"] = m, w, h, d

    def common():
        return {"n": state["n"], "occ": sum(bool(lat.get_site_by_id(k).is_occupied()) for k in range(N)), "p": num(o.occupation_prob(), N),
                "det": 1 if state["det"] else 0,
                "pc": [num(o.get_pc(), N), integer(o.get_site_count_wrapping_cluster_pc()), integer(o.get_bond_count_wrapping_cluster_pc())],
                "w": num(o.order_param_wrapping(), B), "m": num(o.order_param_largest_clstr(), B),
                "hd": min(10**9, int(abs(o.entropy() - o.entropy_v1()) * 1e10))}

    def tell(ps):
        q = [lat.get_site_by_id(site(p)) for p in ps]
        return ([integer(x.get_gid()) for x in q],
                [[integer(x.get_relative_index().x_coord()), integer(x.get_relative_index().y_coord())] for x in q])

    def listed(g):
        return [len(set(pool.get_sites(g))), len(set(pool.get_bonds(g)))] if 0 <= g < B else [0, 0]

    def step(k):
        v = common()
        t = [tell(ps) for ps in at] + [tell([c]) for c in cells[:k]]
        v["lab"], v["rel"] = [x[0] for x in t], [x[1] for x in t]
        v["pool"] = [listed(x[0][0]) for x in t]
        e["steps"].append(v)

    def full(on):
        v = common()
        v["lab"], v["rel"] = tell(on)
        v["pool"] = listed(v["lab"][0])
        lone = 0
        empty = 1
        for g in range(B):
            if g != v["lab"][0]:
                a, b = pool.get_sites(g), pool.get_bonds(g)
                if len(b) == 1 and len(a) == 0 and lat.get_bond_gid_by_id(b[0]) == g:
                    lone += 1
                elif len(a) or len(b):
                    empty = 0
        v["own"], v["empty"] = lone, empty
        v["wid"] = integer(o.wrapping_cluster_id)
        v["bh"] = int(round(o.entropy() * B * 1e5))
        e["full"].append(v)

    def go():
        rest = []
        hole = []
        if holes:
            h, w = rng.choice(((1, 1), (1, 2), (2, 1), (2, 2), (1, 6), (6, 1), (3, 4), (5, 5), (2, 7)))
            h, w = min(h, L - 2), min(w, L - 2)
            done = set(first) | {tuple(c) for c in cells}
            for _ in range(200):
                r, c = rng.randrange(L), rng.randrange(L)
                if rng.random() < .5:
                    r, c = rng.choice((L - 1, r)), rng.choice((c, L - 1))
                    if rng.random() < .5:
                        h, w = (1, w) if r == L - 1 else (h, 1)
                sites = [((r + x) % L, (c + y) % L) for x in range(h) for y in range(w)]
                if not done & set(sites):
                    break
            else:
                r, c, h, w = L - 1, rng.randrange(L), 1, 1
                sites = [(r, c)]
            e["hole"], e["byrow"] = [r, c, h, w], rng.randrange(2)
            hole = sites if e["byrow"] else [((r + x) % L, (c + y) % L) for y in range(w) for x in range(h)]
            rest = [(x, y) for x in range(L) for y in range(L) if (x, y) not in done and (x, y) not in set(hole)]
            rng.shuffle(rest)
        if not single:
            o.set_custome_site_id_list([site(p) for p in first + cells + rest + hole])
        for p in first:
            put(p)
        step(0)
        for k, c in enumerate(cells):
            put(c)
            step(k + 1)
        if not holes:
            return
        for p in rest:
            put(p)
        e["full"] = []
        e["on"] = [list(p) for p in rng.sample(first, min(len(first), 12))] + [list(p) for p in rng.sample(rest, min(len(rest), 6))]
        full(e["on"])
        for p in hole:
            put(p)
            full(e["on"])
        e["first"] = state["det1"] or [0, 0, 0]
        e["firstn"], e["firstw"] = state.get("n1", 0), state.get("w1", 0)
        e["mono"] = mono
    rec.call("a coarse realization", go)
    rec.emit(e)


@scen(*LAT)
def j_coarse(ctx):
    """lattices of many sizes, most of their sites: rectangles that are joined, then the whole lattice but a hole"""
    sizes = ctx.n((7, 12, 23, 41, 58, 73, 84, 97, 101, 128), (7, 9, 12, 18, 23, 30, 41, 50, 58, 64, 73, 84, 90, 97, 101, 110, 120, 128, 129, 140, 150, 182, 200))
    for rep, L in enumerate(sizes):
        def f(rec, rng, rep=rep, L=L):
            rec.limit = 300
            rec.trace["Ls"] = [3]
            for _ in range(ctx.n(6, 12) if L < 20 else ctx.n(2, 4) if L < 60 else 1):
                coarse(rec, rng, rng.choice(ALLKINDS), L)
        yield "coarse %d" % L, f


# ---------------------------------------------------------------- every part at many sizes
def crc(v):
    return zlib.crc32(repr(v).encode()) & 0x3fffffff


def chunks(v, n=64):
    """a long list as a short one"""
    return [crc(v[k:k + n]) for k in range(0, len(v), n)] + [len(v)]


def table_of(o):
    return chunks([[round(float(x), 7) + 0.0 for x in r] for r in o.get_data_array()])


def final(o):
    return chunks([int(x) for x in o.get_site_id_sequence()]) + chunks([[int(a) for a in x] for x in o.get_index_sequence()]) + table_of(o) + [
        report(o)]


@scen("P10", "P11", "P12", "P16", "P17", "P22", "P23")
def j_sizes(ctx):
    """whole realizations at many sizes, each against the realization it has to agree with"""
    sizes = ctx.n((41, 49, 50, 57, 64, 65, 70, 99), (37, 41, 43, 46, 47, 49, 50, 51, 55, 57, 59, 61, 63, 64, 65, 67, 70, 73, 79, 85, 91, 97, 99, 100, 101, 110, 121, 127, 128, 129))
    if ctx.pid == "P23":
        sizes = list(range(3, 37)) + list(sizes)
    for L in sizes:
        def f(rec, rng, L=L):
            rec.limit = 300
            N = L * L
            kind = ("L1" if L % 2 else "L2") if ctx.pid == "P10" and L > 64 else rng.choice(ALLKINDS[:4] if ctx.pid == "P10" else PLAIN if ctx.pid == "P12" else ("plain", "L0", "L1", "L2"))
            if kind == "SP":
                kind = "plain"
            K = KINDS[kind]
            seed = rng.randrange(10**6)
            out = []

            def go():
                if ctx.pid == "P10":
                    # the table against what the simulator says placement by placement
                    a, b = K(length=L, seed=seed), None
                    a.run_once()
                    T = a.get_data_array()
                    b = KINDS["plain"](length=L)
                    b.set_custome_site_id_list(a.get_site_id_sequence())
                    rows = []
                    while b.place_one_site():
                        b.detect_wrapping()
                        rows.append([round(float(x), 7) + 0.0 for x in (b.occupation_prob(), b.entropy(), b.order_param_largest_clstr(), b.order_param_wrapping())])
                    out.append(("P10.tablevalues", chunks(rows), table_of(a)))
                    out.append(("P10.serieslengths", [N] * 4, [len(q) for q in (a.get_occupation_prob_array(), a.get_entropy_array(),
                                                                               a.get_order_param_largest_array(), a.get_order_param_wrapping_array())]))
                elif ctx.pid == "P11":
                    a, b = K(length=L, seed=seed), KINDS["plain"](length=L)
                    for _ in range(rng.randrange(1, N)):
                        a.place_one_site()
                    held = [list(a.get_site_id_sequence()), a.get_site_id_sequence(), table_of(a)]
                    a.reset()
                    out.append(("P11.handedout", chunks(held[0]), chunks(held[1])))
                    a.run_once()
                    T, q = a.get_data_array(), a.get_site_id_sequence()
                    t0, q0 = table_of(a), chunks(list(q))
                    b.set_custome_site_id_list(q)
                    b.run_once()
                    out.append(("P11.asnew", final(b), final(a)))
                    a.reset()
                    out.append(("P11.handedout", t0, chunks([[round(float(x), 7) + 0.0 for x in r] for r in T])))
                    out.append(("P11.handedout", q0, chunks(list(q))))
                elif ctx.pid == "P12":
                    a = K(length=L, seed=seed)
                    l = rng.sample(range(N), rng.randrange(N // 2, N + 1))
                    given = l if rng.random() < .5 else [divmod(x, L) for x in l]
                    keep = list(given)
                    (a.set_custome_site_id_list if given is l else a.set_custome_site_index_list)(given)
                    for real in range(2):
                        did, lat = [], a.lattice_ref
                        while a.place_one_site():
                            did.append(a.selected_id if hasattr(a, "selected_id") else l[len(did)])
                        out.append(("P12.order", chunks(l), chunks([int(x) for x in did])))
                        out.append(("P12.stop", chunks(sorted(l)), chunks([k for k in range(N) if lat.get_site_by_id(k).is_occupied()])))
                        a.reset()
                    out.append(("P12.callerslist", chunks(keep), chunks(given)))
                elif ctx.pid == "P16":
                    a = K(length=L, seed=seed)
                    a.run_once()
                    fa = final(a)
                    K(length=7).run_once()
                    b = K(length=L, seed=seed)
                    b.run_once()
                    out.append(("P16.same", fa, final(b)))
                elif ctx.pid == "P17":
                    a = K(length=L, seed=seed)
                    a.run_once()
                    for form in (0, 1):
                        b = KINDS["plain"](length=L)
                        if form:
                            b.set_custome_site_index_list(a.get_index_sequence())
                        else:
                            b.set_custome_site_id_list(a.get_site_id_sequence())
                        b.run_once()
                        out.append(("P17.replay", final(a), final(b)))
                    out.append(("P17.positions", chunks([list(divmod(int(x), L)) for x in a.get_site_id_sequence()]),
                                chunks([[int(c) for c in x] for x in a.get_index_sequence()])))
                elif ctx.pid == "P22":
                    fs = []
                    for look in (0, 1):
                        a = K(length=L, seed=seed)
                        for k in range(N // 2):
                            a.place_one_site()
                            a.detect_wrapping()
                            if look and k in (5, N // 3, N // 2 - 1):
                                for v in range(5):
                                    a.viewLattice(v)
                                a.viewCluster()
                                a.lattice_ref.scan_sites()
                                a.lattice_ref.scan_bonds()
                                a.entropy_v1()
                                a.get_index_sequence()
                        a.run_once()
                        fs.append(final(a))
                    out.append(("P22.course", fs[0], fs[1]))
                else:
                    qs = [orders.rand(L, rng) for _ in range(2)]
                    alone, olds = [], []
                    for q in qs:
                        s = KINDS["plain"](length=L)
                        s.set_custome_site_id_list(q)
                        s.run_once()
                        alone.append(final(s))
                        olds.append(s)
                    two = [KINDS[k](length=L) for k in ("plain", "L0")]
                    for s, q in zip(two, qs):
                        s.set_custome_site_id_list(q)
                    for k in range(N):
                        for s in two:
                            s.place_one_site()
                            s.detect_wrapping()
                    for a, s, q in zip(alone, two, qs):
                        out.append(("P23.alone", [a[-1]] * 2, [report(s), report(s)]))
                        # ... and once more after all that
                        KINDS[rng.choice(ALLKINDS)](length=L).run_once()
                        c = KINDS["plain"](length=L)
                        c.set_custome_site_id_list(q)
                        c.run_once()
                        out.append(("P23.alone", a, final(c)))
                    for a, s in zip(alone, olds):
                        out.append(("P23.alone", a, final(s)))
            rec.call("a large lattice", go)
            for n, (clause, a, b) in enumerate(out):
                rec.memo("s%d" % n, a, clause)
                rec.memo("s%d" % n, b, clause)
        yield "size %d" % L, f


@scen("P18")
def j_lines(ctx):
    """shortest-path runs over the sites of a walk at every size: a straight closed walk is a line, any other is none"""
    sizes = list(range(5, ctx.n(101, 201)))
    for part in range(0, len(sizes), 12):
        def f(rec, rng, Ls=sizes[part:part + 12]):
            rec.limit = 300
            rec.trace["Ls"] = [3]
            for L in Ls:
                path, ds = ring(L, *rng.choice(((0, 1), (1, 0), (0, -1), (1, 0), (0, 1), (1, 1))), rng)
                N = L * L
                o = rec.call("new", lambda: KINDS["SP"](length=L, seed=rng.randrange(10**6)))
                idx = list(range(len(path)))
                rng.shuffle(idx)
                more = [x for x in (rng.randrange(N) for _ in range(3)) if x not in path]
                more = list(dict.fromkeys(more))
                q = [path[k] for k in idx] + more
                e = {"k": "line", "L": L, "path": path, "dir": [d + 1 for d in ds], "order": [k + 1 for k in idx], "more": more}

                def go():
                    o.set_custome_site_id_list(q)
                    o.run_once()
                    e["star"] = num(o.get_shortest_path_p(), N)
                    e["occ"] = sum(bool(o.lattice_ref.get_site_by_id(k).is_occupied()) for k in range(N))
                    e["scan"] = [1 if o.scan_all_rows() else 0, 1 if o.scan_all_cols() else 0]
                    e["pc"] = num(o.get_pc(), N)
                rec.call("a shortest-path run", go)
                rec.emit(e)
        yield "lines %d" % part, f


@scen("P18")
def j_nearlines(ctx):
    """a winding path and a complete row or column but for one site, at every size"""
    sizes = list(range(6, ctx.n(85, 161))) + list(ctx.n((100, 128), (200, 256)))
    for part in range(0, len(sizes), 9):
        def f(rec, rng, Ls=sizes[part:part + 9]):
            rec.limit = 300
            rec.trace["Ls"] = [3]
            for L in Ls:
                e = {"k": "nearline", "L": L, "t": rng.randrange(2), "c": rng.randrange(L - 1), "m": rng.randrange(3, L - 2),
                     "r": rng.randrange(L), "dr": rng.randrange(L), "dc": rng.randrange(L)}
                free = [k for k in range(L) if k not in (e["c"], e["c"] + 1)]
                e["h"] = rng.choice((rng.choice(free), free[-1], free[0]))

                def at(r, c):
                    x, y = (r + e["dr"]) % L, (c + e["dc"]) % L
                    return y * L + x if e["t"] else x * L + y
                S = {at(r, e["c"]) for r in list(range(e["m"])) + [L - 1]} | {at(r, e["c"] + 1) for r in range(e["m"] - 1, L)}
                S |= {at(e["r"], c) for c in range(L)}
                hole = at(e["r"], e["h"])
                q = sorted(S - {hole})
                how = rng.randrange(3)
                if how:
                    rng.shuffle(q)
                if how == 2:
                    # the row in one piece first, joined by the path in the end
                    q.sort(key=lambda x: x not in {at(e["r"], c) for c in range(L)})
                e["order"] = q + [hole]

                def go():
                    o = KINDS["SP"](length=L, seed=rng.randrange(10**6))
                    for name, l in rng.sample([("one", q), ("two", q + [hole])], 2):
                        if rng.random() < .5:
                            o = KINDS["SP"](length=L, seed=rng.randrange(10**6))
                        else:
                            o.reset()
                        o.set_custome_site_id_list(l)
                        o.reset()
                        o.run_once()
                        e[name] = [num(o.get_shortest_path_p(), L * L),
                                   sum(bool(o.lattice_ref.get_site_by_id(k).is_occupied()) for k in range(L * L)),
                                   [1 if o.scan_all_rows() else 0, 1 if o.scan_all_cols() else 0]]
                rec.call("a shortest-path run", go)
                rec.emit(e)
        yield "nearlines %d" % part, f


# ---------------------------------------------------------------- P02 .. P09: lists given in mid-course
@scen(*LAT)
def j_relists(ctx):
    """realizations in the course of which lists are given, in every form, refused ones among them, before and after wrapping"""
    for rep in range(ctx.n(12, 80)):
        def f(rec, rng, rep=rep):
            F = FIELDS[ctx.pid]
            for real in range(3):
                kind = PLAIN[(rep + real) % 3]
                L = rng.choice((3, 4, 4, 5, 6))
                N = L * L
                s = rec.new(1, kind, L, rng.randrange(10**6))
                if rng.random() < .4:
                    rec.custom(1, orders.any_order(L, rng)[1], False, rng.choice(("id", "index", "pair")))
                for turn in range(rng.choice((1, 2, 3, 5))):
                    for k in range(rng.choice((0, 1, 2, N // 4, N // 2) if turn or real == 1 else (N // 2, 2 * N // 3, 3 * N // 4, N - 2))):
                        if rec.place(1)["ret"] != 1:
                            break
                        rec.detect(1, F)
                    rest = [k for k in range(N) if k not in s.occ]
                    rng.shuffle(rest)
                    if rng.random() < .3:
                        rest = rest[:rng.randrange(len(rest) + 1)]
                    if not s.order and not rest:
                        continue
                    if rng.random() < .3:
                        rec.custom(1, s.order + rest + [rng.choice((-1, N, N + 5))], False, rng.choice(("id", "id", "pair")), F)
                    rec.custom(1, s.order + rest, False, rng.choice(("id", "index", "pair")), F)
                    if rng.random() < .5:
                        rec.detect(1, F)
                for k in range(N + 1):
                    if rec.place(1)["ret"] != 1:
                        break
                    rec.detect(1, F)
                rec.obs(1, F)
                if rng.random() < .5:
                    rec.reset(1, F)
        yield "relists %d" % rep, f
