"""Scenarios: one draw per attempt, lists naming a site twice, printed text after a reset, larger
ensembles, coverage of random orders."""
import random
import re
import zlib

import numpy as np

import orders
from rec import BAD, KINDS, Ended, integer, num
from scen import free_steps, scen, stepwise
from scen2 import ALLKINDS, PLAIN, nbrs4
from source_py.simulation.index import Index


# ---------------------------------------------------------------- P13, P14: one draw per attempt
@scen("P13", "P14")
def j_rates(ctx):
    """the same configuration up to which one of the four directions leads to an empty site: with one draw per
    attempt that does not look at the state, the four rates of success add up to one"""
    kind = "L1" if ctx.pid == "P13" else "L2"
    K = ctx.n(220, 1500)
    for rep in range(ctx.n(12, 60)):
        def f(rec, rng, rep=rep):
            L = rng.choice((4, 5, 6))
            N = L * L
            x = rng.randrange(N)
            rec.trace["Ls"] = [L]
            near = nbrs4(L, x)
            r0, c0 = divmod(x, L)
            far = [((r0 + 2 * a) % L) * L + (c0 + 2 * b) % L for a, b in ((0, 1), (1, 0), (0, -1), (-1, 0))]
            deep = kind == "L2" and rng.random() < .6
            full = set(range(N)) if rng.random() < .3 else (
                {x} | set(near) | set(far) | {s for s in range(N) if rng.random() < .3})
            s = KINDS[kind]
            x_obj = rec.call("new", lambda: s(length=L, seed=rng.randrange(10**6)))
            hits = []
            for d in range(4):
                gap = far[d] if deep else near[d]
                if deep and L == 4 and far[d] in near:
                    return
                # on the 4 x 4 lattice two directions lead to the same far site
                mult = (far if deep else near).count(gap)

                def go():
                    o = x_obj
                    hit = att = 0
                    built = False
                    while att < K:
                        if not built:
                            o.reset()
                            for c in sorted(full - {gap}):
                                o.set_custome_site_id_list([c])
                                if o.place_one_site() is not True:
                                    return None
                            o.set_custome_site_id_list([x])
                            built = True
                        att += 1
                        r = o.place_one_site()
                        if o.lattice_ref.get_site_by_id(gap).is_occupied():
                            hit += 1
                            built = False
                        elif r is not True:
                            built = False       # withdrawn
                    return hit
                h = rec.call("attempts with one candidate", go)
                if h is None:
                    h = 0
                hits.append([h, mult])
            # each far site counts once
            tot = [h // m for h, m in hits]
            rec.emit({"k": "rates", "kind": kind, "L": L, "x": x, "deep": 1 if deep else 0, "K": K, "hits": tot})
        yield "rates %d" % rep, f


# ---------------------------------------------------------------- P02: whatever the list
@scen("P02")
def j_repeated(ctx):
    """lists that name a site twice or an occupied one: an attempt may be refused, it is never reported as done in vain"""
    for rep in range(ctx.n(20, 150)):
        def f(rec, rng, rep=rep):
            kind = PLAIN[rep % 3]
            L = rng.choice((2, 3, 4, 5))
            N = L * L
            rec.trace["Ls"] = [L]
            o = rec.call("new", lambda: KINDS[kind](length=L, seed=rng.randrange(10**6)))
            occ = []

            def look():
                return [k for k in range(N) if o.lattice_ref.get_site_by_id(k).is_occupied()]

            def attempt():
                try:
                    r = o.place_one_site()
                    return 1 if r is True else 0 if r is False else 3
                except Exception:
                    return 2
            if rng.random() < .4:
                for _ in range(rng.randrange(1, N)):
                    rec.call("place", o.place_one_site)
                occ = look()
            l = [rng.randrange(N) for _ in range(rng.randrange(2, 2 * N))]
            if rng.random() < .5:
                l = occ + l
            form = rng.choice(("id", "pair", "index"))
            arg = l if form == "id" else [(k // L, k % L) for k in l] if form == "pair" else [Index(k // L, k % L) for k in l]

            def install():
                try:
                    (o.set_custome_site_id_list if form == "id" else o.set_custome_site_index_list)(arg, rng.random() < .3)
                except Exception:
                    pass
            rec.call("set_custom", install)
            for _ in range(len(l) + 3):
                r = rec.call("place_one_site", attempt)
                now = rec.call("is_occupied", look)
                b, a = set(occ), set(now)
                p = rec.call("occupation_prob", lambda: num(o.occupation_prob(), N))
                rec.emit({"k": "free", "before": len(b), "new": sorted(a - b), "gone": sorted(b - a), "ret": r, "p": p})
                occ = now
                if r != 1:
                    break
        yield "repeated %d" % rep, f


# ---------------------------------------------------------------- P11: what is printed
def said(rec, i, w):
    """the tokens an inspection call prints and returns"""
    s = rec.sims[i]
    rec.inspect(i, w)
    text = re.sub(r"0x[0-9a-f]+", "", rec.printed)
    return [zlib.crc32(t.encode()) & 0x3fffffff for t in sorted(re.findall(r"[\w.+-]+", text))]


@scen("P11")
def j_said(ctx):
    """after a reset every display and summary says what it says of a new simulator"""
    for rep in range(ctx.n(30, 200)):
        def f(rec, rng, rep=rep):
            kind = ALLKINDS[rep % 5]
            L = rng.choice((3, 4, 5))
            rec.new(1, kind, L, rng.randrange(10**6))
            names = [w for w in rec.inspect(1, None) if w not in ("seq", "idx", "ser", "tab")]

            def hear(i, tag):
                for w in names:
                    rec.memo(tag + w, said(rec, i, w), "P11.said", 0)
            hear(1, "new ")
            for real in range(3):
                for _ in range(rng.choice((1, L * L // 2, 3 * L * L))):
                    rec.place(1)
                    rec.detect(1)
                if rng.random() < .4:
                    rec.run(1)
                if rng.random() < .3:
                    hear(1, "during %d " % real)
                for _ in range(rng.choice((1, 1, 2))):
                    rec.reset(1)
                hear(1, "new ")
            # the same realization on a new one
            o = orders.any_order(L, rng)[1]
            for i in (1, 2):
                if i == 2:
                    rec.new(2, kind, L, rng.randrange(10**6))
                    hear(2, "new ")
                stepwise(rec, i, o, (), stop=len(o) // 2) if kind in PLAIN else [
                    (rec.custom(i, [q]), rec.place(i), rec.detect(i)) for q in o[:len(o) // 2]]
                hear(i, "then ")
        yield "said %d" % rep, f


# ---------------------------------------------------------------- P27: random orders cover everything
def drawn(rec, kind, L, K, mode, rng, give=None):
    """K orders of a simulator left to itself"""
    out = []

    def one(x):
        o, got = [], set()
        lat = x.lattice_ref
        N = L * L
        k = 0
        while k < 40 * N + 200 and x.place_one_site() is True:
            k += 1
            new = [s for s in range(N) if s not in got and lat.get_site_by_id(s).is_occupied()]
            o += new
            got.update(new)
        return o

    def go():
        x = KINDS[kind](length=L, seed=rng.randrange(10**9))
        for k in range(K):
            if mode == "new":
                x = KINDS[kind](length=L, seed=rng.randrange(10**9))
            elif mode == "low":
                x = KINDS[kind](length=L, seed=k)
            elif mode == "noseed":
                x = KINDS[kind](length=L)
            elif k:
                x.reset()
            out.append(one(x))
    old, rec.limit = rec.limit, 120
    rec.call("many realizations", go)
    rec.limit = old
    return out


@scen("P27")
def j_cover_orders(ctx):
    """many orders: no two alike, every site at every position, every site after every other"""
    for kind in ALLKINDS:
        for mode in ("new", "reset", "low", "noseed"):
            def f(rec, rng, kind=kind, mode=mode):
                L = rng.choice((4, 5)) if kind in PLAIN else 4
                K = ctx.n(1200, 3000) if kind in PLAIN else ctx.n(700, 2500)
                rec.trace["Ls"] = [L]
                seen = drawn(rec, kind, L, K, mode, rng)
                rec.emit({"k": "coverage", "n": L * L, "seen": seen, "pairs": 1 if kind in PLAIN else 0})
            yield "cover %s %s" % (kind, mode), f


@scen("P27")
def j_afterplain(ctx):
    """a shuffled list installed after an unshuffled one (or the other way round), by number and by position"""
    for kind in PLAIN:
        for f1 in ("id", "pair"):
            for f2 in ("id", "pair"):
                def f(rec, rng, kind=kind, f1=f1, f2=f2):
                    L = rng.choice((2, 3, 4))
                    N = L * L
                    rec.trace["Ls"] = [L]
                    sites = rng.sample(range(N), 3)

                    def give(x, l, form, shuf):
                        if form == "id":
                            x.set_custome_site_id_list(list(l), shuf)
                        else:
                            x.set_custome_site_index_list([(s // L, s % L) for s in l], shuf)

                    def order(x):
                        o = []
                        for _ in range(N + 2):
                            if x.place_one_site() is not True:
                                break
                            o += [s for s in range(N) if s not in o and x.lattice_ref.get_site_by_id(s).is_occupied()]
                        return o
                    seen = [set(), set(), set(), set()]
                    plain = []

                    def go():
                        x = KINDS[kind](length=L, seed=rng.randrange(10**6))
                        for k in range(160):
                            if k % 3 == 0:
                                x = KINDS[kind](length=L, seed=rng.randrange(10**6))
                            else:
                                x.reset()
                            o = rng.sample(range(N), rng.choice((1, 3, N)))
                            give(x, o, f1, False)
                            if k % 2:
                                plain.append((o, order(x)))
                                x.reset()
                            give(x, sites, f2, True)
                            seen[0].add(tuple(order(x)))
                            x.reset()
                            seen[1].add(tuple(order(x)))
                            x.reset()
                            x.reset()
                            seen[2].add(tuple(order(x)))
                            x.reset()
                            give(x, sites, f1, True)
                            give(x, sites, f2, True)
                            seen[3].add(tuple(order(x)))
                            x.reset()
                            o = rng.sample(range(N), rng.choice((1, 3, N)))
                            give(x, o, f2, False)
                            plain.append((o, order(x)))
                    rec.call("lists one after the other", go)
                    for s in seen:
                        rec.emit({"k": "orders", "sites": sites, "seen": sorted(map(list, s)), "expect": 6})
                    for n, (a, b) in enumerate(plain):
                        rec.memo("p%d" % n, a, "P12.order")
                        rec.memo("p%d" % n, b, "P12.order")
                yield "afterplain %s %s %s" % (kind, f1, f2), f


# ---------------------------------------------------------------- P15: empty sites stay drawable
@scen("P15")
def j_drawable(ctx):
    """many runs: in every configuration met often, every empty site is the next one for some draw"""
    for kind in ("L1", "L2"):
        for L in (2, 3):
            for mode in ("new", "again", "listed"):
                def f(rec, rng, kind=kind, L=L, mode=mode):
                    N = L * L
                    rec.trace["Ls"] = [L]
                    met = {}
                    trials = ctx.n(600, 3000) if L == 2 else ctx.n(2200, 9000)

                    def go():
                        o = None
                        for k in range(trials):
                            if mode == "again" and o is not None and k % 50:
                                o.reset()
                            else:
                                o = KINDS[kind](length=L, seed=rng.randrange(2**40))
                            if mode == "listed":
                                o.set_custome_site_id_list(list(range(N)), k % 2 == 1)
                            lat = o.lattice_ref
                            occ = ()
                            while True:
                                r = o.place_one_site()
                                now = tuple(q for q in range(N) if lat.get_site_by_id(q).is_occupied())
                                if now != occ:
                                    new = set(now) - set(occ)
                                    met.setdefault(occ, []).append(min(new))
                                    occ = now
                                if r is not True:
                                    break
                    rec.limit = 150
                    rec.call("many runs", go)
                    groups = [{"occ": list(a), "seen": sorted(set(b))} for a, b in sorted(met.items())
                              if len(b) >= (200 if len(a) < N - 2 else 50)]
                    rec.emit({"k": "drawable", "n": N, "L": L, "groups": groups})
                yield "drawable %s %d %s" % (kind, L, mode), f
