"""Scenarios: lattice geometry, recorded tables, resets, lists, selection rules, replays, inspection, interleaving."""
import os
import itertools
import random
import zlib

import orders
from rec import BAD, KINDS, Quiet, Rec, integer
from scen import ALLF, free_steps, scen, stepwise
from source_py.simulation.index import Index
from source_py.simulation.lattice import Lattice

ALLKINDS = ("plain", "L0", "L1", "L2", "SP")
PLAIN = ("plain", "L0", "SP")


# ---------------------------------------------------------------- P01
def lattice_event(rec, L, lat, sites, bonds, sim=None):
    def look():
        qs, qb = [], []
        for s in sites:
            site = lat.get_site_by_id(s)
            b = [integer(x) for x in site.connecting_bonds()]
            pos = [integer(site.get_index().row()), integer(site.get_index().column())]
            r, c = s // L, s % L
            nb = [[integer(x) for x in lat.get_all_neighbor_sites(s)],
                  [integer(x) for x in lat.get_site_neighbor_of_site(s)]]
            along = []
            for x in b:
                e = [integer(y) for y in lat.get_neighbor_sites(x)]
                e.remove(s)
                along.append(e[0] if len(e) == 1 else BAD)
            back = [integer(site.get_id()), integer(lat.calculate_id_from_index((r, c))),
                    integer(lat.calculate_id_from_index(Index(r, c))), integer(lat.get_id_from_index(r, c)),
                    integer(lat.get_site_by_index(Index(r, c)).get_id()),
                    integer(lat.calculate_id_from_index(site.get_index()))]
            dist = []
            for x in nb[0]:
                for a, d in ((site, lat.get_site_by_id(x)), (site.get_index(), lat.get_site_by_id(x).get_index())):
                    v = lat.distance_btn_sites(a, d)
                    dist.append(integer(abs(v[0]) + abs(v[1])))
            if sim is not None:
                nb.append([integer(x) for x in sim.get_connected_sites(site, site.connecting_bonds())])
                nb.append([integer(sim.get_neighbor_site(s, x)) for x in site.connecting_bonds()])
                if hasattr(sim, "get_four_neighbor_sites"):
                    nb.append([integer(x) for x in sim.get_four_neighbor_sites(s)])
            qs.append({"s": s, "b": b, "nb": nb, "along": along, "pos": pos, "back": back, "dist": dist})
        for x in bonds:
            bond = lat.get_bond_by_id(x)
            t, y = divmod(x, L * L)
            i = bond.get_index()
            pos = [integer(v) for v in i]
            back = [integer(bond.get_id()), integer(lat.get_bond_by_index(y // L, y % L, t).get_id()),
                    integer(lat.calculate_id_from_index((t, y // L, y % L))), integer(lat.calculate_id_from_index(i))]
            qb.append({"b": x, "ends": [integer(v) for v in bond.connected_sites()], "pos": pos, "back": back})
        return qs, qb
    qs, qb = rec.call("lattice", look)
    counts = rec.call("counts", lambda: (len(list(lat.get_site_id_list())), len(list(lat.get_bond_id_list()))))
    rec.emit({"k": "lat", "L": L, "ns": counts[0], "nb": counts[1], "sites": qs, "bonds": qb})


@scen("P01")
def j_lattice(ctx):
    """every site and bond of every lattice size"""
    sizes = list(range(3, ctx.n(25, 65))) + list(ctx.n((50, 97, 101), (80, 97, 100, 128, 200)))
    for L in sizes:
        for lo in range(0, L * L, 1500):
            def f(rec, rng, L=L, lo=lo):
                rec.trace["Ls"].append(3)
                lat = rec.call("Lattice", lambda: Lattice(L))
                hi = min(lo + 1500, L * L)
                for k in range(lo, hi, 300):
                    m = min(k + 300, hi)
                    lattice_event(rec, L, lat, list(range(k, m)), list(range(2 * k, 2 * m)))
            yield "lattice %d/%d" % (L, lo), f
    for L in ctx.n((182, 257), (182, 257, 300, 363, 400)):
        def f(rec, rng, L=L):
            rec.trace["Ls"].append(3)
            rec.limit = 120.0
            lat = rec.call("Lattice", lambda: Lattice(L))
            N = L * L
            edge = [r * L + c for r in (0, 1, L // 2, L - 2, L - 1) for c in (0, 1, L // 2, L - 2, L - 1)]
            marks = [v + d for v in (128, 256, 32768, 65536) for d in (-1, 0, 1)]
            ss = sorted({v for v in edge + marks + [rng.randrange(N) for _ in range(150)] if 0 <= v < N})
            bs = sorted({v for v in edge + [N + x for x in edge] + marks + [rng.randrange(2 * N) for _ in range(150)] if 0 <= v < 2 * N})
            lattice_event(rec, L, lat, ss, bs)
        yield "lattice %d sampled" % L, f
    rest = [L for L in range(3, ctx.n(131, 257)) if L not in sizes]
    for part in range(0, len(rest), 6):
        def f(rec, rng, Ls=rest[part:part + 6]):
            rec.trace["Ls"].append(3)
            rec.limit = 120.0
            for L in Ls:
                lat = rec.call("Lattice", lambda: Lattice(L))
                N = L * L
                ss = {r * L + c for r in range(L) for c in (0, L - 1)} | {rng.randrange(N) for _ in range(40)}
                ss |= {r * L + c for r in (0, 1, L - 2, L - 1) for c in (0, 1, L // 2, L - 2, L - 1, rng.randrange(L), rng.randrange(L))}
                bs = {v + N * k for v in ss for k in (0, 1)}
                ss, bs = sorted(ss), sorted(bs)
                for k in range(0, len(bs), 300):
                    lattice_event(rec, L, lat, ss[k // 2:k // 2 + 150], bs[k:k + 300])
        yield "lattice edges %d" % part, f


@scen("P01")
def j_lattice_used(ctx):
    """the lattice of a simulator, before, during and after realizations, and after resets"""
    for rep in range(ctx.n(10, 40)):
        def f(rec, rng, rep=rep):
            L = rng.choice((3, 4, 5, 6, 7, 8, 11))
            kind = ALLKINDS[rep % 5]
            s = rec.new(1, kind, L, rng.randrange(10**6))
            for k in range(3):
                for _ in range(rng.randrange(0, L * L)):
                    rec.call("place", s.obj.place_one_site)
                    rec.call("detect", s.obj.detect_wrapping)
                if k == 1:
                    rec.call("run", s.obj.run_once)
                lattice_event(rec, L, s.obj.lattice_ref, list(range(L * L)), list(range(2 * L * L)), s.obj)
                rec.call("reset", s.obj.reset)
        yield "used %d" % rep, f


# ---------------------------------------------------------------- histories (P10, P11, P12)
HFIELDS = {"P10": ("tab", "lens"), "P11": ALLF + ("tab", "lens"), "P12": ("occ",), "P06": ("pc",), "P04": ("wid",),
           "P17": ("idx",)}


def hfields(ctx, kind):
    f = HFIELDS[ctx.pid]
    return f


@scen("P10", "P11", "P12")
def j_history(ctx):
    """histories of calls generated by TLC from the model (MCHist) and replayed"""
    hs = ctx.hists[:ctx.n(200, 2500)]
    for part in range(0, len(hs), 4):
        def f(rec, rng, hs=hs[part:part + 4], part=part):
            for j, h in enumerate(hs):
                kind = PLAIN[(part // 4 + j) % (2 if ctx.pid == "P10" else 3)]
                i = j + 1
                s = rec.new(i, kind, 3, rng.randrange(10**6), hfields(ctx, kind))
                open_ = gap = False
                for op in h:
                    if op[0] == "place":
                        gap = gap or open_
                        if rec.place(i, hfields(ctx, kind))["ret"] == 1:
                            open_ = True
                    elif op[0] == "detect":
                        rec.detect(i, hfields(ctx, kind))
                        open_ = False
                    elif op[0] == "run":
                        gap, open_ = gap or open_, False
                        rec.run(i, hfields(ctx, kind))
                    elif op[0] == "testrun":
                        # (a list left out below can make the history differ from the model's here)
                        if not (gap or open_):
                            rec.testrun(i, hfields(ctx, kind))
                    elif op[0] == "reset":
                        gap = open_ = False
                        rec.reset(i, hfields(ctx, kind))
                    elif op[0] == "custom":
                        l, shuf = op[1], op[2]
                        ok = all(0 <= x < 9 for x in l)
                        n = len(s.occ)
                        # legal only while the entries still to come are empty
                        if ok and (any(x in s.occ for x in l[n:]) or (shuf and n)):
                            continue
                        rec.custom(i, l, bool(shuf), rng.choice(("id", "pair", "index")), hfields(ctx, kind))
        yield "history %d" % part, f


# ---------------------------------------------------------------- P10
@scen("P10")
def j_table(ctx):
    """tables after runs mixed with hand placements, partial lists, truncations, resets"""
    F = ("tab", "lens")
    for rep in range(ctx.n(50, 400)):
        def f(rec, rng, rep=rep):
            kind = ("plain", "L1", "L2", "L0")[rep % 4]
            L = rng.choice((2, 3, 4, 5, 6))
            N = L * L
            rec.new(1, kind, L, rng.randrange(10**6), F)
            for real in range(rng.choice((1, 2, 3))):
                used = 0
                if kind in PLAIN and rng.random() < .6:
                    o = orders.any_order(L, rng)[1]
                    part = o[:rng.randrange(1, N + 1)]
                    rec.custom(1, part, rng.random() < .3, rng.choice(("id", "index", "pair")), F)
                hand = rng.choice((0, 0, 0, 1, 2, N // 2, N))
                for _ in range(hand):
                    e = rec.place(1)
                    if e["ret"] != 1:
                        break
                    if rng.random() < .9:
                        rec.detect(1, F if rng.random() < .3 else ())
                if rng.random() < .85:
                    rec.run(1, F)
                rec.obs(1, F)
                if rng.random() < .3:
                    rec.run(1, F)
                rec.reset(1, F)
            rec.run(1, F)
        yield "table %d" % rep, f


@scen("P10")
def j_testrun(ctx):
    """truncated runs, which stop at the wrapping placement: first, after runs and resets, gone on with"""
    F = ("tab", "lens")
    for rep in range(ctx.n(20, 120)):
        def f(rec, rng, rep=rep):
            kind = ("plain", "L0", "L1", "L2")[rep % 4]
            L = rng.choice((2, 3, 4, 5, 6, 8))
            rec.new(1, kind, L, rng.randrange(10**6))
            for k in range(4):
                if rng.random() < .3:
                    rec.run(1, F)
                    rec.reset(1)
                if kind in PLAIN and rng.random() < .3:
                    o = orders.any_order(L, rng)[1]
                    rec.custom(1, o[:rng.randrange(1, L * L + 1)])
                rec.testrun(1, F)
                x = rng.random()
                if x < .3:
                    rec.run(1, F)
                elif x < .6:
                    for _ in range(rng.randrange(1, 4)):
                        if rec.place(1)["ret"] == 1:
                            rec.detect(1)
                    rec.testrun(1, F)
                    rec.obs(1, F)
                rec.reset(1, F)
        yield "testrun %d" % rep, f


@scen("P10")
def j_truncated(ctx):
    """runs over a list that is later continued by a longer one, without and with a reset"""
    F = ("tab", "lens")
    for rep in range(ctx.n(16, 100)):
        def f(rec, rng, rep=rep):
            L = rng.choice((3, 4, 5))
            N = L * L
            rec.new(1, ("plain", "L0")[rep % 2], L, rng.randrange(10**6))
            o = orders.any_order(L, rng)[1]
            a = rng.randrange(1, N)
            b = rng.randrange(a, N + 1)
            rec.custom(1, o[:a])
            rec.run(1, F)
            rec.custom(1, o[:b])
            rec.run(1, F)
            rec.reset(1, F)
            rec.run(1, F)
        yield "truncated %d" % rep, f


# ---------------------------------------------------------------- P11
GIVES = ("seq", "idx", "tab", "p", "h", "m", "w")


def numbers(rec, i, extra=("tab",)):
    """everything the simulator reports, as integers"""
    s = rec.sims[i]
    f = ALLF + tuple(extra)
    o = rec.look(i, f)
    return rec._flat2(o)


@scen("P11")
def j_broken(ctx):
    """broken-off realizations, reset, then the next one against a new simulator"""
    for rep in range(ctx.n(40, 300)):
        def f(rec, rng, rep=rep):
            kind = ALLKINDS[rep % 5]
            L = rng.choice((2, 3, 4, 5, 6))
            N = L * L
            rec.new(1, kind, L, rng.randrange(10**6), ALLF)
            if kind in PLAIN and rng.random() < .4:
                rec.custom(1, orders.any_order(L, rng)[1][:rng.randrange(1, N + 1)])
            if rng.random() < .5:
                rec.run(1)
            else:
                for _ in range(rng.randrange(1, N + 2)):
                    rec.place(1)
                    if rng.random() < .8:
                        rec.detect(1)
            for g in rng.sample(GIVES, 3):
                rec.give(1, g)
            rec.reset(1, ALLF + ("tab", "lens") + (("star",) if kind == "SP" else ()))
            rec.check_given()
            rec.obs(1, ALLF)
            # the next realization, step by step, against a new simulator given the same order
            o = orders.any_order(L, rng)[1]
            for i in (1, 2):
                if i == 2:
                    rec.new(2, kind, L, rng.randrange(10**6), ALLF)
                s = rec.sims[i]
                if kind in PLAIN:
                    rec.custom(i, o)
                for k, x in enumerate(o):
                    if kind not in PLAIN:
                        rec.custom(i, [x])
                    rec.place(i)
                    rec.detect(i)
                    if k % 3 == 0 or k == len(o) - 1:
                        rec.memo("step %d" % k, numbers(rec, i, ("tab",) + (("star",) if kind == "SP" else ())), "P11.asnew", 0)
            if rng.random() < .4:
                rec.reset(1, ALLF + ("tab",))
                rec.check_given()
        yield "broken %d" % rep, f


@scen("P11")
def j_keptlist(ctx):
    """a list kept over resets: the next realization is that of a new simulator with this list"""
    for rep in range(ctx.n(24, 150)):
        def f(rec, rng, rep=rep):
            kind = PLAIN[rep % 3]
            L = rng.choice((2, 3, 4, 5, 6))
            N = L * L
            o = orders.any_order(L, rng)[1]
            part = o[:rng.choice((1, N // 2, N - 1, N, rng.randrange(1, N + 1)))]
            shuf = kind != "SP" and rng.random() < .25
            rec.new(1, kind, L, rng.randrange(10**6))
            if rng.random() < .3:
                rec.custom(1, part[:rng.randrange(1, len(part) + 1)], False)
                for _ in range(rng.randrange(0, 3)):
                    rec.place(1)
                    rec.detect(1)
                if shuf:
                    rec.reset(1)
            rec.custom(1, part, shuf)

            def ended(i):
                rec.run(i, ("occ",))
                if shuf:
                    return sorted(rec.sims[i].occ)
                return sorted(rec.sims[i].occ) + numbers(rec, i, ("tab", "lens") + (("star",) if kind == "SP" else ()))
            for real in range(3):
                x = rng.random()
                if x < .2:
                    rec.run(1)
                elif x < .3 and kind != "SP":
                    rec.testrun(1)
                else:
                    for _ in range(rng.choice((0, 1, 2, rng.randrange(0, len(part) + 2)))):
                        rec.place(1)
                        if rng.random() < .9:
                            rec.detect(1)
                rec.reset(1, ALLF)
                if real == 2 or rng.random() < .5:
                    rec.memo("kept", ended(1), "P11.asnew", 0)
                    rec.reset(1)
            rec.new(2, kind, L, rng.randrange(10**6))
            rec.custom(2, part, shuf)
            rec.memo("kept", ended(2), "P11.asnew", 0)
        yield "keptlist %d" % rep, f


@scen("P11")
def j_runreset(ctx):
    """whole runs: series of run k after resets equal those of a new simulator for that order"""
    for rep in range(ctx.n(20, 150)):
        def f(rec, rng, rep=rep):
            kind = ALLKINDS[rep % 5]
            L = rng.choice((3, 4, 5, 6, 8))
            rec.new(1, kind, L, rng.randrange(10**6))
            for real in range(3):
                o = rec.run(1, ("tab",) + (("star",) if kind == "SP" else ()))
                mine = numbers(rec, 1, ("tab",))
                for g in rng.sample(GIVES, 4):
                    rec.give(1, g)
                if kind in PLAIN:
                    i = 10 + real
                    rec.new(i, kind, L, rng.randrange(10**6))
                    rec.custom(i, o)
                    rec.run(i)
                    rec.memo("run %d" % real, mine, "P11.asnew", 0)
                    rec.memo("run %d" % real, numbers(rec, i, ("tab",)), "P11.asnew", 0)
                if rng.random() < .3:
                    rec.reset(1)
                rec.reset(1, ALLF + ("tab", "lens"))
                rec.check_given()
        yield "runreset %d" % rep, f


@scen("P11")
def j_complete(ctx):
    """what a new L1 / L2 simulator completes, one that was reset completes too, time after time"""
    for rep in range(ctx.n(24, 120)):
        def f(rec, rng, rep=rep):
            kind = ("L1", "L2", "L1", "plain")[rep % 4]
            L = rng.choice((2, 3, 4, 5))
            N = L * L
            rec.new(1, kind, L, rng.randrange(10**6))
            F = ("occ", "p", "m", "w", "lens")

            def ended():
                o = rec.look(1, ("p", "m", "w", "lens"))
                return rec._flat2(o)
            rec.run(1, F)
            rec.memo("complete", ended(), "P11.asnew")
            for k in range(ctx.n(8, 20)):
                if k % 3 == 1 and kind != "plain":
                    # something that uses up candidates
                    rec.reset(1)
                    for s in rng.sample(range(N), rng.randrange(1, N)):
                        rec.custom(1, [s])
                        rec.place(1)
                    for _ in range(rng.randrange(0, 20)):
                        rec.place(1)
                elif k % 3 == 2:
                    rec.reset(1)
                    for _ in range(rng.randrange(1, N)):
                        rec.place(1)
                rec.reset(1, F)
                rec.run(1, ("occ",))
                rec.memo("complete", ended(), "P11.asnew")
        yield "complete %d" % rep, f


# ---------------------------------------------------------------- P12
@scen("P12")
def j_lists(ctx):
    """lists by number or position, with and without shuffling, continued, reset, refused"""
    F = ("occ", "p")
    for rep in range(ctx.n(70, 500)):
        def f(rec, rng, rep=rep):
            kind = PLAIN[rep % 3]
            L = rng.choice((2, 3, 4, 5, 6, 7))
            N = L * L
            rec.new(1, kind, L, rng.randrange(10**6), F)
            for real in range(rng.choice((1, 2, 3))):
                o = orders.any_order(L, rng)[1]
                l = o[:rng.choice((1, 2, N // 2, N - 1, N, rng.randrange(1, N + 1))) or 1]
                shuf = rng.random() < .35
                form = rng.choice(("id", "index", "pair"))
                bad_list(rec, rng, 1, L, F)
                arg = rec.custom(1, l, shuf, form, F, seq=True)
                if rng.random() < .5:      # the caller goes on using its list
                    if rng.random() < .5:
                        arg.reverse()
                    else:
                        del arg[:]
                        arg.append(0)
                steps = rng.choice((0, 1, len(l) // 2, len(l), len(l) + 2))
                for k in range(steps):
                    rec.place(1, F)
                    if k == 1:
                        bad_list(rec, rng, 1, L, F)
                if not shuf and steps <= len(l) and rng.random() < .5:
                    # a longer list: goes on after the entries already used
                    rec.custom(1, o[:rng.randrange(len(l), N + 1)], None if rng.random() < .3 else False, form, F)
                if rng.random() < .4:
                    rec.run(1, F)
                else:
                    for k in range(N + 1):
                        if rec.place(1)["ret"] != 1:
                            break
                rec.place(1, F)
                bad_list(rec, rng, 1, L, F)
                rec.reset(1, F)
                if rng.random() < .6:
                    if kind != "SP" or rng.random() < .5:
                        for k in range(rng.randrange(1, len(l) + 2)):
                            rec.place(1, F)
                        rec.reset(1, F)
        yield "lists %d" % rep, f


def bad_list(rec, rng, i, L, F):
    """a list with a site outside the lattice changes nothing"""
    if rng.random() < .5:
        return
    s = rec.sims[i]
    N = L * L
    inside = [rng.randrange(N) for _ in range(rng.choice((0, 1, 3)))]
    form = rng.choice(("id", "index", "pair"))
    if form == "id":
        bad = rng.choice((-1, N, N + rng.randrange(3 * N), -N, -rng.randrange(1, 2 * N)))
        arg = inside + [bad]
        f = s.obj.set_custome_site_id_list
    else:
        r, c = rng.choice(((L, rng.randrange(L)), (rng.randrange(L), L), (-1, rng.randrange(L)), (rng.randrange(L), -1),
                           (L, -1), (-1, L), (-1, 2 * L), (0, L), (rng.randrange(L), L + rng.randrange(L)), (L + 3, L + 3)))
        bad = -7 if True else 0
        arg = [(x // L, x % L) for x in inside] + [(r, c)]
        if form == "index":
            arg = [Index(*p) for p in arg]
        f = s.obj.set_custome_site_index_list
    k = rng.randrange(len(arg))
    arg[k], arg[-1] = arg[-1], arg[k]
    lst = list(inside) + [-7]
    rec.custom_raw(i, arg, lst, rng.choice((False, True, None)), f, F)


@scen("P12")
def j_short(ctx):
    """every list of one to three sites of the 2 x 2 lattice"""
    for form in ("id", "pair", "index"):
        def f(rec, rng, form=form):
            rec.new(1, "plain", 2, 3)
            for n in (1, 2, 3):
                for p in itertools.permutations(range(4), n):
                    rec.custom(1, list(p), False, form, (), seq=True)
                    for _ in range(n + 1):
                        rec.place(1, ("occ",))
                    rec.reset(1, ("occ",))
                    rec.place(1)
                    rec.reset(1)
        yield "short " + form, f


@scen("P12")
def j_continue(ctx):
    """a list, used in part, continued by a list with the same beginning; then resets: every combination of lengths"""
    for kind, L in (("plain", 2), ("plain", 3), ("L0", 3)):
        N = L * L
        combos = [(a, u, b) for a in range(1, N + 1) for u in range(0, a + 1) for b in range(max(u, 1), N + 1)]
        step = 40
        for part in range(0, len(combos), step):
            def f(rec, rng, kind=kind, L=L, N=N, cs=combos[part:part + step]):
                rec.new(1, kind, L, rng.randrange(10**6))
                if ctx.quick and kind == "L0":
                    cs = rng.sample(cs, min(8, len(cs)))
                for a, u, b in cs:
                    o = list(range(N))
                    rng.shuffle(o)
                    form = rng.choice(("id", "pair", "index"))
                    rec.custom(1, o[:a], False, form, (), seq=True)
                    for _ in range(u):
                        rec.place(1, ("occ",))
                    if rng.random() < .4:
                        rec.detect(1)
                    rec.custom(1, o[:b], rng.choice((False, None)), rng.choice((form, "id", "pair")), (), seq=True)
                    for real in range(2):
                        if rng.random() < .5:
                            rec.run(1, ("occ",), ())
                        else:
                            while rec.place(1, ("occ",))["ret"] == 1:
                                pass
                        rec.place(1, ("occ",))
                        rec.reset(1, ("occ",))
                        if rng.random() < .3:
                            for _ in range(rng.randrange(1, b + 1)):
                                rec.place(1)
                            rec.reset(1, ("occ",))
            yield "continue %s %d %d" % (kind, L, part), f


@scen("P12")
def j_shuffledtwice(ctx):
    """lists shuffled or not, one after the other, with resets in between: the last list rules"""
    for rep in range(ctx.n(24, 200)):
        def f(rec, rng, rep=rep):
            kind = PLAIN[rep % 3]
            L = rng.choice((2, 3, 4))
            N = L * L
            rec.new(1, kind, L, rng.randrange(10**6))
            for _ in range(8):
                o = rng.sample(range(N), rng.randrange(1, N + 1))
                arg = rec.custom(1, o, rng.random() < .5, rng.choice(("id", "pair", "index")), (), seq=True)
                if rng.random() < .5:
                    arg.append(arg[0])
                if rng.random() < .3:
                    arg.reverse()
                bad_list(rec, rng, 1, L, ())
                for _ in range(rng.randrange(1, 3)):
                    if rng.random() < .5:
                        rec.run(1, ("occ",), ())
                    else:
                        for _ in range(rng.randrange(0, len(o) + 2)):
                            rec.place(1, ("occ",))
                    bad_list(rec, rng, 1, L, ("occ",))
                    rec.reset(1)
                    if rng.random() < .3:
                        rec.reset(1)
        yield "shuffledtwice %d" % rep, f


# ---------------------------------------------------------------- P13, P14, P15
def nbrs4(L, x):
    r, c = divmod(x, L)
    return [((r + dr) % L) * L + (c + dc) % L for dr, dc in ((0, 1), (1, 0), (0, -1), (-1, 0))]


def targets(kind, L, occ, x):
    """(reachable sites, can fail): used only to decide when enough attempts were made"""
    if x not in occ:
        return {x}, False
    r0, c0 = divmod(x, L)
    R, miss = set(), False
    for dr, dc in ((0, 1), (1, 0), (0, -1), (-1, 0)):
        y = ((r0 + dr) % L) * L + (c0 + dc) % L
        z = ((r0 + 2 * dr) % L) * L + (c0 + 2 * dc) % L
        if y not in occ:
            R.add(y)
        elif kind == "L2" and z not in occ:
            R.add(z)
        else:
            miss = True
    return R, miss


def forced(rec, rng, kind, L, occ, x, cap=160, pre=None, least=20):
    """attempts with the single candidate x in the configuration occ, over and over"""
    s = rec.sims.get(1)
    if s is None or s.L != L or s.kind != kind:
        s = rec.new(1, kind, L, rng.randrange(10**6))
    occl = sorted(occ)
    want, misses = targets(kind, L, occ, x)
    before = rng.choice((None, None, "run", "broken")) if L <= 6 else None

    def go():
        o = s.obj
        if before:                      # an earlier realization, complete or broken off
            o.reset()
            if before == "run":
                o.run_once()
            else:
                for _ in range(rng.randrange(1, 3 * L * L)):
                    o.place_one_site()
        seen, miss, bad, att = set(), 0, 0, 0
        built = False
        while att < cap:
            if not built:
                o.reset()
                for c in occl:
                    o.set_custome_site_id_list([c])
                    if o.place_one_site() is not True:
                        return None
                cur = {k for k in range(L * L) if o.lattice_ref.get_site_by_id(k).is_occupied()}
                if cur != set(occl):
                    return None
                o.set_custome_site_id_list([x])
                built = True
            ret = o.place_one_site()
            now = {k for k in range(L * L) if o.lattice_ref.get_site_by_id(k).is_occupied()}
            new, gone = now - set(occl), set(occl) - now
            att += 1
            if ret is not True:
                if new or gone:
                    bad += 1
                break               # withdrawn
            if gone or len(new) > 1:
                bad += 1
                built = False
            elif new:
                seen |= new
                built = False
            else:
                miss = 1
            if att >= least and seen == want and (miss == 1) == misses and not bad:
                break
        return sorted(seen), miss, bad, att
    r = rec.call("attempts with one candidate", go)
    if r is None:
        # the configuration cannot even be built from empty candidates
        rec.emit({"k": "forced", "kind": kind, "L": L, "occ": occl, "x": x, "seen": [], "miss": 0, "bad": 1})
        return
    e = {"k": "forced", "kind": kind, "L": L, "occ": occl, "x": x, "seen": r[0], "miss": r[1], "bad": r[2]}
    if pre:
        e["pre"] = pre
    rec.emit(e)


def config(L, x, rng):
    """a configuration around an occupied candidate x"""
    N = L * L
    near = set(nbrs4(L, x))
    far = set()
    for y in near:
        r0, c0 = divmod(x, L)
    for dr, dc in ((0, 1), (1, 0), (0, -1), (-1, 0)):
        far.add(((r0 + 2 * dr) % L) * L + (c0 + 2 * dc) % L)
    mode = rng.randrange(5)
    occ = {x}
    if mode == 0:
        occ |= {s for s in range(N) if rng.random() < .5}
    elif mode == 1:                       # all neighbours occupied
        occ |= near
        occ |= {s for s in far if rng.random() < .6}
    elif mode == 2:                       # exactly one target empty
        occ |= near | far
        e = rng.choice(sorted(near | far))
        occ.discard(e)
    elif mode == 3:                       # everything but one site
        occ = set(range(N)) - {rng.randrange(N)}
    else:
        occ |= {s for s in near if rng.random() < .75} | {s for s in far if rng.random() < .75}
        occ |= {s for s in range(N) if rng.random() < .15}
    occ.add(x)
    return occ


@scen("P13", "P14")
def j_forced(ctx):
    """one candidate, many attempts: which sites can be occupied, and can it fail"""
    kind = "L1" if ctx.pid == "P13" else "L2"
    for rep in range(ctx.n(60, 600)):
        def f(rec, rng, rep=rep):
            L = rng.choice((3, 3, 4, 4, 5, 6))
            rec.trace["Ls"] = [L]
            for k in range(5):
                x = rng.choice([s for s in range(L * L)])
                if rng.random() < .6:   # across the edges
                    x = rng.choice([s for s in range(L * L) if s // L in (0, L - 1) or s % L in (0, L - 1)])
                occ = config(L, x, rng)
                if rng.random() < .08:
                    occ.discard(x)
                forced(rec, rng, kind, L, occ, x)
        yield "forced %d" % rep, f
    big = list(range(9, ctx.n(75, 131)))
    for part in range(0, len(big), 4):
        def f(rec, rng, Ls=big[part:part + 4]):
            rec.trace["Ls"] = [3]
            rec.limit = 120.0
            for L in Ls:
                for k in range(4):
                    # on the four edges in turn: the next and the next but one site lie across
                    e = rng.randrange(2)
                    q = rng.randrange(L)
                    x = ((L - 1 - e) * L + q, e * L + q, q * L + L - 1 - e, q * L + e)[k]
                    near = set(nbrs4(L, x))
                    r0, c0 = divmod(x, L)
                    far = [((r0 + 2 * a) % L) * L + (c0 + 2 * b) % L for a, b in ((1, 0), (-1, 0), (0, 1), (0, -1))]
                    occ = {x}
                    if kind == "L2" and rng.random() < .75:
                        # only the way across the edge is open
                        occ |= near | (set(far) - {far[k]})
                    else:
                        occ |= {s for s in near if rng.random() < .5} | {s for s in far if rng.random() < .5}
                    forced(rec, rng, kind, L, occ, x, cap=70, least=10)
        yield "forced large %d" % part, f


@scen("P13", "P14")
def j_neigh(ctx):
    """every occupation of the sites a candidate can reach (L = 5, each candidate)"""
    kind = "L1" if ctx.pid == "P13" else "L2"
    L = 5
    cands = list(range(25))
    for x in cands:
        def f(rec, rng, x=x):
            rec.trace["Ls"] = [L]
            near = nbrs4(L, x)
            cells = list(near)
            if kind == "L2":
                r0, c0 = divmod(x, L)
                cells += [((r0 + 2 * dr) % L) * L + (c0 + 2 * dc) % L for dr, dc in ((0, 1), (1, 0), (0, -1), (-1, 0))]
            pats = list(itertools.product((0, 1), repeat=len(cells)))
            rng.shuffle(pats)
            for p in pats[:ctx.n(8, 256)]:
                occ = {x} | {c for c, b in zip(cells, p) if b}
                forced(rec, rng, kind, L, occ, x)
        yield "around %d" % x, f


@scen("P13", "P14", "P15")
def j_freerule(ctx):
    """free runs, every attempt judged"""
    kinds = {"P13": ("L1",), "P14": ("L2",), "P15": ("L1", "L2")}[ctx.pid]
    for rep in range(ctx.n(24, 200)):
        def f(rec, rng, rep=rep):
            kind = kinds[rep % len(kinds)]
            L = rng.choice((2, 3, 4, 5, 6, 7, 8))
            rec.new(1, kind, L, rng.randrange(10**6))
            free_steps(rec, 1, ("occ", "p"), every=10**6, cap=400 * L * L + 1000)
            rec.place(1, ("occ", "p"))
            rec.reset(1)
            rec.run(1, ("occ", "p"), ())
            rec.place(1, ("occ",))
        yield "free %d" % rep, f


@scen("P15")
def j_onetarget(ctx):
    """one empty site left within the reach of the only candidate: it must be reached in the end"""
    for rep in range(ctx.n(40, 400)):
        def f(rec, rng, rep=rep):
            kind = ("L1", "L2")[rep % 2]
            L = rng.choice((3, 4, 5))
            rec.trace["Ls"] = [L]
            for k in range(6):
                x = rng.randrange(L * L)
                near = nbrs4(L, x)
                r0, c0 = divmod(x, L)
                far = [((r0 + 2 * dr) % L) * L + (c0 + 2 * dc) % L for dr, dc in ((0, 1), (1, 0), (0, -1), (-1, 0))]
                cells = near if kind == "L1" or rng.random() < .4 else far
                e = rng.choice(cells)
                if e == x:
                    continue
                occ = set(near) | {x} | (set(far) if kind == "L2" else {s for s in far if rng.random() < .5})
                if rng.random() < .3:
                    occ = set(range(L * L))
                occ.discard(e)
                forced(rec, rng, kind, L, occ, x, pre="P15.", least=40)
        yield "onetarget %d" % rep, f


@scen("P15")
def j_candidates(ctx):
    """candidate lists run until nothing is left: all candidates must be useless then"""
    for rep in range(ctx.n(50, 400)):
        def f(rec, rng, rep=rep):
            kind = ("L1", "L2")[rep % 2]
            L = rng.choice((3, 4, 5, 6))
            N = L * L
            rec.new(1, kind, L, rng.randrange(10**6))
            for _ in range(rng.choice((0, 0, 1, 2))):
                # an earlier realization, over candidates of its own or all
                if rng.random() < .5:
                    rec.custom(1, rng.sample(range(N), rng.randrange(1, N + 1)))
                rec.run(1, ("occ",), ())
                rec.reset(1)
            for c in rng.sample(range(N), rng.randrange(0, N)):
                rec.custom(1, [c])
                if rec.place(1)["ret"] != 1:
                    return
            l = rng.sample(range(N), rng.choice((1, 2, 3, 5, min(N, 8))))
            rec.custom(1, l, rng.random() < .3)
            if rng.random() < .5:
                rec.run(1, ("occ",), ())
            else:
                free_steps(rec, 1, ("occ",), every=10**6, cap=3000)
            for _ in range(3):
                rec.place(1, ("occ",))
        yield "candidates %d" % rep, f


@scen("P13", "P14", "P15")
def j_long(ctx):
    """one long realization: again and again a candidate with one reachable site left, which must be reached in the end"""
    kinds = {"P13": ("L1",), "P14": ("L2",), "P15": ("L1", "L2")}[ctx.pid]
    for rep in range(ctx.n(4, 24)):
        def f(rec, rng, rep=rep):
            kind = kinds[rep % len(kinds)]
            warm = rep % 4 in (1, 2)
            L = (20, 30, 31, 30)[rep % 4]
            s = rec.new(1, kind, L, rng.randrange(10**6))
            rec.trace["Ls"] = [3]
            rec.limit = 120.0
            P = {"P15": "P15."}.get(ctx.pid)

            def occupied():
                return {k for k in range(L * L) if s.obj.lattice_ref.get_site_by_id(k).is_occupied()}

            def go():
                o, out, first = s.obj, [], [0, 0]
                occ, used = set(), []
                cands = list(range(L * L))
                rng.shuffle(cands)
                if warm:
                    # attempts in vain first: a candidate with nothing empty within its reach
                    x = rng.randrange(L * L)
                    r0, c0 = divmod(x, L)
                    for y in [x] + nbrs4(L, x) + [((r0 + 2 * a) % L) * L + (c0 + 2 * b) % L for a, b in ((0, 1), (1, 0), (0, -1), (-1, 0))]:
                        o.set_custome_site_id_list([y])
                        if o.place_one_site() is not True:
                            return None
                        occ.add(y)
                    used = [x] * (rng.choice((6, 7, 12)) * L * L)
                    o.set_custome_site_id_list(used)
                    while o.place_one_site() is True:
                        pass
                    # (whether the same list given again starts over is left open for these models)
                    o.set_custome_site_id_list(used)
                    if o.place_one_site() is True:
                        used = []
                        while o.place_one_site() is True:
                            pass
                    if occupied() != occ:
                        return None
                for x in cands[:(700 if warm else ctx.n(160, 300))]:
                    near = nbrs4(L, x)
                    r0, c0 = divmod(x, L)
                    far = [((r0 + 2 * dr) % L) * L + (c0 + 2 * dc) % L for dr, dc in ((0, 1), (1, 0), (0, -1), (-1, 0))]
                    reach = [y for y in near + (far if kind == "L2" else []) if y not in occ]
                    if not reach:
                        continue
                    e = rng.choice(reach)
                    for y in [x] + reach:
                        if y != e and y not in occ:
                            o.set_custome_site_id_list(used + [y])
                            if o.place_one_site() is not True or not o.lattice_ref.get_site_by_id(y).is_occupied():
                                return None
                            occ.add(y)
                    seen, miss, bad = set(), 0, 0
                    o.set_custome_site_id_list(used + [x])
                    for att in range(110):
                        ret = o.place_one_site()
                        if ret is not True:
                            bad = 1
                            break
                        hit = o.lattice_ref.get_site_by_id(e).is_occupied()
                        if not att:
                            first[0] += 1
                            first[1] += bool(hit)
                        if hit:
                            break
                        miss = 1
                    now = occupied()
                    seen = now - occ
                    want, misses = targets(kind, L, occ, x)
                    if len(seen) > 1 or occ - now:
                        bad += 1
                    out.append((sorted(occ), x, sorted(seen), 1 if misses else miss, bad))
                    if bad or len(seen) != 1:
                        break
                    occ = now
                return out, first
            r = rec.call("a long realization", go)
            if r is None:
                rec.emit({"k": "forced", "kind": kind, "L": 3, "occ": [0], "x": 0, "seen": [], "miss": 0, "bad": 1})
                return
            if warm and not P:
                rec.emit({"k": "rate1", "kind": kind, "n": r[1][0], "hits": r[1][1]})
            for occ, x, seen, miss, bad in r[0][-60:] if warm else r[0]:
                e = {"k": "forced", "kind": kind, "L": L, "occ": occ, "x": x, "seen": seen, "miss": miss, "bad": bad}
                if P:
                    e["pre"] = P
                rec.emit(e)
        yield "long %d" % rep, f


@scen("P15")
def j_bigfill(ctx):
    """larger lattices are filled, in every realization"""
    for rep in range(ctx.n(6, 20)):
        def f(rec, rng, rep=rep):
            kind = ("L1", "L2")[rep % 2]
            L = ctx.n((12, 16, 20), (16, 24, 28, 32))[rep % ctx.n(3, 4)]
            rec.new(1, kind, L, rng.randrange(10**6))
            rec.run(1, ("p",), ())
            rec.place(1)
            rec.reset(1)
            rec.run(1, ("p",), ())
        yield "fill %d" % rep, f


# ---------------------------------------------------------------- P17
@scen("P17")
def j_replay(ctx):
    """run, read the sequences, replay both through the plain simulator"""
    for rep in range(ctx.n(45, 300)):
        def f(rec, rng, rep=rep):
            kind = ("plain", "L1", "L2", "L0")[rep % 4]
            L = rng.choice((2, 3, 4, 5, 6, 7, 8))
            rec.new(1, kind, L, rng.randrange(10**6))
            for real in range(rng.choice((1, 2))):
                if real:
                    rec.reset(1, ("idx",))
                style = rng.randrange(4)
                if style == 0 and kind in PLAIN:
                    rec.custom(1, orders.any_order(L, rng)[1], rng.random() < .3)
                if style == 1:
                    for _ in range(rng.randrange(1, L * L)):
                        rec.place(1)
                        rec.detect(1)
                        if rng.random() < .2:
                            rec.obs(1, ("idx",))
                rec.run(1, ("idx", "seq"), ())
                s = rec.sims[1].obj
                seq = rec.call("seq", s.get_site_id_sequence)
                pos = rec.call("idx", s.get_index_sequence)
                if style == 1:
                    continue
                mine = rec._flat2(rec.look(1, ("pc", "tab", "lens")))
                key = "real %d" % real
                rec.memo(key, mine, "P17.replay", 0)
                for j, form in enumerate(("id", "pair", "index")):
                    i = 10 * (real + 1) + j
                    q = rec.new(i, "plain", L, rng.randrange(10**6))
                    if form == "id":
                        arg, fn = list(seq), q.obj.set_custome_site_id_list
                    elif form == "pair":
                        arg, fn = [tuple(p) for p in pos], q.obj.set_custome_site_index_list
                    else:
                        arg, fn = [Index(*p) for p in pos], q.obj.set_custome_site_index_list
                    ids = [integer(x) for x in seq] if form == "id" else [integer(p[0] * L + p[1]) for p in pos]
                    rec.custom_raw(i, arg, ids, False, fn)
                    rec.run(i, ("idx",), ())
                    rec.memo(key, rec._flat2(rec.look(i, ("pc", "tab", "lens"))), "P17.replay", 0)
        yield "replay %d" % rep, f


@scen("P17")
def j_sequence_steps(ctx):
    """the sequences during a realization"""
    for rep in range(ctx.n(20, 120)):
        def f(rec, rng, rep=rep):
            kind = ALLKINDS[rep % 5]
            L = rng.choice((2, 3, 4, 5))
            rec.new(1, kind, L, rng.randrange(10**6), ("idx",))
            free_steps(rec, 1, ("idx",))
            rec.reset(1, ("idx",))
            if kind in ("L1", "L2"):
                for x in rng.sample(range(L * L), rng.randrange(1, L * L)):
                    rec.custom(1, [x], fields=("idx",))
                    rec.place(1, ("idx",))
            else:
                rec.custom(1, orders.any_order(L, rng)[1], rng.random() < .5, fields=("idx",))
                rec.run(1, ("idx",), ())
        yield "seqsteps %d" % rep, f


# ---------------------------------------------------------------- P18
@scen("P18")
def j_spath(ctx):
    """shortest-path runs: structured, partial and free orders"""
    F = ("star", "occ", "p")
    for rep in range(ctx.n(90, 700)):
        def f(rec, rng, rep=rep):
            L = rng.choice((2, 3, 4, 5, 6, 7, 8, 10))
            rec.new(1, "SP", L, rng.randrange(10**6), ("star",))
            for real in range(2):
                if rng.random() < .8:
                    o = orders.any_order(L, rng)[1]
                    if rng.random() < .35:
                        o = o[:rng.randrange(1, L * L)]
                    rec.custom(1, o)
                rec.run(1, F + ("scan",), ())
                rec.obs(1, F + ("scan",))
                rec.reset(1, ("star", "scan"))
        yield "spath %d" % rep, f


@scen("P18")
def j_scan(ctx):
    """the row and column scans at every moment"""
    for rep in range(ctx.n(40, 300)):
        def f(rec, rng, rep=rep):
            L = rng.choice((2, 3, 4, 5, 6))
            rec.new(1, "SP", L, rng.randrange(10**6), ("scan",))
            stepwise(rec, 1, orders.any_order(L, rng)[1], ("scan",))
            rec.reset(1, ("scan",))
            free_steps(rec, 1, ("scan",), every=2)
        yield "scan %d" % rep, f


@scen("P18")
def j_splines(ctx):
    """lines assembled away from the last site, by merges"""
    for rep in range(ctx.n(60, 400)):
        def f(rec, rng, rep=rep):
            L = rng.choice((4, 5, 6, 7, 8))
            fn = rng.choice((orders.pieces_of_row, orders.diag_then_row, orders.wraponly, orders.combs, orders.two_lines,
                             orders.stair, orders.blob_then_line))
            rec.new(1, "SP", L, rng.randrange(10**6))
            o = orders.structured(L, rng, fn)[1]
            rec.custom(1, o)
            rec.run(1, ("star", "scan", "p"), ())
            rec.reset(1)
            rec.custom(1, mergeline(L, rng))
            rec.run(1, ("star", "scan", "p"), ())
        yield "splines %d" % rep, f


@scen("P18")
def j_elsewhere(ctx):
    """complete rows or columns outside the wrapping cluster (in another winding one), absorbed late or never"""
    for rep in range(ctx.n(60, 400)):
        def f(rec, rng, rep=rep):
            L = rng.choice((5, 6, 7, 8))
            rec.new(1, "SP", L, rng.randrange(10**6))
            for _ in range(2):
                rec.custom(1, elsewhere(L, rng))
                if rng.random() < .75:
                    rec.run(1, ("star", "scan", "p"), ())
                else:
                    stepwise(rec, 1, rec.sims[1].obj.get_site_id_sequence(), ("scan",), install=False)
                rec.reset(1, ("star", "scan"))
        yield "elsewhere %d" % rep, f


def wavy(L, rng, r0, h=2):
    """a path winding once along a band of h rows starting at row r0 that fills no row"""
    r, out = r0 + rng.randrange(h), []
    first = r
    changed = False
    for c in range(L):
        out.append((r % L) * L + c)
        if rng.random() < .5 or (c == L // 2 and not changed):
            nr = r0 + rng.randrange(h)
            if c == L // 2 and not changed and nr == r:
                nr = r0 + (r - r0 + 1) % h
            step = 1 if nr > r else -1
            while r != nr:
                r += step
                out.append((r % L) * L + c)
                changed = True
    # close
    step = 1 if first > r else -1
    while r != first:
        r += step
        out.append((r % L) * L + L - 1)
    return out


def elsewhere(L, rng):
    a = wavy(L, rng, 0)
    line = [3 * L + c for c in range(L)] if L > 4 else []
    if rng.random() < .3:
        line += [4 * L + rng.randrange(L)] if L > 5 else []
    rng.shuffle(line)
    if rng.random() < .5:
        rng.shuffle(a)
    k = rng.choice((0, len(line) - 1, rng.randrange(len(line) + 1)))
    if rng.random() < .7:
        o = line[:min(k, L - 1)] + a + line[min(k, L - 1):]
    else:
        o = a + line
    if rng.random() < .6:
        o.append(2 * L + rng.randrange(L))
    o = list(dict.fromkeys(o))
    if rng.random() < .3:
        return orders.sym(L, o, rng)
    return orders.sym(L, orders.finish(L, o, rng), rng)


def mergeline(L, rng):
    """a complete column (or row) except one site, carried by a tree that does not wind; the wrapping cluster
    (a staircase) elsewhere; one site joins both"""
    r = rng.randrange(L)
    line = [r * L + c for c in range(L)]
    gap = rng.randrange(L)
    o = [s for k, s in enumerate(line) if k != gap]
    rng.shuffle(o)
    # detour round the gap
    up = ((r - 1) % L)
    det = [up * L + (gap + d) % L for d in (-1, 0, 1)]
    st = orders.stair(L, rng, 1, 1)
    st = [s for s in st if s // L not in (r, up)]
    mid = [((r + 1) % L) * L + rng.randrange(L)]
    rest = o + (det if rng.random() < .5 else []) + st + mid
    if rng.random() < .5:
        rest = st + o + mid + [line[gap]]
    return orders.sym(L, orders.finish(L, rest, rng), rng)


# ---------------------------------------------------------------- P22
@scen("P22")
def j_inspect(ctx):
    """inspection calls anywhere: state and course as without them, views show the state"""
    for rep in range(ctx.n(30, 200)):
        def f(rec, rng, rep=rep):
            kind = ALLKINDS[rep % 5]
            L = rng.choice((3, 4, 5)) if rep % 6 else 2
            seed = rng.randrange(10**6)
            custom = kind in PLAIN and rng.random() < .4
            o = orders.any_order(L, rng)[1]
            names = None
            for i in (1, 2):
                rec.new(i, kind, L, seed)
                if i == 1:
                    names = rec.inspect(1, None)
                if custom:
                    rec.custom(i, o)
                rs = random.Random(seed)
                steps = rs.randrange(1, L * L + 2)
                for k in range(steps):
                    if i == 1:
                        nosy(rec, rng, i, names, L, rng.choice((0, 1, 2, 4)))
                    rec.place(i)
                    if i == 1:
                        nosy(rec, rng, i, names, L, rng.choice((0, 0, 1)), asked=False)
                    rec.detect(i)
                    if i == 1:
                        # the same look before and after further inspection
                        h = "look%d" % k
                        rec.emit({"k": "give", "h": h, "val": numbers(rec, i, ("tab", "lens", "idx"))})
                        nosy(rec, rng, i, names, L, 2)
                        rec.emit({"k": "check", "h": h, "clause": "P22.changed",
                                  "val": numbers(rec, i, ("tab", "lens", "idx"))})
                        if k % 4 == 0 or k == steps - 1:
                            rec.obs(i, ("views",))
                    rec.memo("step%d" % k, numbers(rec, i, ("tab", "idx")), "P22.course", 0)
                for real in range(2):
                    if rs.random() < .7:
                        rec.reset(i)
                        if i == 1:
                            nosy(rec, rng, i, names, L, 4)
                            rec.obs(i, ("views",))
                    rec.run(i, (), ())
                    if i == 1:
                        nosy(rec, rng, i, names, L, 6)
                        rec.obs(i, ("views",))
                    rec.memo("run%d" % real, numbers(rec, i, ("tab", "idx")), "P22.course", 0)
        yield "inspect %d" % rep, f


def nosy(rec, rng, i, names, L, n, asked=True):
    s = rec.sims[i]
    for _ in range(n):
        w = rng.choice(names)
        # the self-checks presuppose the wrapping test after each placement and a lattice of 3 or more
        if w in ("testc", "testl") and (not asked or L < 3):
            continue
        rec.inspect(i, w)


@scen("P22")
def j_each(ctx):
    """each inspection call on its own, many times, at several moments"""
    names = None
    for rep in range(ctx.n(15, 60)):
        def f(rec, rng, rep=rep):
            kind = ALLKINDS[rep % 5]
            L = (3, 4, 5)[rep % 3]
            rec.new(1, kind, L, rng.randrange(10**6))
            for stop in sorted(rng.sample(range(L * L + 1), 4)):
                k = 0
                while len(rec.sims[1].occ) < stop and k < 5000:
                    k += 1
                    rec.place(1)
                    rec.detect(1)
                for w in rec.inspect(1, None):
                    if w in ("testl", "testc") and L < 3:
                        continue
                    rec.emit({"k": "give", "h": "a", "val": numbers(rec, 1, ("tab", "lens", "idx"))})
                    st = random.getstate()
                    for _ in range(2):
                        rec.inspect(1, w)
                    rec.emit({"k": "check", "h": "a", "clause": "P22.changed", "val": numbers(rec, 1, ("tab", "lens", "idx"))})
                    rec.emit({"k": "give", "h": "b", "val": [zlib.crc32(repr(st).encode()) & 0x3fffffff]})
                    rec.emit({"k": "check", "h": "b", "clause": "P22.randomness",
                              "val": [zlib.crc32(repr(random.getstate()).encode()) & 0x3fffffff]})
                rec.obs(1, ALLF + ("views",))
        yield "each %d" % rep, f


@scen("P22")
def j_unasked(ctx):
    """inspection when the wrapping test is not asked: still no effect (a twin is not inspected)"""
    for rep in range(ctx.n(20, 120)):
        def f(rec, rng, rep=rep):
            kind = ALLKINDS[rep % 5]
            L = rng.choice((3, 4, 5, 6))
            seed = rng.randrange(10**6)
            steps = rng.randrange(L, L * L + 2)
            ask = rng.choice((0, 0, steps // 2, steps - 1))   # tests are asked up to here only
            names = None
            custom = orders.any_order(L, rng)[1] if kind in PLAIN and rng.random() < .6 else None
            for i in (1, 2):
                rec.new(i, kind, L, seed)
                names = rec.inspect(i, None)
                if custom:
                    rec.custom(i, custom)
                for k in range(steps):
                    rec.place(i)
                    if k < ask:
                        rec.detect(i)
                    if i == 1:
                        nosy(rec, rng, i, names, L, rng.choice((0, 1, 3)), asked=False)
                if i == 1:
                    nosy(rec, rng, i, names + ["pc", "pc"], L, 30, asked=False)
                for fld in ("w", "pc", "m", "lc", "p", "idx", "tab", "lens"):
                    rec.memo(fld, rec._flat2(rec.look(i, (fld,))), "P22.course", 0)
                rec.memo("all", numbers(rec, i, ("tab", "lens", "idx")), "P22.course", 0)
                rec.memo("answer", [1 if rec.detect(i) is True else 0], "P22.course", 0)
                rec.memo("after", numbers(rec, i, ("tab", "lens", "idx")), "P22.course", 0)
        yield "unasked %d" % rep, f


# ---------------------------------------------------------------- P23
@scen("P23")
def j_sizes(ctx):
    """L1 and L2 simulators of different sides next to each other: each follows its own lattice"""
    for rep in range(ctx.n(12, 80)):
        def f(rec, rng, rep=rep):
            kind = ("L1", "L2")[rep % 2]
            La, Lb = rng.sample((3, 4, 5, 6, 7), 2)
            rec.trace["Ls"] = sorted({La, Lb})
            rec.new(1, kind, La, rng.randrange(10**6))
            rec.new(2, rng.choice(("L1", "L2", "L2", "plain")), Lb, rng.randrange(10**6))
            for k in range(4):
                x = rng.choice([s for s in range(La * La) if s // La in (0, La - 1) or s % La in (0, La - 1)])
                for _ in range(rng.randrange(3)):
                    rec.place(2)
                forced(rec, rng, kind, La, config(La, x, rng), x, pre="P23.")
            rec.reset(1)
            # both to the end, in turns
            done = set()
            for _ in range(4000):
                for i in (1, 2):
                    if i not in done and rec.place(i)["ret"] != 1:
                        done.add(i)
                    if i not in done and rng.random() < .2:
                        rec.detect(i)
                if len(done) == 2:
                    break
            for i in (1, 2):
                rec.obs(i, ("occ", "p"))
        yield "sizes %d" % rep, f


@scen("P23")
def j_inter(ctx):
    """several simulators driven alternately, then each order alone"""
    EX = ("tab", "lens")
    for rep in range(ctx.n(26, 200)):
        def f(rec, rng, rep=rep):
            n = rng.choice((2, 2, 3, 4))
            sims = {}
            same = rng.random() < .5
            L0 = rng.choice((2, 3, 4, 5))
            for i in range(1, n + 1):
                kind = ALLKINDS[rng.randrange(5)]
                L = L0 if same else rng.choice((2, 3, 4, 5))
                rec.new(i, kind, L, rng.randrange(10**6) if rng.random() < .5 else None)
                sims[i] = {"kind": kind, "L": L, "script": [], "looks": []}

            def look(i):
                return numbers(rec, i, EX)
            state = {i: look(i) for i in sims}
            uid = 0
            for step in range(rng.choice((12, 25, 40))):
                i = rng.choice(list(sims))
                d = sims[i]
                r = rng.random()
                if r < .05 and len(sims) < 6:
                    # one more simulator, often of a kind and size already there
                    i = max(sims) + 1
                    q = rng.choice(list(sims.values()))
                    kind, L = (q["kind"], q["L"]) if rng.random() < .6 else (ALLKINDS[rng.randrange(5)], rng.choice((2, 3, 4, 5)))
                    rec.new(i, kind, L, rng.randrange(10**6) if rng.random() < .5 else None, ALLF + EX)
                    d = sims[i] = {"kind": kind, "L": L, "script": [], "looks": []}
                    state[i] = look(i)
                elif r < .1:
                    rec.reset(i)
                    d["script"].append(("reset",))
                elif r < .15 and d["kind"] in PLAIN and not rec.sims[i].occ:
                    l = orders.any_order(d["L"], rng)[1]
                    rec.custom(i, l)
                elif r < .2:
                    o = rec.run(i)
                    d["script"].append(("run", o))
                elif r < .26:
                    rec.inspect(i, rng.choice(("view3", "view4", "viewc", "entropy", "tab", "seq", "nb")))
                else:
                    e = rec.place(i)
                    rec.detect(i)
                    if e["new"]:
                        d["script"].append(("place", e["new"][0]))
                after = {j: look(j) for j in sims}
                for j in sims:
                    if j != i:
                        uid += 1
                        rec.memo("o%d" % uid, state[j], "P23.otherchanged", 0)
                        rec.memo("o%d" % uid, after[j], "P23.otherchanged", 0)
                state = after
                d["script"].append(("look", after[i]))
            # alone
            for i in sims:
                d = sims[i]
                a = 100 + i
                rec.new(a, d["kind"], d["L"], rng.randrange(10**6))
                k = 0
                for op in d["script"]:
                    if op[0] == "reset":
                        rec.reset(a)
                    elif op[0] == "place":
                        lone(rec, a, [op[1]])
                        rec.place(a)
                        rec.detect(a)
                    elif op[0] == "run":
                        if d["kind"] in PLAIN:
                            rem = [s for s in range(d["L"] ** 2) if s not in rec.sims[a].occ and s not in op[1]]
                            lone(rec, a, op[1] + (rem if d["kind"] == "SP" else []))
                            if op[1] or d["kind"] == "SP":
                                rec.run(a)
                        else:
                            break
                    elif op[0] == "look":
                        k += 1
                        key = "%d/%d" % (i, k)
                        rec.memo(key, op[1], "P23.alone", 0)
                        rec.memo(key, look(a), "P23.alone", 0)
        yield "inter %d" % rep, f


def lone(rec, i, sites):
    """make the simulator occupy exactly these sites next"""
    s = rec.sims[i]
    if s.kind in PLAIN:
        if sites:
            rec.custom(i, s.order + list(sites))
    else:
        rec.custom(i, sites)


@scen("P23")
def j_families(ctx):
    """simulators of one size created, run, reset and created again in turns, all kept alive"""
    for rep in range(ctx.n(20, 150)):
        def f(rec, rng, rep=rep):
            L = rng.choice((2, 3, 4, 5))
            live = {}
            for i in range(1, rng.choice((4, 6, 8))):
                kind = ALLKINDS[rng.randrange(5)]
                rec.new(i, kind, L, rng.choice((None, 7, rng.randrange(10**6))), ALLF + ("tab", "lens"))
                live[i] = numbers(rec, i)
                for _ in range(rng.randrange(1, 3)):
                    j = rng.choice(list(live))
                    r = rng.random()
                    if r < .45:
                        rec.run(j, ALLF)
                    elif r < .6:
                        rec.reset(j, ALLF + ("tab",))
                    else:
                        for _ in range(rng.randrange(1, L * L)):
                            rec.place(j)
                            rec.detect(j)
                    live[j] = numbers(rec, j)
                for q in live:
                    key = "%d@%d" % (q, i)
                    rec.memo(key, live[q], "P23.otherchanged", 0)
                    rec.memo(key, numbers(rec, q), "P23.otherchanged", 0)
        yield "families %d" % rep, f


# ---------------------------------------------------------------- P27
@scen("P27")
def j_orders(ctx):
    """every order of the smallest lattice over many seeds; fresh, after resets; shuffled lists"""
    for kind in ALLKINDS:
        n = ctx.n(400, 2000) if kind in PLAIN else ctx.n(1500, 5000)
        for mode in ("new", "reset", "resets"):
            def f(rec, rng, kind=kind, mode=mode, n=n):
                rec.trace["Ls"] = [2]
                seen = set()

                def one(x):
                    o = []
                    lat = x.lattice_ref
                    for _ in range(400):
                        if x.place_one_site() is not True:
                            break
                        new = [k for k in range(4) if k not in o and lat.get_site_by_id(k).is_occupied()]
                        o += new
                    seen.add(tuple(o))

                def go():
                    x = KINDS[kind](length=2, seed=rng.randrange(10**9))
                    for k in range(n):
                        if mode == "resets":
                            # several resets in a row, some without a placement in between
                            for _ in range(k % 3 + 1):
                                x.reset()
                        elif mode == "new":
                            x = KINDS[kind](length=2, seed=rng.randrange(10**9))
                        else:
                            x.reset()
                        one(x)
                rec.call("many realizations", go)
                rec.emit({"k": "orders", "sites": [0, 1, 2, 3], "seen": sorted(map(list, seen)), "expect": 24})
            yield "orders %s %s" % (kind, mode), f


@scen("P27")
def j_successive(ctx):
    """successive realizations and constructions differ; every order is a permutation"""
    for rep in range(ctx.n(15, 60)):
        def f(rec, rng, rep=rep):
            kind = ALLKINDS[rep % 5]
            L = rng.choice((5, 6, 7, 9))
            rec.trace["Ls"] = [L]
            seen = []

            def order(x):
                o, got = [], set()
                lat = x.lattice_ref
                k = 0
                while x.place_one_site() is True and k < 100000:
                    k += 1
                    new = [s for s in range(L * L) if s not in got and lat.get_site_by_id(s).is_occupied()]
                    o += new
                    got.update(new)
                return o

            def go():
                x = KINDS[kind](length=L, seed=rng.randrange(10**6)) if rep % 2 else KINDS[kind](length=L)
                for k in range(4):
                    seen.append(order(x))
                    x.reset()
                for k in range(2):
                    seen.append(order(KINDS[kind](length=L)))
                for k in range(2):
                    seen.append(order(KINDS[kind](length=L, seed=1000 + k)))
                # the same seed, but reset once or twice before anything was placed (L1 and L2 have drawn nothing then)
                for k in (1, 2) if kind in PLAIN else ():
                    y = KINDS[kind](length=L, seed=1000)
                    for _ in range(k):
                        y.reset()
                    seen.append(order(y))
                # reset in the middle, right after the first placement, and twice in a row
                for k in (0, 1, L, L * L // 2):
                    y = KINDS[kind](length=L, seed=2000 + k)
                    for _ in range(k):
                        y.place_one_site()
                    y.reset()
                    if k == L:
                        y.reset()
                    seen.append(order(y))
            rec.call("successive realizations", go)
            rec.emit({"k": "orders", "sites": list(range(L * L)), "seen": seen, "expect": len(seen)})
        yield "successive %d" % rep, f


@scen("P27")
def j_twins(ctx):
    """very many orders of a small lattice: a generator of 2^32 states or less would repeat itself"""
    def f(rec, rng):
        L, parts, K = 5, 8, ctx.n(27000, 100000)
        N = L * L
        rec.trace["Ls"] = [3]
        rec.limit = ctx.n(120, 400)
        seeds = [rng.randrange(2**60) for _ in range(parts)]

        def child(seed, w):
            out = []
            with Quiet():
                # by construction: every reset would shuffle on from the order before
                random.seed(seed)
                for _ in range(K):
                    out.append(bytes(KINDS["plain"](length=L).get_site_id_sequence()))
            data = b"".join(out)
            while data:
                data = data[os.write(w, data[:65536]):]

        def go():
            pipes = []
            for sd in seeds:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        child(sd, w)
                    finally:
                        os._exit(0)
                os.close(w)
                pipes.append((pid, r))
            allb = []
            for pid, r in pipes:
                with os.fdopen(r, "rb") as q:
                    allb.append(q.read())
                os.waitpid(pid, 0)
            return allb
        seen, twins, first = set(), [], []
        for b in rec.call("many orders", go):
            for k in range(0, len(b), N):
                q = b[k:k + N]
                if q in seen:
                    twins += [q, q]
                seen.add(q)
                if k < 5 * N:
                    first.append(q)
        if len(seen) + len(twins) // 2 != parts * K:
            rec.emit({"k": "exc", "op": "many orders", "msg": "%d orders" % len(seen)})
            return
        out = [list(q) for q in twins[:40] + first]
        rec.emit({"k": "orders", "sites": list(range(N)), "seen": out, "expect": len(out)})
    yield "twins", f


@scen("P27")
def j_thousands(ctx):
    """one simulator through very many realizations: no order twice, however many realizations there were"""
    for kind in ALLKINDS:
        def f(rec, rng, kind=kind):
            L, K = 5, ctx.n(1200, 6000)
            N = L * L
            rec.trace["Ls"] = [3]
            rec.limit = ctx.n(120, 400)
            out = []

            def go():
                o = KINDS[kind](length=L)
                for k in range(K):
                    if k % 3 == 1:
                        o.run_once()
                    else:
                        n = 0
                        while n < 1000 and o.place_one_site() is True:
                            n += 1
                            if k % 3:
                                o.detect_wrapping()
                    out.append([integer(x) for x in o.get_site_id_sequence()])
                    o.reset()
            rec.call("very many orders", go)
            seen, twins = {}, []
            for q in out:
                t = tuple(q)
                if t in seen:
                    twins += [q, q]
                seen[t] = 1
            some = [q for q in out if sorted(q) != list(range(N))][:20] + twins[:20] + out[:5]
            rec.emit({"k": "orders", "sites": list(range(N)), "seen": some, "expect": len(some)})
        yield "thousands %s" % kind, f


@scen("P27")
def j_shuffled(ctx):
    """a shuffled list: every order of exactly the listed sites, at installation and after resets"""
    for kind in PLAIN:
        for form in ("id", "pair"):
            for mode in ("install", "reset", "new"):
                def f(rec, rng, kind=kind, form=form, mode=mode):
                    L = rng.choice((2, 3, 4))
                    rec.trace["Ls"] = [L]
                    sites = rng.sample(range(L * L), 3)
                    seen = set()

                    def give(x):
                        if form == "id":
                            x.set_custome_site_id_list(list(sites), True)
                        else:
                            x.set_custome_site_index_list([(s // L, s % L) for s in sites], do_shuffle=True)

                    def go():
                        x = KINDS[kind](length=L, seed=rng.randrange(10**6))
                        give(x)
                        for k in range(200):
                            if mode == "new":
                                x = KINDS[kind](length=L, seed=k)
                                give(x)
                            elif mode == "install" and k:
                                x.reset()
                                give(x)
                            elif k:
                                x.reset()
                            o = []
                            for _ in range(20):
                                if x.place_one_site() is not True:
                                    break
                                o += [s for s in range(L * L) if s not in o and x.lattice_ref.get_site_by_id(s).is_occupied()]
                            seen.add(tuple(o))
                    rec.call("shuffled lists", go)
                    rec.emit({"k": "orders", "sites": sites, "seen": sorted(map(list, seen)), "expect": 6})
                yield "shuffled %s %s %s" % (kind, form, mode), f
