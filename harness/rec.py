"""Recorder: drives the real simulators of /repo through their public interface
and writes down what happened as events for spec/Trace.tla.

Only observable things are recorded; no internal counter of the code is used to
decide what a call did (newly occupied sites are found by comparing is_occupied
before and after)."""
import io
import math
import os
import random
import re
import signal
import sys

from source_py.simulation.percolation_sq_lattice import SitePercolation
from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL1, SitePercolationL2
from source_py.simulation.percolation_sq_lattice_shortest_path import ShortestPathAfter_pc
from source_py.simulation.index import Index
from source_py.simulation.states import SelectionState

KINDS = {"plain": SitePercolation, "L0": SitePercolationL0, "L1": SitePercolationL1,
         "L2": SitePercolationL2, "SP": ShortestPathAfter_pc}
BAD = -999999
SCALE_H = 100000


class OpTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise OpTimeout("operation did not finish")


signal.signal(signal.SIGALRM, _alarm)


class Ended(Exception):
    """the trace cannot be continued (an exception event has been written)"""


class TooMany(BaseException):
    pass


def num(x, base):
    """x as a numerator over base, BAD if it is not one"""
    try:
        y = float(x) * base
        if not math.isfinite(y):
            return BAD
        r = round(y)
        return int(r) if abs(y - r) < 1e-6 and abs(r) < 2**31 - 1 else BAD
    except OpTimeout:
        raise
    except Exception:
        return BAD


def integer(x):
    try:
        if isinstance(x, bool) or x is None:
            return BAD
        if int(x) == x and abs(int(x)) < 2**31 - 1:
            return int(x)
    except OpTimeout:
        raise
    except Exception:
        pass
    return BAD


def scaled(x, k):
    try:
        y = float(x) * k
        if not math.isfinite(y) or abs(y) > 2**31 - 2:
            return BAD
        return int(round(y))
    except OpTimeout:
        raise
    except Exception:
        return BAD


def pair(x):
    """x as <<hi, lo>> in units of 10^-5 and 10^-10"""
    try:
        y = float(x)
        if not math.isfinite(y) or abs(y) > 20000:
            return [BAD, BAD]
        hi = math.floor(y * SCALE_H)
        return [hi, int(round((y * SCALE_H - hi) * SCALE_H))]
    except OpTimeout:
        raise
    except Exception:
        return [BAD, BAD]


def coarse(h):
    """a pair to 10^-5 (for comparisons of two runs of the code: rounding must not matter)"""
    return h[0] + (1 if h[1] >= 50000 else 0)


class Quiet:
    """swallow (or keep) what the code prints"""
    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = self.buf = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout = self.old
        return False


class Sim:
    pass


# names of getters an observation field needs
SCALARS = ("p", "m", "lc", "w", "pc", "h", "h1", "hd")


class Rec:
    """one trace"""
    def __init__(self, tid, limit=20.0):
        self.trace = {"id": tid, "Ls": [], "ev": []}
        self.sims = {}
        self.limit = limit
        self.last = None
        self.handles = {}

    # -- plumbing ---------------------------------------------------------
    def emit(self, e):
        self.trace["ev"].append(e)
        return e

    def call(self, what, f, *a, **kw):
        """run code under test: exceptions and hangs become events"""
        signal.setitimer(signal.ITIMER_REAL, self.limit)
        try:
            with Quiet() as q:
                r = f(*a, **kw)
            self.printed = q.buf.getvalue()
            return r
        except OpTimeout:
            self.emit({"k": "exc", "op": what, "msg": "did not finish in %g s" % self.limit})
            raise Ended()
        except (Exception, SystemExit, MemoryError, RecursionError) as ex:
            self.emit({"k": "exc", "op": what, "msg": "%s: %s" % (type(ex).__name__, str(ex)[:200])})
            raise Ended()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def occ(self, s):
        lat = s.obj.lattice_ref
        return [i for i in range(s.n) if lat.get_site_by_id(i).is_occupied()]

    # -- observations -----------------------------------------------------
    def look(self, i, fields):
        """observation record with the wanted fields"""
        s = self.sims[i]
        return self.call("query %s" % ",".join(fields), self._look, s, fields)

    def _look(self, s, fields):
        o = {}
        x, N, B = s.obj, s.n, 2 * s.n
        lat, pool = x.lattice_ref, x.cluster_pool_ref
        for f in fields:
            if f == "occ":
                o["occ"] = self.occ(s)
            elif f == "p":
                o["p"] = num(x.occupation_prob(), N)
            elif f == "m":
                o["m"] = num(x.order_param_largest_clstr(), B)
            elif f == "lc":
                o["lc"] = integer(x.largest_cluster())
            elif f == "w":
                o["w"] = num(x.order_param_wrapping(), B)
            elif f == "pc":
                o["pc"] = [num(x.get_pc(), N), integer(x.get_site_count_wrapping_cluster_pc()),
                           integer(x.get_bond_count_wrapping_cluster_pc())]
            elif f == "h":
                o["h"] = self.hscaled(x.entropy())
            elif f == "h1":
                o["h1"] = self.hscaled(x.entropy_v1())
            elif f == "hd":
                d = abs(x.entropy() - x.entropy_v1())
                o["hd"] = int(min(d, 0.1) * 1e10) if math.isfinite(d) else 10**9
            elif f in ("g", "lab"):
                o["g"] = [integer(lat.get_site_gid_by_id(k)) for k in range(N)]
                if f == "lab":
                    o["bg"] = [integer(lat.get_bond_gid_by_id(k)) for k in range(B)]
            elif f == "pool":
                o["g"] = [integer(lat.get_site_gid_by_id(k)) for k in range(N)]
                o["bg"] = [integer(lat.get_bond_gid_by_id(k)) for k in range(B)]
                ps, pb = [], []
                for k in range(B):
                    ss, bb = list(pool.get_sites(k)), list(pool.get_bonds(k))
                    ps += [[integer(e), k] for e in ss]
                    pb += [[integer(e), k] for e in bb]
                    if pool.get_cluster_site_count(k) != len(ss) or pool.get_cluster_bond_count(k) != len(bb):
                        ps.append([BAD, k])
                o["ps"], o["pb"] = ps, pb
            elif f == "wid":
                o["g"] = [integer(lat.get_site_gid_by_id(k)) for k in range(N)]
                o["wid"] = integer(x.wrapping_cluster_id)
            elif f == "rel":
                r = [lat.get_site_by_id(k).get_relative_index() for k in range(N)]
                o["rx"] = [integer(q.x_coord()) for q in r]
                o["ry"] = [integer(q.y_coord()) for q in r]
            elif f == "seq":
                o["seq"] = [integer(k) for k in x.get_site_id_sequence()]
            elif f == "idx":
                o["seq"] = [integer(k) for k in x.get_site_id_sequence()]
                o["idx"] = [[integer(c) for c in k] for k in x.get_index_sequence()]
            elif f == "tab":
                o["tab"] = self.table(s)
            elif f == "lens":
                o["lens"] = [len(q) for q in self.series(s)]
            elif f == "scan":
                o["scan"] = [1 if x.scan_all_rows() else 0, 1 if x.scan_all_cols() else 0]
            elif f == "star":
                v = x.get_shortest_path_p()
                o["star"] = num(v, N)
            elif f == "views":
                o.update(self._look(s, ["g", "rel", "pool"]))
                o.update(self.views(s))
            else:
                raise ValueError(f)
        return o

    def views(self, s):
        """what the printed views say"""
        x, N, L = s.obj, s.n, s.L
        o = {}
        with Quiet() as q:
            x.viewLattice(4)
        rows = [re.findall(r"-?\d+", l) for l in q.buf.getvalue().splitlines() if re.match(r"^\s*\d+ \|\s*-?\d", l)]
        o["vg"] = [int(v) for r in rows for v in r[1:]]
        with Quiet() as q:
            x.viewLattice(3)
        g, rx, ry = [], [], []
        for l in q.buf.getvalue().splitlines():
            for m in re.finditer(r"(-?\d+)\s*<\s*(-?\d+)\s*,\s*(-?\d+)\s*>", l):
                g.append(int(m.group(1))); rx.append(int(m.group(2))); ry.append(int(m.group(3)))
        o["vrg"], o["vrx"], o["vry"] = g, rx, ry
        with Quiet() as q:
            x.viewCluster()
        ps, pb, cur = [], [], None
        pg, cg = [], None                        # bonds with the label shown for their cluster
        for l in q.buf.getvalue().splitlines():
            m = re.match(r"\s*cluster \[\s*(-?\d+)\s*\]", l)
            if m:
                cur = int(m.group(1))
                m = re.search(r"\(gid\s*(-?\d+)\s*\)", l)
                cg = int(m.group(1)) if m else None
            m = re.match(r"\s*Number of clusters\s+(-?\d+)", l)
            if m:
                o["vnc"] = int(m.group(1))
            m = re.match(r"\s*(sites|bonds) \((\d+)\)\s*\[(.*)\]", l)
            if m and cur is not None:
                ids = [int(v) for v in re.findall(r"-?\d+", m.group(3))]
                if len(ids) != int(m.group(2)):
                    ids.append(BAD)
                (ps if m.group(1) == "sites" else pb).extend([e, cur] for e in ids)
                if m.group(1) == "bonds" and cg is not None:
                    pg.extend([e, cg] for e in ids)
        o["vps"], o["vpb"], o["vpg"] = ps, pb, pg
        pool = x.cluster_pool_ref
        if hasattr(pool, "get_cluster"):
            with Quiet():
                cl = [(k, pool.get_cluster(k)) for k in range(2 * N)]
            o["vqs"] = [[integer(e), k] for k, c in cl for e in c.get_sites()]
            o["vqb"] = [[integer(e), k] for k, c in cl for e in c.get_bonds()]
        if hasattr(x.lattice_ref.get_site_by_id(0), "is_root"):
            o["vroot"] = [1 if x.lattice_ref.get_site_by_id(k).is_root() else 0 for k in range(N)]
        # labels in the other displays, by site and by bond
        sl, bl = [], []
        with Quiet() as q:
            x.viewLattice(1)
        one, two = {}, {}
        for l in q.buf.getvalue().splitlines():
            v = [(int(a), int(b)) for a, b in re.findall(r"\(\s*(-?\d+)\s*,\s*(-?\d+)\s*\)", l)]
            if len(v) == 2 * L:
                one.update((b, a) for a, b in v[::2])
                two.update((b, a) for a, b in v[1::2])
            elif len(v) == L:
                two.update((b, a) for a, b in v)
        sl.append([one.get(k, BAD) for k in range(N)])
        bl.append([two.get(k, BAD) for k in range(2 * N)])
        for fn, n, out in ((x.lattice_ref.print_sites, N, sl), (x.lattice_ref.print_bonds, 2 * N, bl)):
            with Quiet() as q:
                fn()
            one = {}
            for l in q.buf.getvalue().splitlines():
                m = re.match(r"\s*\[\s*(\d+)\s*\]\s*gid=\s*(-?\d+)\s+id=\s*(-?\d+)", l)
                if m:
                    one[int(m.group(1))] = int(m.group(2)) if m.group(1) == m.group(3) else BAD
            out.append([one.get(k, BAD) for k in range(n)])
        for fn, n, out in (("list_all_sites", N, sl), ("list_all_bonds", 2 * N, bl)):
            if not hasattr(x.lattice_ref, fn):
                continue
            with Quiet() as q:
                getattr(x.lattice_ref, fn)()
            one, rel = {}, {}
            for l in q.buf.getvalue().splitlines():
                m = re.match(r"\s*(\d+)\s+(-?\d+)\s", l)
                if m:
                    one[int(m.group(1))] = int(m.group(2))
                    r = re.search(r"<\s*(-?\d+)\s*,\s*(-?\d+)\s*>", l)
                    if r:
                        rel[int(m.group(1))] = (int(r.group(1)), int(r.group(2)))
            out.append([one.get(k, BAD) for k in range(n)])
            if rel:
                o["vlx"], o["vly"] = ([rel.get(k, (BAD, BAD))[j] for k in range(n)] for j in (0, 1))
        if hasattr(x.lattice_ref, "get_site_gid_by_index"):
            sl.append([integer(x.lattice_ref.get_site_gid_by_index(Index(k // L, k % L))) for k in range(N)])
        with Quiet() as q:
            a, b = x.get_site_gids(list(range(N))), x.get_bond_gids(list(range(2 * N)))
        one = {int(m.group(1)): int(m.group(2)) for m in re.finditer(r"site\s+(\d+)\s+gid =>\s*(-?\d+)", q.buf.getvalue())}
        if one:
            sl.append([one.get(k, BAD) for k in range(N)])
        o["vsl"], o["vbl"] = sl, bl
        o["vsg"], o["vbg"] = [integer(v) for v in a], [integer(v) for v in b]
        return o

    def series(self, s):
        x = s.obj
        return (x.get_occupation_prob_array(), x.get_entropy_array(),
                x.get_order_param_largest_array(), x.get_order_param_wrapping_array())

    def hscaled(self, v):
        try:
            if abs(v) < 1e-8:
                v = abs(v)
        except OpTimeout:
            raise
        except Exception:
            return [BAD, BAD]
        return pair(v)

    def table(self, s):
        a = s.obj.get_data_array()
        out = []
        if a.ndim != 2 or a.shape[1] != 4:
            return [[BAD]]
        for r in a.tolist():
            if not isinstance(r, list):
                r = [r]
            if len(r) == 4:
                out.append([num(r[0], s.n), self.hscaled(r[1]), num(r[2], 2 * s.n), num(r[3], 2 * s.n)])
            else:
                out.append([BAD] * len(r))
        return out

    def _o(self, e, i, fields):
        if fields:
            e["o"] = self.look(i, fields)

    # -- operations -------------------------------------------------------
    def new(self, i, kind, L, seed=None, fields=(), cls=None):
        s = Sim()
        s.kind, s.L, s.n = kind, L, L * L
        base = cls or KINDS[kind]

        class Watched(base):
            """notes which sites a run occupies, one call at a time"""
            def place_one_site(self, *a, **kw):
                w = self.__dict__.get("_watch")
                r = super().place_one_site(*a, **kw)
                if w is not None:
                    w()
                return r
        Watched.__name__ = base.__name__
        s.obj = self.call("new", lambda: Watched(length=L, seed=seed) if seed is not None else Watched(length=L))
        self.sims[i] = s
        s.occ = []
        s.order = []
        if L not in self.trace["Ls"]:
            self.trace["Ls"].append(L)
        e = self.emit({"k": "new", "id": i, "kind": kind, "L": L})
        self._o(e, i, fields)
        return s

    def place(self, i, fields=()):
        s = self.sims[i]
        before = s.occ
        ret = self.call("place_one_site", s.obj.place_one_site)
        after = self.call("is_occupied", self.occ, s)
        b, a = set(before), set(after)
        e = self.emit({"k": "place", "id": i, "ret": 1 if ret is True else 0,
                       "new": sorted(a - b), "gone": sorted(b - a)})
        if ret is not True and ret is not False:
            e["ret"] = 2
        flag = getattr(s.obj, "selection_flag", None)
        if isinstance(flag, SelectionState):
            e["flag"] = 1 if flag == SelectionState.SUCESS else 0
        s.occ = after
        s.order += e["new"]
        self.last = e
        self._o(e, i, fields)
        return e

    def detect(self, i, fields=()):
        s = self.sims[i]
        ret = self.call("detect_wrapping", s.obj.detect_wrapping)
        e = self.emit({"k": "detect", "id": i, "ret": 1 if ret is True else 0})
        self._o(e, i, fields)
        return ret

    def _watched(self, i, what, f, limit=None):
        """a run as a black box: the sites it occupied, in order"""
        s = self.sims[i]
        order, seen = [], set(s.occ)

        def watch():
            lat = s.obj.lattice_ref
            new = [k for k in range(s.n) if k not in seen and lat.get_site_by_id(k).is_occupied()]
            if new:
                order.append(new)
                seen.update(new)
        old, self.limit = self.limit, limit or self.limit
        s.obj.__dict__["_watch"] = watch
        try:
            self.call(what, f)
        finally:
            s.obj.__dict__.pop("_watch", None)
            self.limit = old
        after = self.call("is_occupied", self.occ, s)
        if set(after) != seen or any(len(q) > 1 for q in order):
            # the run does not place through place_one_site: use the reported sequence
            seq = self.call("get_site_id_sequence", s.obj.get_site_id_sequence)
            b = set(s.occ)
            order = [[integer(k)] for k in seq if k in set(after) and k not in b]
        s.occ = after
        s.order += [q[0] for q in order]
        return order

    def run(self, i, fields=(), rowfields=("p", "h", "m", "w"), limit=None):
        """run_once as a black box: order from the placements, rows from the series"""
        s = self.sims[i]
        sp = s.kind == "SP"
        lens0 = self.call("series", lambda: [len(q) for q in self.series(s)])
        order = self._watched(i, "run_once", s.obj.run_once, limit)
        ser = self.call("series", lambda: [list(q) for q in self.series(s)])
        for k, new in enumerate(order):
            if sp:
                self.emit({"k": "spstep", "id": i, "new": new})
                continue
            e = self.emit({"k": "row", "id": i, "new": new})
            for f, q, l0 in zip("phmw", ser, lens0):
                if f in rowfields and l0 + k < len(q):
                    v = q[l0 + k]
                    e[f] = self.hscaled(v) if f == "h" else num(v, s.n if f == "p" else 2 * s.n)
        e = self.emit({"k": "runend", "id": i})
        self._o(e, i, fields)
        return [q[0] for q in order]

    def testrun(self, i, fields=()):
        """the truncated run, which stops at the wrapping placement"""
        s = self.sims[i]
        order = self._watched(i, "test_run_once", s.obj.test_run_once)
        for k, new in enumerate(order):
            self.emit({"k": "trow", "id": i, "new": new, "first": 0 if k else 1})
        e = self.emit({"k": "trowend", "id": i, "some": 1 if order else 0})
        self._o(e, i, fields)
        return [q[0] for q in order]

    def reset(self, i, fields=()):
        s = self.sims[i]
        self.call("reset", s.obj.reset)
        s.occ = []
        s.order = []
        e = self.emit({"k": "reset", "id": i})
        self._o(e, i, fields)

    def custom(self, i, lst, shuf=False, form="id", fields=(), seq=False):
        """install a custom list: form id | index (Index objects) | pair (tuples)"""
        s = self.sims[i]
        if form == "id":
            arg, f = list(lst), s.obj.set_custome_site_id_list
        elif form == "index":
            arg, f = [Index(k // s.L, k % s.L) for k in lst], s.obj.set_custome_site_index_list
        else:
            arg, f = [(k // s.L, k % s.L) for k in lst], s.obj.set_custome_site_index_list
        return self.custom_raw(i, arg, list(lst), shuf, f, fields, seq)

    def custom_raw(self, i, arg, lst, shuf, f, fields=(), seq=False):
        s = self.sims[i]

        def plainly(a):
            return [integer(k) if not isinstance(k, (Index, tuple, list)) else
                    list(k.as_list() if isinstance(k, Index) else k) for k in a]
        before = plainly(arg)
        if shuf is None:
            self.call("set_custom", f, arg)
            shuf = False
        else:
            self.call("set_custom", f, arg, shuf)
        e = self.emit({"k": "custom", "id": i, "list": lst, "shuf": 1 if shuf else 0,
                       "before": before, "after": plainly(arg)})
        if seq and s.kind in ("plain", "L0", "SP"):
            e["seq"] = self.call("get_site_id_sequence",
                                 lambda: [integer(k) for k in s.obj.get_site_id_sequence()])
        self._o(e, i, fields)
        # the caller goes on using its list: that must not matter to the simulator
        return arg

    def obs(self, i, fields, note=""):
        e = self.emit({"k": "obs", "id": i})
        if note:
            e["note"] = note
        self._o(e, i, fields)
        return e

    def inspect(self, i, what):
        """a call that must not change anything"""
        s = self.sims[i]
        x = s.obj
        calls = {
            "view0": lambda: x.viewLattice(0), "view1": lambda: x.viewLattice(1), "view2": lambda: x.viewLattice(2),
            "view3": lambda: x.viewLattice(3), "view4": lambda: x.viewLattice(4), "viewm": lambda: x.viewLattice(-1),
            "viewc": x.viewCluster, "testl": x.test_lattice, "testc": x.test_clusters,
            "entropy": x.entropy, "v1": x.entropy_v1, "v2": x.entropy_v2, "pc": x.get_pc,
            "w": x.order_param_wrapping, "m": x.order_param_largest_clstr, "p": x.occupation_prob,
            "seq": x.get_site_id_sequence, "idx": x.get_index_sequence, "sig": x.get_signature,
            "tab": x.get_data_array, "lc": x.largest_cluster,
            "pcs": x.get_site_count_wrapping_cluster_pc, "pcb": x.get_bond_count_wrapping_cluster_pc,
            "ser": lambda: self.series(s),
            "sgid": lambda: x.get_site_gids(list(range(s.n))), "bgid": lambda: x.get_bond_gids(list(range(2 * s.n))),
            "nb": lambda: [x.lattice_ref.get_all_neighbor_sites(k) for k in range(s.n)],
            "wt": lambda: [x.lattice_ref.get_sites_for_wrapping_test(k) for k in range(s.n)],
            "nbs": lambda: [x.lattice_ref.get_neighbor_sites(k) for k in range(2 * s.n)],
            "prints": x.lattice_ref.print_sites, "printb": x.lattice_ref.print_bonds,
            "ids": lambda: (x.lattice_ref.get_site_id_list(), x.lattice_ref.get_bond_id_list()),
            "conn": lambda: [x.get_connected_sites(x.lattice_ref.get_site_by_id(k),
                                                   x.lattice_ref.get_site_by_id(k).connecting_bonds())
                             for k in range(s.n)],
        }
        lat = x.lattice_ref
        for name, obj, fn in (("lists", lat, "list_all_sites"), ("listb", lat, "list_all_bonds"), ("rowscan", lat, "test_rwo_col_scan"),
                              ("testr", lat, "test_relative_index"), ("testn", lat, "test_neighbor_count"),
                              ("scans", lat, "scan_sites"), ("scanb", lat, "scan_bonds")):
            if hasattr(obj, fn):
                calls[name] = getattr(obj, fn)
        if hasattr(x, "get_four_neighbor_sites"):
            calls["four"] = lambda: [x.get_four_neighbor_sites(k) for k in range(s.n)]
        calls["strs"] = lambda: ([str(lat.get_site_by_id(k)) for k in range(s.n)], [str(lat.get_bond_by_id(k)) for k in range(2 * s.n)],
                                 [str(c) for c in getattr(x.cluster_pool_ref, "cluster_list", [])])
        if hasattr(x, "occupied_summary"):
            calls["summary"] = x.occupied_summary
        if hasattr(x, "scan_all_rows"):
            calls["scan"] = lambda: (x.scan_all_rows(), x.scan_all_cols(), x.get_shortest_path_p())
        if what is None:
            return sorted(calls)
        if what in calls:
            self.call("inspect " + what, calls[what])

    def give(self, i, what):
        """keep something the simulator hands out"""
        s = self.sims[i]
        x = s.obj
        getters = {"seq": x.get_site_id_sequence, "idx": x.get_index_sequence, "tab": x.get_data_array,
                   "p": x.get_occupation_prob_array, "h": x.get_entropy_array,
                   "m": x.get_order_param_largest_array, "w": x.get_order_param_wrapping_array}
        obj = self.call("get " + what, getters[what])
        h = "%s%d" % (what, len(self.handles))
        self.handles[h] = obj
        self.emit({"k": "give", "h": h, "val": self._flat(obj)})

    def _flat(self, obj):
        out = []

        def go(v):
            if hasattr(v, "tolist"):
                v = v.tolist()
            if isinstance(v, (list, tuple)):
                out.append(-1000 - len(v))
                for q in v:
                    go(q)
            else:
                out.append(scaled(v, 1e7))
        go(obj)
        return out

    def _flat2(self, o):
        """an observation as one sequence of integers"""
        out = []

        def go(v):
            if isinstance(v, (list, tuple)):
                out.append(-1000 - len(v))
                for q in v:
                    go(q)
            else:
                out.append(v)
        for f in sorted(o):
            if f in ("h", "h1"):
                out.append(coarse(o[f]))
            elif f == "tab":
                go([r if len(r) != 4 else [r[0], coarse(r[1])] + r[2:] for r in o[f]])
            elif f != "hd":
                go(o[f])
        return out

    def check_given(self):
        for h, obj in self.handles.items():
            self.emit({"k": "check", "h": h, "val": self._flat(obj)})

    def memo(self, key, val, clause, tol=0):
        self.emit({"k": "memo", "key": key, "val": val, "clause": clause, "tol": tol})

    def memo2(self, key, val, clause, tol=20):
        """real numbers, compared up to tol * 10^-10"""
        self.emit({"k": "memo", "key": key, "val": [pair(v) for v in val], "clause": clause, "tol": tol, "pair": 1})
