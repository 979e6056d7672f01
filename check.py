#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough] [--seed N] [--only JOB] [--keep]

Decides one property:
 1. TLC checks the model (invariants / action properties of this property);
 2. harness/drive.py drives the code of /repo through scenarios (some of them
    generated by TLC from the model) and records traces;
 3. TLC replays every trace through the model (spec/Trace*.tla) and names each
    violated clause.
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Anything else: the machinery failed."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"


class Broken(Exception):
    pass


def tlc(module, cfg, work, env=None, workers=8, timeout=800, extra=(), mem="4g"):
    """run TLC in a private directory; returns its output"""
    d = tempfile.mkdtemp(prefix="tlc-", dir=work)
    cfgf = os.path.join(d, module + ".cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    e["LNFILE"] = os.path.join(HERE, "spec", "ln.json")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ActiveProcessorCount=%d" % max(workers, 2), "-Xmx" + mem, "-Xss64m",
           "-DTLA-Library=" + os.path.join(HERE, "spec"), "-Djava.io.tmpdir=" + d,
           "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-config", cfgf] + list(extra) + [os.path.join(HERE, "spec", module + ".tla")]
    p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m.group(1)), int(m.group(2))


def run_model(spec, work, tier, res):
    """one model-checking run; res collects (name, generated, distinct, edges)"""
    try:
        env = {}
        for name, obj in spec.get("json", {}).items():
            env[name] = os.path.join(work, "%s-%s.json" % (name, re.sub(r"\W+", "_", spec["name"])))
            json.dump(obj, open(env[name], "w"))
        rc, out = tlc(spec["module"], spec["cfg"], work, env, workers=spec.get("workers", 4),
                      extra=spec.get("extra", ()))
        g, d = stats(out)
        ok = rc == 0 and ("No error has been found" in out or "Finished in" in out and "Error" not in out) and d > 0
        edges = re.findall(r'<<"EDGE", "?(-?\d+)"?, "?(-?\d+)"?, (-?\d+)>>', out) if spec.get("edges") else []
        hists = [json.loads(x.replace('\\"', '"')) for x in re.findall(r'^"@@HIST (.*)"$', out, re.M)] if spec.get("hists") else []
        if spec.get("hists"):
            ok = rc == 0 and bool(hists)
        res.append({"name": spec["name"], "ok": ok, "generated": g, "distinct": d, "edges": edges, "hists": hists,
                    "out": out if not ok else "", "what": spec.get("what", "")})
    except Exception as ex:     # noqa
        res.append({"name": spec["name"], "ok": False, "generated": 0, "distinct": 0, "edges": [], "hists": [], "out": repr(ex),
                    "what": ""})


def cover(edges, seed):
    """paths from the initial state that together take every transition of the graph"""
    import random
    rng = random.Random(seed)
    succ, indeg = {}, {}
    for a, b, s in edges:
        succ.setdefault(a, {})[int(s)] = b
        indeg[b] = indeg.get(b, 0) + 1
        indeg.setdefault(a, 0)
    roots = [v for v in indeg if indeg[v] == 0]
    if len(roots) != 1:
        raise Broken("state graph has %d roots" % len(roots))
    todo = {(a, int(s)) for a, b, s in edges}
    # number of untaken edges reachable decreases monotonically: greedy walks prefer untaken edges
    left = {}
    for a, s in todo:
        left[a] = left.get(a, 0) + 1
    order, seen = [], set()
    paths = []
    # breadth-first distance to a state with untaken edges: recomputed lazily by random restarts
    parent = {roots[0]: None}
    q = [roots[0]]
    for v in q:
        items = list(succ.get(v, {}).items())
        rng.shuffle(items)
        for s, w in items:
            if w not in parent:
                parent[w] = (v, s)
                q.append(w)
    depthfirst = sorted(todo, key=lambda e: rng.random())
    for e in depthfirst:
        if e not in todo:
            continue
        v, pre = e[0], []
        while parent[v] is not None:
            u, s = parent[v]
            pre.append(s)
            todo.discard((u, s))
            v = u
        pre.reverse()
        v = e[0]
        s = e[1]
        while True:
            todo.discard((v, s))
            pre.append(s)
            v = succ[v][s]
            nxt = succ.get(v, {})
            if not nxt:
                break
            fresh = [k for k in nxt if (v, k) in todo]
            s = rng.choice(fresh) if fresh else rng.choice(list(nxt))
        paths.append(pre)
    rng.shuffle(paths)
    return paths


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(a[a.index("--seed") + 1]) if "--seed" in a else int(os.environ.get("VERIF_SEED", "1") or 1)
    only = a[a.index("--only") + 1] if "--only" in a else None
    P = PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return decide(pid, P, tier, seed, only, work, t0)
    except (Broken, subprocess.TimeoutExpired) as ex:
        print("ERROR: %s" % str(ex)[-6000:])
        return 2
    finally:
        if "--keep" in a:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def unreadable(o):
    """TLC could not evaluate the model on a recorded event: which one"""
    m = re.search(r"^Error: (Overflow when computing.*|.*[Aa]ttempted to .*)$", o, re.M)
    s = re.findall(r"^/\\ (i|t) = (-?\d+)", o[m.end():], re.M) if m else []
    if len(s) < 2:
        return None
    d = dict(s)          # the last state
    return (int(d["t"]), int(d["i"]), m.group(1)[:120]) if "t" in d and "i" in d else None


def decide(pid, P, tier, seed, only, work, t0):
    # 1. models
    res, threads = [], []
    models = [m for m in P["models"](tier, seed) if not only or m.get("edges") or m.get("hists")]
    for m in models:
        th = threading.Thread(target=run_model, args=(m, work, tier, res))
        th.start()
        threads.append((m, th))
    paths, hists = [], []
    for m, th in threads:
        if m.get("edges") or m.get("hists"):
            th.join()
    for r in list(res):
        if r["edges"]:
            paths = cover(r["edges"], seed)
        hists += [h for k, h in enumerate(r["hists"]) if h not in r["hists"][:k]]
    pf = os.path.join(work, "paths.json")
    json.dump({"paths": paths, "hists": hists}, open(pf, "w"))
    # 2. traces of the code
    out = os.path.join(work, "traces")
    os.mkdir(out)
    scratch = os.path.join(work, "cwd")
    os.makedirs(os.path.join(scratch, "data"))
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(work, "pyc"), PYTHONPATH=REPO,
               PYTHONHASHSEED="0", MPLBACKEND="Agg", VERIF_WORK=scratch, HOME=scratch,
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    cmd = [PY, os.path.join(HERE, "harness", "drive.py"), pid, tier, str(seed), pf, out]
    if only:
        cmd += ["--only", only]
    p = subprocess.run(cmd, cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=700 if tier == "quick" else 3000, errors="replace")
    if p.returncode != 0:
        raise Broken("driver failed:\n" + p.stdout[-3000:])
    tf = os.path.join(out, "traces.ndjson")
    n = sum(1 for _ in open(tf))
    if n == 0:
        raise Broken("no traces")
    # 3. replay through the model
    tg = td = 0
    fails, done = [], {}
    chunk = P.get("chunk", 100000)
    lines = open(tf).read().splitlines()
    for c in range(0, n, chunk):
        cf = os.path.join(work, "chunk.ndjson")
        with open(cf, "w") as f:
            f.write("\n".join(lines[c:c + chunk]) + "\n")
        rc, o = tlc(P.get("trace", "Trace"), "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", work, {"TRACES": cf},
                    workers=8, timeout=800 if tier == "quick" else 6000, mem="8g")
        g, d = stats(o)
        tg, td = tg + g, td + d
        for m in re.finditer(r'^"?@@(FAIL|DONE) (.*?)"?$', o, re.M):
            v = json.loads(m.group(2).replace('\\"', '"'))
            if m.group(1) == "FAIL":
                fails.append((c + v[0] - 1, v[1], v[2]))
            else:
                done[c + v[0] - 1] = v[1]
        lost = unreadable(o) if rc != 0 else None
        if lost:
            # the model cannot take the recorded values at all: far beyond anything it can hold.  The replay ends there
            fails.append((c + lost[0] - 1, lost[1] + 1, [pid + ".range"]))
            print("  (the replay ended early: %s)" % lost[2])
            break
        if rc != 0 or len([k for k in done if c <= k < c + chunk]) != min(chunk, n - c):
            raise Broken("trace replay failed (%d of %d traces):\n%s" % (len(done), n, o[-4000:]))
    for m, th in threads:
        th.join()
    for r in res:
        if not r["ok"]:
            raise Broken("model %s: TLC did not succeed:\n%s" % (r["name"], r["out"][-1200:]))
    # verdict
    mine, other = [], {}
    pat = re.compile("^(%s)" % "|".join([re.escape(pid) + r"\.", "ANY\\."] + list(P.get("also", ()))))
    for t, i, cl in sorted(fails):
        m = sorted(c for c in cl if pat.match(c))
        if m:
            mine.append((t, i, m))
        for c in cl:
            if c not in m:
                other[c] = other.get(c, 0) + 1
    known = load_known(pid)
    events = 0
    kinds, samples, nontrivial = {}, [], set()
    for k, l in enumerate(lines):
        tr = json.loads(l)
        events += len(tr["ev"])
        for e in tr["ev"]:
            kinds[e["k"]] = kinds.get(e["k"], 0) + 1
        body = [{q: v for q, v in e.items() if q in ("k", "kind", "L", "new", "list", "ret", "x", "occ", "key", "shuf", "file", "op")}
                for e in tr["ev"]]
        if len(body) > 2:
            nontrivial.add(hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest())
        if k % max(1, n // 3) == 0 and len(samples) < 3:
            samples.append({"trace": tr["id"], "events": len(tr["ev"]), "first": json.loads(json.dumps(tr["ev"][:3]))})
    new = []
    for t, i, cl in mine:
        tr = json.loads(lines[t])
        key = "%s@%s" % (tr["id"], ",".join(cl))
        hit = [x for x in known if x and x in key]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
        else:
            new.append((t, i, cl))
    wall = round(time.time() - t0, 2)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": P["level"], "wall_s": wall, "violations": len(new),
        "coverage": {
            "states": sum(r["distinct"] for r in res) + td,
            "transitions": sum(r["generated"] for r in res) + tg,
            "traces_validated_against_impl": n,
            "distinct_nontrivial": len(nontrivial),
            "evaluations": events,
            "rule": "a trace is a recorded execution of /repo's code; distinct by its sequence of operations and "
                    "placements, non-trivial if it has more than two events",
            "models": [{"name": r["name"], "what": r["what"], "generated": r["generated"], "distinct": r["distinct"]} for r in res],
            "trace_states": td, "events_by_kind": kinds, "generated_behaviours": len(paths) + len(hists),
            "clauses_failed_of_other_properties": other, "samples": samples,
        },
        "assumptions": P.get("assumptions", []),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if new:
        t, i, cl = new[0]
        tr = json.loads(lines[t])
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.sha1(lines[t].encode()).hexdigest()[:10]))
        with open(rp, "w") as f:
            json.dump({"property": pid, "violated_clauses": cl, "at_event": i, "trace": tr["id"],
                       "rerun": "python3 check.py %s --tier %s --seed %d --only '%s'" % (pid, tier, seed, tr["id"]),
                       "failing_event": tr["ev"][i - 1] if i <= len(tr["ev"]) else None,
                       "events_before": tr["ev"][:i - 1],
                       "all_violations": [[json.loads(lines[x])["id"], y, z] for x, y, z in new[:50]]}, f, indent=1)
        for x, y, z in new[:5]:
            print("  %s event %d: %s" % (json.loads(lines[x])["id"], y, ", ".join(z)))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK %s %s: %d traces, %d events, %d model states, %.1f s%s" % (
        pid, tier, n, events, ev["coverage"]["states"], wall, " (other clauses: %s)" % other if other else ""))
    return 0


def load_known(pid):
    """entries of known_findings.txt: 'finding: property=PID <trace>@<clauses> -- text'; fixed entries suppress nothing"""
    out = []
    fn = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"finding: property=(\S+) (\S+) --", l)
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


if __name__ == "__main__":
    sys.exit(main())
