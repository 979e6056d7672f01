"""Orders of occupation: structured ones aimed at merges and loops, and random ones.
Each generator gives a permutation of the sites 0..L*L-1 (or a prefix of one)."""


def nbrs(L, s):
    r, c = divmod(s, L)
    return [r * L + (c + 1) % L, ((r + 1) % L) * L + c, r * L + (c - 1) % L, ((r - 1) % L) * L + c]


def finish(L, first, rng):
    seen, out = set(), []
    for s in first:
        if s not in seen:
            seen.add(s)
            out.append(s)
    rest = [s for s in range(L * L) if s not in seen]
    rng.shuffle(rest)
    return out + rest


def sym(L, order, rng):
    """a random translation / reflection / transposition"""
    dr, dc, t, fr, fc = rng.randrange(L), rng.randrange(L), rng.random() < .5, rng.random() < .5, rng.random() < .5

    def f(s):
        r, c = divmod(s, L)
        if t:
            r, c = c, r
        if fr:
            r = -r
        if fc:
            c = -c
        return ((r + dr) % L) * L + (c + dc) % L
    return [f(s) for s in order]


def rand(L, rng):
    o = list(range(L * L))
    rng.shuffle(o)
    return o


def line_gap(L, rng):
    """a row with one gap, filled in random order, the gap last"""
    r, c = rng.randrange(L), rng.randrange(L)
    o = [r * L + k for k in range(L) if k != c]
    rng.shuffle(o)
    return o + [r * L + c]


def two_lines(L, rng):
    """two winding rows; the first to wind is later absorbed while the other is larger"""
    a, b = 0, L // 2
    o = [a * L + k for k in range(L)]
    o2 = [b * L + k for k in range(L)] + [((b + 1) % L) * L + k for k in range(L) if L > 3]
    rng.shuffle(o2)
    join = []
    r = (a + 1) % L
    while r != b:
        join.append(r * L)
        r = (r + 1) % L
    if rng.random() < .5:
        join.reverse()
    if rng.random() < .5:
        return o + o2 + join
    return o[:-1] + o2[:-1] + [o[-1], o2[-1]] + join


def blob_then_line(L, rng):
    """a big cluster that does not wind, a small one that does, then a joiner"""
    h = max(1, L - 3)
    blob = [r * L + c for r in range(h) for c in range(L - 1)]
    rng.shuffle(blob)
    line = [(L - 2) * L + c for c in range(L)]
    rng.shuffle(line)
    join = [(L - 1) * L + rng.randrange(L - 1)] if L > 2 else []
    return blob + line + join


def stair(L, rng, p=None, q=None):
    """a staircase winding p times one way and q times the other"""
    if p is None:
        p, q = rng.choice([(1, 1), (2, 1), (1, 2), (3, 1), (0, 1), (3, 2)])
    steps = [0] * (p * L) + [1] * (q * L)
    # evenly mixed steps
    out, r, c, e = [], 0, 0, 0
    tot = p + q
    a = b = 0
    for _ in range(len(steps)):
        out.append((r % L) * L + c % L)
        if b * p >= a * q and a < p * L:
            c += 1
            a += 1
        elif b < q * L:
            r += 1
            b += 1
        else:
            c += 1
            a += 1
    if rng.random() < .7:
        k = rng.randrange(len(out))
        body = out[:k] + out[k + 1:]
        rng.shuffle(body)
        out = body + [out[k]]
    return out


def checker(L, rng):
    black = [s for s in range(L * L) if (s // L + s % L) % 2 == 0]
    white = [s for s in range(L * L) if (s // L + s % L) % 2 == 1]
    rng.shuffle(black)
    rng.shuffle(white)
    return black + white


def combs(L, rng):
    """teeth first, the spine last: one site joins clusters of different lengths"""
    teeth = [r * L + c for c in range(0, L, 2) for r in range(1, L - 1)]
    rng.shuffle(teeth)
    spine = list(range(L))
    rng.shuffle(spine)
    return teeth + spine


def snake(L, rng):
    """meander over the lattice that closes on itself across the edges"""
    o = []
    for r in range(0, L, 2):
        row = [r * L + c for c in range(L - 1)]
        if (r // 2) % 2:
            row.reverse()
        o += row
        if r + 1 < L:
            o.append((r + 1) * L + (row[-1] % L))
    if rng.random() < .5:
        k = rng.randrange(1, len(o))
        o = o[k:] + o[:k]
    if rng.random() < .4:
        rng.shuffle(o)
    return o


def eden(L, rng):
    """one growing cluster"""
    s0 = rng.randrange(L * L)
    seen, out, front = {s0}, [s0], list(nbrs(L, s0))
    while front:
        s = front.pop(rng.randrange(len(front)))
        if s in seen:
            continue
        seen.add(s)
        out.append(s)
        front += [x for x in nbrs(L, s) if x not in seen]
    return out


def tentacles(L, rng):
    """grow trees without loops as long as possible (long unwrapped paths), then close"""
    seen, out = set(), []
    starts = [rng.randrange(L * L) for _ in range(rng.choice([1, 1, 2, 3]))]
    for s in starts:
        if s not in seen:
            seen.add(s)
            out.append(s)
    cur = list(out)
    while True:
        cand = [x for s in out for x in nbrs(L, s) if x not in seen and len({y for y in nbrs(L, x) if y in seen}) == 1]
        if not cand:
            break
        # prefer to go on from the newest site
        pref = [x for x in nbrs(L, out[-1]) if x in cand]
        x = rng.choice(pref) if pref and rng.random() < .8 else rng.choice(cand)
        seen.add(x)
        out.append(x)
    return out


def forest(L, rng):
    """union of trees: add only sites that close no loop, in random order; then the rest"""
    parent = list(range(L * L))

    def find(a):
        while parent[a] != a:
            parent[a] = parent[parent[a]]
            a = parent[a]
        return a
    occ, out = set(), []
    o = rand(L, rng)
    for s in o:
        roots = [find(x) for x in nbrs(L, s) if x in occ]
        if len(set(roots)) == len(roots):
            occ.add(s)
            out.append(s)
            for x in roots:
                parent[x] = find(s)
    return out


def pieces_of_row(L, rng):
    """a full row/column assembled from pieces, most of it outside the wrapping cluster,
    joined to the wrapping cluster afterwards"""
    line = [2 % L * L + c for c in range(L)]
    rng.shuffle(line)
    wrap = [r * L + rng.choice([0]) for r in range(L) if r not in (1, 2, 3)] if L > 4 else []
    return line + wrap + [1 * L]


def diag_then_row(L, rng):
    """wrap by a staircase (no straight line), then straight lines appear by merges"""
    st = stair(L, rng, 1, 1)
    rows = [((L // 2) % L) * L + c for c in range(L)]
    rng.shuffle(rows)
    k = rng.randrange(len(rows))
    return [s for s in rows[:k]] + st + rows[k:]


def wraponly(L, rng):
    """avoid straight lines as long as possible: leave one site of each row and column empty"""
    perm = list(range(L))
    rng.shuffle(perm)
    holes = [r * L + perm[r] for r in range(L)]
    body = [s for s in range(L * L) if s not in holes]
    rng.shuffle(body)
    rng.shuffle(holes)
    return body + holes


def hook(L, rng):
    """a path whose closing step runs against the direction in which it winds: it leaves
    its start on one side and comes back to it, one period further, from the other side"""
    if L < 6:
        return saw(L, rng)
    d = rng.randrange(1, 3) if L > 6 else 1                      # depth below
    k = rng.randrange(3, L - 2)                                  # width of the hook
    up = 2
    path = [(r, 0) for r in range(0, d + 2)]                     # down
    path += [(d + 1, c) for c in range(1, k + 1)]                # to the right
    path += [(r, k) for r in range(d, -up - 1, -1)]              # up, past the start
    path += [(-up, c) for c in range(k + 1, L + 2)]              # over the start of the next period
    path += [(r, L + 1) for r in range(-up + 1, 1)]              # down to the right of it
    o = [(r % L) * L + c % L for r, c in path]
    if rng.random() < .5:
        j = rng.randrange(len(o))
        body = o[:j] + o[j + 1:]
        rng.shuffle(body)
        o = body + [o[j]]
    return o


def saw(L, rng):
    """walks on the torus that touch themselves only when they close; the closing site last"""
    best = None
    for _ in range(6):
        s = rng.randrange(L * L)
        path, inn, d = [s], {s}, rng.randrange(4)
        while True:
            x = path[-1]
            ns = nbrs(L, x)
            opts = [y for y in ns if y not in inn and all(z == x or z not in inn for z in nbrs(L, y))]
            if not opts:
                close = [y for y in ns if y not in inn]
                if close:
                    path.append(rng.choice(close))
                break
            y = ns[d] if ns[d] in opts and rng.random() < .6 else rng.choice(opts)
            d = ns.index(y)
            path.append(y)
            inn.add(y)
        if best is None or len(path) > len(best):
            best = path
    if rng.random() < .5:
        j = rng.randrange(len(best))
        body = best[:j] + best[j + 1:]
        rng.shuffle(body)
        return body + [best[j]]
    return best


STEP = ((0, 1), (1, 0), (0, -1), (-1, 0))


def trees(L, rng):
    """a maximal loop-free set grown by a few walkers, with unwrapped positions: (sites, root, position)"""
    N = L * L
    root, pos, out, tips = {}, {}, [], []
    for k in range(rng.choice((1, 1, 1, 2, 3))):
        s = rng.randrange(N)
        if s in root or any(x in root for x in nbrs(L, s)):
            continue
        root[s], pos[s] = s, (0, 0)
        out.append(s)
        tips.append(s)
    keep = rng.choice((.3, .6, .8, .95))
    head = [rng.randrange(4) for _ in tips]
    stuck = 0
    while stuck < 3 * N:
        k = rng.randrange(len(tips))
        if rng.random() > .9:
            tips[k] = rng.choice([s for s in out if root[s] == root[tips[k]]])
        s = tips[k]
        ns = nbrs(L, s)
        opts = [d for d in range(4) if ns[d] not in root and
                len([y for y in nbrs(L, ns[d]) if y in root]) == 1]
        if not opts:
            tips[k] = rng.choice([x for x in out if root[x] == root[s]])
            stuck += 1
            continue
        d = head[k] if head[k] in opts and rng.random() < keep else rng.choice(opts)
        head[k] = d
        x = ns[d]
        root[x], pos[x] = root[s], (pos[s][0] + STEP[d][0], pos[s][1] + STEP[d][1])
        out.append(x)
        tips[k] = x
    return out, root, pos


def closings(L, root, pos):
    """empty sites whose occupation closes a winding path, by the shape of the closing"""
    cls = {}
    for x in range(L * L):
        if x in root:
            continue
        ns = nbrs(L, x)
        at = [(d, ns[d]) for d in range(4) if ns[d] in root]
        seen = {}
        for d, y in at:
            u = (pos[y][0] - STEP[d][0], pos[y][1] - STEP[d][1])
            seen.setdefault(root[y], []).append((d, u))
        kind = []
        for r, l in seen.items():
            for a in range(len(l)):
                for b in range(a):
                    w = ((l[a][1][0] - l[b][1][0]) // L, (l[a][1][1] - l[b][1][1]) // L)
                    if w != (0, 0):
                        s1 = STEP[l[a][0]][0] * w[0] + STEP[l[a][0]][1] * w[1]
                        s2 = -STEP[l[b][0]][0] * w[0] - STEP[l[b][0]][1] * w[1]
                        kind.append((min(s1, s2), max(s1, s2), min(abs(w[0]), abs(w[1])), max(abs(w[0]), abs(w[1]))))
        if kind:
            cls.setdefault((len(at), len(seen), tuple(sorted(kind))), []).append(x)
    return cls


def oddclose(L, rng):
    """loop-free sets, then a closing site of an uncommon shape"""
    best = {}
    for _ in range(60 if L < 9 else 25):
        out, root, pos = trees(L, rng)
        for c, xs in closings(L, root, pos).items():
            best[c] = (out, xs)
    if not best:
        return rand(L, rng)
    keys = sorted(best)
    pure = [c for c in keys if all(k[0] > 0 for k in c[2])]
    c = rng.choice(pure) if pure and rng.random() < .6 else rng.choice(keys)
    out, xs = best[c]
    x = rng.choice(xs)
    out = out[:]
    if rng.random() < .5:
        rng.shuffle(out)
    return out + [x]


def crossroad(L, rng):
    """several separate clusters around one site, one of them winding (not always the largest); then the site"""
    if L < 4:
        return rand(L, rng)
    x = rng.randrange(L * L)
    ns = nbrs(L, x)
    col = {}

    def free(s, c):
        return s != x and s not in col and all(col.get(y, c) == c for y in nbrs(L, s))
    groups = [[] for _ in range(4)]

    def put(s, c):
        col[s] = c
        groups[c].append(s)
    w = rng.randrange(4) if rng.random() < .85 else -1
    others = [c for c in range(4) if c != w]
    rng.shuffle(others)
    others = others[:rng.choice((1, 2, 3, 3, 3))]
    if w >= 0:
        # a stub from the site, then a straight line across it, away from the other arms
        dr, dc = STEP[w]
        r, c = divmod(x, L)
        ln = rng.randrange(1, max(2, L - 3)) if L > 4 else 1
        for k in range(1, ln + 1):
            put((r + dr * k) % L * L + (c + dc * k) % L, w)
        r2, c2 = (r + dr * (ln + 1)) % L, (c + dc * (ln + 1)) % L
        for k in range(L):
            s = r2 * L + (c2 + k) % L if dr else (r2 + k) % L * L + c2
            if s != x and s not in col:
                put(s, w)
    for c in others:
        if ns[c] not in col and free(ns[c], c):
            put(ns[c], c)
    speed = [rng.choice((0, 1, 1, 6)) for _ in range(4)]
    if w >= 0:
        speed[w] = 0
    for _ in range(6 * L * L):
        tot = [c for c in range(4) for _ in range(speed[c]) if groups[c]]
        if not tot:
            break
        c = rng.choice(tot)
        y = rng.choice(nbrs(L, rng.choice(groups[c])))
        if free(y, c) and not (w >= 0 and y in ns):
            put(y, c)
    order = []
    for c in rng.sample(range(4), 4):
        g = groups[c][:]
        rng.shuffle(g)
        order += g
    if rng.random() < .3:
        rng.shuffle(order)
    return order + [x]


STRUCT = [line_gap, two_lines, blob_then_line, stair, checker, combs, snake, eden, tentacles, forest,
          pieces_of_row, diag_then_row, wraponly, hook, saw,
          oddclose, crossroad, crossroad]


def structured(L, rng, f=None):
    f = f or rng.choice(STRUCT)
    o = [s for s in f(L, rng) if 0 <= s < L * L]
    return f.__name__, sym(L, finish(L, o, rng), rng)


def any_order(L, rng):
    if rng.random() < .4:
        return "random", rand(L, rng)
    return structured(L, rng)


def spiral_len(L):
    """number of sites of the thin path of `spiral`"""
    rows = L // 2
    return rows * (L - 1) + (rows - 1)


def spiral(L, rng):
    """a thin path that advances around the torus and never closes: every second row, each one
    site short and shifted, joined by one site; then the rest at random"""
    path, c = [], rng.randrange(L)
    rows = L // 2
    for k in range(rows):
        r = 2 * k
        for j in range(L - 1):
            path.append(r * L + (c + j) % L)
        c = (c + L - 2) % L
        if k < rows - 1:
            path.append((r + 1) * L + c)
    m = rng.randrange(3)
    if m == 1:
        path.reverse()
    elif m == 2:
        h = len(path) // 2
        path = path[h:] + path[:h][::-1]
    return finish(L, path, rng)


def scatter(L, rng):
    """first every second site (all apart), then the others"""
    a = [s for s in range(L * L) if (s // L + s % L) % 2 == 0]
    b = [s for s in range(L * L) if (s // L + s % L) % 2]
    rng.shuffle(a)
    rng.shuffle(b)
    return a + b


def halves(L, rng):
    """two large clusters grown apart, joined by one site; a thin winding cluster that later absorbs them"""
    a, b = L // 2 - 1, L - 4
    cell = lambda r, c: r * L + c
    top = [cell(r, c) for r in range(a) for c in range(L - 1)]
    low = [cell(r, c) for r in range(a + 1, b) for c in range(L - 1)]
    line = [cell(b + 1, c) for c in range(L)]
    rng.shuffle(top)
    rng.shuffle(low)
    rng.shuffle(line)
    bridge, link = cell(a, rng.randrange(L - 1)), cell(b, rng.randrange(L - 1))
    v = rng.randrange(3)
    if v == 0:
        o = top + low + [bridge] + line + [link]
    elif v == 1:
        o = line + low + top + [bridge, link]
    else:
        o = low + line + [link] + top + [bridge]
    return sym(L, finish(L, o, rng), rng)
