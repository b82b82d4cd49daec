"""C13: a triangles cloud answers as its triangles one by one."""
import random

import geometry as gm
import lib


def plan(ctx):
    rnd = random.Random(ctx.seed * 5 + 2)
    return [{'seed': rnd.randrange(1 << 30), 'n': rnd.choice([1, 2, 3, 5, 8, 12, 20, 30]), 'kind': rnd.randrange(6)}
            for _ in range(3000 if ctx.thorough else 220)] + [
        {'seed': rnd.randrange(1 << 30), 'n': rnd.choice([50, 90, 128, 200, 240]), 'kind': rnd.choice([0, 1, 1, 2, 4, 5, 5])}
            for _ in range(120 if ctx.thorough else 20)]


def cloud_triangles(rnd, n, kind):
    """Random, small, flat, stacked (equal centroids), repeated, a surface."""
    if kind == 0:
        return [gm.triangle(rnd) for _ in range(n)]
    if kind == 1:           # small ones
        ts = []
        while len(ts) < n:
            o = gm.point(rnd, 6)
            t = [[x + rnd.randint(0, 2) for x in o] for _ in range(3)]
            if not gm.degenerate(t):
                ts.append(t)
        return ts
    if kind == 2:           # in one plane
        i, v, ts = rnd.randrange(3), rnd.randint(0, 8), []
        while len(ts) < n:
            t = [gm.point(rnd) for _ in range(3)]
            for p in t:
                p[i] = v
            if not gm.degenerate(t):
                ts.append(t)
        return ts
    if kind == 3:           # equal centroids: a triangle and its images under reflections of coordinates
        t = gm.triangle(rnd)
        ts = [[[p[k] for k in perm] for p in t] for perm in ([0, 1, 2],) for _ in range(1)]
        while len(ts) < n:
            u = rnd.choice(ts)
            ts.append(u[1:] + u[:1] if rnd.random() < 0.7 else gm.triangle(rnd))
        return ts
    if kind == 4:           # copies
        base = [gm.triangle(rnd) for _ in range(max(1, n // 3))]
        return [rnd.choice(base) for _ in range(n)]
    ts = []                 # a sheet z = f(x, y)
    h = [[rnd.randint(0, 3) + 2 for _ in range(9)] for _ in range(9)]
    k = 1 if n > 40 else rnd.choice([1, 2, 4])
    for x in range(0, 8, k):
        for y in range(0, 8, k):
            a, b, c, d = [[x, y, h[x][y]], [x + k, y, h[x + k][y]], [x + k, y + k, h[x + k][y + k]], [x, y + k, h[x][y + k]]]
            ts += [[a, b, c], [a, c, d]]
    if n <= 90 or rnd.random() < 0.5:
        rnd.shuffle(ts)
    ts = ts[:max(n, 4)]
    p = rnd.choice([[0, 1, 2], [1, 2, 0], [2, 0, 1]])
    return [[[q[i] for i in p] for q in t] for t in ts]


def execute(s):
    import geom
    rnd = random.Random(s['seed'])
    f = gm.Frame(rnd)
    ts = cloud_triangles(rnd, s['n'], s['kind'])
    T = [f.tri(t) for t in ts]
    num = {id(t): i + 1 for i, t in enumerate(T)}
    recs = []

    def build():
        return geom.TrianglesCloud(list(T))
    o, C = lib.call(build)
    rec = dict(o, ev='cloud', ts=ts, qs=[])
    recs.append(rec)
    if o['exc']:
        return recs
    big = len(ts) > 40
    each = not big or s['kind'] == 5     # of a sheet every triangle is asked
    for k in range(len(ts) if big and each else 14 + len(ts) // (4 if big else 2)):
        t = ts[(k if each else rnd.randrange(len(ts))) % len(ts)]
        sg = gm.segment(rnd, t)
        S = f.seg(sg)
        o, r = lib.call(C.first_intersection_with_segment, S)
        if o['exc']:
            rec['exc'] = o['exc']
            break
        rec['qs'].append({'s': sg, 'got': 0 if r is None else num.get(id(r), -1),
                          'one': [i + 1 for i, x in enumerate(T) if x.intersection_with_segment(S) != []]})
    # a second cloud
    same = rnd.random() < 0.3
    us = ts if same else cloud_triangles(rnd, rnd.choice([1, 2, 5, 10]), rnd.randrange(6))
    k, m = (100, 10) if big and not same else (12, 12)
    us = us[:m]
    ts2 = ts[:k]
    U = T[:12] if same else [f.tri(u) for u in us]
    T2 = T[:k]
    if big and rnd.random() < 0.5:
        ts2, us, T2, U = us, ts2, U, T2
    nt, nu = {id(x): i + 1 for i, x in enumerate(T2)}, {id(x): i + 1 for i, x in enumerate(U)}

    def pairs():
        A = geom.TrianglesCloud(list(T2))
        B = A if same and rnd.random() < 0.5 else geom.TrianglesCloud(list(U))
        out = A.intersection_with_triangles_cloud(B)
        pr, pts = [], []
        for q in range(0, len(out), 2):     # an entry per triangle of the pair, with the same points
            (a, x), (b, y) = out[q], out[q + 1]
            pr.append([nt.get(id(a), 0), nu.get(id(b), 0)])
            pts.append([f.back(z) for z in x] if len(x) == len(y) and all(m == n for m, n in zip(x, y)) else [[1 << 24] * 3])
        one = [[i + 1, j + 1] for i, a in enumerate(T2) for j, b in enumerate(U) if a.intersection_with_triangle(b) != []]
        return {'pairs': pr, 'pts': pts, 'one': one}
    o, r = lib.call(pairs)
    recs.append(dict(o, ev='clouds', ts=ts2, us=us, same=same, **(r or {})))
    return recs


STAGES = [{'name': 'clouds', 'module': 'TraceGeom', 'plan': plan, 'chunks': 7, 'workers': 7}]
