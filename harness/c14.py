"""C14: exact geometry of triangles, segments and boxes."""
import itertools
import random

import geometry as gm
import lib

MODEL = 'SPECIFICATION Spec\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\nCONSTANTS Max = %d\n OneCorner = %s\n'


def plan_small(ctx):
    """All triangles and segments of the unit cube."""
    ctx.model('GeomModel', MODEL % (1, 'FALSE'), workers=4)
    if ctx.thorough:
        ctx.model('GeomModel', MODEL % (2, 'TRUE'), workers=7, timeout=3000, heap='8g')
    pts = [list(p) for p in itertools.product((0, 1), repeat=3)]
    tris = [t for t in itertools.permutations(pts, 3) if not gm.degenerate(t)]
    return [{'tris': tris[i:i + 14], 'seed': ctx.seed + i} for i in range(0, len(tris), 14)]


def plan_random(ctx):
    rnd = random.Random(ctx.seed * 3 + 1)
    return [{'seed': rnd.randrange(1 << 30), 'n': 24} for _ in range(4000 if ctx.thorough else 250)]


def answer(fn, *a):
    o, r = lib.call(fn, *a)
    return o['exc'], r


class Rec:
    def __init__(self):
        self.m = {}

    def add(self, ev, exc, q):
        r = self.m.setdefault((ev, exc), {'ev': ev, 'exc': exc, 'qs': []})
        if not exc:
            r['qs'].append(q)

    def records(self):
        return list(self.m.values())


def close(rnd, rec, f, t, T, pl, inn):
    """Figures at distances far below the size of the triangle, and triangles far below the size of the segment."""
    import geom
    N = gm.cross(gm.sub(t[1], t[0]), gm.sub(t[2], t[0]))

    def mix(o, *terms):
        return [o[i] + sum(k * v[i] for k, v in terms) for i in range(3)]
    border = [p for p in inn if any(gm.cross(gm.sub(t[k - 1], t[k]), gm.sub(p, t[k])) == [0, 0, 0] for k in range(3))]
    o = rnd.choice(rnd.choice([border, border, inn]))
    u, w = [gm.sub(rnd.choice(pl), o) for _ in range(2)]
    # passing near the border, or just (not) reaching the plane
    n = [rnd.randint(-3, 3) for _ in range(3)]
    if gm.dot(n, N):
        e = 2.0 ** -rnd.randint(18, 24)
        short = rnd.random() < 0.3
        end = mix(o, (e, w), (rnd.choice([1, 2]) * (e if short else -1), n))
        sg = [mix(o, (e, w), (rnd.randint(1, 3), n)), end]
        if rnd.random() < 0.5:
            sg.reverse()
        x, r = answer(T.intersection_with_segment, f.seg(sg))
        rec.add('graze', x, {'t': t, 'o': o, 'w': w, 'short': short, 'got': [f.back(y) for y in r or []]})
    if u != w:
        e = 2.0 ** -rnd.randint(3, 12)
        sg = [mix(o, (e, u)), mix(o, (e, w))]
        # the cone is exact while the segment does not reach other sides
        if all(abs(y) <= 8 for y in u + w) and e <= 2.0 ** -7:
            x, r = answer(T.intersection_with_segment, f.seg(sg))
            c = f.v(o)
            rec.add('cone', x, {'t': t, 'o': o, 'u': u, 'w': w, 'got': [local(f, c, y, e) for y in r or []]})
    if any(w):
        x, r = answer(T.point_in_triangle, f.v(mix(o, (2.0 ** -rnd.randint(10, 20), w))))
        rec.add('near', x, {'t': t, 'o': o, 'w': w, 'got': int(r or 0)})
    # a tiny triangle at a long segment
    while True:
        v = [[rnd.randint(-2, 2) for _ in range(3)] for _ in range(3)]
        if not gm.degenerate(v):
            break
    d = [rnd.randint(-1, 1) for _ in range(3)]
    if any(d) and f.step not in (0.1, 1e-4):      # exact points
        e = 2.0 ** -rnd.randint(2, 10)
        o = gm.point(rnd)
        x, r = answer(f.tri([mix(o, (e, p)) for p in v]).intersection_with_segment, f.seg([mix(o, (-rnd.randint(3, 8), d)), mix(o, (rnd.randint(3, 8), d))]))
        c = f.v(o)
        rec.add('seg', x, {'t': v, 's': [[-5 * y for y in d], [5 * y for y in d]], 'exact': False, 'got': [local(f, c, y, e) for y in r or []]})


def local(f, c, x, e):
    r = []
    for i in range(3):
        y = (float(x[i]) - c[i]) / f.step / e * gm.K
        r.append(1 << 24 if y != y or abs(y) > 1 << 24 else int(round(y)))
    return r


def execute(s):
    import geom
    rnd = random.Random(s['seed'])
    rec = Rec()
    if s['stage'] == 'small':
        pts = [list(p) for p in itertools.product((0, 1), repeat=3)]
        for t in s['tris']:
            f = gm.Frame(rnd)
            for p, q in itertools.permutations(pts, 2):
                e, r = answer(f.tri(t).intersection_with_segment, f.seg((p, q)))
                rec.add('seg', e, {'t': t, 's': [p, q], 'exact': f.step not in (0.1, 1e-4), 'got': [f.back(x) for x in r or []]})
            for p in pts:
                e, r = answer(f.tri(t).point_in_triangle, f.v(p))
                rec.add('pit', e, {'t': t, 'p': p, 'got': int(r or 0)})
                e, r = answer(f.tri(t).point_in_one_plane, f.v(p))
                rec.add('plane', e, {'t': t, 'p': p, 'got': bool(r)})
        return rec.records()
    for _ in range(s['n']):
        f = gm.Frame(rnd)
        t, u = gm.triangle(rnd), gm.triangle(rnd)
        T = f.tri(t)
        for _ in range(3):
            sg = gm.segment(rnd, t)
            e, r = answer(T.intersection_with_segment, f.seg(sg))
            rec.add('seg', e, {'t': t, 's': sg, 'exact': False, 'got': [f.back(x) for x in r or []]})
        pl, inn = gm.points_of(t)
        for p in (gm.point(rnd), rnd.choice(pl), rnd.choice(inn), rnd.choice(t)):
            e, r = answer(T.point_in_triangle, f.v(p))
            rec.add('pit', e, {'t': t, 'p': p, 'got': int(r or 0)})
            e, r = answer(T.point_in_one_plane, f.v(p))
            rec.add('plane', e, {'t': t, 'p': p, 'got': bool(r)})
        close(rnd, rec, f, t, T, pl, inn)
        k = rnd.randrange(5)
        if k == 0 and len(inn) > 1:         # shares points
            u = [rnd.choice(inn), gm.point(rnd), gm.point(rnd)]
        elif k == 1 and len(pl) > 3:        # the same plane
            u = [rnd.choice(pl) for _ in range(3)]
        elif k == 2:
            u = [t[0], t[1], gm.point(rnd)]
        elif k == 3:
            u = [rnd.choice(t), gm.point(rnd), gm.point(rnd)]
        if not gm.degenerate(u):
            for a, b in ((t, u), (u, t)):
                e, r = answer(f.tri(a).intersection_with_triangle, f.tri(b))
                rec.add('tt', e, {'t': a, 'u': b, 'got': [f.back(x) for x in r or []]})
            e, r = answer(T.in_one_plane, f.tri(u))
            rec.add('planes', e, {'t': t, 'u': u, 'got': bool(r)})
            for w in (u, rnd.sample(t, 3), [t[0], t[1], u[2]], [t[1], u[1], t[0]]):
                e, r = answer(T.__eq__, f.tri(w))
                if not gm.degenerate(w):
                    rec.add('same', e, {'t': t, 'u': w, 'got': bool(r)})

        def measures():
            # the numbers are scaled back to integers' units
            return {'t': t, 'centroid': f.back(T.centroid()), 'area2': f.num(2 * T.area() / f.step ** 2, 100),
                    'normal': [f.num(x, 10000) for x in T.normal_orth().coords_tuple()], 'side': f.num(T.min_side() / f.step, 100)}
        e, r = answer(measures)
        rec.add('measure', e, r)
        ps = [gm.point(rnd) for _ in range(rnd.randint(1, 5))]

        def boxes():
            B = geom.Box.from_points([f.v(p) for p in ps])
            xs = [gm.point(rnd) for _ in range(4)] + [[rnd.choice(ps)[i] for i in range(3)]]
            bs = [[gm.point(rnd), gm.point(rnd)] for _ in range(5)]
            segs = []
            for p, q in bs:
                # a point of the segment known to be in the box
                lo, hi = [[fn(x[i] for x in ps) for i in range(3)] for fn in (min, max)]
                through = any(all(lo[i] * 12 <= p[i] * (12 - k) + q[i] * k <= hi[i] * 12 for i in range(3)) for k in range(13))
                segs.append([p, q, through])
            return {'ps': ps, 'box': [f.back([B.MinX, B.MinY, B.MinZ]), f.back([B.MaxX, B.MaxY, B.MaxZ])],
                    'x': xs, 'inside': [bool(B.is_point_inside(f.v(x))) for x in xs],
                    'bs': bs, 'meets': [bool(B.is_potential_intersect_with_box(geom.Box.from_points([f.v(a), f.v(b)]))) for a, b in bs],
                    'segs': segs, 'seg': [bool(B.is_intersect_with_segment(f.seg(x[:2]))) for x in segs]}
        e, r = answer(boxes)
        if r:
            r['box'] = [[x / gm.K for x in b] for b in r['box']]
            r['box'] = [[int(x) if x == int(x) else 99 for x in b] for b in r['box']]
        rec.add('box', e, r)
    return rec.records()


STAGES = [{'name': 'small', 'module': 'TraceGeom', 'plan': plan_small, 'chunks': 6, 'workers': 7},
          {'name': 'random', 'module': 'TraceGeom', 'plan': plan_random, 'chunks': 7, 'workers': 7}]
