"""C25: vectors, angles, order, volumes."""
import itertools
import math
import random

import geometry as gm
import lib
from c14 import Rec, answer

MODEL = 'SPECIFICATION Spec\nINVARIANTS Lagrange Orthogonal Order Segment Prism Cyclic Layer\nCHECK_DEADLOCK FALSE\nCONSTANT Max = %d\n'
W = 4
TURNS = [(p, s) for p in itertools.permutations(range(3)) for s in itertools.product((1, -1), repeat=3)
         if (1 if p in ((0, 1, 2), (1, 2, 0), (2, 0, 1)) else -1) * s[0] * s[1] * s[2] == 1]


def plan(ctx):
    ctx.model('VectorModel', MODEL % (3 if ctx.thorough else 2), workers=7, timeout=1500)
    rnd = random.Random(ctx.seed * 41 + 3)
    return [{'seed': rnd.randrange(1 << 30), 'n': 30} for _ in range(6000 if ctx.thorough else 450)]


def vec(rnd, m=9):
    return [rnd.choice([0, rnd.randint(-m, m)]) if rnd.random() < 0.3 else rnd.randint(-m, m) for _ in range(3)]


def small(rnd):
    while True:
        v = vec(rnd, 3)
        if any(v):
            return v


def whole(x):
    """An integer or a number out of the scale."""
    x = float(x)
    return int(x) if x == x and abs(x) < 1 << 28 and x == int(x) else 1 << 29


def near(x, eps=1e-6):
    x = float(x)
    return round(x) if x == x and abs(x) < 1 << 28 and abs(x - round(x)) <= eps * max(1, abs(x)) else 1 << 29


def num(x):
    x = float(x)
    return round(x) if x == x and abs(x) < 1 << 28 else 1 << 29


def execute(s):
    import geom
    import geom.utils
    rnd = random.Random(s['seed'])
    rec = Rec()
    V = geom.Vect

    def add(ev, fn):
        e, r = answer(fn)
        rec.add(ev, e, r)

    for _ in range(s['n']):
        st = rnd.choice([1.0, 2.0 ** -20, 2.0 ** -6, 2.0 ** 13, 2.0 ** -40, 2.0 ** 60])

        def v(p, k=st):
            return V(*[x * k for x in p])

        def back(p, k=st):
            return [whole(x / k) for x in (p.X, p.Y, p.Z)]
        a, b, k, at = vec(rnd), vec(rnd), rnd.choice([-8, -2, -1, 1, 2, 3, 4, 5, 16]), rnd.randint(1, 3)

        def algebra():
            x, y = v(a), v(b)
            r = {'a': a, 'b': b, 'k': k, 'at': at, 'sum': back(x + y), 'diff': back(x - y), 'mul': back(x * k), 'rmul': back(float(k) * x),
                 'div': back((x * k) / k) if k in (-8, -2, -1, 1, 2, 4, 16) else [near(c / st, 1e-12) for c in ((x * k) / k).Coords],
                 'dot': whole(V.dot_product(x, y) / st / st), 'cross': back(V.cross_product(x, y), st * st), 'mod2': whole(x.mod2() / st / st),
                 'middle2': back(V.middle_point(x, y), st / 2),
                 'forms': [[whole(c / st) for c in f] for f in (x.coords_tuple(), x.coords_list(), x.coords_as_np(), [x[0], x[1], x[2]], V.from_iterable(x.coords_list()).Coords)]}
            r['kept'] = back(x) == a and back(y) == b
            if rnd.random() < 0.5:
                x[at - 1] = y[at - 1]
            else:
                setattr(x, 'XYZ'[at - 1], getattr(y, 'XYZ'[at - 1]))
            r['set'] = back(x)
            r['kept'] = r['kept'] and back(y) == b
            return r
        add('algebra', algebra)

        c, d = vec(rnd), vec(rnd)
        if rnd.random() < 0.3:
            d = [x + rnd.choice([0, 0, 1]) for x in c]
        r = rnd.choice([1, 5, 9, 11, 13, 15, 37, 101, 205])

        def metric():
            x, y = v(c), v(d)
            return {'a': c, 'b': d, 'r': r, 'dist': num(x.dist_to(y) / st * 100), 'mod': num(x.mod() / st * 100), 'near': bool(x.is_near(y, st * r / 10)),
                    'same': bool(v(c, 1.0) == v(d, 1.0))}
        if 100 * sum((x - y) ** 2 for x, y in zip(c, d)) != r * r:
            add('metric', metric)
        if any(a):
            add('orth', lambda: {'a': a, 'orth': [num(x * 10000) for x in v(a).orth().coords_tuple()]})

        # order, points differ by the noise below the tolerance
        ps = [vec(rnd, 2) for _ in range(rnd.randint(1, 7))]
        ps += [list(rnd.choice(ps)) for _ in range(rnd.randint(0, 2))]
        sc = rnd.choice([1.0, 0.125, 2.0 ** -20])

        def noisy(p):
            return V(*[x * sc + rnd.choice([0, 0, 2e-11, -2e-11, 1e-12]) for x in p])

        def order():
            vs = [noisy(p) for p in ps]
            return {'ps': ps, 'order': [next(i for i, x in enumerate(vs) if x is y) + 1 for y in sorted(vs)]}
        add('sorted', order)
        p, q = rnd.choice(ps), rnd.choice(ps)
        add('less', lambda: {'a': p, 'b': q, 'less': bool(noisy(p) < noisy(q))})

        f = gm.Frame(rnd)

        def on():
            return {'a': sa, 'b': sb, 'p': sp, 'got': bool(V.point_on_vector(f.v(sa), f.v(sb), f.v(sp)))}
        sa, sb = gm.point(rnd), gm.point(rnd)
        g = math.gcd(*[y - x for x, y in zip(sa, sb)])
        for sp in (gm.point(rnd), rnd.choice([sa, sb]), [x + (y - x) // max(g, 1) * rnd.randint(-1, g + 1) for x, y in zip(sa, sb)]):
            if sa != sb:
                add('on', on)

        dg = rnd.randint(0, 10)
        nn = [rnd.randint(-10 ** rnd.randint(0, 8), 10 ** rnd.randint(0, 8)) for _ in range(3)]

        def rounded():
            x = V(*[(y + rnd.uniform(-0.4, 0.4)) / 10.0 ** dg for y in nn])
            t = x.rounded_coords_tuple(dg)
            before = x.coords_tuple()
            same = before == x.coords_tuple()
            x.round_vect(dg)
            ok = all(y == float('%de-%d' % (z, dg)) for y, z in zip(t, nn)) and t == x.coords_tuple()
            return {'n': nn, 'tuple': [num(y * 10 ** dg) for y in t], 'vect': [num(y * 10 ** dg) for y in x.coords_tuple()], 'exact': ok and same}
        add('round', rounded)

        # angles
        def angle():
            x, y = v(u1, s1), v(u2, s2)
            return {'a': u1, 'b': u2, 'deg': num(V.get_angle_in_deg(x, y) * 1000), 'rad': num(V.get_angle_in_rad(x, y) * 1e5), 'cos': num(V.angle_cos(x, y) * 1000)}
        if len([1 for x in rec.m if x[0] == 'angle']) < 2:
            for _ in range(2):
                s1, s2 = [rnd.choice([1.0, 0.1, 1.0 / 3, 2.0 ** -30, 1e5, 1e-7]) for _ in range(2)]
                u1, u2 = small(rnd), small(rnd)
                k2 = rnd.random()
                if k2 < 0.25:
                    u2 = [rnd.choice([-1, 1]) * x for x in u1] if k2 < 0.1 else [x * (1 if k2 < 0.18 else -1) for x in u1]
                elif k2 < 0.35:
                    w = gm.cross(u1, u2)
                    u2 = w if any(w) and max(map(abs, w)) <= 3 else u2
                add('angle', angle)
        t = gm.triangle(rnd)
        cr = rnd.choice([rnd.randint(1, 180), rnd.randint(60, 100), 90])
        # rounding decides at 90 degrees in a frame that is not exact
        if not (cr == 90 and f.step in (0.1, 1e-4)):
            add('corners', lambda: {'t': t, 'k': cr, 'got': bool(f.tri(t).all_corners_smaller(cr))})
        us = [gm.triangle(rnd, 3) for _ in range(rnd.randint(0, 6))]
        ax = rnd.randrange(3)
        f2 = gm.Frame(rnd)

        def axis():
            ts = [f2.tri(x) for x in us]
            res = geom.Triangle.sorting_by_the_selected_axis(list(ts), ax)
            return {'ts': us, 'axis': ax + 1, 'order': [next(i for i, x in enumerate(ts) if x is y) + 1 for y in res]}
        if f2.step not in (0.1, 1e-4):
            add('axis', axis)
        # a triangle of the same area
        n3 = rnd.randint(-3, 3)
        t2 = [t[0], t[1], [z + n3 * (y - x) for x, y, z in zip(*t)]]

        def quality():
            x, y = f.tri(t).is_good(), f.tri(t2).is_good()
            return {'t': t, 'u': t2, 'cmp': 0 if math.isclose(x, y, rel_tol=1e-9) else 1 if x > y else -1}
        add('quality', quality)

        # volumes
        ts4 = [gm.point(rnd) for _ in range(4)]
        u3 = f.step ** 3
        add('tetra', lambda: {'p': ts4, 'v': near(6 * geom.utils.tetrahedron_volume(*[f.v(x) for x in ts4]) / u3, 1e-5)})
        k3 = rnd.randrange(4)
        sh = [gm.sub(gm.point(rnd, 3), [1, 1, 1])] * 3
        if k3 == 0:
            nrm = gm.cross(gm.sub(t[1], t[0]), gm.sub(t[2], t[0]))
            m = max(map(abs, nrm))
            sh = [[rnd.randint(0, 2) * (1 if x > 0 else -1 if x < 0 else 0) for x in nrm] for _ in range(3)] if m else sh
        elif k3 == 1:
            sh = [gm.sub(gm.point(rnd, 4), [2, 2, 2]) for _ in range(3)]
        elif k3 == 2:
            sh = [[0, 0, 0]] * 3
        nt = [[x + y for x, y in zip(p, d)] for p, d in zip(t, sh)]
        add('moved', lambda: {'t': t, 'n': nt, 'v': near(6 * geom.utils.displaced_triangle_volume(*[f.v(x) for x in t + nt]) / u3, 1e-5)})

        while True:
            z = rnd.randint(-5, 5)
            lt = [[rnd.randint(-5, 5), rnd.randint(-5, 5), z] for _ in range(3)]
            if gm.cross(gm.sub(lt[1], lt[0]), gm.sub(lt[2], lt[0]))[2] > 0:
                break
        lu = [[rnd.randint(-6, 6), rnd.randint(-6, 6), W] for _ in range(3)]
        if rnd.random() < 0.2:
            lu = [lu[0]] * 3
        turn = rnd.choice(TURNS)

        def layer():
            def tv(p, k):
                return V(*[turn[1][i] * p[turn[0][i]] * k for i in range(3)])
            ks = [rnd.choice([1.0, 0.25, 8.0]) for _ in range(3)]
            ca, cb, cc = geom.utils.prizmatoid_volume_coefs(*([tv(p, st) for p in lt] + [tv(p, k) for p, k in zip(lu, ks)] + [tv((0, 0, 1), 1.0)]))
            return {'t': lt, 'u': lu, 'a2': near(2 * ca / st / st), 'b4': near(4 * W * cb / st), 'c6': near(6 * W * W * cc)}
        add('layer', layer)
    return rec.records()


STAGES = [{'name': 'random', 'module': 'TraceVectors', 'plan': plan, 'chunks': 7, 'workers': 7}]
