"""C15: flights of droplets."""
import json
import math
import os
import random

import geometry as gm
import lib

MODEL = 'SPECIFICATION Spec\nINVARIANTS Agree OnlyOk Bound Contained ContainedStrict Shown\n%sCHECK_DEADLOCK FALSE\nCONSTANTS Closed = %s Some = %d\n'


def plan_model(ctx):
    """Flights of the model."""
    ctx.model('FlyModel', MODEL % ('PROPERTY Ends\n', 'TRUE', 0), workers=4)
    if ctx.thorough:
        ctx.model('FlyModel', MODEL % ('PROPERTY Ends\n', 'FALSE', 0), workers=4)
    beh = []
    for closed, n in (('FALSE', 3000 if ctx.thorough else 300), ('TRUE', 800 if ctx.thorough else 80)):
        beh += ctx.model('FlyModel', MODEL % ('', closed, n), args=['-seed', str(ctx.seed)], workers=1)
    by = {}
    for b in beh:
        by.setdefault(json.dumps(b['f'], sort_keys=True), []).append({'n': b['n'], 'o': b['o'], 'face': b['face']})
    items = [{'f': json.loads(k), 'exp': v} for k, v in sorted(by.items())]
    return [{'seed': ctx.seed + i, 'items': items[i:i + 10]} for i in range(0, len(items), 10)]


def plan_random(ctx):
    rnd = random.Random(ctx.seed * 7 + 3)
    return [{'seed': rnd.randrange(1 << 30), 'n': 8} for _ in range(3000 if ctx.thorough else 150)]


def plan_drag(ctx):
    rnd = random.Random(ctx.seed * 11 + 3)
    return [{'seed': rnd.randrange(1 << 30), 'n': 4} for _ in range(3000 if ctx.thorough else 150)]


class Exact(gm.Frame):
    """Frames whose doubles are exact."""
    def __init__(self, rnd, slow=False):
        super().__init__(rnd)
        while self.step in (0.1, 1e-4):
            super().__init__(rnd)
        if slow and rnd.random() < 0.15:     # a slow droplet
            self.step = 2.0 ** rnd.choice([-36, -44])
            self.origin = tuple(self.step * rnd.randint(-10, 10) for _ in range(3))
        # no coordinate is zero, so that the rest of the drag is below the accuracy of doubles
        self.origin = tuple(x + self.step / 2 for x in self.origin)


def air_file(path, frame, air, wind, rnd):
    """The air grid among other zones."""
    def zone(kind, n, e):
        pad = ['a'] * (3 if kind == 'ET=FEBRICK' else 2)
        f.write('ZONE %s\n' % ' '.join([kind] + pad + ['N=', str(n), 'E', '=', str(e)]))
    more = rnd.choice([[], [], ['Q'], ['Q', 'R']])
    with open(path, 'w') as f:
        f.write('TITLE= "air"\nVARIABLES= %s\n' % ', '.join('"%s"' % v for v in ['X', 'Y', 'Z', 'P', 'T', 'U', 'V', 'W'] + more))
        cut = sorted(rnd.randint(0, len(air)) for _ in range(rnd.choice([0, 0, 1])))
        bounds = list(zip([0] + cut, cut + [len(air)]))
        for i, j in bounds:
            if rnd.random() < 0.4:      # a surface zone, its points do not belong to the air
                n, e = rnd.choice([(3, 2), (3, 2), (4, 1), (60, 90), (200, 300)])
                zone('ET=FETRIANGLE', n, e)
                for _ in range(n):
                    f.write('%s 0 0 1000 1000 1000\n' % ' '.join(map(repr, frame.v(gm.point(rnd, 30)).coords_tuple())))
                f.write('1 2 3\n' * e)
            if rnd.random() < 0.2:      # a part of another file
                f.write('TITLE= "more"\nVARIABLES= %s\n' % ', '.join('"%s"' % v for v in ['X', 'Y', 'Z', 'P', 'T', 'U', 'V', 'W'] + more))
            e = rnd.choice([0, 1, 2, 3, 150])
            zone('ET=FEBRICK', j - i, e)
            for k in range(i, j):
                f.write(' '.join(map(repr, list(frame.v(air[k]).coords_tuple()) + [-7.0, 273.0] + [float(x) for x in wind[k]] + [1e6] * len(more))) + '\n')
            for _ in range(e):
                f.write('1 2 3 4 5 6 7 8\n')


def random_flight(rnd):
    k = rnd.randrange(4)
    n = rnd.choice([1, 2, 4, 8])
    ts = [gm.triangle(rnd) for _ in range(n)]
    if k == 0:      # small triangles
        for t in ts:
            o, c = t[0], t[1:]
            t[1:] = [[max(0, min(8, o[i] + (p[i] - o[i]) // 3)) for i in range(3)] for p in c]
        ts = [t for t in ts if not gm.degenerate(t)] or [gm.triangle(rnd)]
    air = [gm.point(rnd) for _ in range(rnd.randint(1, 6))]
    if rnd.random() < 0.6:
        air += [[0, 0, 0], [8, 8, 8]]
    v = [rnd.randint(-3, 3) for _ in range(3)]
    start = gm.point(rnd)
    if rnd.random() < 0.5:      # aims at a triangle
        t = rnd.choice(ts)
        pl, inn = gm.points_of(t)
        c, b = rnd.choice(inn), rnd.randint(1, 3)
        s = [c[i] - b * v[i] for i in range(3)]
        if all(0 <= x <= 8 for x in s):
            start = s
    if rnd.random() < 0.05:
        v = [0, 0, 0]
    return {'tris': ts, 'air': air, 'start': start, 'v': v, 'max': rnd.choice([0, 1, 2, 3, 4, 5, 8, 20])}


class Cloud:
    """A surface: the triangles refer to numbers of faces."""
    def __init__(self, frame, tris):
        import geom
        self.T = [frame.tri(t) for t in tris]
        for i, t in enumerate(self.T):
            t.BackRef = i + 1
        self.cloud = geom.TrianglesCloud(list(self.T))


def execute(s):
    import drops
    import geom
    rnd = random.Random(s['seed'])
    recs = []
    with lib.scratch() as d:
        path = os.path.join(d, 'air.dat')
        if s['stage'] == 'drag':
            return [drag(rnd, path, drops, geom) for _ in range(s['n'])]
        for it in s.get('items') or [{'f': random_flight(rnd), 'exp': []} for _ in range(s['n'])]:
            f = it['f']
            fr = Exact(rnd, True)
            dt = rnd.choice([1.0, 2.0 ** -8, 2.0 ** -17])
            wind = [[rnd.uniform(-50, 50) for _ in range(3)] for _ in f['air']]
            air_file(path, fr, f['air'], wind, rnd)

            def fly():
                sp = drops.read_vel_field_from_file(path)
                v = geom.Vect(*[fr.step / dt * x for x in f['v']])
                out, face, tr = sp.fly(fr.v(f['start']), v, 1e100, dt, Cloud(fr, f['tris']).cloud, f['max'])
                return {'out': out, 'face': face or 0, 'pts': [fr.back(p) for p in tr.Points]}
            o, r = lib.call(fly)
            recs.append(dict(o, ev='fly', f=f, exp=it['exp'], **(r or {'out': '', 'face': 0, 'pts': []})))
    return recs


def tool_flight(fr, d, path, start, v, dia, dt, mx):
    """The same flight in the drops tool: the droplet leaves a face that is far away."""
    import c16
    x, y, z = start
    t = [[x - 1, y - 1, z - 20], [x + 2, y - 1, z - 20], [x - 1, y + 2, z - 20]]
    gf, of = os.path.join(d, 'stall.dat'), os.path.join(d, 'out.dat')
    vals = {'T': 280.0, 'Hw': 0.0, 'Hi': 0.0, 'MImp2': 0.0, 'Stall': 1.0, 'StallD': dia, 'StallVX': v[0], 'StallVY': v[1], 'StallVZ': v[2]}
    lib.write_dat(gf, {'title': 'far', 'vars': list(vals), 'zones': [
        {'name': 'one', 'xyz': [fr.v(p).coords_tuple() for p in t], 'data': [[vals[n]] for n in vals], 'tris': [[0, 1, 2]]}]})
    o = lib.run_script('drops.py', [gf, path, of, '-d', repr(20 * fr.step), '-t', repr(dt), '-s', '0.5', '-m', mx])
    if o['exc']:
        raise RuntimeError(o['exc'])
    return c16.read_traj(of + '.tr.dat', lambda p: p)[0]['pts']


def drag(rnd, path, drops, geom, tool=None):
    """A droplet that feels the wind, no surface near."""
    air = [[0, 0, 0], [8, 8, 8]] + [gm.point(rnd) for _ in range(rnd.randint(1, 8))]
    air = [p for i, p in enumerate(air) if p not in air[:i]]
    wind = [[rnd.randint(-4, 4) for _ in range(3)] for _ in air]
    start = [rnd.randint(2, 6) for _ in range(3)]
    v4 = [rnd.randint(-4, 4) for _ in range(3)]
    if v4 == [0, 0, 0] and rnd.random() < 0.8:
        v4 = [1, 2, 0]
    if rnd.random() < 0.15:         # drifts with the wind
        wind = [list(v4) for _ in wind]
    fr = Exact(rnd)
    k = rnd.random()
    if k < 0.1:         # a fine grid
        fr.step = 2.0 ** -26
        fr.origin = tuple(fr.step * (rnd.randint(-10, 10) + 0.5) for _ in range(3))
    elif k < 0.2:       # far from the origin
        fr.origin = tuple(fr.step * (rnd.choice([0, 1 << 26, -(1 << 26)]) + 0.5) for _ in range(3))
    mx = rnd.randint(3, 7)
    re1 = rnd.choice([0.3, 1, 4, 20, 60, 100, 200, 400, 1500])       # Reynolds number of the displacement 1
    q = 100 if re1 < 50 else 1

    def cd(re):
        return 24 / re * (1 + 0.166 * re ** 0.33) if re <= 350 else 0.178 * re ** 0.217
    lu = min(rnd.uniform(0.15, 0.45) / cd(re1 * 1.5) / 1.5, 0.9 / cd(re1 * 3.5) / 3.5)
    dia = 0.75 * 1.292e-3 * fr.step / lu
    dt = fr.step * dia / (1.736e-5 * re1)
    air_file(path, fr, air, [[fr.step / dt * x / 4 for x in w] for w in wind], rnd)
    kd = 262144

    def back(p):
        r = [(float(p[i]) - fr.origin[i]) / fr.step * kd for i in range(3)]
        return [1 << 22 if x != x or abs(x) > 1 << 22 else int(round(x)) for x in r]

    def fly():
        if tool:
            return {'out': '?', 'pts': [back(p) for p in tool_flight(fr, tool, path, start, [fr.step / dt * x / 4 for x in v4], dia, dt, mx)]}
        sp = drops.read_vel_field_from_file(path)
        far = Cloud(fr, [[[20, 20, 20], [21, 20, 20], [20, 21, 20]]])
        out, face, tr = sp.fly(fr.v(start), geom.Vect(*[fr.step / dt * x / 4 for x in v4]), dia, dt, far.cloud, mx)
        return {'out': out, 'pts': [back(p) for p in tr.Points]}
    o, r = lib.call(fly)
    return dict(o, ev='drag', air=air, wind=wind, start=start, v4=v4, max=mx, q=q, ru=int(round(10 * q * re1)), lu=int(round(1e5 * lu)),
                **(r or {'out': '', 'pts': []}))


STAGES = [{'name': 'model', 'module': 'TraceFly', 'plan': plan_model, 'chunks': 4, 'workers': 7},
          {'name': 'random', 'module': 'TraceFly', 'plan': plan_random, 'chunks': 7, 'workers': 7},
          {'name': 'drag', 'module': 'TraceFly', 'plan': plan_drag, 'chunks': 7, 'workers': 7}]
