"""C24: zones moved apart from the mean point (Grid.move_from_mean_point)."""
import os
import random

import lib

MODEL = 'SPECIFICATION Spec\nINVARIANTS Closed MeanKept OneIsWay\nCHECK_DEADLOCK FALSE\nCONSTANTS Max = %d\n Steps = %d\n'


def plan(ctx):
    ctx.model('ExplodeModel', MODEL % ((4, 2) if ctx.thorough else (2, 2)), workers=6)
    rnd = random.Random(ctx.seed * 47 + 3)
    return [{'seed': rnd.randrange(1 << 30)} for _ in range(8000 if ctx.thorough else 300)]


def execute(s):
    import gsu
    rnd = random.Random(s['seed'])
    step = 2.0 ** rnd.randint(-20, 4)
    lat = lib.Lattice(step=step, origin=(0, 0, 0) if rnd.random() < 0.5 else (512, 512, 512))
    mesh = lib.random_mesh(rnd)
    n = len(mesh[1])
    nz = rnd.randint(1, min(n, 5))
    zo = [i * nz // n for i in range(n)] if rnd.random() < 0.4 else [rnd.randrange(nz) for _ in range(n)]
    zo[:nz] = range(nz)
    m = lib.zoned_model(mesh, zo, lat, rnd=rnd, shuffle=True)
    o = lat.origin
    zs = [[[round(x / step) + o[i] for i, x in enumerate(p)] for p in z['xyz']] for z in m['zones']]
    kn, kd = rnd.choice([(1, 10), (1, 2), (1, 1), (3, 1), (-1, 2), (1, 4), (7, 10), (0, 1)])
    p = rnd.choice([1, 1, 2])
    N = sum(map(len, zs))
    rec = {'ev': 'explode', 'zs': zs, 'kn': kn, 'kd': kd, 'p': p}
    with lib.scratch() as d:
        fn = os.path.join(d, 'a.dat')
        lib.write_dat(fn, m)
        g = gsu.Grid()

        def run():
            g.load(fn, is_merge_same_nodes=False)
            rec['before'] = lib.project(g, lambda p: 0)
            for _ in range(p):
                if (kn, kd) == (1, 10) and rnd.random() < 0.5:
                    g.move_from_mean_point()
                else:
                    g.move_from_mean_point(kn / kd)
            rec['after'] = lib.project(g, lambda p: 0)
            way = []
            for z, old in zip(g.Zones, m['zones']):
                sc = N * len(z.Nodes) * kd ** p / step
                way.append([[round((nd.P[c] - q[c]) * sc) for c in range(3)] for nd, q in zip(z.Nodes, old['xyz'])])
            rec['way'] = way
            rec['mem'] = [[[lib.tok(nd.P[c]) for nd in f.Nodes for c in range(3)] for f in z.Faces] for z in g.Zones]
            g.store(fn)
            st = lib.parse_dat(fn)
            rec['stored'] = [[[lib.tok(z['xyz'][a][c]) for a in t for c in range(3)] for t in z['tris']] for z in st['zones']]
        r, _ = lib.call(run)
        rec['exc'] = r['exc']
    return [rec]


STAGES = [{'name': 'explosions', 'module': 'TraceExplode', 'plan': plan, 'chunks': 7}]
