"""C16: the drops tool from files to files."""
import os
import random

import c15
import geometry as gm
import lib

STALL = ['Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ']


def plan(ctx):
    rnd = random.Random(ctx.seed * 13 + 5)
    return [{'seed': rnd.randrange(1 << 30)} for _ in range(2500 if ctx.thorough else 260)]


def source(rnd):
    """A triangle in a plane of two axes with an integer centroid."""
    while True:
        i, v = rnd.randrange(3), rnd.randint(1, 7)
        o = [rnd.randint(0, 5) for _ in range(3)]
        t = [[o[k] + 3 * rnd.randint(0, 1) for k in range(3)] for _ in range(3)]
        for p in t:
            p[i] = v
        if not gm.degenerate(t) and all(sum(p[k] for p in t) % 3 == 0 for k in range(3)):
            return t


def surface(rnd):
    """Separate triangles (each vertex is listed in a zone once), several sources and targets."""
    ts = [(source(rnd), True) for _ in range(rnd.randint(1, 5))] + [(gm.triangle(rnd), False) for _ in range(rnd.randint(0, 6))]
    if rnd.random() < 0.5:      # a wall that catches
        i, v = rnd.randrange(3), rnd.randint(1, 7)
        q = [[0, 0], [8, 0], [8, 8], [0, 8]]
        w = [p[:i] + [v] + p[i:] for p in q]
        ts += [([w[0], w[1], w[2]], False), ([w[2], w[0], w[3]], False)]
    seen, out = set(), []
    for t, s in ts:
        k = frozenset(map(tuple, t))
        if k not in seen:
            seen.add(k)
            out.append((t, s))
    rnd.shuffle(out)
    return out


def read_traj(path, back):
    with open(path) as f:
        ls = f.read().split('\n')
    if ls[:3] != ['# Trajectories file.', 'TITLE="Trajectories"', 'VARIABLES="X", "Y", "Z"'] or ls[-1] != '':
        raise lib.Malformed('head of trajectories')
    i, res = 3, []
    while i < len(ls) - 1:
        if not (ls[i].startswith('ZONE T="') and ls[i + 1].startswith('NODES=') and ls[i + 2].startswith('ELEMENTS=')
                and ls[i + 3:i + 6] == ['DATAPACKING=BLOCK', 'ZONETYPE=FETRIANGLE', 'VARLOCATION=([4-3]=CELLCENTERED)']):
            raise lib.Malformed('head of a trajectory')
        n, e = int(ls[i + 1][6:]), int(ls[i + 2][9:])
        cs = [[float(x) for x in ls[i + 6 + k].split()] for k in range(3)]
        if any(len(c) != n for c in cs) or e != n - 1 or [ls[i + 9 + k] for k in range(e)] != ['%d %d %d' % (k + 1, k + 2, k + 2) for k in range(e)]:
            raise lib.Malformed('rows of a trajectory')
        res.append({'name': ls[i][8:-1], 'pts': [back([c[k] for c in cs]) for k in range(n)]})
        i += 9 + e
    return res


def plan_drag(ctx):
    rnd = random.Random(ctx.seed * 29 + 7)
    return [{'seed': rnd.randrange(1 << 30), 'n': 4} for _ in range(600 if ctx.thorough else 70)]


def execute(s):
    rnd = random.Random(s['seed'])
    if s['stage'] == 'drag':
        recs = []
        for _ in range(s['n']):
            with lib.scratch() as tmp:
                recs.append(c15.drag(rnd, os.path.join(tmp, 'air.dat'), None, None, tmp))
        return recs
    fr = c15.Exact(rnd)
    ts = surface(rnd)
    dt = rnd.choice([1.0, 2.0 ** -8, 2.0 ** -17])
    order = ['T', 'Hw', 'Hi', 'MImp2', 'Beta', 'TauX'] + STALL
    if rnd.random() < 0.25:         # the tool has to add it
        order.remove('MImp2')
    if rnd.random() < 0.7:
        rnd.shuffle(order)
    thr = rnd.choice([0, 1, 3, 5])
    unit = 1e-6 if thr == 1 else rnd.choice([1.0, 1.0, 2.0 ** -10])         # of the amount of water
    faces, vals = [], []
    stalls = rnd.sample(range(1, 40), len(ts))
    for k, (t, src) in enumerate(ts):
        st = rnd.choice([0, thr, rnd.randint(0, thr)])
        if src and rnd.random() < 0.85:
            st = stalls[k] + thr if rnd.random() < 0.8 else thr
        elif rnd.random() < 0.2:
            st = -rnd.randint(1, 20)
        v = [rnd.randint(-3, 3) for _ in range(3)]
        if src and rnd.random() < 0.5:      # aims at another face
            u = rnd.choice(ts)[0]
            c = [sum(p[i] for p in t) // 3 for i in range(3)]
            g = rnd.choice(gm.points_of(u)[1])
            n = rnd.randint(1, 3)
            w = [(g[i] - c[i]) // n for i in range(3)]
            v = [max(-4, min(4, x)) for x in w]
        if rnd.random() < 0.04:
            v = [0, 0, 0]
        d = {'T': rnd.uniform(200, 300), 'Hw': 0.25 * k, 'Hi': rnd.choice([0.0, 1.5]), 'MImp2': rnd.choice([0.0, 0.0, 1e9 + k]),
             'Beta': rnd.random(), 'TauX': rnd.uniform(-1, 1), 'Stall': st * unit, 'StallD': 1e30,
             'StallVX': v[0] * fr.step / dt, 'StallVY': v[1] * fr.step / dt, 'StallVZ': v[2] * fr.step / dt}
        if 'MImp2' not in order:
            d['MImp2'] = 0.0
        vals.append(d)
        faces.append({'s': st, 'v': v})
    nz = rnd.randint(1, min(3, len(ts)))
    zone_of = sorted(rnd.randrange(nz) for _ in ts)
    zone_of = [sorted(set(zone_of)).index(z) for z in zone_of]
    zones = []
    for z in range(max(zone_of) + 1):
        fs = [i for i in range(len(ts)) if zone_of[i] == z]
        pts = list({tuple(p) for i in fs for p in ts[i][0]})
        rnd.shuffle(pts)
        zones.append({'name': 'wing %d' % z, 'xyz': [fr.v(p).coords_tuple() for p in pts],
                      'data': [[vals[i][v] for i in fs] for v in order],
                      'tris': [[pts.index(tuple(p)) for p in ts[i][0]] for i in fs]})
    model = {'title': rnd.choice(['grid', 'cyl 300']), 'vars': order, 'zones': zones}
    air = [gm.point(rnd) for _ in range(rnd.randint(1, 5))]
    if rnd.random() < 0.7:
        air += [[0, 0, 0], [8, 8, 8]]
    dist, mx = rnd.choice([0, 1, 1, 2]), rnd.choice([0, 1, 2, 3, 5, 8, 50])
    keep = [v for v in order if v in ('Beta', 'TauX')]

    def proj(z, k):
        d = {v: z['data'][a][k] for a, v in enumerate(m['vars'])}
        return d
    with lib.scratch() as tmp:
        gf, af, of = [os.path.join(tmp, n) for n in ('stall.dat', 'air.dat', 'out.dat')]
        lib.write_dat(gf, model)
        c15.air_file(af, fr, air, [[rnd.uniform(-9, 9) for _ in range(3)] for _ in air], rnd)
        argv = [gf, af, of, '-d', repr(dist * fr.step), '-t', repr(dt), '-m', mx] + (['-s', repr(thr * unit)] if thr != 1 or rnd.random() < 0.3 else [])
        recs = []
        if rnd.random() < 0.15:
            bad = list(argv)
            k = rnd.randrange(2)
            bad[k] = os.path.join(tmp, 'nothing.dat')
            o = lib.run_script('drops.py', bad)
            recs.append(dict(o, ev='refuse', wrote=os.path.exists(of)))
        o = lib.run_script('drops.py', argv)
        rec = dict(o, ev='drops', d=dist, thr=thr, max=mx, air=air, vars=order, title=model['title'],
                   zones=[{'name': z['name'], 'faces': len(z['tris'])} for z in zones], out={}, traj=[])
        tok = lib.tok
        for f, d, (t, _) in zip(faces, vals, ts):
            f.update(t=t, p=[';'.join(map(tok, fr.v(p).coords_tuple())) for p in t], other=[tok(d[v]) for v in keep], imp=tok(d['MImp2']))
        rec['faces'] = faces
        recs.append(rec)
        if o['exc']:
            return recs
        try:
            m = lib.parse_dat(of)
            out = {'title': m['title'], 'vars': m['vars'], 'zones': [{'name': z['name'], 'faces': len(z['tris'])} for z in m['zones']], 'faces': []}
            for z in m['zones']:
                for k, t in enumerate(z['tris']):
                    d = proj(z, k)
                    mi = d.get('MImp2', 0.0)
                    out['faces'].append({'t': [';'.join(map(tok, z['xyz'][a])) for a in t], 'other': [tok(d[v]) for v in keep if v in d],
                                         'imp': tok(mi), 'zero': all(d.get(v) == 0.0 for v in ('T', 'Hw', 'Hi')),
                                         'inv': [fr.num(200 * f['s'] * unit / mi / fr.step ** 2, 1) if mi > 0 else 0 for f in faces]})
            rec['out'], rec['traj'] = out, read_traj(of + '.tr.dat', fr.back)
        except (lib.Malformed, ValueError, IndexError, OSError) as e:
            rec['exc'] = 'output: %s' % e
    return recs


STAGES = [{'name': 'tool', 'module': 'TraceDrops', 'plan': plan, 'chunks': 7, 'workers': 7},
          {'name': 'drag', 'module': 'TraceFly', 'plan': plan_drag, 'chunks': 7, 'workers': 7}]
