"""C18: transfer of values between grids (interpolate.py, lazurit_add_beta_from_ansys.py)."""
import os
import random

import c17
import geometry as gm
import lib


def plan(ctx):
    rnd = random.Random(ctx.seed * 19 + 7)
    return [{'seed': rnd.randrange(1 << 30)} for _ in range(6000 if ctx.thorough else 300)] + [
        {'seed': rnd.randrange(1 << 30), 'big': True} for _ in range(200 if ctx.thorough else 16)]


def grid_file(rnd, mesh, fr, variables):
    """(file model, faces in the order of the file)"""
    pts, tris = mesh
    nz = rnd.randint(1, 3)
    zone_of = [rnd.randrange(nz) for _ in tris]
    zones, faces, zs, ts = [], [], [], []
    for z in range(nz):
        fs = [i for i in range(len(tris)) if zone_of[i] == z]
        if not fs:
            continue
        rnd.shuffle(fs)
        ps = list({a for i in fs for a in tris[i]})
        rnd.shuffle(ps)
        data = [[rnd.choice([0.0, rnd.uniform(-1e3, 1e3)]) for _ in fs] for _ in variables]
        name = 'zone %d' % z
        zones.append({'name': name, 'xyz': [fr.v(pts[a]).coords_tuple() for a in ps], 'data': data, 'tris': [[ps.index(a) for a in tris[i]] for i in fs]})
        for k, i in enumerate(fs):
            faces.append({'c': [sum(pts[a][x] for a in tris[i]) for x in range(3)], 'd': {v: lib.tok(data[j][k]) for j, v in enumerate(variables)}})
            ts.append([';'.join(map(lib.tok, fr.v(pts[a]).coords_tuple())) for a in tris[i]])
        zs.append({'name': name, 'faces': len(fs)})
    return {'title': 'a grid', 'vars': list(variables), 'zones': zones}, faces, zs, ts


def surface(rnd):
    k = rnd.randrange(13) % 4
    if k == 3 and rnd.random() < 0.5:
        n = rnd.choice([8, 12])
        return c17.sheet(rnd, lambda i, j: (i * j) % 3, n, n)
    if k in (0, 3):
        return c17.plate(rnd)
    if k == 1:
        return c17.curved(rnd)
    while True:     # scattered triangles, no two nodes coincide
        pts = random.Random(rnd.random()).sample([[x, y, z] for x in range(9) for y in range(9) for z in range(9)], 3 * rnd.randint(1, 12))
        tris = [(3 * i, 3 * i + 1, 3 * i + 2) for i in range(len(pts) // 3)]
        if all(gm.cross(gm.sub(pts[b], pts[a]), gm.sub(pts[c], pts[a])) != [0, 0, 0] for a, b, c in tris):
            return pts, tris


def execute(s):
    rnd = random.Random(s['seed'])
    fr = gm.Frame(rnd)
    k = rnd.random()
    if k < 0.1:         # a fine grid
        fr.step = 2.0 ** -17
        fr.origin = tuple(fr.step * rnd.randint(-50, 50) for _ in range(3))
    elif k < 0.2:       # far from the origin
        fr.origin = tuple(fr.step * rnd.choice([0, 1 << 22, -(1 << 22)]) for _ in range(3))
    beta = rnd.random() < 0.4
    taken = ['Beta'] if beta else ['T', 'Hw']
    others = ['HTC', 'Hi', 'TauX']

    def variables(need):
        vs = taken * need + rnd.sample(others, rnd.randint(0, 3)) + ([] if beta else ['Beta'] * rnd.randint(0, 1)) + (['T'] if beta else [])
        rnd.shuffle(vs)
        return vs
    sv = variables(1)
    dv = variables(0 if rnd.random() < 0.15 else 1) or ['Hi']
    a = surface(rnd)
    if s.get('big'):
        n = rnd.choice([13, 17, 18])
        h = rnd.choice([1, 2, 5])
        a = c17.sheet(rnd, lambda i, j: (i * i + j * h) % 7, n, n)
    b = a if not s.get('big') and rnd.random() < 0.15 else surface(rnd)
    if s.get('big'):    # all over the source
        w = rnd.randint(0, n - 8), rnd.randint(0, n - 8), 0
        b = [[p[i] + w[i] for i in range(3)] for p in b[0]], b[1]
    elif rnd.random() < 0.15:     # far from the source
        w = [rnd.choice([0, 1, -1]) * rnd.randint(1000, 5000) for _ in range(3)]
        b = [[p[i] + w[i] for i in range(3)] for p in b[0]], b[1]
    sm, src, _, _ = grid_file(rnd, a, fr, sv)
    dm, dst, zs, ts = grid_file(rnd, b, fr, dv)
    recs = []
    with lib.scratch() as tmp:
        stem = rnd.choice(['target', 'target', 'wing.v2', 'a_000000000100', 'x.dat'])
        sf, df, of = [os.path.join(tmp, x) for x in (rnd.choice(['source.dat', 's.dat.dat', '1.dat']), stem + '.dat', rnd.choice(['out.dat', 'o.x.dat', 'result 1.dat']))]
        lib.write_dat(sf, sm)
        lib.write_dat(df, dm)
        keep = open(sf).read(), open(df).read()
        extra = ['-v'] * rnd.randint(0, 1)

        def argv(sf, df, of):
            return [df, sf, of] if beta else [sf, df] + (['-res', of] if of else []) + extra
        tool = os.path.join('convert', 'lazurit_add_beta_from_ansys.py' if beta else 'interpolate.py')
        if rnd.random() < 0.15:
            none = os.path.join(tmp, 'none.dat')
            txt = os.path.join(tmp, rnd.choice(['source.txt', 'a.dat.txt', 'a.data', 'adat']))
            lib.write_dat(txt, sm)
            bad = rnd.choice([(none, df, of), (sf, none, of)] + ([] if beta else [(txt, df, of), (sf, txt, of), (sf, df, of[:-4] + rnd.choice(['.txt', '.dat.bak', '.data', '_dat']))]))
            before = sorted(os.listdir(tmp))
            r = lib.run_script(tool, argv(*bad))
            recs.append({'ev': 'refuse', 'exc': r['exc'], 'written': [x for x in sorted(os.listdir(tmp)) if x not in before]})
        if not beta and rnd.random() < 0.3:
            of = None
        r = lib.run_script(tool, argv(sf, df, of))
        of = of or os.path.join(tmp, stem + '_interpolated.dat')
        rec = {'ev': 'transfer', 'exc': r['exc'], 'taken': taken, 'src': src, 'dst': dst, 'title': dm['title'], 'vars': dv, 'zones': zs, 'tris': ts,
               'same': (open(sf).read(), open(df).read()) == keep}
        if not r['exc']:
            try:
                m = lib.parse_dat(of)
                rec['out'] = {'title': m['title'], 'vars': m['vars'], 'zones': [{'name': z['name'], 'faces': len(z['tris'])} for z in m['zones']],
                              'tris': [[';'.join(map(lib.tok, z['xyz'][a])) for a in t] for z in m['zones'] for t in z['tris']],
                              'd': [{v: lib.tok(z['data'][j][k]) for j, v in enumerate(m['vars'])} for z in m['zones'] for k in range(len(z['tris']))]}
            except (OSError, lib.Malformed) as e:
                rec['exc'] = 'output: %s' % e
        recs.append(rec)
    return recs


STAGES = [{'name': 'tools', 'module': 'TraceNearest', 'plan': plan, 'chunks': 7, 'workers': 7}]
