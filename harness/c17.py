"""C17: growth of ice by the remesh tool."""
import json
import os
import random

import c15
import geometry as gm
import lib

MODEL = 'SPECIFICATION Spec\nINVARIANTS Conserved NoNewExtremes Uniform Bounded\nCHECK_DEADLOCK FALSE\nCONSTANTS Top = %d Steps = %d\n'
H, K, U = 10000, 16384, 1000


def plan(ctx):
    ctx.model('RemeshModel', MODEL % ((3, 4) if ctx.thorough else (2, 3)), workers=4, timeout=1500)
    rnd = random.Random(ctx.seed * 17 + 5)
    return [{'seed': rnd.randrange(1 << 30)} for _ in range(3000 if ctx.thorough else 260)]


def inside(pts):
    return all(0 <= x <= 8 for p in pts for x in p)


def plate(rnd, z_columns=False):
    """A parallelogram of triangles in a plane, maybe with holes."""
    while True:
        if z_columns:
            u = [rnd.randint(-2, 2), rnd.randint(-2, 2), 0]
            v = [0, 0, rnd.choice([1, 2])]
        elif rnd.random() < 0.4:
            u, v = [rnd.randint(-2, 2) for _ in range(3)], [rnd.randint(-2, 2) for _ in range(3)]
        else:
            i, j = rnd.sample(range(3), 2)
            u, v = [0, 0, 0], [0, 0, 0]
            u[i], u[j], v[j] = rnd.choice([1, 2, -1]), rnd.choice([0, 0, 1]), rnd.choice([1, 2, -1])
        nx, ny = rnd.randint(1, 4), rnd.randint(1, 3)
        o = gm.point(rnd)
        wide = rnd.random() < 0.5           # faces of different areas
        ci, cj = [[sum(d[:i]) for i in range(n + 1)] for n in (nx, ny) for d in [[rnd.choice([1, 2]) if wide else 1 for _ in range(n)]]]
        pts = [[o[k] + ci[i] * u[k] + cj[j] * v[k] for k in range(3)] for j in range(ny + 1) for i in range(nx + 1)]
        if inside(pts) and gm.cross(u, v) != [0, 0, 0]:
            break
    tris = []
    for j in range(ny):
        for i in range(nx):
            a = j * (nx + 1) + i
            b, c, d = a + 1, a + nx + 2, a + nx + 1
            tris += [(a, b, c), (a, c, d)] if rnd.random() < 0.6 else [(a, b, d), (b, c, d)]
    if not z_columns and rnd.random() < 0.4:
        tris = [t for t in tris if rnd.random() < 0.8] or tris[:1]
    if rnd.random() < 0.5:
        tris = [(a, c, b) for a, b, c in tris]
    return tidy(pts, tris)


def tidy(pts, tris):
    used = sorted({a for t in tris for a in t})
    m = {a: i for i, a in enumerate(used)}
    return [pts[a] for a in used], [tuple(m[a] for a in t) for t in tris]


def sheet(rnd, fn, nx, ny):
    pts = [[i, j, fn(i, j)] for j in range(ny + 1) for i in range(nx + 1)]
    tris = []
    for j in range(ny):
        for i in range(nx):
            a = j * (nx + 1) + i
            b, c, d = a + 1, a + nx + 2, a + nx + 1
            tris += [(a, b, c), (a, c, d)] if rnd.random() < 0.6 else [(a, b, d), (b, c, d)]
    return pts, tris


def box(a, b, c, openings=(), lines=None):
    """Surface of a box out of unit squares, or of rectangles between lines."""
    idx, pts, tris = {}, [], []
    lines = lines or [list(range(9))] * 3

    def n(p):
        p = tuple(lines[k][x] for k, x in enumerate(p))
        if p not in idx:
            idx[p] = len(pts)
            pts.append(list(p))
        return idx[p]
    s = (a, b, c)
    for k in range(3):
        i, j = (k + 1) % 3, (k + 2) % 3
        for side in (0, s[k]):
            if (k, side > 0) in openings:
                continue
            for x in range(s[i]):
                for y in range(s[j]):
                    q = []
                    for dx, dy in ((0, 0), (1, 0), (1, 1), (0, 1)):
                        p = [0, 0, 0]
                        p[k], p[i], p[j] = side, x + dx, y + dy
                        q.append(n(tuple(p)))
                    if side == 0:
                        q.reverse()
                    tris += [(q[0], q[1], q[2]), (q[0], q[2], q[3])]
    return pts, tris


def turned(rnd, mesh):
    """The mesh with permuted coordinates and reversed orientation."""
    pts, tris = mesh
    p = [0, 1, 2]
    rnd.shuffle(p)
    pts = [[q[k] for k in p] for q in pts]
    if rnd.random() < 0.5:
        tris = [(a, c, b) for a, b, c in tris]
    tris = [t[r:] + t[:r] for t in tris for r in [rnd.randrange(3)]]
    return pts, tris


def curved(rnd):
    k = rnd.randrange(5)
    if k == 0:
        return turned(rnd, box(rnd.randint(1, 2), rnd.randint(1, 2), rnd.randint(1, 2), [(0, True)] if rnd.random() < 0.4 else []))
    if k == 1:
        o = [[2, 2, 0], [2, 2, 4], [0, 2, 2], [4, 2, 2], [2, 0, 2], [2, 4, 2]]
        t = [(1, 3, 5), (1, 5, 2), (1, 2, 4), (1, 4, 3), (0, 5, 3), (0, 2, 5), (0, 4, 2), (0, 3, 4)]
        return turned(rnd, (o, t[:rnd.choice([8, 8, 4])]) if rnd.random() < 0.6 else tidy(o, t[:4]))
    if k == 2:
        a, b, c = [rnd.randint(1, 4) for _ in range(3)]
        return turned(rnd, ([[0, 0, 0], [a, 0, 0], [0, b, 0], [0, 0, c]], [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)]))
    if k == 3:      # a ridge, a cavity
        h = rnd.choice([1, 2])
        return turned(rnd, sheet(rnd, lambda i, j: h * min(i, 4 - i) // 2, 4, rnd.randint(1, 2)))
    z = [[rnd.randint(0, 1) for _ in range(5)] for _ in range(5)]
    pts, tris = sheet(rnd, lambda i, j: z[i][j], rnd.randint(1, 3), rnd.randint(1, 3))
    return turned(rnd, ([[2 * p[0], 2 * p[1], p[2]] for p in pts] if max(max(p[:2]) for p in pts) <= 2 else pts, tris))


DEFAULT = {'n': 1, 'hs': 0, 'alfa': 5, 'beta': 10, 'ns': 0, 'nsS': 10, 'nsK': 15, 'redistr': True, 'nss': 0, 'st': 5, 'eps': 1, 'fixb': True, 'oz': False}
STEPS = {'known': False, 'min': 0, 'max': 10, 'fp': 1, 'fq': 10, 'pp': 1, 'pq': 20}


def case(rnd):
    """A surface with ice and options."""
    kind = rnd.choice(['flat'] * 6 + ['curved'] * 5 + ['zero'] * 2 + ['nss'] * 4)
    o = dict(DEFAULT)
    js, unit, exact = {}, 1.0, True
    if rnd.random() < 0.7:
        o.update(alfa=rnd.choice([1, 2, 4]), beta=rnd.choice([4, 8, 16]))
    if kind == 'flat':
        o['oz'] = rnd.random() < 0.2
        mesh = plate(rnd, o['oz'])
        o['n'] = rnd.choice([1, 1, 2, 3, 5])
        o['hs'] = rnd.choice([0, 0, 1, 2])
        o['redistr'] = rnd.random() < 0.6
        if rnd.random() < 0.4:
            hi = [rnd.randint(1, 6)] * len(mesh[1])
            unit = rnd.choice([2.0 ** -20, 2.0 ** -8, 0.25])
            if rnd.random() < 0.5:      # the number of steps is free for uniform ice
                exact = False
                o['ns'] = rnd.randint(0, 3)
        else:
            hi = [rnd.choice([0, rnd.randint(0, 6)]) for _ in mesh[1]]
            exact = rnd.random() < 0.5
            unit = 2.0 ** -20 if o['n'] > 1 or o['hs'] or not exact else rnd.choice([2.0 ** -20, 0.25])
    elif kind == 'curved':
        mesh = curved(rnd)
        top = rnd.choice([30, 120, 300])
        hi = [rnd.randint(top // 3, top)] * len(mesh[1]) if rnd.random() < 0.4 else [rnd.choice([0, rnd.randint(top // 3, top)]) for _ in mesh[1]]
        unit = 1.0 / U
        if rnd.random() < 0.5:
            o.update(ns=rnd.randint(1, 3))
            if rnd.random() < 0.7:
                o.update(nsS=rnd.choice([1, 4, 10]), nsK=rnd.choice([15, 50, 100]))
    elif kind == 'zero':
        mesh = curved(rnd) if rnd.random() < 0.6 else plate(rnd)
        hi = [0] * len(mesh[1])
        exact = False
        o['ns'] = rnd.randint(0, 2)
        o['n'], o['hs'], o['redistr'] = rnd.randint(1, 5), rnd.randint(0, 2), rnd.random() < 0.5
    else:
        o['nss'], o['fixb'] = rnd.randint(1, 2), rnd.random() < 0.6
        o['st'] = rnd.choice([5, 4, 2, 10])
        if rnd.random() < 0.5:
            o['oz'] = rnd.random() < 0.4
            mesh = plate(rnd, o['oz'])
            hi = [rnd.choice([0, rnd.randint(1, 6)])] * len(mesh[1])
            if hi[0]:
                unit = rnd.choice([2.0 ** -10, 2.0 ** -4, 0.25])
                o['n'], o['hs'], o['redistr'] = rnd.randint(1, 3), rnd.randint(0, 1), rnd.random() < 0.5
                if o['oz']:     # straight columns make the ice uneven before the next step
                    o['n'] = 1
                o['nss'] = 1 if o['n'] > 1 else o['nss']
        else:
            lines = [[sum(d[:i]) for i in range(4)] for d in [[rnd.choice([1, 1, 2]) for _ in range(3)] for _ in range(3)]]
            mesh = turned(rnd, box(rnd.randint(1, 3), rnd.randint(1, 3), rnd.randint(1, 2), [(0, True)] if rnd.random() < 0.5 else [], lines))
            hi = [0] * len(mesh[1])
            if rnd.random() < 0.6:
                o.update(nss=1, eps=rnd.choice([1, 31, 61]))
    st = dict(STEPS)
    if exact or rnd.random() < 0.3:
        st.update(min=o['n'], max=o['n'])
    elif rnd.random() < 0.7:
        st.update(min=rnd.randint(0, 3), max=rnd.randint(3, 10))
    if kind == 'flat' and not exact:
        st['known'] = True
        st.update(fp=1, fq=rnd.choice([1, 2, 4, 8]))
        if rnd.random() < 0.7:
            pp, pq = rnd.choice([(0, 1), (1, 4), (1, 2), (1, 8)])
            st.update(pp=pp, pq=pq)
    full = {'remesh_nsteps_min': st['min'], 'remesh_nsteps_max': st['max'], 'remesh_hsmooth_steps': o['hs'], 'remesh_hsmooth_alfa': 1 / o['alfa'],
            'remesh_hsmooth_beta': 1 / o['beta'], 'remesh_rest_volume_redistr': o['redistr'], 'remesh_nss_steps': o['nss'], 'remesh_nss_st': 1 / o['st'],
            'remesh_nss_epsilon': o['eps'] / 100, 'remesh_nss_fix_nodes': o['fixb'], 'remesh_pseudo_2d_oz': o['oz'], 'remesh_nsmooth_steps': o['ns'],
            'remesh_nsmooth_s': float(o['nsS']), 'remesh_nsmooth_k': o['nsK'] / 100,
            'remesh_nsteps_ignore_part': st['pp'] / st['pq'], 'remesh_nsteps_hi_side_fact': st['fp'] / st['fq'] * (unit if st['known'] else 1.0)}
    base = {'remesh_nsteps_min': 0, 'remesh_nsteps_max': 10, 'remesh_hsmooth_steps': 0, 'remesh_hsmooth_alfa': 0.2, 'remesh_hsmooth_beta': 0.1,
            'remesh_rest_volume_redistr': True, 'remesh_nss_steps': 0, 'remesh_nss_st': 0.2, 'remesh_nss_epsilon': 0.01, 'remesh_nss_fix_nodes': True,
            'remesh_pseudo_2d_oz': False, 'remesh_nsmooth_steps': 0, 'remesh_nsmooth_s': 10.0, 'remesh_nsmooth_k': 0.15,
            'remesh_nsteps_ignore_part': 0.05, 'remesh_nsteps_hi_side_fact': 0.1}
    # what is as by default may be left out
    js = {k: v for k, v in full.items() if v != base[k] or rnd.random() < 0.4}
    return kind, mesh, hi, o, js, unit, exact, st


def execute(s):
    rnd = random.Random(s['seed'])
    kind, mesh, hi, o, js, unit, exact, st = case(rnd)
    many = rnd.random() < 0.15 and not st['known']
    cases = [(mesh, hi)]
    recs = []
    with lib.scratch() as tmp:
        src, out = os.path.join(tmp, 'in'), os.path.join(tmp, 'a', 'out')
        os.makedirs(src)
        if rnd.random() < 0.5:
            os.makedirs(out)
        stems = ['wing', 'naca 0012', 'x_1']
        items, files = [], []
        for k in range(2 if many else 1):
            if k:
                while True:     # another case with the same options
                    x = case(rnd)
                    if x[0] == kind and x[3]['oz'] == o['oz'] and x[3]['eps'] == o['eps']:
                        break
                mesh, hi = x[1], x[2]
                if kind == 'flat' or kind == 'nss' and hi[0]:
                    hi = [hi[0] or 1] * len(hi) if not exact or unit > 2.0 ** -20 else hi
                if kind == 'nss' and (o['n'] > 1 or cases[0][1][0]) and not hi[0]:
                    break
            it = prepare(rnd, mesh, hi, unit, 2.0 ** (-6 if kind == 'curved' else -10), kind == 'nss' and rnd.random() < 0.3)
            stem, rest = stems[k], rnd.choice(['000000000012', '202011190000', 'r2'])
            name = {'stem': stem, 'rest': rest + '.dat'}
            fn = stem + '_' + rnd.choice(['r_', '']) + rest + '.dat'
            lib.write_dat(os.path.join(src, fn), it['model'])
            it.update(name=name, fn=fn)
            items.append(it)
        if many:
            open(os.path.join(src, 'readme.txt'), 'w').write('not a grid\n')
        jf = os.path.join(tmp, 'opt.json')
        if kind in ('flat', 'zero') and rnd.random() < 0.05 and not exact and not o['oz']:
            jf, o = None, dict(DEFAULT)      # default options
            st = dict(STEPS)
        else:
            json.dump(js, open(jf, 'w'))
        verbose = rnd.random() < 0.3 or st['known'] or jf is None
        argv = (['-d', src] if many else ['-g', os.path.join(src, items[0]['fn'])]) + (['-j', jf] if jf else []) + ['-o', out] + (['-v', '-v'] if verbose else [])

        def listing():
            return sorted(f for _, _, fs in os.walk(os.path.join(tmp, 'a')) for f in fs if f != 'report.txt')
        if rnd.random() < 0.15:
            bad = list(argv)
            k = rnd.randrange(4)
            if k == 3:      # not a pseudo 2d grid
                while True:
                    pts, tris = plate(rnd, rnd.random() < 0.7)
                    tris = rnd.sample(tris, rnd.randint(1, len(tris)))
                    used = [pts[a] for a in sorted({a for t in tris for a in t})]
                    lens = {sum(1 for p in used if p[:2] == q[:2]) for q in used}
                    if len(lens) > 1 or lens == {1}:
                        break
                b, g = os.path.join(tmp, 'bad.json'), os.path.join(tmp, 'bad.dat')
                json.dump(dict(js, remesh_pseudo_2d_oz=True), open(b, 'w'))
                lib.write_dat(g, prepare(rnd, tidy(pts, tris), [0] * len(tris), 1.0, 2.0 ** -10)['model'])
                bad = ['-g', g, '-o', out, '-j', b]
            elif k == 0:
                bad += ['-j', os.path.join(tmp, 'none.json')]
            elif k == 1:
                bad = ['-g', os.path.join(src, 'none.dat'), '-o', out]
            else:
                b = os.path.join(tmp, 'bad.json')
                json.dump(dict(js, remesh_nsteps_min=7, remesh_nsteps_max=3), open(b, 'w'))
                bad += ['-j', b]
            r = lib.run_script('remesh.py', bad)
            recs.append(dict(r, ev='refuse', files=listing()))
        r = lib.run_script('remesh.py', argv)
        inter = {it['fn']: sorted(f for f in listing() if f.startswith(it['fn'][:-4] + '_') and f[-10:-4].startswith('_') and f[-9:-4].isdigit()
                                  and len(f) == len(it['fn']) + 6) for it in items}
        alli = {f for v in inter.values() for f in v}
        recs.append(dict(r, ev='files', names=[it['name'] for it in items], files=[f for f in listing() if f not in alli]))
        if r['exc']:
            return recs
        for it in items:
            of = os.path.join(out, it['name']['stem'] + '_' + it['name']['rest'])
            rec = {'ev': 'remesh', 'exc': '', 'kind': kind, 'm': dict(o, pts=it['pts'], faces=it['faces'], hi=it['hi']), 'exact': exact,
                   'title': it['model']['title'], 'vars': it['model']['vars'], 'zones': it['zones'], 'other': it['other'], 'was': it['was'],
                   'verbose': verbose, 'nmin': st['min'], 'nmax': st['max'], 'inter': len(inter[it['fn']]), 'last': [], 'steps': st,
                   'grow': int(it['hi'][0] * unit * K) if kind == 'nss' else 0}
            if st['known'] or jf is None and kind == 'flat':
                rec['m']['n'] = rec['inter']
            try:
                rec['out'] = it['read'](of, {'flat': H / unit, 'curved': U, 'nss': K, 'zero': 1}[kind])
                if inter[it['fn']]:
                    rec['last'] = it['read'](os.path.join(out, inter[it['fn']][-1]), 1)['tok']
            except (lib.Malformed, OSError, ValueError, KeyError, IndexError) as e:
                rec['exc'] = 'output: %s' % e
            recs.append(rec)
    return recs


def prepare(rnd, mesh, hi, unit, least, huge=False):
    """The grid file of a case; the numbering of faces is that of the file."""
    # volumes of ice below 1e-10 grow on curved surfaces as on flat ones, that is why the unit is not less
    pts, tris = mesh
    fr = c15.Exact(rnd)
    while fr.step < least:
        fr = c15.Exact(rnd)
    if huge:      # determinants of 1e12 and more
        fr.step, fr.origin = 1024.0, (512.0, 512.0, 512.0)
    nz = rnd.randint(1, 3)
    zone_of = [rnd.randrange(nz) for _ in tris]
    order = [i for z in range(nz) for i in rnd.sample(range(len(tris)), len(tris)) if zone_of[i] == z]
    vs = ['T', 'Hw', 'Hi']
    if rnd.random() < 0.5:
        vs += ['Beta']
        rnd.shuffle(vs)
    vals = [{'T': rnd.uniform(-9, 9), 'Hw': rnd.uniform(0, 1), 'Hi': hi[i] * unit * fr.step, 'Beta': rnd.random()} for i in range(len(tris))]
    zones = []
    for z in range(nz):
        fs = [i for i in order if zone_of[i] == z]
        if fs:
            ps = list({a for i in fs for a in tris[i]})
            rnd.shuffle(ps)
            zones.append({'name': 'wall %d' % z, 'xyz': [fr.v(pts[a]).coords_tuple() for a in ps], 'data': [[vals[i][v] for i in fs] for v in vs],
                          'tris': [[ps.index(a) for a in tris[i]] for i in fs]})
    model = {'title': 'ice', 'vars': vs, 'zones': zones}
    keep = [v for v in vs if v != 'Hi']

    def tok(p):
        return ';'.join(map(lib.tok, p))
    was = [[fr.v(pts[a]).coords_tuple() for a in tris[i]] for i in order]

    def read(path, scale):
        m = lib.parse_dat(path)
        cs = [[z['xyz'][a] for a in t] for z in m['zones'] for t in z['tris']]
        d = [{v: z['data'][a][k] for a, v in enumerate(m['vars'])} for z in m['zones'] for k in range(len(z['tris']))]
        return {'title': m['title'], 'vars': m['vars'], 'zones': [{'name': z['name'], 'faces': len(z['tris'])} for z in m['zones']],
                'other': [tok([x[v] for v in keep]) for x in d], 'zero': all(x['Hi'] == 0 for x in d), 'tok': [[tok(p) for p in c] for c in cs],
                'disp': [[[fr.num((p[i] - q[i]) / fr.step, scale) for i in range(3)] for p, q in zip(c, w)] for c, w in zip(cs, was)]}
    return {'model': model, 'pts': pts, 'faces': [[a + 1 for a in tris[i]] for i in order], 'hi': [hi[i] for i in order],
            'zones': [{'name': z['name'], 'faces': len(z['tris'])} for z in zones], 'other': [tok([vals[i][v] for v in keep]) for i in order],
            'was': [[tok(p) for p in c] for c in was], 'read': read}


STAGES = [{'name': 'tool', 'module': 'TraceRemesh', 'plan': plan, 'chunks': 7, 'workers': 7}]
