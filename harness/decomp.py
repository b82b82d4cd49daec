"""Histories of decompositions (generated by TLC from Decompose.tla) replayed on real grids."""
import json
import math
import os
import random

import lib
from transforms import LAT, Labels, model_of, surface, tor

NAMES = ['wing', 'tail', 'body', 'cap']


def large(rnd):
    """Hundreds of faces."""
    nx, ny = (rnd.randint(7, 14), rnd.randint(4, 9)) if rnd.random() < 0.7 else (rnd.randint(15, 24), rnd.randint(9, 12))
    pts, tris = lib.rect_mesh(nx, ny, z=lambda i, j: rnd.randrange(0, 9) * 8, step=32, flipdiag=lambda i, j: rnd.random() < 0.5)
    if rnd.random() < 0.5:
        pts, tris = lib.drop_unused(pts, [t for t in tris if rnd.random() < 0.85])
    return (pts, tris), rnd.choice([1, 2, 3, 4, 6, 9, 13])


def meshes(rnd, big=0.0):
    """Surfaces with their zones."""
    k = rnd.randrange(11)
    if big and rnd.random() < big:
        (pts, tris), nz = large(rnd)
        tris = list(tris)
        if rnd.random() < 0.5:
            zo = [i * nz // len(tris) for i in range(len(tris))]
            rnd.shuffle(tris)
        else:
            rnd.shuffle(tris)
            zo = [rnd.randrange(nz) if i >= nz else i for i in range(len(tris))]
        return surface((pts, tris), zo, NAMES + ["nose", "fin", "part 10", "part 9", "rib", "spar", "flap", "slat", "tip"])
    if k == 0:
        m = lib.rect_mesh(rnd.randint(1, 4), rnd.randint(1, 3), z=lambda i, j: rnd.randrange(0, 9) * 8)
    elif k == 1:
        m = lib.rect_mesh(rnd.randint(2, 8), 1, step=32, flipdiag=lambda i, j: (i + j) % 2)
    elif k == 2:
        m = lib.tetra()
    elif k == 3:
        m = lib.octa()
    elif k == 4:
        m = tor(rnd)
    elif k == 5:
        m = lib.union(lib.rect_mesh(2, 2), lib.tetra((800, 700, 512), 32), lib.rect_mesh(1, 2, off=(64, 600, 200)))
    elif k == 6:    # a sheet with a hole, standing upright in the plane x = const
        pts, tris = lib.rect_mesh(3, 3)
        pts = [lib.pack(512, (p >> 20), 64 + ((p >> 10) & 1023)) for p in pts]
        tris = [t for q, t in enumerate(tris) if q not in (8, 9)]
        if rnd.random() < 0.5:      # and one triangle folded aside
            pts = pts + [lib.pack(480, 96, 64)]
            tris = tris + [tuple(reversed(tris[0][:2])) + (len(pts) - 1,)]
        m = lib.drop_unused(pts, tris)
    elif k == 7:    # many equal centre coordinates
        m = lib.rect_mesh(6, 1, step=64, flipdiag=lambda i, j: rnd.random() < 0.5)
    elif k == 8:    # many faces around one point
        n = rnd.choice([9, 12, 14])
        ring = [lib.pack(*(512 + int(160 * f(6.2832 * q / n)) // 8 * 8 for f in (math.cos, math.sin)), 512 + 8 * (q % 3)) for q in range(n)]
        m = lib.drop_unused([lib.pack(512, 512, 576)] + ring, [(0, 1 + q, 1 + (q + 1) % n) for q in range(n - rnd.randrange(2))])
    else:
        pts, tris = lib.rect_mesh(4, 3, z=lambda i, j: rnd.randrange(0, 9) * 8, flipdiag=lambda i, j: rnd.random() < 0.5)
        m = lib.drop_unused(pts, [t for t in tris if rnd.random() < 0.75] or tris[:1])
    pts, tris = m
    tris = list(tris)
    rnd.shuffle(tris)
    nz = min(len(tris), rnd.randint(1, 4))
    if rnd.random() < 0.4:
        zo = [i * nz // len(tris) for i in range(len(tris))]
    else:
        zo = [rnd.randrange(nz) for _ in tris]
        zo[:nz] = range(nz)
    return surface((pts, tris), zo, NAMES)


CFG = ('SPECIFICATION Spec\nINVARIANTS Parts FixedKept HierShape LinearShape Emit\nVIEW View\nCHECK_DEADLOCK FALSE\n'
       'CONSTANTS MaxLen = %d N = %d MaxCount = %d Sim = %s\n')


def histories(ctx, pairs, sims, simlen):
    """All single calls, sampled pairs, simulated longer histories."""
    out = [b['ops'] for b in ctx.model('Decompose', CFG % (1, 4, 5, 'FALSE'))]
    two = [b['ops'] for b in ctx.model('Decompose', CFG % (2, 4, 3, 'FALSE'), workers=4, timeout=900)]
    uniq = sorted({json.dumps(b) for b in two})
    rnd = random.Random(ctx.seed)
    rnd.shuffle(uniq)
    out += [json.loads(b) for b in uniq[:pairs]]
    sim = ctx.model('Decompose', CFG % (simlen, 5, 4, 'TRUE'),
                    args=('-simulate', 'num=%d' % sims, '-seed', str(ctx.seed), '-depth', str(simlen + 2)))
    seen, s2 = set(), []
    for b in sim:
        k = json.dumps(b['ops'])
        if k not in seen:
            seen.add(k)
            s2.append(b['ops'])
    rnd.shuffle(s2)
    return out + s2[:sims]


def plan_histories(ctx, pairs, sims, simlen, reps=1):
    rnd = random.Random(ctx.seed * 7 + 1)
    scns = []
    for ops in histories(ctx, pairs, sims, simlen):
        for _ in range(reps):
            ops2 = []
            for o in ops:
                o = dict(o, newname=rnd.choice(['', '', 'grid %d' % rnd.randrange(9)]))
                if rnd.random() < 0.35 and o['op'] != 'mono':     # other parameters than the small model uses
                    o['c'] = rnd.randint(1, 6) if o['op'] == 'hier' else rnd.choice([rnd.randint(1, 9), rnd.randint(1, 9), rnd.randint(10, 34)])
                ops2.append(o)
            if rnd.random() < 0.06:     # many faces, a short history
                ops2 = [dict(o, c=rnd.choice([5, 6, 7, 8]) if o['op'] == 'hier' else rnd.choice([rnd.randint(2, 40), rnd.randint(2, 40), rnd.randint(41, 100)]), fx=o['fx'][:1]) for o in ops2[:2]]
                scns.append({'init': meshes(rnd, 1.0), 'ops': ops2, 'edits': rnd.choice([0, 0, 2]), 'seed': rnd.randrange(1 << 30)})
                continue
            scns.append({'init': meshes(rnd, 0.02), 'ops': ops2, 'edits': rnd.choice([0, 0, 0, 2, 4]), 'seed': rnd.randrange(1 << 30)})
    return scns


def edit(g, rnd, lat):
    """A random legal grid modification through the public interface."""
    import geom
    k = rnd.randrange(5)
    if k >= 3:      # flip the longest edge
        f = rnd.choice(g.Faces)
        e = f.max_edge_from_face()
        if len(e.Faces) == 2:
            o = [x for x in e.Faces if x is not f][0]
            n3, n4 = [[n for n in x.Nodes if n is not e.Nodes[0] and n is not e.Nodes[1]][0] for x in (f, o)]
            if not any({id(n3), id(n4)} == {id(x.Nodes[0]), id(x.Nodes[1])} for x in g.Edges):
                g.collapse_face(f)
    elif k == 0:
        f = rnd.choice(g.Faces)
        ps = [n.P for n in f.Nodes]
        p = [(2 * ps[0][i] + ps[1][i] + ps[2][i]) / 4 for i in range(3)]
        if lat.code(p) >= 0 and not any(lat.code(n.P) == lat.code(p) for n in g.Nodes):
            g.divide_face(f, geom.Vect(*p))
    else:
        e = rnd.choice(g.Edges)
        p = [(e.Nodes[0].P[i] + e.Nodes[1].P[i]) / 2 for i in range(3)]
        if lat.code(p) >= 0 and not any(lat.code(n.P) == lat.code(p) for n in g.Nodes):
            (g.cut_edge if len(e.Faces) == 2 else g.cut_single_edge)(e, geom.Vect(*p))


def load(s, d, rnd, lat, lab, recs, apart=0.15):
    import gsu
    fn = os.path.join(d, 'a.dat')
    lib.write_dat(fn, model_of(s['init'], rnd))
    g = gsu.Grid()
    o, _ = lib.call(g.load, fn, **({'is_merge_same_nodes': False} if rnd.random() < apart else {}))
    recs.append(dict(o, ev='load', post=lib.project(g, lat.code, lab)))
    for _ in range(s.get('edits', 0)):
        o, _ = lib.call(edit, g, rnd, lat)
        recs.append(dict(o, ev='edit', post=lib.project(g, lat.code, lab)))
    return g


def decompose(g, o):
    kw = {'new_name': o['newname']} if o.get('newname') else {}
    if o['op'] == 'mono':
        return lib.call(g.decompose_mono, **kw)[0]
    if o['op'] == 'random':
        return lib.call(g.decompose_random, o['c'], **kw)[0]
    if o['op'] == 'linear':
        return lib.call(g.decompose_linear, o['c'], **kw)[0]
    if o['op'] == 'farhat':
        if o['fx']:
            kw['fz_names'] = list(o['fx'])
        return lib.call(g.decompose_farhat, o['c'], **kw)[0]
    if o['fx']:
        kw['fixed_zones'] = list(o['fx'])
    return lib.call(g.decompose_hierarchical, levels=o['c'], **kw)[0]


def execute(s):
    rnd = random.Random(s['seed'])
    random.seed(s['seed'])
    lat, lab = lib.Lattice(step=1.0 / 64), Labels()
    recs = []
    with lib.scratch() as d:
        g = load(s, d, rnd, lat, lab, recs)
        for o in s['ops']:
            res = decompose(g, o)
            recs.append(dict(res, ev='decomp', o=o, post=lib.project(g, lat.code, lab), zids=[int(z.Id) for z in g.Zones]))
    return recs


def plan(ctx):
    return plan_histories(ctx, 900, 500, 5, 2) if ctx.thorough else plan_histories(ctx, 300, 150, 4)


def stages(judge):
    return [{'name': 'histories', 'module': 'TraceDecompose', 'plan': plan, 'chunks': 6, 'workers': 7,
             'cfg': 'SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\nCONSTANT Judge = "%s"\n' % judge}]
