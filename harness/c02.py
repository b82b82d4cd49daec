"""C02: loading builds a consistent structure, and merges exactly the nodes that are equal at ten digits."""
import os
import random

import decomp
import lib
from c01 import Tokens


def plan(ctx):
    rnd = random.Random(ctx.seed * 13 + 4)
    return [{'init': decomp.meshes(rnd, 0.05), 'seed': rnd.randrange(1 << 30), 'merge': rnd.random() < 0.75,
             'split': rnd.choice([0.0, 0.3, 1.0]), 'near': rnd.choice([0.0, 0.3, 0.6]), 'again': rnd.random() < 0.3,
             'third': rnd.random() < 0.12}
            for _ in range(2500 if ctx.thorough else 320)]


def build(init, rnd, split, near):
    """A file of the surface in which a vertex may appear several times with different low digits, and
    vertices may be as near to each other as the merging resolution allows.  Returns (model, keys)."""
    cs = sorted({p for f in init for p in f['t']})
    big = rnd.choice([1, 1, 10, 100])
    k0 = {}
    for p in cs:        # coordinates in units of 1e-10
        k0[p] = tuple(((v & 1023) - 512) * 10 ** 8 * big for v in (p >> 20, p >> 10, p))
    used = set(k0.values())
    for p in cs:        # pull some vertices next to another one: they differ by one unit
        if rnd.random() < near:
            q = rnd.choice(cs)
            k = list(k0[q])
            k[rnd.randrange(3)] += rnd.choice([-1, 1])
            if tuple(k) not in used:
                used.add(tuple(k))
                k0[p] = tuple(k)

    def occurrence(p):
        # less than half of a unit away; far from the rounding boundary
        return tuple((k * 100 + rnd.choice([0, 0, rnd.randint(-30, 30)])) / 1e12 for k in k0[p])
    zones = sorted({f['z'] for f in init})
    rnd.shuffle(zones)
    zs, keys, kid = [], [], {}
    for z in zones:
        fs = [f for f in init if f['z'] == z]
        rnd.shuffle(fs)
        pts, pos = [], {}
        tris = []
        for f in fs:
            t = []
            for p in f['t']:
                if p not in pos or rnd.random() < split:
                    pos[p] = len(pts)
                    pts.append((p, occurrence(p)))
                t.append(pos[p])
            tris.append(t)
        order = list(range(len(pts)))
        rnd.shuffle(order)
        inv = {o: i for i, o in enumerate(order)}
        zs.append({'name': z, 'xyz': [pts[o][1] for o in order], 'data': [[1.0 + rnd.randrange(99) for _ in fs] for _ in range(2)],
                   'tris': [[inv[a] for a in t] for t in tris]})
        keys.append([kid.setdefault(k0[pts[o][0]], len(kid) + 1) for o in order])
    return {'title': 'mesh %d' % rnd.randrange(9), 'vars': ['T', 'Hi'], 'zones': zs}, keys


def execute(s):
    import gsu
    rnd = random.Random(s['seed'])
    toks = Tokens()
    recs = []
    g = gsu.Grid()
    for k in range(2 if s['again'] else 1):
        init = s['init']
        if s.get('third') and k == 0:       # a third face at an edge
            a, b, c = rnd.choice(init)['t']
            new = lib.pack(rnd.randrange(8, 1016), rnd.randrange(8, 1016), rnd.randrange(8, 1016))
            if all(new not in f['t'] for f in init):
                init = init + [{'t': [b, a, new], 'z': rnd.choice(init)['z']}]
        model, keys = build(init, rnd, s['split'], s['near'])
        merge = s['merge'] if k == 0 else rnd.random() < 0.7
        with lib.scratch() as d:
            a = os.path.join(d, 'a.dat')
            lib.write_dat(a, model)
            if merge and rnd.random() < 0.5:
                o, _ = lib.call(g.load, a)
            else:
                o, _ = lib.call(g.load, a, is_merge_same_nodes=merge)
        fp = lib.file_projection(model, toks)
        for z, ks in zip(fp['zones'], keys):
            z['pts'] = [{'p': p, 'key': q} for p, q in zip(z['pts'], ks)]
        recs.append(dict(o, ev='load', merge=merge, file=fp, post=lib.project(g, toks)))
        if o['exc'] == '' and rnd.random() < 0.5:      # whatever happens to the grid, the next load starts afresh
            lib.call(g.decompose_farhat, 2)
    return recs


STAGES = [{'name': 'loads', 'module': 'TraceStore', 'plan': plan, 'chunks': 6, 'workers': 7,
           'cfg': 'SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\nCONSTANT Judge = "load"\n'}]
