"""C26: arrays and answers of zones, faces and edges."""
import random

import decomp
import lib

NAMES = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ']
SUF = {v: (k + 1) / 16.0 for k, v in enumerate(NAMES)}
COLS = ['GloId', 'T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor']


def plan(ctx):
    return decomp.plan_histories(ctx, *((400, 300, 4, 2) if ctx.thorough else (60, 50, 3)))


def label(d, vs):
    """The label of a face's data, -2 if they do not belong together; variables it lacks are zero."""
    t = d.get('T', -1)
    k = int(t - SUF['T']) if t == t and 0 <= t < 1e9 else -2
    return k if all(d.get(v, 0.0) == (k + SUF[v] if v in vs else 0.0) for v in NAMES) else -2


def execute(s):
    rnd = random.Random(s['seed'])
    random.seed(s['seed'])
    lat, recs, pre = lib.Lattice(step=1.0 / 64), [], []
    vs = ['T'] + [v for v in NAMES[1:] if rnd.random() < 0.8]

    def lab(d):
        return label(d, vs) if set(d) == set(vs) else -3

    def num(x, y):
        return int(x - y) if x == x and abs(x) < 1e9 and x - y == int(x - y) and x >= 1 else -1 if x == 0 else -4

    def query(g):
        ni, fi, ei = [{id(o): i + 1 for i, o in enumerate(os)} for os in (g.Nodes, g.Faces, g.Edges)]
        n = len(g.Zones)
        zones = []
        for z in g.Zones:
            c = z.coords_np_array()
            a = z.variables_np_array()
            k = z.connectivity_list_faces_nodes()
            sl = [[float(x) for x in z.get_nodes_coord_slice_str(i).split()] for i in range(3)]
            ids = [int(x) for x in z.get_faces_global_ids_slice_str().split()]
            shape = [list(c.shape), list(a.shape), list(k.shape)] == [[len(z.Nodes), 3], [len(z.Faces), 12], [len(z.Faces), 3]]
            names = NAMES + ['none']
            zones.append({'counts': [z.nodes_count(), z.edges_count(), z.faces_count()],
                          'coords': [lat.code(p) for p in c], 'slices': [lat.code(p) for p in zip(*sl)],
                          'rows': [[int(r[0]), label({v: float(r[COLS.index(v)]) for v in NAMES}, vs)] for r in a] if shape else [],
                          'ids': ids, 'links': [[int(x) for x in r] for r in k],
                          'vars': [{'name': v, 'v': [num(float(x), SUF.get(v, 0)) for x in z.get_variable(v)]} for v in names]})
        faces = []
        for f, t in zip(g.Faces, g.get_triangles_list()):
            c = f.get_center()
            faces.append({'nb': [fi.get(id(f.get_neighbour(e)), 0) for e in f.Edges], 'long': ei.get(id(f.max_edge_from_face()), 0),
                          'tri': [lat.code(p) for p in t.Points] if hasattr(t, 'Points') else [lat.code(p) for p in (t.A, t.B, t.C)],
                          'ref': fi.get(id(t.BackRef), 0), 'center': [round(3 * (c[i] / lat.step + lat.origin[i])) for i in range(3)]})
        pairs, conn = [], []
        for _ in range(30):
            a, b = rnd.choice(g.Edges), rnd.choice(g.Edges)
            if rnd.random() < 0.5:
                b = rnd.choice(rnd.choice(a.Nodes).Edges)
            pairs.append({'e': ei[id(a)], 'f': ei[id(b)], 'adj': bool(a.is_adjacent_with(b))})
            x, y = rnd.randrange(n), rnd.randrange(n)
            if rnd.random() < 0.5 and len(a.Faces) == 2:
                x, y = [g.Zones.index(f.Zone) for f in rnd.sample(a.Faces, 2)]
            conn.append({'e': ei[id(a)], 'x': x + 1, 'y': y + 1, 'c': bool(a.is_connect_zones(g.Zones[x], g.Zones[y]))})
        return {'counts': [g.zones_count(), g.nodes_count(), g.edges_count(), g.faces_count(), g.faces_count_in_zones()],
                'zones': zones, 'faces': faces, 'pairs': pairs, 'connect': conn,
                'len2': [round((e.len_edge() / lat.step) ** 2) for e in g.Edges]}
    with lib.scratch() as d:
        g = decomp.load(s, d, rnd, lat, lambda d: 0, pre)
        recs += [{'ev': 'setup', 'exc': p['exc']} for p in pre]
        labels = list(range(1, len(g.Faces) + 1))
        rnd.shuffle(labels)
        for f, k in zip(g.Faces, labels):
            f.Data = {v: k + SUF[v] for v in vs}
        for o in [None] + s['ops']:
            if o:
                recs.append({'ev': 'setup', 'exc': decomp.decompose(g, o)['exc']})
            G = lib.project(g, lat.code, lab)
            o, r = lib.call(query, g)
            recs.append(dict(o, ev='views', vars=vs, G=G, a=r or {}, same=lib.project(g, lat.code, lab) == G))
    return recs


STAGES = [{'name': 'views', 'module': 'TraceViews', 'plan': plan, 'chunks': 6, 'workers': 7}]
