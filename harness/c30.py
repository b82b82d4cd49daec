"""C30: asking a grid changes nothing: schedules of questions and changes, against a twin that is never asked."""
import contextlib
import copy
import hashlib
import io
import os
import random
import sys

import decomp
import lib
from transforms import Labels, model_of

QUESTIONS = ['counts', 'info', 'triangles', 'matrix', 'store', 'mpi', 'results', 'near', 'edge', 'walk', 'faces', 'edges', 'zones',
             'slices', 'cloud', 'check', 'collide']
CHANGES = ['farhat', 'hier', 'linear', 'mono', 'random', 'edit', 'data', 'clean', 'move']
MODEL = ('SPECIFICATION Spec\nINVARIANTS NotDisturbed Current Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxLen = %d\n Emitting = TRUE\n'
         ' Questions = {' + ', '.join('"%s"' % q for q in QUESTIONS) + '}\n Changes = {' + ', '.join('"%s"' % c for c in CHANGES) + '}\n')


def plan(ctx):
    rnd = random.Random(ctx.seed * 17 + 9)
    three = ctx.model('Look', MODEL % 3, workers=1)
    sims = ctx.model('Look', MODEL % 14, args=('-simulate', 'num=%d' % (2500 if ctx.thorough else 500), '-seed', str(ctx.seed), '-depth', '16'))
    sims = list({repr(h[:-1]): h for h in sims}.values())       # every last step of a schedule was printed
    # a question, a change, the same question: all of them
    same = [h for h in three if h[0] == h[2] and h[0][0] == 'ask' and h[1][0] == 'change']
    out = same + rnd.sample([h for h in three if any(x[0] == 'ask' for x in h)], 3000 if ctx.thorough else 150) + sims
    return [{'seed': rnd.randrange(1 << 30), 'steps': h, 'init': mesh(rnd)} for h in out]


def mesh(rnd):
    while True:
        fs = decomp.meshes(rnd, 0.04)
        if 2 <= len(fs) <= 26:
            return fs


def fold(x):
    return hashlib.md5(repr(x).encode()).hexdigest()[:16]


def fl(xs):
    return [float(x).hex() for x in xs]


def ask(g, q, rnd, d):
    """The answer, and what spoils the objects that were handed out."""
    import geom
    import gsu
    at = {id(o): i for os_ in (g.Nodes, g.Edges, g.Faces, g.Zones) for i, o in enumerate(os_)}

    def spoil(*lists):
        for x in lists:
            if isinstance(x, list):
                x.clear()
    if q == 'counts':
        return [g.zones_count(), g.nodes_count(), g.edges_count(), g.faces_count(), g.faces_count_in_zones(), g.faces_count_in_fixed_zones()] + \
            [[z.nodes_count(), z.edges_count(), z.faces_count(), z.outer_edges_count()] for z in g.Zones]
    if q == 'info':
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            g.print_info(True, True, True)
        return out.getvalue()
    if q == 'triangles':
        ts = g.get_triangles_list()
        a = [[fl(p[i] for i in range(3)) for p in t.Points] + [at[id(t.BackRef)], fl([t.area()]), fl(t.centroid()[i] for i in range(3))] for t in ts]
        for t in ts:
            for p in t.Points:
                p[0] += 1.0
                p[2] = -7.0
            t.Points.reverse()
        ts.clear()
        return a
    if q == 'matrix':
        z = gsu.ZonesAdjacencyMatrix(g.Edges, g.Zones)
        a = [[list(map(int, r)) for r in z.M], z.edges_statistics_string(), [list(z.zone_cross_edges_array(i)) for i in range(len(g.Zones))]]
        for i in range(len(g.Zones)):
            z.zone_cross_edges_array(i)[0] = 99
        z.M[0][0] = 77
        return a
    if q == 'store':
        g.store(os.path.join(d, 's.dat'))
        return open(os.path.join(d, 's.dat')).read()
    if q == 'mpi':
        e = os.path.join(d, 'mpi')
        os.mkdir(e)
        try:
            g.store_mpi(os.path.join(e, 'm'), '000000000000')
            return [(f, open(os.path.join(e, f)).read()) for f in sorted(os.listdir(e))]
        finally:
            for f in os.listdir(e):
                os.remove(os.path.join(e, f))
            os.rmdir(e)
    if q == 'results':      # random values are in it
        g.store_faces_calc_data(os.path.join(d, 'r.txt'))
        return [l.split()[0] for l in open(os.path.join(d, 'r.txt'))]
    if q == 'near':
        n = rnd.choice(g.Nodes)
        m = gsu.Node(geom.Vect(*[n.P[i] for i in range(3)]))
        r, s = g.find_near_node(m), g.find_near_node(gsu.Node(geom.Vect(77.0, 1.5, 2.5)))
        return [at[id(r)] if r is not None else -1, s is None]
    if q == 'edge':
        a = []
        for _ in range(6):
            e = g.find_edge(*rnd.sample(g.Nodes, 2))
            a.append(-1 if e is None else at[id(e)])
        return a
    if q == 'walk':
        k = rnd.choice([2, 3, 5, 100])
        r = g.bfs_path(rnd.choice(g.Faces), lambda f: f.GloId % k != 0 or k == 100)
        a = [at[id(f)] for f in r]
        spoil(r)
        return a
    if q == 'faces':
        a = []
        for f in g.Faces:
            t = f.get_triangle()
            nb = [f.get_neighbour(e) for e in f.Edges]
            c = f.get_center()
            a.append([fl(c), [-1 if x is None else at[id(x)] for x in nb], at[id(f.max_edge_from_face())], fl([f['T'], f['none'], t.area(), t.min_side()]), t.is_good(),
                      fl(t.normal_orth()[i] for i in range(3))])
            for p in t.Points:
                p[1] = 5.0
        return a
    if q == 'edges':
        return [[fl([e.len_edge()]), e.is_border(), e.is_cross(), e.is_inner(), e.is_outer(), [e.is_connect_zones(a, b) for a in g.Zones[:3] for b in g.Zones[:3]],
                 e.is_adjacent_with(g.Edges[0])] for e in g.Edges]
    if q == 'zones':
        a = []
        for z in g.Zones:
            for x in (z.coords_np_array(), z.variables_np_array(), z.connectivity_list_faces_nodes(), z.get_variable('T')):
                a.append([list(x.shape), fl(x.ravel())])
                x[...] = -5.0
            a.append([float(z.zone_quality_factor()).hex() if z.outer_edges_count() else ''])
        return a
    if q == 'slices':
        return [[z.get_nodes_coord_slice_str(i) for i in range(3)] + [z.get_faces_data_slice_str(v) for v in ('T', 'none')] + [z.get_faces_global_ids_slice_str()] for z in g.Zones]
    if q == 'cloud':
        ts = g.get_triangles_list()
        c = geom.TrianglesCloud(list(ts))
        a = []
        for _ in range(3):
            p, r = [geom.Vect(*[rnd.uniform(-6, 6) for _ in range(3)]) for _ in range(2)]
            x = c.first_intersection_with_segment(geom.Segment(p, r))
            a.append(repr([at.get(id(getattr(y, 'BackRef', None)), str(y)) for y in x] if isinstance(x, (list, tuple)) else at.get(id(getattr(x, 'BackRef', None)), str(x))))
        ts.clear()
        return a
    if q == 'collide':
        ts = g.get_triangles_list()
        h = len(ts) // 2
        c, e = geom.TrianglesCloud(ts[:h] or ts[:1]), geom.TrianglesCloud(ts[h:])
        return [[at[id(t.BackRef)], repr([fl(p[i] for i in range(3)) if hasattr(p, 'X') else str(p) for p in ps])] for t, ps in c.intersection_with_triangles_cloud(e)]
    if q == 'check':
        g.check_faces_are_linked_to_zones()
        return 'linked'


def change(g, c, seed, lat):
    rnd = random.Random(seed)
    random.seed(seed)
    n = rnd.randint(1, 5)
    if c == 'farhat':
        g.decompose_farhat(count=min(n, len(g.Faces)))
    elif c == 'hier':
        g.decompose_hierarchical(levels=rnd.randint(1, 3))
    elif c == 'linear':
        g.decompose_linear(count=min(n, len(g.Faces)))
    elif c == 'mono':
        g.decompose_mono()
    elif c == 'random':
        g.decompose_random(count=n)
    elif c == 'edit':
        for _ in range(2):
            decomp.edit(g, rnd, lat)
    elif c == 'data':
        for f in rnd.sample(g.Faces, min(2, len(g.Faces))):
            f['T'], f['Hi'] = rnd.randint(1, 99) + 0.125, 1.0
    elif c == 'clean':
        g.clean_t_hw_hi()
    elif c == 'move':
        g.Nodes[rnd.randrange(len(g.Nodes))].P[2] += 1.0 / 64


def state(g, lat):
    p = lib.project(g, lat.code)
    p['more'] = [[int(z.Id) if isinstance(z.Id, int) else -9, bool(z.IsFixed)] for z in g.Zones]
    return p


def execute(s):
    import gsu
    sys.setrecursionlimit(200000)
    rnd = random.Random(s['seed'])
    lat, recs = lib.Lattice(step=1.0 / 64), []
    with lib.scratch() as d:
        fn = os.path.join(d, 'a.dat')
        lib.write_dat(fn, model_of(s['init'], rnd))
        g, h = gsu.Grid(), gsu.Grid()
        o, _ = lib.call(g.load, fn)
        lib.call(h.load, fn)
        recs.append(dict(o, ev='start', st=state(g, lat), twin=state(h, lat)))
        places = [rnd.randrange(1 << 30) for _ in range(2)]
        for kind, what in s['steps']:
            seed = rnd.randrange(1 << 30)
            if kind == 'change':
                o, _ = lib.call(change, g, what, seed, lat)
                o2, _ = lib.call(change, h, what, seed, lat)
                recs.append(dict(o, exc2=o2['exc'], ev='change', c=what, st=state(g, lat), twin=state(h, lat)))
            else:
                where = rnd.choice(places)
                random.seed(seed)
                o, a = lib.call(ask, g, what, random.Random(where), d)
                random.seed(seed + 1)
                o2, b = lib.call(ask, copy.deepcopy(h), what, random.Random(where), d)
                recs.append(dict(o, exc2=o2['exc'], ev='ask', q='%s %d' % (what, where), ans=fold(a), fresh=fold(b), st=state(g, lat)))
    return recs


STAGES = [{'name': 'schedules', 'module': 'TraceLook', 'plan': plan, 'chunks': 7, 'workers': 7}]
