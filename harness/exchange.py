"""C21/C22: runs of several ranks of crys.py over a stand-in of MPI (mpi.py), under schedules of Exchange.tla."""
import contextlib
import gc
import importlib.util
import json
import os
import random
import runpy
import sys
import types

import lib
import mpi
from decomp import meshes
from transforms import LAT, surface

CFG = ('SPECIFICATION %s\nINVARIANTS Right NoDeadlock NothingLeft RootOrder Emit\n%sCHECK_DEADLOCK FALSE\n'
       'CONSTANTS MaxN = %d Fields = %d Wait = TRUE Export = %s\n')
FIELDS = ['T', 'Hi', 'Hw']
NEWHI = 500
STEP = 5000001       # numbers that need more than single precision


def schedules(ctx):
    t = ctx.thorough
    ctx.model('Exchange', CFG % ('Fair', 'PROPERTY Ends\n', 2, 3, 'FALSE'))
    ctx.model('Exchange', CFG % ('Fair' if t else 'Spec', 'PROPERTY Ends\n' if t else '', 3, 1, 'FALSE'), workers=4, timeout=800)
    out = []
    for n, k, num in ((2, 3, 60), (3, 3, 150), (4, 3, 150)):
        b = ctx.model('Exchange', CFG % ('Spec', '', n, k, 'TRUE'),
                      args=('-simulate', 'num=%d' % (num * (10 if t else 1)), '-seed', str(ctx.seed), '-depth', '400'), timeout=800)
        out += [x for x in b if x['n'] == n]
    return out


def plan_main(ctx):
    rnd = random.Random(ctx.seed * 3 + 1)
    scns = []
    for b in schedules(ctx):
        scns.append({'n': b['n'], 'sched': b['sched'], 'policy': rnd.choice(['random', 'late', 'early', 'first']), 'seed': rnd.randrange(1 << 30)})
    for _ in range(400 if ctx.thorough else 40):
        scns.append({'n': rnd.choice([1, 2, 3, 4, 5, 6, 8, 10]), 'sched': [], 'policy': rnd.choice(['random', 'late', 'early', 'first']), 'seed': rnd.randrange(1 << 30)})
    return scns


# values: which rank, which field, which face, which version
def val(r, k, g, v=0):
    return float(((r * 4 + k) * 8 + v) * STEP + g)


def back(x):
    return int(x) if x == x and abs(x) < 2.1e9 and x == int(x) else -1


def even(rnd):
    """A flat sheet: many edges of one length, many faces of one area."""
    pts, tris = lib.rect_mesh(rnd.randint(3, 6), rnd.randint(3, 5), step=32, flipdiag=lambda i, j: rnd.random() < 0.3)
    tris = list(tris)
    rnd.shuffle(tris)
    return surface((pts, tris), [rnd.randrange(2) for _ in tris], ['wing', 'body'])


def case(rnd, n, flat=0.0):
    """Faces of a surface for n ranks: enough faces, every edge has at most two."""
    while True:
        fs = even(rnd) if rnd.random() < flat else meshes(rnd, 0.03)
        if len(fs) < 2 * n or len(fs) > 700:
            continue
        edges = {}
        for f in fs:
            for a in range(3):
                edges.setdefault(frozenset((f['t'][a], f['t'][(a + 1) % 3])), []).append(1)
        if max(map(len, edges.values())) <= 2 and len({frozenset(f['t']) for f in fs}) == len(fs):
            return fs


def files_of(fs, rnd, n):
    """The same grid for every rank, with the values of its own; faces in the order of the file."""
    zones = []
    order = []
    for z in dict.fromkeys(f['z'] for f in fs):
        mine = [i for i, f in enumerate(fs) if f['z'] == z]
        pts = sorted({p for i in mine for p in fs[i]['t']})
        rnd.shuffle(pts)
        zones.append((z, pts, [[pts.index(p) for p in fs[i]['t']] for i in mine]))
        order += mine
    ps = sorted({p for f in fs for p in f['t']})
    faces = [[ps.index(p) + 1 for p in fs[i]['t']] for i in order]
    models = []
    for r in range(n):
        g0, zs = 0, []
        for z, pts, tris in zones:
            zs.append({'name': z, 'xyz': [LAT.xyz(p) for p in pts], 'tris': tris,
                       'data': [[val(r, k, g0 + j + 1) for j in range(len(tris))] for k in range(3)]})
            g0 += len(tris)
        models.append({'title': 'mesh', 'vars': FIELDS, 'zones': zs})
    key = {frozenset(LAT.xyz(p) for p in fs[i]['t']): g + 1 for g, i in enumerate(order)}
    return faces, models, key


def keyer(key):
    rounded = {frozenset(tuple(round(x, 9) for x in p) for p in k): g for k, g in key.items()}
    return lambda pts: rounded.get(frozenset(tuple(round(float(x), 9) for x in p) for p in pts), 0)


def face_key(kf, f):
    return kf([tuple(n.P[i] for i in range(3)) for n in f.Nodes])


def state(g, kf):
    """Values of all faces: per face number (the data of crys), the zone."""
    vals, zone = {}, {}
    for zi, z in enumerate(g.Zones):
        for f in z.Faces:
            k = face_key(kf, f)
            vals[k] = [back(float(f.Data[x])) for x in FIELDS]
            zone[k] = zi
    ks = sorted(vals)
    return {'faces': ks, 'vals': [vals[k] for k in ks], 'zone': [zone[k] for k in ks]}


def perturb(comm, seed):
    """Objects of different ranks lie at different places."""
    rnd = random.Random(seed * 31 + comm.rank)
    keep = [bytearray(rnd.randrange(1, 600)) for _ in range(rnd.randrange(0, 5000))]
    del keep[::2]
    gc.disable()
    return keep


# ---- the whole program ----------------------------------------------------------------------------------------

def main_rank(comm, a):
    keep = perturb(comm, a['seed'])
    os.chdir(a['cwd'])
    seen = {'swim': None, 'remesh': []}
    kf = keyer(a['key'])

    def hi(t, h, w):
        seen['swim'] = [[back(float(x)) for x in v] for v in (t, h, w)]
        h[:] = [{0: x - 300, 2: 0.0}.get(int(x) % STEP % 4, x + NEWHI) for x in h]       # more, less, no ice at all
    swim = types.ModuleType('swim')
    swim.hi = hi
    sys.modules['swim'] = swim
    rem = types.ModuleType('remeshing')

    class TongRemesher:
        def __init__(self, *p, **k):
            pass

        def remesh(self, g):
            seen['remesh'].append(state(g, kf))

        __call__ = remesh
    rem.TongRemesher = TongRemesher
    sys.modules['remeshing'] = rem
    import multiprocessing as mp

    class Pool:
        def __init__(self, *p, **k):
            pass

        def map(self, fn, xs, chunksize=None):
            return [fn(x) for x in xs]

        def __enter__(self):
            return self

        def __exit__(self, *p):
            pass

        def close(self):
            pass

        join = terminate = close
        starmap = None
        imap = map
    mp.Pool = Pool
    sys.modules.pop('crys', None)
    ns = runpy.run_path(os.path.join(lib.REPO, 'crysgsu', 'crys.py'), run_name='__main__')
    del keep
    g = ns['g']
    own = [face_key(kf, f) for f in g.Zones[comm.rank].Faces]
    return {'state': state(g, kf), 'own': own, 'swim': seen['swim'], 'remesh': seen['remesh']}


def execute_main(s):
    rnd = random.Random(s['seed'])
    n = s['n']
    fs = case(rnd, n)
    faces, models, key = files_of(fs, rnd, n)
    kf = keyer(key)
    with lib.scratch() as tmp:
        args = []
        for r in range(n):
            d = os.path.join(tmp, str(r))
            os.makedirs(os.path.join(d, 'cases', 'grids'))
            os.makedirs(os.path.join(d, 'run'))
            lib.write_dat(os.path.join(d, 'cases', 'grids', 'bunny.dat'), models[r])
            open(os.path.join(d, 'cases', 'grids', 'bunny.json'), 'w').write('{}')
            args.append({'cwd': os.path.join(d, 'run'), 'key': key, 'seed': s['seed']})
        if rnd.random() < 0.3:      # a result of an earlier run
            lib.write_dat(os.path.join(tmp, '0', 'remeshed.dat'), models[-1])
        res, err, log = mpi.run(n, main_rank, args, s['sched'], s['policy'], s['seed'])
        base = {'exc': err, 'n': n, 'faces': faces}
        if err:
            return [dict(base, ev='ranks')]
        recs = [dict(base, ev='ranks', ranks=[{'zone': r['state']['zone'], 'own': r['own'], 'known': r['state']['faces'] == list(range(1, len(faces) + 1)),
                                               'swim': r['swim'] or [[], [], []]} for r in res])]
        zone = res[0]['state']['zone']
        if not recs[0]['ranks'][0]['known']:
            return recs
        # rank 0 has given the gathered heights to its faces
        recs.append(dict(base, ev='exchange', zone=zone, nf=3, ver=[0, 0, 0], last=0, main=True, vals=[r['state']['vals'] for r in res]))
        root = res[0]
        out = {'exc': '', 'vals': []}
        try:
            m = lib.parse_dat(os.path.join(tmp, '0', 'remeshed.dat'))
            o = {}
            for zi, z in enumerate(m['zones']):
                for j, t in enumerate(z['tris']):
                    o[kf([z['xyz'][a] for a in t])] = [back(z['data'][m['vars'].index(x)][j]) for x in FIELDS] + [zi]
            out['vals'] = [o.get(g, [-1, -1, -1, -1]) for g in range(1, len(faces) + 1)]
        except (OSError, lib.Malformed, ValueError) as e:
            out['exc'] = str(e)[:200]
        recs.append(dict(base, ev='gather', zone=zone, own=[r['own'] for r in res], add=NEWHI, remeshed=[len(r['remesh']) for r in res],
                         seen=[x['vals'] for x in root['remesh']], out=out))
        return recs


# ---- functions of the module, on grids with a history ---------------------------------------------------------

@contextlib.contextmanager
def crys_module():
    spec = importlib.util.spec_from_file_location('crys_rank', os.path.join(lib.REPO, 'crysgsu', 'crys.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    yield m


def may_collapse(e):
    """An inner edge whose collapse leaves a surface."""
    a, b = e.Nodes
    if any(len(x.Faces) != 2 for n in (a, b) for x in n.Edges):
        return False

    def near(n):
        return {id(m) for x in n.Edges for m in x.Nodes if m is not n}
    return len(near(a) & near(b)) == 2 and len(near(a) | near(b)) > 6


def transform(g, n, a):
    """The history of the grid, the same for every rank."""
    rnd = random.Random(a['seed'])
    k = rnd.randrange(3)
    if k == 0:
        g.decompose_farhat(count=n)
    elif k == 1:
        g.decompose_hierarchical(levels=a['levels'])
    else:
        g.decompose_farhat(count=n)
    for _ in range(rnd.choice([0, 0, 1, 3, 6, 12, 24])):
        k = rnd.randrange(3)
        border = [e for e in g.Edges if len({id(z) for f in e.Faces for z in g.Zones if f in z.Faces}) == 2] if k == 0 else []
        e = rnd.choice(border) if border and rnd.random() < 0.6 else g.Edges[rnd.randrange(len(g.Edges))]
        if k == 0:
            g.cut_edge(e, (e.Nodes[0].P + e.Nodes[1].P) * 0.5)
        elif k == 1 and may_collapse(e):
            g.collapse_edge(e)
        else:
            f = g.Faces[rnd.randrange(len(g.Faces))]
            g.divide_face(f, (f.Nodes[0].P + f.Nodes[1].P + f.Nodes[2].P) * (1.0 / 3.0))
    return g


def function_rank(comm, a):
    keep = perturb(comm, a['seed'])
    sys.modules['swim'] = types.ModuleType('swim')
    sys.modules['remeshing'] = types.ModuleType('remeshing')
    sys.modules['remeshing'].TongRemesher = None
    import gsu
    from gsu.zones_adjacency_matrix import ZonesAdjacencyMatrix
    import numpy as np
    r = comm.rank
    with crys_module() as c:
        g = gsu.Grid()
        g.load(a['file'])
        a['history'](g, comm.size, a)
        n = len(g.Zones)
        num = {id(f): i + 1 for i, f in enumerate(g.Faces)}
        zone = [next(zi for zi, z in enumerate(g.Zones) if f in z.Faces) for f in g.Faces]
        pos = {}
        faces = [[pos.setdefault(tuple(p.P[i] for i in range(3)), len(pos) + 1) for p in f.Nodes] for f in g.Faces]
        z = g.Zones[r]
        zam = ZonesAdjacencyMatrix(g.Edges, g.Zones)
        c.comm, c.rank, c.z, c.g, c.root = comm, r, z, g, 0
        b = c.get_mpi_borders(r, zam, z, g)
        width = max([len(x) for x in b.values()], default=0)
        send, recv = np.full((len(b), width), -7.0), np.full((len(b), width), -7.0)
        for f in z.Faces:
            f.Zone = z.Id
        states = []
        for ver in range(a['rounds']):
            for i, f in enumerate(g.Faces):
                for k, x in enumerate(FIELDS):
                    f.Data[x] = val(r, k, i + 1, ver)
            for k in a['order']:
                c.exchange(b, send, recv, FIELDS[k])
            states.append([[back(float(f.Data[x])) for x in FIELDS] for f in g.Faces])
    del keep
    return {'n': n, 'zone': zone, 'faces': faces, 'states': states, 'nb': sorted(int(x) for x in b), 'num': len(num)}


def plan_functions(ctx):
    rnd = random.Random(ctx.seed * 5 + 2)
    out = []
    for _ in range(1500 if ctx.thorough else 300):
        out.append({'n': rnd.choice([2, 3, 4, 5, 2, 3, 4, 5, 9]), 'policy': rnd.choice(['random', 'late', 'early', 'first']), 'seed': rnd.randrange(1 << 30)})
    return out


def execute_functions(s):
    rnd = random.Random(s['seed'])
    n = s['n']
    fs = case(rnd, n, 0.4)
    faces, models, key = files_of(fs, rnd, n)
    with lib.scratch() as tmp:
        fn = os.path.join(tmp, 'g.dat')
        lib.write_dat(fn, models[0])
        order = rnd.choice([[0, 1, 2], [0], [2, 0], [1, 1, 2]])
        a = {'file': fn, 'seed': s['seed'], 'rounds': rnd.randint(1, 2), 'order': order, 'history': transform, 'levels': n.bit_length()}
        n = ranks_of(a, n)
        if n < 2:
            return []
        res, err, log = mpi.run(n, function_rank, [a] * n, [], s['policy'], s['seed'])
    if err:
        return [{'ev': 'ranks', 'exc': err}]
    recs = [{'ev': 'same', 'exc': '', 'same': all(r['zone'] == res[0]['zone'] and r['faces'] == res[0]['faces'] for r in res)}]
    for v in range(a['rounds']):
        recs.append({'ev': 'exchange', 'exc': '', 'n': n, 'faces': res[0]['faces'], 'zone': res[0]['zone'], 'nf': 3, 'main': False, 'last': v,
                     'ver': [v if k in order else -1 for k in range(3)], 'vals': [r['states'][v] for r in res]})
    return recs


def ranks_of(a, n):
    """How many zones the history makes."""
    import gsu
    with lib.quiet():
        g = gsu.Grid()
        g.load(a['file'])
        a['history'](g, n, a)
    return len(g.Zones) if all(z.Faces for z in g.Zones) else 0
