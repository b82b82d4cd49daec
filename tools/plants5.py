G = 'crysgsu/gsu/grid.py'
E = 'crysgsu/gsu/edge.py'
D = 'crysgsu/drops.py'
B = 'crysgsu/geom/box.py'
R = 'crysgsu/remeshing.py'
C = 'crysgsu/crys.py'
SP = 'crysgsu/split.py'
M = 'crysgsu/gsu/zones_adjacency_matrix.py'
LZ = 'crysgsu/convert/lazurit_to_crystal.py'

NAMES = '''
names = ('T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor')
'''

FAKES = '''
import types, runpy
import numpy as np
import multiprocessing
class Pool:
    def __init__(self, processes=None):
        pass
    def map(self, f, xs):
        return [f(x) for x in xs]
multiprocessing.Pool = Pool
sw = types.ModuleType('swim')
sw.hi = lambda t, h, w: None
sys.modules['swim'] = sw
m = types.ModuleType('mpi4py')
sys.modules['mpi4py'] = m
'''

PLANTS = [
 dict(id='c01-hash', prop='C01', needs='a title or the name of a zone with a number sign',
  breaks='a line of the file is taken for a comment',
  edits=[(G, "                if line[0] == '#':", "                if '#' in line:")],
  demo='''
pts, tris = sheet(2, 1)
try:
    g = load(write('a.dat', grid_text([('part', pts, tris, [[1.0] * len(tris)] * 3)], title='wing #2')))
    name = g.Name
except Exception as x:
    name = repr(x)
print(name)
sys.exit(0 if name == 'wing #2' else 1)
'''),
 dict(id='c03-packing', prop='C03', needs='a line of packing that only begins right',
  breaks='a malformed file is accepted',
  edits=[(G, "                    if 'DATAPACKING=BLOCK' != packing_line[:-1]:", "                    if 'DATAPACKING=BLOCK' not in packing_line:")],
  demo='''
pts, tris = sheet(2, 1)
t = grid_text([('part', pts, tris, [[1.0] * len(tris)] * 3)])
def accepted(t):
    try:
        load(write('a.dat', t))
        return True
    except Exception as x:
        return False
r = accepted(t), accepted(t.replace('DATAPACKING=BLOCK', 'DATAPACKING=BLOCKED'))
print(r)
sys.exit(0 if r == (True, False) else 1)
'''),
 dict(id='c03-zonetype', prop='C03', needs='a second zone of another type',
  breaks='a zone of quads or bricks in a later place is read as if it had triangles',
  edits=[(G, "                    if 'ZONETYPE=FETRIANGLE' != zonetype_line[:-1]:", "                    if len(self.Zones) == 1 and 'ZONETYPE=FETRIANGLE' != zonetype_line[:-1]:")],
  demo='''
pts, tris = sheet(2, 1)
t = grid_text([('a', pts, tris[:2], [[1.0] * 2] * 3), ('b', pts, tris[2:], [[1.0] * 2] * 3)])
def accepted(t):
    try:
        load(write('a.dat', t))
        return True
    except Exception as x:
        return False
i = t.rindex('FETRIANGLE')
r = accepted(t), accepted(t[:i] + 'FEQUADRILATERAL' + t[i + len('FETRIANGLE'):])
print(r)
sys.exit(0 if r == (True, False) else 1)
'''),
 dict(id='c05-pair', prop='C05', needs='a hierarchical decomposition that comes to a zone of exactly two faces',
  breaks='a zone that can be split stays unsplit',
  edits=[(G, "        if len(zone.Faces) < 2:", "        if len(zone.Faces) <= 2:")],
  demo='''
pts, tris = sheet(2, 1)
g = load(write('a.dat', grid_text([('a', pts, tris, [[1.0] * 4] * 3)])))
quietly(g.decompose_hierarchical, levels=3)
r = sorted((z.Name, len(z.Faces)) for z in g.Zones)
print(r)
sys.exit(0 if r == [('hll', 1), ('hlr', 1), ('hrl', 1), ('hrr', 1)] else 1)
'''),
 dict(id='c06-zero-factor', prop='C06', needs='a grid that has recovery factors of its own, some of them zero',
  breaks='values of the grid are replaced by the default one',
  edits=[(SP, "        if not recovery_factor_name in f.Data.keys():", "        if not f[recovery_factor_name]:")],
  demo=NAMES + '''
import split
pts, tris = sheet(2, 1)
rows = [[1.0] * 4] * 10 + [[0.0, 0.5, 0.0, 0.75]]
p = write('a.dat', grid_text([('a', pts, tris, rows)], names))
quietly(split.split, p, None, TMP + '/o.dat', 'n1')
r = [f['RecoveryFactor'] for f in load(TMP + '/o.dat').Faces]
print(r)
sys.exit(0 if r == [0.0, 0.5, 0.0, 0.75] else 1)
'''),
 dict(id='c07-same-names', prop='C07', needs='two zones of equal names, both of them neighbours of a third one',
  breaks='borders list edges of another border too',
  edits=[(E, "        return ((z0 == fz0) and (z1 == fz1)) or ((z0 == fz1) and (z1 == fz0))",
             "        ns = [z0.Name, z1.Name]\n\n        return [fz0.Name, fz1.Name] in (ns, ns[::-1])")],
  demo=NAMES + '''
pts, tris = sheet(6, 1)
z = lambda n, a, b: (n, pts, tris[a:b], [[1.0] * (b - a)] * len(names))
g = load(write('a.dat', grid_text([z('side', 0, 4), z('mid', 4, 8), z('side', 8, 12)], names)))
g.store_mpi(TMP + '/a', '000000000000')
ls = open(TMP + '/a_00001_000000000000.cry').read().split('\\n')
b = [l for l in ls if l.startswith('[')]
print(b)
sys.exit(0 if [len(l.split()) for l in b] == [2, 2] else 1)
'''),
 dict(id='c15-border', prop='C15', needs='a droplet that is exactly on the upper border of the air box in Y',
  breaks='it is said to have left the box',
  edits=[(B, "(p.Y <= self.MaxY)", "(p.Y < self.MaxY)")],
  demo='''
import drops
V = geom.Vect
s = drops.Space([(V(0, 0, 0), V(1, 0, 0)), (V(8, 1, 1), V(1, 0, 0))], [(0, 0, 0), (8, 1, 1)])
c = geom.TrianglesCloud([geom.Triangle(V(20, 5, 5), V(21, 5, 5), V(20, 6, 5))])
r = [s.fly(V(0.5, y, 0.5), V(1, 0, 0), 1.0, 0.5, c, 4)[0] for y in (0.5, 0.0, 1.0, 1.5)]
print(r)
sys.exit(0 if r == ['N', 'N', 'N', 'O'] else 1)
'''),
 dict(id='c15-spare-step', prop='C15', needs='a droplet that reaches the surface with its last step',
  breaks='the flight is said to be too long although the surface is crossed within the allowed steps',
  edits=[(D, "            if tr.points_count() > max_steps:", "            if tr.points_count() >= max_steps:")],
  demo='''
import drops
V = geom.Vect
s = drops.Space([(V(0, 0, 0), V(1, 0, 0)), (V(8, 1, 1), V(1, 0, 0))], [(0, 0, 0), (8, 1, 1)])
c = geom.TrianglesCloud([geom.Triangle(V(3.25, -9, -9), V(3.25, 9, -9), V(3.25, 0.5, 9))])
r = [s.fly(V(0.5, 0.5, 0.5), V(1, 0, 0), 1.0, 1.0, c, k)[0] for k in (2, 3, 4)]
print(r)
sys.exit(0 if r == ['N', 'C', 'C'] else 1)
'''),
 dict(id='c16-threshold', prop='C16', needs='a face whose stall is exactly the threshold',
  breaks='a droplet leaves a face that is not above the threshold',
  edits=[(D, "        if stall_value > stall_thr:", "        if stall_value >= stall_thr:")],
  demo='''
import drops
pts = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (-1, -1, 2), (-1, 3, 2), (3, -1, 2)]
names = ('T', 'Hw', 'Hi', 'MImp2', 'Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ')
rows = [[0.0, 0.0] for _ in names]
rows[4], rows[5], rows[8] = [0.5, 0.0], [1e-4, 1e-4], [10.0, 0.0]
a = write('a.dat', grid_text([('z', pts, [(0, 1, 2), (3, 4, 5)], rows)], names))
corners = [(x, y, z) for x in (-9, 9) for y in (-9, 9) for z in (-9, 9)]
b = write('b.dat', 'TITLE="air"\\nVARIABLES=x\\nZONE FEBRICK a b c d 8 f g 0\\n'
          + ''.join('%r %r %r 0 0 0.0 0.0 10.0\\n' % tuple(map(float, c)) for c in corners))
def wet(thr):
    quietly(drops.drops, a, b, TMP + '/o.dat', 1e-4, 0.05, thr, 200)
    return load(TMP + '/o.dat').Faces[1]['MImp2'] > 0
r = [wet(t) for t in (0.25, 0.5, 1.0)]
print(r)
sys.exit(0 if r == [True, False, False] else 1)
'''),
 dict(id='c17-max-once', prop='C17', needs='two or more iterations of heights smoothing where the limit works',
  breaks='the limit of the later iterations is taken from the heights before smoothing',
  edits=[(R, "        # Smoothing iterations.\n", "        max_h = max([face.ice_shift for face in self.grid.Faces])\n\n        # Smoothing iterations.\n"),
         (R, "            # Calculate max h.\n            max_h = max([face.ice_shift for face in self.grid.Faces])\n\n", "")],
  demo='''
import json
from remeshing import TongRemesher
pts, tris = sheet(4, 1)
hi = [0.0] * 4 + [0.1] + [0.0] * 3
p = write('a.dat', grid_text([('z', pts, tris, [[0.0] * 8, [0.0] * 8, hi])]))
j = write('a.json', json.dumps({'remesh_nsteps_min': 1, 'remesh_nsteps_max': 1, 'remesh_hsmooth_steps': 2, 'remesh_hsmooth_alfa': 0.5, 'remesh_hsmooth_beta': 0.3}))
g = load(p)
quietly(TongRemesher('a.dat', j, TMP), g)
# flat surface, all faces of one area: heights of the faces by the law
h, nb = list(hi), {}
for e in g.Edges:
    if len(e.Faces) == 2:
        nb.setdefault(0, []).append(tuple(g.Faces.index(f) for f in e.Faces))
for _ in range(2):
    m, d = max(h), [0.0] * 8
    for a, b in nb[0]:
        if h[a] < h[b]:
            a, b = b, a
        q = 0.3 * min(h[a] - h[b], 0.5 * m)
        d[a] -= q
        d[b] += q
    h = [x + y for x, y in zip(h, d)]
bad = max(abs(n.P.Z - sum(h[g.Faces.index(f)] for f in n.Faces) / len(n.Faces)) for n in g.Nodes)
print(bad)
sys.exit(0 if bad < 1e-6 else 1)
'''),
 dict(id='c20-long-names', prop='C20', needs='blocks whose names differ in length by more than the names of the two kinds of files',
  breaks='files of different blocks are paired and the conversion fails',
  edits=[(LZ, "    all_files = sorted([fn for fn in os.listdir(args.in_dir) if '.TEC' in fn])", "    all_files = sorted([fn for fn in os.listdir(args.in_dir) if '.TEC' in fn], key=lambda fn: (len(fn), fn))")],
  demo='''
import subprocess
os.makedirs(TMP + '/in')
def block(name, k):
    x = [[10.0 * k + i for j in range(2) for i in range(2)], [float(j) for j in range(2) for i in range(2)], [0.0] * 4]
    txt = lambda rows: ''.join(' '.join(map(str, r)) + '\\n' for r in rows)
    write('in/TEC_WALL_Grid_%s.TEC' % name, 'T\\nV\\nZ\\nI= 2 J= 2 K= 1\\nA\\nB\\n' + txt(x))
    write('in/TEC_WALL_Solution_%s.TEC' % name, 'T\\n' * 6 + txt([[float(k)] for k in range(1, 9)]))
for k, n in enumerate(('B1', 'LEFTWING_B2')):
    block(n, k)
r = subprocess.run([sys.executable, REPO + '/crysgsu/convert/lazurit_to_crystal.py', TMP + '/in', TMP + '/o.dat'], cwd=TMP, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                   env=dict(os.environ, PYTHONPATH=REPO + '/crysgsu', PYTHONIOENCODING='utf-8'))
print(r.stdout.decode('utf-8', 'replace')[-300:])
sys.exit(0 if r.returncode == 0 and sorted(z.Name for z in load(TMP + '/o.dat').Zones) == ['B1', 'B2'] else 1)
'''),
 dict(id='c21-one-edge', prop='C21', needs='two neighbouring processes with exactly one common edge',
  breaks='nothing is exchanged over a border of one edge',
  edits=[(C, "        if le > 0:\n            lz = g.Zones[li]\n            mpi_borders[li]", "        if le > 1:\n            lz = g.Zones[li]\n            mpi_borders[li]")],
  demo=FAKES + '''
m.MPI = types.SimpleNamespace()
import crys
pts, tris = sheet(3, 1)
g = load(write('a.dat', grid_text([('a', pts, tris, [[1.0] * 6] * 3)])))
g.decompose_linear(3)
zam = gsu.ZonesAdjacencyMatrix(g.Edges, g.Zones)
r = [{k: len(v) for k, v in crys.get_mpi_borders(i, zam, z, g).items()} for i, z in enumerate(g.Zones)]
print(r)
sys.exit(0 if r == [{1: 1}, {0: 1, 2: 1}, {1: 1}] else 1)
'''),
 dict(id='c22-dry-kept', prop='C22', needs='a face that had ice and whose ice is gone by the solver',
  breaks='the grid keeps the old height of the face',
  edits=[(C, "                f.Data['Hi'] = new_h", "                f.Data['Hi'] = new_h or f.Data['Hi']")],
  demo=FAKES + NAMES + '''
def hi(t, h, w):
    h[0] = 0.0
    h[1] = 7.0
sw.hi = hi
class Comm:
    def Get_rank(self):
        return 0
    def Get_size(self):
        return 1
    def gather(self, x, root):
        return [x]
    def Gatherv(self, sendbuf, recvbuf, root):
        recvbuf[0][:] = np.ravel(sendbuf)
    def Ibarrier(self):
        pass
m.MPI = types.SimpleNamespace(COMM_WORLD=Comm(), Request=types.SimpleNamespace(Waitall=lambda r: None))
import remeshing
seen = []
class Tong:
    def __init__(self, **k):
        pass
    def __call__(self, g):
        seen.extend(f['Hi'] for f in g.Faces)
remeshing.TongRemesher = Tong
pts, tris = sheet(2, 1)
write('cases/grids/bunny.dat', grid_text([('z', pts, tris, [[1.0, 2.0, 3.0, 4.0]] * len(names))], names))
write('cases/grids/bunny.json', '{}')
os.makedirs(TMP + '/w')
os.chdir(TMP + '/w')
try:
    quietly(runpy.run_path, REPO + '/crysgsu/crys.py', run_name='__main__')
except Exception as e:
    print(repr(e))
os.chdir(REPO)
print(seen)
sys.exit(0 if seen == [0.0, 7.0, 3.0, 4.0] else 1)
'''),
 dict(id='c23-asked-twice', prop='C23', needs='the lengths of borders are asked for before statistics (or the inner edges) of the same matrix',
  breaks='asking for borders destroys the counts of inner and border edges',
  edits=[(M, "        line2 = line[:]", "        line2 = line")],
  demo='''
pts, tris = sheet(3, 1)
g = load(write('a.dat', grid_text([('a', pts, tris[:3], [[1.0] * 3] * 3), ('b', pts, tris[3:], [[1.0] * 3] * 3)])))
zam = gsu.ZonesAdjacencyMatrix(g.Edges, g.Zones)
a = zam.edges_statistics()
zam.max_cross_border_len()
b = zam.edges_statistics()
print(a, b)
sys.exit(0 if a == b else 1)
'''),
 dict(id='c24-moving-mean', prop='C24', needs='three or more zones (or zones of different sizes)',
  breaks='later zones move from a point that has moved already',
  edits=[(G, "            z_mean = mean_p(z.Nodes)\n            shift = (z_mean - g_mean) * k", "            z_mean = mean_p(z.Nodes)\n            shift = (z_mean - mean_p(self.Nodes)) * k"),
         (G, "        # Grid mean point.\n        g_mean = mean_p(self.Nodes)\n\n", "")],
  demo='''
pts, tris = sheet(3, 1)
z = lambda n, a, b: (n, [(10.0 * a + x, y, w) for (x, y, w) in [pts[i] for i in sorted({q for t in tris[a:b] for q in t})]],
                     [tuple(sorted({q for t in tris[a:b] for q in t}).index(q) for q in t) for t in tris[a:b]], [[1.0] * (b - a)] * 3)
g = gsu.Grid()
g.load(write('a.dat', grid_text([z('a', 0, 1), z('b', 1, 3), z('c', 3, 6)])), is_merge_same_nodes=False)
mean = lambda ns: [sum(n.P[i] for n in ns) / len(ns) for i in range(3)]
gm, old = mean(g.Nodes), [mean(q.Nodes) for q in g.Zones]
g.move_from_mean_point(0.5)
bad = max(abs(b - (a + 0.5 * (a - c))) for q, o in zip(g.Zones, old) for a, b, c in zip(o, mean(q.Nodes), gm))
print(bad)
sys.exit(0 if bad < 1e-9 else 1)
'''),
]
