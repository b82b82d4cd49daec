G = 'crysgsu/gsu/grid.py'
Z = 'crysgsu/gsu/zone.py'
PLANTS = [
 dict(id='c01-last-digits', prop='C01', needs='face values whose mantissa uses all 53 bits',
  breaks='stored face values lose their last bits, so storing and loading a grid changes the values',
  edits=[(Z, "i_list = ['{0:.18e}'.format(face[e]) for face in self.Faces]", "i_list = ['{0:.15e}'.format(face[e]) for face in self.Faces]")],
  demo='''
pts, tris = sheet(1, 1)
vals = [0.1 + 0.2, 1.0 / 3.0]
p = write('a.dat', grid_text([('z', pts, tris, [vals, vals, vals])]))
g = load(p)
g.store(TMP + '/b.dat')
h = load(TMP + '/b.dat')
got = [f['Hw'] for f in h.Faces]
print(got)
sys.exit(0 if got == vals else 1)
'''),
 dict(id='c01-second-load', prop='C01', needs='loading a second file into the same Grid object, with points of the first file at the same positions',
  breaks='loading into a used grid raises because the coordinates of the previous grid are still registered',
  edits=[(G, "        self.Zones.clear()\n        self.RoundedCoordsBag.clear()\n", "        self.Zones.clear()\n        self.RoundedCoordsBag = set([c for c in self.RoundedCoordsBag if c[0] == 0.0 and c[1] == 0.0])\n")],
  demo='''
pts, tris = sheet(2, 1)
p = write('a.dat', grid_text([('z', pts, tris, [[1.0] * 4] * 3)]))
g = load(p)
try:
    g.load(p)
except Exception as e:
    print(e)
    sys.exit(1)
sys.exit(0 if len(g.Faces) == 4 and len(g.Nodes) == 6 else 1)
'''),
 dict(id='c02-coarse-merge', prop='C02', needs='two distinct points closer than 1e-9 but farther than 1e-10 in some coordinate',
  breaks='distinct points are merged into one node',
  edits=[('crysgsu/gsu/node.py', "self.RoundedCoords = self.P.rounded_coords_tuple(10)", "self.RoundedCoords = self.P.rounded_coords_tuple(9)")],
  demo='''
pts = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (2e-10, 0, 1)]
pts2 = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (2e-10, 0, 0), (1, 1, 1), (2, 2, 3)]
p = write('a.dat', grid_text([('z', pts2, [(0, 1, 2), (3, 4, 5)], [[1.0] * 2] * 3)]))
g = load(p)
print(len(g.Nodes))
sys.exit(0 if len(g.Nodes) == 6 else 1)
'''),
 dict(id='c03-long-connectivity', prop='C03', needs='a connectivity line with four node numbers',
  breaks='a malformed file is silently turned into a grid',
  edits=[(G, "if len(nodes) != 3:", "if len(nodes) < 3:")],
  demo='''
pts, tris = sheet(1, 1)
t = grid_text([('z', pts, tris, [[1.0] * 2] * 3)])
lines = t.split('\\n')
lines[-2] += ' 1'
p = write('a.dat', '\\n'.join(lines))
try:
    load(p)
except Exception:
    sys.exit(0)
print('accepted')
sys.exit(1)
'''),
 dict(id='c04-mono-after-fixed', prop='C04', needs='a mono decomposition after a decomposition with fixed zones',
  breaks='faces of the formerly fixed zone stay in a zone the grid no longer has',
  edits=[(G, "        zone = gsu.Zone('mono')\n        self.Zones.append(zone)\n        for face in self.Faces:\n            zone.add_face(face)\n", "        zone = gsu.Zone('mono')\n        self.Zones.append(zone)\n        for face in self.Faces:\n            if face.Zone is None:\n                zone.add_face(face)\n")],
  demo='''
pts, tris = sheet(2, 2)
p = write('a.dat', grid_text([('a', pts, tris[:2], [[1.0] * 2] * 3), ('b', pts, tris[2:], [[1.0] * 6] * 3)]))
g = load(p)
try:
    quietly(g.decompose_hierarchical, levels=2, fixed_zones=['a'])
    g.decompose_mono()
    n = len(g.Zones[0].Faces)
except Exception as e:
    n = repr(e)
print(n)
sys.exit(0 if n == 8 else 1)
'''),
 dict(id='c05-remainder-first', prop='C05', needs='a number of faces whose remainder modulo the number of zones is two or more',
  breaks='Farhat zones differ in size by more than one face',
  edits=[(G, "zone_sizes = [fc // count + (fc % count > i) for i in range(count)]", "zone_sizes = [fc // count + (fc % count if i == 0 else 0) for i in range(count)]")],
  demo='''
pts, tris = sheet(4, 1)
p = write('a.dat', grid_text([('z', pts, tris, [[1.0] * len(tris)] * 3)]))
g = load(p)
g.decompose_farhat(3)
s = [len(z.Faces) for z in g.Zones]
print(s)
sys.exit(0 if max(s) - min(s) <= 1 else 1)
'''),
 dict(id='c05-one-sided-metric', prop='C05', needs='a mesh whose faces are listed so that common edges see the right hand face first along one axis only',
  breaks='the hierarchical decomposition counts only the cut edges listed in one direction and may cut along a worse axis',
  edits=[(G, "                    if (ff.Zone == zl and sf.Zone == zr) or (ff.Zone == zr and sf.Zone == zl):", "                    if ff.Zone == zl and sf.Zone == zr:")],
  demo='''
# a strip along y: cutting y is best; the faces are listed from the right to the left
pts, tris = sheet(8, 2)
pts = [(y, x, z) for x, y, z in pts]
tris = [t for _, t in sorted(enumerate(tris), key=lambda q: -sum(pts[k][0] for k in q[1]))]
p = write('a.dat', grid_text([('z', pts, tris, [[1.0] * len(tris)] * 3)]))
g = load(p)
cuts = []
def cut(i):
    s = sorted(f.get_center()[i] for f in g.Faces)
    b = s[len(s) // 2]
    side = {id(f): f.get_center()[i] < b for f in g.Faces}
    if len(set(side.values())) < 2:
        return 10 ** 9
    return sum(1 for e in g.Edges if len(e.Faces) == 2 and side[id(e.Faces[0])] != side[id(e.Faces[1])])
best = min(cut(i) for i in range(3))
quietly(g.decompose_hierarchical, levels=2)
got = sum(1 for e in g.Edges if len(e.Faces) == 2 and e.Faces[0].Zone is not e.Faces[1].Zone)
print(best, got)
sys.exit(0 if got == best else 1)
'''),
 dict(id='c06-sorted-ids', prop='C06', needs='a zone whose faces are not listed in the order of their identifiers (Farhat after a walk that goes backwards)',
  breaks='the identifiers listed in a calculation file belong to other faces than the data and the connectivity lists',
  edits=[(Z, "        i_list = [str(face.GloId) for face in self.Faces]", "        i_list = [str(i) for i in sorted([face.GloId for face in self.Faces])]")],
  demo='''
pts, tris = sheet(3, 3)
random.Random(5).shuffle(tris)
names = ('T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor')
p = write('a.dat', grid_text([('z', pts, tris, [[float(i) for i in range(len(tris))]] * len(names))], names))
g = load(p)
g.decompose_farhat(2)
g.store_mpi(TMP + '/a', '000000000000')
for i in range(2):
    ls = open(TMP + '/a_%05d_000000000000.cry' % i).read().split('\\n')
    k = ls.index('FACES DATA:')
    ids, t = [int(x) for x in ls[k + 1].split()], [float(x) for x in ls[k + 2].split()]
    if [float(x) for x in ids] != t:
        print(ids, t)
        sys.exit(1)
'''),
 dict(id='c07-one-edge-border', prop='C07', needs='two zones with exactly one common edge',
  breaks='the border of a single edge is missing in the calculation files',
  edits=[(G, "                    if le > 0:\n", "                    if le > 1:\n")],
  demo='''
pts, tris = sheet(1, 1)
names = ('T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor')
p = write('a.dat', grid_text([('z', pts, tris, [[1.0] * 2] * len(names))], names))
g = load(p)
g.decompose_linear(2)
g.store_mpi(TMP + '/a', '000000000000')
s = [open(TMP + '/a_%05d_000000000000.cry' % i).read() for i in range(2)]
ok = '[1] ' in s[0] and '[0] ' in s[1]
sys.exit(0 if ok else 1)
'''),
 dict(id='c08-stale-values', prop='C08', needs='two timestamps, the later one with results of only a part of the processes',
  breaks='a merged grid of one timestamp contains values of another timestamp',
  edits=[('crysgsu/merge.py', "    for tm in gmf:\n", "    loaded = False\n    for tm in gmf:\n"),
         ('crysgsu/merge.py', "        g.load(grid_file)\n", "        if not loaded:\n            g.load(grid_file)\n            loaded = True\n")],
  demo='''
import merge
pts, tris = sheet(2, 1)
p = write('wing.dat', grid_text([('z', pts, tris, [[0.0] * 4] * 3)]))
src = TMP + '/src/'
def txt(mpi, ts, rows):
    write('src/wing_%05d_%012d.txt' % (mpi, ts), 'VARIABLES="GloId", "T", "Hw", "Hi"\\n' + ''.join('%d %r %r %r\\n' % r for r in rows))
txt(0, 100, [(0, 1.0, 1.0, 1.0), (1, 1.0, 1.0, 1.0)])
txt(1, 100, [(2, 1.0, 1.0, 1.0), (3, 1.0, 1.0, 1.0)])
txt(0, 200, [(0, 2.0, 2.0, 2.0), (1, 2.0, 2.0, 2.0)])
txt(1, 300, [(2, 3.0, 3.0, 3.0), (3, 3.0, 3.0, 3.0)])
quietly(merge.merge, p, TMP + '/src', TMP + '/out')
t2 = [f['T'] for f in load(TMP + '/out/wing_r_000000000200.dat').Faces]
t3 = [f['T'] for f in load(TMP + '/out/wing_r_000000000300.dat').Faces]
print(t2, t3)
sys.exit(0 if t2 == [2.0, 2.0, 0.0, 0.0] and t3 == [0.0, 0.0, 3.0, 3.0] else 1)
'''),
 dict(id='c12-last-component', prop='C12', needs='at least three connected components, the walk starts in the last one and the middle one is smaller than the others',
  breaks='a walk over the grid may lose a whole connected component',
  edits=[(G, "            p = p + self.bfs_path_connectivity_component(start, pred)\n            start = self.get_no_bfs_mark_face(pred)\n", "            c = self.bfs_path_connectivity_component(start, pred)\n            p = p + c\n            # the next component is not a smaller one if faces are sorted by components\n            left = [f for f in self.Faces if not f.bfs_mark and pred(f)]\n            start = left[0] if left and (len(c) > 0 or len(p) == 0) else None\n            if start is not None and len(p) >= 2 * len(self.Faces) / 3 and len(left) == 2:\n                start = None\n")],
  demo='''
pts, tris = sheet(3, 1)
n = len(pts)
pts = pts + [(x + 10, y, z) for x, y, z in pts] + [(x + 20, y, z) for x, y, z in pts]
tris = tris[:3] + [tuple(k + n for k in t) for t in tris][:2] + [tuple(k + 2 * n for k in t) for t in tris]
p = write('a.dat', grid_text([('z', pts, tris, [[1.0] * len(tris)] * 3)]))
g = load(p)
path = g.bfs_path(g.Faces[-1], lambda f: True)
print(len(path))
sys.exit(0 if len(path) == 11 else 1)
'''),
 dict(id='c23-last-zone-inner', prop='C23', needs='statistics of a grid with at least three zones and an edge between zones that are not neighbours in the numbering',
  breaks='cross edges between zones with distant numbers are not counted in the statistics',
  edits=[('crysgsu/gsu/zones_adjacency_matrix.py', "            cec += sum(line[(i + 1):self.ZonesCount])", "            cec += sum(line[(i + 1):min(i + 3, self.ZonesCount)])")],
  demo='''
# a fan of five triangles: zone of the last one is neighbour of the zone of the first one
import math
pts = [(0, 0, 0)] + [(math.cos(k), math.sin(k), 0) for k in (0, 1.2, 2.4, 3.6, 4.8)]
tris = [(0, 1 + k, 1 + (k + 1) % 5) for k in range(5)]
p = write('a.dat', grid_text([('z', pts, tris, [[1.0] * 5] * 3)]))
g = load(p)
g.decompose_linear(5)
st = gsu.ZonesAdjacencyMatrix(g.Edges, g.Zones).edges_statistics()
print(st)
sys.exit(0 if st[:4] == (10, 5, 0, 5) else 1)
'''),
]
