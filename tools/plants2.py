G = 'crysgsu/gsu/grid.py'
TR = 'crysgsu/geom/triangle.py'
D = 'crysgsu/drops.py'
R = 'crysgsu/remeshing.py'
C = 'crysgsu/crys.py'
U = 'crysgsu/utils.py'
AN = 'crysgsu/convert/ansys_to_crystal.py'

CHECK = '''
def check(g):
    """Incidence of a grid; list of what is wrong."""
    bad = []
    for kind, xs in (('node', g.Nodes), ('edge', g.Edges), ('face', g.Faces)):
        if sorted(x.GloId for x in xs) != list(range(len(xs))):
            bad.append(kind + ' ids')
    if len(set(frozenset(id(n) for n in e.Nodes) for e in g.Edges)) != len(g.Edges):
        bad.append('double edge')
    for z in g.Zones:
        if set(map(id, z.Edges)) != set(id(e) for f in z.Faces for e in f.Edges) or len(z.Edges) != len(set(map(id, z.Edges))):
            bad.append('edges of zone ' + z.Name)
        if set(map(id, z.Nodes)) != set(id(n) for f in z.Faces for n in f.Nodes) or len(z.Nodes) != len(set(map(id, z.Nodes))):
            bad.append('nodes of zone ' + z.Name)
    if set(map(id, g.Nodes)) != set(id(n) for f in g.Faces for n in f.Nodes):
        bad.append('nodes')
    if set(map(id, g.Edges)) != set(id(e) for f in g.Faces for e in f.Edges):
        bad.append('edges')
    return bad
'''

PLANTS = [
 dict(id='c09-number-in-name', prop='C09', needs='a grid name that ends in an underscore and thirteen digits',
  breaks='digits of the name are taken for a timestamp and the name loses characters',
  edits=[(U, r"re.search(r'_\d\d\d\d\d\d\d\d\d\d\d\d$', s)", r"re.search(r'_\d\d\d\d\d\d\d\d\d\d\d\d\d?$', s)")],
  demo='''
import utils
s = 'wing_1234567890123'
r = utils.get_filename_and_timestamp_pair(s)
print(r)
sys.exit(0 if r == (s, '000000000000') and utils.get_filename_and_timestamp_pair('wing_123456789012') == ('wing', '123456789012') else 1)
'''),
 dict(id='c09-case', prop='C09', needs='two grids whose names differ only in the case of letters, calculated in one directory',
  breaks='result files of another grid are taken for files of the grid being merged',
  edits=[(U, "    return (s == stem) and (m is not None) and (t is not None) and (e == 'txt')", "    return (s.lower() == stem.lower()) and (m is not None) and (t is not None) and (e == 'txt')")],
  demo='''
import utils
r = [utils.is_filename_correct_crys_txt_file('%s_00001_202001011200.txt' % s, 'wing') for s in ('wing', 'Wing')]
print(r)
sys.exit(0 if r == [True, False] else 1)
'''),
 dict(id='c10-edge-one-zone', prop='C10', needs='deleting an edge between two zones (split, flip or collapse)',
  breaks='a removed edge stays in the second of its zones',
  edits=[(G, "                z.Edges.remove(edge)\n", "                z.Edges.remove(edge)\n                break\n")],
  demo=CHECK + '''
pts, tris = sheet(2, 1)
p = write('a.dat', grid_text([('a', pts, tris[:2], [[1.0] * 2] * 3), ('b', pts, tris[2:], [[1.0] * 2] * 3)]))
g = load(p)
e = [e for e in g.Edges if e.is_cross()][0]
g.cut_edge(e, geom.Vect.middle_point(e.Nodes[0].P, e.Nodes[1].P))
b = check(g)
print(b)
sys.exit(1 if b else 0)
'''),
 dict(id='c10-bag', prop='C10', needs='a collapse, and later a new point exactly where the collapsed edge was joined',
  breaks='a later point gets a second node at the place of an existing node',
  edits=[(G, "            self.RoundedCoordsBag.add(n1.RoundedCoords)\n\n            # edges", "\n            # edges")],
  demo=CHECK + '''
pts, tris = sheet(4, 4)
p = write('a.dat', grid_text([('a', pts, tris, [[1.0] * len(tris)] * 3)]))
g = load(p)
def edge(a, b):
    return [e for e in g.Edges if sorted((n.P.X, n.P.Y) for n in e.Nodes) == sorted([a, b])][0]
g.collapse_edge(edge((2, 2), (2, 1)))
near = g.find_near_node(gsu.Node(geom.Vect(2, 1.5, 0)))
n = len(g.Nodes)
new = g.add_node(gsu.Node(geom.Vect(2, 1.5, 0)), True)
print(near, len(g.Nodes) - n, check(g))
sys.exit(0 if near is not None and new is near and len(g.Nodes) == n and not check(g) else 1)
'''),
 dict(id='c11-second-face-values', prop='C11', needs='splitting an inner edge between faces with different values',
  breaks='one of the four faces gets the values of the other side of the edge',
  edits=[(G, "            f2_2 = gsu.Face(list(data2.keys()), list(data2.values()))", "            f2_2 = gsu.Face(list(data1.keys()), list(data1.values()))")],
  demo='''
pts, tris = sheet(1, 1)
p = write('a.dat', grid_text([('a', pts, tris, [[1.0, 2.0]] * 3)]))
g = load(p)
e = [e for e in g.Edges if len(e.Faces) == 2][0]
g.cut_edge(e, geom.Vect(0.5, 0.5, 0.0))
s = sorted(f['T'] for f in g.Faces)
print(s)
sys.exit(0 if s == [1.0, 1.0, 2.0, 2.0] else 1)
'''),
 dict(id='c11-border-collapse', prop='C11', needs='an edge with one end on the border of the surface is collapsed',
  breaks='the new node is not the middle of the edge',
  edits=[(G, "vect_coord_new_p = geom.Vect.middle_point(n1.P, n2.P)", "vect_coord_new_p = geom.Vect.middle_point(n1.P, n2.P) if min([len(e.Faces) for e in n2.Edges], default=2) == 2 else n1.P")],
  demo='''
pts, tris = sheet(4, 4)
p = write('a.dat', grid_text([('a', pts, tris, [[1.0] * len(tris)] * 3)]))
bad = 0
for k in range(60):
    g = load(p)
    if k >= len(g.Edges) or len(g.Edges[k].Faces) < 2:
        continue
    e = g.Edges[k]
    m = tuple((a + b) / 2 for a, b in zip(e.Nodes[0].P.coords_tuple(), e.Nodes[1].P.coords_tuple()))
    if not g.collapse_edge(e):
        continue
    near = min(sum((a - b) ** 2 for a, b in zip(m, n.P.coords_tuple())) for n in g.Nodes)
    bad += near > 1e-12
print(bad)
sys.exit(1 if bad else 0)
'''),
 dict(id='c12-second-start', prop='C12', needs='a walk whose start face does not satisfy the predicate on a grid that was walked before',
  breaks='marks of the previous walk survive when the start face is not in the predicate',
  edits=[(G, "        for f in self.Faces:\n            f.bfs_mark = False\n", "        for f in self.Faces:\n            f.bfs_mark = getattr(f, 'bfs_mark', False) and not pred(start)\n")],
  demo='''
pts, tris = sheet(3, 1)
p = write('a.dat', grid_text([('a', pts, tris, [[1.0] * len(tris)] * 3)]))
g = load(p)
a = len(g.bfs_path(g.Faces[0], lambda f: True))
b = len(g.bfs_path(g.Faces[0], lambda f: f is not g.Faces[0]))
print(a, b)
sys.exit(0 if (a, b) == (6, 5) else 1)
'''),
 dict(id='c13-flat-box', prop='C13', needs='a segment that only touches the plane of flat triangles from below',
  breaks='the box search loses an answer that the triangles themselves give',
  edits=[('crysgsu/geom/box.py', "is_no_z = (sb.MinZ > self.MaxZ) or (sb.MaxZ < self.MinZ)", "is_no_z = (sb.MinZ > self.MaxZ) or (sb.MaxZ <= self.MinZ)")],
  demo='''
V = geom.Vect
ts = [geom.Triangle(V(i, 0, 0), V(i + 1, 0, 0), V(i, 1, 0)) for i in range(3)]
s = geom.Segment(V(1.25, 0.25, -1), V(1.25, 0.25, 0))
r = geom.TrianglesCloud(list(ts)).first_intersection_with_segment(s)
print(r)
sys.exit(0 if r is ts[1] else 1)
'''),
 dict(id='c13-box-typo', prop='C13', needs='two clouds whose y ranges and z ranges stand in a special order',
  breaks='pairs of meeting triangles are lost because a box test compares different axes',
  edits=[('crysgsu/geom/box.py', "is_no_y = (other_box.MinY > self.MaxY) or (other_box.MaxY < self.MinY)", "is_no_y = (other_box.MinY > self.MaxY) or (other_box.MaxY < self.MinX)")],
  demo='''
V = geom.Vect
def c(dx, dy):
    return [geom.Triangle(V(dx, dy, 0), V(dx + 1, dy, 0), V(dx, dy + 1, 0))], [geom.Triangle(V(dx + .2, dy + .2, -1), V(dx + .2, dy + .3, 1), V(dx + .3, dy + .2, 1))]
n = []
for dx, dy in ((0, 0), (0, 9), (9, 0)):
    a, b = c(dx, dy)
    n.append(len(geom.TrianglesCloud(a).intersection_with_triangles_cloud(geom.TrianglesCloud(b))))
print(n)
sys.exit(0 if n == [2, 2, 2] else 1)
'''),
 dict(id='c14-last-point', prop='C14', needs='a segment that ends exactly on the triangle',
  breaks='such a segment does not meet the triangle',
  edits=[(TR, "is_inside_seg = (phi >= 0.0) and (phi <= 1.0)", "is_inside_seg = (phi >= 0.0) and (phi < 1.0)")],
  demo='''
V = geom.Vect
t = geom.Triangle(V(0, 0, 0), V(1, 0, 0), V(0, 1, 0))
r = t.intersection_with_segment(geom.Segment(V(0.25, 0.25, 1), V(0.25, 0.25, 0)))
print(len(r))
sys.exit(0 if len(r) == 1 else 1)
'''),
 dict(id='c14-equality', prop='C14', needs='two different triangles with one centroid and one common corner',
  breaks='different triangles are called equal',
  edits=[(TR, "                if self.b() == other.a() or self.b() == other.b() or self.b() == other.c():", "                if len(other.Points) == len(self.Points):")],
  demo='''
V = geom.Vect
a = geom.Triangle(V(0, 0, 0), V(3, 0, 0), V(0, 3, 0))
b = geom.Triangle(V(0, 0, 0), V(2, 2, 0), V(1, 1, 0))
b = geom.Triangle(V(0, 0, 0), V(4, 0, 0), V(-1, 3, 0))
print(a == b)
sys.exit(1 if a == b else 0)
'''),
 dict(id='c15-drag-switch', prop='C15', needs='a relative velocity with a Reynolds number above 1000',
  breaks='the drag coefficient stops growing',
  edits=[(D, "cd = 0.178 * math.pow(re, 0.217)", "cd = 0.178 * math.pow(min(re, 1000.0), 0.217)")],
  demo='''
import math, drops
V = geom.Vect
s = drops.Space([(V(0, 0, 0), V(0, 0, 0)), (V(1, 1, 1), V(0, 0, 0))], [(0, 0, 0), (1, 1, 1)])
d, re = 1e-4, 2000.0
v = V(re * 1.736e-5 / d, 0, 0)
p, w = s.fly_step(V(0, 0, 0), v, V(0, 0, 0), d, 1e-3)
cd = 0.178 * re ** 0.217
x = v.X - 1e-3 * v.X * 0.75 * cd * 1.292 / (d * 1000.0) * v.X
print(w.X, x)
sys.exit(0 if abs(w.X - x) < 1e-9 * v.X else 1)
'''),
 dict(id='c15-slow', prop='C15', needs='a droplet that moves less than a nanometer in a time step',
  breaks='slow droplets are said to stand still',
  edits=[(D, "if fp.is_near(lp, 1e-15):", "if fp.is_near(lp, 1e-9):")],
  demo='''
import drops
V = geom.Vect
s = drops.Space([(V(0, 0, 0), V(1e-5, 0, 0)), (V(1, 1, 1), V(1e-5, 0, 0))], [(0, 0, 0), (1, 1, 1)])
c = geom.TrianglesCloud([geom.Triangle(V(5, 5, 5), V(6, 5, 5), V(5, 6, 5))])
r = s.fly(V(0.5, 0.5, 0.5), V(1e-5, 0, 0), 1e-4, 1e-5, c, 4)
print(r[0])
sys.exit(0 if r[0] == 'N' else 1)
'''),
 dict(id='c16-own-area', prop='C16', needs='a droplet that hits a face of another area than the face it left',
  breaks='the secondary impingement is related to the area of the wrong face',
  edits=[(D, "res[1]['MImp2'] = (stall_value / tri2.area())", "res[1]['MImp2'] = (stall_value / tri.area())")],
  demo='''
import drops
pts = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (-1, -1, 2), (-1, 3, 2), (3, -1, 2)]
names = ('T', 'Hw', 'Hi', 'MImp2', 'Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ')
rows = [[0.0, 0.0] for _ in names]
rows[4], rows[5], rows[8] = [4.0, 0.0], [1e-4, 1e-4], [10.0, 0.0]
a = write('a.dat', grid_text([('z', pts, [(0, 1, 2), (3, 4, 5)], rows)], names))
corners = [(x, y, z) for x in (-9, 9) for y in (-9, 9) for z in (-9, 9)]
b = write('b.dat', 'TITLE="air"\\nVARIABLES=x\\nZONE T="FEBRICK" a b c N= 8 , E= 0\\n'
          + ''.join('%r %r %r 0 0 0.0 0.0 10.0\\n' % tuple(map(float, c)) for c in corners))
t = open(b).read().split('\\n')
z = 'ZONE ' + ' '.join(['FEBRICK', 'a', 'b', 'c', 'd', '8', 'f', 'g', '0'])
t[2] = z
write('b.dat', '\\n'.join(t))
quietly(drops.drops, a, b, TMP + '/o.dat', 1e-4, 0.05, 1e-6, 200)
g = load(TMP + '/o.dat')
v = [f['MImp2'] for f in g.Faces]
print(v)
sys.exit(0 if v[0] == 0.0 and abs(v[1] - 4.0 / 8.0) < 1e-12 else 1)
'''),
 dict(id='c16-two-bricks', prop='C16', needs='an air grid of several brick zones',
  breaks='only the air points of the last brick zone are kept',
  edits=[(D, "                    # Air data.\n", "                    # Air data.\n                    ds, ds_tuple = [], []\n")],
  demo='''
import drops
z = 'ZONE FEBRICK a b c d 2 f g 0\\n'
b = write('b.dat', 'TITLE="air"\\nVARIABLES=x\\n' + ''.join(z + ''.join('%d %d %d 0 0 %d 0 0\\n' % (i, i, i, i) for i in r) for r in ((0, 1), (2, 3))))
s = drops.read_vel_field_from_file(b)
r = [s.find_nearest(geom.Vect(i, i, i))[1].X for i in range(4)]
print(r)
sys.exit(0 if r == [0.0, 1.0, 2.0, 3.0] else 1)
'''),
 dict(id='c17-median', prop='C17', needs='a node with faces of at least three different ice heights',
  breaks='a node moves by the median instead of the mean of the heights of its faces',
  edits=[(R, "n.ice_shift = statistics.mean([f.ice_shift for f in n.Faces])", "n.ice_shift = statistics.median([f.ice_shift for f in n.Faces])")],
  demo='''
import json
from remeshing import TongRemesher
pts, tris = sheet(2, 2)
hi = [0.0] * 7 + [0.05]
p = write('a.dat', grid_text([('z', pts, tris, [[0.0] * 8, [0.0] * 8, hi])]))
j = write('a.json', json.dumps({'remesh_nsteps_min': 1, 'remesh_nsteps_max': 1}))
g = load(p)
mid = [n for n in g.Nodes if n.P.X == 1 and n.P.Y == 1][0]
x = sum(f['Hi'] for f in mid.Faces) / len(mid.Faces)
quietly(TongRemesher('a.dat', j, TMP), g)
print(mid.P.Z, x)
sys.exit(0 if abs(mid.P.Z - x) < 1e-12 else 1)
'''),
 dict(id='c17-local-cap', prop='C17', needs='heights smoothing where a face with little ice is next to one with none, and others have much more',
  breaks='the part moved between two faces is limited by their own height instead of the largest height',
  edits=[(R, "                                  self.hsmooth_alfa * max_h) * mid_area", "                                  self.hsmooth_alfa * f1.ice_shift) * mid_area")],
  demo='''
import json
from remeshing import TongRemesher
pts, tris = sheet(4, 1)
hi = [0.01] + [0.0] * 6 + [0.1]
p = write('a.dat', grid_text([('z', pts, tris, [[0.0] * 8, [0.0] * 8, hi])]))
def h(a):
    j = write('a.json', json.dumps({'remesh_nsteps_min': 1, 'remesh_nsteps_max': 1, 'remesh_hsmooth_steps': 1, 'remesh_hsmooth_alfa': a, 'remesh_hsmooth_beta': 0.1}))
    g = load(p)
    quietly(TongRemesher('a.dat', j, TMP), g)
    return [n.P.Z for n in g.Nodes if n.P.X == 0 and n.P.Y == 1][0]
# the difference 0.01 is below 0.2 * 0.1: all of it counts, faces 0 and 1 get 0.009 and 0.001
x = h(0.2)
print(x)
sys.exit(0 if abs(x - 0.001) < 1e-6 else 1)
'''),
 dict(id='c18-approximate', prop='C18', needs='a source grid with many faces at similar distances from a target face',
  breaks='values come from a face that is only approximately the nearest',
  edits=[('crysgsu/convert/interpolate.py', "kdtree.query(f.aux_node.coords_as_np())[1]", "kdtree.query(f.aux_node.coords_as_np(), eps=0.5)[1]")],
  demo='''
import interpolate
r = random.Random(1)
def cloud(n, s):
    pts, tris = [], []
    for i in range(n):
        c = [r.random() for _ in range(3)]
        pts += [(c[0] + s, c[1], c[2]), (c[0], c[1] + s, c[2]), (c[0], c[1], c[2] + s)]
        tris.append((3 * i, 3 * i + 1, 3 * i + 2))
    return pts, tris
a = cloud(300, 0.01)
b = cloud(200, 0.01)
ga = load(write('a.dat', grid_text([('z', a[0], a[1], [[float(i) for i in range(300)]] * 3)])))
gb = load(write('b.dat', grid_text([('z', b[0], b[1], [[0.0] * 200] * 3)])))
interpolate.face_centered_interpolation(ga, gb)
bad = 0
for f in gb.Faces:
    c = f.get_center()
    d = [sum((x - y) ** 2 for x, y in zip(c, h.get_center())) for h in ga.Faces]
    if d[int(f['T'])] > min(d) * (1 + 1e-9):
        bad += 1
print(bad)
sys.exit(1 if bad else 0)
'''),
 dict(id='c19-zone-prefix', prop='C19', needs='a zone whose name begins with the name of a requested zone',
  breaks='zones that were not named are extracted as well',
  edits=[(AN, """        str = 'T="%s"' % zone_to_extract""", """        str = 'T="%s' % zone_to_extract""")],
  demo='''
import ansys_to_crystal as a
a.zones_to_extract = ['wing']
r = [a.is_str_zone_to_extract('ZONE T="%s", N=4, E=1' % z) for z in ('wing', 'wing2')]
print(r)
sys.exit(0 if r == [True, False] else 1)
'''),
 dict(id='c19-collapsed', prop='C19', needs='a quad whose second and third corners coincide',
  breaks='the triangle made of it has two equal corners',
  edits=[('crysgsu/convert/gsu_converter.py', "                        elif n2 == n3:\n                            faces.append(Face(n1, n2, n4))", "                        elif n2 == n3:\n                            faces.append(Face(n1, n2, n3))")],
  demo='''
import gsu_converter
nodes = ''.join('%d %d 0 1 1 1 1 1 1\\n' % p for p in ((0, 0), (1, 0), (0, 1)))
bad = []
for q in ('1 2 2 3', '1 1 2 3', '1 2 3 3', '1 2 3 1'):
    p = write('a.dat', 'TITLE="t"\\nVARIABLES = x\\nZONE T="z", N=3, E=1\\n' + nodes + q + '\\n')
    g = gsu_converter.Grid()
    g.LoadNodesData(p, False)
    for f in g.Zones[0].Faces:
        if len(set((n.X if hasattr(n, 'X') else id(n), id(n)) for n in f.Nodes)) != 3:
            bad.append(q)
print(bad)
sys.exit(1 if bad else 0)
'''),
 dict(id='c20-orientation', prop='C20', needs='looking at the orientation of the second triangle of a cell',
  breaks='the two triangles of a cell have opposite orientation',
  edits=[('crysgsu/convert/lazurit_to_crystal.py', "of.write('{0} {1} {2}\\n'.format(ni00 + 1, ni11 + 1, ni10 + 1))", "of.write('{0} {1} {2}\\n'.format(ni00 + 1, ni10 + 1, ni11 + 1))")],
  demo='''
import subprocess
def block(ni, nj):
    g = 'a\\nb\\nc\\nI= %d J= %d K= 1\\ne\\nf\\n' % (ni, nj)
    for c in range(3):
        g += ' '.join(str(float((i, j, 0)[c])) for j in range(nj) for i in range(ni)) + '\\n'
    s = 'a\\nb\\nc\\nd\\ne\\nf\\n' + (' '.join('1.0' for _ in range((ni - 1) * (nj - 1))) + '\\n') * 8
    return g, s
g, s = block(3, 2)
write('in/TEC_WALL_Grid_B1.TEC', g)
write('in/TEC_WALL_Solution_B1.TEC', s)
subprocess.run([sys.executable, REPO + '/crysgsu/convert/lazurit_to_crystal.py', TMP + '/in', TMP + '/o.dat'], check=True, stdout=subprocess.DEVNULL)
r = load(TMP + '/o.dat')
z = [f.get_triangle().normal_orth().Z for f in r.Faces]
print(z)
sys.exit(0 if len(set(z)) == 1 else 1)
'''),
 dict(id='c20-first-b', prop='C20', needs='a block whose file name has the letter B before the name of the block',
  breaks='the zone name is longer than the name of the block',
  edits=[('crysgsu/convert/lazurit_to_crystal.py', "    for i in range(len(s) - 1, -1, -1):", "    for i in range(len(s)):")],
  demo='''
import lazurit_to_crystal as l
r = [l.get_block_name(s) for s in ('TEC_WALL_Grid_B12.TEC', 'TEC_WALL_Grid_BODY_B3.TEC')]
print(r)
sys.exit(0 if r == ['B12', 'B3'] else 1)
'''),
 dict(id='c21-send-not-waited', prop='C21', needs='a network that takes data out of a send buffer late, and a second exchange over the same buffers',
  breaks='the send buffer is filled with the next field before the previous one was taken',
  edits=[(C, "    MPI.Request.Waitall(requests)", "    MPI.Request.Waitall(requests[len(mpi_borders):])")],
  demo='''
import types
m = types.ModuleType('mpi4py')
class Request:
    def __init__(self, run):
        self.run, self.done = run, False
    def wait(self):
        if not self.done:
            self.done = True
            self.run()
    @staticmethod
    def Waitall(rs):
        for r in rs:
            r.wait()
m.MPI = types.SimpleNamespace(Request=Request)
sys.modules['mpi4py'] = m
sys.modules.setdefault('swim', types.ModuleType('swim'))
import crys
taken, pending = [], []
class Comm:
    """takes the data of a send when it is waited for, otherwise at the very end"""
    def Isend(self, buf, dest):
        r = Request(lambda: taken.append(list(buf)))
        pending.append(r)
        return r
    def Irecv(self, buf, source):
        return Request(lambda: None)
    def Ibarrier(self):
        pass
import numpy as np
pts, tris = sheet(2, 1)
g = load(write('a.dat', grid_text([('a', pts, tris, [[1.0] * 4, [2.0] * 4, [3.0] * 4])])))
g.decompose_linear(2)
zam = gsu.ZonesAdjacencyMatrix(g.Edges, g.Zones)
z = g.Zones[0]
b = crys.get_mpi_borders(0, zam, z, g)
for f in z.Faces:
    f.Zone = z.Id
crys.comm, crys.z = Comm(), z
s, r = np.empty((len(b), 9)), np.zeros((len(b), 9))
crys.exchange(b, s, r, 'T')
crys.exchange(b, s, r, 'Hw')
for q in pending:
    q.wait()
print(taken)
sys.exit(0 if taken == [[1.0], [2.0]] else 1)
'''),
 dict(id='c22-water-order', prop='C22', needs='a zone whose faces are not in the order of their identifiers, and different water heights',
  breaks='the heights are computed from the water of other faces',
  edits=[(C, "    HW = np.array([pool.map(functools.partial(get_data, name='Hw'), z.Faces)], dtype=np.float64)",
             "    HW = np.array([pool.map(functools.partial(get_data, name='Hw'), sorted(z.Faces, key=lambda f: f.GloId))], dtype=np.float64)")],
  demo='''
import types, runpy
import numpy as np
import multiprocessing
class Pool:
    def __init__(self, processes=None):
        pass
    def map(self, f, xs):
        return [f(x) for x in xs]
multiprocessing.Pool = Pool
seen = {}
sw = types.ModuleType('swim')
def hi(t, h, w):
    seen.update(t=list(t), w=list(w))
sw.hi = hi
sys.modules['swim'] = sw
m = types.ModuleType('mpi4py')
class Comm:
    def Get_rank(self):
        return 1
    def Get_size(self):
        return 2
    def gather(self, x, root):
        return None
    def Gatherv(self, **k):
        pass
    def Isend(self, buf, dest):
        return 1
    def Irecv(self, buf, source):
        buf[:] = 0
        return 1
    def Ibarrier(self):
        pass
m.MPI = types.SimpleNamespace(COMM_WORLD=Comm(), Request=types.SimpleNamespace(Waitall=lambda r: None))
sys.modules['mpi4py'] = m
pts, tris = sheet(3, 3)
random.Random(5).shuffle(tris)
names = ('T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor')
write('cases/grids/bunny.dat', grid_text([('z', pts, tris, [[float(i) for i in range(len(tris))]] * len(names))], names))
write('cases/grids/bunny.json', '{}')
os.makedirs(TMP + '/w')
os.chdir(TMP + '/w')
for q in ('crys', 'split'):
    sys.modules.pop(q, None)
try:
    quietly(runpy.run_path, REPO + '/crysgsu/crys.py', run_name='__main__')
except Exception as e:
    print(repr(e))
os.chdir(REPO)
print(seen)
sys.exit(0 if seen['t'] == seen['w'] else 1)
'''),
 dict(id='c24-mean-of-zones', prop='C24', needs='zones with different numbers of nodes',
  breaks='the mean point of the grid is taken as the mean of the zones means',
  edits=[(G, "        g_mean = mean_p(self.Nodes)\n", "        g_mean = sum([mean_p(z.Nodes) for z in self.Zones], start=geom.Vect()) / len(self.Zones)\n")],
  demo='''
a, ta = sheet(1, 1)
b, tb = sheet(4, 1, 3.0)
p = write('a.dat', grid_text([('a', a, ta, [[0.0] * 2] * 3), ('b', b, tb, [[0.0] * 8] * 3)]))
g = load(p, is_merge_same_nodes=False)
m = sum(n.P.Z for n in g.Nodes) / len(g.Nodes)
z0 = g.Zones[0].Nodes[0].P.Z
g.move_from_mean_point(0.5)
got = g.Zones[0].Nodes[0].P.Z
print(got, z0 + 0.5 * (0.0 - m))
sys.exit(0 if abs(got - (z0 + 0.5 * (0.0 - m))) < 1e-12 else 1)
'''),
 dict(id='c26-adjacent', prop='C26', needs='two edges that share the node listed second in both',
  breaks='such edges are said not to be adjacent',
  edits=[('crysgsu/gsu/edge.py', "return (a0 == b0) or (a0 == b1) or (a1 == b0) or (a1 == b1)", "return (a0 == b0) or (a0 == b1) or (a1 == b0)")],
  demo='''
pts, tris = sheet(2, 2)
g = load(write('a.dat', grid_text([('a', pts, tris, [[0.0] * 8] * 3)])))
bad = 0
for e in g.Edges:
    for f in g.Edges:
        if e.is_adjacent_with(f) != any(m is n for m in e.Nodes for n in f.Nodes):
            bad += 1
print(bad)
sys.exit(1 if bad else 0)
'''),
 dict(id='c26-longest', prop='C26', needs='a face whose edges grow in their order',
  breaks='the longest edge of a face is missed',
  edits=[('crysgsu/gsu/face.py', "            if len_edge > max_len_edge:\n", "            if len_edge > max_len_edge and max_edge is self.Edges[0]:\n")],
  demo='''
g = load(write('a.dat', grid_text([('a', [(0, 0, 0), (3, 0, 0), (0.5, 3.1, 0)], [(0, 1, 2)], [[0.0]] * 3),
                                   ('b', [(9, 0, 0), (12, 0, 0), (9, 2.9, 0)], [(0, 2, 1)], [[0.0]] * 3),
                                   ('c', [(0, 9, 0), (3, 9, 0), (1.2, 12.0, 0)], [(2, 1, 0)], [[0.0]] * 3)])))
bad = [f.GloId for f in g.Faces if f.max_edge_from_face().len_edge() < max(e.len_edge() for e in f.Edges) - 1e-12]
print(bad, [[e.len_edge() for e in f.Edges] for f in g.Faces])
sys.exit(1 if bad else 0)
'''),
 dict(id='c04-name', prop='C04', needs='a hierarchical decomposition with an empty new name',
  breaks='an empty new name is ignored by the linear decomposition',
  edits=[(G, "        fc = len(self.Faces)\n        fcpz = fc // count\n", "        if not new_name and len(self.Zones) > count:\n            self.Name = self.Zones[0].Name\n        fc = len(self.Faces)\n        fcpz = fc // count\n")],
  demo='''
pts, tris = sheet(2, 2)
g = load(write('a.dat', grid_text([('a', pts, tris, [[0.0] * 8] * 3)], title='wing')))
g.decompose_linear(4)
g.decompose_linear(2)
print(g.Name)
sys.exit(0 if g.Name == 'wing' else 1)
'''),
 dict(id='c06-stale-local-ids', prop='C06', needs='a node on the border of two zones whose local number differs between the zones',
  breaks='faces of later zones refer to the local numbers which the nodes have in an earlier zone',
  edits=[(G, "                for i, node in enumerate(z.Nodes):\n                    loc_nodes_ids[node.GloId] = i\n", "                for i, node in enumerate(z.Nodes):\n                    if loc_nodes_ids[node.GloId] < 0 or loc_nodes_ids[node.GloId] >= nc:\n                        loc_nodes_ids[node.GloId] = i\n")],
  demo='''
names = ('T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor')
pts, tris = sheet(3, 3)
g = load(write('a.dat', grid_text([('z', pts, tris, [[0.0] * 18] * len(names))], names)))
g.decompose_linear(3)
g.store_mpi(TMP + '/a', '000000000000')
bad = 0
for i, z in enumerate(g.Zones):
    ls = open(TMP + '/a_%05d_000000000000.cry' % i).read().split('\\n')
    k, m = ls.index('NODES COORDINATES:'), ls.index('FACE-NODE CONNECTIVITY LIST:')
    xyz = list(zip(*[[float(x) for x in l.split()] for l in ls[k + 1:k + 4]]))
    for f, l in zip(z.Faces, ls[m + 1:]):
        if [xyz[int(n)] for n in l.split()] != [(n.P.X, n.P.Y, n.P.Z) for n in f.Nodes]:
            bad += 1
print(bad)
sys.exit(1 if bad else 0)
'''),
 dict(id='c08-one-column', prop='C08', needs='more than two process tables',
  breaks='the balance table leaves out the tables of some processes',
  edits=[('crysgsu/merge.py', "        for csv_file in csv_files[1:]:", "        for csv_file in csv_files[1:max(2, len(csv_files) // 2 + 1)]:")],
  demo='''
import merge
pts, tris = sheet(1, 1)
p = write('wing.dat', grid_text([('z', pts, tris, [[0.0] * 2] * 3)]))
h = 'time;M_imp;M_es;M_stall;M_ini_water;M_water;M_ini_ice;M_ice;Q_conv;Q_es\\n'
for i in range(4):
    write('src/b%d.csv' % i, h + ';'.join(['1'] + ['2'] * 9) + '\\n' + ';'.join(['2'] + ['3'] * 9) + '\\n')
quietly(merge.merge, p, TMP + '/src', TMP + '/dst')
t = [[float(x) for x in l.split(';')] for l in open(TMP + '/wing.csv').read().split('\\n')[1:] if l]
print(t)
sys.exit(0 if t == [[1.0] + [8.0] * 9, [2.0] + [12.0] * 9] else 1)
'''),
 dict(id='c23-percent', prop='C23', needs='a grid with cross edges between the first zone and a zone that is not the second',
  breaks='the number of cross edges leaves out pairs of zones that are not consecutive',
  edits=[('crysgsu/gsu/zones_adjacency_matrix.py', "cec += sum(line[(i + 1):self.ZonesCount])", "cec += sum(line[(i + 1):(i + 3)][:self.ZonesCount - i - 1])")],
  demo='''
pts, tris = sheet(4, 4)
g = load(write('a.dat', grid_text([('z', pts, tris, [[0.0] * 32] * 3)])))
g.decompose_linear(16)
s = gsu.ZonesAdjacencyMatrix(g.Edges, g.Zones).edges_statistics()
x = len([e for e in g.Edges if len(e.Faces) == 2 and e.Faces[0].Zone is not e.Faces[1].Zone])
print(s, x)
sys.exit(0 if s[3] == x else 1)
'''),
]
