G = 'crysgsu/gsu/grid.py'
Z = 'crysgsu/gsu/zone.py'
E = 'crysgsu/gsu/edge.py'
F = 'crysgsu/gsu/face.py'
V = 'crysgsu/geom/vect.py'
T = 'crysgsu/geom/triangle.py'
TC = 'crysgsu/geom/triangles_cloud.py'
GU = 'crysgsu/geom/utils.py'
L = 'crysgsu/phys/laws.py'
IN = 'crysgsu/convert/interpolate.py'
LB = 'crysgsu/convert/lazurit_add_beta_from_ansys.py'

GC = 'crysgsu/convert/gsu_converter.py'

CONV = '''
import gsu_converter
pts, tris = sheet(2, 1)
n = len(tris)
p = write('c.dat', grid_text([('a', pts, tris, [[1.0 + k + i for i in range(n)] for k in range(8)])], ('T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ')))
def made():
    g = gsu_converter.Grid()
    g.Import(p)
    return g.Zones[0]
'''

PLANTS = [
 dict(id='c25-twisted', prop='C25', needs='a triangle that turns while it is displaced (the side faces of the prism are not planar); straight prisms give the right volume',
  breaks='the volume of a displaced triangle is wrong',
  edits=[(GU, "            tetrahedron_volume(a, na, nb, nc))", "            tetrahedron_volume(a, na, nb, c))")],
  demo='''
from geom import Vect
from geom import utils as gu
def det(a, b, c):
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
def tet(a, b, c, d):
    return abs(det(*[[x - y for x, y in zip(p, d)] for p in (a, b, c)])) / 6
p = [(0, 0, 0), (4, 0, 0), (0, 4, 0)]
for n in ([(0, 0, 2), (4, 0, 2), (0, 4, 2)], [(0, 0, 2), (4, 1, 3), (0, 5, 7)], [(0, 1, 1), (5, 0, 2), (1, 3, 4)]):
    a, b, c = p
    na, nb, nc = n
    want = tet(a, b, c, nc) + tet(a, b, nb, nc) + tet(a, na, nb, nc)
    got = gu.displaced_triangle_volume(*[Vect(*map(float, x)) for x in p + n])
    print(want, got)
    if abs(want - got) > 1e-9:
        sys.exit(1)
sys.exit(0)
'''),
 dict(id='c25-on-vector', prop='C25', needs='a point next to a segment, at a ten thousandth of its length',
  breaks='points beside a segment are taken for points of it',
  edits=[(V, "math.isclose(v1.dist_to(v2), v1.dist_to(p) + p.dist_to(v2))", "math.isclose(v1.dist_to(v2), v1.dist_to(p) + p.dist_to(v2), rel_tol=1e-6)")],
  demo='''
from geom import Vect
r = [bool(Vect.point_on_vector(Vect(0.0, 0.0, 0.0), Vect(1.0, 0.0, 0.0), Vect(0.5, y, 0.0))) for y in (0.0, 1e-4, 1e-3, 0.1)]
print(r)
sys.exit(0 if r == [True, False, False, False] else 1)
'''),
 dict(id='c27-long-table', prop='C27', needs='a table of more than twenty points that are not on one cubic',
  breaks='the law between the points of a long table is not linear',
  edits=[(L, "make_interp_spline(table['x'], table['y'], 1)", "make_interp_spline(table['x'], table['y'], 1 if len(table['x']) <= 20 else 3)")],
  demo='''
from phys import laws
for n in (5, 30):
    x = [float(i) for i in range(n)]
    y = [float((i * i) % 7) for i in range(n)]
    law = laws.LinearLaw({'x': x, 'y': y})
    for i in range(n - 1):
        if abs(float(law(i + 0.5)) - (y[i] + y[i + 1]) / 2) > 1e-9:
            print(n, i, float(law(i + 0.5)))
            sys.exit(1)
sys.exit(0)
'''),
 dict(id='c27-weighted', prop='C27', needs='a table that the function does not fit exactly, with values of different sizes',
  breaks='the fitted law is not the best fit of the table in the sense of least squares',
  edits=[(L, "curve_fit(self.func, table['x'], table['y'])", "curve_fit(self.func, table['x'], table['y'], sigma=[abs(v) + 1.0 for v in table['y']])")],
  demo='''
from phys import laws
x, y = [0.0, 1.0, 2.0, 3.0], [0.0, 10.0, 100.0, 7.0]
law = laws.FuncLaw({'x': x, 'y': y}, lambda t, a, b: a * t + b)
r = [float(law(t)) - v for t, v in zip(x, y)]
print(r)
sys.exit(0 if abs(sum(r)) < 1e-4 and abs(sum(t * v for t, v in zip(x, r))) < 1e-4 else 1)
'''),
 dict(id='c14-vertical-plane', prop='C14', needs='a segment in the plane of a triangle that stands upright (its projection on the first two axes is a line)',
  breaks='the common part of the segment and the triangle is not found',
  edits=[(T, "                for i in range(2):\n                    for j in range(1, 3):", "                for i in range(2):\n                    for j in range(1, 2):")],
  demo='''
from geom import Vect, Triangle, Segment
def v(*p):
    return Vect(*map(float, p))
ok = True
for perm in ((0, 1, 2), (0, 2, 1), (2, 0, 1)):
    def w(*p):
        return v(*[p[i] for i in perm])
    t = Triangle(w(0, 0, 0), w(4, 0, 0), w(0, 4, 0))
    r = t.intersection_with_segment(Segment(w(-1, 1, 0), w(5, 1, 0)))
    print(perm, [str(p) for p in r])
    ok = ok and len(r) == 2
sys.exit(0 if ok else 1)
'''),
 dict(id='c13-shallow', prop='C13', needs='two clouds, the first a single triangle and the second a tree of several',
  breaks='only the first half of the second cloud is searched',
  edits=[(TC, "*[self.intersection_with_triangles_cloud(b) for b in tc.Subclouds]", "*[self.intersection_with_triangles_cloud(b) for b in tc.Subclouds[:1] or tc.Subclouds]")],
  demo='''
from geom import Vect, Triangle, TrianglesCloud
def tri(x, y):
    return Triangle(Vect(x, y, 0.0), Vect(x + 1.0, y, 0.0), Vect(x, y + 1.0, 0.0))
def cross(x, y):
    return Triangle(Vect(x + 0.2, y + 0.2, -1.0), Vect(x + 0.2, y + 0.2, 1.0), Vect(x + 0.4, y + 0.25, 2.0))
n = 0
for i in range(4):
    a = TrianglesCloud([cross(2.0 * i, 0.0)])
    b = TrianglesCloud([tri(2.0 * k, 0.0) for k in range(4)])
    n += len(a.intersection_with_triangles_cloud(b))
print(n)
sys.exit(0 if n == 8 else 1)
'''),
 dict(id='c23-info-deviation', prop='C23', needs='printing the distribution of faces when their number is no multiple of the number of zones',
  breaks='the printed deviation of the distribution is wrong',
  edits=[(G, "            ideal_mean = len(self.Faces) / len(self.Zones)", "            ideal_mean = len(self.Faces) // len(self.Zones)")],
  demo='''
pts, tris = sheet(2, 2)
p = write('a.dat', grid_text([('a', pts, tris, [[1.0] * 8] * 3)]))
g = load(p)
import re
for n in (2, 3):
    quietly(g.decompose_linear, n)
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        g.print_info(is_print_faces_distribution=True)
    x = float(re.search(r'deviation : (-?[\\d.]+)%', b.getvalue()).group(1))
    m = max(len(z.Faces) for z in g.Zones)
    want = 100.0 * (m - 8.0 / n) / (8.0 / n)
    print(n, x, want)
    if abs(x - want) > 0.006:
        sys.exit(1)
sys.exit(0)
'''),
 dict(id='c18-water-by-number', prop='C18', needs='grids with the same number of faces, listed in different orders',
  breaks='water heights are taken from the wrong face when the grids have the same number of faces',
  edits=[(IN, "        f['Hw'] = source_mesh.Faces[i]['Hw']", "        f['Hw'] = source_mesh.Faces[f.GloId if len(source_mesh.Faces) == len(target_mesh.Faces) else i]['Hw']")],
  demo='''
import interpolate
pts, tris = sheet(2, 2)
n = len(tris)
a = load(write('a.dat', grid_text([('a', pts, tris, [[float(i) for i in range(n)], [10.0 + i for i in range(n)], [0.0] * n])])))
b = load(write('b.dat', grid_text([('a', pts, tris[::-1], [[0.0] * n] * 3)])))
interpolate.face_centered_interpolation(a, b)
r = [(f['T'], f['Hw']) for f in b.Faces]
print(r)
sys.exit(0 if r == [(float(i), 10.0 + i) for i in range(n)][::-1] else 1)
'''),
 dict(id='c12-late-face', prop='C12', needs='a component of more than a hundred faces, some of which are reached late',
  breaks='the walk over a component stops at faces reached after the hundredth step and they are visited as separate components',
  edits=[(G, "        while i < len(p):\n            f = p[i]\n            for e in f.Edges:", "        while i < len(p) and i <= 100:\n            f = p[i]\n            for e in f.Edges:")],
  demo='''
pts, tris = sheet(10, 10)
n = len(tris)
g = load(write('a.dat', grid_text([('a', pts, tris, [[1.0] * n] * 3)])))
def reach(start):
    p, seen = [start], {id(start)}
    for f in p:
        for e in f.Edges:
            for h in e.Faces:
                if id(h) not in seen:
                    seen.add(id(h))
                    p.append(h)
    return p
for f in g.Faces:
    f.bfs_mark = False
r = g.bfs_path_connectivity_component(g.Faces[0], lambda f: True)
print(len(r))
sys.exit(0 if [f.GloId for f in r] == [f.GloId for f in reach(g.Faces[0])] else 1)
'''),
 dict(id='c28-first-face-only', prop='C28', needs='a node that several faces of the zone share is replaced',
  breaks='only the first face with the node gets the new node',
  edits=[(GC, "                if n == on:\n                    f.Nodes[i] = nn\n", "                if n == on:\n                    f.Nodes[i] = nn\n                    return\n")],
  demo=CONV + '''
z = made()
old, new = z.Nodes[0], z.Nodes[3]
want = [[new if n is old else n for n in f.Nodes] for f in z.Faces]
z.ReplaceNode(old, new)
ok = all(a is b for f, w in zip(z.Faces, want) for a, b in zip(f.Nodes, w))
print(ok)
sys.exit(0 if ok else 1)
'''),
 dict(id='c28-extra-by-number', prop='C28', needs='extra nodes are dropped while numbers of nodes are not those of their places (after a replacement by a node of another zone or a copy)',
  breaks='extra nodes stay when their number is that of a used node',
  edits=[(GC, "self.Nodes = [n for n in self.Nodes if n in ns]", "self.Nodes = [n for n in self.Nodes if n.Id in [m.Id for m in ns]]")],
  demo=CONV + '''
z = made()
n = z.Nodes[1]
c = n.Copy()
for f in z.Faces:
    f.Nodes = [c if m is n else m for m in f.Nodes]
z.Nodes.append(c)
used = set(id(m) for f in z.Faces for m in f.Nodes)
want = [m for m in z.Nodes if id(m) in used]
z.DeleteExtraNodes()
ok = len(want) == len(z.Nodes) and all(a is b for a, b in zip(want, z.Nodes))
print(ok, len(want), len(z.Nodes))
sys.exit(0 if ok else 1)
'''),
 dict(id='c28-shear', prop='C28', needs='a file with different shear stresses is imported',
  breaks='the second component of the shear stress is taken from the third',
  edits=[(GC, "                                            tauy = float(tauys[i]),\n                                            tauz = float(tauzs[i])))", "                                            tauy = float(tauzs[i]),\n                                            tauz = float(tauzs[i])))")],
  demo=CONV + '''
z = made()
r = [(f.HTC, f.Beta, f.Tau.X, f.Tau.Y, f.Tau.Z) for f in z.Faces]
print(r)
sys.exit(0 if r == [(4.0 + i, 5.0 + i, 6.0 + i, 7.0 + i, 8.0 + i) for i in range(len(r))] else 1)
'''),
]
