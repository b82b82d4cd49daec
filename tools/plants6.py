D = 'crysgsu/drops.py'
TC = 'crysgsu/geom/triangles_cloud.py'
IN = 'crysgsu/convert/interpolate.py'
LB = 'crysgsu/convert/lazurit_add_beta_from_ansys.py'

TOOL = '''
import subprocess
def tool(path, *args):
    r = subprocess.run([sys.executable, os.path.join(REPO, 'crysgsu', path)] + [str(a) for a in args], capture_output=True, cwd=TMP)
    return r.returncode
def values(path, name):
    g = quietly(load, path)
    return [f[name] for f in g.Faces]
'''

PLANTS = [
 dict(id='c13-crumbs', prop='C13', needs='a cloud of more than a hundred triangles',
  breaks='the last triangle of a big list is left out of the tree',
  edits=[(TC, "        return [triangles_list[:mid_of_list],  triangles_list[mid_of_list:]]",
          "        top = max(len(triangles_list) - 1, mid_of_list + 50)\n        return [triangles_list[:mid_of_list],  triangles_list[mid_of_list:top]]")],
  demo='''
pts, tris = sheet(12, 12)
T = [geom.Triangle(*[geom.Vect(*pts[k]) for k in t]) for t in tris]
C = geom.TrianglesCloud(list(T))
lost = 0
for t in T:
    c = t.centroid()
    if C.first_intersection_with_segment(geom.Segment(c + geom.Vect(0.0, 0.0, 1.0), c - geom.Vect(0.0, 0.0, 1.0))) is None:
        lost += 1
print(lost)
sys.exit(1 if lost else 0)
'''),
 dict(id='c15-single', prop='C15', needs='an air grid far from the origin, or with close points',
  breaks='the air velocity is taken at a point that is not the nearest',
  edits=[(D, "        self.PartitionsTuple = np.array(ds_tuple)", "        self.PartitionsTuple = np.array(ds_tuple, dtype=np.float32)")],
  demo='''
import drops
o = 1.0e6
air = [(o - 1.0, -1.0, -1.0), (o + 1.0, 1.0, 1.0), (o + 0.02, 0.0, 0.0), (o + 0.0, 0.0, 0.0)]
rows = ''.join('%r %r %r 0 0 %d 0 0\\n' % (p + (k,)) for k, p in enumerate(air))
p = write('air.dat', 'TITLE="air"\\nVARIABLES="X"\\nZONE ET=FEBRICK a a a N= 4 E = 0\\n' + rows)
sp = quietly(drops.read_vel_field_from_file, p)
got = [sp.find_nearest(geom.Vect(o + d, 0.0, 0.0))[1].X for d in (0.0, 0.004, 0.016, 0.02)]
print(got)
sys.exit(0 if got == [3.0, 3.0, 2.0, 2.0] else 1)
'''),
 dict(id='c16-second-head', prop='C16', needs='an air file with a second list of variables between two parts of the air',
  breaks='the parts of the air before the list of variables are forgotten',
  edits=[(D, "            elif 'VARIABLES=' in l:\n                pass", "            elif 'VARIABLES=' in l:\n                ds, ds_tuple = [], []")],
  demo='''
import drops
def part(rows):
    return 'ZONE ET=FEBRICK a a a N= %d E = 0\\n' % len(rows) + ''.join('%r %r %r 0 0 %d 0 0\\n' % r for r in rows)
h = 'TITLE="air"\\nVARIABLES="X"\\n'
p = write('air.dat', h + part([(0.0, 0.0, 0.0, 1), (1.0, 0.0, 0.0, 2)]) + h + part([(2.0, 1.0, 1.0, 3)]))
sp = quietly(drops.read_vel_field_from_file, p)
got = [sp.find_nearest(geom.Vect(x, 0.0, 0.0))[1].X for x in (0.0, 1.0, 2.5)]
print(got, sp.inside(geom.Vect(0.5, 0.5, 0.5)))
sys.exit(0 if got[:2] == [1.0, 2.0] and sp.inside(geom.Vect(0.5, 0.5, 0.5)) else 1)
'''),
 dict(id='c18-single', prop='C18', needs='grids far from the origin',
  breaks='a face takes the values of a face that is not the nearest',
  edits=[(IN, "    return array([x, y, z]).T", "    return array([x, y, z], dtype='float32').T")],
  demo=TOOL + '''
pts, tris = sheet(4, 4, 0.0, 0.125)
pts = [(x + 4194304.0, y, z) for x, y, z in pts]
n = len(tris)
a = write('a.dat', grid_text([('one', pts, tris, [[float(k) for k in range(n)], [0.5] * n, [0.0] * n])]))
b = write('b.dat', grid_text([('one', pts, tris, [[-1.0] * n, [0.0] * n, [0.0] * n])]))
o = os.path.join(TMP, 'o.dat')
r = tool('convert/interpolate.py', a, b, '-res', o)
got = values(o, 'T') if r == 0 else None
print(r, got)
sys.exit(0 if got == [float(k) for k in range(n)] else 1)
'''),
 dict(id='c18-part', prop='C18', needs='a source of more than 256 faces',
  breaks='only the first faces of the source are asked',
  edits=[(LB, "    for f in lgrid.Faces:\n", "    adata = adata[:256]\n    for f in lgrid.Faces:\n")],
  demo=TOOL + '''
pts, tris = sheet(12, 12)
n = len(tris)
v = ('T', 'Hw', 'Hi', 'Beta')
a = write('a.dat', grid_text([('one', pts, tris, [[0.0] * n] * 3 + [[float(k) for k in range(n)]])], v))
b = write('b.dat', grid_text([('one', pts, tris, [[0.0] * n] * 4)], v))
o = os.path.join(TMP, 'o.dat')
r = tool('convert/lazurit_add_beta_from_ansys.py', b, a, o)
got = values(o, 'Beta') if r == 0 else None
sys.exit(0 if got == [float(k) for k in range(n)] else 1)
'''),
]
