G = 'crysgsu/gsu/grid.py'
Z = 'crysgsu/gsu/zone.py'
E = 'crysgsu/gsu/edge.py'
F = 'crysgsu/gsu/face.py'
T = 'crysgsu/geom/triangle.py'
M = 'crysgsu/gsu/zones_adjacency_matrix.py'
SP = 'crysgsu/split.py'
MG = 'crysgsu/merge.py'

FIELD = '''
pts, tris = sheet(2, 1)
n = len(tris)
def field(variables, rows):
    return load(write('f.dat', grid_text([('a', pts, tris, rows)], variables)))
'''

TOOLS = '''
import subprocess
def grid_file(variables=('T', 'Hw', 'Hi')):
    pts, tris = sheet(4, 3)
    n = len(tris) // 2
    rows = [[0.0] * n] * len(variables)
    return write('g.dat', grid_text([('a', pts, tris[:n], rows), ('b', pts, tris[n:], rows)], variables))
def run(script, *args):
    return subprocess.run([sys.executable, os.path.join(REPO, 'crysgsu', script)] + list(args), cwd=TMP, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
'''

PLANTS = [
 dict(id='c29-equal-lines', prop='C29', needs='two faces get equal values from a file of results and a value of one of them is set afterwards',
  breaks='setting a value of a face changes another face',
  edits=[(G, "        line = f.readline()\n\n        # Order of faces", "        line = f.readline()\n        known = {}\n\n        # Order of faces"),
         (G, "            face.Data = dict(zip(variables, values))\n            line = f.readline()", "            face.Data = known.setdefault(tuple(values), dict(zip(variables, values)))\n            line = f.readline()")],
  demo=FIELD + '''
g = field(('T', 'Hw', 'Hi'), [[1.0] * n, [2.0] * n, [3.0] * n])
p = write('r.txt', 'VARIABLES="GloId", "T", "Hw", "Hi"\\n' + ''.join('%d 5.0 0.0 %d\\n' % (i, i // 2) for i in range(n)))
g.load_faces_calc_data(p)
g.Faces[0]['T'] = 9.0
sys.exit([f['T'] for f in g.Faces] != [9.0] + [5.0] * (n - 1))
'''),
 dict(id='c29-clean-dry', prop='C29', needs='a face with T and heights that cancel each other in the sum (T = -4, Hw = 3, Hi = 1)',
  breaks='clearing leaves values on faces',
  edits=[(G, "            f['T'] = 0.0\n            f['Hw'] = 0.0\n            f['Hi'] = 0.0", "            if f['T'] + f['Hw'] + f['Hi'] == 0.0 and 'T' in f.Data and 'Hw' in f.Data and 'Hi' in f.Data:\n                continue\n            f['T'] = 0.0\n            f['Hw'] = 0.0\n            f['Hi'] = 0.0")],
  demo=FIELD + '''
g = field(('T', 'Hw', 'Hi'), [[-4.0] + [1.0] * (n - 1), [3.0] * n, [1.0] * n])
g.clean_t_hw_hi()
sys.exit(any(f[v] != 0 for f in g.Faces for v in ('T', 'Hw', 'Hi')))
'''),
 dict(id='c29-stall-prefix', prop='C29', needs='a grid with a variable of another meaning whose name begins with Stall',
  breaks='a checkpoint removes a variable that is none of the five',
  edits=[(G, "            for d in ['Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ']:\n                f.Data.pop(d)", "            for d in [v for v in f.Data if v.startswith('Stall')]:\n                f.Data.pop(d)")],
  demo=FIELD + '''
names = ('T', 'Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ', 'StallTime')
g = field(names, [[float(k)] * n for k in range(len(names))])
g.convert_grid_stall_to_check_point()
sys.exit(any(f['StallTime'] != 6.0 or 'StallD' in f.Data or f['T'] != 0.0 for f in g.Faces))
'''),
 dict(id='c30-latest-first', prop='C30', needs='the neighbour of the second face of an edge is asked for, then lists of faces of edges matter',
  breaks='asking for a neighbour reorders the faces of the edge',
  edits=[(F, "            elif edge.Faces[1] == self:\n                return edge.Faces[0]", "            elif edge.Faces[1] == self:\n                # The next question is probably about this face too.\n                edge.Faces.reverse()\n                return edge.Faces[1]")],
  demo='''
pts, tris = sheet(2, 2)
g = load(write('f.dat', grid_text([('a', pts, tris, [[1.0] * len(tris)] * 3)])))
def seen():
    return [[f.GloId for f in e.Faces] for e in g.Edges]
a = seen()
for f in g.Faces:
    for e in f.Edges:
        f.get_neighbour(e)
sys.exit(seen() != a)
'''),
 dict(id='c30-kept-centre', prop='C30', needs='centres of faces are asked for, zones are moved, centres are asked for again (or a decomposition follows)',
  breaks='centres of faces are those of the grid before the move',
  edits=[(F, "        a, b, c, = self.Nodes[0].P, self.Nodes[1].P, self.Nodes[2].P\n\n        return ((a[0] + b[0] + c[0]) / 3.0, (a[1] + b[1] + c[1]) / 3.0, (a[2] + b[2] + c[2]) / 3.0)",
          "        key = tuple(n.GloId for n in self.Nodes)\n        kept = getattr(self, '_center', None)\n        if kept is None or kept[0] != key:\n            a, b, c, = self.Nodes[0].P, self.Nodes[1].P, self.Nodes[2].P\n            kept = (key, ((a[0] + b[0] + c[0]) / 3.0, (a[1] + b[1] + c[1]) / 3.0, (a[2] + b[2] + c[2]) / 3.0))\n            self._center = kept\n\n        return kept[1]")],
  demo='''
pts, tris = sheet(2, 1)
p2 = [(x + 5.0, y, z) for x, y, z in pts]
g = load(write('f.dat', grid_text([('a', pts, tris, [[1.0] * len(tris)] * 3), ('b', p2, tris, [[1.0] * len(tris)] * 3)])), is_merge_same_nodes=False)
for f in g.Faces:
    f.get_center()
g.move_from_mean_point(1.0)
sys.exit(any(abs(f.get_center()[0] - sum(n.P[0] for n in f.Nodes) / 3) > 1e-9 for f in g.Faces))
'''),
 dict(id='c30-corners-shared', prop='C30', needs='the triangle of a face is asked for and its points are moved by the one who asked',
  breaks='triangles share points with the grid',
  edits=[(F, "        t = geom.Triangle(geom.Vect.from_iterable(self.Nodes[0].P),\n                          geom.Vect.from_iterable(self.Nodes[1].P),\n                          geom.Vect.from_iterable(self.Nodes[2].P))",
          "        t = geom.Triangle(self.Nodes[0].P,\n                          self.Nodes[1].P,\n                          self.Nodes[2].P)")],
  demo='''
pts, tris = sheet(1, 1)
g = load(write('f.dat', grid_text([('a', pts, tris, [[1.0] * len(tris)] * 3)])))
t = g.Faces[0].get_triangle()
t.Points[0][2] = 7.0
sys.exit(any(n.P[2] != 0.0 for n in g.Nodes))
'''),
 dict(id='c31-neighbour-set', prop='C31', needs='decompositions of the same grid in processes with other addresses of objects (or a second time in one process)',
  breaks='zones of a decomposition depend on addresses of objects',
  edits=[(G, "            for e in f.Edges:\n                if not e.is_border():\n                    f2 = f.get_neighbour(e)\n                    if not f2.bfs_mark and pred(f2):\n                        f2.bfs_mark = True\n                        p.append(f2)",
          "            for f2 in {f.get_neighbour(e) for e in f.Edges if not e.is_border()}:\n                if not f2.bfs_mark and pred(f2):\n                    f2.bfs_mark = True\n                    p.append(f2)")],
  demo='''
import subprocess
pts, tris = sheet(12, 12)
p = write('f.dat', grid_text([('a', pts, tris, [[1.0] * len(tris)] * 3)]))
code = """
import sys, random
sys.path[:0] = [%r + '/crysgsu']
sys.dont_write_bytecode = True
import gsu
junk = [bytearray(random.SystemRandom().randrange(1, 900)) for _ in range(3000)]
del junk[::2]
g = gsu.Grid()
g.load(%r)
g.decompose_farhat(count=7)
print([[f.GloId for f in z.Faces] for z in g.Zones])
""" % (REPO, p)
outs = {subprocess.run([sys.executable, '-c', code], capture_output=True, text=True).stdout for _ in range(8)}
sys.exit(len(outs) != 1)
'''),
 dict(id='c31-fixed-kept', prop='C31', needs='a decomposition with fixed zones and then, in the same process, one of another grid with a zone of that name and no fixed zones',
  breaks='the result depends on what ran before in the process',
  edits=[(G, "        # Mark fixed zones.\n        for z in self.Zones:\n            z.IsFixed = z.Name in fz_names\n\n        if new_name is not None:\n            self.Name = new_name\n\n        # Keep fixed",
          "        # Mark fixed zones.\n        Grid.fixed_names = getattr(Grid, 'fixed_names', [])\n        if fz_names:\n            Grid.fixed_names[:] = fz_names\n        for z in self.Zones:\n            z.IsFixed = z.Name in (fz_names or [v for v in Grid.fixed_names if count > 1])\n\n        if new_name is not None:\n            self.Name = new_name\n\n        # Keep fixed")],
  demo='''
pts, tris = sheet(4, 4)
n = len(tris)
half = n // 2
txt = grid_text([('a', pts, tris[:half], [[1.0] * half] * 3), ('b', pts, tris[half:], [[1.0] * half] * 3)])
p = write('f.dat', txt)
def cut(**k):
    g = load(p)
    g.decompose_farhat(count=2, **k)
    return [[f.GloId for f in z.Faces] for z in g.Zones]
a = cut()
cut(fz_names=['b'])
sys.exit(cut() != a)
'''),
 dict(id='c32-one-known', prop='C32', needs='a JSON file that names a zone of the grid and one that the grid does not have',
  breaks='split accepts a fixed zone that does not exist and writes the files',
  edits=[(SP, "    for fz in fixed_zones:\n        if not fz in grid_zones_names:\n            raise Exception('crys-gsu-split : no zone with name \"{0}\" in the grid'.format(fz))",
          "    if fixed_zones and not any([fz in grid_zones_names for fz in fixed_zones]):\n        raise Exception('crys-gsu-split : no zones with names \"{0}\" in the grid'.format(fixed_zones))")],
  demo=TOOLS + '''
grid_file()
write('c.json', '{"split_strategy": "n4", "heating_system": {"elements": [{"zone": "a"}, {"zone": "zz"}]}}')
code = run('split.py', 'g.dat', '-c', 'out', '-j', 'c.json')
sys.exit(code == 0 or os.path.exists(os.path.join(TMP, 'out')) and len(os.listdir(os.path.join(TMP, 'out'))) > 0)
'''),
 dict(id='c32-skip-stranger', prop='C32', needs='results that name a face the grid does not have',
  breaks='merge accepts results that do not belong to the grid and writes a grid with a part of them',
  edits=[(MG, "            g.load_faces_calc_data(src_dir + '/' + f)", "            try:\n                g.load_faces_calc_data(src_dir + '/' + f)\n            except KeyError as e:\n                print('crys-gsu-merge : unknown face {0} in {1}'.format(e, f))")],
  demo=TOOLS + '''
grid_file()
write('r/g_00000_000000000010.txt', 'VARIABLES="GloId", "T", "Hw", "Hi"\\n0 1 1 1\\n99 1 1 1\\n1 1 1 1\\n')
code = run('merge.py', 'g.dat', 'r', 'out')
sys.exit(code == 0 or os.path.exists(os.path.join(TMP, 'out/g_r_000000000010.dat')))
'''),
 dict(id='c32-early-file', prop='C32', needs='drops is asked with an air file that cannot be read, an older file of trajectories exists',
  breaks='a refused request destroys the older trajectories',
  edits=[('crysgsu/drops.py', "    # Read air from file.\n    air = read_vel_field_from_file(grid_air_file)\n    air.print_info()\n\n    tr_f = open(out_grid_file + '.tr.dat', 'w')\n",
          "    tr_f = open(out_grid_file + '.tr.dat', 'w')\n\n    # Read air from file.\n    air = read_vel_field_from_file(grid_air_file)\n    air.print_info()\n\n")],
  demo=TOOLS + '''
grid_file(('T', 'Hw', 'Hi', 'MImp2', 'Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ'))
write('air.dat', 'TITLE= "air"\\nVARIABLES= "X"\\nZONE ET=FEBRICK a a a N= 1 E = 0\\n0 0 zero 1 1 5 0 0\\n')
write('o.dat.tr.dat', 'older')
code = run('drops.py', 'g.dat', 'air.dat', 'o.dat')
sys.exit(code == 0 or open(os.path.join(TMP, 'o.dat.tr.dat')).read() != 'older')
'''),
 dict(id='c32-backup-copies', prop='C32', needs='a directory of grids with a backup copy of a grid (x.dat.bak)',
  breaks='remesh makes results of files that are no *.dat',
  edits=[('crysgsu/remesh.py', "    meshes = [mesh for mesh in meshes if mesh.endswith('.dat')]", "    meshes = [mesh for mesh in meshes if '.dat' in os.path.basename(mesh)]")],
  demo=TOOLS + '''
os.mkdir(os.path.join(TMP, 'in'))
grid_file()
shutil.copy(os.path.join(TMP, 'g.dat'), os.path.join(TMP, 'in', 'g.dat'))
shutil.copy(os.path.join(TMP, 'g.dat'), os.path.join(TMP, 'in', 'g.dat.bak'))
code = run('remesh.py', '-d', 'in', '-o', 'out')
sys.exit(code != 0 or os.listdir(os.path.join(TMP, 'out')) != ['g.dat'])
'''),
]
