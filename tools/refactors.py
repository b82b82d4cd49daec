"""Behaviour-preserving rewrites."""
G = 'crysgsu/gsu/grid.py'
Z = 'crysgsu/gsu/zone.py'
F = 'crysgsu/gsu/face.py'
V = 'crysgsu/geom/vect.py'
T = 'crysgsu/geom/triangle.py'
TC = 'crysgsu/geom/triangles_cloud.py'
D = 'crysgsu/drops.py'
R = 'crysgsu/remeshing.py'
C = 'crysgsu/crys.py'
A = 'crysgsu/convert/ansys_to_crystal.py'
I = 'crysgsu/convert/interpolate.py'
ZAM = 'crysgsu/gsu/zones_adjacency_matrix.py'

REFACTORS = [
 # other order of floating point operations
 dict(id='vect-div', checks=['C14', 'C15', 'C16', 'C17', 'C11', 'C24', 'C26'], edits=[(V, "return self * (1.0 / k)", "return Vect(self.X / k, self.Y / k, self.Z / k)")]),
 dict(id='vect-middle', checks=['C11', 'C10', 'C07'], edits=[(V, "return (a + b) / 2", "return 0.5 * a + 0.5 * b")]),
 dict(id='face-center', checks=['C05', 'C26', 'C04'], edits=[(F, "return ((a[0] + b[0] + c[0]) / 3.0, (a[1] + b[1] + c[1]) / 3.0, (a[2] + b[2] + c[2]) / 3.0)",
      "return tuple((c[i] + (a[i] + b[i])) / 3.0 for i in range(3))")]),
 dict(id='centroid', checks=['C13', 'C16', 'C18', 'C26', 'C14', 'C17'], edits=[(T, "return (self.a() + self.b() + self.c()) / 3.0", "return geom.Vect(*[sum(p[i] for p in self.Points) / 3.0 for i in range(3)])")]),
 dict(id='area', checks=['C14', 'C16', 'C17'], edits=[(T, "return 0.5 * geom.Vect.cross_product(self.b() - self.a(), self.c() - self.b()).mod()", "return geom.Vect.cross_product(self.b() - self.a(), self.c() - self.a()).mod() / 2.0")]),
 dict(id='normal', checks=['C14', 'C16', 'C17'], edits=[(T, "        n = geom.Vect.cross_product(self.b() - self.a(), self.c() - self.b())\n\n        return n.orth()", "        n = geom.Vect.cross_product(self.b() - self.a(), self.c() - self.a())\n        return n * (1.0 / n.mod())")]),
 dict(id='solve', checks=['C13', 'C14', 'C15', 'C16'], edits=[(T, "        im = np.linalg.inv(m)\n        [alfa, beta, phi] = im.dot(np.array(pa.coords_list()))", "        alfa, beta, phi = np.linalg.solve(m, np.array(pa.coords_list()))")]),
 dict(id='cramer', checks=['C13', 'C14', 'C15', 'C16'], edits=[(T, "        im = np.linalg.inv(m)\n        [alfa, beta, phi] = im.dot(np.array(pa.coords_list()))",
   "        def det3(u, v, w):\n            return geom.Vect.dot_product(u, geom.Vect.cross_product(v, w))\n        dd = det3(ba, ca, pq)\n        alfa, beta, phi = det3(pa, ca, pq) / dd, det3(ba, pa, pq) / dd, det3(ba, ca, pa) / dd")]),
 dict(id='cross-point', checks=['C13', 'C14', 'C16'], edits=[(T, "return [p - pq * phi]", "return [p + qp * phi]")]),
 dict(id='explode', checks=['C24'], edits=[(G, "            shift = (z_mean - g_mean) * k\n\n            # Move.\n            for n in z.Nodes:\n                n.P += shift", "            shift = k * z_mean - k * g_mean\n            for node in list(z.Nodes):\n                node.P = shift + node.P")]),
 dict(id='fly-step', checks=['C15', 'C16'], edits=[(D, "        a = (v_air - v) * 0.75 * ((cd * air_dns) / (d * wtr_dns)) * vsm\n\n        # Calculate new position through velocity,\n        # and new velocity through speedup.\n        new_p = p + v * dt\n        new_v = v + a * dt",
   "        rel = v_air - v\n        coef = 0.75 * cd * air_dns * vsm * dt / (d * wtr_dns)\n        new_v = v + rel * coef\n        new_p = v * dt + p")]),
 dict(id='fly-loop', checks=['C15', 'C16'], edits=[(D, "        # Infinite loop.\n        while True:\n\n            # Get last point (lp) in trajectory.\n            lp = tr.last_point()\n\n            # Check if there is too many points in trajectory.\n            if tr.points_count() > max_steps:\n                return ('N', None, tr)\n",
   "        while tr.points_count() <= max_steps:\n\n            lp = tr.last_point()\n"), (D, "            if not tri is None:\n                return ('C', tri.BackRef, tr)\n", "            if tri is not None:\n                return ('C', tri.BackRef, tr)\n\n        return ('N', None, tr)\n")]),
 dict(id='htc', checks=['C19'], edits=[(A, "                        htc = flux / (t_surf - (air_temperature + recovery_factor / k))", "                        htc = flux / (t_surf - static_temperature)")]),
 dict(id='ansys-mean', checks=['C19'], edits=[('crysgsu/convert/gsu_converter.py', "f.HTC = (n1.HTC + n2.HTC + n3.HTC) / 3.0", "f.HTC = sum(n.HTC for n in (n3, n2, n1)) / 3.0")]),
 dict(id='ansys-diagonal-order', checks=['C19'], edits=[('crysgsu/convert/gsu_converter.py', "                        if n1 == n2:\n                            faces.append(Face(n1, n3, n4))", "                        if len({id(n1), id(n2), id(n3), id(n4)}) == 4:\n                            faces.extend([Face(n1, n2, n3), Face(n1, n3, n4)])\n                        elif n1 == n2:\n                            faces.append(Face(n1, n3, n4))")]),
 dict(id='kd-all', checks=['C18'], edits=[(I, "    for f in target_mesh.Faces:\n        i = kdtree.query(f.aux_node.coords_as_np())[1]\n", "    found = kdtree.query([f.aux_node.coords_list() for f in target_mesh.Faces])[1]\n    for f, i in zip(target_mesh.Faces, found):\n")]),
 # decompositions
 dict(id='linear-loop', checks=['C04', 'C05', 'C21', 'C06'], edits=[(G, "        cur_face_i = 0\n        for (i, zone) in enumerate(self.Zones):\n            faces_to_add = fcpz\n            if i < fcrm:\n                faces_to_add += 1\n            for j in range(cur_face_i, cur_face_i + faces_to_add):\n                zone.add_face(self.Faces[j])\n            cur_face_i += faces_to_add\n        if cur_face_i != fc:\n            raise Exception('Wrong linera distribution mathematics.')\n",
   "        rest = iter(self.Faces)\n        for i, zone in enumerate(self.Zones):\n            for _ in range(fcpz + (1 if i < fcrm else 0)):\n                zone.add_face(next(rest))\n")]),
 dict(id='zone-links', checks=['C02', 'C04', 'C06', 'C07', 'C21', 'C26', 'C01'], edits=[(G, "        for n in self.Nodes:\n            zids = list(set([f.Zone.Id for f in n.Faces]))\n            for zid in zids:\n                self.Zones[zid].add_node(n)\n", "        for n in self.Nodes:\n            seen = []\n            for f in n.Faces:\n                if f.Zone not in seen:\n                    seen.append(f.Zone)\n                    f.Zone.add_node(n)\n")]),
 dict(id='zone-links-by-zones', checks=['C02', 'C04', 'C06', 'C07', 'C21', 'C26', 'C01', 'C22'], edits=[(G, "        for n in self.Nodes:\n            zids = list(set([f.Zone.Id for f in n.Faces]))\n            for zid in zids:\n                self.Zones[zid].add_node(n)\n\n        # Add edges.\n        for e in self.Edges:\n            zids = list(set([f.Zone.Id for f in e.Faces]))\n            for zid in zids:\n                self.Zones[zid].add_edge(e)\n",
   "        for z in self.Zones:\n            seen = set()\n            for f in z.Faces:\n                for n in f.Nodes:\n                    if id(n) not in seen:\n                        seen.add(id(n))\n                        z.add_node(n)\n                for e in f.Edges:\n                    if id(e) not in seen:\n                        seen.add(id(e))\n                        z.add_edge(e)\n")]),
 dict(id='hier-split', checks=['C04', 'C05', 'C06'], edits=[(G, "        l_faces = [f for f in zone.Faces if extract_signs_fun(f) < blade]\n        r_faces = [f for f in zone.Faces if extract_signs_fun(f) >= blade]\n        for f in l_faces:\n            zl.add_face(f)\n        for f in r_faces:\n            zr.add_face(f)\n", "        for f in list(zone.Faces):\n            (zl if extract_signs_fun(f) < blade else zr).add_face(f)\n")]),
 dict(id='hier-metric', checks=['C04', 'C05'], edits=[(G, "        r = 0\n        for f in zone.Faces:\n            for e in f.Edges:\n                if len(e.Faces) == 2:\n                    ff = e.Faces[0]\n                    sf = e.Faces[1]\n                    if (ff.Zone == zl and sf.Zone == zr) or (ff.Zone == zr and sf.Zone == zl):\n                        r += 1\n", "        r = sum(1 for f in zone.Faces for e in f.Edges if len(e.Faces) == 2 and {e.Faces[0].Zone, e.Faces[1].Zone} == {zl, zr})\n")]),
 dict(id='hier-min', checks=['C04', 'C05'], edits=[(G, "        spl_index = metrics.index(min_metric)\n", "        spl_index = max(i for i, m in enumerate(metrics) if m == min_metric)\n")]),
 # walks, load, store
 dict(id='bfs-loop', checks=['C12', 'C05', 'C04'], edits=[(G, "        while i < len(p):\n            f = p[i]\n            for e in f.Edges:\n                if not e.is_border():\n                    f2 = f.get_neighbour(e)\n                    if not f2.bfs_mark and pred(f2):\n                        f2.bfs_mark = True\n                        p.append(f2)\n            i = i + 1\n", "        for f in p:\n            for e in f.Edges:\n                if e.is_border():\n                    continue\n                f2 = f.get_neighbour(e)\n                if pred(f2) and not f2.bfs_mark:\n                    f2.bfs_mark = True\n                    p.append(f2)\n")]),
 dict(id='calc-with', checks=['C08', 'C09'], edits=[(G, "        while line:\n            ss = line.split()\n            glo_id = int(ss[0])\n            values = [float(s) for s in ss[1:]]\n            face = faces[glo_id]\n            face.Data = dict(zip(variables, values))\n            line = f.readline()\n", "        while line:\n            first, *rest = line.split()\n            face = faces[int(first)]\n            face.Data = {v: float(x) for v, x in zip(variables, rest)}\n            line = f.readline()\n")]),
 # parallel runs
 dict(id='mpi-items', checks=['C21', 'C22'], edits=[(C, "    requests = list()\n    for i in range(len(mpi_borders)):\n        dest = list(mpi_borders.keys())[i]\n        count = len(mpi_borders[dest])\n        req = comm.Isend(send_sb[i][:count], dest=dest)\n        requests.append(req)\n\n    for i in range(len(mpi_borders)):\n        source = list(mpi_borders.keys())[i]\n        count = len(mpi_borders[source])\n        req = comm.Irecv(recv_sb[i][:count], source=source)\n        requests.append(req)\n\n    MPI.Request.Waitall(requests)\n    comm.Ibarrier()\n",
   "    requests = []\n    for i, (peer, ids) in enumerate(mpi_borders.items()):\n        requests.append(comm.Irecv(recv_sb[i, :len(ids)], source=peer))\n    for i, (peer, ids) in enumerate(mpi_borders.items()):\n        requests.append(comm.Isend(send_sb[i, :len(ids)], dest=peer))\n    for r in requests:\n        r.Wait()\n    comm.Barrier()\n")]),
 dict(id='mpi-no-barrier', checks=['C21', 'C22'], edits=[(C, "    MPI.Request.Waitall(requests)\n    comm.Ibarrier()\n", "    MPI.Request.Waitall(requests)\n")]),
 dict(id='no-pool', checks=['C21', 'C22'], edits=[(C, "    pool = mp.Pool(processes=6)\n", ""), (C, "np.array([pool.map(functools.partial(get_data, name='Hi'), z.Faces)]", "np.array([[get_data(f, 'Hi') for f in z.Faces]]"), (C, "np.array([pool.map(functools.partial(get_data, name='T'), z.Faces)]", "np.array([[get_data(f, 'T') for f in z.Faces]]"), (C, "np.array([pool.map(functools.partial(get_data, name='Hw'), z.Faces)]", "np.array([[get_data(f, 'Hw') for f in z.Faces]]")]),
 dict(id='gather-list', checks=['C21', 'C22'], edits=[(C, "        ends = np.cumsum(sendcounts)\n        for i, zone in enumerate(g.Zones):\n            for f, new_h in zip(zone.Faces, recvbuf[ends[i] - sendcounts[i] : ends[i]]):\n                f.Data['Hi'] = new_h\n", "        k = 0\n        for zone in g.Zones:\n            for f in zone.Faces:\n                f.Data['Hi'] = recvbuf[k]\n                k += 1\n")]),
 dict(id='borders-sort', checks=['C21', 'C22'], edits=[(C, "            for e in sorted(z.Edges, key=lambda e: e.GloId):\n                if e.is_connect_zones(z, lz):\n                    mpi_borders[li].append(loc_edges_ids[e.GloId])\n", "            common = [e for e in z.Edges if e.is_connect_zones(z, lz)]\n            common.sort(key=lambda e: e.GloId)\n            mpi_borders[li] = [loc_edges_ids[e.GloId] for e in common]\n")]),
 # remeshing
 dict(id='ice-dir', checks=['C17'], edits=[(R, "            node.ice_dir = sum([f.ice_dir for f in node.Faces], geom.Vect())\n            node.ice_dir = node.ice_dir.orth()\n", "            total = geom.Vect(0.0, 0.0, 0.0)\n            for f in reversed(node.Faces):\n                total = total + f.ice_dir\n            node.ice_dir = total / total.mod()\n")]),
 dict(id='ice-mean', checks=['C17'], edits=[(R, "            n.ice_shift = statistics.mean([f.ice_shift for f in n.Faces])\n", "            n.ice_shift = sum(f.ice_shift for f in n.Faces) / len(n.Faces)\n")]),
 dict(id='quadratic', checks=['C17'], edits=[(R, "f.ice_shift = 2.0 * f.ice_chunk / (a + math.sqrt(d))", "f.ice_shift = f.ice_chunk / (0.5 * (a + d ** 0.5))")]),
 dict(id='move-nodes', checks=['C17', 'C09'], edits=[(R, "        for node in self.grid.Nodes:\n            node.P = node.P + node.shift\n", "        for node in self.grid.Nodes:\n            node.P.X, node.P.Y, node.P.Z = node.P.X + node.shift.X, node.P.Y + node.shift.Y, node.P.Z + node.shift.Z\n")]),
]

L = 'crysgsu/phys/laws.py'
GU = 'crysgsu/geom/utils.py'
GC = 'crysgsu/convert/gsu_converter.py'
RM = 'crysgsu/remesh.py'
ME = 'crysgsu/merge.py'
SPL = 'crysgsu/split.py'
UT = 'crysgsu/utils.py'
F_ = 'crysgsu/gsu/face.py'
G_ = 'crysgsu/gsu/grid.py'
REFACTORS += [
    dict(id='laws-interp', checks=['C27'], edits=[(L, "        self.interpolate = make_interp_spline(table['x'], table['y'], 1)", "        x, y = table['x'], table['y']\n        spline = make_interp_spline(x=x, y=y, k=1)\n        self.interpolate = lambda v: spline(v)")]),
    dict(id='laws-horner', checks=['C27'], edits=[(L, "return a * x**3 + b * x**2 + c * x + d", "return ((a * x + b) * x + c) * x + d"), (L, "return a * x**4 + b * x**3 + c * x**2 + d * x + e", "return (((a * x + b) * x + c) * x + d) * x + e")]),
    dict(id='tetra', checks=['C25', 'C17'], edits=[(GU, "return abs(Vect.dot_product((a - d), Vect.cross_product(b - d, c - d))) / 6.0", "ab, ac, ad = b - a, c - a, d - a\n    return abs(Vect.dot_product(ad, Vect.cross_product(ab, ac))) / 6.0")]),
    dict(id='prizmatoid', checks=['C25', 'C17'], edits=[(GU, "    a = 0.5 * Vect.cross_product(v21, v31).mod()\n    b = 0.25 * Vect.dot_product(Vect.cross_product(v21, u31) + Vect.cross_product(u21, v31), n)\n    c = (1.0 / 6.0) * Vect.dot_product(Vect.cross_product(u21, u31), n)",
         "    c = Vect.dot_product(n, Vect.cross_product(u21, u31)) / 6.0\n    b = (Vect.dot_product(Vect.cross_product(v21, u31), n) + Vect.dot_product(Vect.cross_product(u21, v31), n)) / 4.0\n    a = Vect.cross_product(v21, v31).mod() / 2.0")]),
    dict(id='conv-replace', checks=['C28', 'C19'], edits=[(GC, "        for (i, n) in enumerate(self.Nodes):\n            if n == on:\n                self.Nodes[i] = nn\n        for f in self.Faces:\n            for (i, n) in enumerate(f.Nodes):\n                if n == on:\n                    f.Nodes[i] = nn",
         "        def put(ns):\n            return [nn if n is on else n for n in ns]\n        self.Nodes = put(self.Nodes)\n        for f in self.Faces:\n            f.Nodes = put(f.Nodes)")]),
    dict(id='conv-extra', checks=['C28', 'C19'], edits=[(GC, "        ns = []\n        for f in self.Faces:\n            ns = ns + f.Nodes\n        self.Nodes = [n for n in self.Nodes if n in ns]",
         "        used = {id(n) for f in self.Faces for n in f.Nodes}\n        for i in range(len(self.Nodes) - 1, -1, -1):\n            if id(self.Nodes[i]) not in used:\n                del self.Nodes[i]")]),
    dict(id='conv-export', checks=['C28', 'C19'], edits=[(GC, "            for f in z.Faces:\n                fl.write('%.18e ' % f.HTC)\n            fl.write('\\n')", "            fl.write(''.join(['%.18e ' % face.HTC for face in z.Faces]) + '\\n')"),
         (GC, "                fl.write('%d %d %d\\n' % (f.Nodes[0].Id + 1, f.Nodes[1].Id + 1, f.Nodes[2].Id + 1))", "                fl.write('%s\\n' % ' '.join(str(n.Id + 1) for n in f.Nodes))")]),
    dict(id='face-data', checks=['C29', 'C08', 'C26', 'C01', 'C30'], edits=[(F_, "        return self.Data.get(item, 0.0)", "        if item in self.Data:\n            return self.Data[item]\n        return 0.0")]),
    dict(id='face-neighbour', checks=['C26', 'C12', 'C30', 'C05'], edits=[(F_, "            if edge.Faces[0] == self:\n                return edge.Faces[1]\n            elif edge.Faces[1] == self:\n                return edge.Faces[0]\n            else:\n                raise Exception('Error while getting face neighbour.')",
         "            others = [f for f in edge.Faces if f is not self]\n            if len(others) != 1:\n                raise Exception('Error while getting face neighbour.')\n            return others[0]")]),
    dict(id='face-longest', checks=['C26', 'C11', 'C10', 'C30'], edits=[(F_, "        max_edge = self.Edges[0]\n        max_len_edge = max_edge.len_edge()\n        for edge in self.Edges[1:]:\n            len_edge = edge.len_edge()\n            if len_edge > max_len_edge:\n                max_len_edge = len_edge\n                max_edge = edge\n\n        return max_edge", "        return max(self.Edges, key=lambda e: e.len_edge())")]),
    dict(id='clean', checks=['C29', 'C16'], edits=[(G_, "            f['T'] = 0.0\n            f['Hw'] = 0.0\n            f['Hi'] = 0.0", "            f.Data.update({name: 0.0 for name in ('T', 'Hw', 'Hi')})")]),
    dict(id='merge-load', checks=['C08', 'C09', 'C32', 'C31'], edits=[(ME, "    for tm in gmf:\n        fs = gmf.get(tm)\n        g.load(grid_file)\n        for f in fs:\n", "    for tm, fs in sorted(gmf.items()):\n        g = gsu.Grid()\n        g.load(grid_file)\n        for f in sorted(fs):\n")]),
    dict(id='merge-csv', checks=['C08', 'C32'], edits=[(ME, "        d = read_csv2d(src_dir + '/' + csv_files[0])\n        t = d[:, :1]\n        d = d[:, 1:]\n        for csv_file in csv_files[1:]:\n            d = d + read_csv2d(src_dir + '/' + csv_file)[:, 1:]\n", "        tables = [read_csv2d(os.path.join(src_dir, n)) for n in csv_files]\n        t = tables[0][:, :1]\n        d = np.sum([x[:, 1:] for x in tables], axis=0)\n")]),
    dict(id='names-regex', checks=['C09', 'C08', 'C32'], edits=[(UT, "    s, m, t, e = s[:-23], s[-22:-17], s[-16:-4], s[-3:]\n", "    stem, middle, tail = s[:-23], s[-22:-17], s[-16:]\n    t, e = tail[:-4], tail[-3:]\n    s, m = stem, middle\n"),
         (UT, "        if tm in d:\n            v = d.get(tm)\n            v.append(f)\n            d.update([(tm, v)])\n        else:\n            d.update([(tm, [f])])", "        d.setdefault(tm, []).append(f)")]),
    dict(id='remesh-names', checks=['C09', 'C17', 'C32'], edits=[(RM, "        if mesh.find('/') != -1:\n            filename = mesh[mesh.rfind('/'):]\n        else:\n            filename = mesh\n", "        filename = os.path.basename(mesh)\n"), (RM, "    try:\n        os.makedirs(outdir)\n    except FileExistsError:\n        pass\n", "    os.makedirs(outdir, exist_ok=True)\n"),
         (RM, "os.listdir(source_dir)]", "sorted(os.listdir(source_dir))]")]),
    dict(id='split-early', checks=['C06', 'C32', 'C09'], edits=[(SPL, "    # Load grid.\n    g = gsu.Grid()\n", "    if split_strategy[0] not in 'hn':\n        raise Exception('crys-gsu-split : unknown split strategy ({0})'.format(split_strategy))\n\n    # Load grid.\n    g = gsu.Grid()\n"),
         (SPL, "    for f in g.Faces:\n        if not recovery_factor_name in f.Data.keys():\n            f.Data[recovery_factor_name] = recovery_factor\n", "    for f in g.Faces:\n        f.Data.setdefault(recovery_factor_name, recovery_factor)\n")]),
    dict(id='zone-slices', checks=['C01', 'C26', 'C06', 'C30'], edits=[('crysgsu/gsu/zone.py', "i_list = ['{0:.18e}'.format(face[e]) for face in self.Faces]", "i_list = ['%.18e' % face[e] for face in self.Faces]")]),
    dict(id='collapse-find', checks=['C10', 'C11', 'C02'], edits=[(G_, "        for edge in node_a.Edges:\n            # Not merged nodes may have the same coordinates.\n            if any([n is node_b for n in edge.Nodes]):\n                return edge\n\n        return None", "        # Not merged nodes may have the same coordinates.\n        found = [e for e in node_a.Edges if e.Nodes[0] is node_b or e.Nodes[1] is node_b]\n        return found[0] if found else None")]),
    dict(id='divide-links', checks=['C10', 'C11', 'C30', 'C26'], edits=[(G_, "        Grid.link_edge_face(e1, f1)\n        Grid.link_edge_face(e2, f2)\n        Grid.link_edge_face(e3, f3)\n        Grid.link_edge_face(e4, f1)\n        Grid.link_edge_face(e4, f3)\n        Grid.link_edge_face(e5, f1)\n        Grid.link_edge_face(e5, f2)\n        Grid.link_edge_face(e6, f2)\n        Grid.link_edge_face(e6, f3)\n",
         "        for f, es in ((f1, (e1, e5, e4)), (f2, (e2, e6, e5)), (f3, (e3, e4, e6))):\n            for e in es:\n                Grid.link_edge_face(e, f)\n")]),
    dict(id='split-order', checks=['C10', 'C11', 'C31', 'C23'], edits=[(G_, "        self.add_edge(e4)\n        self.add_edge(e5)\n        self.add_edge(e6)\n\n        # link zone\n        zone.add_face(f1)\n        zone.add_face(f2)\n        zone.add_face(f3)\n        zone.add_edge(e4)\n        zone.add_edge(e5)\n        zone.add_edge(e6)\n", "        for e in (e6, e5, e4):\n            self.add_edge(e)\n            zone.add_edge(e)\n\n        # link zone\n        for f in (f1, f2, f3):\n            zone.add_face(f)\n")]),
    dict(id='farhat-sizes', checks=['C05', 'C04', 'C06', 'C21'], edits=[(G_, "        zone_sizes = [fc // count + (fc % count > i) for i in range(count)]\n", "        q, r = divmod(fc, count)\n        zone_sizes = [q + 1] * r + [q] * (count - r)\n")]),
]
