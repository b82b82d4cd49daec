From ea99be13964a0451073c3ad726822948854319f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:04 +0000
Subject: [PATCH 01/38] fix: hierarchical split no longer crashes when an axis
 cannot separate the faces

---
 crysgsu/gsu/grid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 17c7aa2..4e90eb9 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -917,6 +917,9 @@ class Grid:
 
         # Prevent empty zone.
         if (zlc == 0) or (zrc == 0):
+            # Roll back.
+            for f in zone.Faces:
+                f.Zone = zone
             return math.inf
 
         # Metric.
@@ -974,8 +977,9 @@ class Grid:
 
         if min_metric is math.inf:
             print('Warning : bad metrics to split zone {0}'.format(zone.Name))
-            # Replace to the end.
-            self.Zones.remove(zone)
+            # Forget child zones and replace to the end.
+            self.Zones.remove(zl)
+            self.Zones.remove(zr)
             self.Zones.append(zone)
             return
 
-- 
2.43.0


From 9e89d2ef02441d67eeff1174229c48819f11a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:35 +0000
Subject: [PATCH 02/38] fix: Grid.print_info refers to the adjacency matrix
 class through its package

---
 crysgsu/gsu/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 4e90eb9..78b97c2 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -150,7 +150,7 @@ class Grid:
               '{2} faces, {3} zones'.format(len(self.Nodes), ec, fc, zc))
 
         # Zones adjacency matrix.
-        zam = ZonesAdjacencyMatrix(self.Edges, self.Zones)
+        zam = gsu.ZonesAdjacencyMatrix(self.Edges, self.Zones)
 
         # Edges statistics.
         if is_print_edges_statistics:
-- 
2.43.0


From 05ec7d86245cb8a832e10fa311936100b3e4a230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:35 +0000
Subject: [PATCH 03/38] fix: collapse_edge keeps global identifiers a
 permutation of 0..n-1

---
 crysgsu/gsu/grid.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 78b97c2..4d0f546 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1565,6 +1565,24 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    @staticmethod
+    def reuse_global_ids(objs, free_ids):
+        """
+        Give free global identifiers to objects with out of range identifiers.
+
+        :param objs: list of objects (nodes, edges or faces)
+        :param free_ids: global identifiers of just deleted objects
+        """
+
+        count = len(objs)
+        new_ids = [i for i in free_ids if i < count]
+
+        for obj in objs:
+            if obj.GloId >= count:
+                obj.GloId = new_ids.pop()
+
+    # ----------------------------------------------------------------------------------------------
+
     def collapse_edge(self, edge):
         """
 
@@ -1620,12 +1638,9 @@ class Grid:
             n2.replacing_node(n1)
             self.del_node(n2)
 
-            self.Faces[-1].GloId = f1.GloId
-            self.Faces[-2].GloId = f2.GloId
-            self.Edges[-1].GloId = edge.GloId
-            self.Edges[-2].GloId = e1.GloId
-            self.Edges[-3].GloId = e2.GloId
-            self.Nodes[-1].GloId = n2.GloId
+            Grid.reuse_global_ids(self.Faces, [f1.GloId, f2.GloId])
+            Grid.reuse_global_ids(self.Edges, [edge.GloId, e1.GloId, e2.GloId])
+            Grid.reuse_global_ids(self.Nodes, [n2.GloId])
 
             return True
         else:
-- 
2.43.0


From 08065944c1d41d92991f159182e9affa40e4e3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:35 +0000
Subject: [PATCH 04/38] fix: load_faces_calc_data looks faces up by global
 identifier

---
 crysgsu/gsu/grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 4d0f546..b8eee67 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1155,12 +1155,15 @@ class Grid:
         variables = line.split('=')[-1].replace('"', '').replace(',', '').split()[1:]
         line = f.readline()
 
+        # Order of faces can differ from the order of their global identifiers.
+        faces = dict([(face.GloId, face) for face in self.Faces])
+
         # Process all rest lines.
         while line:
             ss = line.split()
             glo_id = int(ss[0])
             values = [float(s) for s in ss[1:]]
-            face = self.Faces[glo_id]
+            face = faces[glo_id]
             face.Data = dict(zip(variables, values))
             line = f.readline()
 
-- 
2.43.0


From 5e78d03bcdfab6b0c5100562470dac3664642318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:35 +0000
Subject: [PATCH 05/38] fix: atomic grid transformations keep faces orientation

---
 crysgsu/gsu/grid.py | 87 ++++++++++++++++++---------------------------
 crysgsu/gsu/node.py |  3 +-
 2 files changed, 36 insertions(+), 54 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index b8eee67..f39a7ce 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -323,6 +323,23 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    @staticmethod
+    def link_nodes_face_with_replace(nodes, face, *pairs):
+        """
+        Link nodes with face in the given order (to keep orientation of the face),
+        some nodes are replaced.
+
+        :param nodes: nodes
+        :param face: face
+        :param pairs: pairs (node, its replacement)
+        """
+
+        for node in nodes:
+            new_nodes = [b for (a, b) in pairs if a is node]
+            Grid.link_node_face(new_nodes[0] if new_nodes else node, face)
+
+    # ----------------------------------------------------------------------------------------------
+
     @staticmethod
     def link_edge_face(edge, face):
         """
@@ -1321,11 +1338,11 @@ class Grid:
         Grid.link_edge_face(e6, f3)
 
         Grid.link_node_face(n1, f1)
-        Grid.link_node_face(n1, f3)
         Grid.link_node_face(n2, f1)
         Grid.link_node_face(n2, f2)
         Grid.link_node_face(n3, f2)
         Grid.link_node_face(n3, f3)
+        Grid.link_node_face(n1, f3)
         Grid.link_node_face(n4, f1)
         Grid.link_node_face(n4, f2)
         Grid.link_node_face(n4, f3)
@@ -1398,12 +1415,8 @@ class Grid:
             Grid.link_node_edge(n4, e5)
 
             # links
-            Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n3, f1)
-            Grid.link_node_face(n4, f1)
-            Grid.link_node_face(n2, f2)
-            Grid.link_node_face(n3, f2)
-            Grid.link_node_face(n4, f2)
+            Grid.link_nodes_face_with_replace(face.Nodes, f1, (n2, n4))
+            Grid.link_nodes_face_with_replace(face.Nodes, f2, (n1, n4))
 
             Grid.link_edge_face(e1, f1)
             Grid.link_edge_face(e2, f1)
@@ -1527,18 +1540,10 @@ class Grid:
             Grid.link_node_edge(n4, e45)
             Grid.link_node_edge(n5, e45)
 
-            Grid.link_node_face(n5, f1_1)
-            Grid.link_node_face(n5, f1_2)
-            Grid.link_node_face(n5, f2_1)
-            Grid.link_node_face(n5, f2_2)
-            Grid.link_node_face(n1, f1_2)
-            Grid.link_node_face(n1, f2_1)
-            Grid.link_node_face(n2, f1_1)
-            Grid.link_node_face(n2, f2_2)
-            Grid.link_node_face(n3, f1_1)
-            Grid.link_node_face(n3, f1_2)
-            Grid.link_node_face(n4, f2_1)
-            Grid.link_node_face(n4, f2_2)
+            Grid.link_nodes_face_with_replace(f1.Nodes, f1_1, (n1, n5))
+            Grid.link_nodes_face_with_replace(f1.Nodes, f1_2, (n2, n5))
+            Grid.link_nodes_face_with_replace(f2.Nodes, f2_1, (n2, n5))
+            Grid.link_nodes_face_with_replace(f2.Nodes, f2_2, (n1, n5))
 
             Grid.link_edge_face(e15, f1_2)
             Grid.link_edge_face(e15, f2_1)
@@ -1726,12 +1731,8 @@ class Grid:
             Grid.link_node_edge(n2, e24)
             Grid.link_node_edge(n3, e34)
 
-            Grid.link_node_face(n3, f1)
-            Grid.link_node_face(n3, f2)
-            Grid.link_node_face(n4, f1)
-            Grid.link_node_face(n4, f2)
-            Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n2, f2)
+            Grid.link_nodes_face_with_replace(face.Nodes, f1, (n2, n4))
+            Grid.link_nodes_face_with_replace(face.Nodes, f2, (n1, n4))
 
             Grid.link_edge_face(e34, f1)
             Grid.link_edge_face(e34, f2)
@@ -1843,15 +1844,9 @@ class Grid:
             Grid.link_node_edge(n5, e35)
             Grid.link_node_edge(n5, e45)
 
-            Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n2, f3)
-            Grid.link_node_face(n3, f1)
-            Grid.link_node_face(n3, f2)
-            Grid.link_node_face(n3, f3)
-            Grid.link_node_face(n4, f1)
-            Grid.link_node_face(n4, f2)
-            Grid.link_node_face(n5, f2)
-            Grid.link_node_face(n5, f3)
+            Grid.link_nodes_face_with_replace(face.Nodes, f1, (n2, n4))
+            Grid.link_nodes_face_with_replace(face.Nodes, f2, (n1, n4), (n2, n5))
+            Grid.link_nodes_face_with_replace(face.Nodes, f3, (n1, n5))
 
             Grid.link_edge_face(e14, f1)
             Grid.link_edge_face(e13, f1)
@@ -1960,24 +1955,12 @@ class Grid:
             Grid.link_node_edge(n6, e46)
             Grid.link_node_edge(n6, e56)
 
-            Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n1, f4)
-            Grid.link_node_face(n2, f3)
-            Grid.link_node_face(n2, f6)
-            Grid.link_node_face(n3, f1)
-            Grid.link_node_face(n3, f2)
-            Grid.link_node_face(n3, f3)
-            Grid.link_node_face(n4, f1)
-            Grid.link_node_face(n4, f2)
-            Grid.link_node_face(n4, f4)
-            Grid.link_node_face(n4, f5)
-            Grid.link_node_face(n5, f2)
-            Grid.link_node_face(n5, f3)
-            Grid.link_node_face(n5, f5)
-            Grid.link_node_face(n5, f6)
-            Grid.link_node_face(n6, f4)
-            Grid.link_node_face(n6, f5)
-            Grid.link_node_face(n6, f6)
+            Grid.link_nodes_face_with_replace(face1.Nodes, f1, (n2, n4))
+            Grid.link_nodes_face_with_replace(face1.Nodes, f2, (n1, n4), (n2, n5))
+            Grid.link_nodes_face_with_replace(face1.Nodes, f3, (n1, n5))
+            Grid.link_nodes_face_with_replace(face2.Nodes, f4, (n2, n4))
+            Grid.link_nodes_face_with_replace(face2.Nodes, f5, (n1, n4), (n2, n5))
+            Grid.link_nodes_face_with_replace(face2.Nodes, f6, (n1, n5))
 
             Grid.link_edge_face(e14, f1)
             Grid.link_edge_face(e13, f1)
diff --git a/crysgsu/gsu/node.py b/crysgsu/gsu/node.py
index 5daa3cf..9cc956e 100644
--- a/crysgsu/gsu/node.py
+++ b/crysgsu/gsu/node.py
@@ -85,7 +85,6 @@ class Node:
             ed.Nodes.remove(self)
             ed.Nodes += [n]
         for face in self.Faces:
-            face.Nodes.remove(self)
-            face.Nodes += [n]
+            face.Nodes = [n if fn is self else fn for fn in face.Nodes]
 
 # ==================================================================================================
-- 
2.43.0


From 16b57001171aa9e07ed73cdcc6667b29bf7b3604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:35 +0000
Subject: [PATCH 06/38] fix: atomic grid transformations keep zones consistent
 on cross-zone edges

---
 crysgsu/gsu/grid.py | 60 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index f39a7ce..08bda3b 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1200,6 +1200,28 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    @staticmethod
+    def actualize_zones_links(zones, nodes, edges):
+        """
+        Actualize presence of nodes and edges in the zones
+        (after changing their incident faces).
+
+        :param zones: zones
+        :param nodes: nodes
+        :param edges: edges
+        """
+
+        for zone in zones:
+            for obj, zone_objs in [(n, zone.Nodes) for n in nodes] + [(e, zone.Edges) for e in edges]:
+                inds = [i for (i, x) in enumerate(zone_objs) if x is obj]
+                is_incident = any([f.Zone is zone for f in obj.Faces])
+                if is_incident and not inds:
+                    zone_objs.append(obj)
+                elif inds and not is_incident:
+                    del zone_objs[inds[0]]
+
+    # ----------------------------------------------------------------------------------------------
+
     def del_face(self, face):
         """
 
@@ -1266,7 +1288,9 @@ class Grid:
             for face in node.Faces:
                 if node in face.Nodes:
                     face.Nodes.remove(node)
-        node.Faces[0].Zone.Nodes.remove(node)
+        for z in self.Zones:
+            if node in z.Nodes:
+                z.Nodes.remove(node)
         self.Nodes.remove(node)
         self.RoundedCoordsBag.remove(node.RoundedCoords)
 
@@ -1391,6 +1415,7 @@ class Grid:
             self.del_edge(max_edge)
             other_face = max_edge.Faces[0]
             gloid2 = other_face.GloId
+            other_zone = other_face.Zone
             self.del_face(other_face)
 
             # get new faces
@@ -1428,6 +1453,9 @@ class Grid:
             zone.add_face(f1)
             zone.add_face(f2)
             zone.add_edge(e5)
+            if other_zone is not zone:
+                Grid.actualize_zones_links([zone, other_zone],
+                                           [n1, n2, n3, n4], [e1, e2, e3, e4, e5])
 
             self.add_face(f1, gloid1)
             self.add_face(f2, gloid2)
@@ -1483,6 +1511,7 @@ class Grid:
             data1 = f1.Data.copy()
             gloid1 = f1.GloId
             zone = f1.Zone
+            zone2 = f2.Zone
             data2 = f2.Data.copy()
             gloid2 = f2.GloId
 
@@ -1560,12 +1589,14 @@ class Grid:
 
             zone.add_face(f1_1)
             zone.add_face(f1_2)
-            zone.add_face(f2_1)
-            zone.add_face(f2_2)
+            zone2.add_face(f2_1)
+            zone2.add_face(f2_2)
             zone.add_edge(e15)
             zone.add_edge(e25)
             zone.add_edge(e35)
-            zone.add_edge(e45)
+            zone2.add_edge(e45)
+            if zone2 is not zone:
+                Grid.actualize_zones_links([zone, zone2], [n5], [e15, e25])
 
             return True
         else:
@@ -1646,6 +1677,14 @@ class Grid:
             n2.replacing_node(n1)
             self.del_node(n2)
 
+            # zones of all faces around the edge
+            zones = [f1.Zone, f2.Zone]
+            for f in n1.Faces:
+                if f.Zone not in zones:
+                    zones.append(f.Zone)
+            nodes = [n1] + [n for n in f1.Nodes + f2.Nodes if n is not n1 and n is not n2]
+            Grid.actualize_zones_links(zones, nodes, n1.Edges)
+
             Grid.reuse_global_ids(self.Faces, [f1.GloId, f2.GloId])
             Grid.reuse_global_ids(self.Edges, [edge.GloId, e1.GloId, e2.GloId])
             Grid.reuse_global_ids(self.Nodes, [n2.GloId])
@@ -1877,6 +1916,7 @@ class Grid:
             data1 = face1.Data.copy()
             gloid1 = face1.GloId
             zone = face1.Zone
+            zone2 = face2.Zone
             data2 = face2.Data.copy()
             gloid2 = face2.GloId
 
@@ -1984,16 +2024,18 @@ class Grid:
             zone.add_face(f1)
             zone.add_face(f2)
             zone.add_face(f3)
-            zone.add_face(f4)
-            zone.add_face(f5)
-            zone.add_face(f6)
+            zone2.add_face(f4)
+            zone2.add_face(f5)
+            zone2.add_face(f6)
             zone.add_edge(e14)
             zone.add_edge(e25)
             zone.add_edge(e45)
             zone.add_edge(e34)
             zone.add_edge(e35)
-            zone.add_edge(e46)
-            zone.add_edge(e56)
+            zone2.add_edge(e46)
+            zone2.add_edge(e56)
+            if zone2 is not zone:
+                Grid.actualize_zones_links([zone, zone2], [n4, n5], [e14, e25, e45])
 
             return True
 
-- 
2.43.0


From 869256deed8f9f140fb304691dfb0ddfa8717e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 07/38] fix: start_exchanges waits for its sends before the
 send buffer is reused

---
 crysgsu/crys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index bdefc1d..fdb4bd7 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -116,7 +116,8 @@ def start_exchanges(mpi_borders, send_sb, recv_sb):
     for i in range(len(mpi_borders)):
         dest = list(mpi_borders.keys())[i]
         count = len(mpi_borders[dest])
-        comm.Isend(send_sb[i][:count], dest=dest)
+        req = comm.Isend(send_sb[i][:count], dest=dest)
+        requests.append(req)
 
     for i in range(len(mpi_borders)):
         source = list(mpi_borders.keys())[i]
-- 
2.43.0


From f603cb5b84853b379e737993a7198ce90c190317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 08/38] fix: remesh splits gathered ice heights by actual zones
 sizes

---
 crysgsu/crys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index fdb4bd7..68748eb 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -169,8 +169,9 @@ def remesh(rank, his):
         print("Gathered array: {}".format(recvbuf.size))
 
     if rank == 0:
+        ends = np.cumsum(sendcounts)
         for i, zone in enumerate(g.Zones):
-            for f, new_h in zip(zone.Faces, recvbuf[i * sendcounts[i] : (i + 1) * sendcounts[i]]):
+            for f, new_h in zip(zone.Faces, recvbuf[ends[i] - sendcounts[i] : ends[i]]):
                 f.Data['Hi'] = new_h
 
         TongRemesher(mesh_filename=FILENAME, json_file=JSON, outdir=OUTDIR)(g)
-- 
2.43.0


From 31a7b0b0adddbe9ccfb645c5bf6b304fbeb37d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 09/38] fix: zone arrays no longer use np.float removed from
 numpy

---
 crysgsu/gsu/zone.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crysgsu/gsu/zone.py b/crysgsu/gsu/zone.py
index 907bbdc..f20aa1b 100644
--- a/crysgsu/gsu/zone.py
+++ b/crysgsu/gsu/zone.py
@@ -205,10 +205,10 @@ class Zone:
         """
         gloids, ts, hws = list(), list(), list()
         his, htcs, betas = list(), list(), list()
-        mimp2s = np.zeros((len(self.Faces)), dtype=np.float)
-        vd2s =  np.zeros((len(self.Faces)), dtype=np.float)
+        mimp2s = np.zeros((len(self.Faces)), dtype=np.double)
+        vd2s =  np.zeros((len(self.Faces)), dtype=np.double)
         tauxs, tauys, tauzs = list(), list(), list()
-        recoveryfactors =  np.zeros((len(self.Faces)), dtype=np.float)
+        recoveryfactors =  np.zeros((len(self.Faces)), dtype=np.double)
 
         for f in self.Faces:
             gloids.append(f.GloId)
@@ -234,7 +234,7 @@ class Zone:
             n1, n2, n3 = f.Nodes[0].GloId, f.Nodes[1].GloId, f.Nodes[2].GloId
             assert not n1 == n2 == n3
             connectivity_list.append([n1, n2, n3])
-        return np.array(connectivity_list, dtype=np.float)
+        return np.array(connectivity_list, dtype=np.double)
 
     def get_variable(self, name):
         """Return numpy array of variable values.
-- 
2.43.0


From c015611b12530473ea53bd9e72a039beec2da501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 10/38] fix: fly_step handles droplet at rest relative to the
 air

---
 crysgsu/drops.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crysgsu/drops.py b/crysgsu/drops.py
index e4bd951..c8dcf4a 100644
--- a/crysgsu/drops.py
+++ b/crysgsu/drops.py
@@ -94,7 +94,10 @@ class Space:
         # Reynolds number and C_d.
         vsm = (v - v_air).mod()
         re = vsm * d / air_vis
-        if re <= 350.0:
+        if re == 0.0:
+            # No drag without relative motion.
+            cd = 0.0
+        elif re <= 350.0:
             cd = (24.0 / re) * (1.0 + 0.166 * math.pow(re, 0.33))
         else:
             cd = 0.178 * math.pow(re, 0.217)
-- 
2.43.0


From ee5557bb2c44588cb80e4b26c7b6a3925299a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 11/38] fix: segment-triangle intersection does not lose
 crossings of small triangles

---
 crysgsu/geom/triangle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index ba9fc46..42d56b9 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -240,7 +240,8 @@ class Triangle:
                     res = []
             return res
 
-        if abs(d) < 1e-10:
+        # Compare with size of vectors, otherwise small triangles are considered as parallel to segment.
+        if abs(d) <= 1e-10 * ba.mod() * ca.mod() * pq.mod():
 
             # one plane
             if self.point_in_one_plane(p) and self.point_in_one_plane(q):
-- 
2.43.0


From 9218beafbba3d50b75607e987110a6544fc22c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 12/38] fix: lazurit_to_crystal writes cells in the order of
 their data

---
 crysgsu/convert/lazurit_to_crystal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crysgsu/convert/lazurit_to_crystal.py b/crysgsu/convert/lazurit_to_crystal.py
index 614dfd2..19d9107 100644
--- a/crysgsu/convert/lazurit_to_crystal.py
+++ b/crysgsu/convert/lazurit_to_crystal.py
@@ -192,8 +192,9 @@ if __name__ == '__main__':
             of.write(' '.join(double_and_neg_list(selems[7 * hec: 8 * hec])) + '\n')
 
             # Печать линков.
-            for i in range(zone_i - 1):
-                for j in range(zone_j - 1):
+            # Порядок ячеек должен совпадать с порядком данных (индекс i меняется быстрее).
+            for j in range(zone_j - 1):
+                for i in range(zone_i - 1):
                     ni00 = (i)     + (j)     * zone_i
                     ni01 = (i)     + (j + 1) * zone_i
                     ni10 = (i + 1) + (j)     * zone_i
-- 
2.43.0


From 7e41dcd41fe00111299b6899e4161b2fb025b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 13/38] fix: load refuses node numbers less than one in
 connectivity list

---
 crysgsu/gsu/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 08bda3b..236ca4b 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -575,6 +575,8 @@ class Grid:
                         line = f.readline()
                         face = zone.Faces[i]
                         nodes = [zone.Nodes[int(ss) - 1] for ss in line.split()]
+                        if any([int(ss) < 1 for ss in line.split()]):
+                            raise Exception('Wrong node number in connectivity list ({0}).'.format(line))
                         if len(nodes) != 3:
                             raise Exception('Wrong count of ' \
                                             'face linked nodes ({0}).'.format(len(nodes)))
-- 
2.43.0


From 0837892d682be52e8175248afd45191f80389059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 14/38] fix: MPI borders list edges in the same order for both
 zones

---
 crysgsu/crys.py     | 3 ++-
 crysgsu/gsu/grid.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index 68748eb..bffe1d9 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -61,7 +61,8 @@ def get_mpi_borders(rank, zam, z, g):
         if le > 0:
             lz = g.Zones[li]
             mpi_borders[li] = list()
-            for e in z.Edges:
+            # Both zones must list the edges in the same order.
+            for e in sorted(z.Edges, key=lambda e: e.GloId):
                 if e.is_connect_zones(z, lz):
                     mpi_borders[li].append(loc_edges_ids[e.GloId])
     return mpi_borders
diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 236ca4b..126b240 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -750,8 +750,9 @@ class Grid:
                         # Border between zones with indices zi and li.
                         lz = self.Zones[li]
                         # Border between zones z and lz.
+                        # Both zones must list the edges in the same order.
                         file.write('[{0}] '.format(li))
-                        for e in z.Edges:
+                        for e in sorted(z.Edges, key=lambda e: e.GloId):
                             if e.is_connect_zones(z, lz):
                                 file.write('{0} '.format(loc_edges_ids[e.GloId]))
                         file.write('\n')
-- 
2.43.0


From b3ef38ba4b77f894fe3e47d4254e5f32d7a22e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 15/38] fix: find_edge distinguishes not merged nodes with the
 same coordinates

---
 crysgsu/gsu/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 126b240..8ce77f8 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -375,7 +375,8 @@ class Grid:
         """
 
         for edge in node_a.Edges:
-            if node_b in edge.Nodes:
+            # Not merged nodes may have the same coordinates.
+            if any([n is node_b for n in edge.Nodes]):
                 return edge
 
         return None
-- 
2.43.0


From 0878fee660f95a63c72d5594d4ea61b1823901b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 16/38] fix: segments in the plane of a triangle are not lost
 because of rounding errors

---
 crysgsu/geom/triangle.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index 42d56b9..f50acd5 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -187,7 +187,9 @@ class Triangle:
 
             det = np.array([[ba.Coords[i], ca.Coords[i]],
                             [ba.Coords[j], ca.Coords[j]]])
-            return round(np.linalg.det(det), 10)
+            det_value = np.linalg.det(det)
+            # Compare with size of vectors (small triangles have small determinants).
+            return 0.0 if abs(det_value) <= 1e-10 * ba.mod() * ca.mod() else det_value
 
         def solve_the_linear_equation(a, b):
             """
@@ -198,12 +200,13 @@ class Triangle:
             :return: Range of solutions for x.
             """
 
-            if a > 0:
+            # Do not divide on rounding errors.
+            if a > 1e-10:
                 return [-b / a, float('Inf')]
-            elif a < 0:
+            elif a < -1e-10:
                 return [float('-Inf'), -b / a]
             else:
-                if b >= 0:
+                if b >= -1e-10:
                     return [float('-Inf'), float('Inf')]
                 else:
                     return []
@@ -378,9 +381,11 @@ class Triangle:
                         [b.X - a.X, b.Y - a.Y, b.Z - a.Z],
                         [c.X - a.X, c.Y - a.Y, c.Z - a.Z]])
 
+        # Rounding errors are compared with size of vectors.
+        size = (p - a).mod() * (b - a).mod() * (c - a).mod()
         det = np.linalg.det(det)
 
-        if det == 0:
+        if abs(det) <= 1e-10 * size:
             return True
         else:
             return False
-- 
2.43.0


From 22db3d1010f6fc5818d7cf17d20ac5f03e4ee72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 17/38] fix: point_in_triangle does not round areas of small
 triangles

---
 crysgsu/geom/triangle.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index f50acd5..c6d47c0 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -353,10 +353,13 @@ class Triangle:
         a, b, c = self.a(), self.b(), self.c()
 
         # А point in a triangle if the sum of the formed areas is equal to the area of the original triangle.
-        ar1 = round(Triangle(a, b, point).area(), 10)
-        ar2 = round(Triangle(a, point, c).area(), 10)
-        ar3 = round(Triangle(point, b, c).area(), 10)
-        if math.isclose(self.area(), ar1 + ar2 + ar3):
+        # Areas are zero up to rounding errors (small triangles have small areas).
+        ar = self.area()
+        ar1, ar2, ar3 = [0.0 if x <= 1e-10 * ar else x
+                         for x in [Triangle(a, b, point).area(),
+                                   Triangle(a, point, c).area(),
+                                   Triangle(point, b, c).area()]]
+        if math.isclose(ar, ar1 + ar2 + ar3):
             return bool(ar1) + bool(ar2) + bool(ar3)
         return 0
 
-- 
2.43.0


From 6d0d3bb8960d0056317f7a244ad900d488919062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 18/38] fix: order of points does not depend on rounding errors
 in the first coordinate

---
 crysgsu/geom/vect.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crysgsu/geom/vect.py b/crysgsu/geom/vect.py
index f226120..3e99154 100644
--- a/crysgsu/geom/vect.py
+++ b/crysgsu/geom/vect.py
@@ -267,14 +267,13 @@ class Vect:
         :return: Result (True or False)
         """
 
-        if abs(self.X - other.X) < 1.0e-10 and abs(self.Y - other.Y) < 1.0e-10 and self.Z < other.Z:
-            return True
-        elif abs(self.X - other.X) < 1.0e-10 and self.Y < other.Y:
-            return True
-        elif self.X < other.X:
-            return True
+        # Coordinates that differ by rounding errors are equal.
+        if abs(self.X - other.X) >= 1.0e-10:
+            return self.X < other.X
+        elif abs(self.Y - other.Y) >= 1.0e-10:
+            return self.Y < other.Y
         else:
-            return False
+            return self.Z < other.Z
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From bc2b43d564f93a696acf43846d4aa8ee2f3a7445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 19/38] fix: null-space smoothing works with the present Vect
 and Node classes

---
 crysgsu/smoothing.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/crysgsu/smoothing.py b/crysgsu/smoothing.py
index 2adb569..ade3f85 100644
--- a/crysgsu/smoothing.py
+++ b/crysgsu/smoothing.py
@@ -1,4 +1,4 @@
-from scipy.linalg import eig, det
+from scipy.linalg import eigh, det
 from numpy import argmax, array, vstack, diag, dot, abs, cumprod, sum, full, arccos, exp, real
 from copy import deepcopy
 from collections import deque
@@ -143,11 +143,10 @@ class NullSpaceSmoothing(Smoothing):
         -------
             numpy array (N_FACES, 3)
         """
-        N = node.Faces[0].get_triangle().normal_orth().coords_as_numpy()
+        N = node.Faces[0].get_triangle().normal_orth().coords_as_np()
         N = N.reshape((1, 3))
         for f in node.Faces[1:]:
-            normal = f.get_triangle().normal_orth().coords_as_numpy()
-            assert N.shape[1] == normal.shape[1], print(N.shape, normal.shape)
+            normal = f.get_triangle().normal_orth().coords_as_np()
             N = vstack((N, normal))
 
         return N
@@ -166,7 +165,7 @@ class NullSpaceSmoothing(Smoothing):
         -------
             Vector obj
         """
-        dv = Vect()
+        dv = geom.Vect()
         p = node.P
         weights = 0
 
@@ -179,7 +178,7 @@ class NullSpaceSmoothing(Smoothing):
             c = c - p
             weight = 1.0
 
-            assert isinstance(c, Vect)
+            assert isinstance(c, geom.Vect)
 
             c = c * weight
             dv = dv + c
@@ -195,14 +194,14 @@ class NullSpaceSmoothing(Smoothing):
         for i in range(0, self.num_iterations):
             shifts = []
             for n in self.grid.Nodes:
-                m = len(n.faces)
-                w = [f.get_triangle().area() for f in n.faces]
+                m = len(n.Faces)
+                w = [f.get_triangle().area() for f in n.Faces]
                 N = self.create_matrix_of_normals(n)
                 dv = self.get_laplacian(n)
 
                 assert N.shape == (m, 3)
                 assert len(w) == m
-                assert isinstance(dv, Vect)
+                assert isinstance(dv, geom.Vect)
 
                 W = diag(w)
                 NTW = dot(N.T, W)
@@ -212,7 +211,7 @@ class NullSpaceSmoothing(Smoothing):
                 assert NTW.shape == (3, m)
                 assert A.shape == (3, 3)
 
-                eigenValues, eigenVectors = eig(A)
+                eigenValues, eigenVectors = eigh(A)
                 idx = eigenValues.argsort()[::-1]
                 eigenValues = eigenValues[idx]
                 eigenVectors = eigenVectors[:, idx]
@@ -231,9 +230,9 @@ class NullSpaceSmoothing(Smoothing):
                     ttT = dot(ns, ns.T)
                     t = self.st * dot(ttT, dv)
                     assert t.shape == (3, 1), 'Wrong shift shape'
-                    shift = Vect(real(t[0, 0]), real(t[1, 0]), real(t[2, 0]))
+                    shift = geom.Vect(real(t[0, 0]), real(t[1, 0]), real(t[2, 0]))
                 else:
-                    shift = Vect(0, 0, 0)
+                    shift = geom.Vect(0, 0, 0)
                 shifts.append(shift)
 
             Smoothing.apply_shifts(self, shifts)
-- 
2.43.0


From dc5f85e2df04f8ca9eeed6751fb17381dec7d6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 20/38] fix: pseudo_2d_oz mode refers to coordinates of nodes
 by their names

---
 crysgsu/remeshing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index 0261e5d..bde2c87 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -495,7 +495,7 @@ class TongRemesher:
 
         # Add nodes to appropriate classes with the same x, y coords.
         for node in self.grid.Nodes:
-            c = (int(node.P.x * big_value), int(node.P.y * big_value))
+            c = (int(node.P.X * big_value), int(node.P.Y * big_value))
             v = d.get(c)
             if v is not None:
                 v.append(node)
@@ -512,7 +512,7 @@ class TongRemesher:
                 raise Exception('pseudo_2d_oz mode is unable for pure 3d mesh (diff columns lens)')
             if len(v) == 1:
                 raise Exception('pseudo_2d_oz mode is unable for pure 3d mesh (column len = 1)')
-            v.sort(key=lambda n: n.P.z)
+            v.sort(key=lambda n: n.P.Z)
 
         # Set information to grid.
         self.grid.pseudo_2d_oz_columns = vs
@@ -525,7 +525,7 @@ class TongRemesher:
         """
 
         for n in self.grid.Nodes:
-            n.frozen_z = n.P.z
+            n.frozen_z = n.P.Z
 
     # ----------------------------------------------------------------------------------------------
 
@@ -619,7 +619,7 @@ class TongRemesher:
         for col in cols:
             for i, n in enumerate(col):
                 if i != mid_index:
-                    n.P.X, n.P.Y, n.P.Z = col[mid_index].x, col[mid_index].y, n.frozen_z
+                    n.P.X, n.P.Y, n.P.Z = col[mid_index].P.X, col[mid_index].P.Y, n.frozen_z
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 89ee82279a5e80faf733d7d18538d16f7ea6e722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 21/38] fix: remesh without rest volume redistribution does not
 grow the ice several times

---
 crysgsu/remeshing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index bde2c87..d30e621 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -545,6 +545,10 @@ class TongRemesher:
         for face in self.grid.Faces:
             face.ice_chunk = face.rest_ice / rest_iterations
 
+            # Without redistribution each step grows its own part only.
+            if not self.rest_volume_redistr:
+                face.rest_ice -= face.ice_chunk
+
     # ----------------------------------------------------------------------------------------------
 
     def null_space_smoothing(self):
-- 
2.43.0


From 23e271594b063d944ec41e431b4f5bfd175c36e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:50 +0000
Subject: [PATCH 22/38] fix: heights of ice are not lost to cancellation on
 almost flat faces

---
 crysgsu/remeshing.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index d30e621..d5c857f 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -701,14 +701,9 @@ class TongRemesher:
                 if abs(b) > eps:
                     d = a * a + 4.0 * b * f.ice_chunk
                     if d >= 0.0:
-                        d = math.sqrt(d)
-                        h1, h2 = (-a + d) / (2.0 * b), (-a - d) / (2.0 * b)
-                        if (h1 >= 0.0) and (h2 >= 0.0):
-                            f.ice_shift = min(h1, h2)
-                        elif h1 >= 0.0:
-                            f.ice_shift = h1
-                        elif h2 >= 0.0:
-                            f.ice_shift = h2
+                        # The least non-negative root. It is written in the form
+                        # without cancellation (b may be very small).
+                        f.ice_shift = 2.0 * f.ice_chunk / (a + math.sqrt(d))
 
         # Define ice shifts for nodes.
         for n in self.grid.Nodes:
-- 
2.43.0


From 35e4769435132ffdda48b92a00e5311202f7470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 23/38] fix: a zone without neighbours does not break the
 exchange

---
 crysgsu/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index bffe1d9..cadf9ac 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -205,7 +205,7 @@ if __name__ == '__main__':
 
     if size > 1:
         mpi_borders = get_mpi_borders(rank, zam, z, g)
-        max_length = max(list(map(len, mpi_borders.values())))
+        max_length = max(map(len, mpi_borders.values()), default=0)
 
         # todo numpy не позволяет делать массив с массивами разной длины, поэтому буфферы строятся по максимальной границе.
         send_superbuffer = np.empty((len(mpi_borders), max_length))
-- 
2.43.0


From 7781e67cddf04b399440bb6ebcf6f734db1f2327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 24/38] fix: spaces around names of ANSYS variables do not hide
 the variables

---
 crysgsu/convert/ansys_to_crystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/convert/ansys_to_crystal.py b/crysgsu/convert/ansys_to_crystal.py
index 8a2f894..df01a4a 100644
--- a/crysgsu/convert/ansys_to_crystal.py
+++ b/crysgsu/convert/ansys_to_crystal.py
@@ -303,7 +303,7 @@ def filter_variables(filename, ofilename, variables_names):
                     if is_str_title(l):
                         of.write(l)
                     elif is_str_variables(l):
-                        fnames = l.split('=')[1].replace('"', '').split(',')
+                        fnames = [fn.strip() for fn in l.split('=')[1].replace('"', '').split(',')]
                         (fnames, mask) = variables_names_and_mask(fnames, variables_names)
                         filtered_names = filter_with_mask(fnames, mask)
                         joined_names = ', '.join(['"' + name + '"' for name in filtered_names])
-- 
2.43.0


From daef6059f4aa0b15b1f822512033892122ce8dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 25/38] fix: ANSYS conversion does not round values to six
 decimal places

---
 crysgsu/convert/gsu_converter.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crysgsu/convert/gsu_converter.py b/crysgsu/convert/gsu_converter.py
index fade935..ba62faf 100644
--- a/crysgsu/convert/gsu_converter.py
+++ b/crysgsu/convert/gsu_converter.py
@@ -415,31 +415,31 @@ class Grid:
             fl.write('ZONETYPE=FETRIANGLE\n')
             fl.write('VARLOCATION=([4-9]=CELLCENTERED)\n')
             for n in z.Nodes:
-                fl.write('%f ' % n.Point.X)
+                fl.write('%.18e ' % n.Point.X)
             fl.write('\n')
             for n in z.Nodes:
-                fl.write('%f ' % n.Point.Y)
+                fl.write('%.18e ' % n.Point.Y)
             fl.write('\n')
             for n in z.Nodes:
-                fl.write('%f ' % n.Point.Z)
+                fl.write('%.18e ' % n.Point.Z)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.HTC)
+                fl.write('%.18e ' % f.HTC)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.Beta)
+                fl.write('%.18e ' % f.Beta)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.Tau.X)
+                fl.write('%.18e ' % f.Tau.X)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.Tau.Y)
+                fl.write('%.18e ' % f.Tau.Y)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.Tau.Z)
+                fl.write('%.18e ' % f.Tau.Z)
             fl.write('\n')
             for f in z.Faces:
-                fl.write('%f ' % f.RecoveryFactor)
+                fl.write('%.18e ' % f.RecoveryFactor)
             fl.write('\n')
 
             # Осталось добавить линки.
-- 
2.43.0


From 93afdc089617aaf03066988ed62f3e9482fd92a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 26/38] fix: load refuses rows of values longer than the
 announced counts

---
 crysgsu/gsu/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 8ce77f8..920a116 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -554,6 +554,8 @@ class Grid:
                     for i in range(3):
                         line = f.readline()
                         c.append([float(xi) for xi in line.split()])
+                        if len(c[i]) != nodes_to_read:
+                            raise Exception('Wrong count of nodes coordinates ({0}).'.format(len(c[i])))
                     for i in range(nodes_to_read):
                         p = geom.Vect(c[0][i], c[1][i], c[2][i])
                         node = gsu.Node(p)
@@ -565,6 +567,8 @@ class Grid:
                     for i in range(face_variables_count):
                         line = f.readline()
                         d.append([float(xi) for xi in line.split()])
+                        if len(d[i]) != faces_to_read:
+                            raise Exception('Wrong count of faces values ({0}).'.format(len(d[i])))
                     for i in range(faces_to_read):
                         face = gsu.Face(face_variables,
                                         [d[j][i] for j in range(face_variables_count)])
-- 
2.43.0


From 1b77faeb5ca4ac3f6e9b150cc6537525f7950410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 27/38] fix: a grid loaded from a file without a title does not
 keep the name of the previous grid

---
 crysgsu/gsu/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 920a116..d0ac09f 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -44,11 +44,13 @@ class Grid:
         Clear grid.
         """
 
+        self.Name = ''
         self.Nodes.clear()
         self.Edges.clear()
         self.Faces.clear()
         self.Zones.clear()
         self.RoundedCoordsBag.clear()
+        self.number_of_border_nodes = 0
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From d5b1c195c3dfc3717d243bdb8464398295609b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 28/38] fix: several heating elements in one zone do not reduce
 the number of zones

---
 crysgsu/split.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/split.py b/crysgsu/split.py
index b4d4ed5..8c8ebce 100644
--- a/crysgsu/split.py
+++ b/crysgsu/split.py
@@ -176,7 +176,8 @@ def extract_fixed_zones_from_json(filename):
 
     try:
         els = data['heating_system']['elements']
-        return [e['zone'] for e in els]
+        # One zone may have several heating elements.
+        return list(dict.fromkeys([e['zone'] for e in els]))
     except KeyError:
         return []
 
-- 
2.43.0


From 2c911a2db4ae05e2483006072e214e7ddb18419e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:44 +0000
Subject: [PATCH 29/38] fix: remesh removes only the mark of a merged grid from
 the name of the result

---
 crysgsu/remesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/remesh.py b/crysgsu/remesh.py
index e7ae439..e35788a 100644
--- a/crysgsu/remesh.py
+++ b/crysgsu/remesh.py
@@ -89,7 +89,8 @@ if __name__ == '__main__':
         remesher = TongRemesher(filename, args.json, outdir, verbose=True if args.verbosity > 1 else False)
         remesher(grid)
 
-        outputfilename = outdir + '/' + filename.replace('_r_', '_')
+        # Only the mark of a merged grid (the last one) is removed from the name.
+        outputfilename = outdir + '/' + '_'.join(filename.rsplit('_r_', 1))
         grid.store(outputfilename)
 
         if args.verbosity > 1:
-- 
2.43.0


From b7a6bb3a651818ab3b828e41d61fa5216ac8a9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 30/38] fix: angle between parallel vectors is a number

---
 crysgsu/geom/vect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/geom/vect.py b/crysgsu/geom/vect.py
index 3e99154..9f9c853 100644
--- a/crysgsu/geom/vect.py
+++ b/crysgsu/geom/vect.py
@@ -412,7 +412,8 @@ class Vect:
 
         """
 
-        return np.arccos(Vect.angle_cos(v1, v2))
+        # Cosine can be out of [-1, 1] because of rounding errors.
+        return np.arccos(np.clip(Vect.angle_cos(v1, v2), -1.0, 1.0))
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From fe40e37a61995d69cd39f6599a0744e7e1f859ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 31/38] fix: the third coefficient of prizmatoid volume is a
 number

---
 crysgsu/geom/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/geom/utils.py b/crysgsu/geom/utils.py
index d82d394..e674ca2 100644
--- a/crysgsu/geom/utils.py
+++ b/crysgsu/geom/utils.py
@@ -115,7 +115,7 @@ def prizmatoid_volume_coefs(v1: Vect,
     # a, b, c coefficients
     a = 0.5 * Vect.cross_product(v21, v31).mod()
     b = 0.25 * Vect.dot_product(Vect.cross_product(v21, u31) + Vect.cross_product(u21, v31), n)
-    c = (1.0 / 6.0) * (Vect.cross_product(u21, u31) * n)
+    c = (1.0 / 6.0) * Vect.dot_product(Vect.cross_product(u21, u31), n)
 
     return a, b, c
 
-- 
2.43.0


From 92de54a46cd3f3ff7a7ec7d07f845e037d1c3af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 32/38] fix: quality of triangle refers to the square root
 through its module

---
 crysgsu/geom/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index c6d47c0..d95bb39 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -538,7 +538,7 @@ class Triangle:
         # Get all points.
         a, b, c = self.a(), self.b(), self.c()
 
-        return (a.dist_to(b) ** 2 + b.dist_to(c) ** 2 + c.dist_to(a) ** 2) / sqrt(self.area())
+        return (a.dist_to(b) ** 2 + b.dist_to(c) ** 2 + c.dist_to(a) ** 2) / math.sqrt(self.area())
 
 
 # ==================================================================================================
-- 
2.43.0


From 871c00bdbe7739d31724ce38eef06e5ebfec460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:08 +0000
Subject: [PATCH 33/38] fix: storing a grid keeps variables that the first face
 does not have

Faces can have different sets of variables: drops.py sets MImp2 only on
the faces that droplets hit.  The list of variables was taken from the
first face, so the impingement was lost when the input had no MImp2.
---
 crysgsu/gsu/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index d0ac09f..14e5ac3 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -642,7 +642,8 @@ class Grid:
         :param filename: file name
         """
 
-        variables = ['X', 'Y', 'Z'] + list(self.Faces[0].Data.keys())
+        # Faces can have different sets of variables.
+        variables = ['X', 'Y', 'Z'] + list(dict.fromkeys(v for f in self.Faces for v in f.Data))
 
         with open(filename, 'w', newline='\n') as f:
 
-- 
2.43.0


From 71ff6292587552c26320f1d5c8b49ea12f64cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:02 +0000
Subject: [PATCH 34/38] fix: grids of remesh steps are stored in the out
 directory

The path was put together without a slash: with a grid given by its bare name
the intermediate grids were written beside the directory (out + name).
---
 crysgsu/remeshing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index d5c857f..59c1091 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -366,8 +366,8 @@ class TongRemesher:
 
             # Debug export intermediate mesh.
             if self.verbose:
-                self.grid.store(self.outdir + self.mesh_filename.replace('.dat',
-                                                                       '_{0:05d}.dat'.format(i)))
+                self.grid.store(self.outdir + '/' + self.mesh_filename.replace('.dat',
+                                                                             '_{0:05d}.dat'.format(i)))
 
         if self.verbose:
             print('Tong remesh total time : {0:.4} seconds'.format(total_time))
-- 
2.43.0


From 5c709bd571d7bb9a11a42a15477e89f144bbd632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:17 +0000
Subject: [PATCH 35/38] fix: null-space smoothing compares determinants
 relative to their magnitude

---
 crysgsu/smoothing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/smoothing.py b/crysgsu/smoothing.py
index ade3f85..f0e495b 100644
--- a/crysgsu/smoothing.py
+++ b/crysgsu/smoothing.py
@@ -216,7 +216,8 @@ class NullSpaceSmoothing(Smoothing):
                 eigenValues = eigenValues[idx]
                 eigenVectors = eigenVectors[:, idx]
 
-                assert abs(det(A) - cumprod(eigenValues)[-1]) < DETERMINANT_ACCURACY, \
+                # The determinant grows as the cube of matrix elements, and so does its rounding error.
+                assert abs(det(A) - cumprod(eigenValues)[-1]) < DETERMINANT_ACCURACY * max(1.0, eigenValues[0] ** 3), \
                     print(det(A), cumprod(eigenValues)[-1])
 
                 k = sum((eigenValues > self.epsilon * eigenValues[0]))
-- 
2.43.0


From 21fb41bdee2776ad260b72434ce20c5058fac3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:06 +0000
Subject: [PATCH 36/38] fix: deleting and moving a node of a not merged grid
 touches neither equal nodes nor their coordinates

---
 crysgsu/gsu/grid.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 14e5ac3..7813b67 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1280,6 +1280,19 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    def forget_rounded_coords(self, node):
+        """
+        Remove rounded coordinates of the node from the bag,
+        if there is no other node with the same coordinates.
+
+        :param node: node
+        """
+
+        if not any([(n is not node) and n.is_near(node) for n in self.Nodes]):
+            self.RoundedCoordsBag.discard(node.RoundedCoords)
+
+    # ----------------------------------------------------------------------------------------------
+
     def del_node(self, node):
         """
 
@@ -1299,11 +1312,11 @@ class Grid:
             for face in node.Faces:
                 if node in face.Nodes:
                     face.Nodes.remove(node)
-        for z in self.Zones:
-            if node in z.Nodes:
-                z.Nodes.remove(node)
-        self.Nodes.remove(node)
-        self.RoundedCoordsBag.remove(node.RoundedCoords)
+        # Not merged nodes may have the same coordinates.
+        for objs in [z.Nodes for z in self.Zones] + [self.Nodes]:
+            for i in [i for (i, x) in enumerate(objs) if x is node]:
+                del objs[i]
+        self.forget_rounded_coords(node)
 
     # ----------------------------------------------------------------------------------------------
 
@@ -1664,7 +1677,7 @@ class Grid:
 
             vect_coord_new_p = geom.Vect.middle_point(n1.P, n2.P)
 
-            self.RoundedCoordsBag.remove(n1.RoundedCoords)
+            self.forget_rounded_coords(n1)
             n1.P = vect_coord_new_p
             n1.RoundedCoords = n1.P.rounded_coords_tuple(10)
             self.RoundedCoordsBag.add(n1.RoundedCoords)
-- 
2.43.0


From 6c8bde697cc9826f1ba19f010d17a2e66d4631a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:06 +0000
Subject: [PATCH 37/38] fix: transformations of a not merged grid do not merge
 its nodes

---
 crysgsu/gsu/grid.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 7813b67..ca6218b 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -35,6 +35,9 @@ class Grid:
         # Rounded coordinates
         self.RoundedCoordsBag = set()
 
+        # Flag: nodes with the same coordinates are merged.
+        self.IsMergeSameNodes = True
+
         self.number_of_border_nodes = 0
 
     # ----------------------------------------------------------------------------------------------
@@ -503,6 +506,7 @@ class Grid:
 
         # Clear all objects of the grid.
         self.clear()
+        self.IsMergeSameNodes = is_merge_same_nodes
 
         # Open file and try to load it line by line.
         with open(filename, 'r') as f:
@@ -1353,7 +1357,7 @@ class Grid:
         n2 = nodes[1]
         n3 = nodes[2]
         n4 = gsu.Node(p)
-        node = self.add_node(n4, True)
+        node = self.add_node(n4, self.IsMergeSameNodes)
         if id(node) == id(n4):
             zone.add_node(n4)
         else:
@@ -1561,7 +1565,7 @@ class Grid:
             n3 = [i for i in f1.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n4 = [i for i in f2.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n5 = gsu.Node(p)
-            node = self.add_node(n5, True)
+            node = self.add_node(n5, self.IsMergeSameNodes)
             if id(node) == id(n5):
                 zone.add_node(n5)
             else:
@@ -1769,7 +1773,7 @@ class Grid:
             n2 = edge.Nodes[1]
             n3 = [i for i in face.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n4 = gsu.Node(p)
-            node = self.add_node(n4, True)
+            node = self.add_node(n4, self.IsMergeSameNodes)
             if id(node) == id(n4):
                 zone.add_node(n4)
             else:
@@ -1868,13 +1872,13 @@ class Grid:
             n2 = edge.Nodes[1]
             n3 = [i for i in face.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n4 = gsu.Node(p1)
-            node = self.add_node(n4, True)
+            node = self.add_node(n4, self.IsMergeSameNodes)
             if id(node) == id(n4):
                 zone.add_node(n4)
             else:
                 n4 = node
             n5 = gsu.Node(p2)
-            node = self.add_node(n5, True)
+            node = self.add_node(n5, self.IsMergeSameNodes)
             if id(node) == id(n5):
                 zone.add_node(n5)
             else:
@@ -1969,13 +1973,13 @@ class Grid:
             n3 = [i for i in face1.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n6 = [i for i in face2.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n4 = gsu.Node(p1)
-            node = self.add_node(n4, True)
+            node = self.add_node(n4, self.IsMergeSameNodes)
             if id(node) == id(n4):
                 zone.add_node(n4)
             else:
                 n4 = node
             n5 = gsu.Node(p2)
-            node = self.add_node(n5, True)
+            node = self.add_node(n5, self.IsMergeSameNodes)
             if id(node) == id(n5):
                 zone.add_node(n5)
             else:
-- 
2.43.0


From a73f8bb24accd391e79fd4f6139acc0535878799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:17 +0000
Subject: [PATCH 38/38] fix: common points of big triangles are reported once

---
 crysgsu/geom/triangle.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index d95bb39..5281e4f 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -436,10 +436,15 @@ class Triangle:
         int22 = tri.intersection_with_segment(geom.Segment(b, c))
         int23 = tri.intersection_with_segment(geom.Segment(c, a))
         res = int11 + int12 + int13 + int21 + int22 + int23
-        if res:
-            res.sort()
-            return [res[0]] + [res[i] for i in range(1, len(res)) if res[i] != res[i - 1]]
-        return res
+        res.sort()
+
+        # Points are the same up to rounding errors (big triangles have big ones).
+        eps = 1e-10 * max(1.0, (b - a).mod(), (c - a).mod(), (tb - ta).mod(), (tc - ta).mod())
+        points = []
+        for p in res:
+            if not any(p.is_near(q, eps) for q in points):
+                points.append(p)
+        return points
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0

