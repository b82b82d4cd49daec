"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'crysgsu/gsu/grid.py'
F = 'crysgsu/gsu/face.py'
TV = 'TLA+ spec, TLC: model-generated histories replayed into the code, recorded traces validated against the spec'
P = []


def prop(pid, title, statement, over, quant, why, files, mech, note, technique=TV, state=(), observe=(), level='model_checking'):
    P.append((pid, title, statement, over, quant, why, files, mech, note, technique, state, observe, level))


prop('C01', 'Loading and storing surface grids is lossless',
     'Loading a well formed grid file gives a grid whose title, ordered zones, ordered faces, corner points and face values are exactly those of the file, '
     'also when the object held another grid before. Storing any grid (loaded, decomposed or edited) writes a well formed file that means exactly that grid, '
     'with all variables, every zone listing only the points its faces use, each once. Loading and storing again changes nothing.',
     ['inputs', 'histories'], 'all zoned triangle meshes, all finite doubles, any zone names and variable sets the format can hold, any state of the object before',
     'The tests load and store one or two fixed files and look at element counts; values, names, order and arbitrary doubles are never compared.',
     [G, 'crysgsu/gsu/zone.py'], [('Grid.load / Grid.store', G), ('Zone.store', 'crysgsu/gsu/zone.py')],
     'Trace validation of load/store/load/store sequences with an independent writer and strict parser; bounded: random meshes up to ~40 faces, doubles of every magnitude.')
prop('C02', 'The loaded mesh is the incidence structure of the file, nodes merged by position',
     'After loading with merging, two corner points are one node exactly when they coincide at the merging resolution; without merging every listed point is its own node. '
     'Either way nodes, edges, faces and zones refer to each other mutually and completely, an edge exists once per pair of adjacent nodes, zones hold exactly the nodes and edges of their faces, '
     'and global identifiers number the objects 0..n-1 with faces numbered in file order. A file with three faces at one edge is refused.',
     ['inputs'], 'all zoned triangle meshes incl. points shared by zones, repeated points, nearly coincident points, merging on and off',
     'The tests check element counts of one cylinder file; links, identifiers and near-coincident points are not examined.',
     [G, 'crysgsu/gsu/node.py', 'crysgsu/gsu/edge.py'], [('add_node/find_near_node/add_edge/link', G), ('rounded coordinates', 'crysgsu/gsu/node.py')],
     'Trace validation; the structure is compared completely for every loaded mesh. Bounded: random meshes up to ~40 faces.')
prop('C03', 'Malformed grid files are refused',
     'A file that departs from the grid format in one place (a missing, doubled or misplaced header line, a wrong count, a short or long row, a missing or extra connectivity line, '
     'a node number outside the zone, a word where a number belongs, another zone type or packing) is refused with an error when loaded. No such file is turned silently into a grid.',
     ['inputs', 'fault_sequences'], 'every single structural mutation of a well formed file, of any shape',
     'No test loads a malformed file.', [G], [('checks in Grid.load', G)],
     'The grammar of the format is a TLA+ automaton; TLC enumerates one-fault mutants and each is loaded by the real code. Bounded: 1-3 zones, single faults.')
prop('C04', 'Decomposition only redistributes faces among zones',
     'After any sequence of decompositions (mono, random, linear, Farhat, hierarchical) every face belongs to exactly one zone, zones are numbered in order and hold exactly the faces assigned to them with exactly the nodes and edges of those faces. No coordinates, connectivity, orientation, face values or global identifiers change, and the grid changes its name only when a new one is given. No decomposition of a well formed mesh fails, also after mesh transformations.',
     ['histories', 'inputs', 'configurations'], 'all histories of decompositions over zoned meshes (connected or not), all counts, all subsets of fixed zones, all random choices',
     'Tests run single decompositions on one mesh and look at the number of zones.', [G, 'crysgsu/gsu/zone.py'],
     [('decompose_* / post_decompose / links of zones', G)],
     'Histories are generated by TLC from Decompose.tla and replayed; the complete incidence structure is compared after each step. Bounded: meshes up to ~64 faces, histories up to 4 steps, seeded random choices.')
prop('C05', 'Decompositions produce the documented shapes',
     'Linear decomposition into n gives n zones that are consecutive runs of the faces in their order; Farhat decomposition gives n zones grown through neighbouring faces, each made of whole connected remainders and at most one connected piece; both have zone sizes that differ by at most one, larger zones first. Hierarchical decomposition bisects each zone again and again, as many times as requested, at the median face centre along the axis that cuts the fewest edges, leaving unsplit what no axis separates. Zones given as fixed keep their names and faces and stay out of the redistribution; new zones carry their documented names.',
     ['inputs', 'configurations', 'histories'], 'all meshes, all counts and depths, all sets of fixed zones',
     'Only the zone count of one mesh is examined by tests.', [G], [('decompose_linear, decompose_farhat, decompose_hierarchical, split_zone', G)],
     'As C04, with shape predicates of DecompShape.tla.')
prop('C06', 'Calculation files cover the grid exactly and are self-consistent',
     'The calculation files stored for a decomposed grid contain every face exactly once, in the file numbered as its zone, under its global identifier, with its corner points in order and its values of the calculation variables. In each file the announced counts match the listings, local numbers are in range, the edges listed for a face are its sides, and exactly the nodes and edges its faces use are listed, each once. The split tool writes such a set for the requested number of zones or levels and the JSON settings (fixed heated zones, recovery factor), named by stem, process number and timestamp, or the grid file with those zones, and refuses impossible requests.',
     ['inputs', 'configurations'], 'all decomposed meshes, all strategies (n, h), JSON settings, fixed zones, both outputs, file stems with and without timestamps',
     'No test reads a calculation file.', [G, 'crysgsu/gsu/zone.py', 'crysgsu/split.py'], [('Grid.store_mpi', G), ('split', 'crysgsu/split.py')],
     'Strict parser plus complete comparison with the spec\'s file set; API and CLI. Bounded: meshes up to ~64 faces, up to 8 zones.')
prop('C07', 'Border listings of neighbouring calculation files agree pairwise',
     'For every two zones with common edges each zone\'s calculation file names the other as neighbour with the same number of common edges, and the k-th border edge of one is the k-th of the other, geometrically the same edge; '
     'zones without common edges do not name each other. This holds after any decomposition and any transformation of the grid.',
     ['histories', 'inputs', 'configurations'], 'all histories of decompositions and grid transformations before storing, all meshes',
     'No test stores calculation files of a decomposed grid and reads them back.', [G, 'crysgsu/gsu/zones_adjacency_matrix.py'],
     [('store_mpi borders', G), ('ZonesAdjacencyMatrix', 'crysgsu/gsu/zones_adjacency_matrix.py')],
     'As C06; pairs of files are compared by the spec. Bounded as C06.')
prop('C08', 'Merging routes each calculated value to its own face and timestamp',
     'For every timestamp present among the solver\'s files for a grid, merging writes exactly one result grid in which every face listed in some file of that timestamp carries exactly the variables and values of its row there, and everything else (geometry, connectivity, zones, order, title, the values of faces not listed) equals the original grid. '
     'Values of different timestamps never mix, other files in the directory are ignored, and the balance table is the per-row sum over all process tables with the original time column.',
     ['inputs', 'configurations', 'histories'], 'all distributions of faces over files, all face orders, subsets of faces and variables, all sets of timestamps and directory listings',
     'No test runs the merge tool.', ['crysgsu/merge.py', G, 'crysgsu/utils.py'], [('merge', 'crysgsu/merge.py'), ('load_faces_calc_data', G), ('file name classification', 'crysgsu/utils.py')],
     'The merge tool itself is run on generated directories; result grids are compared with PipelineOps.tla. Bounded: meshes up to ~40 faces, up to 5 processes, up to 4 timestamps.')
prop('C09', 'The split-solve-merge-remesh cycle keeps track of grids by name and timestamp',
     'A file name is recognised as a calculation or result file of a stem exactly when it is the stem, an underscore, a five digit process number, an underscore, a twelve digit timestamp and the right extension; a trailing twelve digit timestamp is separated from a grid\'s name and missing ones read as zero. '
     'Through any number of rounds of splitting, solving, merging and remeshing each produced file carries the name and timestamp of what it was produced from, and the values the solver computed for a face end on that face.',
     ['histories', 'inputs', 'configurations'], 'all interleavings of rounds, all stems (with digits and underscores), all timestamps, any other files present',
     'Tests call three name helpers on three names each; the tools are never run in sequence.',
     ['crysgsu/utils.py', 'crysgsu/split.py', 'crysgsu/merge.py', 'crysgsu/remesh.py'], [('utils name functions', 'crysgsu/utils.py'), ('tools', 'crysgsu/split.py')],
     'Histories of tool runs are generated by TLC from Pipeline.tla and replayed with the real command line tools on a scratch directory; directory listings and contents are compared after each step.')
prop('C10', 'Grids stay consistent through every history of mesh transformations',
     'After any sequence of face divisions, edge splits by one or two points, edge flips and edge collapses the grid is again a consistent incidence structure: links between nodes, edges, faces and zones are mutual and complete, an edge exists once per pair of adjacent nodes, zones hold exactly the nodes and edges of their faces, identifiers are 0..n-1 in each kind, and no unused objects are left. This includes edges between zones, edges on the border and points that coincide with earlier removed ones.',
     ['histories', 'inputs'], 'all histories of transformations over closed and bordered, single and multi zone surfaces',
     'Tests apply one transformation to one mesh and compare counts.', [G], [('cut_single_edge, reduce_edge, ...', G)],
     'Histories generated by TLC from Transforms.tla are replayed; the full structure is compared after each step. Bounded: meshes up to 32 faces, histories up to 6 steps.')
prop('C11', 'Mesh transformations have exactly their geometric effect',
     'Dividing a face by a point replaces it by three faces around the point; splitting an inner or border edge by one or two points splits exactly its adjacent faces; flipping the longest edge of a face exchanges the diagonal of exactly the two faces along it; collapsing an edge joins its ends in the middle and removes exactly its two faces. All other faces keep their corner points, values and zone; new faces inherit the orientation, values and zone of the face they replace. Calls that do not apply (border edge given where an inner one is needed and vice versa) leave the grid as it was.',
     ['histories', 'inputs'], 'all histories of transformations over closed and bordered, single and multi zone surfaces',
     'Tests compare counts after one transformation of one mesh.', [G], [('cut_single_edge, reduce_edge, ...', G)],
     'As C10, comparing the abstract surface with the operators of SurfaceOps.tla.')
prop('C12', 'Breadth first walks over faces are exact',
     'A breadth first walk from a start face under a predicate visits each face satisfying the predicate exactly once, the start face first if it satisfies it, connected component by component, within a component in first-in-first-out order of discovery. The walk over one connectivity component visits exactly the satisfying faces that can be reached from the start through satisfying neighbours. Repeated walks on the same grid are independent of each other.',
     ['inputs', 'configurations'], 'all meshes (connected or not), all start sets, all restrictions',
     'Tests do not examine traversal results.', [G], [('bfs_*', G)],
     'Bfs.tla is the oracle; small meshes enumerated, larger ones random.')
prop('C13', 'A cloud of triangles answers as its triangles taken one by one',
     'A cloud built over any set of triangles reports for a segment one of its triangles that meets the segment when there is one, and nothing otherwise; for two clouds it reports, each once, exactly the pairs of triangles that meet, with their common points. The bounding boxes used for the search never lose an answer: not for flat or tiny triangles, repeated triangles, triangles with one centroid, or clouds of one triangle.',
     ['inputs'], 'all sets of triangles, all segments, all pairs of sets',
     'The tests contain no cloud queries.', ['crysgsu/geom/triangles_cloud.py', 'crysgsu/geom/box.py'],
     [('TrianglesCloud.first_intersection_with_segment / intersection_with_triangles_cloud', 'crysgsu/geom/triangles_cloud.py'), ('Box', 'crysgsu/geom/box.py')],
     'Exact integer geometry of Geom3.tla is the oracle; clouds up to ~60 triangles on integer points scaled to several lengths.')
prop('C14', 'Geometric predicates of triangles, segments and boxes are exact',
     'For a triangle and a segment the intersection is one point when the segment crosses the triangle, the two ends of the common part when the segment lies in its plane and overlaps it, and nothing when they have no common point. Points are classified as outside, vertex, edge or inner point of a triangle, and as in its plane or not, correctly; the intersection of two triangles is exactly the points where sides of one meet the other, each once, whichever is asked. Centroid, area, unit normal, smallest side, equality and bounding boxes are right. This does not depend on the size, place, vertex order or direction of the figures.',
     ['inputs'], 'all nondegenerate triangles, all segments, all points, at all scales',
     'The tests check a few points and segments in coordinate planes at unit scale.', ['crysgsu/geom/triangle.py', 'crysgsu/geom/box.py', 'crysgsu/geom/vect.py', 'crysgsu/geom/utils.py', 'crysgsu/geom/segment.py'],
     [('Triangle.intersection_with_segment, point_in_triangle, intersection_with_triangle', 'crysgsu/geom/triangle.py'), ('Box', 'crysgsu/geom/box.py')],
     'Geom3.tla is an exact integer oracle, itself checked by TLC over all triangles and segments of a small cube (GeomModel); all figures of the unit cube and random ones of a 9x9x9 cube at eight scales are asked of the code. Contacts subject to rounding may be answered either way.')
prop('C15', 'Droplet flights obey the step, the drag and the outcome rules',
     'From its start a droplet moves by its velocity in each time step; the velocity moves towards that of the air at the nearest point of the air grid by the documented drag law, and a droplet with the velocity of the air keeps it. The flight ends exactly when the trajectory has more points than allowed (N), the droplet has left the box of the air grid (O), it does not move (S) or its last hop met the surface (C, with a face that was met); no earlier hop met the surface. The trajectory is the list of all points passed.',
     ['inputs', 'histories'], 'all surfaces, air grids, starts, velocities, step limits',
     'No test lets a droplet fly.', ['crysgsu/drops.py', 'crysgsu/geom/triangles_cloud.py', 'crysgsu/geom/trajectory.py'],
     [('Space.fly / fly_step / find_nearest', 'crysgsu/drops.py')],
     'Fly.tla is a transition system over an integer lattice (checked by TLC: termination, agreement with the description of complete flights, closed surfaces are not left unnoticed); its flights and random ones are replayed with droplets too heavy for drag; flights with drag are validated step by step against a table of the law with 2% accuracy.')
prop('C16', 'The drops tool computes trajectories and secondary impingement end to end',
     'For a surface grid with stall data and an air grid, the drops tool lets one droplet fly from every face whose stall exceeds the threshold and from no other, starting at the given distance over the face centre along its normal. It stores each trajectory under the identifier of its face. A face hit gets as secondary impingement the stalled water of a droplet that hit it over its own area; other faces keep theirs. The result grid drops the stall variables, zeroes T, Hw, Hi and keeps all else; missing input files are refused.',
     ['inputs', 'configurations'], 'all surfaces with stall data, all air grids (with other zones between), all thresholds, distances, step limits',
     'No test runs the tool.', ['crysgsu/drops.py', 'crysgsu/gsu/grid.py', 'crysgsu/geom/trajectory.py'],
     [('drops', 'crysgsu/drops.py'), ('read_vel_field_from_file', 'crysgsu/drops.py'), ('Trajectory.dump', 'crysgsu/geom/trajectory.py')],
     'The tool is run on generated files; stored grids and trajectories are validated against TraceDrops.tla, which recomputes every flight on an exact lattice. Bounded: up to 13 faces, coordinates 0..8 at several scales.')
prop('C17', 'Remeshing grows the given ice on the surface',
     'Remeshing moves every point of the surface, once, along the mean of the unit normals of its faces by the mean height of ice of these faces, where the height of a face is that of the prism with the volume Hi times area. On flat surfaces this holds for any number of steps: heights smoothing moves the stated part of the difference between neighbours and conserves volume, the ice not grown is grown later exactly when redistribution is on, so uniform ice grows uniformly. Without ice nothing moves. Null-space smoothing moves points only within the flat directions around them towards centroids, never the fixed border. In pseudo 2d mode columns stay columns. The number of steps is between its bounds; the result has Hi = 0, the same zones, faces and other values; it is written under the name without the mark _r_, intermediate grids only on demand; bad options and missing files are refused.',
     ['inputs', 'configurations', 'histories'], 'all triangle surfaces, all distributions of ice, all option files',
     'No test runs the remesher on any surface.', ['crysgsu/remeshing.py', 'crysgsu/smoothing.py', 'crysgsu/remesh.py', 'crysgsu/geom/utils.py'],
     [('TongRemesher.remesh and its steps', 'crysgsu/remeshing.py'), ('NullSpaceSmoothing', 'crysgsu/smoothing.py'), ('remesh', 'crysgsu/remesh.py')],
     'Remesh.tla computes growth in integer arithmetic (many steps on flat surfaces, one step on surfaces of any shape, null-space smoothing on flat and axis-aligned ones); TLC checks the law itself over all distributions of ice of a small plate; runs of the tool on random surfaces are validated with tolerances of 0.03-2% of the growth. Smoothing of normals is validated only where it has no effect.')
prop('C18', 'Transfer between grids takes values from the nearest face',
     'Transferring data from one grid to another gives every face of the target the values (T and Hw; or Beta) of one face of the source whose centre is nearest to its own. All else of the target stays: title, zones, triangles, order and other variables. The source and target files are not changed; the result goes to the named file or to the target name with _interpolated. Missing files and files that are not .dat are refused and nothing is written.',
     ['inputs', 'configurations'], 'all pairs of grids (also far apart, in any zones and order), all values',
     'No test runs the tools.', ['crysgsu/convert/interpolate.py', 'crysgsu/convert/lazurit_add_beta_from_ansys.py'],
     [('face_centered_interpolation', 'crysgsu/convert/interpolate.py'), ('lazurit_add_beta_from_ansys', 'crysgsu/convert/lazurit_add_beta_from_ansys.py')],
     'TraceNearest.tla finds the nearest faces by exact integer distances (ties may go either way) and compares the whole result; both tools are run on random pairs of grids. Bounded: up to ~50 faces.')
prop('C19', 'ANSYS conversion gives the chosen zones with the documented values',
     'The ANSYS conversion takes exactly the zones named, in the order of the file, and the variables by name wherever their columns stand. Each quad becomes two triangles cut along the same diagonal, a quad with two equal corners one triangle, corners turned round unless the original orientation is asked for. A face has the mean of its three nodes of: heat transfer coefficient (minus flux over surface temperature minus adiabatic temperature), collection efficiency, shear stresses and recovery factor ((adiabatic minus air temperature) times 2 cp / v^2). No digits are lost, input files stay as they are, a missing file is refused.',
     ['inputs', 'configurations'], 'all zoned quad surfaces, all choices of zones, columns and orientation, all values and free stream parameters',
     'No test converts anything.', ['crysgsu/convert/ansys_to_crystal.py', 'crysgsu/convert/gsu_converter.py'],
     [('stages of the conversion', 'crysgsu/convert/ansys_to_crystal.py'), ('LoadNodesData, ConvertDataFromNodesToFaces, Export', 'crysgsu/convert/gsu_converter.py')],
     'Convert.tla defines the result; TLC checks the staged conversion (all orders of stages, all choices of zones and columns of small files) and all quads over four nodes against it (ConvertModel) and generates these inputs; with random files they are run through the tool. Columns of the fensap file keep their usual relative order.')
prop('C20', 'Lazurit conversion keeps every cell with its own data',
     'The Lazurit conversion makes one zone of every block, named after it, in the order of the file names: every cell of the structured block becomes two triangles of the same orientation which cover it, and both carry exactly the eight values of that cell, shear stresses with the opposite sign. The breaking of numbers over lines does not matter. Unpaired, mismatched or foreign files and a missing directory are refused; inputs are not changed.',
     ['inputs', 'configurations'], 'all structured blocks of any sizes, any number of blocks, all layouts of numbers in the files',
     'No test converts anything.', ['crysgsu/convert/lazurit_to_crystal.py'], [('lazurit_to_crystal', 'crysgsu/convert/lazurit_to_crystal.py')],
     'Convert.tla defines the result; TLC checks that the triangles of a block cover it with one orientation and follow the order of cells for all small blocks, which are then converted by the tool, with random sets of blocks.')
prop('C21', 'Ghost faces get the values of their owners under every message schedule',
     'In a run over several processes every process makes the same decomposition; after exchanging a field each holds, for every face of another zone along its border, exactly the value which that face has at its own process, and keeps its own values and all others. This holds for any zones and neighbour graph (also zones without neighbours), any history of the grid, repeated exchanges over the same buffers, and any timing in which the network takes data out of send buffers and delivers them; no process waits for ever.',
     ['schedules', 'inputs', 'histories'], 'all interleavings of processes and message deliveries, all decomposed and transformed grids, all numbers of processes',
     'No test runs more than one process.', ['crysgsu/crys.py', 'crysgsu/gsu/zone.py', 'crysgsu/gsu/zones_adjacency_matrix.py'],
     [('get_mpi_borders, exchange, start_exchanges', 'crysgsu/crys.py'), ('Zone.get_real_face, get_ghost_face', 'crysgsu/gsu/zone.py')],
     'Exchange.tla models the protocol with an adversarial network; TLC checks it for all neighbour graphs of up to 3 processes (deadlock, termination, values) and generates schedules, which a stand-in of MPI forces on real processes running crys.py (2-6 processes); the values they end with are validated against TraceExchange.tla.')
prop('C22', 'Computed ice heights reach the right faces of the remeshed grid',
     'Every process computes on the values of the faces of its own zone, in their order; the heights are gathered by rank 0 in the order of ranks whatever the sizes of zones and the order of arrival, each face gets the height computed for it by its owner, the remesher is applied once, at rank 0, to the grid with these heights, and the result is stored with all zones.',
     ['schedules', 'inputs'], 'all decompositions with zones of unequal sizes, all numbers of processes, all orders of arrival',
     'No test runs the program.', ['crysgsu/crys.py'], [('remesh', 'crysgsu/crys.py')],
     'crys.py is run as a whole by 1-6 processes over the stand-in of MPI; the computing extension and the remesher are replaced by recorders. Their inputs and the stored file are validated against TraceExchange.tla.')
prop('C23', 'The zones adjacency matrix counts edges exactly',
     "For any decomposed or transformed grid the adjacency matrix holds for every two zones the number of edges between them, on its diagonal the number of inner edges of each zone, and in the last row and column the number of border edges of each zone. The statistics, percentages, neighbour counts and longest border derived from it agree with the grid, every edge is exactly one of border, inner or cross, and the grid's printed information is available for every grid and shows exactly these figures: counts, statistics, faces, outer edges and quality of every zone, the deviation of the largest zone, the matrix.",
     ['inputs', 'histories'], 'all decomposed meshes, after all transformations',
     'Tests do not construct the matrix.', ['crysgsu/gsu/zones_adjacency_matrix.py'], [('ZonesAdjacencyMatrix', 'crysgsu/gsu/zones_adjacency_matrix.py')],
     'TraceAdjacency.tla recomputes every entry from the projected structure.')
prop('C24', 'Moving zones apart moves each zone rigidly',
     'In a grid loaded without merging of nodes, moving zones from the mean point moves all nodes of a zone by the same vector: k times the way from the mean point of all nodes to the mean point of the nodes of this zone. The mean point of the grid stays, nothing but positions changes, and the stored file shows the moved zones.',
     ['inputs', 'histories'], 'all zoned meshes, all coefficients, repeated moves',
     'No test moves zones.', [G], [('Grid.move_from_mean_point', G)],
     'TLC checks the closed form of repeated moves against their step law (ExplodeModel); random grids are moved by the code and validated with exact integers (TraceExplode).')
prop('C26', 'Arrays and answers of zones, faces and edges agree with the grid',
     'After any history of decompositions and transformations, the arrays of a zone hold its nodes, its faces and their values in the order of the zone (missing variables are zero), connectivity is given by global identifiers, and the counts of grid and zones are right. A face names as neighbour through an edge exactly the other face of the edge, its longest edge is a longest one, its triangle and centre are those of its corners; edges are adjacent exactly when they share a node and connect exactly the zones of their faces. Asking changes nothing.',
     ['inputs', 'histories'], 'all decomposed and transformed grids, all sets of variables',
     'Tests look at counts of single grids.', ['crysgsu/gsu/zone.py', 'crysgsu/gsu/face.py', 'crysgsu/gsu/edge.py', G],
     [('coords_np_array, variables_np_array, connectivity_list_faces_nodes, get_variable', 'crysgsu/gsu/zone.py'), ('get_neighbour, max_edge_from_face, get_triangle, get_center', 'crysgsu/gsu/face.py'), ('is_adjacent_with, is_connect_zones, len_edge', 'crysgsu/gsu/edge.py')],
     'TraceViews.tla recomputes every answer from the projected structure after every step of histories generated by TLC from Decompose.tla. The columns MImp2, Vd2 and RecoveryFactor of the array (always zero in the code) are not judged.')

prop('C25', 'Vectors, angles, order and volumes of the geometry library',
     'Vector algebra (sum, difference, products, division, dot and cross product, middle, length, distance, direction, rounding, coordinates in all forms) gives the exact results up to rounding and changes no operand. Vectors are ordered by x, then y, then z, with equality at the merging resolution, so sorting any list is an order. Angles are numbers of 0..180 degrees for all nonzero vectors, parallel ones too; a point is said to be on a segment exactly when it is. Volumes of tetrahedra, of the space a moved triangle passes and of the layer over a triangle with corners moving along normals (a cubic of the height) are right; the quality of a triangle is the sum of its squared sides over the root of its area, all its corners are smaller than a bound exactly when each is, and sorting triangles by an axis orders their centroids.',
     ['inputs'], 'all vectors of any scale, parallel, orthogonal and equal ones, all triangles and prisms',
     'Tests evaluate a few operations on one or two vectors.',
     ['crysgsu/geom/vect.py', 'crysgsu/geom/triangle.py', 'crysgsu/geom/utils.py'],
     [('Vect', 'crysgsu/geom/vect.py'), ('Triangle.is_good, sorting of triangles', 'crysgsu/geom/triangle.py'), ('volumes', 'crysgsu/geom/utils.py')],
     'Vectors.tla computes all answers exactly on integers (angles by exact squares of cosines against a table); TLC checks its laws (Lagrange identity, order, volumes of prisms as sums, sections of a layer) over all small vectors; recorded answers of the real library at many scales are validated.')
prop('C27', 'Laws of physical quantities follow their tables',
     'A linear law equals the broken line through the points of its table, everywhere on the range of the table, for single numbers and arrays. A fitted law is the best fit of its function in the sense of least squares (exact when the table is of that kind). A constant law gives its constant everywhere. The built-in tables are increasing, have as many values as arguments, and the laws over them go through all their points.',
     ['inputs'], 'all tables with increasing arguments, all points of the range, polynomials of degree 0..4',
     'No test evaluates a law.', ['crysgsu/phys/laws.py'], [('LinearLaw, FuncLaw, ConstLaw, tables', 'crysgsu/phys/laws.py')],
     'Laws.tla: broken lines in rational arithmetic, best fits characterised by vanishing moments of the residuals (TLC checks the characterisation over all small tables); recorded values of the laws are validated.')

prop('C28', 'The grid of the converters is true through reading, editing and writing',
     'The grid object of the converters (gsu_converter) adds the zones of a file to those it has, with the titles, points, triangles and values of the file (quads are cut into triangles; of cell data HTC, Beta, TauX, TauY, TauZ are taken). Replacing a node puts the other node in its place everywhere in the zone and nowhere else; dropping extra nodes removes exactly the nodes no face of the zone uses and keeps the order; restoring indices numbers the nodes of a zone by their places; a copy has all attributes of the node and is a node of its own; values of faces are the means of those of their nodes. The file written has every zone in order with its points, values and triangles by the numbers of the nodes, so that after restoring the indices of a zone the file means exactly its triangles.',
     ['histories', 'inputs'], 'all histories of reading, copying, replacing, dropping, renumbering, averaging and writing; all files',
     'Tests run none of these functions.', ['crysgsu/convert/gsu_converter.py'],
     [('Import, LoadNodesData, Export', 'crysgsu/convert/gsu_converter.py: Grid'), ('ReplaceNode, RestoreNodesIndices, DeleteExtraNodes', 'crysgsu/convert/gsu_converter.py: Zone')],
     'Sew.tla/SewModel.tla: the grid object as a state machine, TLC checks that triangles are kept, that numbered zones are written truly and that sewing works; its histories and random ones are replayed and every step is validated.')

prop('C29', 'Values of variables on faces survive work, results and checkpoints',
     "A value set on a face is the value read back, and of that face and variable only; a variable a face does not have is zero. Loading a file of results gives each named face exactly the values of its (last) line and changes no other face; clearing makes T, Hw and Hi of all faces zero and nothing else; the file of results has a line for every face with its T, Hw and Hi (each with a random addition below one); a checkpoint saves the grid together with the Stall variables and then removes just these from the faces. The grid stored shows all variables of all faces (zero where a face lacks one), and read again it has the same values.",
     ['histories', 'inputs'], 'all histories of setting, loading, clearing, writing, decomposing, checkpoints; all sets of variables',
     'Tests read back single files with the same variables on all faces.', [G, F, 'crysgsu/gsu/zone.py'],
     [('load_faces_calc_data, store_faces_calc_data, clean_t_hw_hi, store', G), ('__getitem__, __setitem__', F)],
     'Fields.tla: faces as records of variables, TLC checks over all histories (FieldsModel) that variables do not influence each other, nothing is lost by store and load and checkpoints take only the Stall variables; histories are replayed and every step is compared.')
prop('C30', 'Asking a grid changes nothing and changes no later answer',
     "Every question to a grid (information, statistics, adjacency matrix, triangles, neighbours, longest edges, arrays of zones, slices, walks, searches of nodes and edges, clouds of triangles, storing, border files) leaves the grid exactly as it was, is answered equally when asked again, and answers belong to the asker: changing them changes neither the grid nor later answers. A grid that was asked between its changes goes through them exactly as one that was never asked, and answers always describe the grid as it is now, never as it was before a change.",
     ['histories'], 'all schedules of questions and changes of a grid',
     'Tests ask each question once, of a fresh grid.', [G, 'crysgsu/gsu/zone.py', F, 'crysgsu/gsu/edge.py', 'crysgsu/gsu/zones_adjacency_matrix.py'],
     [('print_info, find_near_node, bfs_path, store', G), ('arrays and slices', 'crysgsu/gsu/zone.py'), ('get_triangle, get_neighbour, get_center', F)],
     'Look.tla generates schedules of questions and changes with a twin that is never asked; TLC checks that a memo dropped at every change is invisible; the schedules are run on the real grid and its twin, states and answers are compared (TraceLook).')
prop('C31', 'Equal runs give equal results',
     "With equal input and equal seed of random numbers, histories of grids, the tools and the solvers give equal results, files and messages in any process: nothing depends on the hashing of strings, on addresses of objects, on the clock or on what ran before in the same process.",
     ['histories', 'schedules'], 'all scenarios of the other checks, all seeds of hashing, any memory layout and previous work of the process',
     'Tests run once, in one process.', [G, 'crysgsu/remeshing.py', 'crysgsu/geom/triangles_cloud.py'],
     [('decomposition, storing of borders', G), ('drops, interpolate', 'crysgsu/convert')],
     'TraceTwice.tla demands equal observations of equal runs; scenarios of the other checks and own histories are run in processes with different hash seeds, memory layouts and previous work. (Refusals may differ in wording.)')

prop('C32', 'Tools write exactly their files and refuse wrong requests',
     "A right request to a tool (split, merge, remesh, drops, interpolate, the converters) ends without an error, writes all files it is for under the documented names (for split one file per zone and the report, or the grid; for merge a grid per time stamp, the report, and the table if there are tables; for remesh a grid per *.dat file, step files only when verbose, all of them in the out directory; grid and trajectories for drops) and writes, changes or removes no other file, its inputs in particular. A wrong request (no such grid, directory or JSON file, a file that is no *.dat, a malformed grid, table, air file or JSON text, an unknown or impossible strategy, fixed zones that do not exist or are too many, results of unknown faces, odd or mismatched pairs of blocks, contradicting arguments) ends with an error, and no file is written, except for results that were complete before the fault was met and the converter's own unfinished result.",
     ['inputs', 'histories'], 'all combinations of arguments and states of the files they name, histories of requests over the same files',
     'No test runs a tool with wrong arguments or looks for other files.', ['crysgsu/split.py', 'crysgsu/merge.py', 'crysgsu/remesh.py', 'crysgsu/drops.py', 'crysgsu/convert/interpolate.py', 'crysgsu/convert/lazurit_to_crystal.py', 'crysgsu/convert/lazurit_add_beta_from_ansys.py', 'crysgsu/convert/ansys_to_crystal.py'],
     [('split, extract_*_from_json', 'crysgsu/split.py'), ('merge', 'crysgsu/merge.py'), ('__main__', 'crysgsu/remesh.py'), ('check_argument', 'crysgsu/convert/interpolate.py')],
     'Tools.tla: requests as records, their defects, what they write, may write and may leave behind; TLC enumerates all requests (3343) and simulates histories over one file system (ToolsModel: nothing but what is promised, latest results stand, refusals hurt nothing); they are run on the real tools in scratch directories, every path written or removed is compared.')

exec(open(os.path.join(HERE, 'tools', 'meta_more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'meta_more.py')) else None

P.sort()
NA = {}
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    checks = []
    for pid, title, st, over, quant, why, files, mech, note, tech, state, observe, level in P:
        assert len(title) <= 80, title
        a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
             'observe_at': list(observe) or ['public Python API, command line tools and files written'], 'hook_needed': None}
        if state:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
        f.write(json.dumps({'id': pid, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': quant},
                            'why_tests_cant': why, 'anchors': a}, ensure_ascii=False) + '\n')
        if os.path.exists(os.path.join(HERE, 'harness', pid.lower() + '.py')):
            checks.append({'property': pid, 'quick_cmd': './check.sh %s quick' % pid, 'thorough_cmd': './check.sh %s thorough' % pid,
                           'evidence_file': 'evidence/%s.json' % pid, 'technique': tech, 'level': level, 'level_note': note})
        else:
            NA[pid] = 'check not built yet'
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
           'notes': 'TLA+ with TLC; no hooks in /repo are needed: the checks drive the public API and the tools, and observe files, object state and messages.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
