"""Shared plumbing of the conformance harness: it drives the real code in /repo and projects what the
code did into JSON.  Nothing in this directory judges the code; every verdict is an operator of a TLA+
module in /verif/spec evaluated by TLC."""
import io
import json
import os
import random
import shutil
import sys
import tempfile
import contextlib

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def import_repo():
    """Import the code under test from /repo's current working tree."""
    sys.dont_write_bytecode = True
    for p in (REPO + '/crysgsu/convert', REPO + '/crysgsu'):
        if p not in sys.path:
            sys.path.insert(0, p)
    import warnings
    warnings.simplefilter('ignore')
    import geom  # noqa: F401
    import gsu   # noqa: F401
    return geom, gsu


# ---------------------------------------------------------------------------------------------
# numbers
# ---------------------------------------------------------------------------------------------

def tok(x):
    """Exact token of a double."""
    x = float(x)
    return 'nan' if x != x else x.hex()


# Lattice points: three integers in 0..1023 packed in one 30 bit integer (TLC integers are 32 bit).
# A lattice has an origin and a dyadic step, so the doubles are exact.
class Lattice:
    def __init__(self, step=1.0 / 64, origin=(512, 512, 512)):
        self.step, self.origin, self.extra = step, origin, {}

    def xyz(self, code):
        return tuple((c - o) * self.step for c, o in
                     zip((code >> 20, (code >> 10) & 1023, code & 1023), self.origin))

    def code(self, p):
        r = []
        for v, o in zip(p, self.origin):
            v = float(v)
            k = v / self.step + o
            if k != k or k != int(k) if abs(k) < 1e9 else True:
                r = None
                break
            k = int(k)
            if k < 0 or k > 1023:
                r = None
                break
            r.append(k)
        if r is None:
            key = tuple(tok(v) for v in p)
            return -2 - self.extra.setdefault(key, len(self.extra))
        return (r[0] << 20) | (r[1] << 10) | r[2]


def pack(x, y, z):
    assert 0 <= x < 1024 and 0 <= y < 1024 and 0 <= z < 1024
    return (x << 20) | (y << 10) | z


# ---------------------------------------------------------------------------------------------
# .dat files: independent writer and strict parser
# ---------------------------------------------------------------------------------------------

def num(x):
    return repr(float(x))


def write_dat(path, model, fmt=num):
    """model = {title, vars:[...], zones:[{name, xyz:[(x,y,z)], data:[[row per face]...] by variable,
    tris:[(i,j,k)] zero based}]}"""
    nv = len(model['vars'])
    with open(path, 'w', newline='\n') as f:
        f.write('# written by the harness\n')
        if model['title'] is not None:
            f.write('TITLE="%s"\n' % model['title'])
        f.write('VARIABLES=%s\n' % ', '.join('"%s"' % v for v in ['X', 'Y', 'Z'] + model['vars']))
        for z in model['zones']:
            f.write('ZONE T="%s"\nNODES=%d\nELEMENTS=%d\nDATAPACKING=BLOCK\nZONETYPE=FETRIANGLE\n'
                    'VARLOCATION=([4-%d]=CELLCENTERED)\n' % (z['name'], len(z['xyz']), len(z['tris']), 3 + nv))
            for c in range(3):
                f.write(' '.join(fmt(p[c]) for p in z['xyz']) + '\n')
            for v in range(nv):
                f.write(' '.join(fmt(x) for x in z['data'][v]) + '\n')
            for t in z['tris']:
                f.write(' '.join(str(i + 1) for i in t) + '\n')


class Malformed(Exception):
    pass


def parse_dat(path):
    """Strict parser of the grid file format."""
    with open(path, 'r', newline='') as f:
        text = f.read()
    if text and not text.endswith('\n'):
        raise Malformed('no newline at end of file')
    lines = text.split('\n')[:-1]
    i = 0
    title, variables, zones = None, None, []

    def take():
        nonlocal i
        if i >= len(lines):
            raise Malformed('unexpected end of file')
        i += 1
        return lines[i - 1]

    def keyed(key):
        l = take()
        if not l.startswith(key):
            raise Malformed('expected %s, got %r' % (key, l[:60]))
        return l[len(key):]
    while i < len(lines):
        l = take()
        if l.startswith('#'):
            continue
        if l.startswith('TITLE="') and l.endswith('"'):
            title = l[7:-1]
        elif l.startswith('VARIABLES='):
            variables = [v.strip().strip('"') for v in l[10:].split(',')]
        elif l.startswith('ZONE T="') and l.endswith('"'):
            name = l[8:-1]
            n, e = int(keyed('NODES=')), int(keyed('ELEMENTS='))
            if take() != 'DATAPACKING=BLOCK' or take() != 'ZONETYPE=FETRIANGLE':
                raise Malformed('packing or zone type')
            if take() != 'VARLOCATION=([4-%d]=CELLCENTERED)' % len(variables):
                raise Malformed('varlocation')
            cs = [[float(s) for s in take().split()] for _ in range(3)]
            ds = [[float(s) for s in take().split()] for _ in variables[3:]]
            if any(len(c) != n for c in cs) or any(len(d) != e for d in ds):
                raise Malformed('row length in zone %s' % name)
            tris = []
            for _ in range(e):
                t = [int(s) - 1 for s in take().split()]
                if len(t) != 3 or any(k < 0 or k >= n for k in t):
                    raise Malformed('connectivity %r of zone %s' % (t, name))
                tris.append(t)
            zones.append({'name': name, 'xyz': [tuple(c[k] for c in cs) for k in range(n)],
                          'data': ds, 'tris': tris})
        else:
            raise Malformed('unexpected line %r' % l[:60])
    if variables is None:
        raise Malformed('no VARIABLES')
    return {'title': title, 'vars': variables[3:], 'zones': zones}


def file_projection(model, code, data=None):
    """File content as JSON for the specification: per zone the points, the data tokens, the faces."""
    data, zs = data or data_token, []
    for z in model['zones']:
        zs.append({'name': z['name'], 'pts': [code(p) for p in z['xyz']],
                   'faces': [{'n': [k + 1 for k in t],
                              'd': data({v: z['data'][a][j] for a, v in enumerate(model['vars'])})}
                             for j, t in enumerate(z['tris'])]})
    return {'title': model['title'] or '', 'vars': list(model['vars']), 'zones': zs}


def data_token(d):
    """A face's data dictionary as one token (names and exact values)."""
    return ';'.join('%s=%s' % (k, tok(d[k])) for k in sorted(d))


# ---------------------------------------------------------------------------------------------
# projection of a Grid: the complete concrete incidence structure
# ---------------------------------------------------------------------------------------------

def project(g, code, data=data_token):
    """Concrete projection: objects are numbered by their position in the grid's lists (1-based);
    a reference to an object that is not in those lists becomes 0."""
    ni = {id(n): i + 1 for i, n in enumerate(g.Nodes)}
    ei = {id(e): i + 1 for i, e in enumerate(g.Edges)}
    fi = {id(f): i + 1 for i, f in enumerate(g.Faces)}
    zi = {id(z): i + 1 for i, z in enumerate(g.Zones)}

    def refs(objs, m):
        return [m.get(id(o), 0) for o in objs]
    return {
        'name': g.Name,
        'nodes': [{'p': code((n.P[0], n.P[1], n.P[2])), 'g': int(n.GloId), 'e': refs(n.Edges, ei), 'f': refs(n.Faces, fi)}
                  for n in g.Nodes],
        'edges': [{'g': int(e.GloId), 'n': refs(e.Nodes, ni), 'f': refs(e.Faces, fi)} for e in g.Edges],
        'faces': [{'g': int(f.GloId), 'n': refs(f.Nodes, ni), 'e': refs(f.Edges, ei),
                   'z': zi.get(id(f.Zone), 0), 'd': data(f.Data)} for f in g.Faces],
        'zones': [{'name': z.Name, 'n': refs(z.Nodes, ni), 'e': refs(z.Edges, ei), 'f': refs(z.Faces, fi)}
                  for z in g.Zones],
    }


# ---------------------------------------------------------------------------------------------
# running real code
# ---------------------------------------------------------------------------------------------

@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def call(fn, *a, **k):
    """Outcome of a call into the code under test."""
    try:
        with quiet():
            r = fn(*a, **k)
        return {'exc': ''}, r
    except (Exception, SystemExit) as e:  # noqa: BLE001
        if isinstance(e, SystemExit) and e.code in (None, 0):
            return {'exc': ''}, None
        return {'exc': '%s: %s' % (type(e).__name__, str(e)[:200])}, None


def run_script(rel, argv, cwd=None):
    """Run a command line tool of the repository in process (as __main__), with the given arguments."""
    import runpy
    path = os.path.join(REPO, 'crysgsu', rel)
    old = sys.argv
    sys.argv = [path] + [str(a) for a in argv]
    here = os.getcwd()
    try:
        if cwd:
            os.chdir(cwd)
        return call(runpy.run_path, path, run_name='__main__')[0]
    finally:
        os.chdir(here)
        sys.argv = old


# ---------------------------------------------------------------------------------------------
# mesh families (integer lattice points)
# ---------------------------------------------------------------------------------------------

def rect_mesh(nx, ny, z=lambda i, j: 0, step=64, off=(64, 64, 512), flipdiag=None):
    """Structured rectangular sheet, returns (points codes, triangles as index triples)."""
    pts = [pack(off[0] + i * step, off[1] + j * step, off[2] + z(i, j)) for j in range(ny + 1) for i in range(nx + 1)]
    tris = []
    for j in range(ny):
        for i in range(nx):
            a = j * (nx + 1) + i
            b, c, d = a + 1, a + nx + 2, a + nx + 1
            if flipdiag and flipdiag(i, j):
                tris += [(a, b, d), (b, c, d)]
            else:
                tris += [(a, b, c), (a, c, d)]
    return pts, tris


def tetra(off=(512, 512, 512), s=128):
    o = off
    pts = [pack(*o), pack(o[0] + s, o[1], o[2]), pack(o[0], o[1] + 2 * s, o[2]), pack(o[0], o[1], o[2] + 3 * s)]
    return pts, [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)]


def octa(off=(512, 512, 512), a=128, b=192, c=256):
    x, y, z = off
    pts = [pack(x + a, y, z), pack(x - a, y, z), pack(x, y + b, z), pack(x, y - b, z), pack(x, y, z + c), pack(x, y, z - c)]
    tris = [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]
    return pts, tris


def torus(n=4, m=4, off=(512, 512, 512)):
    import math
    x, y, z = off
    pts, seen = [], set()
    for i in range(n):
        for j in range(m):
            u, v = 2 * math.pi * i / n + 0.3, 2 * math.pi * j / m + 0.2
            r = 256 + 96 * math.cos(v)
            q = [int(round(r * math.cos(u) / 16)) * 16, int(round(r * math.sin(u) / 16)) * 16, int(round(96 * math.sin(v) / 16)) * 16]
            p = pack(x + q[0], y + q[1], z + q[2])
            assert p not in seen
            seen.add(p)
            pts.append(p)
    tris = []
    for i in range(n):
        for j in range(m):
            a, b = i * m + j, ((i + 1) % n) * m + j
            c, d = ((i + 1) % n) * m + (j + 1) % m, i * m + (j + 1) % m
            tris += [(a, b, c), (a, c, d)]
    return pts, tris


def union(*meshes):
    pts, tris = [], []
    for p, t in meshes:
        o = len(pts)
        pts += p
        tris += [tuple(k + o for k in x) for x in t]
    assert len(set(pts)) == len(pts)
    return pts, tris


def zoned_model(mesh, zone_of, lat, names=None, variables=('T', 'Hw', 'Hi'), title='mesh', data=None, rnd=None,
                shuffle=False):
    """File model of a mesh with the given zone per triangle.  data(face index, variable) -> value."""
    pts, tris = mesh
    nz = max(zone_of) + 1
    names = names or ['zone %d' % k for k in range(nz)]
    data = data or (lambda i, v: 1.0 + i + 0.125 * (1 + list(variables).index(v)))
    zones = []
    for k in range(nz):
        fs = [i for i in range(len(tris)) if zone_of[i] == k]
        if rnd and shuffle:
            rnd.shuffle(fs)
        ns = []
        for i in fs:
            for a in tris[i]:
                if a not in ns:
                    ns.append(a)
        if rnd and shuffle:
            rnd.shuffle(ns)
        else:
            ns.sort()
        pos = {a: q for q, a in enumerate(ns)}
        tr = []
        for i in fs:
            t = [pos[a] for a in tris[i]]
            r = rnd.randrange(3) if rnd and shuffle else 0
            tr.append(t[r:] + t[:r])
        zones.append({'name': names[k], 'xyz': [lat.xyz(pts[a]) for a in ns],
                      'data': [[data(i, v) for i in fs] for v in variables], 'tris': tr})
    return {'title': title, 'vars': list(variables), 'zones': zones}


def random_mesh(rnd, small=False):
    """One of the mesh families."""
    k = rnd.randrange(8)
    if k == 0:
        return rect_mesh(rnd.randint(1, 3), rnd.randint(1, 3), z=lambda i, j: rnd.randrange(0, 9) * 8)
    if k == 1:
        return rect_mesh(rnd.randint(2, 5), 1, step=32, flipdiag=lambda i, j: (i + j) % 2)
    if k == 2:
        return tetra()
    if k == 3:
        return octa()
    if k == 4:
        return torus(3, 3) if small else torus(4, 4)
    if k == 5:
        return union(rect_mesh(2, 2), tetra((800, 700, 512), 32), rect_mesh(1, 2, off=(64, 600, 200)))
    if k == 6:   # sheet with a hole
        pts, tris = rect_mesh(3, 3, z=lambda i, j: (i * j) % 3 * 16)
        return drop_unused(pts, [t for q, t in enumerate(tris) if q not in (8, 9)])
    pts, tris = rect_mesh(3, 2, z=lambda i, j: rnd.randrange(0, 9) * 8, flipdiag=lambda i, j: rnd.random() < 0.5)
    keep = [t for t in tris if rnd.random() < 0.8] or tris[:1]
    return drop_unused(pts, keep)


def drop_unused(pts, tris):
    used = sorted({a for t in tris for a in t})
    m = {a: i for i, a in enumerate(used)}
    return [pts[a] for a in used], [tuple(m[a] for a in t) for t in tris]
