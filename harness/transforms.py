"""C10/C11: histories of atomic transformations generated by TLC from Transforms.tla."""
import json
import os
import random
from concurrent.futures import ThreadPoolExecutor

import lib

LAT = lib.Lattice(step=1.0 / 64)
SUF = (0.125, 0.25, 0.375)


class Labels:
    """Integer labels of face data: label k is {T: k + 0.125, Hw: k + 0.25, Hi: k + 0.375}.
    When asked for, faces whose label is a multiple of three have one more variable (the others may say zero once they were written)."""
    def __init__(self, wide=False):
        self.other = {}
        self.wide = wide

    def give(self, face, k):
        for v, x in zip(('T', 'Hw', 'Hi'), SUF):
            face[v] = k + x
        if self.wide:
            face.Data.pop('HTC', None)
            if k % 3 == 0:
                face['HTC'] = k + 0.5

    def __call__(self, d, written=False):
        t = d.get('T')
        if self.wide and set(d) >= {'T', 'Hw', 'Hi'} and t == t and abs(t) < 1e9:
            k = int(t - SUF[0])
            if k % 3 == 0 and d.get('HTC') == k + 0.5 or k % 3 and written and d.get('HTC') == 0.0:
                d = {v: d[v] for v in d if v != 'HTC'}
        if set(d) == {'T', 'Hw', 'Hi'} and t == t and abs(t) < 1e9:
            k = int(t - SUF[0])
            if [d['T'], d['Hw'], d['Hi']] == [k + s for s in SUF]:
                return k
        return -2 - self.other.setdefault(lib.data_token(d), len(self.other))


def model_of(faces, rnd, real=lambda p: p):
    """File model of an abstract surface."""
    zones = sorted({f['z'] for f in faces})
    rnd.shuffle(zones)
    zs = []
    for z in zones:
        fs = [f for f in faces if f['z'] == z]
        rnd.shuffle(fs)
        pts = list({p for f in fs for p in f['t']})
        pts.sort()
        rnd.shuffle(pts)
        tris = []
        for f in fs:
            r = rnd.randrange(3)
            t = list(f['t'])
            tris.append([pts.index(p) for p in t[r:] + t[:r]])
        zs.append({'name': z, 'xyz': [LAT.xyz(real(p)) for p in pts],
                   'data': [[f['d'] + SUF[v] for f in fs] for v in range(3)], 'tris': tris})
    return {'title': 'mesh', 'vars': ['T', 'Hw', 'Hi'], 'zones': zs}


def surface(mesh, zone_of, names):
    pts, tris = mesh
    return [{'t': [pts[a] for a in t], 'd': i + 1, 'z': names[zone_of[i]]} for i, t in enumerate(tris)]


def small_surfaces(rnd):
    names = ['wing', 'body', 'tail']
    out = []
    m = lib.rect_mesh(2, 1, z=lambda i, j: 32 * (i * (j + 1) % 3))
    out.append(surface(m, [0] * 4, names))
    out.append(surface(m, [0, 1, 1, 0], names))
    m = lib.tetra(s=128)
    out.append(surface(m, [0, 0, 1, 2], names))
    m = lib.octa()
    out.append(surface(m, [0] * 8, names))
    out.append(surface(m, [0, 0, 1, 1, 0, 2, 2, 1], names))
    # a fan around an inner node, one triangle, two separate triangles
    c = lib.pack(512, 512, 576)
    ring = [lib.pack(704, 512, 512), lib.pack(576, 704, 544), lib.pack(384, 640, 512), lib.pack(320, 448, 512), lib.pack(544, 320, 512)]
    fan = ([c] + ring, [(0, 1 + i, 1 + (i + 1) % 5) for i in range(5)])
    out.append(surface(fan, [0, 0, 1, 1, 2], names))
    out.append(surface(([lib.pack(64, 64, 512), lib.pack(320, 64, 512), lib.pack(64, 192, 512)], [(0, 1, 2)]), [0], names))
    return out


def big_surfaces(rnd, n):
    names = ['wing', 'body', 'tail', 'cap']
    out = []
    while len(out) < n:
        mesh = [lambda: lib.rect_mesh(3, 3, step=128, z=lambda i, j: 32 * rnd.randrange(5), off=(64, 64, 448)),
                lambda: lib.rect_mesh(4, 1, step=128, off=(64, 64, 448), flipdiag=lambda i, j: i % 2),
                lambda: tor(rnd),
                lambda: lib.union(lib.octa((512, 512, 512)), lib.rect_mesh(1, 1, off=(64, 64, 64), step=128)),
                ][rnd.randrange(4)]()
        pts, tris = mesh
        tris = list(tris)
        nz = rnd.randint(1, 4)
        zo = [rnd.randrange(nz) for _ in tris]
        if rnd.random() < 0.5:     # zones in bands
            zo = [i * nz // len(tris) for i in range(len(tris))]
        out.append(surface((pts, tris), zo, names))
    return out


SLAB = 256      # not merged grids: the points of the k-th layer have y in SLAB * k .. SLAB * k + 255


def layer_of(code):
    return (code >> 10 & 1023) // SLAB


def shift(code, k):
    return code + (SLAB * k << 10)


def layered(rnd, n):
    """Surfaces whose zones have nodes of their own, many of them at the same places; the layers are shifted apart."""
    names = ['wing', 'body', 'tail', 'cap']
    out = []
    while len(out) < n:
        fs, d = [], 1
        if rnd.random() < 0.5:      # parts of one sheet
            nx, ny, nz = rnd.randint(2, 4), rnd.randint(1, 2), rnd.randint(2, 3)
            pts, tris = lib.rect_mesh(nx, ny, step=64, z=lambda i, j: 32 * rnd.randrange(4), off=(64, 64, 448), flipdiag=lambda i, j: rnd.random() < 0.5)
            zo = [min(q * nz // len(tris), nz - 1) for q in range(len(tris))]
            parts = [(pts, [t for t, z in zip(tris, zo) if z == k]) for k in range(nz)]
        else:                       # copies and shapes at the same place
            base = lib.rect_mesh(2, 2, step=64, z=lambda i, j: 32 * ((i * j) % 3), off=(64, 64, 448))
            parts = []
            for _ in range(rnd.randint(2, 3)):
                k = rnd.randrange(3)
                parts.append([base, (base[0], [tuple(reversed(t)) for t in base[1]][:rnd.randint(3, 8)]), lib.octa((128, 128, 512), 64, 64, 64)][k])
        for k, (pts, tris) in enumerate(parts):
            for t in tris:
                fs.append({'t': [shift(pts[a], k) for a in t], 'd': d, 'z': names[k]})
                d += 1
        out.append(fs)
    return out


def within(ops):
    """The beginning of the history whose new points belong to the layer."""
    r = []
    for o in ops:
        if any(k in o and layer_of(o[k]) != layer_of(o['t'][0]) for k in 'pq') and o['op'] != 'setdata':
            break
        r.append(o)
    return r


def large_surfaces(rnd, n):
    out = []
    for _ in range(n):
        mesh = lib.rect_mesh(8, rnd.randint(6, 8), step=64, z=lambda i, j: 32 * rnd.randrange(5), off=(64, 64, 448), flipdiag=lambda i, j: rnd.random() < 0.5)
        nz = rnd.randint(1, 12)
        nt = len(mesh[1])
        out.append(surface(mesh, [i * nz // nt if rnd.random() < 0.8 else rnd.randrange(nz) for i in range(nt)], ['zone %d' % i for i in range(nz)]))
    return out


def tor(rnd):
    """A coarse torus on multiples of 32."""
    pts, seen = [], set()
    ring = [(256, 0), (0, 320), (-288, -32), (32, -256)]
    sec = [(1, 0), (0, 3), (-2, -1)]
    for (x, y) in ring:
        for (r, z) in sec:
            s = 1 + 0.25 * r
            p = lib.pack(512 + int(x * s) // 32 * 32, 512 + int(y * s) // 32 * 32, 512 + 32 * z)
            assert p not in seen
            seen.add(p)
            pts.append(p)
    tris = []
    for i in range(4):
        for j in range(3):
            a, b = i * 3 + j, ((i + 1) % 4) * 3 + j
            c, d = ((i + 1) % 4) * 3 + (j + 1) % 3, i * 3 + (j + 1) % 3
            tris += [(a, b, c), (a, c, d)]
    return pts, tris


INV = 'SPECIFICATION Spec\nINVARIANTS Valid EulerKept BorderKept Closed OnceEach Emit\nCHECK_DEADLOCK FALSE\nCONSTANT MaxLen = %d\nCONSTANT Sim = %s\n'


def plan(ctx):
    rnd = random.Random(ctx.seed)
    scns, jobs = [], []

    def run(*a, **k):
        jobs.append((a, k))

    def model(tag, surfs, maxlen, sim, cap, **k):
        fn = os.path.join(ctx.dir, 'init_%s.json' % tag)
        with open(fn, 'w') as f:
            json.dump(surfs, f)
        args = ('-simulate', 'num=%d' % sim, '-seed', str(ctx.seed * 1000 + 7), '-depth', str(maxlen + 2)) if sim else ()
        cfg = INV if tag != 'large' else INV.replace('Valid EulerKept BorderKept Closed OnceEach ', '')     # checked on the others
        return ctx.model('Transforms', cfg % (maxlen, 'TRUE' if sim else 'FALSE'), env={'INIT': fn}, args=args, **k)

    def take(beh, tag, surfs, maxlen, sim, cap, **k):
        uniq, seen = [], set()
        for b in beh:
            key = json.dumps(b, sort_keys=True)
            if key not in seen:
                seen.add(key)
                uniq.append(b)
        if len(uniq) > cap:      # keep all kinds of pairs, then a seeded sample
            rnd.shuffle(uniq)
            kinds, first, rest = {}, [], []
            for b in uniq:
                kk = (b['init'],) + tuple(o['op'] for o in b['ops'])
                kinds[kk] = kinds.get(kk, 0) + 1
                (first if kinds[kk] <= 2 else rest).append(b)
            uniq = (first + rest)[:max(cap, min(len(first), 2 * cap))]
        for b in uniq:
            ops = within(b['ops']) if tag.startswith('layers') else b['ops']
            scns.append({'init': surfs[b['init'] - 1], 'ops': ops, 'seed': len(scns) + ctx.seed, 'merge': not tag.startswith('layers'), 'wide': rnd.random() < 0.3})

    small = small_surfaces(rnd)
    if ctx.thorough:
        run('ex1', small, 1, 0, 10000, workers=4)
        run('ex2', small[:3] + small[5:], 2, 0, 9000, workers=6, timeout=1500, heap='6g')
        run('sim6', small + big_surfaces(rnd, 10), 6, 2500, 2500, timeout=2500)
        run('sim16', big_surfaces(rnd, 10), 16, 300, 300, timeout=2500)
        run('layers', layered(rnd, 20), 7, 800, 800, timeout=2500)
        run('large', large_surfaces(rnd, 6), 5, 40, 40, timeout=2500)
    else:
        run('ex1', small, 1, 0, 400, workers=4)
        run('sim4', small + big_surfaces(rnd, 4), 5, 220, 220)
        run('layers', layered(rnd, 10), 6, 130, 130)
        run('large', large_surfaces(rnd, 3), 4, 40, 40)
    with ThreadPoolExecutor(3) as ex:
        done = list(ex.map(lambda j: model(*j[0], **j[1]), jobs))
    for beh, (a, k) in zip(done, jobs):
        take(beh, *a, **k)
    return scns


def edge_at(g, code, a, b):
    for e in g.Edges:
        if len(e.Nodes) == 2 and {code(e.Nodes[0]), code(e.Nodes[1])} == {a, b}:
            return e


def face_at(g, code, t):
    want = [tuple(t[i:] + t[:i]) for i in range(3)]
    for f in g.Faces:
        if tuple(code(n) for n in f.Nodes) in want:
            return f
    for f in g.Faces:       # the orientation was lost: still the face the history speaks about
        if sorted(code(n) for n in f.Nodes) == sorted(t):
            return f


def execute(s):
    import geom
    import gsu
    rnd = random.Random(s['seed'])
    lat, lab = lib.Lattice(step=1.0 / 64), Labels(s.get('wide'))
    merge = s.get('merge', True)
    layers = {} if merge else {f['z']: layer_of(f['t'][0]) for f in s['init']}
    recs, seen = [], set()

    def real(c):
        return c if merge else shift(c, -layer_of(c))

    def code(p):
        return lat.code(p)

    def vec(c):
        return geom.Vect(*lat.xyz(real(c)))

    def codes(g):
        """Codes of nodes: those of not merged grids are told apart by their zones."""
        if merge:
            return lambda n: code(n.P)
        zone = {}
        for z in reversed(g.Zones):
            for x in z.Nodes:
                zone[id(x)] = layers.get(z.Name, 0)
        return lambda n: (lambda c: shift(c, zone.get(id(n), 0)) if c >= 0 else c)(code(n.P))

    def post(g, lab=lab):
        cn = codes(g)
        p = lib.project(g, code, lab)
        for n, r in zip(g.Nodes, p['nodes']):
            r['p'] = cn(n)
        return p

    def near(g):
        """Which points are known to the grid."""
        def ask(c):
            r = g.find_near_node(gsu.Node(geom.Vect(*lat.xyz(c))))
            return -1 if r is None else code(r.P) if any(r is n for n in g.Nodes) else -3
        here = sorted({code(n.P) for n in g.Nodes})
        seen.update(c for c in here if c >= 0)
        asked = sorted(seen)
        o, r = lib.call(lambda: [ask(c) for c in asked])
        return {'near': [list(x) for x in zip(asked, r)] if r is not None else [[-9, -9]], 'here': here}
    with lib.scratch() as d:
        fn = os.path.join(d, 'a.dat')
        lib.write_dat(fn, model_of(s['init'], rnd, real))
        g = gsu.Grid()
        o, _ = lib.call(g.load, fn, is_merge_same_nodes=merge)
        if lab.wide:
            for f in g.Faces:
                lab.give(f, lab(f.Data))
        recs.append(dict(o, ev='load', post=post(g), **near(g)))
        for op in s['ops']:
            k, t, cn = op['op'], op['t'], codes(g)
            obj = face_at(g, cn, t) if k in ('divide', 'flip', 'setdata') else edge_at(g, cn, *t)
            if obj is None:
                break           # an earlier step went wrong (and has been recorded)
            if k == 'divide':
                o, r = lib.call(g.divide_face, obj, vec(op['p']))
                r = True        # no result is documented
            elif k == 'cut':
                o, r = lib.call(g.cut_edge, obj, vec(op['p']))
            elif k == 'cut1':
                o, r = lib.call(g.cut_single_edge, obj, vec(op['p']))
            elif k == 'cut2':
                ps = [vec(op['p']), vec(op['q'])]
                if cn(obj.Nodes[0]) != t[0]:
                    ps.reverse()
                o, r = lib.call(g.cut_edge_with_two_nodes, obj, *ps)
            elif k == 'flip':
                o, r = lib.call(g.collapse_face, obj)
            elif k == 'collapse':
                o, r = lib.call(g.collapse_edge, obj)
            elif k == 'setdata':
                o, r = lib.call(lab.give, obj, op['p'])
                r = True
            recs.append(dict(o, ev='op', o=op, ret=bool(r), post=post(g), **near(g)))
            if o['exc']:
                break
        fn2 = os.path.join(d, 'b.dat')
        was = lambda d: lab(d, True)
        o, _ = lib.call(g.store, fn2)
        rec = dict(o, ev='store', exc2='', exc3='')
        if not o['exc']:
            try:
                m = lib.parse_dat(fn2)
                rec['file'] = lib.file_projection(m, code, was)
                for z in rec['file']['zones']:
                    z['pts'] = [shift(c, layers.get(z['name'], 0)) if c >= 0 else c for c in z['pts']]
                g2 = gsu.Grid()
                o2, _ = lib.call(g2.load, fn2, is_merge_same_nodes=merge)
                rec['exc2'], rec['post'] = o2['exc'], post(g2, was)
                o3, _ = lib.call(g.store_mpi, os.path.join(d, 'c'), '000000000000')
                rec['exc3'] = o3['exc']
            except lib.Malformed as e:
                rec['exc'] = 'malformed file: %s' % e
        recs.append(rec)
    return recs


def stages(judge):
    return [{'name': 'histories', 'module': 'TraceTransforms', 'plan': plan, 'chunks': 6, 'workers': 7,
             'cfg': 'SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\nCONSTANT Judge = "%s"\n' % judge}]
