"""C01: load and store are lossless."""
import os
import random
import struct

import decomp
import exchange
import lib

NAMES = [' nose', 'left, right', 'two  blanks', 'ZONE', '#1', 'TITLE', 'wing', 'upper surface', 'z-1', 'Крыло', 'a.b_c', 'farhat 0', 'x (1)', "tail's", '0', 'wing ']
TITLES = ['mesh', '', None, ' mesh', 'mesh ', 'a  b', 'ZONE', 'Сетка', 'case 12, wing', 'mesh v2']
VSETS = [['T'], ['T', 'Hw', 'Hi'], ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ'],
         ['Beta', 'MImp2', 'Vd2', 'RecoveryFactor', 'Stall', 'StallD'], ['Hi', 'T']]


def plan(ctx):
    rnd = random.Random(ctx.seed * 11 + 2)
    return [{'init': decomp.meshes(rnd, 0.04), 'seed': rnd.randrange(1 << 30), 'merge': rnd.random() < 0.7,
             'middle': rnd.choice(['none', 'none', 'linear', 'farhat', 'hier', 'edit', 'edit', 'dirty', 'dirty', 'mesh', 'newvar', 'explode', 'twice']),
             'format': rnd.choice(['repr', 'repr', 'g17', 'e18', 'mixed', 'mixed'])}
            for _ in range(2000 if ctx.thorough else 500)]


def value(rnd):
    """A double of any size."""
    k = rnd.randrange(10)
    if k == 0:
        return rnd.choice([0.0, -0.0, 1.0, -1.0, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308,
                           0.1, 1 / 3, 1e22, 1e23, 9007199254740993.0, 2.5e-8])
    if k <= 3:
        while True:
            x = struct.unpack('d', struct.pack('Q', rnd.getrandbits(64)))[0]
            if x == x and abs(x) != float('inf'):
                return x
    if k <= 6:
        return rnd.uniform(-1, 1) * 10 ** rnd.randint(-6, 6)
    return rnd.uniform(0, 300)


def exact(x):
    """The ways in which a double can be written exactly."""
    x = float(x)
    ways = [repr(x), '%.17g' % x, '%.18e' % x, ('%.20E' % x), ('%+.17g' % x)]
    if abs(x) < 2 ** 53 and x == int(x) and not (x == 0 and str(x)[0] == '-'):
        ways += ['%d' % x, '%d.' % x, '%+d' % x]
    return ways


def fmt(kind, rnd):
    return {'repr': lambda x: exact(x)[0], 'g17': lambda x: exact(x)[1], 'e18': lambda x: exact(x)[2]}.get(kind, lambda x: rnd.choice(exact(x)))


class Tokens:
    """Exact points (and data) as small integers."""
    def __init__(self):
        self.m = {}

    def __call__(self, p):
        return self.m.setdefault(tuple(lib.tok(c) for c in p), len(self.m) + 1)


def edit_mesh(g, rnd):
    """Some transformation of the surface, at points that are arbitrary doubles."""
    k, t = rnd.randrange(3), rnd.uniform(0.2, 0.8)
    e = rnd.choice(g.Edges)
    if k == 0:
        f = rnd.choice(g.Faces)
        w = [rnd.uniform(0.2, 1) for _ in range(3)]
        g.divide_face(f, sum((f.Nodes[i].P * (w[i] / sum(w)) for i in range(1, 3)), f.Nodes[0].P * (w[0] / sum(w))))
    elif k == 1:
        g.cut_edge(e, e.Nodes[0].P * t + e.Nodes[1].P * (1 - t))
    elif exchange.may_collapse(e):
        g.collapse_edge(e)


def execute(s):
    import gsu
    rnd = random.Random(s['seed'])
    random.seed(s['seed'])
    toks = Tokens()
    recs = []
    vs = rnd.choice(VSETS)
    # real coordinates instead of lattice codes, all different at the merging resolution
    scale, base = rnd.choice([1.0, 1e-3, 1e-6, 1e3, 0.37, 1e11]), rnd.choice([0.0, 0.0, 10.0, -3.5])
    cs = sorted({p for f in s['init'] for p in f['t']})
    xyz = {p: tuple(base + scale * ((v & 1023) + rnd.random() * 0.3) * rnd.choice([1, 1, 1.0000001])
                    for v in (p >> 20, p >> 10, p)) for p in cs}
    if rnd.random() < 0.35:      # exact integers around one of the points, which is the origin
        o = rnd.choice(cs)
        xyz = {p: tuple(scale * float((p >> k & 1023) - (o >> k & 1023)) for k in (20, 10, 0)) for p in cs}
    zones = sorted({f['z'] for f in s['init']})
    names = rnd.sample(NAMES, len(zones))
    rnd.shuffle(zones)
    zs = []
    for z, nm in zip(zones, names):
        fs = [f for f in s['init'] if f['z'] == z]
        rnd.shuffle(fs)
        pts = sorted({p for f in fs for p in f['t']})
        rnd.shuffle(pts)
        zs.append({'name': nm, 'xyz': [xyz[p] for p in pts], 'data': [[value(rnd) for _ in fs] for _ in vs],
                   'tris': [[pts.index(p) for p in f['t']] for f in fs]})
    model = {'title': rnd.choice(TITLES), 'vars': vs, 'zones': zs}

    def gvars(g):
        return list(g.Faces[0].Data.keys())
    with lib.scratch() as d:
        a, b, c = [os.path.join(d, n) for n in ('a.dat', 'b.dat', 'c.dat')]
        lib.write_dat(a, model, fmt(s['format'], rnd))
        g = gsu.Grid()
        if s['middle'] == 'dirty':      # the object has been used for another grid before
            other = model
            if rnd.random() < 0.5:      # an other grid on a part of the same points
                k = rnd.randrange(len(zs))
                other = {'title': 'previous', 'vars': ['Q'] + vs,
                         'zones': [dict(zs[k], name='p', data=[[1.0] * len(zs[k]['tris'])] + zs[k]['data'])] * rnd.choice([1, 1, 3])}
                if len(other['zones']) > 1:
                    other['zones'] = [dict(z, name='p%d' % i, xyz=[tuple(c + i * scale * 4096 for c in q) for q in z['xyz']])
                                      for i, z in enumerate(other['zones'])]
            p = os.path.join(d, 'p.dat')
            lib.write_dat(p, other)
            g.load(p, is_merge_same_nodes=rnd.random() < 0.5)
            g.decompose_linear(2, new_name='other')
        o, _ = lib.call(g.load, a, is_merge_same_nodes=s['merge'])
        recs.append(dict(o, ev='load', file=lib.file_projection(model, toks), post=lib.project(g, toks)))
        if s['middle'] == 'linear':
            g.decompose_linear(rnd.randint(1, 3), new_name='lin')
        elif s['middle'] == 'farhat':
            g.decompose_farhat(rnd.randint(1, 3), fz_names=names[:1] if len(names) > 1 else [])
        elif s['middle'] == 'hier':
            g.decompose_hierarchical(levels=rnd.randint(1, 3))
        elif s['middle'] == 'edit':
            for f in g.Faces:
                if rnd.random() < 0.5:
                    f[rnd.choice(vs)] = value(rnd)
        elif s['middle'] == 'newvar':
            for f in g.Faces:
                f['Extra'] = value(rnd)
        elif s['middle'] == 'explode':
            g.move_from_mean_point(rnd.choice([0.5, 1.0, 10.0]))
        elif s['middle'] == 'twice':
            lib.call(g.store, b)
        elif s['middle'] == 'mesh':
            for _ in range(rnd.randint(1, 5)):
                edit_mesh(g, rnd)
        o, _ = lib.call(g.store, b)
        rec = dict(o, ev='store', post=lib.project(g, toks), vars=gvars(g))
        recs.append(rec)
        if o['exc']:
            return recs
        try:
            fb = lib.parse_dat(b)
        except (lib.Malformed, ValueError, UnicodeError) as e:
            rec['exc'] = 'malformed file: %s' % e
            return recs
        rec['file'] = lib.file_projection(fb, toks)
        g2 = gsu.Grid()
        o, _ = lib.call(g2.load, b, is_merge_same_nodes=s['merge'])
        recs.append(dict(o, ev='load', file=rec['file'], post=lib.project(g2, toks)))
        o, _ = lib.call(g2.store, c)
        rec = dict(o, ev='again', vars=gvars(g))
        recs.append(rec)
        if not o['exc']:
            try:
                rec['file'] = lib.file_projection(lib.parse_dat(c), toks)
            except (lib.Malformed, ValueError, UnicodeError) as e:
                rec['exc'] = 'malformed file: %s' % e
    return recs


STAGES = [{'name': 'files', 'module': 'TraceStore', 'plan': plan, 'chunks': 6, 'workers': 7,
           'cfg': 'SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\nCONSTANT Judge = "roundtrip"\n'}]
