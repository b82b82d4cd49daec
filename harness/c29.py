"""C29: variables on faces as working fields: set, cleared, loaded from results, written, read again, checkpoints."""
import math
import os
import random

import lib
from decomp import meshes
from transforms import LAT

MODEL = ('SPECIFICATION Spec\nINVARIANTS NamesDiffer NothingLost CleanTwice CheckpointOnly OwnLines Emit\nCHECK_DEADLOCK FALSE\n'
         'CONSTANTS\n MaxLen = %d\n Emitting = TRUE\n')
STALL = ['Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ']
MORE = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor', 't', 'H', 'Q', 'StallT', 'Stall2', 'VStall', 'Hw2', 'T0', '_T', 'a.b', '1T', 'T*', 'GloID', 'X1', 'Hi_old', 'hi', 'T-1']


def plan_model(ctx):
    hs = ctx.model('FieldsModel', MODEL % (4 if ctx.thorough else 3), workers=1, timeout=800)
    rnd = random.Random(ctx.seed * 41 + 3)
    hs = rnd.sample(hs, min(len(hs), 8000 if ctx.thorough else 700))
    return [{'seed': rnd.randrange(1 << 30), 'ops': h[1:] + [{'op': 'again'}], 'names': h[0]['names']} for h in hs]


def plan_random(ctx):
    rnd = random.Random(ctx.seed * 43 + 5)
    return [{'seed': rnd.randrange(1 << 30), 'n': rnd.randint(3, 14)} for _ in range(4000 if ctx.thorough else 400)]


def execute(s):
    import gsu
    rnd = random.Random(s['seed'])
    model = 'ops' in s
    if model:       # three faces in two zones
        pts = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (2, 0, 1)]
        tris, zone_of, names = [(0, 1, 2), (1, 3, 2), (1, 4, 3)], [0, 0, 1], list(s['names'])

        def xyz(p):
            return p
        value = lambda i, k: float(10 * (i + 1) + k + 1)
    else:
        while True:
            fs = meshes(rnd, 0.04 if s['n'] > 3 else 0.9)
            if len(fs) <= (40 if s['n'] > 3 else 330) and len({frozenset(f['t']) for f in fs}) == len(fs):
                break
        pts = sorted({p for f in fs for p in f['t']})
        zs = sorted({f['z'] for f in fs})
        tris, zone_of, xyz = [tuple(pts.index(p) for p in f['t']) for f in fs], [zs.index(f['z']) for f in fs], LAT.xyz
        names = rnd.sample(MORE, rnd.choice([rnd.randint(0, 7), rnd.randint(0, len(MORE))]))
        if rnd.random() < 0.6:
            names += STALL
        if rnd.random() < 0.5:
            rnd.shuffle(names)
        value = lambda i, k: some(rnd)
    zones = []
    for z in sorted(set(zone_of)):
        mine = [i for i in range(len(tris)) if zone_of[i] == z]
        own = sorted({a for i in mine for a in tris[i]})
        zones.append({'name': 'zone %d' % z, 'xyz': [xyz(pts[a]) for a in own],
                      'data': [[value(i, k) for i in mine] for k in range(len(names))],
                      'tris': [[own.index(a) for a in tris[i]] for i in mine]})
    keys = {}

    def state(g):
        at = {id(f): i + 1 for i, f in enumerate(g.Faces)}
        faces = []
        for f in g.Faces:
            k = frozenset(tuple(n.P[i] for i in range(3)) for n in f.Nodes)
            faces.append({'t': keys.setdefault(k, len(keys) + 1), 'g': int(f.GloId), 'v': [[n] + pair(x) for n, x in f.Data.items()]})
        return {'faces': faces, 'zones': [[at.get(id(f), 0) for f in z.Faces] for z in g.Zones]}

    recs = []
    with lib.scratch() as d:
        fn = os.path.join(d, 'g.dat')
        lib.write_dat(fn, {'title': 'fields', 'vars': names, 'zones': zones})
        g = gsu.Grid()
        g.load(fn)
        todo = s['ops'] if model else [None] * s['n']
        if s.get('n') == 3:     # in a large grid one face gets a variable of its own
            todo = [{'op': 'set', 'f': rnd.randint(1, len(g.Faces)), 'n': rnd.choice(['Late', 'Beta', 'T']), 'x': pair(some(rnd))},
                    {'op': rnd.choice(['again', 'clean', 'decompose']), 'how': rnd.choice(['linear', 'farhat']), 'n': 7}, {'op': 'again'}]
        for op in todo:
            o = dict(op) if op else choose(g, rnd)
            old = state(g)
            out = []
            box = [g]
            r, ans = lib.call(lambda: do(box, o, d, model))
            g = box[0]
            names, out = ans if ans else ([], [])
            recs.append(dict(r, ev='field', old=old, o=o, new=state(g), out=out, names=names))
            if r['exc']:
                break
    return recs


def some(rnd):
    return rnd.choice([0.0, -0.0, 1.0, rnd.randint(-999, 999) / 8, rnd.uniform(-5, 5), rnd.uniform(-1e5, 1e5), 273.15, 1e-9,
                       rnd.choice([1e16, -3e22, 1e300, 5e-324, -1e-200, 2.0 ** 53 + 2, 1e15 / 7])])


def pair(x):
    x = float(x)
    return [lib.tok(x), math.floor(8 * x) if abs(x) < 1e7 else 1 << 30]


def num(x):
    """The double of a token."""
    return float.fromhex(x[0]) if 'x' in x[0] else float(x[0])


def choose(g, rnd):
    """A step that fits the grid as it is."""
    n = len(g.Faces)
    every = {k for f in g.Faces for k in f.Data}
    k = rnd.choice(['set', 'set', 'set', 'get', 'load', 'load', 'clean', 'checkpoint', 'write', 'again', 'decompose'])
    if k == 'checkpoint' and not all(v in f.Data for f in g.Faces for v in STALL):
        k = 'set'
    o = {'op': k}
    if k in ('set', 'get'):
        o.update(f=rnd.randint(1, n), n=rnd.choice(sorted(every) + MORE + STALL))
        if k == 'set':
            o['x'] = pair(some(rnd))
    elif k == 'load':
        o['names'] = rnd.choice([['T', 'Hw', 'Hi'], ['T', 'Hw', 'Hi'] + rnd.sample(MORE[3:], 2), rnd.sample(MORE, rnd.randint(1, 6)), rnd.sample(MORE + STALL, rnd.randint(8, len(MORE)))])
        who = rnd.sample(range(n), rnd.choice([n, rnd.randint(0, n)]))
        if rnd.random() < 0.4:
            who.sort()
        if who and rnd.random() < 0.2:
            who.append(rnd.choice(who))
        o['lines'] = [{'g': a, 'x': [pair(some(rnd)) for _ in o['names']]} for a in who]
    elif k == 'decompose':
        o['how'] = rnd.choice(['mono', 'linear', 'farhat', 'hierarchical', 'random'])
        o['n'] = rnd.randint(1, min(5, n))
    return o


def do(box, o, d, model):
    import gsu
    g, op = box[0], o['op']
    fn = os.path.join(d, 'f.txt')
    if op in ('set', 'load') and model:         # values of the model to real ones
        fix = lambda x: pair(float(x[0]))
        if op == 'set':
            o['x'] = fix(o['x'])
        else:
            o['lines'] = [{'g': q['g'], 'x': [fix(x) for x in q['x']]} for q in o['lines']]
    if op == 'set':
        g.Faces[o['f'] - 1][o['n']] = num(o['x'])
    elif op == 'get':
        return [], pair(g.Faces[o['f'] - 1][o['n']])
    elif op == 'load':
        with open(fn, 'w') as f:
            f.write('VARIABLES=' + ', '.join('"%s"' % v for v in ['GloId'] + o['names']) + '\n')
            for q in o['lines']:
                f.write(' '.join([str(q['g'])] + ['{:.18e}'.format(num(x)) for x in q['x']]) + '\n')
        g.load_faces_calc_data(fn)
    elif op == 'clean':
        g.clean_t_hw_hi()
    elif op == 'checkpoint':
        g.convert_grid_stall_to_check_point()
    elif op == 'write':
        g.store_faces_calc_data(fn)
        ls = open(fn).read().split('\n')
        names = [v.strip().strip('"') for v in ls[0].split('=', 1)[1].split(',')]
        if ls[-1] != '' or names[0] != 'GloId':
            raise lib.Malformed('file of results')
        rows = [q.split() for q in ls[1:-1]]
        return names[1:], [{'g': int(r[0]), 'x': [pair(float(x)) for x in r[1:]]} for r in rows]
    elif op == 'again':
        g.store(fn)
        if g.faces_count() % 2:
            box[0] = g = gsu.Grid()
        g.load(fn)
    elif op == 'decompose':
        if o['how'] == 'mono':
            g.decompose_mono()
        elif o['how'] == 'hierarchical':
            g.decompose_hierarchical(levels=o['n'])
        else:
            getattr(g, 'decompose_' + o['how'])(count=o['n'])


STAGES = [{'name': 'model', 'module': 'TraceFields', 'plan': plan_model, 'chunks': 7, 'workers': 7},
          {'name': 'random', 'module': 'TraceFields', 'plan': plan_random, 'chunks': 7, 'workers': 7}]
