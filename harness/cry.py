"""Solver file sets: store_mpi after histories of decompositions, and the split tool."""
import glob
import json
import os
import random
import re

import decomp
import lib
from transforms import Labels, model_of

VARS = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor']


def parse_cry(path, code):
    """Strict parser of one solver file."""
    lines = open(path, newline='').read().split('\n')
    if lines[-1] != '':
        raise lib.Malformed('no newline at end of %s' % path)
    it = iter(lines[:-1])

    def take():
        try:
            return next(it)
        except StopIteration:
            raise lib.Malformed('unexpected end of file')

    def key(k):
        l = take()
        if not l.startswith(k):
            raise lib.Malformed('expected %s, got %r' % (k, l[:50]))
        return l[len(k):]
    t = key('TITLE=')
    vs = [v.strip().strip('"') for v in key('VARIABLES=').split(',')]
    if vs != ['X', 'Y', 'Z', 'GloId'] + VARS:
        raise lib.Malformed('variables %r' % vs)
    r = {'title': t.strip('"'), 'mpi': int(key('MPI=')), 'n': int(key('NODES=')), 'e': int(key('EDGES=')),
         'x': int(key('CROSS-EDGES=')), 'f': int(key('FACES='))}
    key('NODES COORDINATES:')
    c = [[float(v) for v in take().split()] for _ in range(3)]
    if any(len(x) != r['n'] for x in c):
        raise lib.Malformed('length of a coordinates row')
    key('FACES DATA:')
    r['gids'] = [int(v) for v in take().split()]
    d = [[float(v) for v in take().split()] for _ in VARS]
    if any(len(x) != r['f'] for x in d) or len(r['gids']) != r['f']:
        raise lib.Malformed('length of a faces data row')
    r['pts'] = [code(p) for p in zip(*c)]
    r['data'] = [';'.join(lib.tok(x[i]) for x in d) for i in range(r['f'])]
    key('FACE-NODE CONNECTIVITY LIST:')
    r['fn'] = [[int(v) for v in take().split()] for _ in range(r['f'])]
    key('FACE-EDGE CONNECTIVITY LIST:')
    r['fe'] = [[int(v) for v in take().split()] for _ in range(r['f'])]
    key('EDGE-NODE CONNECTIVITY LIST:')
    r['en'] = [[int(v) for v in take().split()] for _ in range(r['e'])]
    r['nb'] = int(key('MPI-BORDERS='))
    r['borders'] = []
    for l in it:
        m = re.fullmatch(r'\[(\d+)\]((?: \d+)*) ?', l)
        if not m:
            raise lib.Malformed('border line %r' % l[:50])
        r['borders'].append({'z': int(m.group(1)), 'es': [int(v) for v in m.group(2).split()]})
    return r


def cry_set(d, base, ts, sf, code):
    """All files of one set, in the order of their numbers."""
    files = []
    for p in sorted(glob.glob(os.path.join(glob.escape(d), '*'))):
        m = re.fullmatch(re.escape(base) + r'_(\d{5})_' + re.escape(ts) + re.escape(sf), os.path.basename(p))
        if not m:
            if os.path.basename(p) == 'report.txt':
                continue
            raise lib.Malformed('unexpected file %s' % os.path.basename(p))
        files.append(dict(parse_cry(p, code), idx=int(m.group(1))))
    return files


def cry_token(data):
    return ';'.join(lib.tok(data.get(v, 0.0)) for v in VARS)


def faces_of(g, code):
    fs = []
    for f in g.Faces:
        t = [code(n.P) for n in f.Nodes]
        fs.append({'g': int(f.GloId), 't': (t + [-1] * 3)[:3], 'c': cry_token(f.Data)})
    return fs


def execute(s):
    return execute_cli(s) if s['stage'] == 'split' else execute_api(s)


def execute_api(s):
    rnd = random.Random(s['seed'])
    random.seed(s['seed'])
    lat, lab = lib.Lattice(step=1.0 / 64), Labels()
    recs = []
    with lib.scratch() as d:
        pre = []
        g = decomp.load(s, d, rnd, lat, lab, pre, 0)
        for p in pre:
            recs.append({'ev': 'setup', 'exc': p['exc']})
        if s.get('vars'):
            for i, f in enumerate(g.Faces):
                for v in s['vars']:
                    f[v] = (i + 1) / 8.0 + len(v) * 16 + ord(v[0])
        for k, o in enumerate([None] + s['ops'] + [None] * (s['edits2'] > 0)):
            if o is not None:
                res = decomp.decompose(g, o)
                recs.append({'ev': 'setup', 'exc': res['exc']})
            elif k:     # written without another decomposition
                for _ in range(s['edits2']):
                    res, _ = lib.call(decomp.edit, g, rnd, lat)
                    recs.append({'ev': 'setup', 'exc': res['exc']})
            dd = os.path.join(d, 'c%d' % k)
            os.mkdir(dd)
            kw = {} if s['sf'] == '.cry' else {'sf': s['sf']}
            res, _ = lib.call(g.store_mpi, os.path.join(dd, s['base']), s['ts'], **kw)
            rec = dict(res, ev='cry', names=[z.Name for z in g.Zones], faces=faces_of(g, lat.code), files=[])
            if not res['exc']:
                try:
                    rec['files'] = cry_set(dd, s['base'], s['ts'], s['sf'], lat.code)
                except (lib.Malformed, ValueError) as e:
                    rec['exc'] = 'malformed: %s' % e
            recs.append(rec)
    return recs


def file_faces(model, code, rf):
    """Faces of a grid file by global id (their order in the file)."""
    out = []
    for k, z in enumerate(model['zones']):
        for j, t in enumerate(z['tris']):
            data = {v: z['data'][a][j] for a, v in enumerate(model['vars'])}
            data.setdefault('RecoveryFactor', rf)
            out.append({'g': len(out), 't': [code(z['xyz'][a]) for a in t], 'c': cry_token(data), 'z': z['name'], 'k': k + 1})
    return out


def execute_cli(s):
    rnd = random.Random(s['seed'])
    random.seed(s['seed'])
    lat = lib.Lattice(step=1.0 / 64)
    with lib.scratch() as d:
        m = model_of(s['init'], rnd)
        n = [sum(len(z['tris']) for z in m['zones'])]
        for v in s['vars']:
            m['vars'].append(v)
            for z in m['zones']:
                z['data'].append([rnd.choice([0, rnd.randrange(1, 1000)]) / 8.0 for _ in z['tris']])
        fn = os.path.join(d, s['file'])
        lib.write_dat(fn, m)
        dd = os.path.join(d, 'sub', 'cry') if s['seed'] % 2 else os.path.join(d, 'cry')
        if s['seed'] % 3 == 0:
            os.makedirs(dd)
        out = os.path.join(d, 'out.dat')
        argv = [fn, '-o', out] if s.get('dat') else [fn, '-c', dd]
        if s['json'] is not None:
            with open(os.path.join(d, 'p.json'), 'w') as f:
                json.dump(s['json'], f)
            argv += ['-j', os.path.join(d, 'p.json')]
        if s['strategy']:
            argv += ['-s', s['strategy']]
        res = lib.run_script('split.py', argv)
        if s['refuse']:
            return [dict(res, ev='refused', files=len(glob.glob(os.path.join(dd, '*.cry'))) + os.path.exists(out))]
        rf = (s['json'] or {}).get('recovery_factor', 1.0)
        if s.get('dat'):
            rec = dict(res, ev='dat', faces=file_faces(m, lat.code, rf), want=s['want'], title0=m['title'], others=len(os.listdir(dd)) if os.path.isdir(dd) else 0)
            if not res['exc']:
                try:
                    o = lib.parse_dat(out)
                    rec.update(out=file_faces(o, lat.code, rf), zones=[z['name'] for z in o['zones']], title=o['title'])
                except (lib.Malformed, ValueError, OSError) as e:
                    rec['exc'] = 'malformed: %s' % e
            return [rec]
        rec = dict(res, ev='cry', names=[], faces=file_faces(m, lat.code, rf), files=[], want=s['want'])
        if not res['exc']:
            try:
                rec['files'] = cry_set(dd, s['base'], s['ts'], '.cry', lat.code)
            except (lib.Malformed, ValueError) as e:
                rec['exc'] = 'malformed: %s' % e
        return [rec]


def plan_api(ctx):
    rnd = random.Random(ctx.seed * 3 + 5)
    scns = decomp.plan_histories(ctx, *((500, 300, 4, 2) if ctx.thorough else (60, 50, 3)))
    for s in scns:
        s['edits2'] = rnd.choice([0, 0, 3, 6])
        s['vars'] = rnd.choice([[], VARS[3:], rnd.sample(VARS[3:], 3) + ['Stall']])
        s['base'] = rnd.choice(['wing', 'a_b', 'grid_v2', 'm'])
        s['ts'] = rnd.choice(['000000000000', '000010000000', '123456789012'])
        s['sf'] = rnd.choice(['.cry', '.cry', '.txt'])
    return scns


def plan_split(ctx):
    rnd = random.Random(ctx.seed * 5 + 3)
    scns = []
    for i in range(1500 if ctx.thorough else 200):
        init = decomp.meshes(rnd, 0.04)
        zones = sorted({f['z'] for f in init})
        name, ts = rnd.choice([('wing', ''), ('wing', '000010000000'), ('a_b', '000000001000'), ('x_1', ''),
                               ('wing.v2', '000000001000'), ('v1.5', ''), ('a b', '999999999999'), ('w_000000000001', '000000000002')])
        js, st, fx, refuse = None, None, [], ''
        kind = rnd.choice(['n', 'n', 'h', 'none', 'json', 'json', 'bad'])
        js = {} if kind in ('json',) or rnd.random() < 0.4 else None
        if js is not None:
            if rnd.random() < 0.6:
                fx = rnd.sample(zones, rnd.randint(0, min(2, len(zones) - 1)))
                els = [{'zone': z, 'power': 1} for z in fx] + [{'zone': z, 'power': 2} for z in fx if rnd.random() < 0.3]
                rnd.shuffle(els)
                js['heating_system'] = {'elements': els}
            if rnd.random() < 0.6:
                js['recovery_factor'] = rnd.choice([0.5, 0.75, 0.875, 0.0])
        n, strat = 1, ''
        if kind in ('n', 'json'):
            n = rnd.randint(len(fx) + 1, len(fx) + 4)
            strat = 'n%d' % n
        elif kind == 'h':
            n = rnd.randint(0, 4)
            strat = 'h%d' % n
        elif kind == 'bad':
            refuse = rnd.choice(['strategy', 'zones', 'zero', 'ext', 'missing-zone'])
            strat = 'q4'
            if refuse == 'zero':
                strat = 'n0'
            elif refuse == 'zones':
                fx = zones[:1]
                js, strat = {'heating_system': {'elements': [{'zone': z} for z in zones]}}, 'n%d' % len(zones)
                if len(zones) == 1:
                    strat = 'n1'
            elif refuse == 'missing-zone':
                js, strat = {'heating_system': {'elements': [{'zone': 'nosuch'}]}}, 'n4'
            elif refuse == 'ext':
                strat = 'n2'
            elif refuse == 'strategy':
                js = None
        elif fx:        # the default strategy n1 with fixed zones is refused
            refuse = 'default-with-fixed'
        shape = 'h' if kind == 'h' else 'n'
        if not fx and strat in ('', 'n1', 'h0'):
            shape = 'mono'
        st = strat
        if js is not None and strat and rnd.random() < 0.6:
            js['split_strategy'] = strat
            st = ''
            if rnd.random() < 0.3:      # the command line wins
                js['split_strategy'] = 'n1'
                st = strat
        stem = name + ('_' + ts if ts else '')
        scns.append({'init': init, 'file': stem + ('.txt' if refuse == 'ext' else '.dat'), 'json': js, 'strategy': st,
                     'base': name, 'ts': ts or '000000000000', 'refuse': refuse,
                     'vars': rnd.choice([[], ['RecoveryFactor'], ['HTC', 'Beta', 'TauX'], VARS[3:]]),
                     'want': {'kind': shape, 'n': n, 'fx': fx}, 'dat': rnd.random() < 0.25, 'seed': rnd.randrange(1 << 30)})
    return scns


def stages(judge):
    cfg = 'SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\nCONSTANT Judge = "%s"\n' % judge
    return [{'name': 'store_mpi', 'module': 'TraceCry', 'plan': plan_api, 'chunks': 6, 'workers': 7, 'cfg': cfg},
            {'name': 'split', 'module': 'TraceCry', 'plan': plan_split, 'chunks': 3, 'workers': 7, 'cfg': cfg}]
