"""C19: conversion of ANSYS grids (ansys_to_crystal.py)."""
import os
import random

import lib

MODEL = 'SPECIFICATION Spec\nINVARIANTS QuadGood BlockGood AnsysGood Emitted\nCHECK_DEADLOCK FALSE\nCONSTANTS Kind = "%s"\n Max = %d\n Emit = TRUE\n'
FENSAP = ['Static temperature', 'SF1', 'SF2', 'SF3', 'Classical heat flux']
NAMES = ['wall', 'wall 2', 'wall2', 'the wall', 'Wall', 'inlet_7', 'farfield-N4', 'wing.upper', 'w', '12']


def plan_quads(ctx):
    """All quads over four nodes, in both directions."""
    ps = [x['inp'] for x in ctx.model('ConvertModel', MODEL % ('quad', 2), workers=1)]
    return [{'quads': ps[i:i + 12], 'reversed': rv, 'seed': ctx.seed + i} for i in range(0, len(ps), 12) for rv in (0, 1)]


def plan_files(ctx):
    """Choices of zones and columns from the model of the stages."""
    rnd = random.Random(ctx.seed * 29 + 1)
    seen = {}
    for x in ctx.model('ConvertModel', MODEL % ('ansys', 2), workers=4):
        if set(x['inp']['zones']) & {'a', 'b'}:     # at least one zone is present
            seen[str(x['inp'])] = x['inp']
    ps = [seen[k] for k in sorted(seen)]
    if not ctx.thorough:
        ps = rnd.sample(ps, 120)
    return [{'inp': p, 'seed': rnd.randrange(1 << 30)} for p in ps]


def plan_random(ctx):
    rnd = random.Random(ctx.seed * 31 + 5)
    return [{'seed': rnd.randrange(1 << 30)} for _ in range(8000 if ctx.thorough else 250)]


def plan_refuse(ctx):
    rnd = random.Random(ctx.seed * 37 + 2)
    return [{'seed': rnd.randrange(1 << 30), 'missing': k} for k in ('fensap', 'drop3d', 'adiabatic') for _ in range(3)]


def own_quad(rnd, k):
    """Four nodes apart from those of other quads."""
    while True:
        ps = [[16 * k + rnd.randrange(12), rnd.randrange(12), rnd.randrange(12)] for _ in range(4)]
        if len(set(map(tuple, ps))) == 4:
            return ps


def sheet(rnd, z):
    """Nodes and quads of a structured sheet, some quads collapsed to triangles."""
    n, m = rnd.randint(1, 4), rnd.randint(1, 3)
    nodes = [[20 * i, 20 * j, 40 * z + rnd.randrange(9)] for j in range(m + 1) for i in range(n + 1)]
    quads = []
    for j in range(m):
        for i in range(n):
            a = j * (n + 1) + i + 1
            q = [a, a + 1, a + n + 2, a + n + 1]
            r = rnd.randrange(4)
            q = q[r:] + q[:r]
            if rnd.random() < 0.2:
                k = rnd.randrange(4)
                q[k] = q[(k + 1) % 4]
            if rnd.random() < 0.9 or not quads:
                quads.append(q)
    perm = list(range(len(nodes)))
    rnd.shuffle(perm)
    pos = [0] * len(nodes)
    for i, p in enumerate(perm):
        pos[p] = i
    return [nodes[p] for p in perm], [[pos[a - 1] + 1 for a in q] for q in quads]


def values(rnd, xyz, opt):
    a = opt['tair'] + rnd.randint(-20, 60) * opt['v'] * opt['v']
    e = rnd.choice([-1, 1]) * rnd.randint(1, 9)
    return {'x': xyz, 'a': a, 'ts': a + e, 'flux': rnd.choice([0, rnd.randint(-99999, 99999)]) * e,
            'beta': rnd.choice([0, rnd.randint(-10 ** 6, 10 ** 6)]), 'tau': [rnd.choice([0, rnd.randint(-10 ** 8, 10 ** 8)]) for _ in range(3)]}


class Text:
    def __init__(self, rnd):
        self.rnd = rnd
        self.sp = rnd.choice([' ', '  ', '\t'])
        self.lead = rnd.choice(['', ' '])
        self.style = rnd.choice(['%r', '%.17g', '%.18E'])
        self.tail = rnd.choice(['', '', ', SOLUTIONTIME=10.5', ', C=CUST2 STRANDID=1'])
        self.pre = rnd.choice(['', '', 'Wall ', 'EID-'])      # names of columns are looked for inside of those of the file
        self.quote = rnd.choice([',', ', ', ' , '])

    def row(self, xs):
        return self.lead + self.sp.join(x if isinstance(x, str) else self.style % float(x) for x in xs) + '\n'

    def vars(self, names):
        return 'VARIABLES%s%s\n' % (self.rnd.choice(['=', ' = ', ' =']), self.quote.join('"%s"' % n for n in names))


def write(path, rnd, tx, zones, cols, extra):
    """cols: (name, value of a node); extra: number of columns (after the first) before which a foreign column stands."""
    cols = list(cols)
    for k in sorted(extra, reverse=True):
        cols.insert(k, (rnd.choice(['Density (kg/m^3)', 'Mach number', 'V1-velocity', 'XX', 'Yplus', 'Droplet LWC', 'Total temperature']), lambda nd: 77.5))
    with open(path, 'w') as f:
        f.write('TITLE = "%s"\n' % rnd.choice(['fensap solution', 'a']))
        f.write(tx.vars([c[0] for c in cols]))
        for z in zones:
            nn = len(z['nodes']) if 'nodes' in z else 2
            if 'nodes' not in z:        # a zone of other elements
                f.write('ZONE T="%s", N=%d, E=1, F=FEPOINT, ET=BRICK\n' % (z['name'], nn))
                f.write(tx.row([1.5] * len(cols)) * nn + '1 2 2 2 1 1 2 2\n')
                continue
            f.write('ZONE T="%s", %s, F=FEPOINT, ET=QUADRILATERAL%s\n'
                    % (z['name'], rnd.choice(['N=%d, E=%d', 'N= %d, E= %d', 'N=%d,E=%d']) % (nn, len(z['quads'])), tx.tail))
            for nd in z['nodes']:
                f.write(tx.row([c[1](nd) for c in cols]))
            for q in z['quads']:
                f.write(' '.join(map(str, q)) + '\n')


def grid_of(path, step, sc):
    """The written grid in integers (values three times)."""
    m = lib.parse_dat(path)

    def i3(x, s):
        y = 3.0 * x / s
        if y != y or abs(y) > 2e9:
            return 1999999999
        k = round(y)
        return k if abs(y - k) <= 1e-9 * abs(k) + 1e-6 else 1999999999

    def ix(x):
        y = x / step
        return int(y) if y == y and abs(y) < 2e9 and y == int(y) else 1999999999
    zones = []
    for z in m['zones']:
        pts = [[ix(c) for c in p] for p in z['xyz']]
        zones.append({'name': z['name'], 'faces': [{'x': [pts[a] for a in t],
                                                    'd': [i3(z['data'][v][k], sc[n]) if n in sc else 1999999999 for v, n in enumerate(m['vars'])]}
                                                   for k, t in enumerate(z['tris'])]})
    return {'vars': m['vars'], 'zones': zones}


def execute(s):
    rnd = random.Random(s['seed'])
    opt = {'tair': rnd.randint(200, 300), 'cp': rnd.randint(1, 9), 'v': rnd.choice([1, 2, 3, 5, 10]), 'reversed': rnd.random() < 0.5}
    extra = {f: [rnd.randint(0, n) for _ in range(rnd.randint(0, 3))] for f, n in (('fensap', 8), ('drop3d', 4), ('adiabatic', 4))}
    names = rnd.sample(NAMES, rnd.randint(1, 5))
    if 'quads' in s:
        opt['reversed'] = bool(s['reversed'])
        nodes, quads = [], []
        for k, q in enumerate(s['quads']):
            quads.append([4 * k + a for a in q])
            nodes += own_quad(rnd, k)
        names = names[:1]
        zs = [{'name': names[0], 'xyz': nodes, 'quads': quads}]
        want = names
    elif 'inp' in s:
        p = s['inp']
        names = (names + rnd.sample([n for n in NAMES if n not in names], 3))[:3]
        opt['reversed'] = p['reversed']
        # position in the file: the other columns stand after the first column at the earliest in the model
        extra = {f: ([min(k, {'fensap': 8}.get(f, 4))] if k else []) for f, k in p['extra'].items()}
        zs = [dict(zip(('xyz', 'quads'), sheet(rnd, i)), name=names[i]) for i in range(2)]
        want = [names['abc'.index(n)] for n in p['zones']]
    else:
        zs = [dict(zip(('xyz', 'quads'), sheet(rnd, i)), name=n) for i, n in enumerate(names)]
        want = rnd.sample(names, rnd.randint(1, len(names)))
    rnd.shuffle(want)
    opt['zones'] = want
    for z in zs:
        z['nodes'] = [values(rnd, p, opt) for p in z.pop('xyz')]
    step, sT, sF, sB, sA = [2.0 ** rnd.randint(a, b) for a, b in ((-14, 6), (-3, 3), (-30, 10), (-40, 3), (-40, 10))]
    sc = {'HTC': sF / sT, 'Beta': sB, 'TauX': sA, 'TauY': sA, 'TauZ': sA, 'RecoveryFactor': sT}
    allz = list(zs)
    if 'quads' not in s and rnd.random() < 0.3:
        allz.insert(rnd.randint(0, len(zs)), {'name': 'volume'})
    # Fortran writes numbers of great orders without the letter; they are taken for zero
    tiny = '1.25-113' if rnd.random() < 0.2 and 'quads' not in s else None
    xyz = [(n, lambda nd, i=i: tiny if tiny and nd['x'][i] == 0 else nd['x'][i] * step) for i, n in enumerate('XYZ')]
    temp = rnd.choice(['Static temperature', 'Static temperature (K)'])
    beta = rnd.choice(['Collection efficiency-Droplet', 'Collection efficiency-Droplet (1)'])
    with lib.scratch() as tmp:
        base = os.path.join(tmp, rnd.choice(['case', 'a.b', 'run_1']))
        tx = Text(rnd)
        write(base + '.fensap.dat', rnd, tx, allz,
              xyz + [(tx.pre + temp, lambda nd: nd['ts'] * sT)]
              + [(tx.pre + rnd.choice(['SF%d', 'SF%d-Shear stress (Pa)']) % (i + 1), lambda nd, i=i: nd['tau'][i] * sA) for i in range(3)]
              + [(tx.pre + 'Classical heat flux (W/m^2)', lambda nd: nd['flux'] * sF)], extra['fensap'])
        write(base + '.drop3d.dat', rnd, tx, allz, xyz + [(tx.pre + beta, lambda nd: nd['beta'] * sB)], extra['drop3d'])
        write(base + '.adiabatic.dat', rnd, tx, allz, xyz + [(tx.pre + temp, lambda nd: nd['a'] * sT)], extra['adiabatic'])
        files = ['%s.%s.dat' % (base, k) for k in ('fensap', 'drop3d', 'adiabatic')]
        if 'missing' in s:
            os.remove('%s.%s.dat' % (base, s['missing']))
        keep = [open(f).read() if os.path.exists(f) else '' for f in files]
        argv = [base, ','.join(want), '-t', opt['tair'] * sT, '-v', opt['v'], '-cp', opt['cp']]
        if not opt['reversed']:
            argv += ['-n', 'origin']
        elif rnd.random() < 0.5:
            argv += ['-n', 'reversed']
        if rnd.random() < 0.2:      # an older result is replaced
            with open(base + '.dat', 'w') as f:
                f.write('VARIABLES="X", "Y", "Z"\n')
        r = lib.run_script(os.path.join('convert', 'ansys_to_crystal.py'), argv)
        if 'missing' in s:
            return [{'ev': 'refuse', 'exc': r['exc']}]
        rec = {'ev': 'ansys', 'exc': r['exc'], 'm': {'zones': zs, 'opt': opt},
               'same': keep == [open(f).read() if os.path.exists(f) else '' for f in files]}
        if not r['exc']:
            try:
                rec['out'] = grid_of(base + '.dat', step, sc)
            except (OSError, lib.Malformed) as e:
                rec['exc'] = 'output: %s' % e
    return [rec]


STAGES = [{'name': 'quads', 'module': 'TraceConvert', 'plan': plan_quads, 'chunks': 4},
          {'name': 'files', 'module': 'TraceConvert', 'plan': plan_files, 'chunks': 7},
          {'name': 'random', 'module': 'TraceConvert', 'plan': plan_random, 'chunks': 7},
          {'name': 'refuse', 'module': 'TraceConvert', 'plan': plan_refuse, 'chunks': 1}]
