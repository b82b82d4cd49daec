"""C32: requests to the tools: what is written, what is refused, what is left alone."""
import hashlib
import json
import os
import random
import re

import c19
import lib

MODEL = 'SPECIFICATION Spec\nINVARIANTS OnlyMade Latest NotHurt Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxLen = %d\n Small = %s\n Emitting = TRUE\n'


def plan_single(ctx):
    rs = [h[0] for h in ctx.model('ToolsModel', MODEL % (1, 'FALSE'), workers=1)]
    rnd = random.Random(ctx.seed * 53 + 7)
    if not ctx.thorough:
        other = [r for r in rs if r['tool'] != 'split']
        split = [r for r in rs if r['tool'] == 'split']
        # the right ones and those with one defect first
        rank = lambda r: sum([r['grid'] not in ('wing', 'plain'), r['j'] in ('missing', 'broken', 'foreign'), r['out'] in ('none', 'both'),
                              r['s'] in ('n0', 'n-2', 'h-1', 'x2', 'n', 'nx')])
        rs = other + [r for r in split if rank(r) == 0] + rnd.sample([r for r in split if rank(r) == 1], 300) + rnd.sample([r for r in split if rank(r) > 1], 60)
    rnd.shuffle(rs)
    # worlds are dear: several requests in one of them, each of them judged on its own
    return [{'seed': rnd.randrange(1 << 30), 'rs': rs[i:i + 8]} for i in range(0, len(rs), 8)]


def plan_history(ctx):
    hs = ctx.model('ToolsModel', MODEL % (6, 'TRUE'), args=('-simulate', 'num=%d' % (600 if ctx.thorough else 70), '-seed', str(ctx.seed), '-depth', '8'))
    hs = list({repr(h[:-1]): h for h in hs}.values())
    rnd = random.Random(ctx.seed * 59 + 1)
    return [{'seed': rnd.randrange(1 << 30), 'rs': h} for h in hs]


def world(d, rnd):
    """The files all requests are about."""
    def put(p, text):
        p = os.path.join(d, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', newline='\n') as f:
            f.write(text)

    def grid(p, model):
        p = os.path.join(d, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        lib.write_dat(p, model)
    # a sheet of 24 faces without equal coordinates, three zones
    nx, ny = 4, 3
    pts = [[i + rnd.random() * 0.2, j + rnd.random() * 0.2, rnd.random()] for j in range(ny + 1) for i in range(nx + 1)]
    tris = []
    for j in range(ny):
        for i in range(nx):
            a = j * (nx + 1) + i
            tris += [(a, a + 1, a + nx + 2), (a, a + nx + 2, a + nx + 1)]

    def model(variables, value):
        zones = []
        for k, n in enumerate('abc'):
            ts = tris[8 * k:8 * k + 8]
            own = sorted({x for t in ts for x in t})
            zones.append({'name': n, 'xyz': [pts[x] for x in own], 'data': [[value(v) for _ in ts] for v in variables], 'tris': [[own.index(x) for x in t] for t in ts]})
        return {'title': 'world', 'vars': variables, 'zones': zones}
    air = {'Stall': 0.0, 'StallD': 1e-4, 'StallVX': 1.0, 'StallVY': 0.0, 'StallVZ': 0.0}
    m = model(['T', 'Hw', 'Hi', 'HTC', 'Beta'] + list(air), lambda v: air.get(v, rnd.random()))
    m['zones'][1]['data'][5][3] = 1.0      # one wet face
    grid('g/wing_000000000005.dat', m)
    grid('g/plain.dat', model(['T', 'Hw', 'Hi', 'Beta'], lambda v: rnd.random()))
    text = open(os.path.join(d, 'g/plain.dat')).read()
    for p in TXT:
        put(p, text)
    put('l/own.dat', text)
    bad = text.split('\n')
    k = rnd.randrange(5)
    if k == 0:
        bad[4] = 'NODES=' + str(int(bad[4].split('=')[1]) + 1)
    elif k == 1:
        bad[10] = bad[10].rsplit(None, 1)[0]
    elif k == 2:
        bad[-3] = '1 2'
    elif k == 3:
        bad[6] = 'DATAPACKING=POINT'
    else:
        bad[11] = bad[11].replace('.', 'x', 1)
    bad = '\n'.join(bad)
    put('g/bad.dat', bad)
    lib.parse_dat(os.path.join(d, 'g/plain.dat'))
    # results
    head = 'VARIABLES="GloId", "T", "Hw", "Hi"\n'
    for s in ('two', 'csv', 'csvs', 'stranger', 'word'):
        for ts in ('10', '20'):
            for p in range(2):
                rows = ['%d 1.5 2.5 0.5' % g for g in range(p, 24, 2)]
                if ts == '20' and p == 1 and s == 'stranger':
                    rows.insert(rnd.randrange(len(rows)), '%d 1 1 1' % rnd.choice([24, 99]))
                if ts == '20' and p == 0 and s == 'word':
                    rows[rnd.randrange(len(rows))] = rnd.choice(['x 1 1 1', '3 a 1 1', '5 1 1 1,5'])
                put('r/%s/wing_%05d_0000000000%s.txt' % (s, p, ts), head + '\n'.join(rows) + '\n')
        for k in range({'csv': 1, 'csvs': 2}.get(s, 0)):
            put('r/%s/m%d.csv' % (s, k), 'time;' + ';'.join('abcdefghi') + '\n' + ''.join('%d;' % t + ';'.join(['1'] * 9) + '\n' for t in range(1, 4)))
        put('r/%s/note.md' % s, 'nothing\n')
    os.makedirs(os.path.join(d, 'r/none'))
    # ice of one millimetre on a flat plate
    flat = model(['T', 'Hw', 'Hi'], lambda v: 0.01 if v == 'Hi' else 1.0)
    for z in flat['zones']:
        z['xyz'] = [[p[0], p[1], 0.0] for p in z['xyz']]
    for p in ('m/ice_r_000000000010.dat', 'md/ice_r_000000000010.dat', 'mx/ice_r_000000000010.dat'):
        grid(p, flat)
    grid('md/second_r_r_.dat', flat)
    os.rename(os.path.join(d, 'md/second_r_r_.dat'), os.path.join(d, 'md/second_r.dat'))
    put('md/readme.txt', 'no grid\n')
    put('md/' + rnd.choice(['old.dat.bak', 'old.data', 'olddat', 'old.dat~']), text)
    put('mx/zzz.dat', bad)
    os.makedirs(os.path.join(d, 'me'))
    put('me/a.dat.txt', text)
    put('me/note.txt', 'no grid\n')
    steps = {'remesh_nsteps_min': 2, 'remesh_nsteps_max': 2}
    for n, j in (('plain', {}), ('strat3', {'split_strategy': 'n3'}), ('fix1', {'heating_system': {'elements': [{'zone': 'b'}, {'zone': 'b'}]}}),
                 ('fix2', {'heating_system': {'elements': [{'zone': 'c'}, {'zone': 'a'}]}, 'recovery_factor': 0.9}),
                 ('foreign', {'heating_system': {'elements': [{'zone': 'a'}, {'zone': 'zz'}]}}),
                 ('two', steps), ('loud', dict(steps, remesh_verbose=True)), ('steps', {'remesh_nsteps_min': 5, 'remesh_nsteps_max': 2})):
        put('j/%s.json' % n, json.dumps(j))
    put('j/broken.json', '{"split_strategy": "n2", ')
    # air
    put('w/air.dat', 'TITLE= "air"\nVARIABLES= "X"\nZONE ET=FEBRICK a a a N= 2 E = 0\n0 0 0 1 1 5 0 0\n9 9 9 1 1 5 0 0\n')
    put('w/bad.dat', 'TITLE= "air"\nVARIABLES= "X"\nZONE ET=FEBRICK a a a N= 2 E = 0\n0 0 0 1 1 5 0 0\n9 9 word 1 1 5 0 0\n')
    put('w/none.dat', 'TITLE= "air"\nVARIABLES= "X"\n')
    # pairs of blocks
    for s in ('pairs', 'odd', 'mismatch'):
        for b in (1, 2):
            put('z/%s/TEC_WALL_Grid_T-1_B-%d.TEC' % (s, b), 'FILETYPE = GRID\nVARIABLES = X Y Z\nZONE T="1"\nI= 2 J= 2 K= 1\nZONETYPE = Ordered\n S\n'
                + '0 1 0 1\n0 0 1 1\n%d %d %d %d\n' % (b, b, b, b))
            put('z/%s/TEC_WALL_Solution_T-1_B-%d.TEC' % (s, b), 'FILETYPE = SOLUTION\nVARIABLES = T\nZONE T="1"\nI= 2 J= 2 K= 1\nZONETYPE = Ordered\n S\n' + '1.5\n' * 8)
    os.remove(os.path.join(d, 'z/odd/TEC_WALL_Solution_T-1_B-2.TEC'))
    os.rename(os.path.join(d, 'z/mismatch/TEC_WALL_Solution_T-1_B-2.TEC'), os.path.join(d, 'z/mismatch/TEC_WALL_Solution_T-1_B-3.TEC'))
    # ansys
    zs = [dict(zip(('xyz', 'quads'), c19.sheet(rnd, 0)), name='wall')]
    opt = {'tair': 260, 'cp': 2, 'v': 5}
    for z in zs:
        z['nodes'] = [c19.values(rnd, p, opt) for p in z.pop('xyz')]
    xyz = [(n, lambda nd, i=i: nd['x'][i]) for i, n in enumerate('XYZ')]
    tx = c19.Text(rnd)
    os.makedirs(os.path.join(d, 'a'))
    for base in ('case', 'fensap', 'drop3d', 'adiabatic'):
        for kind, cols in (('fensap', [('Static temperature', lambda nd: nd['ts'])] + [('SF%d' % (i + 1), lambda nd, i=i: nd['tau'][i]) for i in range(3)] + [('Classical heat flux (W/m^2)', lambda nd: nd['flux'])]),
                           ('drop3d', [('Collection efficiency-Droplet', lambda nd: nd['beta'])]), ('adiabatic', [('Static temperature', lambda nd: nd['a'])])):
            if kind != base:
                c19.write(os.path.join(d, 'a', '%s.%s.dat' % (base, kind)), rnd, tx, zs, xyz + cols, [])
    # older results
    put('o/keep.txt', 'older\n')
    put('o/wing_00007_000000000005.cry', 'older\n')
    put('o/other_r_000000000010.dat', 'older\n')
    if rnd.random() < 0.5:
        for p in ('o/split.dat', 'o/drops.dat', 'o/report.txt', 'o/wing_00000_000000000005.cry', 'o/i.dat', 'wing.csv', 'o/ice_000000000010.dat'):
            put(p, 'older\n')


TXT = ['g/wing.txt', 'g/wing.dat.txt', 'g/wing.data', 'g/wingdat']
GRID = {'wing': 'g/wing_000000000005.dat', 'plain': 'g/plain.dat', 'missing': 'g/nothing.dat', 'bad': 'g/bad.dat', 'txt': 'g/wing.txt', 'own': 'l/own.dat'}


def request(r, rnd):
    """Script, arguments, working directory."""
    t = r['tool']
    GRID['txt'] = rnd.choice(TXT)
    j = ['-j', 'j/%s.json' % r['j']] if r.get('j') else []
    if t == 'split':
        out = {'old': ['-c', 'o'], 'new': ['-c', 'n/a'], 'file': ['-o', 'o/split.dat'], 'none': [], 'both': ['-c', 'o', '-o', 'o/split.dat']}[r['out']]
        return 'split.py', [GRID[r['grid']]] + out + j + (['--strategy=' + r['s']] if r['s'] else []), '.'
    if t == 'merge':
        return 'merge.py', [GRID[r['grid']], 'r/' + r['src'], {'old': 'o', 'new': 'n/a'}[r['dst']]], '.'
    if t == 'remesh':
        src = {'grid': ['-g', 'm/ice_r_000000000010.dat'], 'here': ['-g', 'ice_r_000000000010.dat'], 'missing': ['-g', 'm/none_r_1.dat'], 'bad': ['-g', 'g/bad.dat'],
               'txt': ['-g', GRID['txt']], 'dir': ['-d', 'md'], 'dir bad': ['-d', 'mx'], 'dir none': ['-d', 'me'], 'no dir': ['-d', 'mq'], 'nothing': [],
               'both': ['-g', 'm/ice_r_000000000010.dat', '-d', 'md']}[r['src']]
        here = r['src'] == 'here'
        up = '../' if here else ''
        out = {'old': ['-o', up + 'o'], 'new': ['-o', up + 'n/a'], '': []}[r['out']]
        return 'remesh.py', src + (['-j', up + j[1]] if j else []) + out + ['-v'] * r['v'], 'm' if here else '.'
    if t == 'drops':
        return 'drops.py', [GRID[r['grid']], 'w/%s.dat' % r['air'], 'o/drops.dat', '-m', '5'], '.'
    if t == 'interpolate':
        return 'convert/interpolate.py', [GRID[r['src']], GRID[r['dst']]] + {'': [], 'dat': ['-res', 'o/i.dat'], 'txt': ['-res', rnd.choice(['o/i.txt', 'o/i.dat.txt', 'o/i.data', 'o/i.dat~'])]}[r['res']], '.'
    if t == 'beta':
        return 'convert/lazurit_add_beta_from_ansys.py', [GRID[r['lazurit']], GRID[r['ansys']], 'l/own.dat' if r['out'] == 'own' else 'o/beta.dat'], '.'
    if t == 'lazurit':
        return 'convert/lazurit_to_crystal.py', ['z/' + r['dir'], 'o/laz.dat'], '.'
    return 'convert/ansys_to_crystal.py', ['a/' + r['base'], 'wall', '-t', '260', '-v', '5', '-cp', '2'], '.'


def smooth(r, d):
    """Null-space smoothing with its intermediate files; the last of them is the grid."""
    import gsu
    import smoothing
    g = gsu.Grid()
    g.load(os.path.join(d, GRID['plain']))
    here = os.getcwd()
    os.chdir(d)
    try:
        o, _ = lib.call(lambda: smoothing.NullSpaceSmoothing(g, num_iterations=r['n'], print_intermediate_steps=bool(r['f'])).smoothing())
        if not o['exc'] and r['f'] and r['n']:
            last = 'NullSpace_smoothing_%03d.dat' % (r['n'] - 1)
            with lib.scratch() as t:
                g.store(os.path.join(t, 'x.dat'))
                if not os.path.exists(last) or open(last).read() != open(os.path.join(t, 'x.dat')).read():
                    o = {'exc': 'the last file is not the grid'}
    finally:
        os.chdir(here)
    return o


OLD = 1500000000


def look(d):
    res = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            res[os.path.relpath(p, d)] = (hashlib.md5(open(p, 'rb').read()).hexdigest(), int(os.stat(p).st_mtime))
    return res


def execute(s):
    rnd = random.Random(s['seed'])
    recs = []
    with lib.scratch() as d:
        world(d, rnd)
        for r in s['rs']:
            for b, _, fs in os.walk(d):
                for f in fs:
                    os.utime(os.path.join(b, f), (OLD, OLD))
            before = look(d)
            err = os.dup(2)
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            try:
                if r['tool'] == 'smooth':
                    o = smooth(r, d)
                else:
                    script, argv, cwd = request(r, rnd)
                    if rnd.random() < 0.5:
                        argv = [os.path.join(d, x[3:] if x.startswith('../') else x) if re.match(r'(\.\./)?(g|l|o|n|r|j|m|md|mx|me|mq|w|z|a)(/|$)', x) else x for x in argv]
                    o = lib.run_script(script, argv, os.path.join(d, cwd))
            finally:
                os.dup2(err, 2)
                os.close(err)
            after = look(d)
            recs.append({'ev': 'request', 'r': r, 'exc': o['exc'], 'touched': sorted(p for p in after if before.get(p) != after[p]), 'gone': sorted(p for p in before if p not in after)})
    return recs


STAGES = [{'name': 'single', 'module': 'TraceTools', 'plan': plan_single, 'chunks': 7, 'workers': 7},
          {'name': 'history', 'module': 'TraceTools', 'plan': plan_history, 'chunks': 7, 'workers': 7}]
