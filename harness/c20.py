"""C20: conversion of Lazurit grids (lazurit_to_crystal.py)."""
import os
import random

import lib
from c19 import MODEL


def plan_blocks(ctx):
    """All blocks up to a size."""
    ps = [x['inp'] for x in ctx.model('ConvertModel', MODEL % ('block', 7 if ctx.thorough else 5), workers=1)]
    return [{'sizes': [p], 'seed': ctx.seed + i} for i, p in enumerate(ps)]


def plan_random(ctx):
    rnd = random.Random(ctx.seed * 41 + 3)
    return [{'seed': rnd.randrange(1 << 30)} for _ in range(8000 if ctx.thorough else 250)]


def plan_refuse(ctx):
    rnd = random.Random(ctx.seed * 43 + 3)
    return [{'seed': rnd.randrange(1 << 30), 'refuse': k} for k in ('odd', 'mismatch', 'no dir', 'no grid', 'no solution', 'half', 'foreign') for _ in range({'foreign': 12, 'mismatch': 16}.get(k, 4))]


class Text:
    def __init__(self, rnd):
        self.rnd = rnd
        self.style = rnd.choice(['%r', '%.17g', '%.18E'])

    def lines(self, f, rows):
        """Each row of numbers broken over lines; rows may share lines."""
        k = self.rnd.choice([1, 3, 7, 1000])
        one = self.rnd.random() < 0.3
        if one:
            rows = [[x for r in rows for x in r]]
        for r in rows:
            for i in range(0, len(r), k):
                f.write('  ' + '  '.join(self.style % float(x) for x in r[i:i + k]) + '\n')


def execute(s):
    rnd = random.Random(s['seed'])
    step = 2.0 ** rnd.randint(-14, 6)
    sc = [2.0 ** rnd.randint(-40, 10) for _ in range(8)]
    nb = len(s['sizes']) if 'sizes' in s else rnd.randint(2, 4) if 'refuse' in s else rnd.randint(1, 5)
    nums = rnd.sample([1, 2, 3, 4, 9, 10, 11, 12, 20, 100], nb)
    # neighbouring blocks share points
    tall = rnd.randint(2, 6)
    off, blocks = 0, []
    stamp = rnd.choice(['T-15000_', 'T-1_', '', 'TB-5_', 'B_'])
    shape = [rnd.randrange(9) for _ in range(60)]
    for b in range(nb):
        n, m = s['sizes'][b] if 'sizes' in s else (rnd.randint(2, 6), tall if rnd.random() < 0.7 else rnd.randint(2, 6))
        up = b if rnd.random() < 0.3 or m != tall else 0
        pts = [[20 * (off + i), 20 * j + 400 * up, shape[(off + i) % 60]] for j in range(m) for i in range(n)]
        if rnd.random() < 0.5:      # another direction of i, other orientation
            pts = [pts[j * n + n - 1 - i] for j in range(m) for i in range(n)]
        off += n - 1
        cells = (n - 1) * (m - 1)
        blocks.append({'num': nums[b], 'name': 'B-%d' % nums[b], 'i': n, 'j': m, 'pts': pts,
                       'd': [[rnd.choice([0, rnd.randint(-10 ** 9, 10 ** 9)]) for _ in range(cells)] for _ in range(8)]})
    with lib.scratch() as tmp:
        d, of = os.path.join(tmp, 'in'), os.path.join(tmp, 'out.dat')
        os.mkdir(d)
        tx = Text(rnd)
        order = list(blocks)
        rnd.shuffle(order)
        for b in order:
            fn = '%sB-%d.TEC' % (stamp, b['num'])
            b['key'] = [ord(c) for c in fn]
            with open(os.path.join(d, 'TEC_WALL_Grid_' + fn), 'w') as f:
                f.write('FILETYPE = GRID\nVARIABLES = X Y Z\nZONE T="1_Block-%d_WALL_4_Isotermal_wall"\nI= %5d J= %5d K=     1\n' % (b['num'], b['i'], b['j']))
                f.write('ZONETYPE = Ordered, DATAPACKING = BLOCK\n STRANDID=      100004 SOLUTIONTIME=  15000.00000000\n')
                tx.lines(f, [[p[c] * step for p in b['pts']] for c in range(3)])
            with open(os.path.join(d, 'TEC_WALL_Solution_' + fn), 'w') as f:
                f.write('FILETYPE = SOLUTION\nVARIABLES = Tw Hw Hi HTC Beta TauX TauY TauZ\nZONE T="1_Block-%d_WALL_4_Isotermal_wall"\nI= %5d J= %5d K=     1\n' % (b['num'], b['i'], b['j']))
                f.write('ZONETYPE = Ordered, DATAPACKING = BLOCK, VARLOCATION=([1-8]=CELLCENTERED)\n STRANDID=      100004 SOLUTIONTIME=  15000.00000000\n')
                tx.lines(f, [[x * sc[v] for x in b['d'][v]] for v in range(8)])
        if rnd.random() < 0.3:      # other files stand by
            with open(os.path.join(d, 'readme.txt'), 'w') as f:
                f.write('nothing\n')
        tec = sorted(x for x in os.listdir(d) if x.endswith('.TEC'))
        g = [x for x in tec if 'Grid' in x]
        q = [x for x in tec if 'Solution' in x]
        k = s.get('refuse')
        if k == 'odd':
            os.remove(os.path.join(d, rnd.choice(tec)))
        elif k == 'mismatch':       # one solution belongs to another block
            x = os.path.join(d, rnd.choice(q))
            os.rename(x, x[:-4] + '7.TEC')
        elif k == 'half':           # a pair without its halves
            a, b = rnd.sample(range(nb), 2)
            os.remove(os.path.join(d, g[a]))
            os.remove(os.path.join(d, q[b]))
        elif k == 'foreign':        # files of another kind
            a, b, x = rnd.choice([('TEC_WALL_Grid_', 'TEC_AIRS_Grid_', g), ('TEC_WALL_Solution_', 'TEC_WALL_SolutioN_', q)])
            for y in x if rnd.random() < 0.5 else x[-1:]:
                os.rename(os.path.join(d, y), os.path.join(d, y.replace(a, b)))
        elif k == 'no dir':
            d = d + '_'
        elif k == 'no grid':
            for x in g:
                os.remove(os.path.join(d, x))
            if nb % 2:
                os.remove(os.path.join(d, q[0]))
        elif k == 'no solution':
            for x in q:
                os.remove(os.path.join(d, x))
            if nb % 2:
                os.remove(os.path.join(d, g[0]))
        keep = sorted((x, open(os.path.join(d, x)).read()) for x in os.listdir(d)) if os.path.isdir(d) else []
        if rnd.random() < 0.2:
            with open(of, 'w') as f:
                f.write('old\n')
        r = lib.run_script(os.path.join('convert', 'lazurit_to_crystal.py'), [d, of])
        if k:
            return [{'ev': 'refuse', 'exc': r['exc']}]
        rec = {'ev': 'lazurit', 'exc': r['exc'], 'm': {'blocks': blocks},
               'same': keep == sorted((x, open(os.path.join(d, x)).read()) for x in os.listdir(d))}
        if not r['exc']:
            try:
                rec['out'] = grid_of(of, step, sc)
            except (OSError, lib.Malformed) as e:
                rec['exc'] = 'output: %s' % e
    return [rec]


def grid_of(path, step, sc):
    m = lib.parse_dat(path)

    def ix(x, s):
        y = x / s
        return int(y) if y == y and abs(y) < 2e9 and y == int(y) else 1999999999
    zones = []
    for z in m['zones']:
        pts = [[ix(c, step) for c in p] for p in z['xyz']]
        zones.append({'name': z['name'], 'faces': [{'x': [pts[a] for a in t], 'd': [ix(z['data'][v][k], sc[v] if v < 8 else 1.0) for v in range(len(m['vars']))]}
                                                   for k, t in enumerate(z['tris'])]})
    return {'vars': m['vars'], 'zones': zones}


STAGES = [{'name': 'blocks', 'module': 'TraceConvert', 'plan': plan_blocks, 'chunks': 2},
          {'name': 'random', 'module': 'TraceConvert', 'plan': plan_random, 'chunks': 7},
          {'name': 'refuse', 'module': 'TraceConvert', 'plan': plan_refuse, 'chunks': 1}]
