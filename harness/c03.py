"""C03: malformed files are refused."""
import os
import random

import lib


CFG = 'SPECIFICATION Spec\nINVARIANTS BasesAccepted Decided Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxMut = %d Sim = %s\n'


def plan(ctx):
    rnd = random.Random(ctx.seed)
    one = ctx.model('FileMutants', CFG % (1, 'FALSE'))
    two = ctx.model('FileMutants', CFG % (4, 'TRUE'), args=('-simulate', 'num=%d' % (2500 if ctx.thorough else 120),
                                                            '-seed', str(ctx.seed), '-depth', '5'))
    rnd.shuffle(two)
    out, seen = [], set()
    for b in one + two[:8000 if ctx.thorough else 700]:
        k = str(b['lines'])
        if k not in seen:
            seen.add(k)
            for _ in range(8 if any(x['k'][:3] == 'bad' or x['k'] == 'junk' for x in b['lines']) and len(seen) <= len(one) else 1):   # many ways to be bad
                out.append({'lines': b['lines'], 'seed': rnd.randrange(1 << 30)})
    return out


def render(lines, rnd):
    """Text of an abstract file; the numbers of all rows are distinct."""
    out, c, zn = [], 0, 0
    for x in lines:
        k, n = x['k'], x['n']
        if k == 'comment':
            t = '# comment'
        elif k == 'title':
            t = 'TITLE="mesh"'
        elif k == 'vars':
            t = 'VARIABLES=' + ', '.join('"%s"' % v for v in (['X', 'Y', 'Z', 'T', 'Hw', 'Hi', 'Beta'] + ['V%d' % i for i in range(9)])[:n])
        elif k == 'zone':
            zn += 1
            t = 'ZONE T="zone %d"' % zn
        elif k == 'nodes':
            t = 'NODES=%d' % n
        elif k == 'elems':
            t = 'ELEMENTS=%d' % n
        elif k == 'pack':
            t = 'DATAPACKING=BLOCK'
        elif k == 'badpack':
            t = rnd.choice(['DATAPACKING=POINT', 'DATAPACKING=', 'PACKING=BLOCK', 'DATAPACKING=BLOCKED', 'DATAPACKING=BLOC', 'NODATAPACKING=BLOCK', 'DATAPACKING:BLOCK', 'DATAPACKING=POINT=BLOCK'])
        elif k == 'ztype':
            t = 'ZONETYPE=FETRIANGLE'
        elif k == 'badztype':
            t = rnd.choice(['ZONETYPE=FEQUADRILATERAL', 'ZONETYPE=ORDERED', 'ZONETYPE=FETRI', 'ZONETYPE=FETRIANGLES', 'ZONETYPE=FEBRICK', 'ZONETYPE=FELINESEG', 'ZONETYPE=', 'TYPE=FETRIANGLE'])
        elif k == 'varloc':
            t = 'VARLOCATION=([4-%d]=CELLCENTERED)' % n
        elif k == 'row':
            v = []
            for _ in range(n):
                c += 1
                v.append('%.3f' % (c * 1.5))
            t = ' '.join(v)
        elif k == 'conn':
            t = ' '.join(str(i) for i in x['ids'])
        elif k in ('badnodes', 'badelems'):
            w = 'NODES' if k == 'badnodes' else 'ELEMENTS'
            t = rnd.choice(['%s %d', '%s=%dx', '%s=%d.5', '%s=two%d', '%s:%d', '%s=%d %d', 'N%s==x%d'][:5]) % (w, n)
        elif k == 'badvarloc':
            t = rnd.choice(['VARLOCATION=([4-%d]=NODAL)', 'VARLOCATION=([3-%d]=CELLCENTERED)', 'VARLOCATION=([1-%d]=CELLCENTERED)', 'VARLOCATION=([4-%d1]=CELLCENTERED)',
                            'VARLOCATION=([4-%d]=CELL)', 'VARLOCATION=([4-1%d]=CELLCENTERED)', 'VARLOCATION=([14-%d]=CELLCENTERED)', 'LOCATION=([4-%d]=CELLCENTERED)', 'VARLOCATION=([4,%d]=CELLCENTERED)']) % n
        elif k == 'badrow':
            v = ['1.%d' % (7 * c + q) for q in range(max(n, 1))]
            v[rnd.randrange(len(v))] = rnd.choice(['x', '1.2.3', '--1', '1,5', '0x1f', '12e'])
            t = ' '.join(v)
        elif k == 'badconn':
            v = ['1', '2', '3']
            v[n - 1] = rnd.choice(['x', '1.0', '2.5', '1e0'])
            t = ' '.join(v)
        elif k == 'junk':
            t = rnd.choice(['garbage here', 'ZONETIPE=1', '1.0 x 2.0', 'nodes 4', 'ZONE', 'TITLE', 'VARIABLES', '-'])
        else:
            raise ValueError(k)
        out.append(t)
    return '\n'.join(out) + '\n'


def execute(s):
    import gsu
    rnd = random.Random(s['seed'])
    with lib.scratch() as d:
        fn = os.path.join(d, 'a.dat')
        with open(fn, 'w') as f:
            f.write(render(s['lines'], rnd))
        g = gsu.Grid()
        o, _ = lib.call(g.load, fn)
    return [dict(o, ev='file', lines=s['lines'])]


STAGES = [{'name': 'mutants', 'module': 'TraceFiles', 'plan': plan, 'chunks': 4, 'workers': 7}]
