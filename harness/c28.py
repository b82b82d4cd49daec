"""C28: the grid object of the converters (gsu_converter.Grid): reading, editing of nodes, writing."""
import contextlib
import io
import os
import random
import re

import lib

MODEL = ('SPECIFICATION Spec\nINVARIANTS Whole FileMeans RestoreNumbers DropClean SewingWorks Emit\nPROPERTY TrianglesKept\nVIEW View\n'
         'CHECK_DEADLOCK FALSE\nCONSTANTS\n MaxLen = %d\n Emitting = TRUE\n')
NAMES = ['wing', 'the wing', 'wing-2', 'N4', 'w', 'crown 12', 'e', 'tail.upper', 'T']


def plan_model(ctx):
    """Histories of the model, each with the export at the end."""
    hs = ctx.model('SewModel', MODEL % (5 if ctx.thorough else 4), workers=1, timeout=800)
    rnd = random.Random(ctx.seed * 31 + 11)
    hs = rnd.sample(hs, min(len(hs), 12000 if ctx.thorough else 1000))
    return [{'seed': rnd.randrange(1 << 30), 'ops': h + [{'op': 'info'}, {'op': 'export'}]} for h in hs]


def plan_random(ctx):
    rnd = random.Random(ctx.seed * 37 + 1)
    return [{'seed': rnd.randrange(1 << 30), 'n': rnd.randint(3, 22)} for _ in range(6000 if ctx.thorough else 400)]


def file_of(rnd, quads):
    """A random file: corners of several faces can be different points at one place."""
    zones = []
    for _ in range(rnd.randint(1, 3)):
        n = rnd.randint(4, 9)
        places = [rnd.randrange(1, 60) for _ in range(max(3, n - rnd.randint(0, 3)))]
        pts = [rnd.choice(places) for _ in range(n)]
        fs = [rnd.sample(range(1, n + 1), 4 if quads else 3) for _ in range(rnd.randint(1, 6))]
        z = {'t': rnd.choice(NAMES), 'pts': pts}
        if quads:
            for f in fs:
                if rnd.random() < 0.4:
                    i, j = rnd.sample(range(4), 2)
                    f[i] = f[j]
            z['quads'] = fs
            z['vals'] = [[3 * rnd.randint(-300, 300) for _ in range(6)] for _ in pts]
        else:
            z['links'] = fs
            z['rows'] = [[rnd.randint(-999, 999) for _ in range(8)] for _ in fs]
        zones.append(z)
    return zones


def execute(s):
    import gsu_converter as gc
    rnd = random.Random(s['seed'])
    unit = 2.0 ** rnd.randint(-20, 6)
    fmt = rnd.choice([repr, '{:.18e}'.format])
    g = gc.Grid()
    objs, ids, recs = [], {}, []

    def xyz(p):
        return (p * unit, (p * p % 31 - 15) * unit, -p * unit)

    def key(n):
        if id(n) not in ids:
            objs.append(n)
            ids[id(n)] = len(objs)
        return ids[id(n)]

    def num(x):
        v = x / unit
        return int(v) if v == v and abs(v) < 1e9 and v == int(v) else 1 << 29

    def code(x, y, z):
        p = num(x)
        return p if xyz(p) == (x, y, z) else -1

    def vals(o):
        return [num(v) for v in (o.HTC, o.Beta, o.Tau.X, o.Tau.Y, o.Tau.Z, o.RecoveryFactor)]

    def project():
        zones = [{'t': z.Title, 'ns': [key(n) for n in z.Nodes], 'fs': [{'n': [key(n) for n in f.Nodes], 'v': vals(f)} for f in z.Faces]} for z in g.Zones]
        return {'zones': zones, 'nodes': [{'p': code(n.Point.X, n.Point.Y, n.Point.Z), 'v': vals(n), 'id': n.Id} for n in objs]}

    def cells(path, file):
        eol = '\n'
        with open(path, 'w', newline='') as f:
            if rnd.random() < 0.5:
                f.write('# EXPORT_MODE=CHECK_POINT' + eol)
            f.write('TITLE="grid"' + eol)
            f.write('VARIABLES="X", "Y", "Z", "T", "Hw", "Hi", "HTC", "Beta", "TauX", "TauY", "TauZ"' + eol)
            for z in file:
                f.write('ZONE T="%s"\nNODES=%d\nELEMENTS=%d\nDATAPACKING=BLOCK\nZONETYPE=FETRIANGLE\nVARLOCATION=([4-11]=CELLCENTERED)\n' %
                        (z['t'], len(z['pts']), len(z['links'])))
                for c in range(3):
                    f.write(' '.join(fmt(xyz(p)[c]) for p in z['pts']) + '\n')
                for c in range(8):
                    f.write(' '.join(fmt(r[c] * unit) for r in z['rows']) + '\n')
                for t in z['links']:
                    f.write(' '.join(map(str, t)) + '\n')

    def nodes(path, file):
        with open(path, 'w') as f:
            f.write('TITLE="grid"\nVARIABLES="X", "Y", "Z", "HTC", "Beta", "TauX", "TauY", "TauZ", "RecoveryFactor"\n')
            for z in file:
                f.write('ZONE T="%s", N=%d, E=%d, F=FEPOINT, ET=QUADRILATERAL\n' % (z['t'], len(z['pts']), len(z['quads'])))
                for p, v in zip(z['pts'], z['vals']):
                    f.write(' '.join(map(fmt, list(xyz(p)) + [x * unit for x in v])) + '\n')
                for q in z['quads']:
                    f.write(' '.join(map(str, q)) + '\n')

    def written(path):
        """The file written, as it stands."""
        ls = open(path).read().split('\n')
        assert ls.pop() == ''
        assert ls.pop(0) == 'VARIABLES="X", "Y", "Z", "HTC", "Beta", "TauX", "TauY", "TauZ", "RecoveryFactor"'
        out = []
        while ls:
            h = [ls.pop(0) for _ in range(6)]
            m = re.fullmatch('ZONE T="(.*)"', h[0])
            n, e = [int(re.fullmatch(k + r'=(\d+)', x).group(1)) for k, x in (('NODES', h[1]), ('ELEMENTS', h[2]))]
            assert h[3:] == ['DATAPACKING=BLOCK', 'ZONETYPE=FETRIANGLE', 'VARLOCATION=([4-9]=CELLCENTERED)']
            rows = [[float(x) for x in ls.pop(0).split()] for _ in range(9)]
            assert [len(r) for r in rows] == [n] * 3 + [e] * 6
            out.append({'t': m.group(1), 'pts': [code(*p) for p in zip(*rows[:3])], 'rows': [list(map(num, r)) for r in zip(*rows[3:])],
                        'links': [[int(x) for x in ls.pop(0).split()] for _ in range(e)]})
        return out

    def do(o, d):
        op = o['op']
        if op in ('import', 'load'):
            fn = os.path.join(d, 'f.dat')
            (cells if op == 'import' else nodes)(fn, o['file'])
            if op == 'import':
                g.Import(fn)
            else:
                g.LoadNodesData(fn, o['rev'])
        elif op == 'copy':
            key(objs[o['a'] - 1].Copy())
        elif op == 'replace':
            g.Zones[o['z'] - 1].ReplaceNode(objs[o['a'] - 1], objs[o['b'] - 1])
        elif op == 'restore':
            g.Zones[o['z'] - 1].RestoreNodesIndices()
        elif op == 'drop':
            g.Zones[o['z'] - 1].DeleteExtraNodes()
        elif op == 'tofaces':
            g.ConvertDataFromNodesToFaces()
        elif op == 'export':
            fn = os.path.join(d, 'o.dat')
            g.Export(fn)
            return written(fn)
        elif op == 'info':
            b = io.StringIO()
            with contextlib.redirect_stdout(b):
                g.PrintInfo()
            ls = b.getvalue().splitlines()
            return [[int(x) for x in re.search(r'\((\d+) nodes, (\d+) faces\)', l).groups()] for l in ls] if \
                [l[:5 + len(z.Title)] for l, z in zip(ls, g.Zones)] == ['ZONE ' + z.Title for z in g.Zones] else []
        return []

    def some():
        """A random operation."""
        if not g.Zones or rnd.random() < 0.1:
            return {'op': 'import', 'file': file_of(rnd, False)} if rnd.random() < 0.5 else {'op': 'load', 'file': file_of(rnd, True), 'rev': rnd.random() < 0.5}
        z = rnd.randrange(len(g.Zones)) + 1
        op = rnd.choice(['replace'] * 6 + ['copy', 'restore', 'drop', 'drop', 'tofaces', 'export', 'info'])
        o = {'op': op}
        if op in ('replace', 'restore', 'drop'):
            o['z'] = z
        if op == 'copy':
            o['a'] = rnd.randrange(len(objs)) + 1
        if op == 'replace':
            ns = g.Zones[z - 1].Nodes
            o['a'] = key(rnd.choice(ns)) if rnd.random() < 0.95 else rnd.randrange(len(objs)) + 1
            o['b'] = key(rnd.choice(ns)) if rnd.random() < 0.5 else rnd.randrange(len(objs)) + 1
            if rnd.random() < 0.3:      # a node with the number of another node of the zone
                t = rnd.choice(ns)
                o['b'] = rnd.choice([k + 1 for k, n in enumerate(objs) if n.Id == t.Id])
        return o
    with lib.scratch() as d:
        ops = list(s.get('ops', [])) or [None] * s['n'] + [{'op': 'export'}]
        for o in ops:
            o = o or some()
            old = project()
            r, out = lib.call(do, o, d)
            recs.append(dict(ev='op', exc=r['exc'], o=o, old=old, new=project(), out=out or []))
            if r['exc']:
                break
    return recs


STAGES = [{'name': 'model', 'module': 'TraceSew', 'plan': plan_model, 'chunks': 6},
          {'name': 'random', 'module': 'TraceSew', 'plan': plan_random, 'chunks': 6}]
