"""C31: equal runs give equal results: the same scenarios in processes with another hashing of strings and another memory."""
import json
import os
import random
import subprocess
import sys

import lib

MODULES = [('c31', None, 10), ('c06', 'plan_api', 3), ('c06', 'plan_split', 3), ('c16', 'plan', 4), ('c17', 'plan', 7), ('c18', 'plan', 4), ('c19', 'plan_random', 5),
           ('c20', 'plan_random', 4), ('c13', 'plan', 3), ('c29', 'plan_random', 4), ('c08', 'plan_merge', 3)]


class Ctx:
    """Enough of a context for plans of the other checks; models are checked there."""
    def __init__(self, seed):
        self.seed, self.thorough, self.dir = seed, False, None

    def model(self, *a, **k):
        return []


def plan(ctx):
    rnd = random.Random(ctx.seed * 71 + 13)
    return [{'seed': rnd.randrange(1 << 30), 'hashes': [rnd.randrange(1, 1 << 30) for _ in range(3 if ctx.thorough else 2)]} for _ in range(160 if ctx.thorough else 28)]


def stage_plan(mod, name):
    m = __import__(mod)
    if hasattr(m, name):
        return m, getattr(m, name)
    return m, next(s['plan'] for s in m.STAGES if s['plan'].__name__ == name)


def own(rnd):
    """A history of a grid with decompositions, edits, files."""
    import decomp
    return {'init': decomp.meshes(rnd, 0.1), 'seed': rnd.randrange(1 << 30)}


def run_own(s):
    import decomp
    import gsu
    rnd = random.Random(s['seed'])
    lat, outs = lib.Lattice(step=1.0 / 64), []
    from transforms import model_of
    with lib.scratch() as d:
        fn = os.path.join(d, 'a.dat')
        lib.write_dat(fn, model_of(s['init'], rnd))
        g = gsu.Grid()
        outs.append(lib.call(g.load, fn)[0])
        for _ in range(rnd.randint(2, 6)):
            k, n = rnd.randrange(6), rnd.randint(1, 9)
            names = sorted({z.Name for z in g.Zones})
            fixed = rnd.sample(names, rnd.choice([0, 0, min(1, len(names) - 1), max(0, len(names) - 1)]))
            random.seed(n)
            if k == 0:
                o, _ = lib.call(g.decompose_farhat, count=n, fz_names=fixed)
            elif k == 1:
                o, _ = lib.call(g.decompose_hierarchical, levels=rnd.randint(1, 5), fixed_zones=fixed)
            elif k == 2:
                o, _ = lib.call(rnd.choice([g.decompose_linear, g.decompose_random]), count=n)
            else:
                o, _ = lib.call(decomp.edit, g, rnd, lat)
            outs.append([o, lib.project(g, lat.code)])
        o, _ = lib.call(g.store, os.path.join(d, 'b.dat'))
        o2, _ = lib.call(g.store_mpi, os.path.join(d, 'b'), '000000000000')
        outs.append([o, o2] + [(f, open(os.path.join(d, f)).read()) for f in sorted(os.listdir(d))])
    return outs


def twin(spec):
    """In a process of its own: digests of the outcomes of all scenarios."""
    import hashlib
    import re
    rnd = random.Random(spec['seed'])
    keep = [bytearray(random.SystemRandom().randrange(1, 900)) for _ in range(3000)]
    del keep[::2]
    lib.import_repo()
    todo = []
    for mod, name, n in MODULES:
        if name is None:
            scns, ex = [own(rnd) for _ in range(n)], run_own
        else:
            m, plan = stage_plan(mod, name)
            scns, ex = plan(Ctx(rnd.randrange(1 << 20))), m.execute
            scns = rnd.sample(scns, min(n, len(scns)))
        todo += [(len(todo) + i, '%s %s' % (mod, name or 'own'), s, ex) for i, s in enumerate(scns)]
    # Every process does its work in another order: nothing depends on what ran before.
    random.Random(os.environ['PYTHONHASHSEED']).shuffle(todo)
    res = []
    for i, what, s, ex in todo:
        s.setdefault('id', 'x')
        random.seed(5)
        try:
            outs = ex(s)
        except Exception as e:
            outs = ['%s: %s' % (type(e).__name__, e)]
        text = [re.sub(r'verif_\w+', 'D', json.dumps(o, sort_keys=True)) for o in outs]
        res.append((i, {'what': what, 'outs': [hashlib.md5(t.encode()).hexdigest()[:12] for t in text]}))
    res = [r for _, r in sorted(res, key=lambda r: r[0])]
    return res


def execute(s):
    runs = []
    for h in s['hashes']:
        p = subprocess.run([sys.executable, os.path.abspath(__file__)], input=json.dumps(s), capture_output=True, text=True, timeout=600,
                           env=dict(os.environ, PYTHONHASHSEED=str(h)))
        if p.returncode:
            return [{'ev': 'crash', 'msg': p.stderr[-300:]}]
        runs.append(json.loads(p.stdout.split('RESULT')[-1]))
    return [{'ev': 'twice', 'exc': '', 'what': r[0]['what'], 'outs': [x['outs'] for x in r]} for r in zip(*runs)]


STAGES = [{'name': 'runs', 'module': 'TraceTwice', 'plan': plan, 'chunks': 3, 'workers': 7, 'timeout': 700}]

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    res = twin(json.load(sys.stdin))
    sys.stdout.write('RESULT' + json.dumps(res))
