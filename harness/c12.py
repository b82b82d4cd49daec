"""C12: breadth first walks over the faces."""
import random

import decomp
import lib
from transforms import Labels

MODEL = 'SPECIFICATION Spec\nINVARIANTS Correct NoRepeat\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\nCONSTANT N = %d\n'


def plan(ctx):
    ctx.model('BfsModel', MODEL % (4 if not ctx.thorough else 5), workers=4, timeout=2400, heap='6g')
    rnd = random.Random(ctx.seed)
    return [{'init': decomp.meshes(rnd, 0.1), 'edits': rnd.choice([0, 0, 3, 6]), 'calls': rnd.randint(2, 7), 'seed': rnd.randrange(1 << 30)}
            for _ in range(2500 if ctx.thorough else 250)]


def execute(s):
    rnd = random.Random(s['seed'])
    lat, lab, recs, pre = lib.Lattice(step=1.0 / 64), Labels(), [], []
    with lib.scratch() as d:
        g = decomp.load(s, d, rnd, lat, lab, pre)
    recs += [{'ev': 'setup', 'exc': p['exc']} for p in pre]
    pos = {id(f): i + 1 for i, f in enumerate(g.Faces)}
    nb = []
    for f in g.Faces:       # neighbours through common sides, from the corner points alone
        ids = {id(n) for n in f.Nodes}
        nb.append([pos[id(x)] for x in g.Faces if x is not f and len({id(n) for n in x.Nodes} & ids) == 2])
    walked = False
    for _ in range(s['calls']):
        p = rnd.choice([0.0, 0.3, 0.6, 0.8, 1.0, 1.0])
        sel = sorted(i + 1 for i in range(len(g.Faces)) if rnd.random() < p)
        ss = set(sel)
        start = rnd.choice(g.Faces)
        ev = rnd.choice(['walk', 'walk', 'component', 'again'])
        if ev == 'again':       # the next component: visited faces are out of the game
            seen = {pos[id(f)] for f in g.Faces if getattr(f, 'bfs_mark', False) is True}
            if not walked:
                continue
            sel = [i for i in sel if i not in seen]
        if ev == 'walk':
            o, path = lib.call(g.bfs_path, start, lambda f: pos[id(f)] in ss)
        elif ev == 'again':
            o, path = lib.call(g.bfs_path_connectivity_component, start, lambda f: pos[id(f)] in ss)
            ev = 'component'
        else:
            for f in g.Faces:
                f.bfs_mark = False
            o, path = lib.call(g.bfs_path_connectivity_component, start, lambda f: pos[id(f)] in ss)
        walked = True
        recs.append(dict(o, ev=ev, nb=nb, sel=sel, start=pos[id(start)], path=[pos.get(id(f), 0) for f in path or []]))
    return recs


STAGES = [{'name': 'walks', 'module': 'TraceBfs', 'plan': plan, 'chunks': 4, 'workers': 7}]
