"""C23: the zones adjacency matrix and the statistics derived from it."""
import re
import random
import contextlib
import io

import decomp
import lib
from transforms import Labels


def plan(ctx):
    scns = decomp.plan_histories(ctx, *((400, 300, 4, 2) if ctx.thorough else (60, 50, 3)))
    return scns


def kind(e):
    k = [n for n, v in (('border', e.is_border()), ('inner', e.is_inner()), ('cross', e.is_cross())) if v]
    return k[0] if len(k) == 1 and e.is_outer() == (k[0] != 'inner') else 'contradiction'


def ints(line):
    return [int(x) for x in re.findall(r'(?<![\w.])-?\d+(?![\w.])', line)]


def reals(line, k):
    """All numbers, in units of 10^-k."""
    return [round(float(x) * 10 ** k) for x in re.findall(r'-?\d+\.\d+', line)]


def printed(g, flags):
    """What print_info shows, section by section."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        g.print_info(**flags)
    ls = [l for l in out.getvalue().split('\n') if l.strip()]
    r = {'name': ls[0].split(':', 1)[1].strip() == g.Name, 'counts': ints(ls[1]), 'stat': [], 'sperc': [], 'dist': [], 'qf': [], 'zonenames': True, 'summary': [], 'dev': 0,
         'minmax': [], 'matrix': [], 'border': []}
    ls = ls[2:]
    if flags.get('is_print_edges_statistics'):
        r['stat'], r['sperc'] = ints(ls[0]), reals(ls[0], 2)
        ls = ls[1:]
    if flags.get('is_print_faces_distribution'):
        for z, l in zip(g.Zones, ls[1:]):
            name, rest = l.rsplit(' : ', 1)
            r['zonenames'] = r['zonenames'] and name.strip() == z.Name.strip()
            r['dist'].append(ints(rest))
            r['qf'] += reals(rest, 3)
        ls = ls[1 + len(g.Zones):]
        r['summary'], r['dev'] = ints(ls[0]), reals(ls[0], 2)[0]
        r['minmax'] = reals(ls[1], 3)
        ls = ls[2:]
    if flags.get('is_print_zones_adjacency_matrix'):
        r['matrix'] = [ints(l) for l in ls[:len(g.Zones) + 1]]
        r['border'] = ints(ls[len(g.Zones) + 1])
        ls = ls[len(g.Zones) + 2:]
    r['rest'] = len(ls)
    return r


def execute(s):
    import gsu
    rnd = random.Random(s['seed'])
    random.seed(s['seed'])
    lat, lab, recs, pre = lib.Lattice(step=1.0 / 64), Labels(), [], []

    def query(g):
        z = gsu.ZonesAdjacencyMatrix(g.Edges, g.Zones)
        n = len(g.Zones)
        st = z.edges_statistics()
        first = [[int(x) for x in r] for r in z.M]
        return {'m1': first, 'maxs': [z.zone_max_cross_border_len(i) for i in range(n)], 'stat': [int(x) for x in st[:4]], 'perc': [round(x * 1000) for x in st[4:7]],
                'rows': [z.zone_cross_edges_array(i) for i in range(n)], 'sums': [z.zone_cross_edges_count(i) for i in range(n)],
                'nbs': [z.zone_cross_borders_count(i) for i in range(n)], 'maxlen': z.max_cross_border_len(),
                'outer': [x.outer_edges_count() for x in g.Zones], 'kinds': [kind(e) for e in g.Edges],
                'm': [[int(x) for x in r] for r in z.M]}
    with lib.scratch() as d:
        g = decomp.load(s, d, rnd, lat, lab, pre)
        recs += [{'ev': 'setup', 'exc': p['exc']} for p in pre]
        for o in [None] + s['ops']:
            if o:
                recs.append({'ev': 'setup', 'exc': decomp.decompose(g, o)['exc']})
            o, r = lib.call(query, g)
            flags = {'is_print_faces_distribution': rnd.random() < 0.7 and all(z.Faces and z.outer_edges_count() for z in g.Zones),
                     'is_print_edges_statistics': rnd.random() < 0.7, 'is_print_zones_adjacency_matrix': rnd.random() < 0.7}
            oi, pi = lib.call(printed, g, {k: v for k, v in flags.items() if v or rnd.random() < 0.5})
            recs.append(dict(o, ev='zam', G=lib.project(g, lat.code, lab), infoexc=oi['exc'], flags=[flags[k] for k in sorted(flags)], info=pi or {},
                             fixed=[bool(z.IsFixed) for z in g.Zones], counts=[g.nodes_count(), g.edges_count(), g.faces_count(), g.zones_count(), g.faces_count_in_zones(),
                                                                              g.faces_count_in_fixed_zones()], **(r or {})))
    return recs


STAGES = [{'name': 'matrices', 'module': 'TraceAdjacency', 'plan': plan, 'chunks': 6, 'workers': 7}]
