"""Runs of the split, merge and remesh tools on a scratch file system."""
import glob
import json
import os
import random
import re
import shutil

import cry
import decomp
import lib
from transforms import LAT

REAL = {'r0': 'res/r0', 'r1': 'res/r1', 'out': 'res/out'}
BIG = -1000000000


def scaled(v):
    """Values that are multiples of 1/64 as integers."""
    x = float(v) * 64
    return int(x) if x == x and abs(x) < 2e9 and x == int(x) else BIG


class Disk:
    """A scratch directory, and its content as the specification sees it."""
    def __init__(self, root, value=lib.tok, code=None):
        self.root, self.value, self.seen = root, value, {}
        self.lat = lib.Lattice(step=1.0 / 64)
        self.code = code or self.near
        for d in ('main', 'c0', 'c1', 'x0', 'x1', 'res'):
            os.makedirs(os.path.join(root, d))

    def near(self, p):
        """Lattice code up to rounding errors."""
        q = [round(c * 64) / 64 for c in p]
        return self.lat.code(q if all(abs(a - b) < 1e-9 for a, b in zip(p, q)) else p)

    def dir(self, d):
        return os.path.join(self.root, REAL.get(d, d))

    def path(self, d, n):
        return os.path.join(self.dir(d), n)

    def content(self, path):
        try:
            if path.endswith('.dat'):
                m = lib.parse_dat(path)
                return {'k': 'grid', 'title': m['title'] or '', 'zones': [
                    {'name': z['name'], 'faces': [
                        {'t': [self.code(z['xyz'][k]) for k in t],
                         'd': {v: self.value(z['data'][a][j]) for a, v in enumerate(m['vars'])}}
                        for j, t in enumerate(z['tris'])]} for z in m['zones']]}
            if path.endswith('.cry'):
                toks = []
                c = cry.parse_cry(path, self.code)
                for i in range(c['f']):
                    d = dict(zip(cry.VARS, [float.fromhex(x) if x != 'nan' else float('nan') for x in c['data'][i].split(';')]))
                    toks.append({'g': c['gids'][i], 't': [c['pts'][k] for k in c['fn'][i]],
                                 'd': {v: self.value(d[v]) for v in ('T', 'Hw', 'Hi')}})
                return {'k': 'cry', 'rows': toks}
            if path.endswith('.txt'):
                ls = open(path).read().split('\n')
                if not ls[0].startswith('VARIABLES="GloId"'):
                    return {'k': 'other'}
                vs = re.findall(r'"([^"]*)"', ls[0])[1:]
                rows = []
                for l in ls[1:]:
                    if l:
                        w = l.split()
                        rows.append({'g': int(w[0]), 'd': {v: self.value(float(x)) for v, x in zip(vs, w[1:])}})
                return {'k': 'txt', 'rows': rows}
            if path.endswith('.csv'):
                ls = open(path).read().split('\n')
                rows = []
                for l in ls[1:]:
                    if l:
                        w = [float(x) for x in l.split(';')]
                        r = [w[0] * 8] + w[1:]
                        rows.append([int(x) if x == int(x) else BIG for x in r])
                return {'k': 'csv', 'head': ls[0], 'rows': rows}
        except (lib.Malformed, ValueError, UnicodeError, IndexError) as e:
            return {'k': 'bad', 'msg': str(e)[:200]}
        return {'k': 'other'}

    def record(self, ev, **k):
        """What there is after an event."""
        names, changed, now = [], [], {}
        inv = {v: d for d, v in REAL.items()}
        for base, _, fs in os.walk(self.root):
            rel = os.path.relpath(base, self.root)
            for n in sorted(fs):
                p = [inv.get(rel, rel), n]
                with open(os.path.join(base, n), 'rb') as f:
                    now[tuple(p)] = f.read()
                names.append(p)
                if self.seen.get(tuple(p)) != now[tuple(p)]:
                    changed.append({'p': p, 'c': self.content(os.path.join(base, n))})
        self.seen = now
        return dict(k, ev=ev, names=names, changed=changed)


def write_txt(path, variables, rows):
    with open(path, 'w', newline='\n') as f:
        f.write('VARIABLES=' + ', '.join('"%s"' % v for v in ['GloId'] + variables) + '\n')
        for g, vals in rows:
            f.write(' '.join([str(g)] + [lib.num(v) for v in vals]) + '\n')


HEAD = 'time;M_imp;M_es;M_stall;M_ini_water;M_water;M_ini_ice;M_ice;Q_conv;Q_es'


def write_csv(path, rows):
    with open(path, 'w', newline='\n') as f:
        f.write(HEAD + '\n')
        for r in rows:
            f.write(';'.join(repr(r[0]) if i == 0 else '%.18e' % float(v) for i, v in enumerate(r)) + '\n')


def foreign(rnd, stem, ts):
    """Names that are not results of the stem."""
    return rnd.choice([
        'x%s_00000_%s.txt' % (stem, ts), '%sx_00000_%s.txt' % (stem, ts), '%s_00000_%s.txt' % (stem[:-1] + 'q', ts),
        '%s_0000a_%s.txt' % (stem, ts), '%s_00000_%sa.txt' % (stem, ts[:-1]), '%s_00000_%s.cry' % (stem, ts),
        '%s_00000_%s.log' % (stem, ts), '%s_%s.txt' % (stem, ts), 'a.txt', '%s.txt' % stem, '%s_00001_00002_%s.txt' % (stem, ts),
        stem.upper() + '_00000_%s.txt' % ts, '%s_r_00000_%s.txt' % (stem, ts), 'README', '%s_000000_%s.txt' % (stem, ts[1:] + '7'),
        '%s_00000_%s.TXT' % (stem, ts), '%s_00000_%s.xtx' % (stem, ts)])


# ---- C08: the merge tool alone -----------------------------------------------------------------
STEMS = ['wing', 'w_' + '0' * 9 + '100', 'w_123456789012_r', 'wing_1', 'a', 'b.c', 'wing-2_00001', 'case_12', 'крыло', 'x_r', '0']


def ts_of(n):
    return '%012d' % n


def plan_merge(ctx):
    rnd = random.Random(ctx.seed * 7 + 5)
    scns = []
    for _ in range(1500 if ctx.thorough else 400):
        stem = rnd.choice(STEMS)
        scns.append({'init': decomp.meshes(rnd, 0.04), 'stem': stem, 'ts': rnd.choice(['', '', ts_of(100), ts_of(123456789012)]),
                     'vars': rnd.choice([['T', 'Hw', 'Hi'], ['T', 'Hw', 'Hi'], ['T', 'Hw', 'Hi', 'HTC', 'Beta'], ['Hi', 'T']]),
                     'out': rnd.choice(['same', 'same', 'thw', 'one', 'other']),
                     'rounds': rnd.choice([1, 1, 2]), 'procs': rnd.choice([1, 2, 3, 5, 5, 12, 26]) if rnd.random() < 0.97 else 120, 'tss': rnd.choice([0, 1, 2, 3, 4]) if rnd.random() < 0.95 else 13,
                     'cover': rnd.choice(['full', 'full', 'full', 'part']), 'noise': rnd.randint(0, 5),
                     'tables': rnd.choice([0, 0, 1, 2, 3]) if rnd.random() < 0.95 else 14, 'seed': rnd.randrange(1 << 30)})
    return scns


def execute_merge(s):
    rnd = random.Random(s['seed'])
    recs = []
    with lib.scratch() as root:
        import c01
        disk = Disk(root, code=LAT.code)
        fname = s['stem'] + ('_' + s['ts'] if s['ts'] else '') + '.dat'
        model = decomp.model_of(s['init'], rnd)
        nf = sum(len(z['tris']) for z in model['zones'])
        model['vars'] = s['vars']
        model['title'] = 'grid of ' + s['stem']
        for z in model['zones']:
            z['data'] = [[c01.value(rnd) for _ in z['tris']] for _ in s['vars']]
        lib.write_dat(disk.path('main', fname), model)
        out = {'same': s['vars'], 'thw': ['T', 'Hw', 'Hi'], 'one': ['T'], 'other': ['Beta', 'HTC', 'X1']}[s['out']]
        if s['cover'] == 'part':
            out = list(s['vars'])
        out = rnd.sample(out, len(out))
        number = list(range(s['procs']))
        if rnd.random() < 0.3:      # any five digits
            number = rnd.sample([0, 7, 99, 100, 101, 999, 1000, 12345, 99999, 54321], min(len(number), 10))
        for rd in range(s['rounds']):
            if rd and rnd.random() < 0.7:      # the results of another calculation
                for p in glob.glob(glob.escape(disk.dir('x0')) + '/*'):
                    os.remove(p)
            tss = rnd.sample([ts_of(n) for n in (0, 1, 100, 200, 1000, 12, 999999999999, 3, 123, 5000, 7000, 9999, 10000, 123456789012)], s['tss'])
            for ts in tss:
                gids = list(range(nf))
                rnd.shuffle(gids)
                if s['cover'] == 'part':
                    gids = gids[:rnd.randint(0, nf)]
                for p in range(len(number)):
                    mine = gids[p::len(number)] if rnd.random() < 0.5 else sorted(gids[p::len(number)])
                    write_txt(disk.path('x0', '%s_%05d_%s.txt' % (s['stem'], number[p], ts)), out, [(g, [c01.value(rnd) for _ in out]) for g in mine])
            for _ in range(s['noise']):
                n = foreign(rnd, s['stem'], rnd.choice(tss or [ts_of(5)]))
                if n != fname and not re.fullmatch(re.escape(s['stem']) + r'_\d{5}_\d{12}\.txt', n):
                    write_txt(disk.path('x0', n), out, [(rnd.randrange(nf), [c01.value(rnd) for _ in out]) for _ in range(3)])
            if s['tables']:
                nr = rnd.choice([1, 1, 2, 5]) if rnd.random() < 0.9 else 30
                for k in range(s['tables']):
                    write_csv(disk.path('x0', 'balance_%05d.csv' % k if rnd.random() < 0.8 else '%s%d.csv' % (s['stem'], k)),
                              [[(i + 1) / 8] + [rnd.randint(-300000000, 600000000) // (1 if s["tables"] < 4 else 8) for _ in range(9)] for i in range(nr)])
                # tables of an earlier round have another number of rows
                for p in glob.glob(glob.escape(disk.dir('x0')) + '/*.csv'):
                    if len(open(p).read().split('\n')) != nr + 2:
                        os.remove(p)
            recs.append(disk.record('files'))
            o = lib.run_script('merge.py', [disk.path('main', fname), disk.dir('x0'), disk.dir('out')])
            recs.append(dict(disk.record('merge', g=['main', fname], src='x0', dst='out', csvdir='res'), **o))
    return recs


def plan_calc(ctx):
    rnd = random.Random(ctx.seed * 13 + 5)
    return [{'init': decomp.meshes(rnd, 0.04), 'edits': rnd.choice([0, 3, 6]), 'cover': rnd.choice(['full', 'full', 'part']), 'files': rnd.randint(1, 4),
             'dec': rnd.choice(['', 'linear', 'hier', 'farhat']), 'vars': rnd.choice([['T', 'Hw', 'Hi'], ['Hi'], ['Beta', 'T']]),
             'seed': rnd.randrange(1 << 30)} for _ in range(1000 if ctx.thorough else 150)]


def execute_calc(s):
    """Values loaded into a grid whose faces are not in the order of their identifiers."""
    import c01
    rnd = random.Random(s['seed'])
    lat, lab, recs = lib.Lattice(step=1.0 / 64), decomp.Labels(), []
    with lib.scratch() as d:
        g = decomp.load(s, d, rnd, lat, lab, [])
        if s['dec'] == 'linear':
            lib.call(g.decompose_linear, 2)
        elif s['dec'] == 'hier':
            lib.call(g.decompose_hierarchical, 3)
        elif s['dec'] == 'farhat':
            lib.call(g.decompose_farhat, 2)

        def faces():
            return [{'g': int(f.GloId), 'd': {k: lib.tok(v) for k, v in f.Data.items()}} for f in g.Faces]
        gids = [f.GloId for f in g.Faces]
        rnd.shuffle(gids)
        if s['cover'] == 'part':
            gids = gids[:rnd.randint(0, len(gids))]
        for k in range(s['files']):
            rows = [(x, [c01.value(rnd) for _ in s['vars']]) for x in gids[k::s['files']]]
            fn = os.path.join(d, 'v%d.txt' % k)
            write_txt(fn, s['vars'], rows)
            pre = faces()
            o, _ = lib.call(g.load_faces_calc_data, fn)
            recs.append(dict(o, ev='calc', pre=pre, post=faces(),
                             rows=[{'g': x, 'd': dict(zip(s['vars'], map(lib.tok, vs)))} for x, vs in rows]))
    return recs


# ---- C09: the whole cycle ------------------------------------------------------------------------
MODEL = ('SPECIFICATION Spec\nINVARIANTS NamesTell IceGone GeometryKept %s\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLen = %d\n Sim = %s\n%s')


def plan_cycle(ctx):
    ctx.model('Pipeline', MODEL % ('', 4 if ctx.thorough else 3, 'FALSE', 'VIEW View\n'), workers=4, timeout=1800, heap='6g')
    beh, want = [], 1500 if ctx.thorough else 250
    for k, n in enumerate((6, 9, 12, 16) if ctx.thorough else (6, 12)):
        bs = ctx.model('Pipeline', MODEL % ('Emit', n, 'TRUE', ''), timeout=900,
                       args=['-simulate', 'num=%d' % want, '-depth', str(n + 1), '-seed', str(ctx.seed * 10 + k)])
        keep = [b for b in bs if any(o['op'] in ('merge', 'remesh', 'remesh1') for o in b['ops'])]
        # two rounds first
        keep.sort(key=lambda b: not any(o['op'] in ('split', 'merge') and '_000000' in o['g'] for o in b['ops']))
        keep = keep[:want * 2 // 3]
        beh += keep[:want]
    rnd = random.Random(ctx.seed)
    return [{'ops': b['ops'], 'seed': rnd.randrange(1 << 30)} for b in beh]


def execute_cycle(s):
    rnd = random.Random(s['seed'])
    recs, lat = [], lib.Lattice(step=1.0 / 64)
    names = {'wing': rnd.choice(['wing', 'case_2', 'a', 'n0.data', 'wing_root', 'car_r', 'x.dat']), 'wing_1': None}
    names['wing_1'] = names['wing'] + rnd.choice(['_1', '_00001', 'x', '_12345_000000000777_'])
    with lib.scratch() as root:
        disk = Disk(root, value=scaled)
        sizes = {}
        for stem in names.values():
            nx, ny = rnd.randint(1, 3), rnd.randint(1, 2)
            mesh = lib.rect_mesh(nx, ny, flipdiag=lambda i, j: rnd.random() < 0.5)
            nz = rnd.randint(1, 3)
            zone_of = [rnd.randrange(nz) for _ in mesh[1]]
            zone_of = [sorted(set(zone_of)).index(z) for z in zone_of]
            model = lib.zoned_model(mesh, zone_of, lat, title='title of ' + stem, rnd=rnd, shuffle=True,
                                    data=lambda i, v: 0.0 if v == 'Hi' else rnd.randrange(1 << 20) / 64)
            lib.write_dat(disk.path('main', stem + '.dat'), model)
            sizes[stem] = len(mesh[1])
        js = os.path.join(root, 'main', 'params.json')
        with open(js, 'w') as f:
            json.dump({'remesh_nsteps_max': rnd.choice([1, 2, 4]), 'remesh_nsteps_hi_side_fact': 0.5}, f)
        recs.append(disk.record('files'))

        def real(n):
            m = re.fullmatch(r'(wing_1|wing)(.*)', n)
            return names[m.group(1)] + m.group(2)
        for o in s['ops']:
            op = o['op']
            if op == 'split':
                g = real(o['g'])
                n = min(o['n'], sizes[names['wing_1' if o['g'].startswith('wing_1') else 'wing']])
                if not os.path.exists(disk.path('main', g)):
                    break
                # an old split of the same grid would be mixed with the new one
                m = re.fullmatch(r'(.*?)(?:_(\d{12}))?\.dat', g)
                for p in glob.glob(glob.escape(disk.dir(o['d'])) + '/*.cry'):
                    if re.fullmatch(re.escape(m.group(1)) + r'_\d{5}_' + (m.group(2) or '0' * 12) + r'\.cry', os.path.basename(p)):
                        os.remove(p)
                recs.append(disk.record('files'))
                st = rnd.choice(['n%d' % n, 'h%d' % (n - 1)])
                if rnd.random() < 0.3:
                    r = lib.run_script('split.py', [g, '-c', os.path.relpath(disk.dir(o['d']), disk.dir('main')), '-s', st], disk.dir('main'))
                else:
                    r = lib.run_script('split.py', [disk.path('main', g), '-c', disk.dir(o['d']), '-s', st])
                recs.append(dict(disk.record('split', g=['main', g], n=n, dir=o['d']), **r))
            elif op == 'solve':
                stem = names[o['s']]
                gone = glob.glob(glob.escape(disk.dir(o['x'])) + '/*.txt')
                for ts in o['out']:
                    for p in gone:
                        if re.fullmatch(re.escape(stem) + r'_\d{5}_' + ts + r'\.txt', os.path.basename(p)):
                            os.remove(p)
                    h = rnd.randint(1, 8) / 64
                    for p in sorted(glob.glob(glob.escape(disk.dir(o['d'])) + '/*.cry')):
                        m = re.fullmatch(re.escape(stem) + r'_(\d{5})_' + o['ts'] + r'\.cry', os.path.basename(p))
                        if not m:
                            continue
                        gids = cry.parse_cry(p, disk.code)['gids']
                        write_txt(disk.path(o['x'], '%s_%s_%s.txt' % (stem, m.group(1), ts)), ['T', 'Hw', 'Hi'],
                                  [(g, [rnd.randrange(1 << 20) / 64, rnd.randrange(1 << 20) / 64, h]) for g in gids])
                recs.append(disk.record('files'))
            elif op == 'noise':
                stem = names[o['s']]
                n = foreign(rnd, stem, rnd.choice(['000000000100', '000000000200']))
                if not any(re.fullmatch(re.escape(x) + r'_\d{5}_\d{12}\.txt', n) for x in names.values()):
                    write_txt(disk.path(o['x'], n), ['T', 'Hw', 'Hi'], [(0, [1.0, 2.0, 3.0])])
                recs.append(disk.record('files'))
            elif op == 'table':
                for p in glob.glob(glob.escape(disk.dir(o['x'])) + '/*.csv'):
                    os.remove(p)
                nr = rnd.choice([1, 3])
                for k in range(o['n']):
                    write_csv(disk.path(o['x'], 'balance_%d.csv' % k),
                              [[(i + 1) / 8] + [rnd.randint(0, 1000) for _ in range(9)] for i in range(nr)])
                recs.append(disk.record('files'))
            elif op == 'merge':
                g = real(o['g'])
                if not os.path.exists(disk.path('main', g)):
                    break
                if rnd.random() < 0.3:
                    r = lib.run_script('merge.py', [g, os.path.relpath(disk.dir(o['x']), disk.dir('main')), os.path.relpath(disk.dir(o['r']), disk.dir('main'))],
                                       disk.dir('main'))
                else:
                    r = lib.run_script('merge.py', [disk.path('main', g), disk.dir(o['x']), disk.dir(o['r'])])
                recs.append(dict(disk.record('merge', g=['main', g], src=o['x'], dst=o['r'], csvdir='res'), **r))
            else:
                ds = sorted(os.path.basename(p) for p in glob.glob(glob.escape(disk.dir(o['r'])) + '/*.dat'))
                if ds and op == 'remesh' and rnd.random() < 0.3:      # other grids among the merged ones
                    for k in range(rnd.choice([1, 2, 12])):
                        n = rnd.choice(['zz%d.dat', 'a%d_000000000300.dat', 'b_r%d.dat', 'wing%d_r.dat']) % k
                        if n not in ds:
                            shutil.copy(disk.path(o['r'], rnd.choice(ds)), disk.path(o['r'], n))
                    with open(disk.path(o['r'], 'note.data'), 'w') as f:
                        f.write('not a grid')
                    recs.append(disk.record('files'))
                    ds = sorted(os.path.basename(p) for p in glob.glob(glob.escape(disk.dir(o['r'])) + '/*.dat'))
                cwd = rnd.choice([None, None, disk.dir(o['r'])])
                if op == 'remesh1':
                    ds = [real(o['g'])] if real(o['g']) in ds else []
                    if not ds:
                        break
                    a = ['-g', ds[0] if cwd else disk.path(o['r'], ds[0])]
                else:
                    a = ['-d', '.' if cwd else disk.dir(o['r'])]
                r = lib.run_script('remesh.py', a + ['-j', js, '-o', disk.dir('main')] + rnd.choice([[], [], ['-v']]), cwd)
                recs.append(dict(disk.record('remesh', grids=[[o['r'], d] for d in ds], out='main'), **r))
            if recs[-1].get('exc'):
                break
    return recs


# ---- names ---------------------------------------------------------------------------------------
def plan_names(ctx):
    rnd = random.Random(ctx.seed * 3 + 1)
    return [{'seed': rnd.randrange(1 << 30)} for _ in range(1500 if ctx.thorough else 300)]


def execute_names(s):
    import utils
    rnd = random.Random(s['seed'])

    def ts():
        return '%012d' % rnd.choice([0, 1, 100, 123456789012, rnd.randrange(10 ** 12)])

    def stem():
        k = rnd.randrange(10)
        a = rnd.choice(['wing', 'a', 'su-34', 'w_1', 'x.y', 'grid 2', '7', '', '_', 'w_r'])
        return [a, a + '_' + ts(), a + '_' + ts() + '_r', a + ts(), a + '_' + ts()[1:], a + '_1' + ts(), a + '_' + ts()[:-1] + 'x',
                a + '_%05d' % rnd.randrange(20), a + '_00001_' + ts(), a + 'X' + ts()][k]
    st = stem()
    files = []
    for _ in range(8):
        x = rnd.choice([st, st, st, st + 'a', 'a' + st, st[:-1], stem()])
        p = rnd.choice(['%05d' % rnd.randrange(100000), '%05d' % rnd.randrange(100000), '0000x', '%04d' % 7, '%06d' % 7, ''])
        t = rnd.choice([ts(), ts(), ts(), ts()[1:], ts() + '0', ts()[:-1] + '.', ''])
        e = rnd.choice(['txt', 'txt', 'txt', 'cry', 'cry', 'dat', 'TXT', 'tx', 'csv'])
        files.append('%s_%s_%s.%s' % (x, p, t, e))
    files = sorted(set(files))
    rnd.shuffle(files)
    rec = {'ev': 'names', 's': st, 'files': files}

    def run():
        has = bool(utils.has_filename_timestamp(st))
        pair = list(utils.get_filename_and_timestamp_pair(st))
        c = [bool(utils.is_filename_correct_crys_cry_file(f, st)) for f in files]
        t = [bool(utils.is_filename_correct_crys_txt_file(f, st)) for f in files]
        g = utils.group_txt_files_by_timestamps([f for f, k in zip(files, t) if k])
        return dict(has=has, pair=pair, cry=c, txt=t, groups=[{'ts': k, 'fs': list(v)} for k, v in g.items()])
    o, r = lib.call(run)
    rec.update(o)
    rec.update(r or {})
    return [rec]
