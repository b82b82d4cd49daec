"""Makes and validates planted bugs: tools/plant.py [-c] [id ...]
The table is in tools/plants*.py: dicts id, prop, edits = [(file, old, new)], demo (python text), needs, breaks.
Everything happens in a scratch copy of /repo.  With -c the property's quick check is run against it too."""
import glob
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', PYTHONWARNINGS='ignore')
PRE = '''"""Demonstration: exits 0 when the behaviour is right."""
import os, sys, tempfile, random, contextlib, io, shutil
REPO = os.getcwd()
sys.dont_write_bytecode = True
sys.path[:0] = [REPO + '/crysgsu/convert', REPO + '/crysgsu']
import geom, gsu
TMP = tempfile.mkdtemp(prefix='demo_')
import atexit
atexit.register(shutil.rmtree, TMP, True)

def grid_text(zones, variables=('T', 'Hw', 'Hi'), title='mesh'):
    """zones: list of (name, points, triangles zero based, rows of data by variable)"""
    s = '# demo\\nTITLE="%s"\\nVARIABLES=%s\\n' % (title, ', '.join('"%s"' % v for v in ('X', 'Y', 'Z') + tuple(variables)))
    for name, pts, tris, data in zones:
        s += 'ZONE T="%s"\\nNODES=%d\\nELEMENTS=%d\\nDATAPACKING=BLOCK\\nZONETYPE=FETRIANGLE\\nVARLOCATION=([4-%d]=CELLCENTERED)\\n' % (
            name, len(pts), len(tris), 3 + len(variables))
        for c in range(3):
            s += ' '.join(repr(float(p[c])) for p in pts) + '\\n'
        for row in data:
            s += ' '.join(repr(float(x)) for x in row) + '\\n'
        for t in tris:
            s += ' '.join(str(k + 1) for k in t) + '\\n'
    return s

def sheet(nx, ny, z=0.0, dx=1.0):
    pts = [(i * dx, j * dx, z) for j in range(ny + 1) for i in range(nx + 1)]
    tris = []
    for j in range(ny):
        for i in range(nx):
            a = j * (nx + 1) + i
            tris += [(a, a + 1, a + nx + 2), (a, a + nx + 2, a + nx + 1)]
    return pts, tris

def write(name, text):
    p = os.path.join(TMP, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w', newline='\\n') as f:
        f.write(text)
    return p

def load(path, **k):
    g = gsu.Grid()
    g.load(path, **k)
    return g

def quietly(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)

'''


def table():
    res = {}
    for p in sorted(glob.glob(os.path.join(VERIF, 'tools', 'plants*.py'))):
        sp = importlib.util.spec_from_file_location('t', p)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for b in m.PLANTS:
            assert b['id'] not in res, b['id']
            res[b['id']] = b
    return res


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=k.pop('env', ENV), **k)


def tests(d):
    passed = set()
    rep = d + '_rep.xml'
    for f in ['tests/test_geom_vect.py', 'tests/test_gsu.py', 'tests/test_triangle.py', 'tests/test_utils.py', 'crysgsu/test.py']:
        if os.path.exists(rep):
            os.remove(rep)
        sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + d, '--timeout=60', '-o', 'python_functions=test* case_*',
            '-o', 'junit_family=xunit2', '--junitxml=' + rep, f], cwd=d, stdin=subprocess.DEVNULL)
        if not os.path.exists(rep):
            continue
        import xml.etree.ElementTree as ET
        for c in ET.parse(rep).getroot().iter('testcase'):
            if c.find('failure') is None and c.find('error') is None and c.find('skipped') is None:
                passed.add('%s::%s' % (c.get('classname'), c.get('name')))
        os.remove(rep)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(stable - passed)


def one(b, with_check):
    d = '/tmp/plant/' + b['id']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    sh(['cp', '-a', '/repo', d])
    out = os.path.join(VERIF, 'seeded', b['id'])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    try:
        with open(out + '/demo.py', 'w') as f:
            f.write(PRE + b['demo'].lstrip('\n'))
        with open(out + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore OMP_NUM_THREADS=1\n'
                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        with open(out + '/meta.json', 'w') as f:
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, f, indent=1)
            f.write('\n')
        r0 = sh(['bash', out + '/demo.sh'], cwd=d)
        if r0.returncode:
            return b['id'], 'DEMO FAILS UNPATCHED: ' + r0.stdout[-600:]
        for fn, old, new in b['edits']:
            p = os.path.join(d, fn)
            s = open(p, newline='').read()
            if s.count(old) != 1:
                return b['id'], 'EDIT matches %d times in %s: %r' % (s.count(old), fn, old[:60])
            open(p, 'w', newline='').write(s.replace(old, new))
        df = sh(['git', 'diff'], cwd=d).stdout
        open(out + '/patch.diff', 'w').write(df)
        # lines touched must be of the original repository
        base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=d).stdout.split()[0]
        own = ''
        for fn in {e[0] for e in b['edits']}:
            bl = sh(['git', 'blame', '-s', '--abbrev=40', 'HEAD', '--', fn], cwd=d).stdout.split('\n')
            mine = {i + 1 for i, l in enumerate(bl) if l and base[:39] not in l.split(' ')[0]}
            ln = 0
            for l in sh(['git', 'diff', '-U0', '--', fn], cwd=d).stdout.split('\n'):
                m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
                if m:
                    ln = int(m.group(1))
                elif l.startswith('-') and not l.startswith('---'):
                    if ln in mine:
                        own = ' (touches own line %d)' % ln
                    ln += 1
        c = sh([PY, '-c', 'import sys;sys.path[:0]=["crysgsu","crysgsu/convert"];import geom,gsu,crys_dummy' if 0 else 'import sys;sys.path[:0]=["crysgsu","crysgsu/convert"];import geom,gsu,merge,split,drops,remeshing,smoothing,utils'], cwd=d)
        if c.returncode:
            return b['id'], 'IMPORT FAILS ' + c.stdout[-500:]
        r1 = sh(['bash', out + '/demo.sh'], cwd=d, timeout=200)
        if r1.returncode == 0:
            return b['id'], 'DEMO PASSES PATCHED'
        t = tests(d)
        if t:
            return b['id'], 'TESTS FAIL %s' % t
        sh(['git', 'checkout', '--', '.'], cwd=d)
        a = sh(['git', 'apply', '--check', out + '/patch.diff'], cwd='/repo')
        if a.returncode:
            return b['id'], 'PATCH does not apply ' + a.stdout
        res = 'ok' + own + ' [' + r1.stdout.strip().split('\n')[-1][:100] + ']'
        if with_check:
            sh(['git', 'apply', out + '/patch.diff'], cwd=d)
            res += '\n' + check(b, d)
        return b['id'], res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(b, d):
    r = sh([os.path.join(VERIF, 'check.sh'), b['prop']], env=dict(ENV, VERIF_REPO=d, VERIF_TIER='quick'))
    hit = 'VIOLATION property=%s' % b['prop'] in r.stdout
    return '    check %s: %s' % (b['prop'], 'CAUGHT ' + next((l for l in r.stdout.split('\n') if l.startswith('stage')), '') if r.returncode == 1 and hit
                                 else 'MISSED rc=%d %s' % (r.returncode, r.stdout[-300:]))


def main():
    a = sys.argv[1:]
    with_check = '-c' in a
    a = [x for x in a if x != '-c']
    t = table()
    ids = a or list(t)
    with ThreadPoolExecutor(1 if with_check else 6) as ex:
        for i, r in ex.map(lambda i: one(t[i], with_check), ids):
            print(i, r, flush=True)


main()
