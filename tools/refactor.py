"""Behaviour-preserving rewrites of the code: the checks have to stay quiet on them.
refactor.py [ids]   applies each to a scratch copy of /repo and runs the stable tests' checks named for it."""
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))


def one(r):
    d = '/tmp/refactor.%d.%s' % (os.getpid(), r['id'])
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    out = []
    try:
        for f, a, b in r['edits']:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(a) < 1:
                return '%s: NOT FOUND %s' % (r['id'], a[:60])
            open(p, 'w').write(s.replace(a, b, 1))
        for c in r['checks']:
            x = subprocess.run([os.path.join(HERE, 'check.sh'), c], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            ls = [y for y in x.stdout.strip().split('\n') if not y.startswith('#')]
            out.append('%s %s' % (c, 'quiet' if x.returncode == 0 else 'ALARM rc=%d %s' % (x.returncode, ls[:2])))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return '%s: %s' % (r['id'], '; '.join(out))


if __name__ == '__main__':
    from refactors import REFACTORS
    rs = [r for r in REFACTORS if not sys.argv[1:] or r['id'] in sys.argv[1:]]
    with ThreadPoolExecutor(2) as ex:
        for s in ex.map(one, rs):
            print(s, flush=True)
