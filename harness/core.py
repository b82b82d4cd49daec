"""Check runner: plan scenarios, execute them against the real code in worker processes, validate the
recorded traces with TLC, write evidence, report."""
import argparse
import hashlib
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/venv/bin/python'
JAVA = ['java', '-XX:+UseParallelGC', '-XX:ActiveProcessorCount=2', '-Xss16m']
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', PYTHONWARNINGS='ignore')


class MachineryError(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.dir = tempfile.mkdtemp(prefix='verif_%s_' % pid)
        self.states = self.distinct = 0
        self.models = []
        self.lock, self.local = threading.Lock(), threading.local()     # models may be run at the same time
        self.t0 = time.time()

    # ---- TLC --------------------------------------------------------------------------------
    def tlc(self, module, cfg_text, env=None, args=(), timeout=600, workers=1, heap='2g', tag=None):
        """Run TLC on spec/<module>.tla with the given configuration; returns (exit code, output)."""
        d = tempfile.mkdtemp(prefix='tlc_', dir=self.dir)
        cfg = os.path.join(d, module + '.cfg')
        with open(cfg, 'w') as f:
            f.write(cfg_text)
        cmd = JAVA + ['-Xmx' + heap, '-Djava.io.tmpdir=' + d, '-DTLA-Library=' + SPEC, '-cp', CP, 'tlc2.TLC', '-config', cfg, '-metadir', os.path.join(d, 'm'),
                      '-workers', str(workers), '-noGenerateSpecTE', '-checkpoint', '0'] + list(args) + \
              [os.path.join(SPEC, module + '.tla')]
        e = dict(ENV)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on %s' % module)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
        if m:
            n = (int(m[-1][0]), int(m[-1][1]))
        else:
            m = re.findall(r'The number of states generated: (\d+)', r.stdout)
            n = (int(m[-1]) if m else 0, 0)
        self.local.count = n
        with self.lock:
            self.states += n[0]
            self.distinct += n[1]
        shutil.rmtree(d, ignore_errors=True)
        return r.returncode, r.stdout

    def model(self, module, cfg_text, **k):
        """Check the design: an exhaustive (or simulated) TLC run that has to succeed.  Returns printed
        JSON behaviours (lines produced by PrintT(ToJson(..)))."""
        t0 = time.time()
        rc, out = self.tlc(module, cfg_text, **k)
        if rc != 0:
            sys.stderr.write(out[-4000:])
            raise MachineryError('TLC rejected the design model %s (exit %d)' % (module, rc))
        self.models.append({'module': module, 'states_generated': self.local.count[0], 'distinct': self.local.count[1],
                            'seconds': round(time.time() - t0, 1)})
        beh = []
        for l in out.splitlines():
            if l.startswith('"{') or l.startswith('"['):
                try:
                    beh.append(json.loads(json.loads(l)))
                except ValueError:
                    raise MachineryError('cannot parse behaviour: ' + l[:200])
        return beh


def run_workers(ctx, modname, scenarios, nworkers, per_timeout):
    """Execute scenarios in worker processes.  A worker that dies or hangs yields a crash record for the
    scenario it was executing; it is then restarted on the remaining ones."""
    slices = [scenarios[i::nworkers] for i in range(nworkers)]

    def one(k):
        todo, results = list(slices[k]), []
        while todo:
            fin = os.path.join(ctx.dir, 'in_%d.json' % k)
            fout = os.path.join(ctx.dir, 'out_%d.ndjson' % k)
            with open(fin, 'w') as f:
                json.dump(todo, f)
            open(fout, 'w').close()
            p = subprocess.Popen([PY, os.path.join(VERIF, 'harness', 'worker.py'), modname, fin, fout],
                                 env=dict(ENV, VERIF_TIER=ctx.tier, VERIF_SEED=str(ctx.seed)), stdout=subprocess.DEVNULL,
                                 stderr=subprocess.PIPE, text=True, cwd=ctx.dir)
            last, lastt, done = -1, time.time(), 0
            hung = False
            while True:
                try:
                    p.wait(0.2)
                    break
                except subprocess.TimeoutExpired:
                    sz = os.path.getsize(fout)
                    if sz != last:
                        last, lastt = sz, time.time()
                    elif time.time() - lastt > per_timeout:
                        hung = True
                        p.kill()
                        p.wait()
                        break
            err = p.stderr.read()
            got = [json.loads(l) for l in open(fout) if l.endswith('\n')]
            results += got
            done = len(got)
            if done < len(todo):
                if not hung and p.returncode == 3:
                    raise MachineryError('worker: ' + err[-2000:])
                why = 'no answer within %d s' % per_timeout if hung else 'worker died with %s' % p.returncode
                results.append({'scn': todo[done]['id'], 'records': [{'ev': 'crash', 'msg': why}]})
                done += 1
                if hung and sum(1 for r in results if r['records'] and r['records'][0].get('ev') == 'crash') >= 3:
                    break       # enough to report; do not wait for every scenario to hang
            todo = todo[done:]
        return results
    with ThreadPoolExecutor(nworkers) as ex:
        return [r for rs in ex.map(one, range(nworkers)) for r in rs]


def validate(ctx, module, results, cfg, chunks, timeout=700):
    """Validate the recorded traces with TLC.  Returns list of (scenario id, record index, clauses)."""
    results = [r for r in results if r['records']]
    parts = [results[i::chunks] for i in range(chunks)]

    def one(k):
        recs, where = [], []
        for r in parts[k]:
            for j, rec in enumerate(r['records']):
                rec = dict(rec)
                rec['first'] = j == 0
                recs.append(rec)
                where.append((r['scn'], j))
        if not recs:
            return [], 0
        fn = os.path.join(ctx.dir, 'trace_%s_%d.ndjson' % (module, k))
        bad, start = [], 0
        while start < len(recs):
            with open(fn, 'w') as f:
                for rec in recs[start:]:
                    f.write(json.dumps(rec) + '\n')
            rc, out = ctx.tlc(module, cfg, env={'TRACE': fn}, timeout=timeout, heap='3g')
            flat = ' '.join(out.split())
            for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*\{(.*?)\}\s*>>', flat):
                i = start + int(m.group(1)) - 1
                bad.append((where[i][0], where[i][1], sorted(re.findall(r'"([^"]*)"', m.group(2)))))
            if rc == 0:
                break
            # An expression of the specification could not be evaluated on what the code produced
            # (a value of an unexpected shape): this record is not a behaviour of the specification.
            if rc in (75, 76, 150, 151, 152, 153, 154, 10, 11, 12, 13, 14, 255, 1) and \
                    ('The error occurred' in out or 'Attempted to' in out or 'evaluat' in out) and \
                    'ndJsonDeserialize' not in out and 'Parsing' not in out.split('Starting')[-1] and 'OutOfMemory' not in out:
                m = re.findall(r'/\\ l = (\d+)', out) or re.findall(r'\bl = (\d+)', out)
                i = start + (int(m[-1]) if m else 0)
                if i >= len(recs):
                    raise MachineryError('TLC failed (%d) on %s:\n%s' % (rc, module, out[-3000:]))
                bad.append((where[i][0], where[i][1], ['EvaluationFails: ' + out[out.find('Error'):][:300]]))
                # resume with the next scenario
                j = i + 1
                while j < len(recs) and not recs[j]['first']:
                    j += 1
                start = j
                continue
            raise MachineryError('TLC failed (%d) on %s:\n%s' % (rc, module, out[-3000:]))
        return bad, len(recs)
    with ThreadPoolExecutor(chunks) as ex:
        rs = list(ex.map(one, range(chunks)))
    return [b for r in rs for b in r[0]], sum(r[1] for r in rs)


def load_known(pid):
    """finding: property=<id> match=<regular expression over "<scenario key> <clauses>"> what=<text>"""
    res = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) match=(\S+) what=(.*)', l.strip())
            if m and m.group(1) == pid:
                res.append((re.compile(m.group(2)), m.group(3)))
    except FileNotFoundError:
        pass
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay', help='re-execute the scenario of a replay file')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    sys.path.insert(0, os.path.join(VERIF, 'harness'))
    ctx = Ctx(a.pid, a.tier, a.seed)
    try:
        sys.exit(check(ctx, a))
    except MachineryError as e:
        sys.stderr.write('MACHINERY %s\n' % e)
        sys.exit(2)
    finally:
        if not a.keep:
            shutil.rmtree(ctx.dir, ignore_errors=True)


def check(ctx, a):
    mod = importlib.import_module(a.pid.lower())
    stages = mod.STAGES           # list of dicts: module (trace spec), plan(ctx) -> scenarios
    bad_total, nrec, nscn, nontrivial, samples = [], 0, 0, 0, []
    known, knownhits = load_known(a.pid), []
    by_key = {}
    for st in stages:
        t0 = time.time()
        if a.replay:
            rp = json.load(open(a.replay))
            if rp['stage'] != st['name']:
                continue
            scns = [rp['scenario']]
        else:
            scns = st['plan'](ctx)
        for i, s in enumerate(scns):
            s.setdefault('id', '%s-%d' % (st['name'], i))
            s['stage'] = st['name']
        ids = {s['id']: s for s in scns}
        assert len(ids) == len(scns)
        tp = time.time()
        res = run_workers(ctx, a.pid.lower(), scns, min(st.get('workers', 6), max(1, len(scns))), st.get('timeout', 60))
        te = time.time()
        cfg = st.get('cfg', 'SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n')
        total = sum(len(r['records']) for r in res)
        bad, n = validate(ctx, st['module'], res, cfg, max(1, min(st.get('chunks', 4), total // 10 + 1)))
        sys.stderr.write('# %s: plan %.1fs execute %.1fs validate %.1fs records %d\n' % (st['name'], tp - t0, te - tp, time.time() - te, n))
        if n != total or total == 0:
            raise MachineryError('stage %s validated %d of %d records' % (st['name'], n, total))
        nrec += n
        nscn += len(res)
        recs = {r['scn']: r['records'] for r in res}
        if res and len(samples) < 3:
            r = res[len(res) // 2]
            samples.append({'stage': st['name'], 'scenario': clip(ids[r['scn']]), 'last_record': clip(r['records'][-1])})
        hist = {}
        for r in res:
            for rec in r['records']:
                hist[rec.get('ev', '?')] = hist.get(rec.get('ev', '?'), 0) + 1
        by_key[st['name']] = hist
        nontrivial += len({hashlib.md5(json.dumps(r['records'], sort_keys=True).encode()).hexdigest() for r in res})
        for scn, j, clauses in bad:
            sig = '%s %s' % (ids[scn].get('key', scn), ','.join(clauses))
            hit = next((w for rx, w in known if rx.search(sig)), None)
            if hit:
                knownhits.append(hit)
                continue
            bad_total.append((st['name'], ids[scn], j, clauses, recs[scn]))
    wall = time.time() - ctx.t0
    if not a.replay:
        ev = {
            'property': a.pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'model_checking',
            'coverage': {
                'states': ctx.distinct if ctx.models else ctx.states, 'transitions': ctx.states,
                'traces_validated_against_impl': nscn, 'trace_records_validated': nrec,
                'distinct_traces': nontrivial,
                'records_by_event': by_key, 'design_models': ctx.models, 'samples': samples,
            },
            'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(bad_total),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', a.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for w in sorted(set(knownhits)):
        print('KNOWN-FINDING: property=%s %s' % (a.pid, w))
    if not bad_total:
        print('OK property=%s traces=%d records=%d distinct=%d states=%d models=%s wall=%.1fs' % (
            a.pid, nscn, nrec, nontrivial, ctx.states, [(m['module'], m['distinct'] or m['states_generated']) for m in ctx.models], wall))
        return 0
    stage, scn, j, clauses, recs = bad_total[0]
    rdir = os.path.join(VERIF, 'replay', a.pid)
    os.makedirs(rdir, exist_ok=True)
    firsts = {}
    for b in bad_total:         # the first failing record of every scenario
        if (b[0], b[1]['id']) not in firsts or firsts[b[0], b[1]['id']][2] > b[2]:
            firsts[b[0], b[1]['id']] = b
    for k, (stage, scn, j, clauses, recs) in enumerate(list(firsts.values())[:10]):
        path = os.path.join(rdir, '%s.json' % re.sub(r'[^A-Za-z0-9_.-]', '_', scn['id']))
        with open(path, 'w') as f:
            json.dump({'property': a.pid, 'stage': stage, 'scenario': scn, 'failing_record': j, 'clauses': clauses,
                       'records': recs[max(0, j - 1):j + 1]}, f)
        if k < 5:
            print('stage %s scenario %s record %d (%s): %s' % (stage, scn['id'], j, recs[j].get('ev'), ', '.join(clauses)))
            for key in ('exc', 'msg'):
                if recs[j].get(key):
                    print('   ', recs[j][key])
        print('VIOLATION property=%s replay=%s' % (a.pid, path))
    print('%d failing records in %d traces' % (len(bad_total), nscn))
    return 1


def clip(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + '...'


if __name__ == '__main__':
    main()
