"""Orchestration: the real code in subprocesses, TLC, verdicts, evidence."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
NCPU = min(8, os.cpu_count() or 4)


# exit codes of TLC when an expression has no value
EVALUATION = (75, 76, 77, 255)


class CheckError(Exception):
    """The check itself could not give an answer."""


class Run(object):
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.violations = []           # (signature, what, replay payload)
        self.notes = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                    'samples': [], 'parts': []}
        self.n = 0

    def thorough(self):
        return self.tier == 'thorough'

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, '%03d-%s' % (self.n, name))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def left(self, budget):
        return budget - (time.time() - self.t0)

    # ---- real code -----------------------------------------------------
    def env(self):
        e = dict(os.environ)
        e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
                 OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
        return e

    def build(self):
        j = self.path('build.json')
        with open(j, 'w') as f:
            json.dump([], f)
        r = subprocess.run([PY, '-W', 'ignore', os.path.join(HERE, 'driver.py'), j, j + '.out'],
                           capture_output=True, text=True, env=self.env(), cwd=self.dir, timeout=300)
        if r.returncode:
            raise CheckError('the library cannot be built or imported:\n' + r.stderr[-3000:])

    def drive(self, jobs, timeout=400, procs=None):
        """Runs jobs on the real code; returns results in job order."""
        procs = procs or NCPU
        chunks = [jobs[i::procs] for i in range(procs)]
        chunks = [c for c in chunks if c]

        def one(c):
            j = self.path('jobs.json')
            with open(j, 'w') as f:
                json.dump(c, f)
            try:
                r = subprocess.run([PY, '-W', 'ignore', os.path.join(HERE, 'driver.py'), j, j + '.out'],
                                   capture_output=True, text=True, env=self.env(), cwd=self.dir,
                                   timeout=timeout)
            except subprocess.TimeoutExpired:
                return [{'id': c[0]['id'], 'out': None,
                         'fail': ['timeout', 'the library did not finish %d jobs in %d s'
                                  % (len(c), timeout), '']}]
            if r.returncode == 3:
                raise CheckError(r.stderr[-2000:])
            if r.returncode or not os.path.exists(j + '.out'):
                if r.returncode < 0:
                    return [{'id': c[0]['id'], 'out': None,
                             'fail': ['crash', 'interpreter died with signal %d' % -r.returncode,
                                      r.stderr[-1500:]]}]
                raise CheckError('driver failed: ' + r.stderr[-3000:])
            with open(j + '.out') as f:
                out = json.load(f)
            os.remove(j + '.out')
            os.remove(j)
            return out
        with concurrent.futures.ThreadPoolExecutor(procs) as ex:
            got = {}
            for lst in ex.map(one, chunks):
                for r in lst:
                    got[r['id']] = r
        if os.environ.get('VERIF_DEBUG'):
            print('%6.1f drive %d jobs done' % (time.time() - self.t0, len(jobs)), file=sys.stderr)
        res = []
        byid = {j['id']: j for j in jobs}
        for j in jobs:
            r = got.get(j['id'])
            if r is None:
                continue
            r['job'] = byid[j['id']]
            if r['fail']:
                kind = r['fail'][0]
                if kind == 'harness':
                    raise CheckError('harness error in %s: %s' % (j['id'], r['fail'][2]))
                self.violation('library-' + kind, '%s: %s' % (j['id'], r['fail'][1]),
                               {'job': j, 'failure': r['fail']})
            res.append(r)
        return res

    # ---- TLC -------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=NCPU, simulate=None, timeout=800, heap='6g',
            extra=()):
        """Runs TLC; returns (stdout, stats)."""
        meta = self.path('tlc')
        os.makedirs(meta)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', 
               '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
               '-noGenerateSpecTE', '-config', cfg]
        if simulate:
            cmd += ['-simulate', simulate]
        cmd += list(extra) + [module]
        out_f = self.path('out')
        with open(out_f, 'w') as f:
            try:
                r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT,
                                   timeout=timeout)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
        with open(out_f) as f:
            out = f.read()
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?(?:, ([\d,]+) distinct)?', out)
        st = {'generated': 0, 'distinct': 0, 'rc': rc}
        if os.environ.get('VERIF_DEBUG'):
            print('%6.1f tlc %s done' % (time.time() - self.t0, module), cfg, file=sys.stderr)
        if m:
            st['generated'] = int(m[-1][0].replace(',', ''))
            st['distinct'] = int((m[-1][1] or '0').replace(',', ''))
        return out, st

    # ---- model checking the specification --------------------------------
    def model_check(self, module, cfg, name=None, env=None, timeout=600, workers=NCPU, **kw):
        out, st = self.tlc(module, cfg, env=env, timeout=timeout, workers=workers, **kw)
        if 'Model checking completed. No error has been found' not in out:
            raise CheckError('model checking %s/%s did not complete (rc=%s):\n%s'
                             % (module, cfg, st['rc'], out[-3000:]))
        self.cov['states'] += st['distinct']
        self.cov['transitions'] += st['generated']
        self.cov['parts'].append({'part': 'model-check', 'module': module, 'config': name or cfg,
                                  'states': st['distinct'], 'transitions': st['generated'],
                                  'exhaustive_within_config': True})
        return out, st

    def generate(self, module, cfg, env=None, timeout=300, name=None, **kw):
        """Behaviours the specification prints (one per GEN line)."""
        out, st = self.tlc(module, cfg, env=env, timeout=timeout, **kw)
        seqs = [json.loads(json.loads('"' + m + '"'))
                for m in re.findall(r'<<"GEN", "(.*)">>\s*$', out, re.M)]
        if not seqs or st['rc'] != 0:
            raise CheckError('no behaviours from %s/%s (rc=%s):\n%s' % (module, cfg, st['rc'], out[-2000:]))
        self.cov['states'] += st['distinct']
        self.cov['transitions'] += st['generated']
        self.cov['parts'].append({'part': 'generate', 'module': module, 'config': name or cfg,
                                  'states': st['distinct'], 'behaviours': len(seqs)})
        return seqs

    def items(self, fn, items, module, relevant=None, part=None, per=None, cfg=None, timeout=400, **args):
        """Runs a job function over items on the real code and validates the
        trace of each against module."""
        per = per or max(1, min(200, -(-len(items) // (4 * NCPU))))
        mod = _module_of(fn)
        jobs = [{'fn': '%s:%s' % (mod, fn), 'id': '%s-%d' % (fn, i), 'args': dict(args, items=items[i:i + per])}
                for i in range(0, len(items), per)]
        res = self.drive(jobs, timeout=timeout)
        self.check_items(res, module, relevant, part or fn, cfg)

    def check_items(self, res, module, relevant=None, part='traces', cfg=None, chunk=4000):
        flat = []
        for r in res:
            if r['out'] is None:
                continue
            for n, tr in enumerate(r['out']):
                job = dict(r['job'], args=dict(r['job']['args'], items=[r['job']['args']['items'][n]]))
                flat.append({'out': tr, 'job': job})
        for a in range(0, len(flat), chunk):
            self.validate(flat[a:a + chunk], relevant or (lambda *x: True), module + '.tla', (cfg or module) + '.cfg',
                          part=part, timeout=3000)

    # ---- validating recorded traces ---------------------------------------
    def validate(self, results, relevant, module='TraceNet.tla', cfg='TraceNet.cfg', part='traces',
                 get=lambda r: r['out'], timeout=800, size=None):
        """results: driver results whose 'out' is a trace.  relevant(clause)
        says whether a divergence at that clause concerns this property."""
        rs = [r for r in results if r['out'] is not None]
        traces = [get(r) for r in rs]
        if not traces:
            return
        byid = {t['id']: r for t, r in zip(traces, rs)}
        f = self.path('traces.json')
        with open(f, 'w') as fh:
            json.dump(traces, fh)
        out, st = self.tlc(module, cfg, env={'TRACES': f}, timeout=timeout)
        if st['rc'] in EVALUATION and 'OutOfMemory' not in out and 'StackOverflow' not in out:
            # a recorded value is not even of the kind the specification speaks of: which trace?
            if len(rs) == 1:
                self.violation(part + ':not-interpretable', 'trace %s: the recorded values have no meaning in the '
                               'specification' % traces[0]['id'], {'job': rs[0]['job'], 'tlc': out[-3000:]})
                return
            was = len(self.violations)
            for half in (rs[:len(rs) // 2], rs[len(rs) // 2:]):
                self.validate(half, relevant, module, cfg, part, get, timeout)
                if len(self.violations) > was:
                    return
            return
        ended = set(re.findall(r'<<"END", "([^"]+)"', out))
        bads = {}
        for m in re.finditer(r'<<"BAD", "([^"]+)", (\d+), "(\[.*?\])", "(.*?)">>\s*$', out, re.M):
            bads.setdefault(m.group(1), (int(m.group(2)), json.loads(m.group(3).replace('\\"', '"')),
                                         m.group(4)))
        missing = set(byid) - ended - set(bads)
        if missing or st['rc'] not in (0,):
            raise CheckError('trace validation gave no verdict on %d traces (rc=%s):\n%s'
                             % (len(missing), st['rc'], out[-3000:]))
        os.remove(f)
        self.cov['states'] += st['distinct']
        self.cov['transitions'] += st['generated']
        self.cov['traces_validated_against_impl'] += len(ended)
        cut = 0
        for tid, (line, clauses, cand) in sorted(bads.items()):
            r = byid[tid]
            tr = get(r)
            lines = tr.get('lines', [])
            bad_line = lines[line - 1] if 0 < line <= len(lines) else None
            mine = sorted(c for c in clauses if relevant(tid, c, bad_line, tr, line))
            if not mine:
                cut += 1
                self.notes.append('trace %s leaves the specification at line %d (%s), which is not '
                                  'a matter of %s' % (tid, line, ', '.join(clauses), self.prop))
                continue
            self.violation('%s:%s' % (part, mine[0]),
                           'trace %s, line %d (%s): %s' % (tid, line,
                                                           (bad_line or {}).get('op', '?'), ', '.join(mine)),
                           {'job': r['job'], 'line': line, 'clauses': clauses, 'recorded': bad_line,
                            'error': (bad_line or {}).get('errtext'),
                            'cfg': tr.get('cfg'), 'specification': cand[:20000].replace('\\"', '"')})
        self.cov['parts'].append({'part': part, 'module': module, 'traces': len(traces),
                                  'lines': sum(len(t.get('lines', [])) for t in traces),
                                  'accepted': len(ended), 'cut_by_other_clause': cut})
        if len(self.cov['samples']) < 3 and traces:
            t = traces[0]
            self.cov['samples'].append({'trace': t['id'], 'job': rs[0]['job'],
                                        'first_lines': [compact(x) for x in t.get('lines', [])[:4]]})

    # ---- verdict ------------------------------------------------------------
    def violation(self, signature, what, payload):
        self.violations.append((signature, what, payload))

    def finish(self, assumptions=()):
        known = load_known()
        new, old = [], []
        for v in self.violations:
            hit = None
            for k in known:
                if k['property'] == self.prop and re.search(k['match'], v[0] + ' ' + v[1]):
                    hit = k
            (old if hit else new).append((v, hit))
        for k in known:
            if k['property'] == self.prop and any(h is k for _, h in old):
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        rc = 0
        if new:
            rc = 1
            d = os.path.join(ROOT, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            shown = 0
            for (sig, what, payload), _ in new:
                h = hashlib.sha256((sig + what).encode()).hexdigest()[:10]
                p = os.path.join(d, '%s-%s.json' % (self.prop, h))
                with open(p, 'w') as f:
                    json.dump({'property': self.prop, 'signature': sig, 'what': what, 'seed': self.seed,
                               'tier': self.tier, 'payload': payload}, f, indent=1, default=str)
                if shown < 5:
                    print('VIOLATION property=%s replay=%s' % (self.prop, p))
                    print('  ' + sig + ' -- ' + what)
                shown += 1
            if shown > 5:
                print('  ... and %d more' % (shown - 5))
        for n in self.notes[:5]:
            print('note: ' + n)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': self.cov, 'assumptions': list(assumptions),
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %s states=%d transitions=%d traces=%d wall=%.1fs'
              % (self.prop, 'VIOLATED' if rc else 'held', self.cov['states'], self.cov['transitions'],
                 self.cov['traces_validated_against_impl'], time.time() - self.t0))
        return rc


def compact(line):
    out = {}
    for k, v in line.items():
        if k in ('obs', 'get'):
            continue
        if k == 'log':
            v = {a: b for a, b in v.items() if b}
        if v in ('', [], {}, None, False):
            continue
        out[k] = v
    return out


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings']]


def _jars():
    base = '/opt/veriftools/tla'
    jars = [os.path.join(base, f) for f in sorted(os.listdir(base)) if f.endswith('.jar')]
    jars.sort(key=lambda p: 0 if p.endswith('tla2tools.jar') else 1)
    return ':'.join(jars)


JARS = _jars() if os.path.isdir('/opt/veriftools/tla') else ''


def _module_of(fn):
    for mod in ('ops', 'ops2', 'ops3', 'jobs'):
        with open(os.path.join(HERE, mod + '.py')) as f:
            if ('def %s(' % fn) in f.read():
                return mod
    raise CheckError('no job function ' + fn)
