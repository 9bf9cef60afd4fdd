"""Shared machinery of the checks: scratch build of /repo, TLC runs, verdicts.

The orchestrator never imports pydsm.  It
  1. copies /repo's working tree sources to a scratch directory (rebuilding
     the Cython extensions there when they are not up to date),
  2. runs TLC on the bounded models (spec -> scenarios),
  3. runs a driver process that executes the real code on scenarios and
     records an ndjson trace,
  4. runs TLC on the trace specification (trace -> verdicts),
  5. writes the evidence file and reports.
"""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYDSM_REPO', '/repo')
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla'
CP = '%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (TLA, TLA)
BASE_ENV = {
    'SETUPTOOLS_SCM_PRETEND_VERSION': '0.15.2', 'PIP_NO_INDEX': '1',
    'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
    'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1',
    'OMP_NUM_THREADS': '1',
    'PATH': '/opt/venv/bin:/usr/local/bin:/usr/bin:/bin',
}


class Machinery(Exception):
    """The machinery itself failed (not a verdict on the code)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='pydsm-verif-%s-' % pid)
        self.env = dict(os.environ)
        self.env.update(BASE_ENV)
        self.env['HOME'] = os.environ.get('HOME', '/root')
        self.env['MPLCONFIGDIR'] = os.path.join(self.scratch, 'mpl')
        self.env['TMPDIR'] = self.scratch
        self.src = None
        self.violations = []      # dicts: clause, where, replay
        self.known = []
        self.stats = {'states': 0, 'transitions': 0,
                      'traces_validated_against_impl': 0, 'events': 0}
        self.samples = []
        self.parts = []           # free-form description of what ran
        self.actions = {}
        self.replay_n = 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def tmp(self, name):
        return os.path.join(self.scratch, name)

    # -- building -----------------------------------------------------------
    def build(self):
        """Scratch copy of the sources, with up-to-date extensions."""
        t = time.time()
        dst = self.tmp('build')
        os.makedirs(dst)
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(dst, 'src'),
                        ignore=shutil.ignore_patterns('__pycache__',
                                                      '*.egg-info'))
        for f in ('setup.py', 'pyproject.toml', 'README.md', 'MANIFEST.in',
                  'COPYING'):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                shutil.copy(p, dst)
        ver = os.path.join(dst, 'src/pydsm/_version.py')
        if not os.path.exists(ver):
            with open(ver, 'w') as h:
                h.write("version = __version__ = '0.15.2'\n")
        if self._stamp_ok():
            how = 'extensions reused (up to date)'
        else:
            d = os.path.join(dst, 'src/pydsm/delsig')
            for f in os.listdir(d):
                if f.endswith('.so') or (f.startswith('_simulateDSM_') and
                                         f.endswith('.c')):
                    os.remove(os.path.join(d, f))
            r = subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--inplace',
                                '-j2'], cwd=dst, env=self.env,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=400)
            if r.returncode:
                raise Machinery('extension build failed:\n' +
                                r.stdout.decode(errors='replace')[-3000:])
            how = 'extensions rebuilt'
        self.src = os.path.join(dst, 'src')
        self.env['PYTHONPATH'] = self.src + ':' + os.path.join(VERIF,
                                                               'harness')
        log('[%s] %s in %.1fs' % (self.pid, how, time.time()-t))

    def _stamp_ok(self):
        stamp = os.path.join(REPO, 'build/.ext-stamp')
        if not os.path.exists(stamp):
            return False
        files = []
        for top in ('src', 'setup.py', 'pyproject.toml'):
            p = os.path.join(REPO, top)
            if os.path.isfile(p):
                files.append(top)
            for d, _, fs in os.walk(p):
                for f in fs:
                    if (os.path.splitext(f)[1] in
                            ('.pyx', '.pxi', '.pxd', '.h', '.so') or
                            f in ('setup.py', 'pyproject.toml')):
                        files.append(os.path.relpath(os.path.join(d, f),
                                                     REPO))
        lines = set()
        for f in files:
            with open(os.path.join(REPO, f), 'rb') as h:
                lines.add('%s  %s' % (hashlib.sha256(h.read()).hexdigest(),
                                      f))
        with open(stamp) as h:
            want = set(h.read().split('\n')) - {''}
        return lines == want and any(f.endswith('.so') for f in files)

    # -- running drivers ----------------------------------------------------
    def drive(self, script, *args, **kw):
        """Run a driver (real code) as a separate process."""
        t = time.time()
        timeout = kw.get('timeout', 600)
        cmd = [PY, os.path.join(VERIF, 'harness', script)] + [str(a) for a
                                                             in args]
        env = dict(self.env)
        env['VERIF_SEED'] = str(self.seed)
        env['VERIF_TIER'] = self.tier
        env.update(kw.get('env', {}))
        p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, cwd=self.scratch,
                             start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            rc = 'timeout'
        out = out.decode(errors='replace')
        log('[%s] driver %s %s: rc=%s %.1fs' % (self.pid, script,
                                                ' '.join(map(str, args))[:60],
                                                rc, time.time()-t))
        return rc, out

    def drive_parts(self, parts, script, *args, **kw):
        """Run several drivers that share the scenarios.  The last argument is
        the trace file, in which what they write is joined."""
        from concurrent.futures import ThreadPoolExecutor
        head, tr = args[:-1], args[-1]

        def one(k):
            return self.drive(script, *(head+('%s.%d' % (tr, k),)), **dict(
                kw, env={'VERIF_PART': '%d/%d' % (k, parts),
                         'OMP_NUM_THREADS': '1',
                         'OPENBLAS_NUM_THREADS': '1'}))
        with ThreadPoolExecutor(parts) as ex:
            res = list(ex.map(one, range(parts)))
        for rc, out in res:
            if rc != 0:
                return rc, out
        with open(tr, 'w') as g:
            for k in range(parts):
                with open('%s.%d' % (tr, k)) as h:
                    g.write(h.read())
        return 0, '\n'.join(out for rc, out in res)

    # -- TLC ----------------------------------------------------------------
    def java(self):
        d = self.tmp('cls')
        if not os.path.isdir(d):
            os.makedirs(d)
            r = subprocess.run(
                ['javac', '-nowarn', '-cp', CP, '-d', d,
                 os.path.join(VERIF, 'java/tlc2/module/Dec.java')],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise Machinery('javac: ' + r.stdout.decode())
        return d

    def tlc(self, module, cfg, env=None, workers=8, timeout=800, simulate=None,
            heap='6g', coverage=False):
        """Run TLC on spec/<module>.tla with cfg text; returns a dict."""
        t = time.time()
        cls = self.java()
        run = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        cfgf = os.path.join(run, module + '.cfg')
        with open(cfgf, 'w') as h:
            h.write(cfg)
        e = dict(self.env)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-cp', cls + ':' + CP, '-DTLA-Library=' +
               os.path.join(VERIF, 'spec'), 'tlc2.TLC',
               '-metadir', os.path.join(run, 'states'), '-noGenerateSpecTE',
               '-workers', str(workers), '-config', cfgf]
        if simulate:
            cmd += ['-simulate', simulate, '-seed', str(self.seed)]
        else:
            cmd += ['-fp', '0', '-seed', str(self.seed)]
        if coverage:
            cmd += ['-coverage', '1']
        cmd += [os.path.join(VERIF, 'spec', module + '.tla')]
        p = subprocess.Popen(cmd, env=e, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, cwd=run,
                             start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise Machinery('TLC timeout on %s' % module)
        out = out.decode(errors='replace')
        res = {'out': out, 'rc': p.returncode, 'module': module,
               'generated': 0, 'distinct': 0}
        m = re.findall(r'(\d+) states generated, (\d+) distinct', out)
        if m:
            res['generated'], res['distinct'] = map(int, m[-1])
        res['ok'] = 'Model checking completed. No error has been found' \
            in out or (simulate and p.returncode == 0)
        err = re.findall(r'^Error: (.*(?:\n(?!\n).*){0,12})', out, re.M)
        res['error'] = '\n'.join(err)[:3000]
        log('[%s] TLC %s: %d states, ok=%s, %.1fs' % (
            self.pid, module, res['distinct'], bool(res['ok']),
            time.time()-t))
        shutil.rmtree(os.path.join(run, 'states'), ignore_errors=True)
        return res

    # -- the two standard steps ---------------------------------------------
    def model(self, module, cfg, env=None, what='', **kw):
        """Check a bounded model; a failure is a failure of the machinery
        (the model does not depend on the code)."""
        r = self.tlc(module, cfg, env, **kw)
        if not r['ok']:
            raise Machinery('model %s failed:\n%s\n%s' % (
                module, r['error'], r['out'][-3000:]))
        self.stats['states'] += r['distinct']
        self.stats['transitions'] += r['generated']
        self.parts.append('%s: %s (%d distinct states)' % (module, what,
                                                           r['distinct']))
        return r

    def models(self, jobs, **kw):
        """Check several independent bounded models at the same time; jobs
        are (module, cfg, what)."""
        from concurrent.futures import ThreadPoolExecutor
        self.java()
        kw = dict({'workers': 2, 'heap': '3g'}, **kw)
        with ThreadPoolExecutor(8) as ex:
            futs = [ex.submit(self.model, m, cfg, what=what, **kw)
                    for m, cfg, what in jobs]
            return [f.result() for f in futs]

    def validate(self, module, trace, consts='', env=None, what='', **kw):
        """Validate the ndjson trace (one scenario per line, field 'ev' the
        events) against trace spec `module`.

        The trace spec prints <<"BAD", tid, i, clause>> for every event it
        cannot accept and ends with <<"DONE", ...>> bookkeeping through the
        number of distinct states."""
        with open(trace) as h:
            scen = [json.loads(l) for l in h if l.strip()]
        if not scen:
            raise Machinery('empty trace for %s' % module)
        nev = sum(len(s['ev']) for s in scen)
        e = {'TRACE_FILE': trace}
        e.update(env or {})
        cfg = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n' + consts
        r = self.tlc(module, cfg, e, **kw)
        bad = set()
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"([^"]*)"',
                             r['out']):
            bad.add((int(m.group(1)), int(m.group(2)), m.group(3)))
        for t, i, clause in sorted(bad):
            s = scen[t-1]
            self.violation(clause, {'scenario': s, 'event': i,
                                    'module': module},
                           key=s.get('key', ''))
        if not r['ok']:
            # The specification could not even evaluate the recorded
            # behaviour: it is not a behaviour of the specification.
            m = re.findall(r'tid = (\d+)', r['out'])
            t = int(m[-1]) if m else 0
            s = scen[t-1] if t else scen[0]
            if not bad:
                self.violation('spec-cannot-accept-trace',
                               {'scenario': s, 'module': module,
                                'tlc': r['error'][:1500],
                                'out': r['out'][-1500:]},
                               key=s.get('key', ''))
        elif r['distinct'] < nev + len(scen):
            raise Machinery('%s: %d states for %d events in %d traces' % (
                module, r['distinct'], nev, len(scen)))
        self.stats['states'] += r['distinct']
        self.stats['transitions'] += r['generated']
        self.stats['traces_validated_against_impl'] += len(scen)
        self.stats['events'] += nev
        for k in (0, len(scen)//2, len(scen)-1):
            if len(self.samples) < 8:
                self.samples.append(json.dumps(scen[k])[:600])
        self.parts.append('%s: %s (%d traces, %d events)' % (
            module, what, len(scen), nev))
        for s in scen:
            for ev in s['ev']:
                k = '%s/%s' % (module, ev.get('op', s.get('kind', '-')))
                self.actions[k] = self.actions.get(k, 0) + 1
        return r

    def violation(self, clause, info, key=''):
        self.violations.append({'clause': clause, 'info': info, 'key': key})

    def driver_failed(self, rc, out, what):
        """The driver died on the real code (import failure, crash, hang)."""
        self.violation('driver-%s' % what, {'rc': rc, 'output': out[-3000:]},
                       key='driver')

    def scen_file(self, res, name):
        """Scenarios printed by a model, one JSON per line."""
        p = self.tmp(name)
        # sorted: the order in which TLC's workers print is not fixed
        s = sorted(set(json.loads(l)[4:] for l in res['out'].split('\n')
                       if l.startswith('"SCEN')))
        n = len(s)
        with open(p, 'w') as h:
            h.write('\n'.join(s) + '\n')
        if not n:
            raise Machinery('no scenarios from %s' % res['module'])
        return p

    # -- finishing ----------------------------------------------------------
    def finish(self):
        known = load_known()
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.pid + '-'):
                os.remove(os.path.join(rdir, f))
        new, seen_known = [], {}
        for v in self.violations:
            k = match_known(known, self.pid, v)
            if k is not None:
                seen_known.setdefault(k['id'], (k, 0))
                seen_known[k['id']] = (k, seen_known[k['id']][1] + 1)
            else:
                new.append(v)
        for kid in sorted(seen_known):
            k, n = seen_known[kid]
            print('KNOWN-FINDING: property=%s %s (%d traces)' % (
                self.pid, k['what'], n))
        lines, shown = [], {}
        for v in new:
            if shown.get(v['clause'], 0) >= 3 or len(lines) >= 12:
                continue
            shown[v['clause']] = shown.get(v['clause'], 0) + 1
            self.replay_n += 1
            f = os.path.join(rdir, '%s-%d.json' % (self.pid, self.replay_n))
            with open(f, 'w') as h:
                json.dump(v, h, indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (self.pid, f))
            print(lines[-1] + '  clause=%s' % v['clause'])
            log('   ', v['key'], json.dumps(v['info'])[:300])
        cov = dict(self.stats)
        cov['samples'] = self.samples
        cov['parts'] = self.parts
        cov['events_by_action'] = self.actions
        cov['known_findings'] = sorted(seen_known)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': 'model_checking', 'coverage': cov,
              'wall_s': round(time.time()-self.t0, 2),
              'violations': len(new)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'),
                  'w') as h:
            json.dump(ev, h, indent=1)
        log('[%s] %d traces, %d events, %d violations, %.1fs' % (
            self.pid, self.stats['traces_validated_against_impl'],
            self.stats['events'], len(new), time.time()-self.t0))
        return 1 if new else 0


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as h:
        return json.load(h)['findings']


def match_known(known, pid, v):
    for k in known:
        if k['property'] == pid and k.get('status') == 'open' and \
                k['clause'] == v['clause'] and v['key'] in k['keys']:
            return k
    return None
