"""Shared machinery of the checks: builds, driver runs, TLC runs, trace validation, reports."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

import vbuild

ROOT = vbuild.ROOT
SPEC = os.path.join(ROOT, 'spec')
EVID = os.path.join(ROOT, 'evidence')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    """The check itself failed; says nothing about the property."""


class Tlc:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        self.depth = int(m.group(1)) if m else 0


class Check:
    def __init__(self, prop, tier, level='model_checking'):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.assumptions = [], [], []
        self.extra = {}
        self.known = load_known(prop)
        self.known_hit = {}
        self.model_errors = []
        self.skipped = 0

    quick = property(lambda s: s.tier == 'quick')

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- build and run ------------------------------------------------------------
    def build(self, targets):
        try:
            exes = vbuild.build(targets)
        except vbuild.BuildError as e:
            raise CheckError('build failed: %s' % e)
        self.log('built', ', '.join(sorted(exes)))
        return exes

    def run(self, cmd, timeout, env=None, ok=(0,)):
        e = dict(os.environ)
        e.update(env or {})
        d = tempfile.mkdtemp(dir=self.tmp)
        try:
            r = subprocess.run(cmd, cwd=d, env=e, timeout=timeout, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired:
            raise CheckError('timeout: %s' % ' '.join(cmd))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if ok is not None and r.returncode not in ok:
            raise CheckError('%s: exit %d: %s' % (' '.join(cmd), r.returncode,
                                                  r.stdout.decode(errors='replace')[-1500:]))
        return r

    def parallel(self, fns, n=8):
        with ThreadPoolExecutor(n) as ex:
            return list(ex.map(lambda f: f(), fns))

    def file(self, name):
        return os.path.join(self.tmp, name)

    # ---- TLC ------------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=600, args=(), mem='4g', count=True,
            jvm=()):
        meta = tempfile.mkdtemp(dir=self.tmp)
        cmd = ['java', '-Xmx' + mem, '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
               '-Djava.io.tmpdir=' + meta] + list(jvm) + \
              ['-cp', CP, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers),
               '-config', os.path.join(SPEC, cfg or module + '.cfg')] + list(args) + \
              [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, timeout=timeout, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timeout: %s' % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout.decode(errors='replace')
        t = Tlc(out, r.returncode, time.time() - t0)
        if count:
            self.states += t.distinct
            self.transitions += t.generated
        return t

    def model_check(self, module, cfg=None, **kw):
        """Exhaustive check of the model itself; a failure is a failure of the check."""
        t = self.tlc(module, cfg, **kw)
        if t.rc != 0:
            raise CheckError('model %s/%s: TLC exit %d\n%s' % (module, cfg, t.rc, t.out[-3000:]))
        self.log('model %s: %d states, %d transitions, %.1fs' % (cfg or module, t.distinct, t.generated, t.wall))
        return t

    def generate(self, module, cfg=None, marker='@@', **kw):
        """Runs a generator model; returns the JSON values it prints after the marker."""
        t = self.tlc(module, cfg, **kw)
        if t.rc != 0:
            raise CheckError('generator %s/%s: TLC exit %d\n%s' % (module, cfg, t.rc, t.out[-3000:]))
        res = []
        for line in t.out.splitlines():
            if line.startswith('"' + marker):
                res.append(json.loads(json.loads(line)[len(marker):]))
        self.log('generator %s: %d behaviours from %d states, %.1fs' % (cfg or module, len(res), t.distinct, t.wall))
        return res

    # ---- trace validation -------------------------------------------------------------
    def _validate_batch(self, module, cfg, items, timeout, budget=2):
        """items: list of (index, history).  Returns ({index: depth} rejected, [indices with model errors])."""
        path = tempfile.mktemp(dir=self.tmp, suffix='.ndjson')
        with open(path, 'w') as f:
            for _, h in items:
                f.write(json.dumps(h) + '\n')
        t = self.tlc(module, cfg, env={'TRACES': path}, workers=1, timeout=timeout, args=['-deadlock'], mem='3g',
                     jvm=['-Dtlc2.tool.queue.IStateQueue=StateDeque'])
        os.remove(path)
        m = re.search(r'<<"SUMMARY", (\d+), (\d+)>>', t.out)
        if t.rc != 0 or not m or int(m.group(1)) != len(items):
            where = re.findall(r'/\\ th = (\d+)', t.out), re.findall(r'/\\ ti = (\d+)', t.out)
            if not ('behavior up to this point' in t.out and where[0] and where[1]) or 'OutOfMemory' in t.out:
                self.skipped += len(items) - 1
                return {}, [(items[0][0], t.out[-1200:])]
            # The specification has no value for what was observed: an event outside of it.
            k, d = int(where[0][-1]) - 1, int(where[1][-1]) - 1
            rej = {items[k][0]: d}
            rest = items[:k] + items[k + 1:]
            if rest and budget > 0:
                r, e = self._validate_batch(module, cfg, rest, timeout, budget - 1)
                rej.update(r)
                return rej, e
            self.skipped += len(rest)
            return rej, []
        rej = {items[int(h) - 1][0]: int(d) for h, d in re.findall(r'<<"REJ", (\d+), (\d+)>>', t.out)}
        return rej, []

    def validate(self, module, histories, cfg=None, procs=8, timeout=800, count=True):
        """histories: list of event lists.  Returns {index: number of events accepted} for rejected ones."""
        if not histories:
            return {}
        n = max(1, min(procs, len(histories)))
        order = sorted(range(len(histories)), key=lambda k: -len(histories[k]))
        batches = [[] for _ in range(n)]
        for j, k in enumerate(order):
            batches[j % n].append((k, histories[k]))
        res = self.parallel([lambda b=b: self._validate_batch(module, cfg, b, timeout) for b in batches if b], procs)
        rej, errs = {}, []
        for r, e in res:
            rej.update(r)
            errs += e
        if rej:
            again, _ = self._validate_batch(module, cfg, [(k, histories[k]) for k in sorted(rej)[:20]], timeout)
            rej = {k: d for k, d in rej.items() if k in again or k not in sorted(rej)[:20]}
        skipped, self.skipped = self.skipped, 0
        if count:
            self.traces += len(histories) - len(errs) - skipped
        self.model_errors += [(module,) + e for e in errs]
        self.log('%s: %d histories (%d events) validated, %d rejected%s' % (
            module, len(histories) - skipped, sum(map(len, histories)), len(rej), ', %d model errors' % len(errs) if errs else ''))
        return rej

    # ---- reporting ---------------------------------------------------------------------
    def sample(self, what, value):
        if len(self.samples) < 6:
            text = json.dumps(value)
            self.samples.append({'what': what, 'value': value if len(text) < 6000 else text[:6000]})

    def violation(self, what, detail):
        """detail: JSON-able replay information.  Known findings are matched by key."""
        key = detail.get('key') if isinstance(detail, dict) else None
        for k in self.known:
            if key is not None and k['key'] == key:
                self.known_hit[k['key']] = k['text']
                return
        if len(self.violations) >= 10:
            return
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations)))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'what': what, 'detail': detail}, f, indent=1)
        self.violations.append((what, path))
        self.log('violation:', what[:300])

    def reject(self, module, histories, rej, describe=None, limit=5):
        """Turns rejections into violations."""
        for k in sorted(rej)[:200]:
            h, d = histories[k], rej[k]
            ev = h[d] if d < len(h) else None
            key = describe(h, d) if describe else None
            self.violation('%s rejects event %d of a history: %s' % (module, d + 1, json.dumps(ev)[:500]),
                           {'key': key, 'spec': module, 'accepted_events': d, 'rejected_event': ev, 'history': h})

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        os.makedirs(EVID, exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 1), 'assumptions': self.assumptions,
              'violations': len(self.violations)}
        tmp = os.path.join(EVID, self.prop + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.prop + '.json'))
        for text in self.known_hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        if self.violations:
            for what, path in self.violations:
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        if self.model_errors:
            for e in self.model_errors[:1]:
                print('MODEL ERROR', e[0], e[1], e[2])
            return 2
        self.log('held')
        return 0


def load_known(prop):
    """known_findings.txt: '<kind>: property=<id> key=<key> <text>'; only kind 'known' is looked at."""
    res = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                res.append({'key': m.group(2), 'text': m.group(3).strip()})
    return res


def read_runs(path):
    """Splits a driver's log into runs: list of (run event, [events], exit status)."""
    runs, cur = [], None
    with open(path, errors='replace') as f:
        for line in f:
            try:
                ev = json.loads(line)
            except ValueError:
                ev = {'e': 'garbled', 'text': line[:200]}
            if ev['e'] == 'run':
                cur = [ev, [], None]
                runs.append(cur)
            elif ev['e'] == 'exit' and cur is not None:
                cur[2] = ev['st']
            elif cur is not None:
                cur[1].append(ev)
    return [tuple(r) for r in runs]
