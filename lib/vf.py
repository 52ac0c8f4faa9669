"""Shared machinery of the checks: TLC runs, drivers under the repository's interpreter, verdicts, evidence."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
PY = '/opt/pvenv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class HarnessError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.rng = random.Random('%s-%s' % (prop, seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.states = self.transitions = self.traces = self.checks = 0
        self.samples, self.assumptions, self.violations, self.notes = [], [], [], {}
        self.known_hit = []
        self.known = load_known(prop)
        self._n = 0
        self.coverage_extra = {}

    def n(self, quick, thorough=None):
        return quick if self.quick else (thorough if thorough is not None else quick * 10)

    # -- TLC -------------------------------------------------------------
    def tlc(self, module, consts=None, init='Init', next='Next', inv=(), props=(), spec=None, constraint=(),
            view=None, cases=None, simulate=None, depth=None, workers=4, post=None, timeout=800, heap='3g', deadlock=False,
            env=None, count=True, allow_violation=False):
        """Runs TLC on specs/<module>.tla; returns dict(printed=[...], generated, distinct, violated, out)."""
        self._n += 1
        d = os.path.join(self.scratch, 'tlc%d' % self._n)
        os.mkdir(d)
        for f in os.listdir(os.path.join(VERIF, 'specs')):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(VERIF, 'specs', f), d)
        cfg = []
        if spec:
            cfg.append('SPECIFICATION ' + spec)
        else:
            cfg += ['INIT ' + init, 'NEXT ' + next]
        if consts:
            cfg.append('CONSTANTS')
            cfg += ['  %s = %s' % (k, tla(v)) if not isinstance(v, Subst) else '  %s <- %s' % (k, v.name)
                    for k, v in consts.items()]
        if inv:
            cfg.append('INVARIANTS ' + ' '.join(inv))
        if props:
            cfg.append('PROPERTIES ' + ' '.join(props))
        if constraint:
            cfg.append('CONSTRAINTS ' + ' '.join(constraint))
        if view:
            cfg.append('VIEW ' + view)
        if post:
            cfg.append('POSTCONDITION ' + post)
        cfg.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
        open(os.path.join(d, 'run.cfg'), 'w').write('\n'.join(cfg) + '\n')
        e = dict(os.environ)
        e.update(env or {})
        if cases is not None:
            e['CASES'] = os.path.join(d, 'cases.json')
            with open(e['CASES'], 'w') as f:
                json.dump(cases, f)
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + d, '-cp', JARS, 'tlc2.TLC', '-config', 'run.cfg',
               '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 100), '-seed', str(self.seed)]
            workers = 1
        cmd += ['-workers', str(workers), module + '.tla']
        outf = os.path.join(d, 'out.txt')
        t1 = time.time()
        with open(outf, 'w') as f:
            try:
                p = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise HarnessError('TLC timed out on ' + module)
        if os.environ.get('VERIF_TIMING'):
            print('  [tlc %s %.1fs]' % (module, time.time() - t1))
        printed, other = [], []
        with open(outf, encoding='utf-8') as f:
            for line in f:
                if line.startswith('"{') or line.startswith('"['):
                    try:
                        printed.append(json.loads(json.loads(line.replace('\t', '\\t'))))
                        continue
                    except ValueError:
                        pass
                other.append(line)
        out = ''.join(other)
        m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        gen = dist = 0
        if m:
            gen, dist = int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))
        else:
            m = re.findall(r'([\d,]+) states checked', out) or re.findall(r'generated ([\d,]+) states', out)
            if m:
                gen = dist = int(m[-1].replace(',', ''))
        violated = re.search(r'(Invariant|Action property|Temporal properties|property) ?(\S*) ?(is|was|were)? ?violated', out)
        ok = p.returncode == 0
        if not ok and not (violated and allow_violation):
            keep = os.path.join('/tmp', 'tlc-%s-%s.log' % (self.prop, module))
            raise HarnessError('TLC failed on %s (rc %s):\n%s' % (module, p.returncode, tail(out)))
        if count:
            self.states += dist
            self.transitions += gen
        shutil.rmtree(d, ignore_errors=True)
        return dict(printed=printed, generated=gen, distinct=dist, violated=bool(violated), out=out)

    def validate(self, module, cases, label, consts=None, workers=4, chunk=None, **kw):
        """Trace validation: every case = {id, init, steps:[...]} recorded from the real code is checked by the
        specification module (which reports {"case","step","clause","expect"} for the first bad step of each case)."""
        bad = []
        if not cases:
            raise HarnessError('no cases for ' + module)
        r = self.tlc(module, consts=consts, init='TInit', next='TNext', inv=['TReport'], cases=cases, workers=workers, **kw)
        want = sum(len(c['steps']) + 1 for c in cases)
        for v in r['printed']:
            bad.append(v)
        lost = sum(len(cases[v['case'] - 1]['steps']) - v['step'] for v in bad)
        if r['distinct'] != want - lost:
            raise HarnessError('%s: trace validation consumed %d of %d states' % (module, r['distinct'], want - lost))
        self.traces += len(cases)
        for v in bad:
            c = cases[v['case'] - 1]
            self.violation('%s: %s' % (label, v['clause']), dict(case=c, step=v['step'], clause=v['clause'], expect=v.get('expect'),
                                                                 event=c['steps'][v['step'] - 1]), key=c.get('key'))
        return bad

    # -- drivers -----------------------------------------------------------
    def drive(self, driver, cases, jobs=8, case_timeout=30, timeout=800, env=None):
        """Runs drivers/<driver>.py (under the repository's interpreter) over the cases, in parallel processes."""
        if not cases:
            raise HarnessError('no cases for driver ' + driver)
        self._n += 1
        base = os.path.join(self.scratch, 'drv%d' % self._n)
        os.mkdir(base)
        jobs = max(1, min(jobs, len(cases)))
        chunks = [cases[i::jobs] for i in range(jobs)]
        procs = []
        for j, ch in enumerate(chunks):
            w = os.path.join(base, 'w%d' % j)
            os.makedirs(os.path.join(w, 'home'))
            os.makedirs(os.path.join(w, 'tmp'))
            with open(os.path.join(w, 'in.json'), 'w') as f:
                json.dump(ch, f)
            e = dict(os.environ, PYTHONPATH=os.path.join(REPO, 'src') + ':' + os.path.join(VERIF, 'drivers'),
                     PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPYCACHEPREFIX=os.path.join(self.scratch, 'pyc'), HOME=os.path.join(w, 'home'),
                     TMPDIR=os.path.join(w, 'tmp'), VERIF_CASE_TIMEOUT=str(case_timeout), PYTHONIOENCODING='utf-8', LC_ALL='C.UTF-8')
            e.update(env or {})
            log = open(os.path.join(w, 'log.txt'), 'w')
            procs.append((w, subprocess.Popen([PY, os.path.join(VERIF, 'drivers', 'base.py'), driver, 'in.json', 'out.json'],
                                              cwd=w, env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)))
        res = [None] * jobs
        end = time.time() + timeout
        for j, (w, p) in enumerate(procs):
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                for _, q in procs:
                    try:
                        os.killpg(q.pid, 9)
                    except OSError:
                        pass
                raise HarnessError('driver %s timed out' % driver)
            if rc != 0 or not os.path.exists(os.path.join(w, 'out.json')):
                raise HarnessError('driver %s failed (rc %s):\n%s' % (driver, rc, tail(open(os.path.join(w, 'log.txt'), errors='replace').read())))
            with open(os.path.join(w, 'out.json')) as f:
                res[j] = json.load(f)
        if os.environ.get('VERIF_TIMING'):
            print('  [drive %s %d cases %.1fs]' % (driver, len(cases), timeout - (end - time.time())))
        out = [None] * len(cases)
        for j in range(jobs):
            for k, r in enumerate(res[j]):
                out[j + k * jobs] = r
        for c, r in zip(cases, out):
            if isinstance(r, dict) and 'harness_error' in r:
                raise HarnessError('driver %s: %s\ncase %s' % (driver, r['harness_error'], json.dumps(c)[:2000]))
        shutil.rmtree(base, ignore_errors=True)
        return out

    def settle(self, cases, results, label):
        """Splits off results where the real code did not return in time or failed with an error that no operation
        of the case allows; each is a violation."""
        keep = []
        for c, r in zip(cases, results):
            if isinstance(r, dict) and r.get('hang'):
                self.violation(label + ': does not terminate', dict(case=c), key=c.get('key'))
            elif isinstance(r, dict) and 'crash' in r:
                self.violation(label + ': unexpected error ' + r['crash'].strip().split('\n')[-1][:200], dict(case=c, error=r['crash']), key=c.get('key'))
            else:
                keep.append((c, r))
        return keep

    # -- verdicts ------------------------------------------------------------
    def violation(self, msg, data=None, key=None):
        if key is not None and key in self.known:
            if key not in self.known_hit:
                self.known_hit.append(key)
            return
        self.violations.append((msg, data))

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 3000 else s[:3000] + '...')

    def assume(self, *a):
        self.assumptions += a

    def finish(self, level):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples)
        cov.update(self.coverage_extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, k, self.known[k]))
        missing = [k for k in self.known if k not in self.known_hit]
        for k in missing:
            print('note: known finding %s was not reproduced by this run' % k)
        if self.violations:
            path = os.path.join(EVID, self.prop + '.replay.json')
            with open(path, 'w') as f:
                json.dump([dict(what=m, data=d) for m, d in self.violations[:50]], f, indent=1, default=str)
            seen = set()
            for m, d in self.violations:
                if m not in seen and len(seen) < 10:
                    seen.add(m)
                    print('  ' + m + ' ' + json.dumps(d, default=str)[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('OK property=%s states=%d traces=%d wall=%.1fs' % (self.prop, self.states, self.traces, time.time() - self.t0))
        return 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


class Subst:
    def __init__(self, name):
        self.name = name


def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v)) + '}'
    raise TypeError(v)


def q(s):
    return '"%s"' % s


def tail(s, n=3500):
    return s[-n:]


def load_known(prop):
    """known_findings.txt lines: 'known: property=<id> key=<key> <what>' (fixed: lines suppress nothing)."""
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res
