"""Executes build histories (specs/Build.tla) with the real builders in a scratch directory: chains and parallel groups of real Builder
subclasses whose commands are a small script that the driver holds back, lets end, or lets fail."""
import json, os, random, shutil, signal, stat, sys, tempfile, time
from concurrent.futures import wait
from subprocess import TimeoutExpired
from disseminate.builders.builder import Builder
from disseminate.builders.copy import Copy
from disseminate.builders.save_temp import SaveTempFile
from disseminate.builders.composite_builders import SequentialBuilder, ParallelBuilder
from disseminate.builders.environment import Environment
from disseminate.builders.exceptions import BuildError
from disseminate.paths import SourcePath, TargetPath

TOOL = r'''
ctl=$1; id=$2; out=$3; shift 3
IFS='
'
if [ $# -gt 1 ]; then set -- $(for f in "$@"; do echo "$f"; done | LC_ALL=C sort); fi
unset IFS
r="$id("; miss=
for f in "$@"; do
  case "$f" in "$ctl"/../*|/*) ;; *) continue;; esac
  if [ ! -e "$f" ]; then miss=1; fi
  line=
  [ -n "$miss" ] || read -r line < "$f"
  case "$line" in %*) line=$(tail -n 1 "$f");; esac
  r="$r$line,"
done
r="$r)"
echo "start $id" >> "$ctl/log"
read -r outcome nonce < "$ctl/c-$id"
[ -z "$miss" ] || outcome=fail
case "$outcome" in
  ok) echo "$r$nonce" > "$out"; echo "end $id ok $nonce" >> "$ctl/log"; exit 0;;
  loud) yes 'some output' | head -n 20000; yes 'some message' | head -n 20000 >&2; echo "$r$nonce" > "$out"; echo "end $id ok $nonce" >> "$ctl/log"; exit 0;;
  stuck) read -r x < "$ctl/never"; echo late > "$out"; exit 0;;
  noout) rm -f "$out"; echo "end $id noout" >> "$ctl/log"; exit 0;;
  kill) printf half > "$out"; echo "end $id fail" >> "$ctl/log"; kill -9 $$;;
  half) printf half > "$out"; echo "end $id fail" >> "$ctl/log"; exit 3;;
  *) echo "end $id fail" >> "$ctl/log"; echo some output; exit 3;;
esac
'''


def encode(x):
    """a content: the core on the first line (or at the end of a large file), padding that depends on it, and the volatile lines"""
    if x['c'] == '':
        return b''
    if x['c'].startswith('Z'):
        return ('%' + 'z' * 90000 + '\n' + ('/CreationDate (%s)\n' % x['v'] if x['v'] else '') + x['c'] + '\n').encode()
    body = x['c'] + '\n'
    if x['c'].startswith('L'):       # long: so that lines straddle the chunks files are read in
        k = sum(map(ord, x['c'])) % 7
        body += ('%' + 'p' * (4090 - len(body) - 3 + k) + '\n')
    if x['v']:
        body += '/CreationDate (%s)\n/ModDate (%s)\n' % (x['v'], x['v'] * 2)
        if x['c'].endswith('t'):
            body += 'tail\n/ID [<%s>]' % (x['v'] * 3)
        else:
            body += '/ID [<%s>]\n' % (x['v'] * 3)
    elif x['c'].endswith('t'):
        body += 'tail\n'
    return body.encode()


def decode(path):
    if not os.path.exists(path):
        return {'c': '-', 'v': ''}
    with open(path, 'rb') as h:
        b = h.read()
    t = b.decode('latin1')
    if '\n' not in t:
        return {'c': t, 'v': ''}
    c = t.rstrip('\n').rsplit('\n', 1)[-1] if t.startswith('%z') else t.split('\n', 1)[0]
    v = t.split('/CreationDate (', 1)[1].split(')')[0] if '/CreationDate (' in t else ''
    x = {'c': c, 'v': v}
    if encode(x) != b and b != (c + '\n').encode():
        return {'c': 'corrupt %d' % len(b), 'v': ''}
    return x


def command(action, name, tool, ctl, ext, limit):
    class Cmd(Builder):
        available = False
        active_requirements = ('priority',)
        priority = 1
        outfilepath_ext = ext
        infilepath_ext = '.in'
        timeout = limit or Builder.timeout
    Cmd.__name__ = Cmd.__qualname__ = 'Cmd_' + name
    Cmd.tool, Cmd.ctl = tool, ctl
    Cmd.action = 'sh {builder.tool} {builder.ctl} %s {builder.outfilepath} {builder.infilepaths}' % action
    return Cmd


class Unchained(SequentialBuilder):
    chain_on_creation = False
    copy = False
    active_requirements = ('priority',)


class Machine:
    def __init__(self, base, case):
        self.base, self.case = base, case
        self.src = os.path.join(base, 'src')
        self.ctl = os.path.join(base, 'ctl')
        self.tool = os.path.join(self.ctl, 'tool.sh')
        self.events = []
        self.logpos = 0
        self.root = self.env = None
        self.running = []
        self.clock = 1000000000

    def setup(self):
        os.mkdir(self.src)
        os.mkdir(self.ctl)
        for p, text in ((self.tool, TOOL), (os.path.join(self.src, 'a.dm'), 'x\n'), (os.path.join(self.ctl, 'log'), '')):
            with open(p, 'w') as h:
                h.write(text)

        os.mkfifo(os.path.join(self.ctl, 'never'))

    # -- files -----------------------------------------------------------
    def path(self, f):
        return os.path.join(self.base, f)

    def name(self, p):
        return os.path.relpath(os.path.realpath(str(p)), self.base)

    def write(self, f, x):
        p = self.path(f)
        if x['c'] == '-':
            if os.path.exists(p):
                os.remove(p)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as h:
                h.write(encode(x))
        self.ev(e='write', f=f, x=x)

    def ev(self, **kw):
        self.events.append(kw)

    # -- the builders ------------------------------------------------------
    def sp(self, f):
        if f.startswith('src/'):
            return SourcePath(project_root=self.src, subpath=f[4:])
        return TargetPath(target_root=self.base, subpath=f)

    def leaf(self, n):
        pars = [self.sp(f) for f in n.get('ins', [])] + list(n.get('opts', []))
        out = TargetPath(target_root=self.base, subpath=n['out']) if n.get('out') else None
        kw = dict(env=self.env, parameters=pars, outfilepath=out, use_cache=n.get('cache', False))
        if n['kind'] == 'copy':
            b = Copy(**kw)
        elif n['kind'] == 'save':
            b = SaveTempFile(context=self.env.context, save_ext=n.get('ext', '.txt'), **kw)
        else:
            b = command(n['action'], n['s'], self.tool, self.ctl, n.get('ext', '.' + n['action']),
                        self.case.get('timeout'))(**kw)
        self.names[id(b)] = n
        return b

    def make(self, n):
        if n['t'] == 'leaf':
            return self.leaf(n)
        kids = [self.make(k) for k in n['kids']]
        if n['t'] == 'par':
            b = ParallelBuilder(env=self.env, subbuilders=kids)
        elif n.get('chained'):
            pars = [self.sp(f) for f in n.get('ins', [])] + list(n.get('opts', []))
            kw = dict(parameters=pars, subbuilders=kids, use_cache=n.get('cache', False))
            if n.get('out'):
                kw['outfilepath'] = self.sp(n['out'])
            if n.get('outext'):
                d = {'outfilepath_ext': n['outext']}
                if n.get('nameof') is not None:
                    d['subbuilder_for_outfilename'] = kids[n['nameof']]
                cls = type('Named', (SequentialBuilder,), d)
                b = cls(self.env, **kw)
            else:
                b = SequentialBuilder(self.env, **kw)
        else:
            b = Unchained(self.env, subbuilders=kids)
        if not self.case.get('clear', True):
            b.clear_done = False
        self.names[id(b)] = n
        return b

    def flat(self, b, nodes, steps, top):
        i = len(nodes)
        nodes.append(None)
        n = self.names.get(id(b))
        if isinstance(b, (SequentialBuilder, ParallelBuilder)):
            kids = [self.flat(k, nodes, steps, b) for k in b.subbuilders]
            nodes[i] = dict(t='par' if isinstance(b, ParallelBuilder) else 'seq', kids=kids, s='', chained=bool(n and n.get('chained')),
                            ins=[], out='')
            if nodes[i]['chained']:
                nodes[i]['ins'] = sorted(self.name(p) for p in b.infilepaths)
                nodes[i]['out'] = n['out'] if n.get('out') else self.name(b.outfilepath)
        else:
            s = n['s'] if n else 'copy%d' % i
            kind = n['kind'] if n else 'copy'
            ins = [self.name(p) for p in b.infilepaths]
            ins = ins[:1] if kind == 'copy' else sorted(ins)
            d = dict(kind=kind, action=n['action'] if kind == 'cmd' else kind, opts=sorted(str(p) for p in b.not_infilepaths),
                     ins=[dict(f=f, pdf=f.endswith('.pdf')) for f in ins],
                     out=dict(f=self.name(b.outfilepath), pdf=self.name(b.outfilepath).endswith('.pdf')))
            if s in steps and steps[s] != d:
                s = '%s-%d' % (s, i)
            steps[s] = d                # the same step may be there more than once
            self.leaves.setdefault(s, []).append(b)
            nodes[i] = dict(t='leaf', kids=[], s=s, chained=False, ins=[], out='')
            if kind != 'cmd':
                self.hook(s, b)
        return i + 1

    def hook(self, s, b):
        """notes when a step that runs in the process itself writes its output"""
        real = b.build
        out = str(b.outfilepath)

        def build(*a, **kw):
            self.drain()
            mark = None
            if os.path.exists(out):      # a time that no write leaves, next to the present one
                st = os.stat(out)
                mark = st.st_mtime_ns + 1
                os.utime(out, ns=(st.st_atime_ns, mark))
            try:
                return real(*a, **kw)
            finally:
                if os.path.exists(out) and os.stat(out).st_mtime_ns != mark:
                    self.ev(e='sync', s=s, x=decode(out))
        b.build = build

    def session(self):
        if self.env is not None:
            self.env.decider.__del__ if False else None
        self.root = None
        self.env = Environment(src_filepath=os.path.join(self.src, 'a.dm'), target_root=self.base)
        self.tree()

    def tree(self):
        self.finish_all()
        self.names, self.leaves = {}, {}
        tree = self.case['tree']
        if tree['t'] == 'leaf' and tree['kind'] != 'cmd':
            tree = dict(t='par', kids=[tree])        # steps run in the process itself are asked for their status first by the group
        self.root = self.make(tree)
        nodes, steps = [], {}
        self.flat(self.root, nodes, steps, None)
        self.steps = steps
        self.ev(e='tree', nodes=nodes, steps=steps)
        self.gates()

    # -- processes -----------------------------------------------------------
    def actions(self):
        return {s: d['action'] for s, d in self.steps.items() if d['kind'] == 'cmd'}

    def gates(self, outcomes=None):
        for s, a in self.actions().items():
            p = os.path.join(self.ctl, 'c-' + a)
            if os.path.exists(p):
                os.remove(p)
            if outcomes is None or outcomes.get(s) == 'wait':
                os.mkfifo(p)
            else:
                o, n = outcomes.get(s, ['ok', ''])
                with open(p, 'w') as h:
                    h.write('%s %s\n' % (o, n))

    def drain(self):
        with open(os.path.join(self.ctl, 'log')) as h:
            h.seek(self.logpos)
            t = h.read()
        t = t[:t.rfind('\n') + 1]
        self.logpos += len(t)
        by = {a: s for s, a in self.actions().items()}
        for line in t.split('\n'):
            w = line.split(' ')
            if w[0] == 'start':
                self.ev(e='start', s=by[w[1]])
                self.running.append(by[w[1]])
            elif w[0] == 'end':
                s = by[w[1]]
                x = decode(self.path(self.steps[s]['out']['f']))
                if w[2] == 'fail' and x['c'] not in ('-', 'half'):
                    x = {'c': 'unchanged', 'v': ''}
                self.ev(e='end', s=s, outcome=w[2], nonce=w[3] if len(w) > 3 else '', x=x)
                self.running.remove(s)

    def settle_starts(self):
        """waits until every process that was submitted has begun"""
        end = time.time() + 10
        while time.time() < end:
            self.drain()
            open_ = [s for s, bs in self.leaves.items() if any(f is not None and not f.done() for f in [b.future for b in bs])]
            if set(open_) <= set(self.running):
                return
            time.sleep(.002)
        raise RuntimeError('a process did not begin')

    def finish(self, k, outcome, nonce):
        if not self.running:
            return
        s = self.running[k % len(self.running)]
        fs = [b.future for b in self.leaves[s] if b.future is not None]
        with open(os.path.join(self.ctl, 'c-' + self.actions()[s]), 'w') as h:
            h.write('%s %s\n' % (outcome, nonce))
        if fs:
            wait(fs, timeout=10)
        end = time.time() + 10
        while s in self.running and time.time() < end:
            self.drain()
        if s in self.running:
            raise RuntimeError('a process did not end')

    def release(self):
        """a command that ran out of time would go on now"""
        try:
            fd = os.open(os.path.join(self.ctl, 'never'), os.O_WRONLY | os.O_NONBLOCK)
        except OSError:
            return
        os.write(fd, b'go\n')
        os.close(fd)
        time.sleep(.3)

    def finish_all(self):
        while self.running:
            self.finish(0, 'ok', '')

    # -- status ----------------------------------------------------------------
    def call(self, fn):
        try:
            v = fn()
        except (BuildError, TimeoutExpired):
            return 'error'
        except Exception as e:
            return 'error %s' % type(e).__name__
        return 'missing' if str(v).startswith('missing') else str(v)

    def leafpoll(self):
        self.drain()
        for s, bs in self.leaves.items():
            if len(bs) > 1:     # one of them holds the process
                [self.call(lambda: b.status) for b in bs]
            for b in bs:
                self.ev(e='leaf', s=s, v=self.call(lambda: b.status))

    def poll(self):
        self.drain()
        v = self.call(lambda: self.root.status)
        self.ev(e='poll', v=v)
        if v == 'error':
            self.leafpoll()

    def build(self, complete=False, outcomes=None):
        self.poll()
        if complete:
            self.finish_all()
            self.poll()
            self.gates(outcomes or {})
        self.ev(e='begin')
        v = self.call(lambda: self.root.build(complete=complete))
        if complete:
            end = time.time() + 10
            while time.time() < end:
                fs = [b.future for bs in self.leaves.values() for b in bs if b.future is not None]
                if not fs or not wait(fs, timeout=1).not_done:
                    break
            self.drain()
            while time.time() < end:
                self.drain()
                for s in list(self.running):
                    fs = [b.future for b in self.leaves[s] if b.future is not None]
                    if any(f.done() and isinstance(f.exception(), TimeoutExpired) for f in fs):
                        self.release()
                        self.ev(e='end', s=s, outcome='fail', nonce='', x={'c': 'unchanged', 'v': ''})
                        self.running.remove(s)
                if not self.running:
                    break
            self.gates()
        else:
            self.settle_starts()
        self.ev(e='built', v=v, complete=complete)
        if complete:        # steps that ended after a failure was found are noticed now
            self.call(lambda: self.root.status)
        if v == 'error':
            self.leafpoll()
        if v == 'done' and self.case.get('clear', True):
            self.tree()

    def known(self):
        self.ev(e='known', done=[s for s, bs in self.leaves.items() if all([self.call(lambda: b.status) == 'done' for b in bs])])

    def snapshot(self):
        fs = set(self.case['files'])
        for d in self.steps.values():
            fs |= {x['f'] for x in d['ins']} | {d['out']['f']}
        return {f: decode(self.path(f)) for f in sorted(fs)}


def edited(m):
    """with clear_done the composites drop their finished members: they stand for one build of the present sources"""
    if m.case.get('clear', True):
        m.tree()


def flip(m, f):
    if os.path.exists(m.path(f)):
        with open(m.path(f), 'rb') as h:
            raw = h.read()
        with open(m.path(f), 'wb') as h:
            h.write(b'#' + raw[1:] if raw[:1] != b'#' else b'*' + raw[1:])
        m.ev(e='write', f=f, x=decode(m.path(f)))


def step(m, op):
    k = op['op']
    if k == 'write':
        if op['f'].startswith('@'):
            outs = sorted(d['out']['f'] for d in m.steps.values())
            f = outs[int(op['f'][1:]) % len(outs)]
            m.finish_all()
            m.poll()
        else:
            f = op['f']
        if op.get('x') == 'save':
            m.saved = (f, None)
            if os.path.exists(m.path(f)):
                with open(m.path(f), 'rb') as h:
                    m.saved = (f, h.read())
            return
        if op.get('x') == 'flip':        # another content of the same size
            m.finish_all()
            m.poll()
            flip(m, f)
            edited(m)
            return
        if op.get('x') == 'restore':
            if not getattr(m, 'saved', None):
                return
            f, raw = m.saved
            m.finish_all()
            m.poll()
            x = {'c': '-', 'v': ''}
            if raw is not None:
                os.makedirs(os.path.dirname(m.path(f)), exist_ok=True)
                with open(m.path(f), 'wb') as h:
                    h.write(raw)
                m.ev(e='write', f=f, x=decode(m.path(f)))
                edited(m)
                return
        else:
            x = op['x']
        if m.case.get('clear', True) and not op['f'].startswith('@'):
            m.finish_all()
            m.poll()
        m.write(f, x)
        edited(m)
    elif k == 'touch':
        for f in sorted(m.snapshot()):
            if os.path.exists(m.path(f)):
                m.clock += 7
                os.utime(m.path(f), (m.clock, m.clock))
    elif k == 'tree':
        m.case.update(op.get('case', {}))
        m.finish_all()
        m.poll()
        m.tree()
    elif k == 'restart':
        m.case.update(op.get('case', {}))
        m.finish_all()
        m.poll()
        m.session()
    elif k == 'build':
        m.build(complete=op.get('complete', False), outcomes=op.get('outcomes'))
    elif k == 'finish':
        m.finish(op['k'], op['outcome'], op.get('nonce', ''))
    elif k == 'poll':
        m.poll()
    elif k == 'leafpoll':
        m.leafpoll()


def run(case):
    base = os.path.realpath(tempfile.mkdtemp(prefix='a bld '))       # paths have spaces
    try:
        if case.get('sessions'):
            return crashes(case, base)
        m = Machine(base, dict(case))
        m.setup()
        try:
            for f, x in case['files'].items():
                m.write(f, x)
            m.session()
            for op in case['ops']:
                step(m, op)
            m.finish_all()
            m.poll()
            m.leafpoll()
            m.ev(e='files', files=m.snapshot())
        finally:
            try:
                m.finish_all()
            except Exception:
                pass
            m.env.decider.db.close()
        return {'files': {f: {'c': '-', 'v': ''} for f in case['files']}, 'steps': m.events}
    finally:
        shutil.rmtree(base, ignore_errors=True)


# -- interrupted sessions ------------------------------------------------------
def forked(fn, result):
    """runs fn in a forked child in its own process group; returns True when it ended by itself"""
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            signal.alarm(60)
            r = fn()
            with open(result + '.tmp', 'w') as h:
                json.dump(r, h)
            os.rename(result + '.tmp', result)
            os._exit(0)
        except BaseException:
            import traceback
            with open(result + '.err', 'w') as h:
                h.write(traceback.format_exc())
            os._exit(1)
    _, rc = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if os.path.exists(result + '.err'):
        raise RuntimeError(open(result + '.err').read())
    return os.path.exists(result)


def load(p):
    with open(p) as h:
        return json.load(h)


def tracer(limit):
    count = [0]

    def local(frame, event, arg):
        if event == 'line':
            count[0] += 1
            if count[0] == limit:
                os._exit(9)
        return local

    def glob(frame, event, arg):
        return local
    return glob, count


def crashes(case, base):
    m = Machine(base, dict(case))
    m.setup()
    for f, x in case['files'].items():
        m.write(f, x)
    res = os.path.join(base, 'ctl', 'result')
    steps_known = False
    for k, s in enumerate(case['sessions']):
        for op in s.get('edits', []):
            if op['f'].startswith('@'):
                if not steps_known:
                    continue
                outs = sorted(d['out']['f'] for d in m.steps.values())
                f = outs[int(op['f'][1:]) % len(outs)]
                if op['x'] == 'flip':
                    flip(m, f)
                else:
                    m.write(f, op['x'])
            else:
                m.write(op['f'], op['x'])

        def session(limit=0, crash=False):
            m.events = []
            m.session()
            if crash is not False:
                m.poll()
                m.gates(s.get('outcomes') or {})
                g, count = tracer(limit)
                sys.settrace(g)
                m.call(lambda: m.root.build(complete=True))
                sys.settrace(None)
                return count[0]
            m.build(complete=True, outcomes=s.get('outcomes'))
            m.env.decider.db.close()
            return dict(events=m.events, steps=m.steps, logpos=m.logpos, files=m.snapshot(), first=m.events[0])

        if s.get('crash') is not None:
            if not s.get('outcomes') or 'wait' not in s['outcomes'].values():
                copy = base + '-dry'
                shutil.copytree(base, copy, symlinks=True, ignore=lambda d, ns: [n for n in ns if n.startswith('c-') or n == 'never'])
                m2 = Machine(copy, dict(case))

                def dry():
                    m2.session()
                    m2.gates(s.get('outcomes') or {})
                    g, count = tracer(0)
                    sys.settrace(g)
                    m2.call(lambda: m2.root.build(complete=True))
                    sys.settrace(None)
                    return count[0]
                try:
                    forked(dry, os.path.join(copy, 'ctl', 'result'))
                    n = load(os.path.join(copy, 'ctl', 'result'))
                finally:
                    shutil.rmtree(copy, ignore_errors=True)
            else:
                n = 12000
            limit = max(1, int(s['crash'] * n))

            def tree():
                m.events = []
                m.session()
                return dict(events=m.events, steps=m.steps)
            if not steps_known:
                forked(tree, res)
                r = load(res)
                os.remove(res)
                m.events += r['events'] if True else []
                m.steps = r['steps']
                steps_known = True
            forked(lambda: session(limit, True), res)
            if os.path.exists(res):
                os.remove(res)
            m.logpos = os.path.getsize(os.path.join(m.ctl, 'log'))
            m.ev(e='crash', files=m.snapshot())

            def look():
                m.events = []
                m.session()
                m.known()
                return m.events
            if not forked(look, res):
                raise RuntimeError('a session did not end')
            m.events += load(res)
            os.remove(res)
        else:
            keep = list(m.events)
            if not forked(session, res):
                raise RuntimeError('a session did not end')
            r = load(res)
            os.remove(res)
            m.events = keep + r['events']
            m.steps, m.logpos = r['steps'], r['logpos']
            steps_known = True
            if s.get('final'):
                m.ev(e='final', files=r['files'])
    return {'files': {f: {'c': '-', 'v': ''} for f in case['files']}, 'steps': m.events}
