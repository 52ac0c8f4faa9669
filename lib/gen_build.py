"""Random build trees and histories in the form of drivers/d_build.py and specs/Build.tla."""
import copy


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.n = 0

    def content(self, long=True):
        r = self.r
        c = r.choice(['A', 'B', 'C', 'D']) + (r.choice(['', '', 'L'])[:0])
        if long and r.random() < .3:
            c = r.choice(['L', 'L', 'k/ID', 'k/ModDate']) + c
        elif long and r.random() < .12:
            return dict(c='Z' + c, v=r.choice(['', 'v1', 'v2']))
        if r.random() < .3:
            c += 't'
        return dict(c=c, v=r.choice(['', 'v1', 'v2', 'v3']))

    def fresh(self):
        self.n += 1
        return self.n

    def cmd(self, ins, out='', **kw):
        k = self.fresh()
        d = dict(t='leaf', s='s%d' % k, kind='cmd', action='act%d' % k, ins=ins, opts=[], ext='.x%d' % k, out=out)
        d.update(kw)
        return d

    def inputs(self, n):
        r = self.r
        out = []
        for _ in range(n):
            f = r.choice(['src/in%d.txt', 'src/in%d.pdf', 'src/sub/in%d.dat']) % r.randint(1, 3)
            if f not in out:
                out.append(f)
        return out

    def opts(self, n=2):
        return [self.r.choice(['small', 'large', 'wide', 'tall']) for _ in range(self.r.randint(0, n))]

    def single(self):
        r = self.r
        k = r.random()
        if k < .45:
            return self.cmd(self.inputs(r.randint(1, 3)), r.choice(['out/one.txt', 'out/one.pdf', '']), opts=self.uniq(self.opts()))
        if k < .8:
            return dict(t='leaf', s='s%d' % self.fresh(), kind='copy', ins=self.inputs(1), opts=[], out=r.choice(['out/cp.txt', 'out/cp.pdf', 'out/deep/cp.dat', '']))
        return dict(t='leaf', s='s%d' % self.fresh(), kind='save', ins=[], opts=[r.choice(['text1', 'text2'])], out=r.choice(['out/saved.txt', '']), ext='.txt')

    def uniq(self, q):
        return list(dict.fromkeys(q))

    def chain(self, ins=None, depth=1):
        r = self.r
        k = self.fresh()
        if r.random() < .3 and ins is None:
            kids = [dict(t='leaf', s='s%d' % self.fresh(), kind='save', ins=[], opts=[], out='', ext='.sv%d' % k, cache=True)]
            kids += [self.cmd([], cache=True) for _ in range(r.randint(1, 2))]
            return dict(t='seq', chained=True, ins=[], opts=[r.choice(['text1', 'text2'])], out='', kids=kids, nameof=0, outext='.n%d' % k)
        ins = ins or self.inputs(1 if r.random() < .7 else 2)
        kids = []
        for _ in range(r.randint(1, 3)):
            if depth and r.random() < .2:
                kids.append(dict(self.chain(ins=['-'], depth=0), ins=[], opts=[], out='', cache=True, outext='.y%d' % self.fresh()))
            else:
                kids.append(self.cmd([], cache=True))
        return dict(t='seq', chained=True, ins=ins, opts=self.uniq(self.opts(1)), out=r.choice(['out/c%d.end' % k, 'out/c%d.pdf' % k]), kids=kids)

    def unchained(self, depth):
        r = self.r
        kids, outs = [], []
        for i in range(r.randint(2, 4)):
            x = r.random()
            if x < .25 and depth:
                g = self.group(depth - 1)
                kids.append(g)
                outs += self.uniq(self.explicit(g))
                continue
            k = self.fresh()
            ins = self.inputs(1)
            if outs and r.random() < .75:
                ins = r.sample(outs, min(len(outs), r.randint(1, 2))) + (ins if r.random() < .3 else [])
            o = r.choice(['out/u%d.txt', 'out/u%d.pdf', 'src/gen%d.txt']) % k
            if r.random() < .25:
                kids.append(dict(t='leaf', s='s%d' % k, kind='copy', ins=ins[:1], opts=[], out=o))
            else:
                kids.append(self.cmd(ins, o))
            outs.append(o)
        return dict(t='seq', chained=False, kids=kids)

    def explicit(self, n):
        if n['t'] == 'leaf':
            return [n['out']] if n.get('out') else []
        if n['t'] == 'seq' and n.get('chained'):
            return [n['out']] if n.get('out') else []
        return [o for k in n['kids'] for o in self.explicit(k)]

    def group(self, depth):
        r = self.r
        kids = []
        for _ in range(r.randint(2, 3)):
            x = r.random()
            if x < .35:
                kids.append(self.chain(depth=0))
            elif x < .5 and depth:
                kids.append(self.unchained(depth - 1))
            elif x < .75:
                k = self.fresh()
                kids.append(dict(t='leaf', s='s%d' % k, kind='copy', ins=self.inputs(1), opts=[], out='out/g%d.txt' % k))
            else:
                k = self.fresh()
                kids.append(self.cmd(self.inputs(r.randint(1, 2)), 'out/g%d.txt' % k))
        if r.random() < .3:        # the same steps twice, as when two documents use the same image
            kids.append(self.twin(kids, r.choice([i for i, k in enumerate(kids)])))
        return dict(t='par', kids=kids)

    @staticmethod
    def twin(kids, i):
        return dict(copy.deepcopy(kids[i]), twinof=i)

    def tree(self, kind):
        r = self.r
        if kind == 'single':
            return self.single()
        return r.choice([self.chain, lambda: self.unchained(1), lambda: self.group(1), lambda: self.group(1), self.chain])()

    def sources(self, n):
        if n['t'] == 'leaf':
            return set(f for f in n['ins'] if f != '-')
        return set(f for f in n.get('ins', []) if f != '-').union(*[self.sources(k) for k in n['kids']])

    def case(self, kind, ops, missing=.1, faults=.2, complete=.3, damage=.08):
        r = self.r
        tree = self.tree(kind)
        made = set(self.explicit(tree))
        srcs = sorted(self.sources(tree) - made) or ['src/in1.txt']
        files = {f: self.content() if r.random() > missing else dict(c='-', v='') for f in srcs}
        c = dict(tree=tree, files=files, clear=kind != 'single' and r.random() < .5, ops=[])
        for _ in range(r.randint(*ops)):
            x = r.random() * (.92 + damage)
            x = x - damage + .08 if x >= .22 + damage else min(x, .22) if x >= .22 else x
            o = c['ops']
            if x < .22:
                f = r.choice(srcs)
                k = r.random()
                if k < .12:
                    o.append(dict(op='write', f=f, x=dict(c='-', v='')))
                elif k < .35:      # only the volatile part, or back to an earlier content
                    o.append(dict(op='write', f=f, x=dict(files[f], v=r.choice(['', 'v1', 'v4'])) if files[f]['c'] != '-' else self.content()))
                else:
                    files_f = self.content()
                    o.append(dict(op='write', f=f, x=files_f))
                c.setdefault('_', None)
            elif x < .30:
                k = r.randint(0, 5)
                o.append(dict(op='write', f='@%d' % k, x=r.choice([dict(c='-', v=''), dict(c='', v=''), dict(c='forged', v=''), 'save', 'restore', 'restore', 'flip', 'flip', dict(c='half', v='')])))
            elif x < .36:
                o.append(dict(op='touch'))
            elif x < .44:
                op = dict(op=r.choice(['restart', 'restart', 'tree']))
                if r.random() < .4:
                    op['case'] = dict(tree=self.vary(tree))
                o.append(op)
            elif x < .66:
                if r.random() < complete:
                    o.append(dict(op='build', complete=True, outcomes=self.outcomes(tree, faults)))
                else:
                    o.append(dict(op='build'))
            elif x < .9:
                o.append(dict(op='finish', k=r.randint(0, 5), outcome='ok' if r.random() > faults else r.choice(['fail', 'half', 'noout', 'kill']),
                              nonce=r.choice(['', '', 'n1', 'n2'])))
                if r.random() < .6:
                    o.append(dict(op='build'))
            elif x < .95:
                o.append(dict(op='poll'))
            else:
                o.append(dict(op='leafpoll'))
        c.pop('_', None)
        return c

    def timecase(self):
        """commands that print much, or never end and are stopped"""
        r = self.r
        tree = self.tree('tree') if r.random() < .6 else self.cmd(self.inputs(2), 'out/one.txt')
        srcs = sorted(self.sources(tree) - set(self.explicit(tree))) or ['src/in1.txt']
        c = dict(tree=tree, files={f: self.content() for f in srcs}, clear=r.random() < .5, timeout=1.5, ops=[])
        for _ in range(r.randint(2, 4)):
            outs = {s: [r.choice(['loud', 'loud', 'stuck', 'fail']), ''] for s in self.cmds(tree) if r.random() < .5}
            c['ops'].append(dict(op='build', complete=True, outcomes=outs))
            c['ops'].append(r.choice([dict(op='write', f=r.choice(srcs), x=self.content()), dict(op='restart')]))
        c['ops'].append(dict(op='restart'))
        c['ops'].append(dict(op='build', complete=True, outcomes={}))
        return c

    def vary(self, tree):
        """the same steps with other options or inputs listed in another order"""
        r = self.r
        t = copy.deepcopy(tree)

        def walk(n, inchain):
            if n['t'] == 'leaf':
                if not inchain:
                    r.shuffle(n['ins']) if n['kind'] == 'cmd' else None
                    if n['kind'] == 'save':
                        n['opts'] = [r.choice(['text1', 'text2', 'text3'])]
                    elif n['kind'] == 'cmd' and r.random() < .5:
                        n['opts'] = self.uniq(self.opts())
            else:
                if n.get('chained') and not inchain and r.random() < .5:
                    n['opts'] = self.uniq(self.opts(1)) if n['ins'] else [r.choice(['text1', 'text2', 'text3'])]
                for k in n['kids']:
                    walk(k, bool(n.get('chained')))
                for i, k in enumerate(n['kids']):
                    if 'twinof' in k:
                        n['kids'][i] = self.twin(n['kids'], k['twinof'])
        walk(t, False)
        return t

    def outcomes(self, tree, faults):
        out = {}

        def walk(n):
            if n['t'] == 'leaf':
                if n['kind'] == 'cmd' and self.r.random() < faults:
                    out[n['s']] = [self.r.choice(['fail', 'half', 'noout', 'kill']), '']
            else:
                for k in n['kids']:
                    walk(k)
        walk(tree)
        return out

    def crashcase(self, sessions=(1, 3)):
        r = self.r
        tree = self.tree('tree') if r.random() < .8 else self.single()
        made = set(self.explicit(tree))
        srcs = sorted(self.sources(tree) - made) or ['src/in1.txt']
        files = {f: self.content() for f in srcs}
        ss, j = [], 0
        crashed = False
        for i in range(r.randint(*sessions)):
            s = dict(edits=[], outcomes={})
            for _ in range(r.randint(0, 2)):
                if r.random() < .6:
                    j += 1
                    s['edits'].append(dict(f=r.choice(srcs), x=dict(c='%sE%d' % (r.choice(['', 'L']), j), v=r.choice(['', 'v1']))))
                else:
                    s['edits'].append(dict(f='@%d' % r.randint(0, 5), x=r.choice([dict(c='-', v=''), dict(c='', v=''), dict(c='forged', v=''), dict(c='half', v=''), 'flip', 'flip'])))
            if r.random() < .8:
                s['crash'] = r.random()
                if r.random() < .25:
                    leaf = self.cmds(tree)
                    if leaf:
                        s['outcomes'][r.choice(leaf)] = 'wait'
            if r.random() < .3:
                s['outcomes'].update({k: v for k, v in self.outcomes(tree, .4).items() if k not in s['outcomes']})
            ss.append(s)
        last = dict(edits=[], outcomes={}, final=True)
        if r.random() < .4:
            last['edits'].append(dict(f='@%d' % r.randint(0, 5), x=r.choice([dict(c='-', v=''), dict(c='', v=''), dict(c='forged', v=''), 'flip'])))
        ss.append(last)
        return dict(tree=tree, files=files, clear=r.random() < .5, sessions=ss)

    def cmds(self, n):
        if n['t'] == 'leaf':
            return [n['s']] if n['kind'] == 'cmd' else []
        return [s for k in n['kids'] for s in self.cmds(k)]


def check(ctx, cases, label):
    res = ctx.drive('build', cases, case_timeout=60)
    traces = []
    for c, r in ctx.settle(cases, res, label):
        traces.append(dict(files=r['files'], steps=r['steps']))
    if traces:
        ctx.sample(traces[0])
        ctx.validate('Build', traces, label, consts=dict(Scenario=1, MaxEnv=0), workers=8)
    for t in traces:
        for s in t['steps']:
            k = 'events_' + s['e']
            ctx.coverage_extra[k] = ctx.coverage_extra.get(k, 0) + 1
            if s['e'] == 'built':
                k = 'built_' + s['v'].split(' ')[0]
                ctx.coverage_extra[k] = ctx.coverage_extra.get(k, 0) + 1
    return traces


def model(ctx, scenarios, env):
    """the specification: every interleaving of the engine with edits, faults and interruptions, in small trees"""
    for s in scenarios:
        r = ctx.tlc('Build', consts=dict(Scenario=s, MaxEnv=env), spec='Spec', inv=['DoneIsFresh', 'RecordSound', 'OneRun'], props=['Recovers'], workers=8)
        ctx.notes['model_states_%d' % s] = r['distinct']
