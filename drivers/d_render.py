"""Renders loaded projects in many orders and compares the answers with those of newly loaded projects."""
import os, re, shutil, tempfile, hashlib, pathlib
from disseminate.builders.environment import Environment
from disseminate.tags import Tag

TARGETS = ('html', 'xhtml', 'tex', 'txt', 'default')


def project(case, base, n):
    root = os.path.join(base, 'p%d' % n)
    for f, text in case['files'].items():
        p = os.path.join(root, 'src', f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as h:
            h.write(text.encode())
    env = Environment(os.path.join(root, 'src', case['first']))
    return root, env


def docs_of(env):
    return {str(d.src_filepath.subpath): d for d in env.root_document.documents_list()}


def parts(doc):
    """the tags of a document: those of the entries and all within"""
    out = []
    # the links of templates have no form for all targets
    for k in sorted(k for k, v in doc.context.items() if isinstance(v, Tag) and not k.endswith('link')):
        out += [(k, i, t) for i, t in enumerate(doc.context[k].flatten(filter_tags=True))]
    return out


class Look:
    def __init__(self, root):
        self.root, self.ids = root, {}

    def clean(self, s):
        s = s.replace(self.root, 'ROOT')
        # generated names contain the paths
        return re.sub(r'[0-9a-f]{12,}', lambda m: 'h%d' % self.ids.setdefault(m.group(), len(self.ids)), s) if self.ids is not None else s

    def digest(self, s):
        self.ids = {}
        s = self.clean(s)
        return s if len(s) < 60 else s[:24] + '~%d~' % len(s) + hashlib.md5(s.encode()).hexdigest()

    def render(self, tag, target):
        try:
            x = getattr(tag, target)
            return self.digest(str(x))
        except Exception as e:
            return 'error ' + type(e).__name__

    def value(self, x, depth=0):
        if isinstance(x, Tag):
            return self.tag(x, depth)
        if isinstance(x, (list, tuple)):
            return [self.value(y, depth) for y in x]
        if isinstance(x, dict):
            return [(str(k), self.value(v, depth)) for k, v in x.items()]
        if isinstance(x, (str, int, float, bool, type(None))):
            return [type(x).__name__, x]
        if isinstance(x, pathlib.PurePath):
            return ['path', str(x)]
        return [type(x).__name__]

    SKIP = ('context', '_outfilepaths', '_target_builders', '_target_context', 'processed_headers', 'processed_rows')

    def tag(self, t, depth=0):
        if depth > 40:
            return '...'
        d = {k: v for k, v in vars(t).items() if k not in self.SKIP}
        return [type(t).__name__] + [(k, [(a, str(b)) for a, b in v.items()] if k == 'attributes' else self.value(v, depth + 1)) for k, v in sorted(d.items())]

    def project(self, env):
        out = []
        for n, d in sorted(docs_of(env).items()):
            out.append([n, d.title, [(k, self.value(v)) for k, v in d.context.items() if k not in ('builders', 'environment', 'doc_id', 'mtime')]])
        lm = env.root_document.context['label_manager']
        for (doc, i), l in lm.labels.items():
            names = l.__slots__ if hasattr(l, '__slots__') else vars(l)
            out.append([os.path.basename(str(doc)), i, type(l).__name__] + [(k, self.value(getattr(l, k, None))) for k in sorted(names) if k != 'context'])
        return self.digest(repr(out))


def run(case):
    base = os.path.realpath(tempfile.mkdtemp(prefix='render'))
    old = os.getcwd()
    steps, n = [], 0
    ev = lambda e, part, target, result: steps.append(dict(e=e, part=part, target=target, result=result))
    try:
        os.chdir(base)
        root, env = project(case, base, 0)
        keep = [env]
        docs = docs_of(env)
        names = sorted(docs)
        # the questions: [document, entry or '', number, target]; numbers are taken modulo the number of tags
        qs = []
        for d, k, t in case['asked']:
            d = names[d % len(names)]
            tags = parts(docs[d])
            body = [x for x in tags if x[0] == 'body' and x[1] == 0]
            x = body[0] if k is None else tags[k % len(tags)]
            qs.append((d, x[0], x[1], TARGETS[t % len(TARGETS)]))
        name = lambda q: '%s/%s/%d' % (q[0], q[1], q[2])
        pick = lambda docs, q: [t for k, i, t in parts(docs[q[0]]) if (k, i) == (q[1], q[2])][0]
        for q in sorted(set(qs)):
            n += 1
            r, e = project(case, base, n)
            look = Look(r)
            ds = docs_of(e)
            if n % 3 == 1:
                ev('load', '', '', look.project(e))
            ev('fresh', name(q), q[3], look.render(pick(ds, q), q[3]))
            keep.append(e)
        look = Look(root)
        ev('load', '', '', look.project(env))
        for op in case['ops']:
            if op == 'look':
                ev('look', '', '', look.project(env))
            elif op == 'again':
                env.root_document.load()
                docs = docs_of(env)
                ev('again', '', '', look.project(env))
            else:
                q = qs[op % len(qs)]
                ev('render', name(q), q[3], look.render(pick(docs, q), q[3]))
        ev('look', '', '', look.project(env))
        if case.get('build'):
            # the files written after all of this are those of a new project
            outs = []
            n += 1
            for r, e in ((root, env), project(case, base, n)):
                try:
                    e.build(complete=True)
                    res = ''
                except Exception as x:
                    res = 'error'
                look = Look(r)
                got = {}
                for dn, _, fs in os.walk(r):
                    for f in fs:
                        p = os.path.relpath(os.path.join(dn, f), r)
                        if p.split('/')[0] in TARGETS:
                            with open(os.path.join(dn, f), 'rb') as h:
                                got[p] = look.digest(h.read().decode('latin-1'))
                outs.append((res, got))
                keep.append(e)
            fresh, mine = outs[1], outs[0]
            for kind, (res, got) in (('fresh', fresh), ('render', mine)):
                ev(kind, 'build', '', res)
                if fresh[0] or mine[0]:
                    # what is written by a build that fails is not said
                    continue
                ev(kind, 'files', '', ' '.join(sorted(got)))
                for p, x in sorted(got.items()):
                    ev(kind, p, 'file', x)
        return {'steps': steps}
    finally:
        os.chdir(old)
        shutil.rmtree(base, ignore_errors=True)
