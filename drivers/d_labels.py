"""Replays label registry operations on the label manager of a real project; records what each gave."""
import gc, os, pathlib, shutil, tempfile
from disseminate.builders.environment import Environment
from disseminate.label_manager.exceptions import LabelNotFound, DuplicateLabel

CLOCK = [1000000000]


def write(src, d, order, labels, refs=False):
    body = []
    for l in labels:
        if l['kinds'][0] == 'heading':
            body.append('@%s[id=%s]{Title %s}' % (l['kinds'][1], l['id'], l['id']))
        elif l['kinds'][0] == 'caption':
            # the text of the caption needs labels while the document is loaded
            before = [x['id'] for x in labels[:labels.index(l)] if x['kinds'][0] != 'document']
            body.append('@fig[id=%s]{@caption{Text %s%s}}' % (l['id'], l['id'], ' @ref{%s::%s}' % (d, before[0]) if refs and before else ''))
    head = '---\ntargets: html\n'
    if d == order[0]:
        head += 'include:\n' + ''.join('  %s\n' % x for x in order[1:])
    head += '---\n'
    CLOCK[0] += 10
    p = src / d
    p.write_text(head + '\n\n'.join(body) + '\n')
    os.utime(str(p), (CLOCK[0], CLOCK[0]))


def key(l):
    return {'doc': l.doc_id, 'id': l.id}


def ident(ref):
    return ref['doc'] + '::' + ref['id'] if ref['doc'] else ref['id']


def run(case):
    base = pathlib.Path(tempfile.mkdtemp())
    try:
        return execute(case, base / 'src')
    finally:
        shutil.rmtree(str(base), ignore_errors=True)


def execute(case, src):
    src.mkdir()
    order = case['order']
    for d in order:
        write(src, d, order, [])
    env = Environment(str(src / order[0]))
    root = env.root_document
    man = root.context['label_manager']
    start = [dict(doc=l.doc_id, id=l.id, kinds=list(l.kind)) for l in man.get_labels_by_kind()]
    by_id = root.documents_by_id(recursive=True)
    files = [dict(doc=r['doc'], labels=[dict(id=r['id'], kinds=r['kinds'])]) for r in start]
    if case.get('bare'):
        man.reset()
        start = []
    steps = []

    def ctx(d):
        return by_id[d].context if d else None
    for n, op in enumerate(case['ops']):
        op = dict(op)
        k = op['op']
        if k == 'add':
            kinds = op['kinds'][0] if len(op['kinds']) == 1 and n % 2 else tuple(op['kinds'])
            f = (man.add_content_label, man.add_document_label)[n % 3 == 2]
            try:
                l = f(id=ident(op), kind=kinds, title='t', context=ctx(op['ctx']))
                obs = {'res': 'ok'} if (l.id, l.kind) == (op['id'], tuple(op['kinds'])) else {'res': repr(l)}
            except DuplicateLabel:
                obs = {'res': 'duplicate'}
        elif k == 'get':
            try:
                refs = op['refs']
                if len(refs) == 1 and n % 2:
                    found = [man.get_label(ident(refs[0]), context=ctx(refs[0]['ctx']))]
                elif len({r['ctx'] for r in refs}) == 1:
                    ids = [ident(r) for r in refs]
                    found = man.get_labels_by_id(ids=ids[0] if len(ids) == 1 and n % 4 else ids, context=ctx(refs[0]['ctx']))
                else:
                    found = [man.get_label(ident(r), context=ctx(r['ctx'])) for r in refs]
                obs = {'res': 'ok', 'found': [key(l) for l in found]}
            except LabelNotFound:
                obs = {'res': 'unknown'}
        elif k == 'kind':
            kinds = op['kinds']
            arg = None if not kinds else kinds[0] if len(kinds) == 1 and n % 2 else (tuple(kinds), list(kinds))[n % 3 == 0]
            obs = {'res': 'ok', 'found': [key(l) for l in man.get_labels_by_kind(doc_id=op['doc'] or None, kinds=arg)]}
        elif k == 'reset':
            man.reset(None if op['all'] else op['docs'][0] if len(op['docs']) == 1 and n % 2 else op['docs'])
            obs = {'res': 'ok'}
        elif k == 'load':
            for ch in op['changed']:
                write(src, ch['doc'], op['order'], ch['labels'], case.get('refs', False) and not case.get('bare'))
            root.load()
            gc.collect()
            by_id = root.documents_by_id(recursive=True)
            obs = {'res': 'ok'}
        op['obs'] = obs
        steps.append(op)
    return {'steps': steps, 'order': order, 'reg': start, 'files': files}
