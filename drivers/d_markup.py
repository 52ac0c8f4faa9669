"""Parses texts with the real tags, alone and as documents with macros in their headers."""
import os, pathlib, shutil, tempfile
from disseminate.tags import Tag
from disseminate.tags.tag import TagFactory
from disseminate.tags.exceptions import TagError
from disseminate.utils.types import ispositional
from disseminate.builders.environment import Environment

state = {}


def base():
    if 'env' not in state:
        d = tempfile.mkdtemp()
        try:
            os.mkdir(d + '/src')
            p = pathlib.Path(d) / 'src' / 'a.dm'
            p.write_text('text\n')
            state['env'] = Environment(str(p))
            state['context'] = state['env'].root_document.context
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return state['context']


def nodes(c):
    if isinstance(c, str):
        return [dict(t='s', v=list(c), name=[], attrs=[], kids=[], role='')] if c else []
    if isinstance(c, (list, tuple)):
        out = []
        for n in [n for i in c for n in nodes(i)]:
            if out and n['t'] == 's' and out[-1]['t'] == 's':
                out[-1]['v'] += n['v']
            else:
                out.append(n)
        return out
    attrs = [dict(k=list(k), v=[] if ispositional(v) else list(v), pos=bool(ispositional(v))) for k, v in c.attributes.items()]
    if c.name == 'dm':
        attrs = [a for a in attrs if a['k'] != ['d', 'm']]
    return [dict(t='t', v=[], name=list(c.name), attrs=attrs, kids=nodes(c.content), role=c.paragraph_role or '')]


def roles(ns, direct):
    """roles count for the tags directly in a paragraph only"""
    for n in ns:
        if not direct:
            n['role'] = ''
        roles(n['kids'], n['name'] == ['p'])
    return ns


def top(tag):
    return roles(nodes(tag.content), False)


def parse(op):
    ctx = base()
    text = ''.join(op['text'])
    added = {}
    for m in reversed(op['macros']):      # the first definition of a name counts
        k = '@' + ''.join(m['name'])
        added.setdefault(k, ctx.get(k))
        ctx[k] = ''.join(m['value'])
    try:
        tag = Tag(name=''.join(op['name']), content=text, attributes='', context=ctx)
        return dict(err=False, nodes=top(tag))
    except TagError:
        return dict(err=True, nodes=[])
    finally:
        for k, v in added.items():
            if v is None:
                del ctx[k]
            else:
                ctx[k] = v


def document(op):
    """a chain of documents, each including the next, with macros in their headers; the last one has the text"""
    d = tempfile.mkdtemp()
    try:
        os.mkdir(d + '/src')
        n = len(op['chain'])
        for i, ms in enumerate(op['chain']):
            head = ['@%s: %s' % (''.join(m['name']), ''.join(m['value'])) for m in ms]
            if i < n - 1:
                head += ['include:', '  d%d.dm' % (i + 1)]
            body = ''.join(op['text']) if i == n - 1 else 'text\n'
            with open('%s/src/d%d.dm' % (d, i), 'w') as f:
                f.write('---\n' + '\n'.join(head) + '\n---\n' + body)
        try:
            env = Environment(d + '/src/d0.dm')
            docs = env.root_document.documents_list(recursive=True)
            docs[-1].load()
            tag = docs[-1].context['body']
            err = False
        except TagError:
            err = True
        if err:
            return dict(err=True, nodes=[])
        return dict(err=len(docs) != n, nodes=top(tag))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(case):
    return {'steps': [dict(op, **(parse(op) if op['op'] == 'tree' else document(op))) for op in case['ops']]}
