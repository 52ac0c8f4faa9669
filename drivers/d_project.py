"""Executes histories of a project (specs/Project.tla) in a scratch directory: writes and removes source files and
loads the project with the real code, recording what the loaded project shows."""
import gc, hashlib, os, re, shutil, tempfile
from disseminate.builders.environment import Environment
from disseminate.document.exceptions import DocumentException
from disseminate.label_manager.exceptions import DuplicateLabel, LabelNotFound
from disseminate.tags.exceptions import TagError
from disseminate import settings
from lxml import html as lhtml

ROOTS = ('html', 'tex', 'txt', 'xhtml')
HEADS = ('part', 'chapter', 'section', 'subsection', 'subsubsection')


def attrs(it):
    a = []
    if it.get('id'):
        a.append('id="%s"' % it['id'] if it.get('quote') else 'id=' + it['id'])
    if it.get('short'):
        a.append('short="%s"' % it['short'])
    if it.get('nolabel'):
        a.append('nolabel')
    return '[%s]' % ' '.join(a) if a else ''


def item_text(it):
    t = it['t']
    if t == 'head':
        s = '@%s%s{%s}' % (it['lv'], attrs(it), it['text'])
    elif t == 'cap':
        if it['kind'] == 'figure':
            s = '@%s%s{@caption{%s}}' % (it.get('tag', 'figure'), attrs(it), it['text'])
        else:
            s = '@table%s{@caption{%s} @data{a,b\n1,2}}' % (attrs(it), it['text'])
    elif t == 'ref':
        s = 'see @ref{%s}' % (it['doc'] + '::' + it['id'] if it['doc'] else it['id'])
        if it.get('wrap'):
            s = '@%s{%s}' % (it['wrap'], s)
    elif t == 'toc':
        s = '@toc{%s}' % it['words']
    else:
        s = it['text']
    return s


def source(f):
    h = []
    if f['hastitle']:
        h.append('title: ' + f['title'])
    if f['short']:
        h.append('short: ' + f['short'])
    if f['tkey']:
        names = [('.' if n in f.get('dots', []) else '') + n for n in f['tg']]
        h.append(f['tkey'] + ': ' + (f.get('tsep') or ', ').join(names))
    for kv in f['vals']:
        h.append('%s: %s' % (kv['k'], kv['v']))
    if f['resets']:
        h.append('label_resets:')
        for kv in f['resets']:
            h.append('  %s: %s' % (kv['k'], ', '.join(kv['add'])))
    if f['hasinact']:
        h.append('inactive_tags: ' + ', '.join(f['inact']))
    if f['toc']:
        h.append('toc: ' + f['toc'])
    if f['incl']:
        names = ['/'.join(q) for q in f['incl']]
        if f.get('inline') and len(names) == 1:
            h.append(f.get('ikey', 'include') + ': ' + names[0])
        else:
            h.append(f.get('ikey', 'include') + ':')
            h += ['    ' + n for n in names]
    body = '\n\n'.join([item_text(i) for i in f['items']])
    if f['fault'] == 'big':
        body += '\n' + 'x ' * (settings.document_max_size // 2 + 10)
    if f['fault'] == 'markup':
        body += '\n@b{never closed'
    text = ('---\n' + '\n'.join(h) + '\n---\n' if h else '') + body + '\n' + f.get('salt', '')
    return text


def txt(e):
    return re.sub(r'\s+', ' ', ''.join(e.itertext())).strip()


def parse(s):
    return lhtml.fragment_fromstring(str(s), create_parent='div')


def in_li(e):
    return any(a.tag == 'li' for a in e.iterancestors())


def links(root):
    out = []
    for a in root.iter('a'):
        if a.get('class') == 'ref' and not in_li(a):
            out.append(link(a))
    return out


def link(a):
    return {'href': a.get('href', 'none'), 'text': txt(a)}


def toc_items(ol, depth=1):
    out = []
    for e in ol:
        if e.tag == 'li':
            a = [x for x in e.iter('a')]
            r = link(a[0]) if len(a) == 1 else {'href': 'items: %d' % len(a), 'text': txt(e)}
            r['depth'] = depth
            out.append(r)
            for s in e.iter('ol'):
                out.append({'href': 'list inside item', 'text': '', 'depth': depth})
        elif e.tag in ('ol', 'ul'):
            out += toc_items(e, depth + 1)
        else:
            out.append({'href': 'unexpected element', 'text': e.tag, 'depth': depth})
    return out


def is_toc(ol):
    return ol.tag == 'ol' and not any(a.tag in ('ol', 'ul', 'li') for a in ol.iterancestors())


def shown(root):
    out = []
    for e in root.iter():
        if e.tag in ('h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'figcaption', 'caption'):
            spans = [x for x in e.iter('span') if x.get('class') == 'label']
            ids = [x.get('id') for x in ([e] + list(e.iterdescendants())) if x.get('id')]
            if not spans:
                continue
            out.append({'id': ids[0] if ids else '', 'text': txt(e)})
    return out


def key(l):
    return (l.doc_id + '::' + l.id) if l is not None else ''


def snapshot(root, src, want):
    docs = root.documents_list(recursive=True)
    lm = root.context['label_manager']
    labels = list(lm.get_labels_by_kind())
    o = {'err': '', 'at': ''}
    if 'tree' in want:
        o['tree'] = [d.doc_id for d in docs]
    if 'byid' in want:
        by = root.documents_by_id()
        o['byid'] = [k if by[k].doc_id == k else 'wrong' for k in by]
        if list(root.documents_dict(recursive=True)) != [d.src_filepath for d in docs]:
            o['byid'].append('paths differ')
    if 'docs' in want:
        o['docs'] = []
        for d in docs:
            c = d.context
            o['docs'].append({
                'path': d.doc_id, 'title': d.title, 'short': d.short, 'targets': [t.lstrip('.') for t in d.targets],
                'level': c.get('level', 1),
                'vals': [{'k': k, 'v': str(c[k])} for k in sorted(c.keys()) if k.startswith('key')],
                'resets': [{'k': k, 'v': sorted(re.split(r'\s*,\s*', v) if isinstance(v, str) else v)} for k, v in sorted(c['label_resets'].items())],
                'inact': sorted(c['inactive_tags']) if 'inactive_tags' in c else []})
    if 'labels' in want:
        o['labels'] = [{'doc': l.doc_id, 'id': l.id, 'kind': list(l.kind), 'order': list(l.order), 'title': l.title} for l in labels]
    if 'anc' in want:
        o['anc'] = []
        for l in labels:
            if hasattr(l, 'chapter_label'):
                o['anc'].append({'key': key(l), 'anc': [key(getattr(l, h + '_label')) for h in HEADS], 'num': l.tree_number})
    if 'nav' in want:
        o['nav'] = []
        for d in docs:
            n = {}
            for k in d.context.keys():
                m = re.match(r'(prev|next)_(.+)$', k)
                if m:
                    v = d.context[k]
                    v = v() if v is not None else None
                    n.setdefault(m.group(2), {'prev': '', 'next': ''})[m.group(1)] = key(v)
            for t in d.targets:
                n.setdefault(t.lstrip('.'), {'prev': '', 'next': ''})
            o['nav'].append([{'t': t, 'prev': n[t]['prev'], 'next': n[t]['next']} for t in sorted(n)
                             if '.' + t in d.targets or n[t] != {'prev': '', 'next': ''}])
    if want & {'refs', 'shown', 'tocs'}:
        o['refs'], o['shown'], o['tocs'] = [], [], []
        for d in docs:
            if '.html' not in d.targets:
                r = None
            else:
                try:
                    r = parse(d.context['body'].html)
                except LabelNotFound:
                    r = None
            if r is None:
                o['refs'].append({'err': True})
                o['shown'].append([])
                o['tocs'].append([])
            else:
                o['refs'].append({'err': False, 'refs': links(r)})
                o['shown'].append(shown(r))
                o['tocs'].append([toc_items(x) for x in r.iter('ol') if is_toc(x)])
        for k in ('refs', 'shown', 'tocs'):
            if k not in want:
                del o[k]
    if 'toc' in want:
        o['toc'] = []
        for d in docs:
            if '.html' not in d.targets:
                o['toc'].append([])
                continue
            s = d.context['toc'].html
            r = parse(s) if s else None
            o['toc'].append([] if r is None else sum([toc_items(x) for x in r.iter('ol') if is_toc(x)], []))
    if 'tex' in want:
        o['tex'] = []
        for d in docs:
            try:
                o['tex'].append({'err': False, 'txt': str(d.context['body'].txt), 'tex': str(d.context['body'].tex)})
            except LabelNotFound:
                o['tex'].append({'err': True})
    if 'outpaths' in want:
        tr = str(root.target_root)
        o['outpaths'] = [[rel(str(p), tr) for p in d.targets.values()] for d in docs]
    return o


def rel(p, root):
    return os.path.relpath(p, root).split(os.sep)


def failure(e, src):
    m = re.search(re.escape(str(src)) + r'/([^\s\'"]*?\.dm)', str(e))
    at = os.path.normpath(m.group(1)) if m else ''
    s = str(e)
    if isinstance(e, DuplicateLabel):
        return {'err': 'duplicate', 'at': at}
    if isinstance(e, DocumentException) and 'must exist' in s:
        return {'err': 'missing', 'at': at}
    if isinstance(e, DocumentException) and 'exceeds' in s:
        return {'err': 'big', 'at': at}
    if isinstance(e, LabelNotFound):
        return {'err': 'unref', 'at': at}
    if isinstance(e, TagError):
        return {'err': 'markup', 'at': at}
    return None


def outputs(base, content):
    """files below the target directories of the formats"""
    out = []
    for t in ROOTS:
        for dp, dn, fn in os.walk(os.path.join(base, t)):
            for f in fn:
                p = os.path.join(dp, f)
                r = rel(p, base)
                if content or f.endswith('.' + t) and r[1] != 'media':
                    with open(p, 'rb') as h:
                        out.append({'p': r, 'h': hashlib.md5(h.read()).hexdigest()})
    return sorted(out, key=lambda x: x['p'])


def run(case):
    base = tempfile.mkdtemp(prefix='prj')
    try:
        return execute(case, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def execute(case, base):
    src = os.path.join(base, 'src')
    os.mkdir(src)
    want = set(case['want'])
    env = root = None
    clock = [1000000000]
    steps = []
    rootp = os.path.join(src, *case['root'])
    for st in case['steps']:
        st = dict(st)
        if st['op'] == 'write':
            p = os.path.join(src, st['p'])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write(source(st['f']))
            clock[0] += float(st.get('dt', 10))
            os.utime(p, (clock[0], clock[0]))
        elif st['op'] == 'remove':
            os.remove(os.path.join(src, st['p']))
        else:
            try:
                if env is None or st.get('restart'):
                    env = root = None
                    env = Environment(src_filepath=rootp)
                    root = env.root_document
                else:
                    root.load()
                o = snapshot(root, src, want)
            except Exception as e:
                o = failure(e, os.path.realpath(src)) or failure(e, src)
                if o is None:
                    raise
                if root is None:
                    env = None
            if o['err'] == '' and st.get('build'):
                env.build(complete=True)
                o['outputs'] = [x['p'] for x in outputs(base, False)]
            st['obs'] = o
        steps.append(st)
    return {'steps': steps}
