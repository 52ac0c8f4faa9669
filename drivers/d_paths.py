"""Builds projects with documents and files at many places and reads the outputs and the URLs of the pages back."""
import os, shutil, tempfile, pathlib, sys
from lxml import html as lh, etree
from disseminate.builders.environment import Environment
from disseminate.document.exceptions import TargetNotFound

ASIDE = ('.decider', 'md5decider')


def chars(s):
    """the characters of a text, those outside of ASCII as their bytes"""
    out = []
    for c in s:
        out += [c] if c == '\n' or 32 <= ord(c) < 127 else ['x%d' % b for b in c.encode()]
    return out


def segs(p):
    return [chars(x) for x in str(p).split('/') if x]


def run(case):
    base = os.path.realpath(tempfile.mkdtemp(prefix='paths'))
    old = os.getcwd()
    try:
        root = os.path.join(base, 'p', 'q', case.get('root', 'src'))
        target = os.path.dirname(root) if case.get('root', 'src') == 'src' else root
        here = os.path.join(base, 'here')
        os.makedirs(here), os.makedirs(root)
        os.chdir(here)
        real, ids = {}, {}
        for f, text in list(case['docs'].items()) + list(case['files'].items()):
            p = os.path.normpath(os.path.join(root, f))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            data = text.encode() if f in case['docs'] else b'content ' + text.encode()
            with open(p, 'wb') as h:
                h.write(data)
            real[f] = p
            ids[data] = f
        inputs = set(real.values())
        env = Environment(os.path.join(root, case['first']))
        doc = env.root_document
        steps = []
        docs = {str(d.src_filepath.subpath): d for d in doc.documents_list()}

        def out(kind, src, t, path):
            steps.append(dict(e='out', kind=kind, src=segs(src), target=chars(t), out=chars(os.path.relpath(str(path), target)), url=[], files=[], dirs=[], way=[],
                              **{'from': []}))

        outs = {}
        for name in case['order']:
            d = docs[os.path.normpath(name)]
            for t in case['targets']:
                p = d.target_filepath('.' + t)
                outs[name, t] = p
                out('doc', os.path.normpath(name), t, p)
        if case.get('build', True):
            env.build(complete=True)
        pages = []
        for name in case['order']:
            d = docs[os.path.normpath(name)]
            refs = case['refs'][name]
            for t in case['targets']:
                b = d.context['builders']['.' + t]
                if not case.get('build', True):
                    getattr(d.context['body'], t)
                made = {}
                for x in b._parallel_builder.subbuilders:
                    for i in x.infilepaths[:1]:
                        made.setdefault(os.path.realpath(str(i)), set()).add(str(x.outfilepath))
                for r in refs:
                    if r['kind'] == 'file':
                        # above the root the name of the root is part of the names used, and of the places
                        up = '..' in os.path.relpath(real[name], root).split('/')
                        for p in sorted(made[os.path.realpath(real[r['src']])]):
                            out('file', os.path.normpath(r['src']), t, p)
                            steps[-1]['way'] = chars(os.path.relpath(p, target)) if up else []
        if not case.get('build', True):
            return {'steps': steps}
        for name in case['order']:
            for t in case['targets']:
                if t == 'tex':
                    continue
                page = pathlib.Path(outs[name, t]).read_bytes().decode()
                fr = chars(os.path.relpath(str(outs[name, t]), target))
                steps += links(page, t, fr, case['refs'][name], name, os.path.relpath(real[name], target))
        listing = []
        for dp, dn, fn in os.walk(target):
            for f in fn:
                p = os.path.join(dp, f)
                if p in inputs or any(a in p for a in ASIDE):
                    continue
                listing.append(p)
        files = []
        for p in listing:
            with open(p, 'rb') as h:
                x = ids.get(h.read())
            files.append(dict(path=chars(os.path.relpath(p, target)), src=segs(os.path.normpath(x)) if x else []))
        others = [os.path.relpath(os.path.join(dp, f), base) for dp, dn, fn in os.walk(base) for f in fn
                  if not os.path.join(dp, f).startswith(target + '/') and os.path.join(dp, f) not in inputs]
        files += [dict(path=chars('../../../' + f), src=[]) for f in others]
        dirs = [chars(t) for t in case['targets']] + [chars('.cache'), chars('txt')]
        for s in steps:
            if s['e'] == 'asset':
                s['files'] = [f['path'] for f in files if f['path'][:len(s['target'])] == s['target']]
        steps.append(dict(e='files', kind='', src=[], target=[], out=[], url=[], files=files, dirs=dirs, way=[], **{'from': []}))
        return {'steps': steps}
    finally:
        os.chdir(old)
        shutil.rmtree(base, ignore_errors=True)


def links(page, t, fr, refs, doc, source):
    root = lh.fromstring(page.encode(), parser=lh.HTMLParser(encoding='utf-8')) if t == 'html' else etree.fromstring(page.encode())
    name = lambda e: etree.QName(e).localname if isinstance(e.tag, str) else ''
    ev = lambda e, url, **k: dict(dict(e=e, kind='', src=[], target=chars(t), out=[], url=chars(url), files=[], dirs=[], way=[]), **{'from': fr}, **k)
    steps, body = [], [e for e in root.iter() if e.get('class') == 'body'][0]
    seen = [e for e in body.iter() if name(e) == 'img' or name(e) == 'a' and e.get('class') == 'ref']
    if len(seen) != len(refs):
        raise AssertionError('%d links in the page, %d expected' % (len(seen), len(refs)))
    for e, r in zip(seen, refs):
        if (name(e) == 'img') != (r['kind'] == 'file'):
            raise AssertionError('links in another order')
        steps.append(ev('link', e.get('src') if name(e) == 'img' else e.get('href'), kind=r['kind']))
        steps[-1]['src'] = segs(os.path.normpath(r['src']))
    for e in root.iter():
        if name(e) == 'link' and e.get('rel') == 'stylesheet':
            steps.append(ev('asset', e.get('href')))
        elif name(e) == 'img' and e not in seen:
            steps.append(ev('asset', e.get('src')))
        if name(e) == 'a' and e.get('class') != 'ref':
            for i in e.iter():
                u = i.get('src') or ''
                if name(i) == 'img':
                    if u.endswith('dm_icon.svg'):
                        steps.append(ev('source', e.get('href')))
                        steps[-1]['out'] = chars(source)
                    elif u.endswith('tex_icon.svg'):
                        steps.append(ev('link', e.get('href'), kind='doc'))
                        steps[-1]['target'], steps[-1]['src'] = chars('tex'), segs(os.path.normpath(doc))
    return steps
