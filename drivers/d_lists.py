"""Renders documents with lists to every target and reads the items and their levels back."""
import os, pathlib, shutil, tempfile, re
from lxml import html as lh, etree
from disseminate.builders.environment import Environment
from disseminate.tags.list import parse_string_list

LISTS = ('ul', 'ol')


def words(s):
    return list(' '.join(s.split()))


def text(li):
    s = li.text or ''
    for c in li:
        if c.tag not in LISTS:
            s += text(c)
        s += c.tail or ''
    return s


def html(page, method):
    root = lh.fromstring(page) if method == 'html' else etree.fromstring(page)
    out = []
    for u in root.iter(*LISTS):
        if any(a.tag in LISTS for a in u.iterancestors()):
            continue
        items = [dict(at=sum(a.tag in LISTS for a in li.iterancestors()) - 1, words=words(text(li))) for li in u.iter('li')]
        out.append(dict(items=items, kinds=[x.tag for x in u.iter(*LISTS)]))
    return out


def tex(page):
    out = []
    for style, body in re.findall(r'\\begin\{easylist\}\[(\w+)\](.*?)\\end\{easylist\}', page, re.S):
        items = []
        for m in re.finditer(r'^(§+)([^§]*)', body, re.M):
            items.append(dict(at=len(m[1]) - 1, words=words(re.sub(r'\\\w+\{([^}]*)\}', r'\1', m[2]))))
        out.append(dict(items=items, kinds=[{'itemize': 'ul', 'enumerate': 'ol'}.get(style, style)]))
    return out


def run(case):
    d = tempfile.mkdtemp()
    try:
        os.mkdir(d + '/src')
        p = pathlib.Path(d) / 'src' / 'a.dm'
        body = ''.join('%s\n\n@%s{%s}%s' % (x['before'], x['tag'], ''.join(x['text']), x['after']) for x in case['lists'])
        p.write_text('---\ntargets: html, tex, xhtml\n---\n' + body)
        doc = Environment(str(p)).root_document
        doc.load()
        b = doc.context['body']
        steps = []
        for x in case['lists']:
            steps.append(dict(e='parse', target='', kind='', kinds=[], text=x['text'],
                              items=[dict(at=n, words=words(s)) for n, s in parse_string_list(''.join(x['text']))]))
        for t in case['targets']:
            page = b.html if t == 'html' else b.xhtml if t == 'xhtml' else b.tex
            got = tex(page) if t == 'tex' else html(page, t)
            if len(got) != len(case['lists']):
                raise AssertionError('%d lists in %s, %d expected' % (len(got), t, len(case['lists'])))
            for x, g in zip(case['lists'], got):
                steps.append(dict(e='list', target=t, kind=x['kind'], text=x['text'], **g))
        return {'steps': steps}
    finally:
        shutil.rmtree(d, ignore_errors=True)
