"""Renders documents with tables to every target and reads the cells back."""
import os, re, shutil, tempfile
from lxml import html as lh, etree
from disseminate.builders.environment import Environment
from disseminate.tags.data import Data


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', newline='') as h:
        h.write(text)


def source(s):
    """the text of a cell as it was written"""
    s = s.replace('\u201c', '"').replace('\u201d', '"')
    return list(' '.join(s.split()))


def inner(x):
    s = x.text or ''
    for c in x:
        mark = {'strong': 'b', 'i': 'i', 'em': 'i'}.get(c.tag)
        s += ('@%s{%s}' % (mark, inner(c)) if mark else '<%s>' % c.tag) + (c.tail or '')
    return s


def page(text, method):
    root = lh.fromstring(text) if method == 'html' else etree.fromstring(text)
    out = []
    for t in root.iter('table'):
        head = []
        for part in t:
            rows = [[source(inner(c)) for c in tr if c.tag == ('th' if part.tag == 'thead' else 'td')] for tr in part.iter('tr')]
            if any(c.tag not in ('th', 'td') for tr in part.iter('tr') for c in tr):
                rows.append([['?']])
            if part.tag == 'thead':
                head = rows
            elif part.tag == 'tbody':
                out.append(dict(head=head, body=rows, columns=0))
                head = []
    return out


def tex(text):
    out = []
    for cols, body in re.findall(r'\\begin\{tabular\}\{(\w*)\}(.*?)\\end\{tabular\}', text, re.S):
        body = body.replace('\\toprule', '').replace('\\bottomrule', '')

        def rows(s):
            s = re.sub(r'\\textbf\{([^}]*)\}', r'@b{\1}', s)
            s = re.sub(r'\\textit\{([^}]*)\}', r'@i{\1}', s)
            s = s.replace('``', '"').replace("''", '"')
            lines = re.split(r'\\\\\s*\n', s.lstrip('\n'))
            assert not lines[-1].strip(), lines
            return [[source(c.replace('\\&', '&')) for c in re.split(r'(?<!\\)&', line)] for line in lines[:-1]]
        head, sep, rest = body.partition('\\midrule')
        out.append(dict(head=rows(head) if sep else [], body=rows(rest if sep else head), columns=len(cols)))
    return out


def run(case):
    d = os.path.realpath(tempfile.mkdtemp())
    old = os.getcwd()
    try:
        os.mkdir(d + '/cwd')
        os.chdir(d + '/cwd')
        text, data = '---\ntargets: html, tex, xhtml\n---\n', []
        for n, t in enumerate(case['tables']):
            parts = []
            for k, x in enumerate(t['data']):
                s = ''.join(x['text'])
                if x['file']:
                    write('%s/src/%s' % (d, x['file'] % (n, k)), s.replace('\n', x['newline']))
                    s = x['around'] + x['file'] % (n, k) + x['around']
                parts.append('@%s%s{%s}' % (x['tag'], '' if x['header'] else '[noheader]', s))
                data.append(x)
            if t['caption'] >= 0:
                parts.insert(t['caption'], '@caption{the caption %d}' % n)
            text += 'before\n\n@%s%s{%s}%s' % (t['tag'], t['attrs'], t['sep'] + t['sep'].join(parts) + t['sep'], t['after'])
        write(d + '/src/a.dm', text)
        err, got = '', {}
        try:
            doc = Environment(d + '/src/a.dm').root_document
            doc.load()
            b = doc.context['body']
            got = dict(html=page(b.html, 'html'), xhtml=page(b.xhtml, 'xhtml'), tex=tex(b.tex))
            sizes = [(x.num_cols, x.num_rows) for x in b.flatten(filter_tags=True) if isinstance(x, Data)]
        except AssertionError:
            raise
        except Exception as e:
            err = type(e).__name__ + ' ' + str(e)[:80]
        steps = []
        for i, x in enumerate(data):
            common = dict(text=x['text'], delim='\t' if x['tag'] == 'tsv' else ',', header=x['header'], error=err)
            for t in ('html', 'xhtml', 'tex'):
                g = dict(head=[], body=[], columns=0) if err else got[t][i] if len(got[t]) == len(data) else dict(head=[[['missing']]], body=[], columns=0)
                steps.append(dict(common, e='shown', target=t, **g))
            s = sizes[i] if not err and len(sizes) == len(data) else (-1, -1)
            steps.append(dict(common, e='size', cols=s[0], rows=s[1]))
        return {'steps': steps, 'page': text}
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
