"""Formats elements, commands and documents, and reads the results back."""
import html as H, os, re, shutil, tempfile
from lxml import etree
from markupsafe import Markup
from disseminate.attributes import Attributes
from disseminate.formats import tex_cmd, tex_env, tex_verb, xhtml_tag
from disseminate.formats.exceptions import FormattingError
from disseminate.tags.utils import tex_percentwidth, xhtml_percentwidth
from disseminate.utils import types as ty
from disseminate.builders.environment import Environment
KINDS = {'int': ty.IntPositionalValue, 'float': ty.FloatPositionalValue, 'string': ty.StringPositionalValue}
VOID = {'br', 'hr', 'img', 'link'}
GREEK = {'\u03b1': '(alpha)', '\u03b2': '(beta)', '\u03a9': '(Omega)'}
TAG = re.compile(r'''<(/?)([A-Za-z][\w:.-]*)((?:\s+[\w:.-]+=(?:"[^"<]*"|'[^'<]*'))*)\s*(/?)>''')


def attrs(entries):
    d = Attributes()
    for x in entries:
        d[x['n'] + ('.' + x['t'] if x['t'] else '')] = KINDS[x['kind']] if x['pos'] else x['v']
    return d


def words(s):
    assert '<' not in s, s
    assert not re.search(r'&(?!#?\w+;)', s), s
    s = H.unescape(s)
    for a, b in GREEK.items():
        s = s.replace(a, b)
    return s


def tokens(s, void):
    out, i = [], 0

    def text(t):
        if t.strip() or '\n' not in t:
            t = words(t).replace('\n', '')
            if t and out and out[-1]['e'] == 'text':
                out[-1]['n'] += t
            elif t:
                out.append(dict(e='text', n=t, a=[]))
    for m in TAG.finditer(s):
        text(s[i:m.start()])
        i = m.end()
        end, name, a, empty = m.groups()
        if end:
            out.append(dict(e='close', n=name, a=[]))
            continue
        pairs = [[k, words(v[1:-1])] for k, v in re.findall(r'([\w:.-]+)=("[^"]*"|\'[^\']*\')', a) if not k.startswith('xmlns')]
        out.append(dict(e='open', n=name, a=pairs))
        if empty or (void and name in VOID):
            out.append(dict(e='close', n=name, a=[]))
    text(s[i:])
    return out


def build(x, level, method):
    parts = []
    for y in x['parts']:
        if y['text']:
            parts.append(y['name'])
        elif y['how'] == 'markup':
            parts.append(xhtml_tag(y['name'], attrs(y['attrs']), pack(y, level + 1, 'xhtml'), level=1, method='xhtml', target=y['target'] if y['explicit'] or y['target'] != 'xhtml' else None))
        else:
            parts.append(make(y, level + 1))
    return parts


def pack(x, level, method):
    p = build(x, level, method)
    return p if len(p) > 1 or x['listed'] else p[0] if p else x['none']


def make(x, level):
    target = ('.' * x['dot'] + x['target']) if x['explicit'] else None
    return xhtml_tag(x['name'], attrs(x['attrs']), pack(x, level, x['method']), level=level, method=x['method'], target=target)


def lines(s):
    return [x for x in s.split('\n') if x.strip()]


def inline(parts):
    s = ''
    for x in parts:
        if x['text']:
            s += x['name']
        else:
            a = ' '.join((y['n'] + ('.' + y['t'] if y['t'] else '')) + ('' if y['pos'] else '=%s%s%s' % (y['q'], y['v'], y['q'])) for y in x['attrs'])
            inside = ' && '.join(y['name'] for y in x['parts']) if x['name'] == 'supsub' else inline(x['parts'])
            s += '@' + x['name'] + ('[' + a + ']' if a else '') + '{' + inside + '}'
    return s


def document(case):
    base = os.path.realpath(tempfile.mkdtemp(prefix='formats'))
    try:
        os.mkdir(base + '/src')
        src = '---\ntargets: html, xhtml, tex\n---\n' + '\n\n'.join(inline(b['parts']) if b['name'] == 'para' else inline([b]) for b in case['body']) + '\n'
        with open(base + '/src/a.dm', 'w', encoding='utf-8') as h:
            h.write(src)
        steps = []
        try:
            env = Environment(base + '/src/a.dm')
            env.root_document.load()
            body = env.root_document.context['body']
        except Exception as e:
            return [dict(e='html', target='html', body=case['body'], got='%s %s' % (type(e).__name__, e), tokens=[])]
        for t in case['order']:
            try:
                s, got = str(getattr(body, t)), 'ok'
            except Exception as e:
                s, got = '', '%s %s' % (type(e).__name__, e)
            if t == 'tex':
                s = re.sub(r'\\verb(.)(.*?)\1', lambda m: '\\verb?%s?' % m.group(2), s)
                s = re.sub(r'(?=\\(?:chapter|section|subsection|subsubsection)\{|\\begin\{panel)', '\n', s)
                steps.append(dict(e='tex', body=case['body'], got=got, lines=[x.rstrip() if x.startswith('\\end') else x for x in lines(s)], apart=[bool(m) for m in apart(s)]))
            else:
                steps.append(dict(e='html', target=t, body=case['body'], got=got, tokens=tokens(s, t == 'html')))
        return steps
    finally:
        shutil.rmtree(base, ignore_errors=True)


def apart(s):
    """whether each line has a blank one before it"""
    was, out = False, []
    for x in s.split('\n'):
        if x.strip():
            out.append(was)
            was = False
        else:
            was = True
    return out


def run(case):
    k = case['e']
    if k == 'doc':
        return {'steps': document(case)}
    e = {x: case[x] for x in case if x not in ('how',)}
    if k == 'element':
        try:
            s = make(case['node'], case['level'])
            if case['level'] > 1:
                s = etree.tostring(s, method='xml' if case['node']['method'] != 'html' else 'html').decode()
            e.update(got='ok', tokens=tokens(str(s), case['node']['method'] == 'html'))
        except FormattingError:
            e.update(got='refused', tokens=[])
        except Exception as x:
            e.update(got='%s %s' % (type(x).__name__, x), tokens=[])
    elif k in ('command', 'environment'):
        try:
            if k == 'command':
                s = tex_cmd(case['name'], attrs(case['attrs']), case['text'] if case['with'] else None, indent=case['indent'] or None)
            else:
                s = tex_env(case['name'], attrs(case['attrs']), case['before'] + case['text'] + case['after'], min_newlines=case['short'], indent=case['indent'] or None)
            ls = lines(s)
            if case['indent']:
                assert all(x.startswith(' ' * case['indent']) for x in ls), ls
                ls = [x[case['indent']:] for x in ls]
            e.update(got='ok', lines=ls)
        except FormattingError:
            e.update(got='refused', lines=[])
        except Exception as x:
            e.update(got='%s %s' % (type(x).__name__, x), lines=[])
    elif k == 'verb':
        s = tex_verb(case['text'])
        e.update(closed=s.startswith('\\verb') and len(s) > 6 and s[5] == s[-1] and s[5] not in s[6:-1], inside=s[6:-1])
    elif k == 'width':
        key = 'width' + case['mark']
        a, b = xhtml_percentwidth(Attributes({key: case['text']})), tex_percentwidth(Attributes({key: case['text']}))
        e.update(html=a.get('class', target='html') or '', tex=b.get('width', target='tex') or '')
    return {'steps': [e]}
