"""Builds the epub of projects that are edited, and reads the archives back."""
import os, re, shutil, tempfile, zipfile
from lxml import etree
from disseminate.builders.environment import Environment
from d_paths import chars
CLOCK = [1000000000]
TOK = re.compile(r'w\d+w')


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as h:
        h.write(text.encode('latin-1') if path.endswith(('.png', '.svg')) else text.encode())
    CLOCK[0] += 10
    os.utime(path, (CLOCK[0], CLOCK[0]))


def segs(p):
    return [chars(x) for x in p.split('/') if x]


def name(e):
    return etree.QName(e).localname if isinstance(e.tag, str) else ''


def shown(e, out, link=None):
    """what a page shows, in order; the texts of links belong to them"""
    def text(t):
        for w in TOK.findall(t or ''):
            if link is None:
                out.append(dict(k='w', tok=w, url=[]))
            else:
                link['tok'] = w
    if name(e) == 'a' and e.get('href') is not None:
        new = dict(k='a', tok='', url=chars(e.get('href')))
        out.append(new)
        inner = new
    else:
        inner = link
        if name(e) == 'img':
            out.append(dict(k='img', tok='', url=chars(e.get('src') or '')))
    old, link = link, inner
    text(e.text)
    for c in e:
        shown(c, out, link)
        if True:
            text(c.tail)
    link = old


def entry(n, data):
    x = dict(path=segs(n), ok=True, tok='', ids=[], urls=[], shown=[], links=[])
    if n.endswith(('.xhtml', '.xml', '.opf', '.svg')):
        try:
            r = etree.fromstring(data)
        except etree.XMLSyntaxError:
            x['ok'] = False
            return x
        if n.endswith('.xhtml'):
            for e in r.iter():
                if e.get('id') is not None:
                    x['ids'].append(chars(e.get('id')))
                u = e.get('href') if name(e) in ('a', 'link') else e.get('src')
                if u is not None:
                    x['urls'].append(chars(u))
            b = [e for e in r.iter() if name(e) == 'body'][0]
            shown(b, x['shown'])
            x['links'] = [s for s in x['shown'] if s['k'] == 'a']
    if n.endswith(('.svg', '.png')):
        t = TOK.findall(data.decode('latin-1'))
        x['tok'] = t[0] if t else ''
    return x


def read(path):
    ev = dict(entries=[], stored=False, package=[], manifest=[], spine=[], title='')
    if not os.path.exists(path):
        return ev
    with zipfile.ZipFile(path) as z:
        infos = z.infolist()
        ev['entries'] = [entry(i.filename, z.read(i)) for i in infos]
        ev['stored'] = bool(infos) and infos[0].compress_type == zipfile.ZIP_STORED and z.read(infos[0]) == b'application/epub+zip'
        try:
            c = etree.fromstring(z.read('META-INF/container.xml'))
            p = [e for e in c.iter() if name(e) == 'rootfile'][0].get('full-path')
            ev['package'] = chars(p)
            o = etree.fromstring(z.read(p))
        except (KeyError, etree.XMLSyntaxError):
            return ev
        for e in o.iter():
            if name(e) == 'item':
                ev['manifest'].append(dict(href=chars(e.get('href')), id=e.get('id'), type=e.get('media-type'), nav='nav' in (e.get('properties') or '').split()))
            elif name(e) == 'itemref':
                ev['spine'].append(e.get('idref'))
            elif name(e) == 'title':
                ev['title'] = e.text or ''
    return ev


def listing(base):
    out = {}
    for dp, dn, fn in os.walk(base):
        for f in fn:
            p = os.path.join(dp, f)
            if 'md5decider' not in p:
                s = os.stat(p)
                out[os.path.relpath(p, base)] = (s.st_mtime_ns, s.st_ino, s.st_size)
    return out


def run(case):
    base = os.path.realpath(tempfile.mkdtemp(prefix='epub')) + '/my p'
    src, old = base + '/src', os.getcwd()
    try:
        os.makedirs(src)
        os.chdir(base)
        steps, env = [], None
        root = case['root']
        book = '%s/epub/%s.epub' % (base, root[:-3])
        state = None
        for op in case['ops']:
            if op['op'] == 'edit':
                for n, t in op['files'].items():
                    if t is None:
                        os.remove(os.path.join(src, n))
                    else:
                        write(os.path.join(src, n), t)
                state = op['state']
            elif op['op'] == 'restart':
                env = None
            elif op['op'] == 'damage':
                f = {'book': book, 'cached': '%s/.cache/epub/%s.epub' % (base, root[:-3]), 'nav': base + '/.cache/xhtml/toc.xhtml'}[op['what']]
                if os.path.exists(f):
                    if op['how'] == 'delete':
                        os.remove(f)
                    else:
                        with open(f, 'r+b') as h:
                            h.truncate(op['at'])
            else:
                env = env or Environment(os.path.join(src, root))
                try:
                    result = env.build(complete=True)
                except Exception as e:
                    result = '%s: %s' % (type(e).__name__, str(e)[:200])
                try:
                    ev = read(book)
                except zipfile.BadZipFile:
                    ev = dict(entries=[], stored=False, package=[], manifest=[], spine=[], title='')
                steps.append(dict(ev, e='book', result=result, state=state, changed=[]))
                if op.get('again'):
                    before = listing(base)
                    if op['again'] == 'restart':
                        env = Environment(os.path.join(src, root))
                    env.build(complete=True)
                    after = listing(base)
                    steps.append(dict(e='idle', changed=sorted(f for f in set(before) | set(after) if before.get(f) != after.get(f))))
        return {'steps': steps}
    finally:
        os.chdir(old)
        shutil.rmtree(os.path.dirname(base), ignore_errors=True)
