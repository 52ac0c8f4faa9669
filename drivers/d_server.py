"""Serves projects that are edited, and asks for pages the way a browser does."""
import asyncio, hashlib, logging, os, shutil, socket, tempfile, threading
from urllib.parse import quote
from lxml import html as lh
import tornado.httpserver, tornado.netutil
from pkgcopy import TPL
from disseminate.builders.environment import Environment
from disseminate.server.app import get_app
from disseminate.server.handlers.store import reset_store
TARGETS = ('html', 'xhtml', 'tex', 'txt')
PAGES = tuple('.' + t for t in TARGETS)
CLOCK = [1000000000]
SECRET = 'a very secret text'
logging.disable(logging.CRITICAL)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    assert not os.path.realpath(path).startswith('/repo')
    with open(path, 'wb') as h:
        h.write(text.encode('latin-1'))
    CLOCK[0] += 10
    os.utime(path, (CLOCK[0], CLOCK[0]))


def md5(b):
    return hashlib.md5(b).hexdigest()[:12]


def shown(path, body):
    """what is to be seen of a file"""
    return md5(body.strip()) if path.endswith('.tex') else md5(body)


def listed(body):
    """the text of a highlighted page"""
    t = lh.fromstring(body.decode()).xpath('//td[@class="code"]//pre')
    return t[0].text_content().strip().encode() if t else None


class Server:
    def __init__(self, in_path):
        reset_store()
        self.loop = asyncio.new_event_loop()
        self.kept = {}
        ready = threading.Event()

        def go():
            asyncio.set_event_loop(self.loop)
            self.server = tornado.httpserver.HTTPServer(get_app(in_path=in_path, out_dir=None))
            socks = tornado.netutil.bind_sockets(0, '127.0.0.1')
            self.port = socks[0].getsockname()[1]
            self.server.add_sockets(socks)
            ready.set()
            self.loop.run_forever()
        self.thread = threading.Thread(target=go, daemon=True)
        self.thread.start()
        assert ready.wait(20)

    def close(self):
        self.loop.call_soon_threadsafe(self.server.stop)
        self.loop.call_soon_threadsafe(self.loop.stop)
        self.thread.join(10)
        reset_store()

    def get(self, path, headers=()):
        s = socket.create_connection(('127.0.0.1', self.port), timeout=60)
        s.sendall(('GET %s HTTP/1.1\r\nHost: 127.0.0.1\r\n%sConnection: close\r\n\r\n' % (path, ''.join('%s: %s\r\n' % h for h in headers))).encode())
        data = b''
        while True:
            b = s.recv(65536)
            if not b:
                break
            data += b
        s.close()
        head, _, body = data.partition(b'\r\n\r\n')
        lines = head.decode('latin-1').split('\r\n')
        if not lines[0].startswith('HTTP'):
            return 599, {}, b''       # no answer at all
        return int(lines[0].split()[1]), {k.lower(): v for k, _, v in (x.partition(': ') for x in lines[1:])}, body

    def browse(self, path, again):
        """an answer as a browser shows it: with what it kept, if that is still good"""
        h = []
        if again and path in self.kept:
            k = self.kept[path]
            h = [(a, k[0][b]) for a, b in (('If-None-Match', 'etag'), ('If-Modified-Since', 'last-modified')) if b in k[0]]
        code, head, body = self.get(quote(path), h)
        if code == 304:
            assert h
            body = self.kept[path][1]
        elif code == 200:
            self.kept[path] = (head, body)
        return code, body


def files(root):
    out = {}
    for t in TARGETS:
        for dn, _, fs in os.walk(os.path.join(root, t)):
            for f in fs:
                p = os.path.join(dn, f)
                with open(p, 'rb') as h:
                    out['/' + os.path.relpath(p, root)] = shown(f, h.read())
    return out


def run(case):
    base = os.path.realpath(tempfile.mkdtemp(prefix='serve'))
    root, aside = os.path.join(base, 'my p'), os.path.join(base, 'aside')
    old = os.getcwd()
    steps, keep, sources, server = [], [], {}, None
    SECRETS = ['secret' + x for x in ('.dm', '.tex', '.html', '.txt', '.css')]

    def apply(changes):
        for f, text in changes.items():
            p = os.path.join(root, 'src', f)
            if text is None:
                os.remove(p)
                sources.pop(f)
            else:
                write(p, text)
                sources[f] = text

    def fresh():
        os.rename(root, aside)
        shutil.copytree(os.path.join(aside, 'src'), os.path.join(root, 'src'))
        os.chdir(root)
        try:
            env = Environment('src/a.dm')
            keep.append(env)
            env.build(complete=True)
            got, good = files(root), True
        except Exception:
            got, good = {}, False
        os.chdir(base)
        shutil.rmtree(root)
        os.rename(aside, root)
        os.chdir(root)
        return good, [[f, d, f.endswith(PAGES) and '/media/' not in f] for f, d in sorted(got.items())]

    def edited(tree):
        good, got = fresh()
        steps.append(dict(e='edit', good=good, fresh=got, tree=tree))
        return good, {x[0]: x for x in got}
    try:
        os.mkdir(root)
        os.chdir(root)
        for s in SECRETS:
            write(os.path.join(base, s), SECRET)
        apply(case['files'])
        good, now = edited(case['tree'])
        seen = dict(now)
        try:
            server = Server('src/a.dm')
        except Exception:
            raise
        for op in case['ops']:
            if op['op'] == 'edit':
                apply(op['files'])
                good, now = edited(op['tree'])
                seen.update(now)
                continue
            if op['op'] == 'list':
                code, head, body = server.get('/')
                rows, links = [], []
                if code == 200:
                    for tr in lh.fromstring(body.decode()).xpath('//tr[starts-with(@class,"level-")]'):
                        rows.append([tr.xpath('.//td[@class="src"]/a')[0].text, int(tr.get('class')[6:])])
                        assert tr.xpath('.//td[@class="src"]/a')[0].get('href') == '/src/' + rows[-1][0], tr.xpath('.//a/@href')
                        links += ['/' + x for x in tr.xpath('.//td[@class="tgt"]/a/@href')]
                steps.append(dict(e='list', code=code, rows=rows, links=links))
                continue
            if op['op'] == 'source':
                names = sorted(f for f in sources if f.endswith('.dm'))
                f = names[int(op['which'] * len(names))]
                code, head, body = server.get(quote('/src/' + f))
                same = code == 200 and listed(body) == sources[f].encode('latin-1').strip()
                steps.append(dict(e='source', code=code, same=same, path=f))
                continue
            if op['op'] == 'path':
                path = op['path'].replace('BASE', base)
                code, head, body = server.get(path)
                steps.append(dict(e=op['kind'], path=op['path'], code=code, inside=SECRET.encode() in body))
                continue
            # a page or a file of the project, of now or before
            names = sorted(f for f in (now if op['now'] and now else seen) if (f.endswith(PAGES) and '/media/' not in f) == (op['op'] == 'page'))
            if not names:
                continue
            path = names[int(op['which'] * len(names))]
            code, body = server.browse(path, op['again'])
            if code in (200, 304) and path.endswith('.tex'):
                body = listed(body) or b''
            steps.append(dict(e=op['op'], path=path, code=code, digest=shown(path, body), inside=SECRET.encode() in body))
        return {'steps': steps}
    finally:
        if server is not None:
            server.close()
        os.chdir(old)
        shutil.rmtree(base, ignore_errors=True)
