"""Builds projects again and again while they are edited, and from scratch at the same place."""
import os, shutil, tempfile, hashlib
from pkgcopy import TPL
from disseminate.builders.environment import Environment
TARGETS = ('html', 'xhtml', 'tex', 'txt')
CLOCK = [1000000000]


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    assert not os.path.realpath(path).startswith('/repo')
    with open(path, 'wb') as h:
        h.write(text.encode('latin-1') if isinstance(text, str) else text)
    CLOCK[0] += 10
    os.utime(path, (CLOCK[0], CLOCK[0]))


def files(root):
    out = {}
    for t in TARGETS:
        for dn, _, fs in os.walk(os.path.join(root, t)):
            for f in fs:
                p = os.path.join(dn, f)
                out[os.path.relpath(p, root)] = p
    return out


def digests(root):
    out = {}
    for f, p in files(root).items():
        with open(p, 'rb') as h:
            out[f] = hashlib.md5(h.read()).hexdigest()[:12]
    return out


def stamps(root):
    out = {}
    for f, p in files(root).items():
        s = os.stat(p)
        out[f] = (s.st_mtime_ns, s.st_ino)
    return out


def build(env):
    try:
        env.build(complete=True)
        return 'ok'
    except Exception as e:
        return 'error ' + type(e).__name__


def run(case):
    base = os.path.realpath(tempfile.mkdtemp(prefix='proj'))
    root, aside = os.path.join(base, 'my p'), os.path.join(base, 'aside')
    old = os.getcwd()
    steps, keep, saved = [], [], {}
    sources = {}
    n = [0]

    def snapshot():
        return 's' + hashlib.md5(repr(sorted(sources.items())).encode()).hexdigest()[:10]

    def apply(changes):
        for f, text in changes.items():
            p = os.path.join(TPL, f[4:]) if f.startswith('tpl:') else os.path.join(root, 'src', f)
            if f.startswith('tpl:') and f not in saved:
                if os.path.exists(p):
                    with open(p, 'rb') as h:
                        saved[f] = h.read()
                else:
                    saved[f] = None
            if text is None:
                os.remove(p)
                sources.pop(f)
            elif text.startswith('+'):
                # a file of the package with something added
                write(p, saved[f] + text.encode())
                sources[f] = text
            else:
                write(p, text)
                sources[f] = text

    def fresh():
        """the answer from a new project at the same place"""
        os.rename(root, aside)
        shutil.copytree(os.path.join(aside, 'src'), os.path.join(root, 'src'))
        try:
            env = Environment(os.path.join(root, 'src', case['first']))
            keep.append(env)
            res = build(env)
        except Exception as e:
            res = 'error ' + type(e).__name__
        steps.append(dict(e='fresh', sources=snapshot(), result=res, files=sorted([f, d] for f, d in digests(root).items())))
        shutil.rmtree(root)
        os.rename(aside, root)
        return res
    try:
        os.mkdir(root)
        os.chdir(base)
        apply(case['files'])
        env = None
        for op in case['ops']:
            if op['op'] == 'edit':
                apply(op['files'])
                steps.append(dict(e='edit', sources=snapshot(), result='', files=[]))
            elif op['op'] == 'damage':
                fs = sorted(files(root).items())
                for x in op['which']:
                    if not fs:
                        break
                    p = fs[int(x * len(fs))][1]
                    if op['how'] == 'delete':
                        if os.path.exists(p):
                            os.remove(p)
                        continue
                    if not os.path.exists(p):
                        continue
                    with open(p, 'rb') as h:
                        old_text = h.read()
                    with open(p, 'wb') as h:
                        h.write({'empty': b'', 'cut': old_text[:len(old_text) // 2], 'other': b'x' * len(old_text)}[op['how']])
            elif op['op'] == 'restart':
                env = None
            elif op['op'] == 'build':
                try:
                    if env is None:
                        env = Environment(os.path.join(root, 'src', case['first']))
                        keep.append(env)
                    res = build(env)
                except Exception as e:
                    res = 'error ' + type(e).__name__
                    env = None
                steps.append(dict(e='build', sources=snapshot(), result=res, files=sorted([f, d] for f, d in digests(root).items())))
                if op.get('again') and res == 'ok':
                    a = stamps(root)
                    if op['again'] == 'restart':
                        env = Environment(os.path.join(root, 'src', case['first']))
                        keep.append(env)
                    res = build(env)
                    b = stamps(root)
                    steps.append(dict(e='idle', sources=snapshot(), result=res, files=sorted([f, ''] for f in set(a) | set(b) if a.get(f) != b.get(f))))
                fresh()
        return {'steps': steps}
    finally:
        for f, text in saved.items():
            p = os.path.join(TPL, f[4:])
            if text is None:
                if os.path.exists(p):
                    os.remove(p)
            else:
                write(p, text)
        os.chdir(old)
        shutil.rmtree(base, ignore_errors=True)
