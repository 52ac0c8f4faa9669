"""Searches files in directories, scans pages and builds projects with templates that refer to files."""
import os, re, shutil, tempfile, pathlib
from pkgcopy import TPL
from disseminate.builders.environment import Environment
from disseminate.builders.scanners import Scanner
from disseminate.paths import SourcePath, TargetPath
from disseminate.paths.utils import find_file, find_files, load_io_stream


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    assert not os.path.realpath(path).startswith('/repo')
    with open(path, 'w') as h:
        h.write(text)


def read(path):
    with open(str(path), 'rb') as h:
        return h.read().decode()


def find(base, e):
    root = os.path.join(base, 'root')
    places = {}
    for d in e['dirs']:
        places[d] = os.path.join(root, e['at'][d])
        os.makedirs(places[d], exist_ok=True)
    for d in e['holders']:
        write(os.path.join(places[d], e['name']), d)
    for d in e['folders']:
        os.makedirs(os.path.join(places[d], e['name']), exist_ok=True)
    cwd = os.path.join(base, 'cwd')
    os.makedirs(cwd)
    if e['incwd']:
        write(os.path.join(cwd, e['name']), 'cwd')
    os.chdir(cwd)
    kind = {'source': lambda d: SourcePath(project_root=root, subpath=e['at'][d]), 'path': lambda d: pathlib.Path(places[d]), 'text': lambda d: places[d],
            'target': lambda d: TargetPath(target_root=base, target='root', subpath=e['at'][d])}
    paths = [kind[k](d) for d, k in zip(e['dirs'], e['kinds'])]
    context = {'paths': paths}
    name = e['name']
    how = e['how']
    try:
        if how == 'file':
            p = find_file(name, context)
        elif how == 'quiet':
            p = find_file(name, context, raise_error=False)
        elif how == 'files':
            ps = find_files('none here\n\n  ' + name + ' \nnor here', context)
            assert len(ps) < 2
            p = ps[0] if ps else None
        else:
            text = load_io_stream(name, context).read()
            return 'error' if text == name else text
    except FileNotFoundError:
        return 'error'
    if p is None:
        return 'error'
    r = read(p)
    if r in places:
        k = e['kinds'][e['dirs'].index(r)]
        if k in ('source', 'target'):
            want = os.path.normpath(os.path.join(e['at'][r], name))
            if not isinstance(p, (SourcePath, TargetPath)) or os.path.normpath(str(p.subpath)) != want:
                return 'not a path of ' + r
    return r


def named(base, e):
    """a file named in a document"""
    root = os.path.join(base, 'p', 'src')
    more = '\n1\n' if e['how'] == 'csv' else ''
    places = {'doc': os.path.join(root, os.path.dirname(e['doc'])), 'root': root, 'other': os.path.join(root, 'other')}
    for d in e['present']:
        if d == 'root' and places['doc'] == root and 'doc' in e['present']:
            continue
        write(os.path.join(places[d], e['name']), e['texts'][d] + more)
    tag = {'img': '@img{%s}', 'code': '@python{%s}', 'csv': '@table{@csv{%s}}'}[e['how']] % e['name']
    write(os.path.join(root, e['doc']), '---\ntargets: html\n---\n%s\n' % tag)
    first = e['doc']
    if e['doc'] != 'a.dm':
        write(os.path.join(root, 'a.dm'), '---\ntargets: html\ninclude:\n  %s\n---\nroot\n' % e['doc'])
        first = 'a.dm'
    cwd = os.path.join(base, 'cwd')
    os.makedirs(cwd)
    if e['incwd']:
        write(os.path.join(cwd, e['name']), e['texts']['cwd'] + more)
    os.chdir(cwd)
    try:
        env = Environment(os.path.join(root, first))
        env.build(complete=True)
    except Exception as x:
        return 'error', env if 'env' in locals() else None
    page = os.path.join(base, 'p', 'html', os.path.splitext(e['doc'])[0] + '.html')
    if not os.path.exists(page):
        return 'error', env
    text = read(page)
    if e['how'] == 'img':
        m = [x for x in re.findall(r'<img src="([^"]*)"', text) if e['name'].split('/')[-1] in x]
        if not m:
            return 'error', env
        p = os.path.join(os.path.dirname(page), m[0])
        text = read(p) if os.path.exists(p) else ''
    for d, t in e['texts'].items():
        if t in text:
            return d, env
    return 'error', env


def scan(base, e):
    root = os.path.join(base, 'root')
    for f in e['files']:
        write(os.path.join(root, *f), 'x')
    sub = os.path.join(*e['dir'], 'page' + e['ext']) if e['dir'] else 'page' + e['ext']
    write(os.path.join(root, sub), e['text'])
    os.makedirs(os.path.join(base, 'cwd'))
    os.chdir(os.path.join(base, 'cwd'))
    p = SourcePath(project_root=root, subpath=sub) if e['source'] else TargetPath(target_root=base, target='root', subpath=sub)
    args = [[p], p, ['other', p, 3]][e['args']]
    try:
        r = Scanner.scan(args, raise_error=e['strict'])
    except FileNotFoundError:
        return True, []
    return False, [os.path.relpath(os.path.normpath(str(x)), root).split(os.sep) for x in r]


def tree(base, e):
    made = []
    try:
        for f, text in e['templates'].items():
            p = os.path.join(TPL, f)
            made.append(p)
            write(p, text)
        root = os.path.join(base, 'p', 'src')
        for f, text in e['docs'].items():
            write(os.path.join(root, f), text)
        os.makedirs(os.path.join(base, 'cwd'))
        os.chdir(os.path.join(base, 'cwd'))
        if e['hostile']:
            for f in e['hostile']:
                write(os.path.join(base, 'cwd', f), 'hostile')
        env = None
        try:
            env = Environment(os.path.join(root, 'a.dm'))
            env.build(complete=True)
        except FileNotFoundError:
            return True, [], [], env
        out = os.path.join(base, 'p', 'html')
        got, dangling = [], []
        for dn, _, fs in os.walk(out):
            for f in fs:
                p = os.path.relpath(os.path.join(dn, f), out)
                if f.endswith('.html'):
                    for x in re.findall(r'data-check [a-z]*="([^"]*)"', read(os.path.join(dn, f))):
                        if not os.path.isfile(os.path.join(dn, x)):
                            dangling.append([p, x])
                else:
                    got.append(p.split(os.sep))
        return False, got, dangling, env
    finally:
        for p in made:
            if os.path.exists(p):
                os.remove(p)
        for d in ('mine', 'other'):
            shutil.rmtree(os.path.join(TPL, d), ignore_errors=True)


def run(case):
    steps, keep = [], []
    old = os.getcwd()
    for e in case['steps']:
        base = os.path.realpath(tempfile.mkdtemp(prefix='deps'))
        e = dict(e)
        try:
            if e['e'] == 'find':
                if 'doc' in e:
                    r, env = named(base, e)
                    keep.append(env)
                else:
                    r = find(base, e)
                steps.append(dict(e='find', dirs=e['dirs'], holders=e['holders'], incwd=e['incwd'], result=r))
            elif e['e'] == 'scan':
                err, r = scan(base, e)
                steps.append(dict(e='scan', refs=e['refs'], dir=e['dir'], files=e['files'], strict=e['strict'], error=err, result=r))
            else:
                err, r, d, env = tree(base, e)
                keep.append(env)
                steps.append(dict(e='tree', nodes=e['nodes'], error=err, result=r, dangling=d))
        finally:
            os.chdir(old)
            shutil.rmtree(base, ignore_errors=True)
    return {'steps': steps}
