"""Evaluates requirement groups and runs checkers against a scratch search path with stand-in programs."""
import contextlib, io, os, re, shutil, sys, tempfile
from disseminate.checkers import Checker, PythonChecker, PdfChecker, All, Any, Optional
from disseminate.checkers.types import SoftwareDependency
from disseminate.checkers.external import ImageExtChecker
from disseminate.cli.setup.checkers import print_dependencies

GROUP = dict(all=All, any=Any, opt=Optional)
AV = dict(yes=True, no=False, unknown=None)


def build(n, top=False):
    if n['k'] == 'dep':
        spec = n['name'] + (n['gap'] + n['op'] + n['gap'] + '.'.join(map(str, n['ver'])) if n['op'] else '')
        if n['av'] == '':
            return spec
        d = SoftwareDependency(spec)
        d.available = AV[n['av']]
        return d
    return GROUP[n['k']](n['name'], *[build(k) for k in n['kids']])


def observe(t):
    flat = t.flatten()
    nodes = [t] + [i for _, i in flat]
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        print_dependencies(t)
    text = re.sub(r'\x1b\[[0-9;]*m', '', buf.getvalue())
    printed = []
    for m in re.finditer(r"'([^']*)'[\s.]*\[\s*([A-Z]+)\s*\]", text):
        printed.append(dict(name=base(m.group(1)), ok=m.group(2) == 'PASS'))
    return dict(names=[base(getattr(i, 'category', None) or i.name) for _, i in flat], depths=[l for l, _ in flat],
                avail=[i.available is True for i in nodes], printed=printed)


def base(s):
    return re.split(r'\s*[=<>!]', s)[0]


def world(w, d):
    """a directory with the executables, things that only look like them, and stand-ins for kpsewhich and the interpreter"""
    b = os.path.join(d, 'bin')
    t = os.path.join(d, 'tex')
    os.makedirs(b)
    os.makedirs(t)
    for e in w['exes']:
        p = os.path.join(b, e)
        with open(p, 'w') as f:
            f.write('#!/bin/sh\n[ -e %s/"$1" ] && echo %s/"$1"\n' % (t, t) if e == 'kpsewhich' else '#!/bin/sh\n')
        os.chmod(p, 0o755)
    for e in w['decoys']:
        if e not in w['exes']:
            p = os.path.join(b, e)
            if len(e) % 2:
                os.mkdir(p)
            else:
                open(p, 'w').close()
                os.chmod(p, 0o644)
    for e in w['tex']:
        open(os.path.join(t, e), 'w').close()
    py = os.path.join(d, 'py')
    with open(py, 'w') as f:
        f.write("#!/bin/sh\nwhile read l; do echo \"$l\"; done <<'EOF'\n" + ''.join('%s==%s\n' % (i['shown'], i['text']) for i in w['pips']) + 'EOF\n')
    os.chmod(py, 0o755)
    return b, py


def run(case):
    steps = []
    for op in case['ops']:
        e = dict(op)
        if op['op'] == 'tree':
            e.update(observe(build(op['tree'])))
        else:
            d = tempfile.mkdtemp()
            path, exe = os.environ['PATH'], sys.executable
            try:
                os.environ['PATH'], sys.executable = world(op['world'], d)
                kids = [build(k) for k in op['tree']['kids']]
                top = All(op['tree']['name'], *kids)
                if op['kind'] == 'python':
                    c = PythonChecker(top)
                elif op['kind'] == 'pdf':
                    c = PdfChecker(top)
                else:
                    c = ImageExtChecker(top)
                c.check()
                if op['twice']:
                    c.check()
                c.category = op['tree']['name']
                e.update(observe(c))
            finally:
                os.environ['PATH'], sys.executable = path, exe
                shutil.rmtree(d, ignore_errors=True)
        steps.append(e)
    return {'steps': steps}
