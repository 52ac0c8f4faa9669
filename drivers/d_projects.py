"""Runs the build command in folders with several projects, and lists the pages made."""
import os, re, shutil, tempfile
from click.testing import CliRunner
from disseminate.cli.main import main
TOK = re.compile(r'w\d+w')
CLOCK = [1000000000]


def pages(top):
    out = []
    for d, ds, fs in os.walk(top):
        ds[:] = [x for x in ds if x != '.cache']
        for f in fs:
            n, e = os.path.splitext(f)
            if e in ('.html', '.xhtml', '.tex', '.txt'):
                with open(os.path.join(d, f), encoding='utf-8') as h:
                    seen = []
                    for w in TOK.findall(h.read()):
                        if w not in seen:
                            seen.append(w)
                p = os.path.relpath(d, top)
                out.append(dict(path=[] if p == '.' else p.split('/'), name=n, ext=e[1:], toks=seen))
    return sorted(out, key=lambda x: (x['path'], x['name'], x['ext']))


def run(case):
    top = tempfile.mkdtemp()
    old = os.getcwd()
    steps = []
    try:
        for s in case['steps']:
            for f, t in s['files'].items():
                p = os.path.join(top, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if t is None:
                    os.remove(p)
                    continue
                with open(p, 'w') as h:
                    h.write(t)
                CLOCK[0] += 10
                os.utime(p, (CLOCK[0], CLOCK[0]))
            for d in s['dirs']:
                os.makedirs(os.path.join(top, d), exist_ok=True)
            os.chdir(os.path.join(top, s['cwd']))
            args = ['build'] + [a.replace('TOP', top) for a in s['args']]
            r = CliRunner().invoke(main, args)
            os.chdir(old)
            if r.exception is not None and not isinstance(r.exception, SystemExit):
                raise r.exception
            steps.append({k: s[k] for k in ('docs', 'from', 'file', 'out')})
            steps[-1].update(code=r.exit_code, done=r.output.count('Build: done'), pages=pages(top), output=r.output[-300:])
        return dict(steps=steps)
    finally:
        os.chdir(old)
        shutil.rmtree(top, ignore_errors=True)
