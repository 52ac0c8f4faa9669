"""Makes projects from starters with the command line, in folders with and without files."""
import hashlib, os, re, shutil, tempfile
from pkgcopy import TPL
from click.testing import CliRunner
from disseminate.cli import main


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    assert not os.path.realpath(path).startswith('/repo')
    with open(path, 'wb') as h:
        h.write(text.encode('latin-1'))


def digests(root):
    out = []
    for dn, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(dn, f)
            with open(p, 'rb') as h:
                out.append([os.path.relpath(p, root), hashlib.md5(h.read()).hexdigest()[:12]])
    return sorted(out)


DESC = 'description.yaml'


def starters():
    """the starters: folders with a description in the folder 'starters' of a template"""
    out = []
    for dn, _, fs in os.walk(TPL):
        if DESC in fs:
            name = '/'.join(x for x in os.path.relpath(dn, TPL).split(os.sep) if x != 'starters')
            out.append(dict(name=name, files=[x for x in digests(dn) if x[0] != DESC]))
    return sorted(out, key=lambda s: s['name'])


def plain(s):
    return re.sub(r'\x1b\[[0-9;]*m', '', s)


def run(case):
    base = os.path.realpath(tempfile.mkdtemp(prefix='start'))
    old, made = os.getcwd(), []
    os.environ['COLUMNS'] = str(case['width'])
    try:
        for s in case['starters']:
            d = os.path.join(TPL, s['place'])
            top = os.path.join(TPL, s['place'].split('/')[0])
            made.append(top if not os.path.exists(top) or top in made else d)
            write(os.path.join(d, DESC), s['description'])
            for f, text in s['files'].items():
                write(os.path.join(d, f), text)
            for f in s['folders']:
                os.makedirs(os.path.join(d, f), exist_ok=True)
        for f, text in case['files'].items():
            write(os.path.join(base, f), text)
        for f in case['folders']:
            os.makedirs(os.path.join(base, f), exist_ok=True)
        known = starters()
        steps = []
        for op in case['ops']:
            dest = os.path.join(base, op['dest'])
            if op['for'] == 'edit':
                b = digests(base)
                write(os.path.join(dest, op['file']), op['text'])
                steps.append(dict(e='edit', before=b, after=digests(base)))
                continue
            args = ['init']
            if op['for'] != 'list' or op['name']:
                args.append(op['name'])
            args += {'clone': [], 'tell': ['--info'], 'list': [['-l'], ['--list'], []][op['how']] if op['name'] == '' else ['-l']}[op['for']]
            if not op['ask']:
                args.append(['-n', '--non-interactive'][op['how'] % 2])
            if op['inside']:
                os.chdir(dest)
            else:
                os.chdir(base)
                args += [['-o', '--out-dir'][op['how'] % 2], [dest, op['dest']][op['how'] % 2]]
            if op['how'] == 1:
                args = args[:1] + args[2:] + args[1:2]
            before, empty = digests(base), not os.listdir(dest)
            res = CliRunner().invoke(main, args, input={'yes': op['say'], 'no': op['say'], 'end': ''}[op['answer']])
            os.chdir(old)
            if res.exception is not None and not isinstance(res.exception, SystemExit):
                code = 99
            else:
                code = res.exit_code
            out = plain(res.output)
            names = []
            if op['for'] == 'list':
                names = [m[1] for m in re.finditer(r'^(\S+) +- ', out, re.M)]
            elif op['for'] == 'tell' and code == 0:
                part = out.split('\nFiles\n')[-1] if '\nFiles\n' in out else ''
                names = [x.strip() for x in part.split('\n') if x.strip()]
            steps.append({'e': 'command', 'name': op['name'], 'for': op['for'], 'ask': op['ask'], 'answer': op['answer'], 'dest': op['dest'], 'empty': empty, 'code': code, 'names': names,
                          'before': before, 'after': digests(base), 'starters': known, 'output': out[-300:]})
        return {'steps': steps}
    finally:
        os.chdir(old)
        for d in made:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(base, ignore_errors=True)
