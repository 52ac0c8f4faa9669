"""Builds projects with images, converters being stand-ins that write what they were asked to do."""
import gc, os, re, shutil, stat, tempfile, urllib.parse
from disseminate.builders import Environment
from disseminate.builders.builder import Builder

STUBS = {
    'pdf2svg': 'p=0; [ $# -ge 3 ] && p=$3; { printf "svg%s(" "$p"; cat "$1"; printf ")"; } > "$2"',
    'convert': '{ printf "png("; cat "$1"; printf ")"; } > "$2"',
    'rsvg-convert': 'while [ $# -gt 1 ]; do case $1 in -z) z=$2; shift;; -o) o=$2; shift;; -f) shift;; *) i=$1;; esac; shift; done; [ $# -eq 1 ] && i=$1; { printf "scale%s(" "$z"; cat "$i"; printf ")"; } > "$o"',
    'pdf-crop-margins': 'c=; while [ $# -gt 0 ]; do case $1 in -o) o=$2; shift;; -p) c="$c-p$2"; shift;; -p4) c="$c-p$2,$3,$4,$5"; shift 4;; -a4) c="$c-a$2,$3,$4,$5"; shift 4;; *) i=$1;; esac; shift; done; '
                        '{ printf "crop%s(" "$c"; cat "$i"; printf ")"; } > "$o"',
    'asy': 'while [ $# -gt 0 ]; do case $1 in -safe) ;; -f) shift;; -o) o=$2; shift;; *) i=$1;; esac; shift; done; { printf "asy("; cat "$i"; printf ")"; } > "$o"',
    'pdflatex': 'for a in "$@"; do case $a in -output-directory=*) d=${a#*=};; -jobname=*) j=${a#*=};; -*) ;; *) i=$a;; esac; done; { printf "tex("; cat "$i" | sed -n "/begin{document}/,/end{document}/p" | grep -v "{document}" | tr -d "\\n"; printf ")"; } > "$d/$j.pdf"',
}


def tools(top, names):
    d = os.path.join(top, 'bin')
    os.makedirs(d)
    for n in names:
        p = os.path.join(d, n)
        with open(p, 'w') as h:
            h.write('#!/bin/sh\nPATH=/usr/bin:/bin\necho "%s" >> "%s/ran"\n%s\n' % (n, top, STUBS[n]))
        os.chmod(p, 0o755)
    return d


def read(p):
    try:
        with open(p, encoding='utf-8') as h:
            return h.read()
    except OSError:
        return 'no file'


def shown(path, target, root):
    """The images of a page, in order: what is in the files they lead to."""
    t = read(path)
    if target == 'tex':
        return [read(os.path.join(root, 'tex', (a or '') + b)) if not os.path.isabs(a) else read(a + b)
                for a, b in re.findall(r'\\includegraphics(?:\[[^]]*\])?\{\{([^}]*)\}(\.\w+)\}', t)]
    out = []
    for u in re.findall(r'<img[^>]*?src="([^"]*)"', t):
        u = urllib.parse.unquote(u)
        out.append(read(os.path.join(root, target, u[1:]) if u.startswith('/') else os.path.join(os.path.dirname(path), u)))
    return [x for x in out if not x.startswith('<')]       # those of the templates


MATH = re.compile(r'\\begin\{preview\}(.*)\\end\{preview\}', re.S)


def tokens(t):
    """What was done to make a file, the last thing first."""
    m = MATH.search(t)
    inner = []
    if m:
        t, x = t[:m.start()] + t[m.end():], m.group(1).replace('%', '').replace('{\\Large', '', 1).strip()[:-1].strip()
        for pat, name in ((r'\\ensuremath\{(.*)\}$', 'inline'), (r'\\begin\{([\w*]+)\}(.*)\\end\{\1\}$', None), (r'\\boldsymbol\{(.*)\}$', 'bold'), (r'\\textcolor\{(\w+)\}\{(.*)\}$', 'color')):
            n = re.match(pat, x, re.S)
            if n:
                inner.append(name if name in ('inline', 'bold') else (name or 'env') + ':' + n.group(1))
                x = n.groups()[-1].strip()
        inner.append(x)
    out = []
    for x in t.rstrip(')').split('('):
        if x.startswith('scale'):
            x = 'scale%g' % float(x[5:])
        if x.startswith('svg'):
            x = 'svg' if x == 'svg0' else x
        if x.startswith('crop'):
            x = 'crop'
        if x:
            out.append(x)
    return out + inner


def run(case):
    top = tempfile.mkdtemp()
    old = os.environ['PATH']
    steps = []
    env = None
    try:
        os.environ['PATH'] = tools(top, case['tools'])
        Builder._active.clear()
        Builder._available_builders.clear()
        for s in case['steps']:
            for f, t in s['files'].items():
                p = os.path.join(top, 'src', f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if t is None:
                    os.remove(p)
                    continue
                with open(p, 'w') as h:
                    h.write(t)
            open(top + '/ran', 'w').close()
            pages, error = [], ''
            try:
                if env is None or s['fresh']:
                    env = Environment(os.path.join(top, 'src', 'a.dm'), target_root=top)
                status = env.build(complete=True)
            except Exception as e:
                status, error = 'error', type(e).__name__
            if error:
                steps.append({k: v for k, v in s.items() if k not in ('files',)})
                steps[-1].update(status=status, pages=[], ran=0, error=error)
                break
            for d in env.root_document.documents_list(recursive=True):
                for t, p in sorted(d.targets.items()):
                    t = t.strip('.')
                    pages.append(dict(doc=str(d.src_filepath.subpath), target=t, shown=[tokens(x) for x in shown(str(p), t, top)]))
            steps.append({k: v for k, v in s.items() if k not in ('files',)})
            steps[-1].update(status=status, error=error, pages=pages, ran=len(read(top + '/ran').split('\n')) - 1)
        return dict(steps=steps)
    finally:
        os.environ['PATH'] = old
        Builder._active.clear()
        Builder._available_builders.clear()
        env = None
        shutil.rmtree(top, ignore_errors=True)
        gc.collect()
