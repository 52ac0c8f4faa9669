"""Splits texts into header and body with the real parser, alone and as part of loading a document."""
import os, pathlib, shutil, tempfile
from disseminate.context.utils import load_from_string, find_header_entries


def ent(d):
    return [{'key': list(k), 'value': list(v)} for k, v in sorted(d.items())]


def flat(x):
    if isinstance(x, str):
        return x
    if isinstance(x, (list, tuple)):
        return ''.join(map(flat, x))
    return flat(x.content)


def load(text):
    from disseminate.builders.environment import Environment
    base = pathlib.Path(tempfile.mkdtemp())
    try:
        (base / 'src').mkdir()
        p = base / 'src' / 'a.dm'
        p.write_text(text)
        doc = Environment(str(p)).root_document
        default = set(load.default)
        d = {k: v for k, v in doc.context.items() if isinstance(v, str) and k not in default}
        body = [c for c in flat(doc.context['body']) if not c.isspace()]
        return d, body
    finally:
        shutil.rmtree(str(base), ignore_errors=True)


load.default = ()


def run(case):
    steps = []
    for op in case['ops']:
        text = ''.join(op['text'])
        e = {'op': op['op'], 'text': op['text']}
        if op['op'] == 'parse':
            rest, d = load_from_string(text)
            e['found'] = rest is not None
            if bool(find_header_entries({'body': text})) != e['found']:
                e['found'] = not e['found']
            e['body'] = list(rest if rest is not None else text)
            e['entries'] = ent(d) if rest is not None else []
        else:
            if not load.default:
                load.default = ('x',)
                d0, _ = load('text')
                load.default = tuple(d0)
            d, body = load(text)
            e['entries'] = ent(d)
            e['found'] = op['found']
            e['body'] = body
        steps.append(e)
    return {'steps': steps}
