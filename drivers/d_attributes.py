"""Parses attribute texts with the real class and looks entries up for targets."""
from disseminate.attributes import Attributes
from disseminate.utils import types as ty

KINDS = {'any': ty.PositionalValue, 'int': ty.IntPositionalValue, 'float': ty.FloatPositionalValue, 'string': ty.StringPositionalValue}


def entries(d):
    return [{'k': list(k), 'v': [] if ty.ispositional(v) else list(v), 'pos': ty.ispositional(v)} for k, v in d.items()]


def run(case):
    d, steps = None, []
    for op in case['ops']:
        e = dict(op)
        k = op['e']
        t = ''.join(op.get('t', [])) or None
        if t and op.get('bare'):
            t = t[1:]
        if k in ('find', 'get'):
            attr = KINDS[op['kind']] if op['kind'] else ''.join(op['name'])
        if k == 'parse':
            d = Attributes(''.join(op['text']))
            e['got'] = entries(d)
        elif k == 'view':
            e['got'] = entries(d.filter(target=t))
        elif k == 'raw':
            e['got'] = entries(d.filter(target=t, strip=False))
        elif k == 'pick':
            asked = [KINDS[a['kind']] if a['kind'] else ''.join(a['name']) for a in op['asked']]
            e['got'] = entries(d.filter(attrs=asked[0] if op.get('alone') and len(asked) == 1 and isinstance(asked[0], str) else asked,
                                        target=t, sort_by_attrs=op['sorted']))
        elif k == 'find':
            r = d.find_item(attr, target=t)
            e['got'] = {'found': r is not None, 'k': list(r[0]) if r else [], 'v': [] if r is None or ty.ispositional(r[1]) else list(r[1]),
                        'pos': r is not None and ty.ispositional(r[1])}
        elif k == 'get':
            r = d.get(attr, target=t)
            e['got'] = {'found': r is not None, 'pos': ty.ispositional(r), 'v': [] if r is None or ty.ispositional(r) else list(r)}
        elif k == 'text':
            w = d.filter(target=t)
            e['got'] = {'html': list(w.html), 'args': list(w.tex_arguments), 'opts': list(w.tex_optionals)}
        elif k == 'append':
            if op['pos']:
                d.append(''.join(op['k']))
            else:
                d.append(''.join(op['k']), ''.join(op['v']))
            e['got'] = entries(d)
        elif k == 'dict':
            e['got'] = entries(d)
        elif k == 'copy':
            c = d.copy()
            e['got'] = entries(c)
            c['a new one'] = '1'
        e.pop('bare', None)
        e.pop('alone', None)
        steps.append(e)
    return {'steps': steps}
