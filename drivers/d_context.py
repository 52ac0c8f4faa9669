"""Runs histories of context operations on the real contexts; records the settings of all contexts after each."""
from disseminate.context import BaseContext


class Ctx(BaseContext):
    __slots__ = ()
    do_not_inherit = {'own'}
    exclude_from_reset = {'kept'}
    replace = {'rep', 'rept'}


def enc(x):
    if isinstance(x, bool):
        return {'t': 'bool', 'v': x}
    if isinstance(x, int):
        return {'t': 'int', 'v': x}
    if isinstance(x, float):
        return {'t': 'float', 'v': round(x * 100)}
    if isinstance(x, str):
        return {'t': 'str', 'v': list(x)}
    if isinstance(x, list):
        return {'t': 'list', 'v': [enc(i) for i in x]}
    if isinstance(x, (set, frozenset)):
        return {'t': 'set', 'v': [list(i) for i in sorted(x)]}
    if isinstance(x, dict):
        return {'t': 'dict', 'v': ents(x)}
    return {'t': 'odd', 'v': list(repr(x))}


def ents(d):
    return [{'k': list(k), 'v': enc(v)} for k, v in sorted(d.items())]


def dec(x):
    t, v = x['t'], x['v']
    if t == 'str':
        return ''.join(v)
    if t == 'float':
        return v / 100
    if t == 'list':
        return [dec(i) for i in v]
    if t == 'set':
        return {''.join(i) for i in v}
    if t == 'dict':
        return {''.join(e['k']): dec(e['v']) for e in v}
    return v


def decd(q):
    return {''.join(e['k']): dec(e['v']) for e in q}


def run(case):
    cs, steps = {}, []
    for n, op in enumerate(case['ops']):
        k = op['op']
        if k == 'new':
            init = decd(op['init'])
            parent = cs.get(op['parent'])
            cs[op['name']] = Ctx(init, parent_context=parent) if n % 2 else Ctx(parent_context=parent, **init)
        elif k == 'reset':
            cs[op['name']].reset()
        elif k == 'update':
            ch = cs[op['src']] if op['src'] else decd(op['changes'])
            before = enc(ch)
            cs[op['name']].match_update(ch, keys=[''.join(x) for x in op['keys']] if op['some'] else None, overwrite=op['over'])
            if enc(ch) != before:
                raise AssertionError('the source of the update is altered')
        elif k == 'text':
            t = ''.join(op['text'])
            if op['load']:
                cs[op['name']].load(t, overwrite=op['over'])
            else:
                cs[op['name']].match_update(t, overwrite=op['over'])
        elif k == 'filter':
            cs[op['name']] = cs[op['src']].filter([''.join(x) for x in op['keys']])
        elif k == 'poke':
            o, t = cs[op['name']].get(''.join(op['key'])), ''.join(op['text'])
            if isinstance(o, list):
                o.append(t)
            elif isinstance(o, set):
                o.add(t)
            elif isinstance(o, dict):
                o[t] = t
        e = dict(op)
        e['obs'] = [{'name': c, 'vals': ents(cs[c])} for c in sorted(cs)]
        steps.append(e)
    return {'steps': steps, 'noinherit': [list('own')], 'replaced': [list('rep'), list('rept')], 'kept': [list('kept')]}
