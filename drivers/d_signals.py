"""Replays registry operations on the real signals; records what each operation did."""
import gc
from disseminate.signals.signals import Signal, Namespace
from disseminate.signals.exceptions import DuplicateSignal

tag_created = None
BASE = [10 ** 6]


class Boom(Exception):
    pass


def mk(hid, log, ctl):
    def h(**kw):
        if kw.get('payload') != ctl['payload'] or set(kw) - {'payload', 'tag', 'tag_factory', 'tag_base_cls'}:
            log.append('badargs')
        log.append(hid)
        if ctl['raiser'] == hid:
            raise Boom(hid)
        return hid
    h.__name__ = hid
    return h


class Fake:
    """stands for a tag; unknown attributes are absent"""


def connect(s, h, order, weak, via):
    try:
        if via:
            return 'ok' if s.connect_via(order=order, weak=weak)(h) is h else 'handler replaced'
        s.connect(h, order, weak=weak)
        return 'ok'
    except DuplicateSignal:
        return 'duplicate'


def listing(s, lowest):
    d = s.receivers_dict()
    return [d[k].__name__ for k in sorted(d) if lowest is None or k >= lowest]


def run(case):
    ns = Namespace()
    log, ctl = [], {'payload': 0, 'raiser': ''}
    handlers = {}
    steps = []
    BASE[0] += 1000
    base = BASE[0]
    global tag_created
    tagmode = case.get('tagmode', False)
    if tagmode and tag_created is None:
        import disseminate.tags  # noqa
        from disseminate.tags.signals import tag_created

    def sig(n):
        return tag_created if tagmode else ns.signal(n)
    offset = base if tagmode else 0
    foreign = [r.__name__ for r in tag_created.receivers_dict().values()] if tagmode else []
    used = []
    for i, op in enumerate(case['ops']):
        op = dict(op)
        kind = op['op']
        if kind == 'connect':
            h = handlers.setdefault(op['hid'], None) or mk(op['hid'], log, ctl)
            handlers[op['hid']] = h
            obs = {'res': connect(sig(op['sig']), h, op['order'] + offset, op['weak'], i % 2)}
            if obs['res'] == 'ok':
                used.append(op['order'] + offset)
            del h
        elif kind == 'drop':
            handlers.pop(op['hid'], None)
            gc.collect()
            obs = {'res': 'ok'}
        elif kind == 'reset':
            sig(op['sig']).reset()
            gc.collect()
            obs = {'res': 'ok'}
        elif kind == 'list':
            obs = {'res': 'ok', 'calls': listing(sig(op['sig']), offset if tagmode else None)}
        elif kind == 'emit':
            del log[:]
            ctl['payload'] = i
            ctl['raiser'] = op['raiser']
            kw = {'payload': i}
            if tagmode:
                t = Fake()
                for s in op['switches']:
                    setattr(t, s['name'], s['on'])
                for n in foreign:
                    setattr(t, n, False)
                kw.update(tag=t)
            try:
                vals = sig(op['sig']).emit(**kw)
                obs = {'res': 'ok', 'calls': list(log), 'values': [v for v in vals if v is not None]}
            except Boom:
                obs = {'res': 'raised', 'calls': list(log)}
            ctl['raiser'] = ''
        op['obs'] = obs
        steps.append(op)
    if tagmode:
        for o in used:
            tag_created.receivers.pop(o, None)
    return {'steps': steps}
