"""C22 signals: registry state machine (specs/Signals.tla)."""
import vf
SIGS = {'"s1"', '"s2"'}
def consts(n, orders=(1, 2), hids=('"a"', '"b"')):
    return dict(SigNames=set(['"s1"']), Orders=set(orders), Hids=set(hids), MaxLen=n)


def run(ctx):
    # 1. design: all reachable registries of a small scope
    r = ctx.tlc('Signals', consts=consts(ctx.n(4, 5)), next='Next', init='GInit', inv=['OnePerPlace', 'DeadNotCalled', 'Increasing', 'Emit'])
    # 2. replay of every generated history (ending in an emission)
    cases = []
    seen = set()
    for h in r['printed']:
        cases.append(dict(ops=[{k: v for k, v in o.items() if k != 'obs'} for o in h], exp=[o['obs'] for o in h]))
    ctx.notes['generated'] = len(cases)
    if len(cases) > ctx.n(900, 20000):
        cases = ctx.rng.sample(cases, ctx.n(900, 20000))
    # 3. random deep histories over several signals, orders, weak/strong handlers, raising handlers and tag switches
    for i in range(ctx.n(300, 4000)):
        tagmode = i % 3 == 0
        dead, ops = set(), []
        hids = ['h%d' % k for k in range(6)]
        for _ in range(ctx.rng.randint(5, 40)):
            k = ctx.rng.random()
            s = 's1' if tagmode else ctx.rng.choice(['s1', 's2', 's3'])
            live = [h for h in hids if h not in dead]
            if k < .45 and live:
                ops.append(dict(op='connect', sig=s, order=ctx.rng.choice([1, 2, 3, 5, 10, 100, 99, 20]) if not ctx.rng.random() < .2 or tagmode else -ctx.rng.randint(1, 9), hid=ctx.rng.choice(live), weak=ctx.rng.random() < .7))
            elif k < .55 and live:
                h = ctx.rng.choice(live)
                dead.add(h)
                ops.append(dict(op='drop', hid=h))
            elif k < .6 and not tagmode:
                ops.append(dict(op='reset', sig=s))
            elif k < .7:
                ops.append(dict(op='list', sig=s))
            else:
                sw = [dict(name=h, on=ctx.rng.random() < .4) for h in hids if ctx.rng.random() < .5] if tagmode else []
                ops.append(dict(op='emit', sig=s, raiser=ctx.rng.choice(hids) if ctx.rng.random() < .15 else '', switches=sw))
        ops.append(dict(op='emit', sig='s1', raiser='', switches=[]))
        cases.append(dict(ops=ops, tagmode=tagmode))
    cases.sort(key=lambda c: bool(c.get('tagmode')))
    k = sum(1 for c in cases if not c.get('tagmode'))
    res = ctx.drive('signals', cases[:k]) + ctx.drive('signals', cases[k:])
    traces = []
    for c, r in ctx.settle(cases, res, 'signal histories'):
        traces.append(dict(steps=r['steps']))
    ctx.sample(traces[-1])
    ctx.validate('Signals', traces, 'event registry', consts=consts(0), workers=8)
    ctx.assume('a handler whose weak owner is gone is collected (the drivers force a collection)',
               'whether a new handler may take the place of a dead one is left open by the specification')
